package ref

import "math"

// Layer kinds, with the type codes the documentation of the format gives them.
const (
	Hidden = iota
	Linear
	Sigmoid
	Leaky
	Softmax
	Dropout
)

// Layer is a reference layer. Dropout without a mask behaves like Hidden.
type Layer struct {
	Kind  int
	W, B  Mat
	Slope float64
}

// Pre is XW+B.
func (l *Layer) Pre(x Mat) Mat {
	o := Zeros(x.R, l.W.C)
	ts := make([]N, x.C+1)
	for i := 0; i < x.R; i++ {
		for j := 0; j < l.W.C; j++ {
			for k := 0; k < x.C; k++ {
				ts[k] = Mul(x.At(i, k), l.W.At(k, j))
			}
			ts[x.C] = l.B.A[j]
			o.Set(i, j, Sum(ts))
		}
	}
	return o
}

func sigmoid(z N) N {
	var v float64
	if z.V >= 0 {
		v = 1 / (1 + math.Exp(-z.V))
	} else {
		e := math.Exp(z.V)
		v = e / (1 + e)
	}
	// Between z-E and z+E, s' <= s <= s(z)*exp(E), and s' <= 1/4.
	d := v * math.Exp(z.E)
	if !(d < 0.25) {
		d = 0.25
	}
	return N{v, d*z.E + 8*U*v + tinyErr(v)}
}

func softmaxRow(z []N) []N {
	mx := math.Inf(-1)
	for _, a := range z {
		mx = math.Max(mx, a.V)
	}
	es := make([]N, len(z))
	for i, a := range z {
		es[i] = Exp(Sub(a, Exact(mx)))
	}
	s := Sum(es)
	o := make([]N, len(z))
	for i := range es {
		o[i] = Div(es[i], s)
	}
	return o
}

// Act applies the activation to the pre-activations.
func (l *Layer) Act(z Mat) Mat {
	switch l.Kind {
	case Linear:
		return z.Clone()
	case Sigmoid:
		return z.Map(sigmoid)
	case Leaky:
		wide := math.Max(1, l.Slope)
		return z.Map(func(a N) N {
			switch {
			case a.V > a.E || a.E == 0 && a.V == 0:
				return a
			case a.V < -a.E:
				return Mul(a, Exact(l.Slope))
			case a.V >= 0:
				return N{a.V, a.E * wide}
			default:
				return N{a.V * l.Slope, a.E*wide + U*math.Abs(a.V*l.Slope)}
			}
		})
	case Softmax:
		o := Zeros(z.R, z.C)
		for i := 0; i < z.R; i++ {
			copy(o.Row(i), softmaxRow(z.Row(i)))
		}
		return o
	default: // Hidden, Dropout
		return z.Map(func(a N) N {
			if a.V >= 0 {
				return a
			}
			if a.V+a.E < 0 {
				return N{}
			}
			return N{0, a.E}
		})
	}
}

func (l *Layer) Forward(x Mat) Mat { return l.Act(l.Pre(x)) }

// PreGrad turns the gradient of the outputs into that of the pre-activations.
func (l *Layer) PreGrad(z, dv Mat) Mat {
	o := Zeros(z.R, z.C)
	switch l.Kind {
	case Linear:
		return dv.Clone()
	case Sigmoid:
		for i := range z.A {
			s := sigmoid(z.A[i])
			d := Mul(s, Sub(Exact(1), s))
			o.A[i] = Mul(dv.A[i], d)
		}
	case Softmax:
		for r := 0; r < z.R; r++ {
			p := softmaxRow(z.Row(r))
			for j := range p {
				ts := []N{}
				for k := range p {
					var jac N
					if k == j {
						jac = Sub(p[j], Mul(p[j], p[j]))
					} else {
						jac = Neg(Mul(p[j], p[k]))
					}
					ts = append(ts, Mul(jac, dv.At(r, k)))
				}
				o.Set(r, j, Sum(ts))
			}
		}
	default:
		lo := 0.0
		if l.Kind == Leaky {
			lo = l.Slope
		}
		for i := range z.A {
			var d N
			switch {
			case z.A[i].V > z.A[i].E:
				d = Exact(1)
			case z.A[i].V < -z.A[i].E:
				d = Exact(lo)
			default: // at the kink, either one-sided derivative
				d = N{(1 + lo) / 2, math.Abs(1-lo) / 2}
			}
			o.A[i] = Mul(dv.A[i], d)
		}
	}
	return o
}

// Backward gives the gradients for weights, biases and inputs.
func (l *Layer) Backward(x, dv Mat) (dw, db, dx Mat) {
	return l.params(x, l.PreGrad(l.Pre(x), dv))
}

func (l *Layer) params(x, dz Mat) (dw, db, dx Mat) {
	return Dot(T(x), dz), ColSums(dz), Dot(dz, T(l.W))
}

// SoftmaxCE is the combined gradient of the batch-average cross-entropy of softmax.
func (l *Layer) SoftmaxCE(x, y Mat) (dw, db, dx Mat) {
	p := l.Forward(x)
	dz := Zeros(p.R, p.C)
	for i := range dz.A {
		dz.A[i] = Div(Sub(p.A[i], y.A[i]), Exact(float64(p.R)))
	}
	return l.params(x, dz)
}

// Losses, with their type codes.
const (
	MSE = iota
	MAE
	CE
	BCE
)

const (
	clipLo = 1e-7
	clipHi = 1 - 1e-7
)

func clip(a N) N {
	if a.V < clipLo {
		if a.V+a.E < clipLo {
			return Exact(clipLo)
		}
		return N{clipLo, a.E}
	}
	if a.V > clipHi {
		if a.V-a.E > clipHi {
			return Exact(clipHi)
		}
		return N{clipHi, a.E}
	}
	return a
}

// Loss is the batch-average loss.
func Loss(kind int, p, y Mat) N {
	n := Exact(float64(p.R * p.C))
	ts := make([]N, 0, len(p.A))
	switch kind {
	case MSE:
		for i := range p.A {
			d := Sub(p.A[i], y.A[i])
			ts = append(ts, Mul(d, d))
		}
	case MAE:
		for i := range p.A {
			ts = append(ts, Abs(Sub(p.A[i], y.A[i])))
		}
	case CE:
		n = Exact(float64(p.R))
		for r := 0; r < p.R; r++ {
			s := make([]N, p.C)
			for j := range s {
				s[j] = Mul(clip(p.At(r, j)), y.At(r, j))
			}
			ts = append(ts, Neg(Log(Sum(s))))
		}
	case BCE:
		for i := range p.A {
			c := clip(p.A[i])
			a := Mul(y.A[i], Log(c))
			b := Mul(Sub(Exact(1), y.A[i]), Log(Sub(Exact(1), c)))
			ts = append(ts, Neg(Sum([]N{a, b})))
		}
	}
	// Dividing each term or the sum is the same up to rounding; leave room for both.
	s := Div(Sum(ts), n)
	s.E += 4 * U * math.Abs(s.V)
	return s
}

// LossGrad is the derivative of Loss with respect to the predictions.
func LossGrad(kind int, p, y Mat) Mat {
	o := Zeros(p.R, p.C)
	n := float64(p.R * p.C)
	for i := range p.A {
		switch kind {
		case MSE:
			o.A[i] = Mul(Sub(p.A[i], y.A[i]), Div(Exact(2), Exact(n)))
		case MAE:
			d := Sub(p.A[i], y.A[i])
			switch {
			case d.V > d.E:
				o.A[i] = Div(Exact(1), Exact(n))
			case d.V < -d.E:
				o.A[i] = Div(Exact(-1), Exact(n))
			case d.isZero():
				o.A[i] = N{}
			default:
				o.A[i] = N{0, 1 / n}
			}
		case CE:
			o.A[i] = Div(Neg(Div(y.A[i], clip(p.A[i]))), Exact(float64(p.R)))
		case BCE:
			c := clip(p.A[i])
			a := Div(y.A[i], c)
			b := Div(Sub(Exact(1), y.A[i]), Sub(Exact(1), c))
			o.A[i] = Div(Neg(Sub(a, b)), Exact(n))
		}
	}
	return o
}

// Opt is a reference optimizer for one layer.
type Opt struct {
	Adam              bool
	LR, Decay         float64
	Momentum          float64
	Eps, Beta1, Beta2 float64
	t                 int
	mw, mb, cw, cb    Mat
}

func (o Opt) Fresh() *Opt {
	return &Opt{Adam: o.Adam, LR: o.LR, Decay: o.Decay, Momentum: o.Momentum, Eps: o.Eps, Beta1: o.Beta1, Beta2: o.Beta2}
}

func pow(b float64, n int) N {
	v := math.Pow(b, float64(n))
	return N{v, float64(4+n) * U * math.Abs(v)} // also by repeated multiplication
}

// Update applies one step to the parameters in place.
func (o *Opt) Update(w, b, dw, db Mat) {
	if o.mw.A == nil {
		o.mw, o.mb = Zeros(w.R, w.C), Zeros(b.R, b.C)
		o.cw, o.cb = Zeros(w.R, w.C), Zeros(b.R, b.C)
	}
	rate := Div(Exact(o.LR), Add(Exact(1), Mul(Exact(o.Decay), Exact(float64(o.t)))))
	if o.Decay == 0 {
		rate = Exact(o.LR)
	}
	step := func(p, m, c, g Mat) {
		for i := range p.A {
			if !o.Adam {
				v := Sub(Mul(Exact(o.Momentum), m.A[i]), Mul(rate, g.A[i]))
				m.A[i] = v
				p.A[i] = Add(p.A[i], v)
				continue
			}
			b1, b2 := Exact(o.Beta1), Exact(o.Beta2)
			one := Exact(1)
			m.A[i] = Add(Mul(b1, m.A[i]), Mul(Sub(one, b1), g.A[i]))
			c.A[i] = Add(Mul(b2, c.A[i]), Mul(Sub(one, b2), Mul(g.A[i], g.A[i])))
			mh := Div(m.A[i], Sub(one, pow(o.Beta1, o.t+1)))
			ch := Div(c.A[i], Sub(one, pow(o.Beta2, o.t+1)))
			d := Add(Sqrt(ch), Exact(o.Eps))
			p.A[i] = Sub(p.A[i], Div(Mul(rate, mh), d))
		}
	}
	step(w, o.mw, o.cw, dw)
	step(b, o.mb, o.cb, db)
	o.t++
}

// Model is a reference model.
type Model struct {
	Layers []*Layer
	Loss   int
	Opts   []*Opt
	// Masks, if set, gives the scaled dropout mask of layer i for a training pass.
	Masks map[int]Mat
}

func (m *Model) Forward(x Mat) []Mat {
	outs := []Mat{x}
	for _, l := range m.Layers {
		outs = append(outs, l.Forward(outs[len(outs)-1]))
	}
	return outs
}

func (m *Model) forwardMasked(x Mat) []Mat {
	outs := []Mat{x}
	for i, l := range m.Layers {
		o := l.Forward(outs[len(outs)-1])
		if mk, ok := m.Masks[i]; ok {
			o = mulElem(o, mk)
		}
		outs = append(outs, o)
	}
	return outs
}

func mulElem(a, b Mat) Mat {
	o := Zeros(a.R, a.C)
	for i := range a.A {
		o.A[i] = Mul(a.A[i], b.A[i])
	}
	return o
}

// Grads gives weight and bias gradients per layer, first layer first.
func (m *Model) Grads(x, y Mat) (dws, dbs []Mat) {
	n := len(m.Layers)
	outs := m.forwardMasked(x)
	dws, dbs = make([]Mat, n), make([]Mat, n)
	var dv Mat
	i := n - 1
	if last := m.Layers[n-1]; last.Kind == Softmax && m.Loss == CE {
		dws[i], dbs[i], dv = last.SoftmaxCE(outs[i], y)
		i--
	} else {
		dv = LossGrad(m.Loss, outs[n], y)
	}
	for ; i >= 0; i-- {
		if mk, ok := m.Masks[i]; ok {
			dv = mulElem(dv, mk)
		}
		dws[i], dbs[i], dv = m.Layers[i].Backward(outs[i], dv)
	}
	return
}

// Fit is the textbook mini-batch loop. after, if not nil, is called at the end of each epoch.
func (m *Model) Fit(x, y Mat, epochs, batch int, after func(epoch int)) {
	if batch == 0 || batch > x.R {
		batch = x.R
	}
	for e := 0; e < epochs; e++ {
		for lo := 0; lo < x.R; lo += batch {
			hi := lo + batch
			if hi > x.R {
				hi = x.R
			}
			dws, dbs := m.Grads(x.Rows(lo, hi), y.Rows(lo, hi))
			for i, l := range m.Layers {
				m.Opts[i].Update(l.W, l.B, dws[i], dbs[i])
			}
		}
		if after != nil {
			after(e)
		}
	}
}

// Forget drops the error bounds gathered so far, for long runs that are judged by a tolerance.
func (m *Model) Forget() {
	drop := func(x Mat) {
		for i := range x.A {
			x.A[i].E = 0
		}
	}
	for _, l := range m.Layers {
		drop(l.W)
		drop(l.B)
	}
	for _, o := range m.Opts {
		for _, x := range []Mat{o.mw, o.mb, o.cw, o.cb} {
			drop(x)
		}
	}
}
