package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P28: training learns.

type learnCase struct {
	Task       string // regression, softmax, logistic
	N, In, Out int
	Seed       uint64
	Noise      F // regression: 0 is realisable
	Rate       F // fraction of the largest stable rate
	Adam       bool
	Momentum   F
	Batch      int // 0: full batch
	Saved      bool
	Layer      int // kind of the layer
	Start      F   // size of the parameters at the start
	Scale      F
}

func genLearn(t *rapid.T) learnCase {
	c := learnCase{Task: pick(t, "task", "regression", "regression", "softmax", "logistic"), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
	c.In, c.Out = rapid.IntRange(1, 4).Draw(t, "in"), rapid.IntRange(1, 3).Draw(t, "out")
	c.N = rapid.IntRange(3*(c.In+1), 30).Draw(t, "rows")
	c.Rate = F(sample(t, "rate", []float64{0.9, 0.5, 0.5, 0.3, 0.7}))
	c.Saved = chance(t, "saved", 1, 3)
	c.Start = F(sample(t, "start", []float64{0, 0.1, 1}))
	switch c.Task {
	case "regression":
		c.Layer = ref.Linear
		if chance(t, "noisy", 1, 2) {
			c.Noise = F(sample(t, "noise", []float64{0.1, 0.5, 1}))
		}
		c.Scale = F(sample(t, "scale", []float64{1, 1, 0.1, 30}))
	case "softmax":
		c.Layer = ref.Softmax
		c.Out = rapid.IntRange(2, 4).Draw(t, "classes")
		c.In = rapid.IntRange(2, 4).Draw(t, "in2")
		c.Start = 0
	case "logistic":
		c.Layer = ref.Sigmoid
		c.Start = 0
	}
	c.N = max(c.N, 12)
	switch rapid.IntRange(0, 5).Draw(t, "mode") {
	case 0, 1:
	case 2:
		c.Adam = true
	case 3:
		c.Momentum = F(sample(t, "momentum", []float64{0.5, 0.8, 0.9}))
	default:
		c.Batch = rapid.IntRange(2, c.N-1).Draw(t, "batch")
		c.Noise = 0
	}
	return c
}

// problem makes the data: inputs of moderate condition, and targets.
func (c learnCase) problem() (x, y [][]float64) {
	r := &rng{c.Seed}
	r.next()
	switch c.Task {
	case "regression":
		w := make([]float64, (c.In+1)*c.Out)
		for i := range w {
			w[i] = r.norm() * float64(c.Scale)
		}
		for i := 0; i < c.N; i++ {
			row, out := make([]float64, c.In), make([]float64, c.Out)
			for j := range row {
				row[j] = r.norm()
			}
			for k := range out {
				out[k] = w[c.In*c.Out+k] + float64(c.Noise)*r.norm()
				for j := range row {
					out[k] += row[j] * w[j*c.Out+k]
				}
			}
			x, y = append(x, row), append(y, out)
		}
	case "softmax":
		// Classes around the ends of vectors that a linear map can tell apart.
		for i := 0; i < c.N; i++ {
			k := i % c.Out
			row, out := make([]float64, c.In), make([]float64, c.Out)
			a := 2 * math.Pi * float64(k) / float64(c.Out)
			row[0], row[1] = 3*math.Cos(a), 3*math.Sin(a)
			for j := range row {
				row[j] += 0.6 * (r.unit() - 0.5)
			}
			out[k] = 1
			x, y = append(x, row), append(y, out)
		}
	case "logistic":
		// Each output is the side of a hyperplane.
		w := make([]float64, c.In*c.Out)
		for i := range w {
			w[i] = r.norm()
		}
		for len(x) < c.N {
			row, out := make([]float64, c.In), make([]float64, c.Out)
			for j := range row {
				row[j] = r.norm() * 1.5
			}
			ok := true
			for k := range out {
				s, n := 0.0, 0.0
				for j := range row {
					s += row[j] * w[j*c.Out+k]
					n += w[j*c.Out+k] * w[j*c.Out+k]
				}
				ok = ok && math.Abs(s) > 0.6*math.Sqrt(n)
				if s > 0 {
					out[k] = 1
				}
			}
			if ok || r.intn(400) == 0 {
				if !ok {
					// Give up on a margin in a bad arrangement: repeat an earlier row.
					if len(x) == 0 {
						continue
					}
					row, out = x[0], y[0]
				}
				x, y = append(x, append([]float64(nil), row...)), append(y, append([]float64(nil), out...))
			}
		}
	}
	return x, y
}

// eigenRange gives the largest and the smallest eigenvalue of A'A/n with A = [X 1].
func eigenRange(x [][]float64) (hi, lo float64) {
	d := len(x[0]) + 1
	g := make([][]float64, d)
	for i := range g {
		g[i] = make([]float64, d)
	}
	for _, r := range x {
		a := append(append([]float64(nil), r...), 1)
		for i := range a {
			for j := range a {
				g[i][j] += a[i] * a[j] / float64(len(x))
			}
		}
	}
	// Jacobi rotations.
	for sweep := 0; sweep < 60; sweep++ {
		for p := 0; p < d; p++ {
			for q := p + 1; q < d; q++ {
				if math.Abs(g[p][q]) < 1e-300 {
					continue
				}
				th := 0.5 * math.Atan2(2*g[p][q], g[p][p]-g[q][q])
				c, s := math.Cos(th), math.Sin(th)
				for k := 0; k < d; k++ {
					a, b := g[p][k], g[q][k]
					g[p][k], g[q][k] = c*a+s*b, -s*a+c*b
				}
				for k := 0; k < d; k++ {
					a, b := g[k][p], g[k][q]
					g[k][p], g[k][q] = c*a+s*b, -s*a+c*b
				}
			}
		}
	}
	hi, lo = g[0][0], g[0][0]
	for i := range g {
		hi, lo = math.Max(hi, g[i][i]), math.Min(lo, g[i][i])
	}
	return hi, lo
}

// leastSquares gives the least possible mean squared error, and the parameters that reach it.
func leastSquares(x, y [][]float64) (best float64, w [][]float64) {
	d, k := len(x[0])+1, len(y[0])
	m := make([][]float64, d)
	for i := range m {
		m[i] = make([]float64, d+k)
	}
	for n, r := range x {
		a := append(append([]float64(nil), r...), 1)
		for i := range a {
			for j := range a {
				m[i][j] += a[i] * a[j]
			}
			for j := range y[n] {
				m[i][d+j] += a[i] * y[n][j]
			}
		}
	}
	for p := 0; p < d; p++ {
		b := p
		for i := p; i < d; i++ {
			if math.Abs(m[i][p]) > math.Abs(m[b][p]) {
				b = i
			}
		}
		m[p], m[b] = m[b], m[p]
		for i := 0; i < d; i++ {
			if i != p {
				f := m[i][p] / m[p][p]
				for j := p; j < d+k; j++ {
					m[i][j] -= f * m[p][j]
				}
			}
		}
	}
	w = make([][]float64, d)
	for i := range w {
		w[i] = make([]float64, k)
		for j := range w[i] {
			w[i][j] = m[i][d+j] / m[i][i]
		}
	}
	for n, r := range x {
		a := append(append([]float64(nil), r...), 1)
		for j := range y[n] {
			p := 0.0
			for i := range a {
				p += a[i] * w[i][j]
			}
			best += (p - y[n][j]) * (p - y[n][j])
		}
	}
	return best / float64(len(x)*k), w
}

func flat(a [][]float64) []float64 {
	var o []float64
	for _, r := range a {
		o = append(o, r...)
	}
	return o
}

func checkLearn(c learnCase, o *Obs) error {
	xv, yv := c.problem()
	hi, lo := eigenRange(xv)
	if hi/lo > 60 {
		o.Class("set aside: badly conditioned")
		return nil
	}
	// Curvature of the loss, per kind.
	var smooth, strong float64
	loss, acc := ref.MSE, 0
	switch c.Task {
	case "regression":
		smooth, strong = 2*hi/float64(c.Out), 2*lo/float64(c.Out)
	case "softmax":
		smooth, loss, acc = hi/2, ref.CE, 1
	case "logistic":
		smooth, loss, acc = hi/4/float64(c.Out), ref.BCE, 2
	}
	rate := float64(c.Rate) / smooth
	opt := OptSpec{LR: F(rate), Momentum: c.Momentum}
	if c.Batch > 0 {
		// A step on a batch must be stable for the worst batch, which is a single large row.
		worst := 0.0
		for _, r := range xv {
			s := 1.0
			for _, v := range r {
				s += v * v
			}
			worst = math.Max(worst, s)
		}
		k := smooth / hi
		rate = math.Min(rate, float64(c.Rate)/(k*worst))
		opt.LR = F(rate)
	}
	if c.Momentum != 0 {
		opt.LR = F(rate * (1 - float64(c.Momentum)))
	}
	if c.Adam {
		opt = OptSpec{Adam: true, LR: 0.05, Decay: 0.002, Epsilon: 1e-7, Beta1: 0.9, Beta2: 0.999}
	}
	s := ModelSpec{Layers: []LayerSpec{{Kind: c.Layer, In: c.In, Out: c.Out}}, Loss: loss, Acc: acc, Prec: 0.1, Opt: opt}
	l := &s.Layers[0]
	l.W, l.B = Mat{R: c.In, C: c.Out, Kind: "zero", Seed: 1}, Mat{R: 1, C: c.Out, Kind: "zero", Seed: 1}
	if c.Start != 0 {
		r := &rng{c.Seed + 77}
		for i := 0; i < c.In*c.Out; i++ {
			l.W.V = append(l.W.V, F(r.norm()*float64(c.Start)))
		}
		for i := 0; i < c.Out; i++ {
			l.B.V = append(l.B.V, F(r.norm()*float64(c.Start)))
		}
	}
	m := s.Build()
	x, y := func() nn.Matrix { return mk(c.N, c.In, flat(xv)) }, func() nn.Matrix { return mk(c.N, c.Out, flat(yv)) }
	start, err := m.CalculateLoss(x(), y())
	if err != nil {
		return err
	}
	best := 0.0
	var goal [][]float64
	if c.Task == "regression" {
		best, goal = leastSquares(xv, yv)
	}
	// Enough epochs.
	epochs := 0
	steady := !c.Adam && c.Momentum == 0 && c.Batch == 0
	switch {
	case c.Adam:
		epochs = 1500
		if c.Scale > 1 {
			o.Class("set aside: too far for Adam's steps")
			return nil
		}
	case c.Task != "regression":
		epochs = 300
	case c.Batch > 0:
		epochs = int(40/(rate*strong)) + 20
	default:
		epochs = int(25/(rate*strong)) + 20
	}
	if c.Momentum != 0 {
		epochs += int(30 / (1 - float64(c.Momentum))) // oscillations die out by the root of the momentum
	}
	epochs = min(epochs, 6000)
	cur := start
	done := 0
	fit := func(n int) error {
		if err := m.Fit(x(), y(), n, c.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return err
		}
		done += n
		v, err := m.CalculateLoss(x(), y())
		if err != nil {
			return err
		}
		if !(v >= best-1e-9*(1+best)) {
			return fmt.Errorf("after %d epochs: loss %v is below the least possible %v", done, v, best)
		}
		if steady && n == 1 {
			// Strict decrease by the amount a gradient step on a smooth convex function guarantees
			// is not demanded; any decrease is, away from the minimum.
			far := cur-best > 1e-9*(1+best)
			if v > cur+1e-12*(1+cur) || far && v >= cur {
				return fmt.Errorf("epoch %d raised the loss from %v to %v (least possible %v)", done, cur, v, best)
			}
		}
		cur = v
		return nil
	}
	for i := 0; i < 25 && done < epochs; i++ {
		if err := fit(1); err != nil {
			return err
		}
	}
	if c.Saved {
		if err := fit((epochs - done) / 2); err != nil {
			return err
		}
		b, err := saveModel(m)
		if err != nil {
			return err
		}
		if m, err = loadModel(b); err != nil {
			return err
		}
	}
	if err := fit(epochs - done); err != nil {
		return err
	}
	switch {
	case c.Task == "regression":
		tol := 1e-6*(1+best) + 1e-6*start
		if c.Adam {
			tol = 0.02*(start-best) + 1e-3
		}
		if cur > best+tol {
			return fmt.Errorf("after %d epochs: loss is %v, the least possible is %v (at the start %v)", done, cur, best, start)
		}
		if !c.Adam {
			p := append(append([]float64(nil), params(m)[0]...), params(m)[1]...)
			g := flat(goal)
			far := math.Sqrt(2*(1e-6*(1+best)+1e-6*start)/strong) * 2
			for i := range g {
				if math.Abs(p[i]-g[i]) > far+1e-6 {
					return fmt.Errorf("after %d epochs: parameter %d is %v, at the optimum it is %v", done, i, p[i], g[i])
				}
			}
		}
	default:
		if !(cur < 0.75*start) {
			return fmt.Errorf("after %d epochs: loss is %v, at the start it was %v", done, cur, start)
		}
		// Every row is right once the average loss is below log(2)/rows; with this margin and rate,
		// 20000 epochs are enough for that on a full batch. It usually takes some hundred.
		for {
			a, err := m.CalculateAccuracy(x(), y())
			if err != nil {
				return err
			}
			if a == 1 {
				break
			}
			if done > 20000 {
				return fmt.Errorf("after %d epochs: accuracy is %v on separable data (loss %v)", done, a, cur)
			}
			if err := fit(done); err != nil {
				return err
			}
			o.Class("more epochs")
		}
	}
	o.NT()
	o.Class(c.Task)
	o.ClassIf(steady, "each epoch lowers the loss")
	o.ClassIf(c.Adam, "Adam")
	o.ClassIf(c.Batch > 0, "mini-batches")
	o.ClassIf(c.Momentum != 0, "momentum")
	o.ClassIf(c.Saved, "saved and loaded half-way")
	return nil
}

func init() {
	register("P28", Sub[learnCase]{Name: "convex", Quick: 1600, Thorough: 30000, Gen: genLearn, Check: checkLearn,
		Rule: "linear regression (optimum from the normal equations), softmax and logistic classification of separable data, generated with known curvature so that the learning rate can be set just below what is stable; full batch (25 epochs watched one by one), momentum, Adam and mini-batches, some saved and loaded half-way. Non-trivial: all but badly conditioned problems."})
}
