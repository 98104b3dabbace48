package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P16: accuracy metrics.

type metricCase struct {
	P, Y Mat
	Kind int
	Prec F
	Perm uint64
}

func genMetric(t *rapid.T) metricCase {
	c := metricCase{Kind: rapid.IntRange(0, 2).Draw(t, "kind")}
	rows, cols := drawBigDim(t, "rows", 257), drawDim(t, "cols", 130)
	kinds := []string{"grid", "int", "norm", "wide", "prob", "dist", "onehot", "bin", "mix", "big"}
	c.P = drawMat(t, "P", rows, cols, pick(t, "pKind", kinds...))
	switch c.Kind {
	case 0:
		c.Y = drawMat(t, "Y", rows, cols, pick(t, "yKind", "grid", "norm", "int", "bin"))
	case 1:
		c.Y = drawMat(t, "Y", rows, cols, pick(t, "yKind", "onehot", "onehot", "bin"))
	case 2:
		c.Y = drawMat(t, "Y", rows, cols, pick(t, "yKind", "bin", "bin", "onehot", "prob"))
	}
	if chance(t, "perfect", 1, 8) {
		c.Y = drawMat(t, "Y", rows, cols, pick(t, "yKind2", "onehot", "grid", "bin"))
		if c.Kind == 1 {
			c.Y = drawMat(t, "Y", rows, cols, "onehot")
		}
		if c.Kind == 2 {
			c.Y = drawMat(t, "Y", rows, cols, "bin")
		}
		c.P = c.Y
	}
	c.Prec = F(sample(t, "prec", []float64{0.25, 0.5, 0.1, 1, 0, 2, 1e-9, 100, 1e300}))
	if chance(t, "near", 1, 4) && c.Kind == 0 {
		// Errors of exactly the precision do not count.
		c.Prec = F(sample(t, "prec", []float64{0.25, 0.5, 0.75, 1, math.Nextafter(0.25, 1), math.Nextafter(0.5, 0)}))
	}
	if chance(t, "scaled", 1, 4) && c.Kind == 0 {
		// Targets of any magnitude, errors around the precision whatever their magnitude.
		rows, cols = rapid.IntRange(1, 4).Draw(t, "rows"), rapid.IntRange(1, 5).Draw(t, "cols")
		c.P, c.Y = Mat{R: rows, C: cols}, Mat{R: rows, C: cols}
		c.Prec = F(math.Pow(2, float64(rapid.IntRange(-12, 8).Draw(t, "precExp"))))
		for i := rows * cols; i > 0; i-- {
			y := float64(rapid.IntRange(-9, 9).Draw(t, "y")) * math.Pow(2, float64(rapid.IntRange(-20, 24).Draw(t, "yExp")))
			e := float64(c.Prec) * sample(t, "err", []float64{0, 0.25, 0.5, 0.75, 0.875, 0.9375, 0.999, 1, 1.001, 1.0625, 1.125, 1.25, 1.5, 2, 4, 16, 256, 4096, 1 << 20})
			if rapid.Bool().Draw(t, "below") {
				e = -e
			}
			c.Y.V, c.P.V = append(c.Y.V, F(y)), append(c.P.V, F(y+e))
		}
	}
	c.Perm = rapid.Uint64Range(0, 1<<40).Draw(t, "perm")
	return c
}

func metric(kind int, p, y nn.Matrix, prec float64) float64 {
	switch kind {
	case 0:
		return nn.RegressionAccuracy(p, y, prec)
	case 1:
		return nn.CategoricalAccuracy(p, y)
	}
	return nn.BinaryCategoricalAccuracy(p, y)
}

func checkMetric(c metricCase, o *Obs) error {
	p, y := c.P.NN(), c.Y.NN()
	want := accuracy(c.Kind, float64(c.Prec), c.P.Ref(), c.Y.Ref())
	for i := 0; i < 2; i++ {
		got := metric(c.Kind, p, y, float64(c.Prec))
		if !sameFraction(got, want) || got < 0 || got > 1 {
			return fmt.Errorf("accuracy is %v, want %v", got, want)
		}
		if err := c.P.unchanged("predictions", p); err != nil {
			return err
		}
		if err := c.Y.unchanged("targets", y); err != nil {
			return err
		}
	}
	perm := permutation(c.P.R, c.Perm)
	if got := metric(c.Kind, rowsOf(c.P, perm), rowsOf(c.Y, perm), float64(c.Prec)); !sameFraction(got, want) {
		return fmt.Errorf("accuracy with the rows in another order is %v instead of %v", got, want)
	}
	perfect := metric(c.Kind, y, y, float64(c.Prec))
	suits := c.Kind == 0 && c.Prec > 0 || c.Kind == 1 && c.Y.Kind == "onehot" || c.Kind == 2 && (c.Y.Kind == "bin" || c.Y.Kind == "onehot")
	if suits && !sameFraction(perfect, 1) {
		return fmt.Errorf("the targets themselves have accuracy %v", perfect)
	}
	if want > 0 && want < 1 {
		o.NT()
	}
	o.Class([]string{"regression", "categorical", "binary"}[c.Kind])
	o.ClassIf(want == 1, "all right")
	o.ClassIf(want == 0, "none right")
	return nil
}

// P26: conversions.

type oneHotCase struct {
	Labels []F
	Size   int
}

func checkOneHot(c oneHotCase, o *Obs) error {
	x := mk(len(c.Labels), 1, floats(c.Labels))
	before, _ := vals(x)
	bad := c.Size < 1
	for _, l := range before {
		bad = bad || l < 0 || l >= float64(c.Size)
	}
	for i := 0; i < 2; i++ {
		m, err := nn.SparseToOneHot(x, c.Size)
		if bad != (err != nil) {
			return fmt.Errorf("size %d, labels %v: error %v", c.Size, before, err)
		}
		if e := unchanged("labels", x, len(before), 1, before); e != nil {
			return e
		}
		if bad {
			o.Class("refused")
			if len(before) > 1 {
				o.NT()
			}
			continue
		}
		want := make([]float64, len(before)*c.Size)
		for r, l := range before {
			want[r*c.Size+int(l)] = 1
		}
		if err := unchanged("one-hot rows", m, len(before), c.Size, want); err != nil {
			return err
		}
		back := nn.RowMax(m)
		if err := unchanged("row maxima of the one-hot rows", back, len(before), 1, before); err != nil {
			return err
		}
		if err := ownCells(m); err != nil {
			return err
		}
		if c.Size > 1 {
			o.NT()
		}
	}
	return nil
}

type roundCase struct{ X Mat }

func checkRowMax(c roundCase, o *Obs) error {
	x := c.X.NN()
	v := c.X.Vals()
	want := make([]float64, c.X.R)
	ties, negative := false, false
	for i := range want {
		row := v[i*c.X.C : (i+1)*c.X.C]
		best := 0
		neg := true
		for j, a := range row {
			if a > row[best] {
				best = j
			}
			neg = neg && a < 0
		}
		for j, a := range row {
			ties = ties || j != best && a == row[best]
		}
		negative = negative || neg
		want[i] = float64(best)
	}
	if err := unchanged("row maxima", nn.RowMax(x), c.X.R, 1, want); err != nil {
		return fmt.Errorf("%w (input %v)", err, x.M)
	}
	if err := c.X.unchanged("input", x); err != nil {
		return err
	}
	// What categorical models do with it.
	if c.X.C > 1 {
		o.NT()
	}
	o.ClassIf(ties, "ties")
	o.ClassIf(negative, "a row of negative values")
	return nil
}

func checkRound(c roundCase, o *Obs) error {
	v := c.X.Vals()
	want := make([]float64, len(v))
	ones := 0
	for i, a := range v {
		if !(a < 0.5) {
			want[i] = 1
			ones++
		}
	}
	y := nn.OutputBinaryValues(c.X.NN())
	if err := unchanged("rounded values", y, c.X.R, c.X.C, want); err != nil {
		return fmt.Errorf("%w (input %v)", err, v)
	}
	if err := unchanged("rounded again", nn.OutputBinaryValues(y), c.X.R, c.X.C, want); err != nil {
		return err
	}
	if ones > 0 && ones < len(v) {
		o.NT()
	}
	return nil
}

// P27: constructors.

type makeCase struct {
	What          string
	Kind          int
	In, Out       int
	A, B, C, D, E F   // slope or dropout; or the hyperparameters
	Code          int // of an optimizer
}

var edges = []float64{0, 1, -1, 0.5, 0.1, 1.5, -0.5, 1e-300, -1e-300, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Nextafter(1, 2), math.Nextafter(1, 0), 2, 100, 1e300, -1e300, math.Inf(1), math.Inf(-1)}

func drawEdge(t *rapid.T, label string) F {
	if rapid.Bool().Draw(t, label+"Any") {
		return F(uniformIn(t, label, -0.2, 1.3))
	}
	return F(sample(t, label, edges))
}

func genMake(t *rapid.T) makeCase {
	c := makeCase{What: pick(t, "what", "layer", "layer", "loss", "optimizer")}
	size := func(l string) int {
		if chance(t, l+"Bad", 1, 4) {
			return sample(t, l, []int{0, -1, -2, -100, math.MinInt32, math.MinInt64})
		}
		return drawDim(t, l, 40)
	}
	switch c.What {
	case "layer":
		c.Kind, c.In, c.Out = rapid.IntRange(0, 5).Draw(t, "kind"), size("in"), size("out")
		c.A = drawEdge(t, "a")
	case "loss":
		c.Kind, c.In = rapid.IntRange(0, 3).Draw(t, "kind"), size("in")
	case "optimizer":
		c.Kind = rapid.IntRange(0, 1).Draw(t, "kind")
		c.A, c.B = drawEdge(t, "rate"), drawEdge(t, "decay")
		if chance(t, "goodRate", 1, 2) {
			c.A, c.B = F(math.Abs(float64(c.A))), F(math.Abs(float64(c.B)))
		}
		c.C, c.D, c.E = drawEdge(t, "c"), drawEdge(t, "d"), drawEdge(t, "e")
		c.Code = rapid.IntRange(-128, 127).Draw(t, "code")
	}
	return c
}

func checkMake(c makeCase, o *Obs) error {
	switch c.What {
	case "layer":
		return makeLayer(c, o)
	case "loss":
		l, err := newLoss(c.Kind, c.In)
		if (err != nil) != (c.In < 1) {
			return fmt.Errorf("%s loss of size %d: error %v", lossNames[c.Kind], c.In, err)
		}
		if err == nil {
			o.NT()
			// It takes matrices of just this width.
			p := make([]float64, c.In+1)
			for i := range p {
				p[i] = 0.5
			}
			if err := checkLossObject(l, c.Kind, c.In); err != nil {
				return err
			}
			if _, err := l.Forward(mk(1, c.In+1, p), mk(1, c.In+1, p)); err == nil {
				return fmt.Errorf("%s loss of size %d accepts %d columns", lossNames[c.Kind], c.In, c.In+1)
			}
		}
		return nil
	}
	return makeOptimizer(c, o)
}

func makeLayer(c makeCase, o *Obs) error {
	a := float64(c.A)
	slope, drop := 0.0, 0.0
	bad := c.In < 1 || c.Out < 1
	if c.Kind == ref.Leaky {
		slope = a
		bad = bad || a < 0
	}
	if c.Kind == ref.Dropout {
		drop = a
		bad = bad || a < 0 || a > 1
	}
	l, err := newLayer(c.Kind, c.In, c.Out, slope, drop)
	if bad != (err != nil) {
		return fmt.Errorf("%s layer %dx%d with %v: error %v", layerNames[c.Kind], c.In, c.Out, a, err)
	}
	o.Class(layerNames[c.Kind])
	if bad {
		return nil
	}
	o.NT()
	x := wrap(l)
	if x.In() != c.In || x.Out() != c.Out || x.Slope() != slope || x.Drop() != drop {
		return fmt.Errorf("%s layer %dx%d with %v records %dx%d, slope %v, dropout %v", layerNames[c.Kind], c.In, c.Out, a, x.In(), x.Out(), x.Slope(), x.Drop())
	}
	if err := unchanged("weights of a new layer", *x.W(), c.In, c.Out, make([]float64, c.In*c.Out)); err != nil {
		return err
	}
	if err := unchanged("biases of a new layer", *x.B(), 1, c.Out, make([]float64, c.Out)); err != nil {
		return err
	}
	// What is saved.
	b, err := saveLayer(l)
	if err != nil {
		return fmt.Errorf("new layer cannot be saved: %v", err)
	}
	f, rest, err := ref.DecodeLayer(b)
	if err != nil || len(rest) > 0 {
		return fmt.Errorf("new layer is saved as %x: %v", b, err)
	}
	want := LayerSpec{Kind: c.Kind, In: c.In, Out: c.Out, Slope: F(slope), Drop: F(drop), W: Mat{R: c.In, C: c.Out}, B: Mat{R: 1, C: c.Out}}
	if err := sameLayerFormat("saved layer", f, want.format()); err != nil {
		return err
	}
	// How it behaves.
	in, bias := Mat{R: 2, C: c.In, Kind: "norm", Seed: 5}, Mat{R: 1, C: c.Out, Kind: "grid", Seed: 6}
	setMat(x.B(), bias.Vals())
	want.B = bias
	if math.IsInf(slope, 0) || slope > 1e100 {
		return nil
	}
	y, err := x.eval(in.NN())
	if err != nil {
		return err
	}
	if err := admits("forward pass of a new layer", y, want.Ref().Forward(in.Ref()), o); err != nil {
		return err
	}
	if c.Kind == ref.Dropout {
		y, err := x.Forward(in.NN())
		if err != nil {
			return err
		}
		if drop > 0 && drop < 1 {
			_, _, err = readMask("training pass of a new layer", want, in.Ref(), y)
			return err
		}
		w := want.Ref().Forward(in.Ref())
		if drop == 1 {
			w = ref.Zeros(2, c.Out)
		}
		return admits("training pass of a new layer", y, w, o)
	}
	return nil
}

func makeOptimizer(c makeCase, o *Obs) error {
	rate, decay := float64(c.A), float64(c.B)
	var opt nn.Optimizer
	var err error
	bad := rate <= 0 || decay < 0
	s := OptSpec{Adam: c.Kind == 1, LR: c.A, Decay: c.B}
	if c.Kind == 0 {
		bad = bad || c.C < 0
		s.Momentum = c.C
		var x nn.SGDOptimizer
		x, err = nn.NewSGDOptimizer(rate, decay, float64(c.C))
		if err == nil && (x.LearningRate != rate || x.Decay != decay || x.Momentum != float64(c.C)) {
			return fmt.Errorf("SGD optimizer with %v, %v, %v records %v, %v, %v", rate, decay, c.C, x.LearningRate, x.Decay, x.Momentum)
		}
		opt = &x
	} else {
		s.Epsilon, s.Beta1, s.Beta2 = c.C, c.D, c.E
		var x nn.AdamOptimizer
		x, err = nn.NewAdamOptimizer(rate, decay, float64(c.C), float64(c.D), float64(c.E))
		if err == nil && (x.LearningRate != rate || x.Decay != decay || x.Epsilon != float64(c.C) || x.Beta1 != float64(c.D) || x.Beta2 != float64(c.E)) {
			return fmt.Errorf("Adam optimizer with %v, %v, %v, %v, %v records %v, %v, %v, %v, %v", rate, decay, c.C, c.D, c.E, x.LearningRate, x.Decay, x.Epsilon, x.Beta1, x.Beta2)
		}
		opt = &x
	}
	if bad != (err != nil) {
		return fmt.Errorf("optimizer %+v: error %v", s, err)
	}
	if c.Code != 0 && c.Code != 1 {
		x, err := nn.NewOptimizerFromType(nn.OptimizerType(c.Code), s.Values())
		if err == nil || x != nil {
			return fmt.Errorf("an optimizer of the unknown kind %d is %v, %v", c.Code, x, err)
		}
	}
	o.Class([]string{"SGD", "Adam"}[c.Kind])
	if bad {
		return nil
	}
	o.NT()
	// The settings are those saved with a model that uses it.
	l := LayerSpec{Kind: ref.Linear, In: 1, Out: 1, W: Mat{R: 1, C: 1}, B: Mat{R: 1, C: 1}}
	spec := ModelSpec{Layers: []LayerSpec{l}, Opt: s, Prec: 0.5}
	m := nn.NewModel()
	if err := m.AddLayer(l.Build().Layer); err != nil {
		return err
	}
	if err := m.Finalize(mustLoss(ref.MSE, 1), opt, 0, 0.5); err != nil {
		return fmt.Errorf("model with optimizer %+v refused: %v", s, err)
	}
	b, err := saveModel(&m)
	if err != nil {
		return err
	}
	f, rest, err := ref.DecodeModel(b)
	if err != nil || len(rest) > 0 {
		return fmt.Errorf("model is saved as %x: %v", b, err)
	}
	if err := sameFormat("saved model", f, spec.format()); err != nil {
		return err
	}
	// And those used in training.
	for _, v := range []F{c.A, c.B, c.C, c.D, c.E} {
		if !(math.Abs(float64(v)) <= 1e3) || v != 0 && math.Abs(float64(v)) < 1e-100 {
			return nil
		}
	}
	if c.Kind == 1 && (c.C < 0 || c.D < 0 || c.D >= 1 || c.E < 0 || c.E >= 1) {
		return nil
	}
	r := spec.Ref()
	x, y := Mat{R: 2, C: 1, Kind: "norm", Seed: 3}, Mat{R: 2, C: 1, Kind: "norm", Seed: 4}
	if err := m.Fit(x.NN(), y.NN(), 3, 1, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
		return err
	}
	r.Fit(x.Ref(), y.Ref(), 3, 1, nil)
	return admitsParams("after training", &m, r, o)
}

func init() {
	register("P16", Sub[metricCase]{Name: "metrics", Quick: 60000, Thorough: 1000000, Gen: genMetric, Check: checkMetric,
		Rule: "predictions and targets of many kinds up to 257 rows and 130 columns (ties, values of exactly 0.5, errors of exactly the precision, errors around the precision at targets of any magnitude, perfect predictions), each also in another order; compared exactly with counting. Non-trivial: some entries right and some wrong."})
	register("P26",
		Sub[oneHotCase]{Name: "onehot", Quick: 60000, Thorough: 600000, Check: checkOneHot,
			Rule: "up to 300 labels, sizes from below 1 up to 300, a third of the cases with a label out of range (negative, the size itself, beyond any integer) or a bad size; exact comparison, and back through row maxima. Non-trivial: refused with several labels, or more than one column.",
			Gen: func(t *rapid.T) oneHotCase {
				c := oneHotCase{Size: drawBigDim(t, "size", 257)}
				for i := drawDim(t, "rows", 300); i > 0; i-- {
					c.Labels = append(c.Labels, F(rapid.IntRange(0, c.Size-1).Draw(t, "label")))
				}
				if chance(t, "bad", 1, 3) {
					if chance(t, "badSize", 1, 3) {
						c.Size = sample(t, "size", []int{0, -1, -5, math.MinInt64})
					} else {
						n := float64(c.Size)
						c.Labels[rapid.IntRange(0, len(c.Labels)-1).Draw(t, "at")] = F(sample(t, "label", []float64{-1, n, n + 1, -0.5, -1e-9, -1e300, 1e300, math.Inf(1), math.Inf(-1), 1 << 63, -n, 2 * n}))
					}
				}
				return c
			}},
		Sub[roundCase]{Name: "rowmax", Quick: 60000, Thorough: 600000, Check: checkRowMax,
			Rule: "matrices up to 257x130 of many kinds: ties, rows of negative values, infinities. Non-trivial: more than one column.",
			Gen: func(t *rapid.T) roundCase {
				return roundCase{drawNoNaN(t)}
			}},
		Sub[roundCase]{Name: "round", Quick: 40000, Thorough: 400000, Check: checkRound,
			Rule: "matrices up to 257x130 of many kinds, values at and next to 0.5 included. Non-trivial: both results occur.",
			Gen:  func(t *rapid.T) roundCase { return roundCase{drawNoNaN(t)} }})
	register("P27", Sub[makeCase]{Name: "constructors", Quick: 80000, Thorough: 1000000, Gen: genMake, Check: checkMake,
		Rule: "every constructor with sizes and hyperparameters on both sides of every limit (next floating-point numbers, infinities and huge values included): acceptance, recorded and saved settings, and how the object behaves. Non-trivial: accepted."})
}

func drawNoNaN(t *rapid.T) Mat {
	rows, cols := drawBigDim(t, "rows", 257), drawDim(t, "cols", 130)
	if chance(t, "edgy", 1, 4) {
		rows, cols = rapid.IntRange(1, 3).Draw(t, "rows"), rapid.IntRange(1, 5).Draw(t, "cols")
		m := Mat{R: rows, C: cols}
		for i := rows * cols; i > 0; i-- {
			m.V = append(m.V, F(sample(t, "v", []float64{math.Inf(-1), math.Inf(1), -math.MaxFloat64, math.MaxFloat64, 0, -1, 0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 1, -1e-300, 1e-300})))
		}
		return m
	}
	return drawMat(t, "X", rows, cols, pick(t, "kind", "grid", "int", "norm", "prob", "wide", "big", "onehot", "dist", "bin", "mix"))
}
