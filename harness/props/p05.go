package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P05: dropout.

// readMask reads the scaled mask off the outputs of a dropout layer: 0 or 1/(1-p) where the
// ReLU is clearly positive, 1/(1-p) otherwise, where it makes no difference.
func readMask(what string, l LayerSpec, in ref.Mat, out nn.Matrix) (mask ref.Mat, relu ref.Mat, err error) {
	relu = (&ref.Layer{Kind: ref.Hidden, W: l.W.Ref(), B: l.B.Ref()}).Forward(in)
	v, err := vals(out)
	if err != nil {
		return mask, relu, fmt.Errorf("%s: %w", what, err)
	}
	if out.Rows != in.R || out.Cols != l.Out {
		return mask, relu, fmt.Errorf("%s: size %dx%d, want %dx%d", what, out.Rows, out.Cols, in.R, l.Out)
	}
	p := float64(l.Drop)
	scale := ref.Div(ref.Exact(1), ref.Sub(ref.Exact(1), ref.Exact(p)))
	mask = ref.Zeros(relu.R, relu.C)
	for i, a := range relu.A {
		switch {
		case v[i] == 0 && p > 0:
			if a.V > a.E {
				mask.A[i] = ref.N{}
			} else {
				mask.A[i] = scale
				if p == 1 {
					mask.A[i] = ref.N{}
				}
			}
		case p < 1 && ref.Mul(a, scale).Admits(v[i]):
			mask.A[i] = scale
		default:
			return mask, relu, fmt.Errorf("%s: output (%d,%d) is %v; the ReLU output is %v and the dropout rate %v", what, i/l.Out, i%l.Out, v[i], a.V, p)
		}
	}
	return mask, relu, nil
}

type maskCase struct {
	L      LayerSpec
	X, DV  Mat
	Passes []int // 0 training, 1 without dropout, before the judged pass
	Judge  int
}

func checkMask(c maskCase, o *Obs) error {
	l := c.L.Build()
	d := l.Layer.(*nn.DropoutLayer)
	x := c.X.NN()
	var y nn.Matrix
	var err error
	for _, p := range append(c.Passes, c.Judge) {
		if p == 0 {
			y, err = d.Forward(x)
		} else {
			y, err = d.ForwardNoDropout(x)
		}
		if err != nil {
			return err
		}
	}
	rl := c.L.Ref()
	z := rl.Pre(c.X.Ref())
	mask := ref.Zeros(c.X.R, c.L.Out)
	for i := range mask.A {
		mask.A[i] = ref.Exact(1)
	}
	kept, dropped := 0, 0
	if c.Judge == 0 {
		var relu ref.Mat
		if mask, relu, err = readMask("training pass", c.L, c.X.Ref(), y); err != nil {
			return err
		}
		for i, a := range relu.A {
			if a.V > a.E {
				if mask.A[i].V == 0 {
					dropped++
				} else {
					kept++
				}
			}
		}
		if c.L.Drop == 0 && dropped > 0 || c.L.Drop == 1 && kept > 0 {
			return fmt.Errorf("rate %v: %d units dropped and %d kept", c.L.Drop, dropped, kept)
		}
	} else if err := admits("pass without dropout", y, rl.Forward(c.X.Ref()), o); err != nil {
		return err
	}
	// The backward pass is that of the masked, scaled ReLU.
	dv := c.DV.NN()
	up := c.DV.Ref()
	for i := range up.A {
		up.A[i] = ref.Mul(up.A[i], mask.A[i])
	}
	dz := rl.PreGrad(z, up)
	dw, db, dx := ref.Dot(ref.T(c.X.Ref()), dz), ref.ColSums(dz), ref.Dot(dz, ref.T(c.L.W.Ref()))
	for i := 0; i < 2; i++ {
		gw, gb, gx, err := d.Backward(x, dv)
		if err != nil {
			return fmt.Errorf("backward pass refused: %v", err)
		}
		for _, e := range []error{
			admits("weight gradient", gw, dw, o), admits("bias gradient", gb, db, o), admits("input gradient", gx, dx, o),
			c.X.unchanged("input", x), c.DV.unchanged("upstream gradient", dv), c.L.paramsUnchanged(l),
		} {
			if e != nil {
				return fmt.Errorf("backward pass %d (rate %v): %w", i, c.L.Drop, e)
			}
		}
	}
	if kept > 0 && dropped > 0 || c.Judge == 1 && len(c.Passes) > 0 {
		o.NT()
	}
	o.ClassIf(c.L.Drop == 0, "rate 0")
	o.ClassIf(c.L.Drop == 1, "rate 1")
	o.ClassIf(c.Judge == 1 && len(c.Passes) > 0, "no dropout after training passes")
	o.ClassIf(kept > 0 && dropped > 0, "some kept, some dropped")
	return nil
}

// Frequencies: each unit independently with probability 1-p, afresh on every pass.
type freqCase struct {
	P              F
	Rows, Out      int
	Passes, Layers int
}

func checkFreq(c freqCase, o *Obs) error {
	p := float64(c.P)
	one := Mat{R: c.Rows, C: 1}
	for i := 0; i < c.Rows; i++ {
		one.V = append(one.V, 1)
	}
	var ls []*nn.DropoutLayer
	for i := 0; i < c.Layers; i++ {
		s := LayerSpec{Kind: ref.Dropout, In: 1, Out: c.Out, Drop: c.P, W: Mat{R: 1, C: c.Out}, B: Mat{R: 1, C: c.Out}}
		for j := 0; j < c.Out; j++ {
			s.B.V = append(s.B.V, 1)
		}
		ls = append(ls, s.Build().Layer.(*nn.DropoutLayer))
	}
	n := c.Rows * c.Out
	var bits []float64 // 1 kept, in order of layer within pass
	for k := 0; k < c.Passes; k++ {
		for _, l := range ls {
			y, err := l.Forward(one.NN())
			if err != nil {
				return err
			}
			v, err := vals(y)
			if err != nil {
				return err
			}
			for i, x := range v {
				switch {
				case x == 0:
					bits = append(bits, 0)
				case math.Abs(x-1/(1-p)) <= 1e-12/(1-p):
					bits = append(bits, 1)
				default:
					return fmt.Errorf("output %d is %v, want 0 or %v", i, x, 1/(1-p))
				}
			}
		}
	}
	o.NT()
	N := float64(len(bits))
	q := 1 - p
	mean := func(b []float64) float64 {
		s := 0.0
		for _, x := range b {
			s += x
		}
		return s
	}
	sd := math.Sqrt(p * q)
	if got := mean(bits); math.Abs(got-N*q) > 8*sd*math.Sqrt(N)+8 {
		return fmt.Errorf("rate %v: %v of %v units kept, expected about %.0f", p, got, N, N*q)
	}
	// Every place in the matrix has the same chance.
	per := float64(c.Passes * c.Layers)
	if per*p*q > 30 {
		for i := 0; i < n; i++ {
			s := 0.0
			for k := i; k < len(bits); k += n {
				s += bits[k]
			}
			if math.Abs(s-per*q) > 9*sd*math.Sqrt(per)+9 {
				return fmt.Errorf("rate %v: unit (%d,%d) kept %v times in %v passes, expected about %.0f", p, i/c.Out, i%c.Out, s, per, per*q)
			}
		}
		o.Class("judged per unit")
	}
	// Neighbours, rows, layers and passes are independent: covariance at several distances.
	if N*p*q > 300 {
		lags := []int{1, 2, 3, c.Out, c.Out + 1, c.Out - 1, n, n * c.Layers}
		for d := 4; d <= 4096; d *= 2 {
			lags = append(lags, d, d-1, d+1, d*c.Out) // columns and rows repeating in groups
		}
		for _, d := range []int{10, 100, 1000} {
			lags = append(lags, d, d*c.Out)
		}
		for _, lag := range lags {
			if lag <= 0 || lag >= len(bits) {
				continue
			}
			s, m := 0.0, 0.0
			for k := lag; k < len(bits); k++ {
				s += (bits[k] - q) * (bits[k-lag] - q)
				m++
			}
			if math.Abs(s) > 9*p*q*math.Sqrt(m)+9 {
				return fmt.Errorf("rate %v: units %d apart are not independent: covariance %.4f, expected 0 +- %.4f", p, lag, s/m, p*q/math.Sqrt(m))
			}
			o.Class("judged for independence")
		}
	}
	return nil
}

// Models: training passes mask, all evaluation does not.
type dropModelCase struct {
	M         ModelSpec
	X, Y, Z   Mat
	Evaluate  bool // the backward pass follows a forward pass without dropout
	Before    int
	FromBytes bool
}

func checkDropModel(c dropModelCase, o *Obs) error {
	m := c.M.Build()
	x, y := c.X.NN(), c.Y.NN()
	r := c.M.Ref()
	evals := func() error {
		outs, err := m.Forward(x, false)
		if err != nil {
			return err
		}
		in := c.X.Ref()
		for i, l := range r.Layers {
			if err := admits(fmt.Sprintf("evaluation, layer %d", i), outs[i+1], l.Forward(in), o); err != nil {
				return err
			}
			in = mustRef(outs[i+1])
		}
		loss, err := m.CalculateLoss(x, y)
		if err != nil {
			return err
		}
		if err := judge("loss", loss, ref.Loss(c.M.Loss, in, c.Y.Ref())); err != nil {
			return err
		}
		acc, err := m.CalculateAccuracy(x, y)
		if err != nil {
			return err
		}
		if want := accuracy(c.M.Acc, float64(c.M.Prec), in, c.Y.Ref()); !sameFraction(acc, want) {
			return fmt.Errorf("accuracy without dropout is %v, want %v", acc, want)
		}
		pred, err := m.Predict(x)
		if err != nil {
			return err
		}
		pv, _ := vals(pred)
		for i, w := range predictions(c.M.Acc, in) {
			if pv[i] != w {
				return fmt.Errorf("prediction %d without dropout is %v, want %v", i, pv[i], w)
			}
		}
		return nil
	}
	for i := 0; i < c.Before; i++ {
		if _, err := m.Forward(c.Z.NN(), true); err != nil {
			return err
		}
		if err := evals(); err != nil {
			return fmt.Errorf("after %d training passes: %w", i+1, err)
		}
	}
	outs, err := m.Forward(x, !c.Evaluate)
	if err != nil {
		return err
	}
	// Gradients, layer by layer from what the library put out.
	n := len(r.Layers)
	masks := make([]ref.Mat, n)
	active := 0
	in := c.X.Ref()
	ins := []ref.Mat{in}
	for i, l := range c.M.Layers {
		if l.Kind == ref.Dropout && !c.Evaluate {
			mask, relu, err := readMask(fmt.Sprintf("layer %d", i), l, in, outs[i+1])
			if err != nil {
				return err
			}
			masks[i] = mask
			for k, a := range relu.A {
				if a.V > a.E && mask.A[k].V == 0 {
					active++
				}
			}
		} else if err := admits(fmt.Sprintf("layer %d", i), outs[i+1], r.Layers[i].Forward(in), o); err != nil {
			return err
		}
		in = mustRef(outs[i+1])
		ins = append(ins, in)
	}
	gs, err := m.Backward(outs, y)
	if err != nil {
		return err
	}
	if len(gs) != n {
		return fmt.Errorf("%d gradients for %d layers", len(gs), n)
	}
	var dv ref.Mat
	i := n - 1
	var dws, dbs = make([]ref.Mat, n), make([]ref.Mat, n)
	if c.M.Last().Kind == ref.Softmax && c.M.Loss == ref.CE {
		dws[i], dbs[i], dv = r.Layers[i].SoftmaxCE(ins[i], c.Y.Ref())
		i--
	} else {
		dv = ref.LossGrad(c.M.Loss, ins[n], c.Y.Ref())
	}
	for ; i >= 0; i-- {
		if masks[i].A != nil {
			up := ref.Zeros(dv.R, dv.C)
			for k := range up.A {
				up.A[k] = ref.Mul(dv.A[k], masks[i].A[k])
			}
			dv = up
		}
		dws[i], dbs[i], dv = r.Layers[i].Backward(ins[i], dv)
	}
	for i := range dws {
		g := gs[n-1-i]
		if err := admits(fmt.Sprintf("layer %d weight gradient", i), g.DWeights, dws[i], o); err != nil {
			return err
		}
		if err := admits(fmt.Sprintf("layer %d bias gradient", i), g.DBiases, dbs[i], o); err != nil {
			return err
		}
	}
	if active > 0 || c.Evaluate && c.Before > 0 {
		o.NT()
	}
	o.ClassIf(c.Evaluate, "backward after evaluation")
	o.ClassIf(active > 0, "units dropped")
	return evals()
}

// Fit with dropout on a tiny model: the result is that of some choice of masks.
type dropFitCase struct {
	M      ModelSpec
	X, Y   Mat
	Epochs int
	Batch  int
}

func checkDropFit(c dropFitCase, o *Obs) error {
	m := c.M.Build()
	if err := m.Fit(c.X.NN(), c.Y.NN(), c.Epochs, c.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
		return err
	}
	at := -1
	for i, l := range c.M.Layers {
		if l.Kind == ref.Dropout {
			at = i
		}
	}
	l := c.M.Layers[at]
	bits := c.X.R * l.Out * c.Epochs
	scale := ref.Div(ref.Exact(1), ref.Sub(ref.Exact(1), ref.Exact(float64(l.Drop))))
	batch := c.Batch
	if batch == 0 {
		batch = c.X.R
	}
	var firstErr error
	matches := 0
	loose := false
	for choice := 0; choice < 1<<bits; choice++ {
		r := c.M.Ref()
		k := 0
		for e := 0; e < c.Epochs; e++ {
			for lo := 0; lo < c.X.R; lo += batch {
				hi := min(c.X.R, lo+batch)
				mask := ref.Zeros(hi-lo, l.Out)
				for i := range mask.A {
					if choice>>k&1 == 1 {
						mask.A[i] = scale
					}
					k++
				}
				r.Masks = map[int]ref.Mat{at: mask}
				r.Fit(c.X.Ref().Rows(lo, hi), c.Y.Ref().Rows(lo, hi), 1, 0, nil)
			}
		}
		if looseParams(r) > 0 {
			loose = true
		}
		if err := admitsParams("parameters after training", m, r, nil); err == nil {
			matches++
		} else if firstErr == nil {
			firstErr = err
		}
	}
	if matches == 0 {
		return fmt.Errorf("no choice of dropped units explains the training result; keeping none: %v", firstErr)
	}
	if matches < 1<<bits && !loose {
		o.NT()
	}
	o.ClassIf(matches == 1, "masks identified")
	return nil
}

// spreadCase: large layers with large batches, every place of which is dropped at times and kept at times.
type spreadCase struct {
	P         F
	Rows, Out int
	Passes    int
}

func checkSpread(c spreadCase, o *Obs) error {
	p := float64(c.P)
	one, _ := nn.NewMatrix(c.Rows, 1)
	l, err := nn.NewDropoutLayer(1, c.Out, p)
	if err != nil {
		return err
	}
	for j := 0; j < c.Out; j++ {
		l.Biases.M[0][j] = 1
	}
	kept := make([]int32, c.Rows*c.Out)
	for k := 0; k < c.Passes; k++ {
		y, err := l.Forward(one)
		if err != nil {
			return err
		}
		if y.Rows != c.Rows || y.Cols != c.Out {
			return fmt.Errorf("output is %dx%d, want %dx%d", y.Rows, y.Cols, c.Rows, c.Out)
		}
		for i, row := range y.M {
			for j, v := range row {
				switch {
				case v == 0:
				case math.Abs(v-1/(1-p)) <= 1e-12/(1-p):
					kept[i*c.Out+j]++
				default:
					return fmt.Errorf("output (%d,%d) is %v, want 0 or %v", i, j, v, 1/(1-p))
				}
			}
		}
	}
	sd := math.Sqrt(p * (1 - p))
	rows, cols := make([]float64, c.Rows), make([]float64, c.Out)
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Out; j++ {
			n := kept[i*c.Out+j]
			// A chance below one in 10^9 for all places together.
			if n == 0 || int(n) == c.Passes {
				return fmt.Errorf("rate %v: unit (%d,%d) of %dx%d was kept %d times in %d passes", p, i, j, c.Rows, c.Out, n, c.Passes)
			}
			rows[i] += float64(n)
			cols[j] += float64(n)
		}
		for b := 0; b < c.Out; b += 64 {
			n := 0
			for j := b; j < min(b+64, c.Out); j++ {
				n += int(kept[i*c.Out+j])
			}
			N := float64(c.Passes * (min(b+64, c.Out) - b))
			if math.Abs(float64(n)-N*(1-p)) > 8*sd*math.Sqrt(N)+8 {
				return fmt.Errorf("rate %v: %d of %v units kept in row %d from column %d", p, n, N, i, b)
			}
		}
	}
	for i, n := range rows {
		if N := float64(c.Out * c.Passes); math.Abs(n-N*(1-p)) > 8*sd*math.Sqrt(N)+8 {
			return fmt.Errorf("rate %v: %v of %v units kept in row %d", p, n, N, i)
		}
	}
	for j, n := range cols {
		if N := float64(c.Rows * c.Passes); math.Abs(n-N*(1-p)) > 8*sd*math.Sqrt(N)+8 {
			return fmt.Errorf("rate %v: %v of %v units kept in column %d", p, n, N, j)
		}
	}
	o.NT()
	return nil
}

func init() {
	register("P05",
		Sub[spreadCase]{Name: "spread", Quick: 16, Thorough: 400, Check: checkSpread, Flat: true, Patience: 3,
			Rule: "layers of up to 700 units with batches of up to 700 rows, both of them large, over 100 passes at rates between 0.3 and 0.7: every single place is kept at times and dropped at times, and rows, columns and pieces of rows have the frequency of the rate. All cases are non-trivial.",
			Gen: func(t *rapid.T) spreadCase {
				c := spreadCase{P: F(uniformIn(t, "p", 0.3, 0.7)), Rows: logUniform(t, "rows", 130, 700), Out: logUniform(t, "out", 130, 700), Passes: 110}
				if rapid.Bool().Draw(t, "magic") {
					c.Rows, c.Out = sample(t, "magicRows", []int{256, 257, 512, 513, 520, 600}), sample(t, "magicOut", []int{256, 257, 512, 513, 520, 600})
				}
				return c
			}},
		Sub[maskCase]{Name: "mask", Quick: 30000, Thorough: 500000, Check: checkMask,
			Rule: "a dropout layer of any size and rate (0 and 1 included) after up to 3 passes with and without dropout; the mask is read off the outputs and the backward pass compared with the derivative under that mask. Non-trivial: units both kept and dropped, or a pass without dropout after others.",
			Gen: func(t *rapid.T) maskCase {
				in, out, rows := drawDim(t, "in", 40), drawBigDim(t, "out", 100), drawBigDim(t, "rows", 100)
				if most := atMost(8000); rows*in*out > most {
					rows = 1 + most/(in*out)
				}
				c := maskCase{L: drawLayer(t, ref.Dropout, in, out, "w", pick(t, "bKind", "pos", "mix")),
					X: drawMat(t, "X", rows, in, "mix"), DV: drawMat(t, "DV", rows, out, pick(t, "dvKind", "norm", "mix")),
					Judge: rapid.IntRange(0, 3).Draw(t, "judge") / 3}
				for i := rapid.IntRange(0, 3).Draw(t, "passes"); i > 0; i-- {
					c.Passes = append(c.Passes, rapid.IntRange(0, 1).Draw(t, "pass"))
				}
				return c
			}},
		Sub[freqCase]{Name: "frequency", Quick: 600, Thorough: 8000, Check: checkFreq,
			Rule: "keep frequencies over 10000 to 60000 units of one to three layers: overall, per unit and the covariance of units at several distances (neighbours, rows, layers, passes, groups of columns or rows up to 4097 apart), with bounds of 8 to 9 standard deviations. All cases are non-trivial.",
			Gen: func(t *rapid.T) freqCase {
				c := freqCase{P: F(sample(t, "p", []float64{0.5, 0.1, 0.2, 0.25, 0.3, 0.4, 0.49, 0.51, 0.6, 0.75, 0.8, 0.9, 0.05, 0.95, 0.01, 0.99}))}
				if chance(t, "anyP", 1, 2) {
					c.P = F(uniformIn(t, "p", 0.01, 0.99))
				}
				c.Rows, c.Out, c.Layers = drawDim(t, "rows", 60), drawBigDim(t, "out", 130), rapid.IntRange(1, 3).Draw(t, "layers")
				if chance(t, "wide", 1, 5) {
					c.Rows, c.Out = rapid.IntRange(1, 3).Draw(t, "rows"), rapid.IntRange(200, 9000).Draw(t, "out")
				} else if chance(t, "tall", 1, 5) {
					c.Rows, c.Out = rapid.IntRange(200, 9000).Draw(t, "rows"), rapid.IntRange(1, 3).Draw(t, "out")
				}
				c.Passes = 1 + 20000/(c.Rows*c.Out*c.Layers)
				return c
			}},
		Sub[freqCase]{Name: "rare", Quick: 48, Thorough: 800, Check: checkFreq, Flat: true, Patience: 2,
			Rule: "the same for rates so close to 0 or 1 that a unit in a hundred to a hundred thousand is dropped or kept, over at least 100 such units. All cases are non-trivial.",
			Gen: func(t *rapid.T) freqCase {
				rare := sample(t, "rare", []float64{0.02, 0.01, 0.005, 0.002, 0.0015, 0.001, 0.0005, 0.0001, 0.00005})
				if rapid.Bool().Draw(t, "any") {
					rare = math.Pow(10, -uniformIn(t, "exponent", 1.5, 4.3))
				}
				c := freqCase{P: F(rare), Rows: rapid.IntRange(100, 300).Draw(t, "rows"), Out: rapid.IntRange(100, 300).Draw(t, "out"), Layers: 1}
				if rapid.Bool().Draw(t, "kept") {
					c.P = F(1 - rare)
				}
				c.Passes = 1 + int(200/rare)/(c.Rows*c.Out)
				return c
			}},
		Sub[dropModelCase]{Name: "model", Quick: 15000, Thorough: 250000, Check: checkDropModel,
			Rule: "models with dropout layers: evaluation, loss, accuracy and prediction (repeated between training passes) against the undropped reference, and the backward pass after a training or evaluating forward pass against the derivative under the masks read off. Non-trivial: units were dropped, or the backward pass follows an evaluation after training passes.",
			Gen: func(t *rapid.T) dropModelCase {
				a := arch{maxLayers: 4, maxDim: 8, dropout: "any", kinds: []int{ref.Dropout, ref.Dropout, ref.Hidden, ref.Leaky, ref.Linear, ref.Sigmoid}}
				m := drawModel(t, a)
				rows := drawDim(t, "rows", 12)
				return dropModelCase{M: m, X: drawMat(t, "X", rows, m.In(), "norm"), Y: drawMat(t, "Y", rows, m.Out(), targetKind(t, m.Loss)),
					Z: drawMat(t, "Z", sample(t, "zRows", []int{1, rows, rows + 1}), m.In(), "norm"), Evaluate: rapid.Bool().Draw(t, "evaluate"), Before: rapid.IntRange(0, 2).Draw(t, "before")}
			}},
		Sub[dropFitCase]{Name: "fit", Quick: 4000, Thorough: 60000, Check: checkDropFit,
			Rule: "training a tiny model with one dropout layer: the parameters must be those of textbook training under one of all possible sequences of masks. Non-trivial: the masks make a difference and no parameter is set aside.",
			Gen: func(t *rapid.T) dropFitCase {
				in, out := rapid.IntRange(1, 3).Draw(t, "in"), rapid.IntRange(1, 3).Draw(t, "out")
				var s ModelSpec
				d := drawLayer(t, ref.Dropout, in, out, "w", "pos")
				d.Drop = F(sample(t, "drop", []float64{0.5, 0.2, 0.8, 0.3}))
				s.Layers = append(s.Layers, d)
				if rapid.Bool().Draw(t, "second") {
					k := rapid.IntRange(1, 2).Draw(t, "out2")
					s.Layers = append(s.Layers, drawLayer(t, sample(t, "kind", []int{ref.Linear, ref.Sigmoid}), out, k, "w", "mix"))
				}
				s.Opt = drawOpt(t, rapid.Bool().Draw(t, "adam"), false)
				rows := rapid.IntRange(1, 2).Draw(t, "rows")
				epochs := 1
				if rows*out <= 3 {
					epochs = rapid.IntRange(1, 2).Draw(t, "epochs")
				}
				return dropFitCase{s, drawMat(t, "X", rows, in, "pos"), drawMat(t, "Y", rows, s.Out(), "norm"), epochs, rapid.IntRange(0, 2).Draw(t, "batch")}
			}})
}
