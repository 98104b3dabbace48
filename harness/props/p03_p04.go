package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P03: the forward pass.

type forwardCase struct {
	L LayerSpec
	X Mat
}

var allKinds = []int{ref.Hidden, ref.Linear, ref.Sigmoid, ref.Leaky, ref.Softmax, ref.Dropout}

func drawAnyLayer(t *rapid.T, most int, wKinds ...string) LayerSpec {
	in, out := drawBigDim(t, "in", most), drawBigDim(t, "out", most)
	kind := sample(t, "kind", allKinds)
	return drawLayer(t, kind, in, out, pick(t, "wKind", wKinds...), pick(t, "bKind", "mix", "zero", "w", wKinds[len(wKinds)-1]))
}

func checkShapeFinite(what string, y nn.Matrix, kind int) error {
	v, err := vals(y)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for i, x := range v {
		if !isFinite(x) {
			return fmt.Errorf("%s: cell (%d,%d) is %v", what, i/y.Cols, i%y.Cols, x)
		}
		if (kind == ref.Sigmoid || kind == ref.Softmax) && (x < 0 || x > 1) {
			return fmt.Errorf("%s: cell (%d,%d) is %v, outside [0,1]", what, i/y.Cols, i%y.Cols, x)
		}
	}
	if kind == ref.Softmax {
		for i := 0; i < y.Rows; i++ {
			s := 0.0
			for _, x := range v[i*y.Cols : (i+1)*y.Cols] {
				s += x
			}
			if math.Abs(s-1) > 1e-12*float64(10+y.Cols) {
				return fmt.Errorf("%s: row %d sums to %v", what, i, s)
			}
		}
	}
	return nil
}

func checkForward(c forwardCase, o *Obs) error {
	l := c.L.Build()
	x := c.X.NN()
	o.Class(layerNames[c.L.Kind])
	want := c.L.Ref().Forward(c.X.Ref())
	for pass := 0; pass < 2; pass++ {
		y, err := l.eval(x)
		if err != nil {
			return fmt.Errorf("forward pass refused: %v", err)
		}
		if err := admits("forward pass", y, want, o); err != nil {
			return err
		}
		if err := checkShapeFinite("forward pass", y, c.L.Kind); err != nil {
			return err
		}
		if err := c.X.unchanged("input", x); err != nil {
			return err
		}
		if err := c.L.paramsUnchanged(l); err != nil {
			return err
		}
	}
	if d, ok := l.Layer.(*nn.DropoutLayer); ok && c.L.Drop == 0 {
		y, err := d.Forward(x)
		if err != nil {
			return err
		}
		if err := admits("forward pass with dropout 0", y, want, o); err != nil {
			return err
		}
		o.Class("dropout 0, training")
	}
	if l.In() != c.L.In || l.Out() != c.L.Out {
		return fmt.Errorf("layer sizes became %d, %d", l.In(), l.Out())
	}
	if c.X.R*c.L.In*c.L.Out > 1 && maxAbs(c.L.W.Vals()) > 0 && maxAbs(c.X.Vals()) > 0 {
		o.NT()
	}
	o.ClassIf(c.X.R > 64 || c.L.In > 64 || c.L.Out > 64, "large")
	return nil
}

// Logits of any magnitude, given exactly: one input that is 1, no biases or no weights.
type logitCase struct {
	Kind  int
	Slope F
	Z     Mat
	InB   bool
}

func checkLogits(c logitCase, o *Obs) error {
	n := c.Z.C
	s := LayerSpec{Kind: c.Kind, In: 1, Out: n, Slope: c.Slope, W: c.Z, B: Mat{R: 1, C: n}}
	x := Mat{R: 1, C: 1, V: []F{1}}
	if c.InB {
		s.W, s.B = s.B, s.W
	}
	l := s.Build()
	y, err := l.eval(x.NN())
	if err != nil {
		return err
	}
	o.NT()
	o.Class(layerNames[c.Kind])
	z := c.Z.Vals()
	o.ClassIf(maxAbs(z) > 700, "beyond the exponential's range")
	if err := checkShapeFinite("forward pass", y, c.Kind); err != nil {
		return fmt.Errorf("%w (logits %v)", err, z[:min(n, 6)])
	}
	return admits("forward pass", y, s.Ref().Act(c.Z.Ref()), o)
}

// Rows do not influence one another.
type rowsCase struct {
	L    LayerSpec
	X    Mat
	Keep int
	Junk Mat // other rows, any values
	Perm uint64
}

func checkRows(c rowsCase, o *Obs) error {
	l := c.L.Build()
	x := c.X.NN()
	want := c.L.Ref().Forward(c.X.Ref())
	o.Class(layerNames[c.L.Kind])
	if c.X.R > 1 {
		o.NT()
	}
	// Replace all rows but one.
	v := c.Junk.Vals()
	copy(v[c.Keep*c.X.C:(c.Keep+1)*c.X.C], c.X.Vals()[c.Keep*c.X.C:(c.Keep+1)*c.X.C])
	y, err := l.eval(mk(c.X.R, c.X.C, v))
	if err != nil {
		return err
	}
	row := rowOf(y, c.Keep)
	if err := admits(fmt.Sprintf("row %d, the other rows being replaced", c.Keep), row, want.Rows(c.Keep, c.Keep+1), o); err != nil {
		return err
	}
	// On its own.
	y, err = l.eval(rowsOf(c.X, []int{c.Keep}))
	if err != nil {
		return err
	}
	if err := admits(fmt.Sprintf("row %d on its own", c.Keep), y, want.Rows(c.Keep, c.Keep+1), o); err != nil {
		return err
	}
	// In another order.
	p := permutation(c.X.R, c.Perm)
	y, err = l.eval(rowsOf(c.X, p))
	if err != nil {
		return err
	}
	for i, from := range p {
		if err := admits(fmt.Sprintf("row %d moved to %d", from, i), rowOf(y, i), want.Rows(from, from+1), o); err != nil {
			return err
		}
	}
	return c.X.unchanged("input", x)
}

func rowOf(m nn.Matrix, i int) nn.Matrix {
	return nn.Matrix{Rows: 1, Cols: m.Cols, M: [][]float64{m.M[i]}}
}

func permutation(n int, seed uint64) []int {
	r := &rng{seed}
	p := seq(0, n)
	for i := n - 1; i > 0; i-- {
		j := r.intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// P04: the backward pass.

type backwardCase struct {
	L      LayerSpec
	X, DV  Mat
	Before []Mat // other batches passed forward before
	After  int   // how often the backward pass is repeated
	Eval   bool  // dropout layers: evaluate without dropout instead of training with rate 0
	Other  bool  // another layer of the same kind works in between
	DVRow  bool  // the upstream gradient is the same slice for each row
}

func checkBackward(c backwardCase, o *Obs) error {
	l := c.L.Build()
	pass := l.eval
	if d, ok := l.Layer.(*nn.DropoutLayer); ok && !c.Eval {
		pass = d.Forward // rate 0
	}
	for _, b := range c.Before {
		if _, err := pass(b.NN()); err != nil {
			return err
		}
	}
	x := c.X.NN()
	if _, err := pass(x); err != nil {
		return err
	}
	if c.Other {
		other := c.L.Build()
		y, err := other.eval(x)
		if err != nil {
			return err
		}
		if _, _, _, err := other.Backward(x, y); err != nil {
			return err
		}
	}
	if c.DVRow {
		v := c.DV.Vals()[:c.L.Out]
		c.DV = Mat{R: c.X.R, C: c.L.Out}
		for i := 0; i < c.X.R; i++ {
			for _, x := range v {
				c.DV.V = append(c.DV.V, F(x))
			}
		}
	}
	dv := c.DV.NN()
	if c.DVRow {
		dv = oneRow(c.DV)
	}
	dw, db, dx := c.L.Ref().Backward(c.X.Ref(), c.DV.Ref())
	for i := 0; i <= c.After; i++ {
		gw, gb, gx, err := l.Backward(x, dv)
		if err != nil {
			return fmt.Errorf("backward pass refused: %v", err)
		}
		for _, e := range []error{
			admits("weight gradient", gw, dw, o), admits("bias gradient", gb, db, o), admits("input gradient", gx, dx, o),
			c.X.unchanged("input", x), c.DV.unchanged("upstream gradient", dv), c.L.paramsUnchanged(l),
		} {
			if e != nil {
				return fmt.Errorf("backward pass %d: %w", i, e)
			}
		}
		// What is returned is the caller's to overwrite.
		for _, m := range []nn.Matrix{gw, gb, gx} {
			for r := range m.M {
				for k := range m.M[r] {
					m.M[r][k] = math.NaN()
				}
			}
		}
	}
	o.Class(layerNames[c.L.Kind])
	o.ClassIf(len(c.Before) > 0, "after other batches")
	o.ClassIf(c.X.R > 64 || c.L.In > 64 || c.L.Out > 64, "large")
	if dw.LooseCount()+db.LooseCount()+dx.LooseCount() == 0 && maxAbs(c.DV.Vals()) > 0 {
		o.NT()
	}
	return nil
}

type combinedCase struct {
	L    LayerSpec
	X, Y Mat
	Old  bool // the outputs handed over come from a forward pass made before another batch
}

func checkCombined(c combinedCase, o *Obs) error {
	l := c.L.Build()
	s := l.Layer.(*nn.SoftmaxLayer)
	x, y := c.X.NN(), c.Y.NN()
	out, err := s.Forward(x)
	if err != nil {
		return err
	}
	ov, err := vals(out)
	if err != nil {
		return err
	}
	if c.Old {
		if _, err := s.Forward(rowsOf(c.X, []int{0})); err != nil {
			return err
		}
	}
	dw, db, dx := c.L.Ref().SoftmaxCE(c.X.Ref(), c.Y.Ref())
	for i := 0; i < 2; i++ {
		gw, gb, gx, err := s.BackwardCrossEntropy(x, y, out)
		if err != nil {
			return fmt.Errorf("combined backward pass refused: %v", err)
		}
		for _, e := range []error{
			admits("weight gradient", gw, dw, o), admits("bias gradient", gb, db, o), admits("input gradient", gx, dx, o),
			c.X.unchanged("input", x), c.Y.unchanged("targets", y), c.L.paramsUnchanged(l),
			unchanged("outputs handed over were changed", out, c.X.R, c.L.Out, ov),
		} {
			if e != nil {
				return fmt.Errorf("combined pass %d: %w", i, e)
			}
		}
	}
	if c.L.Out > 1 {
		o.NT()
	}
	o.ClassIf(c.X.R > 1, "several rows")
	return nil
}

// Derivatives of the library's own forward pass, by finite differences: an oracle that does not
// share the reference's formulas.
type slopeCase struct {
	L     LayerSpec
	X, DV Mat
}

func weighted(y nn.Matrix, dv []float64) float64 {
	s := 0.0
	for i := range y.M {
		for j, v := range y.M[i] {
			s += v * dv[i*y.Cols+j]
		}
	}
	return s
}

func checkSlopes(c slopeCase, o *Obs) error {
	// Keep away from kinks: every pre-activation must stay on its side.
	const h = 1e-5
	l := c.L.Build()
	z := c.L.Ref().Pre(c.X.Ref())
	if c.L.Kind == ref.Hidden || c.L.Kind == ref.Leaky || c.L.Kind == ref.Dropout {
		for _, a := range z.A {
			if math.Abs(a.V) < 1e-3 {
				o.Aside(1)
				return nil
			}
		}
	}
	x, dv := c.X.NN(), c.DV.Vals()
	if _, err := l.eval(x); err != nil {
		return err
	}
	gw, gb, gx, err := l.Backward(x, c.DV.NN())
	if err != nil {
		return err
	}
	f := func() float64 {
		y, err := l.eval(x)
		if err != nil {
			panic(err)
		}
		return weighted(y, dv)
	}
	probe := func(what string, at nn.Matrix, g nn.Matrix) error {
		for i := range at.M {
			for j := range at.M[i] {
				keep := at.M[i][j]
				at.M[i][j] = keep + h
				hi := f()
				at.M[i][j] = keep - h
				lo := f()
				at.M[i][j] = keep
				want := (hi - lo) / (2 * h)
				if math.Abs(want-g.M[i][j]) > 1e-5*(1+math.Abs(want)) {
					return fmt.Errorf("%s gradient (%d,%d) is %v, the slope is %v", what, i, j, g.M[i][j], want)
				}
			}
		}
		return nil
	}
	o.NT()
	o.Class(layerNames[c.L.Kind])
	if err := probe("weight", *l.W(), gw); err != nil {
		return err
	}
	if err := probe("bias", *l.B(), gb); err != nil {
		return err
	}
	return probe("input", x, gx)
}

func init() {
	register("P03",
		Sub[forwardCase]{Name: "forward", Quick: 40000, Thorough: 800000, Check: checkForward,
			Rule: "a layer of any kind, sizes up to 130, with explicit weights and biases, and a batch of up to 130 rows of ordinary to large values; two forward passes against the reference's rounding bounds. Non-trivial: more than one product and not all zero.",
			Gen: func(t *rapid.T) forwardCase {
				l := drawAnyLayer(t, 130, "w", "mix", "grid", "big", "wide")
				rows := drawBigDim(t, "rows", 130)
				if most := atMost(30000); rows*l.In*l.Out > most {
					rows = 1 + most/(l.In*l.Out)
				}
				return forwardCase{l, drawMat(t, "X", rows, l.In, pick(t, "xKind", "mix", "grid", "big", "norm"))}
			}},
		Sub[logitCase]{Name: "logits", Quick: 40000, Thorough: 600000, Check: checkLogits,
			Rule: "exact pre-activations of magnitudes from 1e-20 to 1e250 (including hundreds and thousands, equal ones and mixed signs); results must be finite, in range, sum to one and agree with the reference. All cases are non-trivial.",
			Gen: func(t *rapid.T) logitCase {
				n := drawBigDim(t, "n", 130)
				return logitCase{sample(t, "kind", allKinds[:5]), drawSlope(t),
					drawMat(t, "Z", 1, n, pick(t, "zKind", "mix", "big", "huge", "wide", "int", "big")), rapid.Bool().Draw(t, "inB")}
			}},
		Sub[rowsCase]{Name: "rows", Quick: 20000, Thorough: 300000, Check: checkRows,
			Rule: "each row alone, permuted, and with the other rows replaced by arbitrary values (NaN, infinities, huge). Non-trivial: more than one row.",
			Gen: func(t *rapid.T) rowsCase {
				l := drawAnyLayer(t, 40, "w", "mix", "big")
				rows := drawDim(t, "rows", 40)
				return rowsCase{l, drawMat(t, "X", rows, l.In, pick(t, "xKind", "mix", "grid")), rapid.IntRange(0, rows-1).Draw(t, "keep"),
					drawMat(t, "junk", rows, l.In, pick(t, "junkKind", "special", "huge", "mix")), rapid.Uint64Range(0, 1<<30).Draw(t, "perm")}
			}})
	register("P04",
		Sub[backwardCase]{Name: "backward", Quick: 30000, Thorough: 600000, Check: checkBackward,
			Rule: "a layer of any kind (dropout layers without dropout), up to 3 earlier batches, then forward and up to 3 backward passes with an arbitrary upstream gradient, against the reference's derivatives; entries whose value hangs on a kink are set aside. Non-trivial: no entry set aside and a non-zero upstream gradient.",
			Gen: func(t *rapid.T) backwardCase {
				l := drawAnyLayer(t, 100, "w", "mix", "grid", "norm")
				if l.Kind == ref.Dropout && rapid.Bool().Draw(t, "train") {
					l.Drop = 0
				}
				rows := drawBigDim(t, "rows", 100)
				if most := atMost(15000); rows*l.In*l.Out > most {
					rows = 1 + most/(l.In*l.Out)
				}
				if most := atMost(60000); l.Kind == ref.Softmax && rows*l.Out*l.Out > most {
					rows = 1 + most/(l.Out*l.Out)
				}
				c := backwardCase{L: l, X: drawMat(t, "X", rows, l.In, pick(t, "xKind", "mix", "norm", "grid", "pos")),
					DV: drawMat(t, "DV", rows, l.Out, pick(t, "dvKind", "mix", "norm", "wide", "zero", "big")), After: rapid.IntRange(0, 2).Draw(t, "after"),
					Eval: l.Kind == ref.Dropout && l.Drop != 0 || rapid.Bool().Draw(t, "eval"), Other: chance(t, "other", 1, 4), DVRow: chance(t, "dvRow", 1, 10)}
				for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
					r := drawDim(t, "rows", 20)
					if chance(t, "sameRows", 1, 2) {
						r = rows
					}
					c.Before = append(c.Before, drawMat(t, "before", r, l.In, "mix"))
				}
				return c
			}},
		Sub[backwardCase]{Name: "saturated", Quick: 10000, Thorough: 200000, Check: checkBackward,
			Rule: "as backward, with weights and inputs of magnitude up to 1e4, so that sigmoids and softmaxes saturate. Non-trivial: as backward.",
			Gen: func(t *rapid.T) backwardCase {
				in, out, rows := drawDim(t, "in", 12), drawDim(t, "out", 12), drawDim(t, "rows", 12)
				l := drawLayer(t, sample(t, "kind", []int{ref.Sigmoid, ref.Softmax, ref.Hidden, ref.Leaky}), in, out, pick(t, "wKind", "big", "int", "w"), "big")
				return backwardCase{L: l, X: drawMat(t, "X", rows, in, pick(t, "xKind", "mix", "int")), DV: drawMat(t, "DV", rows, out, "mix")}
			}},
		Sub[backwardCase]{Name: "pre-activations", Quick: 10000, Thorough: 200000, Check: checkBackward,
			Rule: "as backward, with pre-activations given exactly (one input that is 1 or -1, no biases) of magnitudes from 1e-300 to 1e20, those next to a kink included. Non-trivial: as backward.",
			Gen: func(t *rapid.T) backwardCase {
				out, rows := drawDim(t, "out", 20), drawDim(t, "rows", 6)
				l := drawLayer(t, sample(t, "kind", allKinds), 1, out, pick(t, "wKind", "wide", "tiny", "mix", "tiny", "int"), "zero")
				x := Mat{R: rows, C: 1, V: make([]F, rows)}
				for i := range x.V {
					x.V[i] = F(sample(t, "x", []float64{1, -1}))
				}
				return backwardCase{L: l, X: x, DV: drawMat(t, "DV", rows, out, pick(t, "dvKind", "mix", "norm")), Eval: l.Kind == ref.Dropout, After: rapid.IntRange(0, 1).Draw(t, "after")}
			}},
		Sub[combinedCase]{Name: "combined", Quick: 20000, Thorough: 300000, Check: checkCombined,
			Rule: "softmax with cross-entropy: any sizes, one-hot targets, the combined pass twice. Non-trivial: more than one class.",
			Gen: func(t *rapid.T) combinedCase {
				in, out, rows := drawBigDim(t, "in", 64), drawBigDim(t, "out", 64), drawBigDim(t, "rows", 64)
				if most := atMost(15000); rows*in*out > most {
					rows = 1 + most/(in*out)
				}
				return combinedCase{drawLayer(t, ref.Softmax, in, out, pick(t, "wKind", "w", "mix", "big"), "mix"),
					drawMat(t, "X", rows, in, "mix"), drawMat(t, "Y", rows, out, "onehot"), rapid.Bool().Draw(t, "old")}
			}},
		Sub[slopeCase]{Name: "slopes", Quick: 6000, Thorough: 100000, Check: checkSlopes,
			Rule: "all gradients of a small layer against finite differences of its own forward pass, away from kinks. Non-trivial: not near a kink.",
			Gen: func(t *rapid.T) slopeCase {
				in, out, rows := rapid.IntRange(1, 5).Draw(t, "in"), rapid.IntRange(1, 5).Draw(t, "out"), rapid.IntRange(1, 4).Draw(t, "rows")
				l := drawLayer(t, sample(t, "kind", allKinds), in, out, "w", "mix")
				if l.Slope > 1 {
					l.Slope = 0.5
				}
				return slopeCase{l, drawMat(t, "X", rows, in, "norm"), drawMat(t, "DV", rows, out, "norm")}
			}})
}
