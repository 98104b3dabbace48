package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P11: a model's forward pass.

type composeCase struct {
	M     ModelSpec
	Bs    []Mat // batches of rows
	Order []composeOp
}

type composeOp struct {
	B     int
	Train bool // training mode (no layer drops anything at random)
	How   string
	Perm  uint64
	Cut   int
}

func genCompose(t *rapid.T) composeCase {
	a := arch{maxLayers: 6, maxDim: 20, dropout: "any"}
	big := chance(t, "big", 1, 12)
	if big {
		a.maxLayers, a.maxDim = 3, 130
	}
	c := composeCase{M: drawModel(t, a)}
	for i := rapid.IntRange(1, 3).Draw(t, "batches"); i > 0; i-- {
		rows := drawDim(t, "rows", 20)
		if big {
			rows = drawBigDim(t, "rows", 130)
		}
		c.Bs = append(c.Bs, drawMat(t, "X", rows, c.M.In(), pick(t, "xKind", "norm", "mix", "w")))
	}
	for i := rapid.IntRange(1, 6).Draw(t, "passes"); i > 0; i-- {
		b := rapid.IntRange(0, len(c.Bs)-1).Draw(t, "b")
		c.Order = append(c.Order, composeOp{b, chance(t, "train", 1, 3), pick(t, "how", "whole", "whole", "split", "rows", "permuted"), rapid.Uint64Range(0, 1<<30).Draw(t, "perm"), rapid.IntRange(1, max(1, c.Bs[b].R-1)).Draw(t, "cut")})
	}
	return c
}

func checkCompose(c composeCase, o *Obs) error {
	m := c.M.Build()
	r := c.M.Ref()
	random := false
	zero := map[int]bool{}
	for i, l := range c.M.Layers {
		if l.Kind == ref.Dropout && l.Drop > 0 {
			if l.Drop < 1 {
				random = true
			} else {
				zero[i] = true
			}
		}
	}
	type kept struct {
		outs []nn.Matrix
		vals [][]float64
	}
	var old []kept
	first := map[int]kept{}
	pass := func(what string, x nn.Matrix, train bool) (kept, error) {
		xv, _ := vals(x)
		outs, err := m.Forward(x, train)
		if err != nil {
			return kept{}, fmt.Errorf("%s: %v", what, err)
		}
		if len(outs) != len(r.Layers)+1 {
			return kept{}, fmt.Errorf("%s: %d matrices for %d layers", what, len(outs), len(r.Layers))
		}
		if err := unchanged(what+": input", x, x.Rows, x.Cols, xv); err != nil {
			return kept{}, err
		}
		if err := unchanged(what+": entry 0 (the input)", outs[0], x.Rows, x.Cols, xv); err != nil {
			return kept{}, err
		}
		k := kept{outs: outs}
		for i := range outs {
			if i > 0 {
				want := r.Layers[i-1].Forward(mustRef(outs[i-1]))
				if train && zero[i-1] {
					want = ref.Zeros(want.R, want.C)
				}
				if err := admits(fmt.Sprintf("%s: output of layer %d", what, i-1), outs[i], want, o); err != nil {
					return kept{}, err
				}
			}
			v, err := vals(outs[i])
			if err != nil {
				return kept{}, err
			}
			k.vals = append(k.vals, v)
		}
		old = append(old, k)
		return k, nil
	}
	for n, op := range c.Order {
		b := c.Bs[op.B]
		train := op.Train && !random
		what := fmt.Sprintf("pass %d (%s)", n, op.How)
		var idx [][]int
		switch op.How {
		case "whole":
			k, err := pass(what, b.NN(), train)
			if err != nil {
				return err
			}
			if train && len(zero) > 0 {
				break
			}
			if f, ok := first[op.B]; ok {
				for i := range f.vals {
					if err := unchanged(fmt.Sprintf("%s: evaluated again, entry %d", what, i), k.outs[i], f.outs[i].Rows, f.outs[i].Cols, f.vals[i]); err != nil {
						return err
					}
				}
				o.Class("evaluated again")
			} else {
				first[op.B] = k
			}
		case "split":
			idx = [][]int{seq(0, min(op.Cut, b.R)), seq(min(op.Cut, b.R), b.R)}
		case "rows":
			for i := 0; i < b.R; i++ {
				idx = append(idx, []int{i})
			}
		case "permuted":
			idx = [][]int{permutation(b.R, op.Perm)}
		}
		if idx == nil {
			continue
		}
		// From the input alone, so that parts are judged like the whole.
		want := r.Forward(b.Ref())
		for _, ix := range idx {
			if len(ix) == 0 {
				continue
			}
			k, err := pass(what, rowsOf(b, ix), false)
			if err != nil {
				return err
			}
			for i := range want {
				for q, from := range ix {
					if err := admits(fmt.Sprintf("%s: entry %d, row %d of the batch", what, i, from), rowOf(k.outs[i], q), want[i].Rows(from, from+1), o); err != nil {
						return err
					}
				}
			}
		}
		o.Class("in parts or reordered")
	}
	for _, k := range old {
		for i := range k.outs {
			if err := unchanged(fmt.Sprintf("earlier result, entry %d", i), k.outs[i], k.outs[i].Rows, k.outs[i].Cols, k.vals[i]); err != nil {
				return err
			}
		}
	}
	for i, l := range libs(m) {
		if err := c.M.Layers[i].paramsUnchanged(l); err != nil {
			return err
		}
	}
	if len(c.M.Layers) > 1 && len(old) > 1 {
		o.NT()
	}
	o.ClassIf(len(c.M.Layers) > 3, "deep")
	return nil
}

// P12: a model's gradients.

type gradCase struct {
	M      ModelSpec
	X, Y   Mat
	Train  bool
	Before []Mat // other batches, passed forward and back before
	Pick   uint64
}

func genGrad(fd bool) func(t *rapid.T) gradCase {
	return func(t *rapid.T) gradCase {
		a := arch{maxLayers: 5, maxDim: 14, dropout: "none"}
		if fd {
			a.maxLayers, a.maxDim = 4, 6
		} else if chance(t, "big", 1, 12) {
			a.maxLayers, a.maxDim = 2, 130
		}
		if chance(t, "dropout0", 1, 4) {
			a.dropout = "fixed"
		}
		c := gradCase{M: drawModel(t, a)}
		for i := range c.M.Layers {
			if c.M.Layers[i].Kind == ref.Dropout {
				c.M.Layers[i].Drop = 0
			}
		}
		rows := drawBigDim(t, "rows", 130)
		if fd {
			rows = drawFew(t, "rows", 6)
		}
		xKind, yKind := pick(t, "xKind", "norm", "mix"), targetKind(t, c.M.Loss)
		if !fd && chance(t, "scaled", 1, 6) {
			xKind = pick(t, "xScale", "big", "wide", "hundreds")
			if c.M.Loss == ref.MSE {
				yKind = pick(t, "yScale", "big", "wide")
			}
		}
		c.X, c.Y = drawMat(t, "X", rows, c.M.In(), xKind), drawMat(t, "Y", rows, c.M.Out(), yKind)
		c.Train = rapid.Bool().Draw(t, "train")
		for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
			c.Before = append(c.Before, drawMat(t, "Z", sample(t, "zRows", []int{1, rows, rows + 1}), c.M.In(), "norm"))
		}
		c.Pick = rapid.Uint64Range(0, 1<<40).Draw(t, "pick")
		return c
	}
}

// gradients runs the library's forward and backward pass, giving them first layer first.
func (c gradCase) gradients(m *nn.Model) (dws, dbs []nn.Matrix, err error) {
	for i, b := range c.Before {
		outs, err := m.Forward(b.NN(), i%2 == 0)
		if err != nil {
			return nil, nil, err
		}
		if _, err := m.Backward(outs, mk(b.R, c.M.Out(), make([]float64, b.R*c.M.Out()))); err != nil {
			return nil, nil, err
		}
	}
	x, y := c.X.NN(), c.Y.NN()
	outs, err := m.Forward(x, c.Train)
	if err != nil {
		return nil, nil, err
	}
	gs, err := m.Backward(outs, y)
	if err != nil {
		return nil, nil, fmt.Errorf("backward pass refused: %v", err)
	}
	n := len(c.M.Layers)
	if len(gs) != n {
		return nil, nil, fmt.Errorf("%d gradients for %d layers", len(gs), n)
	}
	for i := range c.M.Layers {
		dws, dbs = append(dws, gs[n-1-i].DWeights), append(dbs, gs[n-1-i].DBiases)
	}
	for _, e := range []error{c.X.unchanged("input", x), c.Y.unchanged("targets", y)} {
		if e != nil {
			return nil, nil, e
		}
	}
	for i, l := range libs(m) {
		if err := c.M.Layers[i].paramsUnchanged(l); err != nil {
			return nil, nil, err
		}
	}
	return dws, dbs, nil
}

// inside says whether all predictions are strictly within the cross-entropies' limits.
func inside(loss int, p ref.Mat) bool {
	if loss != ref.CE && loss != ref.BCE {
		return true
	}
	for _, a := range p.A {
		if a.V-a.E <= 1.0001e-7 || a.V+a.E >= 1-1.0001e-7 {
			return false
		}
	}
	return true
}

func checkGrad(c gradCase, o *Obs) error {
	m := c.M.Build()
	r := c.M.Ref()
	dws, dbs, err := c.gradients(m)
	if err != nil {
		return err
	}
	x := c.X.Ref()
	p := r.Forward(x)[len(r.Layers)]
	shortcut := c.M.Last().Kind == ref.Softmax && c.M.Loss == ref.CE
	if !inside(c.M.Loss, p) {
		// The shortcut gives the derivative of the cross-entropy itself, however certain the predictions are.
		if !shortcut {
			o.Aside(1)
			o.Class("predictions beyond the limits, not judged")
			return nil
		}
		o.Class("softmax and cross-entropy, certain predictions")
	}
	rw, rb := r.Grads(x, c.Y.Ref())
	loose := 0
	for i := range rw {
		if err := admits(fmt.Sprintf("layer %d of %d: weight gradient", i, len(rw)), dws[i], rw[i], o); err != nil {
			return err
		}
		if err := admits(fmt.Sprintf("layer %d of %d: bias gradient", i, len(rw)), dbs[i], rb[i], o); err != nil {
			return err
		}
		loose += rw[i].LooseCount() + rb[i].LooseCount()
	}
	if loose == 0 && len(rw) > 1 {
		o.NT()
	}
	o.Class(lossNames[c.M.Loss])
	o.ClassIf(shortcut, "softmax and cross-entropy")
	inner := false
	for i, l := range c.M.Layers {
		inner = inner || l.Kind == ref.Softmax && (i < len(c.M.Layers)-1 || c.M.Loss != ref.CE)
	}
	o.ClassIf(inner, "softmax elsewhere")
	o.ClassIf(c.X.R > 64, "large")
	return nil
}

// nearKink says whether a pre-activation or an error is so close to a kink that a small step may cross it.
func nearKink(s ModelSpec, x, y ref.Mat) bool {
	for _, l := range s.Layers {
		rl := l.Ref()
		z := rl.Pre(x)
		if l.Kind == ref.Hidden || l.Kind == ref.Leaky || l.Kind == ref.Dropout {
			for _, a := range z.A {
				if math.Abs(a.V) < 1e-4 {
					return true
				}
			}
		}
		x = rl.Act(z)
	}
	if s.Loss == ref.MAE {
		for i, a := range x.A {
			if math.Abs(a.V-y.A[i].V) < 1e-4 {
				return true
			}
		}
	}
	return false
}

// checkGradSlope compares with slopes of the library's own loss: no formula is shared.
func checkGradSlope(c gradCase, o *Obs) error {
	const h = 1e-5
	m := c.M.Build()
	dws, dbs, err := c.gradients(m)
	if err != nil {
		return err
	}
	x, y := c.X.NN(), c.Y.NN()
	f := func() float64 {
		v, err := m.CalculateLoss(x, y)
		if err != nil {
			panic(err)
		}
		return v
	}
	p := c.M.Ref().Forward(c.X.Ref())[len(c.M.Layers)]
	if !inside(c.M.Loss, p) {
		o.Aside(1)
		return nil
	}
	if nearKink(c.M, c.X.Ref(), c.Y.Ref()) {
		o.Aside(1) // there is no slope at a kink, and a gradient taken there need not point downhill
		return nil
	}
	f0 := f()
	ls := libs(m)
	rnd := &rng{c.Pick}
	judged := 0
	for n := 0; n < 8; n++ {
		i := rnd.intn(len(ls))
		g, w := dws[i], ls[i].W()
		name := "weight"
		if rnd.intn(3) == 0 {
			g, w, name = dbs[i], ls[i].B(), "bias"
		}
		a, b := rnd.intn(w.Rows), rnd.intn(w.Cols)
		was := w.M[a][b]
		w.M[a][b] = was + h
		up := (f() - f0) / h
		w.M[a][b] = was - h
		down := (f0 - f()) / h
		w.M[a][b] = was
		mid := (up + down) / 2
		if math.Abs(up-down) > 1e-4*(1+math.Abs(mid)) || math.IsNaN(mid) {
			o.Aside(1) // a kink, or strong curvature
			continue
		}
		judged++
		if math.Abs(g.M[a][b]-mid) > 3e-4*(1+math.Abs(mid)) || math.IsNaN(g.M[a][b]) {
			return fmt.Errorf("layer %d of %d: %s (%d,%d) has gradient %v, but the loss has slope %v there", i, len(ls), name, a, b, g.M[a][b], mid)
		}
	}
	// A small step against the gradients.
	rw, rb := c.M.Ref().Grads(c.X.Ref(), c.Y.Ref())
	sum, loose := 0.0, 0
	for i := range rw {
		loose += rw[i].LooseCount() + rb[i].LooseCount()
		for _, q := range []ref.Mat{rw[i], rb[i]} {
			for _, v := range q.A {
				sum += v.V * v.V
			}
		}
	}
	if loose == 0 && sum > 1e-6 && isFinite(sum) {
		ok := false
		start := params(m)
		var last float64
		for _, t := range []float64{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7} {
			t /= math.Max(1, math.Sqrt(sum))
			for i, l := range ls {
				step := func(w *nn.Matrix, from []float64, g nn.Matrix) {
					for a := 0; a < w.Rows; a++ {
						for b := 0; b < w.Cols; b++ {
							w.M[a][b] = from[a*w.Cols+b] - t*g.M[a][b]
						}
					}
				}
				step(l.W(), start[2*i], dws[i])
				step(l.B(), start[2*i+1], dbs[i])
			}
			last = f()
			if last < f0 {
				ok = true
				break
			}
			if t*sum < 1e-12*(1+math.Abs(f0)) {
				ok = true // too small to tell
				o.Aside(1)
				break
			}
		}
		if !ok {
			return fmt.Errorf("no small step against the gradients lowers the loss: %v at the start, %v after the smallest step (squared gradient norm %v)", f0, last, sum)
		}
		o.Class("descended")
	}
	if judged > 0 && len(ls) > 1 {
		o.NT()
	}
	return nil
}

func init() {
	register("P11", Sub[composeCase]{Name: "compose", Quick: 20000, Thorough: 300000, Gen: genCompose, Check: checkCompose,
		Rule: "models of up to six layers of all kinds and up to six passes over up to three batches, whole, split in two, row by row or permuted, evaluating and (if nothing is dropped at random) training; every entry is compared with that layer's function of the entry before, parts with the whole, repeated passes bit by bit, and all earlier results at the end. Non-trivial: at least two layers and two passes."})
	register("P12",
		Sub[gradCase]{Name: "reference", Quick: 20000, Thorough: 300000, Gen: genGrad(false), Check: checkGrad,
			Rule: "models of up to five layers of all kinds (dropout with rate 0), all losses, batches up to 130 rows, other batches passed before; all gradients against the chain rule in the reference. Non-trivial: at least two layers and no gradient set aside."},
		Sub[gradCase]{Name: "slopes", Quick: 8000, Thorough: 120000, Gen: genGrad(true), Check: checkGradSlope,
			Rule: "eight parameters each, moved by 1e-5 both ways: the gradient against the slope of the calculated loss (set aside where the two one-sided slopes differ), and a small step against all gradients must lower the loss. Non-trivial: at least two layers and a slope judged."})
}
