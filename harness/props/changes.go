package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// The same objects again, their content having changed in between: what is computed depends on what
// they hold now and not on what they held when they were last seen.

// change alters one matrix in place.
type change struct {
	What string
	How  int // 0 every cell, 1 one cell, 2 two rows swapped, 3 all rows replaced by new slices, 4 the matrix replaced, 5 the layer given another matrix object, 6 two cells swapped, 7 one cell up and another down by as much
	Kind string
	Seed uint64
}

func drawChange(t *rapid.T, what []string, kinds ...string) change {
	return change{pick(t, "what", what...), rapid.IntRange(0, 7).Draw(t, "how"), pick(t, "kind", kinds...), rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
}

func (c change) apply(m *nn.Matrix) {
	v := Mat{R: m.Rows, C: m.Cols, Kind: c.Kind, Seed: c.Seed}.Vals()
	r := &rng{c.Seed}
	switch c.How {
	case 0:
		setMat(m, v)
	case 1:
		i, j := r.intn(m.Rows), r.intn(m.Cols)
		m.M[i][j] = v[i*m.Cols+j]
	case 2:
		i, j := r.intn(m.Rows), r.intn(m.Rows)
		m.M[i], m.M[j] = m.M[j], m.M[i]
	case 3:
		for i := range m.M {
			m.M[i] = append([]float64(nil), v[i*m.Cols:(i+1)*m.Cols]...)
		}
	case 4, 5:
		*m = mk(m.Rows, m.Cols, v)
	case 6, 7:
		i, j, k, l := r.intn(m.Rows), r.intn(m.Cols), r.intn(m.Rows), r.intn(m.Cols)
		if c.How == 6 {
			m.M[i][j], m.M[k][l] = m.M[k][l], m.M[i][j]
		} else {
			m.M[i][j] += 0.25
			m.M[k][l] -= 0.25
		}
	}
}

// single says whether the change touches single cells, which leaves no proper targets.
func (c change) single() bool { return c.How == 1 || c.How >= 6 }

// applyTo alters a layer's weights or biases.
func (c change) applyTo(l Lib) {
	if c.What == "slope" {
		if x, ok := l.Layer.(*nn.LeakyLayer); ok {
			r := &rng{c.Seed}
			x.Slope = float64(r.intn(9)) / 4
		}
		return
	}
	m, w := l.B(), c.What == "w"
	if w {
		m = l.W()
	}
	if c.How != 5 {
		c.apply(m)
		return
	}
	n := mk(m.Rows, m.Cols, Mat{R: m.Rows, C: m.Cols, Kind: c.Kind, Seed: c.Seed}.Vals())
	if w {
		l.put(&n, nil)
	} else {
		l.put(nil, &n)
	}
}

// refLayer is the reference's layer with the parameters a library layer holds now.
func refLayer(l Lib) *ref.Layer {
	return &ref.Layer{Kind: l.Kind, W: mustRef(*l.W()), B: mustRef(*l.B()), Slope: l.Slope()}
}

// outgrown reports whether a matrix holds something beyond the sizes the reference can follow.
func outgrown(m nn.Matrix) bool {
	v, _ := vals(m)
	for _, x := range v {
		if !(math.Abs(x) < 1e60) {
			return true
		}
	}
	return false
}

type layerChanges struct {
	L       LayerSpec
	X, DV   Mat
	Changes []change
	Train   bool
}

func genLayerChanges(t *rapid.T) layerChanges {
	kind := sample(t, "kind", allKinds)
	in, out, rows := drawDim(t, "in", 20), drawDim(t, "out", 20), drawDim(t, "rows", 20)
	c := layerChanges{L: drawLayer(t, kind, in, out, "w", "mix"), X: drawMat(t, "X", rows, in, "mix"), DV: drawMat(t, "DV", rows, out, "norm"), Train: rapid.Bool().Draw(t, "train")}
	c.L.Drop = 0
	for i := rapid.IntRange(1, 6).Draw(t, "changes"); i > 0; i-- {
		c.Changes = append(c.Changes, drawChange(t, []string{"x", "x", "w", "b", "dv", "slope"}, "mix", "norm", "w", "grid"))
	}
	return c
}

func checkLayerChanges(back bool) func(c layerChanges, o *Obs) error {
	return func(c layerChanges, o *Obs) error {
		l := c.L.Build()
		x, dv := c.X.NN(), c.DV.NN()
		pass := l.eval
		if c.Train {
			pass = l.Layer.Forward
		}
		for k := -1; k < len(c.Changes); k++ {
			what := "at the start"
			if k >= 0 {
				ch := c.Changes[k]
				what = fmt.Sprintf("after change %d (%s)", k, ch.What)
				switch ch.What {
				case "x":
					ch.apply(&x)
				case "dv":
					ch.apply(&dv)
				default:
					ch.applyTo(l)
				}
				o.Class(ch.What + " changed")
			}
			rl := refLayer(l)
			y, err := pass(x)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := admits(what+": forward pass", y, rl.Forward(mustRef(x)), o); err != nil {
				return err
			}
			if !back {
				continue
			}
			dw, db, dx := rl.Backward(mustRef(x), mustRef(dv))
			gw, gb, gx, err := l.Backward(x, dv)
			if err != nil {
				return fmt.Errorf("%s: backward pass: %v", what, err)
			}
			for _, e := range []error{admits("weight gradient", gw, dw, o), admits("bias gradient", gb, db, o), admits("input gradient", gx, dx, o)} {
				if e != nil {
					return fmt.Errorf("%s: %w", what, e)
				}
			}
		}
		o.Class(layerNames[c.L.Kind])
		if c.X.R*c.X.C*c.L.Out > 1 {
			o.NT()
		}
		return nil
	}
}

type modelChanges struct {
	M     ModelSpec
	X, Y  Mat
	Steps []modelChange
}

type modelChange struct {
	Change *change `json:",omitempty"`
	Layer  int     `json:",omitempty"`
	Fit    int     `json:",omitempty"` // epochs
	Init   bool    `json:",omitempty"`
}

func genModelChanges(t *rapid.T) modelChanges {
	c := modelChanges{M: drawModel(t, arch{maxLayers: 4, maxDim: 10, dropout: "any"})}
	rows := drawDim(t, "rows", 12)
	c.X, c.Y = drawMat(t, "X", rows, c.M.In(), "norm"), drawMat(t, "Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
	yKind := "norm"
	switch c.M.Loss {
	case ref.CE:
		yKind = "onehot"
	case ref.BCE:
		yKind = "bin"
	}
	for i := rapid.IntRange(1, 6).Draw(t, "steps"); i > 0; i-- {
		var s modelChange
		switch rapid.IntRange(0, 5).Draw(t, "step") {
		case 0:
			s.Fit = rapid.IntRange(1, 2).Draw(t, "epochs")
		case 1:
			s.Init = true
		default:
			what := pick(t, "what", "x", "x", "y", "w", "b")
			kinds := []string{"norm", "mix", "w"}
			if what == "y" {
				kinds = []string{yKind}
			}
			ch := drawChange(t, []string{what}, kinds...)
			if what == "y" && ch.single() {
				ch.How = 2 // single cells would not leave proper targets
			}
			s.Change, s.Layer = &ch, rapid.IntRange(0, len(c.M.Layers)-1).Draw(t, "layer")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkModelChanges(meaning bool) func(c modelChanges, o *Obs) error {
	return func(c modelChanges, o *Obs) error {
		m := c.M.Build()
		x, y := c.X.NN(), c.Y.NN()
		ls := libs(m)
		trainable := true // training mode is deterministic
		zero := map[int]bool{}
		for i, l := range c.M.Layers {
			if l.Kind == ref.Dropout {
				trainable = trainable && (l.Drop == 0 || l.Drop == 1)
				zero[i] = l.Drop == 1
			}
		}
		for k := -1; k < len(c.Steps); k++ {
			what := "at the start"
			if k >= 0 {
				s := c.Steps[k]
				switch {
				case s.Fit > 0:
					what = fmt.Sprintf("after step %d (training)", k)
					if err := m.Fit(x, y, s.Fit, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					for _, l := range ls {
						if outgrown(*l.W()) || outgrown(*l.B()) {
							o.Aside(1) // training diverged: from here on sums overflow at their own pace
							return nil
						}
					}
				case s.Init:
					what = fmt.Sprintf("after step %d (initialisation)", k)
					m.InitLayers()
				default:
					what = fmt.Sprintf("after step %d (change of %s)", k, s.Change.What)
					l := ls[s.Layer]
					switch s.Change.What {
					case "x":
						s.Change.apply(&x)
					case "y":
						s.Change.apply(&y)
					default:
						s.Change.applyTo(l)
					}
					o.Class(s.Change.What + " changed")
				}
			}
			// Passes with and without training mode take turns at coming first.
			for q := 0; q < 2; q++ {
				train := (k+q)%2 == 0
				if train && !trainable {
					continue
				}
				outs, err := m.Forward(x, train)
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				in := mustRef(x)
				if len(outs) != len(ls)+1 {
					return fmt.Errorf("%s: %d matrices for %d layers", what, len(outs), len(ls))
				}
				if err := admits(what+": entry 0", outs[0], in, nil); err != nil {
					return err
				}
				for i, l := range ls {
					want := refLayer(l).Forward(in)
					if train && zero[i] {
						want = ref.Zeros(want.R, want.C)
					}
					if err := admits(fmt.Sprintf("%s: output of layer %d", what, i), outs[i+1], want, o); err != nil {
						return err
					}
					in = mustRef(outs[i+1])
					if outgrown(outs[i+1]) {
						o.Aside(1)
						return nil
					}
				}
				if !meaning || train {
					continue
				}
				for pass := 0; pass < 2; pass++ {
					loss, err := m.CalculateLoss(x, y)
					if err != nil {
						return fmt.Errorf("%s: loss: %v", what, err)
					}
					if err := judge(what+": loss", loss, ref.Loss(c.M.Loss, in, mustRef(y))); err != nil {
						return err
					}
					acc, err := m.CalculateAccuracy(x, y)
					if err != nil {
						return fmt.Errorf("%s: accuracy: %v", what, err)
					}
					if want := accuracy(c.M.Acc, float64(c.M.Prec), in, mustRef(y)); !sameFraction(acc, want) {
						return fmt.Errorf("%s: accuracy is %v, want %v", what, acc, want)
					}
					p, err := m.Predict(x)
					if err != nil {
						return fmt.Errorf("%s: prediction: %v", what, err)
					}
					cols := in.C
					if c.M.Acc == 1 {
						cols = 1
					}
					if err := unchanged(what+": predictions", p, in.R, cols, predictions(c.M.Acc, in)); err != nil {
						return err
					}
				}
			}
		}
		if c.X.R*c.X.C > 1 {
			o.NT()
		}
		return nil
	}
}

// checkGradChanges judges the gradients after every change.
func checkGradChanges(c modelChanges, o *Obs) error {
	m := c.M.Build()
	x, y := c.X.NN(), c.Y.NN()
	ls := libs(m)
	loose, judged := 0, 0
	for k := -1; k < len(c.Steps); k++ {
		what := "at the start"
		if k >= 0 {
			s := c.Steps[k]
			switch {
			case s.Fit > 0:
				what = fmt.Sprintf("after step %d (training)", k)
				if err := m.Fit(x, y, s.Fit, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			case s.Init:
				what = fmt.Sprintf("after step %d (initialisation)", k)
				m.InitLayers()
			default:
				what = fmt.Sprintf("after step %d (change of %s)", k, s.Change.What)
				switch s.Change.What {
				case "x":
					s.Change.apply(&x)
				case "y":
					s.Change.apply(&y)
				default:
					s.Change.applyTo(ls[s.Layer])
				}
			}
			o.Class(what[len(fmt.Sprintf("after step %d (", k)) : len(what)-1])
		}
		r := &ref.Model{Loss: c.M.Loss}
		for _, l := range ls {
			if outgrown(*l.W()) || outgrown(*l.B()) {
				o.Aside(1)
				return nil
			}
			r.Layers = append(r.Layers, refLayer(l))
		}
		rx, ry := mustRef(x), mustRef(y)
		outs, err := m.Forward(x, k%2 == 0)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		gs, err := m.Backward(outs, y)
		if err != nil {
			return fmt.Errorf("%s: backward pass refused: %v", what, err)
		}
		if len(gs) != len(ls) {
			return fmt.Errorf("%s: %d gradients for %d layers", what, len(gs), len(ls))
		}
		if !inside(c.M.Loss, r.Forward(rx)[len(ls)]) {
			o.Aside(1)
			continue
		}
		rw, rb := r.Grads(rx, ry)
		for i := range rw {
			g := gs[len(ls)-1-i]
			if err := admits(fmt.Sprintf("%s: layer %d of %d: weight gradient", what, i, len(rw)), g.DWeights, rw[i], o); err != nil {
				return err
			}
			if err := admits(fmt.Sprintf("%s: layer %d of %d: bias gradient", what, i, len(rw)), g.DBiases, rb[i], o); err != nil {
				return err
			}
			loose += rw[i].LooseCount() + rb[i].LooseCount()
		}
		judged++
	}
	if loose == 0 && judged > 1 {
		o.NT()
	}
	return nil
}

// Losses and metrics: two matrices and some changes to them.
type pairChanges struct {
	Loss    int
	P, Y    Mat
	Prec    F
	Changes []change
}

func genPairChanges(t *rapid.T) pairChanges {
	c := pairChanges{Loss: rapid.IntRange(0, 3).Draw(t, "loss"), Prec: F(sample(t, "prec", []float64{0.1, 0.25, 0.5, 1}))}
	pk, yk := "norm", "norm"
	switch c.Loss {
	case ref.CE:
		pk, yk = "probmid", "onehot"
	case ref.BCE:
		pk, yk = "probmid", "bin"
	}
	r, k := drawDim(t, "rows", 20), drawDim(t, "cols", 20)
	c.P, c.Y = drawMat(t, "P", r, k, pk), drawMat(t, "Y", r, k, yk)
	for i := rapid.IntRange(1, 5).Draw(t, "changes"); i > 0; i-- {
		ch := drawChange(t, []string{"p", "y"}, "norm")
		ch.Kind = pk
		if ch.What == "y" {
			ch.Kind = yk
			if ch.single() {
				ch.How = 0
			}
		} else if ch.How == 7 && pk == "probmid" {
			ch.How = 6
		}
		c.Changes = append(c.Changes, ch)
	}
	return c
}

func checkPairChanges(judgeAt func(c pairChanges, l nn.Loss, p, y nn.Matrix) error) func(c pairChanges, o *Obs) error {
	return func(c pairChanges, o *Obs) error {
		l := mustLoss(c.Loss, c.P.C)
		p, y := c.P.NN(), c.Y.NN()
		for k := -1; k < len(c.Changes); k++ {
			what := "at the start"
			if k >= 0 {
				ch := c.Changes[k]
				what = fmt.Sprintf("after change %d (%s)", k, ch.What)
				ch.apply(map[string]*nn.Matrix{"p": &p, "y": &y}[ch.What])
			}
			pv, _ := vals(p)
			yv, _ := vals(y)
			if err := judgeAt(c, l, p, y); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := unchanged(what+": predictions", p, c.P.R, c.P.C, pv); err != nil {
				return err
			}
			if err := unchanged(what+": targets", y, c.P.R, c.P.C, yv); err != nil {
				return err
			}
		}
		if c.P.R*c.P.C > 1 {
			o.NT()
		}
		return nil
	}
}

func lossValueNow(c pairChanges, l nn.Loss, p, y nn.Matrix) error {
	v, err := l.Forward(p, y)
	if err != nil {
		return err
	}
	return judge(lossNames[c.Loss]+" value", v, ref.Loss(c.Loss, mustRef(p), mustRef(y)))
}

func lossGradNow(c pairChanges, l nn.Loss, p, y nn.Matrix) error {
	g, err := l.Backward(p, y)
	if err != nil {
		return err
	}
	return admits(lossNames[c.Loss]+" gradient", g, ref.LossGrad(c.Loss, mustRef(p), mustRef(y)), nil)
}

func metricsNow(c pairChanges, _ nn.Loss, p, y nn.Matrix) error {
	rp, ry := mustRef(p), mustRef(y)
	if got, want := nn.RegressionAccuracy(p, y, float64(c.Prec)), accuracy(0, float64(c.Prec), rp, ry); !sameFraction(got, want) {
		return fmt.Errorf("regression accuracy is %v, want %v", got, want)
	}
	if got, want := nn.CategoricalAccuracy(p, y), accuracy(1, 0, rp, ry); !sameFraction(got, want) {
		return fmt.Errorf("categorical accuracy is %v, want %v", got, want)
	}
	if got, want := nn.BinaryCategoricalAccuracy(p, y), accuracy(2, 0, rp, ry); !sameFraction(got, want) {
		return fmt.Errorf("binary accuracy is %v, want %v", got, want)
	}
	return nil
}

// Training on the same two matrices, their content changed between the calls.
type fitChanges struct {
	M     ModelSpec
	X, Y  Mat
	Steps []fitChange
}

type fitChange struct {
	Changes       []change
	Layer         int
	Epochs, Batch int
}

func genFitChanges(t *rapid.T) fitChanges {
	c := fitChanges{M: drawModel(t, arch{maxLayers: 3, maxDim: 6, dropout: "none"})}
	rows := rapid.IntRange(1, 10).Draw(t, "rows")
	c.X, c.Y = drawMat(t, "X", rows, c.M.In(), "norm"), drawMat(t, "Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
	yKind := "norm"
	switch c.M.Loss {
	case ref.CE:
		yKind = "onehot"
	case ref.BCE:
		yKind = "bin"
	}
	for i := rapid.IntRange(2, 5).Draw(t, "steps"); i > 0; i-- {
		s := fitChange{Layer: rapid.IntRange(0, len(c.M.Layers)-1).Draw(t, "layer"), Epochs: rapid.IntRange(1, 2).Draw(t, "epochs"), Batch: rapid.IntRange(0, rows+1).Draw(t, "batch")}
		for k := rapid.IntRange(0, 2).Draw(t, "changes"); k > 0; k-- {
			ch := drawChange(t, []string{"x", "x", "y", "w", "b"}, "norm", "w")
			if ch.What == "y" {
				ch.Kind = yKind
				if ch.single() {
					ch.How = 2
				}
			}
			s.Changes = append(s.Changes, ch)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkFitChanges(c fitChanges, o *Obs) error {
	m := c.M.Build()
	x, y := c.X.NN(), c.Y.NN()
	r := c.M.Ref()
	ls := libs(m)
	for k, s := range c.Steps {
		for _, ch := range s.Changes {
			switch ch.What {
			case "x":
				ch.apply(&x)
			case "y":
				ch.apply(&y)
			default:
				ch.applyTo(ls[s.Layer])
			}
			o.Class(ch.What + " changed")
		}
		// From the parameters the library has, so that the two do not drift apart; momenta continue.
		for i, l := range ls {
			if outgrown(*l.W()) || outgrown(*l.B()) {
				o.Aside(1)
				return nil
			}
			if len(s.Changes) > 0 || k == 0 {
				now := refLayer(l)
				r.Layers[i].W, r.Layers[i].B = now.W, now.B
			}
		}
		if err := m.Fit(x, y, s.Epochs, s.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return fmt.Errorf("step %d: %v", k, err)
		}
		r.Fit(mustRef(x), mustRef(y), s.Epochs, s.Batch, nil)
		if err := admitsParams(fmt.Sprintf("after step %d (%d epochs, batch size %d)", k, s.Epochs, s.Batch), m, r, o); err != nil {
			return err
		}
	}
	if looseParams(r) == 0 {
		o.NT()
	}
	return nil
}

func init() {
	const rule = " after each of up to six changes made in place to the matrices involved (all cells, one cell, two cells or rows swapped, rows or the whole matrix replaced), the objects staying the same. Non-trivial: more than one value."
	register("P03", Sub[layerChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genLayerChanges, Check: checkLayerChanges(false),
		Rule: "a layer's forward pass" + rule})
	register("P04", Sub[layerChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genLayerChanges, Check: checkLayerChanges(true),
		Rule: "a layer's forward and backward pass" + rule})
	register("P06", Sub[pairChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genPairChanges, Check: checkPairChanges(lossValueNow),
		Rule: "a loss's value" + rule})
	register("P07", Sub[pairChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genPairChanges, Check: checkPairChanges(lossGradNow),
		Rule: "a loss's gradient" + rule})
	register("P11", Sub[modelChanges]{Name: "changes", Quick: 8000, Thorough: 120000, Gen: genModelChanges, Check: checkModelChanges(false),
		Rule: "a model's forward pass in both modes, also after training and initialising," + rule})
	register("P12", Sub[modelChanges]{Name: "changes", Quick: 8000, Thorough: 120000, Check: checkGradChanges,
		Rule: "a model's gradients, compared with the chain rule in the reference, also after training and initialising, at the start and after each of up to six changes made in place to samples, targets, weights or biases. Non-trivial: judged more than once, no gradient set aside.",
		Gen: func(t *rapid.T) modelChanges {
			c := genModelChanges(t)
			for i := range c.M.Layers {
				if c.M.Layers[i].Kind == ref.Dropout {
					c.M.Layers[i].Drop = 0
				}
			}
			return c
		}})
	register("P13", Sub[fitChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genFitChanges, Check: checkFitChanges,
		Rule: "two to five training calls on the same two matrix objects, up to two changes made in place to samples, targets or parameters before each; all parameters are compared with the textbook procedure. Non-trivial: no parameter set aside."})
	register("P15", Sub[modelChanges]{Name: "changes", Quick: 8000, Thorough: 120000, Gen: genModelChanges, Check: checkModelChanges(true),
		Rule: "a model's outputs, loss, accuracy and predictions, also after training and initialising," + rule})
	register("P16", Sub[pairChanges]{Name: "changes", Quick: 6000, Thorough: 120000, Gen: genPairChanges, Check: checkPairChanges(metricsNow),
		Rule: "the three metrics" + rule})
}
