package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P24: objects do not affect one another.

type actorSpec struct {
	Kind   string     // model, layer, loss, opt, matrix, random
	M      *ModelSpec `json:",omitempty"`
	L      *LayerSpec `json:",omitempty"`
	Loss   int        `json:",omitempty"`
	Opt    *OptSpec   `json:",omitempty"`
	Xs, Ys []Mat      // data of the actor's own
	DataOf int        `json:",omitempty"` // actor + 1 whose data objects it shares, 0: its own
	TmplOf int        `json:",omitempty"` // opt: model actor + 1 that was finalised with this very optimizer
}

type actorStep struct {
	Who, Op, Data int
}

type isolationCase struct {
	Actors []actorSpec
	Steps  []actorStep
	Reps   int  // repetitions in the concurrent run, 0: none
	Shared bool // data shared in the concurrent run as well
}

var actorOps = map[string][]string{
	"model":  {"forward", "train", "backward", "fit", "fit2", "predict", "loss", "accuracy", "reload", "twice", "file", "fitlog"},
	"layer":  {"forward", "backward", "forward", "backward", "saved"},
	"loss":   {"forward", "backward"},
	"opt":    {"update", "update2"},
	"matrix": {"dot", "arith", "sum", "t", "labels", "metrics", "pow"},
	"random": {"dropout", "backward", "shuffle", "init", "dropout", "backward"},
}

func drawActor(t *rapid.T, earlier []actorSpec, big bool) actorSpec {
	if len(earlier) > 0 && chance(t, "clone", 1, 2) {
		// Like an earlier one in all sizes, with values of its own.
		from := rapid.IntRange(0, len(earlier)-1).Draw(t, "from")
		a := earlier[from]
		a.TmplOf, a.DataOf = 0, 0
		again := func(m Mat) Mat {
			kind := m.Kind
			if kind == "" {
				kind = "norm"
			}
			return drawMat(t, "clone", m.R, m.C, kind)
		}
		if a.M != nil {
			m := *a.M
			m.Layers = append([]LayerSpec(nil), m.Layers...)
			for i := range m.Layers {
				m.Layers[i].W, m.Layers[i].B = again(m.Layers[i].W), again(m.Layers[i].B)
			}
			a.M = &m
		}
		if a.L != nil {
			l := *a.L
			l.W, l.B = again(l.W), again(l.B)
			a.L = &l
		}
		if rapid.Bool().Draw(t, "share") {
			a.DataOf = from + 1
			return a
		}
		var xs []Mat
		for _, x := range a.Xs {
			xs = append(xs, again(x))
		}
		a.Xs = xs
		return a
	}
	a := actorSpec{Kind: pick(t, "actor", "model", "model", "model", "layer", "layer", "loss", "opt", "matrix", "random")}
	most := 6
	dim := func() int { return sample(t, "dim", []int{1, 2, 2, 3, 3, 3, 4, 8, 17}) }
	modelDim := 4
	if big {
		most, modelDim = 130, 66
		dim = func() int { return drawBigDim(t, "dim", 70) }
	}
	rows := []int{drawFew(t, "rows", most), 0}
	rows[1] = rows[0]
	if rapid.Bool().Draw(t, "otherRows") {
		rows[1] = drawFew(t, "rows", most)
	}
	data := func(in, out int, x, y string) {
		for _, r := range rows {
			a.Xs = append(a.Xs, drawMat(t, "X", r, in, x))
			a.Ys = append(a.Ys, drawMat(t, "Y", r, out, y))
		}
	}
	switch a.Kind {
	case "model":
		m := drawModel(t, arch{maxLayers: 3, maxDim: modelDim, dropout: "fixed"})
		a.M = &m
		data(m.In(), m.Out(), "norm", targetKind(t, m.Loss))
	case "layer":
		l := drawLayer(t, rapid.IntRange(0, 4).Draw(t, "kind"), dim(), dim(), "w", "w")
		a.L = &l
		data(l.In, l.Out, "norm", "norm")
	case "loss":
		a.Loss = rapid.IntRange(0, 3).Draw(t, "loss")
		n := dim()
		if a.Loss < 2 {
			data(n, n, "norm", "norm")
		} else {
			data(n, n, "dist", "onehot")
		}
	case "opt":
		o := drawOpt(t, rapid.Bool().Draw(t, "adam"), false)
		a.Opt = &o
		n := dim()
		rows[0], rows[1] = dim(), 1
		data(n, n, "norm", "norm")
	case "matrix":
		data(dim(), dim(), "norm", "onehot")
	case "random":
		l := drawLayer(t, ref.Dropout, dim(), dim(), "w", "w")
		a.L = &l
		data(l.In, l.Out, "norm", "norm")
	}
	return a
}

func genIsolation(t *rapid.T) isolationCase {
	var c isolationCase
	n := rapid.IntRange(2, 5).Draw(t, "actors")
	big := chance(t, "big", 1, 50)
	if big {
		n = 2
	}
	for i := 0; i < n; i++ {
		a := drawActor(t, c.Actors, big)
		c.Actors = append(c.Actors, a)
		if a.Kind == "model" && len(c.Actors) < n && chance(t, "template", 1, 3) {
			rows := a.M.Layers[0].In
			o := a.M.Opt
			c.Actors = append(c.Actors, actorSpec{Kind: "opt", Opt: &o, TmplOf: len(c.Actors),
				Xs: []Mat{drawMat(t, "X", rows, a.M.Layers[0].Out, "norm"), drawMat(t, "X", 1, a.M.Layers[0].Out, "norm")}})
			i++
		}
	}
	for i := range c.Actors { // shared data is that of an actor with its own
		for c.Actors[i].DataOf != 0 && c.Actors[c.Actors[i].DataOf-1].DataOf != 0 {
			c.Actors[i].DataOf = c.Actors[c.Actors[i].DataOf-1].DataOf
		}
	}
	steps := 16
	if big {
		steps = 6
	}
	for i := rapid.IntRange(2, steps).Draw(t, "steps"); i > 0; i-- {
		c.Steps = append(c.Steps, actorStep{rapid.IntRange(0, len(c.Actors)-1).Draw(t, "who"), rapid.IntRange(0, 11).Draw(t, "op"), rapid.IntRange(0, 1).Draw(t, "data")})
	}
	if chance(t, "concurrent", 1, 2) {
		c.Reps = rapid.IntRange(1, 4).Draw(t, "reps")
		c.Shared = rapid.Bool().Draw(t, "shared")
	}
	return c
}

// actor is a live object with what it has returned.
type actor struct {
	spec   actorSpec
	xs, ys []nn.Matrix
	model  *nn.Model
	outs   []nn.Matrix
	layer  Lib
	drop   *nn.DropoutLayer
	last   int // data of the last forward pass, -1: none
	out    nn.Matrix
	loss   nn.Loss
	opt    nn.Optimizer
	w, b   nn.Matrix
	log    []string
	kept   []nn.Matrix
	was    [][]float64
}

func (a *actor) note(what string, v []float64) {
	s := what
	for _, x := range v {
		s += fmt.Sprintf(" %x", ref.Bits(x))
	}
	a.log = append(a.log, s)
}

func (a *actor) keep(what string, ms ...nn.Matrix) {
	for _, m := range ms {
		v, err := vals(m)
		if err != nil {
			a.note(what+": "+err.Error(), nil)
			continue
		}
		a.note(fmt.Sprintf("%s %dx%d", what, m.Rows, m.Cols), v)
		a.kept = append(a.kept, m)
	}
	if len(a.kept) > 24 {
		a.kept = append([]nn.Matrix(nil), a.kept[len(a.kept)-24:]...)
	}
}

func (a *actor) snapshot() {
	a.was = a.was[:0]
	for _, m := range a.kept {
		v, _ := vals(m)
		a.was = append(a.was, v)
	}
}

func (a *actor) intact() error {
	for i, m := range a.kept {
		if v, err := vals(m); err != nil || len(v) != len(a.was[i]) {
			return fmt.Errorf("returned matrix %d: %v", i, err)
		} else {
			for j := range v {
				if !sameBits(v[j], a.was[i][j]) {
					return fmt.Errorf("returned matrix %d: cell %d was %v and is now %v", i, j, a.was[i][j], v[j])
				}
			}
		}
	}
	return nil
}

// world makes the actors; data says that data may be shared, shared that losses and optimizer templates may.
func (c isolationCase) world(only int, data, shared bool) []*actor {
	as := make([]*actor, len(c.Actors))
	losses := map[[2]int]nn.Loss{}
	loss := func(kind, size int) nn.Loss {
		k := [2]int{kind, size}
		if losses[k] == nil || !shared {
			losses[k] = mustLoss(kind, size)
		}
		return losses[k]
	}
	for i, s := range c.Actors {
		if only >= 0 && i != only {
			continue
		}
		a := &actor{spec: s, last: -1}
		if s.DataOf > 0 && data {
			a.xs, a.ys = as[s.DataOf-1].xs, as[s.DataOf-1].ys
		} else {
			from := s
			if s.DataOf > 0 {
				from = c.Actors[s.DataOf-1]
			}
			for _, m := range from.Xs {
				a.xs = append(a.xs, m.NN())
			}
			for _, m := range from.Ys {
				a.ys = append(a.ys, m.NN())
			}
		}
		switch s.Kind {
		case "model":
			m := nn.NewModel()
			for _, l := range s.M.Layers {
				if err := m.AddLayer(l.Build().Layer); err != nil {
					panic(err)
				}
			}
			opt := s.M.Opt.Build()
			a.opt = opt
			if err := m.Finalize(loss(s.M.Loss, s.M.Out()), opt, nn.AccuracyType(s.M.Acc), float64(s.M.Prec)); err != nil {
				panic(err)
			}
			a.model = &m
		case "layer":
			a.layer = s.L.Build()
		case "random":
			a.layer = s.L.Build()
			a.drop = a.layer.Layer.(*nn.DropoutLayer)
		case "loss":
			a.loss = loss(s.Loss, a.xs[0].Cols)
		case "opt":
			a.opt = s.Opt.Build()
			if s.TmplOf > 0 && shared && as[s.TmplOf-1] != nil {
				a.opt = as[s.TmplOf-1].opt
			}
			a.w, a.b = a.xs[0].MulScalar(0.5), a.xs[1].MulScalar(0.5)
		}
		as[i] = a
	}
	return as
}

func (a *actor) do(s actorStep) (err error) {
	ops := actorOps[a.spec.Kind]
	op := ops[s.Op%len(ops)]
	a.note(op, nil)
	defer func() {
		if err != nil {
			err = fmt.Errorf("%s %s: %w", a.spec.Kind, op, err)
		}
	}()
	x, y := a.xs[s.Data], a.xs[s.Data]
	if len(a.ys) > 0 {
		y = a.ys[s.Data]
	}
	switch a.spec.Kind {
	case "model":
		switch op {
		case "forward", "train":
			if a.outs, err = a.model.Forward(x, op == "train"); err != nil {
				return err
			}
			a.last = s.Data
			a.keep(op, a.outs...)
		case "backward":
			if a.last < 0 {
				return nil
			}
			gs, err := a.model.Backward(a.outs, a.ys[a.last])
			if err != nil {
				return err
			}
			for _, g := range gs {
				a.keep("gradient", g.DWeights, g.DBiases)
			}
		case "fit", "fit2":
			batch := 0
			if op == "fit2" {
				batch = 2
			}
			a.last = -1
			if err := a.model.Fit(x, y, 2, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				return err
			}
			for _, p := range params(a.model) {
				a.note("params", p)
			}
		case "predict":
			p, err := a.model.Predict(x)
			if err != nil {
				return err
			}
			a.last = -1
			a.keep(op, p)
		case "loss", "accuracy":
			f := a.model.CalculateLoss
			if op == "accuracy" {
				f = a.model.CalculateAccuracy
			}
			v, err := f(x, y)
			if err != nil {
				return err
			}
			a.last = -1
			a.note(op, []float64{v})
		case "reload":
			if a.model.ModelSize > 127 { // which the format cannot represent
				return nil
			}
			b, err := saveModel(a.model)
			if err != nil {
				return err
			}
			if a.model, err = loadModel(b); err != nil {
				return err
			}
			a.last = -1
		case "file":
			if a.model.ModelSize > 127 {
				return nil
			}
			f, err := os.CreateTemp(scratch, "actor")
			if err != nil {
				panic(err)
			}
			defer os.Remove(f.Name())
			f.Close()
			if err := nn.SaveFile(a.model, f.Name()); err != nil {
				return err
			}
			m, err := nn.LoadFile(f.Name())
			if err != nil {
				return err
			}
			a.model, a.last = &m, -1
			for _, p := range params(a.model) {
				a.note("params", p)
			}
		case "fitlog":
			a.last = -1
			if err := a.model.Fit(x, y, 3, 1, a.xs[1-s.Data], a.ys[1-s.Data], 1); err != nil {
				return err
			}
			for _, p := range params(a.model) {
				a.note("params", p)
			}
		case "twice":
			for i := 0; i < 2; i++ {
				if a.outs, err = a.model.Forward(a.xs[i], true); err != nil {
					return err
				}
				a.keep(op, a.outs...)
			}
			a.last = 1
		}
	case "layer":
		switch op {
		case "forward":
			y, err := a.layer.Forward(x)
			if err != nil {
				return err
			}
			a.last = s.Data
			a.keep(op, y)
		case "backward":
			if a.last < 0 {
				return nil
			}
			dw, db, dx, err := a.layer.Backward(a.xs[a.last], a.ys[a.last])
			if err != nil {
				return err
			}
			a.keep(op, dw, db, dx)
		case "saved":
			b, err := saveLayer(a.layer.Layer)
			if err != nil {
				return err
			}
			a.note(fmt.Sprintf("saved %x", b), nil)
		}
	case "loss":
		if op == "forward" {
			v, err := a.loss.Forward(x, y)
			if err != nil {
				return err
			}
			a.note(op, []float64{v})
		} else {
			g, err := a.loss.Backward(x, y)
			if err != nil {
				return err
			}
			a.keep(op, g)
		}
	case "opt":
		k := 1.0
		if op == "update2" {
			k = -0.3
		}
		if err := a.opt.Update(&a.w, &a.b, a.xs[0].MulScalar(k), a.xs[1].MulScalar(k)); err != nil {
			return err
		}
		a.note(op, append(append([]float64(nil), a.w.M[0]...), a.b.M[0]...))
	case "matrix":
		switch op {
		case "dot":
			xt := x.T()
			r, err := xt.Dot(y)
			if err != nil {
				return err
			}
			a.keep(op, r)
		case "arith":
			p, err := x.Add(x.MulScalar(2))
			if err != nil {
				return err
			}
			q, err := p.Sub(x.Neg())
			if err != nil {
				return err
			}
			a.keep(op, p, q, q.AddScalar(1))
		case "sum":
			a.keep(op, x.Sum(0), x.Sum(1))
		case "t":
			a.keep(op, x.T(), y.T())
		case "pow":
			a.keep(op, x.PowScalar(2))
		case "labels":
			r := nn.RowMax(y)
			h, err := nn.SparseToOneHot(r, y.Cols)
			if err != nil {
				return err
			}
			a.keep(op, r, h)
		case "metrics":
			a.note(op, []float64{nn.RegressionAccuracy(y, y, 0.1), nn.CategoricalAccuracy(y, y), nn.BinaryCategoricalAccuracy(y, y)})
		}
	case "random":
		switch op {
		case "dropout":
			if a.out, err = a.drop.Forward(x); err != nil {
				return err
			}
			a.kept = append(a.kept, a.out)
			a.last = s.Data
		case "backward":
			if a.last < 0 {
				return nil
			}
			// The mask must still be that of this layer's last pass.
			l := *a.spec.L
			xr := mustRef(a.xs[a.last])
			rl := l.Ref()
			mask, _, err := readMask("output kept", l, xr, a.out)
			if err != nil {
				return err
			}
			up := mustRef(a.ys[a.last])
			for i := range up.A {
				up.A[i] = ref.Mul(up.A[i], mask.A[i])
			}
			dz := rl.PreGrad(rl.Pre(xr), up)
			dw, _, _, err := a.drop.Backward(a.xs[a.last], a.ys[a.last])
			if err != nil {
				return err
			}
			return admits("weight gradient after its own pass", dw, ref.Dot(ref.T(xr), dz), nil)
		case "shuffle":
			c := x.MulScalar(1)
			d := y.MulScalar(1)
			c, d = nn.ShuffleDataset(c, d)
			a.kept = append(a.kept, c, d)
		case "init":
			l, err := nn.NewLayer(x.Cols, y.Cols)
			if err != nil {
				return err
			}
			l.Init()
			a.kept = append(a.kept, *l.Weights)
		}
	}
	return nil
}

func sameLog(what string, a, b []string) error {
	for i := range a {
		if i < len(b) && a[i] != b[i] {
			return fmt.Errorf("%s: result %d is %.200s instead of %.200s", what, i, a[i], b[i])
		}
	}
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d results instead of %d", what, len(a), len(b))
	}
	return nil
}

func (c isolationCase) alone(i int) ([]string, error) {
	a := c.world(i, false, false)[i]
	for _, s := range c.Steps {
		if s.Who == i {
			if err := a.do(s); err != nil {
				return nil, fmt.Errorf("actor %d alone: %w", i, err)
			}
		}
	}
	return a.log, nil
}

func checkIsolation(c isolationCase, o *Obs) error {
	want := make([][]string, len(c.Actors))
	for i := range c.Actors {
		var err error
		if want[i], err = c.alone(i); err != nil {
			return err
		}
	}
	as := c.world(-1, true, true)
	for _, a := range as {
		a.kept = append(append(a.kept, a.xs...), a.ys...)
		a.snapshot()
	}
	turns, last := 0, -1
	for k, s := range c.Steps {
		if err := as[s.Who].do(s); err != nil {
			return fmt.Errorf("step %d, actor %d: %w", k, s.Who, err)
		}
		as[s.Who].snapshot()
		for i, a := range as {
			if i != s.Who {
				if err := a.intact(); err != nil {
					return fmt.Errorf("step %d (%s) of actor %d changed what actor %d (%s) holds: %w", k, actorOps[as[s.Who].spec.Kind][s.Op%len(actorOps[as[s.Who].spec.Kind])], s.Who, i, a.spec.Kind, err)
				}
			}
		}
		if s.Who != last {
			turns++
		}
		last = s.Who
	}
	for i, a := range as {
		if err := sameLog(fmt.Sprintf("actor %d (%s), interleaved against alone", i, a.spec.Kind), a.log, want[i]); err != nil {
			return err
		}
	}
	if turns > len(c.Actors) || turns > 2 {
		o.NT()
	}
	for _, a := range as {
		o.ClassIf(len(a.log) > 0, a.spec.Kind)
	}
	if c.Reps == 0 {
		return nil
	}
	// At the same time, each with objects of its own, and data of its own or data that others read as well.
	worlds := make([][]*actor, c.Reps)
	for r := range worlds {
		worlds[r] = c.world(-1, c.Shared, false)
	}
	errs := make([]error, len(c.Actors))
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range c.Actors {
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("actor %d, running concurrently: panic: %v", i, p)
				}
			}()
			start.Wait()
			for r := range worlds {
				a := worlds[r][i]
				for _, s := range c.Steps {
					if s.Who == i {
						if err := a.do(s); err != nil {
							errs[i] = fmt.Errorf("actor %d, running concurrently: %w", i, err)
							return
						}
					}
				}
				if err := sameLog(fmt.Sprintf("actor %d (%s), running concurrently, against alone", i, a.spec.Kind), a.log, want[i]); err != nil {
					errs[i] = err
					return
				}
			}
		}()
	}
	start.Done()
	done.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	o.Class("concurrent")
	o.ClassIf(c.Shared, "concurrent, shared data")
	return nil
}

func init() {
	register("P24", Sub[isolationCase]{Name: "isolation", Quick: 12000, Thorough: 200000, Gen: genIsolation, Check: checkIsolation, Hostile: true,
		Rule: "two to five models, layers, losses, optimizers, matrices and random objects (dropout, shuffles, initialisation), many of equal sizes or sharing data, loss or optimizer template, with up to 16 steps: every result must be the same to the bit as when run alone, results handed out earlier must keep their values whatever others do, and in half of the cases all run again in goroutines at the same time (half of these sharing data that all of them only read) under the race detector. Non-trivial: at least three turns."})
}
