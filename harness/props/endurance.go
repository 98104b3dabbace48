package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// The same small call very often: the answer to the same question stays the same, whatever counts the calls.

type oftenCase struct {
	L    LayerSpec
	M    *ModelSpec `json:",omitempty"`
	X, Y []Mat
	Loss int
	Prec F
	N    int
	Seed uint64
}

var oftenMagic = []int{130, 260, 300, 520, 1010, 1030, 2100, 4100, 8200, 10010, 16400, 33000, 66000}

func drawOften(t *rapid.T, most int) int {
	n := len(oftenMagic)
	for n > 1 && oftenMagic[n-1] > most {
		n--
	}
	return sample(t, "often", oftenMagic[:n]) + rapid.IntRange(0, 40).Draw(t, "more")
}

func genOftenLayer(t *rapid.T) oftenCase {
	in, out := rapid.IntRange(1, 3).Draw(t, "in"), rapid.IntRange(1, 3).Draw(t, "out")
	c := oftenCase{L: drawLayer(t, sample(t, "kind", allKinds), in, out, "w", "w"), N: drawOften(t, 70000), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
	c.L.Drop = F(sample(t, "drop", []float64{0, 0.5}))
	for i := 0; i < 3; i++ {
		rows := rapid.IntRange(1, 3).Draw(t, "rows")
		c.X, c.Y = append(c.X, drawMat(t, "X", rows, in, "norm")), append(c.Y, drawMat(t, "Y", rows, out, "norm"))
	}
	return c
}

// alike compares an answer with the first one to the same question.
type alike map[int][]float64

func (a alike) check(what string, q int, ms ...nn.Matrix) error {
	var v []float64
	for _, m := range ms {
		x, err := vals(m)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		v = append(v, float64(m.Rows), float64(m.Cols))
		v = append(v, x...)
	}
	return a.values(what, q, v)
}

func (a alike) values(what string, q int, v []float64) error {
	was, ok := a[q]
	if !ok {
		a[q] = v
		return nil
	}
	if len(v) != len(was) {
		return fmt.Errorf("%s: %d values, and %d the first time", what, len(v), len(was))
	}
	for i := range v {
		if !sameBits(v[i], was[i]) {
			return fmt.Errorf("%s: value %d is %v, and was %v the first time", what, i, v[i], was[i])
		}
	}
	return nil
}

func checkOftenLayer(back bool) func(c oftenCase, o *Obs) error {
	return func(c oftenCase, o *Obs) error {
		l := c.L.Build()
		rl := refLayer(l)
		var xs, ys []nn.Matrix
		for i := range c.X {
			xs, ys = append(xs, c.X[i].NN()), append(ys, c.Y[i].NN())
		}
		r := &rng{c.Seed}
		seen, grads := alike{}, alike{}
		first := map[int]bool{}
		for k := 0; k < c.N; k++ {
			q := r.intn(3)
			y, err := l.eval(xs[q])
			if err != nil {
				return fmt.Errorf("call %d: %v", k, err)
			}
			if err := seen.check(fmt.Sprintf("output of call %d", k), q, y); err != nil {
				return err
			}
			if !first[q] {
				if err := admits("output", y, rl.Forward(c.X[q].Ref()), o); err != nil {
					return err
				}
			}
			if back {
				dw, db, dx, err := l.Backward(xs[q], ys[q])
				if err != nil {
					return fmt.Errorf("call %d: backward: %v", k, err)
				}
				if err := grads.check(fmt.Sprintf("gradients of call %d", k), q, dw, db, dx); err != nil {
					return err
				}
				if !first[q] {
					gw, gb, gx := rl.Backward(c.X[q].Ref(), c.Y[q].Ref())
					for _, e := range []error{admits("weight gradient", dw, gw, o), admits("bias gradient", db, gb, o), admits("input gradient", dx, gx, o)} {
						if e != nil {
							return e
						}
					}
				}
			}
			first[q] = true
		}
		o.Class(layerNames[c.L.Kind])
		o.NT()
		return nil
	}
}

func genOftenPair(t *rapid.T) oftenCase {
	c := oftenCase{Loss: rapid.IntRange(0, 3).Draw(t, "loss"), Prec: F(sample(t, "prec", []float64{0.1, 0.5, 1})), N: drawOften(t, 70000), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
	cols := rapid.IntRange(1, 3).Draw(t, "cols")
	pk, yk := "norm", "norm"
	switch c.Loss {
	case ref.CE:
		pk, yk = "probmid", "onehot"
	case ref.BCE:
		pk, yk = "probmid", "bin"
	}
	for i := 0; i < 3; i++ {
		rows := rapid.IntRange(1, 3).Draw(t, "rows")
		c.X, c.Y = append(c.X, drawMat(t, "P", rows, cols, pk)), append(c.Y, drawMat(t, "Y", rows, cols, yk))
	}
	return c
}

func checkOftenPair(what string) func(c oftenCase, o *Obs) error {
	return func(c oftenCase, o *Obs) error {
		l := mustLoss(c.Loss, c.X[0].C)
		var ps, ys []nn.Matrix
		for i := range c.X {
			ps, ys = append(ps, c.X[i].NN()), append(ys, c.Y[i].NN())
		}
		r := &rng{c.Seed}
		seen := alike{}
		first := map[int]bool{}
		for k := 0; k < c.N; k++ {
			q := r.intn(3)
			p, y := ps[q], ys[q]
			at := fmt.Sprintf("%s, call %d", what, k)
			switch what {
			case "value":
				v, err := l.Forward(p, y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if err := seen.values(at, q, []float64{v}); err != nil {
					return err
				}
				if !first[q] {
					if err := judge(at, v, ref.Loss(c.Loss, c.X[q].Ref(), c.Y[q].Ref())); err != nil {
						return err
					}
				}
			case "gradient":
				g, err := l.Backward(p, y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if err := seen.check(at, q, g); err != nil {
					return err
				}
			case "accuracy":
				if err := seen.values(at, q, []float64{nn.RegressionAccuracy(p, y, float64(c.Prec)), nn.CategoricalAccuracy(p, y), nn.BinaryCategoricalAccuracy(p, y)}); err != nil {
					return err
				}
			case "labels":
				oneHot, err := nn.SparseToOneHot(nn.RowMax(p), p.Cols)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if err := seen.check(at, q, nn.RowMax(p), oneHot, nn.OutputBinaryValues(p.MulScalar(1))); err != nil {
					return err
				}
			case "matrix":
				t := y.T()
				d, err := p.Dot(t)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				a, err := p.Add(y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				s, err := p.Sub(y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if err := seen.check(at, q, t, d, a, s, p.Neg(), p.AddScalar(0.5), p.MulScalar(3), p.PowScalar(2), p.Sum(0), p.Sum(1)); err != nil {
					return err
				}
				if !p.Equals(p.MulScalar(1)) || p.Equals(p.AddScalar(1)) {
					return fmt.Errorf("%s: equality", at)
				}
			}
			first[q] = true
		}
		o.NT()
		return nil
	}
}

func genOftenModel(t *rapid.T, most int) oftenCase {
	m := drawModel(t, arch{maxLayers: 3, maxDim: 2, dropout: "fixed"})
	c := oftenCase{M: &m, N: drawOften(t, most), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
	for i := 0; i < 3; i++ {
		rows := rapid.IntRange(1, 3).Draw(t, "rows")
		c.X, c.Y = append(c.X, drawMat(t, "X", rows, m.In(), "norm")), append(c.Y, drawMat(t, "Y", rows, m.Out(), targetKind(t, m.Loss)))
	}
	return c
}

func checkOftenModel(what string) func(c oftenCase, o *Obs) error {
	return func(c oftenCase, o *Obs) error {
		m := c.M.Build()
		var xs, ys []nn.Matrix
		for i := range c.X {
			xs, ys = append(xs, c.X[i].NN()), append(ys, c.Y[i].NN())
		}
		r := &rng{c.Seed}
		seen := alike{}
		for k := 0; k < c.N; k++ {
			q := r.intn(3)
			x, y := xs[q], ys[q]
			at := fmt.Sprintf("%s, call %d", what, k)
			switch what {
			case "pass", "gradients":
				train := what == "gradients" || r.intn(2) == 0
				outs, err := m.Forward(x, train)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if what == "pass" {
					key := q
					if train {
						key += 3
					}
					if err := seen.check(at, key, outs...); err != nil {
						return err
					}
					continue
				}
				gs, err := m.Backward(outs, y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				var ms []nn.Matrix
				for _, g := range gs {
					ms = append(ms, g.DWeights, g.DBiases)
				}
				if err := seen.check(at, q, ms...); err != nil {
					return err
				}
			case "evaluation":
				loss, err := m.CalculateLoss(x, y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				acc, err := m.CalculateAccuracy(x, y)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				p, err := m.Predict(x)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if err := seen.check(at, q, p); err != nil {
					return err
				}
				if err := seen.values(at, q+3, []float64{loss, acc}); err != nil {
					return err
				}
			}
		}
		o.NT()
		return nil
	}
}

// P13: one call for many epochs against many calls for one epoch each, with evaluations in between.
func checkOftenFit(c oftenCase, o *Obs) error {
	a, b := c.M.Build(), c.M.Build()
	x, y := c.X[0].NN(), c.Y[0].NN()
	batch := int(c.Seed % 4)
	for k := 0; k < c.N; k++ {
		if err := a.Fit(x, y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return fmt.Errorf("call %d: %v", k, err)
		}
		if c.Seed%3 == 0 {
			if _, err := a.CalculateLoss(x, y); err != nil {
				return fmt.Errorf("call %d: %v", k, err)
			}
		}
	}
	if err := b.Fit(x, y, c.N, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
		return err
	}
	if err := sameParams(fmt.Sprintf("%d calls for one epoch against one for %d epochs", c.N, c.N), params(a), params(b)); err != nil {
		return err
	}
	o.NT()
	return nil
}

// P17: the same model saved and loaded again and again.
func checkOftenSaved(c oftenCase, o *Obs) error {
	m := c.M.Build()
	was := params(m)
	for k := 0; k < c.N; k++ {
		b, err := saveModel(m)
		if err != nil {
			return fmt.Errorf("round %d: %v", k, err)
		}
		l, err := nn.LoadModel(bytes.NewBuffer(b))
		if err != nil {
			return fmt.Errorf("round %d: %v", k, err)
		}
		m = &l
		if err := sameParams(fmt.Sprintf("after round %d", k), params(m), was); err != nil {
			return err
		}
	}
	if err := sameModel("in the end", m, c.M.Build()); err != nil {
		return err
	}
	o.NT()
	return nil
}

// P20: many saves and loads, in a process that may not have many files open.
func checkOftenFiles(c oftenCase, o *Obs) error {
	dir, err := os.MkdirTemp(scratch, "often")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	open, err := os.ReadDir("/proc/self/fd")
	if err == nil {
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
			few := lim
			few.Cur = uint64(len(open)) + 60
			if few.Cur < lim.Cur && syscall.Setrlimit(syscall.RLIMIT_NOFILE, &few) == nil {
				defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
			}
		}
	}
	m := c.M.Build()
	was := params(m)
	var names []string
	for i := 0; i < 3; i++ {
		names = append(names, filepath.Join(dir, fmt.Sprint(i)))
	}
	r := &rng{c.Seed}
	bad := c.M.Build()
	breakLayer(wrap(bad.Layers[0]), "weightRows")
	for k := 0; k < c.N; k++ {
		p := names[r.intn(3)]
		if err := nn.SaveFile(m, p); err != nil {
			return fmt.Errorf("round %d: %v", k, err)
		}
		if r.intn(4) == 0 {
			if err := nn.SaveFile(bad, p); err == nil {
				return fmt.Errorf("round %d: a model that cannot be saved is saved without an error", k)
			}
		}
		l, err := nn.LoadFile(p)
		if err != nil {
			return fmt.Errorf("round %d: %v", k, err)
		}
		if r.intn(2) == 0 {
			m = &l
		}
		if err := sameParams(fmt.Sprintf("after round %d", k), params(&l), was); err != nil {
			return err
		}
	}
	o.NT()
	return nil
}

// P24: a crowd of objects alive at the same time.
type crowdCase struct {
	What string
	N    int
	Seed uint64
	Opt  OptSpec
	// For optimizers: the other kind has a turn as well.
	Other *OptSpec `json:",omitempty"`
}

func checkCrowd(c crowdCase, o *Obs) error {
	value := func(i int) float64 { return float64(i%8191)/64 + 0.25 }
	one := func(v float64) nn.Matrix { return mk(1, 1, []float64{v}) }
	// Who comes next: everybody twice, in another order the second time.
	order := make([]int, 0, 2*c.N)
	for i := 0; i < c.N; i++ {
		order = append(order, i)
	}
	r := &rng{c.Seed}
	for i := 0; i < c.N; i++ {
		order = append(order, i)
		j := c.N + r.intn(i+1)
		order[c.N+i], order[j] = order[j], order[c.N+i]
	}
	switch c.What {
	case "optimizers":
		if c.Other != nil {
			d := c
			d.Opt, d.Other = *c.Other, nil
			if err := checkCrowd(d, o); err != nil {
				return fmt.Errorf("adam: %w", err)
			}
		}
		opts := make([]nn.Optimizer, c.N)
		ws, bs := make([]nn.Matrix, c.N), make([]nn.Matrix, c.N)
		for i := range opts {
			opts[i], ws[i], bs[i] = c.Opt.Build(), one(1), one(-1)
		}
		for _, i := range order {
			if err := opts[i].Update(&ws[i], &bs[i], one(value(i)), one(-value(i))); err != nil {
				return err
			}
		}
		for i := 0; i < c.N; i++ {
			alone, w, b := c.Opt.Build(), one(1), one(-1)
			for k := 0; k < 2; k++ {
				if err := alone.Update(&w, &b, one(value(i)), one(-value(i))); err != nil {
					return err
				}
			}
			if !sameBits(w.M[0][0], ws[i].M[0][0]) || !sameBits(b.M[0][0], bs[i].M[0][0]) {
				return fmt.Errorf("optimizer %d of %d: parameters %v and %v, alone %v and %v", i, c.N, ws[i].M[0][0], bs[i].M[0][0], w.M[0][0], b.M[0][0])
			}
		}
	case "layers", "models":
		ls := make([]Lib, c.N)
		ms := make([]*nn.Model, c.N)
		for i := range ls {
			l, err := newLayer(ref.Leaky, 1, 1, 0.5, 0)
			if err != nil {
				return err
			}
			ls[i] = wrap(l)
			if ls[i].W().M[0][0] != 0 || ls[i].B().M[0][0] != 0 {
				return fmt.Errorf("layer %d of %d is not zero when new", i, c.N)
			}
			ls[i].W().M[0][0], ls[i].B().M[0][0] = value(i), 1
			if c.What == "models" {
				m := nn.NewModel()
				if err := m.AddLayer(l); err != nil {
					return err
				}
				if err := m.Finalize(mustLoss(ref.MSE, 1), c.Opt.Build(), 0, 0.5); err != nil {
					return err
				}
				ms[i] = &m
			}
		}
		ys := make([]nn.Matrix, c.N)
		for k, i := range order {
			x := one(2)
			var y nn.Matrix
			var err error
			if ms[i] != nil {
				y, err = ms[i].Predict(x)
			} else {
				y, err = ls[i].Forward(x)
			}
			if err != nil {
				return err
			}
			if want := 2*value(i) + 1; y.M[0][0] != want {
				return fmt.Errorf("%s %d of %d: output %v, want %v", c.What, i, c.N, y.M[0][0], want)
			}
			if k < c.N {
				ys[i] = y
			}
		}
		for i := range ys {
			if want := 2*value(i) + 1; ys[i].M[0][0] != want {
				return fmt.Errorf("%s %d of %d: the output was %v and is now %v", c.What, i, c.N, want, ys[i].M[0][0])
			}
		}
		if c.What == "models" {
			for _, i := range order {
				if err := ms[i].Fit(one(1), one(value(i)), 1, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					return err
				}
			}
			for k := 0; k < 50; k++ {
				i := r.intn(c.N)
				l, _ := newLayer(ref.Leaky, 1, 1, 0.5, 0)
				alone := wrap(l)
				alone.W().M[0][0], alone.B().M[0][0] = value(i), 1
				m := nn.NewModel()
				if err := m.AddLayer(l); err != nil {
					return err
				}
				if err := m.Finalize(mustLoss(ref.MSE, 1), c.Opt.Build(), 0, 0.5); err != nil {
					return err
				}
				for q := 0; q < 2; q++ {
					if err := m.Fit(one(1), one(value(i)), 1, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
						return err
					}
				}
				if !sameBits(alone.W().M[0][0], ls[i].W().M[0][0]) {
					return fmt.Errorf("model %d of %d: weight %v, alone %v", i, c.N, ls[i].W().M[0][0], alone.W().M[0][0])
				}
			}
		}
	case "matrices":
		ms := make([]nn.Matrix, c.N)
		for i := range ms {
			m, err := nn.NewMatrix(1+i%3, 1+i%2)
			if err != nil {
				return err
			}
			for a := range m.M {
				for b := range m.M[a] {
					if m.M[a][b] != 0 {
						return fmt.Errorf("matrix %d of %d is not zero when new", i, c.N)
					}
					m.M[a][b] = value(i)
				}
			}
			ms[i] = m
		}
		for i, m := range ms {
			if m.Rows != 1+i%3 || m.Cols != 1+i%2 {
				return fmt.Errorf("matrix %d of %d is %dx%d", i, c.N, m.Rows, m.Cols)
			}
			for _, row := range m.M {
				for _, v := range row {
					if v != value(i) {
						return fmt.Errorf("matrix %d of %d holds %v instead of %v", i, c.N, v, value(i))
					}
				}
			}
		}
	}
	o.Class(c.What)
	o.NT()
	return nil
}

func init() {
	rule := "Here the same object of one to three rows, inputs and outputs is asked three questions in turn, 130 to 66000 times in all; the first answers are compared with the reference (or are what other sub-checks judge) and all later ones with the first, to the bit. All cases are non-trivial."
	register("P02", Sub[oftenCase]{Name: "often", Quick: 24, Thorough: 400, Flat: true, Patience: 3, Gen: genOftenPair, Check: checkOftenPair("matrix"), Rule: "all operations. " + rule})
	register("P03", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenLayer, Check: checkOftenLayer(false), Rule: "forward passes. " + rule})
	register("P04", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenLayer, Check: checkOftenLayer(true), Rule: "forward and backward passes. " + rule})
	register("P06", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenPair, Check: checkOftenPair("value"), Rule: "loss values. " + rule})
	register("P07", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenPair, Check: checkOftenPair("gradient"), Rule: "loss gradients. " + rule})
	register("P16", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenPair, Check: checkOftenPair("accuracy"), Rule: "accuracies. " + rule})
	register("P26", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: genOftenPair, Check: checkOftenPair("labels"), Rule: "conversions. " + rule})
	model := func(most int) func(t *rapid.T) oftenCase {
		return func(t *rapid.T) oftenCase { return genOftenModel(t, most) }
	}
	register("P11", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: model(70000), Check: checkOftenModel("pass"), Rule: "model passes. " + rule})
	register("P12", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: model(34000), Check: checkOftenModel("gradients"), Rule: "model gradients. " + rule})
	register("P15", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: model(34000), Check: checkOftenModel("evaluation"), Rule: "losses, accuracies and predictions. " + rule})
	register("P13", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: model(17000), Check: checkOftenFit,
		Rule: "130 to 16000 calls for one epoch each must leave the parameters of one call for as many epochs, to the bit. All cases are non-trivial."})
	register("P17", Sub[oftenCase]{Name: "often", Quick: 80, Thorough: 1600, Flat: true, Patience: 3, Gen: model(4200), Check: checkOftenSaved,
		Rule: "a small model saved and loaded 130 to 4000 times in a row, comparing the parameters to the bit every time. All cases are non-trivial."})
	register("P20", Sub[oftenCase]{Name: "often", Quick: 24, Thorough: 400, Flat: true, Patience: 3, Gen: model(2200), Check: checkOftenFiles,
		Rule: "a small model saved to and loaded from three files 130 to 2000 times, with saves that fail in between, in a process that may have 60 more files open. All cases are non-trivial."})
	register("P24", Sub[crowdCase]{Name: "crowd", Quick: 24, Thorough: 400, Flat: true, Patience: 5, Check: checkCrowd,
		Rule: "130 to 66000 optimizers, layers, models or matrices alive at the same time, each with values of its own, used in turn and compared with what each gives alone. All cases are non-trivial.",
		Gen: func(t *rapid.T) crowdCase {
			c := crowdCase{What: pick(t, "what", "optimizers", "optimizers", "layers", "models", "matrices"), N: drawOften(t, 70000), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
			c.Opt = drawOpt(t, c.What != "optimizers" && rapid.Bool().Draw(t, "adam"), false)
			if !c.Opt.Adam && c.Opt.Momentum == 0 && chance(t, "moving", 3, 4) {
				c.Opt.Momentum = 0.75
			}
			if c.What == "optimizers" {
				a := drawOpt(t, true, false)
				c.Other = &a
			}
			return c
		}})
}
