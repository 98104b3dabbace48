package main

import (
	"fmt"
	oldrand "math/rand"

	"github.com/cubeflix/nn"
	"golang.org/x/exp/rand"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P14 with dropout that is random: the masks of later training are part of its outcome. The sources the
// library may draw from are put into the same state before each run. Whether that makes runs alike is tried
// first, so a library with a source of its own is not judged.

func genMasks(t *rapid.T) disturbCase {
	c := genDisturb(t)
	at := rapid.IntRange(0, len(c.M.Layers)-1).Draw(t, "at")
	l := &c.M.Layers[at]
	if at < len(c.M.Layers)-1 || c.M.Loss <= ref.MAE {
		l.Kind = ref.Dropout
	}
	for i := range c.M.Layers {
		if c.M.Layers[i].Kind == ref.Dropout {
			c.M.Layers[i].Drop = F(sample(t, "rate", []float64{0.5, 0.3, 0.7, 0.1}))
		}
	}
	return c
}

func checkMasks(c disturbCase, o *Obs) error {
	run := func(seed int64, observe bool) ([][]float64, error) {
		m := c.M.Build()
		rand.Seed(uint64(seed))
		oldrand.Seed(seed)
		for k, s := range c.Steps {
			if f := s.Fit; f != nil {
				vx, vy, log := nn.Matrix{}, nn.Matrix{}, 0
				if observe {
					log = f.Log
					if f.Val > 0 {
						vx, vy = c.X[f.Val-1].NN(), c.Y[f.Val-1].NN()
					}
				}
				if err := m.Fit(c.X[f.Data].NN(), c.Y[f.Data].NN(), f.Epochs, f.Batch, vx, vy, log); err != nil {
					return nil, fmt.Errorf("step %d: %v", k, err)
				}
				continue
			}
			if !observe || s.Obs.Do == "train" { // which draws masks by right
				continue
			}
			x, y := c.X[s.Obs.Data].NN(), c.Y[s.Obs.Data].NN()
			if s.Obs.Bad == 1 {
				x = mk(x.Rows, x.Cols+1, make([]float64, x.Rows*(x.Cols+1)))
			}
			if s.Obs.Bad == 2 {
				y = mk(y.Rows+1, y.Cols, make([]float64, (y.Rows+1)*y.Cols))
			}
			switch s.Obs.Do {
			case "predict":
				m.Predict(x)
			case "loss":
				m.CalculateLoss(x, y)
			case "accuracy":
				m.CalculateAccuracy(x, y)
			case "forward":
				m.Forward(x, false)
			case "save":
				saveModel(m)
			}
			o.Class(s.Obs.Do)
		}
		return params(m), nil
	}
	alike := func(a, b [][]float64) bool { return sameParams("", a, b) == nil }
	first, err := run(1, false)
	if err != nil {
		return err
	}
	// Ten different outcomes, each of which comes again with its seed: this does not happen by chance
	// (below 1e-13, however few masks there are).
	seen := [][][]float64{first}
	for seed := int64(2); seed <= 10; seed++ {
		p, err := run(seed, false)
		if err != nil {
			return err
		}
		for _, q := range seen {
			if alike(p, q) {
				o.Aside(1)
				o.Class("few masks")
				return nil
			}
		}
		q, err := run(seed, false)
		if err != nil {
			return err
		}
		if !alike(p, q) {
			o.Aside(1)
			o.Class("runs are not repeatable")
			return nil
		}
		seen = append(seen, p)
	}
	again, err := run(1, false)
	if err != nil {
		return err
	}
	if !alike(first, again) {
		o.Aside(1)
		return nil
	}
	got, err := run(1, true)
	if err != nil {
		return err
	}
	o.NT()
	if err := sameParams("after training with random dropout, observed model against the other, which drew from the same random numbers", got, first); err != nil {
		return err
	}
	return nil
}

func init() {
	register("P14", Sub[disturbCase]{Name: "masks", Quick: 1000, Thorough: 20000, Gen: genMasks, Check: checkMasks,
		Rule: "as twins, for models with random dropout whose training is first shown to repeat itself to the bit once the random sources are reset; then with all observations (but forward passes in training mode) in between, it must give the same again. Non-trivial: the masks matter to the result."})
}
