package main

import (
	"fmt"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// One object used with batches of several sizes that are alike in some way (the same remainder, a
// multiple, neighbours), as a dataset and its batches are: what was kept for one does not fit another.

type sizesCase struct {
	L     LayerSpec
	M     *ModelSpec `json:",omitempty"`
	Loss  int
	Cols  int
	Rows  []int
	Batch int
	Train bool
	Seed  uint64
}

var sizeSteps = []int{1, 2, 4, 8, 10, 16, 32, 50, 64, 100, 128, 250, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536}

func drawSizes(t *rapid.T, most int) []int {
	n := len(sizeSteps)
	for n > 1 && sizeSteps[n-1] > most {
		n--
	}
	base := 1 + uniform(t, "base", 40)
	step := sizeSteps[uniform(t, "step", n)]
	var rows []int
	for i := 2 + uniform(t, "sizes", 3); i > 0; i-- {
		r := base + step*uniform(t, "times", 3)
		if chance(t, "multiple", 1, 8) {
			r = base * (1 + uniform(t, "by", 4))
		}
		if r > most+40 {
			r = base
		}
		rows = append(rows, r)
	}
	return rows
}

func genSizesLayer(most int) func(t *rapid.T) sizesCase {
	return func(t *rapid.T) sizesCase {
		in, out := 1+uniform(t, "in", 4), 1+uniform(t, "out", 4)
		c := sizesCase{L: drawLayer(t, sample(t, "kind", allKinds), in, out, "w", "w"), Train: rapid.Bool().Draw(t, "train"), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
		c.L.Drop = 0
		c.Rows = drawSizes(t, most)
		return c
	}
}

func genSizesPair(most int) func(t *rapid.T) sizesCase {
	return func(t *rapid.T) sizesCase {
		return sizesCase{Loss: uniform(t, "loss", 4), Cols: 1 + uniform(t, "cols", 4), Rows: drawSizes(t, most), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
	}
}

func genSizesModel(most int) func(t *rapid.T) sizesCase {
	return func(t *rapid.T) sizesCase {
		m := drawModel(t, arch{maxLayers: 3, maxDim: 4, dropout: "fixed"})
		for i := range m.Layers {
			if m.Layers[i].Kind == ref.Dropout {
				m.Layers[i].Drop = 0
			}
		}
		c := sizesCase{M: &m, Rows: drawSizes(t, most), Train: rapid.Bool().Draw(t, "train"), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
		switch uniform(t, "batching", 3) {
		case 1:
			c.Batch = c.Rows[0]
		case 2:
			c.Batch = 16 + uniform(t, "batch", 200)
		}
		return c
	}
}

// mat makes the k-th matrix of a case.
func (c sizesCase) mat(k, rows, cols int, kind string) Mat {
	return Mat{R: rows, C: cols, Kind: kind, Seed: c.Seed + uint64(k)*1000003}
}

func (c sizesCase) differ(o *Obs) {
	for _, r := range c.Rows {
		if r != c.Rows[0] {
			o.NT()
			return
		}
	}
}

func checkSizesLayer(back bool) func(c sizesCase, o *Obs) error {
	return func(c sizesCase, o *Obs) error {
		l := c.L.Build()
		rl := refLayer(l)
		pass := l.eval
		if c.Train {
			pass = l.Layer.Forward
		}
		for k, rows := range c.Rows {
			what := fmt.Sprintf("batch %d of sizes %v: ", k, c.Rows)
			x, dv := c.mat(2*k, rows, c.L.In, "norm").NN(), c.mat(2*k+1, rows, c.L.Out, "norm").NN()
			y, err := pass(x)
			if err != nil {
				return fmt.Errorf("%s%v", what, err)
			}
			if err := admits(what+"forward pass", y, rl.Forward(mustRef(x)), o); err != nil {
				return err
			}
			if !back {
				continue
			}
			dw, db, dx := rl.Backward(mustRef(x), mustRef(dv))
			gw, gb, gx, err := l.Backward(x, dv)
			if err != nil {
				return fmt.Errorf("%sbackward pass: %v", what, err)
			}
			for _, e := range []error{admits(what+"weight gradient", gw, dw, o), admits(what+"bias gradient", gb, db, o), admits(what+"input gradient", gx, dx, o)} {
				if e != nil {
					return e
				}
			}
		}
		o.Class(layerNames[c.L.Kind])
		c.differ(o)
		return nil
	}
}

func checkSizesPair(judgeAt func(c pairChanges, l nn.Loss, p, y nn.Matrix) error) func(c sizesCase, o *Obs) error {
	return func(c sizesCase, o *Obs) error {
		l := mustLoss(c.Loss, c.Cols)
		pk, yk := "norm", "norm"
		switch c.Loss {
		case ref.CE:
			pk, yk = "probmid", "onehot"
		case ref.BCE:
			pk, yk = "probmid", "bin"
		}
		for k, rows := range c.Rows {
			p, y := c.mat(2*k, rows, c.Cols, pk).NN(), c.mat(2*k+1, rows, c.Cols, yk).NN()
			if err := judgeAt(pairChanges{Loss: c.Loss, Prec: 0.25}, l, p, y); err != nil {
				return fmt.Errorf("batch %d of sizes %v: %w", k, c.Rows, err)
			}
		}
		o.Class(lossNames[c.Loss])
		c.differ(o)
		return nil
	}
}

func (c sizesCase) targets() string {
	switch c.M.Loss {
	case ref.CE:
		return "onehot"
	case ref.BCE:
		return "bin"
	}
	return "norm"
}

func checkSizesModel(part string) func(c sizesCase, o *Obs) error {
	return func(c sizesCase, o *Obs) error {
		m := c.M.Build()
		r := c.M.Ref()
		n := len(c.M.Layers)
		for k, rows := range c.Rows {
			what := fmt.Sprintf("batch %d of sizes %v: ", k, c.Rows)
			x, y := c.mat(2*k, rows, c.M.In(), "norm").NN(), c.mat(2*k+1, rows, c.M.Out(), c.targets()).NN()
			rx, ry := mustRef(x), mustRef(y)
			if part == "fit" {
				if err := m.Fit(x, y, 1, c.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					return fmt.Errorf("%s%v", what, err)
				}
				r.Fit(rx, ry, 1, c.Batch, nil)
				if err := admitsParams(what+"trained", m, r, o); err != nil {
					return err
				}
				continue
			}
			want := r.Forward(rx)
			outs, err := m.Forward(x, c.Train)
			if err != nil {
				return fmt.Errorf("%s%v", what, err)
			}
			if len(outs) != n+1 {
				return fmt.Errorf("%s%d matrices for %d layers", what, len(outs), n)
			}
			switch part {
			case "pass":
				for i := range want {
					if err := admits(fmt.Sprintf("%sentry %d", what, i), outs[i], want[i], o); err != nil {
						return err
					}
				}
			case "gradients":
				gs, err := m.Backward(outs, y)
				if err != nil || len(gs) != n {
					return fmt.Errorf("%sbackward pass: %d gradients, %v", what, len(gs), err)
				}
				if !inside(c.M.Loss, want[n]) {
					o.Aside(1)
					continue
				}
				rw, rb := r.Grads(rx, ry)
				for i := range rw {
					g := gs[n-1-i]
					if err := admits(fmt.Sprintf("%sweight gradient of layer %d", what, i), g.DWeights, rw[i], o); err != nil {
						return err
					}
					if err := admits(fmt.Sprintf("%sbias gradient of layer %d", what, i), g.DBiases, rb[i], o); err != nil {
						return err
					}
				}
			case "evaluation":
				raw := want[n]
				if !c.Train {
					raw = mustRef(outs[n])
				}
				loss, err := m.CalculateLoss(x, y)
				if err != nil {
					return fmt.Errorf("%sloss: %v", what, err)
				}
				if err := judge(what+"loss", loss, ref.Loss(c.M.Loss, raw, ry)); err != nil {
					return err
				}
				if c.Train {
					continue
				}
				acc, err := m.CalculateAccuracy(x, y)
				if err != nil {
					return fmt.Errorf("%saccuracy: %v", what, err)
				}
				if want := accuracy(c.M.Acc, float64(c.M.Prec), raw, ry); !sameFraction(acc, want) {
					return fmt.Errorf("%saccuracy is %v, want %v", what, acc, want)
				}
				p, err := m.Predict(x)
				if err != nil {
					return fmt.Errorf("%sprediction: %v", what, err)
				}
				cols := raw.C
				if c.M.Acc == 1 {
					cols = 1
				}
				if err := unchanged(what+"predictions", p, raw.R, cols, predictions(c.M.Acc, raw)); err != nil {
					return err
				}
			}
		}
		c.differ(o)
		return nil
	}
}

func init() {
	const rule = " with two to four batches whose row counts have something in common (a remainder, a factor, a neighbour; up to 8192, losses and metrics up to 65536), one object seeing all of them; all against the reference. Non-trivial: row counts differ."
	layer, pair, model := genSizesLayer(8192), genSizesPair(65536), genSizesModel(8192)
	register("P03", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: layer, Check: checkSizesLayer(false), Rule: "layers" + rule})
	register("P04", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: layer, Check: checkSizesLayer(true), Rule: "layers, forwards and back," + rule})
	register("P06", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: pair, Check: checkSizesPair(lossValueNow), Rule: "losses" + rule})
	register("P07", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: pair, Check: checkSizesPair(lossGradNow), Rule: "loss gradients" + rule})
	register("P16", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: pair, Check: checkSizesPair(metricsNow), Rule: "metrics" + rule})
	register("P11", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: model, Check: checkSizesModel("pass"), Rule: "model passes" + rule})
	register("P12", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: model, Check: checkSizesModel("gradients"), Rule: "model gradients" + rule})
	register("P15", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: model, Check: checkSizesModel("evaluation"), Rule: "losses, accuracies and predictions" + rule})
	register("P13", Sub[sizesCase]{Name: "sizes", Quick: 1600, Thorough: 30000, Flat: true, Gen: genSizesModel(2048), Check: checkSizesModel("fit"), Rule: "training calls" + rule})
}
