package main

import (
	"fmt"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P10: building a model, over histories of adding layers, finalizing and using it.

type chainOp struct {
	Do        string    // add, finalize, fit, eval
	L         LayerSpec `json:",omitzero"`
	Loss      int       `json:",omitempty"`
	Size      int       `json:",omitempty"`
	Opt       OptSpec   `json:",omitzero"`
	Acc       int       `json:",omitempty"`
	Prec      F         `json:",omitempty"`
	X, Y      Mat       `json:",omitzero"`
	Epochs    int       `json:",omitempty"`
	Batch     int       `json:",omitempty"`
	Overwrite bool      `json:",omitempty"` // the caller changes the optimizer handed over, after finalizing
}

type chainCase struct{ Ops []chainOp }

func genChain(t *rapid.T) chainCase {
	var c chainCase
	layers, in, out := 0, 0, 0
	fits := false // finalized since the last change of the chain
	for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
		op := chainOp{Do: pick(t, "do", "add", "add", "add", "finalize", "finalize", "fit", "fit", "eval")}
		if op.Do == "fit" && !fits || op.Do == "eval" && layers == 0 {
			op.Do = pick(t, "do2", "add", "finalize")
		}
		switch op.Do {
		case "add":
			li := out
			if layers == 0 || chance(t, "misfit", 1, 4) {
				li = rapid.IntRange(1, 6).Draw(t, "in")
			}
			if layers > 0 && chance(t, "fitsTheInput", 1, 10) {
				li = in
			}
			lo := rapid.IntRange(1, 6).Draw(t, "out")
			kind := sample(t, "kind", allKinds)
			op.L = drawLayer(t, kind, li, lo, "w", pick(t, "bKind", "mix", "zero"))
			if kind == ref.Dropout {
				op.L.Drop = 0
			}
			if layers == 0 || li == out {
				if layers == 0 {
					in = li
				}
				out = lo
				layers++
				fits = false
			}
		case "finalize":
			op.Loss = rapid.IntRange(0, 3).Draw(t, "loss")
			op.Size = max(out, 1)
			if chance(t, "otherSize", 1, 4) {
				op.Size = rapid.IntRange(1, 7).Draw(t, "size")
			}
			op.Opt = drawOpt(t, rapid.Bool().Draw(t, "adam"), true)
			if chance(t, "likeBefore", 1, 3) {
				// The settings of the last time, in full or in part.
				for _, p := range c.Ops {
					if p.Do == "finalize" {
						op.Opt = p.Opt
						if p.Loss != op.Loss && rapid.Bool().Draw(t, "sameLoss") {
							op.Loss = p.Loss
						}
					}
				}
			}
			op.Acc = rapid.IntRange(0, 2).Draw(t, "acc")
			op.Prec = F(sample(t, "prec", []float64{0.1, 0, 0.5, 1, 100, 0.1, 0.2, -0.1, -1, -1e-300}))
			op.Overwrite = rapid.Bool().Draw(t, "overwrite")
			if op.Size == out && op.Prec >= 0 && layers > 0 {
				fits = true
			}
		case "fit":
			rows := rapid.IntRange(1, 5).Draw(t, "rows")
			op.X, op.Y = drawMat(t, "X", rows, in, "norm"), drawMat(t, "Y", rows, out, "onehot")
			op.Epochs, op.Batch = rapid.IntRange(1, 3).Draw(t, "epochs"), rapid.IntRange(0, 3).Draw(t, "batch")
		case "eval":
			op.X = drawMat(t, "X", rapid.IntRange(1, 3).Draw(t, "rows"), in, "norm")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func withoutType(v map[string]float64) map[string]float64 {
	o := map[string]float64{}
	for k, x := range v {
		if k != "type" {
			o[k] = x
		}
	}
	return o
}

func checkChain(c chainCase, o *Obs) error {
	model := nn.NewModel()
	m := &model
	r := &ref.Model{}
	var libsIn []nn.Layer
	var last chainOp
	finalized, refused := false, 0
	for k, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", k, op.Do)
		switch op.Do {
		case "add":
			l := op.L.Build()
			want := len(libsIn) == 0 || libsIn != nil && r.Layers[len(r.Layers)-1].W.C == op.L.In
			err := m.AddLayer(l.Layer)
			if (err == nil) != want {
				return fmt.Errorf("%s: adding a %dx%d layer gives error %v", what, op.L.In, op.L.Out, err)
			}
			if want {
				libsIn = append(libsIn, l.Layer)
				r.Layers = append(r.Layers, op.L.Ref())
				finalized = false
			} else {
				refused++
			}
		case "finalize":
			out := 0
			if n := len(r.Layers); n > 0 {
				out = r.Layers[n-1].W.C
			}
			want := out == op.Size && op.Prec >= 0
			opt := op.Opt.Build()
			loss := mustLoss(op.Loss, op.Size)
			err := m.Finalize(loss, opt, nn.AccuracyType(op.Acc), float64(op.Prec))
			if (err == nil) != want {
				return fmt.Errorf("%s: finalizing with loss size %d, precision %v and %d outputs gives error %v", what, op.Size, float64(op.Prec), out, err)
			}
			if op.Overwrite {
				switch x := opt.(type) {
				case *nn.SGDOptimizer:
					x.LearningRate, x.Decay, x.Momentum = 77, 5, 3
				case *nn.AdamOptimizer:
					x.LearningRate, x.Decay, x.Epsilon, x.Beta1, x.Beta2 = 77, 5, 3, 0.123, 0.3
				}
			}
			if !want {
				// The model is as it was, finalized or not.
				refused++
				break
			}
			finalized = true
			last = op
			r.Loss = op.Loss
			r.Opts = nil
			for range r.Layers {
				r.Opts = append(r.Opts, op.Opt.Ref())
			}
		case "fit":
			if err := m.Fit(op.X.NN(), op.Y.NN(), op.Epochs, op.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			r.Fit(op.X.Ref(), op.Y.Ref(), op.Epochs, op.Batch, nil)
			if err := admitsParams(what+": parameters", m, r, nil); err != nil {
				return err
			}
			o.Class("trained")
		case "eval":
			if diverged(r) {
				break
			}
			outs, err := m.Forward(op.X.NN(), false)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			want := r.Forward(op.X.Ref())
			if len(outs) != len(want) {
				return fmt.Errorf("%s: %d matrices for %d layers", what, len(outs), len(r.Layers))
			}
			for i := range want {
				if err := admits(fmt.Sprintf("%s: output %d", what, i), outs[i], want[i], o); err != nil {
					return err
				}
			}
		}
		// The model describes what was accepted, after every step.
		n := len(libsIn)
		if m.ModelSize != n || len(m.Layers) != n {
			return fmt.Errorf("%s: model of %d layers has size %d and %d layers", what, n, m.ModelSize, len(m.Layers))
		}
		for i := range libsIn {
			if m.Layers[i] != libsIn[i] {
				return fmt.Errorf("%s: layer %d is not the one added", what, i)
			}
		}
		if n > 0 && (m.InputSize != r.Layers[0].W.R || m.OutputSize != r.Layers[n-1].W.C) {
			return fmt.Errorf("%s: sizes are %d and %d, not %d and %d", what, m.InputSize, m.OutputSize, r.Layers[0].W.R, r.Layers[n-1].W.C)
		}
		if !finalized {
			continue
		}
		wantOpt := nn.SGDOptimizerType
		if last.Opt.Adam {
			wantOpt = nn.AdamOptimizerType
		}
		if int(m.LossType) != last.Loss || int(m.AccuracyType) != last.Acc || m.AccuracyPercision != float64(last.Prec) || m.OptimizerType != nn.OptimizerType(wantOpt) {
			return fmt.Errorf("%s: records loss %d, accuracy %d with precision %v, optimizer %d instead of %d, %d, %v, %d", what,
				m.LossType, m.AccuracyType, m.AccuracyPercision, m.OptimizerType, last.Loss, last.Acc, float64(last.Prec), wantOpt)
		}
		if got, want := withoutType(m.OptimizerValues), last.Opt.Values(); !sameSettings(got, want) {
			return fmt.Errorf("%s: records optimizer settings %v instead of %v", what, got, want)
		}
		if len(m.Optimizers) != n {
			return fmt.Errorf("%s: %d optimizers for %d layers", what, len(m.Optimizers), n)
		}
		if k > 0 && op.Do == "finalize" {
			if err := checkLossObject(m.Loss, last.Loss, last.Size); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		for i := range m.Optimizers {
			if m.Optimizers[i] == nil {
				return fmt.Errorf("%s: layer %d has no optimizer", what, i)
			}
			for j := 0; j < i; j++ {
				if m.Optimizers[i] == m.Optimizers[j] {
					return fmt.Errorf("%s: layers %d and %d share an optimizer", what, i, j)
				}
			}
		}
		o.Class("finalized")
	}
	if len(r.Layers) > 1 && refused > 0 {
		o.NT()
	}
	o.ClassIf(refused > 0, "something refused")
	return nil
}

// checkLossObject tells the recorded loss by its value.
func checkLossObject(l nn.Loss, kind, size int) error {
	if l == nil {
		return fmt.Errorf("no loss recorded")
	}
	p, y := make([]float64, size), make([]float64, size)
	for i := range p {
		p[i] = 0.25 + 0.5/float64(i+2)
	}
	y[size-1] = 1
	v, err := l.Forward(mk(1, size, p), mk(1, size, y))
	if err != nil {
		return fmt.Errorf("recorded loss: %v", err)
	}
	return judge("recorded loss", v, ref.Loss(kind, ref.FromFloats(1, size, p), ref.FromFloats(1, size, y)))
}

func init() {
	register("P10", Sub[chainCase]{Name: "history", Quick: 40000, Thorough: 800000, Gen: genChain, Check: checkChain,
		Rule: "up to 14 steps of adding layers of all kinds (a quarter not fitting), finalizing with every loss, optimizer, accuracy and precision (wrong loss sizes and negative precisions included; the optimizer handed over is sometimes changed afterwards), training and evaluating; sizes, layers and settings are compared after every step, training and evaluation with the reference. Non-trivial: at least two layers and something refused."})
}

func sameSettings(a, b map[string]float64) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || !sameBits(v, w) {
			return false
		}
	}
	return len(a) == len(b)
}
