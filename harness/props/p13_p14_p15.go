package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P13: training is the mini-batch procedure.

type fitCall struct {
	X, Y          Mat
	Epochs, Batch int
	Val           bool `json:",omitempty"` // with the first call's data as validation data
	Log           int  `json:",omitempty"`
	Init          bool `json:",omitempty"` // the caller puts new parameter values in place first
	Same          bool `json:",omitempty"` // the samples are their own targets
	Own           bool `json:",omitempty"` // the training data is its own validation data
}

type fitCase struct {
	M     ModelSpec
	Calls []fitCall
}

func genFit(t *rapid.T) fitCase {
	a := arch{maxLayers: 4, maxDim: 10, dropout: "none"}
	if chance(t, "dropout0", 1, 4) {
		a.dropout = "fixed"
	}
	mode := rapid.IntRange(0, 11).Draw(t, "mode") // mostly small; sometimes many rows, sometimes wide
	if mode == 10 {
		a.maxLayers, a.maxDim = 2, 130
	}
	if mode == 11 {
		a.maxLayers, a.maxDim = 2, 3
	}
	c := fitCase{M: drawModel(t, a)}
	for i := range c.M.Layers {
		if c.M.Layers[i].Kind == ref.Dropout {
			c.M.Layers[i].Drop = 0
		}
	}
	yKind := targetKind(t, c.M.Loss)
	for i := rapid.IntRange(1, 3).Draw(t, "calls"); i > 0; i-- {
		rows := drawFew(t, "rows", 12)
		epochs := rapid.IntRange(0, 5).Draw(t, "epochs")
		if mode >= 10 {
			rows = drawBigDim(t, "rows", 257)
			epochs = rapid.IntRange(0, 2).Draw(t, "epochs")
		}
		var batch int
		switch rapid.IntRange(0, 5).Draw(t, "batchClass") {
		case 0:
			batch = 0
		case 1:
			batch = rapid.IntRange(1, rows+3).Draw(t, "batch")
		case 2:
			batch = rows
		case 3:
			batch = max(1, rows-1)
		case 4:
			batch = rapid.IntRange(1, 4).Draw(t, "batch")
		case 5:
			batch = sample(t, "batch", []int{math.MaxInt, math.MaxInt - 1, math.MaxInt - rows + 1, math.MaxInt/2 + 1, math.MaxUint32 + 1, math.MaxUint32, math.MaxInt32 + 1, math.MaxInt32, 65536 + rapid.IntRange(0, 2).Draw(t, "over"), 255, 256, rows + 1, 2 * rows, 100*rows + 1})
		}
		c.Calls = append(c.Calls, fitCall{drawMat(t, "X", rows, c.M.In(), pick(t, "xKind", "norm", "mix")), drawMat(t, "Y", rows, c.M.Out(), yKind),
			epochs, batch, chance(t, "val", 1, 6), sample(t, "log", []int{0, 0, 0, 1, 2}), chance(t, "init", 1, 10),
			c.M.Loss <= ref.MAE && c.M.In() == c.M.Out() && chance(t, "same", 1, 2), chance(t, "own", 1, 8)})
	}
	return c
}

func checkFit(c fitCase, o *Obs) error {
	m := c.M.Build()
	r := c.M.Ref()
	batches, partial := 0, false
	for k, f := range c.Calls {
		if f.Init {
			for i, l := range libs(m) {
				setMat(l.W(), c.M.Layers[i].W.Vals())
				r.Layers[i].W = c.M.Layers[i].W.Ref()
			}
		}
		vx, vy := nn.Matrix{}, nn.Matrix{}
		if f.Val {
			vx, vy = c.Calls[0].X.NN(), c.Calls[0].Y.NN()
		}
		x, y := f.X.NN(), f.Y.NN()
		rx, ry := f.X.Ref(), f.Y.Ref()
		if f.Same {
			y, ry = x, rx
			o.Class("samples are their own targets")
		}
		if f.Own {
			vx, vy = x, y
			o.Class("training data is its own validation data")
		}
		if err := m.Fit(x, y, f.Epochs, f.Batch, vx, vy, f.Log); err != nil {
			return fmt.Errorf("call %d: %v", k, err)
		}
		r.Fit(rx, ry, f.Epochs, f.Batch, nil)
		if err := admitsParams(fmt.Sprintf("after call %d (%d rows, %d epochs, batch size %d)", k, f.X.R, f.Epochs, f.Batch), m, r, o); err != nil {
			return err
		}
		b := f.Batch
		if b == 0 || b > f.X.R {
			b = f.X.R
		}
		batches += f.Epochs * ((f.X.R + b - 1) / b)
		partial = partial || f.Epochs > 0 && f.X.R%b != 0
	}
	if batches > 1 && looseParams(r) == 0 {
		o.NT()
	}
	o.ClassIf(partial, "shorter last batch")
	o.ClassIf(len(c.Calls) > 1, "several calls")
	o.ClassIf(c.M.Opt.Adam, "Adam")
	o.ClassIf(!c.M.Opt.Adam, "SGD")
	o.Class(lossNames[c.M.Loss])
	return nil
}

// Many epochs on a linear model, in chunks of any lengths.
type longFitCase struct {
	L      LayerSpec
	X, Y   Mat
	Opt    OptSpec
	Chunks []int
	Batch  int
}

func checkLongFit(c longFitCase, o *Obs) error {
	s := ModelSpec{Layers: []LayerSpec{c.L}, Loss: ref.MSE, Opt: c.Opt, Prec: 0.1}
	m, r := s.Build(), s.Ref()
	done := 0
	for _, n := range c.Chunks {
		if err := m.Fit(c.X.NN(), c.Y.NN(), n, c.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return err
		}
		r.Fit(c.X.Ref(), c.Y.Ref(), n, c.Batch, func(int) { r.Forget() })
		done += n
		for i, got := range params(m) {
			want := r.Layers[0].W
			if i == 1 {
				want = r.Layers[0].B
			}
			for j := range got {
				if !(math.Abs(got[j]-want.A[j].V) <= 1e-7*(1+math.Abs(want.A[j].V))) {
					return fmt.Errorf("after %d epochs: parameter %d of matrix %d is %v, want %v", done, j, i, got[j], want.A[j].V)
				}
			}
		}
	}
	o.NT()
	o.ClassIf(done > 1000, "over a thousand epochs")
	return nil
}

// P14: observation does not disturb.

type observation struct {
	Do   string // predict, loss, accuracy, forward, train
	Data int
	Bad  int `json:",omitempty"` // 1: the samples have a column too many, 2: the targets have a row too many, both of which is refused
}

type disturbStep struct {
	Fit           *disturbFit  `json:",omitempty"`
	Obs           *observation `json:",omitempty"`
	OverwriteWith F            `json:",omitempty"`
}

type disturbFit struct {
	Data, Epochs, Batch, Log, Val int // Val: data set index + 1, or 0
}

type disturbCase struct {
	M     ModelSpec
	X, Y  []Mat
	Steps []disturbStep
}

func genDisturb(t *rapid.T) disturbCase {
	c := disturbCase{M: drawModel(t, arch{maxLayers: 4, maxDim: 8, dropout: pick(t, "dropout", "fixed", "fixed", "fixed", "any")})}
	yKind := targetKind(t, c.M.Loss)
	for i := 0; i < 3; i++ {
		rows := drawDim(t, "rows", 70)
		c.X = append(c.X, drawMat(t, "X", rows, c.M.In(), pick(t, "xKind", "norm", "mix")))
		c.Y = append(c.Y, drawMat(t, "Y", rows, c.M.Out(), yKind))
	}
	for i := rapid.IntRange(2, 10).Draw(t, "steps"); i > 0; i-- {
		if rapid.IntRange(0, 2).Draw(t, "what") == 0 {
			c.Steps = append(c.Steps, disturbStep{Fit: &disturbFit{rapid.IntRange(0, 2).Draw(t, "data"), rapid.IntRange(1, 3).Draw(t, "epochs"), rapid.IntRange(0, 4).Draw(t, "batch"), rapid.IntRange(0, 2).Draw(t, "log"), rapid.IntRange(0, 3).Draw(t, "val")}})
		} else {
			c.Steps = append(c.Steps, disturbStep{Obs: &observation{pick(t, "do", "predict", "loss", "accuracy", "forward", "train", "save"), rapid.IntRange(0, 2).Draw(t, "data"), max(0, rapid.IntRange(-9, 2).Draw(t, "bad"))}, OverwriteWith: F(rapid.IntRange(0, 1).Draw(t, "overwrite"))})
		}
	}
	c.Steps = append(c.Steps, disturbStep{Fit: &disturbFit{Data: 0, Epochs: 2, Batch: rapid.IntRange(0, 3).Draw(t, "lastBatch")}})
	return c
}

func overwrite(ms ...nn.Matrix) {
	for _, m := range ms {
		for i := range m.M {
			for j := range m.M[i] {
				m.M[i][j] = 1e3
			}
		}
	}
}

func checkDisturb(c disturbCase, o *Obs) error {
	a, b := c.M.Build(), c.M.Build()
	var xs, ys []nn.Matrix
	for i := range c.X {
		xs, ys = append(xs, c.X[i].NN()), append(ys, c.Y[i].NN())
	}
	fits, seen, logs := 0, 0, 0
	random := false // masks differ between the two
	for _, l := range c.M.Layers {
		random = random || l.Kind == ref.Dropout && l.Drop > 0 && l.Drop < 1
	}
	for k, s := range c.Steps {
		before := params(a)
		if f := s.Fit; f != nil {
			vx, vy := nn.Matrix{}, nn.Matrix{}
			if f.Val > 0 {
				vx, vy = xs[f.Val-1], ys[f.Val-1]
			}
			if err := a.Fit(xs[f.Data], ys[f.Data], f.Epochs, f.Batch, vx, vy, f.Log); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			if err := b.Fit(c.X[f.Data].NN(), c.Y[f.Data].NN(), f.Epochs, f.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				return err
			}
			fits++
			if f.Log > 0 {
				logs++
			}
		} else {
			x, y := xs[s.Obs.Data], ys[s.Obs.Data]
			refused := false
			if s.Obs.Bad == 1 && s.Obs.Do != "save" {
				x, refused = mk(x.Rows, x.Cols+1, make([]float64, x.Rows*(x.Cols+1))), true
			}
			if s.Obs.Bad == 2 && (s.Obs.Do == "loss" || s.Obs.Do == "accuracy") {
				y, refused = mk(y.Rows+1, y.Cols, make([]float64, (y.Rows+1)*y.Cols)), true
			}
			var err error
			switch s.Obs.Do {
			case "predict":
				var p nn.Matrix
				p, err = a.Predict(x)
				if s.OverwriteWith != 0 {
					overwrite(p)
				}
			case "loss":
				_, err = a.CalculateLoss(x, y)
			case "accuracy":
				_, err = a.CalculateAccuracy(x, y)
			case "forward", "train":
				var outs []nn.Matrix
				outs, err = a.Forward(x, s.Obs.Do == "train")
				if err == nil && s.OverwriteWith != 0 {
					overwrite(outs[1:]...)
				}
			case "save":
				_, err = saveModel(a)
			}
			if refused != (err != nil) {
				return fmt.Errorf("step %d (%s, refused %v): error %v", k, s.Obs.Do, refused, err)
			}
			o.Class(s.Obs.Do)
			o.ClassIf(refused, "refused")
			seen++
			if err := sameParams(fmt.Sprintf("after step %d (%s) against before", k, s.Obs.Do), params(a), before); err != nil {
				return err
			}
		}
		for i, l := range libs(a) {
			if l.Drop() != float64(c.M.Layers[i].Drop) || l.Slope() != float64(c.M.Layers[i].Slope) || l.In() != c.M.Layers[i].In || l.Out() != c.M.Layers[i].Out {
				return fmt.Errorf("after step %d: the settings of layer %d have changed (slope %v, rate %v, %dx%d)", k, i, l.Slope(), l.Drop(), l.In(), l.Out())
			}
		}
		if !random {
			if err := sameParams(fmt.Sprintf("after step %d, observed model against the other", k), params(a), params(b)); err != nil {
				return err
			}
		}
		for i := range xs {
			if err := c.X[i].unchanged(fmt.Sprintf("after step %d: data %d", k, i), xs[i]); err != nil {
				return err
			}
			if err := c.Y[i].unchanged(fmt.Sprintf("after step %d: targets %d", k, i), ys[i]); err != nil {
				return err
			}
		}
	}
	if fits > 0 && seen+logs > 0 {
		o.NT()
	}
	o.ClassIf(logs > 0, "logging")
	return nil
}

// P15: predictions, losses and accuracies are those of the raw outputs.

type meaningCase struct {
	M    ModelSpec
	X, Y Mat
	Kind int // accuracy kind, which may be unknown
}

func genMeaning(t *rapid.T) meaningCase {
	var c meaningCase
	if rapid.Bool().Draw(t, "identity") {
		// Raw outputs chosen exactly: ties and 0.5 included.
		n := rapid.IntRange(1, 6).Draw(t, "n")
		l := LayerSpec{Kind: ref.Linear, In: n, Out: n, B: Mat{R: 1, C: n}}
		w := make([]F, n*n)
		for i := 0; i < n; i++ {
			w[i*n+i] = 1
		}
		l.W = Mat{R: n, C: n, V: w}
		c.M = ModelSpec{Layers: []LayerSpec{l}, Loss: rapid.IntRange(0, 1).Draw(t, "loss"), Opt: OptSpec{LR: 0.1}, Prec: F(sample(t, "prec", []float64{0.25, 0.5, 1, 0, 0.1}))}
		rows := drawFew(t, "rows", 6)
		c.X = drawMat(t, "X", rows, n, pick(t, "xKind", "grid", "grid", "int", "prob"))
		if c.X.Kind == "prob" || rapid.Bool().Draw(t, "probLoss") && c.X.Kind != "grid" {
			c.M.Loss = rapid.IntRange(0, 3).Draw(t, "anyLoss")
		}
		c.Y = drawMat(t, "Y", rows, n, pick(t, "yKind", "grid", "bin", "onehot"))
		if c.M.Loss >= ref.CE {
			c.Y = drawMat(t, "Y", rows, n, targetKind(t, c.M.Loss))
		}
	} else {
		c.M = drawModel(t, arch{maxLayers: 4, maxDim: 12, dropout: "any"})
		rows := drawDim(t, "rows", 40)
		c.X = drawMat(t, "X", rows, c.M.In(), pick(t, "xKind", "norm", "mix", "grid"))
		c.Y = drawMat(t, "Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
	}
	c.Kind = sample(t, "kind", []int{0, 1, 2, 0, 1, 2, 0, 1, 2, 3, -1, 127, 4, 100, -128})
	return c
}

func checkMeaning(c meaningCase, o *Obs) error {
	c.M.Acc = c.Kind
	m := c.M.Build()
	x, y := c.X.NN(), c.Y.NN()
	// A training pass must leave no trace in the evaluations.
	if c.M.has(ref.Dropout) {
		if _, err := m.Forward(x, true); err != nil {
			return err
		}
		o.Class("dropout")
	}
	outs, err := m.Forward(x, false)
	if err != nil {
		return err
	}
	raw := mustRef(outs[len(outs)-1])
	in := c.X.Ref()
	for i, l := range c.M.Layers {
		in = l.Ref().Forward(in)
		_ = i
	}
	if err := admits("raw outputs", outs[len(outs)-1], in, o); err != nil {
		return err
	}
	loss, err := m.CalculateLoss(x, y)
	if err != nil {
		return err
	}
	if err := judge("loss", loss, ref.Loss(c.M.Loss, raw, c.Y.Ref())); err != nil {
		return err
	}
	p, perr := m.Predict(x)
	acc, aerr := m.CalculateAccuracy(x, y)
	if c.Kind < 0 || c.Kind > 2 {
		o.Class("unknown kind")
		if perr == nil || aerr == nil {
			return fmt.Errorf("accuracy kind %d: prediction error %v, accuracy error %v", c.Kind, perr, aerr)
		}
		return nil
	}
	if perr != nil || aerr != nil {
		return fmt.Errorf("prediction error %v, accuracy error %v", perr, aerr)
	}
	want := predictions(c.Kind, raw)
	cols := raw.C
	if c.Kind == 1 {
		cols = 1
	}
	if err := unchanged("predictions", p, raw.R, cols, want); err != nil {
		return fmt.Errorf("%w (raw outputs %v)", err, outs[len(outs)-1].M)
	}
	if want := accuracy(c.Kind, float64(c.M.Prec), raw, c.Y.Ref()); !sameFraction(acc, want) {
		return fmt.Errorf("accuracy is %v, want %v", acc, want)
	}
	if err := c.X.unchanged("input", x); err != nil {
		return err
	}
	if err := c.Y.unchanged("targets", y); err != nil {
		return err
	}
	o.Class([]string{"regression", "categorical", "binary"}[c.Kind])
	tie, half := false, false
	for i := 0; i < raw.R; i++ {
		row := raw.Row(i)
		b := argmax(row)
		for j, a := range row {
			tie = tie || j != b && a.V == row[b].V
			half = half || a.V == 0.5
		}
	}
	o.ClassIf(tie && c.Kind == 1, "ties")
	o.ClassIf(half && c.Kind == 2, "exactly one half")
	if raw.R*raw.C > 1 {
		o.NT()
	}
	return nil
}

func init() {
	register("P13",
		Sub[fitCase]{Name: "procedure", Quick: 16000, Thorough: 250000, Gen: genFit, Check: checkFit,
			Rule: "models of up to four layers with all losses and both optimizers, one to three training calls each with data of its own, 0 to 5 epochs and every batch size from 0 to beyond the number of rows; all parameters are compared with the textbook procedure after each call. Non-trivial: more than one batch and no parameter set aside."},
		Sub[fitCase]{Name: "rows", Quick: 160, Thorough: 3000, Check: checkFit, Flat: true,
			Rule: "tiny models and 200 to 20000 rows, in one or two calls with batch sizes from 1 (up to 1500 rows) to beyond the number of rows (and at times one epoch of about 66000 batches), compared like the procedure. Non-trivial: more than one batch and no parameter set aside.",
			Gen: func(t *rapid.T) fitCase {
				c := fitCase{M: drawModel(t, arch{maxLayers: 2, maxDim: 2, dropout: "none"})}
				for i := rapid.IntRange(1, 2).Draw(t, "calls"); i > 0; i-- {
					rows := rapid.IntRange(200, 1500).Draw(t, "rows")
					if chance(t, "many", 1, 2) {
						rows = rapid.IntRange(1500, 20000).Draw(t, "rows")
					}
					if chance(t, "magic", 1, 3) {
						rows = sample(t, "rows", []int{256, 257, 512, 513, 1024, 1025, 2048, 2049, 4096, 4097, 5000, 8192, 8193, 10000, 10001, 16384, 16385})
					}
					batch := 0
					if chance(t, "far", 1, 16) { // more batches than 16 bits count
						rows, batch = 65530+uniform(t, "farRows", 4000), 1
						c.Calls = []fitCall{{X: Mat{R: rows, C: c.M.In(), Kind: "norm", Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "X")},
							Y: Mat{R: rows, C: c.M.Out(), Kind: targetKind(t, c.M.Loss), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "Y")}, Epochs: 1, Batch: 1}}
						return c
					}
					switch rapid.IntRange(0, 4).Draw(t, "batchClass") {
					case 1:
						batch = rapid.IntRange(max(1, rows/1500), rows).Draw(t, "batch")
					case 2:
						batch = rows + rapid.IntRange(-2, 2).Draw(t, "batch")
					case 3:
						batch = max(1, rows/rapid.IntRange(2, 9).Draw(t, "parts"))
					case 4:
						batch = max(rows/1500+1, sample(t, "batch", []int{32, 64, 100, 128, 256, 1000, 1024, 4096, 5000, 8192, 10000}))
					}
					c.Calls = append(c.Calls, fitCall{X: Mat{R: rows, C: c.M.In(), Kind: "norm", Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "X")},
						Y:      Mat{R: rows, C: c.M.Out(), Kind: targetKind(t, c.M.Loss), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "Y")},
						Epochs: rapid.IntRange(1, 2).Draw(t, "epochs"), Batch: batch})
				}
				return c
			}},
		Sub[longFitCase]{Name: "long", Quick: 400, Thorough: 6000, Check: checkLongFit,
			Rule: "linear regression over hundreds to thousands of epochs in one to four calls; parameters within 1e-7 of the textbook procedure. All cases are non-trivial.",
			Gen: func(t *rapid.T) longFitCase {
				in, out, rows := rapid.IntRange(1, 2).Draw(t, "in"), rapid.IntRange(1, 2).Draw(t, "out"), rapid.IntRange(3, 6).Draw(t, "rows")
				c := longFitCase{L: drawLayer(t, ref.Linear, in, out, "w", "w"), X: Mat{R: rows, C: in, Kind: "norm", Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "X")},
					Y: Mat{R: rows, C: out, Kind: "norm", Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "Y")}, Opt: drawOpt(t, rapid.Bool().Draw(t, "adam"), false), Batch: rapid.IntRange(0, 4).Draw(t, "batch")}
				// Tame enough to contract, so that rounding does not grow.
				c.Opt.LR = F(sample(t, "lr", []float64{0.01, 0.02, 0.005}))
				c.Opt.Momentum = F(math.Min(float64(c.Opt.Momentum), 0.5))
				if c.Opt.Adam {
					c.Opt.LR = F(sample(t, "lr", []float64{0.01, 0.002, 0.005}))
					c.Opt.Epsilon = F(sample(t, "eps", []float64{0.1, 1}))
				}
				for i := rapid.IntRange(1, 4).Draw(t, "chunks"); i > 0; i-- {
					c.Chunks = append(c.Chunks, sample(t, "epochs", []int{1, 50, 99, 100, 101, 127, 128, 200, 255, 256, 300, 500, 1000, 1200}))
				}
				return c
			}})
	register("P14", Sub[disturbCase]{Name: "twins", Quick: 16000, Thorough: 300000, Gen: genDisturb, Check: checkDisturb,
		Rule: "two equal models are trained alike, up to five times; between trainings one of them predicts, calculates losses and accuracies, is passed forward in both modes and saved (what it returns being overwritten; some of these calls are refused), and it logs and validates during training. After every step its parameters must be those of the other model to the bit (with random dropout: those before the observation), and layer settings and all data unchanged. Non-trivial: a training and an observation or log."})
	register("P15", Sub[meaningCase]{Name: "meaning", Quick: 40000, Thorough: 600000, Gen: genMeaning, Check: checkMeaning,
		Rule: "models of all kinds, half of them passing inputs through so that ties and outputs of exactly 0.5 occur, known and unknown accuracy kinds; predictions, loss and accuracy against those of the raw outputs. Non-trivial: a known kind and more than one output value."})
}
