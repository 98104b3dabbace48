package main

import (
	"fmt"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P25: wrong shapes are refused.

// shape makes a library matrix; 0x0 is the empty matrix.
func shape(m Mat) nn.Matrix {
	if m.R == 0 {
		return nn.Matrix{}
	}
	return m.NN()
}

func stillSo(what string, m Mat, x nn.Matrix) error {
	if m.R == 0 {
		if x.Rows != 0 || x.Cols != 0 || len(x.M) != 0 {
			return fmt.Errorf("%s: the empty matrix has changed", what)
		}
		return nil
	}
	return m.unchanged(what, x)
}

// drawOff draws a size other than n (0 leaves it to the caller to use the empty matrix).
func drawOff(t *rapid.T, n int) int {
	k := sample(t, "off", []int{n + 1, n - 1, n + 1, n - 1, 2 * n, n + 7, 1, n / 2})
	if k == n {
		k = n + 1
	}
	return k
}

// drawShape draws a matrix of the given size.
func drawShape(t *rapid.T, r, c int, kind string) Mat {
	if r < 1 || c < 1 {
		return Mat{}
	}
	return drawMat(t, "m", r, c, kind)
}

// offCols and offRows have another number of columns or rows.
func offCols(t *rapid.T, r, c int, kind string) Mat {
	if chance(t, "empty", 1, 8) {
		return Mat{}
	}
	if r != c && chance(t, "transposed", 1, 6) {
		return drawShape(t, c, r, kind)
	}
	return drawShape(t, r, drawOff(t, c), kind)
}

func offRows(t *rapid.T, r, c int, kind string) Mat {
	return drawShape(t, drawOff(t, r), c, kind)
}

// Layers.

type layerStep struct {
	Do   string // forward, eval, backward, crossentropy
	X    Mat
	DV   Mat
	Y    Mat `json:",omitempty"`
	Good bool
}

type layerShapeCase struct {
	L     LayerSpec
	Steps []layerStep
}

// needsForward says that the derivative of the layer depends on its last forward pass.
func needsForward(kind int) bool { return kind != ref.Linear }

func genLayerShape(t *rapid.T) layerShapeCase {
	kind := rapid.IntRange(0, 5).Draw(t, "kind")
	most := 5
	if chance(t, "larger", 1, 10) {
		most = 40
	}
	l := drawLayer(t, kind, drawFew(t, "in", most), drawFew(t, "out", most), "w", "w")
	if kind == ref.Dropout {
		l.Drop = F(rapid.IntRange(0, 1).Draw(t, "drop"))
	}
	c := layerShapeCase{L: l}
	var last *Mat // batch of the last accepted forward pass
	for i := rapid.IntRange(1, 10).Draw(t, "steps"); i > 0; i-- {
		s := layerStep{Do: pick(t, "do", "forward", "backward", "backward"), Good: chance(t, "good", 2, 5)}
		if kind == ref.Dropout && s.Do == "forward" && rapid.Bool().Draw(t, "eval") {
			s.Do = "eval"
		}
		if kind == ref.Softmax && s.Do == "backward" && rapid.Bool().Draw(t, "ce") {
			s.Do = "crossentropy"
		}
		rows := drawFew(t, "rows", 5)
		switch s.Do {
		case "forward", "eval":
			if s.Good {
				s.X = drawShape(t, rows, l.In, "norm")
				x := s.X
				last = &x
			} else {
				s.X = offCols(t, rows, l.In, "norm")
				if s.X.C == l.In {
					s.X = Mat{}
				}
			}
		case "backward":
			if last == nil && needsForward(kind) {
				s.Good = false
				s.X, s.DV = drawShape(t, rows, l.In, "norm"), drawShape(t, rows, l.Out, "norm")
				break
			}
			n := rows
			s.X = drawShape(t, rows, l.In, "norm")
			if last != nil {
				n = last.R
				s.X = *last
			}
			s.DV = drawShape(t, n, l.Out, "norm")
			if s.Good {
				break
			}
			switch how := pick(t, "how", "xCols", "dvCols", "xRows", "dvRows", "both", "swapped"); {
			case how == "xCols":
				s.X = offCols(t, n, l.In, "norm")
			case how == "dvCols":
				s.DV = offCols(t, n, l.Out, "norm")
			case how == "xRows":
				s.X = offRows(t, n, l.In, "norm")
			case how == "dvRows":
				s.DV = offRows(t, n, l.Out, "norm")
			case how == "both" && needsForward(kind):
				k := drawOff(t, n)
				s.X, s.DV = drawShape(t, k, l.In, "norm"), drawShape(t, k, l.Out, "norm")
			default:
				s.X, s.DV = s.DV, s.X
			}
			// It must really be wrong.
			if s.X.C == l.In && s.DV.C == l.Out && s.X.R == s.DV.R && (!needsForward(kind) || last == nil || s.X.R == last.R) {
				s.X = Mat{}
			}
		case "crossentropy":
			s.X, s.Y, s.DV = drawShape(t, rows, l.In, "norm"), drawShape(t, rows, l.Out, "onehot"), drawShape(t, rows, l.Out, "dist")
			if s.Good {
				break
			}
			switch pick(t, "how", "xCols", "xRows", "yCols", "yRows", "pCols", "pRows", "ypCols", "ypRows") {
			case "xCols":
				s.X = offCols(t, rows, l.In, "norm")
			case "xRows":
				s.X = offRows(t, rows, l.In, "norm")
			case "yCols":
				s.Y = offCols(t, rows, l.Out, "onehot")
			case "yRows":
				s.Y = offRows(t, rows, l.Out, "onehot")
			case "pCols":
				s.DV = offCols(t, rows, l.Out, "dist")
			case "pRows":
				s.DV = offRows(t, rows, l.Out, "dist")
			case "ypCols":
				k := drawOff(t, l.Out)
				s.Y, s.DV = drawShape(t, rows, k, "onehot"), drawShape(t, rows, k, "dist")
			case "ypRows":
				k := drawOff(t, rows)
				s.Y, s.DV = drawShape(t, k, l.Out, "onehot"), drawShape(t, k, l.Out, "dist")
			}
			if s.X.C == l.In && s.Y.C == l.Out && s.DV.C == l.Out && s.X.R == s.Y.R && s.Y.R == s.DV.R {
				s.X = Mat{}
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func (s layerStep) run(l Lib, x, dv, y nn.Matrix) ([]nn.Matrix, error) {
	switch s.Do {
	case "forward":
		o, err := l.Forward(x)
		return []nn.Matrix{o}, err
	case "eval":
		o, err := l.eval(x)
		return []nn.Matrix{o}, err
	case "backward":
		a, b, c, err := l.Backward(x, dv)
		return []nn.Matrix{a, b, c}, err
	}
	a, b, c, err := l.Layer.(*nn.SoftmaxLayer).BackwardCrossEntropy(x, y, dv)
	return []nn.Matrix{a, b, c}, err
}

func sizes(ms ...Mat) string {
	o := ""
	for i, m := range ms {
		if i > 0 {
			o += ", "
		}
		o += fmt.Sprintf("%dx%d", m.R, m.C)
	}
	return o
}

func checkLayerShape(c layerShapeCase, o *Obs) error {
	l, twin := c.L.Build(), c.L.Build()
	bad, after := 0, 0
	for k, s := range c.Steps {
		what := fmt.Sprintf("step %d: %s layer %dx%d: %s with %s", k, layerNames[c.L.Kind], c.L.In, c.L.Out, s.Do, sizes(s.X, s.DV, s.Y))
		x, dv, y := shape(s.X), shape(s.DV), shape(s.Y)
		got, err := s.run(l, x, dv, y)
		if s.Good {
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			want, err := s.run(twin, shape(s.X), shape(s.DV), shape(s.Y))
			if err != nil {
				return err
			}
			for i := range got {
				v, err := vals(want[i])
				if err != nil {
					return err
				}
				if err := unchanged(what+": result after refused calls against one without", got[i], want[i].Rows, want[i].Cols, v); err != nil {
					return err
				}
			}
			if bad > 0 {
				after++
			}
		} else {
			bad++
			o.Class(s.Do + " refused")
			if err == nil {
				return fmt.Errorf("%s: not refused", what)
			}
		}
		for _, e := range []error{c.L.paramsUnchanged(l), stillSo("input", s.X, x), stillSo("upstream gradient", s.DV, dv), stillSo("targets", s.Y, y)} {
			if e != nil {
				return fmt.Errorf("%s: %w", what, e)
			}
		}
	}
	if bad > 0 {
		o.NT()
	}
	o.ClassIf(after > 0, "accepted call after a refused one")
	return nil
}

// Losses.

type lossShapeCase struct {
	Kind, N int
	P, Y    Mat
}

func genLossShape(t *rapid.T) lossShapeCase {
	c := lossShapeCase{Kind: rapid.IntRange(0, 3).Draw(t, "loss"), N: drawDim(t, "n", 40)}
	rows := drawDim(t, "rows", 40)
	pk, yk := "norm", "norm"
	if c.Kind >= ref.CE {
		pk, yk = "dist", "onehot"
	}
	c.P, c.Y = drawShape(t, rows, c.N, pk), drawShape(t, rows, c.N, yk)
	switch pick(t, "how", "pCols", "yCols", "pRows", "yRows", "bothCols", "good") {
	case "pCols":
		c.P = offCols(t, rows, c.N, pk)
	case "yCols":
		c.Y = offCols(t, rows, c.N, yk)
	case "pRows":
		c.P = offRows(t, rows, c.N, pk)
	case "yRows":
		c.Y = offRows(t, rows, c.N, yk)
	case "bothCols":
		k := drawOff(t, c.N)
		c.P, c.Y = drawShape(t, rows, k, pk), drawShape(t, rows, k, yk)
	}
	return c
}

func checkLossShape(c lossShapeCase, o *Obs) error {
	good := c.P.C == c.N && c.Y.C == c.N && c.P.R == c.Y.R && c.P.R > 0
	l := mustLoss(c.Kind, c.N)
	p, y := shape(c.P), shape(c.Y)
	_, ferr := l.Forward(p, y)
	_, berr := l.Backward(p, y)
	what := fmt.Sprintf("%s loss of size %d with %s", lossNames[c.Kind], c.N, sizes(c.P, c.Y))
	if (ferr == nil) != good || (berr == nil) != good {
		return fmt.Errorf("%s: value %v, gradient %v", what, ferr, berr)
	}
	for _, e := range []error{stillSo("predictions", c.P, p), stillSo("targets", c.Y, y)} {
		if e != nil {
			return fmt.Errorf("%s: %w", what, e)
		}
	}
	if !good {
		o.NT()
	}
	o.Class(lossNames[c.Kind])
	return nil
}

// Optimizers.

type optShapeStep struct {
	DW, DB Mat
	Good   bool
	Other  bool `json:",omitempty"` // other parameters than those the state belongs to
}

type optShapeCase struct {
	Opt   OptSpec
	W, B  Mat
	Steps []optShapeStep
}

func genOptShape(t *rapid.T) optShapeCase {
	r, k := drawDim(t, "rows", 20), drawDim(t, "cols", 20)
	c := optShapeCase{Opt: drawOpt(t, rapid.Bool().Draw(t, "adam"), false), W: drawShape(t, r, k, "norm"), B: drawShape(t, 1, k, "norm")}
	started := false
	for i := rapid.IntRange(1, 8).Draw(t, "steps"); i > 0; i-- {
		s := optShapeStep{Good: chance(t, "good", 1, 2)}
		s.DW, s.DB = drawShape(t, r, k, "norm"), drawShape(t, 1, k, "norm")
		if !s.Good {
			switch pick(t, "how", "wCols", "wRows", "bCols", "bRows", "cols", "swapped", "other") {
			case "wCols":
				s.DW = offCols(t, r, k, "norm")
			case "wRows":
				s.DW = offRows(t, r, k, "norm")
			case "bCols":
				s.DB = offCols(t, 1, k, "norm")
			case "bRows":
				s.DB = offRows(t, 1, k, "norm")
			case "cols":
				n := drawOff(t, k)
				s.DW, s.DB = drawShape(t, r, n, "norm"), drawShape(t, 1, n, "norm")
			case "swapped":
				s.DW, s.DB = s.DB, s.DW
			case "other":
				if started && (c.Opt.Adam || c.Opt.Momentum != 0) {
					s.Other = true
					n, q := r, k
					if rapid.Bool().Draw(t, "otherRows") {
						n = max(1, drawOff(t, r))
					}
					if n == r {
						q = k + 1
					}
					s.DW, s.DB = drawShape(t, n, q, "norm"), drawShape(t, 1, q, "norm")
				}
			}
			if !s.Other && s.DW.R == r && s.DW.C == k && s.DB.R == 1 && s.DB.C == k {
				s.DW = Mat{}
			}
		}
		started = started || s.Good
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkOptShape(c optShapeCase, o *Obs) error {
	opt, twin := c.Opt.Build(), c.Opt.Build()
	w, b, tw, tb := c.W.NN(), c.B.NN(), c.W.NN(), c.B.NN()
	bad, after := 0, 0
	for k, s := range c.Steps {
		dw, db := shape(s.DW), shape(s.DB)
		what := fmt.Sprintf("step %d: update of %s with %s", k, sizes(c.W, c.B), sizes(s.DW, s.DB))
		var err error
		if s.Other {
			ow, ob := shape(s.DW), shape(s.DB)
			err = opt.Update(&ow, &ob, dw, db)
			what = fmt.Sprintf("step %d: update of other parameters, %s", k, sizes(s.DW, s.DB))
			for _, e := range []error{stillSo("weights", s.DW, ow), stillSo("biases", s.DB, ob)} {
				if e != nil {
					return fmt.Errorf("%s: %w", what, e)
				}
			}
			o.Class("other parameters")
		} else {
			err = opt.Update(&w, &b, dw, db)
		}
		if s.Good {
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := twin.Update(&tw, &tb, shape(s.DW), shape(s.DB)); err != nil {
				return err
			}
			if bad > 0 {
				after++
			}
		} else {
			bad++
			if err == nil {
				return fmt.Errorf("%s: not refused", what)
			}
		}
		wv, _ := vals(tw)
		bv, _ := vals(tb)
		for _, e := range []error{unchanged("weights against those of a twin without refused updates", w, tw.Rows, tw.Cols, wv),
			unchanged("biases against those of a twin without refused updates", b, tb.Rows, tb.Cols, bv),
			stillSo("weight gradient", s.DW, dw), stillSo("bias gradient", s.DB, db)} {
			if e != nil {
				return fmt.Errorf("%s: %w", what, e)
			}
		}
	}
	if bad > 0 {
		o.NT()
	}
	o.ClassIf(after > 0, "accepted call after a refused one")
	return nil
}

// Models.

type modelShapeStep struct {
	Do                 string
	X, Y, VX, VY       Mat
	Good               bool
	Epochs, Batch, Log int `json:",omitempty"`
}

type modelShapeCase struct {
	M     ModelSpec
	Steps []modelShapeStep
}

func genModelShape(t *rapid.T) modelShapeCase {
	c := modelShapeCase{M: drawModel(t, arch{maxLayers: 4, maxDim: 6, dropout: "fixed"})}
	in, out := c.M.In(), c.M.Out()
	yk := targetKind(t, c.M.Loss)
	for i := rapid.IntRange(1, 8).Draw(t, "steps"); i > 0; i-- {
		s := modelShapeStep{Do: pick(t, "do", "fit", "fit", "fit", "predict", "loss", "accuracy", "forward", "train", "backward"), Good: chance(t, "good", 2, 5)}
		rows := drawFew(t, "rows", 9)
		s.X, s.Y = drawShape(t, rows, in, "norm"), drawShape(t, rows, out, yk)
		if s.Do == "fit" {
			s.Epochs, s.Batch, s.Log = rapid.IntRange(0, 3).Draw(t, "epochs"), rapid.IntRange(0, 5).Draw(t, "batch"), rapid.IntRange(0, 2).Draw(t, "log")
			if rapid.Bool().Draw(t, "val") {
				n := drawFew(t, "valRows", 5)
				s.VX, s.VY = drawShape(t, n, in, "norm"), drawShape(t, n, out, yk)
			}
		}
		if !s.Good {
			hows := []string{"xCols", "xCols", "yCols", "xRows", "yRows"}
			switch s.Do {
			case "predict", "forward", "train":
				hows = []string{"xCols"}
			case "backward":
				hows = []string{"yCols", "yRows"}
			case "fit":
				if s.VX.R > 0 && s.Log > 0 && s.Epochs > 0 {
					hows = append(hows, "vxCols", "vyCols", "vxRows", "vyRows")
				}
			}
			switch pick(t, "how", hows...) {
			case "xCols":
				s.X = offCols(t, rows, in, "norm")
			case "yCols":
				s.Y = offCols(t, rows, out, yk)
			case "xRows":
				s.X = offRows(t, rows, in, "norm")
			case "yRows":
				s.Y = offRows(t, rows, out, yk)
			case "vxCols":
				s.VX = drawShape(t, s.VX.R, max(1, drawOff(t, in)), "norm")
			case "vyCols":
				s.VY = drawShape(t, s.VY.R, max(1, drawOff(t, out)), yk)
			case "vxRows":
				s.VX = drawShape(t, max(1, drawOff(t, s.VX.R)), in, "norm")
			case "vyRows":
				s.VY = drawShape(t, max(1, drawOff(t, s.VY.R)), out, yk)
			}
			valOK := s.VX.R == 0 || s.Log == 0 || s.VX.R == s.VY.R && s.VX.C == in && s.VY.C == out
			switch s.Do {
			case "predict", "forward", "train":
				if s.X.C == in {
					s.X = Mat{}
				}
			default:
				if s.X.R == s.Y.R && s.X.C == in && s.Y.C == out && valOK {
					s.Y = Mat{}
				}
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// run gives all results as values.
func (s modelShapeStep) run(m *nn.Model, x, y, vx, vy nn.Matrix) (string, error) {
	show := func(ms ...nn.Matrix) string {
		o := ""
		for _, m := range ms {
			v, err := vals(m)
			o += fmt.Sprintf("%dx%d %v %v;", m.Rows, m.Cols, err, bits(v))
		}
		return o
	}
	switch s.Do {
	case "fit":
		return "", m.Fit(x, y, s.Epochs, s.Batch, vx, vy, s.Log)
	case "predict":
		p, err := m.Predict(x)
		return show(p), err
	case "loss":
		v, err := m.CalculateLoss(x, y)
		return fmt.Sprint(ref.Bits(v)), err
	case "accuracy":
		v, err := m.CalculateAccuracy(x, y)
		return fmt.Sprint(ref.Bits(v)), err
	case "forward", "train":
		o, err := m.Forward(x, s.Do == "train")
		return show(o...), err
	}
	outs, err := m.Forward(x, true)
	if err != nil {
		return "", fmt.Errorf("forward pass: %w", err)
	}
	gs, err := m.Backward(outs, y)
	o := ""
	for _, g := range gs {
		o += show(g.DWeights, g.DBiases)
	}
	return o, err
}

func checkModelShape(c modelShapeCase, o *Obs) error {
	m, twin := c.M.Build(), c.M.Build()
	bad, after := 0, 0
	for k, s := range c.Steps {
		what := fmt.Sprintf("step %d: %s of a model with %d inputs and %d outputs, matrices %s", k, s.Do, c.M.In(), c.M.Out(), sizes(s.X, s.Y, s.VX, s.VY))
		x, y, vx, vy := shape(s.X), shape(s.Y), shape(s.VX), shape(s.VY)
		got, err := s.run(m, x, y, vx, vy)
		if s.Good {
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			want, err := s.run(twin, shape(s.X), shape(s.Y), shape(s.VX), shape(s.VY))
			if err != nil {
				return err
			}
			if got != want {
				return fmt.Errorf("%s: result after refused calls is %.200s and without them %.200s", what, got, want)
			}
			if bad > 0 {
				after++
			}
		} else {
			bad++
			o.Class(s.Do + " refused")
			if err == nil {
				return fmt.Errorf("%s: not refused", what)
			}
		}
		for _, e := range []error{sameParams("against a twin without refused calls", params(m), params(twin)),
			stillSo("input", s.X, x), stillSo("targets", s.Y, y), stillSo("validation input", s.VX, vx), stillSo("validation targets", s.VY, vy)} {
			if e != nil {
				return fmt.Errorf("%s: %w", what, e)
			}
		}
	}
	if bad > 0 {
		o.NT()
	}
	o.ClassIf(after > 0, "accepted call after a refused one")
	return nil
}

func init() {
	register("P25",
		Sub[layerShapeCase]{Name: "layers", Quick: 60000, Thorough: 900000, Gen: genLayerShape, Check: checkLayerShape,
			Rule: "layers of all kinds with up to ten passes, accepted ones mixed with ones whose matrices have wrong columns or rows, do not match each other or the last forward pass, are empty, or come before any forward pass: wrong ones must return an error, accepted ones the same to the bit as a twin that never saw the wrong ones; parameters and arguments unchanged. Non-trivial: a refused call."},
		Sub[lossShapeCase]{Name: "losses", Quick: 40000, Thorough: 600000, Gen: genLossShape, Check: checkLossShape,
			Rule: "values and gradients of all losses are refused exactly if predictions and targets do not have the loss's size and the same number of rows. Non-trivial: refused."},
		Sub[optShapeCase]{Name: "optimizers", Quick: 30000, Thorough: 450000, Gen: genOptShape, Check: checkOptShape,
			Rule: "histories of up to eight updates, some with gradients of wrong sizes or for parameters of another size than the state's; parameters must be those of a twin without them. Non-trivial: a refused update."},
		Sub[modelShapeCase]{Name: "models", Quick: 30000, Thorough: 450000, Gen: genModelShape, Check: checkModelShape,
			Rule: "histories of up to eight trainings (with validation data), predictions, evaluations and passes, some with wrong matrices; parameters and results must be those of a twin without them. Non-trivial: a refused call."})
}
