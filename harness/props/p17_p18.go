package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P17: round trips; P18: the format.

type tripItem struct {
	M     *ModelSpec `json:",omitempty"`
	L     *LayerSpec `json:",omitempty"`
	Train int        `json:",omitempty"` // epochs before saving
	Break string     `json:",omitempty"` // make it impossible to represent
	At    int        `json:",omitempty"`
}

type tripCase struct {
	Items []tripItem
	Seed  uint64
	Tail  int // unrelated bytes behind
}

func drawSavedLayer(t *rapid.T, most int) LayerSpec {
	l := drawAnyLayer(t, most, "w", "special", "bits", "norm", "wide")
	if chance(t, "allSpecial", 1, 4) {
		l.B = drawMat(t, "B", 1, l.Out, sample(t, "bKind", []string{"special", "bits"}))
	}
	return l
}

func drawSavedModel(t *rapid.T, special bool) ModelSpec {
	m := drawModel(t, arch{maxLayers: 6, maxDim: sample(t, "maxDim", []int{4, 4, 12, 70}), dropout: "any", wild: true})
	if special {
		kind := sample(t, "wKind", []string{"special", "bits"})
		for i := range m.Layers {
			l := &m.Layers[i]
			l.W, l.B = drawMat(t, "W", l.In, l.Out, kind), drawMat(t, "B", 1, l.Out, kind)
		}
	}
	if m.Opt.Adam && chance(t, "anyAdam", 1, 4) {
		m.Opt.Epsilon, m.Opt.Beta1, m.Opt.Beta2 = drawEdge(t, "eps"), drawEdge(t, "beta1"), drawEdge(t, "beta2")
	}
	m.Prec = F(sample(t, "prec", []float64{0.1, 0, 0.5, 1, 1e-300, 1e300}))
	m.Acc = sample(t, "acc", []int{0, 1, 2, 0, 1, 2, 0, 1, 2, 5, -1, 127})
	return m
}

func genTrip(t *rapid.T) tripCase {
	c := tripCase{Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
	for i := rapid.IntRange(1, 4).Draw(t, "items"); i > 0; i-- {
		var it tripItem
		if chance(t, "layer", 1, 3) {
			l := drawSavedLayer(t, 130)
			it.L = &l
		} else {
			m := drawSavedModel(t, chance(t, "special", 1, 3))
			it.M = &m
			it.Train = rapid.IntRange(0, 2).Draw(t, "train")
			it.At = rapid.IntRange(0, len(m.Layers)-1).Draw(t, "at")
		}
		if chance(t, "break", 1, 10) {
			it.Break = pick(t, "how", "weightRows", "weightCols", "biasCols", "biasRows")
		}
		c.Items = append(c.Items, it)
	}
	if chance(t, "tail", 1, 3) {
		c.Tail = rapid.IntRange(1, 40).Draw(t, "tailLen")
	}
	return c
}

// breakLayer gives a layer a matrix of the wrong size.
func breakLayer(l Lib, how string) {
	m := l.W()
	if how[0] == 'b' {
		m = l.B()
	}
	r, c := m.Rows, m.Cols
	if how == "weightRows" || how == "biasRows" {
		r++
	} else {
		c++
	}
	n, err := nn.NewMatrix(r, c)
	if err != nil {
		panic(err)
	}
	*m = n
}

// identical is equality of all bits, those of NaNs included.
func identical(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func identicalAll(what string, a, b []float64) error {
	for i := range a {
		if !identical(a[i], b[i]) {
			return fmt.Errorf("%s: value %d has the bits %x instead of %x", what, i, math.Float64bits(a[i]), math.Float64bits(b[i]))
		}
	}
	return nil
}

// kept says that saving has left all parameters as they were.
func kept(what string, now, was [][]float64) error {
	if err := sameParams(what, now, was); err != nil {
		return err
	}
	for i := range now {
		if err := identicalAll(fmt.Sprintf("%s: layer %d %s", what, i/2, []string{"weights", "biases"}[i%2]), now[i], was[i]); err != nil {
			return err
		}
	}
	return nil
}

func sameLib(what string, a, b Lib) error {
	if a.Kind != b.Kind || a.In() != b.In() || a.Out() != b.Out() || !identical(a.Slope(), b.Slope()) || !identical(a.Drop(), b.Drop()) {
		return fmt.Errorf("%s: %s layer %dx%d, slope %v, dropout %v instead of %s %dx%d, %v, %v", what, layerNames[a.Kind], a.In(), a.Out(), a.Slope(), a.Drop(), layerNames[b.Kind], b.In(), b.Out(), b.Slope(), b.Drop())
	}
	for i, p := range [][2]*nn.Matrix{{a.W(), b.W()}, {a.B(), b.B()}} {
		want, err := vals(*p[1])
		if err != nil {
			return err
		}
		name := what + ": " + []string{"weights", "biases"}[i]
		if err := unchanged(name, *p[0], p[1].Rows, p[1].Cols, want); err != nil {
			return err
		}
		got, _ := vals(*p[0])
		if err := identicalAll(name, got, want); err != nil {
			return err
		}
	}
	return nil
}

func sameModel(what string, a, b *nn.Model) error {
	if a.ModelSize != b.ModelSize || a.InputSize != b.InputSize || a.OutputSize != b.OutputSize || a.LossType != b.LossType || a.AccuracyType != b.AccuracyType ||
		!identical(a.AccuracyPercision, b.AccuracyPercision) || a.OptimizerType != b.OptimizerType || len(a.Layers) != len(b.Layers) || len(a.Optimizers) != len(b.Optimizers) {
		return fmt.Errorf("%s: model of %d layers, sizes %d and %d, loss %d, accuracy %d with precision %v, optimizer %d instead of %d, %d and %d, %d, %d with %v, %d", what,
			a.ModelSize, a.InputSize, a.OutputSize, a.LossType, a.AccuracyType, a.AccuracyPercision, a.OptimizerType,
			b.ModelSize, b.InputSize, b.OutputSize, b.LossType, b.AccuracyType, b.AccuracyPercision, b.OptimizerType)
	}
	if av, bv := withoutType(a.OptimizerValues), withoutType(b.OptimizerValues); !sameSettings(av, bv) {
		return fmt.Errorf("%s: optimizer settings %v instead of %v", what, av, bv)
	}
	for i := range a.Layers {
		if err := sameLib(fmt.Sprintf("%s: layer %d", what, i), wrap(a.Layers[i]), wrap(b.Layers[i])); err != nil {
			return err
		}
	}
	return nil
}

// sameBehaviour compares evaluations of two models to the bit.
func sameBehaviour(what string, a, b *nn.Model, x, y nn.Matrix) error {
	ao, aerr := a.Forward(x, false)
	bo, berr := b.Forward(x, false)
	if aerr != nil || berr != nil {
		return fmt.Errorf("%s: forward pass: %v, %v", what, aerr, berr)
	}
	for i := range bo {
		v, _ := vals(bo[i])
		if err := unchanged(fmt.Sprintf("%s: output %d", what, i), ao[i], bo[i].Rows, bo[i].Cols, v); err != nil {
			return err
		}
	}
	for _, f := range []func(m *nn.Model) (float64, error){
		func(m *nn.Model) (float64, error) { return m.CalculateLoss(x, y) },
		func(m *nn.Model) (float64, error) { return m.CalculateAccuracy(x, y) },
	} {
		av, aerr := f(a)
		bv, berr := f(b)
		if (aerr == nil) != (berr == nil) || !sameBits(av, bv) {
			return fmt.Errorf("%s: loss or accuracy is %v, %v instead of %v, %v", what, av, aerr, bv, berr)
		}
	}
	ap, aerr := a.Predict(x)
	bp, berr := b.Predict(x)
	if (aerr == nil) != (berr == nil) {
		return fmt.Errorf("%s: prediction: %v instead of %v", what, aerr, berr)
	}
	if berr == nil {
		v, _ := vals(bp)
		return unchanged(what+": predictions", ap, bp.Rows, bp.Cols, v)
	}
	return nil
}

// Saving again and again what has changed in place in between: what loads is what was saved last.
type resaveCase struct {
	M       ModelSpec
	Changes []change
	At      []int
	Layer   bool // layers alone
	Loaded  bool // go on with the loaded model after every step
}

func checkResave(c resaveCase, o *Obs) error {
	m := c.M.Build()
	for k := -1; k < len(c.Changes); k++ {
		what := "at the start"
		if k >= 0 {
			ch := c.Changes[k]
			what = fmt.Sprintf("after change %d (%s)", k, ch.What)
			if ch.What == "precision" {
				m.AccuracyPercision = float64(ch.Seed%1000) / 256
			} else {
				ch.applyTo(wrap(m.Layers[c.At[k]]))
			}
		}
		before := params(m)
		if c.Layer {
			for i, l := range m.Layers {
				b, err := saveLayer(l)
				if err != nil {
					return fmt.Errorf("%s: layer %d cannot be saved: %v", what, i, err)
				}
				n, err := nn.LoadLayer(bytes.NewBuffer(b))
				if err != nil {
					return fmt.Errorf("%s: layer %d: %v", what, i, err)
				}
				if err := sameLib(fmt.Sprintf("%s: layer %d", what, i), wrap(n), wrap(l)); err != nil {
					return err
				}
			}
		} else {
			b, err := saveModel(m)
			if err != nil {
				return fmt.Errorf("%s: cannot be saved: %v", what, err)
			}
			n, err := nn.LoadModel(bytes.NewBuffer(b))
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := kept(what+": loaded", params(&n), before); err != nil {
				return err
			}
			if err := sameModel(what, &n, m); err != nil {
				return err
			}
			if c.Loaded {
				m = &n
			}
		}
		if err := kept(what+": the model that was saved", params(m), before); err != nil {
			return err
		}
	}
	if len(c.Changes) > 0 {
		o.NT()
	}
	o.ClassIf(c.Layer, "layers")
	return nil
}

func checkTrip(c tripCase, o *Obs) error {
	var buf bytes.Buffer
	type entry struct {
		it    tripItem
		m     *nn.Model
		l     Lib
		after int // bytes in the buffer behind it
	}
	var es []entry
	seed := c.Seed
	data := func(r, k int, kind string) Mat {
		seed++
		return Mat{R: r, C: k, Kind: kind, Seed: seed}
	}
	for i, it := range c.Items {
		e := entry{it: it}
		before := buf.Len()
		var err error
		if it.M != nil {
			e.m = it.M.Build()
			if it.Train > 0 {
				if err := e.m.Fit(data(3, it.M.In(), "norm").NN(), data(3, it.M.Out(), "onehot").NN(), it.Train, 2, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					return err
				}
			}
			if it.Break != "" {
				breakLayer(wrap(e.m.Layers[it.At]), it.Break)
			}
			was := params(e.m)
			d := nn.NewSavedModelData(*e.m)
			err = d.Serialize(&buf)
			if e := kept(fmt.Sprintf("item %d once saved", i), params(e.m), was); e != nil {
				return e
			}
		} else {
			e.l = it.L.Build()
			if it.Break != "" {
				breakLayer(e.l, it.Break)
			}
			var was [][]float64
			for _, p := range []*nn.Matrix{e.l.W(), e.l.B()} {
				v, _ := vals(*p)
				was = append(was, v)
			}
			d := nn.NewSavedLayerData(e.l.Layer)
			err = d.SerializeLayer(&buf)
			for k, p := range []*nn.Matrix{e.l.W(), e.l.B()} {
				v, _ := vals(*p)
				if e := identicalAll(fmt.Sprintf("item %d once saved: %s", i, []string{"weights", "biases"}[k]), v, was[k]); e != nil {
					return e
				}
			}
		}
		if it.Break != "" {
			if err == nil {
				return fmt.Errorf("item %d, which does not have the sizes it claims (%s), is saved without an error", i, it.Break)
			}
			buf.Truncate(before)
			o.Class("cannot be represented")
			continue
		}
		if err != nil {
			return fmt.Errorf("item %d cannot be saved: %v", i, err)
		}
		es = append(es, e)
		for k := range es {
			es[k].after = buf.Len()
		}
	}
	// Bytes behind each item.
	total := buf.Len()
	for i := 0; i < c.Tail; i++ {
		buf.WriteByte(byte(i * 37))
	}
	saved := append([]byte(nil), buf.Bytes()...)
	at := 0
	for i, e := range es {
		what := fmt.Sprintf("loaded item %d", i)
		left := buf.Len()
		if e.m != nil {
			_, rest, err := ref.DecodeModel(saved[at:])
			if err != nil {
				return fmt.Errorf("item %d is not saved in the documented layout: %v", i, err)
			}
			size := len(saved) - at - len(rest)
			loaded, err := nn.LoadModel(&buf)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if left-buf.Len() != size {
				return fmt.Errorf("%s: loading took %d bytes of %d", what, left-buf.Len(), size)
			}
			at += size
			if err := sameModel(what, &loaded, e.m); err != nil {
				return err
			}
			x, y := data(3, e.it.M.In(), "norm").NN(), data(3, e.it.M.Out(), "onehot").NN()
			if err := sameBehaviour(what, &loaded, e.m, x, y); err != nil {
				return err
			}
			// The same content again.
			again, err := saveModel(&loaded)
			if err != nil {
				return fmt.Errorf("%s cannot be saved again: %v", what, err)
			}
			fa, ra, err := ref.DecodeModel(again)
			if err != nil || len(ra) > 0 {
				return fmt.Errorf("%s, saved again, is not in the documented layout: %v", what, err)
			}
			fb, _, _ := ref.DecodeModel(saved[at-size:])
			if err := sameFormat(what+" saved again", fa, fb); err != nil {
				return err
			}
			// Training goes on as it does with fresh optimizers.
			random := false
			for _, l := range e.it.M.Layers {
				random = random || l.Kind == ref.Dropout && l.Drop > 0 && l.Drop < 1
			}
			if !random {
				if err := e.m.Finalize(mustLoss(e.it.M.Loss, e.it.M.Out()), e.it.M.Opt.Build(), nn.AccuracyType(e.it.M.Acc), float64(e.it.M.Prec)); err != nil {
					return err
				}
				for k := 0; k < 2; k++ {
					for _, m := range []*nn.Model{e.m, &loaded} {
						if err := m.Fit(x, y, 2, 2, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
							return fmt.Errorf("%s: training: %v", what, err)
						}
					}
				}
				if err := sameParams(what+", after training on", params(&loaded), params(e.m)); err != nil {
					return err
				}
				o.Class("trained on")
			}
			o.Class("model")
			o.ClassIf(e.it.Train > 0, "trained before saving")
		} else {
			_, rest, err := ref.DecodeLayer(saved[at:])
			if err != nil {
				return fmt.Errorf("item %d is not saved in the documented layout: %v", i, err)
			}
			size := len(saved) - at - len(rest)
			l, err := nn.LoadLayer(&buf)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if left-buf.Len() != size {
				return fmt.Errorf("%s: loading took %d bytes of %d", what, left-buf.Len(), size)
			}
			at += size
			loaded := wrap(l)
			if err := sameLib(what, loaded, e.l); err != nil {
				return err
			}
			x := data(3, e.it.L.In, "norm").NN()
			a, aerr := loaded.eval(x)
			b, berr := e.l.eval(x)
			if aerr != nil || berr != nil {
				return fmt.Errorf("%s: forward pass: %v, %v", what, aerr, berr)
			}
			v, _ := vals(b)
			if err := unchanged(what+": forward pass", a, b.Rows, b.Cols, v); err != nil {
				return err
			}
			again, err := saveLayer(l)
			if err != nil || !bytes.Equal(again, saved[at-size:at]) {
				return fmt.Errorf("%s, saved again, gives other bytes (error %v)", what, err)
			}
			o.Class("layer")
			o.Class(layerNames[e.l.Kind])
		}
	}
	if at != total || buf.Len() != c.Tail {
		return fmt.Errorf("%d bytes remain of %d written and %d more", buf.Len(), total, c.Tail)
	}
	if len(es) > 0 {
		o.NT()
	}
	o.ClassIf(len(es) > 1, "several in one buffer")
	return nil
}

// The number of layers is one byte.
type manyCase struct {
	N    int
	Seed uint64
	Kind int
	Wide int // size of all layers
}

func (c manyCase) spec() ModelSpec {
	s := ModelSpec{Opt: OptSpec{LR: 0.125}, Prec: 0.5}
	for i := 0; i < c.N; i++ {
		s.Layers = append(s.Layers, LayerSpec{Kind: (c.Kind + i) % 5, In: c.Wide, Out: c.Wide, W: Mat{R: c.Wide, C: c.Wide, Kind: "norm", Seed: c.Seed + uint64(i)}, B: Mat{R: 1, C: c.Wide, Kind: "grid", Seed: c.Seed + uint64(i)}})
		if l := &s.Layers[i]; l.Kind == ref.Leaky {
			l.Slope = F(i) / 128
		}
	}
	return s
}

func checkMany(c manyCase, o *Obs) error {
	m := c.spec().Build()
	b, err := saveModel(m)
	o.NT()
	if c.N > 127 {
		o.Class("more than the format can hold")
		if err == nil {
			return fmt.Errorf("a model of %d layers is saved without an error, though the format cannot represent it", c.N)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("a model of %d layers cannot be saved: %v", c.N, err)
	}
	loaded, err := loadModel(b)
	if err != nil {
		return fmt.Errorf("a model of %d layers cannot be loaded: %v", c.N, err)
	}
	if err := sameModel("loaded model", loaded, m); err != nil {
		return err
	}
	return sameBehaviour("loaded model", loaded, m, Mat{R: 2, C: c.Wide, Kind: "norm", Seed: c.Seed}.NN(), Mat{R: 2, C: c.Wide, Kind: "norm", Seed: c.Seed + 1}.NN())
}

// P18

type layoutCase struct {
	M       ModelSpec
	Perm    uint64
	Version string
	Raw     bool // weights of any bits
	Seed    uint64
}

func checkLayout(c layoutCase, o *Obs) error {
	if len(nn.VERSION) != 5 {
		return fmt.Errorf("version %q does not have five bytes", nn.VERSION)
	}
	m := c.M.Build()
	b, err := saveModel(m)
	if err != nil {
		return fmt.Errorf("model cannot be saved: %v", err)
	}
	f, rest, err := ref.DecodeModel(b)
	if err != nil {
		return fmt.Errorf("saved bytes are not in the documented layout: %v\n%x", err, b[:min(len(b), 200)])
	}
	if len(rest) > 0 {
		return fmt.Errorf("%d bytes too many are saved", len(rest))
	}
	want := c.M.format()
	if err := sameFormat("saved bytes", f, want); err != nil {
		return err
	}
	// Each layer by itself.
	for i, l := range m.Layers {
		lb, err := saveLayer(l)
		if err != nil {
			return err
		}
		if !bytes.Equal(lb, ref.EncodeLayer(want.Layers[i])) {
			return fmt.Errorf("layer %d is saved as %x, want %x", i, lb[:min(len(lb), 100)], ref.EncodeLayer(want.Layers[i])[:min(len(lb), 100)])
		}
	}
	// The other way: an independent program's bytes.
	if c.Raw {
		r := &rng{c.Seed}
		for i := range want.Layers {
			for k := range want.Layers[i].W {
				want.Layers[i].W[k] = r.anyBits()
			}
			for k := range want.Layers[i].B {
				want.Layers[i].B[k] = r.anyBits()
			}
		}
	}
	theirs := want
	theirs.Version = c.Version
	theirs.OptVals = nil
	for _, i := range permutation(len(want.OptVals), c.Perm) {
		theirs.OptVals = append(theirs.OptVals, want.OptVals[i])
	}
	loaded, err := loadModel(ref.EncodeModel(theirs))
	if err != nil {
		return fmt.Errorf("bytes in the documented layout (version %q, settings %v) are refused: %v", c.Version, theirs.OptVals, err)
	}
	if !c.Raw {
		if err := sameModel("model loaded from an independent program's bytes", loaded, m); err != nil {
			return err
		}
	}
	// What was loaded, told by saving it: the first half has checked saving.
	b, err = saveModel(loaded)
	if err != nil {
		return err
	}
	f, rest, err = ref.DecodeModel(b)
	if err != nil || len(rest) > 0 {
		return fmt.Errorf("loaded model is not saved in the documented layout: %v", err)
	}
	f.Version = want.Version
	if err := sameFormat("model loaded from an independent program's bytes", f, want); err != nil {
		return err
	}
	for i, l := range want.Layers {
		x, err := nn.LoadLayer(bytes.NewBuffer(ref.EncodeLayer(l)))
		if err != nil {
			return fmt.Errorf("layer %d in the documented layout is refused: %v", i, err)
		}
		lb, err := saveLayer(x)
		if err != nil || !bytes.Equal(lb, ref.EncodeLayer(l)) {
			return fmt.Errorf("layer %d of an independent program becomes another (error %v)", i, err)
		}
	}
	if len(c.M.Layers) > 1 || c.M.Layers[0].In*c.M.Layers[0].Out > 1 {
		o.NT()
	}
	o.ClassIf(c.Version != nn.VERSION, "other version")
	o.ClassIf(c.Raw, "weights of any bits")
	o.ClassIf(c.M.Opt.Adam, "Adam")
	return nil
}

func init() {
	register("P17",
		Sub[tripCase]{Name: "roundtrip", Quick: 12000, Thorough: 200000, Gen: genTrip, Check: checkTrip,
			Rule: "one to four models and layers, trained or not, with ordinary and special weights (infinities, NaNs, denormals, any bits), settings over the accepted range, one after another in a buffer with or without bytes behind; a tenth cannot be represented as a matrix does not have the size claimed. Loaded in order and compared: content to the bit, bytes read, evaluations, content saved again, and further training. Non-trivial: something was saved and loaded."},
		Sub[resaveCase]{Name: "changes", Quick: 6000, Thorough: 120000, Check: checkResave,
			Rule: "a model, or its layers, saved and loaded at the start and after each of up to six changes made in place (cells, swapped cells and rows, matrices, slopes, the precision), comparing all content to the bit with what it was just before. Non-trivial: something changed.",
			Gen: func(t *rapid.T) resaveCase {
				c := resaveCase{M: drawSavedModel(t, chance(t, "special", 1, 4)), Layer: chance(t, "layer", 1, 3), Loaded: rapid.Bool().Draw(t, "loaded")}
				for i := rapid.IntRange(1, 6).Draw(t, "changes"); i > 0; i-- {
					c.Changes = append(c.Changes, drawChange(t, []string{"w", "w", "b", "slope", "precision"}, "norm", "special", "bits", "w"))
					c.At = append(c.At, rapid.IntRange(0, len(c.M.Layers)-1).Draw(t, "at"))
				}
				return c
			}},
		Sub[manyCase]{Name: "many", Quick: 800, Thorough: 6000, Check: checkMany,
			Rule: "models of 1 to 600 layers, around 127, 128, 255, 256 and 383 in particular. All cases are non-trivial.",
			Gen: func(t *rapid.T) manyCase {
				return manyCase{sample(t, "n", []int{1, 2, 10, 64, 100, 126, 127, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 383, 384, 385, 511, 512, 513, 600}), rapid.Uint64Range(0, 1<<30).Draw(t, "seed"), rapid.IntRange(0, 4).Draw(t, "kind"), rapid.IntRange(1, 3).Draw(t, "wide")}
			}})
	register("P18", Sub[layoutCase]{Name: "layout", Quick: 20000, Thorough: 300000, Check: checkLayout,
		Rule: "models over all kinds and settings: saved bytes are decoded independently and compared field by field, and bytes encoded independently (settings in any order, other versions, weights of any bits) are loaded and compared; layers likewise. Non-trivial: more than a single weight.",
		Gen: func(t *rapid.T) layoutCase {
			c := layoutCase{M: drawSavedModel(t, chance(t, "special", 1, 4)), Perm: rapid.Uint64Range(0, 1<<30).Draw(t, "perm"), Version: nn.VERSION, Raw: chance(t, "raw", 1, 4), Seed: rapid.Uint64().Draw(t, "seed")}
			if chance(t, "otherVersion", 1, 3) {
				c.Version = sample(t, "version", []string{"1.0.2", "9.9.9", "0.0.0", "     ", "\x00\x00\x00\x00\x00", "%s%d!", "1.1.0", "NNMLL"})
			}
			return c
		}})
}
