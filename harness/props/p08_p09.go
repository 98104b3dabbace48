package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P08 and P09: optimizers over histories of updates.

type optParam struct {
	W, B Mat
	Opt  OptSpec
	Via  bool // made from type and values instead of by its constructor
}

type optStep struct {
	Who    int
	DW, DB Mat
	Reset  bool `json:",omitempty"` // the caller puts new parameter values in place first
}

type optCase struct {
	Ps    []optParam
	Steps []optStep
	Long  int    `json:",omitempty"` // further updates of parameter 0
	Kind  string `json:",omitempty"`
	Seed  uint64 `json:",omitempty"`
}

func genOpt(adam bool, long bool) func(t *rapid.T) optCase {
	return func(t *rapid.T) optCase {
		var c optCase
		n := rapid.IntRange(1, 3).Draw(t, "optimizers")
		if long {
			n = 1
		}
		for i := 0; i < n; i++ {
			r, k := drawBigDim(t, "rows", 65), drawBigDim(t, "cols", 65)
			if long {
				r, k = rapid.IntRange(1, 2).Draw(t, "rows"), rapid.IntRange(1, 2).Draw(t, "cols")
			}
			if i > 0 && rapid.Bool().Draw(t, "sameShape") {
				r, k = c.Ps[0].W.R, c.Ps[0].W.C
			}
			kind := pick(t, "kind", "mix", "norm", "big")
			o := drawOpt(t, adam, true)
			if i > 0 && chance(t, "sameHyper", 1, 3) {
				o = c.Ps[0].Opt
			}
			c.Ps = append(c.Ps, optParam{drawMat(t, "W", r, k, kind), drawMat(t, "B", 1, k, kind), o, rapid.Bool().Draw(t, "via")})
		}
		grad := pick(t, "gradKind", "norm", "mix", "wide", "big", "grid", "zero")
		for i := rapid.IntRange(1, 12).Draw(t, "steps"); i > 0; i-- {
			w := rapid.IntRange(0, n-1).Draw(t, "who")
			p := c.Ps[w]
			g := grad
			if chance(t, "otherKind", 1, 5) {
				g = pick(t, "gradKind", "norm", "zero", "grid")
			}
			c.Steps = append(c.Steps, optStep{w, drawMat(t, "DW", p.W.R, p.W.C, g), drawMat(t, "DB", 1, p.W.C, g), chance(t, "reset", 1, 12)})
		}
		if long {
			c.Long = sample(t, "long", []int{30, 100, 130, 260, 520, 1030, 2100})
			c.Kind = pick(t, "longKind", "norm", "mix", "pos", "grid")
			c.Seed = rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
		}
		return c
	}
}

// genVeryLong makes a history that passes the powers of two a counter could wrap at.
func genVeryLong(adam bool) func(t *rapid.T) optCase {
	return func(t *rapid.T) optCase {
		o := drawOpt(t, adam, true)
		// The rate still tells updates apart at the end.
		o.LR = F(sample(t, "rate", []float64{0.001, 0.1, 1, 3}))
		o.Decay = F(sample(t, "decay", []float64{1e-6, 1e-4, 1e-3, 0.01, 0}))
		c := optCase{Ps: []optParam{{drawMat(t, "W", 1, 1, "norm"), drawMat(t, "B", 1, 1, "norm"), o, rapid.Bool().Draw(t, "via")}}}
		c.Long = sample(t, "long", []int{4200, 8300, 16500, 33000, 66000, 66000, 132000}) + rapid.IntRange(0, 300).Draw(t, "more")
		c.Kind = pick(t, "longKind", "norm", "pos", "grid")
		c.Seed = rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
		return c
	}
}

func checkOpt(c optCase, o *Obs) error {
	type state struct {
		opt  nn.Optimizer
		w, b nn.Matrix
		ro   *ref.Opt
		rw   ref.Mat
		rb   ref.Mat
		n    int
	}
	var ss []*state
	for i, p := range c.Ps {
		s := &state{opt: p.Opt.Build(), w: p.W.NN(), b: p.B.NN(), ro: p.Opt.Ref(), rw: p.W.Ref(), rb: p.B.Ref()}
		if p.Via {
			kind := nn.SGDOptimizerType
			if p.Opt.Adam {
				kind = nn.AdamOptimizerType
			}
			v := p.Opt.Values()
			var err error
			if s.opt, err = nn.NewOptimizerFromType(kind, v); err != nil {
				return fmt.Errorf("optimizer %d: %v", i, err)
			}
			for k := range v {
				v[k] = -1 // the map is the caller's
			}
		}
		ss = append(ss, s)
	}
	update := func(k int, st optStep) error {
		s := ss[st.Who]
		if st.Reset {
			setMat(&s.w, c.Ps[st.Who].W.Vals())
			s.rw = c.Ps[st.Who].W.Ref()
		}
		dw, db := st.DW.NN(), st.DB.NN()
		if err := s.opt.Update(&s.w, &s.b, dw, db); err != nil {
			return fmt.Errorf("update %d refused: %v", k, err)
		}
		if err := st.DW.unchanged("weight gradient", dw); err != nil {
			return err
		}
		if err := st.DB.unchanged("bias gradient", db); err != nil {
			return err
		}
		// The gradients are the caller's, who overwrites them.
		for _, m := range []nn.Matrix{dw, db} {
			for i := range m.M {
				for j := range m.M[i] {
					m.M[i][j] = 1e6
				}
			}
		}
		s.ro.Update(s.rw, s.rb, st.DW.Ref(), st.DB.Ref())
		s.n++
		for i, s := range ss {
			if s.n == 0 {
				if err := c.Ps[i].W.unchanged(fmt.Sprintf("weights of another optimizer (%d)", i), s.w); err != nil {
					return err
				}
			}
			if err := admits(fmt.Sprintf("after update %d (number %d of optimizer %d): weights", k, s.n, i), s.w, s.rw, nil); err != nil {
				return err
			}
			if err := admits(fmt.Sprintf("after update %d (number %d of optimizer %d): biases", k, s.n, i), s.b, s.rb, nil); err != nil {
				return err
			}
		}
		return nil
	}
	for k, st := range c.Steps {
		if err := update(k, st); err != nil {
			return err
		}
	}
	p := c.Ps[0]
	for k := 0; k < c.Long; k++ {
		g := func(r, q int, d uint64) Mat { return Mat{R: r, C: q, Kind: c.Kind, Seed: c.Seed + uint64(2*k) + d} }
		if err := update(len(c.Steps)+k, optStep{0, g(p.W.R, p.W.C, 0), g(1, p.W.C, 1), false}); err != nil {
			return err
		}
	}
	loose := 0
	for _, s := range ss {
		loose += s.rw.LooseCount() + s.rb.LooseCount()
	}
	o.Aside(loose)
	if len(c.Steps)+c.Long >= 2 && loose == 0 {
		o.NT()
	}
	o.ClassIf(len(c.Ps) > 1, "several optimizers")
	o.ClassIf(c.Ps[0].Opt.Decay != 0, "decay")
	o.ClassIf(c.Ps[0].Opt.Momentum != 0, "momentum")
	o.ClassIf(c.Ps[0].Via, "made from type and values")
	o.ClassIf(c.Long > 1000, "over a thousand updates")
	return nil
}

// A gradient that never changes has a closed form, which does not share the reference's recursion.
type constCase struct {
	Opt OptSpec
	G   F
	N   int
}

func checkConst(c constCase, o *Obs) error {
	opt := c.Opt.Build()
	w, _ := nn.NewMatrix(1, 1)
	b, _ := nn.NewMatrix(1, 1)
	g := float64(c.G)
	for i := 0; i < c.N; i++ {
		if err := opt.Update(&w, &b, mk(1, 1, []float64{g}), mk(1, 1, []float64{-g})); err != nil {
			return err
		}
	}
	rate := func(i int) float64 { return float64(c.Opt.LR) / (1 + float64(c.Opt.Decay)*float64(i)) }
	want := 0.0
	for i := 0; i < c.N; i++ {
		if c.Opt.Adam {
			// Corrected averages of a constant are the constant.
			want -= rate(i) * g / (math.Abs(g) + float64(c.Opt.Epsilon))
			continue
		}
		// Each update's contribution has been carried on N-1-i times.
		m := float64(c.Opt.Momentum)
		carried := float64(c.N - i)
		if m != 1 {
			carried = (1 - math.Pow(m, float64(c.N-i))) / (1 - m)
		}
		want -= rate(i) * g * carried
	}
	if c.N > 1 {
		o.NT()
	}
	tol := 1e-8 * (math.Abs(want) + 1e-12)
	if math.Abs(w.M[0][0]-want) > tol || math.Abs(b.M[0][0]+want) > tol {
		return fmt.Errorf("after %d updates with gradient %v: weight %v, want %v; bias %v, want %v", c.N, g, w.M[0][0], want, b.M[0][0], -want)
	}
	return nil
}

func init() {
	constGen := func(adam bool) func(t *rapid.T) constCase {
		return func(t *rapid.T) constCase {
			return constCase{drawOpt(t, adam, false), F(sample(t, "g", []float64{1, -1, 0.25, 3, -100, 0.01, 7.5})), rapid.IntRange(1, 400).Draw(t, "n")}
		}
	}
	for _, x := range []struct {
		id   string
		adam bool
	}{{"P08", false}, {"P09", true}} {
		register(x.id,
			Sub[optCase]{Name: "history", Quick: 15000, Thorough: 300000, Gen: genOpt(x.adam, false), Check: checkOpt,
				Rule: "one to three optimizers with hyperparameters over the whole accepted range, made by constructor or from type and values, and up to 12 interleaved updates of matrices up to 65x65 with gradients of many kinds (zeros and wide ranges included), the parameters sometimes replaced in between and every gradient overwritten after use; all parameters are compared with the rule after each update. Non-trivial: at least two updates and no parameter set aside."},
			Sub[optCase]{Name: "long", Quick: 400, Thorough: 6000, Gen: genOpt(x.adam, true), Check: checkOpt,
				Rule: "as history, one small optimizer and 30 to 2100 further updates, compared after each. Non-trivial: as history."},
			Sub[optCase]{Name: "verylong", Quick: 30, Thorough: 300, Flat: true, Patience: 3, Gen: genVeryLong(x.adam), Check: checkOpt,
				Rule: "one optimizer of one weight and one bias and 4000 to 140000 further updates, compared after each. Non-trivial: as history."},
			Sub[constCase]{Name: "constant", Quick: 4000, Thorough: 60000, Gen: constGen(x.adam), Check: checkConst,
				Rule: "up to 400 updates with a constant gradient, against the closed form. Non-trivial: more than one update."})
	}
}
