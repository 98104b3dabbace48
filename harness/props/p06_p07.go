package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P06 and P07: losses.

type lossCase struct {
	Loss int
	P, Y Mat
	Perm uint64
	Near int // half of the targets are 1 the predictions, 2 the floats next to them, 3 very near them
}

// lossMats gives predictions and targets as plain values.
func (c lossCase) vals() (p, y []float64) {
	p, y = c.P.Vals(), c.Y.Vals()
	if c.Near > 0 {
		r := &rng{c.Perm}
		for i := range p {
			if i%2 == 0 {
				switch c.Near {
				case 1:
					y[i] = p[i]
				case 2:
					y[i] = math.Nextafter(p[i], r.sign()*math.Inf(1))
				case 3:
					y[i] = p[i] + r.sign()*math.Pow(10, -5-12*r.unit())
				}
			}
		}
	}
	return
}

func genLoss(t *rapid.T, probKinds []string) lossCase {
	c := lossCase{Loss: rapid.IntRange(0, 3).Draw(t, "loss"), Perm: rapid.Uint64Range(0, 1<<30).Draw(t, "perm")}
	r, k := drawBigDim(t, "rows", 257), drawBigDim(t, "cols", 257)
	if most := atMost(20000); r*k > most {
		r = 1 + most/k
	}
	switch c.Loss {
	case ref.MSE, ref.MAE:
		kinds := []string{"mix", "grid", "big", "norm", "probmid", "wide"}
		if c.Loss == ref.MAE { // whose squares would not fit
			kinds = append(kinds, "huge", "tiny")
		}
		kind := pick(t, "kind", kinds...)
		c.P, c.Y = drawMat(t, "P", r, k, kind), drawMat(t, "Y", r, k, kind)
		if chance(t, "near", 1, 3) {
			c.Near = rapid.IntRange(1, 3).Draw(t, "nearness")
		}
	case ref.CE:
		c.P, c.Y = drawMat(t, "P", r, k, pick(t, "kind", append([]string{"dist"}, probKinds...)...)), drawMat(t, "Y", r, k, "onehot")
	case ref.BCE:
		c.P, c.Y = drawMat(t, "P", r, k, pick(t, "kind", probKinds...)), drawMat(t, "Y", r, k, pick(t, "targets", "bin", "bin", "probmid", "half"))
	}
	return c
}

func checkLossValue(c lossCase, o *Obs) error {
	l := mustLoss(c.Loss, c.P.C)
	pv, yv := c.vals()
	r, k := c.P.R, c.P.C
	p, y := mk(r, k, pv), mk(r, k, yv)
	want := ref.Loss(c.Loss, ref.FromFloats(r, k, pv), ref.FromFloats(r, k, yv))
	o.Class(lossNames[c.Loss])
	o.ClassIf(r > 1, "several rows")
	o.ClassIf(r*k > 64, "large")
	edge := false
	for _, v := range pv {
		edge = edge || v == 0 || v == 1
	}
	o.ClassIf(edge && c.Loss >= ref.CE, "certain predictions")
	if r > 1 || k > 1 {
		o.NT()
	}
	for i := 0; i < 2; i++ {
		got, err := l.Forward(p, y)
		if err != nil {
			return fmt.Errorf("loss refused: %v", err)
		}
		if err := judge(lossNames[c.Loss]+" value", got, want); err != nil {
			return err
		}
		if !isFinite(got) || got < 0 {
			return fmt.Errorf("%s value is %v", lossNames[c.Loss], got)
		}
		if err := unchanged("predictions changed", p, r, k, pv); err != nil {
			return err
		}
		if err := unchanged("targets changed", y, r, k, yv); err != nil {
			return err
		}
	}
	if want.Loose() {
		o.Aside(1)
	}
	perm := permutation(r, c.Perm)
	pp, py := mk(r, k, pv), mk(r, k, yv)
	for i, from := range perm {
		copy(pp.M[i], pv[from*k:(from+1)*k])
		copy(py.M[i], yv[from*k:(from+1)*k])
	}
	got, err := l.Forward(pp, py)
	if err != nil {
		return err
	}
	if err := judge(lossNames[c.Loss]+" value with the rows in another order", got, want); err != nil {
		return err
	}
	// A fresh batch after this one is judged on its own.
	one := mk(1, k, pv[:k])
	got, err = l.Forward(one, mk(1, k, yv[:k]))
	if err != nil {
		return err
	}
	return judge(lossNames[c.Loss]+" value of the first row", got, ref.Loss(c.Loss, ref.FromFloats(1, k, pv[:k]), ref.FromFloats(1, k, yv[:k])))
}

func checkLossGrad(c lossCase, o *Obs) error {
	l := mustLoss(c.Loss, c.P.C)
	pv, yv := c.vals()
	r, k := c.P.R, c.P.C
	p, y := mk(r, k, pv), mk(r, k, yv)
	want := ref.LossGrad(c.Loss, ref.FromFloats(r, k, pv), ref.FromFloats(r, k, yv))
	o.Class(lossNames[c.Loss])
	o.ClassIf(r > 1, "several rows")
	for i := 0; i < 2; i++ {
		if i == 1 { // whatever was computed before
			if _, err := l.Forward(y, p); err != nil && c.Loss < ref.CE {
				return err
			}
		}
		g, err := l.Backward(p, y)
		if err != nil {
			return fmt.Errorf("gradient refused: %v", err)
		}
		if g.Rows != r || g.Cols != k {
			return fmt.Errorf("gradient is %dx%d for predictions %dx%d", g.Rows, g.Cols, r, k)
		}
		gv, err := vals(g)
		if err != nil {
			return err
		}
		inside := 0
		for i, w := range want.A {
			what := fmt.Sprintf("%s gradient (%d,%d) at prediction %v, target %v,", lossNames[c.Loss], i/k, i%k, pv[i], yv[i])
			if !isFinite(gv[i]) {
				return fmt.Errorf("%s is %v", what, gv[i])
			}
			if c.Loss >= ref.CE && (pv[i] < 1.000001e-7 || pv[i] > 1-1.000001e-7) {
				// Where the prediction is limited, the slope is 0 or that of the unlimited side.
				if gv[i] != 0 && w.V != 0 && math.Signbit(gv[i]) != math.Signbit(w.V) {
					return fmt.Errorf("%s is %v, which has the wrong sign", what, gv[i])
				}
				o.Class("limited predictions")
				continue
			}
			inside++
			if err := judge(what, gv[i], w); err != nil {
				return err
			}
			if c.Loss == ref.MAE && pv[i] == yv[i] {
				o.Class("exact match")
				if gv[i] != 0 {
					return fmt.Errorf("%s is %v", what, gv[i])
				}
			}
		}
		if inside > 1 {
			o.NT()
		}
		if err := unchanged("predictions changed", p, r, k, pv); err != nil {
			return err
		}
		if err := unchanged("targets changed", y, r, k, yv); err != nil {
			return err
		}
		for i := range g.M {
			for j := range g.M[i] {
				g.M[i][j] = math.NaN()
			}
		}
		if err := unchanged("predictions, by writing to the gradient,", p, r, k, pv); err != nil {
			return err
		}
	}
	return nil
}

// The gradient is the slope of the library's own value.
func checkLossSlope(c lossCase, o *Obs) error {
	l := mustLoss(c.Loss, c.P.C)
	pv, yv := c.vals()
	r, k := c.P.R, c.P.C
	p, y := mk(r, k, pv), mk(r, k, yv)
	g, err := l.Backward(p, y)
	if err != nil {
		return err
	}
	o.Class(lossNames[c.Loss])
	o.ClassIf(r > 1 && k > 1, "several rows and columns")
	scale := float64(r * k)
	for i := range p.M {
		for j := range p.M[i] {
			h := 1e-4
			at := p.M[i][j]
			if c.Loss == ref.MAE && math.Abs(at-y.M[i][j]) < 2*h {
				o.Aside(1)
				continue
			}
			if c.Loss == ref.CE && y.M[i][j] == 0 {
				h = 1e-3
			}
			p.M[i][j] = at + h
			hi, err := l.Forward(p, y)
			if err != nil {
				return err
			}
			p.M[i][j] = at - h
			lo, err := l.Forward(p, y)
			if err != nil {
				return err
			}
			p.M[i][j] = at
			slope := (hi - lo) / (2 * h)
			// third-derivative term of the log losses: h^2/3 * 2/p^3, with p >= 0.02
			d := math.Min(at, 1-at)
			trunc := 0.0
			if c.Loss >= ref.CE {
				trunc = h * h / (d * d * d) / float64(r)
			}
			if math.Abs(slope-g.M[i][j]) > 2*trunc+1e-9*(scale+math.Abs(slope))+1e-8 {
				return fmt.Errorf("%s gradient (%d,%d) of %dx%d is %v, the slope of the value is %v (prediction %v, target %v)", lossNames[c.Loss], i, j, r, k, g.M[i][j], slope, at, y.M[i][j])
			}
			o.NT()
		}
	}
	return nil
}

// The batch gradient and value are those of its parts, weighted.
func checkLossSplit(c lossCase, o *Obs) error {
	l := mustLoss(c.Loss, c.P.C)
	pv, yv := c.vals()
	r, k := c.P.R, c.P.C
	total := 0.0
	whole, err := l.Forward(mk(r, k, pv), mk(r, k, yv))
	if err != nil {
		return err
	}
	mag := 0.0
	for i := 0; i < r; i++ {
		v, err := l.Forward(mk(1, k, pv[i*k:(i+1)*k]), mk(1, k, yv[i*k:(i+1)*k]))
		if err != nil {
			return err
		}
		total += v
		mag += math.Abs(v)
	}
	if r > 1 {
		o.NT()
	}
	if math.Abs(total/float64(r)-whole) > 1e-12*float64(r+k)*(mag/float64(r)+1e-300) {
		return fmt.Errorf("%s of %d rows is %v, the mean of the rows' losses is %v", lossNames[c.Loss], r, whole, total/float64(r))
	}
	return nil
}

var _ nn.Loss

func init() {
	prob := []string{"prob", "prob", "probmid"}
	register("P06",
		Sub[lossCase]{Name: "value", Quick: 60000, Thorough: 1000000, Check: checkLossValue,
			Rule: "any loss, up to 257 rows and columns, predictions over the loss's domain (for the absolute error sizes from 1e-300 to 1e250, for the cross-entropies all of [0,1] with 0, 1, the limits and their neighbours), targets one-hot, binary or fractional; value twice, rows permuted, first row alone, against the reference. Non-trivial: more than one entry.",
			Gen:  func(t *rapid.T) lossCase { return genLoss(t, prob) }},
		Sub[lossCase]{Name: "rows", Quick: 20000, Thorough: 300000, Check: checkLossSplit,
			Rule: "the batch's value is the mean of the values of its rows. Non-trivial: several rows.",
			Gen:  func(t *rapid.T) lossCase { return genLoss(t, prob) }})
	register("P07",
		Sub[lossCase]{Name: "gradient", Quick: 60000, Thorough: 1000000, Check: checkLossGrad,
			Rule: "as P06's value check, for the gradient; at predictions beyond the limits of the cross-entropies only finiteness and sign are judged, as the limited value has a kink there. Non-trivial: more than one entry within the limits.",
			Gen:  func(t *rapid.T) lossCase { return genLoss(t, prob) }},
		Sub[lossCase]{Name: "slope", Quick: 12000, Thorough: 200000, Check: checkLossSlope,
			Rule: "each gradient entry against the central difference of the library's own value, batches up to 12x12. Non-trivial: some entry away from the kink of the absolute error.",
			Gen: func(t *rapid.T) lossCase {
				c := lossCase{Loss: rapid.IntRange(0, 3).Draw(t, "loss")}
				r, k := rapid.IntRange(1, 12).Draw(t, "rows"), rapid.IntRange(1, 12).Draw(t, "cols")
				switch c.Loss {
				case ref.MSE, ref.MAE:
					c.P, c.Y = drawMat(t, "P", r, k, "norm"), drawMat(t, "Y", r, k, "norm")
				case ref.CE:
					c.P, c.Y = drawMat(t, "P", r, k, "probmid"), drawMat(t, "Y", r, k, "onehot")
				case ref.BCE:
					c.P, c.Y = drawMat(t, "P", r, k, "probmid"), drawMat(t, "Y", r, k, pick(t, "targets", "bin", "probmid"))
				}
				return c
			}})
}
