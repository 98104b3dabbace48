package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P29: the activation functions themselves, and Clip.

type activationCase struct {
	Do    string
	X, D  Mat // D: what the derivative is multiplied with
	Slope F
}

var activations = map[string]int{"relu": ref.Hidden, "leaky": ref.Leaky, "sigmoid": ref.Sigmoid, "softmax": ref.Softmax,
	"reluPrime": ref.Hidden, "leakyPrime": ref.Leaky, "sigmoidPrime": ref.Sigmoid}

func activate(c activationCase, x, d nn.Matrix) nn.Matrix {
	switch c.Do {
	case "relu":
		return nn.RELU(x)
	case "leaky":
		return nn.LeakyRELU(x, float64(c.Slope))
	case "sigmoid":
		return nn.Sigmoid(x)
	case "softmax":
		return nn.Softmax(x)
	case "reluPrime":
		return nn.RELUPrime(d, x)
	case "leakyPrime":
		return nn.LeakyRELUPrime(d, x, float64(c.Slope))
	case "sigmoidPrime":
		return nn.SigmoidPrime(x, d)
	}
	return nn.Clip(x)
}

func checkActivation(c activationCase, o *Obs) error {
	x, d := c.X.NN(), c.D.NN()
	got := activate(c, x, d)
	xv := c.X.Vals()
	if c.Do == "clip" {
		want := append([]float64(nil), xv...)
		for i, v := range want {
			if v < 1e-7 {
				want[i] = 1e-7
			}
			if v > 1-1e-7 {
				want[i] = 1 - 1e-7
			}
		}
		if err := unchanged("clip", got, c.X.R, c.X.C, want); err != nil {
			return err
		}
		o.NT()
		return nil
	}
	l := ref.Layer{Kind: activations[c.Do], Slope: float64(c.Slope)}
	var want ref.Mat
	prime := true
	switch c.Do {
	case "reluPrime", "leakyPrime":
		want = l.PreGrad(c.X.Ref(), c.D.Ref())
		if err := unchanged(c.Do+": where the derivative is taken", x, c.X.R, c.X.C, xv); err != nil {
			return err
		}
	case "sigmoidPrime":
		want = l.PreGrad(c.X.Ref(), c.D.Ref())
		if err := unchanged(c.Do+": the gradient given", d, c.X.R, c.X.C, c.D.Vals()); err != nil {
			return err
		}
	default:
		prime = false
		want = l.Act(c.X.Ref())
	}
	if err := admits(c.Do, got, want, o); err != nil {
		return err
	}
	gv, _ := vals(got)
	for i, v := range gv {
		bad := math.IsNaN(v) || math.IsInf(v, 0)
		switch c.Do {
		case "relu":
			bad = bad || v != math.Max(xv[i], 0)
		case "sigmoid", "softmax":
			bad = bad || v < 0 || v > 1
		}
		if bad {
			return fmt.Errorf("%s of %v is %v", c.Do, xv[i], v)
		}
	}
	// Every row for itself.
	for k := 0; k < min(c.X.R, 2); k++ {
		i := k * (c.X.R - 1)
		lo, hi := i*c.X.C, (i+1)*c.X.C
		row := activate(c, mk(1, c.X.C, xv[lo:hi]), mk(1, c.X.C, c.D.Vals()[lo:hi]))
		if row.Rows != 1 || row.Cols != c.X.C || len(row.M) != 1 {
			return fmt.Errorf("%s of a row is %dx%d", c.Do, row.Rows, row.Cols)
		}
		for j, v := range row.M[0] {
			if w := want.At(i, j); !w.Admits(v) {
				return fmt.Errorf("%s of row %d alone: place %d is %v, want %v", c.Do, i, j, v, w.V)
			}
		}
	}
	pos, neg := false, false
	for _, v := range xv {
		pos, neg = pos || v > 0, neg || v < 0
	}
	if pos && neg || prime && pos {
		o.NT()
	}
	o.Class(c.Do)
	return nil
}

func genActivation(t *rapid.T) activationCase {
	c := activationCase{Do: pick(t, "do", "relu", "leaky", "sigmoid", "softmax", "reluPrime", "leakyPrime", "sigmoidPrime", "clip"), Slope: drawSlope(t)}
	rows, cols := drawBigDim(t, "rows", 130), drawBigDim(t, "cols", 130)
	if most := atMost(5000); rows*cols > most {
		rows = 1 + most/cols
	}
	if c.Do == "clip" {
		c.X = drawMat(t, "X", rows, cols, pick(t, "xKind", "prob", "probmid", "mix", "unit", "wide", "grid", "tiny", "half", "onehot"))
		c.D = drawMat(t, "D", 1, 1, "zero")
		return c
	}
	c.X = drawMat(t, "X", rows, cols, pick(t, "xKind", "mix", "norm", "int", "grid", "big", "huge", "wide", "tiny", "unit"))
	c.D = drawMat(t, "D", rows, cols, pick(t, "dKind", "norm", "mix", "wide", "zero"))
	return c
}

// P02: whole numbers, so that every operation is exact, over many pairs of large sizes.
type exactCase struct {
	A, B Mat
}

func checkExact(c exactCase, o *Obs) error {
	ints := func(m Mat) []int32 {
		v := m.Vals()
		w := make([]int32, len(v))
		for i := range v {
			w[i] = int32(v[i])
		}
		return w
	}
	a, b := c.A.NN(), c.B.NN()
	av, bv := ints(c.A), ints(c.B)
	r, k, n := c.A.R, c.A.C, c.B.C
	got, err := a.Dot(b)
	if err != nil {
		return err
	}
	if got.Rows != r || got.Cols != n || len(got.M) != r {
		return fmt.Errorf("product of %dx%d and %dx%d is %dx%d", r, k, k, n, got.Rows, got.Cols)
	}
	sums := make([]int32, n)
	for i := 0; i < r; i++ {
		clear(sums)
		for j, v := range av[i*k : (i+1)*k] {
			for q, w := range bv[j*n : (j+1)*n] {
				sums[q] += v * w
			}
		}
		if len(got.M[i]) != n {
			return fmt.Errorf("product of %dx%d and %dx%d: row %d has %d cells", r, k, k, n, i, len(got.M[i]))
		}
		for j, s := range sums {
			if got.M[i][j] != float64(s) {
				return fmt.Errorf("product of %dx%d and %dx%d: cell (%d,%d) is %v, want %d", r, k, k, n, i, j, got.M[i][j], s)
			}
		}
	}
	if err := unchanged("left operand", a, r, k, c.A.Vals()); err != nil {
		return err
	}
	if err := unchanged("right operand", b, k, n, c.B.Vals()); err != nil {
		return err
	}
	// The same matrix in other operations.
	x := mk(r, k, c.A.Vals())
	cells := func(what string, m nn.Matrix, err error, rows, cols int, want func(i, j int) int32) error {
		if err != nil {
			return fmt.Errorf("%s of %dx%d: %v", what, r, k, err)
		}
		if m.Rows != rows || m.Cols != cols || len(m.M) != rows {
			return fmt.Errorf("%s of %dx%d is %dx%d", what, r, k, m.Rows, m.Cols)
		}
		for i, row := range m.M {
			if len(row) != cols {
				return fmt.Errorf("%s of %dx%d: row %d has %d cells", what, r, k, i, len(row))
			}
			for j, v := range row {
				if v != float64(want(i, j)) {
					return fmt.Errorf("%s of %dx%d: cell (%d,%d) is %v, want %d", what, r, k, i, j, v, want(i, j))
				}
			}
		}
		return nil
	}
	at := func(i, j int) int32 { return av[i*k+j] }
	y := make([]float64, r*k)
	for i := range y {
		y[i] = float64(int(av[len(av)-1-i]) + i%7)
	}
	yv := func(i, j int) int32 { return int32(y[i*k+j]) }
	rowSums, colSums := make([]int32, r), make([]int32, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			rowSums[i] += at(i, j)
			colSums[j] += at(i, j)
		}
	}
	ym := mk(r, k, y)
	add, err1 := x.Add(ym)
	sub, err2 := x.Sub(ym)
	for _, e := range []error{
		cells("sum", add, err1, r, k, func(i, j int) int32 { return at(i, j) + yv(i, j) }),
		cells("difference", sub, err2, r, k, func(i, j int) int32 { return at(i, j) - yv(i, j) }),
		cells("transpose", x.T(), nil, k, r, func(i, j int) int32 { return at(j, i) }),
		cells("negative", x.Neg(), nil, r, k, func(i, j int) int32 { return -at(i, j) }),
		cells("addition of 5", x.AddScalar(5), nil, r, k, func(i, j int) int32 { return at(i, j) + 5 }),
		cells("multiplication by 3", x.MulScalar(3), nil, r, k, func(i, j int) int32 { return at(i, j) * 3 }),
		cells("square", x.PowScalar(2), nil, r, k, func(i, j int) int32 { return at(i, j) * at(i, j) }),
		cells("column sums", x.Sum(0), nil, 1, k, func(i, j int) int32 { return colSums[j] }),
		cells("row sums", x.Sum(1), nil, 1, r, func(i, j int) int32 { return rowSums[j] }),
	} {
		if e != nil {
			return e
		}
	}
	if err := unchanged("operand", x, r, k, c.A.Vals()); err != nil {
		return err
	}
	o.NT()
	o.ClassIf(r > 512 && k > 512, "both sizes beyond 512")
	o.ClassIf(r > 256 && k > 256 && n > 256, "three sizes beyond 256")
	return nil
}

func init() {
	register("P29", Sub[activationCase]{Name: "functions", Quick: 40000, Thorough: 800000, Check: checkActivation, Gen: genActivation,
		Rule: "each exported activation function, its derivative and Clip on matrices of up to 130 by 130 ordinary, tiny, huge and exactly zero values, against the definitions, whole and a row alone. Non-trivial: values of both signs (positive ones for derivatives); all cases of Clip."})
	register("P02", Sub[exactCase]{Name: "exact", Quick: 160, Thorough: 3200, Flat: true, Patience: 3, Check: checkExact,
		Rule: "whole numbers, so that every result is exact: products of matrices with all three sizes up to 1100 (40 million products at most), and every other operation on the left one. All cases are non-trivial.",
		Gen: func(t *rapid.T) exactCase {
			large = &largeDims{most: 1100, budget: 40000000, total: 40000000}
			defer func() { large = nil }()
			d := []int{drawBigDim(t, "d", 0), drawBigDim(t, "d", 0), drawBigDim(t, "d", 0)}
			p := sample(t, "order", [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}})
			return exactCase{A: drawMat(t, "A", d[p[0]], d[p[1]], "int"), B: drawMat(t, "B", d[p[1]], d[p[2]], "int")}
		}})
}
