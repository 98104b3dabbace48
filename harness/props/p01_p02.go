package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P01: a matrix is a table.

type tableOp struct {
	Op     string
	I, J   int `json:",omitempty"`
	V      F   `json:",omitempty"`
	Vs     []F `json:",omitempty"`
	Source int `json:",omitempty"` // for reuse: 0 fresh slice, 1 the slice of the previous row/column write
}

type tableCase struct {
	R, C      int
	FromSlice bool
	Init      Mat
	Ops       []tableOp
}

func genTable(t *rapid.T) tableCase {
	c := tableCase{R: drawBigDim(t, "rows", 130), C: drawBigDim(t, "cols", 130)}
	c.FromSlice = rapid.Bool().Draw(t, "fromSlice")
	kind := pick(t, "kind", "mix", "special")
	if c.FromSlice {
		c.Init = drawMat(t, "init", c.R, c.C, kind)
	}
	idx := func(n int, l string) int {
		switch rapid.IntRange(0, 9).Draw(t, l+"Class") {
		case 9:
			return sample(t, l, []int{-1, n, n + 1, -n, -n - 1, math.MaxInt, math.MinInt, 1 << 31, -1 << 31})
		case 8:
			return n - 1
		}
		return rapid.IntRange(0, n-1).Draw(t, l)
	}
	n := rapid.IntRange(1, 14).Draw(t, "ops")
	for k := 0; k < n; k++ {
		op := tableOp{Op: pick(t, "op", "set", "setRow", "setColumn", "get", "copyRow", "copyColumn")}
		slice := func(n int) {
			switch rapid.IntRange(0, 7).Draw(t, "lenClass") {
			case 7:
				n = sample(t, "len", []int{0, n + 1, n - 1, 2 * n})
			}
			if n > 0 && chance(t, "reuse", 1, 4) {
				op.Source = 1
			}
			r := &rng{rapid.Uint64Range(0, 1<<40).Draw(t, "vs")}
			for i := 0; i < n; i++ {
				op.Vs = append(op.Vs, F(r.cell(kind)))
			}
		}
		switch op.Op {
		case "set":
			op.I, op.J, op.V = idx(c.R, "i"), idx(c.C, "j"), drawCell(t, kind)
		case "get":
			op.I, op.J = idx(c.R, "i"), idx(c.C, "j")
		case "setRow":
			op.I = idx(c.R, "i")
			slice(c.C)
		case "setColumn":
			op.J = idx(c.C, "j")
			slice(c.R)
		case "copyRow": // row I becomes row J
			op.I, op.J = idx(c.R, "i"), rapid.IntRange(0, c.R-1).Draw(t, "j")
		case "copyColumn":
			op.J, op.I = idx(c.C, "j"), rapid.IntRange(0, c.C-1).Draw(t, "i")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func floats(v []F) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = float64(v[i])
	}
	return o
}

func checkTable(c tableCase, o *Obs) error {
	model := make([]float64, c.R*c.C)
	var m nn.Matrix
	if c.FromSlice {
		model = c.Init.Vals()
		m = c.Init.NN()
	} else {
		var err error
		if m, err = nn.NewMatrix(c.R, c.C); err != nil {
			return fmt.Errorf("NewMatrix(%d,%d): %v", c.R, c.C, err)
		}
	}
	in := func(i, n int) bool { return i >= 0 && i < n }
	agree := func(after string) error {
		if err := unchanged("after "+after, m, c.R, c.C, model); err != nil {
			return err
		}
		for i := 0; i < c.R; i++ {
			row, err := m.GetRow(i)
			if err != nil || len(row) != c.C {
				return fmt.Errorf("after %s: GetRow(%d): %d values, %v", after, i, len(row), err)
			}
			for j := 0; j < c.C; j++ {
				if !sameBits(row[j], model[i*c.C+j]) {
					return fmt.Errorf("after %s: GetRow(%d)[%d] is %v, want %v", after, i, j, row[j], model[i*c.C+j])
				}
				v, err := m.Get(i, j)
				if err != nil || !sameBits(v, model[i*c.C+j]) {
					return fmt.Errorf("after %s: Get(%d,%d) is %v, %v, want %v", after, i, j, v, err, model[i*c.C+j])
				}
			}
		}
		for j := 0; j < c.C; j++ {
			col, err := m.GetColumn(j)
			if err != nil || len(col) != c.R {
				return fmt.Errorf("after %s: GetColumn(%d): %d values, %v", after, j, len(col), err)
			}
			for i := range col {
				if !sameBits(col[i], model[i*c.C+j]) {
					return fmt.Errorf("after %s: GetColumn(%d)[%d] is %v, want %v", after, j, i, col[i], model[i*c.C+j])
				}
			}
		}
		return nil
	}
	if err := agree("creation"); err != nil {
		return err
	}
	writes, refused := 0, 0
	last := map[int][]float64{}
	for k, op := range c.Ops {
		desc := fmt.Sprintf("op %d %s(%d,%d)", k, op.Op, op.I, op.J)
		var err error
		ok := true
		switch op.Op {
		case "set":
			ok = in(op.I, c.R) && in(op.J, c.C)
			err = m.Set(op.I, op.J, float64(op.V))
			if ok {
				model[op.I*c.C+op.J] = float64(op.V)
			}
		case "get":
			ok = in(op.I, c.R) && in(op.J, c.C)
			_, err = m.Get(op.I, op.J)
			if _, e := m.GetRow(op.I); (e == nil) != in(op.I, c.R) {
				return fmt.Errorf("GetRow(%d) of %d rows: error %v", op.I, c.R, e)
			}
			if _, e := m.GetColumn(op.J); (e == nil) != in(op.J, c.C) {
				return fmt.Errorf("GetColumn(%d) of %d columns: error %v", op.J, c.C, e)
			}
		case "setRow", "setColumn":
			vs := floats(op.Vs)
			if op.Source == 1 && last[len(vs)] != nil {
				vs = last[len(vs)] // the very slice written before, unchanged since
			}
			keep := append([]float64(nil), vs...)
			if op.Op == "setRow" {
				ok = in(op.I, c.R) && len(vs) == c.C
				err = m.SetRow(op.I, vs)
				if ok {
					copy(model[op.I*c.C:], keep)
				}
			} else {
				ok = in(op.J, c.C) && len(vs) == c.R
				err = m.SetColumn(op.J, vs)
				for i := 0; ok && i < c.R; i++ {
					model[i*c.C+op.J] = keep[i]
				}
			}
			for i := range keep {
				if !sameBits(vs[i], keep[i]) {
					return fmt.Errorf("%s changed the values given", desc)
				}
			}
			last[len(vs)] = vs
		case "copyRow":
			row, e := m.GetRow(op.J)
			if e != nil {
				return fmt.Errorf("GetRow(%d): %v", op.J, e)
			}
			ok = in(op.I, c.R)
			err = m.SetRow(op.I, row)
			if ok {
				copy(model[op.I*c.C:(op.I+1)*c.C], append([]float64(nil), model[op.J*c.C:(op.J+1)*c.C]...))
			}
		case "copyColumn":
			col, e := m.GetColumn(op.I)
			if e != nil {
				return fmt.Errorf("GetColumn(%d): %v", op.I, e)
			}
			ok = in(op.J, c.C)
			err = m.SetColumn(op.J, col)
			for i := 0; ok && i < c.R; i++ {
				model[i*c.C+op.J] = model[i*c.C+op.I]
			}
		}
		if ok != (err == nil) {
			return fmt.Errorf("%s on %dx%d (%d values): error %v, valid %v", desc, c.R, c.C, len(op.Vs), err, ok)
		}
		if ok && op.Op != "get" {
			writes++
		}
		if !ok {
			refused++
		}
		o.ClassIf(ok, op.Op)
		o.ClassIf(!ok, op.Op+" refused")
		if err := agree(desc); err != nil {
			return err
		}
	}
	if writes >= 2 {
		o.NT()
	}
	o.ClassIf(writes > 0 && refused > 0, "history with writes and refusals")
	o.ClassIf(c.R > 64 || c.C > 64, "large")
	return nil
}

type buildCase struct {
	Slice bool
	R, C  int
	Lens  []int
}

func checkBuild(c buildCase, o *Obs) error {
	if !c.Slice {
		m, err := nn.NewMatrix(c.R, c.C)
		ok := c.R >= 1 && c.C >= 1
		if ok != (err == nil) {
			return fmt.Errorf("NewMatrix(%d,%d): error %v", c.R, c.C, err)
		}
		if ok {
			o.NT()
			return unchanged("new matrix", m, c.R, c.C, make([]float64, c.R*c.C))
		}
		o.Class("refused")
		return nil
	}
	var s [][]float64
	ok := len(c.Lens) > 0 && c.Lens[0] > 0
	var want []float64
	for i, n := range c.Lens {
		r := make([]float64, n, n+i%3) // spare capacity must not matter
		for j := range r {
			r[j] = float64(i*100 + j)
		}
		want = append(want, r...)
		if i%5 == 4 && n == 0 {
			r = nil
		}
		s = append(s, r)
		ok = ok && n == c.Lens[0]
	}
	m, err := nn.NewMatrixFromSlice(s)
	if ok != (err == nil) {
		return fmt.Errorf("NewMatrixFromSlice with rows of lengths %v: error %v", c.Lens, err)
	}
	if len(c.Lens) > 1 {
		o.NT()
	}
	o.ClassIf(!ok, "refused")
	if ok {
		return unchanged("matrix from slice", m, len(c.Lens), c.Lens[0], want)
	}
	return nil
}

// P02: arithmetic.

type arithCase struct {
	Op   string
	A, B Mat
	X    F    `json:",omitempty"`
	Self bool `json:",omitempty"` // both operands are the same matrix
	Axis int  `json:",omitempty"`
	Rep  int  `json:",omitempty"` // the rows of 1: the first operand, 2: the second one, are all the same slice
}

var arithOps = []string{"add", "sub", "neg", "addScalar", "mulScalar", "powScalar", "dot", "dot", "t", "sum", "sum", "equals", "equals"}

func genArith(t *rapid.T) arithCase {
	kind := pick(t, "kind", "mix", "grid", "special", "wide", "int")
	c := arithCase{Op: sample(t, "op", arithOps)}
	r, k := drawBigDim(t, "rows", 130), drawBigDim(t, "cols", 130)
	c.A = drawMat(t, "A", r, k, kind)
	switch c.Op {
	case "add", "sub", "equals":
		r2, k2 := r, k
		if chance(t, "misfit", 1, 5) {
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				r2, k2 = k, r
			case 1:
				r2 = r + 1
			case 2:
				k2 = k + 1
			case 3:
				r2 = max(1, r-1)
			case 4:
				k2 = max(1, k-1)
			}
		}
		c.B = drawMat(t, "B", r2, k2, kind)
		if c.Op == "equals" && r2 == r && k2 == k && chance(t, "same", 3, 4) {
			c.B = c.A
			if chance(t, "oneOff", 1, 2) {
				v := c.A.Vals()
				i := rapid.IntRange(0, len(v)-1).Draw(t, "where")
				v[i] = float64(drawCell(t, kind))
				c.B = Mat{R: r, C: k}
				for _, x := range v {
					c.B.V = append(c.B.V, F(x))
				}
			}
		}
		c.Self = r2 == r && k2 == k && chance(t, "self", 1, 8)
	case "dot":
		k1 := k
		if chance(t, "misfit", 1, 6) {
			k1 = sample(t, "inner", []int{k + 1, max(1, k-1), r})
		}
		c.B = drawMat(t, "B", k1, drawBigDim(t, "cols2", 130), kind)
		if most := atMost(40000); r*k*c.B.C > most {
			c.B = drawMat(t, "B", k1, 1+most/(r*k), kind)
		}
		c.Self = r == k && chance(t, "self", 1, 3)
	case "addScalar", "mulScalar", "powScalar":
		c.X = drawCell(t, kind)
		if c.Op == "powScalar" && chance(t, "smallPow", 2, 3) {
			c.X = F(sample(t, "x", []float64{0, 1, 2, 3, 0.5, -1, -2, 4}))
		}
	case "sum":
		c.Axis = rapid.IntRange(0, 1).Draw(t, "axis")
		if chance(t, "badAxis", 1, 10) {
			c.Axis = sample(t, "axis", []int{2, -1, 3, math.MaxInt})
		}
	}
	if chance(t, "rep", 1, 12) {
		c.Rep = rapid.IntRange(1, 2).Draw(t, "repeated")
	}
	repeat := func(m Mat) Mat {
		v := m.Vals()[:m.C]
		m.V, m.Kind, m.Seed = nil, "", 0
		for i := 0; i < m.R; i++ {
			for _, x := range v {
				m.V = append(m.V, F(x))
			}
		}
		return m
	}
	if c.Rep == 1 && c.A.R*c.A.C < 3000 {
		c.A = repeat(c.A)
	} else if c.Rep == 2 && !c.Self && c.B.R > 0 && c.B.R*c.B.C < 3000 {
		c.B = repeat(c.B)
	} else {
		c.Rep = 0
	}
	return c
}

// oneRow makes a matrix whose rows are all the same slice.
func oneRow(m Mat) nn.Matrix {
	v := m.Vals()[:m.C]
	s := make([][]float64, m.R)
	for i := range s {
		s[i] = v
	}
	x, err := nn.NewMatrixFromSlice(s)
	if err != nil {
		panic(err)
	}
	return x
}

// sumOf judges a sum of terms, special values included; ok is false if it cannot be judged.
func sumOf(ts []float64) (want ref.N, ok bool) {
	pos, neg, nan := false, false, false
	mag := 0.0
	var ns []ref.N
	for _, t := range ts {
		switch {
		case math.IsNaN(t):
			nan = true
		case math.IsInf(t, 1):
			pos = true
		case math.IsInf(t, -1):
			neg = true
		default:
			mag += math.Abs(t)
			n := ref.Exact(t)
			n.E = ref.U*math.Abs(t) + 1e-320 // the product it may be
			ns = append(ns, n)
		}
	}
	switch {
	case nan || pos && neg:
		return ref.N{V: math.NaN(), E: 0}, true
	case mag > 1e307:
		return ref.N{}, false
	case pos:
		return ref.N{V: math.Inf(1)}, true
	case neg:
		return ref.N{V: math.Inf(-1)}, true
	}
	return ref.Sum(ns), true
}

func judge(what string, got float64, want ref.N) error {
	if math.IsNaN(want.V) {
		if !math.IsNaN(got) {
			return fmt.Errorf("%s is %v, want NaN", what, got)
		}
		return nil
	}
	if !want.Admits(got) {
		return fmt.Errorf("%s is %v, want %v (+-%.3g)", what, got, want.V, want.E)
	}
	return nil
}

func checkArith(c arithCase, o *Obs) error {
	a, av := c.A.NN(), c.A.Vals()
	var b nn.Matrix
	var bv []float64
	B := c.B
	if B.R > 0 {
		b, bv = c.B.NN(), c.B.Vals()
		if c.Self {
			b, bv, B = a, av, c.A
		}
	}
	switch c.Rep {
	case 1:
		a = oneRow(c.A)
		if c.Self && B.R > 0 {
			b = a
		}
	case 2:
		b = oneRow(c.B)
	}
	o.ClassIf(c.Rep > 0, "rows that are one slice")
	o.Class(c.Op)
	o.ClassIf(len(av) > 64, "large")
	special := false
	for _, v := range av {
		special = special || !isFinite(v)
	}
	o.ClassIf(special, "with NaN or infinity")
	if len(av) > 1 {
		o.NT()
	}
	x := float64(c.X)
	var res nn.Matrix
	var err error
	var want []float64
	elementwise := func(f func(i int) float64) {
		want = make([]float64, len(av))
		for i := range av {
			want[i] = f(i)
		}
	}
	fits := true
	rows, cols := c.A.R, c.A.C
	switch c.Op {
	case "add", "sub":
		fits = c.A.R == B.R && c.A.C == B.C
		if c.Op == "add" {
			res, err = a.Add(b)
		} else {
			res, err = a.Sub(b)
		}
		if fits {
			elementwise(func(i int) float64 {
				if c.Op == "add" {
					return av[i] + bv[i]
				}
				return av[i] - bv[i]
			})
		}
	case "neg":
		res = a.Neg()
		elementwise(func(i int) float64 { return -av[i] })
	case "addScalar":
		res = a.AddScalar(x)
		elementwise(func(i int) float64 { return av[i] + x })
	case "mulScalar":
		res = a.MulScalar(x)
		elementwise(func(i int) float64 { return av[i] * x })
	case "powScalar":
		res = a.PowScalar(x)
		elementwise(func(i int) float64 { return math.Pow(av[i], x) })
	case "t":
		res = a.T()
		rows, cols = c.A.C, c.A.R
		want = make([]float64, len(av))
		for i := 0; i < c.A.R; i++ {
			for j := 0; j < c.A.C; j++ {
				want[j*c.A.R+i] = av[i*c.A.C+j]
			}
		}
	case "dot":
		fits = c.A.C == B.R
		rows, cols = c.A.R, B.C
		res, err = a.Dot(b)
	case "sum":
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			res = a.Sum(c.Axis)
			return
		}()
		if bad := c.Axis != 0 && c.Axis != 1; bad != panicked {
			return fmt.Errorf("Sum(%d): panicked %v", c.Axis, panicked)
		}
		if panicked {
			o.Class("bad axis")
			return c.A.unchanged("operand", a)
		}
		rows, cols = 1, c.A.C
		if c.Axis == 1 {
			cols = c.A.R
		}
	case "equals":
		eq := c.A.R == B.R && c.A.C == B.C
		for i := 0; eq && i < len(av); i++ {
			eq = av[i] == bv[i]
		}
		if got := a.Equals(b); got != eq {
			return fmt.Errorf("Equals is %v, want %v", got, eq)
		}
		o.ClassIf(eq, "equal")
		o.ClassIf(c.A.R != B.R && len(av) == len(bv), "same cells, other shape")
	}
	if fits != (err == nil) {
		return fmt.Errorf("%s of %dx%d and %dx%d: error %v", c.Op, c.A.R, c.A.C, B.R, B.C, err)
	}
	o.ClassIf(!fits, "refused")
	if err := c.A.unchanged("first operand", a); err != nil {
		return err
	}
	if B.R > 0 {
		if err := B.unchanged("second operand", b); err != nil {
			return err
		}
	}
	if !fits || c.Op == "equals" {
		return nil
	}
	if res.Rows != rows || res.Cols != cols {
		return fmt.Errorf("%s of %dx%d: size %dx%d, want %dx%d", c.Op, c.A.R, c.A.C, res.Rows, res.Cols, rows, cols)
	}
	got, err := vals(res)
	if err != nil {
		return err
	}
	switch c.Op {
	case "dot":
		ts := make([]float64, c.A.C)
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				for k := range ts {
					ts[k] = av[i*c.A.C+k] * bv[k*cols+j]
				}
				w, ok := sumOf(ts)
				if !ok {
					o.Aside(1)
					continue
				}
				if err := judge(fmt.Sprintf("product cell (%d,%d)", i, j), got[i*cols+j], w); err != nil {
					return err
				}
			}
		}
	case "sum":
		for j := range got {
			var ts []float64
			if c.Axis == 0 {
				for i := 0; i < c.A.R; i++ {
					ts = append(ts, av[i*c.A.C+j])
				}
			} else {
				ts = av[j*c.A.C : (j+1)*c.A.C]
			}
			w, ok := sumOf(ts)
			if !ok {
				o.Aside(1)
				continue
			}
			if err := judge(fmt.Sprintf("axis %d sum %d", c.Axis, j), got[j], w); err != nil {
				return err
			}
		}
	case "powScalar":
		for i := range want {
			w := ref.N{V: want[i], E: 1e-14*math.Abs(want[i]) + 1e-320}
			if !isFinite(want[i]) {
				w.E = 0
			}
			// Overflow of finite operands is judged where it is plain.
			if near := math.Abs(x * math.Log(math.Abs(av[i]))); isFinite(av[i]) && isFinite(x) && math.Abs(want[i]) > 1e307 && av[i] != 0 && near < 711 {
				o.Aside(1)
				continue
			}
			if err := judge(fmt.Sprintf("%v to the %v", av[i], x), got[i], w); err != nil {
				return err
			}
		}
	default:
		for i := range want {
			if !sameF(got[i], want[i]) {
				return fmt.Errorf("%s: cell (%d,%d) is %v, want %v", c.Op, i/cols, i%cols, got[i], want[i])
			}
		}
	}
	// The result is a matrix of its own.
	if err := ownCells(res); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	if err := c.A.unchanged("first operand, by writing to the result,", a); err != nil {
		return err
	}
	if B.R > 0 {
		if err := B.unchanged("second operand, by writing to the result,", b); err != nil {
			return err
		}
	}
	for i := range a.M {
		for j := range a.M[i] {
			a.M[i][j] = -1
		}
	}
	if !ownCellsKept(res) {
		return fmt.Errorf("%s: writing to the operand changed the result", c.Op)
	}
	return nil
}

// Chains of operations obey the algebra on exactly representable values.
type algebraCase struct {
	A, B, C Mat
	K       int
}

func checkAlgebra(c algebraCase, o *Obs) error {
	a, b, d := c.A.NN(), c.B.NN(), c.C.NN()
	o.NT()
	must := func(m nn.Matrix, err error) nn.Matrix {
		if err != nil {
			panic(err)
		}
		return m
	}
	eq := func(what string, x, y nn.Matrix) error {
		if !x.Equals(y) || !y.Equals(x) {
			return fmt.Errorf("%s does not hold on integers", what)
		}
		return nil
	}
	// a, b: r x k; d: k x n
	ab := must(a.Add(b))
	l := must(ab.Dot(d))
	ad, bd := must(a.Dot(d)), must(b.Dot(d))
	r := must(ad.Add(bd))
	if err := eq("(A+B)D = AD+BD", l, r); err != nil {
		return err
	}
	dt, at := d.T(), a.T()
	adt := ad.T()
	if err := eq("(AD)' = D'A'", adt, must(dt.Dot(at))); err != nil {
		return err
	}
	tt := at.T()
	if err := eq("A'' = A", tt, a); err != nil {
		return err
	}
	sub := must(ab.Sub(b))
	if err := eq("A+B-B = A", sub, a); err != nil {
		return err
	}
	n := b.Neg()
	if err := eq("A+B = A-(-B)", ab, must(a.Sub(n))); err != nil {
		return err
	}
	s0, s1 := a.Sum(0), at.Sum(1)
	if err := eq("column sums of A = row sums of A'", s0, s1); err != nil {
		return err
	}
	k := float64(c.K)
	ka := a.MulScalar(k)
	kad := ad.MulScalar(k)
	if err := eq("(kA)D = k(AD)", must(ka.Dot(d)), kad); err != nil {
		return err
	}
	sq := a.PowScalar(2)
	for i, v := range c.A.Vals() {
		if sq.M[i/c.A.C][i%c.A.C] != v*v {
			return fmt.Errorf("%v squared is %v", v, sq.M[i/c.A.C][i%c.A.C])
		}
	}
	return nil
}

func init() {
	register("P01",
		Sub[tableCase]{Name: "history", Quick: 5000, Thorough: 200000, Gen: genTable, Check: checkTable,
			Rule: "random sizes up to 130x130 and up to 14 cell/row/column reads and writes (indices and lengths valid or not, special values, slices reused); after each step all three ways of reading are compared with a table. Non-trivial: at least two successful writes."},
		Sub[buildCase]{Name: "building", Quick: 3000, Thorough: 60000, Check: checkBuild,
			Rule: "sizes from -3 to 300 and slices of rows of equal or unequal lengths. Non-trivial: an accepted size, or more than one row.",
			Gen: func(t *rapid.T) buildCase {
				c := buildCase{Slice: rapid.Bool().Draw(t, "slice")}
				if !c.Slice {
					c.R = rapid.IntRange(-3, 12).Draw(t, "r")
					c.C = rapid.IntRange(-3, 12).Draw(t, "c")
					if chance(t, "big", 1, 10) {
						c.R, c.C = rapid.IntRange(0, 300).Draw(t, "r"), rapid.IntRange(0, 300).Draw(t, "c")
					}
					return c
				}
				n, k := rapid.IntRange(0, 9).Draw(t, "n"), rapid.IntRange(0, 6).Draw(t, "k")
				for i := 0; i < n; i++ {
					c.Lens = append(c.Lens, k)
				}
				if n > 0 && rapid.Bool().Draw(t, "ragged") {
					c.Lens[rapid.IntRange(0, n-1).Draw(t, "at")] = rapid.IntRange(0, 8).Draw(t, "len")
				}
				return c
			}})
	register("P02",
		Sub[arithCase]{Name: "operation", Quick: 12000, Thorough: 400000, Gen: genArith, Check: checkArith,
			Rule: "one operation on operands of random, fitting or unfitting shapes up to 130 per side, with ordinary, exact, wide-range or special values, compared cell by cell with its definition (sums within a rounding bound for any order; sums whose finite part overflows are set aside); operands are compared with copies and the result is overwritten to see that it shares nothing. Non-trivial: more than one cell."},
		Sub[algebraCase]{Name: "algebra", Quick: 2000, Thorough: 60000, Check: checkAlgebra,
			Rule: "laws relating the operations (distributivity, transposition, sums, scalars) on matrices of small integers, where they hold exactly. All cases are non-trivial.",
			Gen: func(t *rapid.T) algebraCase {
				r, k, n := drawDim(t, "r", 60), drawDim(t, "k", 60), drawDim(t, "n", 20)
				return algebraCase{drawMat(t, "A", r, k, "int"), drawMat(t, "B", r, k, "int"), drawMat(t, "C", k, n, "int"), rapid.IntRange(-4, 4).Draw(t, "K")}
			}})
}
