// Package ref is an independent reference implementation of the mathematics nn provides.
// It shares no code with the library. Every number carries a bound on how far a correct
// floating-point evaluation, in any order of summation, may lie from its value.
package ref

import "math"

// U bounds the relative rounding error of one operation, with room to spare.
const U = 2.5e-16

// N is a value with an absolute error bound.
type N struct{ V, E float64 }

// Exact is a value known exactly.
func Exact(v float64) N { return N{v, 0} }

func tinyErr(v float64) float64 {
	if math.Abs(v) < 1e-290 {
		return 1e-300
	}
	return 0
}

func (a N) isZero() bool { return a.V == 0 && a.E == 0 }

func (a N) wild() bool { return !(math.Abs(a.V) <= math.MaxFloat64 && a.E <= math.MaxFloat64) }

func Add(a, b N) N { v := a.V + b.V; return N{v, a.E + b.E + U*math.Abs(v)} }
func Sub(a, b N) N { v := a.V - b.V; return N{v, a.E + b.E + U*math.Abs(v)} }
func Mul(a, b N) N {
	if a.isZero() || b.isZero() {
		if a.wild() || b.wild() {
			return N{math.NaN(), math.Inf(1)} // 0 times an overflow
		}
		return N{}
	}
	v := a.V * b.V
	return N{v, math.Abs(a.V)*b.E + math.Abs(b.V)*a.E + a.E*b.E + U*math.Abs(v) + tinyErr(v)}
}
func Div(a, b N) N {
	v := a.V / b.V
	ab := math.Abs(b.V)
	if ab <= b.E {
		return N{v, math.Inf(1)}
	}
	if b.wild() {
		return N{v, math.Inf(1)}
	}
	if a.isZero() {
		return N{}
	}
	return N{v, (math.Abs(a.V)*b.E+ab*a.E)/(ab*(ab-b.E)) + U*math.Abs(v) + tinyErr(v)}
}
func Neg(a N) N              { return N{-a.V, a.E} }
func Scale(a N, k float64) N { return Mul(a, Exact(k)) }

func Exp(a N) N {
	v := math.Exp(a.V)
	return N{v, v*math.Expm1(a.E)*1.0001 + 4*U*v + tinyErr(v)}
}
func Log(a N) N {
	v := math.Log(a.V)
	if a.V <= a.E {
		return N{v, math.Inf(1)}
	}
	return N{v, a.E/(a.V-a.E) + 4*U*math.Abs(v)}
}
func Sqrt(a N) N {
	v := math.Sqrt(math.Max(a.V, 0))
	hi := math.Sqrt(math.Max(a.V+a.E, 0))
	lo := math.Sqrt(math.Max(a.V-a.E, 0))
	return N{v, (hi - lo) + 2*U*v}
}
func Abs(a N) N { return N{math.Abs(a.V), a.E} }

// Sum allows for any order of summation.
func Sum(ts []N) N {
	var v, c, e, mag float64
	for _, t := range ts {
		// Kahan
		y := t.V - c
		s := v + y
		c = (s - v) - y
		v = s
		e += t.E
		mag += math.Abs(t.V)
	}
	return N{v, e + float64(len(ts))*U*mag}
}

// Loose says that the bound is too wide to say much.
func (a N) Loose() bool {
	return !(a.E <= 1e-5*(1e-3+math.Abs(a.V)))
}

// Admits reports whether x is an acceptable result for a.
func (a N) Admits(x float64) bool {
	if math.IsNaN(a.V) || math.IsNaN(a.E) || math.IsInf(a.E, 0) {
		return true
	}
	if math.IsNaN(x) {
		return false
	}
	if math.IsInf(a.V, 0) {
		return x == a.V
	}
	return math.Abs(x-a.V) <= 4*a.E+8*U*math.Abs(a.V)+1e-300
}

// Mat is a matrix of bounded numbers.
type Mat struct {
	R, C int
	A    []N
}

func Zeros(r, c int) Mat          { return Mat{r, c, make([]N, r*c)} }
func (m Mat) At(i, j int) N       { return m.A[i*m.C+j] }
func (m Mat) Set(i, j int, v N)   { m.A[i*m.C+j] = v }
func (m Mat) Row(i int) []N       { return m.A[i*m.C : (i+1)*m.C] }
func (m Mat) Clone() Mat          { return Mat{m.R, m.C, append([]N(nil), m.A...)} }
func (m Mat) Rows(lo, hi int) Mat { return Mat{hi - lo, m.C, m.A[lo*m.C : hi*m.C]} }

// FromFloats makes an exact matrix.
func FromFloats(r, c int, v []float64) Mat {
	m := Zeros(r, c)
	for i := range m.A {
		m.A[i] = Exact(v[i])
	}
	return m
}

func (m Mat) Map(f func(N) N) Mat {
	o := Zeros(m.R, m.C)
	for i, a := range m.A {
		o.A[i] = f(a)
	}
	return o
}

func Dot(a, b Mat) Mat {
	o := Zeros(a.R, b.C)
	ts := make([]N, a.C)
	for i := 0; i < a.R; i++ {
		for j := 0; j < b.C; j++ {
			for k := 0; k < a.C; k++ {
				ts[k] = Mul(a.At(i, k), b.At(k, j))
			}
			o.Set(i, j, Sum(ts))
		}
	}
	return o
}

func T(a Mat) Mat {
	o := Zeros(a.C, a.R)
	for i := 0; i < a.R; i++ {
		for j := 0; j < a.C; j++ {
			o.Set(j, i, a.At(i, j))
		}
	}
	return o
}

// ColSums is the 1 x cols matrix of column sums.
func ColSums(a Mat) Mat {
	o := Zeros(1, a.C)
	for j := 0; j < a.C; j++ {
		ts := make([]N, a.R)
		for i := range ts {
			ts[i] = a.At(i, j)
		}
		o.A[j] = Sum(ts)
	}
	return o
}

// LooseCount counts entries whose bound says little.
func (m Mat) LooseCount() int {
	n := 0
	for _, a := range m.A {
		if a.Loose() {
			n++
		}
	}
	return n
}
