package main

import (
	"math"

	"nnverif/ref"
)

// Reference metrics, on values that are exact.

func argmax(row []ref.N) int {
	best := 0
	for j := range row {
		if row[j].V > row[best].V {
			best = j
		}
	}
	return best
}

func rounded(v float64) float64 {
	if v < 0.5 {
		return 0
	}
	return 1
}

// accuracy is the fraction of correct entries (or rows).
func accuracy(kind int, precision float64, p, y ref.Mat) float64 {
	n, of := 0, 0
	switch kind {
	case 0:
		of = len(p.A)
		for i := range p.A {
			if math.Abs(p.A[i].V-y.A[i].V) < precision {
				n++
			}
		}
	case 1:
		of = p.R
		for i := 0; i < p.R; i++ {
			if y.At(i, argmax(p.Row(i))).V == 1 {
				n++
			}
		}
	case 2:
		of = len(p.A)
		for i := range p.A {
			if rounded(p.A[i].V) == y.A[i].V {
				n++
			}
		}
	}
	return float64(n) / float64(of)
}

// predictions are what Predict returns for outputs p.
func predictions(kind int, p ref.Mat) []float64 {
	var o []float64
	switch kind {
	case 0:
		for _, a := range p.A {
			o = append(o, a.V)
		}
	case 1:
		for i := 0; i < p.R; i++ {
			o = append(o, float64(argmax(p.Row(i))))
		}
	case 2:
		for _, a := range p.A {
			o = append(o, rounded(a.V))
		}
	}
	return o
}

// sameFraction leaves room for any way of averaging, but none for a different count.
func sameFraction(a, b float64) bool { return math.Abs(a-b) <= 1e-12 }
