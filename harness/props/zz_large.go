package main

import (
	"strconv"

	"pgregory.net/rapid"
)

// large gives the same sub-check over cases one dimension of which is large.
func (s Sub[C]) large(quick, thorough, most int) runner {
	gen := s.Gen
	s.Name += "-large"
	s.Rule += " Here one dimension is large and the others are small."
	s.Quick, s.Thorough, s.Flat = quick, thorough, true
	s.Gen = func(t *rapid.T) C {
		large = &largeDims{most: most}
		defer func() { large = nil }()
		return gen(t)
	}
	return s
}

// broad gives the same sub-check over cases several dimensions of which are large.
func (s Sub[C]) broad(quick, thorough, most, budget int) runner {
	gen := s.Gen
	s.Name += "-broad"
	s.Rule += " Here several dimensions are large (up to " + strconv.Itoa(most) + ") at the same time."
	s.Quick, s.Thorough, s.Flat = quick, thorough, true
	s.Patience = max(s.Patience, 3)
	s.Gen = func(t *rapid.T) C {
		large = &largeDims{most: most, budget: budget, total: budget}
		defer func() { large = nil }()
		return gen(t)
	}
	return s
}

// deep gives the same sub-check over models of many small layers.
func (s Sub[C]) deep(quick, thorough, most int) runner {
	gen := s.Gen
	s.Name += "-deep"
	s.Rule += " Here models have up to " + strconv.Itoa(most) + " layers with one or two inputs and outputs."
	s.Quick, s.Thorough, s.Flat = quick, thorough, true
	s.Gen = func(t *rapid.T) C {
		deep = &deepModels{most: most}
		defer func() { deep = nil }()
		return gen(t)
	}
	return s
}

// This file's name makes its init the last one.
func init() {
	for _, x := range []struct {
		id, sub               string
		quick, thorough, most int
	}{
		{"P01", "history", 400, 8000, 70000},
		{"P02", "operation", 800, 16000, 70000},
		{"P02", "algebra", 200, 4000, 20000},
		{"P03", "forward", 800, 16000, 20000},
		{"P03", "logits", 800, 16000, 20000},
		{"P03", "rows", 240, 4000, 5000},
		{"P04", "backward", 800, 16000, 5000},
		{"P04", "combined", 400, 8000, 5000},
		{"P05", "mask", 400, 8000, 9000},
		{"P05", "model", 240, 4000, 5000},
		{"P06", "value", 800, 16000, 20000},
		{"P06", "rows", 240, 4000, 5000},
		{"P07", "gradient", 800, 16000, 20000},
		{"P08", "history", 400, 8000, 20000},
		{"P09", "history", 400, 8000, 20000},
		{"P11", "compose", 800, 16000, 9000},
		{"P12", "reference", 400, 8000, 5000},
		{"P13", "procedure", 240, 5000, 2100},
		{"P14", "twins", 240, 4000, 3000},
		{"P14", "masks", 320, 5000, 700},
		{"P15", "meaning", 800, 16000, 9000},
		{"P16", "metrics", 800, 16000, 20000},
		{"P17", "roundtrip", 400, 8000, 4200},
		{"P18", "layout", 400, 8000, 70000},
		{"P20", "files", 200, 4000, 9000},
		{"P21", "pairs", 400, 8000, 70000},
		{"P22", "weights", 24, 600, 3000},
		{"P23", "entries", 200, 4000, 3000},
		{"P24", "isolation", 160, 1600, 600},
		{"P25", "layers", 800, 16000, 9000},
		{"P25", "losses", 800, 16000, 9000},
		{"P25", "optimizers", 400, 8000, 9000},
		{"P25", "models", 400, 8000, 5000},
		{"P26", "onehot", 400, 8000, 20000},
		{"P26", "rowmax", 800, 16000, 70000},
		{"P26", "round", 400, 8000, 70000},
		{"P29", "functions", 800, 16000, 20000},
	} {
		for _, r := range registry[x.id] {
			if r.name() == x.sub {
				register(x.id, r.large(x.quick, x.thorough, x.most))
			}
		}
	}
	for _, x := range []struct {
		id, sub                       string
		quick, thorough, most, budget int
	}{
		{"P01", "history", 320, 6400, 700, 300000},
		{"P02", "operation", 2400, 48000, 700, 30000000},
		{"P02", "algebra", 480, 9600, 400, 10000000},
		{"P02", "differences", 240, 4800, 700, 300000},
		{"P03", "forward", 1440, 30000, 1100, 10000000},
		{"P03", "rows", 720, 14400, 600, 2000000},
		{"P04", "backward", 960, 19200, 600, 5000000},
		{"P04", "combined", 480, 9600, 400, 3000000},
		{"P05", "mask", 160, 3200, 600, 3000000},
		{"P05", "model", 80, 1600, 400, 3000000},
		{"P06", "value", 1440, 28800, 700, 300000},
		{"P07", "gradient", 960, 19200, 700, 300000},
		{"P08", "history", 480, 9600, 700, 400000},
		{"P09", "history", 480, 9600, 700, 400000},
		{"P11", "compose", 120, 2400, 600, 3000000},
		{"P12", "reference", 480, 9600, 400, 3000000},
		{"P13", "procedure", 320, 6400, 400, 1000000},
		{"P14", "twins", 80, 1600, 400, 1000000},
		{"P15", "meaning", 480, 9600, 600, 3000000},
		{"P16", "metrics", 1440, 28800, 700, 300000},
		{"P17", "roundtrip", 480, 9600, 700, 300000},
		{"P18", "layout", 480, 9600, 700, 300000},
		{"P21", "pairs", 480, 9600, 700, 300000},
		{"P23", "entries", 40, 800, 300, 300000},
		{"P24", "isolation", 24, 240, 200, 10000},
		{"P25", "layers", 960, 19200, 600, 1000000},
		{"P25", "losses", 960, 19200, 600, 300000},
		{"P25", "optimizers", 480, 9600, 600, 300000},
		{"P25", "models", 480, 9600, 400, 300000},
		{"P26", "onehot", 480, 9600, 700, 300000},
		{"P26", "rowmax", 960, 19200, 700, 300000},
		{"P26", "round", 480, 9600, 700, 300000},
		{"P29", "functions", 960, 19200, 700, 300000},
	} {
		for _, r := range registry[x.id] {
			if r.name() == x.sub {
				register(x.id, r.broad(x.quick, x.thorough, x.most, x.budget))
			}
		}
	}
	for _, x := range []struct {
		id, sub               string
		quick, thorough, most int
	}{
		{"P05", "model", 200, 4000, 130},
		{"P11", "compose", 400, 8000, 600},
		{"P11", "changes", 200, 4000, 300},
		{"P12", "reference", 400, 8000, 600},
		{"P13", "procedure", 200, 4000, 600},
		{"P14", "twins", 160, 3000, 127},
		{"P15", "meaning", 400, 8000, 600},
		{"P17", "roundtrip", 200, 4000, 127},
		{"P18", "layout", 200, 4000, 127},
		{"P19", "prefixes", 40, 800, 127},
		{"P20", "files", 100, 2000, 127},
		{"P22", "weights", 30, 600, 300},
		{"P23", "entries", 100, 2000, 300},
		{"P24", "isolation", 40, 400, 130},
		{"P25", "models", 200, 4000, 300},
	} {
		for _, r := range registry[x.id] {
			if r.name() == x.sub {
				register(x.id, r.deep(x.quick, x.thorough, x.most))
			}
		}
	}
}
