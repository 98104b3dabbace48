package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// Sizes and counts that the main sub-checks do not reach.

// P10: long chains.
type longChainCase struct {
	M       ModelSpec
	Misfits []int // before these layers, one that does not fit is refused
	X, Y    Mat
}

func genLongChain(t *rapid.T) longChainCase {
	deep = &deepModels{most: 600}
	defer func() { deep = nil }()
	c := longChainCase{M: drawModel(t, arch{maxLayers: 1, maxDim: 2, dropout: "none"})}
	c.Misfits = rapid.SliceOfN(rapid.IntRange(1, len(c.M.Layers)-1), 0, 4).Draw(t, "misfits")
	rows := rapid.IntRange(1, 3).Draw(t, "rows")
	c.X, c.Y = drawMat(t, "X", rows, c.M.In(), "norm"), drawMat(t, "Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
	return c
}

func checkLongChain(c longChainCase, o *Obs) error {
	model := nn.NewModel()
	m := &model
	for i, s := range c.M.Layers {
		for _, at := range c.Misfits {
			if at != i {
				continue
			}
			bad := LayerSpec{Kind: ref.Linear, In: s.In + 1, Out: s.Out, W: Mat{R: s.In + 1, C: s.Out}, B: Mat{R: 1, C: s.Out}}
			if err := m.AddLayer(bad.Build().Layer); err == nil {
				return fmt.Errorf("layer %d: one with %d inputs is accepted behind %d outputs", i, s.In+1, s.In)
			}
		}
		l := s.Build()
		if err := m.AddLayer(l.Layer); err != nil {
			return fmt.Errorf("layer %d: %v", i, err)
		}
		if m.ModelSize != i+1 || len(m.Layers) != i+1 || m.Layers[i] != l.Layer || m.InputSize != c.M.In() || m.OutputSize != s.Out {
			return fmt.Errorf("after layer %d: size %d, %d layers, %d inputs, %d outputs", i, m.ModelSize, len(m.Layers), m.InputSize, m.OutputSize)
		}
	}
	if err := m.Finalize(mustLoss(c.M.Loss, c.M.Out()), c.M.Opt.Build(), nn.AccuracyType(c.M.Acc), float64(c.M.Prec)); err != nil {
		return err
	}
	n := len(c.M.Layers)
	if m.ModelSize != n || len(m.Layers) != n || len(m.Optimizers) != n {
		return fmt.Errorf("finalized: size %d, %d layers, %d optimizers", m.ModelSize, len(m.Layers), len(m.Optimizers))
	}
	seen := map[nn.Optimizer]bool{}
	for i, x := range m.Optimizers {
		if x == nil || seen[x] {
			return fmt.Errorf("layer %d has no optimizer of its own", i)
		}
		seen[x] = true
	}
	r := c.M.Ref()
	for e := 0; e < 2; e++ {
		if err := m.Fit(c.X.NN(), c.Y.NN(), 1, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return err
		}
		r.Fit(c.X.Ref(), c.Y.Ref(), 1, 0, nil)
		if err := admitsParams("after training", m, r, o); err != nil {
			return err
		}
	}
	o.NT()
	o.ClassIf(n > 255, "over 255 layers")
	return nil
}

// P22: the far ends of the distribution, and layers with many inputs.
type tailsCase struct {
	Kind, In, Out, Rounds int
}

// poisson judges a count whose expectation is small against the number of trials.
func poisson(count int, expected float64) bool {
	k := float64(count)
	d := expected - k
	if k > 0 {
		d += k * math.Log(k/expected)
	}
	return d < 34 // one in 10^14 (Chernoff)
}

func checkTails(c tailsCase, o *Obs) error {
	l, err := newLayer(c.Kind, c.In, c.Out, 0.1, 0.5)
	if err != nil {
		return err
	}
	x := wrap(l)
	// Sixteenths from -4 to 4, and beyond on both sides.
	bins := make([]int, 128)
	over := map[float64][2]int{}
	n := 0
	var s1, s2 float64
	scale := math.Sqrt(float64(c.In) / 2)
	for k := 0; k < c.Rounds; k++ {
		l.Init()
		w := *x.W()
		if w.Rows != c.In || w.Cols != c.Out || len(w.M) != c.In {
			return fmt.Errorf("round %d: weights became %dx%d", k, w.Rows, w.Cols)
		}
		for _, row := range w.M {
			for _, v := range row {
				z := v * scale
				n++
				s1 += z
				s2 += z * z
				if i := int(math.Floor(z*16)) + 64; z > -5 && z < 5 && i >= 0 && i < 128 {
					bins[i]++
				}
				if a := math.Abs(z); !(a < 3.5) {
					if !(a < 10) {
						return fmt.Errorf("round %d: a weight is %v standard deviations from zero", k, z)
					}
					for _, b := range []float64{3.5, 4, 4.25, 4.5} {
						if a > b {
							p := over[b]
							if z < 0 {
								p[0]++
							} else {
								p[1]++
							}
							over[b] = p
						}
					}
				}
			}
		}
	}
	N := float64(n)
	if math.Abs(s1) > 8*math.Sqrt(N) || math.Abs(s2-N) > 8*math.Sqrt(2*N) {
		return fmt.Errorf("%s layer %dx%d: %d scaled weights have mean %v and mean square %v", layerNames[c.Kind], c.In, c.Out, n, s1/N, s2/N)
	}
	phi := func(z float64) float64 { return 0.5 * math.Erfc(-z/math.Sqrt2) }
	for i, got := range bins {
		lo := float64(i-64) / 16
		if want := N * (phi(lo+0.0625) - phi(lo)); !poisson(got, want) {
			return fmt.Errorf("%s layer %dx%d: %d of %d scaled weights between %v and %v, expected about %.1f", layerNames[c.Kind], c.In, c.Out, got, n, lo, lo+0.0625, want)
		}
	}
	for _, b := range []float64{3.5, 4, 4.25, 4.5} {
		want := N * phi(-b)
		for side, got := range over[b] {
			if !poisson(got, want) {
				return fmt.Errorf("%s layer %dx%d: %d of %d scaled weights beyond %v on side %d, expected about %.1f", layerNames[c.Kind], c.In, c.Out, got, n, b, side, want)
			}
		}
	}
	o.NT()
	o.Class(layerNames[c.Kind])
	return nil
}

// P02: matrices that differ in one cell.
type differCase struct {
	M     Mat
	Cells [][2]int // beyond all cells of small matrices
	How   int
}

func differ(how int, v float64) float64 {
	switch how {
	case 0:
		return math.Nextafter(v, math.Inf(1))
	case 1:
		return math.Nextafter(v, math.Inf(-1))
	case 2:
		return math.NaN()
	case 3:
		return -v
	case 4:
		return v + 1
	}
	return math.Inf(1)
}

func checkDiffer(c differCase, o *Obs) error {
	cells := c.Cells
	if c.M.R*c.M.C <= 1200 {
		for i := 0; i < c.M.R; i++ {
			for j := 0; j < c.M.C; j++ {
				cells = append(cells, [2]int{i, j})
			}
		}
	}
	a, b := c.M.NN(), c.M.NN()
	if !a.Equals(b) || !b.Equals(a) {
		return fmt.Errorf("equal matrices are said to differ")
	}
	for _, p := range cells {
		was := b.M[p[0]][p[1]]
		b.M[p[0]][p[1]] = differ(c.How, was)
		if want := b.M[p[0]][p[1]] == was; a.Equals(b) != want || b.Equals(a) != want {
			return fmt.Errorf("only (%d,%d) is %v in one and %v in the other: Equals is %v and %v", p[0], p[1], was, b.M[p[0]][p[1]], a.Equals(b), b.Equals(a))
		} else if !want {
			o.NT()
		}
		b.M[p[0]][p[1]] = was
	}
	if !a.Equals(b) {
		return fmt.Errorf("equal matrices are said to differ afterwards")
	}
	// Parts of it, and all its cells in one row or column.
	v := c.M.Vals()
	var parts []nn.Matrix
	if c.M.R > 1 {
		parts = append(parts, mk(c.M.R-1, c.M.C, v[:(c.M.R-1)*c.M.C]), mk(1, c.M.C, v[:c.M.C]), mk(1, len(v), v))
	}
	if c.M.C > 1 {
		var most, one []float64
		for i := 0; i < c.M.R; i++ {
			most = append(most, v[i*c.M.C:(i+1)*c.M.C-1]...)
			one = append(one, v[i*c.M.C])
		}
		parts = append(parts, mk(c.M.R, c.M.C-1, most), mk(c.M.R, 1, one), mk(len(v), 1, v))
	}
	for _, p := range parts {
		if a.Equals(p) || p.Equals(a) {
			return fmt.Errorf("%dx%d is said to equal %dx%d", c.M.R, c.M.C, p.Rows, p.Cols)
		}
	}
	o.ClassIf(c.M.R > 128 || c.M.C > 128, "over 128 rows or columns")
	return nil
}

// P23: many epochs.
type longLogCase struct {
	M                ModelSpec
	X, Y             Mat
	VX, VY           Mat // for validation
	Epochs, Log, Val int
	Batch            int
}

func checkLongLog(c longLogCase, o *Obs) error {
	path := filepath.Join(scratch, "long.log")
	os.Remove(path)
	defer os.Remove(path)
	if err := nn.InitLogger(false, true, path); err != nil {
		return err
	}
	defer nn.InitLogger(false, false, "")
	m, twin := c.M.Build(), c.M.Build()
	vx, vy := nn.Matrix{}, nn.Matrix{}
	if c.Val > 0 {
		vx, vy = c.VX.NN(), c.VY.NN()
	}
	if err := m.Fit(c.X.NN(), c.Y.NN(), c.Epochs, c.Batch, vx, vy, c.Log); err != nil {
		return err
	}
	var want []logEntry
	for e := 0; e < c.Epochs; e++ {
		if err := twin.Fit(c.X.NN(), c.Y.NN(), 1, c.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			return err
		}
		if e%c.Log != 0 {
			continue
		}
		for val := 0; val <= min(c.Val, 1); val++ {
			x, y := c.X, c.Y
			if val == 1 {
				x, y = c.VX, c.VY
			}
			loss, err := twin.CalculateLoss(x.NN(), y.NN())
			if err != nil {
				return err
			}
			acc, err := twin.CalculateAccuracy(x.NN(), y.NN())
			if err != nil {
				return err
			}
			want = append(want, logEntry{epoch: e, loss: loss, acc: acc, val: val == 1})
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if err := matchEntries("log file", b, "", want); err != nil {
		return err
	}
	if len(want) > 1 {
		o.NT()
	}
	o.ClassIf(c.Epochs > 1000, "over 1000 epochs")
	o.ClassIf(c.Epochs > 65535, "over 65535 epochs")
	return nil
}

// P26: labels beyond the integers that narrower floating-point numbers hold.
type farLabelCase struct {
	Size  int
	Label []int
}

func checkFarLabel(c farLabelCase, o *Obs) error {
	for _, label := range c.Label {
		x := mk(1, 1, []float64{float64(label)})
		m, err := nn.SparseToOneHot(x, c.Size)
		if err != nil {
			return fmt.Errorf("label %d of %d: %v", label, c.Size, err)
		}
		if m.Rows != 1 || m.Cols != c.Size || len(m.M) != 1 || len(m.M[0]) != c.Size {
			return fmt.Errorf("label %d of %d: result is %dx%d", label, c.Size, m.Rows, m.Cols)
		}
		for i, v := range m.M[0] {
			if want := i == label; v != 0 && v != 1 || want != (v == 1) {
				return fmt.Errorf("label %d of %d: column %d is %v", label, c.Size, i, v)
			}
		}
		if back := nn.RowMax(m); back.Rows != 1 || back.Cols != 1 || back.M[0][0] != float64(label) {
			return fmt.Errorf("label %d of %d: row maximum of the one-hot row is %v", label, c.Size, back.M)
		}
	}
	o.NT()
	return nil
}

func init() {
	register("P02", Sub[differCase]{Name: "differences", Quick: 400, Thorough: 8000, Check: checkDiffer,
		Rule: "two equal matrices of up to 700 rows or columns, of which one is changed in one cell at a time (the next number, NaN, the opposite, infinity): every cell of matrices up to 1200 cells, of larger ones the last row and column and one cell more of every row and column; Equals must notice every change, both ways, and tell the matrix from parts of it and from its cells in one row or column. Non-trivial: some change is one.",
		Gen: func(t *rapid.T) differCase {
			c := differCase{How: rapid.IntRange(0, 5).Draw(t, "how")}
			rows, cols := drawBigDim(t, "rows", 700), drawDim(t, "cols", 40)
			if rapid.Bool().Draw(t, "wide") {
				rows, cols = cols, rows
			}
			c.M = drawMat(t, "M", rows, cols, pick(t, "kind", "norm", "wide", "grid", "int"))
			if rows*cols > 1200 {
				r := &rng{rapid.Uint64Range(0, 1<<40).Draw(t, "cells")}
				for i := 0; i < rows; i++ {
					c.Cells = append(c.Cells, [2]int{i, r.intn(cols)}, [2]int{i, cols - 1})
				}
				for j := 0; j < cols; j++ {
					c.Cells = append(c.Cells, [2]int{rows - 1, j}, [2]int{r.intn(rows), j})
				}
			}
			return c
		}})
	register("P10", Sub[longChainCase]{Name: "long", Quick: 400, Thorough: 8000, Flat: true, Gen: genLongChain, Check: checkLongChain,
		Rule: "chains of 7 to 600 small layers: sizes after every layer added, misfits refused anywhere in the chain, an optimizer of its own for each layer, two epochs of training against the reference. All cases are non-trivial."})
	register("P22", Sub[tailsCase]{Name: "tails", Quick: 24, Thorough: 400, Flat: true, Patience: 3, Check: checkTails,
		Rule: "four million weights of one layer with 1 to 100000 inputs: mean, mean square, the counts in bins a sixteenth of a standard deviation wide and those beyond 3.5, 4, 4.25 and 4.5 on either side (Chernoff bounds at one in 10^14). All cases are non-trivial.",
		Gen: func(t *rapid.T) tailsCase {
			c := tailsCase{Kind: rapid.IntRange(0, 5).Draw(t, "kind")}
			c.In = int(math.Pow(10, uniformIn(t, "in", 1, 5)))
			if chance(t, "magic", 1, 3) {
				c.In = sample(t, "in", []int{50, 100, 128, 256, 257, 512, 784, 1000, 1001, 1024, 1025, 2048, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537})
			}
			c.Out = rapid.IntRange(1, max(1, min(2000, 2000000/c.In))).Draw(t, "out")
			c.Rounds = 1 + 4000000/(c.In*c.Out)
			return c
		}})
	register("P23", Sub[longLogCase]{Name: "epochs", Quick: 80, Thorough: 1600, Flat: true, Check: checkLongLog,
		Rule: "one training of 20 to 70000 epochs logged to a file at every interval from 1 to beyond the number of epochs, with and without validation data; all entries are compared with a twin trained epoch by epoch. Non-trivial: more than one entry.",
		Gen: func(t *rapid.T) longLogCase {
			c := longLogCase{M: drawModel(t, arch{maxLayers: 2, maxDim: 2, dropout: "none"})}
			c.Epochs = int(math.Pow(10, uniformIn(t, "epochs", 1.3, 3.7)))
			if chance(t, "far", 1, 7) {
				c.Epochs = sample(t, "farEpochs", []int{32800, 65600, 70000, 70000})
			}
			c.Log = sample(t, "log", []int{1, 1, 2, 3, 7, 10, 50, 64, 99, 100, 128, 250, 255, 256, 257, 500, 1000, 1001, 1024, 20000, c.Epochs - 1, c.Epochs, c.Epochs + 1})
			c.Val, c.Batch = rapid.IntRange(0, 1).Draw(t, "val"), rapid.IntRange(0, 2).Draw(t, "batch")
			rows := rapid.IntRange(1, 3).Draw(t, "rows")
			c.X, c.Y = drawMat(t, "X", rows, c.M.In(), "norm"), drawMat(t, "Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
			rows = rapid.IntRange(1, 3).Draw(t, "vrows")
			c.VX, c.VY = drawMat(t, "VX", rows, c.M.In(), "norm"), drawMat(t, "VY", rows, c.M.Out(), targetKind(t, c.M.Loss))
			return c
		}})
	register("P23", Sub[longLogCase]{Name: "rows", Quick: 160, Thorough: 3000, Flat: true, Check: checkLongLog,
		Rule: "one to three logged epochs on up to 70000 rows, with and without validation data of up to 70000 rows; all entries are compared with a twin trained epoch by epoch. Non-trivial: more than one entry.",
		Gen: func(t *rapid.T) longLogCase {
			c := longLogCase{M: drawModel(t, arch{maxLayers: 2, maxDim: 2, dropout: "none"})}
			c.Epochs, c.Log, c.Val = 1+uniform(t, "epochs", 3), 1+uniform(t, "log", 2), uniform(t, "val", 2)
			rows, vrows := logUniform(t, "rows", 500, 70000), logUniform(t, "vrows", 1, 70000)
			if uniform(t, "batching", 2) == 1 {
				c.Batch = rows/(1+uniform(t, "parts", 8)) + 1
			}
			mat := func(l string, r, cols int, kind string) Mat {
				return Mat{R: r, C: cols, Kind: kind, Seed: rapid.Uint64Range(1, 1<<40).Draw(t, l)}
			}
			c.X, c.Y = mat("X", rows, c.M.In(), "norm"), mat("Y", rows, c.M.Out(), targetKind(t, c.M.Loss))
			c.VX, c.VY = mat("VX", vrows, c.M.In(), "norm"), mat("VY", vrows, c.M.Out(), targetKind(t, c.M.Loss))
			return c
		}})
	register("P26", Sub[farLabelCase]{Name: "far", Quick: 2, Thorough: 20, Flat: true, Patience: 3, Check: checkFarLabel,
		Rule: "sizes around 2^24 (and in the thorough tier 2^25): labels around powers of two and at the end, one row each. All cases are non-trivial.",
		Gen: func(t *rapid.T) farLabelCase {
			c := farLabelCase{Size: 1<<24 + rapid.IntRange(2, 40).Draw(t, "size")}
			if os.Getenv("VERIF_TIER") == "thorough" {
				c.Size <<= rapid.IntRange(0, 1).Draw(t, "more")
			}
			c.Label = []int{1<<24 + 1, c.Size - 1, rapid.IntRange(0, c.Size-1).Draw(t, "label")}
			c.Label = append(c.Label, 1<<rapid.IntRange(8, 23).Draw(t, "power")+rapid.IntRange(-1, 1).Draw(t, "off"))
			sort.Ints(c.Label)
			return c
		}})
	register("P27", Sub[makeCase]{Name: "sizes", Quick: 160, Thorough: 3000, Flat: true, Check: checkMake,
		Rule: "layers and losses one of whose sizes is up to 300000, judged like the others. Non-trivial: accepted.",
		Gen: func(t *rapid.T) makeCase {
			c := makeCase{What: pick(t, "what", "layer", "layer", "loss")}
			far := int(math.Pow(10, uniformIn(t, "far", 2, 5.47)))
			if chance(t, "magic", 1, 3) {
				far = sample(t, "far", []int{999, 1000, 1001, 1024, 1025, 4096, 4097, 10000, 10001, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 100001, 131072, 131073, 262145})
			}
			c.In, c.Out = far, rapid.IntRange(1, 3).Draw(t, "near")
			if c.What == "loss" {
				c.Kind = rapid.IntRange(0, 3).Draw(t, "kind")
				return c
			}
			c.Kind = rapid.IntRange(0, 5).Draw(t, "kind")
			if rapid.Bool().Draw(t, "wide") {
				c.In, c.Out = c.Out, c.In
			}
			c.A = F(sample(t, "a", []float64{0, 0.1, 0.5, 1}))
			return c
		}})
}
