package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P21: shuffling.

type shuffleCase struct {
	X, Y    Mat
	Dup     int // rows repeat after this many, 0: no
	Same    bool
	Repeats int
}

func genShuffle(t *rapid.T) shuffleCase {
	rows := drawBigDim(t, "rows", 257)
	if large == nil && chance(t, "large", 1, 30) {
		rows = sample(t, "rows", []int{512, 1000, 1024, 1025, 2000, 4097})
	}
	c := shuffleCase{Repeats: rapid.IntRange(1, 4).Draw(t, "repeats"), Same: chance(t, "same", 1, 8)}
	kinds := []string{"norm", "special", "int", "bin"}
	most := 40
	if rows > 300 {
		most = 3
	}
	c.X = drawMat(t, "X", rows, drawDim(t, "xCols", most), pick(t, "xKind", kinds...))
	c.Y = drawMat(t, "Y", rows, drawDim(t, "yCols", most), pick(t, "yKind", kinds...))
	if chance(t, "dup", 1, 4) {
		c.Dup = rapid.IntRange(1, max(1, rows/2)).Draw(t, "every")
	}
	return c
}

// rowKey identifies a row by its bits.
func rowKey(rows ...[]float64) string {
	b := make([]byte, 0, 64)
	for _, r := range rows {
		for _, v := range r {
			u := math.Float64bits(v)
			if math.IsNaN(v) {
				u = math.Float64bits(math.NaN())
			}
			for k := 0; k < 8; k++ {
				b = append(b, byte(u>>(8*k)))
			}
		}
		b = append(b, '|')
	}
	return string(b)
}

func pairKeys(x, y nn.Matrix) []string {
	o := make([]string, x.Rows)
	for i := range o {
		o[i] = rowKey(x.M[i], y.M[i])
	}
	return o
}

func checkShuffle(c shuffleCase, o *Obs) error {
	fill := func(m Mat) nn.Matrix {
		v := m.Vals()
		if c.Dup > 0 {
			for i := c.Dup; i < m.R; i++ {
				copy(v[i*m.C:(i+1)*m.C], v[(i-c.Dup)*m.C:(i-c.Dup+1)*m.C])
			}
		}
		return mk(m.R, m.C, v)
	}
	x, y := fill(c.X), fill(c.Y)
	xc, yc := c.X.C, c.Y.C
	if c.Same {
		y, yc = x, xc
	}
	before := pairKeys(x, y)
	want := append([]string(nil), before...)
	sort.Strings(want)
	distinct := 1
	for i := 1; i < len(want); i++ {
		if want[i] != want[i-1] {
			distinct++
		}
	}
	orders := map[string]bool{}
	for k := 0; k < c.Repeats; k++ {
		x, y = nn.ShuffleDataset(x, y)
		for i, m := range []nn.Matrix{x, y} {
			cols := []int{xc, yc}[i]
			if _, err := vals(m); err != nil || m.Rows != c.X.R || m.Cols != cols {
				return fmt.Errorf("shuffle %d: %dx%d matrix instead of %dx%d (%v)", k, m.Rows, m.Cols, c.X.R, cols, err)
			}
		}
		after := pairKeys(x, y)
		if distinct >= 30 {
			same := true
			for i := range after {
				same = same && after[i] == before[i]
			}
			if same {
				return fmt.Errorf("shuffle %d of %d rows leaves every row in place", k, c.X.R)
			}
			key := fmt.Sprint(hash(after...))
			if orders[key] {
				return fmt.Errorf("shuffle %d of %d rows repeats an earlier order", k, c.X.R)
			}
			orders[key] = true
			o.Class("order differs")
		}
		if distinct == c.X.R && c.X.R >= 320 {
			// Where the rows of each eighth have gone.
			place := make(map[string]int, len(before))
			for i, key := range before {
				place[key] = i
			}
			const parts = 8
			var count [parts][parts]int
			var size [parts]int
			for i, key := range after {
				if from, ok := place[key]; ok {
					count[from*parts/c.X.R][i*parts/c.X.R]++
				}
				size[i*parts/c.X.R]++
			}
			for i := range count {
				for j, n := range count[i] {
					if !sevenSigma(n, size[i], float64(size[j])/float64(c.X.R)) {
						return fmt.Errorf("shuffle %d of %d rows: %d of the %d rows of part %d landed in part %d (of %d)", k, c.X.R, n, size[i], i, j, parts)
					}
				}
			}
			o.Class("spread of a large table")
		}
		before = after
		got := append([]string(nil), after...)
		sort.Strings(got)
		for i := range got {
			if got[i] != want[i] {
				return fmt.Errorf("shuffle %d of %d rows: pairs of rows were lost, changed or separated", k, c.X.R)
			}
		}
	}
	if c.X.R > 1 {
		o.NT()
	}
	o.ClassIf(c.Dup > 0, "duplicate rows")
	o.ClassIf(c.Same, "samples are their own targets")
	return nil
}

type fairCase struct {
	Rows, Times int
	Chain       bool // shuffle the result again instead of a fresh dataset
	Same        bool
}

// sevenSigma judges a count of n trials with probability p each.
func sevenSigma(count, n int, p float64) bool {
	return math.Abs(float64(count)-float64(n)*p) <= 7*math.Sqrt(float64(n)*p*(1-p))+7
}

func checkFair(c fairCase, o *Obs) error {
	n := c.Rows
	fresh := func() nn.Matrix {
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(i)
		}
		return mk(n, 1, v)
	}
	// Places are put in bins so that every bin is expected to fill.
	bins := min(n, 12)
	bin := func(i int) int { return i * bins / n }
	size := make([]int, bins)
	for i := 0; i < n; i++ {
		size[bin(i)]++
	}
	counts := make([][]int, bins)
	for i := range counts {
		counts[i] = make([]int, bins)
	}
	fixed := 0
	orders := map[string]int{}
	x, y := fresh(), fresh()
	for k := 0; k < c.Times; k++ {
		if !c.Chain {
			x, y = fresh(), fresh()
		}
		was := make([]float64, n)
		for i := range was {
			was[i] = x.M[i][0]
		}
		if c.Same {
			y = x
		}
		x, y = nn.ShuffleDataset(x, y)
		place := map[float64]int{}
		for i, v := range was {
			place[v] = i
		}
		order := make([]byte, n)
		for i := 0; i < n; i++ {
			from, ok := place[x.M[i][0]]
			if !ok || x.M[i][0] != y.M[i][0] {
				return fmt.Errorf("shuffle %d: rows lost or separated", k)
			}
			delete(place, x.M[i][0])
			counts[bin(from)][bin(i)]++
			if from == i {
				fixed++
			}
			order[i] = byte(from)
		}
		if n <= 4 {
			orders[string(order)]++
		}
	}
	// Rows of one bin do not land independently, but less spread than if they did.
	for i := range counts {
		for j := range counts[i] {
			if !sevenSigma(counts[i][j], c.Times*size[i], float64(size[j])/float64(n)) {
				return fmt.Errorf("%d shuffles of %d rows: rows %d/%d of the way down landed %d times in part %d, expected %.1f", c.Times, n, i, bins, counts[i][j], j, float64(c.Times*size[i]*size[j])/float64(n))
			}
		}
	}
	// One row stays in place per shuffle on average, with variance 1.
	if n > 1 && math.Abs(float64(fixed-c.Times)) > 7*math.Sqrt(float64(c.Times))+7 {
		return fmt.Errorf("%d shuffles of %d rows: %d rows stayed in place, expected %d", c.Times, n, fixed, c.Times)
	}
	if n <= 4 {
		fact := []int{1, 1, 2, 6, 24}[n]
		if len(orders) != fact {
			return fmt.Errorf("%d shuffles of %d rows: %d orders came up, not %d", c.Times, n, len(orders), fact)
		}
		for k, v := range orders {
			if n > 1 && !sevenSigma(v, c.Times, 1/float64(fact)) {
				return fmt.Errorf("%d shuffles of %d rows: order %v came up %d times", c.Times, n, []byte(k), v)
			}
		}
		o.Class("all orders")
	}
	if n > 1 {
		o.NT()
	}
	return nil
}

// Every row of one dataset, in particular the first and the last, now stays and now moves.
type placeCase struct {
	Rows, Cols, Times int
	Chain             bool
}

func checkPlaces(c placeCase, o *Obs) error {
	n := c.Rows
	fresh := func() (nn.Matrix, nn.Matrix) {
		v, w := make([]float64, n*c.Cols), make([]float64, n)
		for i := 0; i < n; i++ {
			v[i*c.Cols], w[i] = float64(i), float64(i)
		}
		return mk(n, c.Cols, v), mk(n, 1, w)
	}
	x, y := fresh()
	stay, next, ends := make([]int, n), make([]int, n), [4]int{}
	was := make([]int, n)
	for i := range was {
		was[i] = i
	}
	// order says which row stands where.
	order := func() ([]int, error) {
		p := make([]int, n)
		seen := make([]bool, n)
		for i := range p {
			v := int(x.M[i][0])
			if v < 0 || v >= n || float64(v) != x.M[i][0] || x.M[i][0] != y.M[i][0] || seen[v] {
				return nil, fmt.Errorf("rows lost or separated")
			}
			p[i], seen[v] = v, true
		}
		return p, nil
	}
	for k := 0; k < c.Times; k++ {
		if !c.Chain {
			x, y = fresh()
			for i := range was {
				was[i] = i
			}
		}
		x, y = nn.ShuffleDataset(x, y)
		p, err := order()
		if err != nil {
			return fmt.Errorf("shuffle %d of %d rows: %v", k, n, err)
		}
		at := make([]int, n) // where each row stands now
		for i, v := range p {
			at[v] = i
		}
		for i, v := range was {
			if at[v] == i {
				stay[i]++
			}
			if at[v] == (i+1)%n {
				next[i]++
			}
		}
		if at[was[0]] == n-1 {
			ends[0]++
		}
		if at[was[n-1]] == 0 {
			ends[1]++
		}
		if at[was[0]] < n/2 {
			ends[2]++
		}
		if at[was[n-1]] < n/2 {
			ends[3]++
		}
		was = p
	}
	for i := 0; i < n; i++ {
		for _, q := range [][2]interface{}{{"stayed", stay[i]}, {"moved one place down", next[i]}} {
			got := q[1].(int)
			// A Poisson variable with mean 50 or more.
			if mean := float64(c.Times) / float64(n); float64(got) > mean+9*math.Sqrt(mean)+9 || got == 0 {
				return fmt.Errorf("%d shuffles of %d rows: row %d %s %d times, expected %.0f", c.Times, n, i, q[0], got, mean)
			}
		}
	}
	for i, got := range ends {
		p := 1 / float64(n)
		if i >= 2 {
			p = float64(n/2) / float64(n)
		}
		if !sevenSigma(got, c.Times, p) {
			return fmt.Errorf("%d shuffles of %d rows: the %s came up %d times, expected %.0f", c.Times, n,
				[]string{"first row at the end", "last row at the start", "first row in the first half", "last row in the first half"}[i], got, float64(c.Times)*p)
		}
	}
	o.NT()
	return nil
}

// P22: initialisation.

type initLayer struct {
	Kind        int
	Out         int
	Slope, Drop F
	B           Mat
}

type initCase struct {
	In     int
	Layers []initLayer
	Model  bool // through the model
	Used   bool // after a forward and a backward pass, with old weights in place
	OldNaN bool
}

func genInit(t *rapid.T) initCase {
	c := initCase{In: drawBigDim(t, "in", 257), Model: rapid.Bool().Draw(t, "model"), Used: rapid.Bool().Draw(t, "used"), OldNaN: chance(t, "nan", 1, 3)}
	repeat := chance(t, "alike", 1, 3)
	n, most := rapid.IntRange(1, 5).Draw(t, "layers"), 257
	if deep != nil {
		n, most, c.In = deep.draw(t), 3, min(c.In, 3)
	}
	for i := n; i > 0; i-- {
		l := initLayer{Kind: rapid.IntRange(0, 5).Draw(t, "kind"), Out: drawBigDim(t, "out", most), Slope: drawSlope(t), Drop: drawDrop(t)}
		if repeat {
			l.Out = c.In
		}
		l.B = drawMat(t, "B", 1, l.Out, "special")
		c.Layers = append(c.Layers, l)
	}
	return c
}

// sample judges whether independent draws could be standard normal.
func standardNormal(what string, z []float64) error {
	n := float64(len(z))
	var s1, s2, s3, s4 float64
	for _, v := range z {
		s1, s2, s3, s4 = s1+v, s2+v*v, s3+v*v*v, s4+v*v*v*v
	}
	// Standard deviations of the moments of a standard normal: 1, sqrt 2, sqrt 15, sqrt 96.
	for _, m := range []struct {
		name       string
		got, sigma float64
	}{{"mean", s1 / n, 1}, {"variance - 1", s2/n - 1, math.Sqrt2}, {"third moment", s3 / n, math.Sqrt(15)}, {"fourth moment - 3", (s4/n - 3) / 2, math.Sqrt(96)}} {
		if !(math.Abs(m.got) <= 8*m.sigma/math.Sqrt(n)) {
			return fmt.Errorf("%s: %s of %d weights, scaled, is %v", what, m.name, len(z), m.got)
		}
	}
	u := append([]float64(nil), z...)
	sort.Float64s(u)
	d, same := 0.0, 0
	for i, v := range u {
		f := 0.5 * math.Erfc(-v/math.Sqrt2)
		d = math.Max(d, math.Max(f-float64(i)/n, float64(i+1)/n-f))
		if i > 0 && v == u[i-1] {
			same++
		}
	}
	if d*math.Sqrt(n) > 4.2 {
		return fmt.Errorf("%s: %d weights, scaled, are not normal (Kolmogorov distance %v)", what, len(z), d)
	}
	if float64(same) > 8+n/100 {
		return fmt.Errorf("%s: %d of %d weights are repeated", what, same, len(z))
	}
	return nil
}

// uncorrelated judges pairs of independent standard normal values.
func uncorrelated(what string, a, b []float64) error {
	var s, n float64
	for i := range a {
		s += a[i] * b[i]
		n++
	}
	if n >= 200 && math.Abs(s) > 8*math.Sqrt(n) {
		return fmt.Errorf("%s: correlation %v over %v pairs", what, s/n, n)
	}
	return nil
}

func checkInit(c initCase, o *Obs) error {
	m := nn.NewModel()
	var ls []Lib
	in := c.In
	for _, s := range c.Layers {
		l, err := newLayer(s.Kind, in, s.Out, float64(s.Slope), float64(s.Drop))
		if err != nil {
			return err
		}
		if err := m.AddLayer(l); err != nil {
			return err
		}
		x := wrap(l)
		setMat(x.B(), s.B.Vals())
		old := 3.0
		if c.OldNaN {
			old = math.NaN()
		}
		w := make([]float64, in*s.Out)
		for i := range w {
			w[i] = old
		}
		setMat(x.W(), w)
		ls = append(ls, x)
		in = s.Out
	}
	if c.Used {
		x := Mat{R: 2, C: c.In, Kind: "norm", Seed: 5}
		if _, err := m.Forward(x.NN(), true); err != nil {
			return err
		}
	}
	// Small layers are initialised often enough to judge.
	rounds := 2
	for _, l := range ls {
		rounds = max(rounds, min(400, 1000/(l.In()*l.Out())))
	}
	all := make([][]float64, len(ls))
	last := make([][]float64, len(ls))
	for k := 0; k < rounds; k++ {
		if c.Model {
			m.InitLayers()
		} else {
			for _, l := range ls {
				l.Init()
			}
		}
		in := c.In
		for i, l := range ls {
			s := c.Layers[i]
			what := fmt.Sprintf("layer %d (%s %dx%d), round %d", i, layerNames[s.Kind], in, s.Out, k)
			slope, drop := F(0), F(0)
			if s.Kind == ref.Leaky {
				slope = s.Slope
			}
			if s.Kind == ref.Dropout {
				drop = s.Drop
			}
			if l.In() != in || l.Out() != s.Out || !sameBits(l.Slope(), float64(slope)) || !sameBits(l.Drop(), float64(drop)) {
				return fmt.Errorf("%s: became %dx%d with slope %v and dropout rate %v", what, l.In(), l.Out(), l.Slope(), l.Drop())
			}
			if err := unchanged(what+": biases", *l.B(), 1, s.Out, s.B.Vals()); err != nil {
				return err
			}
			w, err := vals(*l.W())
			if err != nil || l.W().Rows != in || l.W().Cols != s.Out {
				return fmt.Errorf("%s: weights are %dx%d (%v)", what, l.W().Rows, l.W().Cols, err)
			}
			z := make([]float64, len(w))
			for j, v := range w {
				if !isFinite(v) {
					return fmt.Errorf("%s: weight %v", what, v)
				}
				z[j] = v / math.Sqrt(2/float64(in))
			}
			if len(z) >= 4 && last[i] != nil {
				same := true
				for j := range z {
					same = same && z[j] == last[i][j]
				}
				if same {
					return fmt.Errorf("%s: initialising again gives the same weights", what)
				}
			}
			if last[i] != nil && k < 3 {
				if err := uncorrelated(what+" against the round before", z, last[i]); err != nil {
					return err
				}
			}
			for j := 0; j < i && k < 3; j++ {
				n := min(len(z), len(last[j]))
				if n >= 4 {
					same := true
					for q := 0; q < n; q++ {
						same = same && z[q] == last[j][q]
					}
					if same {
						return fmt.Errorf("%s: same weights as layer %d", what, j)
					}
				}
				if err := uncorrelated(fmt.Sprintf("%s against layer %d", what, j), z[:n], last[j][:n]); err != nil {
					return err
				}
			}
			if k < 3 {
				for _, lag := range []int{1, 2, s.Out, s.Out + 1, len(z) / 2} {
					if lag > 0 && lag < len(z) {
						if err := uncorrelated(fmt.Sprintf("%s: weights %d apart", what, lag), z[lag:], z[:len(z)-lag]); err != nil {
							return err
						}
					}
				}
				// By rows and columns: none stands out.
				if len(z) >= 200 {
					for q := 0; q < in; q++ {
						if err := bandOK(z[q*s.Out : (q+1)*s.Out]); err != nil {
							return fmt.Errorf("%s: row %d: %w", what, q, err)
						}
					}
					for q := 0; q < s.Out; q++ {
						var col []float64
						for p := 0; p < in; p++ {
							col = append(col, z[p*s.Out+q])
						}
						if err := bandOK(col); err != nil {
							return fmt.Errorf("%s: column %d: %w", what, q, err)
						}
					}
				}
			}
			last[i] = z
			all[i] = append(all[i], z...)
			in = s.Out
		}
	}
	judged := 0
	for i, z := range all {
		if len(z) < 400 {
			continue
		}
		judged++
		if err := standardNormal(fmt.Sprintf("layer %d (%s %dx%d)", i, layerNames[c.Layers[i].Kind], ls[i].In(), ls[i].Out()), z); err != nil {
			return err
		}
		o.Class(layerNames[c.Layers[i].Kind])
	}
	if judged > 0 {
		o.NT()
	}
	o.ClassIf(c.Model, "through the model")
	return nil
}

// bandOK judges a small set of standard normal values by its mean and its mean square.
func bandOK(z []float64) error {
	n := float64(len(z))
	var s, q float64
	for _, v := range z {
		s += v
		q += v * v
	}
	if math.Abs(s) > 8.5*math.Sqrt(n) {
		return fmt.Errorf("mean of %d scaled weights is %v", len(z), s/n)
	}
	// Chi-square bounds at about one in 10^13 (Laurent and Massart).
	const x = 30
	if q > n+2*math.Sqrt(n*x)+2*x || q < n-2*math.Sqrt(n*x) {
		return fmt.Errorf("mean square of %d scaled weights is %v", len(z), q/n)
	}
	return nil
}

func init() {
	register("P21",
		Sub[shuffleCase]{Name: "pairs", Quick: 20000, Thorough: 300000, Gen: genShuffle, Check: checkShuffle,
			Rule: "datasets of 1 to 4097 rows with any values, duplicate rows and targets that are the samples themselves, shuffled up to four times over: the multiset of row pairs must stay the same to the bit and, from 30 distinct rows on, the order must differ from all before. Non-trivial: more than one row."},
		Sub[fairCase]{Name: "fair", Quick: 64, Thorough: 800, Check: checkFair,
			Gen: func(t *rapid.T) fairCase {
				c := fairCase{Rows: rapid.IntRange(2, 5).Draw(t, "rows"), Times: sample(t, "times", []int{3000, 5000}), Chain: rapid.Bool().Draw(t, "chain"), Same: chance(t, "same", 1, 4)}
				if rapid.Bool().Draw(t, "more") {
					c.Rows = sample(t, "rows", []int{6, 8, 12, 13, 17, 40, 100, 200})
					c.Times = 2000
				}
				return c
			},
			Rule: "thousands of shuffles of one dataset size: where each row (or part of the rows) lands, how many rows stay, and with up to four rows how often each order comes up must all lie within seven standard deviations of the uniform distribution. Non-trivial: more than one row."},
		Sub[placeCase]{Name: "places", Quick: 24, Thorough: 400, Flat: true, Check: checkPlaces,
			Gen: func(t *rapid.T) placeCase {
				c := placeCase{Rows: rapid.IntRange(3, 20).Draw(t, "rows"), Cols: rapid.IntRange(1, 3).Draw(t, "cols"), Chain: rapid.Bool().Draw(t, "chain")}
				switch rapid.IntRange(0, 2).Draw(t, "size") {
				case 0:
					c.Rows = sample(t, "rows", []int{16, 32, 50, 64, 96, 100, 128, 192, 200, 255, 256})
				case 1:
					c.Rows = rapid.IntRange(21, 300).Draw(t, "rows")
				}
				if chance(t, "large", 1, 8) {
					c.Rows = sample(t, "rows", []int{512, 500, 384})
				}
				c.Times = 50 * c.Rows
				return c
			},
			Rule: "fifty times as many shuffles as there are rows (3 to 512): every single row stays, and moves down one place, at least once and not far more often than expected, and the first and the last row land in either half and at either end as often as expected. All cases are non-trivial."})
	register("P22", Sub[initCase]{Name: "weights", Quick: 1600, Thorough: 25000, Gen: genInit, Check: checkInit,
		Rule: "chains of one to five layers of all kinds with 1 to 257 inputs and outputs, fresh or used, initialised at least twice, directly or through the model: sizes, biases, slopes and rates must stay, weights are judged by moments, Kolmogorov distance, correlations within and between layers and rounds, per row and column, at eight standard deviations. Non-trivial: a layer with at least 400 weights drawn."})
}
