package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	mathbits "math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// F is a float64 that survives JSON with all its bits.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	switch {
	case math.IsNaN(v):
		if math.Float64bits(v) != math.Float64bits(math.NaN()) {
			return []byte(fmt.Sprintf(`"bits:%016x"`, math.Float64bits(v))), nil
		}
		return []byte(`"NaN"`), nil
	case math.IsInf(v, 1):
		return []byte(`"+Inf"`), nil
	case math.IsInf(v, -1):
		return []byte(`"-Inf"`), nil
	case v == 0 && math.Signbit(v):
		return []byte(`"-0"`), nil
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if len(b) > 0 && b[0] == '"' {
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
	} else {
		s = string(b)
	}
	if strings.HasPrefix(s, "bits:") {
		u, err := strconv.ParseUint(s[5:], 16, 64)
		*f = F(math.Float64frombits(u))
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return err
	}
	*f = F(v)
	return nil
}

// rng expands a drawn seed into many values.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *rng) unit() float64 { return float64(r.next()>>11) / (1 << 53) }
func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) norm() float64 {
	u, v := 1-r.unit(), r.unit()
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}
func (r *rng) sign() float64 {
	if r.next()&1 == 0 {
		return -1
	}
	return 1
}

var specials = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 2, -2, math.Inf(1), math.Inf(-1), math.NaN(),
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e-310, -1e-310, 1e308, -1e308, 1e-7, 1 - 1e-7, math.Pi, 1e16, 3, 10}

var probEdges = []float64{0, 1, 0.5, 1e-7, 1 - 1e-7, 9.9e-8, 1 - 9e-8, 1.1e-7, 1 - 1.1e-7, 1e-12, 1e-300, math.SmallestNonzeroFloat64,
	math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), math.Nextafter(1, 0)}

// Texts that the files of models have a meaning for, should a search look for them in the wrong place.
var wordy = []string{"NNML1.0.", "NNMLNNML", "xNNML1.0", "LA\x00\x01\x00\x00\x00\x01", "LALALALA", "xxLA\x02\x01\x00\x00", "decaydec", "\xff\xff\xff\xff\xff\xff\xff\xff", "\r\n\r\n\r\n\x1a\x04", "\x89PNG\r\n\x1a\n"}

// anyBits makes any 64 bits, those of NaNs among them.
func (r *rng) anyBits() uint64 {
	switch r.intn(6) {
	case 0: // a NaN of either sign, quiet or not
		return 0x7ff<<52 | r.next()&1<<63 | uint64(r.intn(2))<<51 | r.next()>>12>>uint(r.intn(52)) | 1
	case 1:
		return math.Float64bits(specials[r.intn(len(specials))])
	case 2:
		return binary.LittleEndian.Uint64([]byte(wordy[r.intn(len(wordy))]))
	}
	return r.next()
}

// cell makes one value of a kind.
func (r *rng) cell(kind string) float64 {
	switch kind {
	case "zero":
		return 0
	case "grid":
		return float64(r.intn(17)-8) / 4
	case "int":
		return float64(r.intn(7) - 3)
	case "mix":
		if r.intn(6) == 0 {
			return float64(r.intn(9)-4) / 4
		}
		return r.norm()
	case "norm":
		return r.norm()
	case "w":
		return r.norm() * 0.7
	case "unit":
		return r.sign() * (0.8 + 0.4*r.unit())
	case "pos":
		return 0.1 + 2*r.unit()
	case "prob":
		if r.intn(3) == 0 {
			return probEdges[r.intn(len(probEdges))]
		}
		return r.unit()
	case "probmid":
		return 0.02 + 0.96*r.unit()
	case "bin":
		return float64(r.intn(2))
	case "half":
		return float64(r.intn(3)) / 2
	case "big":
		return r.sign() * math.Pow(10, 4*r.unit())
	case "hundreds":
		return r.norm() * 800
	case "huge":
		return r.sign() * math.Pow(10, 250*r.unit())
	case "wide":
		return r.sign() * math.Pow(10, 40*r.unit()-20)
	case "tiny":
		return r.sign() * math.Pow(10, -300*r.unit())
	case "bits":
		return math.Float64frombits(r.anyBits())
	case "special":
		if r.intn(3) == 0 {
			return r.norm()
		}
		if r.intn(4) == 0 {
			v := math.Float64frombits(r.next())
			if math.IsNaN(v) {
				v = math.NaN()
			}
			return v
		}
		return specials[r.intn(len(specials))]
	}
	panic("unknown kind " + kind)
}

func drawCell(t *rapid.T, kind string) F {
	switch kind {
	case "grid":
		return F(rapid.IntRange(-8, 8).Draw(t, "q")) / 4
	case "int":
		return F(rapid.IntRange(-3, 3).Draw(t, "i"))
	case "bin":
		return F(rapid.IntRange(0, 1).Draw(t, "b"))
	case "zero":
		return 0
	}
	r := &rng{rapid.Uint64().Draw(t, "cell")}
	if r.s < 16 { // what shrinking ends up with
		switch kind {
		case "mix", "norm", "w", "special", "bits", "big", "huge", "wide", "tiny":
			return F(float64(r.s)/2 - 1)
		}
	}
	return F(r.cell(kind))
}

// Mat describes a matrix: small ones value by value, larger ones by a seed.
type Mat struct {
	R, C int
	V    []F    `json:",omitempty"`
	Kind string `json:",omitempty"`
	Seed uint64 `json:",omitempty"`
}

func drawMat(t *rapid.T, label string, rows, cols int, kind string) Mat {
	m := Mat{R: rows, C: cols}
	switch kind {
	case "onehot", "dist":
		m.Kind, m.Seed = kind, rapid.Uint64Range(1, 1<<40).Draw(t, label)
		return m
	}
	if rows*cols <= 8 {
		m.V = make([]F, rows*cols)
		for i := range m.V {
			m.V[i] = drawCell(t, kind)
		}
		return m
	}
	m.Kind, m.Seed = kind, rapid.Uint64Range(1, 1<<40).Draw(t, label)
	return m
}

// Vals gives the values row by row, in a fresh slice.
func (m Mat) Vals() []float64 {
	o := make([]float64, m.R*m.C)
	if m.V != nil {
		for i, v := range m.V {
			o[i] = float64(v)
		}
		return o
	}
	r := &rng{m.Seed}
	r.next()
	switch m.Kind {
	case "":
	case "onehot":
		for i := 0; i < m.R; i++ {
			o[i*m.C+r.intn(m.C)] = 1
		}
	case "dist":
		for i := 0; i < m.R; i++ {
			s := 0.0
			for j := 0; j < m.C; j++ {
				o[i*m.C+j] = math.Exp(2 * r.norm())
				s += o[i*m.C+j]
			}
			for j := 0; j < m.C; j++ {
				o[i*m.C+j] /= s
			}
		}
	default:
		for i := range o {
			o[i] = r.cell(m.Kind)
		}
	}
	return o
}

// NN makes the library's matrix, out of storage of its own.
func (m Mat) NN() nn.Matrix { return mk(m.R, m.C, m.Vals()) }

// Ref makes the reference's matrix.
func (m Mat) Ref() ref.Mat { return ref.FromFloats(m.R, m.C, m.Vals()) }

// guards watch over what lies in memory behind the matrices of the case being tried.
var guards struct {
	sync.Mutex
	tails [][]float64
	spare [][][]float64
}

const guardValue = 0x1.8p+77

// resetGuards forgets the matrices of earlier cases.
func resetGuards() {
	guards.Lock()
	guards.tails, guards.spare = nil, nil
	guards.Unlock()
}

// checkGuards reports writes beyond the ends of rows and matrices.
func checkGuards() error {
	guards.Lock()
	defer guards.Unlock()
	for _, t := range guards.tails {
		for _, v := range t {
			if v != guardValue {
				return fmt.Errorf("the memory behind the last row of a matrix was overwritten with %v", v)
			}
		}
	}
	for _, s := range guards.spare {
		if len(s[0]) != 1 || s[0][0] != guardValue {
			return fmt.Errorf("the row behind the last row of a matrix was replaced")
		}
	}
	return nil
}

// mk makes a matrix. Its rows have storage of their own, or, depending on the content, lie one after the
// other in one block, as the rows of a part of a larger dataset do.
func mk(rows, cols int, v []float64) nn.Matrix {
	s := make([][]float64, rows, rows+1)
	mode := 0
	if len(v) > 0 {
		mode = int((&rng{math.Float64bits(v[0]) ^ uint64(rows*31+cols)}).next() % 3)
	}
	switch mode {
	case 0:
		for i := range s {
			s[i] = append([]float64(nil), v[i*cols:(i+1)*cols]...)
		}
	default:
		buf := make([]float64, rows*cols+2)
		tail := buf[rows*cols:]
		tail[0], tail[1] = guardValue, guardValue
		for i := range s {
			at := i
			if mode == 2 {
				at = rows - 1 - i
			}
			s[i] = buf[at*cols : (at+1)*cols]
			copy(s[i], v[i*cols:(i+1)*cols])
		}
		spare := s[rows : rows+1]
		spare[0] = []float64{guardValue}
		guards.Lock()
		guards.tails = append(guards.tails, tail)
		guards.spare = append(guards.spare, spare)
		guards.Unlock()
	}
	m, err := nn.NewMatrixFromSlice(s)
	if err != nil {
		panic(fmt.Sprintf("cannot make a %dx%d matrix: %v", rows, cols, err))
	}
	return m
}

// ownCells overwrites every cell of a matrix with a value of its own and says whether they are different cells.
func ownCells(m nn.Matrix) error {
	n := 12345.678
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = n
			n++
		}
	}
	if !ownCellsKept(m) {
		return fmt.Errorf("two cells of the %dx%d result are one: writing to one changes the other", m.Rows, m.Cols)
	}
	return nil
}

// ownCellsKept says whether the values of ownCells are still there.
func ownCellsKept(m nn.Matrix) bool {
	n := 12345.678
	for i := range m.M {
		for j := range m.M[i] {
			if m.M[i][j] != n {
				return false
			}
			n++
		}
	}
	return true
}

// vals copies a library matrix's cells out, checking that it is well formed.
func vals(m nn.Matrix) ([]float64, error) {
	if len(m.M) != m.Rows {
		return nil, fmt.Errorf("malformed matrix: %d rows but %d slices", m.Rows, len(m.M))
	}
	o := make([]float64, 0, m.Rows*m.Cols)
	for i, r := range m.M {
		if len(r) != m.Cols {
			return nil, fmt.Errorf("malformed matrix: row %d has %d cells, not %d", i, len(r), m.Cols)
		}
		o = append(o, r...)
	}
	return o, nil
}

func toRef(m nn.Matrix) (ref.Mat, error) {
	v, err := vals(m)
	if err != nil {
		return ref.Mat{}, err
	}
	return ref.FromFloats(m.Rows, m.Cols, v), nil
}

func mustRef(m nn.Matrix) ref.Mat {
	r, err := toRef(m)
	if err != nil {
		panic(err)
	}
	return r
}

func sameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// sameBits is equality that tells -0 from 0 and equates NaNs.
func sameBits(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// unchanged compares a library matrix with the values it should hold.
func unchanged(what string, m nn.Matrix, rows, cols int, want []float64) error {
	if m.Rows != rows || m.Cols != cols {
		return fmt.Errorf("%s: size is %dx%d, want %dx%d", what, m.Rows, m.Cols, rows, cols)
	}
	got, err := vals(m)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for i := range got {
		if !sameBits(got[i], want[i]) {
			return fmt.Errorf("%s: cell (%d,%d) is %v, want %v", what, i/cols, i%cols, got[i], want[i])
		}
	}
	return nil
}

func (m Mat) unchanged(what string, x nn.Matrix) error {
	return unchanged(what+" was changed", x, m.R, m.C, m.Vals())
}

// admits compares a library matrix with a reference result.
func admits(what string, got nn.Matrix, want ref.Mat, o *Obs) error {
	if got.Rows != want.R || got.Cols != want.C {
		return fmt.Errorf("%s: size is %dx%d, want %dx%d", what, got.Rows, got.Cols, want.R, want.C)
	}
	v, err := vals(got)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for i, w := range want.A {
		if !w.Admits(v[i]) {
			return fmt.Errorf("%s: cell (%d,%d) is %v, want %v (+-%.3g)", what, i/want.C, i%want.C, v[i], w.V, w.E)
		}
	}
	if o != nil {
		o.Aside(want.LooseCount())
	}
	return nil
}

// dims

func drawDim(t *rapid.T, label string, most int) int {
	if large != nil {
		return large.draw(t, label)
	}
	hi := 4
	switch rapid.IntRange(0, 15).Draw(t, label+"Class") {
	case 12, 13:
		hi = 12
	case 14:
		hi = 40
	case 15:
		hi = most
	}
	if hi > most {
		hi = most
	}
	return rapid.IntRange(1, hi).Draw(t, label)
}

// drawFew draws a small number, unless the case is to have large dimensions.
func drawFew(t *rapid.T, label string, most int) int {
	if large != nil {
		return large.draw(t, label)
	}
	return rapid.IntRange(1, most).Draw(t, label)
}

var magic = []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257}

// drawBigDim also reaches the sizes at which blocked or buffered code changes its ways.
func drawBigDim(t *rapid.T, label string, most int) int {
	if large != nil {
		return large.draw(t, label)
	}
	if rapid.IntRange(0, 3).Draw(t, label+"Magic") == 3 {
		n := len(magic)
		for magic[n-1] > most {
			n--
		}
		return sample(t, label, magic[:n])
	}
	return drawDim(t, label, most)
}

// largeDims makes one of the dimensions of a case large and keeps the others small. The large ones
// lie around the sizes at which blocks, buffers and narrow integers end.
type largeDims struct {
	most int
	used bool

	// For several large dimensions: what their product may still be, and was to be at first.
	budget, total int
	least, hi     int // of each dimension, once the first was drawn
}

// atMost is a limit on the size of a case, which those that are to be large need not keep.
func atMost(n int) int {
	if large != nil {
		return max(n, 300000, large.total)
	}
	return n
}

// large is set while a case of a "large" sub-check is drawn.
var large *largeDims

var largeMagic = []int{300, 320, 384, 400, 500, 511, 512, 513, 600, 640, 767, 768, 777, 999, 1000, 1001, 1023, 1024, 1025, 1280, 1500, 1536,
	2000, 2047, 2048, 2049, 2500, 3000, 4000, 4095, 4096, 4097, 5000, 6144, 8000, 8191, 8192, 8193, 10000, 12000, 16384, 16385, 20000,
	32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000}

var broadMagic = []int{33, 64, 65, 100, 127, 128, 129, 192, 200, 255, 256, 257, 258, 300, 320, 384, 500, 511, 512, 513, 600, 784, 1000, 1023, 1024, 1025}

// drawBroad makes most dimensions large: in a quarter of the cases all that the budget has room for.
func (l *largeDims) drawBroad(t *rapid.T, label string) int {
	if l.least == 0 {
		l.least, l.hi = 33, l.most
		if chance(t, label+"Top", 1, 4) {
			for _, least := range []int{513, 257, 129} {
				if least <= l.most*9/10 && least*least <= l.total*9/10 && (least == 129 || rapid.Bool().Draw(t, label+"Least")) {
					hi := int(math.Sqrt(float64(l.total)))
					if c := int(math.Cbrt(float64(l.total))); c > least {
						hi = c
					}
					l.least, l.hi = least, min(hi, l.most)
					break
				}
			}
		}
	}
	n := rapid.IntRange(1, 3).Draw(t, label)
	if hi := min(l.hi, l.budget); hi >= l.least && (l.least > 33 || !chance(t, label+"Small", 1, 6)) {
		if from, to := sort.SearchInts(broadMagic, l.least), sort.SearchInts(broadMagic, hi+1); from < to && rapid.Bool().Draw(t, label+"Magic") {
			n = sample(t, label, broadMagic[from:to])
		} else {
			n = logUniform(t, label, l.least, hi)
		}
	}
	l.budget /= n
	return n
}

func (l *largeDims) draw(t *rapid.T, label string) int {
	if l.budget > 0 {
		return l.drawBroad(t, label)
	}
	if !l.used && rapid.Bool().Draw(t, label+"Large") {
		l.used = true
		if rapid.Bool().Draw(t, label+"Magic") {
			n := len(largeMagic)
			for n > 1 && largeMagic[n-1] > l.most {
				n--
			}
			return sample(t, label, largeMagic[:n])
		}
		return logUniform(t, label, 131, min(9000, l.most))
	}
	return rapid.IntRange(1, 3).Draw(t, label)
}

// uniform draws a number from 0 to n-1, each as likely as the others: rapid's own integers (and with
// them its choices from lists) favour the small ones, its floating-point numbers very much so.
func uniform(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := mathbits.Len(uint(n - 1))
	if n != 1<<k {
		k += 5
	}
	v := uint64(0)
	for i := 0; i < k; i++ {
		v <<= 1
		if coin.Draw(t, label) {
			v |= 1
		}
	}
	return int(v * uint64(n) >> k)
}

var coin = rapid.Bool()

func uniformIn(t *rapid.T, label string, lo, hi float64) float64 {
	return lo + (hi-lo)*float64(uniform(t, label, 1<<20))/(1<<20-1)
}

// logUniform draws a number from lo to hi, every order of magnitude as likely as the others.
func logUniform(t *rapid.T, label string, lo, hi int) int {
	return max(lo, min(hi, int(math.Exp(uniformIn(t, label, math.Log(float64(lo)), math.Log(float64(hi)+1))))))
}

func sample[T any](t *rapid.T, label string, opts []T) T {
	return opts[uniform(t, label, len(opts))]
}

func pick(t *rapid.T, label string, opts ...string) string {
	return sample(t, label, opts)
}

func chance(t *rapid.T, label string, num, of int) bool {
	return uniform(t, label, of) >= of-num
}

// Layers

var layerNames = []string{"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout"}

// LayerSpec describes a layer with its parameters.
type LayerSpec struct {
	Kind        int
	In, Out     int
	Slope, Drop F `json:",omitempty"`
	W, B        Mat
}

// Lib is a layer of the library with the fields all kinds have.
type Lib struct {
	nn.Layer
	W, B    func() *nn.Matrix
	In, Out func() int
	Slope   func() float64
	Drop    func() float64
	Kind    int
}

func none() float64 { return 0 }

// wrap gives access to the exported fields of a library layer.
func wrap(l nn.Layer) Lib {
	switch x := l.(type) {
	case *nn.HiddenLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, none, none, ref.Hidden}
	case *nn.LinearLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, none, none, ref.Linear}
	case *nn.SigmoidLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, none, none, ref.Sigmoid}
	case *nn.LeakyLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, func() float64 { return x.Slope }, none, ref.Leaky}
	case *nn.SoftmaxLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, none, none, ref.Softmax}
	case *nn.DropoutLayer:
		return Lib{l, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }, func() int { return x.InputSize }, func() int { return x.OutputSize }, none, func() float64 { return x.Dropout }, ref.Dropout}
	}
	panic(fmt.Sprintf("unknown layer type %T", l))
}

// put replaces the parameter matrices themselves (nil: leave as it is).
func (l Lib) put(w, b *nn.Matrix) {
	var pw, pb **nn.Matrix
	switch x := l.Layer.(type) {
	case *nn.HiddenLayer:
		pw, pb = &x.Weights, &x.Biases
	case *nn.LinearLayer:
		pw, pb = &x.Weights, &x.Biases
	case *nn.SigmoidLayer:
		pw, pb = &x.Weights, &x.Biases
	case *nn.LeakyLayer:
		pw, pb = &x.Weights, &x.Biases
	case *nn.SoftmaxLayer:
		pw, pb = &x.Weights, &x.Biases
	case *nn.DropoutLayer:
		pw, pb = &x.Weights, &x.Biases
	}
	if w != nil {
		*pw = w
	}
	if b != nil {
		*pb = b
	}
}

// newLayer makes a fresh library layer.
func newLayer(kind, in, out int, slope, drop float64) (nn.Layer, error) {
	switch kind {
	case ref.Hidden:
		l, err := nn.NewLayer(in, out)
		return &l, err
	case ref.Linear:
		l, err := nn.NewLinearLayer(in, out)
		return &l, err
	case ref.Sigmoid:
		l, err := nn.NewSigmoidLayer(in, out)
		return &l, err
	case ref.Leaky:
		l, err := nn.NewLeakyLayer(in, out, slope)
		return &l, err
	case ref.Softmax:
		l, err := nn.NewSoftmaxLayer(in, out)
		return &l, err
	case ref.Dropout:
		l, err := nn.NewDropoutLayer(in, out, drop)
		return &l, err
	}
	panic("unknown kind")
}

func setMat(m *nn.Matrix, v []float64) {
	for i := 0; i < m.Rows; i++ {
		for j := 0; j < m.Cols; j++ {
			if err := m.Set(i, j, v[i*m.Cols+j]); err != nil {
				panic(err)
			}
		}
	}
}

// Build makes the library's layer.
func (s LayerSpec) Build() Lib {
	l, err := newLayer(s.Kind, s.In, s.Out, float64(s.Slope), float64(s.Drop))
	if err != nil {
		panic(fmt.Sprintf("layer refused: %v", err))
	}
	x := wrap(l)
	setMat(x.W(), s.W.Vals())
	setMat(x.B(), s.B.Vals())
	return x
}

// Ref makes the reference's layer.
func (s LayerSpec) Ref() *ref.Layer {
	return &ref.Layer{Kind: s.Kind, W: s.W.Ref(), B: s.B.Ref(), Slope: float64(s.Slope)}
}

func (s LayerSpec) paramsUnchanged(l Lib) error {
	if err := s.W.unchanged("weights", *l.W()); err != nil {
		return err
	}
	return s.B.unchanged("biases", *l.B())
}

// eval is a forward pass without dropout.
func (l Lib) eval(x nn.Matrix) (nn.Matrix, error) {
	if d, ok := l.Layer.(*nn.DropoutLayer); ok {
		return d.ForwardNoDropout(x)
	}
	return l.Layer.Forward(x)
}

func drawSlope(t *rapid.T) F {
	switch rapid.IntRange(0, 7).Draw(t, "slopeClass") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return F(sample(t, "slope", []float64{0.01, 0.1, 0.5, 2, 5, 1e-9}))
	case 3:
		return F(uniformIn(t, "slope", 1, 20))
	}
	return F(uniformIn(t, "slope", 0.001, 0.9))
}

func drawDrop(t *rapid.T) F {
	switch rapid.IntRange(0, 5).Draw(t, "dropClass") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return F(sample(t, "drop", []float64{0.5, 0.1, 0.2, 0.25, 0.75, 0.9, 0.01, 0.99}))
	}
	return F(uniformIn(t, "drop", 0.02, 0.98))
}

func drawLayer(t *rapid.T, kind, in, out int, wKind, bKind string) LayerSpec {
	s := LayerSpec{Kind: kind, In: in, Out: out}
	if kind == ref.Leaky {
		s.Slope = drawSlope(t)
	}
	if kind == ref.Dropout {
		s.Drop = drawDrop(t)
	}
	s.W = drawMat(t, "W", in, out, wKind)
	s.B = drawMat(t, "B", 1, out, bKind)
	return s
}

// Optimizers

// OptSpec describes an optimizer.
type OptSpec struct {
	Adam                  bool
	LR, Decay             F
	Momentum              F `json:",omitempty"`
	Epsilon, Beta1, Beta2 F `json:",omitempty"`
}

func (s OptSpec) Build() nn.Optimizer {
	if s.Adam {
		o, err := nn.NewAdamOptimizer(float64(s.LR), float64(s.Decay), float64(s.Epsilon), float64(s.Beta1), float64(s.Beta2))
		if err != nil {
			panic(err)
		}
		return &o
	}
	o, err := nn.NewSGDOptimizer(float64(s.LR), float64(s.Decay), float64(s.Momentum))
	if err != nil {
		panic(err)
	}
	return &o
}

func (s OptSpec) Ref() *ref.Opt {
	return &ref.Opt{Adam: s.Adam, LR: float64(s.LR), Decay: float64(s.Decay), Momentum: float64(s.Momentum),
		Eps: float64(s.Epsilon), Beta1: float64(s.Beta1), Beta2: float64(s.Beta2)}
}

// Values is what the library keeps as the optimizer's settings.
func (s OptSpec) Values() map[string]float64 {
	if s.Adam {
		return map[string]float64{"learningRate": float64(s.LR), "decay": float64(s.Decay), "epsilon": float64(s.Epsilon), "beta1": float64(s.Beta1), "beta2": float64(s.Beta2)}
	}
	return map[string]float64{"learningRate": float64(s.LR), "decay": float64(s.Decay), "momentum": float64(s.Momentum)}
}

// drawOpt draws hyperparameters that keep training tame; wild covers the rest of what is accepted.
func drawOpt(t *rapid.T, adam, wild bool) OptSpec {
	s := OptSpec{Adam: adam}
	s.LR = F(sample(t, "lr", []float64{0.1, 0.01, 0.05, 0.001, 0.5, 0.3}))
	if chance(t, "lrAny", 1, 3) {
		s.LR = F(uniformIn(t, "lr", 1e-4, 0.4))
	}
	if chance(t, "decays", 1, 2) {
		s.Decay = F(sample(t, "decay", []float64{1e-3, 0.1, 0.5, 1, 1e-5, 5e-7, 3, 1e-9, 2e-11}))
	}
	if wild && chance(t, "wildLR", 1, 6) {
		s.LR = F(sample(t, "lr", []float64{1, 10, 1e3, 1e-12, 1e-300}))
	}
	if adam {
		s.Epsilon = F(sample(t, "eps", []float64{1e-7, 1e-8, 1e-3, 0.1, 1, 1e-10}))
		s.Beta1 = F(sample(t, "beta1", []float64{0.9, 0.5, 0, 0.99, 0.8, 0.1}))
		s.Beta2 = F(sample(t, "beta2", []float64{0.999, 0.9, 0.5, 0, 0.99, 0.3}))
		if wild && chance(t, "wildAdam", 1, 4) {
			s.Epsilon = F(sample(t, "eps", []float64{0, 1e-300, 1e3, -0.5, 1e-16}))
			s.Beta1 = F(sample(t, "beta1", []float64{0.9, -0.5, 0.999999999, 1, 1.5, 1e-9}))
			s.Beta2 = F(sample(t, "beta2", []float64{0.999, 0.5, 0.999999999, 1, 1.5, 1e-9}))
		}
	} else if chance(t, "momentum?", 1, 2) {
		s.Momentum = F(sample(t, "momentum", []float64{0.9, 0.5, 0.1, 0.99}))
		if wild {
			s.Momentum = F(sample(t, "momentum", []float64{0.9, 0.5, 0.1, 1, 1.1, 1e-3, 1e-7}))
		}
	}
	return s
}

// Models

var lossNames = []string{"mse", "mae", "ce", "bce"}

func newLoss(kind, size int) (nn.Loss, error) {
	switch kind {
	case ref.MSE:
		l, err := nn.NewMeanSquaredLoss(size)
		return &l, err
	case ref.MAE:
		l, err := nn.NewMeanAbsoluteLoss(size)
		return &l, err
	case ref.CE:
		l, err := nn.NewCrossEntropyLoss(size)
		return &l, err
	case ref.BCE:
		l, err := nn.NewBinaryCrossEntropyLoss(size)
		return &l, err
	}
	panic("unknown loss")
}

func mustLoss(kind, size int) nn.Loss {
	l, err := newLoss(kind, size)
	if err != nil {
		panic(err)
	}
	return l
}

// ModelSpec describes a model with its parameters.
type ModelSpec struct {
	Layers []LayerSpec
	Loss   int
	Acc    int
	Prec   F
	Opt    OptSpec
}

func (s ModelSpec) In() int         { return s.Layers[0].In }
func (s ModelSpec) Out() int        { return s.Layers[len(s.Layers)-1].Out }
func (s ModelSpec) Last() LayerSpec { return s.Layers[len(s.Layers)-1] }

func (s ModelSpec) has(kind int) bool {
	for _, l := range s.Layers {
		if l.Kind == kind {
			return true
		}
	}
	return false
}

// Build makes the library's model.
func (s ModelSpec) Build() *nn.Model {
	m := nn.NewModel()
	for _, l := range s.Layers {
		if err := m.AddLayer(l.Build().Layer); err != nil {
			panic(fmt.Sprintf("layer refused: %v", err))
		}
	}
	if err := m.Finalize(mustLoss(s.Loss, s.Out()), s.Opt.Build(), nn.AccuracyType(s.Acc), float64(s.Prec)); err != nil {
		panic(fmt.Sprintf("model refused: %v", err))
	}
	return &m
}

// Ref makes the reference's model.
func (s ModelSpec) Ref() *ref.Model {
	m := &ref.Model{Loss: s.Loss}
	for _, l := range s.Layers {
		m.Layers = append(m.Layers, l.Ref())
		m.Opts = append(m.Opts, s.Opt.Ref())
	}
	return m
}

func libs(m *nn.Model) []Lib {
	var o []Lib
	for _, l := range m.Layers {
		o = append(o, wrap(l))
	}
	return o
}

// params copies all parameters of a model out.
func params(m *nn.Model) [][]float64 {
	var o [][]float64
	for _, l := range libs(m) {
		w, err := vals(*l.W())
		if err != nil {
			panic(err)
		}
		b, err := vals(*l.B())
		if err != nil {
			panic(err)
		}
		o = append(o, w, b)
	}
	return o
}

func sameParams(what string, a, b [][]float64) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d parameter matrices, want %d", what, len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Errorf("%s: layer %d has %d values, want %d", what, i/2, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			if !sameBits(a[i][j], b[i][j]) {
				return fmt.Errorf("%s: layer %d %s[%d] is %v, want %v", what, i/2, []string{"weights", "biases"}[i%2], j, a[i][j], b[i][j])
			}
		}
	}
	return nil
}

// diverged says that training has left the range in which results are judged.
func diverged(r *ref.Model) bool {
	for _, l := range r.Layers {
		for _, m := range []ref.Mat{l.W, l.B} {
			for _, a := range m.A {
				if !(math.Abs(a.V) < 1e60) {
					return true
				}
			}
		}
	}
	return false
}

// admitsParams compares all parameters with the reference's.
func admitsParams(what string, m *nn.Model, r *ref.Model, o *Obs) error {
	if diverged(r) {
		if o != nil {
			o.Aside(1)
		}
		return nil
	}
	for i, l := range libs(m) {
		if err := admits(fmt.Sprintf("%s: layer %d weights", what, i), *l.W(), r.Layers[i].W, o); err != nil {
			return err
		}
		if err := admits(fmt.Sprintf("%s: layer %d biases", what, i), *l.B(), r.Layers[i].B, o); err != nil {
			return err
		}
	}
	return nil
}

func looseParams(r *ref.Model) int {
	n := 0
	if diverged(r) {
		n++
	}
	for _, l := range r.Layers {
		n += l.W.LooseCount() + l.B.LooseCount()
	}
	return n
}

// arch says how to draw models.
type arch struct {
	maxLayers, maxDim int
	dropout           string // "none", "fixed" (rates 0 and 1), "any"
	wild              bool
	kinds             []int // hidden kinds allowed, default all
}

// deep is set while a case of a "deep" sub-check is drawn: models of many small layers.
var deep *deepModels

type deepModels struct{ most int }

var deepMagic = []int{15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 600}

func (d *deepModels) draw(t *rapid.T) int {
	if rapid.Bool().Draw(t, "deepMagic") {
		n := len(deepMagic)
		for n > 1 && deepMagic[n-1] > d.most {
			n--
		}
		return sample(t, "deep", deepMagic[:n])
	}
	return rapid.IntRange(7, min(d.most, 130)).Draw(t, "deep")
}

// drawModel draws a model whose loss suits its output layer.
func drawModel(t *rapid.T, a arch) ModelSpec {
	n := rapid.IntRange(1, a.maxLayers).Draw(t, "layers")
	loss := rapid.IntRange(0, 3).Draw(t, "loss")
	return drawModelWith(t, a, n, loss)
}

func drawModelWith(t *rapid.T, a arch, n, loss int) ModelSpec {
	s := ModelSpec{Loss: loss}
	wKind := "w"
	if deep != nil {
		n, a.maxDim = deep.draw(t), 2
		if rapid.Bool().Draw(t, "chain") {
			a.maxDim = 1
		}
		wKind = pick(t, "wKind", "unit", "unit", "w")
	}
	dim := func(l string) int { return drawDim(t, l, a.maxDim) }
	in := dim("in")
	hidden := a.kinds
	if hidden == nil {
		hidden = []int{ref.Hidden, ref.Linear, ref.Sigmoid, ref.Leaky, ref.Softmax}
		if a.dropout != "none" && a.dropout != "" {
			hidden = append(hidden, ref.Dropout)
		}
	}
	for i := 0; i < n; i++ {
		out := dim("out")
		var kind int
		if i < n-1 || loss == ref.MSE || loss == ref.MAE {
			kind = sample(t, "kind", hidden)
		} else if loss == ref.CE {
			kind = sample(t, "kind", []int{ref.Softmax, ref.Softmax, ref.Sigmoid})
		} else {
			kind = sample(t, "kind", []int{ref.Sigmoid, ref.Sigmoid, ref.Softmax})
		}
		l := drawLayer(t, kind, in, out, wKind, pick(t, "biasKind", "mix", "zero", "w"))
		if kind == ref.Dropout && a.dropout == "fixed" {
			l.Drop = F(sample(t, "drop", []float64{0, 0, 0, 1}))
		}
		s.Layers = append(s.Layers, l)
		in = out
	}
	s.Acc = rapid.IntRange(0, 2).Draw(t, "acc")
	s.Prec = F(sample(t, "prec", []float64{0.1, 0, 0.5, 1, 0.01}))
	s.Opt = drawOpt(t, rapid.Bool().Draw(t, "adam"), a.wild)
	return s
}

// targetKind is a kind of targets that suits the loss.
func targetKind(t *rapid.T, loss int) string {
	switch loss {
	case ref.CE:
		return "onehot"
	case ref.BCE:
		return pick(t, "targets", "bin", "probmid")
	}
	return pick(t, "targets", "mix", "norm")
}

// rowsOf copies some rows of a matrix description's values.
func rowsOf(m Mat, idx []int) nn.Matrix {
	v := m.Vals()
	o := make([]float64, 0, len(idx)*m.C)
	for _, i := range idx {
		o = append(o, v[i*m.C:(i+1)*m.C]...)
	}
	return mk(len(idx), m.C, o)
}

func seq(lo, hi int) []int {
	var o []int
	for i := lo; i < hi; i++ {
		o = append(o, i)
	}
	return o
}

func isFinite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}
