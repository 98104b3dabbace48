package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P19: the loaders on any bytes whatsoever.

type bytesCase struct {
	Data  string // base64
	Layer bool
	Must  string `json:",omitempty"` // why it must be refused
}

func (c bytesCase) bytes() []byte {
	b, err := base64.StdEncoding.DecodeString(c.Data)
	if err != nil {
		panic(err)
	}
	return b
}

// load loads from the bytes, watching what is allocated.
func load(b []byte, layer bool) (m *nn.Model, l nn.Layer, err error) {
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	if layer {
		l, err = nn.LoadLayer(buf)
	} else {
		var x nn.Model
		x, err = nn.LoadModel(buf)
		m = &x
	}
	runtime.ReadMemStats(&after)
	if got, most := after.TotalAlloc-before.TotalAlloc, uint64(1<<21+400*len(b)); got > most {
		return nil, nil, disproportion{fmt.Errorf("loading %d bytes allocates %d bytes", len(b), got)}
	}
	return
}

type disproportion struct{ error }

// usable checks that what was loaded can be evaluated, saved and loaded again.
func usable(m *nn.Model, o *Obs) error {
	b, err := saveModel(m)
	if err != nil {
		return fmt.Errorf("loaded model cannot be saved: %v", err)
	}
	again, err := loadModel(b)
	if err != nil {
		return fmt.Errorf("loaded model, saved again, cannot be loaded: %v", err)
	}
	if err := sameModel("loaded, saved and loaded again", again, m); err != nil {
		return err
	}
	if len(m.Layers) == 0 {
		o.Class("loaded without layers")
		return nil
	}
	if wrap(m.Layers[0]).In() > 1<<16 {
		return nil
	}
	x := Mat{R: 2, C: wrap(m.Layers[0]).In(), Kind: "norm", Seed: 9}.NN()
	outs, err := m.Forward(x, false)
	if err != nil {
		return fmt.Errorf("loaded model cannot be evaluated: %v", err)
	}
	if len(outs) != len(m.Layers)+1 || outs[len(m.Layers)].Cols != m.OutputSize || outs[len(m.Layers)].Rows != 2 {
		return fmt.Errorf("loaded model with %d outputs gives %d matrices, the last %dx%d", m.OutputSize, len(outs), outs[len(outs)-1].Rows, outs[len(outs)-1].Cols)
	}
	y, err := nn.NewMatrix(2, m.OutputSize)
	if err != nil {
		return err
	}
	if _, err := m.CalculateLoss(x, y); err != nil {
		return fmt.Errorf("loaded model's loss cannot be calculated: %v", err)
	}
	if m.AccuracyType >= 0 && m.AccuracyType <= 2 {
		if _, err := m.Predict(x); err != nil {
			return fmt.Errorf("loaded model does not predict: %v", err)
		}
		if _, err := m.CalculateAccuracy(x, y); err != nil {
			return fmt.Errorf("loaded model's accuracy cannot be calculated: %v", err)
		}
	}
	o.Class("loaded")
	return nil
}

func usableLayer(l nn.Layer, o *Obs) error {
	b, err := saveLayer(l)
	if err != nil {
		return fmt.Errorf("loaded layer cannot be saved: %v", err)
	}
	again, err := nn.LoadLayer(bytes.NewBuffer(b))
	if err != nil {
		return fmt.Errorf("loaded layer, saved again, cannot be loaded: %v", err)
	}
	x := wrap(l)
	if err := sameLib("loaded, saved and loaded again", wrap(again), x); err != nil {
		return err
	}
	if x.In() > 1<<16 {
		return nil
	}
	y, err := x.eval(Mat{R: 2, C: x.In(), Kind: "norm", Seed: 9}.NN())
	if err != nil {
		return fmt.Errorf("loaded layer cannot be evaluated: %v", err)
	}
	if y.Rows != 2 || y.Cols != x.Out() {
		return fmt.Errorf("loaded layer with %d outputs gives %dx%d", x.Out(), y.Rows, y.Cols)
	}
	o.Class("loaded")
	return nil
}

func checkBytes(c bytesCase, o *Obs) error {
	b := c.bytes()
	m, l, err := load(b, c.Layer)
	if d, ok := err.(disproportion); ok {
		return d
	}
	if len(b) > 12 {
		o.NT()
	}
	if err != nil {
		o.Class("refused")
		return nil
	}
	if c.Must != "" {
		return fmt.Errorf("loaded without an error: %s", c.Must)
	}
	if c.Layer {
		return usableLayer(l, o)
	}
	return usable(m, o)
}

// Every prefix.
type prefixCase struct {
	M     ModelSpec
	Layer int // -1: the model
}

func checkPrefix(c prefixCase, o *Obs) error {
	m := c.M.Build()
	var b []byte
	var err error
	if c.Layer < 0 {
		b, err = saveModel(m)
	} else {
		b, err = saveLayer(m.Layers[c.Layer])
	}
	if err != nil {
		return err
	}
	step := 1 + len(b)/1500
	for n := 0; n < len(b); n += step {
		_, _, err := load(b[:n], c.Layer >= 0)
		if d, ok := err.(disproportion); ok {
			return d
		}
		if err == nil {
			return fmt.Errorf("the first %d of %d bytes load without an error", n, len(b))
		}
		// What follows in the buffer need not be a continuation.
	}
	// The ends matter most.
	for n := max(0, len(b)-17); n < len(b); n++ {
		if _, _, err := load(b[:n], c.Layer >= 0); err == nil {
			return fmt.Errorf("the first %d of %d bytes load without an error", n, len(b))
		}
	}
	o.NT()
	o.ClassIf(c.Layer >= 0, "layer")
	o.ClassIf(len(c.M.Layers) > 1 && c.Layer < 0, "several layers")
	return nil
}

var edge32 = []int32{0, -1, 1, 2, -2, 127, 128, 255, 256, 1 << 15, 1 << 16, 46340, 46341, 65535, 65536, 65537, 1 << 20, 1 << 24, 1<<31 - 1, -1 << 31, 1 << 30, 1 << 29, 1 << 28, 268435456 + 1, 0x55555556, 3, 5}

func drawTinyModel(t *rapid.T) ModelSpec {
	m := drawModel(t, arch{maxLayers: 3, maxDim: 4, dropout: "any"})
	return m
}

// mutated draws bytes near valid ones.
func mutated(t *rapid.T, layer bool) []byte {
	s := drawTinyModel(t)
	f := s.format()
	var b []byte
	if layer {
		b = ref.EncodeLayer(f.Layers[0])
	} else {
		b = ref.EncodeModel(f)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "mutations"); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		if rapid.Bool().Draw(t, "head") { // fields rather than weights
			at = rapid.IntRange(0, min(len(b)-1, 120)).Draw(t, "at")
		}
		switch pick(t, "how", "byte", "flip", "int", "int", "float", "cut", "drop", "dup", "insert", "layers", "splice", "sizes", "sizes") {
		case "byte":
			b[at] = sample(t, "v", []byte{0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 129, 255, 254, 'L', 'A', 'N'})
		case "flip":
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case "int":
			if at+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[at:], uint32(sample(t, "v", edge32)))
			}
		case "float":
			if at+8 <= len(b) {
				binary.LittleEndian.PutUint64(b[at:], rapid.Uint64().Draw(t, "v"))
			}
		case "cut":
			b = b[:at]
		case "drop":
			n := min(sample(t, "n", []int{1, 2, 4, 8, 9}), len(b)-at)
			b = append(b[:at:at], b[at+n:]...)
		case "dup":
			n := min(sample(t, "n", []int{1, 2, 4, 8, 16}), len(b)-at)
			b = append(b[:at+n:at+n], b[at:]...)
		case "insert":
			n := sample(t, "n", []int{1, 2, 4, 8, 64, 1000, 20000})
			b = append(b[:at:at], append(bytes.Repeat([]byte{rapid.Byte().Draw(t, "v")}, n), b[at:]...)...)
		case "layers":
			if !layer && len(b) > 9 {
				b[9] = sample(t, "n", []byte{0, 1, 2, 3, 4, 127, 128, 129, 255, 200})
			}
		case "splice":
			o := ref.EncodeModel(drawTinyModel(t).format())
			b = append(b[:at:at], o[rapid.IntRange(0, len(o)-1).Draw(t, "from"):]...)
		case "sizes": // a layer's own sizes
			if p := bytes.Index(b, []byte("LA")); p >= 0 && p+11 <= len(b) {
				if rapid.Bool().Draw(t, "in") {
					binary.LittleEndian.PutUint32(b[p+3:], uint32(sample(t, "v", edge32)))
				}
				if rapid.Bool().Draw(t, "out") {
					binary.LittleEndian.PutUint32(b[p+7:], uint32(sample(t, "v", edge32)))
				}
			}
		}
	}
	return b
}

// invalid draws well-formed bytes that describe something invalid.
func invalid(t *rapid.T, layer bool) ([]byte, string) {
	s := drawTinyModel(t)
	f := s.format()
	i := rapid.IntRange(0, len(f.Layers)-1).Draw(t, "layer")
	if layer {
		i = 0
	}
	codes := func(valid int) int8 {
		return sample(t, "code", []int8{int8(valid), int8(valid), int8(valid + 1), 127, -1, -128, 64, int8(valid + 2)})
	}
	hows := []string{"layer type", "layer magic", "layer size", "loss type", "optimizer type", "magic", "chain", "chain", "short weights"}
	if layer {
		hows = hows[:3]
	}
	how := pick(t, "how", hows...)
	magic := func(b []byte, n int) {
		at := rapid.IntRange(0, n-1).Draw(t, "at")
		b[at] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
	}
	switch how {
	case "layer type":
		f.Layers[i].Type = codes(6)
	case "loss type":
		f.Loss = codes(4)
	case "optimizer type":
		f.Opt = codes(2)
	case "layer size":
		l := &f.Layers[i]
		v := sample(t, "size", []int32{0, -1, -2, -1 << 31, -100})
		switch rapid.IntRange(0, 2).Draw(t, "which") {
		case 0:
			l.In, l.W = v, nil
		case 1:
			l.Out, l.W, l.B = v, nil, nil
		case 2: // the signs cancel out
			l.In, l.Out = -l.In, -l.Out
		}
	case "short weights":
		f.Layers = append([]ref.FLayer(nil), f.Layers...)
		l := &f.Layers[len(f.Layers)-1]
		l.B = l.B[:len(l.B)-1]
	case "chain":
		// A layer whose inputs are not the outputs before it.
		if i == 0 {
			l := f.Layers[len(f.Layers)-1]
			x := drawLayer(t, ref.Linear, int(l.Out)+rapid.IntRange(1, 3).Draw(t, "more"), int(l.Out), "w", "w").format()
			f.Layers = append(f.Layers, x)
			f.N++
		} else {
			l := f.Layers[i]
			f.Layers[i] = drawLayer(t, ref.Linear, int(l.In)+sample(t, "more", []int{1, 2, 3}), int(l.Out), "w", "w").format()
		}
	}
	var b []byte
	if layer {
		b = ref.EncodeLayer(f.Layers[0])
		if how == "layer magic" {
			magic(b, 2)
		}
		return b, how
	}
	b = ref.EncodeModel(f)
	switch how {
	case "magic":
		magic(b, 4)
	case "layer magic":
		at := len(b)
		for k := len(f.Layers) - 1; k >= i; k-- {
			at -= len(ref.EncodeLayer(f.Layers[k]))
		}
		magic(b[at:], 2)
	}
	return b, how
}

func encode(b []byte, layer bool, must string) bytesCase {
	return bytesCase{base64.StdEncoding.EncodeToString(b), layer, must}
}

// P20: files.

type fileOp struct {
	Do   string
	File int
	M    *ModelSpec `json:",omitempty"`
	Junk int        `json:",omitempty"`
	Bad  string     `json:",omitempty"`
	To   int        `json:",omitempty"` // the other file
}

type fileCase struct {
	Ops   []fileOp
	Same  bool // all files always carry the same modification time
	Names int  `json:",omitempty"` // which names the files have
	Form  int  `json:",omitempty"` // how the paths are written: absolute, relative, or with more dots and slashes than needed
}

// fileNames are what the three files are called: the ways to write a file by way of another one have
// names like these.
var fileNames = [][]string{
	{"a.nn", "b", "sub.model"},
	{"m", "m.tmp", "m~"},
	{"model.bin", "model.bin.bak", ".model.bin.swp"},
	{"m.tmp", "m.tmp.tmp", "m.new"},
	{"a", "A", "a "},
	{"a b", " a", "a\tb"},
	{".hidden", ".hidden.tmp", "..x"},
	{"-m", "--", "m."},
	{"m.nn", "m", "m.nn.nn"},
	{"model", "model.old", "model.lock"},
	{"\u00e9t\u00e9", "e\u0301te", "\u6a21\u578b"},
	{"m%20x", "m x", "m%d"},
	{"$HOME", "~", "*"},
	{"a\nb", "a'b", "a\"b"},
	{"x\xff\xfe", "x?", "x"},
	{"sub/m", "sub2/m", "m"},
	{"tmp", "temp", ".tmp"},
	{"model.gz", "model.json", "model.part"},
	{"LONG0", "LONG1", "LONG2"},
}

func genFiles(t *rapid.T) fileCase {
	c := fileCase{Same: rapid.Bool().Draw(t, "sameTime")}
	if rapid.Bool().Draw(t, "names") {
		c.Names, c.Form = rapid.IntRange(0, len(fileNames)-1).Draw(t, "which"), rapid.IntRange(0, 3).Draw(t, "form")
	}
	for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
		op := fileOp{Do: pick(t, "do", "save", "save", "save", "again", "again", "again", "load", "load", "load", "junk", "saveBad", "saveNowhere", "loadNothing", "remove", "rename", "cut", "saveProtected"), File: rapid.IntRange(0, 2).Draw(t, "file")}
		switch op.Do {
		case "load":
			if chance(t, "protected", 1, 3) {
				op.Bad = "protected"
			}
		case "save", "saveNowhere", "saveProtected":
			m := drawModel(t, arch{maxLayers: 4, maxDim: sample(t, "maxDim", []int{3, 8, 30, 100}), dropout: "any"})
			if chance(t, "bits", 1, 4) {
				for i := range m.Layers {
					l := &m.Layers[i]
					l.W, l.B = drawMat(t, "W", l.In, l.Out, "bits"), drawMat(t, "B", 1, l.Out, "bits")
				}
			}
			op.M = &m
			op.Bad = pick(t, "where", "directory", "missing", "full", "empty", "throughFile")
		case "saveBad":
			m := drawTinyModel(t)
			op.M = &m
			op.Bad = pick(t, "bad", "weightRows", "weightCols", "biasCols", "many")
			op.Junk = rapid.IntRange(0, len(m.Layers)-1).Draw(t, "at")
		case "again":
			op.Bad, op.Junk = pick(t, "what", "weight", "weight", "weight", "swap", "swap", "bias", "precision", "nothing"), rapid.IntRange(0, 1<<20).Draw(t, "which")
			op.To = sample(t, "to", []int{op.File, op.File, 0, 1, 2})
		case "rename":
			op.To = rapid.IntRange(0, 2).Draw(t, "to")
		case "junk":
			op.Junk = sample(t, "junk", []int{0, 1, 3, 100, 5000, 200000})
		case "loadNothing":
			op.Bad = pick(t, "what", "directory", "missing", "empty", "emptyName", "throughFile")
		case "cut":
			op.Junk = rapid.IntRange(1, 60).Draw(t, "cut")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// protected runs do while the file may only be read, also by root: without the capability that lets
// this thread ignore permissions. Reports whether that came about.
func protected(path string, do func()) bool {
	const dacOverride = 1 << 1
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	head := struct {
		version uint32
		pid     int32
	}{version: 0x20080522}
	var caps [2]struct{ effective, permitted, inheritable uint32 }
	call := func(which uintptr) bool {
		_, _, e := syscall.RawSyscall(which, uintptr(unsafe.Pointer(&head)), uintptr(unsafe.Pointer(&caps[0])), 0)
		return e == 0
	}
	if os.Chmod(path, 0o444) != nil || !call(syscall.SYS_CAPGET) {
		panic("cannot protect " + path)
	}
	was := caps
	caps[0].effective &^= dacOverride
	ok := call(syscall.SYS_CAPSET)
	defer func() {
		caps = was
		if ok && !call(syscall.SYS_CAPSET) {
			panic("cannot get the capability back")
		}
		os.Chmod(path, 0o644)
	}()
	do()
	return ok
}

func checkFiles(c fileCase, o *Obs) error {
	dir, err := os.MkdirTemp(scratch, "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, d := range []string{"sub", "sub2"} {
		if err := os.Mkdir(filepath.Join(dir, d), 0o755); err != nil {
			panic(err)
		}
	}
	forms := []string{dir + "/", dir + "/", dir + "/./sub/..//", dir + "//"}
	if wd, err := os.Getwd(); err == nil {
		if rel, err := filepath.Rel(wd, dir); err == nil {
			forms[1] = rel + "/"
		}
	}
	name := func(i int) string {
		n := fileNames[c.Names%len(fileNames)][i]
		if strings.HasPrefix(n, "LONG") {
			n = strings.Repeat(n, 51)[:255] // the longest there is
		}
		return forms[c.Form] + n
	}
	type held struct {
		bytes []byte
		m     *ModelSpec
		live  *nn.Model // the object that was saved
		there bool
	}
	stamp := func() {
		if !c.Same {
			return
		}
		for i := 0; i < 3; i++ {
			os.Chtimes(name(i), time.Unix(1700000000, 0), time.Unix(1700000000, 0))
		}
	}
	save := func(what string, live *nn.Model, spec *ModelSpec, to int) (held, error) {
		if err := nn.SaveFile(live, name(to)); err != nil {
			return held{}, fmt.Errorf("%s: %v", what, err)
		}
		b, err := os.ReadFile(name(to))
		if err != nil {
			return held{}, fmt.Errorf("%s: %v", what, err)
		}
		f, rest, err := ref.DecodeModel(b)
		if err != nil {
			return held{}, fmt.Errorf("%s: the file is not in the documented layout: %v", what, err)
		}
		if len(rest) > 0 {
			return held{}, fmt.Errorf("%s: %d bytes too many in the file", what, len(rest))
		}
		return held{b, spec, live, true}, sameFormat(what+": file", f, spec.format())
	}
	state := make([]held, 3)
	saves := 0
	intact := func(what string) error {
		for i, h := range state {
			b, err := os.ReadFile(name(i))
			if h.there != (err == nil) || h.there && !bytes.Equal(b, h.bytes) {
				return fmt.Errorf("%s: file %d holds %d bytes (error %v) instead of what it held (%v, %d bytes)", what, i, len(b), err, h.there, len(h.bytes))
			}
		}
		return nil
	}
	nowhere := func(what string) string {
		switch what {
		case "directory":
			return dir
		case "missing":
			return filepath.Join(dir, "no", "such", "file")
		case "full":
			p := filepath.Join(dir, "full")
			if err := os.Symlink("/dev/full", p); err != nil {
				panic(err)
			}
			return p
		case "throughFile":
			p := filepath.Join(dir, "plain")
			if err := os.WriteFile(p, []byte("x"), 0o644); err != nil {
				panic(err)
			}
			return filepath.Join(p, "below")
		case "empty":
			return ""
		}
		panic(what)
	}
	for k, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", k, op.Do)
		h := &state[op.File]
		switch op.Do {
		case "save":
			n, err := save(what, op.M.Build(), op.M, op.File)
			if err != nil {
				return err
			}
			if h.there {
				o.ClassIf(len(h.bytes) > len(n.bytes), "overwrote a longer file")
				o.ClassIf(len(h.bytes) < len(n.bytes), "overwrote a shorter file")
			}
			*h = n
			saves++
		case "again":
			// A model already in a file, one number of it changed, saved once more.
			if h.m == nil {
				continue
			}
			spec, live := *h.m, h.live
			if op.Junk%3 == 0 {
				m, err := nn.LoadFile(name(op.File))
				if err != nil {
					return fmt.Errorf("%s: a saved model cannot be loaded: %v", what, err)
				}
				live = &m
			}
			spec.Layers = append([]LayerSpec(nil), spec.Layers...)
			at := op.Junk / 8 % len(spec.Layers)
			value := float64(op.Junk%4096) / 64
			if op.Bad == "weight" || op.Bad == "bias" || op.Bad == "swap" {
				l := wrap(live.Layers[at])
				to, was := l.W(), &spec.Layers[at].W
				if op.Bad == "bias" {
					to, was = l.B(), &spec.Layers[at].B
				}
				v := make([]F, was.R*was.C)
				for i, x := range was.Vals() {
					v[i] = F(x)
				}
				i := op.Junk / 64 % len(v)
				if op.Bad == "swap" {
					k := op.Junk / 512 % len(v)
					v[i], v[k] = v[k], v[i]
					a, b := &to.M[i/to.Cols][i%to.Cols], &to.M[k/to.Cols][k%to.Cols]
					*a, *b = *b, *a
				} else {
					v[i] = F(value)
					to.M[i/to.Cols][i%to.Cols] = value
				}
				*was = Mat{R: was.R, C: was.C, V: v}
			} else if op.Bad == "precision" {
				spec.Prec, live.AccuracyPercision = F(value), value
			}
			n, err := save(what, live, &spec, op.To)
			if err != nil {
				return err
			}
			// The first file still holds the model as it was, which no live object stands for any more.
			h.live = h.m.Build()
			state[op.To] = n
			saves++
			o.ClassIf(op.To == op.File, "saved again with a change")
		case "rename":
			if !h.there || op.To == op.File {
				continue
			}
			if err := os.Rename(name(op.File), name(op.To)); err != nil {
				panic(err)
			}
			state[op.To], *h = *h, held{}
		case "load":
			var m nn.Model
			if op.Bad == "protected" && h.there { // a file one may only read
				if protected(name(op.File), func() { m, err = nn.LoadFile(name(op.File)) }) {
					o.Class("loaded from a write-protected file")
				}
			} else {
				m, err = nn.LoadFile(name(op.File))
			}
			if h.m != nil {
				if err != nil {
					return fmt.Errorf("%s: a saved model cannot be loaded: %v", what, err)
				}
				if err := sameModel(what, &m, h.m.Build()); err != nil {
					return err
				}
				x, y := Mat{R: 2, C: h.m.In(), Kind: "norm", Seed: 3}, Mat{R: 2, C: h.m.Out(), Kind: "onehot", Seed: 3}
				if err := sameBehaviour(what, &m, h.m.Build(), x.NN(), y.NN()); err != nil {
					return err
				}
				o.Class("loaded")
			} else if err == nil {
				return fmt.Errorf("%s: a file holding no model (there: %v, %d bytes) is loaded", what, h.there, len(h.bytes))
			}
		case "junk":
			b := make([]byte, op.Junk)
			for i := range b {
				b[i] = byte(i * 31)
			}
			if err := os.WriteFile(name(op.File), b, 0o644); err != nil {
				panic(err)
			}
			*h = held{b, nil, nil, true}
		case "cut":
			if h.m == nil || len(h.bytes) <= op.Junk {
				continue
			}
			b := h.bytes[:len(h.bytes)-op.Junk]
			if err := os.WriteFile(name(op.File), b, 0o644); err != nil {
				panic(err)
			}
			*h = held{b, nil, nil, true}
		case "remove":
			os.Remove(name(op.File))
			*h = held{}
		case "saveBad":
			m := op.M.Build()
			if op.Bad == "many" {
				m = manyCase{N: 128, Wide: 1, Seed: 5}.spec().Build()
			} else {
				breakLayer(wrap(m.Layers[op.Junk]), op.Bad)
			}
			if err := nn.SaveFile(m, name(op.File)); err == nil {
				return fmt.Errorf("%s: a model that cannot be saved (%s) is saved without an error", what, op.Bad)
			}
			if !h.there {
				// Whether a file is left behind where there was none is not said; one that is must not load.
				if _, err := os.Stat(name(op.File)); err == nil {
					if _, err := nn.LoadFile(name(op.File)); err == nil {
						return fmt.Errorf("%s: what a failed save left behind loads", what)
					}
					os.Remove(name(op.File))
				}
			}
			o.Class("failed save")
			o.ClassIf(h.m != nil, "failed save over a model")
		case "saveNowhere":
			p := nowhere(op.Bad)
			if op.Bad == "full" {
				if _, err := os.Stat("/dev/full"); err != nil {
					continue
				}
			}
			err := nn.SaveFile(op.M.Build(), p)
			if op.Bad == "full" && err == nil {
				// Saving by putting a new file in place of the name is as good, if it is there.
				if f, e := os.Lstat(p); e == nil && f.Mode().IsRegular() {
					if m, e := nn.LoadFile(p); e == nil {
						err = sameModel(what, &m, op.M.Build())
						if err != nil {
							return err
						}
						os.Remove(p)
						continue
					}
				}
			}
			os.Remove(filepath.Join(dir, "full"))
			if err == nil {
				return fmt.Errorf("%s: saving to a place that cannot be written (%s) gives no error", what, op.Bad)
			}
			o.Class("save to " + op.Bad)
		case "saveProtected":
			// Over a file one may not write: refused, or in its place.
			if !h.there {
				continue
			}
			m := op.M.Build()
			if protected(name(op.File), func() { err = nn.SaveFile(m, name(op.File)) }) {
				o.Class("save to a write-protected file")
			}
			if err == nil {
				l, err := nn.LoadFile(name(op.File))
				if err != nil {
					return fmt.Errorf("%s: a saved model cannot be loaded: %v", what, err)
				}
				if err := sameModel(what, &l, op.M.Build()); err != nil {
					return err
				}
				b, _ := os.ReadFile(name(op.File))
				*h = held{b, op.M, m, true}
			}
		case "loadNothing":
			p := ""
			switch op.Bad {
			case "empty":
				p = filepath.Join(dir, "empty")
				if err := os.WriteFile(p, nil, 0o644); err != nil {
					panic(err)
				}
			case "emptyName":
			default:
				p = nowhere(op.Bad)
			}
			if _, err := nn.LoadFile(p); err == nil {
				return fmt.Errorf("%s: loading %s gives no error", what, op.Bad)
			}
			o.Class("load of " + op.Bad)
		}
		if err := intact(what); err != nil {
			return err
		}
		stamp()
	}
	if saves > 0 && len(c.Ops) > 1 {
		o.NT()
	}
	return nil
}

// A large model, through a file.
type bigFileCase struct {
	A, B int // widths of what is saved, one after another, in the same file
	Seed uint64
}

func checkBigFile(c bigFileCase, o *Obs) error {
	dir, err := os.MkdirTemp(scratch, "big")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "m")
	for i, w := range []int{c.A, c.B} {
		m := manyCase{N: 2, Wide: w, Seed: c.Seed + uint64(i)}.spec().Build()
		if err := nn.SaveFile(m, p); err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if _, rest, err := ref.DecodeModel(b); err != nil || len(rest) > 0 {
			return fmt.Errorf("model of width %d: the file is not in the documented layout, or has %d bytes more (%v)", w, len(rest), err)
		}
		l, err := nn.LoadFile(p)
		if err != nil {
			return fmt.Errorf("model of width %d: %v", w, err)
		}
		if err := sameModel(fmt.Sprintf("model of width %d", w), &l, m); err != nil {
			return err
		}
	}
	o.NT()
	return nil
}

// A model of more than 1 GiB, written as a file with holes by the reference.
type giantCase struct {
	In, Out int
	At      []int // weights that are not zero
	Save    bool  // save it again and compare the files
}

func checkGiant(c giantCase, o *Obs) error {
	dir, err := os.MkdirTemp(scratch, "giant")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	defer debug.FreeOSMemory()
	p := filepath.Join(dir, "m")
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	head := ref.EncodeModel(ref.FModel{Version: nn.VERSION, N: 1, In: int32(c.In), Out: int32(c.Out), OptVals: []ref.FOpt{{Key: "learningRate", Val: math.Float64bits(0.1)}}})
	head = append(head, ref.EncodeLayer(ref.FLayer{Type: 1, In: int32(c.In), Out: int32(c.Out)})...)
	put := func(b []byte, at int64) {
		if _, err := f.WriteAt(b, at); err != nil {
			panic(err)
		}
	}
	put(head, 0)
	value := func(i int) float64 { return float64(i) + 0.5 }
	for _, i := range c.At {
		put(binary.LittleEndian.AppendUint64(nil, math.Float64bits(value(i))), int64(len(head)+8*i))
	}
	total := c.In * c.Out
	put(binary.LittleEndian.AppendUint64(nil, math.Float64bits(-7)), int64(len(head)+8*(total+c.Out-1))) // the last bias
	l, err := nn.LoadFile(p)
	if err != nil {
		return fmt.Errorf("a %d by %d layer: %v", c.In, c.Out, err)
	}
	w, b := wrap(l.Layers[0]).W(), wrap(l.Layers[0]).B()
	if w.Rows != c.In || w.Cols != c.Out || len(w.M) != c.In || b.Cols != c.Out {
		return fmt.Errorf("a %d by %d layer: the matrices are %dx%d and %dx%d", c.In, c.Out, w.Rows, w.Cols, b.Rows, b.Cols)
	}
	n := 0
	for _, r := range w.M {
		for _, v := range r {
			if v != 0 {
				n++
			}
		}
	}
	distinct := map[int]bool{}
	for _, i := range c.At {
		distinct[i] = true
		if got := w.M[i/c.Out][i%c.Out]; got != value(i) {
			return fmt.Errorf("a %d by %d layer: weight %d is %v, want %v", c.In, c.Out, i, got, value(i))
		}
	}
	if n != len(distinct) || b.M[0][c.Out-1] != -7 {
		return fmt.Errorf("a %d by %d layer: %d weights instead of %d are not zero, and the last bias is %v", c.In, c.Out, n, len(distinct), b.M[0][c.Out-1])
	}
	o.NT()
	if !c.Save {
		return nil
	}
	q := filepath.Join(dir, "again")
	if err := nn.SaveFile(&l, q); err != nil {
		return err
	}
	l = nn.Model{}
	g, err := os.Open(q)
	if err != nil {
		return err
	}
	defer g.Close()
	// The settings of the optimizer differ; the layer must be the same.
	st, err := g.Stat()
	if err != nil {
		return err
	}
	size := int64(8*(total+c.Out)) + 27
	x, y := make([]byte, 1<<20), make([]byte, 1<<20)
	from, from2 := int64(len(head)-27), st.Size()-size
	for at := int64(0); at < size; at += 1 << 20 {
		k := min(size-at, 1<<20)
		if _, err := f.ReadAt(x[:k], from+at); err != nil {
			return err
		}
		if _, err := g.ReadAt(y[:k], from2+at); err != nil {
			return fmt.Errorf("the file saved again: %v", err)
		}
		if !bytes.Equal(x[:k], y[:k]) {
			return fmt.Errorf("the file saved again differs around byte %d of the layer", at)
		}
	}
	return nil
}

func init() {
	register("P19",
		Sub[prefixCase]{Name: "prefixes", Quick: 3000, Thorough: 50000, Check: checkPrefix, Hostile: true,
			Rule: "every proper prefix of saved models and layers of all kinds (of long ones a spread of 1500, and the last 17 bytes) must be refused. All cases are non-trivial.",
			Gen: func(t *rapid.T) prefixCase {
				c := prefixCase{M: drawModel(t, arch{maxLayers: 4, maxDim: sample(t, "maxDim", []int{2, 4, 12}), dropout: "any"}), Layer: -1}
				if chance(t, "layer", 1, 3) {
					c.Layer = rapid.IntRange(0, len(c.M.Layers)-1).Draw(t, "which")
				}
				return c
			}},
		Sub[bytesCase]{Name: "invalid", Quick: 40000, Thorough: 500000, Check: checkBytes, Hostile: true,
			Rule: "well-formed bytes with a wrong magic byte, an unknown layer, loss or optimizer code, sizes of zero or below, layers that do not chain, or too few biases; all must be refused. Non-trivial: more than 12 bytes.",
			Gen: func(t *rapid.T) bytesCase {
				layer := chance(t, "layer?", 1, 4)
				b, must := invalid(t, layer)
				return encode(b, layer, must)
			}},
		Sub[bytesCase]{Name: "mutated", Quick: 100000, Thorough: 3000000, Check: checkBytes, Hostile: true,
			Rule: "valid bytes with one to four mutations (bytes, bits, hostile integers at any place and in the size fields, cuts, insertions, splices): an error, or something that can be evaluated, saved and loaded again; allocations bounded by 2 MB and 400 times the input. Non-trivial: more than 12 bytes.",
			Gen: func(t *rapid.T) bytesCase {
				layer := chance(t, "layer?", 1, 4)
				return encode(mutated(t, layer), layer, "")
			}},
		Sub[bytesCase]{Name: "random", Quick: 20000, Thorough: 400000, Check: checkBytes, Hostile: true,
			Rule: "random bytes, mostly behind the right magic bytes and version. Non-trivial: more than 12 bytes.",
			Gen: func(t *rapid.T) bytesCase {
				layer := chance(t, "layer?", 1, 3)
				var b []byte
				if chance(t, "magic", 3, 4) {
					b = []byte("NNML1.0.3")
					if layer {
						b = []byte("LA")
					}
				}
				b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")...)
				if chance(t, "long", 1, 8) {
					b = append(b, bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, rapid.IntRange(0, 30000).Draw(t, "n"))...)
				}
				return encode(b, layer, "")
			}})
	register("P20",
		Sub[fileCase]{Name: "files", Quick: 6000, Thorough: 80000, Gen: genFiles, Check: checkFiles,
			Rule: "up to 12 steps over three files of a scratch directory (plain names, odd ones, and ones by way of which another might be written; paths absolute, relative or roundabout): saving models of several sizes, saving a model again (the same object or one loaded) with one number changed or two swapped, other content, renaming, with or without the modification times kept equal, truncation, removal, loads, saves of models that cannot be saved, saves to a directory, a missing directory, a full device, below a plain file and to no name, loads of the like, and loads of and saves over files that may only be read. All files are compared byte by byte after every step. Non-trivial: a save and another step."},
		Sub[bigFileCase]{Name: "big", Quick: 24, Thorough: 300, Check: checkBigFile,
			Rule: "models up to 400 wide (2.5 MB), saved over one another. All cases are non-trivial.",
			Gen: func(t *rapid.T) bigFileCase {
				return bigFileCase{50 + uniform(t, "a", 351), 50 + uniform(t, "b", 351), rapid.Uint64Range(0, 1<<30).Draw(t, "seed")}
			}},
		Sub[giantCase]{Name: "giant", Quick: 1, Thorough: 3, Check: checkGiant, Flat: true, Serial: true, Patience: 6,
			Rule: "a file of a little more than 1 GiB (in the thorough tier also 2 GiB) that an independent program wrote, loaded and compared weight by weight (in the thorough tier also saved again and compared byte by byte). All cases are non-trivial.",
			Gen: func(t *rapid.T) giantCase {
				var c giantCase
				c.In = rapid.IntRange(3000, 20000).Draw(t, "in")
				c.Save = os.Getenv("VERIF_TIER") == "thorough"
				gib := 1
				if c.Save {
					gib = rapid.IntRange(1, 2).Draw(t, "gib")
				}
				c.Out = (gib<<27)/c.In + rapid.IntRange(2, 30).Draw(t, "more")
				for i := 0; i < 30; i++ {
					c.At = append(c.At, rapid.IntRange(0, c.In*c.Out-1).Draw(t, "at"), rapid.IntRange(gib<<27-9, c.In*c.Out-1).Draw(t, "behind"))
				}
				return c
			}})
}
