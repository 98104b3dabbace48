package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/cubeflix/nn"
	"nnverif/ref"
	"pgregory.net/rapid"
)

// P23: the training log.

type logStep struct {
	// Setting up: "file", "stdout", "discard"; or "fit".
	Do                 string
	Path               int    `json:",omitempty"` // 0-2 files; 3 and up cannot be opened
	Verbose            bool   `json:",omitempty"` // with a file
	Epochs, Batch, Log int    `json:",omitempty"`
	Data, Val          int    `json:",omitempty"` // Val: data set + 1, 0: none
	Version            string `json:",omitempty"` // "load": of the model loaded
}

type logCase struct {
	M     ModelSpec
	X, Y  []Mat
	Prior []string // content of the files before
	Steps []logStep
}

func genLog(t *rapid.T) logCase {
	drop := pick(t, "dropout", "none", "fixed", "fixed", "any")
	c := logCase{M: drawModel(t, arch{maxLayers: 3, maxDim: 6, dropout: drop})}
	c.M.Acc = rapid.IntRange(0, 2).Draw(t, "acc")
	yKind := targetKind(t, c.M.Loss)
	for i := 0; i < 3; i++ {
		rows := drawFew(t, "rows", 9)
		c.X = append(c.X, drawMat(t, "X", rows, c.M.In(), pick(t, "xKind", "norm", "mix")))
		c.Y = append(c.Y, drawMat(t, "Y", rows, c.M.Out(), yKind))
	}
	c.Prior = rapid.SliceOfN(rapid.SampledFrom([]string{"-", "", "old line\n", "[info]: 2020/01/01 00:00:00 Epoch: 0, Loss: 1.000000, Accuracy: 0.000000\n", "no newline at the end"}), 3, 3).Draw(t, "prior")
	if chance(t, "long", 1, 20) {
		c.Prior[rapid.IntRange(0, 2).Draw(t, "at")] = strings.Repeat("an old line of a long log\n", sample(t, "lines", []int{200, 2600, 7000, 50000}))
	}
	for i := rapid.IntRange(1, 7).Draw(t, "steps"); i > 0; i-- {
		if chance(t, "load", 1, 6) {
			c.Steps = append(c.Steps, logStep{Do: "load", Version: pick(t, "version", "1.0.4", "2.0.0", "0.9.9", "1.0.2", "x.y.z", nn.VERSION)})
		} else if rapid.IntRange(0, 2).Draw(t, "what") == 0 {
			s := logStep{Do: pick(t, "do", "file", "file", "file", "stdout", "discard")}
			if s.Do == "file" {
				s.Path = sample(t, "path", []int{0, 1, 2, 0, 1, 2, 3, 4, 5})
				s.Verbose = rapid.Bool().Draw(t, "verbose")
			}
			c.Steps = append(c.Steps, s)
		} else {
			c.Steps = append(c.Steps, logStep{Do: "fit", Epochs: sample(t, "epochs", []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 21}), Batch: rapid.IntRange(0, 6).Draw(t, "batch"),
				Log: sample(t, "log", []int{0, 1, 1, 2, 3, 4, 5, 7, 10, 100}), Data: rapid.IntRange(0, 2).Draw(t, "data"), Val: rapid.IntRange(0, 3).Draw(t, "val")})
		}
	}
	return c
}

type logEntry struct {
	epoch     int
	val       bool
	unknown   bool   // the values are not known (dropout is random)
	version   string // not an epoch's entry: a warning naming this version
	loss, acc float64
}

var (
	epochPattern  = regexp.MustCompile(`(?i)epoch\D*(\d+)`)
	numberPattern = regexp.MustCompile(`NaN|[-+]?Inf|[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?`)
)

// near leaves room for the six decimals that are printed.
func near(printed, v float64) bool {
	if math.IsNaN(v) {
		return math.IsNaN(printed)
	}
	if math.IsInf(v, 0) {
		return printed == v
	}
	return math.Abs(printed-v) <= 1e-6+1e-6*math.Abs(v)
}

func (e logEntry) matches(line string) error {
	if e.version != "" {
		if !strings.Contains(line, e.version) {
			return fmt.Errorf("no warning naming version %s", e.version)
		}
		return nil
	}
	m := epochPattern.FindStringSubmatchIndex(line)
	if m == nil {
		return fmt.Errorf("no epoch number")
	}
	if n, _ := strconv.Atoi(line[m[2]:m[3]]); n != e.epoch {
		return fmt.Errorf("epoch %s instead of %d", line[m[2]:m[3]], e.epoch)
	}
	rest := line[m[3]:]
	if strings.Contains(strings.ToLower(rest), "validation") != e.val {
		return fmt.Errorf("validation entry: want %v", e.val)
	}
	var nums []float64
	for _, s := range numberPattern.FindAllString(rest, -1) {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return err
		}
		nums = append(nums, v)
	}
	if len(nums) != 2 {
		return fmt.Errorf("%d numbers after the epoch", len(nums))
	}
	if e.unknown {
		return nil
	}
	if !near(nums[0], e.loss) || !near(nums[1], e.acc) {
		return fmt.Errorf("loss %v and accuracy %v instead of %v and %v", nums[0], nums[1], e.loss, e.acc)
	}
	return nil
}

func matchEntries(what string, content []byte, prior string, want []logEntry) error {
	if !bytes.HasPrefix(content, []byte(prior)) {
		return fmt.Errorf("%s: what it held before is gone", what)
	}
	text := string(content[len(prior):])
	var lines []string
	if text != "" {
		if !strings.HasSuffix(text, "\n") {
			return fmt.Errorf("%s: last entry is not ended", what)
		}
		lines = strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	}
	for i, l := range lines {
		if i >= len(want) {
			return fmt.Errorf("%s: more than the %d entries expected: %q", what, len(want), l)
		}
		if err := want[i].matches(l); err != nil {
			return fmt.Errorf("%s: entry %d (%q): %w", what, i, l, err)
		}
	}
	if len(lines) < len(want) {
		return fmt.Errorf("%s: %d entries instead of %d", what, len(lines), len(want))
	}
	return nil
}

var logCount atomic.Int64

func checkLog(c logCase, o *Obs) (err error) {
	n := logCount.Add(1)
	if n%100 == 0 {
		runtime.GC() // the library leaves it to the collector to close log files
	}
	dir := filepath.Join(scratch, "log"+strconv.FormatInt(n, 10))
	if err := os.MkdirAll(filepath.Join(dir, "d"), 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	paths := []string{filepath.Join(dir, "a.log"), filepath.Join(dir, "b"), filepath.Join(dir, "d", "c.txt"),
		filepath.Join(dir, "missing", "x.log"), filepath.Join(dir, "d"), ""}
	for i, p := range c.Prior {
		if p != "-" {
			if err := os.WriteFile(paths[i], []byte(p), 0o644); err != nil {
				panic(err)
			}
		}
	}
	out, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		panic(err)
	}
	oldOut, oldErr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = out, errFile
	defer func() {
		os.Stdout, os.Stderr = oldOut, oldErr
		nn.InitLogger(false, false, "")
		out.Close()
		errFile.Close()
	}()
	if err := nn.InitLogger(false, false, ""); err != nil {
		return err
	}
	want := make([][]logEntry, 4) // three files and standard output
	opened := make([]bool, 3)
	dest := -1
	random := false
	for _, l := range c.M.Layers {
		random = random || l.Kind == ref.Dropout && l.Drop > 0 && l.Drop < 1
	}
	m, twin := c.M.Build(), c.M.Build()
	entries, silent := 0, 0
	for k, s := range c.Steps {
		switch s.Do {
		case "stdout":
			if err := nn.InitLogger(true, false, paths[k%3]); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			dest = 3
		case "discard":
			if err := nn.InitLogger(false, false, paths[k%3]); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			dest = -1
		case "file":
			err := nn.InitLogger(s.Verbose, true, paths[s.Path])
			if (err != nil) != (s.Path > 2) {
				return fmt.Errorf("step %d: setting the log up in %q: error %v", k, paths[s.Path], err)
			}
			if err == nil {
				dest = s.Path
				opened[dest] = true
			} else {
				o.Class("file cannot be opened")
			}
		case "load":
			small := c.M // any model will do, but not one of more layers than a file can hold
			small.Layers = small.Layers[:1]
			f := small.format()
			f.Version = s.Version
			if _, err := nn.LoadModel(bytes.NewBuffer(ref.EncodeModel(f))); err != nil {
				return fmt.Errorf("step %d: a model of version %s: %v", k, s.Version, err)
			}
			if s.Version != nn.VERSION && dest >= 0 {
				want[dest] = append(want[dest], logEntry{version: s.Version})
				o.Class("warnings between other entries")
			}
		case "fit":
			x, y := c.X[s.Data], c.Y[s.Data]
			vx, vy := nn.Matrix{}, nn.Matrix{}
			if s.Val > 0 {
				vx, vy = c.X[s.Val-1].NN(), c.Y[s.Val-1].NN()
			}
			if err := m.Fit(x.NN(), y.NN(), s.Epochs, s.Batch, vx, vy, s.Log); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			add := func(e logEntry, on *nn.Model, x, y Mat, known bool) error {
				e.unknown = !known
				var err error
				if e.loss, err = on.CalculateLoss(x.NN(), y.NN()); err != nil {
					return err
				}
				if e.acc, err = on.CalculateAccuracy(x.NN(), y.NN()); err != nil {
					return err
				}
				if dest >= 0 {
					want[dest] = append(want[dest], e)
					entries++
				} else {
					silent++
				}
				o.ClassIf(e.val, "validation entries")
				return nil
			}
			for e := 0; e < s.Epochs; e++ {
				on := m
				if !random {
					on = twin
					if err := twin.Fit(x.NN(), y.NN(), 1, s.Batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
						return err
					}
				}
				if s.Log == 0 || e%s.Log != 0 {
					continue
				}
				known := !random || e == s.Epochs-1
				if err := add(logEntry{epoch: e}, on, x, y, known); err != nil {
					return err
				}
				if s.Val > 0 {
					if err := add(logEntry{epoch: e, val: true}, on, c.X[s.Val-1], c.Y[s.Val-1], known); err != nil {
						return err
					}
				}
			}
		}
		for i := range want {
			what, prior := "standard output", ""
			path := filepath.Join(dir, "stdout")
			if i < 3 {
				path, prior, what = paths[i], c.Prior[i], "log file"
			}
			b, err := os.ReadFile(path)
			if i < 3 && prior == "-" {
				if !opened[i] {
					if err == nil {
						return fmt.Errorf("step %d: %s was created", k, path)
					}
					continue
				}
				prior = ""
			}
			if err != nil {
				return fmt.Errorf("step %d: %s: %v", k, what, err)
			}
			if err := matchEntries(fmt.Sprintf("step %d: %s", k, what), b, prior, want[i]); err != nil {
				return err
			}
		}
	}
	if b, err := os.ReadFile(errFile.Name()); err != nil || len(b) > 0 {
		return fmt.Errorf("standard error received %q (%v)", b[:min(len(b), 200)], err)
	}
	if entries > 0 {
		o.NT()
	}
	o.ClassIf(entries > 0 && silent > 0, "entries and silence")
	o.ClassIf(len(want[3]) > 0, "standard output")
	o.ClassIf(len(want[0])+len(want[1])+len(want[2]) > 0, "log files")
	o.ClassIf(random, "random dropout")
	return nil
}

// Before logging is set up: this is the first thing a process does.
type unsetCase struct {
	Log  logCase
	Data []byte
}

func checkUnset(c unsetCase, o *Obs) error {
	m := c.Log.M.Build()
	for k, s := range c.Log.Steps {
		if s.Do != "fit" {
			continue
		}
		vx, vy := nn.Matrix{}, nn.Matrix{}
		if s.Val > 0 {
			vx, vy = c.Log.X[s.Val-1].NN(), c.Log.Y[s.Val-1].NN()
		}
		if err := m.Fit(c.Log.X[s.Data].NN(), c.Log.Y[s.Data].NN(), s.Epochs, s.Batch, vx, vy, s.Log); err != nil {
			return fmt.Errorf("step %d: %v", k, err)
		}
	}
	b, err := saveModel(m)
	if err != nil {
		return err
	}
	if _, err := loadModel(b); err != nil {
		return err
	}
	nn.LoadModel(bytes.NewBuffer(append([]byte(nil), c.Data...)))
	nn.LoadLayer(bytes.NewBuffer(append([]byte(nil), c.Data...)))
	if len(b) > 0 {
		nn.LoadModel(bytes.NewBuffer(b[:len(b)/2]))
	}
	if err := m.Fit(nn.Matrix{}, nn.Matrix{}, 1, 0, nn.Matrix{}, nn.Matrix{}, 1); err == nil {
		return fmt.Errorf("training on nothing succeeds")
	}
	if _, err := nn.LoadFile(filepath.Join(scratch, "missing", "model")); err == nil {
		return fmt.Errorf("loading a missing file succeeds")
	}
	o.NT()
	return nil
}

// warningCase loads models of this and other versions with the log going to a file.
type warningCase struct {
	M        ModelSpec
	Versions []string
	Log      []string // where the log goes at the time: "file" or "discard"
}

func checkWarnings(c warningCase, o *Obs) error {
	path := filepath.Join(scratch, "warnings.log")
	defer nn.InitLogger(false, false, "")
	defer os.Remove(path)
	for i, version := range c.Versions {
		os.Remove(path)
		if err := nn.InitLogger(false, c.Log[i] == "file", path); err != nil {
			return err
		}
		f := c.M.format()
		f.Version = version
		loaded, err := nn.LoadModel(bytes.NewBuffer(ref.EncodeModel(f)))
		if err != nil {
			return fmt.Errorf("version %q: %v", version, err)
		}
		if err := sameParams("loaded model", params(&loaded), params(c.M.Build())); err != nil {
			return err
		}
		b, err := os.ReadFile(path)
		if c.Log[i] != "file" {
			if err == nil {
				return fmt.Errorf("version %q: a log file appears", version)
			}
			continue
		}
		if err != nil {
			return err
		}
		if version == nn.VERSION {
			if len(b) > 0 {
				return fmt.Errorf("a model of this version is loaded: %q is logged", b)
			}
			continue
		}
		if !bytes.Contains(b, []byte(version)) || !bytes.HasSuffix(b, []byte("\n")) {
			return fmt.Errorf("a model of version %q is loaded: %q is logged", version, b)
		}
		o.NT()
	}
	return nil
}

func init() {
	register("P23",
		Sub[warningCase]{Name: "warnings", Quick: 400, Thorough: 8000, Check: checkWarnings,
			Rule: "models of this and other versions loaded in turn with the log going to a file or nowhere: a model of another version leaves a line naming the version in the file, one of this version nothing, and both load. Non-trivial: another version with a log file.",
			Gen: func(t *rapid.T) warningCase {
				c := warningCase{M: drawModel(t, arch{maxLayers: 2, maxDim: 3})}
				for i := rapid.IntRange(1, 4).Draw(t, "loads"); i > 0; i-- {
					v := nn.VERSION
					switch rapid.IntRange(0, 3).Draw(t, "versionClass") {
					case 0:
						v = rapid.StringMatching("[0-9]\\.[0-9]\\.[0-9]").Draw(t, "version")
					case 1:
						b := []byte(v)
						b[rapid.IntRange(0, 4).Draw(t, "at")] = byte(rapid.IntRange('!', '~').Draw(t, "byte"))
						v = string(b)
					case 2:
						v = rapid.StringMatching("[!-~]{5}").Draw(t, "version")
					}
					c.Versions, c.Log = append(c.Versions, v), append(c.Log, pick(t, "log", "file", "file", "discard"))
				}
				return c
			}},
		Sub[unsetCase]{Name: "unset", Quick: 800, Thorough: 16000, Check: checkUnset,
			Gen: func(t *rapid.T) unsetCase {
				return unsetCase{genLog(t), rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "data")}
			},
			Rule: "training with logging intervals, saving, loading valid and broken data and refused calls in processes in which logging was never set up: nothing may panic, and valid calls succeed. All cases are non-trivial."},
		Sub[logCase]{Name: "entries", Quick: 6000, Thorough: 120000, Gen: genLog, Check: checkLog,
			Rule: "histories of up to seven logger set-ups (three files with and without prior content, standard output, nothing, files that cannot be opened) and trainings with any interval, epoch count, batch size and validation set; after every step all files and the standard streams must hold exactly the entries expected, with the losses and accuracies of a twin trained epoch by epoch. Non-trivial: at least one entry is expected."})
}
