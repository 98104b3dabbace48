//go:debug randseednop=0

// Command props runs the property checks. It is driven by ../../run.py, through environment
// variables: one process explores one shard of one property and writes what it did as JSON.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a check says about one case.
type Obs struct {
	nt       bool
	classes  map[string]int
	setAside int
}

// NT marks the case as non-trivial by the sub-check's rule.
func (o *Obs) NT() { o.nt = true }

// Class counts the case under a class.
func (o *Obs) Class(name string) { o.classes[name]++ }

// ClassIf counts the case under a class if cond holds.
func (o *Obs) ClassIf(cond bool, name string) {
	if cond {
		o.Class(name)
	}
}

// Aside counts n comparisons that were not judged.
func (o *Obs) Aside(n int) { o.setAside += n }

// Stats is what a worker reports for one sub-check.
type Stats struct {
	Sub         string         `json:"sub"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	SetAside    int            `json:"set_aside"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
}

// Failure is a failing case, after shrinking.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type runner interface {
	name() string
	run(ctx *context) (*Stats, *Failure, error)
	replay(raw json.RawMessage) error
	serial() bool
	hostile() bool
	large(quick, thorough, most int) runner
	broad(quick, thorough, most, budget int) runner
	deep(quick, thorough, most int) runner
}

// Sub is one sub-check of a property.
type Sub[C any] struct {
	Name            string
	Rule            string
	Quick, Thorough int  // cases over all shards
	Serial          bool // run in shard 0 only
	Patience        int  // how many times longer than usual a case may take
	Flat            bool // the numbers of cases are not multiplied by effort
	Hostile         bool // the case is written down before it is tried, as trying it may end the process
	Gen             func(t *rapid.T) C
	Check           func(c C, o *Obs) error
}

type context struct {
	id, tier      string
	seed          uint64
	shard, shards int
	cur           string // file for the case being tried
}

func (s Sub[C]) name() string  { return s.Name }
func (s Sub[C]) serial() bool  { return s.Serial }
func (s Sub[C]) hostile() bool { return s.Hostile }

func safely[C any](check func(C, *Obs) error, c C, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	resetGuards()
	defer resetGuards()
	if err := check(c, o); err != nil {
		return err
	}
	return checkGuards()
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

type stopTB struct{}

type tb struct {
	name   string
	failed bool
	log    []string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (t *tb) Skip(a ...any)             { panic(stopTB{}) }
func (t *tb) SkipNow()                  { panic(stopTB{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...any)            { t.failed = true; t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopTB{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(stopTB{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// The case being tried, for the watchdog.
var (
	busySince atomic.Int64 // unix nanoseconds, 0 when idle
	busyCase  atomic.Value // func() []byte
)

// A case that takes this long is reported by the watchdog; cases normally take milliseconds.
const hangLimit = 100 * time.Second

var patience atomic.Int64 // a factor for hangLimit

func watchdog(path string) {
	for {
		time.Sleep(time.Second)
		s := busySince.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < hangLimit*time.Duration(max(1, patience.Load())) {
			continue
		}
		f := busyCase.Load().(func() []byte)
		os.WriteFile(path, f(), 0o644)
		fmt.Fprintln(os.Stderr, "HANG")
		os.Exit(3)
	}
}

func (s Sub[C]) failure(ctx *context, c C, msg string) *Failure {
	raw, err := json.Marshal(c)
	if err != nil {
		raw, _ = json.Marshal("case cannot be written: " + err.Error())
	}
	return &Failure{ctx.id, s.Name, msg, raw}
}

// effort multiplies the numbers of cases, so that each quick check takes about ten seconds.
var effort = map[string]int{
	"P01": 20, "P02": 20, "P03": 6, "P04": 6, "P05": 6, "P06": 6, "P07": 2, "P08": 8, "P09": 6, "P10": 8, "P11": 8, "P12": 6, "P13": 6, "P14": 6,
	"P15": 12, "P16": 10, "P17": 6, "P18": 10, "P20": 8, "P21": 6, "P23": 5, "P25": 5, "P26": 8, "P27": 8, "P28": 5,
}

func (s Sub[C]) run(ctx *context) (*Stats, *Failure, error) {
	n := s.Quick
	if ctx.tier == "thorough" {
		n = s.Thorough
	}
	if !s.Flat {
		n *= max(1, effort[ctx.id])
	}
	if s.Serial {
		if ctx.shard != 0 {
			return nil, nil, nil
		}
	} else {
		lo, hi := n*ctx.shard/ctx.shards, n*(ctx.shard+1)/ctx.shards
		n = hi - lo
	}
	if n == 0 {
		return nil, nil, nil
	}
	st := &Stats{Sub: s.Name, Rule: s.Rule, Classes: map[string]int{}}
	seen := map[uint64]bool{}
	var fail *Failure
	seed := hash(fmt.Sprint(ctx.seed), ctx.id, s.Name, fmt.Sprint(ctx.shard))
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	t := &tb{name: ctx.id + "/" + s.Name}
	var internal error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					internal = fmt.Errorf("harness panic: %v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := s.Gen(rt)
			o := &Obs{classes: map[string]int{}}
			busyCase.Store(func() []byte {
				b, _ := json.Marshal(s.failure(ctx, c, "does not return"))
				return b
			})
			if s.Hostile && ctx.cur != "" {
				b, _ := json.Marshal(s.failure(ctx, c, "ends the process"))
				if err := os.WriteFile(ctx.cur, b, 0o644); err != nil {
					panic(err)
				}
			}
			patience.Store(int64(s.Patience))
			busySince.Store(time.Now().UnixNano())
			err := safely(s.Check, c, o)
			busySince.Store(0)
			if s.Hostile && ctx.cur != "" {
				os.Remove(ctx.cur)
			}
			if fail == nil {
				st.Evaluations++
				st.SetAside += o.setAside
				for k, v := range o.classes {
					st.Classes[k] += v
				}
				if o.nt {
					raw, err := json.Marshal(c)
					if err != nil {
						panic(err)
					}
					h := hash(s.Name, string(raw))
					if !seen[h] {
						seen[h] = true
						if len(st.Samples) < 2 {
							st.Samples = append(st.Samples, string(raw))
						}
					}
				}
			}
			if err != nil {
				fail = s.failure(ctx, c, err.Error())
				rt.Fatalf("failed")
			}
		})
	}()
	for h := range seen {
		st.Hashes = append(st.Hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(st.Hashes)
	if fail != nil {
		return st, fail, nil
	}
	if internal == nil && t.failed {
		internal = errors.New(strings.Join(t.log, "\n"))
	}
	return st, nil, internal
}

func (s Sub[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("cannot read the case: %w", err)
	}
	patience.Store(int64(s.Patience))
	return safely(s.Check, c, &Obs{classes: map[string]int{}})
}

var registry = map[string][]runner{}

func register(id string, subs ...runner) { registry[id] = append(registry[id], subs...) }

type report struct {
	Stats   []*Stats `json:"stats"`
	Failure *Failure `json:"failure"`
	Error   string   `json:"error"`
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// scratch is a directory for the checks that need files; run.py removes it.
var scratch string

func main() {
	testing.Init()
	flag.Parse()
	scratch = os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		d, err := os.MkdirTemp("", "nnverif")
		if err != nil {
			panic(err)
		}
		scratch = d
		defer os.RemoveAll(d)
	}
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		code := doReplay(path)
		if os.Getenv("VERIF_SCRATCH") == "" {
			os.RemoveAll(scratch)
		}
		os.Exit(code)
	}
	ctx := &context{
		id: os.Getenv("VERIF_ID"), tier: os.Getenv("VERIF_TIER"), seed: uint64(envInt("VERIF_SEED", 1)),
		shard: envInt("VERIF_SHARD", 0), shards: envInt("VERIF_SHARDS", 1), cur: os.Getenv("VERIF_CUR"),
	}
	go watchdog(ctx.cur)
	var rep report
	for _, s := range registry[ctx.id] {
		if only := os.Getenv("VERIF_SUB"); only != "" && s.name() != only {
			continue
		}
		t0 := time.Now()
		st, fail, err := s.run(ctx)
		if os.Getenv("VERIF_TIMING") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s shard %d: %v\n", ctx.id, s.name(), ctx.shard, time.Since(t0).Round(time.Millisecond))
		}
		if st != nil {
			rep.Stats = append(rep.Stats, st)
		}
		if err != nil {
			rep.Error = s.name() + ": " + err.Error()
			break
		}
		if fail != nil {
			rep.Failure = fail
			break
		}
	}
	if registry[ctx.id] == nil {
		rep.Error = "no such property: " + ctx.id
	}
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		fmt.Println(string(b))
	}
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	go func() {
		time.Sleep(hangLimit)
		time.Sleep(hangLimit * time.Duration(max(0, patience.Load()-1)))
		fmt.Println("FAILS: does not return")
		os.Exit(1)
	}()
	for _, s := range registry[f.Property] {
		if s.name() == f.Sub {
			if err := s.replay(f.Case); err != nil {
				fmt.Printf("FAILS: %s/%s: %v\n", f.Property, f.Sub, err)
				return 1
			}
			fmt.Printf("HOLDS: %s/%s on %s\n", f.Property, f.Sub, path)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such check:", f.Property, f.Sub)
	return 2
}
