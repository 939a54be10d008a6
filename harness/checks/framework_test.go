package checks

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"pgregory.net/rapid"
)

// stats of this worker, written to $VERIF_OUT/stats.json
type statsT struct {
	Check    string         `json:"check"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct"`
	Rules    []string       `json:"rules"`
	Classes  map[string]int `json:"classes"`
	Samples  []string       `json:"samples"`
	Failed   string         `json:"failed"`  // description of the (shrunk) failing case
	FailSub  string         `json:"failsub"` // subtest that failed
	Harness  string         `json:"harness"` // harness problem: no verdict
}

var (
	stats    = statsT{Classes: map[string]int{}}
	distinct = map[uint64]bool{}
	outDir   = os.Getenv("VERIF_OUT")
	curFile  *os.File
	caseCPU  atomic.Int64 // process CPU time (ns) at the start of the running case, 0 when idle
	baseN    int
	scratch  string
)

func tierThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	if outDir == "" {
		d, _ := os.MkdirTemp("", "verifout")
		outDir = d
	}
	// scratch lies below the shard's own directory, which the driver removes
	scratch = filepath.Join(outDir, "scratch")
	_ = os.MkdirAll(scratch, 0o755)
	home := filepath.Join(outDir, "home")
	_ = os.MkdirAll(home, 0o755)
	os.Setenv("HOME", home)
	if f, err := os.Create(filepath.Join(outDir, "current.txt")); err == nil {
		curFile = f
	}
	if f := flag.Lookup("rapid.checks"); f != nil {
		baseN, _ = strconv.Atoi(f.Value.String())
	}
	go watchdog()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

// watchdog ends the worker when one case burns an absurd amount of CPU time or memory:
// measured in CPU time of this process, so that a busy machine does not matter.
func watchdog() {
	samples := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		start := caseCPU.Load()
		if start == 0 {
			continue
		}
		if cpuNow()-start > int64(60*time.Second) && caseCPU.Load() == start {
			stop("HANG: one case used more than 60 s of CPU time")
		}
		metrics.Read(samples)
		if samples[0].Value.Uint64() > 5<<29 {
			stop("MEMORY: one case used more than 2.5 GiB")
		}
	}
}

func stop(msg string) {
	_ = os.WriteFile(filepath.Join(outDir, "abort.txt"), []byte(msg), 0o644)
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(97)
}

func writeStats() {
	stats.Distinct = len(distinct)
	b, _ := json.MarshalIndent(stats, "", " ")
	_ = os.WriteFile(filepath.Join(outDir, "stats.json"), b, 0o644)
	hs := make([]uint64, 0, len(distinct))
	for h := range distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
	}
	_ = os.WriteFile(filepath.Join(outDir, "hashes.bin"), buf, 0o644)
}

// C is the context of one generated case.
type C struct {
	*rapid.T
	sub    string
	desc   []string // what the case consists of
	failed bool
	dirs   []string
	nontr  bool
}

// sub runs one property of a check; frac scales the number of cases.
func sub(t *testing.T, name string, frac float64, rule string, prop func(c *C)) {
	t.Run(name, func(t *testing.T) {
		stats.Rules = append(stats.Rules, name+": "+rule)
		n := int(float64(baseN) * frac)
		if n < 1 {
			n = 1
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		var last string
		defer func() {
			if t.Failed() {
				stats.Failed = last
				if last == "" {
					stats.Harness = "the test failed without a recorded case"
				}
				stats.FailSub = t.Name()
			}
		}()
		failedOnce := false
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, sub: name}
			if !failedOnce {
				stats.Evals++
			}
			caseCPU.Store(cpuNow())
			defer caseCPU.Store(0)
			defer func() {
				for _, d := range c.dirs {
					os.RemoveAll(d)
				}
				if c.failed {
					failedOnce = true
					last = c.describe()
				}
			}()
			prop(c)
			if c.nontr && !failedOnce {
				h := fnv.New64a()
				for _, d := range c.desc {
					h.Write([]byte(d))
				}
				k := h.Sum64()
				if !distinct[k] {
					distinct[k] = true
					if n := len(distinct); n == 7 || n == 60 || n == 400 || n == 1500 || n == 5000 {
						s := c.describe()
						if len(s) > 1500 {
							s = s[:1500] + "…"
						}
						stats.Samples = append(stats.Samples, s)
					}
				}
			}
		})
	})
}

func (c *C) describe() string { return "[" + c.sub + "]\n" + strings.Join(c.desc, "\n") }

// Note records a part of the case (its text decides whether cases are distinct).
func (c *C) Note(format string, args ...any) {
	c.desc = append(c.desc, fmt.Sprintf(format, args...))
}

func (c *C) NonTrivial()         { c.nontr = true }
func (c *C) NonTrivialIf(b bool) { c.nontr = c.nontr || b }
func (c *C) Class(name string)   { stats.Classes[c.sub+"/"+name]++ }
func (c *C) ClassIf(b bool, n string) {
	if b {
		c.Class(n)
	}
}

// Violate reports that the property does not hold for this case.
func (c *C) Violate(format string, args ...any) {
	c.desc = append(c.desc, "VIOLATED: "+fmt.Sprintf(format, args...))
	c.failed = true
	c.T.Fatalf("violated: %s", fmt.Sprintf(format, args...))
}

// Harness reports a defect of the harness itself; it never counts as a violation.
func (c *C) Harness(format string, args ...any) {
	stats.Harness = fmt.Sprintf(format, args...) + "\n" + c.describe()
	writeStats()
	fmt.Fprintln(os.Stderr, "HARNESS:", stats.Harness)
	os.Exit(98)
}

func (c *C) mark(what string) {
	if curFile != nil {
		s := c.describe() + "\n" + what + "\n"
		_ = curFile.Truncate(0)
		_, _ = curFile.WriteAt([]byte(s), 0)
	}
}

// Dir makes a directory that exists until the case ends.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(scratch, "c")
	if err != nil {
		c.Harness("mkdir: %v", err)
	}
	c.dirs = append(c.dirs, d)
	return d
}

// Write writes files (relative name -> content) below dir and records them.
func (c *C) Write(dir string, files map[string]string) {
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.Note("--- file %q ---\n%s", n, files[n])
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			c.Harness("mkdir: %v", err)
		}
		if err := os.WriteFile(p, []byte(files[n]), 0o644); err != nil {
			c.Harness("write: %v", err)
		}
	}
}

// Out is what one evaluation produced.
type Out struct {
	Text string
	Any  any
	Err  error
}

func (o Out) String() string {
	if o.Err != nil {
		return "error: " + errText(o.Err)
	}
	if o.Any != nil {
		return fmt.Sprintf("%v", o.Any)
	}
	return o.Text
}

func errText(err error) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("(panic while formatting the error: %v)", r)
		}
	}()
	return err.Error()
}

// guard runs a call into the code under test; a panic there violates every property.
func (c *C) guard(what string, f func() Out) (o Out) {
	c.mark(what)
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Violate("%s panicked: %v\n%s", what, r, trimStack(st))
		}
	}()
	o = f()
	if o.Err != nil { // the text may depend on the working directory
		o.Err = errors.New(o.Err.Error())
	}
	return o
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

var memOpts = engine.Options{AllowUntypedManifest: true}

const memLoc = "/nonexistent-yisp-verif/main.yisp"

func (c *C) EvalOpt(src, loc string, o engine.Options) Out {
	return c.guard("EvaluateReaderToYaml", func() Out {
		e := engine.NewEngine(o)
		t, err := e.EvaluateReaderToYaml(strings.NewReader(src), loc)
		return Out{Text: t, Err: err}
	})
}

// Eval evaluates a program that needs no files.
func (c *C) Eval(src string) Out {
	c.Note("--- program ---\n%s", src)
	return c.EvalOpt(src, memLoc, memOpts)
}

func (c *C) EvalFile(path string, o engine.Options) Out {
	return c.guard("EvaluateFileToYaml "+path, func() Out {
		e := engine.NewEngine(o)
		t, err := e.EvaluateFileToYaml(path)
		return Out{Text: t, Err: err}
	})
}

func (c *C) EvalFileAny(path string, o engine.Options) Out {
	return c.guard("EvaluateFileToAny "+path, func() Out {
		e := engine.NewEngine(o)
		a, err := e.EvaluateFileToAny(path)
		return Out{Any: a, Err: err}
	})
}

func (c *C) EvalBytes(src string, vars map[string]any, o engine.Options) Out {
	return c.guard("EvaluateBytesToYaml", func() Out {
		e := engine.NewEngine(o)
		t, err := e.EvaluateBytesToYaml([]byte(src), vars)
		return Out{Text: t, Err: err}
	})
}

func newCoreEnv() *core.Env { return core.NewEnv() }

// Docs reads the output as data.
func (c *C) Docs(o Out) []*V {
	docs, err := readYAML(o.Text)
	if err != nil {
		c.Violate("the output is not proper YAML: %v\n--- output ---\n%s", err, o.Text)
	}
	return docs
}

// Expect compares an outcome with what the reference says (wantErr != nil: must fail).
func (c *C) Expect(o Out, want []*V, wantErr error, ordered bool) {
	if wantErr != nil {
		c.Class("expected-error")
		if o.Err == nil {
			c.Violate("expected an error (%v), got:\n%s", wantErr, o.Text)
		}
		return
	}
	if o.Err != nil {
		c.Violate("expected %v, got error: %s", want, errText(o.Err))
	}
	got := c.Docs(o)
	if d := diffDocs(want, got, ordered); d != "" {
		c.Violate("wrong result: %s\n--- expected ---\n%v\n--- got ---\n%s", d, want, o.Text)
	}
}

// ---- draws ----

func (c *C) Int(lo, hi int, label string) int {
	if lo == hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(c.T, label)
}
func (c *C) Bool(label string) bool { return rapid.Bool().Draw(c.T, label) }

// Chance is true in about n of 100 cases (and shrinks to false).
func (c *C) Chance(n int, label string) bool {
	return evens[7].Draw(c.T, label) >= 128-(n*128+50)/100
}

// evens draws n bits evenly (rapid's integer ranges prefer small numbers).
var evens = func() (g [16]*rapid.Generator[int]) {
	bit := rapid.Bool()
	for n := range g {
		g[n] = rapid.Custom(func(t *rapid.T) int {
			v := 0
			for range n {
				v <<= 1
				if bit.Draw(t, "") {
					v |= 1
				}
			}
			return v
		})
	}
	return
}()

// Even draws one of 0..n-1, each as often.
func (c *C) Even(n int, label string) int {
	if n < 2 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 2
	if n&(n-1) == 0 {
		k -= 2
	}
	return evens[k].Draw(c.T, label) * n >> k
}
func (c *C) Seed(label string) uint64 { return rapid.Uint64().Draw(c.T, label) }

func pick[X any](c *C, label string, xs ...X) X {
	return xs[c.Even(len(xs), label)]
}
