// Package core runs generated-input checks: it draws scenarios with rapid, executes them
// against the code under test, shrinks failures and writes a machine-readable result.
package core

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Result is the verdict on one executed scenario.
type Result struct {
	// Violation describes what broke; empty if the property held.
	Violation string
	// NonTrivial reports whether the case exercised what the property is about.
	NonTrivial bool
	// Labels classify the case.
	Labels []string
	// Skip: the case could not be judged (for example, the environment was too slow). Counted, never a pass.
	Skip bool
}

// Bad builds a violating result.
func Bad(f string, a ...any) Result { return Result{Violation: fmt.Sprintf(f, a...)} }

type part struct {
	prop, name, rule string
	quick, thorough  int
	gen              func(*rapid.T) any
	decode           func([]byte) (any, error)
	run              func(*testing.T, any) Result
	watchdog         time.Duration
}

var parts []*part

// Register adds one generated check of a property. Scenarios must be plain JSON data.
func Register[S any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) S, run func(*testing.T, S) Result) {
	parts = append(parts, &part{
		prop: prop, name: name, rule: rule, quick: quick, thorough: thorough,
		gen: func(rt *rapid.T) any { return gen(rt) },
		decode: func(b []byte) (any, error) {
			var s S
			err := json.Unmarshal(b, &s)
			return s, err
		},
		run:      func(t *testing.T, s any) Result { return run(t, s.(S)) },
		watchdog: 90 * time.Second,
	})
}

var (
	fProp   = flag.String("verif.prop", "", "property")
	fTier   = flag.String("verif.tier", "quick", "tier")
	fSeed   = flag.Uint64("verif.seed", 1, "seed")
	fShard  = flag.Int("verif.shard", 0, "shard index")
	fShards = flag.Int("verif.shards", 1, "number of shards")
	fOut    = flag.String("verif.out", "", "result file")
	fCur    = flag.String("verif.cur", "", "file receiving the scenario being executed")
	fReplay = flag.String("verif.replay", "", "scenario file(s) to execute, comma separated")
	fScale  = flag.Float64("verif.scale", 1, "scale the number of cases")
	fSkip   = flag.String("verif.skip", "", "parts to leave out, comma separated")
	fPart   = flag.String("verif.part", "", "only this part")
)

// ReplayFile is the format of replay and corpus files.
type ReplayFile struct {
	Property  string          `json:"property"`
	Part      string          `json:"part"`
	Violation string          `json:"violation,omitempty"`
	Note      string          `json:"note,omitempty"`
	Scenario  json.RawMessage `json:"scenario"`
}

type partOut struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped"`
	Hashes      []string          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   *ReplayFile       `json:"violation,omitempty"`
	Error       string            `json:"error,omitempty"`
}

type output struct {
	Parts []*partOut `json:"parts"`
	Done  bool       `json:"done"`
}

// recorder implements rapid.TB.
type recorder struct {
	failed bool
	logs   []string
}
type stop struct{}

func (r *recorder) Helper()      {}
func (r *recorder) Name() string { return "verif" }
func (r *recorder) Logf(f string, a ...any) {
	if len(r.logs) < 50 {
		r.logs = append(r.logs, fmt.Sprintf(f, a...))
	}
}
func (r *recorder) Log(a ...any)              { r.Logf("%s", fmt.Sprint(a...)) }
func (r *recorder) Skipf(f string, a ...any)  { r.Logf(f, a...); panic(stop{}) }
func (r *recorder) Skip(a ...any)             { r.Log(a...); panic(stop{}) }
func (r *recorder) SkipNow()                  { panic(stop{}) }
func (r *recorder) Errorf(f string, a ...any) { r.Logf(f, a...); r.failed = true }
func (r *recorder) Error(a ...any)            { r.Log(a...); r.failed = true }
func (r *recorder) Fatalf(f string, a ...any) { r.Errorf(f, a...); panic(stop{}) }
func (r *recorder) Fatal(a ...any)            { r.Error(a...); panic(stop{}) }
func (r *recorder) FailNow()                  { r.failed = true; panic(stop{}) }
func (r *recorder) Fail()                     { r.failed = true }
func (r *recorder) Failed() bool              { return r.failed }

// Main is called from each package's single test.
func Main(t *testing.T) {
	if *fProp == "" {
		t.Skip("no property selected")
	}
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	out := &output{}
	defer func() { writeOut(out) }()

	if *fReplay != "" {
		for _, f := range strings.Split(*fReplay, ",") {
			po := replayOne(t, f)
			out.Parts = append(out.Parts, po)
		}
		out.Done = true
		return
	}
	found := false
	skip := "," + *fSkip + ","
	for _, p := range parts {
		if p.prop == *fProp && strings.Contains(skip, ","+p.name+",") {
			found = true
			continue
		}
		if p.prop != *fProp || (*fPart != "" && *fPart != p.name) {
			continue
		}
		found = true
		out.Parts = append(out.Parts, runPart(t, p))
	}
	if !found {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: no part for property %s\n", *fProp)
		os.Exit(3)
	}
	out.Done = true
}

func writeOut(o *output) {
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
		os.Exit(3)
	}
	if *fOut == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	tmp := *fOut + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		_ = os.Rename(tmp, *fOut)
	}
}

func replayOne(t *testing.T, file string) *partOut {
	po := &partOut{Name: filepath.Base(file), Labels: map[string]int{}}
	b, err := os.ReadFile(file)
	if err != nil {
		po.Error = err.Error()
		return po
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		po.Error = err.Error()
		return po
	}
	for _, p := range parts {
		if p.prop == rf.Property && p.name == rf.Part {
			s, err := p.decode(rf.Scenario)
			if err != nil {
				po.Error = err.Error()
				return po
			}
			po.Name = p.name
			po.Rule = p.rule
			r := p.execute(t, s, rf.Scenario)
			po.Evaluations = 1
			if r.Skip {
				po.Skipped = 1
			}
			for _, l := range r.Labels {
				po.Labels[l]++
			}
			if r.Violation != "" {
				po.Violation = &ReplayFile{Property: p.prop, Part: p.name, Violation: r.Violation, Scenario: rf.Scenario}
			}
			return po
		}
	}
	po.Error = fmt.Sprintf("no part %s/%s", rf.Property, rf.Part)
	return po
}

// execute runs one scenario with crash attribution and a watchdog.
func (p *part) execute(t *testing.T, s any, raw []byte) (res Result) {
	if *fCur != "" {
		b, _ := json.Marshal(ReplayFile{Property: p.prop, Part: p.name, Scenario: raw})
		_ = os.WriteFile(*fCur, b, 0o644)
	}
	timer := time.AfterFunc(p.watchdog, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "VERIF-HANG: case did not finish within %v\n%s\n", p.watchdog, buf[:n])
		os.Exit(97)
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			res = FromPanic(r)
		}
	}()
	return p.run(t, s)
}

// FromPanic turns a recovered panic into a violation if the code under test raised it; a panic
// raised by the harness itself is passed on.
func FromPanic(r any) Result {
	st := string(debug.Stack())
	return FromPanicStack(r, st)
}

// FromPanicStack is FromPanic for a stack taken elsewhere.
func FromPanicStack(r any, st string) Result {
	if blame(st) {
		return Result{Violation: fmt.Sprintf("panic in the code under test: %v\n%s", r, trimStack(st)), NonTrivial: true}
	}
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: panic %v\n%s\n", r, st)
	os.Exit(3)
	return Result{}
}

// blame reports whether the innermost frame that is neither runtime nor library code belongs to kache.
func blame(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/kacheio/kache/") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness/") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/kacheio/") {
			out = append(out, l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func runPart(t *testing.T, p *part) *partOut {
	po := &partOut{Name: p.name, Rule: p.rule, Labels: map[string]int{}}
	n := p.quick
	if *fTier == "thorough" {
		n = p.thorough
	}
	n = int(float64(n) * *fScale)
	// share of this shard
	share := n / *fShards
	if *fShard < n%*fShards {
		share++
	}
	if share == 0 {
		return po
	}
	_ = flag.Set("rapid.checks", fmt.Sprint(share))
	_ = flag.Set("rapid.seed", fmt.Sprint(mix(*fSeed, "/", p.prop, "/", p.name, "/", *fShard)))

	seen := map[string]bool{}
	failing := false
	var failedAt time.Time
	prop := func(rt *rapid.T) {
		if failing && time.Since(failedAt) > 25*time.Second { // slow cases: the reproduction found so far is small enough
			return
		}
		s := p.gen(rt)
		raw, err := json.Marshal(s)
		if err != nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
			os.Exit(3)
		}
		// decode again so that execution from a replay file is identical
		s2, err := p.decode(raw)
		if err != nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
			os.Exit(3)
		}
		breathe()
		r := p.execute(t, s2, raw)
		if !failing {
			po.Evaluations++
			for _, l := range r.Labels {
				po.Labels[l]++
			}
			if r.Skip {
				po.Skipped++
			} else if r.NonTrivial {
				h := sha256.Sum256(raw)
				k := hex.EncodeToString(h[:8])
				if !seen[k] {
					seen[k] = true
					po.Hashes = append(po.Hashes, k)
					if len(po.Samples) < 2 && *fShard == 0 && len(raw) < 6000 {
						po.Samples = append(po.Samples, raw)
					}
				}
			}
		}
		if r.Violation != "" {
			if !failing {
				failing, failedAt = true, time.Now()
			}
			if po.Violation == nil || len(raw) <= len(po.Violation.Scenario) {
				po.Violation = &ReplayFile{Property: p.prop, Part: p.name, Violation: r.Violation, Scenario: raw}
				if *fOut != "" { // survive a crash while shrinking
					writeOut(&output{Parts: []*partOut{po}})
				}
			}
			rt.Fatalf("violation")
		}
	}
	rec := &recorder{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(rec, prop)
	}()
	if rec.failed && po.Violation == nil {
		po.Error = strings.Join(rec.logs, "\n")
	}
	return po
}

// Bubble runs f inside a synctest bubble (virtual time). A deadlock of the goroutines in the bubble
// is reported as an error text.
func Bubble(t *testing.T, f func()) (deadlock string) {
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprint(r)
			if strings.Contains(m, "deadlock") {
				deadlock = m
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
	return ""
}

// Guard runs f and converts a panic of the code under test to a violation text.
func Guard(f func()) (v string) {
	defer func() {
		if r := recover(); r != nil {
			v = FromPanic(r).Violation
		}
	}()
	f()
	return ""
}

// SortedKeys returns the sorted keys of m.
func SortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Labels is a small concurrent label set.
type Labels struct {
	mu sync.Mutex
	m  map[string]bool
}

// Add adds labels.
func (l *Labels) Add(s ...string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.m == nil {
		l.m = map[string]bool{}
	}
	for _, x := range s {
		l.m[x] = true
	}
}

// Has reports whether a label is set.
func (l *Labels) Has(s string) bool { l.mu.Lock(); defer l.mu.Unlock(); return l.m[s] }

// List returns the labels.
func (l *Labels) List() []string { l.mu.Lock(); defer l.mu.Unlock(); return SortedKeys(l.m) }
