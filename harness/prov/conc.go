package prov

import (
	"bytes"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// ConcScenario runs operation sequences on several threads.
type ConcScenario struct {
	Store   string `json:"store"` // mem | layered
	MaxSize uint64 `json:"max"`
	MaxItem uint64 `json:"item"`
	Pre     []Op   `json:"pre,omitempty"`
	Threads [][]Op `json:"threads"`
	Delays  []int  `json:"delays,omitempty"` // µs, consumed cyclically by the remote tier (before, after)
	Repeat  int    `json:"repeat"`
}

type cin struct {
	op  Op
	key string
}
type cout struct {
	val    string
	ok     bool // get: present, delete: removed
	listed bool
}

// cstate is what a key holds.
type cstate struct {
	val     string
	present bool
	short   bool // was set to expire at once
}

// model of one key. With evictions a value may vanish at any time.
func cmodel(lossy, trustDelete bool) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return cstate{} },
		Step: func(st, in, out any) (bool, any) {
			s, i, o := st.(cstate), in.(cin), out.(cout)
			switch i.op.Op {
			case "set":
				return true, cstate{string(i.op.value()), true, i.op.TTL > 0}
			case "get":
				if !o.ok {
					return !s.present || lossy || s.short, cstate{short: s.short}
				}
				return s.present && s.val == o.val, s
			case "delete":
				if trustDelete && !s.short {
					if o.ok && !s.present || !o.ok && s.present && !lossy {
						return false, s
					}
				}
				return true, cstate{}
			case "purge", "flush":
				return true, cstate{}
			case "keys":
				if s.short { // expired keys may be listed
					return true, s
				}
				if !o.listed {
					return !s.present || lossy, cstate{}
				}
				return s.present, s
			}
			return true, s
		},
		Equal: func(a, b any) bool { return a == b },
		DescribeOperation: func(in, out any) string {
			i, o := in.(cin), out.(cout)
			return fmt.Sprintf("%s(%s%s %s)=%q/%v", i.op.Op, i.op.Key, i.op.Pat, clip(i.op.value()), o.val, o.ok || o.listed)
		},
	}
}

type rec struct {
	in   cin
	out  cout
	keys []string
	call int64
	ret  int64
	th   int
}

// RunConc executes the scenario, repeatedly.
func RunConc(t *testing.T, sc ConcScenario) core.Result {
	l := &core.Labels{}
	nontriv := false
	for i := 0; i < max(sc.Repeat, 1); i++ {
		v, over := runConc(&sc, l)
		if v != "" {
			return core.Result{Violation: v, NonTrivial: true, Labels: l.List()}
		}
		nontriv = nontriv || over
	}
	return core.Result{NonTrivial: nontriv, Labels: l.List()}
}

func runConc(sc *ConcScenario, l *core.Labels) (viol string, overlap bool) {
	var p provider.Provider
	var err error
	var rem *remote
	cfg := provider.InMemoryCacheConfig{MaxSize: sc.MaxSize, MaxItemSize: sc.MaxItem, DefaultTTL: "1h"}
	lossy := sc.Store == "mem" && sc.MaxSize < 10000
	if sc.Store == "layered" {
		rem = newRemote()
		p, err = provider.NewCached(rem, "x", time.Hour, cfg)
	} else {
		p, err = provider.NewInMemoryCache(cfg)
	}
	if err != nil {
		return "cannot open: " + err.Error(), false
	}
	start := time.Now()
	stamp := func() int64 { return int64(time.Since(start)) }
	do := func(op Op, th int) rec {
		r := rec{in: cin{op: op}, th: th, call: stamp()}
		switch op.Op {
		case "set":
			ttl := time.Hour
			if op.TTL > 0 {
				ttl = time.Duration(op.TTL)
			}
			p.Set(op.Key, append([]byte{}, op.value()...), ttl)
		case "get":
			b := p.Get(ctx, op.Key)
			r.out.ok, r.out.val = b != nil, string(b)
		case "delete":
			r.out.ok = p.Delete(ctx, op.Key)
		case "purge":
			_ = p.Purge(ctx, op.Pat)
		case "flush":
			_ = p.Flush(ctx)
		case "keys":
			r.keys = p.Keys(ctx, op.Key)
		case "size":
			p.Size()
		}
		r.ret = stamp()
		return r
	}
	var all []rec
	for _, op := range sc.Pre {
		all = append(all, do(op, 0))
	}
	if rem != nil && len(sc.Delays) > 0 {
		var mu sync.Mutex
		n := 0
		rem.delay = func(string, string) (time.Duration, time.Duration) {
			mu.Lock()
			defer mu.Unlock()
			a, b := sc.Delays[n%len(sc.Delays)], sc.Delays[(n+1)%len(sc.Delays)]
			n += 2
			return time.Duration(a) * time.Microsecond, time.Duration(b) * time.Microsecond
		}
	}
	var wg sync.WaitGroup
	res := make([][]rec, len(sc.Threads))
	gate := make(chan struct{})
	var pmu sync.Mutex
	for i := range sc.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					viol = core.FromPanicStack(r, string(debug.Stack())).Violation
					pmu.Unlock()
				}
			}()
			<-gate
			for _, op := range sc.Threads[i] {
				res[i] = append(res[i], do(op, i+1))
			}
		}()
	}
	close(gate)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fmt.Fprintln(os.Stderr, "VERIF-HANG: concurrent store operations do not terminate")
		os.Exit(97)
	}
	if viol != "" {
		return viol, true
	}
	if rem != nil {
		rem.delay = nil
	}
	for i := range res {
		for j, r := range res[i] {
			for k := range res {
				if k == i {
					continue
				}
				for _, o := range res[k] {
					if o.call < r.ret && r.call < o.ret {
						overlap = true
					}
				}
			}
			_ = j
		}
		all = append(all, res[i]...)
	}
	if overlap {
		l.Add("overlap")
	}
	// final reads belong to the history
	keys, short := map[string]bool{}, map[string]bool{}
	for _, r := range all {
		if r.in.op.TTL > 0 {
			short[r.in.op.Key] = true
			l.Add("short-lived")
		}
		if r.in.op.Op == "set" || r.in.op.Op == "get" || r.in.op.Op == "delete" {
			keys[r.in.op.Key] = true
		}
	}
	for _, k := range core.SortedKeys(keys) {
		all = append(all, do(Op{Op: "get", Key: k}, 0))
	}
	model := cmodel(lossy, sc.Store == "mem")
	for _, k := range core.SortedKeys(keys) {
		var h []porcupine.Operation
		for _, r := range all {
			switch r.in.op.Op {
			case "set", "get", "delete":
				if r.in.op.Key != k {
					continue
				}
			case "purge":
				if r.in.op.Pat != "" && !wildcard(r.in.op.Pat, k) {
					continue
				}
			case "keys":
				if sc.Store == "layered" || !strings.HasPrefix(k, r.in.op.Key) {
					continue
				}
				for _, x := range r.keys {
					if x == k {
						r.out.listed = true
					}
				}
			case "size":
				continue
			}
			h = append(h, porcupine.Operation{ClientId: r.th, Input: r.in, Output: r.out, Call: r.call, Return: r.ret})
		}
		switch porcupine.CheckOperationsTimeout(model, h, 10*time.Second) {
		case porcupine.Illegal:
			sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
			var b strings.Builder
			for _, o := range h {
				fmt.Fprintf(&b, "\n  t%d %7.1f..%7.1fµs %s", o.ClientId, float64(o.Call)/1e3, float64(o.Return)/1e3, model.DescribeOperation(o.Input, o.Output))
			}
			return fmt.Sprintf("no sequential order of the calls explains the results for key %q:%s", k, b.String()), true
		case porcupine.Unknown:
			l.Add("porcupine-timeout")
		}
	}
	// agreement after quiescence
	ks := p.Keys(ctx, "")
	if !uniq(ks) {
		return fmt.Sprintf("final listing has duplicates: %q", ks), true
	}
	if n := p.Size(); n != len(ks) {
		return fmt.Sprintf("final size %d, %d keys listed", n, len(ks)), true
	}
	listed := map[string]bool{}
	for _, k := range ks {
		listed[k] = true
		if p.Get(ctx, k) == nil && !short[k] {
			return fmt.Sprintf("finally key %q is listed but not readable", k), true
		}
	}
	for k := range keys {
		got := p.Get(ctx, k)
		if got != nil && !listed[k] {
			return fmt.Sprintf("finally key %q is readable but not listed", k), true
		}
		if rem != nil {
			rv, _ := rem.live(k)
			if !bytes.Equal(rv, got) || (rv == nil) != (got == nil) {
				return fmt.Sprintf("finally the tiers disagree on key %q: layered %s, remote %s", k, clip(got), clip(rv)), true
			}
		}
	}
	if rem == nil {
		if lossy {
			l.Add("lossy")
			var total uint64
			for _, k := range ks {
				total += isize(p.Get(ctx, k))
			}
			if total > sc.MaxSize {
				return fmt.Sprintf("finally %d bytes stored of at most %d", total, sc.MaxSize), true
			}
		}
		per := sc.MaxItem
		n := int(sc.MaxSize / per)
		for i := 0; i < n; i++ {
			p.Set(fmt.Sprintf("fill-%d", i), make([]byte, per-24), time.Hour)
		}
		for i := 0; i < n; i++ {
			if p.Get(ctx, fmt.Sprintf("fill-%d", i)) == nil {
				return fmt.Sprintf("afterwards only part of the capacity is usable: item %d of %d is gone", i, n), true
			}
		}
		// and not more than it: the fill leaves no room for anything as large as an item
		if k := p.Keys(ctx, ""); uint64(len(k)) > sc.MaxSize/25 {
			return fmt.Sprintf("afterwards %d items are stored", len(k)), true
		}
		var total uint64
		for _, k := range p.Keys(ctx, "") {
			total += isize(p.Get(ctx, k))
		}
		if total > sc.MaxSize {
			return fmt.Sprintf("after filling, %d bytes are stored of at most %d: accounting drifted", total, sc.MaxSize), true
		}
	}
	return "", overlap
}

func genConcOps(rt *rapid.T, keys []string, n, th int, sizes []int, heavy []string, short bool) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(rt, "k")
		op := rapid.SampledFrom(heavy).Draw(rt, "op")
		switch op {
		case "set":
			o := Op{Op: op, Key: k, Val: fmt.Sprintf("t%d.%d", th, i)}
			o.Len = max(len(o.Val), rapid.SampledFrom(sizes).Draw(rt, "size"))
			if short && rapid.IntRange(0, 3).Draw(rt, "short") < 2 {
				o.TTL = 1 // ns
			}
			ops = append(ops, o)
		case "purge":
			ops = append(ops, Op{Op: op, Pat: rapid.SampledFrom([]string{"*", "a*", k}).Draw(rt, "pat")})
		case "keys":
			ops = append(ops, Op{Op: op, Key: rapid.SampledFrom([]string{"", "a"}).Draw(rt, "prefix")})
		case "flush", "size":
			ops = append(ops, Op{Op: op})
		default:
			ops = append(ops, Op{Op: op, Key: k})
		}
	}
	return ops
}

var (
	concMix   = []string{"set", "set", "set", "get", "get", "get", "delete", "purge", "flush", "keys", "size"}
	removeMix = []string{"get", "get", "get", "set", "delete", "delete", "purge", "flush"}
)

// GenConc draws a mixed concurrent history.
func GenConc(rt *rapid.T) ConcScenario {
	sc := ConcScenario{Store: rapid.SampledFrom([]string{"mem", "mem", "mem", "layered"}).Draw(rt, "store"), MaxSize: 100000, MaxItem: 2000}
	keys := []string{"a", "ab", "b", "c"}[:rapid.IntRange(1, 4).Draw(rt, "nkeys")]
	sizes := []int{1, 10, 50}
	if sc.Store == "mem" && rapid.Bool().Draw(rt, "tiny") {
		sc.MaxItem = 100
		sc.MaxSize = uint64(rapid.SampledFrom([]int{100, 150, 220, 350}).Draw(rt, "max"))
		sizes = []int{1, 30, 76, 50, 80}
	}
	short := sc.Store == "mem" && rapid.IntRange(0, 2).Draw(rt, "expiry") == 0
	nt := rapid.IntRange(2, 4).Draw(rt, "threads")
	sc.Pre = genConcOps(rt, keys, rapid.IntRange(0, 4).Draw(rt, "npre"), 9, sizes, []string{"set"}, short)
	for i := 0; i < nt; i++ {
		sc.Threads = append(sc.Threads, genConcOps(rt, keys, rapid.IntRange(1, 8).Draw(rt, "nops"), i, sizes, concMix, short))
	}
	if sc.Store == "layered" {
		sc.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 50, 200}), 2, 9).Draw(rt, "delays")
		sc.Repeat = 1
	} else {
		sc.Repeat = 4
	}
	return sc
}

// GenRemoval draws reads and removals over a slow remote tier.
func GenRemoval(rt *rapid.T) ConcScenario {
	sc := ConcScenario{Store: "layered", MaxSize: 100000, MaxItem: 2000, Repeat: 1}
	keys := []string{"a", "b"}[:rapid.IntRange(1, 2).Draw(rt, "nkeys")]
	sc.Pre = genConcOps(rt, keys, rapid.IntRange(0, 2).Draw(rt, "npre"), 9, []int{1}, []string{"set"}, false)
	nt := rapid.IntRange(2, 4).Draw(rt, "threads")
	for i := 0; i < nt; i++ {
		sc.Threads = append(sc.Threads, genConcOps(rt, keys, rapid.IntRange(1, 4).Draw(rt, "nops"), i, []int{1}, removeMix, false))
	}
	sc.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 100, 300}), 2, 9).Draw(rt, "delays")
	return sc
}
