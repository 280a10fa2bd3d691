// Package prov checks the cache stores.
package prov

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

var ctx = context.Background()

// Op is one store operation.
type Op struct {
	Op   string `json:"op"` // set get delete keys purge flush size sleep bulk
	Key  string `json:"k,omitempty"`
	Val  string `json:"v,omitempty"`
	B64  string `json:"b64,omitempty"`
	Len  int    `json:"len,omitempty"` // value of this many bytes, derived from Val
	TTL  int64  `json:"ttl,omitempty"` // ms
	MS   int64  `json:"ms,omitempty"`  // sleep
	Inst int    `json:"i,omitempty"`   // instance
	Pat  string `json:"p,omitempty"`
	N    int    `json:"n,omitempty"` // bulk: so many keys

	quiet bool // no comparison of the whole store after this one
}

// expand writes out bulk operations: N values under numbered keys.
func expand(ops []Op) (out []Op) {
	for _, o := range ops {
		if o.Op != "bulk" {
			out = append(out, o)
			continue
		}
		for i := 0; i < o.N; i++ {
			s := o
			s.Op, s.Key, s.quiet = "set", fmt.Sprintf("%s%d", o.Key, i), i < o.N-1
			out = append(out, s)
		}
	}
	return
}

func (o *Op) value() []byte {
	if o.B64 != "" {
		b, _ := base64.StdEncoding.DecodeString(o.B64)
		return b
	}
	b := []byte(o.Val)
	if o.Len > 0 {
		r := make([]byte, o.Len)
		for i := range r {
			r[i] = byte('a' + i%26)
		}
		copy(r, b)
		return r
	}
	return b
}

// MemScenario is a history on the in-memory store.
type MemScenario struct {
	MaxSize uint64 `json:"max,omitempty"`
	MaxItem uint64 `json:"item,omitempty"`
	TTL     string `json:"ttl,omitempty"`
	Via     string `json:"via,omitempty"` // "", "create": through CreateCacheProvider
	Ops     []Op   `json:"ops"`
}

func (s *MemScenario) open() (provider.Provider, error) {
	cfg := provider.InMemoryCacheConfig{MaxSize: s.MaxSize, MaxItemSize: s.MaxItem, DefaultTTL: s.TTL}
	if s.Via == "create" {
		return provider.CreateCacheProvider("x", provider.ProviderBackendConfig{Backend: "inmemory", InMemory: cfg})
	}
	return provider.NewInMemoryCache(cfg)
}

// wildcard reports whether key matches pattern, where only * is special.
func wildcard(pattern, key string) bool {
	if pattern == "" {
		return key == ""
	}
	if pattern[0] == '*' {
		for i := 0; i <= len(key); i++ {
			if wildcard(pattern[1:], key[i:]) {
				return true
			}
		}
		return false
	}
	return key != "" && key[0] == pattern[0] && wildcard(pattern[1:], key[1:])
}

type mitem struct {
	val     []byte
	expires time.Time // zero: never
}

func (m *mitem) live(now time.Time) (alive, edge bool) {
	if m.expires.IsZero() || now.Before(m.expires) {
		return true, false
	}
	return false, now.Equal(m.expires)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func uniq(k []string) bool {
	m := map[string]bool{}
	for _, x := range k {
		if m[x] {
			return false
		}
		m[x] = true
	}
	return true
}

func clip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q..(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// RunMap judges a history against a map with expiry.
func RunMap(t *testing.T, sc MemScenario) core.Result {
	var v string
	l := &core.Labels{}
	dl := core.Bubble(t, func() {
		if g := core.Guard(func() { v = runMap(&sc, l) }); g != "" {
			v = g
		}
	})
	if dl != "" {
		v = "deadlock: " + dl
	}
	nt := (l.Has("get-hit") || l.Has("expired") || l.Has("purged")) && (l.Has("delete-hit") || l.Has("purged") || l.Has("expired") || l.Has("overwrite") || l.Has("flushed"))
	return core.Result{Violation: v, NonTrivial: nt, Labels: l.List()}
}

func runMap(sc *MemScenario, l *core.Labels) string {
	p, err := sc.open()
	if err != nil {
		return "cannot open: " + err.Error()
	}
	never := sc.TTL == "-1"
	m := map[string]*mitem{}
	for i, op := range expand(sc.Ops) {
		now := time.Now()
		w := fmt.Sprintf("op %d %s %q", i, op.Op, op.Key+op.Pat)
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
		case "set":
			val := op.value()
			p.Set(op.Key, append([]byte{}, val...), time.Duration(op.TTL)*time.Millisecond)
			if m[op.Key] != nil {
				l.Add("overwrite")
			}
			it := &mitem{val: val}
			if !never {
				it.expires = now.Add(time.Duration(op.TTL) * time.Millisecond)
			}
			m[op.Key] = it
			if got := p.Get(ctx, op.Key); !bytes.Equal(got, val) || got == nil {
				return fmt.Sprintf("%s: not readable right after being set: %s", w, clip(got))
			}
		case "get":
			got := p.Get(ctx, op.Key)
			it := m[op.Key]
			if it == nil {
				l.Add("get-miss")
				if got != nil {
					return fmt.Sprintf("%s: returned %s for an absent key", w, clip(got))
				}
				break
			}
			alive, edge := it.live(now)
			switch {
			case alive:
				l.Add("get-hit")
				if got == nil || !bytes.Equal(got, it.val) {
					return fmt.Sprintf("%s: returned %s, want %s", w, clip(got), clip(it.val))
				}
			case edge && got != nil:
				if !bytes.Equal(got, it.val) {
					return fmt.Sprintf("%s: returned %s, want %s", w, clip(got), clip(it.val))
				}
			default:
				l.Add("expired")
				if got != nil {
					return fmt.Sprintf("%s: returned %s although its time to live has passed", w, clip(got))
				}
				delete(m, op.Key)
			}
		case "delete":
			it := m[op.Key]
			got := p.Delete(ctx, op.Key)
			if it == nil && got {
				return w + ": reports a removal of an absent key"
			}
			if it != nil {
				if alive, _ := it.live(now); alive && !got {
					return w + ": does not report the removal"
				}
				l.Add("delete-hit")
			}
			delete(m, op.Key)
			if g := p.Get(ctx, op.Key); g != nil {
				return w + ": still readable after delete"
			}
		case "keys":
			if v := checkKeys(p, m, op.Key, now); v != "" {
				return w + ": " + v
			}
			if op.Key != "" {
				l.Add("keys-prefix")
			}
		case "size":
			if n, k := p.Size(), len(p.Keys(ctx, "")); n != k {
				return fmt.Sprintf("%s: size %d but %d keys", w, n, k)
			}
		case "purge":
			if err := p.Purge(ctx, op.Pat); err != nil {
				return fmt.Sprintf("%s: purge failed: %v", w, err)
			}
			for k := range m {
				if op.Pat == "" || wildcard(op.Pat, k) {
					l.Add("purged")
					delete(m, k)
				} else {
					l.Add("purge-kept")
				}
			}
			if v := checkKeys(p, m, "", now); v != "" {
				return w + ": " + v
			}
		case "flush":
			if err := p.Flush(ctx); err != nil {
				return fmt.Sprintf("%s: flush failed: %v", w, err)
			}
			if len(m) > 0 {
				l.Add("flushed")
			}
			m = map[string]*mitem{}
			if n := p.Size(); n != 0 {
				return fmt.Sprintf("%s: size %d after flush", w, n)
			}
		}
	}
	now := time.Now()
	if v := checkKeys(p, m, "", now); v != "" {
		return "final: " + v
	}
	for k, it := range m {
		alive, edge := it.live(now)
		got := p.Get(ctx, k)
		if alive && (got == nil || !bytes.Equal(got, it.val)) || !alive && !edge && got != nil {
			return fmt.Sprintf("final: key %q returns %s, want %s (alive=%v)", k, clip(got), clip(it.val), alive)
		}
	}
	return ""
}

// checkKeys: every live key with the prefix is listed, nothing else except expired entries.
func checkKeys(p provider.Provider, m map[string]*mitem, prefix string, now time.Time) string {
	ks := p.Keys(ctx, prefix)
	if !uniq(ks) {
		return fmt.Sprintf("listing contains duplicates: %q", ks)
	}
	have := map[string]bool{}
	for _, k := range ks {
		have[k] = true
		if m[k] == nil {
			return fmt.Sprintf("listing contains %q, which is not stored", k)
		}
		if !strings.HasPrefix(k, prefix) {
			return fmt.Sprintf("listing for prefix %q contains %q", prefix, k)
		}
	}
	live, all := 0, 0
	for k, it := range m {
		if alive, _ := it.live(now); alive {
			live++
			if strings.HasPrefix(k, prefix) && !have[k] {
				return fmt.Sprintf("listing for prefix %q lacks %q", prefix, k)
			}
		}
		all++
	}
	if n := p.Size(); n < live || n > all {
		return fmt.Sprintf("size %d, but %d live of %d entries", n, live, all)
	}
	return ""
}

var keyAtoms = []string{"kache-", "http://", "h1", "/", "a", "b", ".", "+", "(", ")", "[", "]", "?", "x=1", "\\", "^", "$", "|", "{", "}", "é", "*", "-", ":", "A", " ", "%2F"}

func genKey(rt *rapid.T, n string) string {
	if rapid.IntRange(0, 2).Draw(rt, n+"kind") == 0 {
		return rapid.SampledFrom([]string{"kache-http://h1/a", "kache-http://h1/a.b", "kache-http://h1/aXb", "kache-http://h1/a?x=1", "kache-http://h1/(a)", "kache-http://h2/a", "a", "b", "ab", "", "kache-http://h1/a+b", "kache-http://h1/aab"}).Draw(rt, n)
	}
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(keyAtoms), 1, 4).Draw(rt, n), "")
}

func genPattern(rt *rapid.T, keys []string) string {
	switch rapid.IntRange(0, 5).Draw(rt, "patkind") {
	case 0:
		return genKey(rt, "patkey")
	case 1:
		return rapid.SampledFrom([]string{"", "*", "**", "*a*", "*/*", "kache-*", "*.", "*?*", "a*b", ".*", "[ab]", "?", "*(*", "a|b", ".", "^a", "a$", "\\*"}).Draw(rt, "pat")
	}
	// derived from a key
	k := rapid.SampledFrom(keys).Draw(rt, "patbase")
	if k == "" {
		return "*"
	}
	r := []rune(k)
	i := rapid.IntRange(0, len(r)).Draw(rt, "pi")
	j := rapid.IntRange(i, len(r)).Draw(rt, "pj")
	switch rapid.IntRange(0, 3).Draw(rt, "patform") {
	case 0:
		return string(r[:i]) + "*" + string(r[j:])
	case 1:
		return "*" + string(r[i:j]) + "*"
	case 2:
		return string(r)
	default:
		return string(r[:i]) + "*"
	}
}

// GenMap draws a history.
func GenMap(rt *rapid.T) MemScenario {
	sc := MemScenario{TTL: rapid.SampledFrom([]string{"", "120s", "1h", "-1", "bogus", "5s"}).Draw(rt, "ttlcfg")}
	if rapid.Bool().Draw(rt, "via") {
		sc.Via = "create"
	}
	keys := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) string { return genKey(t, "key") }), 2, 6, func(s string) string { return s }).Draw(rt, "keys")
	key := func() string { return rapid.SampledFrom(keys).Draw(rt, "k") }
	n := rapid.IntRange(3, 25).Draw(rt, "n")
	if rapid.IntRange(0, 99).Draw(rt, "large") == 0 {
		n = rapid.IntRange(2, 8).Draw(rt, "nlarge")
		sc.Ops = append(sc.Ops, Op{Op: "bulk", Key: key(), N: manyKeys(rt), Val: "b", TTL: rapid.SampledFrom([]int64{1000, 60000, 3600000}).Draw(rt, "bttl")})
	}
	for i := 0; i < n; i++ {
		switch rapid.SampledFrom([]string{"set", "set", "set", "set", "get", "get", "get", "delete", "keys", "size", "purge", "flush", "sleep", "sleep"}).Draw(rt, "op") {
		case "set":
			op := Op{Op: "set", Key: key(), TTL: rapid.SampledFrom([]int64{1, 500, 1000, 2000, 5000, 60000, 120000, 3600000}).Draw(rt, "ttl")}
			switch rapid.IntRange(0, 3).Draw(rt, "valkind") {
			case 0:
				op.B64 = base64.StdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes"))
			case 1:
				op.Val = fmt.Sprintf("v%d", i)
				op.Len = rapid.IntRange(1, 2000).Draw(rt, "len")
			default:
				op.Val = fmt.Sprintf("v%d", i)
			}
			sc.Ops = append(sc.Ops, op)
		case "get":
			sc.Ops = append(sc.Ops, Op{Op: "get", Key: key()})
		case "delete":
			sc.Ops = append(sc.Ops, Op{Op: "delete", Key: key()})
		case "keys":
			k := key()
			if k != "" {
				r := []rune(k)
				k = string(r[:rapid.IntRange(0, len(r)).Draw(rt, "plen")])
			}
			sc.Ops = append(sc.Ops, Op{Op: "keys", Key: k})
		case "size":
			sc.Ops = append(sc.Ops, Op{Op: "size"})
		case "purge":
			sc.Ops = append(sc.Ops, Op{Op: "purge", Pat: genPattern(rt, keys)})
		case "flush":
			if rapid.IntRange(0, 3).Draw(rt, "reallyflush") == 0 {
				sc.Ops = append(sc.Ops, Op{Op: "flush"})
			}
		case "sleep":
			sc.Ops = append(sc.Ops, Op{Op: "sleep", MS: rapid.SampledFrom([]int64{1, 499, 500, 501, 1000, 2000, 4999, 5001, 60000, 119999, 120001, 3600000}).Draw(rt, "ms")})
		}
	}
	return sc
}

// ---- capacity ------------------------------------------------------------------------------

type litem struct {
	key     string
	val     []byte
	expires time.Time
}

// lruModel is a byte-bounded LRU list, oldest first.
type lruModel struct {
	max, item uint64
	l         []*litem
}

func isize(b []byte) uint64 { return 24 + uint64(len(b)) }

func (m *lruModel) find(k string) int {
	for i, x := range m.l {
		if x.key == k {
			return i
		}
	}
	return -1
}
func (m *lruModel) remove(i int) { m.l = append(m.l[:i:i], m.l[i+1:]...) }
func (m *lruModel) touch(i int)  { x := m.l[i]; m.remove(i); m.l = append(m.l, x) }
func (m *lruModel) size() (n uint64) {
	for _, x := range m.l {
		n += isize(x.val)
	}
	return
}

func (m *lruModel) set(k string, v []byte, exp time.Time) (evicted int, stored bool) {
	if i := m.find(k); i >= 0 {
		m.remove(i)
	}
	if isize(v) > m.item {
		return 0, false
	}
	for m.size()+isize(v) > m.max {
		m.remove(0)
		evicted++
	}
	m.l = append(m.l, &litem{k, v, exp})
	return evicted, true
}

func (m *lruModel) keys() []string {
	var k []string
	for _, x := range m.l {
		k = append(k, x.key)
	}
	sort.Strings(k)
	return k
}

// RunLRU judges a history against the LRU model.
func RunLRU(t *testing.T, sc MemScenario) core.Result {
	var v string
	l := &core.Labels{}
	dl := core.Bubble(t, func() {
		if g := core.Guard(func() { v = runLRU(&sc, l) }); g != "" {
			v = g
		}
	})
	if dl != "" {
		v = "deadlock: " + dl
	}
	return core.Result{Violation: v, NonTrivial: l.Has("evicted") || l.Has("oversize"), Labels: l.List()}
}

func runLRU(sc *MemScenario, l *core.Labels) string {
	p, err := sc.open()
	if err != nil {
		return "cannot open: " + err.Error()
	}
	m := &lruModel{max: sc.MaxSize, item: sc.MaxItem}
	never := sc.TTL == "-1"
	compare := func(w string) string {
		got := p.Keys(ctx, "")
		sort.Strings(got)
		if want := m.keys(); strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
			return fmt.Sprintf("%s: stored keys %q, want %q (sizes %d of %d)", w, got, want, m.size(), m.max)
		}
		if n := p.Size(); n != len(m.l) {
			return fmt.Sprintf("%s: size %d, want %d", w, n, len(m.l))
		}
		return ""
	}
	for i, op := range expand(sc.Ops) {
		now := time.Now()
		w := fmt.Sprintf("op %d %s %q", i, op.Op, op.Key+op.Pat)
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
			continue
		case "set":
			val := op.value()
			p.Set(op.Key, append([]byte{}, val...), time.Duration(op.TTL)*time.Millisecond)
			if m.find(op.Key) >= 0 {
				l.Add("overwrite")
			}
			ev, stored := m.set(op.Key, val, now.Add(time.Duration(op.TTL)*time.Millisecond))
			if ev > 0 {
				l.Add("evicted")
			}
			if ev > 1 {
				l.Add("evicted-many")
			}
			if !stored {
				l.Add("oversize")
			}
			if stored && isize(val) == sc.MaxItem {
				l.Add("exact-item-limit")
			}
			if stored && m.size() == sc.MaxSize {
				l.Add("exactly-full")
			}
		case "get":
			got := p.Get(ctx, op.Key)
			j := m.find(op.Key)
			if j < 0 {
				if got != nil {
					return fmt.Sprintf("%s: returned %s for an absent key", w, clip(got))
				}
				break
			}
			it := m.l[j]
			if !never && now.After(it.expires) {
				l.Add("expired")
				if got != nil {
					return w + ": returned an expired value"
				}
				m.remove(j)
				break
			}
			if !never && now.Equal(it.expires) && got == nil {
				m.remove(j)
				break
			}
			if !bytes.Equal(got, it.val) || got == nil {
				return fmt.Sprintf("%s: returned %s, want %s", w, clip(got), clip(it.val))
			}
			m.touch(j)
		case "delete":
			p.Delete(ctx, op.Key)
			if j := m.find(op.Key); j >= 0 {
				m.remove(j)
			}
		case "purge":
			if err := p.Purge(ctx, op.Pat); err != nil {
				return fmt.Sprintf("%s: purge failed: %v", w, err)
			}
			for j := 0; j < len(m.l); {
				if op.Pat == "" || wildcard(op.Pat, m.l[j].key) {
					m.remove(j)
				} else {
					j++
				}
			}
		case "flush":
			_ = p.Flush(ctx)
			m.l = nil
		}
		if op.quiet {
			continue
		}
		if v := compare(w); v != "" {
			return v
		}
	}
	// the full capacity is usable: fill it exactly, everything must fit
	per := sc.MaxItem
	n := int(sc.MaxSize / per)
	for i := 0; i < n; i++ {
		p.Set(fmt.Sprintf("fill-%d", i), make([]byte, per-24), time.Hour)
	}
	for i := 0; i < n; i++ {
		if got := p.Get(ctx, fmt.Sprintf("fill-%d", i)); uint64(len(got)) != per-24 {
			return fmt.Sprintf("after the history only part of the capacity is usable: item %d of %d is gone", i, n)
		}
	}
	var total uint64
	for _, k := range p.Keys(ctx, "") {
		total += isize(p.Get(ctx, k))
	}
	if total > sc.MaxSize {
		return fmt.Sprintf("stored items take %d bytes of at most %d", total, sc.MaxSize)
	}
	return ""
}

func manyKeys(rt *rapid.T) int {
	return rapid.SampledFrom([]int{9, 17, 40, 65, 70, 101, 130, 257, 300, 513}).Draw(rt, "many") + rapid.IntRange(0, 9).Draw(rt, "more")
}

// GenLRU draws a history around the limits.
func GenLRU(rt *rapid.T) MemScenario {
	sc := MemScenario{TTL: rapid.SampledFrom([]string{"120s", "1h", "-1", ""}).Draw(rt, "ttlcfg")}
	sc.MaxItem = uint64(rapid.IntRange(30, 120).Draw(rt, "item"))
	sc.MaxSize = sc.MaxItem + uint64(rapid.IntRange(0, 260).Draw(rt, "extra"))
	keys := []string{"a", "b", "c", "d", "e", "f"}[:rapid.IntRange(2, 6).Draw(rt, "nkeys")]
	n := rapid.IntRange(3, 30).Draw(rt, "n")
	if rapid.IntRange(0, 99).Draw(rt, "large") == 0 {
		// many small items, one item of the size of many
		sc.MaxItem = uint64(rapid.IntRange(200, 12000).Draw(rt, "bigitem"))
		sc.MaxSize = sc.MaxItem + uint64(rapid.IntRange(0, 6000).Draw(rt, "bigextra"))
		n = rapid.IntRange(1, 5).Draw(rt, "nlarge")
		for i := rapid.IntRange(1, 2).Draw(rt, "bulks"); i > 0; i-- {
			sc.Ops = append(sc.Ops, Op{Op: "bulk", Key: rapid.SampledFrom([]string{"a", "x", "y"}).Draw(rt, "bk"), N: manyKeys(rt),
				Len: rapid.IntRange(1, 20).Draw(rt, "blen"), TTL: rapid.SampledFrom([]int64{1000, 3600000, 3600000}).Draw(rt, "bttl")})
		}
	}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(rt, "k")
		switch rapid.SampledFrom([]string{"set", "set", "set", "set", "set", "set", "get", "get", "delete", "purge", "flush", "sleep"}).Draw(rt, "op") {
		case "set":
			lim := int(sc.MaxItem) - 24
			ln := rapid.SampledFrom([]int{1, lim, lim - 1, lim + 1, lim / 2, lim / 3, lim + 50, 2}).Draw(rt, "len")
			if rapid.IntRange(0, 2).Draw(rt, "free") == 0 {
				ln = rapid.IntRange(1, lim+3).Draw(rt, "freelen")
			}
			sc.Ops = append(sc.Ops, Op{Op: "set", Key: k, Len: max(ln, 1), Val: string(rune('0' + i%10)), TTL: rapid.SampledFrom([]int64{1000, 60000, 3600000, 3600000}).Draw(rt, "ttl")})
		case "get":
			sc.Ops = append(sc.Ops, Op{Op: "get", Key: k})
		case "delete":
			sc.Ops = append(sc.Ops, Op{Op: "delete", Key: k})
		case "purge":
			if rapid.IntRange(0, 2).Draw(rt, "rp") == 0 {
				sc.Ops = append(sc.Ops, Op{Op: "purge", Pat: rapid.SampledFrom([]string{"a*", "*b", "c", "*"}).Draw(rt, "pat")})
			}
		case "flush":
			if rapid.IntRange(0, 5).Draw(rt, "rf") == 0 {
				sc.Ops = append(sc.Ops, Op{Op: "flush"})
			}
		case "sleep":
			sc.Ops = append(sc.Ops, Op{Op: "sleep", MS: rapid.SampledFrom([]int64{500, 1001, 60001, 1}).Draw(rt, "ms")})
		}
	}
	return sc
}

// ---- memory --------------------------------------------------------------------------------

// Churn describes a long run of short-lived items.
type Churn struct {
	Kind  string `json:"kind"` // evict | delete | purge | flush | expire | replace
	N     int    `json:"n"`
	Live  int    `json:"live"` // items that fit
	KeyLn int    `json:"keyLen"`
}

func heap() uint64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

// RunChurn checks that memory does not grow with the number of items that are gone.
func RunChurn(t *testing.T, c Churn) core.Result {
	const vlen = 8
	max := uint64(c.Live * (24 + vlen))
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: max, MaxItemSize: 24 + vlen, DefaultTTL: "120s"})
	if err != nil {
		return core.Bad("cannot open: %v", err)
	}
	pad := strings.Repeat("k", c.KeyLn)
	before := heap()
	for i := 0; i < c.N; i++ {
		k := fmt.Sprintf("%s%d", pad, i)
		switch c.Kind {
		case "expire":
			p.Set(k, make([]byte, vlen), time.Nanosecond)
			for time.Now() == time.Now() {
			}
			_ = p.Get(ctx, k)
		default:
			p.Set(k, make([]byte, vlen), time.Hour)
		}
		switch c.Kind {
		case "delete":
			p.Delete(ctx, k)
		case "purge":
			if i%16 == 15 {
				_ = p.Purge(ctx, "*")
			}
		case "flush":
			if i%16 == 15 {
				_ = p.Flush(ctx)
			}
		}
	}
	after := heap()
	n := p.Size()
	runtime.KeepAlive(p)
	grown := int64(after) - int64(before)
	// what may legitimately remain: the live items and hash-table slack
	allowed := int64(c.Live)*int64(c.KeyLn+300) + int64(c.N*c.KeyLn)/8 + 1<<20
	if n > c.Live {
		return core.Bad("%d items stored where %d fit", n, c.Live)
	}
	if grown > allowed {
		return core.Bad("memory grew by %d bytes after %d items passed through a store of %d (kind %s): memory of removed items is not released", grown, c.N, c.Live, c.Kind)
	}
	return core.Result{NonTrivial: true, Labels: []string{"churn-" + c.Kind}}
}

// GenChurn draws a churn.
func GenChurn(rt *rapid.T) Churn {
	return Churn{Kind: rapid.SampledFrom([]string{"evict", "delete", "purge", "flush", "expire", "evict"}).Draw(rt, "kind"),
		N: rapid.IntRange(30000, 60000).Draw(rt, "n"), Live: rapid.IntRange(1, 20).Draw(rt, "live"), KeyLn: rapid.IntRange(100, 200).Draw(rt, "klen")}
}
