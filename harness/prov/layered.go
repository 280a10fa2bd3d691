package prov

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// remote is a synchronous map with expiry standing in for the remote tier.
type remote struct {
	mu    sync.Mutex
	m     map[string]mitem
	gets  map[string]int
	calls int
	// before/after an operation takes effect
	delay func(op, key string) (before, after time.Duration)
}

func newRemote() *remote { return &remote{m: map[string]mitem{}, gets: map[string]int{}} }

func (r *remote) around(op, key string, f func()) {
	var a, b time.Duration
	if r.delay != nil {
		a, b = r.delay(op, key)
	}
	if a > 0 {
		time.Sleep(a)
	}
	r.mu.Lock()
	r.calls++
	f()
	r.mu.Unlock()
	if b > 0 {
		time.Sleep(b)
	}
}

func (r *remote) live(k string) ([]byte, bool) {
	it, ok := r.m[k]
	if !ok {
		return nil, false
	}
	if !it.expires.IsZero() && !time.Now().Before(it.expires) {
		delete(r.m, k)
		return nil, false
	}
	return append([]byte{}, it.val...), true
}

func (r *remote) Get(_ context.Context, key string) (v []byte) {
	r.around("get", key, func() { v, _ = r.live(key); r.gets[key]++ })
	return
}
func (r *remote) Set(key string, value []byte, ttl time.Duration) {
	r.around("set", key, func() {
		it := mitem{val: append([]byte{}, value...)}
		if ttl > 0 {
			it.expires = time.Now().Add(ttl)
		}
		r.m[key] = it
	})
}
func (r *remote) Delete(_ context.Context, key string) (ok bool) {
	r.around("delete", key, func() { _, ok = r.live(key); delete(r.m, key) })
	return
}
func (r *remote) Keys(_ context.Context, prefix string) (out []string) {
	r.around("keys", prefix, func() {
		for k := range r.m {
			if _, ok := r.live(k); ok && strings.HasPrefix(k, prefix) {
				out = append(out, k)
			}
		}
	})
	return
}
func (r *remote) Purge(_ context.Context, pattern string) error {
	r.around("purge", pattern, func() {
		for k := range r.m {
			if pattern == "" || wildcard(pattern, k) {
				delete(r.m, k)
			}
		}
	})
	return nil
}
func (r *remote) Flush(context.Context) error {
	r.around("flush", "", func() { r.m = map[string]mitem{} })
	return nil
}
func (r *remote) Size() int { return len(r.Keys(ctx, "")) }

// LayScenario is a sequential history on a layered store; ops prefixed with r act on the remote
// tier behind its back (another instance).
type LayScenario struct {
	TTL int64  `json:"ttl"` // layered TTL, ms
	Cfg string `json:"cfg,omitempty"`
	Ops []Op   `json:"ops"`
}

// RunLayered judges a history against a two-tier model.
func RunLayered(t *testing.T, sc LayScenario) core.Result {
	var v string
	l := &core.Labels{}
	dl := core.Bubble(t, func() {
		if g := core.Guard(func() { v = runLayered(&sc, l) }); g != "" {
			v = g
		}
	})
	if dl != "" {
		v = "deadlock: " + dl
	}
	return core.Result{Violation: v, NonTrivial: l.Has("filled") && (l.Has("local-hit-stale") || l.Has("local-expired") || l.Has("removed-both")), Labels: l.List()}
}

func runLayered(sc *LayScenario, l *core.Labels) string {
	rem := newRemote()
	p, err := provider.NewCached(rem, "x", time.Duration(sc.TTL)*time.Millisecond, provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 1 << 16, DefaultTTL: sc.Cfg})
	if err != nil {
		return "cannot open: " + err.Error()
	}
	local := map[string]*mitem{}
	for i, op := range sc.Ops {
		now := time.Now()
		w := fmt.Sprintf("op %d %s %q", i, op.Op, op.Key+op.Pat)
		val := []byte(op.Val)
		ttl := time.Duration(op.TTL) * time.Millisecond
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
		case "set":
			p.Set(op.Key, append([]byte{}, val...), ttl)
			if got, ok := rem.live(op.Key); !ok || !bytes.Equal(got, val) {
				return fmt.Sprintf("%s: the remote tier holds %s, want %s", w, clip(got), clip(val))
			}
			if e := rem.m[op.Key].expires; !e.Equal(now.Add(ttl)) {
				return fmt.Sprintf("%s: stored remotely with a TTL of %v, want %v", w, e.Sub(now), ttl)
			}
			local[op.Key] = &mitem{val, now.Add(ttl)}
			if got := p.Get(ctx, op.Key); !bytes.Equal(got, val) {
				return fmt.Sprintf("%s: reads back %s, want %s", w, clip(got), clip(val))
			}
		case "rset":
			rem.Set(op.Key, val, ttl)
		case "rdelete":
			rem.Delete(ctx, op.Key)
		case "get":
			want, inRemote := rem.live(op.Key)
			n := rem.gets[op.Key]
			got := p.Get(ctx, op.Key)
			asked := rem.gets[op.Key] - n
			it := local[op.Key]
			alive, edge := false, false
			if it != nil {
				alive, edge = it.live(now)
				if !alive && !edge {
					l.Add("local-expired")
				}
			}
			if alive || edge && asked == 0 {
				if got == nil || !bytes.Equal(got, it.val) {
					return fmt.Sprintf("%s: returned %s, want the local copy %s", w, clip(got), clip(it.val))
				}
				if asked != 0 {
					return w + ": the remote tier was asked although a local copy exists"
				}
				l.Add("local-hit")
				if !inRemote || !bytes.Equal(want, it.val) {
					l.Add("local-hit-stale")
				}
				continue
			}
			delete(local, op.Key)
			if inRemote {
				if got == nil || !bytes.Equal(got, want) {
					return fmt.Sprintf("%s: returned %s, the remote tier holds %s", w, clip(got), clip(want))
				}
				local[op.Key] = &mitem{want, now.Add(time.Duration(sc.TTL) * time.Millisecond)}
				l.Add("filled")
			} else if got != nil {
				return fmt.Sprintf("%s: returned %s, neither tier holds a live value", w, clip(got))
			}
		case "delete":
			p.Delete(ctx, op.Key)
			if _, ok := rem.live(op.Key); ok {
				return w + ": still in the remote tier"
			}
			if local[op.Key] != nil {
				l.Add("removed-both")
			}
			delete(local, op.Key)
			if g := p.Get(ctx, op.Key); g != nil {
				return w + ": still readable"
			}
		case "purge", "flush":
			if op.Op == "flush" {
				err = p.Flush(ctx)
				op.Pat = ""
			} else {
				err = p.Purge(ctx, op.Pat)
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", w, err)
			}
			for k := range rem.m {
				if _, ok := rem.live(k); ok && (op.Pat == "" || wildcard(op.Pat, k)) {
					return fmt.Sprintf("%s: %q still in the remote tier", w, k)
				}
			}
			for k := range local {
				if op.Pat == "" || wildcard(op.Pat, k) {
					l.Add("removed-both")
					delete(local, k)
					if _, ok := rem.live(k); ok {
						continue
					}
					if g := p.Get(ctx, k); g != nil {
						return fmt.Sprintf("%s: %q still readable", w, k)
					}
				}
			}
		case "keys":
			got, want := p.Keys(ctx, op.Key), rem.Keys(ctx, op.Key)
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				return fmt.Sprintf("%s: lists %q, the remote tier holds %q", w, got, want)
			}
		case "size":
			if got, want := p.Size(), rem.Size(); got != want {
				return fmt.Sprintf("%s: size %d, the remote tier holds %d", w, got, want)
			}
		}
	}
	return ""
}

// GenLayered draws a history.
func GenLayered(rt *rapid.T) LayScenario {
	sc := LayScenario{TTL: rapid.SampledFrom([]int64{1000, 2000, 5000, 30000, 120000}).Draw(rt, "lttl"), Cfg: rapid.SampledFrom([]string{"", "1h", "10s"}).Draw(rt, "cfg")}
	keys := []string{"kache-http://h/a", "kache-http://h/b", "kache-http://g/a?x=1"}
	n := rapid.IntRange(3, 25).Draw(rt, "n")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(rt, "k")
		v := fmt.Sprintf("v%d", i)
		ttl := rapid.SampledFrom([]int64{500, 1000, 3000, 60000, 600000}).Draw(rt, "ttl")
		op := rapid.SampledFrom([]string{"set", "set", "get", "get", "get", "get", "rset", "rset", "rdelete", "delete", "purge", "flush", "keys", "size", "sleep", "sleep", "sleep"}).Draw(rt, "op")
		switch op {
		case "set", "rset":
			sc.Ops = append(sc.Ops, Op{Op: op, Key: k, Val: v, TTL: ttl})
		case "get", "rdelete", "delete":
			sc.Ops = append(sc.Ops, Op{Op: op, Key: k})
		case "purge":
			sc.Ops = append(sc.Ops, Op{Op: op, Pat: rapid.SampledFrom([]string{"*", "kache-http://h/*", "*a", "*?x*", "kache-http://h/b", ""}).Draw(rt, "pat")})
		case "flush", "size":
			sc.Ops = append(sc.Ops, Op{Op: op})
		case "keys":
			sc.Ops = append(sc.Ops, Op{Op: op, Key: rapid.SampledFrom([]string{"", "kache-http://h/", "kache-http://g", "x"}).Draw(rt, "prefix")})
		case "sleep":
			sc.Ops = append(sc.Ops, Op{Op: op, MS: rapid.SampledFrom([]int64{1, 500, 999, 1000, 1001, 2000, 4999, 5001, 30001, 119999, 120001}).Draw(rt, "ms")})
		}
	}
	return sc
}
