package prov

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// RedisScenario is a history on one or two instances sharing a redis server.
type RedisScenario struct {
	DB      int    `json:"db,omitempty"`
	Auth    string `json:"auth,omitempty"`
	MaxItem int    `json:"item,omitempty"`
	Buffer  int    `json:"buf"`
	Conc    int    `json:"conc"`
	Ops     []Op   `json:"ops"`
}

func within(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func openRedis(sc *RedisScenario, addr string) (provider.Provider, error) {
	cfg := provider.RedisClientConfig{Endpoint: addr, DB: sc.DB, MaxItemSize: sc.MaxItem, MaxQueueBufferSize: sc.Buffer, MaxQueueConcurrency: sc.Conc}
	if sc.Auth != "" {
		cfg.Password = sc.Auth
	}
	return provider.CreateCacheProvider("x", provider.ProviderBackendConfig{Backend: "redis", Redis: cfg})
}

// RunRedis judges a settled history against a map model.
func RunRedis(t *testing.T, sc RedisScenario) (res core.Result) {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runRedis(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("get-hit") && (l.Has("expired") || l.Has("removed") || l.Has("oversize")), Labels: l.List()}
}

func runRedis(sc *RedisScenario, l *core.Labels) string {
	mr := core.StartRedis()
	defer mr.Close()
	mr.Server().SetPreHook(core.PagedScan(mr, sc.DB))
	if sc.Auth != "" {
		mr.RequireAuth(sc.Auth)
	}
	db := mr.DB(sc.DB)
	other := mr.DB((sc.DB + 1) % 4)
	_ = other.Set("kache-http://h1/a", "other database")
	var inst []provider.Provider
	for i := 0; i < 2; i++ {
		p, err := openRedis(sc, mr.Addr())
		if err != nil {
			return "cannot open: " + err.Error()
		}
		inst = append(inst, p)
	}
	type item struct {
		val []byte
		ttl time.Duration
	}
	m := map[string]*item{}
	check := func(w, k string) string {
		for i, p := range inst {
			got := p.Get(ctx, k)
			it := m[k]
			if it == nil && got != nil {
				return fmt.Sprintf("%s: instance %d returns %s for %q, want nothing", w, i, clip(got), k)
			}
			if it != nil && (got == nil || !bytes.Equal(got, it.val)) {
				return fmt.Sprintf("%s: instance %d returns %s for %q, want %s", w, i, clip(got), k, clip(it.val))
			}
		}
		return ""
	}
	for i, op := range sc.Ops {
		w := fmt.Sprintf("op %d %s %q", i, op.Op, op.Key+op.Pat)
		p := inst[op.Inst%2]
		switch op.Op {
		case "set":
			val := op.value()
			ttl := time.Duration(op.TTL) * time.Millisecond
			if s, err := db.Get(op.Key); err == nil && s == string(val) && db.TTL(op.Key) == ttl {
				// the same again: make the arrival observable
				db.SetTTL(op.Key, ttl+time.Hour)
			}
			t0 := time.Now()
			p.Set(op.Key, append([]byte{}, val...), ttl)
			if d := time.Since(t0); d > 2*time.Second {
				return fmt.Sprintf("%s: storing took the caller %v", w, d)
			}
			if sc.MaxItem > 0 && len(val) > sc.MaxItem {
				l.Add("oversize")
				delete(m, op.Key)
				// the queue is worked off in order: settled once a later item has arrived
				p.Set("sentinel", []byte("s"), time.Hour)
				if !within(8*time.Second, func() bool { return db.Exists("sentinel") }) {
					return w + ": an item stored afterwards does not arrive"
				}
				db.Del("sentinel")
				if !within(8*time.Second, func() bool { return !db.Exists(op.Key) }) {
					return w + ": the older value stays although the new one is too large to be stored"
				}
			} else {
				m[op.Key] = &item{val, ttl}
				if !within(8*time.Second, func() bool { s, err := db.Get(op.Key); return err == nil && s == string(val) && db.TTL(op.Key) == ttl }) {
					s, err := db.Get(op.Key)
					return fmt.Sprintf("%s: redis holds %s (%v) with TTL %v, want %s with %v", w, clip([]byte(s)), err, db.TTL(op.Key), clip(val), ttl)
				}
				if sc.MaxItem > 0 && len(val) == sc.MaxItem {
					l.Add("exact-limit")
				}
			}
		case "bulk": // written by another client of the same server
			for j := 0; j < op.N; j++ {
				k := fmt.Sprintf("%s%d", op.Key, j)
				m[k] = &item{op.value(), time.Duration(op.TTL) * time.Millisecond}
				_ = db.Set(k, string(m[k].val))
				db.SetTTL(k, m[k].ttl)
			}
			l.Add("many-keys")
		case "get":
			if m[op.Key] != nil {
				l.Add("get-hit")
			} else {
				l.Add("get-miss")
			}
			if v := check(w, op.Key); v != "" {
				return v
			}
		case "sleep":
			d := time.Duration(op.MS) * time.Millisecond
			mr.FastForward(d)
			for k, it := range m {
				it.ttl -= d
				if it.ttl <= 0 {
					delete(m, k)
					l.Add("expired")
				}
			}
		case "delete":
			there := m[op.Key] != nil
			if there {
				l.Add("removed")
			}
			if !p.Delete(ctx, op.Key) && there {
				return w + ": reported as not removed"
			}
			delete(m, op.Key)
			if v := check(w, op.Key); v != "" {
				return v
			}
		case "purge", "flush":
			var err error
			if op.Op == "flush" {
				op.Pat = ""
				err = p.Flush(ctx)
			} else {
				err = p.Purge(ctx, op.Pat)
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", w, err)
			}
			for _, k := range core.SortedKeys(m) {
				if op.Pat == "" || wildcard(op.Pat, k) {
					delete(m, k)
					l.Add("removed")
				} else {
					l.Add("kept")
				}
				if v := check(w, k); v != "" {
					return v
				}
			}
		case "keys":
			got := p.Keys(ctx, op.Key)
			var want []string
			for k := range m {
				if strings.HasPrefix(k, op.Key) {
					want = append(want, k)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				return fmt.Sprintf("%s: lists %q, want %q", w, got, want)
			}
			if len(want) > 0 && op.Key != "" {
				l.Add("keys-prefix")
			}
		}
	}
	for _, k := range core.SortedKeys(m) {
		if v := check("final", k); v != "" {
			return v
		}
	}
	have := db.Keys()
	if len(have) != len(m) {
		return fmt.Sprintf("finally redis holds %q, want %q", have, core.SortedKeys(m))
	}
	if s, _ := other.Get("kache-http://h1/a"); s != "other database" {
		return "data in another redis database was removed"
	}
	return ""
}

// GenRedis draws a history.
func GenRedis(rt *rapid.T) RedisScenario {
	sc := RedisScenario{DB: rapid.IntRange(0, 3).Draw(rt, "db"), Conc: rapid.IntRange(1, 4).Draw(rt, "conc"), Buffer: rapid.IntRange(4, 64).Draw(rt, "buf")}
	if rapid.IntRange(0, 4).Draw(rt, "auth") == 0 {
		sc.Auth = "s3cret"
	}
	if rapid.Bool().Draw(rt, "limited") {
		sc.MaxItem = rapid.IntRange(10, 60).Draw(rt, "item")
		sc.Conc = 1
	}
	keys := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) string { return genKey(t, "key") }), 2, 6, func(s string) string { return s }).Draw(rt, "keys")
	for i, k := range keys {
		if k == "" {
			keys[i] = "kache-http://h1/z"
		}
	}
	key := func() string { return rapid.SampledFrom(keys).Draw(rt, "k") }
	n := rapid.IntRange(3, 16).Draw(rt, "n")
	if rapid.IntRange(0, 19).Draw(rt, "large") == 0 {
		n = rapid.IntRange(1, 4).Draw(rt, "nlarge")
		sc.Ops = append(sc.Ops, Op{Op: "bulk", Key: key(), N: manyKeys(rt), Val: "b", TTL: rapid.SampledFrom([]int64{1000, 60000, 3600000}).Draw(rt, "bttl")})
	}
	for i := 0; i < n; i++ {
		in := rapid.IntRange(0, 1).Draw(rt, "inst")
		switch rapid.SampledFrom([]string{"set", "set", "set", "set", "get", "get", "delete", "keys", "purge", "flush", "sleep"}).Draw(rt, "op") {
		case "set":
			op := Op{Op: "set", Key: key(), Inst: in, TTL: rapid.SampledFrom([]int64{1, 1500, 1000, 2000, 5000, 120000, 86400000}).Draw(rt, "ttl"), Val: fmt.Sprintf("v%d", i)}
			switch rapid.IntRange(0, 3).Draw(rt, "valkind") {
			case 0:
				op.Val = ""
				b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")
				op.B64 = b64(b)
			case 1:
				if sc.MaxItem > 0 {
					op.Len = sc.MaxItem + rapid.IntRange(-2, 3).Draw(rt, "len")
				} else {
					op.Len = rapid.SampledFrom([]int{3, 100, 70000}).Draw(rt, "len")
				}
			}
			sc.Ops = append(sc.Ops, op)
		case "get":
			sc.Ops = append(sc.Ops, Op{Op: "get", Key: key(), Inst: in})
		case "delete":
			sc.Ops = append(sc.Ops, Op{Op: "delete", Key: key(), Inst: in})
		case "keys":
			r := []rune(key())
			sc.Ops = append(sc.Ops, Op{Op: "keys", Inst: in, Key: string(r[:rapid.IntRange(0, len(r)).Draw(rt, "plen")])})
		case "purge":
			sc.Ops = append(sc.Ops, Op{Op: "purge", Inst: in, Pat: genPattern(rt, keys)})
		case "flush":
			if rapid.IntRange(0, 2).Draw(rt, "rf") == 0 {
				sc.Ops = append(sc.Ops, Op{Op: "flush", Inst: in})
			}
		case "sleep":
			sc.Ops = append(sc.Ops, Op{Op: "sleep", MS: rapid.SampledFrom([]int64{1, 999, 1000, 1499, 2000, 5001, 119999, 120000, 86400000}).Draw(rt, "ms")})
		}
	}
	return sc
}

// ---- full queue ----------------------------------------------------------------------------

// QueueScenario stores more items than the queue takes while redis does not answer.
type QueueScenario struct {
	Buffer int `json:"buf"`
	Conc   int `json:"conc"`
	Items  int `json:"items"`
	Size   int `json:"size"`
}

// stallProxy forwards connections, unless stalled.
type stallProxy struct {
	ln   net.Listener
	mu   sync.Mutex
	cond *sync.Cond
	off  bool
	done bool
	cs   []net.Conn
}

func newStallProxy(target string) *stallProxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &stallProxy{ln: ln}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			u, err := net.Dial("tcp", target)
			if err != nil {
				c.Close()
				continue
			}
			s.mu.Lock()
			s.cs = append(s.cs, c, u)
			s.mu.Unlock()
			go s.pipe(u, c)
			go s.pipe(c, u)
		}
	}()
	return s
}

func (s *stallProxy) pipe(dst, src net.Conn) {
	buf := make([]byte, 32<<10)
	for {
		n, err := src.Read(buf)
		s.mu.Lock()
		for s.off && !s.done {
			s.cond.Wait()
		}
		s.mu.Unlock()
		if n > 0 {
			if _, e := dst.Write(buf[:n]); e != nil {
				err = e
			}
		}
		if err != nil {
			if err == io.EOF {
				if t, ok := dst.(*net.TCPConn); ok {
					_ = t.CloseWrite()
					return
				}
			}
			dst.Close()
			return
		}
	}
}
func (s *stallProxy) stall(on bool) { s.mu.Lock(); s.off = on; s.cond.Broadcast(); s.mu.Unlock() }
func (s *stallProxy) close() {
	s.mu.Lock()
	s.done = true
	s.cond.Broadcast()
	for _, c := range s.cs {
		c.Close()
	}
	s.mu.Unlock()
	s.ln.Close()
}

// RunQueue: with redis stalled, the first Buffer items are accepted and at most Buffer+Conc in
// total; callers never wait; accepted items arrive intact; later storing works again.
func RunQueue(t *testing.T, sc QueueScenario) core.Result {
	mr := core.StartRedis()
	defer mr.Close()
	mr.Server().SetPreHook(core.PagedScan(mr, 0))
	px := newStallProxy(mr.Addr())
	defer px.close()
	cfg := provider.RedisClientConfig{Endpoint: px.ln.Addr().String(), MaxQueueBufferSize: sc.Buffer, MaxQueueConcurrency: sc.Conc}
	p, err := provider.CreateCacheProvider("x", provider.ProviderBackendConfig{Backend: "redis", Redis: cfg})
	if err != nil {
		return core.Bad("cannot open: %v", err)
	}
	l := &core.Labels{}
	{ // one round
		const round = 0
		px.stall(true)
		t0 := time.Now()
		want := map[string]string{}
		var order []string
		for i := 0; i < sc.Items; i++ {
			k := fmt.Sprintf("r%d-%d", round, i)
			v := fmt.Sprintf("%s%s", k, strings.Repeat("x", sc.Size))
			want[k] = v
			order = append(order, k)
			p.Set(k, []byte(v), time.Hour)
		}
		took := time.Since(t0)
		px.stall(false)
		if took > 5*time.Second {
			return core.Bad("storing %d items blocked the caller for %v while redis did not answer", sc.Items, took)
		}
		if took > time.Second {
			return core.Result{Skip: true, Labels: []string{"slow"}} // client timeouts may have struck
		}
		must := min(sc.Buffer, sc.Items)
		for _, k := range order[:must] {
			if !within(10*time.Second, func() bool { s, err := mr.Get(k); return err == nil && s == want[k] }) {
				s, err := mr.Get(k)
				return core.Bad("item %q was stored while the queue (%d) had room but redis holds %s (%v)", k, sc.Buffer, clip([]byte(s)), err)
			}
		}
		// the queue is FIFO per worker; wait until everything accepted has been written
		last := fmt.Sprintf("r%d-last", round)
		if !within(10*time.Second, func() bool {
			p.Set(last, []byte("x"), time.Hour)
			return mr.Exists(last)
		}) {
			return core.Bad("storing does not work any more after the queue was full")
		}
		stored := func() int {
			n := 0
			for _, k := range order {
				if s, err := mr.Get(k); err == nil && s == want[k] {
					n++
				}
			}
			return n
		}
		n := stored()
		if n > sc.Buffer+sc.Conc {
			return core.Bad("%d items were accepted by a queue of %d with %d workers", n, sc.Buffer, sc.Conc)
		}
		if sc.Items > sc.Buffer+sc.Conc {
			l.Add("dropped")
		}
		for _, k := range mr.Keys() {
			if s, _ := mr.Get(k); !strings.HasSuffix(k, "-last") && !strings.HasPrefix(s, k) {
				return core.Bad("redis holds %s under %q", clip([]byte(s)), k)
			}
		}
	}
	return core.Result{NonTrivial: l.Has("dropped"), Labels: l.List()}
}

// GenQueue draws queue limits and loads.
func GenQueue(rt *rapid.T) QueueScenario {
	return QueueScenario{Buffer: rapid.IntRange(0, 12).Draw(rt, "buf"), Conc: rapid.IntRange(1, 4).Draw(rt, "conc"),
		Items: rapid.IntRange(1, 40).Draw(rt, "items"), Size: rapid.SampledFrom([]int{0, 10, 5000}).Draw(rt, "size")}
}

// ---- layered over redis --------------------------------------------------------------------

// WiredScenario checks the layered store as configured, over redis.
type WiredScenario struct {
	Layered bool   `json:"layered"`
	TTL     string `json:"layeredTTL"`
	Short   bool   `json:"short"` // TTL is short enough to wait for
	Item    uint64 `json:"item"`
	Len     int    `json:"len"`
	Pat     string `json:"pat"`
}

// RunWired runs a fixed dialogue with drawn parameters.
func RunWired(t *testing.T, sc WiredScenario) core.Result {
	mr := core.StartRedis()
	defer mr.Close()
	mr.Server().SetPreHook(core.PagedScan(mr, 0))
	cfg := provider.ProviderBackendConfig{Backend: "redis", Layered: sc.Layered, LayeredTTL: sc.TTL,
		Redis:    provider.RedisClientConfig{Endpoint: mr.Addr(), MaxQueueBufferSize: 16, MaxQueueConcurrency: 1},
		InMemory: provider.InMemoryCacheConfig{MaxSize: 100000, MaxItemSize: sc.Item}}
	open := func() provider.Provider {
		p, err := provider.CreateCacheProvider("x", cfg)
		if err != nil {
			panic(err)
		}
		return p
	}
	a, b := open(), open()
	get := func(p provider.Provider, k string) string { return string(p.Get(ctx, k)) }
	local := sc.Layered && uint64(sc.Len+24) <= sc.Item
	v1, v2 := strings.Repeat("1", sc.Len), strings.Repeat("2", sc.Len)

	a.Set("ka", []byte(v1), time.Hour)
	if local && get(a, "ka") != v1 {
		return core.Bad("a value just set is not readable")
	}
	if !within(8*time.Second, func() bool { s, _ := mr.Get("ka"); return s == v1 }) {
		return core.Bad("the value did not reach redis")
	}
	t0 := time.Now()
	if g := get(b, "ka"); g != v1 {
		return core.Bad("another instance reads %q", g)
	}
	_ = mr.Set("ka", v2)
	g := get(b, "ka")
	elapsed := time.Since(t0)
	switch {
	case !local && g != v2:
		return core.Bad("without a local copy the instance reads %q instead of redis' %q", g, v2)
	case local && !sc.Short && elapsed < 60*time.Second && g != v1:
		return core.Bad("the local copy was not used")
	case g != v1 && g != v2:
		return core.Bad("reads %q", g)
	}
	if local && sc.Short {
		d, _ := time.ParseDuration(sc.TTL)
		time.Sleep(d + 5*time.Millisecond)
		if g := get(b, "ka"); g != v2 {
			return core.Bad("the local copy is used beyond the layered TTL %s", sc.TTL)
		}
	}
	if err := b.Purge(ctx, sc.Pat); err != nil {
		return core.Bad("purge: %v", err)
	}
	gone := sc.Pat == "" || wildcard(sc.Pat, "ka")
	if gone && (mr.Exists("ka") || get(b, "ka") != "") {
		return core.Bad("still there after purge %q", sc.Pat)
	}
	if !gone && get(b, "ka") == "" {
		return core.Bad("purge %q removed it", sc.Pat)
	}
	if n := len(b.Keys(ctx, "")); n != len(mr.Keys()) {
		return core.Bad("%d keys listed, redis holds %d", n, len(mr.Keys()))
	}
	return core.Result{NonTrivial: sc.Layered, Labels: []string{fmt.Sprintf("local=%v", local), fmt.Sprintf("short=%v", sc.Short)}}
}

// GenWired draws parameters.
func GenWired(rt *rapid.T) WiredScenario {
	sc := WiredScenario{Layered: rapid.IntRange(0, 3).Draw(rt, "layered") > 0, Item: uint64(rapid.SampledFrom([]int{60, 1000, 2000}).Draw(rt, "item")), Len: rapid.IntRange(1, 200).Draw(rt, "len")}
	if rapid.Bool().Draw(rt, "short") {
		sc.Short = true
		sc.TTL = rapid.SampledFrom([]string{"1ms", "5ms", "10ms", "20ms"}).Draw(rt, "ttl")
	} else {
		sc.TTL = rapid.SampledFrom([]string{"", "1h", "bogus", "120s", "10m"}).Draw(rt, "ttl")
	}
	sc.Pat = rapid.SampledFrom([]string{"", "*", "k*", "ka", "kb", "k?", "*b", "[k]a"}).Draw(rt, "pat")
	return sc
}
