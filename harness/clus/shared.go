package clus

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2/server"
	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/srv"
)

// Shared is a history of instances with one remote store.
type Shared struct {
	Layered bool   `json:"layered"`
	TTL     string `json:"ttl"`
	N       int    `json:"n"`
	Prefix  string `json:"prefix,omitempty"`
	Steps   []SOp  `json:"steps"`
}

// SOp is a step.
type SOp struct {
	Op   string `json:"op"` // get purge invalidate flush change update restart race keys
	I    int    `json:"i"`
	R    int    `json:"r"`
	Key  string `json:"key,omitempty"` // $ stands for the upstream
	Doc  int    `json:"doc,omitempty"`
	Gets []int  `json:"gets,omitempty"` // race: instance*100 + resource
}

var resources = []string{"/a", "/a/b", "/a/b?q=1", "/c", "/d*e", "/f[0-9]", "/G", "/g"}

// peers are the management addresses of the instances of this process.
type peers struct {
	port int
	h    [3]atomic.Pointer[http.Handler]
	done atomic.Int64 // forwarded messages that were processed
}

var (
	thePeers  *peers
	peersOnce sync.Once
)

func getPeers() *peers {
	peersOnce.Do(func() {
		for thePeers == nil {
			var lns []net.Listener
			port := "0"
			for _, ip := range ips[:3] {
				ln, err := net.Listen("tcp", net.JoinHostPort(ip, port))
				if err != nil {
					break
				}
				lns = append(lns, ln)
				_, port, _ = net.SplitHostPort(ln.Addr().String())
			}
			if len(lns) != 3 {
				for _, l := range lns {
					l.Close()
				}
				continue
			}
			p := &peers{}
			p.port, _ = strconv.Atoi(port)
			for i, ln := range lns {
				go func() {
					_ = http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						if h := p.h[i].Load(); h != nil {
							(*h).ServeHTTP(w, r)
						} else {
							w.WriteHeader(200)
						}
						if r.Header.Get("X-Kache-Cluster") != "" {
							p.done.Add(1)
						}
					}))
				}()
			}
			thePeers = p
		}
	})
	return thePeers
}

type node struct {
	st  *srv.Stack
	api *api.API
	// model of the instance
	local map[int]int // resource -> version in the local tier
	doc   int
}

var sharedDocs = []string{"x_header: true\nx_header_name: X-One\n", "x_header: true\nx_header_name: X-Two\n", `{"strict": true, "x_header": true}`}
var sharedMark = []string{"X-One", "X-Two", "X-Kache", ""}

// RunShared judges a history.
func RunShared(t *testing.T, sc Shared) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runShared(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("from-other") || l.Has("purged-elsewhere"), Labels: l.List()}
}

func runShared(sc *Shared, l *core.Labels) string {
	k, ps := theKube(), getPeers()
	us, _ := srv.Upstreams()
	u := us[0]
	mr := core.StartRedis()
	defer mr.Close()
	var sets atomic.Int64 // responses written to the remote store
	scan := core.PagedScan(mr, 0)
	mr.Server().SetPreHook(func(c *server.Peer, cmd string, args ...string) bool {
		if strings.EqualFold(cmd, "SET") {
			sets.Add(1)
		}
		return scan(c, cmd, args...)
	})
	var mu sync.Mutex
	version := map[string]int{}
	u.Script(func(c net.Conn, s *srv.Seen) bool {
		mu.Lock()
		b := fmt.Sprintf("%s v%d", s.URI, version[s.URI])
		mu.Unlock()
		_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=10000\r\nContent-Length: %d\r\n\r\n%s", time.Now().UTC().Format(http.TimeFormat), len(b), b)
		return err == nil
	})
	defer u.CloseConns()
	var subs []map[string]any
	for i := range sc.N {
		subs = append(subs, map[string]any{"ip": ips[i]})
	}
	doc, _ := json.Marshal(map[string]any{"kind": "Endpoints", "apiVersion": "v1", "metadata": map[string]any{"name": "svc", "namespace": "ns"},
		"subsets": []any{map[string]any{"addresses": subs, "ports": []any{map[string]any{"name": "http", "port": 1}, map[string]any{"name": "api", "port": ps.port}}}}})
	k.mu.Lock()
	k.path, k.doc, k.code, k.wrong = "/api/v1/namespaces/ns/endpoints/svc", doc, 200, ""
	k.mu.Unlock()

	mkNode := func() *node {
		pc := provider.ProviderBackendConfig{Backend: "redis", Layered: sc.Layered, LayeredTTL: sc.TTL,
			Redis:    provider.RedisClientConfig{Endpoint: mr.Addr(), MaxQueueBufferSize: 1000, MaxQueueConcurrency: 2},
			InMemory: provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 1 << 18}}
		p, err := provider.CreateCacheProvider("kache", pc)
		must(err)
		cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}, Provider: &pc, API: &config.API{Prefix: sc.Prefix},
			Upstreams: config.Upstreams{{Name: "u", Addr: "http://" + u.Addr, Path: "/"}},
			Cluster:   &cluster.Config{Discovery: "kubernetes", Namespace: "ns", Service: "svc"}}
		st, err := srv.NewStackWith(cfg, p)
		must(err)
		a, err := api.New(*cfg.API, st.Srv)
		must(err)
		return &node{st: st, api: a, local: map[int]int{}, doc: 3}
	}
	nodes := make([]*node, sc.N)
	install := func(i int) {
		nodes[i] = mkNode()
		var h http.Handler = nodes[i].api
		ps.h[i].Store(&h)
	}
	stop := func(n *node) string {
		done := make(chan bool)
		go func() { n.st.Srv.Stop(); close(done) }()
		select {
		case <-done:
			return ""
		case <-time.After(30 * time.Second):
			return "the instance does not stop"
		}
	}
	for i := range sc.N {
		install(i)
	}
	defer func() {
		for i, n := range nodes {
			ps.h[i].Store(nil)
			_ = stop(n)
		}
	}()
	key := func(r int) string { return "kache-http://" + u.Addr + pathKey(resources[r]) }
	remote := map[int]int{} // the remote store
	inRedis := func() map[int]bool {
		m := map[int]bool{}
		for r := range resources {
			if mr.Exists(key(r)) {
				m[r] = true
			}
		}
		return m
	}
	by := map[int]*node{} // who stored it
	first := u.Count()
	settled := func(what string) string {
		for end := time.Now().Add(10 * time.Second); ; time.Sleep(200 * time.Microsecond) {
			m := inRedis()
			// every response of the origin is stored
			same := len(m) == len(remote) && sets.Load() >= int64(u.Count()-first)
			for r := range remote {
				same = same && m[r]
			}
			if same {
				return ""
			}
			if time.Now().After(end) {
				return fmt.Sprintf("%s: the remote store has %v, expected %v, after storing %d of %d", what, m, remote, sets.Load(), u.Count()-first)
			}
		}
	}
	get := func(i, r int) (string, http.Header, int) {
		rr := httptest.NewRecorder()
		rq := httptest.NewRequest("GET", "http://front"+resources[r], nil)
		nodes[i].st.Srv.ServeHTTP(rr, rq)
		return rr.Body.String(), rr.Header(), rr.Code
	}
	prefix := path.Join("/", sc.Prefix)
	if sc.Prefix == "" {
		prefix = "/api"
	}
	manage := func(i int, method, target, key, body string) int {
		rr := httptest.NewRecorder()
		rq := httptest.NewRequest(method, "http://api"+target, strings.NewReader(body))
		rq.RemoteAddr = "10.9.8.7:1"
		if key != "" {
			rq.Header.Set("X-Purge-Key", key)
		}
		nodes[i].api.ServeHTTP(rr, rq)
		return rr.Code
	}
	delivered := func(w string, want int) string {
		for end := time.Now().Add(20 * time.Second); ps.done.Load() < int64(want); time.Sleep(100 * time.Microsecond) {
			if time.Now().After(end) {
				return fmt.Sprintf("%s: forwarded to %d of %d instances", w, ps.done.Load(), want)
			}
		}
		return ""
	}
	drop := func(m map[int]int, pattern string) {
		for r := range m {
			if glob(pattern, key(r)) {
				delete(m, r)
			}
		}
	}
	for n, o := range sc.Steps {
		i := o.I % sc.N
		nd := nodes[i]
		w := fmt.Sprintf("step %d: %s at instance %d", n, o.Op, i)
		pattern := strings.ReplaceAll(o.Key, "$", "kache-http://"+u.Addr)
		ps.done.Store(0)
		switch o.Op {
		case "change":
			mu.Lock()
			version[resources[o.R]]++
			mu.Unlock()
		case "get":
			w += " " + resources[o.R]
			cnt := u.Count()
			body, h, code := get(i, o.R)
			contacted := u.Count() - cnt
			want, from := -1, "the origin"
			if v, ok := nd.local[o.R]; ok && sc.Layered {
				want, from = v, "its local tier"
			} else if v, ok := remote[o.R]; ok {
				want, from = v, "the remote store"
				l.Add("remote")
				if by[o.R] != nd {
					l.Add("from-other")
				}
				nd.local[o.R] = v
			} else {
				mu.Lock()
				want = version[resources[o.R]]
				mu.Unlock()
				remote[o.R], nd.local[o.R] = want, want
				by[o.R] = nd
			}
			exp := fmt.Sprintf("%s v%d", resources[o.R], want)
			if code != 200 || body != exp {
				return fmt.Sprintf("%s: %d %q, expected %q from %s", w, code, body, exp, from)
			}
			if (contacted > 0) != (from == "the origin") {
				return fmt.Sprintf("%s: %d requests to the origin, expected the response from %s", w, contacted, from)
			}
			if m := sharedMark[nd.doc]; m != "" && (h.Get(m) == "HIT") != (from != "the origin") {
				return fmt.Sprintf("%s: %s is %q although the response is from %s", w, m, h.Get(m), from)
			}
			for d, m := range sharedMark[:3] {
				if d != nd.doc && h.Get(m) != "" {
					return fmt.Sprintf("%s: marked with %s, configured is %q", w, m, sharedMark[nd.doc])
				}
			}
		case "purge":
			w += " " + pattern
			if c := manage(i, "PURGE", "/", pattern, ""); c != 200 {
				return fmt.Sprintf("%s: answered with %d", w, c)
			}
			before := len(remote)
			drop(remote, pattern)
			if len(remote) < before {
				l.Add("purged-elsewhere")
			}
			if sc.Layered {
				if s := delivered(w, sc.N); s != "" {
					return s
				}
			}
			for _, x := range nodes {
				drop(x.local, pattern)
			}
		case "invalidate":
			w += " " + pattern
			if c := manage(i, "DELETE", path.Join(prefix, "/cache/invalidate"), pattern, ""); c != 200 {
				return fmt.Sprintf("%s: answered with %d", w, c)
			}
			drop(remote, pattern)
			drop(nd.local, pattern)
		case "flush":
			if c := manage(i, "DELETE", path.Join(prefix, "/cache/flush"), "", ""); c != 200 {
				return fmt.Sprintf("%s: answered with %d", w, c)
			}
			clear(remote)
			clear(nd.local)
		case "update":
			if c := manage(i, "PUT", path.Join(prefix, "/cache/config/update"), "", sharedDocs[o.Doc]); c != 200 {
				return fmt.Sprintf("%s: answered with %d", w, c)
			}
			if s := delivered(w, sc.N); s != "" {
				return s
			}
			l.Add("update")
			for _, x := range nodes {
				x.doc = o.Doc
			}
		case "restart":
			if s := stop(nd); s != "" {
				return w + ": " + s
			}
			install(i)
			l.Add("restart")
		case "crash": // without a shutdown
			old := nodes[i]
			install(i)
			defer func() { _ = stop(old) }()
			l.Add("crash")
		case "keys":
			ks := (*nd).st.Prov.Keys(context.Background(), "")
			var want []string
			for r := range remote {
				want = append(want, key(r))
			}
			sort.Strings(ks)
			sort.Strings(want)
			if strings.Join(ks, " ") != strings.Join(want, " ") {
				return fmt.Sprintf("%s: %v, stored are %v", w, ks, want)
			}
		case "race":
			// the origin changes, then the resource is purged while it is read
			mu.Lock()
			version[resources[o.R]]++
			now := version[resources[o.R]]
			mu.Unlock()
			var wg sync.WaitGroup
			code := 0
			wg.Add(1)
			go func() { defer wg.Done(); code = manage(i, "PURGE", "/", key(o.R), "") }()
			bad := make([]string, len(o.Gets))
			for j, g := range o.Gets {
				wg.Add(1)
				go func() {
					defer wg.Done()
					body, _, c := get(g%sc.N, o.R)
					v := -1
					_, _ = fmt.Sscanf(strings.TrimPrefix(body, resources[o.R]+" "), "v%d", &v)
					if c != 200 || v < 0 || v > now {
						bad[j] = fmt.Sprintf("%s: %d %q", w, c, body)
					}
				}()
			}
			wg.Wait()
			if code != 200 {
				return fmt.Sprintf("%s: the purge is answered with %d", w, code)
			}
			for _, b := range bad {
				if b != "" {
					return b
				}
			}
			if sc.Layered {
				if s := delivered(w, sc.N); s != "" {
					return s
				}
			}
			// what was read from the origin may be stored or gone; nothing old may be left
			for end := time.Now().Add(10 * time.Second); sets.Load() < int64(u.Count()-first); time.Sleep(100 * time.Microsecond) {
				if time.Now().After(end) {
					return fmt.Sprintf("%s: %d of %d responses stored", w, sets.Load(), u.Count()-first)
				}
			}
			for j := range nodes {
				body, _, c := get(j, o.R)
				if exp := fmt.Sprintf("%s v%d", resources[o.R], now); c != 200 || body != exp {
					return fmt.Sprintf("%s: after the purge instance %d serves %d %q instead of %q", w, j, c, body, exp)
				}
				nodes[j].local[o.R] = now
			}
			remote[o.R] = now
			l.Add("race")
		}
		if s := settled(w); s != "" {
			return s
		}
	}
	return ""
}

// pathKey is a target as it is spelled in the key.
func pathKey(t string) string {
	p, q, ok := strings.Cut(t, "?")
	p = (&url.URL{Path: p}).String()
	if ok {
		return p + "?" + q
	}
	return p
}

// glob matches a pattern where only * is special.
func glob(p, s string) bool {
	if p == "" {
		return true
	}
	parts := strings.Split(p, "*")
	if len(parts) == 1 {
		return p == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, x := range parts[1 : len(parts)-1] {
		i := strings.Index(s, x)
		if i < 0 {
			return false
		}
		s = s[i+len(x):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

// GenShared draws a history.
func GenShared(rt *rapid.T) Shared {
	sc := Shared{Layered: rapid.IntRange(0, 3).Draw(rt, "layered") > 0, TTL: rapid.SampledFrom([]string{"", "1h", "bogus"}).Draw(rt, "ttl"),
		N: rapid.IntRange(2, 3).Draw(rt, "n"), Prefix: rapid.SampledFrom([]string{"", "", "/x", "y/"}).Draw(rt, "prefix")}
	steps := rapid.SampledFrom([]int{3, 6, 12, 24}).Draw(rt, "steps")
	for range steps {
		o := SOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "get", "get", "get", "change", "change", "purge", "purge", "purge", "invalidate", "flush", "update", "restart", "crash", "keys", "race", "race"}).Draw(rt, "op"),
			I: rapid.IntRange(0, 2).Draw(rt, "i"), R: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7}).Draw(rt, "r")}
		switch o.Op {
		case "purge", "invalidate":
			o.Key = rapid.SampledFrom([]string{"$/a", "$/a", "$/a*", "$/a/b", "*", "$/a/b?q=1", "*/c", "$/d*e", "$/d%2Ae", "$/f%5B0-9%5D", "$/f*", "$/G", "$/?", "nothing", "*b*", ""}).Draw(rt, "key")
		case "update":
			o.Doc = rapid.IntRange(0, 2).Draw(rt, "doc")
		case "race":
			for range rapid.IntRange(1, 5).Draw(rt, "gets") {
				o.Gets = append(o.Gets, rapid.IntRange(0, 2).Draw(rt, "g"))
			}
		}
		sc.Steps = append(sc.Steps, o)
	}
	return sc
}
