package srv

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Par are operators and clients at work at the same time, each on resources of its own.
type Par struct {
	Threads [][]POp  `json:"threads"`
	Config  []string `json:"config,omitempty"` // marker names put in force one after the other
}

// POp is an operation.
type POp struct {
	Op string `json:"op"` // get purge invalidate prefix keys config unknown
	I  int    `json:"i,omitempty"`
	V  string `json:"v,omitempty"`
}

// RunPar judges a case.
func RunPar(t *testing.T, sc Par) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runPar(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("hit") && l.Has("removed"), Labels: l.List()}
}

func runPar(sc *Par, l *core.Labels) string {
	us, _ := Upstreams()
	up := us[0]
	defer up.CloseConns()
	var vmu sync.Mutex
	vers := map[string]int{}
	up.Script(func(c net.Conn, s *Seen) bool {
		vmu.Lock()
		vers[s.URI]++
		n := vers[s.URI]
		vmu.Unlock()
		b := fmt.Sprintf("%s v%d", s.URI, n)
		_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=3000\r\nContent-Length: %d\r\n\r\n%s", time.Now().UTC().Format(http.TimeFormat), len(b), b)
		return err == nil
	})
	cfg := &config.Configuration{Upstreams: config.Upstreams{{Name: "u", Addr: "http://" + up.Addr, Path: "/"}}, HttpCache: &cache.HttpCacheConfig{Strict: true, XCache: true},
		Provider: &provider.ProviderBackendConfig{Backend: "inmemory"}, API: &config.API{}}
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 20, DefaultTTL: "1h"})
	if err != nil {
		panic(err)
	}
	st, err := NewStackWith(cfg, p)
	if err != nil {
		return "cannot start: " + err.Error()
	}
	a, err := api.New(*cfg.API, st.Srv)
	if err != nil {
		return "cannot start the API: " + err.Error()
	}
	TheFront().Use(st.Srv)
	front := TheFront().Addr
	call := func(method, target, key, body string) *httptest.ResponseRecorder {
		r := httptest.NewRequest(method, "http://api"+target, strings.NewReader(body))
		if key != "" {
			r.Header.Set("X-Purge-Key", key)
		}
		w := httptest.NewRecorder()
		a.ServeHTTP(w, r)
		return w
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	out := ""
	fail := func(f string, args ...any) {
		mu.Lock()
		if out == "" {
			out = fmt.Sprintf(f, args...)
		}
		mu.Unlock()
	}
	failed := func() bool { mu.Lock(); defer mu.Unlock(); return out != "" }
	add := func(x string) { mu.Lock(); l.Add(x); mu.Unlock() }
	left := make([]map[string]string, len(sc.Threads))
	for t, ops := range sc.Threads {
		left[t] = map[string]string{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			stored := left[t]
			key := func(i int) string { return fmt.Sprintf("kache-http://%s/t%d/%c/%d", up.Addr, t, "ab"[i%2], i) }
			path := func(i int) string { return fmt.Sprintf("/t%d/%c/%d", t, "ab"[i%2], i) }
			asked := map[string]int{}
			for n, op := range ops {
				if failed() {
					return
				}
				w := fmt.Sprintf("thread %d operation %d %s %d", t, n, op.Op, op.I)
				switch op.Op {
				case "get":
					r := Get(front, path(op.I))
					if r.Err != nil || r.Status != 200 {
						fail("%s: status %d, %v", w, r.Status, r.Err)
						return
					}
					k := key(op.I)
					if v, ok := stored[k]; ok {
						add("hit")
						if r.Body != v {
							fail("%s: answered with %q, stored is %q", w, r.Body, v)
						}
						continue
					}
					asked[k]++
					if want := fmt.Sprintf("%s v%d", path(op.I), asked[k]); r.Body != want {
						fail("%s: answered with %q, nothing is stored and the upstream is at %q", w, r.Body, want)
					}
					stored[k] = r.Body
				case "purge", "invalidate", "prefix":
					k := key(op.I)
					if op.Op == "prefix" {
						k = k[:strings.LastIndexByte(k, '/')] + "/*"
					}
					var rr *httptest.ResponseRecorder
					if op.V == "root" {
						rr = call("PURGE", "/", k, "")
					} else {
						rr = call("DELETE", "/api/cache/invalidate", k, "")
					}
					if rr.Code != 200 {
						fail("%s: answered with %d", w, rr.Code)
						return
					}
					for s := range stored {
						if globMatch(k, s) {
							delete(stored, s)
							add("removed")
						}
					}
				case "keys":
					var all, mine []string
					rr := call("GET", "/api/cache/keys", "", "")
					if err := json.Unmarshal(rr.Body.Bytes(), &all); err != nil || rr.Code != 200 {
						fail("%s: %d %v %q", w, rr.Code, err, rr.Body.String())
						return
					}
					for _, k := range all {
						if strings.HasPrefix(k, fmt.Sprintf("kache-http://%s/t%d/", up.Addr, t)) {
							mine = append(mine, k)
						}
					}
					sort.Strings(mine)
					want := []string{}
					for k := range stored {
						want = append(want, k)
					}
					sort.Strings(want)
					if fmt.Sprint(mine) != fmt.Sprint(want) {
						fail("%s: the listing names %v, stored are %v", w, mine, want)
					}
					add("listed")
				case "config":
					rr := call("GET", "/api/cache/config", "", "")
					o, err := readBack(rr.Body.Bytes())
					if err != nil || rr.Code != 200 || o["strict"] != true || o["x_header"] != true {
						fail("%s: %d %v %q", w, rr.Code, err, rr.Body.String())
					}
				case "unknown":
					if rr := call(op.V, "/api/cache/flush", "", ""); rr.Code < 400 {
						fail("%s: %s is answered with %d", w, op.V, rr.Code)
					}
				}
			}
		}()
	}
	if len(sc.Config) > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n, name := range sc.Config {
				if failed() {
					return
				}
				if n%3 == 2 {
					if rr := call("PUT", "/api/cache/config/update", "", "strict: ["); rr.Code != 400 {
						fail("a broken update is answered with %d", rr.Code)
					}
				} else if rr := call("PUT", "/api/cache/config/update", "", "strict: true\nx_header: true\nx_header_name: "+name+"\n"); rr.Code != 200 {
					fail("an update is answered with %d: %s", rr.Code, rr.Body.String())
				} else {
					o, err := readBack(call("GET", "/api/cache/config", "", "").Body.Bytes())
					if err != nil || o["x_header_name"] != name {
						fail("after the update to %q the configuration is %v, %v", name, o, err)
					}
					add("updated")
				}
			}
		}()
	}
	wg.Wait()
	if out != "" {
		return out
	}
	// what is left is served and listed
	var all, want []string
	_ = json.Unmarshal(call("GET", "/api/cache/keys", "", "").Body.Bytes(), &all)
	for _, m := range left {
		for k, v := range m {
			want = append(want, k)
			if r := Get(front, strings.TrimPrefix(k, "kache-http://"+up.Addr)); r.Body != v {
				return fmt.Sprintf("in the end %s is answered with %q, stored is %q", k, r.Body, v)
			}
		}
	}
	sort.Strings(all)
	sort.Strings(want)
	if fmt.Sprint(all) != fmt.Sprint(want) {
		return fmt.Sprintf("in the end the listing names %v, stored are %v", all, want)
	}
	if rr := call("DELETE", "/api/cache/flush", "", ""); rr.Code != 200 {
		return fmt.Sprintf("the flush is answered with %d", rr.Code)
	}
	_ = json.Unmarshal(call("GET", "/api/cache/keys", "", "").Body.Bytes(), &all)
	if len(all) != 0 {
		return fmt.Sprintf("after the flush the listing names %v", all)
	}
	return ""
}

// GenPar draws a case.
func GenPar(rt *rapid.T) Par {
	var sc Par
	for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "threads"); i < n; i++ {
		sc.Threads = append(sc.Threads, rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) POp {
			op := POp{Op: rapid.SampledFrom([]string{"get", "get", "get", "get", "get", "purge", "invalidate", "prefix", "keys", "config", "unknown"}).Draw(rt, "op"), I: rapid.IntRange(0, 3).Draw(rt, "i")}
			switch op.Op {
			case "purge", "prefix":
				op.V = rapid.SampledFrom([]string{"", "root"}).Draw(rt, "via")
			case "unknown":
				op.V = rapid.SampledFrom([]string{"GET", "POST", "PUT", "PURGE"}).Draw(rt, "method")
			}
			return op
		}), 3, 25).Draw(rt, "ops"))
	}
	for i, n := 0, rapid.IntRange(0, 8).Draw(rt, "updates"); i < n; i++ {
		sc.Config = append(sc.Config, fmt.Sprintf("X-M%d", rapid.IntRange(0, 99).Draw(rt, "name")))
	}
	return sc
}
