package httpsim

import (
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// OutageStep is a step of an outage history.
type OutageStep struct {
	Op   string `json:"op"` // req down up err ok corrupt keys purge flush delete
	Key  int    `json:"k,omitempty"`
	Kind string `json:"kind,omitempty"`
	Data string `json:"b64,omitempty"`
	N    int    `json:"n,omitempty"`
	Msg  string `json:"msg,omitempty"`
}

// Outage is a history of requests and backend failures.
type Outage struct {
	Layered bool         `json:"layered,omitempty"`
	Conc    int          `json:"conc"`
	Steps   []OutageStep `json:"steps"`
}

type countingOrigin struct {
	mu    sync.Mutex
	n     map[string]int
	given map[string]map[string]bool
	last  map[string]string
}

// RoundTrip answers with a body never given before.
func (o *countingOrigin) RoundTrip(req *http.Request) (*http.Response, error) {
	k := req.URL.Path
	o.mu.Lock()
	o.n[k]++
	b := fmt.Sprintf("%s version %d\r\n\x00", k, o.n[k])
	if o.given[k] == nil {
		o.given[k] = map[string]bool{}
	}
	o.given[k][b] = true
	o.last[k] = b
	o.mu.Unlock()
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req,
		Header: http.Header{"Cache-Control": {"max-age=3600"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}, "X-Path": {k}}, ContentLength: int64(len(b)), Body: io.NopCloser(strings.NewReader(b))}, nil
}

const outageBound = 25 * time.Second

// RunOutage judges an outage history.
func RunOutage(t *testing.T, sc Outage) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runOutage(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: l.Has("port-taken"), NonTrivial: l.Has("req-broken") || l.Has("req-corrupt"), Labels: l.List()}
}

func runOutage(sc *Outage, l *core.Labels) string {
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		panic(err)
	}
	defer mr.Close()
	p, err := provider.CreateCacheProvider("x", provider.ProviderBackendConfig{Backend: "redis", Layered: sc.Layered, LayeredTTL: "1h",
		Redis: provider.RedisClientConfig{Endpoint: mr.Addr(), MaxQueueBufferSize: 64, MaxQueueConcurrency: sc.Conc}})
	if err != nil {
		return "cannot open: " + err.Error()
	}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h"}, p)
	if err != nil {
		panic(err)
	}
	org := &countingOrigin{n: map[string]int{}, given: map[string]map[string]bool{}, last: map[string]string{}}
	tr := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	tr.Transport = org
	down, broken := false, false
	fresh := map[string]bool{} // settled in redis and intact
	rkey := func(k string) string {
		for _, x := range mr.Keys() {
			if strings.HasSuffix(x, "//h"+k) {
				return x
			}
		}
		return ""
	}
	timed := func(what string, f func()) string {
		t0 := time.Now()
		f()
		if d := time.Since(t0); d > outageBound {
			return fmt.Sprintf("%s took %v", what, d)
		}
		return ""
	}
	for i, st := range sc.Steps {
		k := fmt.Sprintf("/k%d", st.Key)
		w := fmt.Sprintf("step %d %s %s", i, st.Op, k)
		switch st.Op {
		case "down":
			if !down {
				mr.SetError("")
				broken = false
				mr.Close()
				down = true
			}
		case "up":
			if down {
				if err := mr.Restart(); err != nil {
					l.Add("port-taken")
					return ""
				}
				down = false
				// the client notices within a bounded time
				t0 := time.Now()
				for p.Purge(context.Background(), "no such key") != nil {
					if time.Since(t0) > outageBound {
						return w + ": the backend is back, but not used"
					}
					time.Sleep(5 * time.Millisecond)
				}
			}
		case "err":
			broken = true
			if !down {
				mr.SetError(st.Msg)
			} else {
				broken = false
			}
		case "ok":
			broken = false
			if !down {
				mr.SetError("")
			}
		case "corrupt":
			rk := rkey(k)
			if rk == "" || down || broken {
				continue
			}
			s, err := mr.Get(rk)
			if err != nil {
				continue
			}
			switch st.Kind {
			case "list":
				mr.Del(rk)
				_, _ = mr.Lpush(rk, "x")
			case "truncate":
				_ = mr.Set(rk, s[:st.N%max(len(s), 1)])
			case "junk":
				b, _ := base64.StdEncoding.DecodeString(st.Data)
				_ = mr.Set(rk, string(b))
			case "gone":
				mr.Del(rk)
			}
			fresh[k] = false
			l.Add("corrupt-" + st.Kind)
		case "keys":
			if v := timed(w, func() { p.Keys(context.Background(), "") }); v != "" {
				return v
			}
		case "purge", "flush", "delete":
			if v := timed(w, func() {
				switch st.Op {
				case "purge":
					err = p.Purge(context.Background(), "*"+k)
				case "flush":
					err = p.Flush(context.Background())
				case "delete":
					p.Delete(context.Background(), "kache-http://h"+k)
					err = nil
				}
			}); v != "" {
				return v
			}
			if !down && !broken {
				if err != nil {
					return fmt.Sprintf("%s: %v although the backend works", w, err)
				}
				if st.Op == "flush" {
					fresh = map[string]bool{}
				}
				fresh[k] = false
			} else if err == nil && st.Op != "delete" {
				return w + ": reports success although the backend is broken"
			}
		case "req":
			req, _ := http.NewRequest("GET", "http://h"+k, nil)
			n := org.n[k]
			var resp *http.Response
			var body []byte
			if v := timed(w, func() {
				resp, err = tr.RoundTrip(req)
				if err == nil {
					body, err = io.ReadAll(resp.Body)
					resp.Body.Close()
				}
			}); v != "" {
				return v
			}
			if err != nil {
				return fmt.Sprintf("%s: fails with %v (backend down=%v error=%v)", w, err, down, broken)
			}
			asked := org.n[k] - n
			if resp.StatusCode != 200 || !org.given[k][string(body)] || resp.Header.Get("X-Path") != k {
				return fmt.Sprintf("%s: answered with %d %q (%v), which the origin never gave for it", w, resp.StatusCode, body, resp.Header)
			}
			if asked > 1 {
				return fmt.Sprintf("%s: %d origin contacts", w, asked)
			}
			if asked == 1 && string(body) != org.last[k] {
				return fmt.Sprintf("%s: the origin answered %q, the client got %q", w, org.last[k], body)
			}
			if sc.Layered {
				if down || broken {
					l.Add("req-broken")
				}
				continue
			}
			switch {
			case down || broken:
				l.Add("req-broken")
				if asked != 1 {
					return w + ": answered without the origin although the backend does not work"
				}
				fresh[k] = false // what redis holds may or may not be replaced later
			case fresh[k]:
				if asked != 0 {
					return w + ": stored response not used"
				}
				l.Add("req-hit")
			default:
				if asked == 1 {
					l.Add("req-miss")
					// stored again once settled
					want := []string{org.last[k]}
					if l.Has("req-broken") {
						// a write that was waiting for the backend may come after this one
						want = nil
						for b := range org.given[k] {
							want = append(want, b)
						}
					}
					ok := false
					for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
						if s, err := mr.Get("kache-http://h" + k); err == nil && slices.ContainsFunc(want, func(b string) bool { return strings.Contains(s, b) }) {
							ok = true
							break
						}
					}
					if !ok {
						return w + ": the response does not reach the working backend"
					}
					// an older write that was waiting for the backend may still follow
					fresh[k] = !l.Has("req-broken")
				}
				if l.Has("corrupt-junk") || l.Has("corrupt-list") || l.Has("corrupt-truncate") {
					l.Add("req-corrupt")
				}
			}
		}
	}
	return ""
}

// GenOutage draws an outage history.
func GenOutage(rt *rapid.T) Outage {
	sc := Outage{Layered: rapid.IntRange(0, 3).Draw(rt, "layered") == 0, Conc: rapid.IntRange(1, 3).Draw(rt, "conc")}
	n := rapid.IntRange(3, 14).Draw(rt, "n")
	for i := 0; i < n; i++ {
		st := OutageStep{Op: rapid.SampledFrom([]string{"req", "req", "req", "req", "req", "down", "up", "up", "err", "ok", "ok", "corrupt", "corrupt", "keys", "purge", "flush", "delete"}).Draw(rt, "op"), Key: rapid.IntRange(0, 1).Draw(rt, "k")}
		switch st.Op {
		case "err":
			st.Msg = rapid.SampledFrom([]string{"LOADING Redis is loading the dataset in memory", "OOM command not allowed", "READONLY You can't write against a read only replica.", "ERR broken"}).Draw(rt, "msg")
		case "corrupt":
			st.Kind = rapid.SampledFrom([]string{"list", "truncate", "truncate", "junk", "gone"}).Draw(rt, "kind")
			st.N = rapid.IntRange(0, 5000).Draw(rt, "at")
			if st.Kind == "junk" {
				st.Data = base64.StdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "junk"))
			}
		}
		sc.Steps = append(sc.Steps, st)
	}
	return sc
}
