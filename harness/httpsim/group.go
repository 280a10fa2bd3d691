package httpsim

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"

	"verif/harness/core"
)

// Group is a set of overlapping requests, with directives of their own, for a stored resource, over a
// store that takes its time.
type Group struct {
	Prime Step    `json:"prime"`
	Get   int64   `json:"get"` // ms a lookup takes
	Reqs  []GrReq `json:"reqs"`
}

// GrReq is a member.
type GrReq struct {
	Sleep int64 `json:"sleep,omitempty"` // ms since the previous one
	Hdr   []H   `json:"hdr,omitempty"`
	Delay int64 `json:"delay"` // ms the origin takes, if asked
}

type slowStore struct {
	provider.Provider
	d time.Duration
}

func (s *slowStore) Get(ctx context.Context, key string) []byte {
	if s.d > 0 {
		time.Sleep(s.d)
	}
	return s.Provider.Get(ctx, key)
}

// groupOrigin answers the members of the group, each with a response of its own.
type groupOrigin struct {
	mu    sync.Mutex
	g     *Group
	first time.Time // when the first answer was given
	seen  map[int]bool
}

func (o *groupOrigin) RoundTrip(req *http.Request) (*http.Response, error) {
	id := 0
	_, _ = fmt.Sscan(req.Header.Get("X-Member"), &id)
	o.mu.Lock()
	o.seen[id] = true
	o.mu.Unlock()
	time.Sleep(time.Duration(o.g.Reqs[id].Delay) * time.Millisecond)
	o.mu.Lock()
	if o.first.IsZero() {
		o.first = time.Now()
	}
	o.mu.Unlock()
	return BuildResponse(&Resp{Status: 200, Body: fmt.Sprintf("member %d", id), Hdr: []H{{K: "Cache-Control", V: "max-age=1000"}, {K: "Date", T: i64(0)}, {K: "X-From", V: fmt.Sprint(id)}}}, req, time.Now())
}

// GenGroup draws a group.
func GenGroup(rt *rapid.T) Group {
	p := Profile{RespCC: 95, Uncacheable: 0, Validators: 30, DateOdd: 10, AgeHdr: 20}
	g := Group{}
	req := &Req{Method: "GET", Scheme: "http", Host: "h1.test", Target: "/g"}
	rs := &resState{}
	g.Prime.Req = req
	g.Prime.Resp, _ = genResp(rt, &p, 0, rs, req)
	if pct(rt, 70, "plain") {
		g.Prime.Resp = &Resp{Status: 200, Body: "stored", Hdr: []H{{K: "Date", T: i64(0)}}}
		h, _ := respCC(rt, 0, 0)
		g.Prime.Resp.Hdr = append(g.Prime.Resp.Hdr, h...)
		if pct(rt, 40, "expires") {
			g.Prime.Resp.Hdr = append(g.Prime.Resp.Hdr, genExpires(rt))
		}
	}
	g.Get = pick[int64](rt, "get", 0, 1, 20, 200, 900)
	n := rapid.IntRange(2, 6).Draw(rt, "n")
	var cc [][]H
	for i := 0; i < n; i++ {
		r := GrReq{Delay: pick[int64](rt, "delay", 1, 30, 300, 3000)}
		if i == 0 {
			r.Sleep = pick[int64](rt, "age", 0, 500, 1000, 2000, 5000, 10000, 60000)
		} else {
			r.Sleep = pick[int64](rt, "gap", 0, 0, 1, 10, 100, 500, 1000)
		}
		switch {
		case len(cc) > 0 && pct(rt, 30, "again"):
			r.Hdr = rapid.SampledFrom(cc).Draw(rt, "cc")
		case pct(rt, 70, "directives"):
			r.Hdr = reqCC(rt, 0)
		case pct(rt, 30, "pragma"):
			r.Hdr = []H{{K: "Pragma", V: "no-cache"}}
		}
		cc = append(cc, r.Hdr)
		g.Reqs = append(g.Reqs, r)
	}
	return g
}

type grResult struct {
	done       bool
	err        error
	from, body string
	start, end time.Time
	hdr        http.Header
}

// RunGroup judges what every member got.
func RunGroup(t *testing.T, g Group) core.Result {
	l := &core.Labels{}
	v := ""
	nt := false
	dl := core.Bubble(t, func() {
		if p := core.Guard(func() { v, nt = runGroup(&g, l) }); p != "" {
			v = p
		}
	})
	if dl != "" && v == "" {
		v = "deadlock: " + dl
	}
	return core.Result{Violation: v, NonTrivial: nt, Labels: l.List()}
}

func runGroup(g *Group, l *core.Labels) (string, bool) {
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		panic(err)
	}
	ss := &slowStore{Provider: p}
	s := NewSim(Cfg{Strict: true, TTL: "1000h"}, ss)
	if v := s.Do(&g.Prime); v != "" {
		return "", false // judged by the histories
	}
	e := s.M.store[resource(g.Prime.Req.Scheme, g.Prime.Req.Host, g.Prime.Req.Target)]
	if e == nil {
		l.Add("not-stored")
		return "", false
	}
	ss.d = time.Duration(g.Get) * time.Millisecond
	o := &groupOrigin{g: g, seen: map[int]bool{}}
	s.Tr.Transport = o
	rt := middleware.NewCoalesced(s.Tr)
	var mu sync.Mutex
	res := make([]grResult, len(g.Reqs))
	for i := range g.Reqs {
		sleepMS(g.Reqs[i].Sleep)
		rq := *g.Prime.Req
		rq.Hdr = append(append([]H{}, g.Reqs[i].Hdr...), H{K: "X-Member", V: fmt.Sprint(i)})
		req, err := buildRequest(&rq, time.Now())
		if err != nil {
			panic(err)
		}
		res[i].start, res[i].hdr = time.Now(), req.Header.Clone()
		go func() {
			resp, err := rt.RoundTrip(req)
			r := grResult{done: true, err: err}
			if err == nil {
				b, berr := io.ReadAll(resp.Body)
				resp.Body.Close()
				r.err, r.body, r.from = berr, string(b), resp.Header.Get("X-From")
			}
			mu.Lock()
			r.start, r.hdr = res[i].start, res[i].hdr
			r.end = time.Now()
			res[i] = r
			mu.Unlock()
		}()
		synctest.Wait()
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	mixed := map[tri]bool{}
	for i, r := range res {
		if !r.done {
			return fmt.Sprintf("request %d is not answered within a minute", i), false
		}
		if r.err != nil {
			return fmt.Sprintf("request %d failed: %v", i, r.err), false
		}
		look := r.start.Add(ss.d)
		a, why := s.M.reusable(e, r.hdr, r.start)
		b, _ := s.M.reusable(e, r.hdr, look)
		mixed[a] = true
		stored := r.from == ""
		if stored && r.body != string(e.body) {
			return fmt.Sprintf("request %d got %q, stored is %q", i, short([]byte(r.body)), short(e.body)), false
		}
		// a lookup in progress may be joined; it judges the moment it began
		c, _ := s.M.reusable(e, r.hdr, r.start.Add(-ss.d))
		if stored && a == no && b == no && c == no {
			return fmt.Sprintf("request %d (%v) got the stored response, which it does not accept unvalidated (%s)", i, g.Reqs[i].Hdr, why), false
		}
		// with the same directives, a request may join one that began when the answer was another
		joined := false
		for j := range i {
			if fmt.Sprint(g.Reqs[j].Hdr) == fmt.Sprint(g.Reqs[i].Hdr) && !res[j].end.Before(r.start) {
				if x, _ := s.M.reusable(e, res[j].hdr, res[j].start); x != yes {
					joined = true
				}
			}
		}
		if joined {
			continue
		}
		if !stored && a == yes && b == yes && (o.first.IsZero() || o.first.After(look)) {
			return fmt.Sprintf("request %d (%v) got the origin's response %s although the stored one could be used (%s)", i, g.Reqs[i].Hdr, r.from, why), false
		}
		if o.seen[i] && a == yes && b == yes && (o.first.IsZero() || o.first.After(look)) {
			return fmt.Sprintf("request %d (%v) reached the origin although the stored response could be used (%s)", i, g.Reqs[i].Hdr, why), false
		}
	}
	overlap := false
	for i := 1; i < len(res); i++ {
		for j := 0; j < i; j++ {
			if res[j].end.After(res[i].start) {
				overlap = true
			}
		}
	}
	if overlap && mixed[yes] && mixed[no] {
		l.Add("mixed-overlap")
	}
	return "", overlap && mixed[yes] && mixed[no]
}
