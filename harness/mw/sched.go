// Package mw checks request coalescing.
package mw

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Request is a client request.
type Request struct {
	Method string `json:"m,omitempty"` // GET
	Scheme string `json:"s,omitempty"` // http
	Host   string `json:"h"`
	Path   string `json:"p"` // escaped
	Query  string `json:"q,omitempty"`
	HdrK   string `json:"hk,omitempty"`
	HdrV   string `json:"hv,omitempty"`
}

func (r *Request) method() string {
	if r.Method == "" {
		return "GET"
	}
	return r.Method
}
func (r *Request) key() string { return r.Scheme + "://" + r.Host + r.Path + "?" + r.Query }

// Outcome is what the origin does with a contact.
type Outcome struct {
	Err    bool   `json:"err,omitempty"`
	Cut    bool   `json:"cut,omitempty"` // the body breaks off
	Status int    `json:"st,omitempty"`
	CC     string `json:"cc,omitempty"`
	CCKey  string `json:"ck,omitempty"` // header name for CC
	Len    int    `json:"len,omitempty"`
	NoLen  bool   `json:"nolen,omitempty"` // no Content-Length
}

// Event is one step of a schedule.
type Event struct {
	E string `json:"e"`           // start | headers | body | cancel
	I int    `json:"i"`           // request, or index among the open contacts
	O int    `json:"o,omitempty"` // headers: index of the outcome
}

// Sched is a schedule of overlapping requests.
type Sched struct {
	Cached   bool      `json:"cached,omitempty"` // with the cache below the coalescer
	ExPath   string    `json:"exp,omitempty"`
	ExHeader bool      `json:"exh,omitempty"` // exclude X-Session: 1
	Policy   int       `json:"pol,omitempty"` // Cached: 0 fresh, 1 shareable but never fresh, 2 private
	ReqCC    string    `json:"rcc,omitempty"` // Cache-Control of every request
	Reqs     []Request `json:"reqs"`
	Outcomes []Outcome `json:"outs"`
	Events   []Event   `json:"ev"`
}

type contact struct {
	id      int // request that caused it
	n       int
	ctx     context.Context
	hgate   chan struct{}
	bgate   chan struct{}
	out     *Outcome
	body    []byte
	status  int
	hdr     http.Header
	headers bool // released
	bodyrel bool
	leaders bool // an eligible flight
}

type origin struct {
	mu       sync.Mutex
	contacts []*contact
}

// RoundTrip blocks until the schedule answers the contact.
func (o *origin) RoundTrip(req *http.Request) (*http.Response, error) {
	id := 0
	_, _ = fmt.Sscan(req.Header.Get("X-Id"), &id)
	c := &contact{id: id, ctx: req.Context(), hgate: make(chan struct{}), bgate: make(chan struct{})}
	o.mu.Lock()
	c.n = len(o.contacts)
	o.contacts = append(o.contacts, c)
	o.mu.Unlock()
	select {
	case <-c.hgate:
	case <-req.Context().Done():
		return nil, req.Context().Err()
	}
	if c.out.Err {
		return nil, fmt.Errorf("origin failed contact %d", c.n)
	}
	h := c.hdr.Clone()
	r := &http.Response{Status: fmt.Sprintf("%d %s", c.status, http.StatusText(c.status)), StatusCode: c.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req,
		ContentLength: int64(len(c.body)), Body: &gatedBody{c: c, r: bytes.NewReader(c.body)}}
	if c.out.NoLen {
		r.ContentLength = -1
		r.TransferEncoding = []string{"chunked"}
	} else {
		h.Set("Content-Length", fmt.Sprint(len(c.body)))
	}
	if req.Method == "HEAD" {
		r.Body = http.NoBody
	}
	return r, nil
}

type gatedBody struct {
	c *contact
	r *bytes.Reader
}

func (b *gatedBody) Read(p []byte) (int, error) {
	select {
	case <-b.c.bgate:
	case <-b.c.ctx.Done():
		return 0, b.c.ctx.Err()
	}
	if b.c.out.Cut && b.r.Len() <= len(b.c.body)/2 {
		return 0, io.ErrUnexpectedEOF
	}
	if b.c.out.Cut && len(p) > b.r.Len()-len(b.c.body)/2 {
		p = p[:b.r.Len()-len(b.c.body)/2]
	}
	return b.r.Read(p)
}
func (b *gatedBody) Close() error { return nil }

type result struct {
	done   bool
	err    error
	status int
	hdr    http.Header
	body   []byte
	berr   error
	clen   int64
}

type client struct {
	req    *Request
	cancel context.CancelFunc
	killed bool
	mu     sync.Mutex
	res    result
}

func (c *client) get() result { c.mu.Lock(); defer c.mu.Unlock(); return c.res }

func buildReq(ctx context.Context, r *Request, id int) *http.Request {
	u, err := url.Parse("http://" + r.Host + r.Path)
	if err != nil {
		panic(err)
	}
	u.RawQuery = r.Query
	if r.Scheme != "" {
		u.Scheme = r.Scheme
	}
	req := &http.Request{Method: r.method(), URL: u, Host: r.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}}
	req.Header.Set("X-Id", fmt.Sprint(id))
	if r.HdrK != "" {
		req.Header.Set(r.HdrK, r.HdrV)
	}
	return req.WithContext(ctx)
}

func stack(s *Sched, o http.RoundTripper) http.RoundTripper {
	if !s.Cached {
		return middleware.NewCoalesced(o)
	}
	cfg := cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h"}
	if s.ExPath != "" || s.ExHeader {
		ex := &cache.Exclude{}
		if s.ExPath != "" {
			ex.Path = []string{s.ExPath}
		}
		if s.ExHeader {
			ex.Header = map[string]string{"X-Session": "1"}
		}
		cfg.Exclude = ex
	}
	p, err := provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
	if err != nil {
		panic(err)
	}
	hc, err := cache.NewHttpCache(&cfg, p)
	if err != nil {
		panic(err)
	}
	tr := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	tr.Transport = o
	return middleware.NewCoalesced(tr)
}

// eligible: may share a response with others.
func (s *Sched) eligible(r *Request) bool {
	if r.method() != "GET" {
		return false
	}
	switch strings.ToLower(r.HdrK) {
	case "authorization", "range", "if-none-match", "if-match", "if-modified-since", "if-unmodified-since", "if-range":
		return false
	}
	if s.Cached && s.ExHeader && r.HdrK == "X-Session" && r.HdrV == "1" {
		return false
	}
	if s.Cached && s.ExPath != "" && strings.HasPrefix(r.Path, "/excluded") {
		return false
	}
	return true
}

func private(cc string) bool {
	cc = strings.ToLower(cc)
	return strings.Contains(cc, "private") || strings.Contains(cc, "no-store")
}

type runner struct {
	s       *Sched
	o       *origin
	rt      http.RoundTripper
	clients []*client
	started []bool
	flight  map[string]*flight // phase 1 flights per key
	stored  map[string]bool
	waits   map[int]*flight // request -> flight it waits for
	loose   map[string]int  // open contacts outside a phase 1 flight, per key
	looseW  map[string]bool
	l       *core.Labels
	leak    bool // report C13 matters
	fl      []*flight
}

type flight struct {
	key     string
	c       *contact
	waiters []int
	body    bool // headers are out, the body is not
	ended   bool
}

// RunSched executes a schedule. Which of the two properties a violation belongs to is decided by leak.
func runSched(t *testing.T, s Sched, leak bool) core.Result {
	l := &core.Labels{}
	v := ""
	dl := core.Bubble(t, func() {
		if g := core.Guard(func() { v = execSched(&s, l, leak) }); g != "" {
			v = g
		}
	})
	if dl != "" && v == "" {
		v = "deadlock: " + dl
	}
	nt := l.Has("shared")
	if leak {
		nt = l.Has("bypass-overlap") || l.Has("private-waiters") || l.Has("cancel-overlap")
	}
	return core.Result{Violation: v, NonTrivial: nt, Labels: l.List()}
}

func execSched(s *Sched, l *core.Labels, leak bool) string {
	o := &origin{}
	r := &runner{s: s, o: o, rt: stack(s, o), flight: map[string]*flight{}, stored: map[string]bool{}, waits: map[int]*flight{}, loose: map[string]int{}, looseW: map[string]bool{}, l: l, leak: leak}
	for i := range s.Reqs {
		r.clients = append(r.clients, &client{req: &s.Reqs[i]})
		r.started = append(r.started, false)
	}
	for n, ev := range s.Events {
		if v := r.step(ev); v != "" {
			return fmt.Sprintf("event %d %s %d: %s", n, ev.E, ev.I, v)
		}
	}
	// release everything that is still open
	for i := 0; i < 4*len(s.Reqs)+4; i++ {
		c := r.open()
		if len(c) == 0 {
			break
		}
		e := "headers"
		if c[0].headers {
			e = "body"
		}
		if v := r.step(Event{E: e, I: 0, O: len(s.Outcomes) - 1}); v != "" {
			return fmt.Sprintf("final %s: %s", e, v)
		}
	}
	for i, c := range r.clients {
		if r.started[i] && !c.get().done {
			return fmt.Sprintf("request %d is left hanging although every origin contact has been answered", i)
		}
	}
	return r.final()
}

func (r *runner) open() []*contact {
	r.o.mu.Lock()
	defer r.o.mu.Unlock()
	var out []*contact
	for _, c := range r.o.contacts {
		if c.ctx.Err() == nil && !c.bodyrel && !(c.headers && c.out.Err) {
			out = append(out, c)
		}
	}
	return out
}

// settle waits until nothing moves and returns the contacts made since.
func (r *runner) settle(from int) []*contact {
	synctest.Wait()
	r.o.mu.Lock()
	defer r.o.mu.Unlock()
	return append([]*contact{}, r.o.contacts[from:]...)
}

func (r *runner) count() int { r.o.mu.Lock(); defer r.o.mu.Unlock(); return len(r.o.contacts) }

func ids(cs []*contact) []int {
	out := []int{}
	for _, c := range cs {
		out = append(out, c.id)
	}
	sort.Ints(out)
	return out
}

func (r *runner) step(ev Event) string {
	s := r.s
	before := r.count()
	switch ev.E {
	case "wait":
		// however long it takes, nothing happens by itself
		var pending []int
		for i := range r.clients {
			if r.started[i] && !r.clients[i].get().done {
				pending = append(pending, i)
			}
		}
		time.Sleep(time.Duration(ev.I) * time.Second)
		if nc := r.settle(before); len(nc) != 0 {
			return fmt.Sprintf("after %d s the origin was contacted for %v", ev.I, ids(nc))
		}
		for _, i := range pending {
			if r.clients[i].get().done {
				return fmt.Sprintf("after %d s request %d was answered while the origin is silent", ev.I, i)
			}
		}
		r.l.Add("long-wait")
		return ""
	case "start":
		i := ev.I % len(s.Reqs)
		if r.started[i] {
			return ""
		}
		r.started[i] = true
		cl := r.clients[i]
		rq := cl.req
		ctx, cancel := context.WithCancel(context.Background())
		cl.cancel = cancel
		req := buildReq(ctx, rq, i)
		if s.ReqCC != "" {
			req.Header["Cache-Control"] = strings.Split(s.ReqCC, "|")
		}
		for _, f := range r.flight {
			if f != nil && !s.eligible(rq) && f.key == rq.key() {
				r.l.Add("bypass-overlap")
			}
		}
		go func() {
			var res result
			resp, err := r.rt.RoundTrip(req)
			res.done, res.err = true, err
			if err == nil {
				res.status = resp.StatusCode
				res.hdr = resp.Header.Clone()
				res.clen = resp.ContentLength
				// the caller owns what it got
				resp.Header.Set("X-Scribble", fmt.Sprint(i))
				for k := range resp.Header {
					if k == "X-Tag" {
						resp.Header[k][0] = "scribbled"
					}
				}
				res.body, res.berr = io.ReadAll(resp.Body)
				resp.Body.Close()
				keep := append([]byte{}, res.body...)
				for j := range res.body {
					res.body[j] = '#'
				}
				res.body = keep
			}
			cl.mu.Lock()
			cl.res = res
			cl.mu.Unlock()
		}()
		nc := r.settle(before)
		k := rq.key()
		if !s.eligible(rq) {
			r.l.Add("bypass")
			if len(nc) != 1 || nc[0].id != i {
				return fmt.Sprintf("request %d (%s %s %s) must reach the origin itself, contacts: %v", i, rq.method(), k, rq.HdrK, ids(nc))
			}
			return ""
		}
		if f := r.flight[k]; f != nil {
			if len(nc) != 0 {
				return fmt.Sprintf("request %d reached the origin although an identical one (%d) is in flight", i, f.c.id)
			}
			if cl.get().done {
				return fmt.Sprintf("request %d was answered before the one in flight", i)
			}
			f.waiters = append(f.waiters, i)
			r.waits[i] = f
			r.l.Add("waiter")
			return ""
		}
		if r.loose[k] > 0 {
			for _, c := range nc {
				if c.id != i {
					return fmt.Sprintf("starting request %d made a contact for %d", i, c.id)
				}
			}
			if len(nc) == 1 {
				// its own contact now represents the flight
				r.adopt(k, nc[0])
			}
			if len(nc) == 0 {
				r.looseW[k] = true // it joined something
			}
			r.l.Add("loose")
			return ""
		}
		if r.stored[k] {
			if len(nc) != 0 {
				return fmt.Sprintf("request %d reached the origin although a fresh response is stored", i)
			}
			if !cl.get().done {
				return fmt.Sprintf("request %d hangs although a fresh response is stored", i)
			}
			r.l.Add("hit")
			return ""
		}
		if len(nc) != 1 || nc[0].id != i {
			return fmt.Sprintf("request %d must start a new flight, contacts: %v", i, ids(nc))
		}
		r.adopt(k, nc[0])
	case "headers", "body":
		var cand []*contact
		for _, c := range r.open() {
			if c.headers == (ev.E == "body") {
				cand = append(cand, c)
			}
		}
		if len(cand) == 0 {
			return ""
		}
		c := cand[ev.I%len(cand)]
		rq := &s.Reqs[c.id]
		k := rq.key()
		var f *flight
		for _, x := range r.flights() {
			if x.c == c {
				f = x
			}
		}
		if ev.E == "headers" {
			out := s.Outcomes[ev.O%len(s.Outcomes)]
			if s.Cached {
				// one policy for the whole schedule
				out.CC = []string{"max-age=3600", "max-age=0", "private, max-age=60"}[s.Policy]
				if s.Policy == 2 && ev.O%2 == 1 {
					out.CC = "max-age=60|public, private=\"set-cookie\""
				}
				out.CCKey = "Cache-Control"
				if out.Status == 0 || s.Policy == 0 {
					out.Status = 200
				}
			}
			c.out = &out
			c.status = out.Status
			if c.status == 0 {
				c.status = 200
			}
			c.hdr = http.Header{"X-Tag": {fmt.Sprintf("c%d-r%d", c.n, c.id)}, "X-Multi": {"a", "b, c"}, "Date": {"Sat, 01 Jan 2000 00:00:00 GMT"}}
			if out.CC != "" {
				ck := out.CCKey
				if ck == "" {
					ck = "Cache-Control"
				}
				c.hdr[http.CanonicalHeaderKey(ck)] = strings.Split(out.CC, "|") // field lines
			}
			c.body = []byte(strings.Repeat(fmt.Sprintf("<c%d-r%d-%s>\r\n\x00", c.n, c.id, k), out.Len))
			if len(c.body) < 4 {
				out.Cut = false
				c.out.Cut = false
			}
			c.headers = true
			close(c.hgate)
			nc := r.settle(before)
			if f == nil {
				if len(nc) != 0 && r.loose[k] == 0 && !r.looseW[k] {
					return fmt.Sprintf("answering contact %d of request %d caused contacts %v", c.n, c.id, ids(nc))
				}
				if out.Err {
					r.closeLoose(c)
				}
				r.looseContacts(nc)
				return ""
			}
			// the flight's first phase ends
			delete(r.flight, f.key)
			if out.Err {
				f.ended = true
				if len(nc) != 0 {
					return fmt.Sprintf("the failed flight of request %d caused further contacts %v", c.id, ids(nc))
				}
				for _, w := range append([]int{c.id}, f.waiters...) {
					if r.clients[w].killed {
						continue
					}
					if res := r.clients[w].get(); !res.done || res.err == nil {
						return fmt.Sprintf("request %d did not get the error of the flight (done=%v err=%v)", w, res.done, res.err)
					}
				}
				if len(f.waiters) > 0 {
					r.l.Add("shared", "shared-error")
				}
				return ""
			}
			f.body = true
			r.loose[f.key]++
			if private(out.CC) {
				return r.private(f, nc, false)
			}
			if len(nc) != 0 {
				return fmt.Sprintf("the flight of request %d caused further contacts %v", c.id, ids(nc))
			}
			return ""
		}
		// body
		c.bodyrel = true
		close(c.bgate)
		nc := r.settle(before)
		if f == nil {
			if s.Cached && !c.out.Cut && s.Policy == 0 && s.eligible(rq) && !r.clients[c.id].killed {
				r.stored[k] = true
			}
			r.closeLoose(c)
			r.looseContacts(nc)
			return ""
		}
		f.ended = true
		r.loose[f.key]--
		complete := !c.out.Cut
		if s.Cached && complete && s.Policy == 0 {
			// stored once read to the end, by the requester or on its behalf
			if !r.clients[c.id].killed {
				r.stored[f.key] = true
			}
		}
		if private(c.out.CC) {
			return r.private(f, nc, true)
		}
		if len(nc) != 0 && !r.looseW[k] {
			return fmt.Sprintf("the finished flight of request %d caused further contacts %v", c.id, ids(nc))
		}
		for _, w := range append([]int{c.id}, f.waiters...) {
			if r.clients[w].killed {
				continue
			}
			res := r.clients[w].get()
			if !res.done {
				return fmt.Sprintf("request %d hangs after the flight of request %d has finished", w, c.id)
			}
			if c.out.Cut {
				if res.err == nil && res.berr == nil {
					return fmt.Sprintf("request %d got a complete-looking response (%d bytes) although the origin broke off after %d of %d", w, len(res.body), len(c.body)-len(c.body)/2, len(c.body))
				}
				continue
			}
			if v := r.same(w, res, c); v != "" {
				return v
			}
		}
		if len(f.waiters) > 0 {
			r.l.Add("shared")
			if c.out.Cut {
				r.l.Add("shared-cut")
			}
		}
	case "cancel":
		i := ev.I % len(s.Reqs)
		cl := r.clients[i]
		if !r.started[i] || cl.killed || cl.get().done {
			return ""
		}
		cl.killed = true
		cl.cancel()
		nc := r.settle(before)
		res := cl.get()
		if !res.done {
			return fmt.Sprintf("request %d does not end although its client has gone", i)
		}
		k := cl.req.key()
		var f *flight
		for _, x := range r.flights() {
			if x.c.id == i && !x.ended {
				f = x
			}
		}
		if f == nil {
			// a waiter or a lone request
			if len(nc) != 0 && r.loose[k] == 0 && !r.looseW[k] {
				return fmt.Sprintf("cancelling request %d caused contacts %v", i, ids(nc))
			}
			for _, c := range r.all() {
				if c.id == i {
					r.closeLoose(c)
				}
			}
			r.looseContacts(nc)
			if w := r.waits[i]; w != nil && !w.ended {
				r.l.Add("cancel-overlap", "cancel-waiter")
			}
			return ""
		}
		// the leader went away: the others carry on
		f.ended = true
		if f.body {
			r.loose[f.key]--
		} else {
			delete(r.flight, f.key)
		}
		var live []int
		for _, w := range f.waiters {
			if !r.clients[w].killed && !r.clients[w].get().done {
				live = append(live, w)
			}
		}
		for _, w := range f.waiters {
			if res := r.clients[w].get(); res.done && !r.clients[w].killed && (errors.Is(res.err, context.Canceled) || errors.Is(res.berr, context.Canceled)) {
				return fmt.Sprintf("request %d failed (%v %v) because the client of request %d went away", w, res.err, res.berr, i)
			}
		}
		if len(live) == 0 {
			if len(nc) != 0 && r.loose[k] == 0 && !r.looseW[k] {
				return fmt.Sprintf("cancelling request %d caused contacts %v", i, ids(nc))
			}
			r.looseContacts(nc)
			return ""
		}
		r.l.Add("cancel-overlap", "cancel-leader")
		if f.body && private(f.c.out.CC) {
			r.looseContacts(nc)
			return ""
		}
		if g := r.flight[f.key]; g != nil && len(nc) == 0 {
			// they may have joined a flight started meanwhile
			g.waiters = append(g.waiters, live...)
			return ""
		}
		if len(nc) != 1 && r.loose[k] == 0 && !r.looseW[k] {
			return fmt.Sprintf("the client of request %d went away; the requests waiting for it (%v) must continue with one contact, contacts: %v", i, live, ids(nc))
		}
		if r.loose[k] > 0 {
			r.looseContacts(nc)
			return ""
		}
		g := r.adopt(f.key, nc[0])
		for _, w := range live {
			if w != nc[0].id {
				g.waiters = append(g.waiters, w)
				r.waits[w] = g
			}
		}
	}
	return ""
}

func (r *runner) all() []*contact {
	r.o.mu.Lock()
	defer r.o.mu.Unlock()
	return append([]*contact{}, r.o.contacts...)
}

// flights that have not ended, in either phase.
func (r *runner) flights() []*flight {
	var out []*flight
	seen := map[*flight]bool{}
	for _, f := range r.fl {
		if !f.ended && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func (r *runner) adopt(k string, c *contact) *flight {
	f := &flight{key: k, c: c}
	c.leaders = true
	r.flight[k] = f
	r.fl = append(r.fl, f)
	return f
}

// looseContacts registers contacts whose place in a flight is not determined.
func (r *runner) looseContacts(cs []*contact) {
	for _, c := range cs {
		r.loose[r.s.Reqs[c.id].key()]++
		c.leaders = true
	}
}

func (r *runner) closeLoose(c *contact) {
	if c.leaders && r.s.eligible(&r.s.Reqs[c.id]) {
		for _, f := range r.fl {
			if f.c == c {
				return
			}
		}
		k := r.s.Reqs[c.id].key()
		if r.loose[k] > 0 {
			r.loose[k]--
		}
		c.leaders = false
	}
}

// private: the flight's response belongs to its leader alone; the waiters go on their own.
func (r *runner) private(f *flight, nc []*contact, end bool) string {
	for _, c := range nc {
		r.loose[f.key]++
		c.leaders = true
	}
	if !end {
		return ""
	}
	if len(f.waiters) > 0 {
		r.l.Add("private-waiters")
	}
	contacted := map[int]bool{}
	for _, c := range r.all() {
		contacted[c.id] = true
	}
	for _, w := range f.waiters {
		if r.clients[w].killed || contacted[w] {
			continue
		}
		// it may wait for another flight, but not have finished
		if res := r.clients[w].get(); res.done && res.err == nil && res.hdr.Get("X-Tag") == f.c.hdr.Get("X-Tag") {
			return fmt.Sprintf("request %d got the %s response to request %d", w, f.c.out.CC, f.c.id)
		}
	}
	return ""
}

var hop = map[string]bool{"Connection": true, "Content-Length": true, "Transfer-Encoding": true}

func (r *runner) same(w int, res result, c *contact) string {
	if res.err != nil {
		return fmt.Sprintf("request %d got error %v although the flight of request %d succeeded", w, res.err, c.id)
	}
	if res.status != c.status {
		return fmt.Sprintf("request %d got status %d, the flight of request %d %d", w, res.status, c.id, c.status)
	}
	if res.berr != nil || !bytes.Equal(res.body, c.body) {
		return fmt.Sprintf("request %d got %d bytes (%v), the flight of request %d %d bytes", w, len(res.body), res.berr, c.id, len(c.body))
	}
	if !c.out.NoLen && res.clen >= 0 && res.clen != int64(len(c.body)) {
		return fmt.Sprintf("request %d got Content-Length %d for %d bytes", w, res.clen, len(c.body))
	}
	for k, v := range c.hdr {
		if !hop[k] && fmt.Sprint(res.hdr[k]) != fmt.Sprint(v) {
			return fmt.Sprintf("request %d got header %s %q, the flight of request %d %q", w, k, res.hdr[k], c.id, v)
		}
	}
	for k := range res.hdr {
		if _, ok := c.hdr[k]; !ok && !hop[k] && k != "Age" {
			return fmt.Sprintf("request %d got an additional header %s: %q", w, k, res.hdr[k])
		}
	}
	return ""
}

// final: who got what.
func (r *runner) final() string {

	byTag := map[string]*contact{}
	for _, c := range r.all() {
		byTag[fmt.Sprintf("c%d-r%d", c.n, c.id)] = c
	}
	for i, cl := range r.clients {
		if !r.started[i] {
			continue
		}
		res := cl.get()
		if cl.killed {
			continue
		}
		if res.err != nil || res.berr != nil {
			// some contact of this resource must have failed
			failed := false
			for _, c := range r.all() {
				if c.out != nil && (c.out.Err || c.out.Cut) && r.s.Reqs[c.id].key() == cl.req.key() {
					failed = true
				}
			}
			if !failed {
				return fmt.Sprintf("request %d failed (%v %v) although neither its client nor the origin did", i, res.err, res.berr)
			}
			continue
		}
		c := byTag[res.hdr.Get("X-Tag")]
		if c == nil {
			return fmt.Sprintf("request %d got a response of unknown origin: %v", i, res.hdr)
		}
		own := c.id == i
		src := &r.s.Reqs[c.id]
		if src.key() != cl.req.key() {
			return fmt.Sprintf("request %d for %s got the response to request %d for %s", i, cl.req.key(), c.id, src.key())
		}
		if !own && !r.s.eligible(cl.req) {
			return fmt.Sprintf("request %d (%s, %s) bypasses the cache but got the response to request %d", i, cl.req.method(), cl.req.HdrK, c.id)
		}
		if !own && !r.s.eligible(src) {
			return fmt.Sprintf("request %d got the response to request %d, which bypasses the cache (%s, %s)", i, c.id, src.method(), src.HdrK)
		}
		if !own && private(c.out.CC) {
			return fmt.Sprintf("request %d got the %q response to request %d", i, c.out.CC, c.id)
		}
		if c.out.Cut && cl.req.method() != "HEAD" {
			return fmt.Sprintf("request %d got a complete-looking response though the origin broke off", i)
		}
		if cl.req.method() != "HEAD" && !bytes.Equal(res.body, c.body) {
			return fmt.Sprintf("request %d got %d bytes, want %d", i, len(res.body), len(c.body))
		}
	}
	return ""
}

func genSched(rt *rapid.T, leak bool) Sched {
	s := Sched{}
	s.Cached = rapid.Bool().Draw(rt, "cached")
	if s.Cached {
		s.Policy = rapid.IntRange(0, 2).Draw(rt, "policy")
		if leak {
			if rapid.Bool().Draw(rt, "exh") {
				s.ExHeader = true
			}
			if rapid.IntRange(0, 3).Draw(rt, "exp") == 0 {
				s.ExPath = "^/excluded"
			}
		}
	}
	// groups of different resources that look alike
	targets := rapid.SampledFrom([][]Request{
		{{Host: "h1", Path: "/a"}, {Host: "h1", Path: "/a", Query: "x=1"}, {Host: "h2", Path: "/a"}, {Host: "h1", Path: "/excluded/a"}},
		{{Host: "h1", Path: "/a"}, {Host: "h1", Path: "/a", Query: "x=1"}, {Host: "h2", Path: "/a"}, {Host: "h1", Path: "/excluded/a"}},
		{{Host: "h1", Path: "/a/b"}, {Host: "h1", Path: "/a%2Fb"}, {Host: "h1", Path: "/a%252Fb"}, {Host: "h1", Path: "/A/b"}},
		{{Host: "h1", Path: "/a", Query: "x=1"}, {Host: "h1", Path: "/a%3Fx=1"}, {Host: "h1", Path: "/a", Query: "x=1&y=2"}, {Host: "h1", Path: "/a", Query: "x=1%26y=2"}},
		{{Host: "h1", Path: "/a", Query: "x=1"}, {Host: "h1", Path: "/ax=1"}, {Host: "h1", Path: "/a"}, {Host: "h1", Path: "/a", Query: "x;y=1"}},
		{{Host: "h1", Path: "/a"}, {Host: "h1", Path: "/a", Scheme: "https"}, {Host: "h1:81", Path: "/a"}, {Host: "h1", Path: "/81/a"}},
	}).Draw(rt, "alike")
	nt := rapid.IntRange(1, 3).Draw(rt, "targets")
	if !leak {
		nt = rapid.IntRange(1, 2).Draw(rt, "targets2")
	}
	n := rapid.IntRange(2, 7).Draw(rt, "n")
	crowd := rapid.IntRange(0, 99).Draw(rt, "crowd") == 0
	if crowd {
		n, nt = rapid.IntRange(15, 150).Draw(rt, "many"), 1
	}
	base := rapid.IntRange(0, 3).Draw(rt, "base")
	for i := 0; i < n; i++ {
		r := targets[(base+rapid.IntRange(0, nt-1).Draw(rt, "t"))%4]
		if leak && rapid.IntRange(0, 2).Draw(rt, "special") == 0 {
			switch rapid.IntRange(0, 9).Draw(rt, "kind") {
			case 0, 1, 2:
				r.HdrK, r.HdrV = "Authorization", fmt.Sprintf("Bearer %d", i)
			case 3:
				r.HdrK, r.HdrV = "Range", "bytes=0-3"
			case 4:
				r.HdrK, r.HdrV = rapid.SampledFrom([]string{"If-None-Match", "If-Match", "If-Range"}).Draw(rt, "cond"), `"x"`
			case 5:
				r.HdrK, r.HdrV = rapid.SampledFrom([]string{"If-Modified-Since", "If-Unmodified-Since"}).Draw(rt, "condt"), "Sat, 01 Jan 2000 00:00:00 GMT"
			case 6:
				r.Method = rapid.SampledFrom([]string{"POST", "DELETE", "PUT", "OPTIONS"}).Draw(rt, "method")
			case 7:
				if !s.Cached {
					r.Method = "HEAD"
				}
			default:
				r.HdrK, r.HdrV = "X-Session", "1"
			}
		}
		s.Reqs = append(s.Reqs, r)
	}
	no := rapid.IntRange(1, 3).Draw(rt, "outs")
	for i := 0; i < no; i++ {
		o := Outcome{Len: rapid.SampledFrom([]int{0, 1, 3, 500, 3000}).Draw(rt, "len"), NoLen: rapid.Bool().Draw(rt, "nolen")}
		switch rapid.IntRange(0, 7).Draw(rt, "okind") {
		case 0:
			o.Err = true
		case 1:
			o.Cut = true
		case 2:
			o.Status = rapid.SampledFrom([]int{404, 500, 301, 503, 403}).Draw(rt, "status")
		}
		if !s.Cached {
			o.CC = rapid.SampledFrom([]string{"", "public, max-age=60", "no-cache", "private", "no-store", "Private, max-age=10", "max-age=5, NO-STORE", "private=\"x\"",
				"max-age=60, private=\"set-cookie, x\"", "no-store=\"x\"", "max-age=60|private", "public|max-age=9,no-store", "private |max-age=60", "s-maxage=60,private", "ext=\"a, b\",\tno-store "}).Draw(rt, "cc")
			if !leak && private(o.CC) && rapid.Bool().Draw(rt, "shareable") {
				o.CC = "max-age=60"
			}
		}
		s.Outcomes = append(s.Outcomes, o)
	}
	if !s.Cached && rapid.IntRange(0, 3).Draw(rt, "reqcc?") == 0 {
		s.ReqCC = rapid.SampledFrom([]string{"no-cache", "max-age=0", "max-stale", "min-fresh=5", "no-store", "max-age=0|no-cache", "ext=1"}).Draw(rt, "reqcc")
	}
	ne := rapid.IntRange(n, 3*n+4).Draw(rt, "events")
	next, waits := 0, 0
	if crowd {
		for ; next < n-1; next++ {
			s.Events = append(s.Events, Event{E: "start", I: next})
		}
		ne = 12
	}
	for i := 0; i < ne; i++ {
		k := rapid.SampledFrom([]string{"start", "start", "start", "start", "headers", "headers", "body", "body", "cancel"}).Draw(rt, "e")
		if waits < 3 && rapid.IntRange(0, 9).Draw(rt, "wait?") == 0 {
			waits++
			s.Events = append(s.Events, Event{E: "wait", I: rapid.SampledFrom([]int{1, 6, 31, 120}).Draw(rt, "seconds")})
		}
		switch k {
		case "start":
			s.Events = append(s.Events, Event{E: k, I: next})
			next++
			if next >= n {
				next = n - 1
			}
		case "headers":
			s.Events = append(s.Events, Event{E: k, I: rapid.IntRange(0, 2).Draw(rt, "which"), O: rapid.IntRange(0, no-1).Draw(rt, "out")})
		case "body":
			s.Events = append(s.Events, Event{E: k, I: rapid.IntRange(0, 2).Draw(rt, "which")})
		case "cancel":
			if leak || rapid.IntRange(0, 3).Draw(rt, "cancel?") == 0 {
				s.Events = append(s.Events, Event{E: k, I: rapid.IntRange(0, n-1).Draw(rt, "who")})
			}
		}
	}
	return s
}
