package httpsim

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/prometheus/client_golang/prometheus"

	"verif/harness/core"
)

// ToConfig builds the real configuration.
func (c Cfg) ToConfig() *cache.HttpCacheConfig {
	r := &cache.HttpCacheConfig{
		Strict: c.Strict, XCache: c.XHeader, XCacheName: c.XName, DefaultTTL: c.TTL,
		DefaultCacheControl: c.CC, ForceCacheControl: c.Force,
	}
	for _, t := range c.Timeouts {
		r.Timeouts = append(r.Timeouts, cache.Timeout{Path: t.Path, TTL: time.Duration(t.MS) * time.Millisecond})
	}
	if !c.NoExclude {
		ex := &cache.Exclude{Path: append([]string{}, c.ExPath...)}
		if c.ExHeader != nil {
			ex.Header = map[string]string{}
			for k, v := range c.ExHeader {
				ex.Header[k] = v
			}
		}
		for _, x := range c.ExContent {
			ex.Content = append(ex.Content, cache.Content{Type: x.Type, Size: x.Size})
		}
		r.Exclude = ex
	}
	return r
}

var errOrigin = errors.New("origin: connection reset")

// exchange is what the fake origin saw and answered in one contact.
type exchange struct {
	req  *http.Request // snapshot
	sent *http.Response
	hdr  http.Header // snapshot of the response header fields as received by the cache
	body []byte
	cut  bool
	resp *Resp
	nm   bool
	at   time.Time
	err  error
}

type origin struct {
	step *Step
	seen []*exchange
}

type cutReader struct {
	r *bytes.Reader
}

func (c *cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		return n, errOrigin
	}
	return n, err
}

// BuildResponse renders the scripted response as wire bytes and parses them as net/http would.
func BuildResponse(r *Resp, req *http.Request, now time.Time) (*http.Response, error) {
	var w bytes.Buffer
	body := r.body()
	if r.Status == 204 || r.Status == 304 || req.Method == "HEAD" {
		body = nil
	}
	fmt.Fprintf(&w, "HTTP/1.1 %d %s\r\n", r.Status, http.StatusText(r.Status))
	for _, h := range r.Hdr {
		fmt.Fprintf(&w, "%s: %s\r\n", h.K, h.value(now))
	}
	noBody := r.Status == 204 || r.Status == 304
	fr := r.Framing
	if fr == "decoded" {
		fr = "close"
	}
	switch {
	case noBody:
	case fr == "chunked":
		w.WriteString("Transfer-Encoding: chunked\r\n")
	case fr == "close":
	default:
		n := len(body)
		if req.Method == "HEAD" {
			n = len(r.body())
		}
		fmt.Fprintf(&w, "Content-Length: %d\r\n", n)
	}
	w.WriteString("\r\n")
	if !noBody && req.Method != "HEAD" {
		if fr == "chunked" {
			for i := 0; i < len(body); {
				n := min(len(body)-i, 1+(i*7+3)%4000)
				fmt.Fprintf(&w, "%x\r\n", n)
				w.Write(body[i : i+n])
				w.WriteString("\r\n")
				i += n
			}
			w.WriteString("0\r\n\r\n")
		} else {
			w.Write(body)
		}
	}
	b := w.Bytes()
	var rd io.Reader = bytes.NewReader(b)
	if r.Cut > 0 && len(body) > 0 && req.Method != "HEAD" && !noBody {
		rd = &cutReader{bytes.NewReader(b[:len(b)-min(r.Cut, len(body))])}
	}
	resp, err := http.ReadResponse(bufio.NewReader(rd), req)
	if err != nil {
		return nil, err
	}
	if r.Framing == "decoded" && !noBody && req.Method != "HEAD" {
		resp.Uncompressed = true
		resp.ContentLength = -1
		resp.Close = false
		resp.Header.Del("Connection")
	}
	return resp, nil
}

func (o *origin) RoundTrip(req *http.Request) (*http.Response, error) {
	ex := &exchange{at: time.Now()}
	o.seen = append(o.seen, ex)
	ex.req = req.Clone(context.Background())
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		ex.body = b
		req.Body.Close()
	}
	r := o.step.Resp
	cond := false
	for _, h := range []string{"If-None-Match", "If-Modified-Since"} {
		if req.Header.Get(h) != "" {
			cond = true
		}
	}
	if o.step.NM != nil && cond {
		r = o.step.NM
		ex.nm = r.Status == 304
	}
	ex.resp = r
	if r.Err != "" {
		ex.err = errOrigin
		return nil, errOrigin
	}
	resp, err := BuildResponse(r, req, time.Now())
	if err != nil {
		panic(fmt.Sprintf("harness: cannot build response: %v", err))
	}
	ex.sent = resp
	ex.hdr = resp.Header.Clone()
	ex.cut = r.Cut > 0 && len(r.body()) > 0 && req.Method != "HEAD" && r.Status != 204 && r.Status != 304
	return resp, nil
}

// Observed is what could be seen of one step.
type Observed struct {
	Contacts  int
	Cond      string
	Status    int
	Header    http.Header
	Body      string
	Err       bool
	HitMarker bool
}

// Sim is one simulated instance.
type Sim struct {
	Tr    *middleware.Transport
	Cache *cache.HttpCache
	Prov  provider.Provider
	Org   *origin
	Reg   *prometheus.Registry
	M     *model
	L     *core.Labels
	// counts for the non-trivial rule
	Hits, Validations, Bypasses, Stores, Refused int
	Wrap                                         http.RoundTripper
	stepNo                                       int
	Faulty                                       *faultyStore
	Trace                                        []Observed
}

// NewSim builds a real cache over an in-memory store.
func NewSim(c Cfg, p provider.Provider) *Sim {
	if p == nil {
		var err error
		p, err = provider.NewInMemoryCache(provider.DefaultInMemoryCacheConfig)
		if err != nil {
			panic(err)
		}
	}
	hc, err := cache.NewHttpCache(c.ToConfig(), p)
	if err != nil {
		panic(err)
	}
	reg := prometheus.NewRegistry()
	tr := middleware.NewCachedTransport(hc, reg)
	fs, _ := p.(*faultyStore)
	s := &Sim{Faulty: fs, Tr: tr, Cache: hc, Prov: p, Org: &origin{}, Reg: reg, M: newModel(c), L: &core.Labels{}}
	tr.Transport = s.Org
	return s
}

func (s *Sim) counters() (hit, miss int) {
	mf, err := s.Reg.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range mf {
		if f.GetName() != "kache_http_cache_requests_total" {
			continue
		}
		for _, m := range f.GetMetric() {
			for _, l := range m.GetLabel() {
				switch l.GetValue() {
				case "hit":
					hit = int(m.GetCounter().GetValue())
				case "miss":
					miss = int(m.GetCounter().GetValue())
				}
			}
		}
	}
	return
}

func buildRequest(r *Req, now time.Time) (*http.Request, error) {
	u, err := url.ParseRequestURI(r.Target)
	if err != nil {
		return nil, err
	}
	u.Scheme = r.Scheme
	u.Host = r.Host
	req := &http.Request{
		Method: r.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: r.Host,
	}
	for _, h := range r.Hdr {
		req.Header.Add(h.K, h.value(now))
	}
	if r.Body != "" {
		req.Body = io.NopCloser(strings.NewReader(r.Body))
		req.ContentLength = int64(len(r.Body))
	}
	return req, nil
}

var hopByHop = map[string]bool{"Connection": true, "Keep-Alive": true, "Transfer-Encoding": true, "Trailer": true, "Content-Length": true}

func diffHeader(got, want http.Header, ignore map[string]bool) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		if !hopByHop[k] && !ignore[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !reflect.DeepEqual([]string(got[k]), []string(want[k])) && !(len(got[k]) == 0 && len(want[k]) == 0) {
			return fmt.Sprintf("header %s is %q, want %q", k, got[k], want[k])
		}
	}
	return ""
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Do executes one request step and judges it against the model. It returns a violation or "".
func (s *Sim) Do(st *Step) string {
	now := time.Now()
	r := st.Req
	m := s.M
	req, err := buildRequest(r, now)
	if err != nil {
		s.L.Add("unparsable-target")
		return ""
	}
	clientHdr := req.Header.Clone()
	decodedPath := req.URL.Path
	key := resource(r.Scheme, r.Host, r.Target)
	h0, m0 := s.counters()

	// expectations before the call
	isBypass, bwhy := m.bypass(r, decodedPath, clientHdr)
	e := m.store[key]
	alive := no
	if e != nil {
		switch {
		case now.Before(e.expires):
			alive = yes
		case now.After(e.expires):
			alive = no
		default:
			alive = either
		}
		if alive == no {
			delete(m.store, key)
			e = nil
			s.L.Add("ttl-expired")
		}
	}

	s.Org.step = st
	s.Org.seen = nil
	if s.Faulty != nil {
		s.Faulty.fault, s.Faulty.gets = st.Fault, 0
		if st.Fault != nil && e != nil {
			// the stored response is unreadable during this step
			s.L.Add("fault-" + st.Fault.Kind + "-on-entry")
			e, alive = nil, no
		}
	}
	var rt http.RoundTripper = s.Tr
	if s.Wrap != nil {
		rt = s.Wrap
	}
	resp, rerr := rt.RoundTrip(req)
	var body []byte
	var berr error
	var hdr http.Header
	if rerr == nil {
		if resp == nil {
			return "RoundTrip returned neither response nor error"
		}
		hdr = resp.Header.Clone()
		if resp.Body != nil {
			body, berr = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		// a consumer may do what it likes with its copy
		for k, vv := range resp.Header {
			for i := range vv {
				vv[i] = "mutated-by-consumer"
			}
			resp.Header[k] = append(vv, "mutated")
		}
		defer func(b []byte) {
			for i := range b {
				b[i] ^= 0xff
			}
		}(body)
	}
	h1, m1 := s.counters()
	contacts := len(s.Org.seen)
	{
		o := Observed{Contacts: contacts, Err: rerr != nil || berr != nil, Header: hdr.Clone(), Body: string(body)}
		if resp != nil {
			o.Status = resp.StatusCode
		}
		if contacts > 0 {
			q := s.Org.seen[0].req.Header
			o.Cond = fmt.Sprint(q["If-None-Match"], q["If-Modified-Since"])
		}
		s.Trace = append(s.Trace, o)
	}
	if contacts > 1 {
		return fmt.Sprintf("origin contacted %d times for one request", contacts)
	}
	var ex *exchange
	if contacts == 1 {
		ex = s.Org.seen[0]
	}
	ctx := fmt.Sprintf("step %d %s %s%s", s.stepNo, r.Method, r.Host, r.Target)
	// markIgnored are the fields of a delivered response that are judged separately
	markIgnored := func(more ...string) map[string]bool {
		ig := map[string]bool{m.xname(): m.cfg.XHeader}
		for _, k := range more {
			ig[k] = true
		}
		return ig
	}

	checkForwarded := func(want http.Header) string {
		if ex.req.Method != r.Method || ex.req.URL.String() != req.URL.String() {
			return fmt.Sprintf("%s: forwarded as %s %s", ctx, ex.req.Method, ex.req.URL)
		}
		if string(ex.body) != r.Body {
			return fmt.Sprintf("%s: forwarded body %q, want %q", ctx, ex.body, r.Body)
		}
		if d := diffHeader(ex.req.Header, want, nil); d != "" {
			return fmt.Sprintf("%s: forwarded request %s", ctx, d)
		}
		return ""
	}
	// checkDelivered compares what the client got with the expected response.
	checkDelivered := func(status int, want http.Header, wantBody []byte, cut bool, ignore map[string]bool) string {
		if resp.StatusCode != status {
			return fmt.Sprintf("%s: delivered status %d, want %d", ctx, resp.StatusCode, status)
		}
		if d := diffHeader(hdr, want, ignore); d != "" {
			return fmt.Sprintf("%s: delivered %s", ctx, d)
		}
		if cut {
			if berr == nil {
				return fmt.Sprintf("%s: a broken-off body was delivered as complete (%d bytes)", ctx, len(body))
			}
			return ""
		}
		if berr != nil {
			return fmt.Sprintf("%s: reading the delivered body failed: %v", ctx, berr)
		}
		if r.Method == "HEAD" {
			if len(body) != 0 {
				return fmt.Sprintf("%s: HEAD answered with a body %s", ctx, short(body))
			}
		} else if !bytes.Equal(body, wantBody) {
			return fmt.Sprintf("%s: delivered body %s, want %s", ctx, short(body), short(wantBody))
		}
		if cl := hdr.Values("Content-Length"); len(cl) > 0 && r.Method != "HEAD" && status != 304 && status != 204 {
			if len(cl) != 1 || cl[0] != strconv.Itoa(len(wantBody)) {
				return fmt.Sprintf("%s: Content-Length %q for a body of %d bytes", ctx, cl, len(wantBody))
			}
		}
		if resp.ContentLength >= 0 && r.Method != "HEAD" && resp.ContentLength != int64(len(wantBody)) {
			return fmt.Sprintf("%s: content length %d for a body of %d bytes", ctx, resp.ContentLength, len(wantBody))
		}
		return ""
	}

	// ---- bypass ----------------------------------------------------------------------------
	if isBypass {
		s.Bypasses++
		s.L.Add("bypass-" + bwhy)
		if e != nil {
			s.L.Add("bypass-with-entry")
		}
		if contacts != 1 {
			return fmt.Sprintf("%s: must bypass the cache (%s) but the origin was not contacted", ctx, bwhy)
		}
		if v := checkForwarded(clientHdr); v != "" {
			return v
		}
		if h1 != h0 || m1 != m0 {
			return fmt.Sprintf("%s: a bypassing request changed the hit/miss counters", ctx)
		}
		if ex.err != nil {
			if rerr == nil {
				return fmt.Sprintf("%s: origin error was not passed on", ctx)
			}
			return ""
		}
		if rerr != nil {
			return fmt.Sprintf("%s: unexpected error %v", ctx, rerr)
		}
		return checkDelivered(ex.resp.Status, ex.hdr, ex.resp.body204(r.Method), ex.cut, nil)
	}

	// ---- lookup ----------------------------------------------------------------------------
	reuse, why := no, "miss"
	if e != nil {
		reuse, why = m.reusable(e, clientHdr, now)
		reuse = and(reuse, alive)
	}
	s.L.Add("lookup-" + why)
	if reuse == either {
		s.L.Add("ambiguous-boundary")
	}

	if contacts == 0 {
		if rerr != nil {
			return fmt.Sprintf("%s: error %v without contacting the origin", ctx, rerr)
		}
		if reuse == no {
			return fmt.Sprintf("%s: answered without contacting the origin (%s)", ctx, s.explain(e, why, now))
		}
		s.Hits++
		s.L.Add("hit")
		if r.Method == "HEAD" {
			s.L.Add("hit-head")
		}
		if h1 != h0+1 || m1 != m0 {
			return fmt.Sprintf("%s: served from the store but counters moved by hit=%d miss=%d", ctx, h1-h0, m1-m0)
		}
		if v := s.checkMarker(ctx, hdr, true, nil); v != "" {
			return v
		}
		if v := s.checkAge(ctx, hdr, e, now); v != "" {
			return v
		}
		return checkDelivered(e.status, e.hdr, e.body, false, markIgnored("Age"))
	}

	// origin contacted
	if reuse == yes {
		return fmt.Sprintf("%s: the origin was contacted although the stored response may be reused (%s)", ctx, s.explain(e, why, now))
	}
	if alive == either && m1 == m0+1 {
		e = nil // treated as expired
		delete(m.store, key)
	}
	want := clientHdr.Clone()
	if e != nil {
		s.Validations++
		s.L.Add("validate")
		if v := e.hdr.Get("Etag"); v != "" {
			want["If-None-Match"] = []string{v}
		}
		if v := e.hdr.Get("Last-Modified"); v != "" {
			want["If-Modified-Since"] = []string{v}
		} else if v := e.hdr.Get("Date"); v != "" {
			want["If-Modified-Since"] = []string{v}
		}
		if h1 != h0 || m1 != m0 {
			return fmt.Sprintf("%s: a validation moved the counters by hit=%d miss=%d", ctx, h1-h0, m1-m0)
		}
	} else if h1 != h0 || m1 != m0+1 {
		return fmt.Sprintf("%s: nothing stored but counters moved by hit=%d miss=%d", ctx, h1-h0, m1-m0)
	}
	if v := checkForwarded(want); v != "" {
		return v
	}
	if ex.err != nil {
		s.L.Add("origin-error")
		if rerr == nil {
			return fmt.Sprintf("%s: origin error was not passed on", ctx)
		}
		return "" // nothing changes
	}
	if rerr != nil {
		return fmt.Sprintf("%s: unexpected error %v", ctx, rerr)
	}

	status, whdr, wbody := ex.resp.Status, ex.hdr.Clone(), ex.resp.body204(r.Method)
	clen := ex.sentLength(r.Method)
	refreshed := false
	mayStore := true
	if ex.resp.Status == 304 {
		if e == nil {
			s.L.Add("unsolicited-304")
			if v := s.checkMarker(ctx, hdr, false, ex.hdr[m.xname()]); v != "" {
				return v
			}
			return ""
		}
		refreshed = true
		s.L.Add("304")
		status, wbody = e.status, e.body
		whdr = e.hdr.Clone()
		whdr.Del("Age")
		for k, vv := range ex.hdr {
			switch k {
			case "Content-Length", "Content-Range", "Etag", "Vary":
			default:
				whdr[k] = append([]string{}, vv...)
			}
		}
		if et := ex.hdr.Get("Etag"); et != "" && et != e.hdr.Get("Etag") {
			mayStore = false
			s.L.Add("304-etag-mismatch")
		}
		clen = e.contentLength()
	}
	if m.cfg.CC != "" && (m.cfg.Force || len(whdr["Cache-Control"]) == 0) {
		whdr["Cache-Control"] = []string{m.cfg.CC}
		s.L.Add("default-cc")
	}
	if v := checkDelivered(status, whdr, wbody, ex.cut, markIgnored()); v != "" {
		return v
	}
	if v := s.checkMarker(ctx, hdr, refreshed, ex.hdr[m.xname()]); v != "" {
		return v
	}
	ok, swhy := m.storable(r.Method, clientHdr, status, whdr, clen)
	if !mayStore {
		ok, swhy = false, "etag-mismatch"
	}
	s.L.Add("store-" + swhy)
	switch {
	case ex.cut && ok:
		s.L.Add("cut-not-stored")
		// never stored; a stale predecessor may or may not survive: it stays in this implementation
	case ok:
		s.Stores++
		org := s.stepNo
		m.store[key] = &entry{status: status, hdr: whdr, body: wbody, storedAt: time.Now(),
			expires: time.Now().Add(m.ttl(decodedPath)), origin: org}
	default:
		s.Refused++
		if e != nil {
			s.L.Add("removed-" + swhy)
		}
		delete(m.store, key)
	}
	return ""
}

func (r *Resp) body204(method string) []byte {
	if r.Status == 204 || r.Status == 304 || method == "HEAD" {
		return nil
	}
	return r.body()
}

// sentLength is the length known to the receiver.
func (ex *exchange) sentLength(method string) int64 {
	switch ex.resp.Framing {
	case "chunked", "close", "decoded":
		if ex.resp.Status != 204 && ex.resp.Status != 304 {
			return -1
		}
	}
	return int64(len(ex.resp.body204(method)))
}

func (e *entry) contentLength() int64 {
	if v := e.hdr.Get("Content-Length"); v != "" {
		n, _ := strconv.ParseInt(v, 10, 64)
		return n
	}
	return -1
}

func (s *Sim) explain(e *entry, why string, now time.Time) string {
	if e == nil {
		return "nothing is stored: " + why
	}
	a := e.age(now)
	return fmt.Sprintf("%s; age %v..%v lifetime %v stored response headers %v", why, a.lo, a.hi, e.lifetime(), e.hdr)
}

func (s *Sim) checkMarker(ctx string, hdr http.Header, hit bool, orig []string) string {
	vals := hdr[s.M.xname()]
	if len(orig) > 0 {
		s.L.Add("origin-marker")
	}
	switch {
	case !s.M.cfg.XHeader: // nothing is added, which the comparison of all fields decides
	case hit:
		s.L.Add("marked-hit")
		if len(vals) != 1 || vals[0] != "HIT" {
			return fmt.Sprintf("%s: marker %s is %q on a response from the store", ctx, s.M.xname(), vals)
		}
	default:
		for _, v := range vals {
			if v != "MISS" && !slices.Contains(orig, v) {
				return fmt.Sprintf("%s: marker %s is %q on a response from the origin", ctx, s.M.xname(), vals)
			}
		}
	}
	return ""
}

var ageRe = regexp.MustCompile(`^[0-9]+$`)

func (s *Sim) checkAge(ctx string, hdr http.Header, e *entry, now time.Time) string {
	v := hdr["Age"]
	if len(v) != 1 || !ageRe.MatchString(v[0]) {
		return fmt.Sprintf("%s: Age field %q on a response from the store", ctx, v)
	}
	got, err := strconv.ParseInt(v[0], 10, 64)
	if err != nil {
		return fmt.Sprintf("%s: Age field %q", ctx, v)
	}
	a := e.age(now)
	lo, hi := int64(a.lo/time.Second), int64(a.hi/time.Second)
	if got < lo || (got > hi && hi < huge) {
		return fmt.Sprintf("%s: Age is %d, want %d..%d (stored headers %v)", ctx, got, lo, hi, e.hdr)
	}
	if got < e.lastAge {
		return fmt.Sprintf("%s: Age went from %d back to %d", ctx, e.lastAge, got)
	}
	e.lastAge = got
	if got > 0 {
		s.L.Add("age>0")
	}
	return ""
}

// Run executes a scenario on a virtual clock.
func Run(t *testing.T, sc Scenario) core.Result {
	return RunWith(t, sc, nil)
}

// RunWith is Run with a rule deciding which executed cases are non-trivial.
func RunWith(t *testing.T, sc Scenario, nontrivial func(*Sim) bool) core.Result {
	var v string
	var s *Sim
	dl := core.Bubble(t, func() {
		g := core.Guard(func() {
			s = NewSim(sc.Cfg, storeFor(sc))
			v = s.play(sc)
		})
		if g != "" {
			v = g
		}
	})
	if dl != "" {
		return core.Bad("deadlock: %s", dl)
	}
	res := core.Result{Violation: v}
	if s != nil {
		res.Labels = s.L.List()
		if nontrivial != nil {
			res.NonTrivial = nontrivial(s)
		} else {
			res.NonTrivial = s.Hits+s.Validations > 0
		}
	}
	return res
}

func (s *Sim) play(sc Scenario) string {
	type rk struct{ scheme, host, target string }
	var order []rk
	seen := map[rk]bool{}
	for i := range sc.Steps {
		st := &sc.Steps[i]
		s.stepNo = i
		if st.Sleep > 0 {
			time.Sleep(time.Duration(st.Sleep) * time.Millisecond)
		}
		if st.Cfg != nil {
			s.Cache.UpdateConfig(st.Cfg.ToConfig())
			s.M.setCfg(*st.Cfg)
			s.L.Add("config-update")
		}
		if st.Req != nil {
			if v := s.Do(st); v != "" {
				return v
			}
			k := rk{st.Req.Scheme, st.Req.Host, st.Req.Target}
			if !seen[k] {
				seen[k] = true
				order = append(order, k)
			}
		}
	}
	if sc.Epi {
		if sc.EpiAge > 0 {
			time.Sleep(time.Duration(sc.EpiAge) * time.Millisecond)
		}
		for _, k := range order {
			s.stepNo++
			st := &Step{Req: &Req{Method: "GET", Scheme: k.scheme, Host: k.host, Target: k.target},
				Resp: &Resp{Status: 200, Body: "epilogue", Hdr: []H{{K: "Cache-Control", V: "no-store"}}}}
			if v := s.Do(st); v != "" {
				return "epilogue: " + v
			}
		}
	}
	return ""
}

func sleepMS(ms int64) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}
