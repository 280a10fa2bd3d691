package srv

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Acct is the traffic of a running instance.
type Acct struct {
	Listeners int      `json:"listeners"`
	Marker    bool     `json:"marker"`
	Layout    string   `json:"layout,omitempty"` // api prefix
	Kinds     []string `json:"kinds"`            // of the resources
	Steps     []AcStep `json:"steps"`
}

// AcStep is a step.
type AcStep struct {
	Op     string   `json:"op"` // round burst purge flush reload bad update
	Via    string   `json:"via,omitempty"`
	U      int      `json:"u,omitempty"`
	N      int      `json:"n,omitempty"`
	Lanes  []AcLane `json:"lanes,omitempty"`
	Accept string   `json:"accept,omitempty"` // of the look at the metrics after the step
	Zip    bool     `json:"zip,omitempty"`
}

// AcLane is a client with requests for one resource.
type AcLane struct {
	L    int      `json:"l"` // listener
	Keep bool     `json:"keep,omitempty"`
	Reqs []string `json:"reqs"`
}

// RunAcct judges a history.
func RunAcct(t *testing.T, sc Acct) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runAcct(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: l.Has("hit") && l.Has("miss"), Labels: l.List()}
}

type acctSim struct {
	sc        *Acct
	p         *Proc
	l         *core.Labels
	up        *Upstream
	stored    []bool
	hit, miss float64 // what was counted at the last look
	ttl       int
	labels    map[string]string
}

func (s *acctSim) target(u int) string {
	d := "/r"
	if s.sc.Kinds[u] == "excluded" {
		d = "/ex"
	}
	return fmt.Sprintf("%s/%d/%s", d, u, s.sc.Kinds[u])
}

func (s *acctSim) document(p *Proc) string {
	ls := map[string]any{}
	for i, a := range p.Web {
		ls[fmt.Sprintf("web%d", i)] = map[string]any{"addr": a}
	}
	s.ttl++
	d := map[string]any{
		"listeners": ls,
		"upstreams": []any{map[string]any{"name": "u", "addr": "http://" + s.up.Addr, "path": "/"}},
		"provider":  map[string]any{"backend": "inmemory", "inmemory": map[string]any{"max_size": 1 << 24, "max_item_size": 1 << 20}},
		"api":       map[string]any{"port": apiPort(p.API)},
		"logging":   map[string]any{"level": "error"},
		"cache":     s.rules(),
	}
	if s.sc.Layout != "" {
		d["api"].(map[string]any)["prefix"] = s.sc.Layout
	}
	b, err := yaml.Marshal(d)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func (s *acctSim) rules() map[string]any {
	return map[string]any{"strict": true, "x_header": s.sc.Marker, "default_ttl": fmt.Sprintf("%ds", 3600+s.ttl),
		"exclude": map[string]any{"path": []string{"^/ex"}, "header": map[string]any{"x_skip": "yes"}}}
}

func acctOrigin() *Upstream {
	us, _ := Upstreams()
	up := us[0]
	up.Script(func(c net.Conn, s *Seen) bool {
		kind := s.URI[strings.LastIndexByte(s.URI, '/')+1:]
		head := fmt.Sprintf("Date: %s\r\n", time.Now().UTC().Format(http.TimeFormat))
		status := "200 OK"
		switch kind {
		case "store", "excluded":
			head += "Cache-Control: max-age=3600\r\n"
		case "gone":
			status, head = "404 Not Found", head+"Cache-Control: max-age=3600\r\n"
		case "etag":
			head += "Cache-Control: no-cache\r\nEtag: \"e\"\r\n"
			if s.Header.Get("If-None-Match") == `"e"` {
				_, err := fmt.Fprintf(c, "HTTP/1.1 304 Not Modified\r\n%s\r\n", head)
				return err == nil
			}
		case "nostore":
			head += "Cache-Control: no-store\r\n"
		case "fail":
			return false
		case "broken":
			status = "500 Internal Server Error"
		case "slow":
			time.Sleep(20 * time.Millisecond)
			head += "Cache-Control: max-age=3600\r\n"
		}
		body := "data"
		if s.Method == "HEAD" {
			body = ""
		}
		_, err := fmt.Fprintf(c, "HTTP/1.1 %s\r\n%sContent-Length: 4\r\n\r\n%s", status, head, body)
		return err == nil
	})
	return up
}

// expect returns what a request is counted as.
func (s *acctSim) expect(u int, rq string) (hit, miss float64) {
	k := s.sc.Kinds[u]
	switch rq {
	case "auth", "range", "post", "cond", "skip":
		return 0, 0
	}
	if k == "excluded" {
		return 0, 0
	}
	if !s.stored[u] {
		if rq != "head" && (k == "store" || k == "gone" || k == "etag" || k == "slow") {
			s.stored[u] = true
		}
		return 0, 1
	}
	if k == "etag" || rq == "nocache" {
		return 0, 0
	}
	return 1, 0
}

func raw(rq, target string, keep bool) (string, string) {
	m, lines, body := "GET", "", ""
	switch rq {
	case "head":
		m = "HEAD"
	case "auth":
		lines = "Authorization: Basic eDp5\r\n"
	case "range":
		lines = "Range: bytes=0-1\r\n"
	case "post":
		m, lines, body = "POST", "Content-Length: 2\r\n", "hi"
	case "cond":
		lines = "If-None-Match: \"other\"\r\n"
	case "skip":
		lines = "X-Skip: yes\r\n"
	case "nocache":
		lines = "Cache-Control: no-cache\r\n"
	}
	if !keep {
		lines += "Connection: close\r\n"
	}
	return m, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: front\r\n%s\r\n%s", m, target, lines, body)
}

// lane sends requests one after the other.
func (s *acctSim) lane(a AcLane, target string) (marks []bool, err error) {
	addr := s.p.Web[a.L%len(s.p.Web)]
	var c net.Conn
	var br *bufio.Reader
	drop := func() {
		if c != nil {
			abort(c)
			c = nil
		}
	}
	defer drop()
	for _, rq := range a.Reqs {
		if c == nil {
			if c, err = net.DialTimeout("tcp", addr, 5*time.Second); err != nil {
				c = nil
				return marks, err
			}
			br = bufio.NewReader(c)
		}
		_ = c.SetDeadline(time.Now().Add(20 * time.Second))
		m, text := raw(rq, target, a.Keep)
		if _, err = c.Write([]byte(text)); err != nil {
			return marks, err
		}
		r := Read(br, m)
		if r.Err != nil {
			return marks, r.Err
		}
		marks = append(marks, r.Header.Get("X-Kache") == "HIT")
		if !a.Keep || r.Header.Get("Connection") == "close" {
			drop()
		}
	}
	return marks, nil
}

var sampleLine = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(\{((?:[a-zA-Z_][a-zA-Z0-9_]*="(?:[^"\\]|\\.)*",?)*)\})? (\S+)( -?\d+)?$`)
var labelPair = regexp.MustCompile(`([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"`)

// scrape reads the metrics.
func scrape(p *Proc, accept string, zip bool) (hit, miss float64, build map[string]string, err error) {
	lines := ""
	if accept != "" {
		lines = "Accept: " + accept + "\r\n"
	}
	if zip {
		lines += "Accept-Encoding: gzip\r\n"
	}
	r := Do(p.API, []byte("GET /metrics HTTP/1.1\r\nHost: api\r\nConnection: close\r\n"+lines+"\r\n"), "GET", 20*time.Second)
	if r.Err != nil || r.Status != 200 {
		return 0, 0, nil, fmt.Errorf("the metrics page answers with %d, %v", r.Status, r.Err)
	}
	if r.Header.Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(strings.NewReader(r.Body))
		if err != nil {
			return 0, 0, nil, fmt.Errorf("the metrics page: %v", err)
		}
		b, err := io.ReadAll(z)
		if err != nil {
			return 0, 0, nil, fmt.Errorf("the metrics page: %v", err)
		}
		r.Body = string(b)
	}
	seen := map[string]bool{}
	for n, line := range strings.Split(strings.TrimSuffix(r.Body, "\n"), "\n") {
		if strings.HasPrefix(line, "#") {
			continue
		}
		m := sampleLine.FindStringSubmatch(line)
		if m == nil {
			return 0, 0, nil, fmt.Errorf("line %d of the metrics is not a sample: %q", n+1, line)
		}
		v, err := strconv.ParseFloat(m[4], 64)
		if err != nil {
			return 0, 0, nil, fmt.Errorf("line %d of the metrics has no value: %q", n+1, line)
		}
		if seen[m[1]+m[2]] {
			return 0, 0, nil, fmt.Errorf("the metrics name %s%s twice", m[1], m[2])
		}
		seen[m[1]+m[2]] = true
		ls := map[string]string{}
		for _, x := range labelPair.FindAllStringSubmatch(m[3], -1) {
			ls[x[1]] = x[2]
		}
		switch {
		case m[1] == "kache_http_cache_requests_total" && ls["result"] == "hit" && len(ls) == 1:
			hit = v
		case m[1] == "kache_http_cache_requests_total" && ls["result"] == "miss" && len(ls) == 1:
			miss = v
		case m[1] == "kache_build_info":
			build = ls
			if v != 1 {
				return 0, 0, nil, fmt.Errorf("kache_build_info is %v", v)
			}
		}
	}
	return hit, miss, build, nil
}

// look compares the counters; more is by how many the hits may exceed the expectation.
func (s *acctSim) look(w string, st AcStep, hit, miss, more float64) string {
	h, m, b, err := scrape(s.p, st.Accept, st.Zip)
	if err != nil {
		return w + ": " + err.Error()
	}
	if m-s.miss != miss {
		return fmt.Sprintf("%s: the misses went from %v to %v, expected %v more", w, s.miss, m, miss)
	}
	if d := h - s.hit; d < hit || d > hit+more {
		return fmt.Sprintf("%s: the hits went from %v to %v, expected %v to %v more", w, s.hit, h, hit, hit+more)
	}
	if fmt.Sprint(b) != fmt.Sprint(s.labels) {
		return fmt.Sprintf("%s: the build information is %v, at first it was %v", w, b, s.labels)
	}
	s.hit, s.miss = h, m
	if hit > 0 {
		s.l.Add("hit")
	}
	if miss > 0 {
		s.l.Add("miss")
	}
	return ""
}

func runAcct(sc *Acct, l *core.Labels) (string, bool) {
	up := acctOrigin()
	defer up.CloseConns()
	dir, err := os.MkdirTemp("", "verif-proc")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	bin := os.Getenv("VERIF_BIN_KACHE")
	s := &acctSim{sc: sc, l: l, up: up, stored: make([]bool, len(sc.Kinds))}
	for try := 0; ; try++ {
		ports := Ports(1 + sc.Listeners)
		q := &Proc{API: fmt.Sprintf("127.0.0.1:%d", ports[0])}
		for _, p := range ports[1:] {
			q.Web = append(q.Web, fmt.Sprintf("127.0.0.1:%d", p))
		}
		s.p = StartProc(bin, dir, s.document(q))
		s.p.Web, s.p.API = q.Web, q.API
		ok := s.p.Up(q.API, 20*time.Second)
		for _, a := range q.Web {
			ok = ok && s.p.Up(a, 20*time.Second)
		}
		if ok {
			break
		}
		tail, taken := s.p.Tail(), strings.Contains(s.p.Output(), "address already in use")
		s.p.Kill()
		if taken && try < 3 {
			continue
		}
		return "the instance does not start\n" + tail, taken
	}
	p := s.p
	defer p.Kill()

	// what the executable says about itself
	out, err := exec.Command(bin, "-version").Output()
	if err != nil {
		return fmt.Sprintf("-version: %v", err), false
	}
	h, m, b, err := scrape(p, "", false)
	if err != nil {
		return err.Error(), false
	}
	if h != 0 || m != 0 {
		return fmt.Sprintf("a new instance counts %v hits and %v misses", h, m), false
	}
	s.labels = b
	for _, x := range []string{"version", "build", "branch"} {
		v, ok := b[x]
		if !ok {
			return fmt.Sprintf("the build information has no %s: %v", x, b), false
		}
		sep := map[string]string{"version": "version ", "build": "build=", "branch": "branch="}[x]
		if !bytes.Contains(out, []byte(sep+v)) {
			return fmt.Sprintf("%s is %q in the metrics, but -version prints\n%s", x, v, out), false
		}
	}

	// another observer: counters never fall
	var stop atomic.Bool
	var wg sync.WaitGroup
	var fell atomic.Pointer[string]
	wg.Add(1)
	go func() {
		defer wg.Done()
		ph, pm := 0.0, 0.0
		for !stop.Load() {
			h, m, _, err := scrape(p, "", false)
			if err == nil && (h < ph || m < pm) {
				x := fmt.Sprintf("the counters fell from %v, %v to %v, %v", ph, pm, h, m)
				fell.Store(&x)
				return
			}
			if err == nil {
				ph, pm = h, m
			}
			time.Sleep(time.Millisecond)
		}
	}()
	defer wg.Wait()
	defer stop.Store(true)

	prefix := "/" + strings.Trim(sc.Layout, "/")
	if sc.Layout == "" {
		prefix = "/api"
	}
	prefix = strings.TrimSuffix(prefix, "/")
	for n, st := range sc.Steps {
		w := fmt.Sprintf("step %d %s", n, st.Op)
		v, skip := s.step(w, prefix, st)
		if p.Exited() || p.Crashed() {
			return w + ": the process ends: " + p.Tail(), false
		}
		if x := fell.Load(); x != nil {
			return w + ": " + *x, false
		}
		if v != "" || skip {
			return v, skip
		}
	}
	return "", false
}

func (s *acctSim) step(w, prefix string, st AcStep) (string, bool) {
	switch st.Op {
	case "round": // different resources at the same time
		var wg sync.WaitGroup
		var hit, miss float64
		errs := make([]error, len(st.Lanes))
		marks := make([][]bool, len(st.Lanes))
		want := make([][]bool, len(st.Lanes))
		for i, a := range st.Lanes {
			if i >= len(s.sc.Kinds) {
				break
			}
			u := (st.U + i) % len(s.sc.Kinds)
			a.Reqs = append([]string(nil), a.Reqs...)
			for j, rq := range a.Reqs {
				if rq == "head" && s.sc.Kinds[u] == "etag" { // what remains stored after its validation is left open
					rq, a.Reqs[j] = "get", "get"
				}
				h, m := s.expect(u, rq)
				hit += h
				miss += m
				want[i] = append(want[i], h > 0)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				marks[i], errs[i] = s.lane(a, s.target(u))
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil { // not about the counters
				s.l.Add("cut")
				return "", true
			}
			for j, h := range want[i] {
				if h && s.sc.Marker && !marks[i][j] {
					return fmt.Sprintf("%s: request %d of lane %d should be served from the store, but is not marked", w, j, i), false
				}
			}
		}
		return s.look(w, st, hit, miss, 0), false
	case "burst": // one resource, many at once
		u := st.U % len(s.sc.Kinds)
		switch s.sc.Kinds[u] {
		case "store", "gone", "slow":
		default:
			return "", false
		}
		before := s.up.Count()
		was := s.stored[u]
		var wg sync.WaitGroup
		var bad atomic.Bool
		for i := 0; i < st.N; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, err := s.lane(AcLane{L: i, Reqs: []string{"get"}}, s.target(u)); err != nil {
					bad.Store(true)
				}
			}()
		}
		wg.Wait()
		if bad.Load() {
			s.l.Add("cut")
			return "", true
		}
		s.l.Add("burst")
		contacts := float64(s.up.Count() - before)
		s.stored[u] = true
		if was {
			if contacts != 0 {
				return fmt.Sprintf("%s: a stored response is asked for %v times", w, contacts), false
			}
			return s.look(w, st, 1, 0, float64(st.N-1)), false
		}
		return s.look(w, st, 0, contacts, float64(st.N)-contacts), false
	case "purge":
		u := st.U % len(s.sc.Kinds)
		key := "kache-http://" + s.up.Addr + s.target(u)
		if r := s.p.apiCall("DELETE", prefix+"/cache/invalidate", key, true, ""); r.Code != 200 {
			return fmt.Sprintf("%s: answered with %d", w, r.Code), false
		}
		s.stored[u] = false
	case "flush":
		if r := s.p.apiCall("DELETE", prefix+"/cache/flush", "", false, ""); r.Code != 200 {
			return fmt.Sprintf("%s: answered with %d", w, r.Code), false
		}
		for i := range s.stored {
			s.stored[i] = false
		}
	case "reload":
		s.p.Put(s.document(s.p))
		if st.Via == "hup" {
			s.p.Signal(syscall.SIGHUP)
			time.Sleep(10 * time.Millisecond)
		} else if r := s.p.apiCall("POST", prefix+"/cache/config/reload", "", false, ""); r.Code != 200 {
			return fmt.Sprintf("%s: answered with %d", w, r.Code), false
		}
		s.l.Add("reloaded")
	case "bad":
		old := s.document(s.p)
		s.p.Put("cache: [")
		_ = s.p.apiCall("POST", prefix+"/cache/config/reload", "", false, "")
		s.p.Put(old)
		if r := s.p.apiCall("POST", prefix+"/cache/config/reload", "", false, ""); r.Code != 200 {
			return fmt.Sprintf("%s: the repaired file is answered with %d", w, r.Code), false
		}
	case "update":
		s.ttl++
		b, _ := yaml.Marshal(s.rules())
		if r := s.p.apiCall("PUT", prefix+"/cache/config/update", "", false, string(b)); r.Code != 200 {
			return fmt.Sprintf("%s: answered with %d", w, r.Code), false
		}
		s.l.Add("updated")
	}
	return s.look(w, st, 0, 0, 0), false
}

// GenAcct draws a history.
func GenAcct(rt *rapid.T) Acct {
	sc := Acct{Listeners: rapid.IntRange(1, 3).Draw(rt, "listeners"), Marker: rapid.IntRange(0, 3).Draw(rt, "marker") > 0,
		Layout: rapid.SampledFrom([]string{"", "", "/x", "/metric/", "/v1/y"}).Draw(rt, "prefix")}
	for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "nr"); i < n; i++ {
		sc.Kinds = append(sc.Kinds, rapid.SampledFrom([]string{"store", "store", "store", "gone", "etag", "nostore", "fail", "broken", "slow", "excluded"}).Draw(rt, "kind"))
	}
	for i, n := 0, rapid.IntRange(2, 10).Draw(rt, "ns"); i < n; i++ {
		st := AcStep{Op: rapid.SampledFrom([]string{"round", "round", "round", "round", "round", "burst", "burst", "purge", "flush", "reload", "bad", "update"}).Draw(rt, "op"),
			U: rapid.IntRange(0, 5).Draw(rt, "u"), Accept: rapid.SampledFrom([]string{"", "", "text/plain", "*/*", "application/json"}).Draw(rt, "accept"), Zip: rapid.IntRange(0, 5).Draw(rt, "zip") == 0}
		switch st.Op {
		case "round":
			for j, k := 0, rapid.IntRange(1, 4).Draw(rt, "lanes"); j < k; j++ {
				st.Lanes = append(st.Lanes, AcLane{L: rapid.IntRange(0, 2).Draw(rt, "l"), Keep: rapid.Bool().Draw(rt, "keep"),
					Reqs: rapid.SliceOfN(rapid.SampledFrom([]string{"get", "get", "get", "get", "head", "auth", "range", "post", "cond", "skip", "nocache"}), 1, 6).Draw(rt, "reqs")})
			}
		case "burst":
			st.N = rapid.IntRange(2, 8).Draw(rt, "n")
		case "reload":
			st.Via = rapid.SampledFrom([]string{"api", "hup"}).Draw(rt, "via")
		}
		sc.Steps = append(sc.Steps, st)
	}
	return sc
}
