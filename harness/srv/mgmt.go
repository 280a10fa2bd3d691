package srv

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Rules is a cache configuration as a client may send it.
type Rules struct {
	Strict   *bool     `json:"strict,omitempty"`
	X        *bool     `json:"x,omitempty"`
	XName    *string   `json:"xname,omitempty"`
	TTL      *string   `json:"ttl,omitempty"`
	CC       *string   `json:"cc,omitempty"`
	Force    *bool     `json:"force,omitempty"`
	Timeouts []TO      `json:"to,omitempty"`
	ExPath   []string  `json:"exp,omitempty"`
	ExHdr    [2]string `json:"exh,omitempty"`
	ExType   string    `json:"ext,omitempty"`
	ExSize   int       `json:"exs,omitempty"`
}

// TO is a path TTL.
type TO struct {
	Path string `json:"p"`
	TTL  int    `json:"s"` // seconds
}

func (r Rules) strict() bool { return r.Strict == nil || *r.Strict }
func deref[T any](p *T) (v T) {
	if p != nil {
		v = *p
	}
	return
}

// doc is the generic document of the rules.
func (r Rules) doc(durationsAsText bool) map[string]any {
	d := map[string]any{}
	set := func(k string, ok bool, v any) {
		if ok {
			d[k] = v
		}
	}
	set("strict", r.Strict != nil, deref(r.Strict))
	set("x_header", r.X != nil, deref(r.X))
	set("x_header_name", r.XName != nil, deref(r.XName))
	set("default_ttl", r.TTL != nil, deref(r.TTL))
	set("default_cache_control", r.CC != nil, deref(r.CC))
	set("force_cache_control", r.Force != nil, deref(r.Force))
	if r.Timeouts != nil {
		var l []any
		for _, t := range r.Timeouts {
			var v any = int64(t.TTL) * int64(time.Second)
			if durationsAsText {
				v = fmt.Sprintf("%ds", t.TTL)
			}
			l = append(l, map[string]any{"path": t.Path, "ttl": v})
		}
		d["timeouts"] = l
	}
	ex := map[string]any{}
	if r.ExPath != nil {
		ex["path"] = r.ExPath
	}
	if r.ExHdr[0] != "" {
		ex["header"] = map[string]any{r.ExHdr[0]: r.ExHdr[1]}
	}
	if r.ExType != "" {
		c := map[string]any{"type": r.ExType}
		if r.ExSize != 0 {
			c["size"] = r.ExSize
		}
		ex["content"] = []any{c}
	}
	if len(ex) > 0 {
		d["exclude"] = ex
	}
	return d
}

// Text renders the rules.
func (r Rules) Text(syntax string) string {
	var b []byte
	var err error
	switch syntax {
	case "json":
		b, err = json.Marshal(r.doc(true))
	default:
		b, err = yaml.Marshal(r.doc(true))
	}
	if err != nil {
		panic(err)
	}
	return string(b)
}

// norm brings a read-back configuration and the rules to a comparable form.
func (r Rules) norm() map[string]any {
	d := map[string]any{
		"strict": r.strict(), "x_header": deref(r.X), "x_header_name": deref(r.XName), "default_ttl": deref(r.TTL),
		"default_cache_control": deref(r.CC), "force_cache_control": deref(r.Force),
	}
	for k, v := range r.doc(false) {
		switch k {
		case "timeouts", "exclude":
			d[k] = v
		}
	}
	b, _ := json.Marshal(d)
	var o map[string]any
	_ = json.Unmarshal(b, &o)
	return o
}

// readBack parses GET config.
func readBack(b []byte) (map[string]any, error) {
	var o map[string]any
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	prune(o)
	for _, k := range []string{"strict", "x_header", "force_cache_control"} {
		if o[k] == nil {
			o[k] = false
		}
	}
	for _, k := range []string{"x_header_name", "default_ttl", "default_cache_control"} {
		if o[k] == nil {
			o[k] = ""
		}
	}
	return o, nil
}

// prune drops null and empty members.
func prune(o map[string]any) {
	for k, v := range o {
		switch x := v.(type) {
		case nil:
			delete(o, k)
		case map[string]any:
			prune(x)
			if len(x) == 0 {
				delete(o, k)
			}
		case []any:
			if len(x) == 0 {
				delete(o, k)
			}
			for _, e := range x {
				if m, ok := e.(map[string]any); ok {
					prune(m)
				}
			}
		}
	}
}

// Mgmt is a history of proxied requests and management operations.
type Mgmt struct {
	Prefix string  `json:"prefix,omitempty"`
	Init   Rules   `json:"init"`
	Steps  []MStep `json:"steps"`
	Bulk   int     `json:"bulk,omitempty"` // entries stored earlier
}

// MStep is a step of a history.
type MStep struct {
	Op     string `json:"op"` // get probe purge invalidate flush keys config update bad
	URL    int    `json:"u,omitempty"`
	Pat    string `json:"pat,omitempty"` // exact prefix suffix inner ends any meta none "" case
	N      int    `json:"n,omitempty"`
	M      int    `json:"m,omitempty"`
	Method string `json:"method,omitempty"` // replaces the right one
	Where  string `json:"where,omitempty"`  // "", "noprefix", "default", "slash", "sub", "double"
	Rules  *Rules `json:"rules,omitempty"`
	Syntax string `json:"syntax,omitempty"`
	Raw    string `json:"raw,omitempty"`
	Fail   bool   `json:"fail,omitempty"` // the store fails
}

// paths of the resources; the responses depend on them.
var paths = []string{"/a", "/a/b", "/ab", "/a?x=1", "/a*b", "/A", "/x[1]", "/a.b", "/axb", "/nocc", "/ns", "/ex/1", "/ex/2", "/txt"}

type failing struct {
	provider.Provider
	fail bool
}

var errStore = errors.New("store failure")

func (f *failing) Purge(ctx context.Context, p string) error {
	if f.fail {
		return errStore
	}
	return f.Provider.Purge(ctx, p)
}

func (f *failing) Flush(ctx context.Context) error {
	if f.fail {
		return errStore
	}
	return f.Provider.Flush(ctx)
}

func globMatch(p, s string) bool {
	if p == "" {
		return true
	}
	parts := strings.Split(p, "*")
	if len(parts) == 1 {
		return p == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, m := range parts[1 : len(parts)-1] {
		i := strings.Index(s, m)
		if i < 0 {
			return false
		}
		s = s[i+len(m):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

type mgmtSim struct {
	sc     *Mgmt
	l      *core.Labels
	st     *Stack
	api    *api.API
	up     *Upstream
	fp     *failing
	rules  Rules
	keys   map[int]string // learned key names
	in     map[int]int    // 0 absent, 1 stored, 2 unknown
	prefix string
	ver    map[int]string // body last stored
	// for an instance in its own process
	front  string
	ignore string // keys of somebody else
	late   bool   // a reload may still take effect
	n      int
	remote func(method, target, key string, setKey bool, body string) *httptest.ResponseRecorder
}

func (m *mgmtSim) excluded(i int) bool {
	for _, p := range m.rules.ExPath {
		// the generator only draws literal "^/..." patterns
		if strings.HasPrefix(paths[i], strings.TrimPrefix(p, "^")) {
			return true
		}
	}
	return false
}

// get requests resource i and judges the reply.
func (m *mgmtSim) get(w string, i int) string {
	n := m.up.Count()
	r := Get(m.front, paths[i])
	c := m.up.Count() - n
	if r.Err != nil || r.Status != 200 {
		return fmt.Sprintf("%s: GET %s: status %d, error %v", w, paths[i], r.Status, r.Err)
	}
	hit := c == 0
	w += " GET " + paths[i]
	switch {
	case m.excluded(i):
		m.l.Add("excluded")
		if hit {
			return w + ": answered from the cache although the rules in force exclude it"
		}
		return ""
	case m.in[i] == 1 && !hit:
		return w + ": not answered from the cache although it is stored"
	case m.in[i] == 0 && hit:
		return w + ": answered from the cache although nothing should be stored"
	}
	if hit && r.Body != m.ver[i] && m.in[i] == 1 {
		return fmt.Sprintf("%s: answered with %q, stored %q", w, r.Body, m.ver[i])
	}
	if hit {
		m.l.Add("hit")
	}
	// marker
	name := deref(m.rules.XName)
	if name == "" {
		name = "X-Kache"
	}
	if hit && deref(m.rules.X) && r.Header.Get(name) != "HIT" {
		return fmt.Sprintf("%s: hit without marker %q: %v", w, name, r.Header)
	}
	if deref(m.rules.X) && hit {
		m.l.Add("marked")
	}
	if !hit || !deref(m.rules.X) {
		for _, k := range []string{"X-Kache", "X-Mark", "X-Other"} {
			if r.Header.Get(k) == "HIT" {
				return fmt.Sprintf("%s: carries %s: HIT (contacts %d, markers enabled %v)", w, k, c, deref(m.rules.X))
			}
		}
	}
	if !hit {
		m.ver[i] = r.Body
		m.in[i] = 0
		stored := true
		switch paths[i] {
		case "/ns":
			stored = !m.rules.strict() || (deref(m.rules.CC) != "" && deref(m.rules.Force))
		case "/nocc":
			stored = !m.rules.strict() || deref(m.rules.CC) != ""
		case "/txt":
			stored = m.rules.ExType == ""
		}
		if stored {
			m.in[i] = 1
			m.learn(i)
		}
	}
	return ""
}

// learn finds the key name under which a resource has been stored.
func (m *mgmtSim) learn(i int) {
	if m.keys[i] != "" {
		return
	}
	want := "kache-http://" + m.up.Addr + paths[i]
	var stored []string
	if m.remote != nil {
		_ = json.Unmarshal(m.call("GET", m.prefix+"/cache/keys", "", false, "").Body.Bytes(), &stored)
	} else {
		stored = m.st.Prov.Keys(context.Background(), "")
	}
	for _, k := range stored {
		if u, err := url.PathUnescape(k); err == nil && u == want {
			m.keys[i] = k
			return
		}
	}
	m.keys[i] = "kache-http://" + m.up.Addr + keyPath(paths[i])
}

func keyPath(p string) string {
	return strings.NewReplacer("[", "%5B", "]", "%5D", "*", "%2A").Replace(p)
}

func (m *mgmtSim) call(method, target, key string, setKey bool, body string) *httptest.ResponseRecorder {
	if m.remote != nil {
		return m.remote(method, target, key, setKey, body)
	}
	r := httptest.NewRequest(method, "http://api"+target, strings.NewReader(body))
	if setKey {
		r.Header.Set("X-Purge-Key", key)
	}
	w := httptest.NewRecorder()
	m.api.ServeHTTP(w, r)
	return w
}

func (m *mgmtSim) pattern(s MStep) string {
	k := m.keys[s.URL%len(paths)]
	if k == "" {
		k = "kache-http://" + m.up.Addr + keyPath(paths[s.URL%len(paths)])
	}
	cut := func(n int) int { return max(0, len(k)-n%12) }
	switch s.Pat {
	case "exact":
		return k
	case "prefix":
		return k[:cut(s.N)] + "*"
	case "suffix":
		return "*" + k[cut(s.N):]
	case "inner":
		a, b := cut(s.N), cut(s.M)
		if a > b {
			a, b = b, a
		}
		return "*" + k[a:b] + "*"
	case "ends":
		return k[:6] + "*" + k[cut(s.N):]
	case "meta": // other pattern languages' wildcards are ordinary characters
		return k[:len(k)-1] + []string{"?", ".", "[a-z]", ".*", "\\w"}[s.N%5]
	case "part": // a part of a key is not the key
		return k[:len(k)-1]
	case "case":
		return strings.ToUpper(k)
	case "none":
		return "kache-http://nowhere/*"
	case "all":
		return []string{"*", "kache-*", "**"}[s.N%3]
	}
	return ""
}

// RunMgmt judges a history.
func RunMgmt(t *testing.T, sc Mgmt) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runMgmt(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("removed-some") || l.Has("update-applied") || l.Has("update-rejected"), Labels: l.List()}
}

// mgmtUpstream scripts the upstream of a history.
func mgmtUpstream() *Upstream {
	us, _ := Upstreams()
	up := us[0]
	var ver atomic.Int64
	up.Script(func(c net.Conn, s *Seen) bool {
		b := fmt.Sprintf("%s v%d", s.URI, ver.Add(1))
		cc := "Cache-Control: max-age=3000\r\n"
		ct := "Content-Type: application/x-thing\r\n"
		switch s.URI {
		case "/ns":
			cc = "Cache-Control: no-store\r\n"
		case "/nocc":
			cc = ""
		case "/txt":
			ct = "Content-Type: text/plain\r\n"
		}
		_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\n%s%sContent-Length: %d\r\n\r\n%s", time.Now().UTC().Format(http.TimeFormat), cc, ct, len(b), b)
		return err == nil
	})
	return up
}

func runMgmt(sc *Mgmt, l *core.Labels) string {
	up := mgmtUpstream()
	defer up.CloseConns()

	// the initial rules come from a configuration file
	var hc cache.HttpCacheConfig
	if err := yaml.Unmarshal([]byte(sc.Init.Text("yaml")), &hc); err != nil {
		panic(err)
	}
	hc.Strict = sc.Init.strict()
	cfg := &config.Configuration{
		Upstreams: config.Upstreams{{Name: "u", Addr: "http://" + up.Addr, Path: "/"}},
		HttpCache: &hc,
		Provider:  &provider.ProviderBackendConfig{Backend: "inmemory"},
		API:       &config.API{Prefix: sc.Prefix},
	}
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 20, DefaultTTL: "1h"})
	if err != nil {
		panic(err)
	}
	fp := &failing{Provider: p}
	st, err := NewStackWith(cfg, fp)
	if err != nil {
		return "cannot start: " + err.Error()
	}
	a, err := api.New(*cfg.API, st.Srv)
	if err != nil {
		return "cannot start the API: " + err.Error()
	}
	TheFront().Use(st.Srv)
	m := &mgmtSim{sc: sc, l: l, st: st, api: a, up: up, fp: fp, front: TheFront().Addr, rules: sc.Init, keys: map[int]string{}, in: map[int]int{}, ver: map[int]string{}}
	m.prefix = "/" + strings.Trim(sc.Prefix, "/")
	if sc.Prefix == "" {
		m.prefix = "/api"
	}
	if m.prefix == "/" {
		m.prefix = ""
	}
	for i := 0; i < sc.Bulk; i++ { // stored earlier
		j := len(paths) + i
		m.keys[j] = fmt.Sprintf("kache-http://%s/bulk/%d/%s", up.Addr, i, strings.Repeat("k", i%97))
		m.in[j] = 1
		p.Set(m.keys[j], []byte("bulk"), time.Hour)
	}
	if sc.Bulk > 0 {
		l.Add("bulk")
	}
	for n, s := range sc.Steps {
		w := fmt.Sprintf("step %d %s", n, s.Op)
		if v := m.step(w, s); v != "" {
			return v
		}
	}
	return ""
}

// refused judges a management request that must not be carried out.
func (m *mgmtSim) refused(w string, s MStep, method, target string, rr *httptest.ResponseRecorder) string {
	if rr.Code >= 200 && rr.Code < 300 {
		return fmt.Sprintf("%s: %s %s answered with %d", w, method, target, rr.Code)
	}
	m.l.Add("refused")
	return m.unchanged(w + " (refused " + method + " " + target + ")")
}

// unchanged checks configuration and listing against the model.
func (m *mgmtSim) unchanged(w string) string {
	if v := m.readConfig(w); v != "" {
		return v
	}
	return m.list(w)
}

func (m *mgmtSim) readConfig(w string) string {
	rr := m.call("GET", m.prefix+"/cache/config", "", false, "")
	if rr.Code != 200 {
		return fmt.Sprintf("%s: reading the configuration: %d", w, rr.Code)
	}
	got, err := readBack(rr.Body.Bytes())
	if err != nil {
		return w + ": configuration is no JSON document: " + err.Error()
	}
	if want := m.rules.norm(); !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		x, _ := json.Marshal(want)
		return fmt.Sprintf("%s: configuration reads\n%s, expected\n%s", w, g, x)
	}
	return ""
}

func (m *mgmtSim) list(w string) string {
	rr := m.call("GET", m.prefix+"/cache/keys", "", false, "")
	if rr.Code != 200 {
		return fmt.Sprintf("%s: listing keys: %d", w, rr.Code)
	}
	var got []string
	if err := json.Unmarshal(rr.Body.Bytes(), &got); err != nil {
		return w + ": key listing is no JSON list: " + err.Error() + ": " + rr.Body.String()
	}
	must := map[string]bool{}
	may := map[string]bool{}
	for i, x := range m.in {
		if x == 1 {
			must[m.keys[i]] = true
		}
		if x == 2 {
			may[m.keys[i]] = true
		}
	}
	seen := map[string]bool{}
	for _, k := range got {
		if m.ignore != "" && strings.HasPrefix(k, m.ignore) {
			continue
		}
		if seen[k] {
			return fmt.Sprintf("%s: key %q listed twice", w, k)
		}
		seen[k] = true
		if !must[k] && !may[k] {
			return fmt.Sprintf("%s: key listing names %q, which is not stored (stored: %v)", w, k, core.SortedKeys(must))
		}
	}
	for k := range must {
		if !seen[k] {
			sort.Strings(got)
			return fmt.Sprintf("%s: key listing %v lacks %q", w, got, k)
		}
	}
	return ""
}

func (m *mgmtSim) fresh() int { m.n++; return m.n }

// apply puts rules in force.
func (m *mgmtSim) apply(r Rules) {
	changed := m.rules.strict() != r.strict()
	m.rules = r
	if changed || deref(m.rules.CC) != "" {
		// what was stored under other rules may or may not be fresh under the new ones
		for j := range m.in {
			if m.in[j] == 1 && j < len(paths) && (paths[j] == "/ns" || paths[j] == "/nocc") {
				m.in[j] = 2
			}
		}
	}
}

func (m *mgmtSim) step(w string, s MStep) string {
	i := s.URL % len(paths)
	method, target := "", ""
	switch s.Op {
	case "get":
		return m.get(w, i)
	case "probe":
		for i := range paths {
			if v := m.get(w, i); v != "" {
				return v
			}
		}
		return ""
	case "keys":
		method, target = "GET", m.prefix+"/cache/keys"
	case "config":
		method, target = "GET", m.prefix+"/cache/config"
	case "purge":
		method, target = "PURGE", "/"
	case "invalidate":
		method, target = "DELETE", m.prefix+"/cache/invalidate"
	case "flush":
		method, target = "DELETE", m.prefix+"/cache/flush"
	case "update", "bad":
		method, target = "PUT", m.prefix+"/cache/config/update"
	}
	right := true
	if s.Method != "" && s.Method != method {
		method, right = s.Method, false
	}
	rest := strings.TrimPrefix(target, m.prefix)
	switch s.Where {
	case "noprefix":
		if m.prefix != "" && s.Op != "purge" {
			target, right = rest, false
		}
	case "default":
		if m.prefix != "/api" && s.Op != "purge" {
			target, right = "/api"+rest, false
		}
	case "slash":
		if s.Op != "keys" && s.Op != "purge" {
			target, right = target+"/", false
		}
	case "sub":
		if s.Op != "keys" {
			target, right = strings.TrimSuffix(target, "/")+"/all", false
		}
	case "double":
		target, right = "/"+target, false
	}
	body := ""
	switch s.Op {
	case "update":
		body = s.Rules.Text(s.Syntax)
	case "bad":
		body = s.Raw
	}
	pat := m.pattern(s)
	if s.Op != "purge" && s.Op != "invalidate" {
		pat = ""
	}
	if m.fp != nil {
		m.fp.fail = s.Fail
	}
	rr := m.call(method, target, pat, pat != "", body)
	if m.fp != nil {
		m.fp.fail = false
	}
	if !right {
		return m.refused(w, s, method, target, rr)
	}
	switch s.Op {
	case "keys":
		return m.list(w)
	case "config":
		return m.readConfig(w)
	case "purge", "invalidate", "flush":
		if s.Fail {
			if rr.Code < 400 {
				return fmt.Sprintf("%s: answered with %d although the store failed", w, rr.Code)
			}
			m.l.Add("store-failed")
			return m.list(w)
		}
		if rr.Code != 200 {
			return fmt.Sprintf("%s %q: answered with %d", w, pat, rr.Code)
		}
		gone, kept := 0, 0
		for j := range m.in {
			if m.in[j] == 0 {
				continue
			}
			if s.Op == "flush" || globMatch(pat, m.keys[j]) {
				m.in[j] = 0
				gone++
			} else {
				kept++
			}
		}
		if gone > 0 && kept > 0 {
			m.l.Add("removed-some")
		}
		if gone > 0 {
			m.l.Add(s.Op + "-removed")
		}
		return m.list(fmt.Sprintf("%s %q", w, pat))
	case "update":
		if rr.Code != 200 {
			return fmt.Sprintf("%s: update answered with %d %s for\n%s", w, rr.Code, rr.Body.String(), body)
		}
		m.l.Add("update-applied")
		m.apply(*s.Rules)
		return m.readConfig(w)
	case "bad":
		if rr.Code != 400 {
			return fmt.Sprintf("%s: answered with %d for the document %q", w, rr.Code, body)
		}
		m.l.Add("update-rejected")
		return m.unchanged(w)
	}
	return ""
}

var _ = bytes.NewReader

func genRules(rt *rapid.T, full bool) Rules {
	r := Rules{}
	p := func(n string) bool { return rapid.IntRange(0, 2).Draw(rt, n) == 0 }
	b := func(n string) *bool { x := rapid.Bool().Draw(rt, n); return &x }
	s := func(n string, v ...string) *string { x := rapid.SampledFrom(v).Draw(rt, n); return &x }
	if p("hs") {
		r.Strict = b("strict")
	}
	if p("hx") {
		r.X = b("x")
	}
	if p("hxn") {
		r.XName = s("xname", "X-Mark", "x-other", "X-Kache", "")
	}
	if p("ht") {
		r.TTL = s("ttl", "1h", "3600s", "90m", "")
	}
	if p("hc") {
		r.CC = s("cc", "max-age=600", "", "public, max-age=1000")
	}
	if p("hf") && deref(r.CC) != "" {
		r.Force = b("force")
	}
	if p("hto") {
		r.Timeouts = []TO{}
		for i := 0; i < rapid.IntRange(1, 2).Draw(rt, "nto"); i++ {
			r.Timeouts = append(r.Timeouts, TO{rapid.SampledFrom([]string{"^/a", "/x", "^/none/[0-9]+$"}).Draw(rt, "top"), rapid.IntRange(100, 4000).Draw(rt, "tos")})
		}
	}
	if rapid.IntRange(0, 49).Draw(rt, "large") == 0 {
		for i, many := 0, rapid.SampledFrom([]int{30, 300, 1500}).Draw(rt, "many"); i < many; i++ {
			r.Timeouts = append(r.Timeouts, TO{fmt.Sprintf("^/none/%d$", i), 100 + i})
		}
	}
	if p("hep") {
		r.ExPath = []string{rapid.SampledFrom([]string{"^/ex", "^/a", "^/nothing"}).Draw(rt, "exp")}
	}
	if p("heh") {
		r.ExHdr = [2]string{"x_requested_with", "XMLHttpRequest"}
	}
	if p("het") {
		r.ExType = "text/plain"
		r.ExSize = rapid.SampledFrom([]int{0, 1}).Draw(rt, "exs")
	}
	return r
}

// GenMgmt draws a history.
func GenMgmt(rt *rapid.T) Mgmt {
	sc := Mgmt{Prefix: rapid.SampledFrom([]string{"", "", "/api", "api", "/api/", "kache", "/v1/k/", "/", "/a/b/c", "/API"}).Draw(rt, "prefix"), Init: genRules(rt, true)}
	if rapid.IntRange(0, 19).Draw(rt, "large") == 0 {
		sc.Bulk = rapid.IntRange(50, 2000).Draw(rt, "bulk")
	}
	n := rapid.IntRange(3, 14).Draw(rt, "n")
	if rapid.IntRange(0, 3).Draw(rt, "fill") > 0 {
		sc.Steps = append(sc.Steps, MStep{Op: "probe"})
	}
	for len(sc.Steps) < n {
		s := MStep{Op: rapid.SampledFrom([]string{"get", "get", "get", "probe", "purge", "purge", "purge", "invalidate", "invalidate", "flush", "keys", "config", "update", "update", "bad"}).Draw(rt, "op")}
		s.URL = rapid.IntRange(0, len(paths)-1).Draw(rt, "u")
		switch s.Op {
		case "purge", "invalidate":
			s.Pat = rapid.SampledFrom([]string{"exact", "exact", "prefix", "prefix", "suffix", "inner", "ends", "meta", "part", "case", "none", "all", ""}).Draw(rt, "pat")
			s.N, s.M = rapid.IntRange(0, 8).Draw(rt, "pn"), rapid.IntRange(0, 8).Draw(rt, "pm")
		case "update":
			r := genRules(rt, false)
			s.Rules = &r
			s.Syntax = rapid.SampledFrom([]string{"yaml", "yaml", "json"}).Draw(rt, "syntax")
			if len(r.doc(true)) == 0 {
				v := true
				s.Rules.X = &v
			}
		case "bad":
			s.Raw = rapid.SampledFrom([]string{"", "strict: [", "strict: maybe", "x_header: [true]", "timeouts: 5", "timeouts:\n- path: /a\n  ttl: soon\n", "- strict: true\n",
				"exclude: yes please", "\tstrict: true", "strict: true\n  x_header: true", "{\"strict\": tru", "just text", "default_ttl: {a: 1}", "exclude:\n  content:\n  - type: a\n    size: big\n", "strict: true\nstrict: false\n"}).Draw(rt, "raw")
		}
		if s.Op != "get" && s.Op != "probe" && rapid.IntRange(0, 5).Draw(rt, "dev") == 0 {
			if rapid.Bool().Draw(rt, "devm") {
				s.Method = rapid.SampledFrom([]string{"GET", "HEAD", "POST", "PUT", "DELETE", "PURGE", "PATCH", "OPTIONS", "BAN", "purge", "delete"}).Draw(rt, "method")
			} else {
				s.Where = rapid.SampledFrom([]string{"noprefix", "default", "slash", "sub", "double"}).Draw(rt, "where")
			}
		}
		if s.Op == "purge" || s.Op == "invalidate" || s.Op == "flush" {
			s.Fail = rapid.IntRange(0, 15).Draw(rt, "fail") == 0
		}
		sc.Steps = append(sc.Steps, s)
	}
	sc.Steps = append(sc.Steps, MStep{Op: "probe"})
	return sc
}
