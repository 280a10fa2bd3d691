package httpsim

import (
	"math"
	"net/http"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- independent reading of header fields -------------------------------------------------

type directives struct {
	has  map[string]bool
	args map[string]string
}

// parseCC reads a Cache-Control field list (all lines) per RFC 9111: case-insensitive names, quoted
// strings are opaque, empty elements are ignored.
func parseCC(lines []string) directives {
	d := directives{map[string]bool{}, map[string]string{}}
	var elems []string
	for _, l := range lines {
		var cur strings.Builder
		q := false
		for i := 0; i < len(l); i++ {
			c := l[i]
			switch {
			case q && c == '\\' && i+1 < len(l):
				cur.WriteByte(c)
				i++
				cur.WriteByte(l[i])
			case c == '"':
				q = !q
				cur.WriteByte(c)
			case c == ',' && !q:
				elems = append(elems, cur.String())
				cur.Reset()
			default:
				cur.WriteByte(c)
			}
		}
		elems = append(elems, cur.String())
	}
	for _, e := range elems {
		e = strings.Trim(e, " \t")
		if e == "" {
			continue
		}
		n, a, ok := strings.Cut(e, "=")
		n = strings.ToLower(n)
		d.has[n] = true
		if ok {
			if len(a) >= 2 && a[0] == '"' && a[len(a)-1] == '"' {
				a = a[1 : len(a)-1]
			}
			d.args[n] = a
		}
	}
	return d
}

// seconds returns the delta-seconds argument of a directive, or -1 if absent or invalid.
func (d directives) seconds(n string) int64 {
	a, ok := d.args[n]
	if !ok || !d.has[n] || a == "" {
		return -1
	}
	for _, c := range a {
		if c < '0' || c > '9' {
			return -1
		}
	}
	v, err := strconv.ParseInt(a, 10, 64)
	if err != nil || v > huge {
		return huge
	}
	return v
}

// huge is a number of seconds that cannot be told from any larger one (RFC 9111, 1.2.2).
const huge = 1 << 31

// vast reports whether two times are too large to be compared.
func vast(a, b time.Duration) bool { return a >= huge*time.Second && b >= huge*time.Second }

func parseDate(s string) (time.Time, bool) {
	if s == "" {
		return time.Time{}, false
	}
	t, err := http.ParseTime(s)
	if err != nil {
		return time.Time{}, false
	}
	return t, true
}

// plainSeconds returns the number of seconds of an Age field, as an interval if it is huge.
func plainSeconds(s string) (lo, hi int64) {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return 0, 0
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		v = math.MaxInt64
	}
	return min(v, huge), min(v, 2*huge)
}

// ---- model state ---------------------------------------------------------------------------

type entry struct {
	status   int
	hdr      http.Header
	body     []byte
	storedAt time.Time
	expires  time.Time
	lastAge  int64
	origin   int // step that produced the body
}

type model struct {
	cfg   Cfg
	store map[string]*entry
	hits  int
	miss  int
	// the sets of compiled patterns of the current configuration (nil for invalid ones)
	exPath    []*regexp.Regexp
	exContent []*regexp.Regexp
	to        []*regexp.Regexp
}

func newModel(c Cfg) *model {
	m := &model{store: map[string]*entry{}}
	m.setCfg(c)
	return m
}

func compile(ps []string) []*regexp.Regexp {
	out := make([]*regexp.Regexp, len(ps))
	for i, p := range ps {
		if r, err := regexp.Compile(p); err == nil {
			out[i] = r
		}
	}
	return out
}

func (m *model) setCfg(c Cfg) {
	m.cfg = c
	m.exPath = compile(c.ExPath)
	var ts, ps []string
	for _, x := range c.ExContent {
		ts = append(ts, x.Type)
	}
	for _, x := range c.Timeouts {
		ps = append(ps, x.Path)
	}
	m.exContent = compile(ts)
	m.to = compile(ps)
}

func (m *model) ttl(p string) time.Duration {
	for i, r := range m.to {
		if r != nil && r.MatchString(p) {
			return time.Duration(m.cfg.Timeouts[i].MS) * time.Millisecond
		}
	}
	if m.cfg.TTL != "" {
		if d, err := time.ParseDuration(m.cfg.TTL); err == nil {
			return d
		}
	}
	return 120 * time.Second
}

func (m *model) xname() string {
	if m.cfg.XName == "" {
		return "X-Kache"
	}
	return http.CanonicalHeaderKey(m.cfg.XName)
}

// resource is the identity of a resource: scheme, host, normalised path, normalised query.
func resource(scheme, host, target string) string {
	p, q, hasq := strings.Cut(target, "?")
	_ = hasq
	return scheme + "://" + strings.ToLower(host) + normPath(p) + "?" + normQuery(q)
}

// normPath removes dot segments and duplicate slashes on the decoded segments; an encoded slash
// stays distinct from a separator.
func normPath(p string) string {
	segs := strings.Split(p, "/")
	var dec []string
	for _, s := range segs {
		u, err := url.PathUnescape(s)
		if err != nil {
			u = s
		}
		dec = append(dec, strings.ReplaceAll(u, "/", "\x00"))
	}
	return path.Clean("/" + strings.Join(dec, "/"))
}

// normQuery sorts parameters by name, keeping the order of equal names, after decoding.
func normQuery(q string) string {
	vals, err := url.ParseQuery(q)
	if err != nil {
		return "raw:" + q
	}
	keys := make([]string, 0, len(vals))
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		for _, v := range vals[k] {
			b.WriteString(url.QueryEscape(k) + "=" + url.QueryEscape(v) + "&")
		}
	}
	return b.String()
}

// tri is a three-valued verdict.
type tri int

const (
	no tri = iota
	yes
	either
)

func (t tri) String() string { return [...]string{"no", "yes", "either"}[t] }

// bypass reports whether a request must not involve the cache.
func (m *model) bypass(r *Req, decodedPath string, h http.Header) (bool, string) {
	for _, x := range m.exPath {
		if x != nil && x.MatchString(decodedPath) {
			return true, "excluded-path"
		}
	}
	for k, v := range m.cfg.ExHeader {
		vals := h.Values(strings.ReplaceAll(k, "_", "-"))
		if len(vals) > 0 && vals[0] == v {
			return true, "excluded-header"
		}
	}
	for _, n := range []string{"If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range"} {
		if _, ok := h[n]; ok {
			return true, "conditional"
		}
	}
	if _, ok := h["Range"]; ok {
		return true, "range"
	}
	if _, ok := h["Authorization"]; ok {
		return true, "authorization"
	}
	if r.Method != "GET" && r.Method != "HEAD" {
		return true, "method"
	}
	return false, ""
}

type ageRange struct{ lo, hi time.Duration }

// age computes the current age of an entry. The moment of storage is known to the implementation
// only up to a second, so an interval is allowed where that matters.
func (e *entry) age(now time.Time) ageRange {
	rt := e.storedAt
	rtf := rt.Truncate(time.Second)
	aLo, aHi := plainSeconds(e.hdr.Get("Age"))
	f := func(rt time.Time, a int64) time.Duration {
		var apparent time.Duration
		if d, ok := parseDate(e.hdr.Get("Date")); ok && rt.After(d) {
			apparent = rt.Sub(d)
		}
		if v := max(apparent, time.Duration(a)*time.Second) + now.Sub(rt); v >= 0 || now.Before(rt) {
			return v
		}
		return math.MaxInt64
	}
	return ageRange{min(f(rt, aLo), f(rtf, aLo)), max(f(rt, aHi), f(rtf, aHi))}
}

// lifetime returns the freshness lifetime.
func (e *entry) lifetime() time.Duration {
	cc := parseCC(e.hdr.Values("Cache-Control"))
	if s := cc.seconds("s-maxage"); s >= 0 {
		return time.Duration(s) * time.Second
	}
	if s := cc.seconds("max-age"); s >= 0 {
		return time.Duration(s) * time.Second
	}
	ex, ok1 := parseDate(e.hdr.Get("Expires"))
	d, ok2 := parseDate(e.hdr.Get("Date"))
	if ok1 && ok2 {
		return ex.Sub(d)
	}
	return 0
}

func and(a, b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == yes && b == yes {
		return yes
	}
	return either
}

func or(a, b tri) tri {
	if a == yes || b == yes {
		return yes
	}
	if a == no && b == no {
		return no
	}
	return either
}

func not(a tri) tri {
	switch a {
	case yes:
		return no
	case no:
		return yes
	}
	return either
}

// reusable decides whether the entry may answer the request without contacting the origin.
func (m *model) reusable(e *entry, reqH http.Header, now time.Time) (tri, string) {
	if !m.cfg.Strict {
		return yes, "nonstrict"
	}
	rcc := parseCC(reqH.Values("Cache-Control"))
	scc := parseCC(e.hdr.Values("Cache-Control"))
	if scc.has["no-cache"] {
		return no, "resp-no-cache"
	}
	if rcc.has["no-cache"] {
		return no, "req-no-cache"
	}
	if len(reqH.Values("Cache-Control")) == 0 && parseCC(reqH.Values("Pragma")).has["no-cache"] {
		return no, "pragma"
	}
	age := e.age(now)
	life := e.lifetime()
	why := "fresh"

	ok := yes
	if ma := rcc.seconds("max-age"); ma >= 0 {
		lim := time.Duration(ma) * time.Second
		// ages are whole seconds; an age inside (lim, lim+1s) is rounded down
		switch {
		case vast(age.hi, lim):
			ok = either
		case age.hi <= lim:
		case age.lo >= lim+time.Second:
			return no, "req-max-age"
		default:
			ok = either
		}
		why = "fresh-max-age"
	}

	var fresh tri
	switch {
	case vast(age.hi, life):
		fresh = either
	case age.hi < life:
		fresh = yes
	case age.lo >= life:
		fresh = no
	default:
		fresh = either
	}

	minFresh := yes
	if mf := rcc.seconds("min-fresh"); mf >= 0 {
		need := time.Duration(mf) * time.Second
		switch {
		case vast(life, need):
			minFresh = either
		case life-age.hi >= need:
		case life-age.lo <= need-time.Second:
			minFresh = no
		default:
			minFresh = either
		}
		if minFresh == no {
			why = "min-fresh"
		} else {
			why = "fresh-min-fresh"
		}
	}

	stale := no
	if rcc.has["max-stale"] && !scc.has["must-revalidate"] && !scc.has["proxy-revalidate"] {
		arg, hasArg := rcc.args["max-stale"]
		if !hasArg || arg == "" {
			stale = yes
		} else if ms := rcc.seconds("max-stale"); ms >= 0 {
			lim := time.Duration(ms) * time.Second
			sLo, sHi := age.lo-life, age.hi-life
			switch {
			case vast(sHi, lim):
				stale = either
			case sHi < lim:
				stale = yes
			case sLo > lim:
				stale = no
			default:
				stale = either
			}
		}
	}
	if fresh == no {
		why = "stale"
		if rcc.has["max-stale"] {
			why = "max-stale-" + stale.String()
			if scc.has["must-revalidate"] || scc.has["proxy-revalidate"] {
				why = "max-stale-forbidden"
			}
		}
	}
	served := or(and(fresh, minFresh), and(not(fresh), stale))
	if fresh == either && minFresh == yes && stale == yes {
		served = yes
	}
	return and(ok, served), why
}

var cacheableStatus = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 308: true,
	404: true, 405: true, 410: true, 414: true, 451: true, 501: true}

// storable decides whether a (complete) response to a looked-up request is stored.
func (m *model) storable(method string, reqH http.Header, status int, h http.Header, contentLength int64) (bool, string) {
	if method != "GET" {
		return false, "head"
	}
	if ct := h.Get("Content-Type"); ct != "" {
		for i, x := range m.cfg.ExContent {
			if r := m.exContent[i]; r != nil && r.MatchString(ct) {
				if x.Size <= 0 || contentLength > int64(x.Size) {
					return false, "excluded-content"
				}
			}
		}
	}
	if !m.cfg.Strict {
		return true, "nonstrict"
	}
	if parseCC(reqH.Values("Cache-Control")).has["no-store"] {
		return false, "req-no-store"
	}
	cc := parseCC(h.Values("Cache-Control"))
	if cc.has["no-store"] {
		return false, "no-store"
	}
	if cc.has["private"] {
		return false, "private"
	}
	if !cacheableStatus[status] {
		return false, "status"
	}
	if cc.has["no-cache"] || cc.seconds("max-age") >= 0 || cc.seconds("s-maxage") >= 0 ||
		(h.Get("Date") != "" && h.Get("Expires") != "") {
		return true, "stored"
	}
	return false, "no-lifetime"
}
