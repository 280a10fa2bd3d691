package httpsim

import (
	"encoding/base64"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Profile steers the history generator. Numbers are percentages unless noted.
type Profile struct {
	MinSteps, MaxSteps int
	Strict             int // share of strict configurations
	XHeader            int
	Resources          int // number of distinct resources
	Head               int
	ReqCC              int // requests with Cache-Control
	Pragma             int
	Bypass             int // requests that must bypass
	RespCC             int // responses with Cache-Control
	Uncacheable        int // responses with no-store/private/odd status
	Validators         int
	NM                 int // conditional requests answered 304
	Errors             int
	Cuts               int
	Messy              int // messy header spelling / bodies
	DateOdd            int // missing/garbage/skewed dates
	AgeHdr             int
	Rules              int // config rules (exclusions, ttl, default cc)
	CfgUpdate          int
	Unsolicited        int
	BigSleep           int
	Faults             int // store faults
}

func pct(rt *rapid.T, p int, name string) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	return rapid.IntRange(0, 99).Draw(rt, name) >= 100-p
}

func pick[T any](rt *rapid.T, name string, v ...T) T { return rapid.SampledFrom(v).Draw(rt, name) }

// lifetimes used for max-age etc.; small so that sleeps can straddle them
func delta(rt *rapid.T, n string) int64 {
	return pick[int64](rt, n, 0, 1, 2, 3, 5, 10, 30, 59, 60, 100, 119, 120, 121, 3600, 86400, 31536000, 2147483647, 2147483648, 4294967300, 9223372037, 99999999999)
}

func smallDelta(rt *rapid.T, n string) int64 {
	return pick[int64](rt, n, 0, 1, 2, 3, 5, 10, 30, 60, 100)
}

func spell(rt *rapid.T, name, arg string, messy int) string {
	n := name
	if pct(rt, messy, "case") {
		n = pick(rt, "casing", strings.ToUpper(name), strings.ToUpper(name[:1])+name[1:], mixCase(name))
	}
	if arg == "" {
		return n
	}
	if pct(rt, messy, "quote") {
		arg = `"` + arg + `"`
	}
	return n + "=" + arg
}

func mixCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 1 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// joinCC turns directives into header lines, possibly split and padded.
func joinCC(rt *rapid.T, key string, ds []string, messy int) []H {
	if len(ds) == 0 {
		return nil
	}
	if len(ds) > 1 && pct(rt, 50, "shuffle") {
		ds = rapid.Permutation(ds).Draw(rt, "perm")
	}
	var out []H
	var cur []string
	flush := func() {
		if len(cur) > 0 {
			sep := ", "
			if pct(rt, messy, "sep") {
				sep = pick(rt, "sepv", ",", " ,", ",  ", ",\t", ", ,", ",,")
			}
			v := strings.Join(cur, sep)
			if pct(rt, messy/3, "pad") {
				v = pick(rt, "padv", ","+v, v+",", v+", ,")
			}
			out = append(out, H{K: key, V: v})
			cur = nil
		}
	}
	for _, d := range ds {
		cur = append(cur, d)
		if pct(rt, messy/2, "split") {
			flush()
		}
	}
	flush()
	return out
}

func unknownDirective(rt *rapid.T) string {
	return pick(rt, "ext", "immutable", "stale-while-revalidate=60", "stale-if-error=10", "no-transform", "public",
		`ext="x, y"`, `community="UCI"`, "max-age-x=7", "nostore", "no-storex", "xprivate", "no-cache-x", "proxy=1", `ext="a, no-store, b"`, `e="private,max-age=0,c"`)
}

func badDelta(rt *rapid.T) string {
	return pick(rt, "bad", "abc", "-1", "-60", "x1", "1x", "1h1", "1m", "2.5", "+30", "1e2", "0x1f", "1_0", "60s", "30 30", "")
}

// reqCC generates a request Cache-Control.
func reqCC(rt *rapid.T, messy int) []H {
	var ds []string
	if pct(rt, 25, "rq-nc") {
		ds = append(ds, spell(rt, "no-cache", "", messy))
	}
	if pct(rt, 15, "rq-ns") {
		ds = append(ds, spell(rt, "no-store", "", messy))
	}
	if pct(rt, 35, "rq-ma") {
		ds = append(ds, spell(rt, "max-age", fmt.Sprint(delta(rt, "rq-mav")), messy))
	}
	if pct(rt, 35, "rq-mf") {
		ds = append(ds, spell(rt, "min-fresh", fmt.Sprint(delta(rt, "rq-mfv")), messy))
	}
	if pct(rt, 40, "rq-ms") {
		if pct(rt, 30, "rq-msany") {
			ds = append(ds, spell(rt, "max-stale", "", messy))
		} else {
			ds = append(ds, spell(rt, "max-stale", fmt.Sprint(delta(rt, "rq-msv")), messy))
		}
	}
	if pct(rt, messy/2+5, "rq-ext") {
		ds = append(ds, unknownDirective(rt))
	}
	if pct(rt, messy/3, "rq-bad") {
		n := pick(rt, "rq-badn", "max-age", "min-fresh")
		dup := false
		for _, d := range ds {
			if strings.HasPrefix(strings.ToLower(d), n) {
				dup = true
			}
		}
		if b := badDelta(rt); !dup && b != "" {
			ds = append(ds, n+"="+b)
		}
	}
	return joinCC(rt, "Cache-Control", ds, messy)
}

// respCC generates response Cache-Control and returns the lifetime it implies (-1: none).
func respCC(rt *rapid.T, messy, uncacheable int) ([]H, int64) {
	var ds []string
	life := int64(-1)
	if pct(rt, 75, "rs-ma") {
		v := delta(rt, "rs-mav")
		life = v
		ds = append(ds, spell(rt, "max-age", fmt.Sprint(v), messy))
	} else if pct(rt, messy/2, "rs-badma") {
		if b := badDelta(rt); b != "" {
			ds = append(ds, "max-age="+b)
		}
	}
	if pct(rt, 20, "rs-sm") {
		v := delta(rt, "rs-smv")
		life = v
		ds = append(ds, spell(rt, "s-maxage", fmt.Sprint(v), messy))
	} else if pct(rt, messy/4, "rs-badsm") {
		if b := badDelta(rt); b != "" {
			ds = append(ds, "s-maxage="+b)
		}
	}
	if pct(rt, 12, "rs-nc") {
		ds = append(ds, pick(rt, "rs-ncv", spell(rt, "no-cache", "", messy), `no-cache="Set-Cookie"`, `no-cache="x-a, x-b"`))
	}
	if pct(rt, 20, "rs-mr") {
		ds = append(ds, spell(rt, pick(rt, "rs-mrv", "must-revalidate", "proxy-revalidate"), "", messy))
	}
	if pct(rt, uncacheable/2, "rs-ns") {
		ds = append(ds, pick(rt, "rs-nsv", spell(rt, "no-store", "", messy), spell(rt, "private", "", messy), `private="set-cookie, x"`))
	}
	if pct(rt, 15+messy/2, "rs-ext") {
		ds = append(ds, unknownDirective(rt))
	}
	return joinCC(rt, "Cache-Control", ds, messy), life
}

var paths = []string{"/", "/a", "/b/c", "/img/x.png", "/a/b?x=1", "/a/b?x=2", "/q?b=2&a=1", "/a/", "/img/", "/b//c", "/img/./x.png", "/%61"}

// manyRules is how many rules that match nothing precede the others.
func manyRules(rt *rapid.T) int {
	if !pct(rt, 3, "many") {
		return 0
	}
	return rapid.IntRange(5, 40).Draw(rt, "manyrules")
}

func genCfg(rt *rapid.T, p *Profile) Cfg {
	c := Cfg{Strict: pct(rt, p.Strict, "strict"), XHeader: pct(rt, p.XHeader, "xh")}
	if c.XHeader && pct(rt, 30, "xn") {
		c.XName = pick(rt, "xnv", "X-Cache", "x-cache-status", "X-Kache")
	}
	c.TTL = pick(rt, "ttl", "", "1h", "24h", "87600h", "10s", "120s", "bogus", "1m30s", "500ms", "1500ms", "2.5s", "999ms")
	if !pct(rt, p.Rules, "short-ttl") {
		c.TTL = "876000h"
	}
	if pct(rt, p.Rules, "to") {
		n := rapid.IntRange(1, 3).Draw(rt, "nto")
		for i, m := 0, manyRules(rt); i < m; i++ {
			c.Timeouts = append(c.Timeouts, Timeout{Path: fmt.Sprintf("^/never%d$", i), MS: 1})
		}
		for i := 0; i < n; i++ {
			c.Timeouts = append(c.Timeouts, Timeout{
				Path: pick(rt, "top", "^/a", "/b/", "png$", "^/$", "(", ".*", "^/zzz", "^/a$", "/x", "/$", "^/a/$", "^/b/c$", "//", "[^/]$"),
				MS:   pick[int64](rt, "toms", 1000, 2500, 5000, 10000, 60000, 3600000, 100, 999, 1)})
		}
	}
	if pct(rt, p.Rules, "cc") {
		c.CC = pick(rt, "ccv", "max-age=10", "no-store", "max-age=60", "private", "no-cache", "public, max-age=3600", "s-maxage=5,max-age=100")
		c.Force = pct(rt, 40, "force")
	} else {
		c.Force = pct(rt, p.Rules/4, "force0")
	}
	if pct(rt, p.Rules/2, "exp") {
		n := rapid.IntRange(1, 2).Draw(rt, "nexp")
		for i, m := 0, manyRules(rt); i < m; i++ {
			c.ExPath = append(c.ExPath, fmt.Sprintf("^/never%d$", i))
		}
		for i := 0; i < n; i++ {
			c.ExPath = append(c.ExPath, pick(rt, "expv", "^/b", "png$", "^/a$", "[", "^/q", "/zzz", "^/a/$", "g/$", "//"))
		}
	}
	if pct(rt, p.Rules/2, "exh") {
		c.ExHeader = map[string]string{pick(rt, "exhk", "X-No-Cache", "x_no_cache", "X-Requested-With", "x_requested_with", "X-Two"): pick(rt, "exhv", "1", "true", "XMLHttpRequest")}
		if pct(rt, 30, "exh2") {
			c.ExHeader["X-Second"] = "yes"
		}
	}
	if pct(rt, p.Rules, "exc") {
		n := rapid.IntRange(1, 3).Draw(rt, "nexc")
		for i, m := 0, manyRules(rt); i < m; i++ {
			c.ExContent = append(c.ExContent, Content{Type: fmt.Sprintf("^never/%d$", i)})
		}
		for i := 0; i < n; i++ {
			c.ExContent = append(c.ExContent, Content{Type: pick(rt, "exct", "text/.*", "application/javascript", "^image/", "json", "*bad", ".*"),
				Size: pick(rt, "excs", 0, 5, 16, 100)})
		}
	}
	if c.ExPath == nil && c.ExHeader == nil && c.ExContent == nil {
		c.NoExclude = pct(rt, 50, "noex")
	}
	return c
}

type resState struct {
	storedAt int64 // ms on the generator's clock
	life     int64 // seconds
	have     bool
	etag     string
	lastMod  bool
}

// GenScenario draws a history.
func GenScenario(rt *rapid.T, p Profile) Scenario {
	sc := Scenario{Cfg: genCfg(rt, &p), Epi: true}
	nres := max(1, p.Resources)
	var pool []string
	pool = rapid.Permutation(paths).Draw(rt, "paths")[:nres]
	hosts := []string{"h1.test"}
	if pct(rt, 20, "hosts") {
		hosts = append(hosts, "h2.test:8080")
	}
	schemes := []string{"http"}
	if pct(rt, 10, "https") {
		schemes = append(schemes, "https")
	}
	n := rapid.IntRange(p.MinSteps, p.MaxSteps).Draw(rt, "steps")
	st := map[string]*resState{}
	clock := int64(0)
	for i := 0; i < n; i++ {
		var s Step
		host := pick(rt, "host", hosts...)
		scheme := pick(rt, "scheme", schemes...)
		target := pick(rt, "target", pool...)
		k := scheme + host + target
		rs := st[k]
		if rs == nil {
			rs = &resState{}
			st[k] = rs
		}
		// sleep: often aimed at the edge of the stored lifetime
		switch {
		case rs.have && rs.life >= 0 && pct(rt, 45, "edge"):
			off := pick[int64](rt, "edgeoff", -1000, -500, -1, 0, 1, 500, 1000, 1500, 2000, 5000, -3000, 10000)
			d := rs.storedAt + rs.life*1000 + off - clock
			if d > 0 && d < 1<<41 {
				s.Sleep = d
			}
		case pct(rt, 35, "sleep"):
			s.Sleep = pick[int64](rt, "sleepv", 1, 250, 999, 1000, 1001, 1500, 2000, 3000, 5000, 10000, 30000, 60000)
		case pct(rt, p.BigSleep, "bigsleep"):
			s.Sleep = pick[int64](rt, "bigsleepv", 120000, 3600000, 86400000, 31536000000, 315360000000)
		}
		clock += s.Sleep
		if pct(rt, p.CfgUpdate, "cfgupd") {
			c := genCfg(rt, &p)
			c.Strict = sc.Cfg.Strict
			s.Cfg = &c
		}
		if pct(rt, p.Faults, "fault") {
			s.Fault = genFault(rt)
		}
		s.Req = genReq(rt, &p, sc.Cfg, scheme, host, target)
		s.Resp, s.NM = genResp(rt, &p, i, rs, s.Req)
		if s.Resp.Err == "" && s.Req.Method == "GET" {
			// rough bookkeeping for aiming sleeps only
			rs.have, rs.storedAt = true, clock
			rs.life = -1
			for _, h := range s.Resp.Hdr {
				if strings.EqualFold(h.K, "Cache-Control") {
					d := parseCC([]string{h.V})
					if v := d.seconds("s-maxage"); v >= 0 {
						rs.life = v
					} else if v := d.seconds("max-age"); v >= 0 && rs.life < 0 {
						rs.life = v
					}
				}
				if h.K == "Expires" && h.T != nil && rs.life < 0 && *h.T > 0 {
					rs.life = *h.T
				}
			}
			if rs.life < 0 {
				rs.have = false
			}
		}
		sc.Steps = append(sc.Steps, s)
	}
	sc.EpiAge = pick[int64](rt, "epiage", 0, 0, 500, 1000, 5000)
	return sc
}

func genReq(rt *rapid.T, p *Profile, c Cfg, scheme, host, target string) *Req {
	r := &Req{Method: "GET", Scheme: scheme, Host: host, Target: target}
	if pct(rt, p.Head, "head") {
		r.Method = "HEAD"
	}
	if pct(rt, p.ReqCC, "reqcc") {
		r.Hdr = append(r.Hdr, reqCC(rt, p.Messy)...)
	}
	if pct(rt, p.Pragma, "pragma") {
		r.Hdr = append(r.Hdr, H{K: "Pragma", V: pick(rt, "pragmav", "no-cache", "No-Cache", "x-other", "no-cache, foo", "no-store")})
	}
	for i, k := 0, rapid.IntRange(0, 2).Draw(rt, "nrh"); i < k; i++ {
		r.Hdr = append(r.Hdr, H{K: pick(rt, "rhk", "Accept", "Accept-Encoding", "Cookie", "X-Req", "User-Agent", "Accept-Language", "Referer"), V: pick(rt, "rhv", "a", "b; c=1", "gzip", "*/*")})
	}
	for _, k := range core.SortedKeys(c.ExHeader) {
		v := c.ExHeader[k]
		if pct(rt, 20, "exhit") {
			val := v
			if pct(rt, 30, "exmiss") {
				val = v + "x"
			}
			r.Hdr = append(r.Hdr, H{K: strings.ReplaceAll(k, "_", "-"), V: val})
		}
	}
	if pct(rt, p.Bypass, "bypass") {
		switch pick(rt, "bypasskind", "auth", "cond", "range", "method", "auth", "cond", "range") {
		case "auth":
			r.Hdr = append(r.Hdr, H{K: pick(rt, "authk", "Authorization", "authorization", "AUTHORIZATION"), V: pick(rt, "authv", "Bearer x", "Basic YTpi", "")})
		case "cond":
			k := pick(rt, "condk", "If-None-Match", "If-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "if-none-match")
			switch {
			case pct(rt, 20, "condodd"):
				r.Hdr = append(r.Hdr, H{K: k, V: pick(rt, "condoddv", "", "yesterday", ",", "e1")})
			case strings.HasSuffix(k, "Since"):
				r.Hdr = append(r.Hdr, H{K: k, T: i64(-10)})
			default:
				r.Hdr = append(r.Hdr, H{K: k, V: pick(rt, "condv", `"e1"`, "*", `W/"e2"`, `"e1", "e2"`)})
			}
			if k == "If-Range" && pct(rt, 50, "withrange") {
				r.Hdr = append(r.Hdr, H{K: "Range", V: "bytes=0-1"})
			}
		case "range":
			r.Hdr = append(r.Hdr, H{K: pick(rt, "rangek", "Range", "range"), V: pick(rt, "rangev", "bytes=0-1", "bytes=2-", "bytes=-3", "bytes=0-0,2-3", "", "bytes=x", "items=0-1")})
		case "method":
			r.Method = pick(rt, "method", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get", "PURGE")
			if r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH" {
				r.Body = "payload"
			}
		}
	}
	return r
}

func genDate(rt *rapid.T, p *Profile) []H {
	if pct(rt, p.DateOdd, "dateodd") {
		switch pick(rt, "dateoddk", "none", "garbage", "skew") {
		case "none":
			return nil
		case "garbage":
			return []H{{K: "Date", V: pick(rt, "garb", "yesterday", "0", "-1", "Mon, 32 Foo 2000 00:00:00 GMT", "2000-01-01T00:00:00Z", "Sat, 01 Jan 2000 00:00:00 +0100")}}
		default:
			return []H{{K: "Date", T: i64(pick[int64](rt, "skew", -1, -2, -5, -60, -3600, -86400*400, 1, 5, 60, 86400, 86400*3650)), F: pick(rt, "dfmt", "", "rfc850", "asctime")}}
		}
	}
	return []H{{K: "Date", T: i64(0), F: pick(rt, "dfmt0", "", "", "", "rfc850", "asctime")}}
}

func genExpires(rt *rapid.T) H {
	if pct(rt, 20, "expgarb") {
		return H{K: "Expires", V: pick(rt, "expgarbv", "0", "-1", "never", "Thu, 99 Jan 1970 00:00:00 GMT")}
	}
	return H{K: "Expires", T: i64(pick[int64](rt, "expoff", -5, -1, 0, 1, 2, 5, 10, 60, 3600, 86400)), F: pick(rt, "efmt", "", "rfc850", "asctime")}
}

var okStatus = []int{200, 203, 204, 300, 301, 308, 404, 405, 410, 414, 451, 501}
var badStatus = []int{201, 202, 302, 303, 307, 400, 401, 403, 406, 418, 429, 500, 502, 503, 504, 226, 207, 402, 305}

func genResp(rt *rapid.T, p *Profile, i int, rs *resState, req *Req) (*Resp, *Resp) {
	r := &Resp{Status: 200}
	if pct(rt, p.Errors, "err") {
		r.Err = "reset"
		return r, nil
	}
	if pct(rt, 25, "okstatus") {
		r.Status = rapid.SampledFrom(okStatus).Draw(rt, "okst")
	}
	if pct(rt, p.Uncacheable/2, "badstatus") {
		r.Status = rapid.SampledFrom(badStatus).Draw(rt, "badst")
	}
	if pct(rt, p.Unsolicited, "uns304") {
		r.Status = 304
	}
	r.Body = fmt.Sprintf("body-%d", i)
	r.Framing = pick(rt, "framing", "cl", "cl", "cl", "chunked", "close", "decoded")
	if pct(rt, p.RespCC, "respcc") {
		h, _ := respCC(rt, p.Messy, p.Uncacheable)
		r.Hdr = append(r.Hdr, h...)
	} else if pct(rt, p.Rules/5, "emptycc") {
		r.Hdr = append(r.Hdr, H{K: "Cache-Control", V: ""})
	}
	r.Hdr = append(r.Hdr, genDate(rt, p)...)
	if pct(rt, 30, "expires") {
		r.Hdr = append(r.Hdr, genExpires(rt))
	}
	if pct(rt, p.AgeHdr, "agehdr") {
		r.Hdr = append(r.Hdr, H{K: "Age", V: pick(rt, "agev", "0", "1", "2", "5", "30", "60", "3600", "junk", "-5", "99999999", "2147483648", "4294967300", "99999999999", "99999999999999999999", "1h1", "1m", "2.5", "+30", "5s", `"5"`)})
	}
	if pct(rt, 50, "ct") {
		r.Hdr = append(r.Hdr, H{K: "Content-Type", V: pick(rt, "ctv", "text/plain", "text/html; charset=utf-8", "application/javascript", "image/png", "application/json")})
		if pct(rt, 30, "longer") {
			r.Body = strings.Repeat(r.Body, pick(rt, "rep", 2, 3, 20))
		}
	}
	if pct(rt, p.Validators, "etag") {
		rs.etag = pick(rt, "etagv", `"e1"`, `"e2"`, `W/"w1"`, `"weird , tag"`)
		r.Hdr = append(r.Hdr, H{K: pick(rt, "etagk", "Etag", "ETag", "etag"), V: rs.etag})
	}
	if pct(rt, p.Validators, "lm") {
		r.Hdr = append(r.Hdr, H{K: "Last-Modified", T: i64(pick[int64](rt, "lmoff", -100, -86400, 0, -1)), F: pick(rt, "lmfmt", "", "rfc850")})
	}
	for j, k := 0, rapid.IntRange(0, 3).Draw(rt, "nsh"); j < k; j++ {
		r.Hdr = append(r.Hdr, genMiscHeader(rt))
	}
	if pct(rt, p.XHeader/4, "ownmark") {
		r.Hdr = append(r.Hdr, H{K: pick(rt, "ownmarkk", "X-Kache", "X-Kache", "X-Cache", "x-cache-status"), V: pick(rt, "ownmarkv", "HIT", "MISS", "from upstream", "")})
	}
	if pct(rt, p.Messy/2, "msgbody") {
		genBody(rt, r)
	}
	if pct(rt, p.Cuts, "cut") {
		r.Cut = rapid.IntRange(1, 8).Draw(rt, "cutn")
	}
	if !pct(rt, p.NM, "nm") {
		return r, nil
	}
	nm := &Resp{Status: 304}
	nm.Hdr = append(nm.Hdr, genDate(rt, p)...)
	if pct(rt, 60, "nmcc") {
		h, _ := respCC(rt, p.Messy, p.Uncacheable/2)
		nm.Hdr = append(nm.Hdr, h...)
	}
	switch pick(rt, "nmetag", "same", "same", "none", "none", "other", "weaker") {
	case "same":
		if rs.etag != "" {
			nm.Hdr = append(nm.Hdr, H{K: "Etag", V: rs.etag})
		}
	case "other":
		nm.Hdr = append(nm.Hdr, H{K: "Etag", V: `"changed"`})
	case "weaker":
		nm.Hdr = append(nm.Hdr, H{K: "Etag", V: pick(rt, "weaketag", `W/"w1"`, `"e1"`)})
	}
	if pct(rt, 20, "nmexp") {
		nm.Hdr = append(nm.Hdr, genExpires(rt))
	}
	if pct(rt, p.AgeHdr, "nmage") {
		nm.Hdr = append(nm.Hdr, H{K: "Age", V: pick(rt, "nmagev", "0", "3", "60", "1h1", "2.5")})
	}
	for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "nnm"); j < k; j++ {
		nm.Hdr = append(nm.Hdr, pick(rt, "nmmisc", H{K: "X-New", V: "fresh"}, H{K: "Content-Range", V: "bytes 0-1/2"},
			H{K: "Vary", V: "Accept"}, H{K: "Content-Type", V: "text/updated"}, H{K: "X-A", V: "updated"}, H{K: "Set-Cookie", V: "n=1"}, H{K: "X-A", V: "more"}))
	}
	if pct(rt, 20, "nmcl") {
		nm.Hdr = append(nm.Hdr, H{K: "Content-Length", V: pick(rt, "nmclv", "0", "6", "7", "1000")})
	}
	return r, nm
}

func genMiscHeader(rt *rapid.T) H {
	if pct(rt, 1, "longhdr") {
		return H{K: "X-Long", V: strings.Repeat("v", pick(rt, "longv", 4096, 5000, 70000))}
	}
	if pct(rt, 20, "freehdr") {
		return H{K: "X-" + rapid.StringMatching(`[A-Za-z0-9-]{1,12}`).Draw(rt, "hk") + "z", V: strings.Trim(rapid.StringMatching(`[ -~]{0,40}`).Draw(rt, "hv"), " ")}
	}
	return pick(rt, "misc", H{K: "Set-Cookie", V: "a=1; Path=/"}, H{K: "Set-Cookie", V: "b=2"}, H{K: "Link", V: "</x>; rel=next"}, H{K: "Link", V: "</y>; rel=prev"},
		H{K: "X-A", V: "1"}, H{K: "x-a", V: "2"}, H{K: "X-Empty", V: ""}, H{K: "Vary", V: "Accept-Encoding"}, H{K: "Location", V: "/elsewhere"},
		H{K: "Content-Encoding", V: "br"}, H{K: "Server", V: "origin/1.0 (x; y)"}, H{K: "Warning", V: `110 - "Response is Stale"`}, H{K: "Via", V: "1.1 up"},
		H{K: "Content-Language", V: "de"}, H{K: "X-Long", V: strings.Repeat("v", 300)}, H{K: "X-Utf8", V: "grüße"}, H{K: "Pragma", V: "no-cache"}, H{K: "CDN-Cache-Control", V: "no-store"}, H{K: "Surrogate-Control", V: "max-age=1"}, H{K: "Www-Authenticate", V: "Basic realm=\"x\""})
}

func genBody(rt *rapid.T, r *Resp) {
	switch pick(rt, "bodykind", "bytes", "bytes", "empty", "crlf", "big", "httpish") {
	case "bytes":
		b := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "bytes")
		r.Body, r.BodyB64 = "", base64.StdEncoding.EncodeToString(b)
	case "empty":
		r.Body = ""
	case "crlf":
		r.Body = pick(rt, "crlf", "\r\n", "\r\n\r\n", "0\r\n\r\n", "\n", "\x00", "a\r\n0\r\n\r\nb")
	case "big":
		r.Body, r.Repeat = "0123456789abcdef", pick(rt, "bigrep", 63, 64, 65, 256, 257, 2048, 4097)
		if pct(rt, 4, "huge") {
			r.Repeat = pick(rt, "hugerep", 65537, 131072, 700000)
		}
	case "httpish":
		r.Body = "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc"
	}
}
