package httpsim

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// URL spellings for C06. The atoms avoid spellings whose identity the property leaves open
// (encoded dots, "+" against "%20", parameters without "=", empty parameters).

var segAtoms = []string{"a", "b", "A", "%41", "%61", "%2F", "%2f", "%25", "%252F", "%3F", "%23", "%26", "é", "%C3%A9", "e%CC%81", "日", "%20", "~", "%7E", ":", "@", ";", "=", "&", "+", ",", "%FF", "1", "%31", ".a", "a.", "..a", "%00", "$", "!", "index.html"}
var paramNames = []string{"a", "b", "%61", "c", "é", "%C3%A9", "a%5B%5D", "a[]", "A", "utm_source", "_", "v", "sid"}
var paramVals = []string{"1", "2", "", "%31", "a%26b%3D2", "x%2By", "%25", "%3D", "é", "%C3%A9", "%2F", "/", "?", "%3F", "1%3B", "x=y", "x%3Dy"}
var badParams = []string{"a=%zz", "b=%zz", "a=%", "a=1;b=2", "c=%z1", "%zz=1", ";", "a=%E"}

type urlParts struct {
	segs   []string
	params []string
}

func genSeg(rt *rapid.T) string {
	n := rapid.IntRange(1, 3).Draw(rt, "segn")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(rapid.SampledFrom(segAtoms).Draw(rt, "seg"))
	}
	return b.String()
}

func genParam(rt *rapid.T) string {
	if pct(rt, 12, "badparam") {
		return rapid.SampledFrom(badParams).Draw(rt, "bad")
	}
	return rapid.SampledFrom(paramNames).Draw(rt, "pn") + "=" + rapid.SampledFrom(paramVals).Draw(rt, "pv")
}

func genURL(rt *rapid.T) urlParts {
	var u urlParts
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "nseg"); i < n; i++ {
		u.segs = append(u.segs, genSeg(rt))
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3}).Draw(rt, "nparam"); i < n; i++ {
		u.params = append(u.params, genParam(rt))
	}
	return u
}

func (u urlParts) String() string {
	s := "/" + strings.Join(u.segs, "/")
	if len(u.params) > 0 {
		s += "?" + strings.Join(u.params, "&")
	}
	return s
}

// respellEscapes changes the spelling of percent-encodings without changing what they mean.
func respellEscapes(rt *rapid.T, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && isHex(s[i+1]) && isHex(s[i+2]) {
			esc := s[i : i+3]
			if pct(rt, 50, "hexcase") {
				esc = strings.ToLower(esc)
			} else {
				esc = strings.ToUpper(esc)
			}
			if d, err := url.PathUnescape(esc); err == nil && isAlnum(d[0]) && pct(rt, 50, "unesc") {
				esc = d
			}
			b.WriteString(esc)
			i += 2
			continue
		}
		if isAlnum(s[i]) && pct(rt, 10, "esc") {
			fmt.Fprintf(&b, "%%%02X", s[i])
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isAlnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// same draws another spelling of the same resource.
func (u urlParts) same(rt *rapid.T) string {
	var segs []string
	for _, s := range u.segs {
		switch {
		case pct(rt, 8, "dot"):
			segs = append(segs, ".")
		case pct(rt, 8, "dotdot"):
			segs = append(segs, "zz", "..")
		case pct(rt, 8, "dbl"):
			segs = append(segs, "")
		}
		if pct(rt, 40, "respell") {
			s = respellEscapes(rt, s)
		}
		segs = append(segs, s)
	}
	if len(segs) > 0 && pct(rt, 10, "trail") {
		segs = append(segs, "")
	}
	out := "/" + strings.Join(segs, "/")
	params := append([]string{}, u.params...)
	if !u.malformed() {
		if len(params) > 1 && pct(rt, 60, "reorder") {
			// stable with respect to equal names
			perm := rapid.Permutation(params).Draw(rt, "pperm")
			pos := map[string][]string{}
			for _, p := range params {
				pos[pname(p)] = append(pos[pname(p)], p)
			}
			for i, p := range perm {
				n := pname(p)
				perm[i] = pos[n][0]
				pos[n] = pos[n][1:]
			}
			params = perm
		}
		for i := range params {
			if pct(rt, 30, "qrespell") {
				n, v, _ := strings.Cut(params[i], "=")
				params[i] = respellEscapes(rt, n) + "=" + respellEscapes(rt, v)
			}
		}
	}
	if len(params) > 0 {
		out += "?" + strings.Join(params, "&")
	}
	return out
}

func pname(p string) string {
	n, _, _ := strings.Cut(p, "=")
	if d, err := url.QueryUnescape(n); err == nil {
		return d
	}
	return n
}

func (u urlParts) malformed() bool {
	_, err := url.ParseQuery(strings.Join(u.params, "&"))
	return err != nil
}

// near draws a different URL that resembles u.
func (u urlParts) near(rt *rapid.T) urlParts {
	v := urlParts{append([]string{}, u.segs...), append([]string{}, u.params...)}
	switch pick(rt, "near", "seg", "addseg", "dropseg", "param", "addparam", "dropparam", "swapdup", "joinseg", "splitseg") {
	case "seg":
		if len(v.segs) > 0 {
			v.segs[rapid.IntRange(0, len(v.segs)-1).Draw(rt, "i")] = genSeg(rt)
		}
	case "addseg":
		v.segs = append(v.segs, genSeg(rt))
	case "dropseg":
		if len(v.segs) > 0 {
			v.segs = v.segs[:len(v.segs)-1]
		}
	case "param":
		if len(v.params) > 0 {
			v.params[rapid.IntRange(0, len(v.params)-1).Draw(rt, "i")] = genParam(rt)
		}
	case "addparam":
		v.params = append(v.params, genParam(rt))
	case "dropparam":
		if len(v.params) > 0 {
			v.params = v.params[1:]
		}
	case "swapdup":
		if len(v.params) > 1 {
			v.params[0], v.params[len(v.params)-1] = v.params[len(v.params)-1], v.params[0]
		} else if len(v.params) == 1 {
			v.params = append(v.params, v.params[0])
		}
	case "joinseg":
		if len(v.segs) > 1 {
			v.segs = append([]string{v.segs[0] + "%2F" + v.segs[1]}, v.segs[2:]...)
		}
	case "splitseg":
		if len(v.segs) > 0 {
			if a, b, ok := strings.Cut(v.segs[0], "%2F"); ok && a != "" && b != "" {
				v.segs = append([]string{a, b}, v.segs[1:]...)
			}
		}
	}
	return v
}

// openQuestion reports whether the scenario contains two malformed queries that are equal up to order;
// the property does not say whether those are the same.
func openQuestion(targets []string) bool {
	seen := map[string]string{}
	for _, t := range targets {
		p, q, _ := strings.Cut(t, "?")
		if _, err := url.ParseQuery(q); err == nil {
			continue
		}
		l := strings.Split(strings.ToLower(q), "&")
		sort.Strings(l)
		k := normPath(p) + "?" + strings.Join(l, "&")
		if o, ok := seen[k]; ok && o != q {
			return true
		}
		seen[k] = q
	}
	return false
}

// GenURLScenario draws a history of plain exchanges over related URLs, hosts and schemes.
func GenURLScenario(rt *rapid.T) Scenario {
	sc := Scenario{Cfg: Cfg{Strict: pct(rt, 50, "strict"), TTL: "24h"}}
	var us []urlParts
	us = append(us, genURL(rt))
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "nurls"); i < n; i++ {
		if pct(rt, 60, "near") {
			us = append(us, us[rapid.IntRange(0, len(us)-1).Draw(rt, "base")].near(rt))
		} else {
			us = append(us, genURL(rt))
		}
	}
	hosts := []string{"h1.test"}
	if pct(rt, 30, "hosts") {
		hosts = pick(rt, "hostset", []string{"h1.test", "h1.test:8080"}, []string{"h1.test", "h1.tes"}, []string{"h1.test", "test"}, []string{"[::1]:80", "h1.test"}, []string{"a.test", "a.test:81", "b.test"},
			[]string{"h1.test", "www.h1.test"}, []string{"h1.test", "h1.test.com", "h1.com"}, []string{"127.0.0.1:80", "127.0.0.1:8080"}, []string{"x-h1.test", "x.h1.test"})
	}
	schemes := []string{"http"}
	if pct(rt, 15, "schemes") {
		schemes = []string{"http", "https"}
	}
	if pct(rt, 12, "foreignport") {
		// a well-known port of another scheme is a port like any other
		switch pick(rt, "foreign", 0, 1) {
		case 0:
			hosts, schemes = []string{"h1.test", "h1.test:443"}, []string{"http"}
		default:
			hosts, schemes = []string{"h1.test", "h1.test:80"}, []string{"https"}
		}
	}
	var targets []string
	for i, n := 0, rapid.IntRange(3, 9).Draw(rt, "steps"); i < n; i++ {
		u := us[rapid.IntRange(0, len(us)-1).Draw(rt, "u")]
		t := u.String()
		if pct(rt, 60, "samespell") {
			t = u.same(rt)
		}
		if _, err := url.ParseRequestURI(t); err != nil {
			t = "/plain"
		}
		t = wellFormedSlash(t)
		targets = append(targets, t)
		st := Step{Req: &Req{Method: "GET", Scheme: pick(rt, "scheme", schemes...), Host: pick(rt, "host", hosts...), Target: t}}
		if i > 0 && pct(rt, 15, "head") {
			st.Req.Method = "HEAD"
		}
		for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "nh"); j < k; j++ {
			st.Req.Hdr = append(st.Req.Hdr, H{K: pick(rt, "hk", "Accept", "Cookie", "User-Agent", "Accept-Encoding", "X-Forwarded-Host", "X-Y"), V: pick(rt, "hv", "a", "b", "other.test")})
		}
		st.Resp = &Resp{Status: 200, Body: fmt.Sprintf("body-%d", i), Hdr: []H{{K: "Cache-Control", V: "max-age=3600"}}}
		if st.Req.Method == "HEAD" {
			// an answer to HEAD would remove the entry; what that does is C02's business
			st.Resp.Err = "reset"
		}
		sc.Steps = append(sc.Steps, st)
	}
	if openQuestion(targets) {
		for i := range sc.Steps {
			if strings.Contains(sc.Steps[i].Req.Target, "?") {
				sc.Steps[i].Req.Target = "/open"
			}
		}
	}
	return sc
}

// wellFormedSlash escapes raw non-ASCII bytes in paths that contain an encoded slash: net/http itself
// drops the distinction between encoded and plain slashes for such (invalid) request targets.
func wellFormedSlash(t string) string {
	p, q, hasQ := strings.Cut(t, "?")
	if !strings.Contains(strings.ToLower(p), "%2f") {
		return t
	}
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] >= 0x80 {
			fmt.Fprintf(&b, "%%%02X", p[i])
		} else {
			b.WriteByte(p[i])
		}
	}
	if hasQ {
		return b.String() + "?" + q
	}
	return b.String()
}
