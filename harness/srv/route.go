package srv

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Route is a list of upstreams and requests to route.
type Route struct {
	Ups  []RUp  `json:"ups"`
	Reqs []RReq `json:"reqs"`
}

// RUp is a configured upstream.
type RUp struct {
	To   int    `json:"to"` // the origin server behind it
	Path string `json:"path"`
	Base string `json:"base,omitempty"`
}

// RReq is a request with the response it gets.
type RReq struct {
	Method string   `json:"method"`
	Target string   `json:"target"`
	Abs    bool     `json:"abs,omitempty"` // absolute-form request target
	Lines  []string `json:"lines,omitempty"`
	Body   int      `json:"body,omitempty"` // length, -1: none
	Chunk  bool     `json:"chunk,omitempty"`
	Fresh  bool     `json:"newconn,omitempty"`

	Status int      `json:"status"`
	RLines []string `json:"rlines,omitempty"`
	RBody  int      `json:"rbody,omitempty"`
	RFrame string   `json:"rframe,omitempty"` // len chunked close
}

func filler(n, salt int) []byte {
	if n <= 0 {
		return nil
	}
	b := make([]byte, n)
	x := uint32(salt*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func chunked(b []byte) []byte {
	var w bytes.Buffer
	for i := 0; i < len(b); {
		n := min(len(b)-i, 1+(i*13+7)%5000)
		fmt.Fprintf(&w, "%x\r\n", n)
		w.Write(b[i : i+n])
		w.WriteString("\r\n")
		i += n
	}
	w.WriteString("0\r\n\r\n")
	return w.Bytes()
}

var hopByHop = []string{"Connection", "Proxy-Connection", "Keep-Alive", "Proxy-Authenticate", "Proxy-Authorization", "Te", "Trailer", "Transfer-Encoding", "Upgrade"}

// fields parses header lines and drops what concerns a single connection.
func fields(lines []string) http.Header {
	h := http.Header{}
	for _, l := range lines {
		i := strings.IndexByte(l, ':')
		h.Add(l[:i], strings.TrimSpace(l[i+1:]))
	}
	for _, c := range h["Connection"] {
		for _, n := range strings.Split(c, ",") {
			if n = strings.TrimSpace(n); n != "" {
				h.Del(n)
			}
		}
	}
	for _, n := range hopByHop {
		h.Del(n)
	}
	return h
}

// matches is the documented meaning of an upstream path: a prefix of the request path, possibly with {name:regexp}.
func matches(prefix, path string) bool {
	if strings.Contains(prefix, "{id:[0-9]+}") {
		i := strings.Index(prefix, "{")
		return regexp.MustCompile("^" + regexp.QuoteMeta(prefix[:i]) + "[0-9]+").MatchString(path)
	}
	return strings.HasPrefix(path, prefix)
}

func join(base, p string) string {
	switch a, b := strings.HasSuffix(base, "/"), strings.HasPrefix(p, "/"); {
	case a && b:
		return base + p[1:]
	case !a && !b:
		return base + "/" + p
	}
	return base + p
}

// RunRoute judges routing.
func RunRoute(t *testing.T, sc Route) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runRoute(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("routed") && (l.Has("base") || l.Has("escaped") || l.Has("body") || l.Has("not-first") || l.Has("unmatched")), Labels: l.List()}
}

func runRoute(sc *Route, l *core.Labels) string {
	us, _ := Upstreams()
	var cur *RReq
	salt := 0
	for _, u := range us {
		u.Script(func(c net.Conn, s *Seen) bool {
			r := cur
			if s.Header.Get("Upgrade") != "" && strings.Contains(strings.ToLower(s.Header.Get("Connection")), "upgrade") {
				// it supports every protocol
				_, _ = fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: %s\r\n\r\n", s.Header.Get("Upgrade"))
				return false
			}
			body := filler(r.RBody, salt+99)
			none := r.Status == 204 || r.Status == 304
			var w bytes.Buffer
			fmt.Fprintf(&w, "HTTP/1.1 %d Some Reason\r\n", r.Status)
			for _, x := range r.RLines {
				w.WriteString(x + "\r\n")
			}
			switch {
			case none:
			case r.RFrame == "chunked":
				w.WriteString("Transfer-Encoding: chunked\r\n")
			case r.RFrame == "close":
				w.WriteString("Connection: close\r\n")
			default:
				fmt.Fprintf(&w, "Content-Length: %d\r\n", len(body))
			}
			w.WriteString("\r\n")
			if !none && s.Method != "HEAD" {
				if r.RFrame == "chunked" {
					w.Write(chunked(body))
				} else {
					w.Write(body)
				}
			}
			if _, err := c.Write(w.Bytes()); err != nil {
				return false
			}
			if r.RFrame == "close" && !none {
				finish(c)
				return false
			}
			return true
		})
		defer u.CloseConns()
	}
	cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}, API: &config.API{}}
	for i, u := range sc.Ups {
		cfg.Upstreams = append(cfg.Upstreams, &config.Upstream{Name: fmt.Sprint("u", i), Addr: us[u.To].Scheme + "://" + us[u.To].Addr + u.Base, Path: u.Path})
	}
	st, err := NewStack(cfg)
	if err != nil {
		return "cannot start: " + err.Error()
	}
	TheFront().Use(st.Srv)
	var conn net.Conn
	var br *bufio.Reader
	defer func() {
		if conn != nil {
			abort(conn)
		}
	}()
	for n := range sc.Reqs {
		r := &sc.Reqs[n]
		cur, salt = r, n
		p, q, hasQ := strings.Cut(r.Target, "?")
		dec, err := url.PathUnescape(p)
		if err != nil {
			panic(err)
		}
		want := -1
		open := false
		for i, u := range sc.Ups {
			a, b := matches(u.Path, dec), matches(u.Path, p)
			if a != b {
				open = true // depends on whether the escaped or the unescaped path is meant
				break
			}
			if a {
				want = i
				break
			}
		}
		if open {
			l.Add("open-question")
			continue
		}
		if want < 0 && r.Body > 100000 {
			l.Add("large-unmatched")
			continue // the server may close the connection without reading it
		}
		if conn == nil || r.Fresh {
			if conn != nil {
				abort(conn)
			}
			if conn, err = net.Dial("tcp", TheFront().Addr); err != nil {
				panic(err)
			}
			br = bufio.NewReader(conn)
		}
		_ = conn.SetDeadline(time.Now().Add(25 * time.Second))
		body := filler(r.Body, n)
		var w bytes.Buffer
		tgt := r.Target
		if r.Abs {
			tgt = "http://front" + tgt
		}
		fmt.Fprintf(&w, "%s %s HTTP/1.1\r\nHost: front\r\n", r.Method, tgt)
		for _, x := range r.Lines {
			w.WriteString(x + "\r\n")
		}
		if r.Body >= 0 {
			if r.Chunk {
				w.WriteString("Transfer-Encoding: chunked\r\n\r\n")
				w.Write(chunked(body))
			} else {
				fmt.Fprintf(&w, "Content-Length: %d\r\n\r\n", len(body))
				w.Write(body)
			}
		} else {
			w.WriteString("\r\n")
		}
		before := make([]int, len(us))
		for i, u := range us {
			before[i] = u.Count()
		}
		if _, err := conn.Write(w.Bytes()); err != nil {
			return fmt.Sprintf("request %d %s %s: %v", n, r.Method, r.Target, err)
		}
		rep := Read(br, r.Method)
		what := fmt.Sprintf("request %d %s %s (upstreams %+v)", n, r.Method, r.Target, sc.Ups)
		if rep.Header.Get("Connection") == "close" || rep.Err != nil {
			abort(conn)
			conn = nil
		}
		if rep.Err != nil {
			return fmt.Sprintf("%s: broken reply: %v", what, rep.Err)
		}
		var got []*Seen
		for i, u := range us {
			got = append(got, u.Seen()[before[i]:]...)
		}
		if want < 0 {
			if rep.Status != 503 || len(got) != 0 {
				return fmt.Sprintf("%s: matches no upstream, status %d, contacts %d, body %q", what, rep.Status, len(got), rep.Body)
			}
			l.Add("unmatched")
			continue
		}
		if len(got) != 1 {
			return fmt.Sprintf("%s: %d contacts, status %d %s", what, len(got), rep.Status, rep.Body)
		}
		s := got[0]
		up := sc.Ups[want]
		if s.Up != up.To {
			return fmt.Sprintf("%s: went to origin %d instead of %d", what, s.Up, up.To)
		}
		if s.Method != r.Method {
			return fmt.Sprintf("%s: arrived with method %s", what, s.Method)
		}
		uri := join(up.Base, p)
		if hasQ {
			uri += "?" + q
		}
		if s.URI != uri {
			return fmt.Sprintf("%s: arrived as %s instead of %s", what, s.URI, uri)
		}
		if s.Host != us[up.To].Addr {
			return fmt.Sprintf("%s: arrived with Host %q instead of %q", what, s.Host, us[up.To].Addr)
		}
		if s.Err != nil || s.Body != string(body) {
			return fmt.Sprintf("%s: body of %d bytes arrived as %d bytes, error %v", what, len(body), len(s.Body), s.Err)
		}
		// header fields
		wantH := fields(r.Lines)
		xff := append(wantH["X-Forwarded-For"], "127.0.0.1")
		wantH["X-Forwarded-For"] = []string{strings.Join(xff, ", ")}
		if wantH["User-Agent"] == nil {
			wantH["User-Agent"] = []string{"kache"}
		}
		gotH := s.Header.Clone()
		for _, h := range []http.Header{wantH, gotH} {
			if len(h["User-Agent"]) == 1 && h["User-Agent"][0] == "" {
				h.Del("User-Agent") // an empty field says the same as none
			}
		}
		for _, k := range []string{"Content-Length", "Transfer-Encoding", "Connection"} {
			gotH.Del(k)
		}
		if wantH["Pragma"] != nil && wantH["Cache-Control"] == nil {
			gotH.Del("Cache-Control") // net/http reads Pragma as Cache-Control, at both ends
		}
		if wantH["Accept-Encoding"] == nil {
			gotH.Del("Accept-Encoding")
		}
		if d := diffHeader(gotH, wantH); d != "" {
			return what + ": header fields of the request: " + d
		}
		// response
		if rep.Status != r.Status {
			return fmt.Sprintf("%s: status %d relayed as %d", what, r.Status, rep.Status)
		}
		wb := string(filler(r.RBody, n+99))
		if r.Method == "HEAD" || r.Status == 204 || r.Status == 304 {
			wb = ""
		}
		if rep.Body != wb {
			return fmt.Sprintf("%s: response body of %d bytes relayed as %d bytes", what, len(wb), len(rep.Body))
		}
		wantR, gotR := fields(r.RLines), rep.Header.Clone()
		for _, k := range []string{"Content-Length", "Transfer-Encoding", "Connection"} {
			gotR.Del(k)
		}
		if r.RFrame == "close" {
			gotR.Del("X-Gone")
			wantR.Del("X-Gone") // net/http forgets Connection fields next to close
		}
		if r.Status == 304 {
			wantR.Del("Content-Type") // net/http does not send it with a 304
		}
		for _, k := range []string{"Date", "Content-Type"} {
			if wantR[k] == nil {
				gotR.Del(k)
			}
		}
		if d := diffHeader(gotR, wantR); d != "" {
			return what + ": header fields of the response: " + d
		}
		l.Add("routed")
		if slices.Contains(r.Lines, "Upgrade: websocket") {
			l.Add("upgrade")
		}
		if up.Base != "" && up.Base != "/" {
			l.Add("base")
		}
		if strings.Contains(p, "%") {
			l.Add("escaped")
			if up.Base != "" && up.Base != "/" {
				l.Add("escaped-base")
			}
		}
		if len(body) > 0 {
			l.Add("body")
		}
		if want > 0 {
			l.Add("not-first")
		}
		if us[up.To].Scheme == "https" {
			l.Add("tls")
		}
		l.Add("method-" + r.Method)
	}
	return ""
}

func diffHeader(got, want http.Header) string {
	for k, v := range want {
		if !reflect.DeepEqual(got[k], v) {
			return fmt.Sprintf("%s is %q instead of %q", k, got[k], v)
		}
	}
	for k, v := range got {
		if want[k] == nil {
			return fmt.Sprintf("unexpected %s: %q", k, v)
		}
	}
	return ""
}

func genTarget(rt *rapid.T, sc *Route) string {
	p := ""
	if rapid.IntRange(0, 3).Draw(rt, "under") > 0 {
		p = rapid.SampledFrom(sc.Ups).Draw(rt, "of").Path
		if i := strings.Index(p, "{"); i >= 0 {
			p = p[:i] + rapid.SampledFrom([]string{"7", "42", "x"}).Draw(rt, "id")
		}
		if strings.HasSuffix(p, "/") && rapid.Bool().Draw(rt, "slash") {
			p = p[:len(p)-1]
		}
	}
	if p == "" {
		p = rapid.SampledFrom([]string{"/", "/a", "/ap", "/API", "/other", "//a", "/a/b"}).Draw(rt, "root")
	}
	for i := 0; i < rapid.IntRange(0, 3).Draw(rt, "segs"); i++ {
		s := rapid.SampledFrom([]string{"x", "b", "v1", "%2F", "a%2Fb", "%2f", "%20", "a%20b", "%C3%A9", "%41", "..", ".", "", "a+b", "a;b=c", "a:b@c", "$&'()*,!~", "%25", "%3F", "%23", "x.html", "[1]", "%2E%2E", "a=b"}).Draw(rt, "seg")
		if rapid.IntRange(0, 4).Draw(rt, "glue") > 0 {
			p += "/"
		}
		p += s
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	switch rapid.IntRange(0, 3).Draw(rt, "q") {
	case 0:
		p += "?" + rapid.SampledFrom([]string{"", "a=1", "a=1&b=2", "b=2&a=1", "a=%20&c=+", "a;b", "%zz", "x=%2F/..", "a=1&a=2", "=", "&&", "a?b=c", "q=%C3%A9"}).Draw(rt, "query")
	}
	return p
}

// GenRoute draws a routing case.
func GenRoute(rt *rapid.T) Route {
	sc := Route{}
	n := rapid.IntRange(1, 4).Draw(rt, "ups")
	if rapid.IntRange(0, 49).Draw(rt, "large") == 0 {
		n = rapid.IntRange(9, 60).Draw(rt, "manyups")
	}
	for i := 0; i < n; i++ {
		to := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 3}).Draw(rt, "to")
		sc.Ups = append(sc.Ups, RUp{To: to, Path: rapid.SampledFrom([]string{"/", "/", "/a", "/a/", "/api", "/api/v1", "/ap", "", "/b", "/a.c", "/news/{id:[0-9]+}", "/a/b", "/x+y"}).Draw(rt, "path"),
			Base: rapid.SampledFrom([]string{"", "", "/", "/base", "/base/", "/b/c", "/b%2Fc", "/b%20c/", "/b//"}).Draw(rt, "base")})
	}
	m := rapid.IntRange(1, 5).Draw(rt, "reqs")
	for i := 0; i < m; i++ {
		r := RReq{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE", "CUSTOM"}).Draw(rt, "method"), Body: -1}
		r.Target = genTarget(rt, &sc)
		r.Abs = rapid.IntRange(0, 15).Draw(rt, "abs") == 0 && !strings.HasPrefix(r.Target, "//")
		r.Fresh = rapid.IntRange(0, 7).Draw(rt, "newconn") == 0
		if r.Method != "HEAD" && (r.Method[0] == 'P' || rapid.IntRange(0, 5).Draw(rt, "hasbody") == 0) {
			r.Body = rapid.SampledFrom([]int{0, 1, 10, 1000, 5000, 70000}).Draw(rt, "body")
			if rapid.IntRange(0, 29).Draw(rt, "largebody") == 0 {
				r.Body = rapid.SampledFrom([]int{131073, 1048577, 3000000}).Draw(rt, "bigbody")
			}
			r.Chunk = rapid.IntRange(0, 2).Draw(rt, "chunk") == 0
		}
		r.Lines = append(r.Lines, genLines(rt, []string{"Accept: */*", "Accept-Encoding: identity", "User-Agent: test/1", "User-Agent:", "X-A: 1", "X-A: 2", "x-b:   spaced  ", "X-Empty:", "Cookie: a=b; c=d", "Referer: http://x/y?z", "Connection: x-hop", "X-Hop: 1", "Keep-Alive: 5", "Te: gzip",
			"X-Forwarded-For: 10.1.2.3", "X-Forwarded-For: 10.9.9.9, 10.8.8.8", "X-Forwarded-Host: evil", "X-Real-Ip: 1.2.3.4", "Authorization: Bearer t", "Range: bytes=0-10", "If-None-Match: \"x\"", "Content-Type: application/json", "Origin: http://o", "Cache-Control: no-cache", "Via: 1.1 other", "Forwarded: for=1.2.3.4", "X-Kache: no", "Pragma: no-cache", "Priority: u=1", "Proxy-Connection: keep-alive", "Accept-Language: de, en;q=0.5"})...)
		if !slices.ContainsFunc(r.Lines, func(x string) bool { return strings.HasPrefix(x, "Connection:") }) && rapid.IntRange(0, 9).Draw(rt, "upgrade") == 0 {
			r.Lines = append(r.Lines, rapid.SampledFrom([][]string{{"Connection: Upgrade", "Upgrade: websocket"}, {"Upgrade: h2c", "HTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA", "Connection: Upgrade, HTTP2-Settings"},
				{"Connection: keep-alive, Upgrade", "Upgrade: websocket", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", "Sec-WebSocket-Version: 13"}, {"Upgrade: websocket"}}).Draw(rt, "protocol")...)
		}
		r.Status = rapid.SampledFrom([]int{200, 200, 200, 201, 202, 204, 206, 299, 301, 302, 304, 307, 400, 401, 403, 404, 410, 418, 429, 451, 500, 501, 502, 503, 504, 599, 777}).Draw(rt, "status")
		r.RBody = rapid.SampledFrom([]int{0, 1, 10, 500, 5000, 100000}).Draw(rt, "rbody")
		if rapid.IntRange(0, 59).Draw(rt, "largerbody") == 0 {
			r.RBody = rapid.SampledFrom([]int{1048577, 3000000}).Draw(rt, "bigrbody")
		}
		r.RFrame = rapid.SampledFrom([]string{"len", "len", "chunked", "close"}).Draw(rt, "rframe")
		r.RLines = append(r.RLines, genLines(rt, []string{"Date: Mon, 02 Jan 2023 03:04:05 GMT", "Content-Type: text/html; charset=utf-8", "Set-Cookie: a=1; Path=/", "Set-Cookie: b=2", "X-R: 1", "X-R: 2", "Location: /else?where", "Server: origin/1", "Cache-Control: no-store", "Cache-Control: private", "Etag: \"e\"", "Vary: Accept", "Connection: x-gone", "X-Gone: 1", "Keep-Alive: timeout=5",
			"X-Empty:", "Www-Authenticate: Basic realm=\"x\"", "Link: </a>; rel=preload, </b>; rel=x", "Content-Encoding: br", "Last-Modified: Mon, 02 Jan 2023 03:04:05 GMT", "Age: 7", "Warning: 110 - x", "X-Kache: HIT", "Via: 1.1 origin", "Content-Language: de", "Alt-Svc: h3", "Retry-After: 5", "Content-Disposition: attachment; filename=\"a,b.txt\""})...)
		sc.Reqs = append(sc.Reqs, r)
	}
	return sc
}

func genLines(rt *rapid.T, all []string) []string {
	var out []string
	used := map[string]bool{}
	for i := 0; i < rapid.IntRange(0, 6).Draw(rt, "nlines"); i++ {
		x := rapid.SampledFrom(all).Draw(rt, "line")
		k, _, _ := strings.Cut(x, ":")
		switch k {
		case "X-A", "X-R", "X-Forwarded-For", "Set-Cookie", "Link", "Via", "Vary", "Warning", "Accept-Language":
		default:
			if used[k] {
				continue
			}
		}
		used[k] = true
		out = append(out, x)
	}
	return out
}
