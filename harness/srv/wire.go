package srv

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Wire is a set of resources on one origin, requested by groups of concurrent clients.
type Wire struct {
	Res    []WRes   `json:"res"`
	Groups [][]WCl  `json:"groups"`
	Hold   []int    `json:"hold,omitempty"` // ms the origin takes for the first answer of a group
	AE     string   `json:"ae,omitempty"`   // the Accept-Encoding of all clients
	Extra  []string `json:"extra,omitempty"`
	Marker bool     `json:"marker,omitempty"`
}

// WRes is a resource.
type WRes struct {
	Path   string   `json:"path"`
	Status int      `json:"status"`
	CC     string   `json:"cc"`
	Lines  []string `json:"lines,omitempty"`
	Len    int      `json:"len"`
	Frame  string   `json:"frame"`           // len chunked close
	Old    bool     `json:"old,omitempty"`   // HTTP/1.0
	Seg    int      `json:"seg,omitempty"`   // pieces
	Pause  int      `json:"pause,omitempty"` // ms between the pieces
	Gzip   bool     `json:"gzip,omitempty"`  // encodes when asked
	Hints  bool     `json:"hints,omitempty"` // sends a 103 first
	Hop    bool     `json:"hop,omitempty"`   // a field for this connection only
	NoDate bool     `json:"nodate,omitempty"`
}

// WCl is a client.
type WCl struct {
	Res    int    `json:"r"`
	Method string `json:"m"`
	N      int    `json:"n"`              // requests on the connection
	Pipe   bool   `json:"pipe,omitempty"` // all sent at once
	Old    bool   `json:"old,omitempty"`  // HTTP/1.0
	Slow   bool   `json:"slow,omitempty"`
	Leave  bool   `json:"leave,omitempty"`
	Range  string `json:"range,omitempty"`
	None   bool   `json:"none,omitempty"` // If-None-Match of the first version
}

// storable says if what the origin sends for r is certainly stored.
func (r *WRes) storable() bool {
	switch r.Status {
	case 200, 203, 301, 404, 410:
		return strings.Contains(r.CC, "max-age=1000")
	}
	return false
}

func (r *WRes) body(ver int) []byte {
	if r.Status == 204 {
		return nil
	}
	return filler(r.Len, 1000*len(r.Path)+ver+int(r.Path[len(r.Path)-1])*77)
}

func (r *WRes) lines(ver int) []string {
	out := append([]string{fmt.Sprintf("X-Version: %d", ver), fmt.Sprintf("Etag: \"v%d\"", ver), "X-Path: " + r.Path}, r.Lines...)
	if r.CC != "" {
		out = append(out, "Cache-Control: "+r.CC)
	}
	return out
}

func zip(b []byte) []byte {
	var w bytes.Buffer
	z := gzip.NewWriter(&w)
	_, _ = z.Write(b)
	_ = z.Close()
	return w.Bytes()
}

// RunWire judges what clients get.
func RunWire(t *testing.T, sc Wire) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runWire(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("joined") || l.Has("stored"), Labels: l.List()}
}

func runWire(sc *Wire, l *core.Labels) string {
	us, _ := Upstreams()
	u := us[0]
	defer u.CloseConns()
	var mu sync.Mutex
	vers := map[string]int{}
	gate := make(chan struct{})
	open := func() chan struct{} { mu.Lock(); defer mu.Unlock(); return gate }
	u.Script(func(c net.Conn, s *Seen) bool {
		var r *WRes
		for i := range sc.Res {
			if sc.Res[i].Path == s.URI {
				r = &sc.Res[i]
			}
		}
		if r == nil {
			return plainReply(c, s, "what?", "Cache-Control: no-store")
		}
		mu.Lock()
		vers[r.Path]++
		ver := vers[r.Path]
		mu.Unlock()
		<-open()
		body := r.body(ver)
		var w bytes.Buffer
		proto := "HTTP/1.1"
		if r.Old {
			proto = "HTTP/1.0"
		}
		if r.Hints && !r.Old {
			w.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </style.css>; rel=preload\r\n\r\n")
		}
		fmt.Fprintf(&w, "%s %d Custom Reason\r\n", proto, r.Status)
		if !r.NoDate {
			fmt.Fprintf(&w, "Date: %s\r\n", time.Now().UTC().Format(http.TimeFormat))
		}
		for _, x := range r.lines(ver) {
			w.WriteString(x + "\r\n")
		}
		if r.Gzip && strings.Contains(s.Header.Get("Accept-Encoding"), "gzip") && len(body) > 0 {
			w.WriteString("Content-Encoding: gzip\r\n")
			body = zip(body)
		}
		frame := r.Frame
		if r.Old && frame == "chunked" {
			frame = "close"
		}
		switch {
		case r.Status == 204:
		case frame == "chunked":
			if r.Hop {
				w.WriteString("Connection: x-gone\r\nX-Gone: hop\r\n")
			}
			w.WriteString("Transfer-Encoding: chunked\r\n")
			body = chunked(body)
		case frame == "close":
			w.WriteString("Connection: close\r\n")
		default:
			fmt.Fprintf(&w, "Content-Length: %d\r\n", len(body))
			if r.Old {
				w.WriteString("Connection: keep-alive\r\n")
			} else if r.Hop {
				w.WriteString("X-Gone: hop\r\nConnection: X-Gone\r\n")
			}
		}
		w.WriteString("\r\n")
		if s.Method != "HEAD" && r.Status != 204 {
			w.Write(body)
		}
		all := w.Bytes()
		for i := 0; i <= r.Seg; i++ {
			a, b := len(all)*i/(r.Seg+1), len(all)*(i+1)/(r.Seg+1)
			if _, err := c.Write(all[a:b]); err != nil {
				return false
			}
			if i < r.Seg {
				time.Sleep(max(300*time.Microsecond, time.Duration(r.Pause)*time.Millisecond))
			}
		}
		if frame == "close" && r.Status != 204 {
			finish(c)
			return false
		}
		return true
	})
	hc := &cache.HttpCacheConfig{Strict: true, XCache: sc.Marker}
	cfg := &config.Configuration{Upstreams: config.Upstreams{{Name: "u", Addr: "http://" + u.Addr, Path: "/"}}, HttpCache: hc, API: &config.API{}}
	st, err := NewStack(cfg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	f := TheFront()
	f.Use(st.Srv)
	// which version is stored
	stored := map[string]bool{}
	for gi, g := range sc.Groups {
		mu.Lock()
		gate = make(chan struct{})
		my := gate
		before := map[string]int{}
		for k, n := range vers {
			before[k] = n
		}
		mu.Unlock()
		count := func(p string) int { mu.Lock(); defer mu.Unlock(); return vers[p] }
		leaver := map[string]bool{}
		asked := map[string]int{} // plain GETs
		other := map[string]int{} // requests that may go to the origin on their own
		head := map[string]bool{} // an answer to HEAD from the origin replaces what is stored
		for _, c := range g {
			p := sc.Res[c.Res].Path
			if c.Leave {
				leaver[p] = true
			}
			if c.Method == "HEAD" {
				head[p] = true
			}
			if c.Method == "GET" && c.Range == "" && !c.None {
				asked[p]++
			} else {
				other[p]++
			}
		}
		var wg sync.WaitGroup
		out := make([]string, len(g))
		got := make([][]Reply, len(g))
		sent := make(chan bool, len(g))
		for i := range g {
			wg.Add(1)
			go func() { defer wg.Done(); out[i] = sc.client(f.Addr, &g[i], &got[i], sent) }()
		}
		for range g {
			<-sent
		}
		time.Sleep(4 * time.Millisecond)
		bad := ""
		for p := range asked {
			r := sc.res(p)
			n := count(p) - before[p]
			if leaver[p] || r.CC == "" {
				continue
			}
			if lim := other[p] + 1; !stored[p] && n > lim {
				bad = fmt.Sprintf("group %d: %d plain GETs of %s and %d others wait for the origin, which has been asked %d times and has not answered yet", gi, asked[p], p, other[p], n)
			}
			if !stored[p] && asked[p] > 1 && other[p] == 0 && n == 1 {
				l.Add("joined")
			}
		}
		if gi < len(sc.Hold) && sc.Hold[gi] > 0 {
			time.Sleep(time.Duration(sc.Hold[gi]) * time.Millisecond)
			l.Add("slow-origin")
		}
		close(my)
		wg.Wait()
		if bad != "" {
			return bad
		}
		for i := range g {
			c := &g[i]
			r := &sc.Res[c.Res]
			what := fmt.Sprintf("group %d client %d (%+v of %+v)", gi, i, *c, *r)
			if out[i] != "" {
				return what + ": " + out[i]
			}
			for j, rep := range got[i] {
				if v := sc.judge(r, c, &rep, count(r.Path), l); v != "" {
					return fmt.Sprintf("%s reply %d: %s", what, j, v)
				}
			}
		}
		for p := range asked {
			r := sc.res(p)
			if stored[p] && other[p] == 0 {
				if n := count(p) - before[p]; n > 0 {
					return fmt.Sprintf("group %d: the response for %s is stored and fresh, but the origin was asked %d times", gi, p, n)
				}
				l.Add("hit")
			}
			if r.storable() && !leaver[p] && !head[p] {
				stored[p] = true
				l.Add("stored")
			}
		}
		if v := sc.apart(g, got); v != "" {
			return fmt.Sprintf("group %d: %s", gi, v)
		}
	}
	return ""
}

func (sc *Wire) res(p string) *WRes {
	for i := range sc.Res {
		if sc.Res[i].Path == p {
			return &sc.Res[i]
		}
	}
	return nil
}

// apart judges that responses for one client only went to one client.
func (sc *Wire) apart(g []WCl, got [][]Reply) string {
	seen := map[string]int{}
	for i := range g {
		r := &sc.Res[g[i].Res]
		if r.CC != "private" && r.CC != "no-store" {
			continue
		}
		for _, rep := range got[i] {
			if rep.Status == 304 {
				continue
			}
			k := r.Path + " " + rep.Header.Get("X-Version")
			if seen[k]++; seen[k] > 1 {
				return fmt.Sprintf("a response with Cache-Control: %s was delivered twice (%s)", r.CC, k)
			}
		}
	}
	return ""
}

func (sc *Wire) judge(r *WRes, c *WCl, rep *Reply, n int, l *core.Labels) string {
	if rep.Err != nil {
		return fmt.Sprintf("broken: %v (status %d, %d bytes)", rep.Err, rep.Status, len(rep.Body))
	}
	if rep.Status == 304 && c.None {
		if rep.Body != "" {
			return "304 with a body"
		}
		l.Add("304")
		return ""
	}
	ver := 0
	_, _ = fmt.Sscan(rep.Header.Get("X-Version"), &ver)
	if ver < 1 || ver > n {
		return fmt.Sprintf("no response of the origin (status %d, header %v, body of %d bytes)", rep.Status, rep.Header, len(rep.Body))
	}
	body := r.body(ver)
	enc := r.Gzip && len(body) > 0 && strings.Contains(sc.AE, "gzip")
	if rep.Status == 206 && c.Range != "" {
		l.Add("206")
		return ""
	}
	if rep.Status != r.Status {
		return fmt.Sprintf("status %d instead of %d", rep.Status, r.Status)
	}
	want := fields(r.lines(ver))
	gotH := rep.Header.Clone()
	if enc {
		want["Content-Encoding"] = []string{"gzip"}
		body = zip(body)
	}
	if c.Method == "HEAD" {
		delete(want, "Content-Encoding")
		delete(gotH, "Content-Encoding")
		if cl := rep.Header.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(body)) && !r.Gzip {
			return fmt.Sprintf("Content-Length %s instead of %d in the reply to HEAD", cl, len(body))
		}
		body = nil
		l.Add("HEAD")
	}
	if rep.Body != string(body) {
		at := 0
		for at < len(body) && at < len(rep.Body) && body[at] == rep.Body[at] {
			at++
		}
		return fmt.Sprintf("body of %d bytes instead of %d, differing at %d", len(rep.Body), len(body), at)
	}
	for _, k := range []string{"Content-Length", "Transfer-Encoding", "Connection", "Date", "Age"} {
		gotH.Del(k)
	}
	if want["Content-Type"] == nil {
		gotH.Del("Content-Type")
	}
	if sc.Marker && want["X-Kache"] == nil {
		gotH.Del("X-Kache")
	}
	if len(rep.Header["Date"]) != 1 {
		return fmt.Sprintf("Date fields: %q", rep.Header["Date"])
	}
	if d := diffHeader(gotH, want); d != "" {
		return d
	}
	return ""
}

// client sends the requests of c and reads the replies.
func (sc *Wire) client(addr string, c *WCl, got *[]Reply, sent chan<- bool) string {
	told := false
	tell := func() {
		if !told {
			told = true
			sent <- true
		}
	}
	defer tell()
	conn, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer abort(conn)
	_ = conn.SetDeadline(time.Now().Add(25 * time.Second))
	var w bytes.Buffer
	proto := "HTTP/1.1"
	if c.Old {
		proto = "HTTP/1.0"
	}
	fmt.Fprintf(&w, "%s %s %s\r\nHost: front\r\n", c.Method, sc.Res[c.Res].Path, proto)
	if sc.AE != "" {
		w.WriteString("Accept-Encoding: " + sc.AE + "\r\n")
	}
	if c.Range != "" {
		w.WriteString("Range: " + c.Range + "\r\n")
	}
	if c.None {
		w.WriteString("If-None-Match: \"v1\"\r\n")
	}
	if c.Old && c.N > 1 {
		w.WriteString("Connection: keep-alive\r\n")
	}
	for _, x := range sc.Extra {
		w.WriteString(x + "\r\n")
	}
	w.WriteString("\r\n")
	var rd io.Reader = conn
	if c.Slow {
		rd = slowReader{conn}
	}
	br := bufio.NewReader(rd)
	if c.Pipe {
		if _, err := conn.Write(bytes.Repeat(w.Bytes(), c.N)); err != nil {
			return err.Error()
		}
	}
	for i := 0; i < c.N; i++ {
		if !c.Pipe {
			if _, err := conn.Write(w.Bytes()); err != nil {
				return err.Error()
			}
		}
		tell()
		if c.Leave {
			time.Sleep(2 * time.Millisecond)
			return ""
		}
		rep := Read(br, c.Method)
		for rep.Err == nil && rep.Status >= 100 && rep.Status < 200 {
			rep = Read(br, c.Method)
		}
		*got = append(*got, rep)
		if rep.Err != nil {
			return ""
		}
		if rep.Header.Get("Connection") == "close" || c.Old && rep.Header.Get("Connection") != "keep-alive" {
			return ""
		}
	}
	return ""
}

type slowReader struct{ c net.Conn }

func (s slowReader) Read(b []byte) (int, error) {
	time.Sleep(200 * time.Microsecond)
	if len(b) > 900 {
		b = b[:900]
	}
	return s.c.Read(b)
}

// GenWire draws a scenario.
func GenWire(rt *rapid.T) Wire {
	var sc Wire
	sc.AE = rapid.SampledFrom([]string{"", "", "gzip", "identity"}).Draw(rt, "ae")
	sc.Marker = rapid.Bool().Draw(rt, "marker")
	for _, x := range []string{"User-Agent: x", "Accept: */*", "Cookie: a=b", "X-Forwarded-For: 9.9.9.9"} {
		if rapid.IntRange(0, 4).Draw(rt, "has") == 0 {
			sc.Extra = append(sc.Extra, x)
		}
	}
	paths := []string{"/w/a", "/w/b", "/w/a?x=1", "/w/a?x=2", "/w/%61b", "/w/a%2Fb", "/w/a/b"}
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "res")
	off := rapid.IntRange(0, len(paths)-1).Draw(rt, "off")
	for i := 0; i < n; i++ {
		r := WRes{Path: paths[(off+i)%len(paths)]}
		r.Status = rapid.SampledFrom([]int{200, 200, 200, 200, 203, 204, 301, 404, 410, 500, 302, 299}).Draw(rt, "status")
		r.CC = rapid.SampledFrom([]string{"max-age=1000", "max-age=1000", "max-age=1000", "public, max-age=1000", "max-age=0", "no-cache", "private", "no-store"}).Draw(rt, "cc")
		for _, x := range []string{"Content-Type: text/x-verif; a=b", "Set-Cookie: a=1", "Set-Cookie: b=2; Path=/", "Vary: Accept", "Warning: 299 - \"x\"", "X-Empty:", "X-Two: a", "X-Two: b, c", "Link: <x>; rel=\"y\"",
			"Location: http://elsewhere/%41?q=%20", "Last-Modified: Mon, 02 Jan 2006 15:04:05 GMT", "Server: origin", "X-Big: " + strings.Repeat("v", 5000), "Content-Language: de", "Keep-Alive: timeout=5", "Via: 1.1 other", "Date-X: 1", "Content-Disposition: attachment; filename=\"\xe4\""} {
			if rapid.IntRange(0, 3).Draw(rt, "line") == 0 {
				r.Lines = append(r.Lines, x)
			}
		}
		r.Len = rapid.SampledFrom([]int{0, 1, 2, 511, 512, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32768, 65536, 70001, 300000}).Draw(rt, "len")
		if rapid.IntRange(0, 39).Draw(rt, "large") == 0 {
			r.Len = rapid.SampledFrom([]int{1048576, 1500000, 2097153}).Draw(rt, "biglen")
		}
		r.Frame = rapid.SampledFrom([]string{"len", "len", "chunked", "chunked", "close"}).Draw(rt, "frame")
		r.Old = rapid.IntRange(0, 5).Draw(rt, "old") == 0
		r.Seg = rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(rt, "seg")
		if r.Seg > 0 && rapid.IntRange(0, 24).Draw(rt, "pauses") == 0 {
			r.Pause = rapid.SampledFrom([]int{20, 400 / r.Seg}).Draw(rt, "pause")
		}
		r.Gzip = rapid.IntRange(0, 3).Draw(rt, "gzip") == 0
		r.Hints = rapid.IntRange(0, 7).Draw(rt, "hints") == 0
		r.Hop = rapid.IntRange(0, 7).Draw(rt, "hop") == 0
		r.NoDate = rapid.IntRange(0, 7).Draw(rt, "nodate") == 0
		sc.Res = append(sc.Res, r)
	}
	for i, m := 0, rapid.IntRange(1, 4).Draw(rt, "groups"); i < m; i++ {
		var g []WCl
		plain := rapid.Bool().Draw(rt, "plain")
		for j, k := 0, rapid.SampledFrom([]int{1, 2, 3, 5, 8}).Draw(rt, "size"); j < k; j++ {
			c := WCl{Res: rapid.IntRange(0, n-1).Draw(rt, "r"), Method: "GET", N: 1}
			if !plain {
				if rapid.IntRange(0, 3).Draw(rt, "head") == 0 {
					c.Method = "HEAD"
				}
				c.N = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "n")
				c.Pipe = rapid.Bool().Draw(rt, "pipe")
				c.Old = rapid.IntRange(0, 4).Draw(rt, "old") == 0
				c.Slow = rapid.IntRange(0, 4).Draw(rt, "slow") == 0
				c.Leave = rapid.IntRange(0, 7).Draw(rt, "leave") == 0
				switch rapid.IntRange(0, 9).Draw(rt, "special") {
				case 0:
					c.Range = rapid.SampledFrom([]string{"bytes=0-0", "bytes=5-", "bytes=-3", "bytes=0-1,3-4"}).Draw(rt, "range")
				case 1:
					c.None = true
				}
			}
			g = append(g, c)
		}
		sc.Groups = append(sc.Groups, g)
		sc.Hold = append(sc.Hold, rapid.SampledFrom(append(make([]int, 30), 300, 650)).Draw(rt, "hold"))
	}
	return sc
}
