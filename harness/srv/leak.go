package srv

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Leak is a history of requests, in groups of concurrent ones.
type Leak struct {
	Strict bool     `json:"strict"`
	Groups [][]LReq `json:"groups"`
}

// LReq is a request: what the upstream does with it and what the client does.
type LReq struct {
	Up     string `json:"up"`
	N      int    `json:"n"`
	Method string `json:"method"`
	Line   string `json:"line,omitempty"`
	Body   int    `json:"body,omitempty"`
	Client string `json:"client"`       // full, leave, mid, half
	At     int    `json:"at,omitempty"` // ms or bytes
	Keep   int    `json:"keep,omitempty"`
}

// RunLeak judges what requests leave behind.
func RunLeak(t *testing.T, sc Leak) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runLeak(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: l.Has("left") || l.Has("failed") || l.Has("switched") || l.Has("304"), Labels: l.List()}
}

var leakFaults = []Fail{
	{Kind: "close"}, {Kind: "close", Reset: true}, {Kind: "head", At: 30, Status: 200, Len: 10}, {Kind: "garbage", Text: "nonsense\r\n\r\n"},
	{Kind: "body", Status: 200, Len: 5000, At: 2000}, {Kind: "body", Status: 200, Len: 50, At: 20, Reset: true}, {Kind: "chunks", Status: 200, Len: 500, Chunk: 50, At: 300},
	{Kind: "badchunk", Status: 200, Text: "zz\r\n"},
}

func runLeak(sc *Leak, l *core.Labels) (string, bool) {
	us, _ := Upstreams()
	u := us[0]
	defer u.CloseConns()
	var busy atomic.Int64
	u.Script(func(c net.Conn, s *Seen) bool {
		busy.Add(1)
		defer busy.Add(-1)
		parts := strings.Split(strings.Trim(s.URI, "/"), "/")
		n := 0
		_, _ = fmt.Sscan(parts[1], &n)
		wait := func() { // until the connection ends
			b := make([]byte, 64)
			for {
				if _, err := c.Read(b); err != nil {
					return
				}
			}
		}
		switch parts[0] {
		case "ok":
			return plainReply(c, s, string(filler(n*700, 1)), "Cache-Control: max-age=100", `Etag: "e"`)
		case "slow":
			time.Sleep(time.Duration(3+n) * time.Millisecond)
			return plainReply(c, s, string(filler(n*700, 1)), "Cache-Control: max-age=100")
		case "big":
			return plainReply(c, s, string(filler(700000, 1)), "Cache-Control: no-store")
		case "private":
			time.Sleep(2 * time.Millisecond)
			return plainReply(c, s, string(filler(n*700, 1)), "Cache-Control: private")
		case "check":
			if s.Header.Get("If-None-Match") != "" {
				l.Add("304")
				_, err := fmt.Fprintf(c, "HTTP/1.1 304 Not Modified\r\nDate: %s\r\nEtag: \"e\"\r\n\r\n", time.Now().UTC().Format(http.TimeFormat))
				return err == nil
			}
			return plainReply(c, s, string(filler(n*700, 1)), "Cache-Control: no-cache", `Etag: "e"`)
		case "bare": // a 304 nobody asked for
			_, err := fmt.Fprintf(c, "HTTP/1.1 304 Not Modified\r\nDate: %s\r\n\r\n", time.Now().UTC().Format(http.TimeFormat))
			return err == nil
		case "chunk":
			_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=100\r\nTransfer-Encoding: chunked\r\n\r\n", time.Now().UTC().Format(http.TimeFormat))
			if s.Method != "HEAD" {
				for range n {
					_, _ = fmt.Fprintf(c, "5\r\nabcde\r\n")
				}
				_, err = fmt.Fprintf(c, "0\r\n\r\n")
			}
			return err == nil
		case "unframed":
			_, _ = fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=100\r\nConnection: close\r\n\r\nabc", time.Now().UTC().Format(http.TimeFormat))
			finish(c)
			return false
		case "fault":
			l.Add("failed")
			f := leakFaults[n%len(leakFaults)]
			f.fault(c, s)
			return false
		case "switch": // to another protocol, asked for or not
			if s.Header.Get("Upgrade") == "" && n%2 == 0 {
				return plainReply(c, s, "no upgrade", "Cache-Control: max-age=1")
			}
			time.Sleep(time.Duration(n) * time.Millisecond)
			l.Add("switched")
			_, _ = fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\n")
			wait()
			return false
		case "hang":
			wait()
			return false
		case "stall":
			_, _ = fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=100\r\nContent-Length: 100000\r\n\r\n", time.Now().UTC().Format(http.TimeFormat))
			if s.Method == "HEAD" {
				return true // that was all
			}
			_, _ = c.Write(filler(n*900, 1))
			wait()
			return false
		}
		return false
	})
	cfg := &config.Configuration{Listeners: config.Listeners{}, Upstreams: config.Upstreams{{Name: "u", Addr: "http://" + u.Addr, Path: "/"}},
		HttpCache: &cache.HttpCacheConfig{Strict: sc.Strict, XCache: true}, API: &config.API{}}
	st, err := NewStack(cfg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	f := TheFront()
	f.Use(st.Srv)
	slots := 1
	for _, g := range sc.Groups {
		slots = max(slots, len(g))
		var wg sync.WaitGroup
		for _, r := range g {
			wg.Add(1)
			go func() { defer wg.Done(); r.run(f.Addr, l) }()
		}
		wg.Wait()
	}
	// at rest
	settle := func(ok func() bool) bool {
		for end := time.Now().Add(8 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			if ok() {
				return true
			}
		}
		return ok()
	}
	if !settle(func() bool { return busy.Load() == 0 }) {
		return fmt.Sprintf("all clients are gone, but %d requests are still open at the upstream\n%s", busy.Load(), kacheStacks()), false
	}
	open := func() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.conns) }
	if !settle(func() bool { return open() <= 2+slots }) {
		return fmt.Sprintf("all clients are gone, but %d connections to the upstream are open (never more than %d requests at a time)", open(), slots), false
	}
	if !settle(func() bool { return kacheStacks() == "" }) {
		u.CloseConns()
		return fmt.Sprintf("all clients are gone, but there are still threads at work\n%s", kacheStacks()), false
	}
	// everything still works
	seen := map[string]bool{}
	for _, g := range sc.Groups {
		for _, r := range g {
			if r.Up == "hang" || r.Up == "stall" || r.Up == "fault" || r.Up == "bare" || r.Up == "switch" || seen[r.target()] || len(seen) > 5 {
				continue
			}
			seen[r.target()] = true
			if p := Get(f.Addr, r.target()); p.Err != nil || p.Status != 200 {
				return fmt.Sprintf("at the end GET %s: %d %v", r.target(), p.Status, p.Err), false
			}
		}
	}
	return "", false
}

// kacheStacks returns the stacks of the threads in the code under test.
func kacheStacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	var out []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, "github.com/kacheio/kache/") && !strings.Contains(s, "verif/harness/srv.kacheStacks") {
			out = append(out, s)
		}
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return strings.Join(out, "\n\n")
}

func (r *LReq) target() string { return fmt.Sprintf("/%s/%d", r.Up, r.N) }

func (r *LReq) run(addr string, l *core.Labels) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer abort(c)
	_ = c.SetDeadline(time.Now().Add(20 * time.Second))
	for i := 0; i <= r.Keep; i++ {
		raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: front\r\n", r.Method, r.target())
		if r.Line != "" {
			raw += r.Line + "\r\n"
		}
		body := string(filler(r.Body, 3))
		if r.Body > 0 {
			raw += fmt.Sprintf("Content-Length: %d\r\n", r.Body)
		}
		raw += "\r\n" + body
		if r.Client == "half" {
			raw = raw[:r.At%len(raw)]
		}
		if _, err := c.Write([]byte(raw)); err != nil {
			return
		}
		switch r.Client {
		case "half":
			l.Add("left")
			return
		case "leave":
			time.Sleep(time.Duration(r.At) * time.Millisecond)
			l.Add("left")
			return
		case "mid":
			_ = c.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
			_, _ = io.CopyN(io.Discard, c, int64(r.At))
			l.Add("left")
			return
		}
		if p := Read(bufio.NewReader(c), r.Method); p.Err != nil {
			return
		}
	}
}

// GenLeak draws a history.
func GenLeak(rt *rapid.T) Leak {
	sc := Leak{Strict: rapid.IntRange(0, 4).Draw(rt, "strict") > 0}
	for i, n := 0, rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(rt, "groups"); i < n; i++ {
		var g []LReq
		one := rapid.Bool().Draw(rt, "one") // the same resource for all
		var up string
		var num int
		for j, m := 0, rapid.SampledFrom([]int{1, 1, 2, 4, 6}).Draw(rt, "size"); j < m; j++ {
			if j == 0 || !one {
				up = rapid.SampledFrom([]string{"ok", "ok", "slow", "slow", "big", "private", "check", "check", "bare", "chunk", "unframed", "fault", "fault", "hang", "hang", "stall", "stall", "switch"}).Draw(rt, "up")
				num = rapid.IntRange(0, 8).Draw(rt, "n")
			}
			r := LReq{Up: up, N: num}
			r.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "HEAD", "POST"}).Draw(rt, "method")
			if r.Method == "POST" {
				r.Body = rapid.SampledFrom([]int{0, 10, 100000}).Draw(rt, "body")
			}
			r.Line = rapid.SampledFrom([]string{"", "", "", "", "Authorization: x", "Range: bytes=0-1", "Cache-Control: no-cache", "Cache-Control: no-store", "If-None-Match: \"e\""}).Draw(rt, "line")
			if up == "switch" && rapid.IntRange(0, 2).Draw(rt, "upgrade") > 0 {
				r.Line = rapid.SampledFrom([]string{"Connection: Upgrade\r\nUpgrade: websocket", "Upgrade: h2c\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\nConnection: Upgrade, HTTP2-Settings"}).Draw(rt, "protocol")
			}
			if up == "hang" || up == "stall" {
				r.Client = rapid.SampledFrom([]string{"leave", "leave", "mid", "half"}).Draw(rt, "client")
			} else {
				r.Client = rapid.SampledFrom([]string{"full", "full", "full", "leave", "mid", "half"}).Draw(rt, "client")
			}
			switch r.Client {
			case "half":
				r.At = rapid.IntRange(0, 200).Draw(rt, "at")
			case "mid":
				r.At = rapid.SampledFrom([]int{1, 10, 200, 4000, 100000}).Draw(rt, "at")
			case "leave":
				r.At = rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(rt, "at")
			default:
				r.Keep = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "keep")
			}
			g = append(g, r)
		}
		sc.Groups = append(sc.Groups, g)
	}
	return sc
}
