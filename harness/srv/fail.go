package srv

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/server"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Fail is an upstream failure in the middle of a short history.
type Fail struct {
	Kind    string `json:"kind"`
	Method  string `json:"method"`
	Clients int    `json:"clients"`
	Stored  bool   `json:"stored,omitempty"` // a response to revalidate is stored for the resource
	Strict  bool   `json:"strict"`
	Status  int    `json:"status"`
	Len     int    `json:"len"`
	At      int    `json:"at"` // where the failure happens
	Reset   bool   `json:"reset,omitempty"`
	Chunk   int    `json:"chunk,omitempty"`
	After   int    `json:"after,omitempty"` // kind of request after the failure
	Text    string `json:"text,omitempty"`
}

// fault plays the failure after a request has been read.
func (f *Fail) fault(c net.Conn, s *Seen) {
	end := func() {
		if f.Reset {
			time.Sleep(200 * time.Microsecond)
			abort(c)
		} else {
			finish(c)
		}
	}
	body := filler(f.Len, 5)
	head := fmt.Sprintf("HTTP/1.1 %d Reason\r\nCache-Control: max-age=1000\r\nDate: %s\r\nEtag: \"new\"\r\n", f.Status, time.Now().UTC().Format(http.TimeFormat))
	switch f.Kind {
	case "close":
	case "head":
		all := head + fmt.Sprintf("Content-Length: %d\r\n", len(body))
		_, _ = c.Write([]byte(all[:f.At%len(all)]))
	case "garbage":
		_, _ = c.Write([]byte(f.Text))
	case "badfield":
		_, _ = c.Write([]byte(head + f.Text + "\r\n\r\n"))
	case "body":
		all := head + fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))
		_, _ = c.Write(append([]byte(all), body[:f.At%len(body)]...))
	case "chunks":
		var w bytes.Buffer
		for i := 0; i < len(body); i += f.Chunk {
			x := body[i:min(i+f.Chunk, len(body))]
			fmt.Fprintf(&w, "%x\r\n%s\r\n", len(x), x)
		}
		w.WriteString("0\r\n")
		_, _ = c.Write(append([]byte(head+"Transfer-Encoding: chunked\r\n\r\n"), w.Bytes()[:f.At%w.Len()]...))
	case "badchunk":
		_, _ = c.Write([]byte(head + "Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n" + f.Text))
	case "unframed": // the end of the connection ends the body, so only a reset is an error
		_, _ = c.Write(append([]byte(head+"\r\n"), body[:f.At%len(body)]...))
		time.Sleep(2 * time.Millisecond)
		abort(c)
		return
	}
	end()
}

// RunFail judges a failure.
func RunFail(t *testing.T, sc Fail) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runFail(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("failed"), Labels: l.List()}
}

func plainReply(c net.Conn, s *Seen, body string, lines ...string) bool {
	var w bytes.Buffer
	fmt.Fprintf(&w, "HTTP/1.1 200 OK\r\nDate: %s\r\n", time.Now().UTC().Format(http.TimeFormat))
	for _, x := range lines {
		w.WriteString(x + "\r\n")
	}
	fmt.Fprintf(&w, "Content-Length: %d\r\n\r\n", len(body))
	if s.Method != "HEAD" {
		w.WriteString(body)
	}
	_, err := c.Write(w.Bytes())
	return err == nil
}

func runFail(sc *Fail, l *core.Labels) string {
	us, deadAddr := Upstreams()
	up := us[0]
	phase := 0
	var mu sync.Mutex
	up.Script(func(c net.Conn, s *Seen) bool {
		mu.Lock()
		p := phase
		mu.Unlock()
		switch {
		case s.URI == "/other":
			return plainReply(c, s, "other", "Cache-Control: max-age=1000")
		case p == 0:
			return plainReply(c, s, "stored before", "Cache-Control: no-cache, max-age=1000", "Etag: \"old\"")
		case p == 1:
			sc.fault(c, s)
			return false
		}
		if s.Header.Get("If-None-Match") != "" {
			_, err := c.Write([]byte("HTTP/1.1 304 Not Modified\r\nEtag: \"old\"\r\n\r\n"))
			return err == nil
		}
		return plainReply(c, s, "fine again", "Cache-Control: max-age=1000")
	})
	defer up.CloseConns()
	setPhase := func(p int) { mu.Lock(); phase = p; mu.Unlock() }
	cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: sc.Strict}, API: &config.API{},
		Upstreams: config.Upstreams{{Name: "d", Addr: "http://" + deadAddr, Path: "/dead"}, {Name: "u", Addr: "http://" + up.Addr, Path: "/"}}}
	st, err := NewStack(cfg)
	if err != nil {
		return "cannot start: " + err.Error()
	}
	TheFront().Use(st.Srv)
	addr := TheFront().Addr
	target := "/r"
	if sc.Kind == "refuse" {
		target = "/dead/r"
	}
	stored := sc.Stored && sc.Strict && sc.Kind != "refuse"
	if r := Get(addr, "/other"); r.Status != 200 {
		return fmt.Sprintf("priming: %+v", r)
	}
	if stored {
		if r := Get(addr, target); r.Status != 200 || r.Body != "stored before" {
			return fmt.Sprintf("priming: %+v", r)
		}
	}
	keys := fmt.Sprint(core.SortedKeys(set(st.Prov.Keys(context.Background(), ""))))
	setPhase(1)
	raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: front\r\nConnection: close\r\n", sc.Method, target)
	if sc.Method == "POST" {
		raw += "Content-Length: 4\r\n\r\nbody"
	} else {
		raw += "\r\n"
	}
	reps := make([]Reply, sc.Clients)
	var wg sync.WaitGroup
	for i := range reps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reps[i] = Do(addr, []byte(raw), sc.Method, 25*time.Second)
		}()
	}
	wg.Wait()
	what := fmt.Sprintf("%s %s, failure %+v", sc.Method, target, *sc)
	for i, r := range reps {
		if r.Err != nil {
			if ne, ok := r.Err.(net.Error); ok && ne.Timeout() {
				return fmt.Sprintf("%s: client %d got no answer", what, i)
			}
			l.Add("broken-off")
			continue
		}
		if r.Status < 500 {
			return fmt.Sprintf("%s: client %d got a complete response with status %d and %d bytes: %q", what, i, r.Status, len(r.Body), trunc(r.Body))
		}
		l.Add(fmt.Sprint("status-", r.Status))
	}
	l.Add("failed", "kind-"+sc.Kind)
	if sc.Clients > 1 {
		l.Add("concurrent")
	}
	now := fmt.Sprint(core.SortedKeys(set(st.Prov.Keys(context.Background(), ""))))
	if now != keys {
		return fmt.Sprintf("%s: stored keys changed from %s to %s", what, keys, now)
	}
	// the other entry is still usable
	n := up.Count()
	if r := Get(addr, "/other"); r.Status != 200 || r.Body != "other" || up.Count() != n {
		return fmt.Sprintf("%s: another stored response is not used afterwards: %d %q", what, r.Status, r.Body)
	}
	if sc.Kind == "refuse" {
		return ""
	}
	// and the next request tries afresh
	setPhase(2)
	up.CloseConns()
	r := Get(addr, target)
	seen := up.Seen()[n:]
	if len(seen) != 1 {
		return fmt.Sprintf("%s: the next request made %d contacts and got %d %q", what, len(seen), r.Status, r.Body)
	}
	inm := seen[0].Header.Get("If-None-Match")
	if stored {
		l.Add("stored")
		if inm != "\"old\"" {
			return fmt.Sprintf("%s: the next request revalidates with %q instead of the stored response's validator", what, inm)
		}
		if r.Status != 200 || r.Body != "stored before" {
			return fmt.Sprintf("%s: after successful revalidation the client got %d %q, error %v", what, r.Status, trunc(r.Body), r.Err)
		}
	} else {
		if inm != "" || seen[0].Header.Get("If-Modified-Since") != "" {
			return fmt.Sprintf("%s: the next request is conditional although nothing is stored", what)
		}
		if r.Status != 200 || r.Body != "fine again" {
			return fmt.Sprintf("%s: the next request got %d %q, error %v", what, r.Status, trunc(r.Body), r.Err)
		}
	}
	return ""
}

func set(k []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range k {
		m[x] = true
	}
	return m
}

func trunc(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// GenFail draws a failure.
func GenFail(rt *rapid.T) Fail {
	f := Fail{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "HEAD"}).Draw(rt, "method")}
	kinds := []string{"refuse", "close", "head", "garbage", "badfield", "body", "body", "chunks", "chunks", "badchunk", "unframed"}
	if f.Method == "HEAD" {
		kinds = []string{"refuse", "close", "head", "garbage"}
	}
	f.Kind = rapid.SampledFrom(kinds).Draw(rt, "kind")
	f.Clients = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 5}).Draw(rt, "clients")
	f.Stored = rapid.Bool().Draw(rt, "stored")
	f.Strict = rapid.IntRange(0, 3).Draw(rt, "strict") > 0
	f.Status = rapid.SampledFrom([]int{200, 200, 200, 203, 301, 404, 410}).Draw(rt, "status")
	f.Len = rapid.SampledFrom([]int{1, 2, 10, 1000, 5000, 40000, 100000}).Draw(rt, "len")
	f.At = rapid.IntRange(0, 200000).Draw(rt, "at")
	if rapid.IntRange(0, 3).Draw(rt, "late") == 0 {
		f.At = f.Len - 1 // just before the end
	}
	f.Reset = rapid.IntRange(0, 2).Draw(rt, "reset") == 0
	f.Chunk = rapid.SampledFrom([]int{1, 7, 1000, 4096, 100000}).Draw(rt, "chunk")
	if f.Len/f.Chunk > 3000 {
		f.Chunk = 1000
	}
	switch f.Kind {
	case "garbage":
		f.Text = rapid.SampledFrom([]string{"garbage\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "HTTP/one 200 OK\r\n\r\n", "\r\n\r\n", "SSH-2.0-OpenSSH\r\n", "\x16\x03\x01\x02\x00\x01\x00", "HTTP/1.1 -200 OK\r\n\r\n", "<html>oops</html>"}).Draw(rt, "text")
	case "badfield":
		f.Text = rapid.SampledFrom([]string{"no colon", "Content-Length: abc", "Content-Length: -5", "Content-Length: 5\r\nContent-Length: 6", "Bad Name: x\r\nContent-Length: 0 5", "Transfer-Encoding: rot13", ": empty", "Content-Length: 5,6", "Content-Length: 99999999999999999999"}).Draw(rt, "text")
	case "badchunk":
		f.Text = rapid.SampledFrom([]string{"zz\r\nabc\r\n0\r\n\r\n", "-3\r\nabc\r\n0\r\n\r\n", "3\r\nabcd\r\n0\r\n\r\n", "3abc\r\n0\r\n\r\n", "\r\n\r\n", "fffffffffffffffff\r\nabc", "5\r\nabc\r\n0\r\n\r\n"}).Draw(rt, "text")
	}
	return f
}

// Stall is a set of clients whose upstream stops answering.
type Stall struct {
	Kinds []string `json:"kinds"`
}

// RunStall judges stalls; the whole set takes as long as the server's timeout.
func RunStall(t *testing.T, sc Stall) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runStall(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: true, Labels: l.List()}
}

func runStall(sc *Stall, l *core.Labels) string {
	us, _ := Upstreams()
	up := us[0]
	done := make(chan bool)
	good := false
	var mu sync.Mutex
	up.Script(func(c net.Conn, s *Seen) bool {
		mu.Lock()
		g := good
		mu.Unlock()
		if g {
			return plainReply(c, s, "fine again", "Cache-Control: max-age=1000")
		}
		switch strings.SplitN(strings.Trim(s.URI, "/"), "/", 2)[0] {
		case "head":
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nCache-Control: max-a"))
		case "body":
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nCache-Control: max-age=1000\r\nContent-Length: 1000\r\n\r\nsome"))
		case "chunks":
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nCache-Control: max-age=1000\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nsome\r\n"))
		}
		<-done
		return false
	})
	defer up.CloseConns()
	var once sync.Once
	release := func() { once.Do(func() { close(done) }) }
	defer release()
	// an upstream that accepts connections and never starts its TLS handshake
	mute, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer mute.Close()
	go func() {
		for {
			c, err := mute.Accept()
			if err != nil {
				return
			}
			defer abort(c)
		}
	}()
	cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}, API: &config.API{}, Upstreams: config.Upstreams{
		{Name: "t", Addr: "https://" + mute.Addr().String(), Path: "/tls"}, {Name: "u", Addr: "http://" + up.Addr, Path: "/"}}}
	st, err := NewStack(cfg)
	if err != nil {
		return "cannot start: " + err.Error()
	}
	TheFront().Use(st.Srv)
	reps := make([]Reply, len(sc.Kinds))
	took := make([]time.Duration, len(sc.Kinds))
	var wg sync.WaitGroup
	for i, k := range sc.Kinds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, p, _ := strings.Cut(k, " ")
			t0 := time.Now()
			reps[i] = Do(TheFront().Addr, []byte(fmt.Sprintf("%s /%s HTTP/1.1\r\nHost: front\r\nConnection: close\r\n\r\n", m, p)), m, server.DefaultTimeout+30*time.Second)
			took[i] = time.Since(t0)
		}()
	}
	wg.Wait()
	for i, r := range reps {
		if ne, ok := r.Err.(net.Error); ok && ne.Timeout() {
			return fmt.Sprintf("%s: no answer from a stalled upstream within %v", sc.Kinds[i], took[i])
		}
		if r.Err == nil && r.Status < 500 {
			return fmt.Sprintf("%s: complete response with status %d and %q from a stalled upstream", sc.Kinds[i], r.Status, trunc(r.Body))
		}
		if r.Err == nil {
			l.Add(fmt.Sprint("status-", r.Status))
		}
	}
	if k := st.Prov.Keys(context.Background(), ""); len(k) > 0 {
		return fmt.Sprintf("stored after stalls: %v", k)
	}
	mu.Lock()
	good = true
	mu.Unlock()
	release()
	up.CloseConns()
	for i, k := range sc.Kinds {
		_, p, _ := strings.Cut(k, " ")
		if strings.HasPrefix(p, "tls") {
			continue
		}
		if r := Get(TheFront().Addr, "/"+p); r.Status != 200 || r.Body != "fine again" {
			return fmt.Sprintf("%s: the next request got %d %q, error %v", sc.Kinds[i], r.Status, trunc(r.Body), r.Err)
		}
	}
	return ""
}

// GenStall draws a set of stalls.
func GenStall(rt *rapid.T) Stall {
	s := Stall{}
	for i := 0; i < rapid.IntRange(3, 10).Draw(rt, "n"); i++ {
		k := rapid.SampledFrom([]string{"GET none", "GET head", "GET body", "GET chunks", "POST body", "POST none", "POST chunks", "GET tls", "POST tls"}).Draw(rt, "kind")
		if rapid.Bool().Draw(rt, "own") {
			k += fmt.Sprintf("/%d", i)
		}
		s.Kinds = append(s.Kinds, k)
	}
	return s
}
