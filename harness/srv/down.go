package srv

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Down has an instance stopped while it is used.
type Down struct {
	Listeners int       `json:"listeners"`
	Auto      bool      `json:"auto,omitempty"`
	Clients   []DClient `json:"clients"`
	Signals   []DSig    `json:"signals"`
}

// DClient is a client.
//
// held: the upstream has the request and answers when no listener accepts connections any more.
// begun: as held, with a part of the response sent before. post: as held, the rest of the request body
// is sent then. idle: an open connection between requests. silent: an open connection before the first.
// partial: the rest of the head is sent then. race: sent at about the time of the signal.
// stall: the upstream never answers.
type DClient struct {
	Kind   string `json:"kind"`
	L      int    `json:"l"`
	Size   int    `json:"size,omitempty"`
	Chunk  bool   `json:"chunk,omitempty"`
	Pieces int    `json:"pieces,omitempty"`
	Delay  int    `json:"delay,omitempty"` // ms; race: from 30 ms before the signal on
	Reused bool   `json:"reused,omitempty"`
	Store  bool   `json:"store,omitempty"`
}

// DSig is a signal.
type DSig struct {
	Sig int `json:"sig"`
	Gap int `json:"gap"` // ms after the one before
}

var (
	downOnce sync.Once
	downSrv  *httptest.Server
	downFunc atomic.Pointer[http.HandlerFunc]
)

func downUpstream(h http.HandlerFunc) string {
	downOnce.Do(func() {
		downSrv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { (*downFunc.Load())(w, r) }))
	})
	downFunc.Store(&h)
	return downSrv.Listener.Addr().String()
}

// RunDown judges a shutdown.
func RunDown(t *testing.T, sc Down) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runDown(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: l.Has("in-progress"), Labels: l.List()}
}

type downResult struct {
	got   []byte // first bytes read
	reply Reply
	spent time.Duration // since the request was on its way
	must  bool
}

func runDown(sc *Down, l *core.Labels) (string, bool) {
	gate := make(chan struct{})
	end := make(chan struct{})
	var openGate, openEnd sync.Once
	release := func() { openGate.Do(func() { close(gate) }) }
	var inUp sync.WaitGroup
	defer inUp.Wait()
	defer openEnd.Do(func() { close(end) })
	defer release()
	n := len(sc.Clients)
	seen := make([]chan struct{}, n)
	for i := range seen {
		seen[i] = make(chan struct{}, 4)
	}
	up := downUpstream(func(w http.ResponseWriter, r *http.Request) {
		inUp.Add(1)
		defer inUp.Done()
		i := 0
		if _, err := fmt.Sscanf(r.URL.Path, "/c/%d", &i); err != nil || i >= n {
			_, _ = w.Write([]byte("warm"))
			return
		}
		c := sc.Clients[i]
		if c.Store {
			w.Header().Set("Cache-Control", "max-age=60")
		}
		if !c.Chunk && c.Kind != "post" {
			w.Header().Set("Content-Length", fmt.Sprint(c.Size))
		}
		body := filler(c.Size, i)
		if c.Kind == "begun" {
			k := len(body) / 2
			_, _ = w.Write(body[:k])
			body = body[k:]
			w.(http.Flusher).Flush()
		}
		seen[i] <- struct{}{}
		switch c.Kind {
		case "post":
			b, err := io.ReadAll(r.Body)
			if err != nil || string(b) != string(filler(c.Size, i)) {
				w.WriteHeader(500)
				return
			}
		case "stall":
			<-end
			return
		case "race", "partial":
		default:
			select {
			case <-gate:
			case <-end:
				return
			}
			time.Sleep(time.Duration(c.Delay) * time.Millisecond)
		}
		k := c.Pieces
		for ; k > 0 && len(body) > k; k-- {
			p := len(body) / (k + 1)
			_, _ = w.Write(body[:p])
			body = body[p:]
			w.(http.Flusher).Flush()
			time.Sleep(2 * time.Millisecond)
		}
		_, _ = w.Write(body)
	})

	dir, err := os.MkdirTemp("", "verif-down")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	var args []string
	if sc.Auto {
		args = []string{"-config.auto-reload", "-config.watch-interval", "5ms"}
	}
	var p *Proc
	for try := 0; ; try++ {
		ports := Ports(1 + sc.Listeners)
		text := fmt.Sprintf("upstreams:\n- name: u\n  addr: http://%s\n  path: /\nprovider:\n  backend: inmemory\n  inmemory:\n    max_size: 16777216\n    max_item_size: 1048576\napi:\n  port: %d\nlogging:\n  level: debug\n  format: json\nlisteners:\n", up, ports[0])
		var web []string
		for i := 0; i < sc.Listeners; i++ {
			web = append(web, fmt.Sprintf("127.0.0.1:%d", ports[1+i]))
			text += fmt.Sprintf("  web%d:\n    addr: %s\n", i, web[i])
		}
		p = StartProc(os.Getenv("VERIF_BIN_KACHE"), dir, text, args...)
		p.Web = web
		ok := true
		for _, a := range web {
			up := false
			for t := time.Now(); !up && time.Since(t) < 20*time.Second && !p.Exited(); {
				r := Get(a, "/warm")
				if up = r.Err == nil && r.Status == 200; !up {
					time.Sleep(2 * time.Millisecond)
				}
			}
			ok = ok && up
		}
		if ok && !p.Exited() {
			break
		}
		tail, taken := p.Tail(), strings.Contains(p.Output(), "address already in use")
		p.Kill()
		if try > 3 || !taken {
			if taken {
				return "", true
			}
			return "the instance does not start or answer\n" + tail, false
		}
	}
	defer p.Kill()

	// clients
	sig := make(chan struct{})
	res := make([]downResult, n)
	var clients, ready sync.WaitGroup
	for i := range sc.Clients {
		c := &sc.Clients[i]
		addr := p.Web[c.L%len(p.Web)]
		clients.Add(1)
		if c.Kind != "race" {
			ready.Add(1)
		}
		go func() {
			defer clients.Done()
			res[i] = p.client(i, c, addr, seen[i], gate, end, sig, &ready)
		}()
	}
	ready.Wait()
	for i := range res {
		if v := res[i].reply.Err; v != nil {
			return fmt.Sprintf("before the signal: client %d (%s): %v", i, sc.Clients[i].Kind, v), false
		}
	}

	// stop
	close(sig)
	t0 := time.Now().Add(30 * time.Millisecond)
	time.Sleep(time.Until(t0))
	t0 = time.Now()
	p.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[sc.Signals[0].Sig%2])
	go func() {
		for _, s := range sc.Signals[1:] {
			time.Sleep(time.Duration(s.Gap) * time.Millisecond)
			if !p.Exited() {
				p.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[s.Sig%3])
			}
		}
	}()
	holds, stalls := 0, 0
	for _, c := range sc.Clients {
		switch c.Kind {
		case "held", "begun", "post":
			holds++
		case "stall":
			stalls++
		}
	}
	// new connections are refused while requests are in progress
	for _, a := range p.Web {
		for {
			c, err := net.DialTimeout("tcp", a, 2*time.Second)
			if err != nil {
				break
			}
			abort(c)
			if time.Since(t0) > 4*time.Second {
				return fmt.Sprintf("4 seconds after the signal %s still accepts connections, requests in progress: %d", a, holds), false
			}
			time.Sleep(time.Millisecond)
		}
	}
	early := p.Exited()
	refused := time.Since(t0)
	release()
	done := make(chan struct{})
	go func() { clients.Wait(); close(done) }()
	if stalls > 0 {
		l.Add("stalled")
	}
	limit := time.After(time.Until(t0.Add(20 * time.Second)))
	select {
	case <-p.exited:
	case <-limit:
		return fmt.Sprintf("20 seconds after the signal the process has not ended (refused connections after %v)\n%s", refused, p.Tail()), false
	}
	took := time.Since(t0)
	openEnd.Do(func() { close(end) })
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		panic("harness: clients do not end")
	}
	if c := p.state.ExitCode(); c != 0 || p.Crashed() {
		return fmt.Sprintf("the process ends with code %d (%v)\n%s", c, p.state, p.Tail()), false
	}
	if stalls == 0 && took > 12*time.Second {
		return fmt.Sprintf("with no request left the process takes %v to end", took), false
	}
	skip := false
	for i := range res {
		c, r := &sc.Clients[i], &res[i]
		who := fmt.Sprintf("client %d (%s)", i, c.Kind)
		if c.Kind == "idle" || c.Kind == "silent" || c.Kind == "stall" {
			continue
		}
		full := r.reply.Err == nil && r.reply.Status == 200 && r.reply.Body == string(filler(c.Size, i))
		if c.Kind == "post" {
			full = r.reply.Err == nil && r.reply.Status == 200
		}
		if full {
			l.Add(c.Kind + "-complete")
			if r.must {
				l.Add("in-progress")
			}
			continue
		}
		if r.spent > 850*time.Millisecond { // beyond the write timeout of the listeners
			l.Add("slow")
			skip = true
			continue
		}
		if r.must {
			return fmt.Sprintf("%s: a request in progress at the signal is answered with %d, %d of %d bytes, %v after %v (process already gone: %v)", who, r.reply.Status, len(r.reply.Body), c.Size, r.reply.Err, r.spent, early), false
		}
		if len(r.got) > 0 {
			return fmt.Sprintf("%s: a response begun is not completed: %d, %d of %d bytes, %v after %v", who, r.reply.Status, len(r.reply.Body), c.Size, r.reply.Err, r.spent), false
		}
		l.Add(c.Kind + "-refused")
	}
	return "", skip
}

type firstReader struct {
	net.Conn
	got []byte
}

func (f *firstReader) Read(b []byte) (int, error) {
	n, err := f.Conn.Read(b)
	if len(f.got) < 16 {
		f.got = append(f.got, b[:min(n, 16)]...)
	}
	return n, err
}

func (p *Proc) client(i int, c *DClient, addr string, seen, gate, end, sig chan struct{}, ready *sync.WaitGroup) (res downResult) {
	marked := c.Kind == "race"
	mark := func() {
		if !marked {
			marked = true
			ready.Done()
		}
	}
	defer mark()
	if c.Kind == "race" {
		<-sig
		time.Sleep(time.Duration(c.Delay) * time.Millisecond)
	}
	raw, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		if c.Kind != "race" {
			res.reply.Err = err
		}
		return
	}
	defer abort(raw)
	_ = raw.SetDeadline(time.Now().Add(40 * time.Second))
	if c.Kind == "silent" {
		mark()
		<-end
		return
	}
	br := bufio.NewReader(raw)
	if c.Reused || c.Kind == "idle" {
		_, _ = fmt.Fprintf(raw, "GET /warm HTTP/1.1\r\nHost: x\r\n\r\n")
		r := Read(br, "GET")
		if c.Kind != "race" {
			res.reply = r
		}
		if r.Err != nil {
			return
		}
		if c.Kind == "idle" {
			mark()
			<-end
			return
		}
	}
	f := &firstReader{Conn: raw}
	br = bufio.NewReader(f)
	start := time.Now()
	part, rest := fmt.Sprintf("GET /c/%d HTTP/1.1\r\nHost: x\r\nX-A: b\r\n\r\n", i), ""
	method := "GET"
	switch c.Kind {
	case "post":
		method = "POST"
		b := filler(c.Size, i)
		part = fmt.Sprintf("POST /c/%d HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", i, len(b)) + string(b[:len(b)/2])
		rest = string(b[len(b)/2:])
	case "partial":
		part, rest = part[:c.Delay%len(part)], part[c.Delay%len(part):]
	}
	_, err = raw.Write([]byte(part))
	if err == nil && c.Kind != "race" && c.Kind != "partial" {
		select {
		case <-seen:
			res.must = c.Kind != "stall"
		case <-time.After(20 * time.Second):
			res.reply.Err = fmt.Errorf("the request does not reach the upstream")
			return
		}
	}
	mark()
	if rest != "" {
		select {
		case <-gate:
		case <-end:
		}
		_, _ = raw.Write([]byte(rest))
	}
	res.reply = Read(br, method)
	res.spent = time.Since(start)
	res.got = f.got
	return
}

// GenDown draws a shutdown.
func GenDown(rt *rapid.T) Down {
	sc := Down{Listeners: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "listeners"), Auto: rapid.IntRange(0, 3).Draw(rt, "auto") == 0}
	kinds := []string{"held", "held", "held", "begun", "begun", "post", "idle", "silent", "partial", "race", "race", "race"}
	if rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 1}).Draw(rt, "stalls") == 1 {
		kinds = append(kinds, "stall", "stall")
	}
	for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "n"); i < n; i++ {
		c := DClient{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), L: rapid.IntRange(0, 2).Draw(rt, "l"),
			Reused: rapid.Bool().Draw(rt, "reused"), Store: rapid.Bool().Draw(rt, "store"), Chunk: rapid.Bool().Draw(rt, "chunk"),
			Size: rapid.SampledFrom([]int{2, 10, 500, 4000, 5000, 70000, 300000}).Draw(rt, "size"), Pieces: rapid.IntRange(0, 4).Draw(rt, "pieces")}
		switch c.Kind {
		case "held", "begun":
			c.Delay = rapid.SampledFrom([]int{0, 0, 5, 20, 100, 250, 400, 550}).Draw(rt, "delay")
		case "race":
			c.Delay = rapid.IntRange(0, 60).Draw(rt, "delay")
		case "partial":
			c.Delay = rapid.IntRange(1, 40).Draw(rt, "delay")
		}
		sc.Clients = append(sc.Clients, c)
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3, 5}).Draw(rt, "signals"); i < n; i++ {
		sc.Signals = append(sc.Signals, DSig{Sig: rapid.IntRange(0, 2).Draw(rt, "sig"), Gap: rapid.SampledFrom([]int{0, 1, 5, 30, 200}).Draw(rt, "gap")})
	}
	return sc
}
