// Package clus checks the cluster message queue and broadcasting.
package clus

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/cluster"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"

	"verif/harness/core"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

// Try says what the destination does with an attempt.
type Try struct {
	Do     string `json:"do"` // status cutbody refuse dialhang close half hang hangbody
	Status int    `json:"status,omitempty"`
	Delay  int    `json:"delay,omitempty"` // ms before
	Body   int    `json:"body,omitempty"`  // length of the response body
	Slow   int    `json:"slow,omitempty"`  // ms between head and body
	Close  bool   `json:"close,omitempty"` // the destination ends the connection after the response
}

func (y Try) good() bool {
	return y.Do == "cutbody" || y.Do == "hangbody" || y.Do == "status" && y.Status < 400
}

// Msg is a queued message.
type Msg struct {
	Gap    int               `json:"gap,omitempty"` // ms before it is queued
	Method string            `json:"method"`
	Path   string            `json:"path"`
	Header map[string]string `json:"header,omitempty"`
	Body   int               `json:"body"` // length
	Reader string            `json:"reader"`
	Tries  []Try             `json:"tries"` // the last one repeats
}

// QueueCase is a history of a queue.
type QueueCase struct {
	Size    int   `json:"size"`
	Workers int   `json:"workers"`
	Retries int   `json:"retries"`
	Backoff int   `json:"backoff"` // ms
	Msgs    []Msg `json:"msgs"`
	Stop    int   `json:"stop,omitempty"` // ms after the start, 0: after everything is done
}

type attempt struct {
	what        Try
	start       time.Time
	head        time.Time // when the outcome was known to the sender
	end         time.Time
	over        bool
	method, uri string
	header      http.Header
	host, body  string
	bodyErr     error
}

type dest struct {
	mu  sync.Mutex
	msg Msg
	got []*attempt
}

// next claims the next attempt.
func (d *dest) next() *attempt {
	d.mu.Lock()
	defer d.mu.Unlock()
	k := min(len(d.got), len(d.msg.Tries)-1)
	a := &attempt{what: d.msg.Tries[k], start: time.Now()}
	d.got = append(d.got, a)
	return a
}

func (d *dest) peek() Try {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.msg.Tries[min(len(d.got), len(d.msg.Tries)-1)]
}

func (d *dest) finish(a *attempt) {
	d.mu.Lock()
	defer d.mu.Unlock()
	a.end, a.over = time.Now(), true
	if a.head.IsZero() {
		a.head = a.end
	}
}

func (d *dest) done(limit int) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := len(d.got)
	if n == 0 || !d.got[n-1].over {
		return false
	}
	return d.got[n-1].what.good() || n >= limit
}

type world struct {
	dests []*dest
	wg    sync.WaitGroup
	mu    sync.Mutex
	conns []net.Conn
	quit  chan struct{}
}

func (w *world) dial(_ context.Context, _, addr string) (net.Conn, error) {
	host, _, _ := strings.Cut(addr, ":")
	i, err := strconv.Atoi(strings.TrimPrefix(host, "m"))
	if err != nil || i >= len(w.dests) {
		return nil, errors.New("unknown host " + addr)
	}
	d := w.dests[i]
	switch t := d.peek(); t.Do {
	case "refuse", "dialhang":
		a := d.next()
		defer d.finish(a)
		wait := time.Duration(t.Delay) * time.Millisecond
		if t.Do == "dialhang" {
			// The transport lets a connection attempt go on after the request has given up, so
			// that it is not known here when that was.
			d.mu.Lock()
			a.head = a.start
			d.mu.Unlock()
			wait = 30 * time.Second
		}
		select {
		case <-time.After(wait):
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
		case <-w.quit:
			return nil, errors.New("the end")
		}
	}
	c, s := net.Pipe()
	w.mu.Lock()
	w.conns = append(w.conns, s)
	w.mu.Unlock()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		defer s.Close()
		w.serve(d, s)
	}()
	return c, nil
}

func (w *world) serve(d *dest, c net.Conn) {
	br := bufio.NewReader(c)
	for {
		if _, err := br.Peek(1); err != nil {
			return
		}
		t := d.peek()
		a := d.next()
		a.what = t
		if t.Do == "refuse" || t.Do == "dialhang" { // on a connection that is already there
			a.what.Do = "close"
			t = a.what
		}
		r, err := http.ReadRequest(br)
		if err != nil {
			d.mu.Lock()
			a.bodyErr = err
			d.mu.Unlock()
			d.finish(a)
			return
		}
		b, err := io.ReadAll(r.Body)
		d.mu.Lock()
		a.method, a.uri, a.header, a.host, a.body, a.bodyErr = r.Method, r.RequestURI, r.Header, r.Host, string(b), err
		d.mu.Unlock()
		time.Sleep(time.Duration(t.Delay) * time.Millisecond)
		head := func() { d.mu.Lock(); a.head = time.Now(); d.mu.Unlock() }
		switch t.Do {
		case "status":
			var h bytes.Buffer
			fmt.Fprintf(&h, "HTTP/1.1 %d X\r\n", t.Status)
			if t.Close {
				h.WriteString("Connection: close\r\n")
			}
			if t.Status != 204 {
				fmt.Fprintf(&h, "Content-Length: %d\r\n", t.Body)
			}
			h.WriteString("\r\n")
			head()
			_, _ = c.Write(h.Bytes())
			if t.Body > 0 && t.Status != 204 {
				time.Sleep(time.Duration(t.Slow) * time.Millisecond)
				_, _ = c.Write(bytes.Repeat([]byte("r"), t.Body))
			}
			d.finish(a)
			if t.Close {
				return
			}
		case "cutbody":
			head()
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc"))
			d.finish(a)
			return
		case "hangbody":
			head()
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc"))
			_, _ = io.Copy(io.Discard, br)
			d.finish(a)
			return
		case "half":
			_, _ = c.Write([]byte("HTTP/1.1 20"))
			d.finish(a)
			return
		case "hang":
			_, _ = io.Copy(io.Discard, br)
			d.finish(a)
			return
		default: // close
			d.finish(a)
			return
		}
	}
}

// body is the body of a message.
func body(i, n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte('a' + (i*7+k*k+k/26)%26)
	}
	return string(b)
}

// RunQueue judges a history of a queue.
func RunQueue(t *testing.T, c QueueCase) core.Result {
	l := &core.Labels{}
	v := ""
	if d := core.Bubble(t, func() {
		if g := core.Guard(func() { v = runQueue(&c, l) }); g != "" {
			v = g
		}
	}); d != "" && v == "" {
		v = "deadlock: " + d
	}
	return core.Result{Violation: v, NonTrivial: l.Has("retried"), Labels: l.List()}
}

// patience bounds how long a message may keep a worker whose destination does not answer.
const patience = 5 * time.Minute

func runQueue(c *QueueCase, l *core.Labels) string {
	w := &world{quit: make(chan struct{})}
	for _, m := range c.Msgs {
		w.dests = append(w.dests, &dest{msg: m})
	}
	tr := &http.Transport{DialContext: w.dial}
	old := http.DefaultTransport
	http.DefaultTransport = tr
	defer func() { http.DefaultTransport = old }()

	start := time.Now()
	q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: c.Size, MaxWorkers: c.Workers,
		MaxRetries: c.Retries, Backoff: time.Duration(c.Backoff) * time.Millisecond})
	ready := make([]time.Time, len(c.Msgs))
	stopped := make(chan struct{})
	var mu sync.Mutex
	prod := make(chan struct{})
	go func() {
		defer close(prod)
		for i, m := range c.Msgs {
			var rd io.Reader
			b := body(i, m.Body)
			switch m.Reader {
			case "reader":
				rd = strings.NewReader(b)
			case "plain":
				rd = io.NopCloser(bytes.NewBufferString(b))
			}
			req, err := http.NewRequest(m.Method, fmt.Sprintf("http://m%d%s", i, m.Path), rd)
			if err != nil {
				panic("harness: " + err.Error())
			}
			for k, v := range m.Header {
				req.Header.Set(k, v)
			}
			req.Host = "origin.test"
			select {
			case <-time.After(time.Duration(m.Gap) * time.Millisecond):
			case <-stopped:
				return
			}
			mu.Lock()
			ready[i] = time.Now()
			mu.Unlock()
			select {
			case q.Queue <- cluster.Message{Request: req}:
				mu.Lock()
				ready[i] = time.Now()
				mu.Unlock()
			case <-stopped:
				return
			}
		}
	}()

	limit := max(1, c.Retries)
	deadline := time.Duration(len(c.Msgs)) * time.Duration(limit) * (patience + time.Duration(c.Backoff)*time.Millisecond + time.Minute)
	early := c.Stop > 0
	if early {
		time.Sleep(time.Duration(c.Stop) * time.Millisecond)
		l.Add("stopped-early")
	} else {
		for time.Since(start) < deadline {
			all := true
			for _, d := range w.dests {
				all = all && d.done(limit)
			}
			if all {
				break
			}
			time.Sleep(time.Second)
		}
		// time for what should not come
		time.Sleep(time.Duration(3*c.Backoff)*time.Millisecond + time.Minute)
	}
	returned := make(chan time.Time, 1)
	busy := false
	for _, d := range w.dests {
		d.mu.Lock()
		if n := len(d.got); n > 0 && !d.got[n-1].over {
			busy = true
		}
		d.mu.Unlock()
	}
	go func() { q.Stop(); returned <- time.Now() }()
	asked := time.Now()
	close(stopped)
	v := ""
	var back time.Time
	select {
	case back = <-returned:
		if !busy && len(q.Queue) == 0 && back.Sub(asked) > 2*time.Duration(c.Backoff)*time.Millisecond+patience {
			v = fmt.Sprintf("stopping an idle queue took %v", back.Sub(asked))
		}
		if busy {
			l.Add("stopped-busy")
		}
	case <-time.After(time.Duration(c.Size+c.Workers+10) * 2 * patience):
		v = "stopping the queue does not terminate"
	}
	if v == "" {
		time.Sleep(time.Duration(5*c.Backoff)*time.Millisecond + time.Minute)
		synctest.Wait()
		for i, d := range w.dests {
			d.mu.Lock()
			for _, a := range d.got {
				if a.start.After(back) {
					v = fmt.Sprintf("message %d is sent after the queue has stopped", i)
				}
			}
			d.mu.Unlock()
		}
	}
	if v == "" {
		v = judgeQueue(c, w, ready, early, limit, asked, l)
	}
	// tear down
	close(w.quit)
	tr.CloseIdleConnections()
	w.mu.Lock()
	for _, s := range w.conns {
		_ = s.Close()
	}
	w.mu.Unlock()
	<-prod
	go func() { // whatever still waits for the queue
		for {
			select {
			case <-q.Queue:
			case <-time.After(patience):
				return
			}
		}
	}()
	w.wg.Wait()
	time.Sleep(3 * patience)
	tr.CloseIdleConnections()
	return v
}

func judgeQueue(c *QueueCase, w *world, ready []time.Time, early bool, limit int, asked time.Time, l *core.Labels) string {
	backoff := time.Duration(c.Backoff) * time.Millisecond
	slack := backoff/20 + 10*time.Millisecond
	type span struct{ a, b time.Time }
	var spans []span
	for _, d := range w.dests {
		for _, a := range d.got {
			s := span{a.start, a.end}
			if !a.over {
				s.b = time.Now()
			}
			spans = append(spans, s)
		}
	}
	// workers busy during the whole of (from, to)
	busy := func(from, to time.Time) bool {
		cuts := []time.Time{from}
		for _, s := range spans {
			for _, x := range []time.Time{s.a, s.b} {
				if x.After(from) && x.Before(to) {
					cuts = append(cuts, x)
				}
			}
		}
		slices.SortFunc(cuts, time.Time.Compare)
		for i, x := range cuts {
			y := to
			if i+1 < len(cuts) {
				y = cuts[i+1]
			}
			mid := x.Add(y.Sub(x) / 2)
			n := 0
			for _, s := range spans {
				if s.a.Before(mid) && s.b.After(mid) {
					n++
				}
			}
			if y.Sub(x) > time.Millisecond && n < c.Workers {
				return false
			}
		}
		return true
	}
	for i, d := range w.dests {
		m := d.msg
		what := fmt.Sprintf("message %d", i)
		for k, a := range d.got {
			if a.what.Do == "hang" || a.what.Do == "dialhang" || a.what.Do == "hangbody" {
				l.Add("hang")
				if e := a.end.Sub(a.start); a.over && e > patience || !a.over && time.Since(a.start) > patience {
					return what + ": a destination that does not answer occupies a worker without end"
				}
			}
			if a.bodyErr != nil {
				return fmt.Sprintf("%s, attempt %d: an incomplete request: %v", what, k+1, a.bodyErr)
			}
			if a.method != "" {
				if a.method != m.Method || a.uri != m.Path || a.host != "origin.test" {
					return fmt.Sprintf("%s, attempt %d: sent as %s %s to %s", what, k+1, a.method, a.uri, a.host)
				}
				want := ""
				if m.Reader != "none" {
					want = body(i, m.Body)
				}
				if a.body != want {
					return fmt.Sprintf("%s, attempt %d: the body has %d bytes (%.20q) instead of %d (%.20q)", what, k+1, len(a.body), a.body, len(want), want)
				}
				for h, v := range m.Header {
					if a.header.Get(h) != v {
						return fmt.Sprintf("%s, attempt %d: header %s is %q instead of %q", what, k+1, h, a.header.Get(h), v)
					}
				}
			}
			l.Add(a.what.Do)
			due := ready[i]
			late := due
			if k > 0 {
				p := d.got[k-1]
				if p.what.good() {
					return fmt.Sprintf("%s: sent again after attempt %d succeeded (%s %d)", what, k, p.what.Do, p.what.Status)
				}
				if k >= limit {
					return fmt.Sprintf("%s: %d attempts, %d configured", what, len(d.got), c.Retries)
				}
				l.Add("retried")
				if p.what.Do != "refuse" && m.Body > 0 {
					l.Add("retried-body")
				}
				due, late = p.head.Add(backoff), p.end.Add(backoff)
				if a.start.Before(due) {
					return fmt.Sprintf("%s: attempt %d comes %v after the failure, the pause is %v", what, k+1, a.start.Sub(p.head), backoff)
				}
			}
			if a.start.After(late.Add(slack)) && !a.start.After(asked) {
				l.Add("queued")
				if !busy(late.Add(slack), a.start) {
					return fmt.Sprintf("%s: attempt %d starts %v late although a worker is free", what, k+1, a.start.Sub(late))
				}
			}
		}
		if !early && !d.done(limit) {
			return fmt.Sprintf("%s: neither delivered nor given up after %d of %d attempts", what, len(d.got), limit)
		}
		if early {
			// what was due well before the stop must have been started
			n := len(d.got)
			due := ready[i]
			if n > 0 {
				p := d.got[n-1]
				if !p.over || p.what.good() || n >= limit {
					continue
				}
				due = p.end.Add(backoff)
			}
			if !due.IsZero() && due.Add(slack).Before(asked) && !busy(due.Add(slack), asked) {
				return fmt.Sprintf("%s: attempt %d was due %v before the stop and a worker is free", what, n+1, asked.Sub(due))
			}
		}
	}
	return ""
}

// GenQueue draws a history of a queue.
func GenQueue(rt *rapid.T) QueueCase {
	c := QueueCase{
		Size:    rapid.SampledFrom([]int{0, 1, 2, 5, 30}).Draw(rt, "size"),
		Workers: rapid.SampledFrom([]int{1, 1, 2, 3, 6}).Draw(rt, "workers"),
		Retries: rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(rt, "retries"),
		Backoff: rapid.SampledFrom([]int{1, 100, 1000, 7000}).Draw(rt, "backoff"),
	}
	pct := func(p int) bool { return rapid.IntRange(0, 99).Draw(rt, "pct") < p }
	msgs := rapid.IntRange(1, 8).Draw(rt, "msgs")
	if rapid.IntRange(0, 29).Draw(rt, "large") == 0 {
		msgs = rapid.IntRange(20, 90).Draw(rt, "many")
	}
	for i, n := 0, msgs; i < n; i++ {
		m := Msg{
			Gap:    rapid.SampledFrom([]int{0, 0, 0, 10, 1000, 9000}).Draw(rt, "gap"),
			Method: rapid.SampledFrom([]string{"DELETE", "PUT", "POST", "PATCH"}).Draw(rt, "method"),
			Path:   rapid.SampledFrom([]string{"/", "/api/cache/invalidate", "/x/y?z=1&a=%20", "/a%2Fb"}).Draw(rt, "path"),
			Reader: rapid.SampledFrom([]string{"reader", "plain", "plain", "none"}).Draw(rt, "reader"),
		}
		if m.Reader != "none" {
			m.Body = rapid.SampledFrom([]int{0, 1, 10, 5000, 70000}).Draw(rt, "body")
		}
		if pct(60) {
			m.Header = map[string]string{"X-Purge-Key": rapid.SampledFrom([]string{"/a", "k", "http://x/y?z"}).Draw(rt, "key")}
		}
		for j, k := 0, rapid.IntRange(1, 6).Draw(rt, "tries"); j < k; j++ {
			t := Try{Do: rapid.SampledFrom([]string{"status", "status", "status", "status", "refuse", "refuse", "close", "half", "cutbody", "hang", "dialhang", "hangbody"}).Draw(rt, "do")}
			t.Delay = rapid.SampledFrom([]int{0, 0, 1, 50, 3000}).Draw(rt, "delay")
			if t.Do == "status" {
				t.Status = rapid.SampledFrom([]int{200, 200, 204, 201, 400, 404, 403, 429, 499, 500, 502, 503, 599}).Draw(rt, "status")
				t.Body = rapid.SampledFrom([]int{0, 3, 9000}).Draw(rt, "rbody")
				t.Slow = rapid.SampledFrom([]int{0, 0, 20, 2000}).Draw(rt, "slow")
				t.Close = pct(40)
			}
			m.Tries = append(m.Tries, t)
		}
		for _, t := range m.Tries {
			if t.Do == "refuse" || t.Do == "dialhang" {
				// The transport may dial and then use a connection that became free: a dial would not tell an attempt.
				for j := range m.Tries {
					m.Tries[j].Close = true
				}
			}
		}
		c.Msgs = append(c.Msgs, m)
	}
	if rapid.IntRange(0, 9).Draw(rt, "early") == 9 {
		c.Stop = rapid.SampledFrom([]int{1, 60, 1500, 9000, 40000}).Draw(rt, "stop")
	}
	return c
}
