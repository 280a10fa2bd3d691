package mw

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Threads is a load of identical requests on real threads.
type Threads struct {
	Cached  bool  `json:"cached,omitempty"`
	Clients int   `json:"clients"`
	Rounds  int   `json:"rounds"`
	Keys    int   `json:"keys"`
	Len     int   `json:"len"`
	NoLen   bool  `json:"nolen,omitempty"`
	Delays  []int `json:"delays"` // µs
	Errs    []int `json:"errs,omitempty"`
}

type loadOrigin struct {
	sc   *Threads
	mu   sync.Mutex
	n    int
	open map[string]int
	over string
	hits map[string]int
}

// RoundTrip answers after a while.
func (o *loadOrigin) RoundTrip(req *http.Request) (*http.Response, error) {
	k := req.URL.Path
	o.mu.Lock()
	n := o.n
	o.n++
	o.open[k]++
	o.hits[k]++
	if o.open[k] > 1 {
		o.over = k
	}
	o.mu.Unlock()
	time.Sleep(time.Duration(o.sc.Delays[n%len(o.sc.Delays)]) * time.Microsecond)
	o.mu.Lock()
	o.open[k]--
	o.mu.Unlock()
	for _, e := range o.sc.Errs {
		if n%16 == e {
			return nil, fmt.Errorf("origin error for %s", k)
		}
	}
	b := body(k, o.sc.Len)
	r := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req,
		Header: http.Header{"X-Path": {k}, "Cache-Control": {"max-age=0"}, "X-Multi": {"a", "b"}}, ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b))}
	if o.sc.NoLen {
		r.ContentLength = -1
		r.TransferEncoding = []string{"chunked"}
	}
	return r, nil
}

func body(k string, n int) []byte { return []byte(strings.Repeat(k+"\x00\n", n)) }

// RunThreads checks that identical requests never reach the origin side by side and that every client
// gets a complete response of its own.
func RunThreads(t *testing.T, sc Threads) core.Result {
	o := &loadOrigin{sc: &sc, open: map[string]int{}, hits: map[string]int{}}
	rt := stack(&Sched{Cached: sc.Cached}, o)
	var mu sync.Mutex
	viol := ""
	bad := func(f string, a ...any) {
		mu.Lock()
		if viol == "" {
			viol = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for c := 0; c < sc.Clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < sc.Rounds; i++ {
				k := fmt.Sprintf("/k%d", (c+i)%sc.Keys)
				rq := &Request{Host: "h", Path: k}
				resp, err := rt.RoundTrip(buildReq(context.Background(), rq, c))
				if err != nil {
					if len(sc.Errs) == 0 || !strings.Contains(err.Error(), "origin error for "+k) {
						bad("client %d: %v", c, err)
					}
					continue
				}
				if got := resp.Header.Get("X-Path"); got != k || fmt.Sprint(resp.Header["X-Multi"]) != "[a b]" {
					bad("client %d asked for %s and got header %q %q", c, k, got, resp.Header["X-Multi"])
				}
				resp.Header.Set("X-Path", "scribble")
				resp.Header["X-Multi"][0] = "scribble"
				resp.Header.Del("Cache-Control")
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil || !bytes.Equal(b, body(k, sc.Len)) {
					bad("client %d asked for %s and got %d bytes, %v", c, k, len(b), err)
				}
				for j := range b {
					b[j] = 0
				}
			}
		}()
	}
	wg.Wait()
	total := 0
	for _, n := range o.hits {
		total += n
	}
	l := []string{}
	if total < sc.Clients*sc.Rounds {
		l = append(l, "coalesced")
	}
	if viol == "" && o.over != "" {
		viol = fmt.Sprintf("two identical requests for %s were at the origin at the same time", o.over)
	}
	return core.Result{Violation: viol, NonTrivial: len(l) > 0, Labels: l}
}

// GenThreads draws a load.
func GenThreads(rt *rapid.T) Threads {
	s := Threads{Cached: rapid.Bool().Draw(rt, "cached"), Clients: rapid.IntRange(2, 8).Draw(rt, "clients"), Rounds: rapid.IntRange(1, 6).Draw(rt, "rounds"),
		Keys: rapid.IntRange(1, 3).Draw(rt, "keys"), Len: rapid.SampledFrom([]int{0, 1, 20, 3000}).Draw(rt, "len"), NoLen: rapid.Bool().Draw(rt, "nolen"),
		Delays: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 10, 100, 400}), 1, 6).Draw(rt, "delays")}
	if rapid.IntRange(0, 2).Draw(rt, "errs") == 0 {
		s.Errs = rapid.SliceOfN(rapid.IntRange(0, 15), 1, 3).Draw(rt, "err")
	}
	return s
}
