package srv

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Reload is a history of a running instance.
type Reload struct {
	Auto  bool    `json:"auto,omitempty"` // the file is watched
	Slow  bool    `json:"slow,omitempty"` // the file is watched, but rarely looked at
	Init  Rules   `json:"init"`
	Log   string  `json:"log"` // format
	Steps []RStep `json:"steps"`
}

// RStep is a step.
type RStep struct {
	Op    string   `json:"op"` // get probe list reload bad remove again update purge
	Via   []string `json:"via,omitempty"`
	URL   int      `json:"u,omitempty"`
	Rules *Rules   `json:"rules,omitempty"`
	Seq   []Rules  `json:"seq,omitempty"`
	Gap   []int    `json:"gap,omitempty"`  // microseconds after an edit
	Rest  string   `json:"rest,omitempty"` // what the file says beside the cache section
	Raw   string   `json:"raw,omitempty"`
	Pat   string   `json:"pat,omitempty"`
}

// document renders a configuration file.
func (p *Proc) document(r Rules, rest, logf string, up, bg *Upstream) string {
	d := map[string]any{
		"listeners": map[string]any{"web1": map[string]any{"addr": p.Web[0]}},
		"upstreams": []any{
			map[string]any{"name": "bg", "addr": "http://" + bg.Addr, "path": "/bg"},
			map[string]any{"name": "u", "addr": "http://" + up.Addr, "path": "/"},
		},
		"provider": map[string]any{"backend": "inmemory", "inmemory": map[string]any{"max_size": 1 << 24, "max_item_size": 1 << 20}},
		"api":      map[string]any{"port": apiPort(p.API)},
		"logging":  map[string]any{"level": "info", "format": logf},
		"cache":    r.doc(true),
	}
	switch rest {
	case "none":
		for k := range d {
			if k != "cache" {
				delete(d, k)
			}
		}
	case "null":
		for k := range d {
			if k != "cache" {
				d[k] = nil
			}
		}
	case "other":
		d["listeners"] = map[string]any{"web9": map[string]any{"addr": "256.1.1.1:99999"}}
		d["upstreams"] = []any{map[string]any{"name": "x", "addr": "::not a url", "path": "{"}}
		d["provider"] = map[string]any{"backend": "redis"}
		d["api"] = map[string]any{"port": -1, "acl": "nobody"}
		d["cluster"] = map[string]any{"discovery": "?"}
	case "nocache": // the rules are the defaults
		delete(d, "cache")
	case "nullcache":
		d["cache"] = nil
	}
	b, err := yaml.Marshal(d)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func apiPort(a string) int {
	_, s, _ := net.SplitHostPort(a)
	n := 0
	_, _ = fmt.Sscan(s, &n)
	return n
}

// errorsIn counts the error messages in the output.
func (p *Proc) errorsIn() int {
	n := 0
	for _, l := range strings.Split(p.Output(), "\n") {
		var m map[string]any
		if json.Unmarshal([]byte(l), &m) == nil {
			if m["level"] == "error" || m["level"] == "warn" {
				n++
			}
		} else if strings.Contains(l, " ERR ") || strings.Contains(l, " WRN ") {
			n++
		}
	}
	return n
}

// RunReload judges a history.
func RunReload(t *testing.T, sc Reload) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runReload(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: l.Has("reloaded") || l.Has("rejected"), Labels: l.List()}
}

func runReload(sc *Reload, l *core.Labels) (string, bool) {
	up := mgmtUpstream()
	defer up.CloseConns()
	us, _ := Upstreams()
	bg := us[1]
	bg.Script(func(c net.Conn, s *Seen) bool {
		_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=1\r\nContent-Length: 4\r\n\r\nback", time.Now().UTC().Format(http.TimeFormat))
		return err == nil
	})
	defer bg.CloseConns()

	dir, err := os.MkdirTemp("", "verif-proc")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	var p *Proc
	var args []string
	if sc.Auto {
		args = []string{"-config.auto-reload", "-config.watch-interval", "25ms"}
	}
	if sc.Slow {
		args = []string{"-config.auto-reload", "-config.watch-interval", "2h"}
	}
	for try := 0; ; try++ {
		ports := Ports(2)
		q := &Proc{Web: []string{fmt.Sprintf("127.0.0.1:%d", ports[0])}, API: fmt.Sprintf("127.0.0.1:%d", ports[1])}
		p = StartProc(os.Getenv("VERIF_BIN_KACHE_RACE"), dir, q.document(sc.Init, "", sc.Log, up, bg), args...)
		p.Web, p.API = q.Web, q.API
		if p.Up(p.Web[0], 20*time.Second) && p.Up(p.API, 20*time.Second) {
			break
		}
		crashed, taken := p.Crashed(), strings.Contains(p.Output(), "address already in use")
		tail := p.Tail()
		p.Kill()
		if crashed && !taken {
			return "the instance crashes at the start\n" + tail, false
		}
		if try > 3 {
			if taken {
				return "", true
			}
			return "the instance does not start\n" + tail, false
		}
	}
	defer p.Kill()

	m := &mgmtSim{l: l, up: up, rules: sc.Init, keys: map[int]string{}, in: map[int]int{}, ver: map[int]string{}, prefix: "/api", front: p.Web[0], remote: p.apiCall,
		ignore: "kache-http://" + bg.Addr + "/"}

	// somebody else uses the instance all the time
	var stop atomic.Bool
	var wg sync.WaitGroup
	var mu sync.Mutex
	outage := ""
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; !stop.Load(); n++ {
				r := Get(p.Web[0], fmt.Sprintf("/bg/%d/%d", k, n%3))
				if r.Err != nil || r.Status != 200 || r.Body != "back" {
					mu.Lock()
					if outage == "" && !stop.Load() {
						outage = fmt.Sprintf("meanwhile a request is answered with %d, %v", r.Status, r.Err)
					}
					mu.Unlock()
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	defer wg.Wait()
	defer stop.Store(true)

	text := p.document(sc.Init, "", sc.Log, up, bg)
	for n, s := range sc.Steps {
		w := fmt.Sprintf("step %d %s %v", n, s.Op, s.Via)
		v := p.step(w, sc, m, s, &text, up, bg)
		if v == "" {
			mu.Lock()
			v = outage
			mu.Unlock()
			if v != "" {
				v = w + ": " + v
			}
		}
		if p.Exited() || p.Crashed() {
			time.Sleep(50 * time.Millisecond)
			return w + ": the process ends: " + p.Tail(), false
		}
		if v != "" {
			return v, false
		}
	}
	return "", false
}

// trigger asks for a reload; it returns the status of the last management request, 0 if there was none.
func (p *Proc) trigger(via []string, auto bool) []int {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var codes []int
	if auto && len(via) == 1 && via[0] == "watch" {
		return nil
	}
	for _, x := range via {
		switch x {
		case "hup":
			p.Signal(syscall.SIGHUP)
		case "api":
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := p.apiCall("POST", "/api/cache/config/reload", "", false, "")
				mu.Lock()
				codes = append(codes, rr.Code)
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	return codes
}

func (p *Proc) step(w string, sc *Reload, m *mgmtSim, s RStep, text *string, up, bg *Upstream) string {
	hup := func() bool {
		for _, x := range s.Via {
			if x == "hup" {
				return true
			}
		}
		return false
	}()
	switch s.Op {
	case "get":
		return m.get(w, s.URL%len(paths))
	case "probe":
		return m.step(w, MStep{Op: "probe"})
	case "list":
		return m.unchanged(w)
	case "purge":
		return m.step(w, MStep{Op: "purge", URL: s.URL, Pat: s.Pat})
	case "update":
		if m.late {
			return ""
		}
		return m.step(w, MStep{Op: "update", Rules: s.Rules, Syntax: "yaml"})
	case "again": // a reload of an unchanged file
		codes := p.trigger(s.Via, sc.Auto)
		for _, c := range codes {
			if c != 200 {
				return fmt.Sprintf("%s: a reload of the unchanged file is answered with %d", w, c)
			}
		}
		time.Sleep(20 * time.Millisecond)
		m.l.Add("again")
		return m.unchanged(w)
	case "reload":
		r := *s.Rules
		if s.Rest == "nocache" || s.Rest == "nullcache" {
			r = Rules{}
		}
		rest := s.Rest
		old := m.rules
		m.rules = r
		if m.readConfig(w) == "" || p.document(r, rest, sc.Log, up, bg) == *text { // the change has to show
			ttl := fmt.Sprintf("%dms", 3600000+m.fresh())
			r.TTL, rest = &ttl, strings.TrimSuffix(strings.TrimSuffix(rest, "nullcache"), "nocache")
		}
		m.rules = old
		next := p.document(r, rest, sc.Log, up, bg)
		*text = next
		p.Put(next)
		codes := p.trigger(s.Via, sc.Auto)
		for _, c := range codes {
			if c != 200 {
				return fmt.Sprintf("%s: a good reload is answered with %d", w, c)
			}
		}
		m.apply(r)
		m.l.Add("reloaded")
		if len(s.Via) > 1 {
			m.l.Add("reload-several")
		}
		if len(codes) == 1 && !hup && !sc.Auto {
			return m.readConfig(w) // in force when the request is answered
		}
		v := ""
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !p.Exited(); time.Sleep(2 * time.Millisecond) {
			if v = m.readConfig(w); v == "" {
				break
			}
		}
		if v == "" && len(s.Via) > 1 {
			time.Sleep(10 * time.Millisecond)
			v = m.readConfig(w + " (later)")
		}
		return v
	case "storm": // edits and reloads without waiting for one another
		var wg sync.WaitGroup
		ttl := fmt.Sprintf("%dms", 3600000+m.fresh()) // the last one is new
		last := *s.Rules
		last.TTL = &ttl
		for i, r := range append(append([]Rules{}, s.Seq...), last) {
			if i == len(s.Seq) && len(s.Via) > 0 && s.Via[0] == "api" {
				wg.Wait() // the last one is asked for when the others are answered
			}
			*text = p.document(r, "", sc.Log, up, bg)
			p.Put(*text)
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.trigger(s.Via, sc.Auto)
			}()
			time.Sleep(time.Duration(s.Gap[i%len(s.Gap)]) * time.Microsecond)
		}
		wg.Wait()
		m.apply(last)
		m.l.Add("storm")
		if sc.Auto || hup {
			m.late = true // one of the reloads may still be on its way
		}
		v := ""
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !p.Exited(); time.Sleep(2 * time.Millisecond) {
			if v = m.readConfig(w); v == "" {
				break
			}
		}
		if v == "" {
			time.Sleep(15 * time.Millisecond)
			v = m.readConfig(w + " (later)")
		}
		return v
	case "bad", "remove":
		good := *text
		errs := p.errorsIn()
		if s.Op == "bad" {
			p.Put(s.Raw)
		} else {
			_ = os.Remove(p.File)
		}
		codes := p.trigger(s.Via, sc.Auto)
		for _, c := range codes {
			if c < 400 || c > 599 {
				return fmt.Sprintf("%s: a reload of a broken file is answered with %d", w, c)
			}
		}
		if hup || sc.Auto {
			for end := time.Now().Add(20 * time.Second); p.errorsIn() == errs; time.Sleep(2 * time.Millisecond) {
				if p.Exited() {
					return ""
				}
				if time.Now().After(end) {
					return w + ": a rejected reload is not reported"
				}
			}
		}
		m.l.Add("rejected")
		v := m.unchanged(w)
		if v == "" && s.URL%2 == 0 {
			v = m.step(w, MStep{Op: "probe"})
		}
		// back to the file as it was
		p.Put(good)
		return v
	}
	return ""
}

// GenReload draws a history.
func GenReload(rt *rapid.T) Reload {
	sc := Reload{Init: genRules(rt, true), Auto: rapid.IntRange(0, 2).Draw(rt, "auto") == 0,
		Log: rapid.SampledFrom([]string{"json", "console"}).Draw(rt, "log")}
	sc.Slow = !sc.Auto && rapid.IntRange(0, 3).Draw(rt, "slow") == 0
	sc.Steps = append(sc.Steps, RStep{Op: "probe"})
	for i, n := 0, rapid.IntRange(3, 14).Draw(rt, "n"); i < n; i++ {
		s := RStep{Op: rapid.SampledFrom([]string{"reload", "reload", "reload", "reload", "bad", "bad", "remove", "again", "storm", "storm", "update", "purge", "get", "list"}).Draw(rt, "op"),
			URL: rapid.IntRange(0, len(paths)-1).Draw(rt, "u")}
		vias := [][]string{{"hup"}, {"api"}, {"api"}, {"hup", "api"}, {"api", "hup", "api"}, {"hup", "hup", "hup"}, {"api", "api", "api", "hup"}}
		if sc.Auto {
			vias = append(vias, []string{"watch"}, []string{"watch"}, []string{"watch"})
		}
		switch s.Op {
		case "reload", "update":
			r := genRules(rt, true)
			s.Rules = &r
			if s.Op == "update" && len(r.doc(true)) == 0 {
				v := true
				s.Rules.X = &v
			}
			if s.Op == "reload" {
				s.Rest = rapid.SampledFrom([]string{"", "", "", "none", "null", "other", "nocache", "nullcache"}).Draw(rt, "rest")
			}
		case "storm":
			r := genRules(rt, true)
			s.Rules = &r
			for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "edits"); i < n; i++ {
				s.Seq = append(s.Seq, genRules(rt, true))
				s.Gap = append(s.Gap, rapid.SampledFrom([]int{0, 50, 200, 500, 1000, 2000, 5000}).Draw(rt, "gap"))
			}
		case "bad":
			s.Raw = rapid.SampledFrom([]string{"", "cache: [", "cache:\n  bogus: 1\n", "cache:\n  strict: maybe\n", "listeners: 5\n", "just text", "cache:\n  timeouts:\n  - path: /a\n    ttl: soon\n", "\x00", "cache:\n  strict: false\n  strict: true\n", "unknown: 1\n"}).Draw(rt, "raw")
		case "purge":
			s.Pat = rapid.SampledFrom([]string{"exact", "all", "none"}).Draw(rt, "pat")
		}
		s.Via = rapid.SampledFrom(vias).Draw(rt, "via")
		sc.Steps = append(sc.Steps, s)
		if s.Op != "get" && s.Op != "list" && rapid.IntRange(0, 2).Draw(rt, "probe") > 0 {
			sc.Steps = append(sc.Steps, RStep{Op: "probe"})
		}
	}
	return sc
}

// Apply has configurations applied while they are consulted.
type Apply struct {
	Rules   []Rules `json:"rules"`
	Writers int     `json:"writers"`
	Rounds  int     `json:"rounds"`
	Common  string  `json:"common"` // a path excluded by all
}

// GenApply draws configurations.
func GenApply(rt *rapid.T) Apply {
	a := Apply{Writers: rapid.IntRange(1, 4).Draw(rt, "writers"), Rounds: rapid.IntRange(5, 60).Draw(rt, "rounds"), Common: "^/common"}
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "n"); i < n; i++ {
		a.Rules = append(a.Rules, genRules(rt, true))
	}
	return a
}

// RunApply judges configurations applied while they are consulted.
func RunApply(t *testing.T, a Apply) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runApply(&a, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: true, Labels: l.List()}
}

func runApply(a *Apply, l *core.Labels) string {
	var cfgs []*cache.HttpCacheConfig
	for _, r := range a.Rules {
		r.ExPath = append([]string{"^/other"}, append(r.ExPath, a.Common)...)
		r.Timeouts = append([]TO{{"^/never", 1}, {"^/timed", 77}}, r.Timeouts...)
		r.ExType = "text/plain"
		r.ExSize = 0
		c := &cache.HttpCacheConfig{Strict: true}
		if err := yaml.Unmarshal([]byte(r.Text("yaml")), c); err != nil {
			panic("harness: " + err.Error())
		}
		cfgs = append(cfgs, c)
	}
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 10, MaxItemSize: 1 << 9, DefaultTTL: "1h"})
	if err != nil {
		panic("harness: " + err.Error())
	}
	hc, err := cache.NewHttpCache(cfgs[0], p)
	if err != nil {
		return "refused: " + err.Error()
	}
	var stop atomic.Bool
	bad := make(chan string, 1)
	fail := func(s string) {
		select {
		case bad <- s:
		default:
		}
	}
	var readers, writers sync.WaitGroup
	for i := 0; i < 2; i++ {
		readers.Add(1)
		go func() {
			defer readers.Done()
			for !stop.Load() {
				if !hc.IsExcludedPath("/common/x") {
					fail("while rules that all exclude a path are applied it is not excluded")
				}
				if !hc.IsExcludedContent("text/plain", 1<<20) {
					fail("while rules that all exclude a content type are applied it is not excluded")
				}
				if d := hc.PathTTL("/timed/x"); d != 77*time.Second {
					fail(fmt.Sprintf("while rules that all give a path a TTL of 77s are applied it has %v", d))
				}
			}
		}()
	}
	for w := 0; w < a.Writers; w++ {
		writers.Add(1)
		go func() {
			defer writers.Done()
			for r := 0; r < a.Rounds; r++ {
				hc.UpdateConfig(cfgs[(r+w)%len(cfgs)])
			}
		}()
	}
	writers.Wait()
	stop.Store(true)
	readers.Wait()
	select {
	case b := <-bad:
		return b
	default:
	}
	return ""
}
