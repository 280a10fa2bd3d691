package srv

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	"github.com/prometheus/client_golang/prometheus"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Boot is a configuration, sound or with a fault.
type Boot struct {
	Listeners []string       `json:"listeners"` // port, host, v6, name
	Ups       []BUp          `json:"ups"`
	Provider  map[string]any `json:"provider"`
	API       map[string]any `json:"api"`
	Cache     string         `json:"cache"` // none null empty some
	Log       string         `json:"log"`
	Fault     string         `json:"fault,omitempty"`
	Arg       int            `json:"arg,omitempty"`
}

// BUp is an upstream.
type BUp struct {
	U    int    `json:"u"`
	Path string `json:"path"`
	Base string `json:"base,omitempty"`
}

var (
	redisOnce sync.Once
	redisAddr string
)

func bootRedis() string {
	redisOnce.Do(func() {
		mr := miniredis.NewMiniRedis()
		if err := mr.Start(); err != nil {
			panic("harness: " + err.Error())
		}
		redisAddr = mr.Addr()
	})
	return redisAddr
}

// faults and how they are put into a document; each of them makes the configuration unusable
var faults = map[string]func(d map[string]any, arg int){
	"no-listeners":  func(d map[string]any, arg int) { drop(d, "listeners", arg) },
	"no-upstreams":  func(d map[string]any, arg int) { drop(d, "upstreams", arg) },
	"no-provider":   func(d map[string]any, arg int) { drop(d, "provider", arg) },
	"no-api":        func(d map[string]any, arg int) { drop(d, "api", arg) },
	"null-listener": func(d map[string]any, arg int) { d["listeners"].(map[string]any)["other"] = nil },
	"null-upstream": func(d map[string]any, arg int) { d["upstreams"] = insert(d["upstreams"].([]any), arg, nil) },
	"only-null-up":  func(d map[string]any, arg int) { d["upstreams"] = []any{nil} },
	"upstream-addr": func(d map[string]any, arg int) {
		bad := []string{"", "127.0.0.1:80", "localhost:80", "://x", "http://", "ftp://127.0.0.1/", "http://[::1", "http://a b/", "/path", "http:///only", "http://:80", "https://:443/x", "%zz", "127.0.0.1", "http://127.0.0.1:port"}
		d["upstreams"] = insert(d["upstreams"].([]any), arg/len(bad), map[string]any{"name": "x", "addr": bad[arg%len(bad)], "path": "/x"})
	},
	"upstream-path": func(d map[string]any, arg int) {
		bad := []string{"x", "/{", "/{id", "/{id:[}", "/}", "x/y", "*"}
		d["upstreams"] = insert(d["upstreams"].([]any), arg/len(bad), map[string]any{"name": "x", "addr": "http://127.0.0.1:1", "path": bad[arg%len(bad)]})
	},
	"backend": func(d map[string]any, arg int) {
		set3(d, "provider", "backend", []any{"memcached", "", "Redis", nil, "in-memory", 1}[arg%6])
	},
	"item-size": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "inmemory", "inmemory": map[string]any{"max_size": 1000, "max_item_size": 1001 + arg}}
	},
	"redis-down": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "redis", "redis": map[string]any{"endpoint": "127.0.0.1:1", "max_queue_concurrency": 2, "max_queue_buffer_size": 100}}
	},
	"redis-no-endpoint": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "redis", "redis": map[string]any{"max_queue_concurrency": 2, "max_queue_buffer_size": 100}}
	},
	"redis-concurrency": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "redis", "redis": map[string]any{"endpoint": bootRedis(), "max_queue_concurrency": -(arg % 3), "max_queue_buffer_size": 100}}
	},
	"redis-buffer": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "redis", "redis": map[string]any{"endpoint": bootRedis(), "max_queue_concurrency": 1, "max_queue_buffer_size": -1 - arg%3}}
	},
	"layered-size": func(d map[string]any, arg int) {
		d["provider"] = map[string]any{"backend": "redis", "layered": true, "redis": map[string]any{"endpoint": bootRedis(), "max_queue_concurrency": 1, "max_queue_buffer_size": 10}, "inmemory": map[string]any{"max_size": 10, "max_item_size": 11}}
	},
	"acl": func(d map[string]any, arg int) {
		set3(d, "api", "acl", []any{"bogus", "127.0.0.1,,::1", "10.0.0.0/33", "127.0.0.1;::1", "300.1.1.1", "127.0.0.1, x"}[arg%6])
	},
	"cluster": func(d map[string]any, arg int) {
		d["cluster"] = []any{map[string]any{"discovery": "dns"}, map[string]any{}, map[string]any{"discovery": "kubernetes", "namespace": "n", "service": "s"}}[arg%3]
	},
	"listener-addr": func(d map[string]any, arg int) {
		d["listeners"].(map[string]any)["other"] = map[string]any{"addr": []any{"256.1.1.1:80", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:port", "192.0.2.1:8080", "nowhere.invalid:80", "127.0.0.1:-1"}[arg%7]}
	},
	"listener-twice": func(d map[string]any, arg int) {
		for _, l := range d["listeners"].(map[string]any) {
			d["listeners"].(map[string]any)["again"] = l
			break
		}
	},
	"unknown": func(d map[string]any, arg int) {
		switch arg % 4 {
		case 0:
			d["caching"] = map[string]any{}
		case 1:
			set3(d, "api", "ports", 1)
		case 2:
			set3(d, "provider", "ttl", "1s")
		case 3:
			d["Listeners"] = map[string]any{}
		}
	},
	"type": func(d map[string]any, arg int) {
		switch arg % 5 {
		case 0:
			d["upstreams"] = map[string]any{"a": 1}
		case 1:
			set3(d, "api", "port", "x")
		case 2:
			d["listeners"] = []any{"127.0.0.1:0"}
		case 3:
			d["cache"] = []any{}
		case 4:
			d["provider"] = "inmemory"
		}
	},
}

func drop(d map[string]any, k string, arg int) {
	switch arg % 3 {
	case 0:
		delete(d, k)
	case 1:
		d[k] = nil
	case 2:
		if k == "listeners" {
			d[k] = map[string]any{}
		} else if k == "upstreams" {
			d[k] = []any{}
		} else {
			delete(d, k)
		}
	}
}

func set3(d map[string]any, a, b string, v any) {
	m := map[string]any{}
	for k, v := range d[a].(map[string]any) {
		m[k] = v
	}
	m[b] = v
	d[a] = m
}

func insert(l []any, i int, v any) []any {
	i %= len(l) + 1
	return append(append(append([]any{}, l[:i]...), v), l[i:]...)
}

// document renders the configuration; it also returns the listeners' addresses.
func (b *Boot) document(us []*Upstream) (string, []string, int) {
	ls := map[string]any{}
	var addrs []string
	ports := Ports(len(b.Listeners) + 1)
	for i, k := range b.Listeners {
		a := map[string]string{"host": "127.0.0.1", "v6": "[::1]", "port": "", "name": "localhost"}[k]
		ls[fmt.Sprintf("web%d", i)] = map[string]any{"addr": fmt.Sprintf("%s:%d", a, ports[i])}
		if k == "v6" {
			addrs = append(addrs, fmt.Sprintf("[::1]:%d", ports[i]))
		} else {
			addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", ports[i]))
		}
	}
	ups := []any{}
	for i, u := range b.Ups {
		scheme := "http://"
		m := map[string]any{"name": fmt.Sprint("u", i), "addr": scheme + us[u.U%3].Addr + u.Base}
		if u.Path != "-" {
			m["path"] = u.Path
		}
		ups = append(ups, m)
	}
	api := map[string]any{"port": ports[len(ports)-1]}
	for k, v := range b.API {
		api[k] = v
	}
	prov := map[string]any{}
	for k, v := range b.Provider {
		prov[k] = v
	}
	if r, ok := prov["redis"].(map[string]any); ok {
		m := map[string]any{"endpoint": bootRedis()}
		for k, v := range r {
			m[k] = v
		}
		prov["redis"] = m
	}
	d := map[string]any{"listeners": ls, "upstreams": ups, "provider": prov, "api": api}
	switch b.Cache {
	case "null":
		d["cache"] = nil
	case "empty":
		d["cache"] = map[string]any{}
	case "some":
		d["cache"] = map[string]any{"x_header": true, "timeouts": []any{nil, map[string]any{"path": "(", "ttl": "1s"}}, "exclude": map[string]any{"path": []any{"[", "^/excluded"}, "content": []any{nil}}}
	}
	switch b.Log {
	case "null":
		d["logging"] = nil
	case "some":
		d["logging"] = map[string]any{"level": "bogus", "format": "json"}
	}
	if f := faults[b.Fault]; f != nil {
		f(d, b.Arg)
	}
	t, err := yaml.Marshal(d)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(t), addrs, ports[len(ports)-1]
}

// RunBoot judges a start.
func RunBoot(t *testing.T, sc Boot) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runBoot(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: sc.Fault != "" || l.Has("hit"), Labels: l.List()}
}

// start does what the application does with a configuration file.
func start(dir, text string) (k *kache.Kache, why string) {
	f := filepath.Join(dir, "kache.yml")
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	l, err := config.NewLoader(f, false, time.Second)
	if err != nil {
		return nil, "loading: " + err.Error()
	}
	if err := l.Config().Validate(); err != nil {
		return nil, "validating: " + err.Error()
	}
	k, err = kache.New(l, prometheus.NewRegistry())
	if err != nil {
		return nil, "starting: " + err.Error()
	}
	return k, ""
}

func runBoot(sc *Boot, l *core.Labels) (string, bool) {
	us, _ := Upstreams()
	for i := range us[:3] {
		us[i].Script(func(c net.Conn, s *Seen) bool {
			b := fmt.Sprintf("u%d %s", i, s.URI)
			_, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nDate: %s\r\nCache-Control: max-age=1000\r\nContent-Type: text/x\r\nContent-Length: %d\r\n\r\n%s", time.Now().UTC().Format(http.TimeFormat), len(b), b)
			return err == nil
		})
		defer us[i].CloseConns()
	}
	dir, err := os.MkdirTemp("", "verif-boot")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	text, addrs, _ := sc.document(us)
	k, why := start(dir, text)
	if k == nil && strings.Contains(why, "address already in use") && sc.Fault != "listener-twice" {
		return "", true
	}
	if sc.Fault != "" {
		if k != nil {
			k.Server.Start(context.Background())
			k.Server.Stop()
			return fmt.Sprintf("a configuration with a fault (%s %d) is accepted:\n%s", sc.Fault, sc.Arg, text), false
		}
		l.Add(sc.Fault)
		return "", false
	}
	if k == nil {
		return fmt.Sprintf("a sound configuration is refused: %s\n%s", why, text), false
	}
	k.Server.Start(context.Background())
	defer k.Server.Stop()
	l.Add("started")
	for n, a := range addrs {
		for i, u := range sc.Ups {
			p := u.Path
			if p == "-" {
				p = ""
			}
			p = strings.Replace(p, "{id:[0-9]+}", "42", 1)
			target := "/" + strings.TrimPrefix(p, "/") + fmt.Sprintf("/r%d-%d", n, i)
			first := -1
			for j, x := range sc.Ups {
				q := strings.TrimSuffix(x.Path, "-")
				ok := strings.HasPrefix(target, q)
				if strings.Contains(q, "{") {
					ok = strings.HasPrefix(target, "/id/42")
				}
				if ok {
					first = j
					break
				}
			}
			up := sc.Ups[first]
			want := fmt.Sprintf("u%d %s", up.U%3, join(up.Base, target))
			var r Reply
			for end := time.Now().Add(10 * time.Second); ; {
				if r = Get(a, target); r.Err == nil || time.Now().After(end) {
					break
				}
				time.Sleep(time.Millisecond)
			}
			if r.Err != nil || r.Status != 200 || r.Body != want {
				return fmt.Sprintf("listener %s: GET %s: %d %q %v, expected %q\n%s", a, target, r.Status, r.Body, r.Err, want, text), false
			}
			cnt := us[up.U%3].Count()
			for end := time.Now().Add(10 * time.Second); ; {
				r = Get(a, target)
				if r.Err != nil || r.Status != 200 || r.Body != want {
					return fmt.Sprintf("listener %s: again GET %s: %d %q %v, expected %q\n%s", a, target, r.Status, r.Body, r.Err, want, text), false
				}
				c := us[up.U%3].Count()
				if c == cnt {
					l.Add("hit")
					break
				}
				cnt = c
				if time.Now().After(end) {
					return fmt.Sprintf("listener %s: GET %s: never answered from the cache\n%s", a, target, text), false
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	prefix := "/api"
	if p, _ := sc.API["prefix"].(string); p != "" {
		prefix = "/" + strings.Trim(p, "/")
	}
	rr := httptest.NewRecorder()
	rq := httptest.NewRequest("GET", "http://api"+strings.TrimSuffix(prefix, "/")+"/cache/config", nil)
	rq.RemoteAddr = "127.0.0.1:1234"
	k.API.ServeHTTP(rr, rq)
	if rr.Code != 200 {
		return fmt.Sprintf("the management interface answers with %d\n%s", rr.Code, text), false
	}
	if b, _ := sc.Provider["backend"].(string); b == "redis" {
		_ = (*k.Provider).Flush(context.Background())
		l.Add("redis")
	}
	return "", false
}

// GenBoot draws a configuration.
func GenBoot(rt *rapid.T) Boot {
	b := Boot{}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "nl"); i < n; i++ {
		b.Listeners = append(b.Listeners, rapid.SampledFrom([]string{"host", "port", "v6", "name"}).Draw(rt, "listener"))
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(rt, "nu"); i < n; i++ {
		b.Ups = append(b.Ups, BUp{U: rapid.IntRange(0, 2).Draw(rt, "u"), Path: rapid.SampledFrom([]string{"/", "/a", "/a/b", "-", "", "/id/{id:[0-9]+}", "/service-1", "/x.y"}).Draw(rt, "path"),
			Base: rapid.SampledFrom([]string{"", "", "/", "/base", "/base/"}).Draw(rt, "base")})
	}
	pick := func(m map[string]any, k string, v ...any) {
		if rapid.Bool().Draw(rt, k) {
			m[k] = rapid.SampledFrom(v).Draw(rt, k+"v")
		}
	}
	in := map[string]any{}
	pick(in, "max_size", 0, 1<<27, 1<<30)
	pick(in, "max_item_size", 0, 1<<20, 1<<27)
	pick(in, "default_ttl", "120s", "-1", "", "bogus", "1h")
	b.Provider = map[string]any{"backend": "inmemory"}
	if len(in) > 0 || rapid.Bool().Draw(rt, "in") {
		b.Provider["inmemory"] = in
	}
	if rapid.IntRange(0, 4).Draw(rt, "redis") == 4 {
		r := map[string]any{"max_queue_concurrency": rapid.SampledFrom([]int{1, 2, 56}).Draw(rt, "conc"), "max_queue_buffer_size": rapid.SampledFrom([]int{1, 100, 24000}).Draw(rt, "buf")}
		pick(r, "max_item_size", 0, 1<<20)
		pick(r, "db", 0, 1)
		b.Provider["backend"], b.Provider["redis"] = "redis", r
		pick(b.Provider, "layered", true, false)
		pick(b.Provider, "layered_ttl", "10s", "bogus", "")
	}
	b.API = map[string]any{}
	pick(b.API, "prefix", "/api", "x", "/x/", "/", "/x/y", "")
	pick(b.API, "acl", "", "127.0.0.1", " 127.0.0.1 , ::1", "127.0.0.0/8", "0.0.0.0/0,::/0")
	pick(b.API, "debug", true, false)
	b.Cache = rapid.SampledFrom([]string{"none", "null", "empty", "some"}).Draw(rt, "cache")
	b.Log = rapid.SampledFrom([]string{"none", "null", "some"}).Draw(rt, "log")
	if rapid.Bool().Draw(rt, "faulty") {
		var fs []string
		for f := range faults {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		b.Fault = rapid.SampledFrom(fs).Draw(rt, "fault")
		b.Arg = rapid.IntRange(0, 60).Draw(rt, "arg")
	}
	return b
}

// Odd is a document with arbitrary changes.
type Odd struct {
	Boot  Boot     `json:"boot"`
	Edits []OddOne `json:"edits"`
}

// OddOne replaces, removes or repeats a value.
type OddOne struct {
	At   int    `json:"at"`
	What string `json:"what"` // YAML text of a value, or @drop, @dup, @key:..., @byte
	N    int    `json:"n,omitempty"`
}

// RunOdd judges that a start does not crash.
func RunOdd(t *testing.T, sc Odd) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runOdd(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("started") || l.Has("refused-late"), Labels: l.List()}
}

func runOdd(sc *Odd, l *core.Labels) string {
	us, _ := Upstreams()
	dir, err := os.MkdirTemp("", "verif-boot")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	text, _, _ := sc.Boot.document(us)
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		panic("harness: " + err.Error())
	}
	bytes := 0
	for _, e := range sc.Edits {
		if e.What == "@byte" {
			bytes++
			continue
		}
		var all []*yaml.Node
		var walk func(*yaml.Node)
		walk = func(x *yaml.Node) {
			for i, c := range x.Content {
				if x.Kind != yaml.MappingNode || i%2 == 1 {
					all = append(all, c)
				}
				walk(c)
			}
		}
		if len(n.Content) == 0 {
			break
		}
		walk(&n)
		x := all[e.At%len(all)]
		switch {
		case e.What == "@drop":
			if len(x.Content) > 1 {
				x.Content = x.Content[2:]
			}
		case e.What == "@dup":
			if len(x.Content) > 1 {
				x.Content = append(x.Content, x.Content[:2]...)
			}
		default:
			var v yaml.Node
			if err := yaml.Unmarshal([]byte(e.What), &v); err != nil || len(v.Content) == 0 {
				panic("harness: value " + e.What)
			}
			*x = *v.Content[0]
		}
	}
	b, err := yaml.Marshal(&n)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, e := range sc.Edits {
		if e.What == "@byte" && len(b) > 0 {
			i := e.At % len(b)
			switch e.N % 3 {
			case 0:
				b[i] = byte(e.N / 3)
			case 1:
				b = append(b[:i:i], b[i+1:]...)
			case 2:
				b = append(b[:i:i], append([]byte{byte(e.N / 3)}, b[i:]...)...)
			}
		}
	}
	k, why := start(dir, string(b))
	if k == nil {
		if strings.HasPrefix(why, "starting") {
			l.Add("refused-late")
		} else {
			l.Add("refused-early")
		}
		return ""
	}
	l.Add("started")
	k.Server.Start(context.Background())
	k.Server.Stop()
	return ""
}

// GenOdd draws a document.
func GenOdd(rt *rapid.T) Odd {
	o := Odd{Boot: GenBoot(rt)}
	if rapid.IntRange(0, 3).Draw(rt, "sound") > 0 {
		o.Boot.Fault = ""
	}
	vals := []string{"null", "-1", "0", "''", "x", "[]", "{}", "[null]", "{a: null}", "99999999999999999999", "1e3", "0s", "true", "'/{'", "'http://'", "'127.0.0.1:0'", "'[::1]:0'", "'127.0.0.1:1'", "[{}]", "{a: {}}", "'*'", "'('",
		"{backend: redis}", "{backend: inmemory}", "{backend: inmemory, inmemory: null, redis: null}", "redis", "inmemory", "[[]]", "!!binary aGk=", "2001-01-01", ".nan", "-.inf", "1.5", "{<<: null}", "'\\0'", "{a: {addr: '127.0.0.1:0'}}", "[{addr: 'http://127.0.0.1:1', path: '/'}]", "{port: 0}", "18446744073709551615", "-9223372036854775808", "@drop", "@dup", "@byte"}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "edits"); i < n; i++ {
		o.Edits = append(o.Edits, OddOne{At: rapid.IntRange(0, 400).Draw(rt, "at"), What: rapid.SampledFrom(vals).Draw(rt, "what"), N: rapid.IntRange(0, 767).Draw(rt, "n")})
	}
	return o
}

// Command is a start of the executable.
type Command struct {
	Boot Boot     `json:"boot"`
	Args []string `json:"args"`
	File string   `json:"file"` // "", missing, dir, empty, garbage
	API  string   `json:"api,omitempty"`
	OK   bool     `json:"ok"`
}

// RunCommand judges a start of the executable.
func RunCommand(t *testing.T, sc Command) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runCommand(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: true, Labels: l.List()}
}

func runCommand(sc *Command, l *core.Labels) (string, bool) {
	us, _ := Upstreams()
	us[0].Script(func(c net.Conn, s *Seen) bool { return plainReply(c, s, "x") })
	dir, err := os.MkdirTemp("", "verif-boot")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	var p *Proc
	text, addrs, _ := sc.Boot.document(us)
	args := append([]string{}, sc.Args...)
	switch sc.File {
	case "missing":
		args = append(args, "-config.file", filepath.Join(dir, "none.yml"))
	case "dir":
		args = append(args, "-config.file", dir)
	case "empty":
		text = ""
	case "garbage":
		text = "\x00\x01: ["
	}
	if sc.API == "taken" {
		ln, err := net.Listen("tcp", ":0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer ln.Close()
		var d map[string]any
		_ = yaml.Unmarshal([]byte(text), &d)
		set3(d, "api", "port", ln.Addr().(*net.TCPAddr).Port)
		b, _ := yaml.Marshal(d)
		text = string(b)
	}
	p = StartProc(os.Getenv("VERIF_BIN_KACHE"), dir, text, args...)
	defer p.Kill()
	if sc.OK {
		for _, a := range addrs {
			var r Reply
			for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !p.Exited(); time.Sleep(2 * time.Millisecond) {
				if r = Get(a, "/id/42"); r.Err == nil {
					break
				}
			}
			if strings.Contains(p.Output(), "address already in use") {
				return "", true
			}
			if r.Err != nil {
				return fmt.Sprintf("a sound configuration does not serve on %s: %v\n%s\n%s", a, r.Err, text, p.Tail()), false
			}
		}
		time.Sleep(30 * time.Millisecond)
		if p.Exited() || p.Crashed() {
			return fmt.Sprintf("the instance ends by itself\n%s", p.Tail()), false
		}
		l.Add("serves")
		return "", false
	}
	select {
	case <-p.exited:
	case <-time.After(20 * time.Second):
		return fmt.Sprintf("the instance does not end although it cannot work (%s %s %v)\n%s", sc.Boot.Fault, sc.File, sc.Args, p.Tail()), false
	}
	if p.Crashed() {
		return "the instance crashes: " + p.Tail(), false
	}
	if c := p.state.ExitCode(); c <= 0 {
		return fmt.Sprintf("the instance cannot work and ends with %v", p.state), false
	}
	if strings.TrimSpace(p.Output()) == "" {
		return "the instance ends without a word", false
	}
	l.Add("refused")
	return "", false
}

// GenCommand draws a start.
func GenCommand(rt *rapid.T) Command {
	c := Command{Boot: GenBoot(rt)}
	c.Boot.Log = "none"
	c.OK = c.Boot.Fault == ""
	ok := [][]string{{}, {}, {"-config.auto-reload"}, {"-config.auto-reload", "-config.watch-interval", "1ns"}, {"-config.watch-interval", "0s"}, {"-config.auto-reload=false", "-config.watch-interval=-1s"}, {"-config.auto-reload", "-config.watch-interval=1h"}}
	bad := [][]string{{"-config.auto-reload", "-config.watch-interval", "0s"}, {"-config.auto-reload", "-config.watch-interval=-5s"}, {"-config.watch-interval", "soon"}, {"-bogus"}, {"-config.auto-reload=maybe"}}
	if rapid.IntRange(0, 2).Draw(rt, "badargs") == 2 {
		c.Args = rapid.SampledFrom(bad).Draw(rt, "args")
		c.OK = false
	} else {
		c.Args = rapid.SampledFrom(ok).Draw(rt, "args")
	}
	c.File = rapid.SampledFrom([]string{"", "", "", "", "", "missing", "dir", "empty", "garbage"}).Draw(rt, "file")
	if c.File != "" {
		c.OK = false
	}
	if rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(rt, "taken") == 1 && c.OK {
		c.API, c.OK = "taken", false
	}
	return c
}
