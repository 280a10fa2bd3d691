package clus

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/srv"
)

// Subset is a subset of the endpoints of the service.
type Subset struct {
	Ready    []Addr `json:"ready,omitempty"`
	NotReady []Addr `json:"notReady,omitempty"`
	Ports    []Port `json:"ports,omitempty"`
}

// Addr is an address: IP indexes ips.
type Addr struct {
	IP  int  `json:"ip"`
	Ref bool `json:"ref,omitempty"`
}

// Port is a port: N indexes the ports of the peers, -1 is one nobody listens on.
type Port struct {
	Name string `json:"name,omitempty"`
	N    int    `json:"n"`
}

// MOp is a management request.
type MOp struct {
	Op     string   `json:"op"` // purge update endpoints
	Key    string   `json:"key,omitempty"`
	NoKey  bool     `json:"nokey,omitempty"`
	Doc    int      `json:"doc,omitempty"`
	Peer   string   `json:"peer,omitempty"`
	XFF    []string `json:"xff,omitempty"`
	XRI    string   `json:"xri,omitempty"`
	Chunk  bool     `json:"chunk,omitempty"`
	State  string   `json:"state,omitempty"` // of the discovery: "" ok, error, missing
	Layout int      `json:"layout,omitempty"`
}

// Cluster is a case.
type Cluster struct {
	Namespace string     `json:"namespace"`
	Service   string     `json:"service"`
	Prefix    string     `json:"prefix"`
	ACL       string     `json:"acl"`
	Layouts   [][]Subset `json:"layouts"`
	Ops       []MOp      `json:"ops"`
}

var ips = []string{"127.0.0.2", "127.0.0.3", "127.0.0.4", "127.0.0.5", "127.0.0.6", "::1"}

// kube is a discovery API.
type kube struct {
	mu        sync.Mutex
	path      string
	doc       []byte
	code      int
	asked     int
	wrong     string
	ports     []int // ports the peers listen on
	dead      int
	got       []*delivered
	caseID    string
	endpoints map[string]bool
}

// delivered is a message that reached a peer.
type delivered struct {
	at     string
	method string
	uri    string
	header http.Header
	body   string
	err    error
}

var (
	world1   *kube
	worldOne sync.Once
	caseNo   atomic.Int64
)

func theKube() *kube {
	worldOne.Do(func() {
		k := &kube{code: 200}
		ln, err := net.Listen("tcp4", "127.0.0.1:0")
		must(err)
		go func() { _ = http.Serve(ln, http.HandlerFunc(k.serve)) }()
		home, err := os.MkdirTemp("", "verif-home")
		must(err)
		must(os.MkdirAll(filepath.Join(home, ".kube"), 0o755))
		must(os.WriteFile(filepath.Join(home, ".kube", "config"), []byte(fmt.Sprintf(`apiVersion: v1
kind: Config
clusters:
- name: c
  cluster: {server: "http://%s"}
contexts:
- name: c
  context: {cluster: c, user: u}
users:
- name: u
  user: {}
current-context: c
`, ln.Addr())), 0o644))
		os.Setenv("HOME", home)
		os.Unsetenv("KUBERNETES_SERVICE_HOST")
		os.Unsetenv("KUBERNETES_SERVICE_PORT")
		for len(k.ports) < 3 {
			first, err := net.Listen("tcp", ips[0]+":0")
			must(err)
			port := first.Addr().(*net.TCPAddr).Port
			lns := []net.Listener{first}
			for _, ip := range ips[1:] {
				if l, err := net.Listen("tcp", net.JoinHostPort(ip, strconv.Itoa(port))); err == nil {
					lns = append(lns, l)
				}
			}
			if len(lns) != len(ips) {
				for _, l := range lns {
					l.Close()
				}
				continue
			}
			for _, l := range lns {
				at := l.Addr().String()
				go func() {
					_ = http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { k.receive(at, w, r) }))
				}()
			}
			k.ports = append(k.ports, port)
		}
		_, dead := srv.Upstreams()
		_, p, _ := net.SplitHostPort(dead)
		k.dead, _ = strconv.Atoi(p)
		world1 = k
	})
	return world1
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func (k *kube) serve(w http.ResponseWriter, r *http.Request) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.asked++
	w.Header().Set("Content-Type", "application/json")
	if r.URL.Path != k.path || r.Method != "GET" {
		k.wrong = r.Method + " " + r.URL.Path
		w.WriteHeader(404)
		_, _ = w.Write([]byte(`{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`))
		return
	}
	if k.code != 200 {
		w.WriteHeader(k.code)
		fmt.Fprintf(w, `{"kind":"Status","apiVersion":"v1","status":"Failure","message":"no","code":%d}`, k.code)
		return
	}
	_, _ = w.Write(k.doc)
}

func (k *kube) receive(at string, w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	d := &delivered{at: at, method: r.Method, uri: r.RequestURI, header: r.Header, body: string(b), err: err}
	k.mu.Lock()
	if r.Header.Get("X-Case") == k.caseID {
		k.got = append(k.got, d)
	}
	k.mu.Unlock()
	w.WriteHeader(200)
}

func (k *kube) take() []*delivered {
	k.mu.Lock()
	defer k.mu.Unlock()
	g := k.got
	k.got = nil
	return g
}

func (k *kube) count() int { k.mu.Lock(); defer k.mu.Unlock(); return len(k.got) }

// publish sets the endpoints and returns where messages are to go.
func (k *kube) publish(c *Cluster, subsets []Subset) []string {
	type js map[string]any
	var subs []js
	var want []string
	n := 0
	for _, s := range subsets {
		addrs := func(as []Addr) []js {
			var out []js
			for _, a := range as {
				x := js{"ip": ips[a.IP]}
				if a.Ref {
					n++
					x["targetRef"] = js{"kind": "Pod", "name": fmt.Sprintf("kache-%d", n), "namespace": c.Namespace}
				}
				out = append(out, x)
			}
			return out
		}
		x := js{}
		if len(s.Ready) > 0 {
			x["addresses"] = addrs(s.Ready)
		}
		if len(s.NotReady) > 0 {
			x["notReadyAddresses"] = addrs(s.NotReady)
		}
		var ports []js
		for _, p := range s.Ports {
			num := k.dead
			if p.N >= 0 {
				num = k.ports[p.N]
			}
			y := js{"port": num, "protocol": "TCP"}
			if p.Name != "" {
				y["name"] = p.Name
			}
			ports = append(ports, y)
			if p.Name == "api" && p.N >= 0 {
				for _, a := range s.Ready {
					want = append(want, net.JoinHostPort(ips[a.IP], strconv.Itoa(num)))
				}
			}
		}
		if ports != nil {
			x["ports"] = ports
		}
		subs = append(subs, x)
	}
	doc, err := json.Marshal(js{"kind": "Endpoints", "apiVersion": "v1", "metadata": js{"name": c.Service, "namespace": c.Namespace}, "subsets": subs})
	must(err)
	k.mu.Lock()
	k.path = "/api/v1/namespaces/" + c.Namespace + "/endpoints/" + c.Service
	k.doc = doc
	k.mu.Unlock()
	slices.Sort(want)
	return want
}

var updates = []string{
	"strict: false\n",
	"x_header: true\nx_header_name: x-c\n",
	`{"strict":true,"default_ttl":"7s"}`,
	"timeouts:\n  - path: ^/a\n    ttl: 3s\n",
	"# grüße\nexclude:\n  path: ['^/adm in']\n\n",
	"strict: [\n",
	"default_cache_control: '" + strings.Repeat("x", 20000) + "'\n",
}

type instance struct {
	st    *srv.Stack
	api   *api.API
	store provider.Provider
}

func newInstance(c *Cluster) *instance {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 1 << 16, DefaultTTL: "1h"})
	must(err)
	cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true},
		Provider: &provider.ProviderBackendConfig{Backend: "redis", Layered: true},
		API:      &config.API{ACL: c.ACL, Prefix: c.Prefix},
		Cluster:  &cluster.Config{Discovery: "kubernetes", Namespace: c.Namespace, Service: c.Service}}
	st, err := srv.NewStackWith(cfg, p)
	must(err)
	a, err := api.New(*cfg.API, st.Srv)
	must(err)
	return &instance{st, a, p}
}

var keys = []string{"kache-http://u/a", "kache-http://u/a/b", "kache-http://u/z?q=1", "k"}

func (i *instance) fill() {
	for _, k := range keys {
		i.store.Set(k, []byte(k), time.Hour)
	}
}

func (i *instance) state() string {
	s := ""
	for _, k := range keys {
		s += fmt.Sprint(i.store.Get(context.Background(), k) != nil, " ")
	}
	b, _ := json.Marshal(i.st.Cache.Config())
	return s + string(b)
}

// clientOf is the address an access list judges: the last forwarded one, else X-Real-Ip, else the peer.
func clientOf(peer string, h http.Header) (netip.Addr, bool) {
	if x := strings.Trim(strings.Join(h.Values("X-Forwarded-For"), ","), ","); x != "" {
		el := strings.Split(x, ",")
		a, err := netip.ParseAddr(strings.TrimSpace(el[len(el)-1]))
		return a, err == nil
	}
	if x := h.Get("X-Real-Ip"); x != "" {
		a, err := netip.ParseAddr(x)
		return a, err == nil
	}
	ap, err := netip.ParseAddrPort(peer)
	return ap.Addr(), err == nil
}

// RunCluster judges a case.
func RunCluster(t *testing.T, c Cluster) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runCluster(&c, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: l.Has("forwarded"), Labels: l.List()}
}

func runCluster(c *Cluster, l *core.Labels) (string, bool) {
	k := theKube()
	k.mu.Lock()
	k.caseID = fmt.Sprint(caseNo.Add(1))
	id := k.caseID
	k.got, k.wrong, k.code = nil, "", 200
	k.mu.Unlock()
	want := k.publish(c, c.Layouts[0])
	layout := 0
	one, two := newInstance(c), newInstance(c)
	stop := func(i *instance) string {
		done := make(chan bool)
		go func() { i.st.Srv.Stop(); close(done) }()
		select {
		case <-done:
			return ""
		case <-time.After(30 * time.Second):
			return "the instance does not stop"
		}
	}
	prefix := "/" + strings.Trim(c.Prefix, "/")
	if c.Prefix == "" {
		prefix = "/api"
	}
	if prefix == "/" {
		prefix = ""
	}
	v := ""
	skip := false
	for n, o := range c.Ops {
		w := fmt.Sprintf("step %d %s", n, o.Op)
		if o.Op == "endpoints" {
			layout = o.Layout % len(c.Layouts)
			want = k.publish(c, c.Layouts[layout])
			k.mu.Lock()
			k.code = map[string]int{"": 200, "error": 500, "missing": 404}[o.State]
			k.mu.Unlock()
			if o.State != "" {
				want = nil
			}
			continue
		}
		one.fill()
		two.fill()
		one.st.Cache.UpdateConfig(&cache.HttpCacheConfig{Strict: true})
		two.st.Cache.UpdateConfig(&cache.HttpCacheConfig{Strict: true})
		before := one.state()
		method, target, body := "PURGE", "/", ""
		if o.Op == "update" {
			method, target, body = "PUT", prefix+"/cache/config/update", updates[o.Doc%len(updates)]
		}
		var rd io.Reader = strings.NewReader(body)
		if o.Chunk {
			rd = struct{ io.Reader }{rd}
		}
		req := httptest.NewRequest(method, "http://api.test:6067"+target, rd)
		req.RemoteAddr = o.Peer
		req.Header.Set("X-Case", id)
		if o.Op == "purge" && !o.NoKey {
			req.Header.Set("X-Purge-Key", o.Key)
		}
		for _, x := range o.XFF {
			req.Header.Add("X-Forwarded-For", x)
		}
		if o.XRI != "" {
			req.Header.Set("X-Real-Ip", o.XRI)
		}
		orig := req.Header.Clone()
		client, known := clientOf(o.Peer, orig)
		granted := true
		if c.ACL != "" {
			granted = false
			for _, e := range strings.Split(c.ACL, ",") {
				granted = granted || known && e == client.String()
			}
		}
		rr := httptest.NewRecorder()
		one.api.ServeHTTP(rr, req)
		bad := o.Op == "update" && strings.HasPrefix(body, "strict: [")
		expect := want
		switch {
		case !granted:
			l.Add("blocked")
			if rr.Code != 401 {
				v = fmt.Sprintf("%s: client %v is not on the access list %q, answered with %d", w, client, c.ACL, rr.Code)
			}
			expect = nil
		case bad:
			l.Add("rejected")
			if rr.Code != 400 {
				v = fmt.Sprintf("%s: a malformed update is answered with %d", w, rr.Code)
			}
			expect = nil
		case rr.Code != 200:
			v = fmt.Sprintf("%s: answered with %d", w, rr.Code)
		default:
			if before == one.state() && (o.Op == "update" || o.NoKey) {
				v = w + ": without effect"
			}
		}
		if v != "" {
			break
		}
		for end := time.Now().Add(15 * time.Second); k.count() < len(expect) && time.Now().Before(end); {
			time.Sleep(200 * time.Microsecond)
		}
		time.Sleep(2 * time.Millisecond)
		got := k.take()
		var at []string
		for _, d := range got {
			at = append(at, d.at)
		}
		slices.Sort(at)
		if !slices.Equal(at, expect) {
			v = fmt.Sprintf("%s: forwarded to %v, the peers are %v (%s)", w, at, expect, k.doc)
			break
		}
		k.mu.Lock()
		if k.wrong != "" {
			v = w + ": asked for " + k.wrong
		}
		k.mu.Unlock()
		if len(got) > 0 {
			l.Add("forwarded")
			if len(got) > 1 {
				l.Add("several")
			}
		}
		for _, d := range got {
			if v = judgeForward(w, c, o, d, body, prefix, client, known, one, two); v != "" {
				break
			}
		}
		if v != "" {
			break
		}
		if len(got) > 0 && k.count() > 0 {
			v = w + ": a forwarded message is forwarded again"
			break
		}
		if len(expect) == 0 && granted && !bad {
			l.Add("nobody")
		}
	}
	for _, i := range []*instance{one, two} {
		if s := stop(i); s != "" && v == "" {
			v = s
		}
	}
	return v, skip
}

// judgeForward has a second instance process a forwarded message.
func judgeForward(w string, c *Cluster, o MOp, d *delivered, body, prefix string, client netip.Addr, known bool, one, two *instance) string {
	if d.err != nil {
		return fmt.Sprintf("%s: the forwarded request breaks off: %v", w, d.err)
	}
	method, uri := "DELETE", prefix+"/cache/invalidate"
	if o.Op == "update" {
		method, uri = "PUT", prefix+"/cache/config/update"
	}
	if d.method != method || d.uri != uri {
		return fmt.Sprintf("%s: forwarded as %s %s instead of %s %s", w, d.method, d.uri, method, uri)
	}
	if o.Op == "purge" && d.header.Get("X-Purge-Key") != o.Key {
		return fmt.Sprintf("%s: forwarded with key %q instead of %q", w, d.header.Get("X-Purge-Key"), o.Key)
	}
	if o.Op == "update" && d.body != body {
		return fmt.Sprintf("%s: forwarded with %q instead of %q", w, d.body, body)
	}
	const sender = "203.0.113.200:7"
	if known {
		if got, ok := clientOf(sender, d.header); !ok || got != client {
			return fmt.Sprintf("%s: the request of client %v (peer %s, X-Forwarded-For %q, X-Real-Ip %q) arrives with X-Forwarded-For %q, X-Real-Ip %q: an access list sees %v",
				w, client, o.Peer, o.XFF, o.XRI, d.header.Values("X-Forwarded-For"), d.header.Get("X-Real-Ip"), got)
		}
	}
	req := httptest.NewRequest(d.method, "http://api.test"+d.uri, strings.NewReader(d.body))
	req.RemoteAddr = sender
	req.Header = d.header.Clone()
	two.fill()
	rr := httptest.NewRecorder()
	two.api.ServeHTTP(rr, req)
	if rr.Code != 200 {
		return fmt.Sprintf("%s: the forwarded message is answered with %d", w, rr.Code)
	}
	if a, b := one.state(), two.state(); a != b {
		return fmt.Sprintf("%s: after the forwarded message a peer has\n%s\nthis instance\n%s", w, b, a)
	}
	return ""
}

// GenCluster draws a case.
func GenCluster(rt *rapid.T) Cluster {
	pick := func(v ...string) string { return rapid.SampledFrom(v).Draw(rt, "pick") }
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(rt, "n") }
	c := Cluster{
		Namespace: pick("default", "prod-1"),
		Service:   pick("kache-service", "kache"),
		Prefix:    pick("", "/api", "api", "/x/y", "/x/", "/", "v1/api"),
		ACL:       pick("", "", "10.0.0.1", "10.0.0.1,2001:db8::1,10.0.0.2", "10.0.0.2,127.0.0.1"),
	}
	for i, k := 0, n(1, 2); i < k; i++ {
		var subs []Subset
		used := map[[2]int]bool{}
		for j, m := 0, rapid.SampledFrom([]int{1, 2, 3, 2, 1, 0}).Draw(rt, "subsets"); j < m; j++ {
			s := Subset{}
			port := -2
			switch rapid.SampledFrom([]int{2, 2, 2, 2, 2, 1, 0}).Draw(rt, "port") {
			case 0: // no port of the name
			case 1:
				port = -1
				s.Ports = append(s.Ports, Port{Name: "api", N: -1})
			default:
				port = n(0, 2)
				s.Ports = append(s.Ports, Port{Name: "api", N: port})
			}
			if n(0, 1) == 1 {
				s.Ports = append(s.Ports, Port{Name: pick("http", "api2", "metrics"), N: n(0, 2)})
			}
			if n(0, 3) == 3 {
				s.Ports = append([]Port{{Name: pick("http", "apis", ""), N: n(0, 2)}}, s.Ports...)
				if s.Ports[0].Name == "" {
					s.Ports[0].Name = "web"
				}
			}
			for a, b := 0, rapid.SampledFrom([]int{1, 2, 3, 2, 1, 0}).Draw(rt, "ready"); a < b; a++ {
				x := Addr{IP: n(0, len(ips)-1), Ref: n(0, 3) > 0}
				if used[[2]int{x.IP, port}] {
					continue
				}
				used[[2]int{x.IP, port}] = true
				s.Ready = append(s.Ready, x)
			}
			for a, b := 0, n(0, 2); a < b; a++ {
				x := Addr{IP: n(0, len(ips)-1), Ref: n(0, 3) > 0}
				if used[[2]int{x.IP, port}] {
					continue
				}
				used[[2]int{x.IP, port}] = true
				s.NotReady = append(s.NotReady, x)
			}
			subs = append(subs, s)
		}
		c.Layouts = append(c.Layouts, subs)
	}
	addr := func() string {
		return pick("10.0.0.1", "10.0.0.1", "10.0.0.2", "2001:db8::1", "192.0.2.77", "127.0.0.1")
	}
	for i, k := 0, rapid.SampledFrom([]int{1, 2, 3, 4, 5}).Draw(rt, "ops"); i < k; i++ {
		o := MOp{Op: pick("purge", "purge", "update", "endpoints")}
		if o.Op == "endpoints" {
			o.Layout = n(0, 1)
			o.State = pick("", "", "", "error", "missing")
			c.Ops = append(c.Ops, o)
			continue
		}
		o.Peer = net.JoinHostPort(addr(), pick("1", "40000"))
		switch n(0, 4) {
		case 0:
			o.XFF = []string{addr()}
		case 1:
			o.XFF = []string{addr() + ", " + addr()}
		case 2:
			o.XFF = []string{addr(), addr()}
		case 3:
			o.XFF = []string{""}
			if n(0, 1) == 1 {
				o.XFF = append(o.XFF, addr())
			}
		}
		if n(0, 4) == 4 {
			o.XRI = addr()
		}
		if o.Op == "purge" {
			o.Key = pick(append([]string{"kache-http://u/a*", "*", "nothing", "k*", "a b"}, keys...)...)
			if n(0, 9) == 9 {
				o.Key, o.NoKey = "", true
			}
		} else {
			o.Doc = n(0, len(updates)-1)
			o.Chunk = n(0, 2) == 2
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}
