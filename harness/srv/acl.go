package srv

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// ACL is an access list and requests to judge with it.
type ACL struct {
	List   []string `json:"list"`
	Glue   string   `json:"glue"` // between the elements
	Tail   string   `json:"tail,omitempty"`
	Head   string   `json:"head,omitempty"`
	Bad    bool     `json:"bad,omitempty"` // the list contains a malformed element
	Prefix string   `json:"prefix,omitempty"`
	Debug  bool     `json:"debug,omitempty"`
	Reqs   []AReq   `json:"reqs"`
}

// AReq is a management request.
type AReq struct {
	Op   string   `json:"op"`
	Peer string   `json:"peer"`
	XFF  []string `json:"xff,omitempty"` // header lines
	XRI  string   `json:"xri,omitempty"`
}

// client finds the client address; ok is false if it cannot be parsed. judge is false if the statement
// leaves the case open.
func (r AReq) client() (a netip.Addr, ok, judge bool) {
	judge = true
	s, have := "", false
	if len(r.XFF) > 0 {
		el := strings.Split(strings.Join(r.XFF, ","), ",")
		last := strings.TrimSpace(el[len(el)-1])
		if last == "" { // an empty last element: either that one or the last real one
			return a, false, false
		}
		s, have = last, true
	}
	if !have && r.XRI != "" {
		s, have = r.XRI, true
		if strings.TrimSpace(s) != s {
			judge = false
		}
	}
	if !have {
		ap, err := netip.ParseAddrPort(r.Peer)
		if err != nil {
			return a, false, true
		}
		a = ap.Addr()
	} else {
		var err error
		if a, err = netip.ParseAddr(s); err != nil {
			return a, false, judge
		}
	}
	if a.Zone() != "" {
		judge = false
	}
	return a, true, judge
}

// allowed decides membership on the bits of the addresses.
func allowed(list []string, a netip.Addr) (yes, judge bool) {
	judge = true
	if a.Is4In6() {
		judge = false
	}
	for _, e := range list {
		if i := strings.IndexByte(e, '/'); i >= 0 {
			n, err := netip.ParseAddr(e[:i])
			if err != nil {
				panic(e)
			}
			var bits int
			fmt.Sscan(e[i+1:], &bits)
			if n.Is4In6() {
				judge = false
			}
			if n.BitLen() != a.BitLen() {
				continue
			}
			x, y := n.AsSlice(), a.AsSlice()
			same := true
			for b := 0; b < bits; b++ {
				if (x[b/8]^y[b/8])&(0x80>>(b%8)) != 0 {
					same = false
					break
				}
			}
			if same {
				return true, judge
			}
			continue
		}
		n, err := netip.ParseAddr(e)
		if err != nil {
			panic(e)
		}
		if n.Is4In6() {
			judge = false
		}
		if n == a {
			return true, judge
		}
	}
	return false, judge
}

// RunACL judges an access list.
func RunACL(t *testing.T, sc ACL) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runACL(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("blocked") || l.Has("granted") || l.Has("malformed"), Labels: l.List()}
}

type snapshot struct {
	keys string
	cfg  string
	hook int
}

func runACL(sc *ACL, l *core.Labels) string {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 1 << 16, DefaultTTL: "1h"})
	if err != nil {
		panic(err)
	}
	acl := sc.Head + strings.Join(sc.List, sc.Glue) + sc.Tail
	cfg := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}, Provider: &provider.ProviderBackendConfig{Backend: "inmemory"},
		API: &config.API{ACL: acl, Prefix: sc.Prefix, Debug: sc.Debug}}
	st, err := NewStackWith(cfg, p)
	if err != nil {
		panic(err)
	}
	a, err := api.New(*cfg.API, st.Srv)
	if sc.Bad {
		if err == nil {
			return fmt.Sprintf("the malformed access list %q is accepted", acl)
		}
		l.Add("malformed")
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the access list %q is refused: %v", acl, err)
	}
	hook := 0
	a.RegisterRoute(http.MethodPost, "/cache/config/reload", func(w http.ResponseWriter, r *http.Request) { hook++ })
	prefix := "/" + strings.Trim(sc.Prefix, "/")
	if sc.Prefix == "" {
		prefix = "/api"
	}
	fill := func() {
		p.Set("k1", []byte("1"), time.Hour)
		p.Set("k2", []byte("2"), time.Hour)
	}
	snap := func() snapshot {
		b, _ := json.Marshal(st.Cache.Config())
		n := fmt.Sprint(p.Get(context.Background(), "k1"), p.Get(context.Background(), "k2"), p.Size())
		return snapshot{keys: n, cfg: string(b), hook: hook}
	}
	for n, r := range sc.Reqs {
		fill()
		st.Cache.UpdateConfig(&cache.HttpCacheConfig{Strict: true})
		before := snap()
		method, target, body := "GET", "", ""
		switch r.Op {
		case "purge":
			method, target = "PURGE", "/"
		case "invalidate":
			method, target = "DELETE", prefix+"/cache/invalidate"
		case "flush":
			method, target = "DELETE", prefix+"/cache/flush"
		case "keys":
			target = prefix + "/cache/keys"
		case "config":
			target = prefix + "/cache/config"
		case "update":
			method, target, body = "PUT", prefix+"/cache/config/update", "strict: false\n"
		case "reload":
			method, target = "POST", prefix+"/cache/config/reload"
		case "version":
			target = "/version"
		case "metrics":
			target = "/metrics"
		case "vars":
			target = "/debug/vars"
		case "pprof":
			target = "/debug/pprof/"
		case "cmdline":
			target = "/debug/pprof/cmdline"
		}
		req := httptest.NewRequest(method, "http://api"+target, strings.NewReader(body))
		req.RemoteAddr = r.Peer
		req.Header.Set("X-Purge-Key", "k1")
		for _, x := range r.XFF {
			req.Header.Add("X-Forwarded-For", x)
		}
		if r.XRI != "" {
			req.Header.Set("X-Real-Ip", r.XRI)
		}
		rr := httptest.NewRecorder()
		a.ServeHTTP(rr, req)
		after := snap()
		w := fmt.Sprintf("request %d: %s %s from peer %q, X-Forwarded-For %q, X-Real-Ip %q, access list %q", n, method, target, r.Peer, r.XFF, r.XRI, acl)
		isDebug := strings.HasPrefix(target, "/debug")
		if isDebug && !sc.Debug {
			if rr.Code != 404 && rr.Code != 401 {
				return fmt.Sprintf("%s: debug endpoint answers with %d although disabled", w, rr.Code)
			}
			l.Add("debug-off")
			continue
		}
		if rr.Code == 401 && after != before {
			return w + ": answered with 401, but has been carried out"
		}
		if rr.Code == 401 && len(rr.Body.String()) > 200 {
			return w + ": answered with 401 and the content"
		}
		if rr.Code != 401 && rr.Code != 200 {
			return fmt.Sprintf("%s: answered with %d", w, rr.Code)
		}
		served := rr.Code == 200
		if served {
			done := true
			switch r.Op {
			case "purge", "invalidate":
				done = p.Get(context.Background(), "k1") == nil && p.Get(context.Background(), "k2") != nil
			case "flush":
				done = p.Size() == 0
			case "update":
				done = !st.Cache.Strict()
			case "reload":
				done = after.hook == before.hook+1
			}
			if !done {
				return w + ": answered with 200, but not carried out"
			}
		}
		if len(sc.List) == 0 {
			if !served {
				return w + ": blocked although there is no access list"
			}
			l.Add("open")
			continue
		}
		addr, ok, judge := r.client()
		want := false
		if ok {
			var j2 bool
			want, j2 = allowed(sc.List, addr)
			judge = judge && j2
		}
		if !judge {
			l.Add("open-question")
			continue
		}
		if served != want {
			return fmt.Sprintf("%s: served=%v, expected %v", w, served, want)
		}
		switch {
		case want:
			l.Add("granted", "granted-"+r.Op)
		case !ok:
			l.Add("blocked", "blocked-unparsable")
		default:
			l.Add("blocked", "blocked-"+r.Op)
		}
		if len(r.XFF) > 1 {
			l.Add("several-lines")
		}
		if addr.Is6() {
			l.Add("v6")
		}
	}
	return ""
}

var aclOps = []string{"purge", "invalidate", "flush", "keys", "config", "update", "reload", "version", "metrics", "vars", "pprof", "cmdline"}

func genAddr(rt *rapid.T, list []string) string {
	// close to something listed
	if len(list) > 0 && rapid.IntRange(0, 3).Draw(rt, "near") > 0 {
		e := rapid.SampledFrom(list).Draw(rt, "of")
		bits := -1
		if i := strings.IndexByte(e, '/'); i >= 0 {
			fmt.Sscan(e[i+1:], &bits)
			e = e[:i]
		}
		a, err := netip.ParseAddr(e)
		if err != nil {
			return "10.0.0.1"
		}
		b := a.AsSlice()
		switch rapid.IntRange(0, 3).Draw(rt, "how") {
		case 0: // flip a bit around the mask boundary
			if bits >= 0 {
				k := bits + rapid.IntRange(-2, 1).Draw(rt, "k")
				if k >= 0 && k < len(b)*8 {
					b[k/8] ^= 0x80 >> (k % 8)
				}
			} else {
				k := rapid.IntRange(0, len(b)*8-1).Draw(rt, "k")
				b[k/8] ^= 0x80 >> (k % 8)
			}
		case 1: // random host part
			for k := max(bits, 0); bits >= 0 && k < len(b)*8; k++ {
				if rapid.Bool().Draw(rt, "bit") {
					b[k/8] ^= 0x80 >> (k % 8)
				}
			}
		}
		x, _ := netip.AddrFromSlice(b)
		return x.String()
	}
	if rapid.IntRange(0, 2).Draw(rt, "v6") == 0 {
		return rapid.SampledFrom([]string{"::1", "2001:db8::1", "2001:db8:0:1::5", "fe80::1", "fd00::abcd", "::"}).Draw(rt, "a6")
	}
	return rapid.SampledFrom([]string{"127.0.0.1", "10.0.0.1", "10.22.0.0", "10.22.0.1", "192.168.1.7", "192.168.2.7", "172.16.5.4", "8.8.8.8", "0.0.0.0", "255.255.255.255"}).Draw(rt, "a4")
}

// GenACL draws an access list with requests.
func GenACL(rt *rapid.T) ACL {
	sc := ACL{Glue: rapid.SampledFrom([]string{",", ", ", " , "}).Draw(rt, "glue"), Prefix: rapid.SampledFrom([]string{"", "", "kache", "/v1/api/"}).Draw(rt, "prefix")}
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 5}).Draw(rt, "n")
	if rapid.IntRange(0, 49).Draw(rt, "large") == 0 {
		n = rapid.IntRange(9, 80).Draw(rt, "many")
	}
	kind := rapid.IntRange(0, 3).Draw(rt, "kind") // 0 mixed, 1 networks only, 2 addresses only, 3 mixed
	for i := 0; i < n; i++ {
		a := genAddr(rt, nil)
		if kind == 1 || (kind != 2 && rapid.Bool().Draw(rt, "net")) {
			bits := rapid.SampledFrom([]int{0, 1, 7, 8, 9, 15, 16, 20, 24, 25, 30, 31, 32}).Draw(rt, "bits")
			if strings.Contains(a, ":") {
				bits = rapid.SampledFrom([]int{0, 1, 10, 32, 47, 48, 63, 64, 65, 96, 127, 128}).Draw(rt, "bits6")
			}
			if bits == 0 && rapid.IntRange(0, 3).Draw(rt, "not0") > 0 {
				bits = 12
			}
			a = fmt.Sprintf("%s/%d", a, bits)
		}
		sc.List = append(sc.List, a)
	}
	if n > 0 {
		sc.Tail = rapid.SampledFrom([]string{"", "", "", ",", " "}).Draw(rt, "tail")
		sc.Head = rapid.SampledFrom([]string{"", "", "", ",", " "}).Draw(rt, "head")
	}
	if rapid.IntRange(0, 7).Draw(rt, "bad") == 0 {
		sc.Bad = true
		bad := rapid.SampledFrom([]string{"300.1.1.1", "1.2.3", "localhost", "1.2.3.4/33", "1.2.3.4/-1", "1.2.3.4/", "/8", "2001:db8::/129", "1.2.3.4:80", "[::1]", "1.2.3.4-1.2.3.9", "1.2.3.*", "10.0.0.0/255.0.0.0", "::1::", "0x7f.0.0.1", "1.2.3.4;5.6.7.8", "1.2.3.4 5.6.7.8", "10.0.0.0//8"}).Draw(rt, "badv")
		k := rapid.IntRange(0, len(sc.List)).Draw(rt, "badat")
		sc.List = append(sc.List[:k], append([]string{bad}, sc.List[k:]...)...)
		return sc
	}
	sc.Debug = rapid.IntRange(0, 9).Draw(rt, "debug") == 0
	m := rapid.IntRange(1, 6).Draw(rt, "m")
	for i := 0; i < m; i++ {
		r := AReq{Op: rapid.SampledFrom(aclOps).Draw(rt, "op")}
		a := genAddr(rt, sc.List)
		port := rapid.IntRange(1, 65535).Draw(rt, "port")
		if strings.Contains(a, ":") {
			a = "[" + a + "]"
		}
		r.Peer = fmt.Sprintf("%s:%d", a, port)
		if rapid.IntRange(0, 19).Draw(rt, "badpeer") == 0 {
			r.Peer = rapid.SampledFrom([]string{"", "@", "pipe", "10.0.0.1", "::1", "1.2.3.4.5:80"}).Draw(rt, "badpeerv")
		}
		el := func() string {
			if rapid.IntRange(0, 7).Draw(rt, "badel") == 0 {
				return rapid.SampledFrom([]string{"unknown", "_hidden", "1.2.3.4:80", "[::1]", "[::1]:80", "10.0.0.1/8", "010.0.0.1", "127.1", "for=1.2.3.4"}).Draw(rt, "badelv")
			}
			return genAddr(rt, sc.List)
		}
		if rapid.IntRange(0, 2).Draw(rt, "hasxff") == 0 {
			for j := 0; j < rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "lines"); j++ {
				var e []string
				for k := 0; k < rapid.IntRange(1, 3).Draw(rt, "els"); k++ {
					e = append(e, el())
				}
				r.XFF = append(r.XFF, strings.Join(e, rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(rt, "sep")))
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "hasxri") == 0 {
			r.XRI = el()
			if rapid.IntRange(0, 5).Draw(rt, "xrilist") == 0 {
				r.XRI += rapid.SampledFrom([]string{", ", ",", " ", ";"}).Draw(rt, "xrisep") + el()
			}
		}
		sc.Reqs = append(sc.Reqs, r)
	}
	return sc
}
