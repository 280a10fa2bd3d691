// Package conf checks the configuration loader and start-up.
package conf

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"pgregory.net/rapid"
)

// node is a piece of a document. kind says what the field it stands for takes.
type node struct {
	kind string // str int uint bool dur strct map list
	text string // scalars, as written
	keys []string
	vals []*node
}

// Doc is a file content with what it should load as.
type Doc struct {
	Text string `json:"text"`
	Why  string `json:"bad,omitempty"` // why it is to be rejected
	Want string `json:"want,omitempty"`
}

type gen struct {
	rt    *rapid.T
	plain bool // values an instance can start with
}

func (g *gen) pct(p int) bool { return rapid.IntRange(0, 99).Draw(g.rt, "pct") < p }
func (g *gen) pick(v ...string) string {
	return rapid.SampledFrom(v).Draw(g.rt, "pick")
}

// write draws a spelling of a string value.
func (g *gen) write(v string) string {
	plainOK := v != "" && v != "~" && !strings.ContainsAny(v, ":#{}[],&*!|>'\"%@`\\\n\t?") && strings.TrimSpace(v) == v && v[0] != '-' && v[0] != '.' && v[0] != '=' && v[0] != '<' && !strings.Contains(v, " ")
	switch v {
	case "true", "false", "null", "yes", "no", "on", "off", "y", "n":
		plainOK = false
	}
	if plainOK && g.pct(60) {
		return v
	}
	printable := true
	for _, r := range v {
		if r < 32 || r > 126 {
			printable = false
		}
	}
	if printable && g.pct(50) {
		return "'" + strings.ReplaceAll(v, "'", "''") + "'"
	}
	return quote(v)
}

// quote is a double-quoted YAML scalar.
func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 32 || r == 0x7f || r > 126 && r < 0xa0:
			fmt.Fprintf(&b, `\x%02X`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (n *node) add(k string, v *node) { n.keys = append(n.keys, k); n.vals = append(n.vals, v) }

// obj draws the fields of a section.
type obj struct {
	g *gen
	n *node
	p int
}

func (g *gen) obj(p int) obj { return obj{g, &node{kind: "strct"}, p} }

func (o obj) null(k string) bool {
	if !o.g.plain && o.g.pct(5) {
		o.n.add(k, &node{kind: "null", text: o.g.pick("", "~", "null")})
		return true
	}
	return false
}

func (o obj) str(k string, dst *string, vals ...string) {
	if !o.g.pct(o.p) || o.null(k) {
		return
	}
	v := o.g.pick(vals...)
	if !o.g.plain && o.g.pct(8) {
		v = rapid.OneOf(rapid.StringMatching(`[ -~]{0,20}`), rapid.SampledFrom([]string{"grüße", "a\nb", "x: y", "#no", "- z", "12", "0x1F", "1e3", "2001-01-01", "a  b", " lead", "日本"})).Draw(o.g.rt, "free")
	}
	*dst = v
	o.n.add(k, &node{kind: "str", text: o.g.write(v)})
}

func (o obj) boolean(k string, dst *bool) {
	if !o.g.pct(o.p) || o.null(k) {
		return
	}
	*dst = o.g.pct(50)
	t := "false"
	if *dst {
		t = "true"
	}
	if o.g.pct(20) {
		t = strings.ToUpper(t[:1]) + t[1:]
	}
	o.n.add(k, &node{kind: "bool", text: t})
}

func (o obj) num(k string, dst *int, vals ...int) {
	if !o.g.pct(o.p) || o.null(k) {
		return
	}
	*dst = rapid.SampledFrom(vals).Draw(o.g.rt, "num")
	o.n.add(k, &node{kind: "int", text: strconv.Itoa(*dst)})
}

func (o obj) unum(k string, dst *uint64, vals ...uint64) {
	if !o.g.pct(o.p) || o.null(k) {
		return
	}
	*dst = rapid.SampledFrom(vals).Draw(o.g.rt, "num")
	o.n.add(k, &node{kind: "uint", text: strconv.FormatUint(*dst, 10)})
}

func (o obj) dur(k string, dst *time.Duration) {
	if !o.g.pct(90) || o.null(k) {
		return
	}
	t := o.g.pick("10s", "1m", "1h30m", "86400s", "250ms", "0s", "1.5s")
	*dst, _ = time.ParseDuration(t)
	t = o.g.write(t)
	o.n.add(k, &node{kind: "dur", text: t})
}

// section says if a section is present with a value.
func (o obj) section(k string, p int) bool {
	if !o.g.pct(p) {
		return false
	}
	return !o.null(k)
}

// document draws a well-formed document and what it says.
func (g *gen) document() (*node, *config.Configuration) {
	c := &config.Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}}
	root := g.obj(100)
	const some = 60
	fns := []func(){
		func() {
			if !root.section("listeners", 95) {
				return
			}
			c.Listeners = config.Listeners{}
			m := &node{kind: "map"}
			for i, n := 0, rapid.IntRange(1, 3).Draw(g.rt, "nl"); i < n; i++ {
				l := &config.Listener{}
				o := g.obj(90)
				o.str("addr", &l.Addr, ":80", "127.0.0.1:8080", "[::1]:3128", "localhost:0")
				name := fmt.Sprint("web", i)
				c.Listeners[name] = l
				m.add(name, o.n)
			}
			root.n.add("listeners", m)
		},
		func() {
			if !root.section("upstreams", 95) {
				return
			}
			l := &node{kind: "list"}
			c.Upstreams = config.Upstreams{}
			for i, n := 0, rapid.IntRange(0, 3).Draw(g.rt, "nu"); i < n; i++ {
				u := &config.Upstream{}
				o := g.obj(90)
				o.str("name", &u.Name, "service1", "a b", "svc-2")
				o.str("addr", &u.Addr, "http://localhost:8000", "https://example.com/base", "http://10.0.0.1")
				o.str("path", &u.Path, "/", "/service1", "/{id:[0-9]+}", "")
				c.Upstreams = append(c.Upstreams, u)
				l.vals = append(l.vals, o.n)
			}
			root.n.add("upstreams", l)
		},
		func() {
			if !g.pct(85) || root.null("cache") {
				return
			}
			h := c.HttpCache
			o := g.obj(some)
			o.boolean("strict", &h.Strict)
			o.boolean("x_header", &h.XCache)
			o.str("x_header_name", &h.XCacheName, "x-kache", "X-Cache")
			o.str("default_ttl", &h.DefaultTTL, "120s", "1h", "10")
			o.str("default_cache_control", &h.DefaultCacheControl, "max-age=120", "public, max-age=1", "no-store")
			o.boolean("force_cache_control", &h.ForceCacheControl)
			if o.section("timeouts", some) {
				l := &node{kind: "list"}
				h.Timeouts = []cache.Timeout{}
				for i, n := 0, rapid.IntRange(0, 3).Draw(g.rt, "nt"); i < n; i++ {
					t := cache.Timeout{}
					x := g.obj(90)
					x.str("path", &t.Path, "/news", "^/assets/([a-z0-9].*).css", "(", "")
					x.dur("ttl", &t.TTL)
					h.Timeouts = append(h.Timeouts, t)
					l.vals = append(l.vals, x.n)
				}
				o.n.add("timeouts", l)
			}
			if o.section("exclude", some) {
				e := &cache.Exclude{}
				x := g.obj(some)
				if x.section("path", some) {
					l := &node{kind: "list"}
					e.Path = []string{}
					for i, n := 0, rapid.IntRange(0, 3).Draw(g.rt, "np"); i < n; i++ {
						v := g.pick("^/admin", "^/.well-known/acme-challenge/(.*)", "a'b", "\\.png$", "[")
						e.Path = append(e.Path, v)
						l.vals = append(l.vals, &node{kind: "str", text: g.write(v)})
					}
					x.n.add("path", l)
				}
				if x.section("header", some) {
					m := &node{kind: "map"}
					e.Header = map[string]string{}
					for _, k := range []string{"x_requested_with", "X-No-Cache"} {
						if g.pct(60) {
							v := g.pick("XMLHttpRequest", "1", "true", "a: b")
							e.Header[k] = v
							m.add(k, &node{kind: "str", text: g.write(v)})
						}
					}
					x.n.add("header", m)
				}
				if x.section("content", some) {
					l := &node{kind: "list"}
					e.Content = []cache.Content{}
					for i, n := 0, rapid.IntRange(0, 2).Draw(g.rt, "nc"); i < n; i++ {
						t := cache.Content{}
						y := g.obj(80)
						y.str("type", &t.Type, "text/javascript|text/css|image/.*", "json", ".*")
						y.num("size", &t.Size, 0, 1, 1000000, -5)
						e.Content = append(e.Content, t)
						l.vals = append(l.vals, y.n)
					}
					x.n.add("content", l)
				}
				h.Exclude = e
				o.n.add("exclude", x.n)
			}
			root.n.add("cache", o.n)
		},
		func() {
			if !root.section("provider", 85) {
				return
			}
			p := &provider.ProviderBackendConfig{}
			o := g.obj(some)
			if g.plain {
				o.str("backend", &p.Backend, "inmemory", "inmemory", "inmemory", "redis", "memcached", "")
			} else {
				o.str("backend", &p.Backend, "inmemory", "redis", "other")
			}
			o.boolean("layered", &p.Layered)
			o.str("layered_ttl", &p.LayeredTTL, "10s", "x")
			if o.section("inmemory", some) {
				x := g.obj(some)
				x.unum("max_size", &p.InMemory.MaxSize, 0, 1, 1000, 1000000000, 1<<63)
				x.unum("max_item_size", &p.InMemory.MaxItemSize, 0, 1, 500, 50000000)
				x.str("default_ttl", &p.InMemory.DefaultTTL, "120s", "-1", "")
				o.n.add("inmemory", x.n)
			}
			if o.section("redis", some) {
				r := &p.Redis
				x := g.obj(some)
				x.str("endpoint", &r.Endpoint, "127.0.0.1:1", "127.0.0.1:1,127.0.0.1:2")
				x.str("username", &r.Username, "u", "")
				x.str("password", &r.Password, "s3cr:t #1", "")
				x.num("db", &r.DB, 0, 1, 15)
				x.num("max_item_size", &r.MaxItemSize, 0, 10000000)
				x.num("max_queue_buffer_size", &r.MaxQueueBufferSize, 0, 24000)
				x.num("max_queue_concurrency", &r.MaxQueueConcurrency, 0, 1, 56)
				o.n.add("redis", x.n)
			}
			c.Provider = p
			root.n.add("provider", o.n)
		},
		func() {
			if g.plain || !root.section("cluster", 30) {
				return
			}
			k := &cluster.Config{}
			o := g.obj(some)
			o.str("discovery", &k.Discovery, "kubernetes", "dns")
			o.str("namespace", &k.Namespace, "default", "a-b")
			o.str("service", &k.Service, "kache-service")
			c.Cluster = k
			root.n.add("cluster", o.n)
		},
		func() {
			if !root.section("api", 85) {
				return
			}
			a := &config.API{}
			o := g.obj(some)
			o.num("port", &a.Port, 6067, 0, 80, -1)
			o.str("prefix", &a.Prefix, "/api", "api", "/", "/x/y/")
			o.str("acl", &a.ACL, "127.0.0.1, 10.22.0.0/16", "::1", "bogus", "")
			o.boolean("debug", &a.Debug)
			c.API = a
			root.n.add("api", o.n)
		},
		func() {
			if !root.section("logging", 70) {
				return
			}
			l := &config.Log{}
			o := g.obj(some)
			o.str("level", &l.Level, "debug", "INFO", "bogus")
			o.str("format", &l.Format, "json", "console")
			o.boolean("color", &l.Color)
			o.str("file", &l.File, "/nonexistent/kache.log", "")
			o.num("max_size", &l.MaxSize, 0, 500)
			o.num("max_age", &l.MaxAge, 0, 28)
			o.num("max_backups", &l.MaxBackups, 0, 3)
			o.boolean("compress", &l.Compress)
			c.Log = l
			root.n.add("logging", o.n)
		},
	}
	order := make([]int, len(fns))
	for i := range order {
		order[i] = i
	}
	for _, i := range rapid.Permutation(order).Draw(g.rt, "order") {
		fns[i]()
	}
	return root.n, c
}

// render writes a document.
func (g *gen) render(n *node) string {
	if n.kind == "raw" {
		return n.text
	}
	var b strings.Builder
	if g.pct(20) {
		b.WriteString("---\n")
	}
	if len(n.keys) == 0 {
		b.WriteString("{}\n")
		return b.String()
	}
	g.block(&b, n, 0)
	return b.String()
}

func (g *gen) comment(b *strings.Builder, ind int) {
	if g.pct(5) {
		b.WriteString(strings.Repeat(" ", ind) + "# comment: [x\n")
	}
	if g.pct(3) {
		b.WriteString("\n")
	}
}

func (n *node) leaf() bool { return n.kind != "strct" && n.kind != "map" && n.kind != "list" }

func (n *node) empty() bool { return len(n.keys) == 0 && len(n.vals) == 0 }

func (g *gen) flow(n *node) string {
	var p []string
	switch {
	case n.leaf():
		if n.text == "" {
			return "null"
		}
		if n.kind == "raw" {
			return n.text
		}
		if !strings.ContainsAny(n.text[:1], `'"`) && strings.ContainsAny(n.text, ",[]{}:") {
			return quote(n.text)
		}
		return n.text
	case n.kind == "list":
		for _, v := range n.vals {
			p = append(p, g.flow(v))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	for i, v := range n.vals {
		p = append(p, n.keys[i]+": "+g.flow(v))
	}
	return "{" + strings.Join(p, ", ") + "}"
}

func (g *gen) value(b *strings.Builder, v *node, ind int) {
	switch {
	case v.leaf():
		b.WriteString(" " + v.text + "\n")
	case v.empty() || g.pct(12):
		b.WriteString(" " + g.flow(v) + "\n")
	default:
		b.WriteString("\n")
		g.block(b, v, ind+rapid.SampledFrom([]int{2, 2, 4, 1}).Draw(g.rt, "ind"))
	}
}

func (g *gen) block(b *strings.Builder, n *node, ind int) {
	pad := strings.Repeat(" ", ind)
	if n.kind == "list" {
		for _, v := range n.vals {
			b.WriteString(pad + "-")
			if v.leaf() || v.empty() || g.pct(30) {
				b.WriteString(" " + g.flow(v) + "\n")
				continue
			}
			b.WriteString("\n")
			g.block(b, v, ind+2)
		}
		return
	}
	for i, v := range n.vals {
		g.comment(b, ind)
		b.WriteString(pad + n.keys[i] + ":")
		g.value(b, v, ind)
	}
}

// all collects the nodes of a document.
func all(n *node, out *[]*node) {
	*out = append(*out, n)
	for _, v := range n.vals {
		all(v, out)
	}
}

// damage makes a document one that must be rejected, and says why.
func (g *gen) damage(n *node) (text, why string) {
	var nodes []*node
	all(n, &nodes)
	some := func(kinds ...string) *node {
		var c []*node
		for _, x := range nodes {
			for _, k := range kinds {
				if x.kind == k && x != n {
					c = append(c, x)
				}
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[rapid.IntRange(0, len(c)-1).Draw(g.rt, "at")]
	}
	switch g.pick("unknown", "unknown", "type", "type", "type", "dup", "syntax", "syntax", "empty") {
	case "unknown":
		x := some("strct")
		if x == nil || g.pct(25) {
			x = n
		}
		k := g.pick("bogus", "Strict", "adress", "stric", "x-header", "Listeners", "ttls", "global", "host")
		x.add(k, &node{kind: "str", text: g.pick("1", "x", "", "[]")})
		return g.render(n), "unknown field " + k
	case "dup":
		x := some("strct")
		if x == nil || len(x.keys) == 0 {
			x = n
		}
		if len(x.keys) > 0 {
			x.add(x.keys[0], x.vals[0])
			return g.render(n), "duplicate field " + x.keys[0]
		}
	case "type":
		x := some("str", "int", "uint", "bool", "dur", "map", "list", "strct")
		if x == nil {
			break
		}
		why := x.kind
		switch x.kind {
		case "str":
			x.text = g.pick("[a]", "{a: b}", "[]")
		case "int":
			x.text = g.pick("abc", "[1]", "{a: 1}", "true", "'x'", "99999999999999999999999")
		case "uint":
			x.text = g.pick("-1", "abc", "[]", "true")
		case "bool":
			x.text = g.pick("maybe", "3", "[]", "{a: b}", "1.0", "\"yess\"")
		case "dur":
			x.text = g.pick("ten", "10x", "[]", "{}", "true", "1.5")
		case "map", "strct":
			x.text = g.pick("text", "5", "[a, b]", "true")
		case "list":
			x.text = g.pick("text", "5", "{a: b}", "true")
		}
		why += " field given " + x.text
		x.kind, x.keys, x.vals = "raw", nil, nil
		return g.render(n), why
	case "syntax":
		t := g.render(n)
		s := g.pick("bad: [1, 2\n", "bad: {a: 1\n", "bad: \"open\n", "\tbad: 1\n", "a: b: c\n", "- item\n", "bad: @x\n", "bad: `x`\n", "bad: *nowhere\n", "}\n", "\x01\n", "bad: !!int abc\n", "? \n bad\n: - -\n]\n", "just text\n", "bad: \xff\xfe\n")
		if strings.HasPrefix(t, "{") || strings.HasPrefix(t, "---\n{") {
			return s, "malformed: " + s
		}
		if g.pct(50) {
			return t + s, "malformed: " + s
		}
		return s + strings.TrimPrefix(t, "---\n"), "malformed: " + s
	}
	return g.pick("", "\n", "# nothing\n", "   \n"), "no document"
}

// GenDoc draws a document.
func GenDoc(rt *rapid.T, bad int) Doc {
	g := &gen{rt: rt}
	n, c := g.document()
	if g.pct(bad) {
		t, why := g.damage(n)
		return Doc{Text: t, Why: why}
	}
	return Doc{Text: g.render(n), Want: dump(c)}
}

func dump(c *config.Configuration) string {
	b, err := json.Marshal(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}
