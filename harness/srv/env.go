// Package srv checks the server, its management API and its behaviour towards upstreams over real sockets.
package srv

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

// Seen is a request as an upstream received it.
type Seen struct {
	Up     int
	Method string
	URI    string
	Host   string
	Header http.Header
	Body   string
	Err    error
}

// Upstream is an origin server on a raw socket.
type Upstream struct {
	Idx  int
	Addr string
	// Scheme is http or https.
	Scheme string
	ln     net.Listener
	// serve answers one request; it returns false to end the connection.
	serve atomic.Pointer[func(c net.Conn, s *Seen) bool]
	mu    sync.Mutex
	seen  []*Seen
	conns map[net.Conn]bool
}

var (
	upsOnce sync.Once
	ups     []*Upstream
	dead    string
)

// Upstreams returns the upstreams of this process and an address that refuses connections.
func Upstreams() ([]*Upstream, string) {
	upsOnce.Do(func() {
		for i := 0; i < 4; i++ {
			ln, err := net.Listen("tcp4", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			u := &Upstream{Idx: i, Addr: ln.Addr().String(), ln: ln, conns: map[net.Conn]bool{}, Scheme: "http"}
			if i == 3 { // the last one speaks TLS
				u.Scheme, u.ln = "https", tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{selfSigned()}})
			}
			go u.accept()
			ups = append(ups, u)
		}
		// a port that is taken but not listened on
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		if err != nil {
			panic(err)
		}
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			panic(err)
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			panic(err)
		}
		dead = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	})
	return ups, dead
}

func (u *Upstream) accept() {
	for {
		c, err := u.ln.Accept()
		if err != nil {
			return
		}
		u.mu.Lock()
		u.conns[c] = true
		u.mu.Unlock()
		go u.loop(c)
	}
}

func (u *Upstream) loop(c net.Conn) {
	defer func() {
		abort(c)
		u.mu.Lock()
		delete(u.conns, c)
		u.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		b, err := io.ReadAll(r.Body)
		s := &Seen{Up: u.Idx, Method: r.Method, URI: r.RequestURI, Host: r.Host, Header: r.Header, Body: string(b), Err: err}
		if len(r.TransferEncoding) > 0 {
			s.Header["Transfer-Encoding"] = r.TransferEncoding
		}
		u.mu.Lock()
		u.seen = append(u.seen, s)
		u.mu.Unlock()
		f := u.serve.Load()
		if f == nil || !(*f)(c, s) {
			return
		}
	}
}

// Script installs what the upstream does with requests and forgets what it saw.
func (u *Upstream) Script(f func(c net.Conn, s *Seen) bool) {
	u.mu.Lock()
	u.seen = nil
	u.mu.Unlock()
	u.serve.Store(&f)
}

// Seen returns the requests received since Script.
func (u *Upstream) Seen() []*Seen {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]*Seen(nil), u.seen...)
}

// Count is the number of requests received since Script.
func (u *Upstream) Count() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.seen) }

// CloseConns drops all connections.
func (u *Upstream) CloseConns() {
	u.mu.Lock()
	defer u.mu.Unlock()
	for c := range u.conns {
		abort(c)
	}
}

func selfSigned() tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(100 * 24 * time.Hour), DNSNames: []string{"upstream"}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

// abort closes without leaving a socket in TIME_WAIT.
func abort(c net.Conn) {
	if x, ok := c.(*tls.Conn); ok {
		c = x.NetConn()
	}
	if t, ok := c.(*net.TCPConn); ok {
		_ = t.SetLinger(0)
	}
	_ = c.Close()
}

// finish ends the output of a connection, gives the peer time to read it, and closes.
func finish(c net.Conn) {
	if t, ok := c.(interface{ CloseWrite() error }); ok {
		_ = t.CloseWrite()
	}
	_ = c.SetReadDeadline(time.Now().Add(2 * time.Second))
	_, _ = io.Copy(io.Discard, c)
}

// Front is a listening HTTP server whose handler can be replaced.
type Front struct {
	Addr string
	h    atomic.Pointer[http.Handler]
}

var (
	frontOnce sync.Once
	front     *Front
)

// TheFront returns the front server of this process.
func TheFront() *Front {
	frontOnce.Do(func() {
		ln, err := net.Listen("tcp4", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		front = &Front{Addr: ln.Addr().String()}
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			(*front.h.Load()).ServeHTTP(w, r)
		}), ErrorLog: nullLog}
		go func() { _ = s.Serve(ln) }()
	})
	return front
}

// Use installs a handler.
func (f *Front) Use(h http.Handler) { f.h.Store(&h) }

// Reply is what a client got.
type Reply struct {
	Status int
	Header http.Header
	Body   string
	Err    error // the response was visibly broken off
	Len    int64
}

// Do sends raw bytes on a new connection and reads one response.
func Do(addr string, raw []byte, method string, timeout time.Duration) Reply {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return Reply{Err: fmt.Errorf("dial: %w", err)}
	}
	defer abort(c)
	_ = c.SetDeadline(time.Now().Add(timeout))
	if _, err := c.Write(raw); err != nil {
		return Reply{Err: err}
	}
	return Read(bufio.NewReader(c), method)
}

// Read reads one response.
func Read(br *bufio.Reader, method string) Reply {
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		return Reply{Err: err}
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	return Reply{Status: resp.StatusCode, Header: resp.Header, Body: string(b), Err: err, Len: resp.ContentLength}
}

// Get does a plain GET with extra header lines.
func Get(addr, target string, lines ...string) Reply {
	var b bytes.Buffer
	fmt.Fprintf(&b, "GET %s HTTP/1.1\r\nHost: front\r\n", target)
	for _, l := range lines {
		b.WriteString(l + "\r\n")
	}
	b.WriteString("Connection: close\r\n\r\n")
	return Do(addr, b.Bytes(), "GET", 20*time.Second)
}

// Stack is one instance under test.
type Stack struct {
	Srv   *server.Server
	Cache *cache.HttpCache
	Prov  provider.Provider
	Cfg   *config.Configuration
}

// NewStack builds a server with an in-memory store.
func NewStack(cfg *config.Configuration) (*Stack, error) {
	p, err := provider.CreateCacheProvider("kache", provider.ProviderBackendConfig{Backend: "inmemory",
		InMemory: provider.InMemoryCacheConfig{MaxSize: 1 << 24, MaxItemSize: 1 << 22, DefaultTTL: "1h"}})
	if err != nil {
		return nil, err
	}
	return NewStackWith(cfg, p)
}

// NewStackWith builds a server on a store.
func NewStackWith(cfg *config.Configuration, p provider.Provider) (*Stack, error) {
	hc, err := cache.NewHttpCache(cfg.HttpCache, p)
	if err != nil {
		return nil, err
	}
	s, err := server.NewServer(cfg, p, hc, prometheus.NewRegistry())
	if err != nil {
		return nil, err
	}
	return &Stack{Srv: s, Cache: hc, Prov: p, Cfg: cfg}, nil
}
