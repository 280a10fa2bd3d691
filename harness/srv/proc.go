package srv

import (
	"bytes"
	"fmt"
	"net"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Proc is an instance in a process of its own.
type Proc struct {
	Dir, File string
	Web       []string // listener addresses
	API       string
	cmd       *exec.Cmd
	mu        sync.Mutex
	out       bytes.Buffer
	exited    chan struct{}
	state     *os.ProcessState
}

var (
	portOnce  sync.Once
	portNext  atomic.Int32
	portBase  int32
	portClaim net.Listener
)

// Ports returns free ports outside the range the kernel hands out.
func Ports(n int) []int {
	portOnce.Do(func() {
		// a window per process, claimed for as long as the process lives
		for i := int32(os.Getpid()); ; i++ {
			portBase = 10000 + i%88*250
			if ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", portBase)); err == nil {
				portClaim = ln
				return
			}
		}
	})
	var out []int
	for len(out) < n {
		p := int(portBase + 1 + portNext.Add(1)%249)
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		_ = ln.Close()
		out = append(out, p)
	}
	return out
}

// StartProc starts an instance on a configuration file.
func StartProc(bin, dir, text string, args ...string) *Proc {
	p := &Proc{Dir: dir, File: filepath.Join(dir, "kache.yml"), exited: make(chan struct{})}
	p.Put(text)
	p.cmd = exec.Command(bin, append([]string{"-config.file", p.File}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GORACE=halt_on_error=1", "GOMAXPROCS=4", "GOTRACEBACK=all"}
	if err := p.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	go func() {
		_ = p.cmd.Wait()
		p.mu.Lock()
		p.state = p.cmd.ProcessState
		p.mu.Unlock()
		close(p.exited)
	}()
	return p
}

// Put replaces the configuration file.
func (p *Proc) Put(text string) {
	tmp := p.File + ".new"
	if err := os.WriteFile(tmp, []byte(text), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.Rename(tmp, p.File); err != nil {
		panic("harness: " + err.Error())
	}
}

// Write collects the output of the process.
func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

// Output is what the process wrote so far.
func (p *Proc) Output() string { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }

// Exited reports whether the process has ended.
func (p *Proc) Exited() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// Signal sends a signal.
func (p *Proc) Signal(s syscall.Signal) { _ = p.cmd.Process.Signal(s) }

// Kill ends the process.
func (p *Proc) Kill() {
	_ = p.cmd.Process.Kill()
	<-p.exited
}

// Tail is the end of the output.
func (p *Proc) Tail() string {
	s := p.Output()
	for _, m := range []string{"WARNING: DATA RACE", "panic:", "fatal error:"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			if len(s) > 3500 {
				s = s[:3500]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// Crashed reports a crash in the output.
func (p *Proc) Crashed() bool {
	s := p.Output()
	return strings.Contains(s, "panic:") || strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine 1 [")
}

// Up waits until an address accepts connections.
func (p *Proc) Up(addr string, d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end) && !p.Exited(); time.Sleep(2 * time.Millisecond) {
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			abort(c)
			return true
		}
	}
	return false
}

// apiCall sends a management request.
func (p *Proc) apiCall(method, target, key string, setKey bool, body string) *httptest.ResponseRecorder {
	lines := ""
	if setKey {
		lines = "X-Purge-Key: " + key + "\r\n"
	}
	raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: api\r\nConnection: close\r\n%sContent-Length: %d\r\n\r\n%s", method, target, lines, len(body), body)
	r := Do(p.API, []byte(raw), method, 20*time.Second)
	rr := httptest.NewRecorder()
	if r.Err != nil {
		rr.Code = 0
		rr.Body.WriteString(r.Err.Error())
		return rr
	}
	for k, v := range r.Header {
		rr.Header()[k] = v
	}
	rr.Code = r.Status
	rr.Body.WriteString(r.Body)
	return rr
}
