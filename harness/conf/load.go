package conf

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// History is a history of a configuration file.
type History struct {
	Docs  []Doc `json:"docs"`
	First int   `json:"first"` // the document in the file at the start, -1: no file
	Watch bool  `json:"watch,omitempty"`
	Late  int   `json:"late"`           // document written between the creation of the loader and the start of the watch, -1: none
	Slow  int   `json:"slow,omitempty"` // how long the consumer takes for an event, ms
	Ops   []Op  `json:"ops"`
}

// Op is a step.
type Op struct {
	Op  string `json:"op"` // write touch remove dir load wait
	Doc int    `json:"doc,omitempty"`
	N   int    `json:"n,omitempty"` // watch intervals
}

type file struct {
	path string
	doc  int // -1: nothing there, -2: a directory
	seq  int
}

func (f *file) put(docs []Doc, i int, atomically bool) {
	if f.doc == -2 {
		must(os.Remove(f.path))
	}
	f.doc = i
	switch i {
	case -1:
		if err := os.Remove(f.path); err != nil && !os.IsNotExist(err) {
			panic("harness: " + err.Error())
		}
	case -2:
		_ = os.Remove(f.path)
		must(os.Mkdir(f.path, 0o755))
	default:
		if !atomically {
			must(os.WriteFile(f.path, []byte(docs[i].Text), 0o644))
			return
		}
		must(os.WriteFile(f.path+".new", []byte(docs[i].Text), 0o644))
		must(os.Rename(f.path+".new", f.path))
	}
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// model follows what the loader is to hold.
type model struct {
	docs []Doc
	cur  int // the loaded document
}

// load returns whether loading succeeds and whether it is a change; same says that only the spelling changed.
func (m *model) load(doc int) (ok, changed, same bool) {
	if doc < 0 || m.docs[doc].Why != "" {
		return false, false, false
	}
	if m.cur >= 0 && m.docs[m.cur].Text == m.docs[doc].Text {
		return true, false, false
	}
	same = m.cur >= 0 && m.docs[m.cur].Want == m.docs[doc].Want
	m.cur = doc
	return true, true, same
}

func (m *model) why(doc int) string {
	switch {
	case doc == -1:
		return "the file does not exist"
	case doc == -2:
		return "the path is a directory"
	}
	return m.docs[doc].Why
}

func (m *model) config(l *config.Loader) string {
	c := l.Config()
	if c == nil {
		return "no configuration"
	}
	if got := dump(c); got != m.docs[m.cur].Want {
		return fmt.Sprintf("the configuration is\n%s\ninstead of\n%s\nfor the document\n%s", got, m.docs[m.cur].Want, m.docs[m.cur].Text)
	}
	return ""
}

// RunHistory judges a history.
func RunHistory(t *testing.T, h History) core.Result {
	l := &core.Labels{}
	v := ""
	dir, err := os.MkdirTemp("", "verif-conf")
	must(err)
	defer os.RemoveAll(dir)
	run := func() {
		if g := core.Guard(func() { v = runHistory(&h, dir, l) }); g != "" {
			v = g
		}
	}
	if h.Watch {
		if d := core.Bubble(t, run); d != "" && v == "" {
			v = "deadlock: " + d
		}
	} else {
		run()
	}
	return core.Result{Violation: v, NonTrivial: l.Has("loaded") && (l.Has("rejected") || l.Has("changed")), Labels: l.List()}
}

const interval = time.Second

func runHistory(h *History, dir string, l *core.Labels) string {
	f := &file{path: filepath.Join(dir, "kache.yml"), doc: -1}
	if h.First != -1 {
		f.put(h.Docs, h.First, false)
	}
	m := &model{docs: h.Docs, cur: -1}
	ldr, err := config.NewLoader(f.path, h.Watch, interval)
	ok, _, _ := m.load(f.doc)
	if ok != (err == nil) {
		if ok {
			return fmt.Sprintf("a well-formed document is rejected: %v\n%s", err, h.Docs[f.doc].Text)
		}
		return fmt.Sprintf("accepted although %s\n%s", m.why(f.doc), text(h.Docs, f.doc))
	}
	if !ok {
		l.Add("refused-at-start")
		if ldr != nil {
			return "a loader is returned together with an error"
		}
		// a well-formed document afterwards gives a loader
		for i, d := range h.Docs {
			if d.Why == "" {
				f.put(h.Docs, i, false)
				if ldr, err = config.NewLoader(f.path, h.Watch, interval); err != nil {
					return fmt.Sprintf("a well-formed document is rejected: %v\n%s", err, d.Text)
				}
				m.load(i)
			}
			if ldr != nil {
				break
			}
		}
		if ldr == nil {
			return ""
		}
	}
	l.Add("loaded")
	if s := m.config(ldr); s != "" {
		return "at the start: " + s
	}
	if ldr.Path() != f.path || ldr.AutoReload() != h.Watch {
		return fmt.Sprintf("path %q, auto-reload %v", ldr.Path(), ldr.AutoReload())
	}
	if h.Watch {
		return runWatch(h, f, m, ldr, l)
	}
	for i, o := range h.Ops {
		what := fmt.Sprintf("step %d (%s)", i, o.Op)
		switch o.Op {
		case "write":
			f.put(h.Docs, o.Doc, i%2 == 0)
		case "touch":
			if f.doc >= 0 {
				f.put(h.Docs, f.doc, true)
			}
		case "remove":
			f.put(h.Docs, -1, false)
		case "dir":
			f.put(h.Docs, -2, false)
		case "load":
			if s := checkLoad(what, f, m, ldr, l); s != "" {
				return s
			}
		}
		if s := m.config(ldr); s != "" {
			return what + ": " + s
		}
	}
	return ""
}

func text(docs []Doc, i int) string {
	if i < 0 {
		return ""
	}
	return docs[i].Text
}

func checkLoad(what string, f *file, m *model, ldr *config.Loader, l *core.Labels) string {
	before := ldr.Checksum()
	changed, err := ldr.Load(context.Background())
	ok, wantChanged, same := m.load(f.doc)
	switch {
	case ok && err != nil:
		return fmt.Sprintf("%s: a well-formed document is rejected: %v\n%s", what, err, text(m.docs, f.doc))
	case !ok && err == nil:
		return fmt.Sprintf("%s: no error although %s\n%s", what, m.why(f.doc), text(m.docs, f.doc))
	case !ok && changed:
		return what + ": an error together with a change"
	case ok && changed != wantChanged && !same:
		return fmt.Sprintf("%s: changed=%v, want %v\n%s", what, changed, wantChanged, text(m.docs, f.doc))
	case ok && wantChanged && !same && ldr.Checksum() == before:
		return what + ": the checksum did not change with the document"
	case ok && !wantChanged && ldr.Checksum() != before:
		return what + ": the checksum changed without a change of the document"
	}
	switch {
	case !ok:
		l.Add("rejected")
		if f.doc < 0 {
			l.Add("unreadable")
		}
	case wantChanged:
		l.Add("changed")
	default:
		l.Add("unchanged")
	}
	return ""
}

func runWatch(h *History, f *file, m *model, ldr *config.Loader, l *core.Labels) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	late := 0
	if h.Late >= 0 {
		f.put(h.Docs, h.Late, true)
	}
	err := ldr.Watch(ctx)
	ok, changed, _ := m.load(f.doc)
	if !ok {
		// Whether the watch starts on a broken file is left open.
		l.Add("broken-at-watch")
		if err != nil {
			return m.config(ldr)
		}
	} else if err != nil {
		return fmt.Sprintf("the watch does not start: %v", err)
	} else if changed {
		late = 1
		l.Add("changed-before-watch")
	}
	var mu sync.Mutex
	events := 0
	last := dump(ldr.Config())
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case v := <-ldr.Events:
				if !v {
					continue
				}
				s := dump(ldr.Config())
				mu.Lock()
				events++
				last = s
				mu.Unlock()
				if h.Slow > 0 {
					time.Sleep(time.Duration(h.Slow) * time.Millisecond)
				}
			case <-ctx.Done():
				return
			}
		}
	}()
	stop := func() {
		cancel()
		ldr.Close()
		<-done
		time.Sleep(3 * interval)
	}
	defer stop()
	synctest.Wait()
	want, maybe := late, 0
	pending := late == 1 // a change that an event is still to report
	check := func(what string) string {
		if s := m.config(ldr); s != "" && h.Slow == 0 {
			return what + ": " + s
		}
		mu.Lock()
		n, seen := events, last
		mu.Unlock()
		if h.Slow == 0 && (n < want || n > want+maybe) {
			return fmt.Sprintf("%s: %d events, want %d", what, n, want)
		}
		if h.Slow == 0 && pending && seen != m.docs[m.cur].Want {
			return what + ": whoever follows the events has an outdated configuration"
		}
		return ""
	}
	if s := check("after the start"); s != "" {
		return s
	}
	time.Sleep(interval / 2)
	tick := func() {
		time.Sleep(interval)
		synctest.Wait()
		ok, changed, same := m.load(f.doc)
		switch {
		case !ok:
			l.Add("rejected")
		case changed && same:
			maybe++
		case changed:
			want++
			pending = true
			l.Add("changed")
		}
	}
	direct := false
	for i, o := range h.Ops {
		what := fmt.Sprintf("step %d (%s)", i, o.Op)
		switch o.Op {
		case "write":
			f.put(h.Docs, o.Doc, true)
		case "touch":
			if f.doc >= 0 {
				f.put(h.Docs, f.doc, true)
			}
		case "remove":
			f.put(h.Docs, -1, false)
		case "dir":
			f.put(h.Docs, -2, false)
		case "load":
			if h.Slow > 0 {
				continue
			}
			if s := checkLoad(what, f, m, ldr, l); s != "" {
				return s
			}
			// the change is reported to whoever loaded, so that no event needs to tell
			pending, direct = false, true
			_ = direct
		case "wait":
			for k := 0; k < max(1, o.N); k++ {
				tick()
				if s := check(what); s != "" {
					return s
				}
			}
		}
	}
	// a quiet time at the end
	quiet := 4
	if h.Slow > 0 {
		quiet = 4 + 3*h.Slow/1000*(len(h.Ops)+3)
		if f.doc < 0 || h.Docs[f.doc].Why != "" {
			// while its event is not taken the watcher misses versions: have one it sees at the end
			f.put(h.Docs, 0, true)
		}
	}
	for k := 0; k < quiet; k++ {
		tick()
	}
	mu.Lock()
	n, seen := events, last
	mu.Unlock()
	if s := m.config(ldr); s != "" {
		return "at the end: " + s
	}
	if h.Slow > 0 {
		if n > want+maybe {
			return fmt.Sprintf("%d events for %d changes", n, want)
		}
		if pending && seen != m.docs[m.cur].Want {
			return "whoever follows the events is left with an outdated configuration"
		}
		l.Add("slow")
		return ""
	}
	return check("at the end")
}

// GenHistory draws a history without a watch.
func GenHistory(rt *rapid.T) History { return genHistory(rt, false) }

// GenWatch draws a watched history.
func GenWatch(rt *rapid.T) History { return genHistory(rt, true) }

func genHistory(rt *rapid.T, watch bool) History {
	h := History{Watch: watch, Late: -1}
	start := rapid.IntRange(0, 3).Draw(rt, "start") < 3 // a good start
	for i, n := 0, 1+rapid.SampledFrom([]int{1, 2, 3, 0}).Draw(rt, "docs"); i < n; i++ {
		h.Docs = append(h.Docs, GenDoc(rt, 12))
	}
	if watch || start {
		h.Docs[0] = GenDoc(rt, 0)
	}
	doc := func() int { return rapid.SampledFrom([]int{0, 1, 2, 3, 1}).Draw(rt, "doc") % len(h.Docs) }
	if !start && !watch && rapid.IntRange(0, 9).Draw(rt, "nofile") == 0 {
		h.First = -1
	}
	if watch {
		if rapid.IntRange(0, 5).Draw(rt, "late") == 0 {
			h.Late = doc()
		}
		if rapid.IntRange(0, 3).Draw(rt, "slow") == 0 {
			h.Slow = rapid.SampledFrom([]int{100, 1500, 3700}).Draw(rt, "slowms")
		}
	}
	ops := []string{"write", "write", "write", "touch", "remove", "dir", "load", "load", "load", "load"}
	if watch {
		ops = []string{"write", "write", "write", "touch", "remove", "load", "wait", "wait", "wait", "wait"}
	}
	for i, n := 0, rapid.IntRange(1, 10).Draw(rt, "ops"); i < n; i++ {
		o := Op{Op: rapid.SampledFrom(ops).Draw(rt, "op")}
		switch o.Op {
		case "write":
			o.Doc = doc()
		case "wait":
			o.N = rapid.IntRange(1, 3).Draw(rt, "n")
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// Threads has loads run at the same time.
type Threads struct {
	Docs    []Doc `json:"docs"`
	Order   []int `json:"order"`
	Loaders int   `json:"loaders"`
}

// GenThreads draws concurrent loads.
func GenThreads(rt *rapid.T) Threads {
	s := Threads{Loaders: rapid.IntRange(2, 6).Draw(rt, "loaders")}
	s.Docs = append(s.Docs, GenDoc(rt, 0))
	for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "docs"); i < n; i++ {
		s.Docs = append(s.Docs, GenDoc(rt, 25))
	}
	for i, n := 0, rapid.IntRange(2, 8).Draw(rt, "rounds"); i < n; i++ {
		s.Order = append(s.Order, rapid.IntRange(0, len(s.Docs)-1).Draw(rt, "doc"))
	}
	return s
}

// RunThreads judges loads that run at the same time.
func RunThreads(t *testing.T, s Threads) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runThreads(&s, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("changed"), Labels: l.List()}
}

func runThreads(s *Threads, l *core.Labels) string {
	dir, err := os.MkdirTemp("", "verif-conf")
	must(err)
	defer os.RemoveAll(dir)
	f := &file{path: filepath.Join(dir, "kache.yml"), doc: -1}
	f.put(s.Docs, 0, false)
	m := &model{docs: s.Docs, cur: -1}
	ldr, err := config.NewLoader(f.path, true, 200*time.Microsecond)
	if err != nil {
		return "rejected: " + err.Error() + "\n" + s.Docs[0].Text
	}
	m.load(0)
	var stopped atomic.Bool
	var readers sync.WaitGroup
	known := map[string]bool{}
	for _, d := range s.Docs {
		known[d.Want] = true
	}
	bad := make(chan string, 1)
	readers.Add(1)
	go func() {
		defer readers.Done()
		for !stopped.Load() {
			if len(ldr.Checksum()) != 32 {
				select {
				case bad <- "a broken checksum":
				default:
				}
			}
			if d := dump(ldr.Config()); !known[d] {
				select {
				case bad <- "a configuration that is none of the documents: " + d:
				default:
				}
			}
		}
	}()
	defer func() { stopped.Store(true); readers.Wait() }()
	for r, d := range s.Order {
		f.put(s.Docs, d, true)
		var changes, errs atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < s.Loaders; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c, err := ldr.Load(context.Background())
				if c {
					changes.Add(1)
				}
				if err != nil {
					errs.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		ok, changed, same := m.load(d)
		want := int32(0)
		if changed {
			want = 1
			l.Add("changed")
		}
		if ok && errs.Load() > 0 || !ok && int(errs.Load()) != s.Loaders {
			return fmt.Sprintf("round %d: %d of %d loads failed, document %q", r, errs.Load(), s.Loaders, s.Docs[d].Why)
		}
		if changes.Load() != want && !same {
			return fmt.Sprintf("round %d: %d of %d concurrent loads report a change, want %d", r, changes.Load(), s.Loaders, want)
		}
		if v := m.config(ldr); v != "" {
			return fmt.Sprintf("round %d: %s", r, v)
		}
	}
	select {
	case b := <-bad:
		return b
	default:
	}
	return ""
}
