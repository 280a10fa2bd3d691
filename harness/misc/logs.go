package misc

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	std_log "log"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/utils/logger"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Logs is a sequence of logger configurations and messages.
type Logs struct {
	Confs []LConf `json:"confs"`
}

// LConf is a configuration and what is logged under it.
type LConf struct {
	Nil    bool   `json:"nil,omitempty"`
	Level  string `json:"level"`
	Format string `json:"format"`
	Color  bool   `json:"color,omitempty"`
	File   string `json:"file,omitempty"` // "", plain, sub (in a directory that does not exist)
	Size   int    `json:"size,omitempty"`
	Msgs   []LMsg `json:"msgs"`
	Par    int    `json:"par,omitempty"` // threads
	Bulk   int    `json:"bulk,omitempty"`
}

// LMsg is a message.
type LMsg struct {
	Level int    `json:"l"`   // -1 trace ... 5 panic
	Text  []byte `json:"t"`   // message
	Val   []byte `json:"v"`   // a field
	How   string `json:"how"` // global, with, ctx, derived
}

var levels = map[string]int{"trace": -1, "debug": 0, "info": 1, "warn": 2, "error": 3, "fatal": 4, "panic": 5, "disabled": 7}
var levelNames = map[int]string{-1: "trace", 0: "debug", 1: "info", 2: "warn", 3: "error", 4: "fatal", 5: "panic"}
var short = map[int]string{-1: "TRC", 0: "DBG", 1: "INF", 2: "WRN", 3: "ERR", 4: "FTL", 5: "PNC"}

// RunLogs judges a sequence.
func RunLogs(t *testing.T, sc Logs) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runLogs(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("written") && l.Has("dropped"), Labels: l.List()}
}

func runLogs(sc *Logs, l *core.Labels) string {
	dir, err := os.MkdirTemp("", "verif-log")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	stderr, stdout := os.Stderr, os.Stdout
	oldLevel, oldLogger, oldCtx, oldFlags := zerolog.GlobalLevel(), log.Logger, zerolog.DefaultContextLogger, std_log.Flags()
	defer func() {
		os.Stderr, os.Stdout = stderr, stdout
		zerolog.SetGlobalLevel(oldLevel)
		log.Logger, zerolog.DefaultContextLogger = oldLogger, oldCtx
		std_log.SetFlags(oldFlags)
	}()
	for n, c := range sc.Confs {
		w := fmt.Sprintf("configuration %d %+v", n, struct {
			Nil           bool
			Level, Format string
			Color         bool
			File          string
		}{c.Nil, c.Level, c.Format, c.Color, c.File})
		errf, err := os.Create(filepath.Join(dir, fmt.Sprintf("stderr%d", n)))
		if err != nil {
			panic("harness: " + err.Error())
		}
		outf, err := os.Create(filepath.Join(dir, fmt.Sprintf("stdout%d", n)))
		if err != nil {
			panic("harness: " + err.Error())
		}
		os.Stderr, os.Stdout = errf, outf
		v := logOne(&c, dir, n, l)
		os.Stderr, os.Stdout = stderr, stdout
		defer errf.Close() // the logger may still be used while the next is set up
		defer outf.Close()
		if v != "" {
			return w + ": " + v
		}
	}
	return ""
}

func logOne(c *LConf, dir string, n int, l *core.Labels) string {
	var cfg *config.Log
	file := ""
	if !c.Nil {
		cfg = &config.Log{Level: c.Level, Format: c.Format, Color: c.Color}
		switch c.File {
		case "plain":
			file = filepath.Join(dir, fmt.Sprintf("kache%d.log", n))
		case "sub":
			file = filepath.Join(dir, fmt.Sprintf("d%d", n), "e", "kache.log")
		}
		cfg.File = file
		if file != "" {
			cfg.MaxSize = c.Size
		}
		// by way of a document, as the application reads it
		b, err := yaml.Marshal(cfg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		cfg = &config.Log{}
		if err := yaml.Unmarshal(b, cfg); err != nil {
			panic("harness: " + err.Error())
		}
	}
	logger.InitLogger(cfg)
	lvl := 1
	if !c.Nil && c.Level != "" {
		x, ok := levels[strings.ToLower(c.Level)]
		if !ok {
			x = 3
		}
		lvl = x
	}
	pad := strings.Repeat("x", 2000)
	emit := func(id string, m *LMsg) {
		lg := log.Logger
		switch m.How {
		case "with":
			lg = log.With().Str("listenerName", "w").Logger()
		case "ctx":
			lg = *log.Ctx(context.Background())
		case "derived":
			lg = *log.Ctx(log.With().Str("a", "b").Logger().WithContext(context.Background()))
		}
		e := lg.WithLevel(zerolog.Level(m.Level))
		switch m.Level { // the usual way where it does not end the process
		case -1:
			e = lg.Trace()
		case 0:
			e = lg.Debug()
		case 1:
			e = lg.Info()
		case 2:
			e = lg.Warn()
		case 3:
			e = lg.Error()
		}
		if c.Bulk > 0 {
			e = e.Str("pad", pad)
		}
		e.Str("id", id).Str("val", string(m.Val)).Msg(string(m.Text))
	}
	total := len(c.Msgs)
	reps := 1
	if c.Bulk > 0 && total > 0 {
		reps = c.Bulk
	}
	if c.Par > 1 {
		var wg sync.WaitGroup
		for k := 0; k < c.Par; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < reps; r++ {
					for i := k; i < total; i += c.Par {
						emit(fmt.Sprintf("m%d.%d;", i, r), &c.Msgs[i])
					}
				}
			}()
		}
		wg.Wait()
		l.Add("threads")
	} else {
		for r := 0; r < reps; r++ {
			for i := range c.Msgs {
				emit(fmt.Sprintf("m%d.%d;", i, r), &c.Msgs[i])
			}
		}
	}
	// what is where
	read := func(p string) string {
		b, _ := os.ReadFile(p)
		return string(b)
	}
	errText := read(os.Stderr.Name())
	if s := read(os.Stdout.Name()); s != "" {
		return fmt.Sprintf("writes to the standard output: %q", cut(s))
	}
	text := errText
	if file != "" {
		// compression of old files is done in the background
		if c.Bulk > 0 {
			for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				plain, _ := filepath.Glob(filepath.Join(filepath.Dir(file), "kache*-*.log"))
				if len(plain) == 0 {
					break
				}
			}
		}
		text = ""
		ms, _ := filepath.Glob(filepath.Join(filepath.Dir(file), strings.TrimSuffix(filepath.Base(file), ".log")+"*"))
		for _, m := range ms {
			b, _ := os.ReadFile(m)
			if strings.HasSuffix(m, ".gz") {
				zr, err := gzip.NewReader(bytes.NewReader(b))
				if err != nil {
					return "a compressed log cannot be read: " + err.Error()
				}
				if b, err = io.ReadAll(zr); err != nil {
					return "a compressed log cannot be read: " + err.Error()
				}
				l.Add("rotated")
			}
			text += string(b)
		}
		l.Add("file")
		for i := range c.Msgs {
			if strings.Contains(errText, fmt.Sprintf("m%d.0;", i)) {
				return fmt.Sprintf("message %d goes to the standard error and a file is configured", i)
			}
		}
		if strings.Contains(text, "\x1b[") && !c.Nil && c.Format != "json" && !hasEscape(c.Msgs) {
			return "a log file with colour codes: " + cut(text)
		}
	}
	isJSON := !c.Nil && c.Format == "json"
	type line struct {
		level string
		obj   map[string]any
		raw   string
	}
	found := map[string][]line{}
	if isJSON {
		l.Add("json")
		for _, s := range strings.Split(text, "\n") {
			if s == "" {
				continue
			}
			var m map[string]any
			if err := json.Unmarshal([]byte(s), &m); err != nil {
				return fmt.Sprintf("a line is no JSON object: %v: %q", err, cut(s))
			}
			id, _ := m["id"].(string)
			if id == "" {
				continue
			}
			lv, _ := m["level"].(string)
			found[id] = append(found[id], line{lv, m, s})
		}
		if text != "" && !strings.HasSuffix(text, "\n") {
			return fmt.Sprintf("the last line does not end: %q", cut(text))
		}
	} else {
		l.Add("console")
	}
	for i := range c.Msgs {
		for r := 0; r < reps; r++ {
			m := &c.Msgs[i]
			id := fmt.Sprintf("m%d.%d;", i, r)
			want := m.Level >= lvl
			if want {
				l.Add("written")
			} else {
				l.Add("dropped")
			}
			k := len(found[id])
			if !isJSON {
				k = strings.Count(text, id)
			}
			switch {
			case want && k == 0:
				return fmt.Sprintf("a message of level %s is not written (level in force: %s): %q\n%q", levelNames[m.Level], nameOf(lvl), m.Text, cut(text))
			case want && k > 1:
				return fmt.Sprintf("a message of level %s is written %d times", levelNames[m.Level], k)
			case !want && k > 0:
				return fmt.Sprintf("a message of level %s is written (level in force: %s)", levelNames[m.Level], nameOf(lvl))
			}
			if !want {
				continue
			}
			if isJSON {
				f := found[id][0]
				if f.level != levelNames[m.Level] {
					return fmt.Sprintf("a message of level %s is written with level %q", levelNames[m.Level], f.level)
				}
				if got, _ := f.obj["message"].(string); got != valid(m.Text) {
					return fmt.Sprintf("message %q is written as %q", valid(m.Text), got)
				}
				if got, _ := f.obj["val"].(string); got != valid(m.Val) {
					return fmt.Sprintf("value %q is written as %q", valid(m.Val), got)
				}
				if _, err := time.Parse(time.RFC3339, fmt.Sprint(f.obj["time"])); err != nil {
					return "a line without a time: " + f.raw
				}
			} else {
				j := strings.Index(text, id)
				s := text[:j]
				if strings.LastIndex(s, short[m.Level]) < 0 {
					return fmt.Sprintf("a message of level %s is not marked as %s: %q", levelNames[m.Level], short[m.Level], cut(text))
				}
				if simple(m.Text) && !strings.Contains(text, string(m.Text)) {
					return fmt.Sprintf("message %q is not written: %q", m.Text, cut(text))
				}
			}
		}
	}
	return ""
}

func hasEscape(ms []LMsg) bool {
	for _, m := range ms {
		if bytes.Contains(m.Text, []byte("\x1b[")) || bytes.Contains(m.Val, []byte("\x1b[")) {
			return true
		}
	}
	return false
}

// valid is the text with invalid bytes replaced, as JSON cannot hold them.
func valid(b []byte) string {
	var o strings.Builder
	for _, r := range string(b) {
		o.WriteRune(r)
	}
	return o.String()
}

func simple(b []byte) bool {
	for _, c := range b {
		if c < 0x20 || c > 0x7e {
			return false
		}
	}
	return true
}

func nameOf(l int) string {
	for k, v := range levels {
		if v == l {
			return k
		}
	}
	return "?"
}

func mixCase(rt *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(rt, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		if s != "" {
			return strings.ToUpper(s[:1]) + s[1:]
		}
	}
	return s
}

// GenLogs draws a sequence.
func GenLogs(rt *rapid.T) Logs {
	var sc Logs
	for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "n"); i < n; i++ {
		c := LConf{Nil: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1}).Draw(rt, "nil") == 1,
			Level:  mixCase(rt, rapid.SampledFrom([]string{"trace", "debug", "info", "warn", "error", "fatal", "panic", "disabled", "", "warning", "verbose", "information", "all", "none", " info", "0x", "debug "}).Draw(rt, "level")),
			Format: rapid.SampledFrom([]string{"json", "json", "json", "", "console", "common", "text"}).Draw(rt, "format"),
			Color:  rapid.Bool().Draw(rt, "color"),
			File:   rapid.SampledFrom([]string{"", "", "", "plain", "sub"}).Draw(rt, "file"),
			Size:   rapid.SampledFrom([]int{0, 1, 500}).Draw(rt, "size"),
			Par:    rapid.SampledFrom([]int{0, 0, 0, 2, 4}).Draw(rt, "par"),
		}
		if c.File != "" && c.Size == 1 && rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "bulk") == 1 {
			c.Bulk = rapid.IntRange(50, 400).Draw(rt, "times")
		}
		for j, m := 0, rapid.IntRange(1, 8).Draw(rt, "msgs"); j < m; j++ {
			text := func(n string) []byte {
				if rapid.IntRange(0, 4).Draw(rt, n) == 0 {
					return rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, n)
				}
				return []byte(rapid.SampledFrom([]string{"", "plain", "a \"quoted\" \\ text", "line\nbreak", "\r\n\t", "tab\tbed", "\x00\x01\x1f\x7f", "\x1b[31mred", "héé世界😀", "\xff\xfe", "\xe2\x80\xa8", "{\"level\":\"fatal\"}", "'single'", "<&>", "%s %d", "x=y z", strings.Repeat("long ", 300), "\ufffd", "\xed\xa0\x80"}).Draw(rt, n))
			}
			c.Msgs = append(c.Msgs, LMsg{Level: rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 5}).Draw(rt, "l"), Text: text("text"), Val: text("val"),
				How: rapid.SampledFrom([]string{"global", "global", "with", "ctx", "derived"}).Draw(rt, "how")})
		}
		sc.Confs = append(sc.Confs, c)
	}
	return sc
}
