package misc

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/srv"
)

// LogProc is an instance with a logging section.
type LogProc struct {
	Section map[string]any `json:"section"`
	File    bool           `json:"file,omitempty"`
}

// RunLogProc judges the log of an instance.
func RunLogProc(t *testing.T, sc LogProc) core.Result {
	l := &core.Labels{}
	v, skip := "", false
	if g := core.Guard(func() { v, skip = runLogProc(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, Skip: skip, NonTrivial: true, Labels: l.List()}
}

func runLogProc(sc *LogProc, l *core.Labels) (string, bool) {
	dir, err := os.MkdirTemp("", "verif-logproc")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "log", "kache.log")
	doc := map[string]any{
		"upstreams": []any{map[string]any{"name": "u", "addr": "http://127.0.0.1:9", "path": "/only"}},
		"provider":  map[string]any{"backend": "inmemory", "inmemory": map[string]any{"max_size": 1 << 20, "max_item_size": 1 << 16}},
	}
	lvl, format := 1, ""
	if sc.Section != nil {
		s := map[string]any{}
		for k, v := range sc.Section {
			s[k] = v
		}
		if sc.File {
			s["file"] = file
		}
		doc["logging"] = s
		if x, _ := s["level"].(string); x != "" {
			var ok bool
			if lvl, ok = levels[strings.ToLower(x)]; !ok {
				lvl = 3
			}
		}
		format, _ = s["format"].(string)
	}
	var p *srv.Proc
	for try := 0; ; try++ {
		ports := srv.Ports(2)
		web := fmt.Sprintf("127.0.0.1:%d", ports[0])
		doc["listeners"] = map[string]any{"web1": map[string]any{"addr": web}}
		doc["api"] = map[string]any{"port": ports[1]}
		text, err := yaml.Marshal(doc)
		if err != nil {
			panic("harness: " + err.Error())
		}
		p = srv.StartProc(os.Getenv("VERIF_BIN_KACHE"), dir, string(text))
		p.Web = []string{web}
		ok := false
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !p.Exited(); time.Sleep(5 * time.Millisecond) {
			if r := srv.Get(web, "/nowhere"); r.Err == nil && r.Status == 503 { // reported as an error
				ok = true
				break
			}
		}
		if ok {
			break
		}
		tail := p.Tail()
		p.Kill()
		if try > 2 {
			return "the instance does not start\n" + tail, false
		}
	}
	p.Signal(syscall.SIGTERM)
	for end := time.Now().Add(20 * time.Second); !p.Exited(); time.Sleep(2 * time.Millisecond) {
		if time.Now().After(end) {
			p.Kill()
			return "the instance does not end", false
		}
	}
	out := p.Output()
	text := out
	if sc.File && sc.Section != nil {
		l.Add("file")
		b, _ := os.ReadFile(file)
		text = string(b)
		if lvl > 3 {
			text = ""
		}
		lvl0 := lvl
		if x, _ := sc.Section["level"].(string); x != "" {
			if _, ok := levels[strings.ToLower(x)]; !ok {
				lvl0 = -9 // the unknown level is reported before the file is in use
			}
		}
		if lvl0 != -9 && strings.TrimSpace(out) != "" {
			return "a file is configured and messages go elsewhere: " + cut(out), false
		}
	}
	count := map[int]int{}
	for i, s := range strings.Split(text, "\n") {
		if s == "" {
			continue
		}
		lv := -9
		if format == "json" {
			var m map[string]any
			if err := json.Unmarshal([]byte(s), &m); err != nil {
				return fmt.Sprintf("line %d is no JSON object: %q", i, s), false
			}
			x, _ := m["level"].(string)
			var ok bool
			if lv, ok = levels[x]; !ok {
				return fmt.Sprintf("line %d has no level: %q", i, s), false
			}
		} else {
			for k, v := range short {
				if strings.Contains(s, v) {
					lv = k
				}
			}
		}
		count[lv]++
		if lv != -9 && lv < lvl {
			return fmt.Sprintf("level %s is in force and a message of level %s is written: %q", nameOf(lvl), levelNames[lv], s), false
		}
	}
	if lvl <= 1 && count[1] == 0 {
		return fmt.Sprintf("level %s is in force and no information about the start is written: %q", nameOf(lvl), cut(text)), false
	}
	if lvl <= 3 && count[3] == 0 {
		return fmt.Sprintf("level %s is in force and an error is not written: %q", nameOf(lvl), cut(text)), false
	}
	if lvl <= 0 && count[0] == 0 {
		return fmt.Sprintf("level %s is in force and nothing of that level is written: %q", nameOf(lvl), cut(text)), false
	}
	l.Add(nameOf(lvl))
	return "", false
}

// GenLogProc draws a logging section.
func GenLogProc(rt *rapid.T) LogProc {
	if rapid.IntRange(0, 9).Draw(rt, "none") == 9 {
		return LogProc{}
	}
	s := map[string]any{}
	if x := mixCase(rt, rapid.SampledFrom([]string{"trace", "debug", "info", "warn", "error", "fatal", "panic", "disabled", "", "verbose"}).Draw(rt, "level")); x != "" {
		s["level"] = x
	}
	if x := rapid.SampledFrom([]string{"json", "json", "", "console"}).Draw(rt, "format"); x != "" {
		s["format"] = x
	}
	if rapid.Bool().Draw(rt, "c") {
		s["color"] = rapid.Bool().Draw(rt, "color")
	}
	return LogProc{Section: s, File: rapid.Bool().Draw(rt, "file")}
}
