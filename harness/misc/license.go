package misc

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Tree is a history of a source tree.
type Tree struct {
	License string  `json:"license"`
	Rel     bool    `json:"rel,omitempty"` // run inside the tree
	Files   []TFile `json:"files"`
	Ops     []TOp   `json:"ops"`
}

// TFile is an entry of the tree.
type TFile struct {
	Path string `json:"path"`
	Kind string `json:"kind,omitempty"` // "" file, sym (to Data), out (symlink to a file outside), hard (to Data), fifo, dir
	Data string `json:"data"`
	Mode uint32 `json:"mode,omitempty"`
}

// TOp is an operation: check, add, force, put (a file is replaced), badcheck (the license is missing), nodir.
type TOp struct {
	Op   string `json:"op"`
	File TFile  `json:"file,omitempty"`
}

// header is the license as a comment.
func header(license string) string {
	var b strings.Builder
	ls := strings.Split(license, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for _, l := range ls {
		l = strings.TrimSuffix(l, "\r")
		if l == "" {
			b.WriteString("//\n")
		} else {
			b.WriteString("// " + l + "\n")
		}
	}
	return b.String() + "\n"
}

const mitLine = "// MIT License"

// strip removes a license header.
func strip(s, head string) string {
	if strings.HasPrefix(s, head) {
		return s[len(head):]
	}
	if !strings.HasPrefix(s, mitLine) {
		return s
	}
	for strings.HasPrefix(s, "//") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return ""
		}
		s = s[i+1:]
	}
	return strings.TrimPrefix(s, "\n")
}

func source(path string) bool {
	parts := strings.Split(path, "/")
	for _, d := range parts[:len(parts)-1] {
		if d == "vendor" || d == ".git" || d == ".vscode" {
			return false
		}
	}
	n := parts[len(parts)-1]
	return strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, ".pb.go")
}

// RunTree judges a history.
func RunTree(t *testing.T, sc Tree) core.Result {
	l := &core.Labels{}
	v := ""
	if g := core.Guard(func() { v = runTree(&sc, l) }); g != "" {
		v = g
	}
	return core.Result{Violation: v, NonTrivial: l.Has("added") || l.Has("lacking"), Labels: l.List()}
}

var old = time.Unix(1600000000, 0)

type treeSim struct {
	root, out string
	data      map[string]*string // content by path, hard links share it
	kind      map[string]TFile
	touched   map[string]bool
}

func (s *treeSim) put(f TFile) {
	p := filepath.Join(s.root, f.Path)
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	if _, ok := s.kind[f.Path]; ok {
		if s.kind[f.Path].Kind == "dir" {
			return
		}
		must(os.Remove(p))
		delete(s.data, f.Path)
		delete(s.kind, f.Path)
	}
	// no entry below a file or at a directory
	if st, err := os.Lstat(p); err == nil && st.IsDir() {
		return
	}
	for d := filepath.Dir(f.Path); d != "."; d = filepath.Dir(d) {
		if k, ok := s.kind[d]; ok && k.Kind != "dir" {
			return
		}
	}
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	switch f.Kind {
	case "":
		must(os.WriteFile(p, []byte(f.Data), 0o644))
		must(os.Chmod(p, os.FileMode(f.Mode)))
		must(os.Chtimes(p, old, old))
		d := f.Data
		s.data[f.Path] = &d
	case "sym":
		must(os.Symlink(filepath.Join(s.root, f.Data), p))
	case "out":
		must(os.Symlink(filepath.Join(s.out, "outside.go"), p))
	case "hard":
		d, ok := s.data[f.Data]
		if !ok {
			return
		}
		must(os.Link(filepath.Join(s.root, f.Data), p))
		s.data[f.Path] = d
		f.Mode = s.kind[f.Data].Mode
	case "fifo":
		must(syscall.Mkfifo(p, 0o600))
	case "dir":
		must(os.MkdirAll(p, 0o755))
	}
	s.kind[f.Path] = f
}

// compare looks for a difference between the tree and the model.
func (s *treeSim) compare() string {
	seen := map[string]bool{}
	bad := ""
	_ = filepath.Walk(s.root, func(p string, info os.FileInfo, err error) error {
		if err != nil || bad != "" || p == s.root {
			return nil
		}
		rel, _ := filepath.Rel(s.root, p)
		seen[rel] = true
		f, ok := s.kind[rel]
		if info.IsDir() {
			return nil
		}
		if !ok {
			bad = fmt.Sprintf("a file %q appeared", rel)
			return nil
		}
		switch f.Kind {
		case "", "hard":
			if !info.Mode().IsRegular() {
				bad = fmt.Sprintf("%q is no longer a file", rel)
				return nil
			}
			b, _ := os.ReadFile(p)
			if want := *s.data[rel]; string(b) != want {
				bad = fmt.Sprintf("%q holds\n%q\nexpected\n%q", rel, cut(string(b)), cut(want))
			} else if uint32(info.Mode().Perm()) != f.Mode {
				bad = fmt.Sprintf("%q has mode %o, had %o", rel, info.Mode().Perm(), f.Mode)
			} else if !s.touched[rel] && !info.ModTime().Equal(old) {
				bad = fmt.Sprintf("%q was written although it needs no header", rel)
			}
		case "sym", "out":
			if info.Mode()&os.ModeSymlink == 0 {
				bad = fmt.Sprintf("%q is no longer a link", rel)
			}
		}
		return nil
	})
	if bad != "" {
		return bad
	}
	for p := range s.kind {
		if !seen[p] {
			return fmt.Sprintf("%q is gone", p)
		}
	}
	if b, err := os.ReadFile(filepath.Join(s.out, "outside.go")); err != nil || string(b) != "package outside\n" {
		return fmt.Sprintf("a file outside of the tree was changed: %q", b)
	}
	return ""
}

func cut(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}

func runTree(sc *Tree, l *core.Labels) string {
	dir, err := os.MkdirTemp("", "verif-tree")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	s := &treeSim{root: filepath.Join(dir, "tree"), out: filepath.Join(dir, "out"), data: map[string]*string{}, kind: map[string]TFile{}, touched: map[string]bool{}}
	_ = os.MkdirAll(s.root, 0o755)
	_ = os.MkdirAll(s.out, 0o755)
	_ = os.WriteFile(filepath.Join(s.out, "outside.go"), []byte("package outside\n"), 0o644)
	lic := filepath.Join(s.out, "LICENSE")
	_ = os.WriteFile(lic, []byte(sc.License), 0o644)
	for _, f := range sc.Files {
		s.put(f)
	}
	head := header(sc.License)
	has := func(c string) bool { return strings.HasPrefix(c, mitLine) || strings.HasPrefix(c, head) }
	for n, op := range sc.Ops {
		w := fmt.Sprintf("step %d %s", n, op.Op)
		if op.Op == "put" {
			s.put(op.File)
			continue
		}
		args := []string{"-license", lic, "-dir", s.root}
		cwd := s.out
		if sc.Rel {
			args, cwd = []string{"-license=../out/LICENSE"}, s.root
		}
		if op.Op == "badcheck" {
			args = []string{"-license=" + filepath.Join(dir, "NONE"), "-dir", s.root}
		}
		if op.Op == "nodir" {
			args = []string{"-license=" + lic, "-dir", filepath.Join(dir, "nowhere")}
		}
		switch op.Op {
		case "check", "badcheck", "nodir":
			args = append(args, "-check")
		case "force":
			args = append(args, "-force")
		}
		s.touched = map[string]bool{}
		var lacking, having []string
		for p := range s.data {
			_ = os.Chtimes(filepath.Join(s.root, p), old, old)
		}
		for p, d := range s.data {
			if source(p) && !has(*d) {
				lacking = append(lacking, p)
			} else if source(p) {
				having = append(having, p)
			}
		}
		sort.Strings(lacking)
		cmd := exec.Command(os.Getenv("VERIF_BIN_LICENSE"), args...)
		cmd.Dir = cwd
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			panic("harness: " + err.Error())
		}
		hung := time.AfterFunc(20*time.Second, func() { _ = cmd.Process.Kill() })
		_ = cmd.Wait()
		if !hung.Stop() {
			return w + ": the tool does not end"
		}
		code := cmd.ProcessState.ExitCode()
		switch op.Op {
		case "badcheck", "nodir":
			if code == 0 {
				return fmt.Sprintf("%s: verification that could not be done succeeds: %s", w, cut(out.String()))
			}
			l.Add("cannot")
		case "check":
			if (code != 0) != (len(lacking) > 0) {
				return fmt.Sprintf("%s: verification ends with %d, files without a header: %q\n%s", w, code, lacking, cut(out.String()))
			}
			if code != 0 {
				l.Add("lacking")
				listed := map[string]bool{}
				for _, x := range strings.Split(out.String(), "\n") {
					if r := x; filepath.IsAbs(r) {
						r, _ = filepath.Rel(s.root, r)
						listed[r] = true
					} else {
						listed[r] = true
					}
				}
				for _, p := range lacking {
					if !listed[p] {
						return fmt.Sprintf("%s: %q lacks a header and is not listed\n%s", w, p, cut(out.String()))
					}
				}
				for _, p := range having {
					if listed[p] {
						return fmt.Sprintf("%s: %q has a header and is listed\n%s", w, p, cut(out.String()))
					}
				}
			} else {
				l.Add("complete")
			}
		case "add", "force":
			if code != 0 {
				return fmt.Sprintf("%s: ends with %d: %s", w, code, cut(out.String()))
			}
			done := map[*string]bool{}
			todo := lacking
			if op.Op == "force" {
				todo = append(todo, having...)
			}
			for _, p := range todo {
				d := s.data[p]
				if !done[d] {
					done[d] = true
					*d = head + strip(*d, head)
				}
			}
			for p, d := range s.data {
				if done[d] {
					s.touched[p] = true
				}
			}
			if len(todo) > 0 {
				l.Add("added")
				if op.Op == "force" {
					l.Add("forced")
				}
			}
		}
		if v := s.compare(); v != "" {
			return w + ": " + v + "\n" + cut(out.String())
		}
	}
	return ""
}

const mitText = "MIT License\n\nCopyright (c) 2023 kache.io\n\nPermission is hereby granted, free of charge\n"

// GenTree draws a history.
func GenTree(rt *rapid.T) Tree {
	sc := Tree{Rel: rapid.Bool().Draw(rt, "rel")}
	sc.License = rapid.SampledFrom([]string{mitText, mitText, strings.TrimSuffix(mitText, "\n"), strings.ReplaceAll(mitText, "\n", "\r\n"),
		mitText + "\n\n", "\n" + mitText, "Apache License 2.0\n\nSee the file.\n", "BSD\n", "MIT License", "   MIT License\n\n\ttabbed \nend", "// already a comment\n"}).Draw(rt, "license")
	head := header(sc.License)
	mit := strings.HasPrefix(head, mitLine)
	names := []string{"a.go", "b.go", "a_test.go", "z.pb.go", "x.GO", ".go", "pb.go", "a.go.txt", "go", "sp ace.go", "ü.go", "vendor.go", "Makefile",
		"sub/a.go", "sub/deep/er/c.go", "sub/z.pb.go", "_old/o.go", ".hid/h.go", "testdata/t.go", "_u.go", ".h.go", "sub/internal/i.go", "bin/b.go", "vendor/a.go", "sub/vendor/v.go", "vendor/sub/v.go", "vendored/v.go", ".git/hooks/h.go", ".github/g.go", ".vscode/s.go", "Vendor/w.go", "d.go/in.go", "tests/vendor.go/x.go"}
	content := func() string {
		c := []string{"", "package a\n", "package a", "package a\r\n\r\nfunc A() {}\r\n", "\ufeffpackage a\n", "//go:build linux\n\npackage a\n", "\n\npackage a\n\n\n", "  \tpackage a\n \n",
			"// Package a does.\npackage a\n", "// only a comment", "// only\n// comments\n", "/* MIT License */\npackage a\n", "\n" + mitLine + "\n\npackage a\n", " " + mitLine + "\n", "// mit license\n\npackage a\n",
			"\x00\xff\xfe", strings.Repeat("// long line \n", 9000) + "package a\n", "package a\n" + strings.Repeat("x", 70000), "#!/usr/bin/env x\n", "/", "//", "// MIT Licens",
			head + "package a\n", head + "\n\npackage a\n", head + "// Package a does.\npackage a\n", head, head + "package a", strings.TrimSuffix(head, "\n") + "package a\n", strings.TrimSuffix(head, "\n"), head[:len(head)/2], strings.TrimRight(head, "\n")}
		if mit {
			c = append(c, mitLine+"\n", mitLine, mitLine+"\n\npackage a\n", mitLine+"\npackage a\n", mitLine+"\n//\n// Copyright (c) 2021\n\n// Doc.\npackage a\n", mitLine+"\n//\n// else\n\n\n\tpackage a\n\n")
		}
		if rapid.IntRange(0, 9).Draw(rt, "random") == 0 {
			return string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes"))
		}
		return rapid.SampledFrom(c).Draw(rt, "content")
	}
	file := func() TFile {
		f := TFile{Path: rapid.SampledFrom(names).Draw(rt, "path"), Mode: rapid.SampledFrom([]uint32{0o644, 0o644, 0o600, 0o755, 0o444}).Draw(rt, "mode")}
		switch rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "", "", "", "sym", "out", "hard", "fifo", "dir"}).Draw(rt, "kind") {
		case "sym":
			f.Kind, f.Data = "sym", rapid.SampledFrom(append([]string{"missing", "sub", "."}, names...)).Draw(rt, "to")
		case "out":
			f.Kind = "out"
		case "hard":
			f.Kind, f.Data = "hard", rapid.SampledFrom(names).Draw(rt, "to")
		case "fifo":
			f.Kind = "fifo"
		case "dir":
			f.Kind = "dir"
		default:
			f.Data = content()
		}
		return f
	}
	files := rapid.IntRange(0, 10).Draw(rt, "n")
	if rapid.IntRange(0, 39).Draw(rt, "large") == 0 {
		files = rapid.IntRange(20, 70).Draw(rt, "many")
	}
	for i, n := 0, files; i < n; i++ {
		sc.Files = append(sc.Files, file())
	}
	for i, n := 0, rapid.IntRange(1, 7).Draw(rt, "ops"); i < n; i++ {
		op := TOp{Op: rapid.SampledFrom([]string{"check", "add", "add", "check", "force", "put", "put", "badcheck", "nodir"}).Draw(rt, "op")}
		if op.Op == "put" {
			op.File = file()
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}
