// Package lib holds what several drivers share.
package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
)

// MemFS is an in-memory file system that records the mutating calls it receives.
type MemFS struct {
	Files map[string]string
	Mtime map[string]int64
	CS    bool
	Log   []string
	Real  string // prefix that Realpath adds
}

func (m *MemFS) UseCaseSensitiveFileNames() bool { return m.CS }
func (m *MemFS) FileExists(p string) bool        { _, ok := m.Files[p]; return ok }
func (m *MemFS) ReadFile(p string) (string, bool) {
	c, ok := m.Files[p]
	return c, ok
}
func (m *MemFS) WriteFile(p string, d string) error {
	m.Log = append(m.Log, "W "+p+" "+d)
	m.Files[p] = d
	return nil
}
func (m *MemFS) AppendFile(p string, d string) error {
	m.Log = append(m.Log, "A "+p+" "+d)
	m.Files[p] += d
	return nil
}
func (m *MemFS) Remove(p string) error {
	m.Log = append(m.Log, "R "+p)
	if _, ok := m.Files[p]; !ok {
		return fmt.Errorf("no such file: %s", p)
	}
	delete(m.Files, p)
	return nil
}
func (m *MemFS) Chtimes(p string, a, t time.Time) error {
	m.Log = append(m.Log, fmt.Sprintf("C %s %d %d", p, a.Unix(), t.Unix()))
	if _, ok := m.Files[p]; !ok {
		return fmt.Errorf("no such file: %s", p)
	}
	m.Mtime[p] = t.Unix()
	return nil
}
func (m *MemFS) DirectoryExists(p string) bool {
	if p != "/" {
		p += "/"
	}
	for f := range m.Files {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}
func (m *MemFS) GetAccessibleEntries(p string) (r vfs.Entries) {
	if p != "/" {
		p += "/"
	}
	seen := map[string]bool{}
	names := []string{}
	for f := range m.Files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		rest, ok := strings.CutPrefix(f, p)
		if !ok {
			continue
		}
		if d, _, ok := strings.Cut(rest, "/"); ok {
			if !seen[d] {
				seen[d] = true
				r.Directories = append(r.Directories, d)
			}
		} else {
			r.Files = append(r.Files, rest)
		}
	}
	return r
}

type info struct {
	name string
	size int64
	mt   int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Unix(i.mt, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func (m *MemFS) Stat(p string) vfs.FileInfo {
	c, ok := m.Files[p]
	if !ok {
		return nil
	}
	return info{p[strings.LastIndex(p, "/")+1:], int64(len(c)), m.Mtime[p]}
}
func (m *MemFS) WalkDir(root string, fn vfs.WalkDirFunc) error {
	names := []string{}
	for f := range m.Files {
		if root == "/" || strings.HasPrefix(f, root+"/") {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if err := fn(n, nil, nil); err != nil {
			return err
		}
	}
	return nil
}
func (m *MemFS) Realpath(p string) string { return m.Real + p }

type fsCase struct {
	Base  map[string]string `json:"base"`
	Over  map[string]string `json:"over"`
	CS    bool              `json:"cs"`
	Muts  [][]string        `json:"muts"`
	Paths []string          `json:"paths"`
	Dirs  []string          `json:"dirs"`
}

// RunFS answers file-system scenarios: mutations through the layered file system, then every query.
func RunFS(layer func(base vfs.FS, over map[string]string) vfs.FS) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			b, _ := json.Marshal(runFSCase(layer, line))
			out.Write(b)
			out.WriteByte('\n')
		}
		if err != nil {
			return
		}
	}
}

func runFSCase(layer func(base vfs.FS, over map[string]string) vfs.FS, line []byte) (res map[string]any) {
	res = map[string]any{}
	defer func() {
		if r := recover(); r != nil {
			res["panic"] = fmt.Sprint(r)
		}
	}()
	var c fsCase
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	base := &MemFS{Files: map[string]string{}, Mtime: map[string]int64{}, CS: c.CS, Real: "/real"}
	for k, v := range c.Base {
		base.Files[k] = v
	}
	over := map[string]string{}
	for k, v := range c.Over {
		over[k] = v
	}
	l := layer(base, over)
	errs := []bool{}
	for _, m := range c.Muts {
		var e error
		switch m[0] {
		case "W":
			e = l.WriteFile(m[1], "w")
		case "A":
			e = l.AppendFile(m[1], "aa")
		case "R":
			e = l.Remove(m[1])
		case "C":
			e = l.Chtimes(m[1], time.Unix(7, 0), time.Unix(9, 0))
		}
		errs = append(errs, e != nil)
	}
	res["errs"] = errs
	res["log"] = append([]string{}, base.Log...)
	res["cs"] = l.UseCaseSensitiveFileNames()
	q := map[string]any{}
	for _, p := range c.Paths {
		t, ok := l.ReadFile(p)
		st := []any{}
		if s := l.Stat(p); s != nil {
			mt := s.ModTime().Unix()
			if s.ModTime().IsZero() {
				mt = 0
			}
			st = []any{s.Size(), mt, s.IsDir()}
		}
		q[p] = map[string]any{"exists": l.FileExists(p), "ok": ok, "text": t, "stat": st, "real": l.Realpath(p)}
	}
	res["files"] = q
	d := map[string]any{}
	for _, p := range c.Dirs {
		e := l.GetAccessibleEntries(p)
		walk := []string{}
		stop := fmt.Errorf("stop")
		we := l.WalkDir(p, func(path string, _ vfs.DirEntry, _ error) error { walk = append(walk, path); return nil })
		first := []string{}
		we2 := l.WalkDir(p, func(path string, _ vfs.DirEntry, _ error) error { first = append(first, path); return stop })
		fl, di := append([]string{}, e.Files...), append([]string{}, e.Directories...)
		sort.Strings(fl)
		sort.Strings(di)
		d[p] = map[string]any{"exists": l.DirectoryExists(p), "files": fl, "dirs": di, "walk": walk, "walkerr": we != nil, "stopped": len(first) == min(1, len(walk)) && (len(walk) == 0 || we2 == stop)}
	}
	res["dirs"] = d
	res["log2"] = append([]string{}, base.Log...)
	fin := map[string]string{}
	for k, v := range base.Files {
		fin[k] = v
	}
	res["base"] = fin
	return res
}
