package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzverif/lib"
)

// gateFS holds each request after it has read its file until the script lets it go on.
type gateFS struct {
	*lib.MemFS
	mu      sync.Mutex
	texts   map[string]string
	pending map[string]*cacheReq // by file: the request being started
}

type cacheReq struct {
	read chan struct{}
	rel  chan struct{}
	done chan struct{}
	sf   *ast.SourceFile
	opts ast.SourceFileParseOptions
	once sync.Once
	pan  any
}

func (g *gateFS) ReadFile(path string) (string, bool) {
	g.mu.Lock()
	t, ok := g.texts[path]
	r := g.pending[path]
	delete(g.pending, path)
	g.mu.Unlock()
	if r != nil {
		r.once.Do(func() { close(r.read) })
		<-r.rel
	}
	return t, ok
}

func (g *gateFS) FileExists(path string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	_, ok := g.texts[path]
	return ok
}

func shape(sf *ast.SourceFile) string {
	var b strings.Builder
	var walk func(n *ast.Node) bool
	walk = func(n *ast.Node) bool {
		fmt.Fprintf(&b, "%d:%d-%d(", n.Kind, n.Pos(), n.End())
		n.ForEachChild(walk)
		b.WriteString(")")
		return false
	}
	walk(sf.AsNode())
	fmt.Fprintf(&b, "|%v|%d|%s|%v", sf.ExternalModuleIndicator != nil, sf.ScriptKind, sf.FileName(), sf.IsDeclarationFile)
	return b.String()
}

// cache: requests for parsed files by several hosts, with edits in between, requests held between reading and storing.
func init() {
	ops["cache"] = func(m json.RawMessage) any {
		type step struct {
			Do   string `json:"do"` // edit, remove, start, finish
			File string `json:"file"`
			Path string `json:"path"`
			Text string `json:"text"`
			Host int    `json:"host"`
			Jsx  bool   `json:"jsx"`
			Forc bool   `json:"force"`
			Reqs []int  `json:"reqs"`
		}
		c := dec[struct {
			Texts map[string]string `json:"texts"`
			Hosts []string          `json:"hosts"`
			Steps []step            `json:"steps"`
		}](m)
		g := &gateFS{MemFS: memfs(map[string]string{}), texts: c.Texts, pending: map[string]*cacheReq{}}
		hosts := []compiler.CompilerHost{}
		for i, h := range c.Hosts {
			var fs vfs.FS = g
			if h == "cached" {
				hosts = append(hosts, utils.NewCachedFSCompilerHost(fmt.Sprintf("/w%d", i), fs, bundled.LibPath(), nil, nil))
			} else {
				hosts = append(hosts, utils.NewCompilerHost(fmt.Sprintf("/w%d", i), fs, bundled.LibPath(), nil, nil))
			}
		}
		reqs := []*cacheReq{}
		for _, s := range c.Steps {
			switch s.Do {
			case "edit":
				g.mu.Lock()
				g.texts[s.File] = s.Text
				g.mu.Unlock()
			case "remove":
				g.mu.Lock()
				delete(g.texts, s.File)
				g.mu.Unlock()
			case "start":
				r := &cacheReq{read: make(chan struct{}), rel: make(chan struct{}), done: make(chan struct{})}
				r.opts = ast.SourceFileParseOptions{FileName: s.File, Path: tspath.Path(s.Path), ExternalModuleIndicatorOptions: ast.ExternalModuleIndicatorOptions{JSX: s.Jsx, Force: s.Forc}}
				reqs = append(reqs, r)
				g.mu.Lock()
				g.pending[s.File] = r
				g.mu.Unlock()
				h := hosts[s.Host]
				go func() {
					defer close(r.done)
					defer func() { r.pan = recover() }()
					r.sf = h.GetSourceFile(r.opts)
				}()
				select {
				case <-r.read:
				case <-r.done:
				case <-time.After(300 * time.Millisecond): // waits for another request: it may read later
				}
				g.mu.Lock()
				if g.pending[s.File] == r {
					delete(g.pending, s.File)
				}
				g.mu.Unlock()
			case "finish":
				for _, i := range s.Reqs {
					close(reqs[i].rel)
				}
				for _, i := range s.Reqs {
					select {
					case <-reqs[i].done:
					case <-time.After(300 * time.Millisecond): // waits for a request that is held
					}
				}
			}
		}
		type res struct {
			Nil   bool   `json:"nil"`
			Class int    `json:"class"`
			Text  string `json:"text"`
			Right bool   `json:"right"`
			Panic string `json:"panic,omitempty"`
		}
		out := []res{}
		classes := map[*ast.SourceFile]int{}
		for i, r := range reqs {
			select {
			case <-r.done:
			case <-time.After(20 * time.Second):
				out = append(out, res{Panic: "no answer"})
				continue
			}
			if r.pan != nil {
				out = append(out, res{Panic: fmt.Sprint(r.pan)})
				continue
			}
			if r.sf == nil {
				out = append(out, res{Nil: true})
				continue
			}
			if _, ok := classes[r.sf]; !ok {
				classes[r.sf] = i + 1
			}
			fresh := parser.ParseSourceFile(r.opts, r.sf.Text(), core.GetScriptKindFromFileName(r.opts.FileName))
			out = append(out, res{Class: classes[r.sf], Text: r.sf.Text(), Right: shape(fresh) == shape(r.sf)})
		}
		return out
	}
}
