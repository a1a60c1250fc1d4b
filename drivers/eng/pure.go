package main

import (
	"encoding/json"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/collections"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

type fixIn struct {
	P int    `json:"p"`
	E int    `json:"e"`
	T string `json:"t"`
}
type msg struct {
	id    int
	fixes []rule.RuleFix
}

func (m *msg) Fixes() []rule.RuleFix { return m.fixes }

func init() {
	ops["fixes"] = func(m json.RawMessage) any {
		c := dec[struct {
			Code  string    `json:"code"`
			Diags [][]fixIn `json:"diags"`
		}](m)
		var ds []*msg
		for i, d := range c.Diags {
			x := &msg{id: i + 1}
			for _, f := range d {
				x.fixes = append(x.fixes, rule.RuleFix{Text: f.T, Range: core.NewTextRange(f.P, f.E)})
			}
			ds = append(ds, x)
		}
		out, un, fixed := linter.ApplyRuleFixes(c.Code, ds)
		ids := []int{}
		for _, u := range un {
			ids = append(ids, u.id)
		}
		return map[string]any{"out": out, "unapplied": ids, "fixed": fixed}
	}
	ops["bfs"] = func(m json.RawMessage) any {
		c := dec[struct {
			N       int      `json:"n"`
			Adj     [][]int  `json:"adj"`
			Res     []int    `json:"res"`
			Stop    []int    `json:"stop"`
			Visited []int    `json:"visited"`
			UseVis  bool     `json:"usevis"`
			Removed [][2]int `json:"removed"` // (level, node)
			UsePre  bool     `json:"usepre"`
		}](m)
		has := func(xs []int, x int) bool {
			for _, y := range xs {
				if x == y {
					return true
				}
			}
			return false
		}
		visits, expands, levels := []int{}, []int{}, [][]int{}
		opt := utils.BreadthFirstSearchOptions[int]{}
		var vis *collections.SyncSet[int]
		if c.UseVis {
			vis = &collections.SyncSet[int]{}
			for _, v := range c.Visited {
				vis.Add(v)
			}
			opt.Visited = vis
		}
		if c.UsePre {
			lv := 0
			opt.PreprocessLevel = func(l *utils.BreadthFirstSearchLevel[int]) {
				for _, r := range c.Removed {
					if r[0] == lv && l.Has(r[1]) {
						l.Delete(r[1])
					}
				}
				seen := []int{}
				l.Range(func(n int) bool { seen = append(seen, n); return true })
				levels = append(levels, seen)
				lv++
			}
		}
		r := utils.BreadthFirstSearch(1, func(n int) []int {
			expands = append(expands, n)
			return c.Adj[n-1]
		}, func(n int) (bool, bool) {
			visits = append(visits, n)
			return has(c.Res, n), has(c.Stop, n)
		}, opt)
		path := r.Path
		if path == nil {
			path = []int{}
		}
		after := []int{}
		if vis != nil {
			for i := 1; i <= c.N; i++ {
				if vis.Has(i) {
					after = append(after, i)
				}
			}
		}
		return map[string]any{"visits": visits, "stopped": r.Stopped, "path": path, "levels": levels, "after": after}
	}
}
