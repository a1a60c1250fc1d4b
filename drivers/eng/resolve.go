package main

import (
	"encoding/json"
	"runtime"

	"github.com/typescript-eslint/tsgolint/internal/utils"
)

// resolve: which project each file is assigned to, resolved together, alone, and by several calls on one resolver.
func init() {
	ops["resolve"] = func(m json.RawMessage) any {
		c := dec[struct {
			Files   map[string]string `json:"files"`
			Cwd     string            `json:"cwd"`
			Queries []string          `json:"queries"`
			Threads []int             `json:"threads"`
		}](m)
		old := runtime.GOMAXPROCS(0)
		defer runtime.GOMAXPROCS(old)
		all := []map[string]string{}
		for _, t := range c.Threads {
			runtime.GOMAXPROCS(t)
			all = append(all, utils.NewTsConfigResolver(memfs(c.Files), c.Cwd).FindTsConfigParallel(c.Queries))
		}
		alone := map[string]string{}
		shared := map[string]string{}
		r := utils.NewTsConfigResolver(memfs(c.Files), c.Cwd)
		for _, q := range c.Queries {
			alone[q] = utils.NewTsConfigResolver(memfs(c.Files), c.Cwd).FindTsConfigParallel([]string{q})[q]
			p, ok := r.FindTsconfigForFile(q, false)
			if ok != (p != "") {
				panic("found without a path, or a path without being found")
			}
			shared[q] = p
		}
		return map[string]any{"all": all, "alone": alone, "shared": shared}
	}
}
