package main

import (
	"encoding/json"
	"fmt"
	"path"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/checker"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzverif/lib"
)

func gid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.Atoi(f[1])
	return id
}

var kindByName = map[string]ast.Kind{}

func init() {
	for k := ast.Kind(0); k < 500; k++ {
		s := k.String()
		if strings.HasPrefix(s, "Kind") && !strings.Contains(s, "(") {
			kindByName[strings.TrimPrefix(s, "Kind")] = k
		}
	}
}

type lintRule struct {
	Name   string   `json:"name"`
	Kinds  []string `json:"kinds"`  // "Identifier" (enter), "-Identifier" (exit)
	Report []string `json:"report"` // the ones on which it reports
	How    string   `json:"how"`    // reporting function
	Sleep  int      `json:"sleep"`  // microseconds each callback takes
	Setup  int      `json:"setup"`  // microseconds setting up takes
}
type lintCase struct {
	Files    map[string]string     `json:"files"`
	Config   string                `json:"config"`
	Inferred bool                  `json:"inferred"`
	Lint     []string              `json:"lint"`
	Rules    map[string][]lintRule `json:"rules"`
	Workers  int                   `json:"workers"`
	Single   bool                  `json:"single"`
	Fix      bool                  `json:"fix"`
	Sug      bool                  `json:"sug"`
	Timing   bool                  `json:"timing"`
	Repeat   int                   `json:"repeat"` // programs linted into one timing store
	Yield    bool                  `json:"yield"`
	Syn      bool                  `json:"syn"`
	Sem      bool                  `json:"sem"`
	Tree     bool                  `json:"tree"`
	Quiet    bool                  `json:"quiet"` // no event log
}

type event struct {
	E  string `json:"e"`
	G  int    `json:"g"`
	F  string `json:"f"`
	I  int    `json:"i,omitempty"`  // rule index (1-based)
	K  string `json:"k,omitempty"`  // listened kind
	N  int    `json:"n,omitempty"`  // node id
	NF string `json:"nf,omitempty"` // file the node belongs to
	C  int    `json:"c,omitempty"`  // checker
	R  string `json:"r,omitempty"`  // rule name on the diagnostic
	M  string `json:"m,omitempty"`  // message on the diagnostic
	P  []int  `json:"p,omitempty"`
	X  int    `json:"x,omitempty"` // number of fixes (-1: absent)
	S  int    `json:"s,omitempty"` // number of suggestions (-1: absent)
}

func tag(file string, i int, k string, n int) string { return fmt.Sprintf("%s#%d#%s#%d", file, i, k, n) }

func mkProgram(c lintCase, mfs *lib.MemFS) (*compiler.Program, []diagnostic.Internal) {
	fs := bundled.WrapFS(mfs)
	dir := path.Dir(c.Config)
	host := utils.NewCompilerHost(dir, fs, bundled.LibPath(), nil, nil)
	if c.Inferred {
		p, d, err := utils.CreateInferredProjectProgram(c.Single, fs, dir, host, c.Lint)
		if err != nil {
			panic(err)
		}
		return p, d
	}
	p, d, err := utils.CreateProgram(c.Single, fs, dir, c.Config, host, false)
	if err != nil {
		panic(err)
	}
	return p, d
}

func memfs(files map[string]string) *lib.MemFS {
	m := &lib.MemFS{Files: map[string]string{}, Mtime: map[string]int64{}, CS: true}
	for k, v := range files {
		m.Files[k] = v
	}
	return m
}

type treeNode struct {
	K  string `json:"k"`
	Ch []int  `json:"ch"`
	T  []int  `json:"t"` // children that are assignment targets
	P  int    `json:"p"`
	E  int    `json:"e"`
}

// number assigns pre-order numbers (1-based) to all nodes below the root, by a walk of its own.
func number(sf *ast.SourceFile) (map[*ast.Node]int, []treeNode) {
	ids := map[*ast.Node]int{}
	nodes := []treeNode{{K: "SourceFile", Ch: []int{}, T: []int{}}}
	var walk func(n *ast.Node, parent int)
	walk = func(n *ast.Node, parent int) {
		id := len(nodes)
		ids[n] = id
		nodes = append(nodes, treeNode{K: strings.TrimPrefix(n.Kind.String(), "Kind"), Ch: []int{}, T: []int{}, P: n.Pos(), E: n.End()})
		nodes[parent].Ch = append(nodes[parent].Ch, id)
		n.ForEachChild(func(x *ast.Node) bool { walk(x, id); return false })
		tgt := func(x *ast.Node) { nodes[id].T = append(nodes[id].T, ids[x]) }
		switch n.Kind {
		case ast.KindBinaryExpression:
			if n.AsBinaryExpression().OperatorToken.Kind == ast.KindEqualsToken {
				tgt(n.AsBinaryExpression().Left)
			}
		case ast.KindForOfStatement, ast.KindForInStatement:
			if i := n.AsForInOrOfStatement().Initializer; i.Kind != ast.KindVariableDeclarationList {
				tgt(i)
			}
		}
	}
	sf.Node.ForEachChild(func(n *ast.Node) bool { walk(n, 0); return false })
	return ids, nodes
}

func init() {
	ops["lint"] = func(m json.RawMessage) any {
		c := dec[lintCase](m)
		var mu sync.Mutex
		log := []event{}
		add := func(e event) {
			e.G = gid()
			mu.Lock()
			if !c.Quiet {
				log = append(log, e)
			}
			mu.Unlock()
			if c.Yield {
				runtime.Gosched()
				if e.N%5 == 1 {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
		checkers := map[*checker.Checker]int{}
		store := linter.NewRuleTimingStore()
		trees := map[string][]treeNode{}
		diags := []event{}
		internals := [][]any{}
		inner := map[string]int64{}
		spend := func(name string, us int) {
			if us == 0 {
				return
			}
			t := time.Now()
			for time.Since(t) < time.Duration(us)*time.Microsecond {
				time.Sleep(time.Duration(us)*time.Microsecond - time.Since(t))
			}
			d := int64(time.Since(t))
			mu.Lock()
			inner[name] += d
			mu.Unlock()
		}
		began := time.Now()
		rep := max(1, c.Repeat)
		for range rep {
			program, id := mkProgram(c, memfs(c.Files))
			if program == nil {
				panic(fmt.Sprintf("driver: no program: %+v", id[0]))
			}
			ids := map[string]map[*ast.Node]int{}
			files := []*ast.SourceFile{}
			for _, f := range c.Lint {
				sf := program.GetSourceFile(f)
				if sf == nil {
					panic("driver: file not in program: " + f)
				}
				files = append(files, sf)
				a, b := number(sf)
				ids[f] = a
				if c.Tree {
					trees[f] = b
				}
			}
			opts := linter.RunLinterOnProgramOptions{
				LogLevel: utils.LogLevelNormal, Program: program, Files: files, Workers: c.Workers,
				Fixes:      linter.Fixes{Fix: c.Fix, FixSuggestions: c.Sug},
				TypeErrors: linter.TypeErrors{ReportSyntactic: c.Syn, ReportSemantic: c.Sem},
				GetRulesForFile: func(sf *ast.SourceFile) []linter.ConfiguredRule {
					fn := sf.FileName()
					add(event{E: "get", F: fn})
					res := []linter.ConfiguredRule{}
					for i, r := range c.Rules[fn] {
						res = append(res, linter.ConfiguredRule{Name: r.Name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
							mu.Lock()
							ck := checkers[ctx.TypeChecker]
							if ck == 0 {
								ck = len(checkers) + 1
								checkers[ctx.TypeChecker] = ck
							}
							mu.Unlock()
							add(event{E: "run", F: fn, NF: ctx.SourceFile.FileName(), I: i + 1, C: ck})
							spend(r.Name, r.Setup)
							ls := rule.RuleListeners{}
							for _, ks := range r.Kinds {
								k, exit := strings.CutPrefix(ks, "-")
								kind, ok := kindByName[k]
								if !ok {
									panic("driver: kind " + k)
								}
								if exit {
									kind = rule.ListenerOnExit(kind)
								}
								doReport := false
								for _, x := range r.Report {
									doReport = doReport || x == ks
								}
								ls[kind] = func(n *ast.Node) {
									nf := ast.GetSourceFileOfNode(n).FileName()
									nid := ids[nf][n]
									// the checker handed to the rule is used, as real rules do
									if c.Yield {
										ctx.TypeChecker.GetTypeAtLocation(n)
									}
									add(event{E: "cb", F: fn, I: i + 1, K: ks, N: nid, NF: nf, C: ck})
									spend(r.Name, r.Sleep)
									if doReport {
										report(ctx, r.How, n, tag(fn, i+1, ks, nid))
									}
								}
							}
							return ls
						}})
					}
					return res
				},
				OnDiagnostic: func(d rule.RuleDiagnostic) {
					e := event{E: "diag", F: d.SourceFile.FileName(), R: d.RuleName, M: d.Message.Id, P: []int{d.Range.Pos(), d.Range.End()}, X: -1, S: -1}
					for _, l := range d.LabeledRanges {
						e.P = append(e.P, l.Range.Pos(), l.Range.End())
					}
					if d.FixesPtr != nil {
						e.X = len(d.Fixes())
						for _, f := range d.Fixes() {
							e.P = append(e.P, f.Range.Pos(), f.Range.End(), len(f.Text))
						}
					}
					if d.Suggestions != nil {
						e.S = len(d.GetSuggestions())
					}
					add(e)
					mu.Lock()
					diags = append(diags, e)
					mu.Unlock()
				},
				OnInternalDiagnostic: func(d diagnostic.Internal) {
					mu.Lock()
					defer mu.Unlock()
					fp := ""
					if d.FilePath != nil {
						fp = *d.FilePath
					}
					internals = append(internals, []any{fp, d.Id, d.Range.Pos(), d.Range.End(), d.Description})
				},
			}
			if c.Timing {
				opts.TimingStore = store
			}
			if err := linter.RunLinterOnProgram(opts); err != nil {
				panic(err)
			}
			add(event{E: "end"})
		}
		res := map[string]any{"log": log, "diags": diags, "internals": internals, "trees": trees}
		ts := [][]any{}
		var prev *linter.RuleTimingRecord
		sorted := true
		for _, r := range store.Collect() {
			ts = append(ts, []any{r.RuleName, r.Calls, int64(r.Duration)})
			if prev != nil && (prev.Duration < r.Duration || prev.Duration == r.Duration && prev.RuleName >= r.RuleName) {
				sorted = false
			}
			rr := r
			prev = &rr
		}
		res["timing"], res["sorted"] = ts, sorted
		res["inner"], res["wall"] = inner, int64(time.Since(began))
		return res
	}

	// walk: one rule that listens to everything; the announcements in the order they were made.
	ops["walk"] = func(m json.RawMessage) any {
		c := dec[struct {
			Name string `json:"name"`
			Text string `json:"text"`
		}](m)
		lc := lintCase{Files: map[string]string{"/w/" + c.Name: c.Text}, Config: "/w/tsconfig.json", Inferred: true, Lint: []string{"/w/" + c.Name}, Single: true}
		lc.Files["/w/tsconfig.json"] = "{}"
		program, _ := mkProgram(lc, memfs(lc.Files))
		sf := program.GetSourceFile(lc.Lint[0])
		ids, tree := number(sf)
		log := [][]any{}
		kinds := []ast.Kind{}
		for _, k := range kindByName {
			kinds = append(kinds, k)
		}
		err := linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
			LogLevel: utils.LogLevelNormal, Program: program, Files: []*ast.SourceFile{sf}, Workers: 1,
			GetRulesForFile: func(*ast.SourceFile) []linter.ConfiguredRule {
				return []linter.ConfiguredRule{{Name: "all", Run: func(ctx rule.RuleContext) rule.RuleListeners {
					ls := rule.RuleListeners{}
					for _, k := range kinds {
						for ph, kk := range map[string]ast.Kind{"in": k, "out": rule.ListenerOnExit(k), "pin": rule.ListenerOnAllowPattern(k), "pout": rule.ListenerOnExit(rule.ListenerOnAllowPattern(k)),
							"nin": rule.ListenerOnNotAllowPattern(k), "nout": rule.ListenerOnExit(rule.ListenerOnNotAllowPattern(k))} {
							ls[kk] = func(n *ast.Node) {
								id, ok := ids[n]
								if !ok {
									id = -1
								}
								if n.Kind != k {
									id = -2
								}
								log = append(log, []any{ph, id})
							}
						}
					}
					return ls
				}}}
			},
			OnDiagnostic: func(rule.RuleDiagnostic) {}, OnInternalDiagnostic: func(diagnostic.Internal) {},
		})
		if err != nil {
			panic(err)
		}
		return map[string]any{"log": log, "tree": tree, "errors": len(sf.Diagnostics())}
	}
}

func report(ctx rule.RuleContext, how string, n *ast.Node, id string) {
	msg := rule.RuleMessage{Id: id, Description: "d " + id, Help: "h"}
	rg := utils.TrimNodeTextRange(ctx.SourceFile, n)
	fixes := func() []rule.RuleFix {
		return []rule.RuleFix{rule.RuleFixReplaceRange(rg, "X"), rule.RuleFixInsertAfter(n, "Y")}
	}
	sugs := func() []rule.RuleSuggestion {
		return []rule.RuleSuggestion{{Message: msg, FixesArr: fixes()}, {Message: msg, FixesArr: fixes()}}
	}
	labels := []rule.RuleLabeledRange{{Label: "l", Range: core.NewTextRange(rg.Pos(), rg.Pos())}}
	switch how {
	case "", "node":
		ctx.ReportNode(n, msg)
	case "range":
		ctx.ReportRange(rg, msg)
	case "rangesug":
		ctx.ReportRangeWithSuggestions(rg, msg, sugs)
	case "nodefix":
		ctx.ReportNodeWithFixes(n, msg, fixes)
	case "nodesug":
		ctx.ReportNodeWithSuggestions(n, msg, sugs)
	case "diag":
		ctx.ReportDiagnostic(rule.RuleDiagnostic{Range: rg, Message: msg, LabeledRanges: labels})
	case "diagfix":
		ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{Range: rg, Message: msg, LabeledRanges: labels}, fixes)
	case "diagsug":
		ctx.ReportDiagnosticWithSuggestions(rule.RuleDiagnostic{Range: rg, Message: msg, LabeledRanges: labels}, sugs)
	default:
		panic("driver: how " + how)
	}
}
