package main

import (
	"context"
	"encoding/json"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
)

// compile: what the compiler alone (its own host, no linter code) says about a project on disk:
// {syn|sem: {file: [[code, pos, end, text], ...]}}.
func init() {
	ops["compile"] = func(m json.RawMessage) any {
		c := dec[struct {
			Config string `json:"config"`
			Cwd    string `json:"cwd"`
		}](m)
		fs := bundled.WrapFS(osvfs.FS())
		host := compiler.NewCompilerHost(c.Cwd, fs, bundled.LibPath(), nil, nil)
		conf, errs := tsoptions.GetParsedCommandLineOfConfigFile(c.Config, &core.CompilerOptions{}, nil, host, nil)
		if conf == nil || len(errs) > 0 {
			panic("driver: tsconfig")
		}
		p := compiler.NewProgram(compiler.ProgramOptions{Config: conf, SingleThreaded: core.TSTrue, Host: host, UseSourceOfProjectReference: true})
		p.BindSourceFiles()
		ctx := core.WithRequestID(context.Background(), "__verif__")
		syn, sem := map[string][][]any{}, map[string][][]any{}
		put := func(out map[string][][]any, name string, ds []*ast.Diagnostic) {
			out[name] = [][]any{}
			for _, d := range ds {
				if d.File() != nil && d.File().FileName() == name {
					out[name] = append(out[name], []any{d.Code(), d.Loc().Pos(), d.Loc().End(), ast.Diagnostic_Localize(d, ast.DefaultLocale())})
				}
			}
		}
		for _, sf := range p.GetSourceFiles() {
			put(syn, sf.FileName(), p.GetSyntacticDiagnostics(ctx, sf))
			put(sem, sf.FileName(), compiler.SortAndDeduplicateDiagnostics(append(append([]*ast.Diagnostic{}, p.GetSemanticDiagnostics(ctx, sf)...), p.GetIncludeProcessorDiagnostics(sf)...)))
		}
		return map[string]any{"syn": syn, "sem": sem}
	}
}
