package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// featureOverlay prepares the build for the CPU feature property: the CPUID
// and XGETBV instructions of the detection code become calls of stand-ins the
// harness controls, and the package initialisation that copies the detected
// features into switches becomes callable again (vReinit).
func featureOverlay(ov map[string]string) error {
	f := filepath.Join(*fRepo, "dsp/internal/cpu/cpu_x86.s")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	b = regexp.MustCompile(`(?m)^(\s*)CPUID\b`).ReplaceAll(b, []byte("${1}CALL ·vCPUIDHook(SB)"))
	b = regexp.MustCompile(`(?m)^(\s*)XGETBV\b`).ReplaceAll(b, []byte("${1}CALL ·vXGETBVHook(SB)"))
	g := filepath.Join(workDir, "cpu_x86.s")
	if err := os.WriteFile(g, b, 0644); err != nil {
		return err
	}
	ov[f] = g

	dir := filepath.Join(*fRepo, "dsp")
	ctx := build.Default
	ctx.GOARCH, ctx.GOOS = "amd64", "linux"
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return err
	}
	flags := map[string]bool{}
	for _, n := range boolVars(dir, bp.GoFiles) {
		flags[n] = true
	}
	var calls []string
	for _, name := range bp.GoFiles {
		src, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil {
			return err
		}
		type edit struct {
			at  int
			del int
			ins string
		}
		var eds []edit
		var assigns []string
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Name.Name != "init" || d.Recv != nil {
					continue
				}
				uses := false
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && flags[id.Name] {
						uses = true
					}
					return true
				})
				if uses {
					n := fmt.Sprintf("vInit%d", len(calls))
					calls = append(calls, n)
					eds = append(eds, edit{fs.Position(d.Name.Pos()).Offset, 4, n})
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					v, ok := s.(*ast.ValueSpec)
					if !ok || d.Tok != token.VAR || len(v.Values) != len(v.Names) {
						continue
					}
					for i, n := range v.Names {
						if flags[n.Name] {
							e := v.Values[i]
							assigns = append(assigns, n.Name+" = "+string(src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset]))
						}
					}
				}
			}
		}
		if len(eds) == 0 && len(assigns) == 0 {
			continue
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
		for _, e := range eds {
			src = append(append(append([]byte{}, src[:e.at]...), e.ins...), src[e.at+e.del:]...)
		}
		if len(assigns) > 0 {
			n := fmt.Sprintf("vVars%d", len(calls))
			calls = append([]string{n}, calls...)
			src = append(src, []byte("\nfunc "+n+"() {\n\t"+strings.Join(assigns, "\n\t")+"\n}\n")...)
		}
		g := filepath.Join(workDir, "reinit_"+name)
		if err := os.WriteFile(g, src, 0644); err != nil {
			return err
		}
		ov[filepath.Join(dir, name)] = g
	}
	var w bytes.Buffer
	fmt.Fprintf(&w, "package %s\n\nfunc init() { vReinit() }\n\nfunc vReinit() {\n", bp.Name)
	for _, c := range calls {
		fmt.Fprintf(&w, "\t%s()\n", c)
	}
	fmt.Fprintf(&w, "}\n")
	g = filepath.Join(workDir, "reinit.go")
	ov[filepath.Join(dir, "zz_verif_reinit.go")] = g
	return os.WriteFile(g, w.Bytes(), 0644)
}

// writeExt lists the extension instructions for the native replayer.
func writeExt(b *Binary) error {
	b.once.Do(b.load)
	if b.err != nil {
		return b.err
	}
	var w bytes.Buffer
	for e, as := range b.extAddrs() {
		for _, a := range as {
			fmt.Fprintf(&w, "%s %x\n", e, a)
		}
	}
	f := filepath.Join(workDir, "ext.txt")
	os.Setenv("VERIF_EXT", f)
	return os.WriteFile(f, w.Bytes(), 0644)
}
