package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loader holds the SSA form of the repository with the harnesses laid over it.
type Loader struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
}

// stubSource rewrites the bodies of functions: spec is "file.go:Recv.Name" -> body.
func stubSource(src []byte, stubs map[string]string, all map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	type cut struct {
		a, b int
		s    string
	}
	var cuts []cut
	var keep []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if ix, ok := t.(*ast.IndexExpr); ok {
				t = ix.X
			}
			name = t.(*ast.Ident).Name + "." + name
		}
		if b, ok := stubs[name]; ok {
			// parameters by position
			var ps []string
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					ps = append(ps, n.Name)
				}
			}
			for i, p := range ps {
				b = strings.ReplaceAll(b, "$"+strconv.Itoa(i), p)
			}
			if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
				b = strings.ReplaceAll(b, "$r", fd.Recv.List[0].Names[0].Name)
			}
			used[name] = true
			if strings.Contains(b, "zzo"+fd.Name.Name) {
				// the original under another name
				o := fset.Position(fd.Name.Pos()).Offset
				keep = append(keep, string(src[fset.Position(fd.Pos()).Offset:o])+"zzo"+string(src[o:fset.Position(fd.End()).Offset]))
				if fd.Doc != nil {
					d := fset.Position(fd.Doc.Pos()).Offset
					k := keep[len(keep)-1]
					keep[len(keep)-1] = strings.TrimPrefix(k, string(src[d:fset.Position(fd.Doc.End()).Offset]))
				}
			}
			cuts = append(cuts, cut{fset.Position(fd.Body.Pos()).Offset, fset.Position(fd.Body.End()).Offset, "{ " + b + " }"})
		}
	}
	if len(used) == 0 {
		return nil, nil
	}
	for n := range used {
		all[n] = true
	}
	out := append([]byte{}, src...)
	for i := len(cuts) - 1; i >= 0; i-- {
		c := cuts[i]
		out = append(out[:c.a:c.a], append([]byte(c.s), out[c.b:]...)...)
	}
	for _, k := range keep {
		out = append(out, []byte("\n\n"+k+"\n")...)
	}
	// the import of v, and silence for imports no longer used
	f2, err := parser.ParseFile(fset, "x.go", out, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	names := map[string]bool{}
	ast.Inspect(f2, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				names[id.Name] = true
			}
		}
		return true
	})
	for _, im := range f2.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		base := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name == nil && !names[base] && base != "v6" && !strings.HasPrefix(base, "v") {
			im.Name = ast.NewIdent("_")
		}
	}
	im := &ast.ImportSpec{Name: ast.NewIdent("zzv"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"github.com/sp301415/ringo-snark/zzverif/v"`}}
	if !names["zzv"] {
		im.Name = ast.NewIdent("_")
	}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{im}}
	f2.Decls = append([]ast.Decl{gd}, f2.Decls...)
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f2); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// stubDir replaces the bodies of functions of one package.
func stubDir(dir, stubs, out string) error {
	b, err := os.ReadFile(stubs)
	if err != nil {
		return err
	}
	st := map[string]string{}
	if err := json.Unmarshal(b, &st); err != nil {
		return err
	}
	fs, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	all := map[string]bool{}
	for _, f := range fs {
		n := f.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		r, err := stubSource(src, st, all)
		if err != nil {
			return fmt.Errorf("%s: %w", n, err)
		}
		if r != nil {
			if err := os.WriteFile(filepath.Join(out, n), r, 0o644); err != nil {
				return err
			}
		}
	}
	for n := range st {
		if !all[n] {
			return fmt.Errorf("no function %s in %s", n, dir)
		}
	}
	return nil
}

func load(repo string, overlay map[string][]byte, flags, env, pats []string) (*Loader, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, BuildFlags: flags, Env: env,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "github.com/sp301415") {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l := &Loader{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	return l, nil
}

// ensure builds the bodies of a package on demand.
func (l *Loader) ensure(p *ssa.Package) { p.Build() }

// ---- setup dumps

type dumpFile struct {
	Roots map[string]json.RawMessage `json:"roots"`
	Objs  []json.RawMessage          `json:"objs"`
	Arrs  []json.RawMessage          `json:"arrs"`
}

type undump struct {
	d    *dumpFile
	objs map[string]*Value
	arrs map[string][]Value
}

func readDump(file string) (*dumpFile, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	d := &dumpFile{}
	return d, json.Unmarshal(b, d)
}

func (d *undump) value(raw json.RawMessage, t types.Type) Value {
	if len(raw) == 0 || string(raw) == "null" {
		return zero(t)
	}
	if isBigInt(t) {
		var o struct{ B string }
		json.Unmarshal(raw, &o)
		v, _ := new(big.Int).SetString(o.B, 10)
		return bigConst(v)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return string(raw) == "true"
		case x.Info()&types.IsString != 0:
			var s string
			json.Unmarshal(raw, &s)
			return s
		case x.Info()&types.IsFloat != 0:
			v, _ := strconv.ParseUint(strings.Trim(string(raw), `"`), 10, 64)
			return math.Float64frombits(v)
		case x.Info()&types.IsInteger != 0:
			s := strings.Trim(string(raw), `"`)
			if isSigned(x) {
				v, _ := strconv.ParseInt(s, 10, 64)
				return v
			}
			v, _ := strconv.ParseUint(s, 10, 64)
			return v
		}
	case *types.Pointer:
		var o struct{ P int }
		json.Unmarshal(raw, &o)
		k := fmt.Sprint(o.P, x.Elem())
		if c, ok := d.objs[k]; ok {
			return Ptr{p: c}
		}
		c := new(Value)
		d.objs[k] = c
		*c = d.value(d.d.Objs[o.P], x.Elem())
		return Ptr{p: c}
	case *types.Slice:
		var o struct{ L, N int }
		json.Unmarshal(raw, &o)
		if o.L < 0 {
			return Slice{[]Value{}}
		}
		k := fmt.Sprint(o.L, x.Elem())
		a, ok := d.arrs[k]
		if !ok {
			var es []json.RawMessage
			json.Unmarshal(d.d.Arrs[o.L], &es)
			a = make([]Value, len(es))
			d.arrs[k] = a
			for i := range es {
				a[i] = d.value(es[i], x.Elem())
			}
		}
		return Slice{a[:o.N]}
	case *types.Struct:
		var es []json.RawMessage
		json.Unmarshal(raw, &es)
		s := make(Struct, x.NumFields())
		for i := range s {
			s[i] = d.value(es[i], x.Field(i).Type())
		}
		return s
	case *types.Array:
		var es []json.RawMessage
		json.Unmarshal(raw, &es)
		s := make(Array, x.Len())
		for i := range s {
			s[i] = d.value(es[i], x.Elem())
		}
		return s
	}
	return zero(t)
}

// overlayFiles reads the harness files of a directory tree: DIR/<pkg path>/*.go.
func overlayFiles(repo, dir string, out map[string][]byte) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[filepath.Join(repo, rel)] = b
		return nil
	})
}
