package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/mottla/go-AlgebraicProgram-SNARK"

type Pkg struct {
	path  string
	name  string
	dir   string
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
	funcs map[string]*ast.FuncDecl // Recv.Name or Name
	inits map[types.Object]ast.Expr
	src   map[string][]byte
}

type Loader struct {
	root  string
	fset  *token.FileSet
	std   types.ImporterFrom
	pkgs  map[string]*Pkg
	fdecl map[types.Object]*FuncInfo

	specDir string
}

type FuncInfo struct {
	pkg  *Pkg
	decl *ast.FuncDecl
	obj  *types.Func
	key  string // pkg.Recv.Name
}

func NewLoader(root string) *Loader {
	l := &Loader{root: root, fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, fdecl: map[types.Object]*FuncInfo{}}
	l.std = importer.ForCompiler(l.fset, "source", nil).(types.ImporterFrom)
	return l
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, modPath) {
		p, err := l.Load(strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
		if err != nil {
			return nil, err
		}
		return p.tpkg, nil
	}
	return l.std.ImportFrom(path, l.root, 0)
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return "?"
}

func (l *Loader) Load(rel string) (*Pkg, error) {
	if p, ok := l.pkgs[rel]; ok {
		return p, nil
	}
	dir := filepath.Join(l.root, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &Pkg{path: rel, dir: dir, funcs: map[string]*ast.FuncDecl{}, inits: map[types.Object]ast.Expr{}, src: map[string][]byte{}}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fn := filepath.Join(dir, n)
		src, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(l.fset, fn, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if skipBuild(f) {
			continue
		}
		p.files = append(p.files, f)
		p.src[fn] = src
	}
	extra := l.clients(rel)
	p.files = append(p.files, extra...)
retry:
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: l, FakeImportC: true}
	tp, err := conf.Check(modPath+"/"+rel, l.fset, p.files, p.info)
	if err != nil {
		if len(extra) > 0 { // the client lemmas no longer fit the package: leave them out
			p.files = p.files[:len(p.files)-len(extra)]
			extra = nil
			goto retry
		}
		return nil, fmt.Errorf("type-check %s: %v", rel, err)
	}
	p.tpkg = tp
	p.name = tp.Name()
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				k := d.Name.Name
				if r := recvName(d); r != "" {
					k = r + "." + k
				}
				p.funcs[k] = d
				o := p.info.Defs[d.Name].(*types.Func)
				l.fdecl[o] = &FuncInfo{p, d, o, p.name + "." + k}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						if len(vs.Values) == len(vs.Names) {
							for i, n := range vs.Names {
								if o := p.info.Defs[n]; o != nil {
									p.inits[o] = vs.Values[i]
								}
							}
						}
					}
				}
			}
		}
	}
	l.pkgs[rel] = p
	return p, nil
}

func skipBuild(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") && strings.Contains(c.Text, "verif") {
				return true
			}
		}
	}
	return false
}

func (l *Loader) findFunc(key string) *FuncInfo {
	for _, f := range l.fdecl {
		if f.key == key {
			return f
		}
	}
	return nil
}

// clients parses the ghost client lemmas of a package (contracts/clients/<pkg>).
func (l *Loader) clients(rel string) []*ast.File {
	if l.specDir == "" {
		return nil
	}
	fs, _ := filepath.Glob(filepath.Join(l.specDir, "clients", rel, "*.go"))
	sort.Strings(fs)
	var out []*ast.File
	for _, fn := range fs {
		if f, err := parser.ParseFile(l.fset, fn, nil, parser.ParseComments); err == nil {
			out = append(out, f)
		}
	}
	return out
}
