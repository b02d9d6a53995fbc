// Package load type-checks the packages of the repository under analysis,
// together with everything they import, and builds SSA for them.
package load

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RepoPath is the import path prefix of the analysed repository.
const RepoPath = "github.com/golang/freetype"

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

// Pkg is one type-checked package.
type Pkg struct {
	Path  string
	Files []*ast.File
	Names []string
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
	Repo  bool
}

// Program is the loaded repository.
type Program struct {
	Repo string
	Fset *token.FileSet
	Pkgs map[string]*Pkg
	SSA  *ssa.Program
}

type imp struct {
	p    *Program
	imap map[string]string
}

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if m, ok := i.imap[path]; ok {
		path = m
	}
	if p := i.p.Pkgs[path]; p != nil {
		return p.Types, nil
	}
	return nil, fmt.Errorf("package %q not loaded", path)
}

// GoEnv returns the environment in which the repository builds.
func GoEnv() []string {
	drop := map[string]bool{}
	set := [][2]string{
		{"HOME", "/root"},
		{"GO111MODULE", "on"}, {"GOTOOLCHAIN", "local"}, {"GOPROXY", "off"}, {"GOWORK", "off"},
		{"CGO_ENABLED", "0"}, {"GOPATH", "/root/go"}, {"GOMODCACHE", "/root/go/pkg/mod"},
		{"GOFLAGS", "-modfile=/opt/vp/mod/freetype.mod -overlay=/opt/vp/mod/overlay.json -buildvcs=false"},
		{"GOOS", "linux"}, {"GOARCH", "amd64"},
	}
	for _, kv := range set {
		drop[kv[0]] = true
	}
	drop["PWD"] = true
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if !drop[k] {
			env = append(env, e)
		}
	}
	for _, kv := range set {
		env = append(env, kv[0]+"="+kv[1])
	}
	return env
}

const goBin = "/opt/veriftools/go1.27.3/bin/go"

// Load lists, parses, type-checks and builds SSA for dir and all dependencies.
func Load(dir string, tags string) (*Program, error) { return LoadWith(dir, tags, nil) }

// LoadWith is Load with additional source text per package, used for drivers
// that call the code under analysis.
func LoadWith(dir string, tags string, extra map[string]string) (*Program, error) {
	cmd := exec.Command(goBin, "list", "-deps", "-tags", tags,
		"-json=ImportPath,Dir,GoFiles,Standard,Imports,ImportMap,Error", "./...")
	cmd.Dir = dir
	cmd.Env = append(GoEnv(), "PWD="+dir)
	if dir != "/repo" { // a scratch copy
		o, err := os.CreateTemp("", "ov*.json")
		if err != nil {
			return nil, err
		}
		defer os.Remove(o.Name())
		fmt.Fprintf(o, `{"Replace":{%q:"/opt/vp/mod/freetype.mod"}}`, filepath.Join(dir, "go.mod"))
		o.Close()
		cmd.Env = append(cmd.Env, "GOFLAGS=-modfile=/opt/vp/mod/freetype.mod -overlay="+o.Name()+" -buildvcs=false")
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	var pkgs []listPkg
	dec := json.NewDecoder(&out)
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("%s: %s", lp.ImportPath, lp.Error.Err)
		}
		pkgs = append(pkgs, lp)
	}
	p := &Program{Repo: dir, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}}
	for _, lp := range pkgs {
		if lp.ImportPath == "unsafe" {
			continue
		}
		isRepo := lp.ImportPath == RepoPath || strings.HasPrefix(lp.ImportPath, RepoPath+"/")
		mode := parser.SkipObjectResolution
		if isRepo {
			mode |= parser.ParseComments
		}
		pk := &Pkg{Path: lp.ImportPath, Repo: isRepo}
		for _, f := range lp.GoFiles {
			name := filepath.Join(lp.Dir, f)
			af, err := parser.ParseFile(p.Fset, name, nil, mode)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
			pk.Names = append(pk.Names, name)
		}
		if src := extra[lp.ImportPath]; src != "" {
			name := filepath.Join(lp.Dir, "zz_verif_driver.go")
			af, err := parser.ParseFile(p.Fset, name, src, mode)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
			pk.Names = append(pk.Names, name)
		}
		pk.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		var terrs []error
		conf := types.Config{Importer: imp{p, lp.ImportMap}, Sizes: types.SizesFor("gc", "amd64"),
			Error: func(e error) { terrs = append(terrs, e) }}
		if lp.Standard {
			conf.GoVersion = ""
		}
		tp, err := conf.Check(lp.ImportPath, p.Fset, pk.Files, pk.Info)
		if err != nil && isRepo {
			return nil, fmt.Errorf("type-check %s: %v", lp.ImportPath, terrs)
		}
		if err != nil && tp == nil {
			return nil, err
		}
		pk.Types = tp
		p.Pkgs[lp.ImportPath] = pk
	}
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	p.SSA.CreatePackage(types.Unsafe, nil, nil, true)
	var paths []string
	for k := range p.Pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		pk := p.Pkgs[k]
		pk.SSA = p.SSA.CreatePackage(pk.Types, pk.Files, pk.Info, true)
	}
	for _, k := range paths {
		if p.Pkgs[k].Repo || Buildable(k) {
			p.Pkgs[k].SSA.Build()
		}
	}
	return p, nil
}

// Buildable reports whether a dependency's bodies are analysed from source.
func Buildable(path string) bool {
	switch path {
	case "golang.org/x/image/math/fixed", "golang.org/x/image/font", "image", "image/color", "errors", "math", "image/draw":
		return true
	}
	return false
}

// Func finds a package-level function or method: "Parse", "(*Font).Index".
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		recv, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		obj, _ := pk.Types.Scope().Lookup(recv).(*types.TypeName)
		if obj == nil {
			return nil
		}
		var t types.Type = obj.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := types.NewMethodSet(t).Lookup(pk.Types, m)
		if sel == nil {
			return nil
		}
		return p.SSA.MethodValue(sel)
	}
	return pk.SSA.Func(name)
}

// Pos renders a position relative to the repository root.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	name := ps.Filename
	if r, err := filepath.Rel(p.Repo, name); err == nil && !strings.HasPrefix(r, "..") {
		name = r
	}
	return fmt.Sprintf("%s:%d", name, ps.Line)
}
