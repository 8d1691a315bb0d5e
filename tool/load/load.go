// Package load parses and type-checks the current working tree of the
// repository under analysis and builds SSA for it. Third-party modules are
// replaced by the stubs embedded here, the standard library is read from GOROOT.
package load

import (
	"embed"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed stubs
var stubFS embed.FS

// Module is the import path of the repository.
const Module = "github.com/mmcloughlin/trunnel"

var stubDirs = map[string]string{
	"github.com/mmcloughlin/random": "random",
	"github.com/serenize/snaker":    "snaker",
	"github.com/pkg/errors":         "pkgerrors",
	"github.com/spf13/afero":        "afero",
	"golang.org/x/tools/imports":    "imports",
	"github.com/urfave/cli":         "cli",
	"github.com/urfave/cli/v2":      "cli",
	"verif/model":                   "model",
	"testing":                       "testing",
	"crypto/sha256":                 "sha256",
}

// std packages whose function bodies may be interpreted.
var stdBodies = map[string]bool{
	"sort": true, "slices": true, "strings": true, "bytes": true, "strconv": true,
	"path/filepath": true, "path": true, "unicode": true, "unicode/utf8": true, "errors": true,
	"math/bits": true, "encoding/hex": true, "cmp": true, "maps": true, "iter": true,
	"internal/bytealg": true, "internal/stringslite": true, "math": true, "encoding/binary": true,
	"internal/filepathlite": true, "io/ioutil": true,
}

// Package is one loaded package.
type Package struct {
	Path  string
	Types *types.Package
	Files []*ast.File
	Info  *types.Info
	SSA   *ssa.Package
	Errs  []error
	Std   bool
}

// Program is the loaded program.
type Program struct {
	Dir    string
	Fset   *token.FileSet
	SSA    *ssa.Program
	Pkgs   map[string]*Package
	ctx    build.Context
	goroot string
	// Files lists the repository source files analysed.
	Files []string
}

// New prepares a loader for the repository at dir.
func New(dir string) *Program {
	p := &Program{Dir: dir, Fset: token.NewFileSet(), Pkgs: map[string]*Package{}}
	p.ctx = build.Default
	p.ctx.CgoEnabled = false
	p.ctx.GOPATH = "/nonexistent"
	p.goroot = goroot()
	p.ctx.GOROOT = p.goroot
	return p
}

func goroot() string {
	if g := os.Getenv("VERIF_GOROOT"); g != "" {
		return g
	}
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	return runtime.GOROOT()
}

// Import loads the package with the given import path.
func (p *Program) Import(ipath string) (*types.Package, error) {
	pkg, err := p.load(ipath, "")
	if err != nil {
		return nil, err
	}
	return pkg.Types, nil
}

type importer struct {
	p    *Program
	from *Package
}

func (i importer) Import(ipath string) (*types.Package, error) {
	if ipath == "unsafe" {
		return types.Unsafe, nil
	}
	if i.from.Std {
		if _, err := os.Stat(filepath.Join(i.p.goroot, "src", ipath)); err != nil {
			return i.imp("vendor/" + ipath)
		}
	}
	return i.imp(ipath)
}

func (i importer) imp(ipath string) (*types.Package, error) {
	pkg, err := i.p.load(ipath, "")
	if err != nil {
		return nil, err
	}
	return pkg.Types, nil
}

func newer(errs []error) bool {
	for _, err := range errs {
		if strings.Contains(err.Error(), "requires go1.") {
			return true
		}
	}
	return false
}

func (p *Program) load(ipath, dir string) (*Package, error) {
	if pkg, ok := p.Pkgs[ipath]; ok {
		if pkg == nil {
			return nil, fmt.Errorf("import cycle through %s", ipath)
		}
		return pkg, nil
	}
	p.Pkgs[ipath] = nil
	pkg := &Package{Path: ipath}
	var err error
	mode := parser.SkipObjectResolution | parser.ParseComments
	switch {
	case stubDirs[ipath] != "":
		d := path.Join("stubs", stubDirs[ipath])
		ents, _ := fs.ReadDir(stubFS, d)
		for _, e := range ents {
			b, _ := stubFS.ReadFile(path.Join(d, e.Name()))
			f, perr := parser.ParseFile(p.Fset, "stub/"+ipath+"/"+strings.TrimSuffix(e.Name(), ".txt"), b, mode)
			if perr != nil {
				return nil, perr
			}
			pkg.Files = append(pkg.Files, f)
		}
	case ipath == Module || strings.HasPrefix(ipath, Module+"/"):
		d := filepath.Join(p.Dir, strings.TrimPrefix(strings.TrimPrefix(ipath, Module), "/"))
		pkg.Files, err = p.parseDir(d, mode)
		if err != nil {
			return nil, err
		}
		for _, f := range pkg.Files {
			rel, _ := filepath.Rel(p.Dir, p.Fset.Position(f.Pos()).Filename)
			p.Files = append(p.Files, rel)
		}
	default:
		pkg.Std = true
		d := filepath.Join(p.goroot, "src", ipath)
		if _, serr := os.Stat(d); serr != nil {
			return nil, fmt.Errorf("package %s is neither in the repository, the standard library nor modelled", ipath)
		}
		pkg.Files, err = p.parseDir(d, mode)
		if err != nil {
			return nil, err
		}
	}
	bodies := !pkg.Std || stdBodies[ipath]
	conf := types.Config{
		Importer:         importer{p, pkg},
		FakeImportC:      true,
		IgnoreFuncBodies: !bodies,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error:            func(e error) { pkg.Errs = append(pkg.Errs, e) },
	}
	if !pkg.Std && stubDirs[ipath] == "" {
		conf.GoVersion = "go1.21"
	}
	pkg.Info = NewInfo()
	pkg.Types, _ = conf.Check(ipath, p.Fset, pkg.Files, pkg.Info)
	if conf.GoVersion != "" && newer(pkg.Errs) {
		// written for a later version of the language
		conf.GoVersion = ""
		pkg.Errs, pkg.Info = nil, NewInfo()
		pkg.Types, _ = conf.Check(ipath, p.Fset, pkg.Files, pkg.Info)
	}
	if pkg.Std {
		if len(pkg.Errs) > 0 && bodies {
			return nil, fmt.Errorf("standard library package %s: %v", ipath, pkg.Errs[0])
		}
	} else if len(pkg.Errs) > 0 {
		return nil, fmt.Errorf("package %s does not type-check: %v", ipath, pkg.Errs[0])
	}
	if !bodies {
		pkg.Info = nil
	}
	p.Pkgs[ipath] = pkg
	return pkg, nil
}

// NewInfo returns a types.Info with every map allocated.
func NewInfo() *types.Info {
	return &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Instances:    map[*ast.Ident]types.Instance{},
		Scopes:       map[ast.Node]*types.Scope{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		FileVersions: map[*ast.File]string{},
	}
}

func (p *Program) parseDir(dir string, mode parser.Mode) ([]*ast.File, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	ctx := p.ctx
	if dir == filepath.Join(p.goroot, "src", "internal/bytealg") {
		ctx.GOARCH = "sparc64" // written in Go rather than assembly
	}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, mode)
		if err != nil {
			return nil, err
		}
		if f.Name.Name == "documentation" {
			continue
		}
		out = append(out, f)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	return out, nil
}

// Build creates SSA for everything loaded so far.
func (p *Program) Build() {
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	var paths []string
	for k, v := range p.Pkgs {
		if v != nil {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, k := range paths {
		p.create(p.Pkgs[k])
	}
	if p.SSA.ImportedPackage("unsafe") == nil {
		p.SSA.CreatePackage(types.Unsafe, nil, nil, true)
	}
	for _, k := range paths {
		if pk := p.Pkgs[k]; pk.SSA != nil && pk.Info != nil {
			pk.SSA.Build()
		}
	}
}

func (p *Program) create(pk *Package) {
	if pk.Info != nil {
		pk.SSA = p.SSA.CreatePackage(pk.Types, pk.Files, pk.Info, true)
	} else {
		pk.SSA = p.SSA.CreatePackage(pk.Types, nil, nil, true)
	}
}

// AddSource type-checks extra source files as one package against the loaded
// program and builds SSA for it.
func (p *Program) AddSource(ipath string, src map[string]string) (*Package, error) {
	pkg := &Package{Path: ipath}
	var names []string
	for n := range src {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(p.Fset, n, src[n], parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		pkg.Files = append(pkg.Files, f)
	}
	conf := types.Config{
		Importer: importer{p, pkg}, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.21",
		Error: func(e error) { pkg.Errs = append(pkg.Errs, e) },
	}
	pkg.Info = NewInfo()
	before := len(p.Pkgs)
	pkg.Types, _ = conf.Check(ipath, p.Fset, pkg.Files, pkg.Info)
	if conf.GoVersion != "" && newer(pkg.Errs) {
		// written for a later version of the language
		conf.GoVersion = ""
		pkg.Errs, pkg.Info = nil, NewInfo()
		pkg.Types, _ = conf.Check(ipath, p.Fset, pkg.Files, pkg.Info)
	}
	if len(pkg.Errs) > 0 {
		return pkg, pkg.Errs[0]
	}
	if len(p.Pkgs) != before {
		for _, pk := range p.Pkgs {
			if pk != nil && pk.SSA == nil {
				p.create(pk)
				if pk.Info != nil {
					pk.SSA.Build()
				}
			}
		}
	}
	pkg.SSA = p.SSA.CreatePackage(pkg.Types, pkg.Files, pkg.Info, true)
	pkg.SSA.Build()
	return pkg, nil
}

// Rel shortens a file name to a path relative to the repository.
func (p *Program) Rel(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		ps.Filename = rel
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}
