package main

// gen.go: reads the current sources of /repo, rewrites every source of
// nondeterminism to the simulator and writes the result, together with the
// simulator runtime and the harnesses, as one scratch Go module.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/vivint/rothko"
const zsimPath = modPath + "/internal/zsim"

// shimmed lists the std packages that are replaced. The directory below
// sim/shims is the path with '/' replaced by '_'.
var shimmed = []string{
	"sync", "time", "context", "os", "syscall", "net", "net/http",
	"os/signal", "io/ioutil", "runtime", "crypto/rand", "math/rand",
	"plugin", "path/filepath",
}

func shimDir(p string) string  { return "z" + strings.ReplaceAll(p, "/", "_") }
func shimPath(p string) string { return zsimPath + "/" + shimDir(p) }

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	OtherFiles []string
	SFiles     []string
	EmbedFiles []string
	Imports    []string
	Module     *struct{ Path, Version, Dir string }
	Error      *struct{ Err string }
	DepOnly    bool
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE", "GOSUMDB":
			continue
		}
		out = append(out, e)
	}
	if os.Getenv("HOME") == "" {
		out = append(out, "HOME=/root")
	}
	return append(out, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
}

func goList(dir string, flags string, args ...string) ([]*listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-e=false", "-export", "-deps", "-json"}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(goEnv(), "GOFLAGS="+flags)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

type gen struct {
	repo, verif, out string
	pkgs             map[string]*listPkg
	fset             *token.FileSet
	imp              types.Importer
	warnings         []string
	stats            map[string]int
	instrumented     []string
}

// extra third party modules whose code is instrumented too.
var extraInstrument = map[string]bool{
	"github.com/zeebo/tdigest": true,
}

// packages whose statements are not interleaving points: pure drawing code.
func noYield(path string) bool {
	rel := strings.TrimPrefix(path, modPath)
	return strings.HasPrefix(rel, "/draw") || rel == "/ui"
}

func skipPkg(path string) bool {
	rel := strings.TrimPrefix(path, modPath)
	return strings.HasPrefix(rel, "/bin/")
}

func generate(repo, verif, out string) (*gen, error) {
	g := &gen{repo: repo, verif: verif, out: out, fset: token.NewFileSet(),
		pkgs: map[string]*listPkg{}, stats: map[string]int{}}

	// the std packages that are shimmed have to be listed too, for their export data.
	args := append([]string{"./..."}, shimmed...)
	list, err := goList(repo, "-mod=readonly", args...)
	if err != nil {
		return nil, err
	}
	for _, p := range list {
		g.pkgs[p.ImportPath] = p
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := g.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	}
	g.imp = importer.ForCompiler(g.fset, "gc", lookup)

	if err := g.copySim(); err != nil {
		return nil, err
	}
	for _, p := range shimmed {
		if err := g.genAliases(p); err != nil {
			return nil, fmt.Errorf("shim %s: %v", p, err)
		}
	}

	replaces := ""
	for _, p := range list {
		switch {
		case p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/"):
			if skipPkg(p.ImportPath) {
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
			if err := g.instrument(p, filepath.Join(out, rel)); err != nil {
				return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
			}
			g.instrumented = append(g.instrumented, p.ImportPath)
		case p.Module != nil && extraInstrument[p.Module.Path]:
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/")
			// third party modules cannot import our internal packages, so
			// their code is placed inside our module and imports are mapped.
			if err := g.instrument(p, filepath.Join(out, "internal/zsim/ext", p.Module.Path, rel)); err != nil {
				return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
			}
			g.instrumented = append(g.instrumented, p.ImportPath)
		}
	}

	// go.mod: the repo's requirements with a language version that has
	// generics (the loop variable semantics stay those of the original).
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var lines []string
	hasGo := false
	for _, l := range strings.Split(string(gomod), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			hasGo = true
			if versionLess(f[1], "1.21") {
				l = "go 1.21"
			}
		}
		if len(f) > 0 && f[0] == "toolchain" {
			continue
		}
		lines = append(lines, l)
	}
	if !hasGo {
		lines = append(lines, "go 1.21")
	}
	mod := strings.Join(lines, "\n") + "\n" + replaces
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(mod), 0644); err != nil {
		return nil, err
	}
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(out, "go.sum"), gosum, 0644); err != nil {
		return nil, err
	}
	sort.Strings(g.instrumented)
	return g, nil
}

func versionLess(a, b string) bool {
	var a1, a2, b1, b2 int
	fmt.Sscanf(a, "%d.%d", &a1, &a2)
	fmt.Sscanf(b, "%d.%d", &b1, &b2)
	return a1 < b1 || a1 == b1 && a2 < b2
}

// copySim copies the runtime, shims and harnesses into the scratch module.
func (g *gen) copySim() error {
	src := filepath.Join(g.verif, "sim")
	return filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		dst := filepath.Join(g.out, "internal/zsim", rel)
		if strings.HasPrefix(rel, "shims/") {
			dst = filepath.Join(g.out, "internal/zsim", strings.TrimPrefix(rel, "shims/"))
		}
		if rel == "zroot" || strings.HasPrefix(rel, "zroot/") {
			dst = filepath.Join(g.out, "internal", rel)
		}
		if info.IsDir() {
			if rel == "shims" {
				return nil
			}
			return os.MkdirAll(dst, 0755)
		}
		if strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, data, 0644)
	})
}

// pureFuncs lists, for packages whose functions reach outside the simulation,
// the ones that do not. The others stop the run as unsupported when called.
var pureFuncs = map[string]string{
	"os":            "IsExist IsNotExist IsPathSeparator IsPermission IsTimeout NewSyscallError SameFile ExpandEnv",
	"syscall":       "BytePtrFromString ByteSliceFromString NsecToTimespec NsecToTimeval TimespecToNsec TimevalToNsec ParseDirent",
	"net":           "*CIDRMask IPv4 IPv4Mask JoinHostPort ParseCIDR ParseIP ParseMAC SplitHostPort",
	"os/signal":     "",
	"plugin":        "",
	"io/ioutil":     "NopCloser ReadAll",
	"path/filepath": "Base Clean Dir Ext FromSlash HasPrefix IsAbs IsLocal Join Localize Match Rel Split SplitList ToSlash VolumeName",
}

func denied(p, name string) bool {
	if p == "net/http" {
		switch name {
		case "Get", "Head", "Post", "PostForm", "ListenAndServeTLS", "ServeTLS":
			return true
		}
		return false
	}
	l, ok := pureFuncs[p]
	if !ok {
		return false
	}
	for _, f := range strings.Fields(strings.TrimPrefix(l, "*")) {
		if f == name {
			return false
		}
	}
	return true
}

// genAliases adds to the shim of std package p an alias for every exported
// name that the hand written files do not define.
func (g *gen) genAliases(p string) error {
	dir := filepath.Join(g.out, "internal/zsim", shimDir(p))
	defined := map[string]bool{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					defined[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						defined[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							defined[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := g.imp.Import(p)
	if err != nil {
		return err
	}
	var b bytes.Buffer
	deny := false
	for _, name := range pkg.Scope().Names() {
		if !token.IsExported(name) || defined[name] {
			continue
		}
		switch o := pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = zreal.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = zreal.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			if denied(p, name) {
				deny = true
				fmt.Fprintf(&b, "var %s = zsim.Deny(%q, zreal.%s)\n", name, p+"."+name, name)
				continue
			}
			fmt.Fprintf(&b, "var %s = zreal.%s\n", name, name)
		case *types.TypeName:
			if n, ok := o.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = zreal.%s\n", name, name)
		}
	}
	var head bytes.Buffer
	fmt.Fprintf(&head, "package %s\n\nimport zreal %q\n", pkg.Name(), p)
	if deny {
		fmt.Fprintf(&head, "import %q\n", zsimPath)
	}
	fmt.Fprintf(&head, "\nvar _ = zreal.%s\n", anyValue(pkg))
	head.Write(b.Bytes())
	return os.WriteFile(filepath.Join(dir, "zz_alias.go"), head.Bytes(), 0644)
}

func anyValue(pkg *types.Package) string {
	for _, name := range pkg.Scope().Names() {
		if f, ok := pkg.Scope().Lookup(name).(*types.Func); ok && token.IsExported(name) &&
			f.Type().(*types.Signature).TypeParams().Len() == 0 {
			return name
		}
	}
	panic("no value in " + pkg.Path())
}

func (g *gen) instrument(p *listPkg, outDir string) error {
	if len(p.CgoFiles) > 0 || len(p.SFiles) > 0 {
		return fmt.Errorf("cgo or assembly files are not supported")
	}
	if err := os.MkdirAll(outDir, 0755); err != nil {
		return err
	}
	var files []*ast.File
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(g.fset, filepath.Join(p.Dir, name), nil, 0)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: g.imp, FakeImportC: true,
		Sizes: types.SizesFor("gc", "amd64")}
	tpkg, err := conf.Check(p.ImportPath, g.fset, files, info)
	if err != nil {
		return err
	}
	for i, f := range files {
		r := &rewriter{g: g, info: info, pkg: tpkg, yields: !noYield(p.ImportPath)}
		r.file(f)
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		// the printer keeps no positions, so re-parse to be sure it is valid
		if _, err := parser.ParseFile(token.NewFileSet(), p.GoFiles[i], b.Bytes(), 0); err != nil {
			return fmt.Errorf("%s: %v\n%s", p.GoFiles[i], err, b.String())
		}
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), b.Bytes(), 0644); err != nil {
			return err
		}
	}
	// embedded and other data files
	for _, e := range p.EmbedFiles {
		data, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err != nil {
			return err
		}
		dst := filepath.Join(outDir, e)
		os.MkdirAll(filepath.Dir(dst), 0755)
		if err := os.WriteFile(dst, data, 0644); err != nil {
			return err
		}
	}
	return nil
}
