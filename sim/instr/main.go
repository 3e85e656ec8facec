// Command instr rewrites the packages of a Go module for deterministic
// simulation and writes a `go build -overlay` file. It never writes inside the
// module. Every non-test package gets:
//
//   - its imports of os, fmt, log, runtime, sync, time, io/ioutil, bufio and
//     crypto/rand redirected to simulated packages of the same name,
//   - its go statements, channel operations and selects turned into calls of
//     the cooperative scheduler,
//   - a scheduling point before every statement, and assignments and
//     method calls on curve/field values split into load, compute and store,
//   - its batch-size constants turned into per-run knobs,
//   - main() renamed, so that the harness can call the real command line.
//
// Usage: instr -repo DIR -verif DIR -out DIR [-noyield] [-noknob]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles             []string
	Standard                      bool
	Module                        *struct{ Path, Dir string }
}

var (
	repo    = flag.String("repo", "/repo", "")
	verif   = flag.String("verif", "/verif", "")
	out     = flag.String("out", "", "")
	modfile = flag.String("modfile", "", "")
	noYield = flag.Bool("noyield", false, "")
	noKnob  = flag.Bool("noknob", false, "")
)

const simDir = "internal/verifsim"

// Packages shadowed in the code under simulation.
var shadows = []string{"os", "io", "fmt", "log", "runtime", "sync", "time", "io/ioutil", "bufio", "crypto/rand", "math/rand", "math/rand/v2"}

// What each shadow package defines itself (found by parsing its sources).
func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func goList(args ...string) []listPkg {
	a := []string{"list", "-modfile=" + *modfile}
	a = append(a, args...)
	cmd := exec.Command("go", a...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go %v: %v", a, err)
	}
	var ps []listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

// baseName is the name a standard package is imported under.
func baseName(path string) string {
	if b := filepath.Base(path); b != "v2" {
		return b
	}
	return filepath.Base(filepath.Dir(path))
}

// shadowDir is where the look-alike of a standard package is.
func shadowDir(std string) string {
	if std == "io" {
		return "siopkg" // ("sio" is the fault engine)
	}
	return "s" + strings.ReplaceAll(std, "/", "")
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	gen := filepath.Join(*out, "gen")
	os.MkdirAll(gen, 0755)

	args := append([]string{"-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Module", "./..."}, shadows...)
	pkgs := goList(args...)
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	var modPath string
	for _, p := range pkgs {
		if p.Module != nil && filepath.Clean(p.Module.Dir) == filepath.Clean(*repo) {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("cannot find the main module in %s", *repo)
	}

	// The simulator's own packages (sources under /verif/sim/pkg).
	src := filepath.Join(*verif, "sim", "pkg")
	own := map[string]map[string]bool{} // shadow name -> identifiers it defines
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		target := filepath.Join(*repo, simDir, rel)
		overlay[target] = p
		return nil
	})
	shadowPath := func(std string) string {
		return modPath + "/" + simDir + "/" + shadowDir(std)
	}
	for _, s := range shadows {
		dir := shadowDir(s)
		ids := map[string]bool{}
		es, _ := os.ReadDir(filepath.Join(src, dir))
		for _, e := range es {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(src, dir, e.Name()), nil, 0)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						ids[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							ids[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								ids[n.Name] = true
							}
						}
					}
				}
			}
		}
		own[s] = ids
		pkg, err := imp.Import(s)
		if err != nil {
			die("%v", err)
		}
		reexport(pkg, s, ids, filepath.Join(gen, dir+"_reexport.go"))
		overlay[filepath.Join(*repo, simDir, dir, "zz_reexport.go")] = filepath.Join(gen, dir+"_reexport.go")
	}

	haveMain := false
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath || len(p.CgoFiles) > 0 {
			continue
		}
		if strings.Contains(p.ImportPath, simDir) || len(p.GoFiles) == 0 {
			continue
		}
		if p.Name == "main" && p.ImportPath != modPath {
			continue
		}
		var files []*ast.File
		var names []string
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			names = append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, FakeImportC: true}
		tp, _ := conf.Check(p.ImportPath, fset, files, info)
		inits := 0
		isRoot := p.Name == "main" && p.ImportPath == modPath
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, pkg: tp, modPath: modPath, yield: !*noYield, knob: !*noKnob}
			r.file(f)
			if isRoot {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						fd.Name.Name = "verifRealMain"
						haveMain = true
					}
				}
			}
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				if _, ok := own[path]; ok {
					if im.Name == nil {
						im.Name = ast.NewIdent(baseName(path))
					}
					im.Path.Value = `"` + shadowPath(path) + `"`
				}
			}
			if reset(f, p.ImportPath, info, &inits) {
				r.usedRT = true
			}
			if r.usedRT {
				spec := &ast.ImportSpec{Name: ast.NewIdent("verifrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + modPath + "/" + simDir + `/simrt"`}}
				f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
			}
			// Comments are dropped (their positions no longer fit), directives excepted.
			f.Comments = nil
			stripDocs(f)
			var b bytes.Buffer
			if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
				die("print %s: %v", names[i], err)
			}
			o := filepath.Join(gen, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			if err := os.WriteFile(o, b.Bytes(), 0644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = o
		}
	}
	if !haveMain {
		die("no main function in the root package")
	}
	// The harness entry in the root package.
	mb, err := os.ReadFile(filepath.Join(*verif, "sim", "root", "main.go.txt"))
	if err != nil {
		die("%v", err)
	}
	mo := filepath.Join(gen, "root_main.go")
	os.WriteFile(mo, bytes.ReplaceAll(mb, []byte("MODULE"), []byte(modPath)), 0644)
	overlay[filepath.Join(*repo, "zz_verif_main.go")] = mo
	// Sim packages refer to the module path as MODULE too.
	for t, s := range overlay {
		if strings.HasPrefix(s, src) {
			b, err := os.ReadFile(s)
			if err != nil {
				die("%v", err)
			}
			o := filepath.Join(gen, "sim__"+strings.ReplaceAll(strings.TrimPrefix(s, src+"/"), "/", "__"))
			os.WriteFile(o, bytes.ReplaceAll(b, []byte("MODULE/"), []byte(modPath+"/")), 0644)
			overlay[t] = o
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0644); err != nil {
		die("%v", err)
	}
}

// reset makes the package's variables start afresh with every simulated process:
// all of them are in one real process, and would see what others left. Each
// declaration is repeated as an assignment in a function the simulator calls, in
// the order of initialisation; functions named init are called once more.
func reset(f *ast.File, pkg string, info *types.Info, inits *int) bool {
	rt := func(name string) ast.Expr {
		return &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(name)}
	}
	str := func(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)} }
	num := func(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }
	order := map[types.Object]int{}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			order[v] = i + 1
		}
	}
	var add []ast.Stmt
	register := func(prio int, body ...ast.Stmt) {
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
		add = append(add, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("OnReset"), Args: []ast.Expr{str(pkg), num(prio), lit}}})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				*inits++
				d.Name = ast.NewIdent(fmt.Sprintf("verifInit%d", *inits))
				call := &ast.ExprStmt{X: &ast.CallExpr{Fun: d.Name}}
				add = append(add, call)
				register(1<<20+*inits, call)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							register(0, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("Zero"), Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)}}}})
						}
					}
					continue
				}
				prio := func(n *ast.Ident) int {
					if k, ok := order[info.Defs[n]]; ok {
						return k
					}
					return 1 << 19
				}
				if len(vs.Values) == len(vs.Names) {
					for i, n := range vs.Names {
						if n.Name != "_" {
							register(prio(n), &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Rhs: []ast.Expr{vs.Values[i]}})
						}
					}
					continue
				}
				var lhs []ast.Expr
				first := 1 << 19
				for _, n := range vs.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
					if n.Name != "_" {
						first = prio(n)
					}
				}
				register(first, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: lhs, Rhs: vs.Values})
			}
		}
	}
	if len(add) > 0 {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: add}})
	}
	return len(add) > 0
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.File:
			n.Doc = nil
		}
		return true
	})
}

func reexport(pkg *types.Package, path string, own map[string]bool, file string) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", shadowDir(path), path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	used := false
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if sig := o.Type().(*types.Signature); sig.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		}
		used = true
	}
	if !used {
		fmt.Fprintf(&b, "var _ = real.Stdin\n")
	}
	if err := os.WriteFile(file, b.Bytes(), 0644); err != nil {
		die("%v", err)
	}
}
