// Instr prepares a build of the program in a directory for checking.
//
//	instr -repo /repo -out DIR -verif /verif [-sched]
//
// It writes copies of the (non-test) Go files in which a fixed list of standard
// library names is redirected to verif/vrt, guards on goroutine root functions,
// and (with -sched) a scheduling point before every statement; an overlay.json
// that puts these copies (and the worker's test file) in the place of the
// original ones; and a go.mod. All edits are made in the text, in place, so line
// numbers stay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]map[string]string{
	"net": {"Listen": "Listen", "LookupAddr": "LookupAddr", "LookupIP": "LookupIP",
		"LookupHost": "LookupHost", "LookupMX": "LookupMX", "LookupTXT": "LookupTXT",
		"DefaultResolver": "DefaultResolver", "Resolver": "Resolver"},
	"os": {"File": "File", "OpenFile": "OpenFile", "Open": "Open", "Create": "Create",
		"CreateTemp": "CreateTemp", "ReadFile": "ReadFile", "WriteFile": "WriteFile",
		"Rename": "Rename", "Link": "Link", "Remove": "Remove", "Truncate": "Truncate", "Exit": "Exit",
		"Stdin": "Stdin", "Stdout": "Stdout", "Stderr": "Stderr"},
	"io/ioutil": {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "TempFile": "CreateTemp"},
	"net/http":  {"ListenAndServe": "ListenAndServe", "Serve": "ServeHTTP", "Server": "HTTPServer"},
	"sync":      {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once"},
}
var keep = map[string]string{"net": "var _ %s.IP", "os": "var _ = %s.Args", "sync": "var _ %s.Locker",
	"io/ioutil": "var _ = %s.Discard", "net/http": "var _ = %s.StatusOK"}

type edit struct {
	off, del int
	ins      string
}

const rt = "vrt__"

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	verif := flag.String("verif", "/verif", "")
	sched := flag.Bool("sched", false, "insert scheduling points")
	flag.Parse()
	log.SetFlags(0)

	names, _ := filepath.Glob(filepath.Join(*repo, "*.go"))
	overlay := map[string]string{}
	fset := token.NewFileSet()
	type pf struct {
		name string
		src  []byte
		f    *ast.File
	}
	var files []pf
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			overlay[n] = ""
			continue
		}
		if ok, err := build.Default.MatchFile(*repo, filepath.Base(n)); err == nil && !ok {
			overlay[n] = ""
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			log.Fatal(err)
		}
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		files = append(files, pf{n, src, f})
	}
	// Which functions are started as goroutines?
	targets := map[string]bool{}
	for _, p := range files {
		ast.Inspect(p.f, func(n ast.Node) bool {
			if g, ok := n.(*ast.GoStmt); ok {
				switch fn := g.Call.Fun.(type) {
				case *ast.Ident:
					targets[fn.Name] = true
				case *ast.SelectorExpr:
					targets[fn.Sel.Name] = true
				}
			}
			return true
		})
	}

	// Package level variables and the types of those that are pointers to something.
	pkgVars, sharedTypes := map[string]bool{}, map[string]bool{}
	for _, p := range files {
		for _, d := range p.f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, n := range vs.Names {
					pkgVars[n.Name] = true
				}
				if vs.Type != nil {
					sharedTypes[typeName(vs.Type)] = true
				}
				for _, v := range vs.Values {
					if u, ok := v.(*ast.UnaryExpr); ok {
						v = u.X
					}
					if c, ok := v.(*ast.CompositeLit); ok && c.Type != nil {
						sharedTypes[typeName(c.Type)] = true
					}
				}
			}
		}
	}
	delete(sharedTypes, "")

	point := 0
	type loc struct {
		File string `json:"file"`
		Line int    `json:"line"`
		Func string `json:"func"`
		Shr  bool   `json:"shared"`
	}
	locs := []loc{}
	for _, p := range files {
		var eds []edit
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		imports := map[string]string{}
		for _, im := range p.f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			if redirect[path] != nil {
				imports[name] = path
			}
		}
		ast.Inspect(p.f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			path, ok := imports[id.Name]
			if !ok {
				return true
			}
			if to := redirect[path][se.Sel.Name]; to != "" {
				eds = append(eds, edit{off(se.Pos()), int(se.End() - se.Pos()), rt + "." + to})
			}
			return true
		})
		guard := "defer " + rt + ".Root(" + rt + ".IsRoot()); "
		for _, d := range p.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if targets[fd.Name.Name] && fd.Name.Name != "main" {
				eds = append(eds, edit{off(fd.Body.Lbrace) + 1, 0, " " + guard})
			}
		}
		ast.Inspect(p.f, func(n ast.Node) bool {
			if g, ok := n.(*ast.GoStmt); ok {
				if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
					eds = append(eds, edit{off(fl.Body.Lbrace) + 1, 0, " " + guard})
				}
			}
			return true
		})
		if *sched {
			// case and comm clauses are not statements that a point can precede
			for _, d := range p.f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" {
					continue
				}
				recvShared := false
				if fd.Recv != nil && len(fd.Recv.List) == 1 {
					recvShared = sharedTypes[typeName(fd.Recv.List[0].Type)]
				}
				add := func(pos token.Pos, shared bool) int {
					locs = append(locs, loc{filepath.Base(p.name), fset.Position(pos).Line, fd.Name.Name, shared})
					point++
					return point - 1
				}
				list := func(l []ast.Stmt) {
					for _, s := range l {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							continue
						}
						shared := recvShared || mentions(s, pkgVars)
						o := off(s.Pos())
						eds = append(eds, edit{o, 0, fmt.Sprintf("%s.Point(%d); ", rt, add(s.Pos(), shared))})
						// A read-modify-write of something that may be shared is two steps.
						lhs, rhs := rmw(s, p.src, off, pkgVars)
						if lhs == "" {
							continue
						}
						clash := false
						for _, e := range eds {
							clash = clash || (e.off > o && e.off < off(s.End())) || (e.off == o && e.del > 0)
						}
						if !clash {
							eds = append(eds, edit{o, int(s.End() - s.Pos()), fmt.Sprintf("{ vt__ := %s; %s.Point(%d); %s = vt__ }", rhs, rt, add(s.Pos(), true), lhs)})
						}
					}
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch b := n.(type) {
					case *ast.BlockStmt:
						list(b.List)
					case *ast.CaseClause:
						list(b.Body)
					case *ast.CommClause:
						list(b.Body)
					}
					return true
				})
			}
		}
		// The package clause: our import, on the same line.
		eds = append(eds, edit{off(p.f.Name.End()), 0, "; import " + rt + " \"verif/vrt\""})
		sort.SliceStable(eds, func(i, j int) bool {
			if eds[i].off != eds[j].off {
				return eds[i].off < eds[j].off
			}
			return eds[i].del == 0 && eds[j].del > 0
		})
		var b strings.Builder
		// The language version of the original module (its loop variables are per loop).
		pos := 0
		for _, e := range eds {
			b.Write(p.src[pos:e.off])
			b.WriteString(e.ins)
			pos = e.off + e.del
		}
		b.Write(p.src[pos:])
		fmt.Fprintf(&b, "\nvar _ = %s.IsRoot\n", rt)
		// Package level channels must belong to the worker's bubble, or blocking on
		// them is not seen: evaluate such initializers again there.
		for _, d := range p.f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) != len(vs.Values) {
					continue
				}
				for i, v := range vs.Values {
					mk := false
					ast.Inspect(v, func(n ast.Node) bool {
						if _, ok := n.(*ast.FuncLit); ok {
							return false
						}
						if c, ok := n.(*ast.CallExpr); ok && len(c.Args) > 0 {
							if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" {
								if _, ok := c.Args[0].(*ast.ChanType); ok {
									mk = true
								}
							}
						}
						return true
					})
					if mk && vs.Names[i].Name != "_" {
						fmt.Fprintf(&b, "func init() { %s.Reinit(func() { %s = %s }) }\n", rt, vs.Names[i].Name, p.src[off(v.Pos()):off(v.End())])
					}
				}
			}
		}
		for n, path := range imports {
			fmt.Fprintf(&b, keep[path]+"\n", n)
		}
		// Any build constraint was satisfied; replace it by ours.
		text := regexp.MustCompile(`(?m)^//go:build .*$|^// \+build .*$`).ReplaceAllString(b.String(), "//")
		text = "//go:build go1.21\n" + "\n//line " + p.name + ":1\n" + text
		o := filepath.Join(*out, filepath.Base(p.name))
		if err := os.WriteFile(o, []byte(text), 0644); err != nil {
			log.Fatal(err)
		}
		overlay[p.name] = o
	}
	if *sched {
		var b strings.Builder
		b.WriteString("package main\n\nimport \"verif/vrt\"\n\nfunc init() {\n\tvrt.SharedPoints = []bool{")
		for _, l := range locs {
			fmt.Fprintf(&b, "%v, ", l.Shr)
		}
		b.WriteString("}\n\tvrt.PointNames = []string{")
		for _, l := range locs {
			fmt.Fprintf(&b, "\"%s:%d\", ", l.File, l.Line)
		}
		b.WriteString("}\n}\n")
		o := filepath.Join(*out, "zz_verif_points.go")
		if err := os.WriteFile(o, []byte(b.String()), 0644); err != nil {
			log.Fatal(err)
		}
		overlay[filepath.Join(*repo, "zz_verif_points.go")] = o
	}
	overlay[filepath.Join(*repo, "zz_verif_worker_test.go")] = filepath.Join(*verif, "go/overlay/worker_test.go.txt")
	wj(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": overlay})
	wj(filepath.Join(*out, "points.json"), locs)

	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		log.Fatal(err)
	}
	mod := regexp.MustCompile(`(?m)^go .*$`).ReplaceAllString(string(gm), "go 1.25")
	mod += fmt.Sprintf("\nrequire verif v0.0.0\n\nreplace verif => %s/go\n\nreplace github.com/siebenmann/smtpd => %s/smtpd\n", *verif, *verif)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod), 0644); err != nil {
		log.Fatal(err)
	}
	os.WriteFile(filepath.Join(*out, "go.sum"), nil, 0644)
}

func wj(n string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(n, b, 0644); err != nil {
		log.Fatal(err)
	}
}

func typeName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return typeName(t.X)
	case *ast.Ident:
		return t.Name
	}
	return ""
}

// mentions says whether the statement itself, without the blocks in it, uses a
// package level variable.
func mentions(s ast.Stmt, vars map[string]bool) bool {
	hit := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			if vars[x.Name] && (x.Obj == nil || isPkgObj(x.Obj)) {
				hit = true
			}
		}
		return true
	})
	return hit
}

func isPkgObj(o *ast.Object) bool {
	_, ok := o.Decl.(*ast.ValueSpec)
	return ok && o.Kind == ast.Var
}

// rmw recognizes statements that read, change and write back something that is
// not a local variable, and gives what is written where.
func rmw(s ast.Stmt, src []byte, off func(token.Pos) int, vars map[string]bool) (lhs, rhs string) {
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ok := func(e ast.Expr) bool {
		if id, is := e.(*ast.Ident); is {
			return vars[id.Name] && (id.Obj == nil || isPkgObj(id.Obj))
		}
		good := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
				good = false
			}
			return good
		})
		switch e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return good
		}
		return false
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if ok(x.X) {
			op := " + 1"
			if x.Tok == token.DEC {
				op = " - 1"
			}
			return text(x.X), text(x.X) + op
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !ok(x.Lhs[0]) {
			return
		}
		l, r := text(x.Lhs[0]), text(x.Rhs[0])
		if strings.Contains(r, "func(") {
			return
		}
		if x.Tok == token.ASSIGN {
			if strings.Contains(r, l) {
				return l, r
			}
			return
		}
		return l, l + " " + strings.TrimSuffix(x.Tok.String(), "=") + " (" + r + ")"
	}
	return
}
