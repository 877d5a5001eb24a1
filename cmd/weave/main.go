// Command weave writes copies of the sources of /repo in which every statement is preceded by a scheduling
// point, package sync is replaced by a cooperative one, goroutines start under control and the order of
// iteration over maps is a decision; and the overlay with which go build uses them.
//
// usage: weave -out DIR PACKAGE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	module = "github.com/fredbi/go-typeset"
	own    = module + "/wordbreak/hyphenator/verif"
)

type pkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Standard   bool
}

type edit struct {
	from, to int
	text     string
	order    int
}

// Loc is a scheduling point.
type Loc struct {
	Pos   string
	Heavy bool // the statement may touch state shared between goroutines
}

type weaver struct {
	locs  []Loc
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	pkg   *types.Package
	dir   string
	used  bool
	ok    bool
	chans bool // operations on channels can be controlled
	skip  map[ast.Node]bool
}

func main() {
	out := flag.String("out", "", "directory to write to")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard", flag.Arg(0))
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	check(err)

	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkg
		err := dec.Decode(&p)
		if err == io.EOF {
			break
		}
		check(err)
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, module+"/") && !strings.HasPrefix(p.ImportPath, own) {
			pkgs = append(pkgs, p)
		}
	}

	w := &weaver{fset: token.NewFileSet(), locs: []Loc{{Pos: "sync operation", Heavy: true}}}
	imp := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}

		return os.Open(f)
	})

	replace := map[string]string{}
	w.chans = controllable(pkgs)
	for _, p := range pkgs {
		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(w.fset, filepath.Join(p.Dir, name), nil, parser.ParseComments|parser.SkipObjectResolution)
			check(err)
			files = append(files, f)
		}
		w.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, w.fset, files, w.info)
		w.ok = err == nil
		w.pkg = tp
		if err != nil {
			fmt.Fprintln(os.Stderr, "weave: types of", p.ImportPath, err)
		}
		for i, f := range files {
			path := filepath.Join(p.Dir, p.GoFiles[i])
			text := w.file(f, path)
			if text == nil {
				continue
			}
			to := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module+"/"), "/", "_")+"_"+p.GoFiles[i])
			check(os.WriteFile(to, text, 0o600))
			replace[path] = to
		}
	}
	write(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": replace})
	write(filepath.Join(*out, "locs.json"), w.locs)
	if len(w.locs) > 4000 {
		check(fmt.Errorf("too many points"))
	}
	fmt.Printf("%d files, %d points\n", len(replace), len(w.locs)-1)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "weave:", err)
		os.Exit(2)
	}
}

func write(file string, v any) {
	raw, err := json.MarshalIndent(v, "", " ")
	check(err)
	check(os.WriteFile(file, raw, 0o600))
}

func (w *weaver) off(p token.Pos) int { return w.fset.PositionFor(p, false).Offset }

func (w *weaver) insert(p token.Pos, text string) { w.replace(p, p, text) }

func (w *weaver) replace(from, to token.Pos, text string) {
	w.edits = append(w.edits, edit{w.off(from), w.off(to), text, len(w.edits)})
}

func (w *weaver) text(n ast.Node) string { return string(w.src[w.off(n.Pos()):w.off(n.End())]) }

func (w *weaver) file(f *ast.File, path string) []byte {
	src, err := os.ReadFile(path)
	check(err)
	w.src, w.edits, w.used = src, nil, false
	w.skip = map[ast.Node]bool{}

	for _, spec := range f.Imports {
		if spec.Path.Value == `"sync"` {
			if spec.Name == nil {
				w.replace(spec.Path.Pos(), spec.Path.End(), `sync "`+own+`/vsync"`)
			} else {
				w.replace(spec.Path.Pos(), spec.Path.End(), `"`+own+`/vsync"`)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			w.list(n.List)
		case *ast.CaseClause:
			w.list(n.Body)
		case *ast.CommClause:
			w.list(n.Body)
		case *ast.GoStmt:
			w.goStmt(n)
		case *ast.RangeStmt:
			w.rangeStmt(n)
		}
		if w.chans && w.ok {
			w.channels(n)
		}

		return true
	})
	if len(w.edits) == 0 {
		return nil
	}
	if w.used {
		w.insert(f.Name.End(), `; import vsched "`+own+`/vsched"`)
	}

	// drop the edits inside replaced text, then apply from the end
	sort.SliceStable(w.edits, func(a, b int) bool {
		if w.edits[a].from != w.edits[b].from {
			return w.edits[a].from < w.edits[b].from
		}

		return w.edits[a].order < w.edits[b].order
	})
	var out bytes.Buffer
	at := 0
	for _, e := range w.edits {
		if e.from < at {
			continue
		}
		out.Write(src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(src[at:])

	return out.Bytes()
}

func (w *weaver) loc(p token.Pos, heavy bool) int {
	pos := w.fset.PositionFor(p, false)
	w.locs = append(w.locs, Loc{Pos: strings.TrimPrefix(pos.Filename, "/repo/") + fmt.Sprintf(":%d", pos.Line), Heavy: heavy})

	return len(w.locs) - 1
}

func (w *weaver) list(stmts []ast.Stmt) {
	for _, s := range stmts {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		w.used = true
		w.insert(s.Pos(), fmt.Sprintf("vsched.P(%d); ", w.loc(s.Pos(), w.heavy(s))))
	}
}

// heavy tells if a statement, its own blocks apart, may touch what other goroutines see: a package variable,
// an operation of package sync or atomic, or a call, which may do anything outside of this file.
func (w *weaver) heavy(s ast.Stmt) bool {
	if !w.ok {
		return true
	}
	heavy := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause:
			return false
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			heavy = true
		case *ast.Ident:
			switch o := w.info.Uses[n].(type) {
			case *types.Var:
				if o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), module) && o.Parent() == o.Pkg().Scope() {
					heavy = true
				}
			case *types.Func:
				if o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					heavy = true
				}
			}
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.RangeStmt: // memory that may be shared
			heavy = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "append" || id.Name == "copy" || id.Name == "delete" || id.Name == "clear") {
				heavy = true
			}
		case *ast.SelectorExpr: // a field behind a pointer
			if sel := w.info.Selections[n]; sel != nil && sel.Kind() == types.FieldVal {
				if sel.Indirect() || isPointer(sel.Recv()) {
					heavy = true
				}
			}
		}

		return true
	})

	return heavy
}

// controllable tells if the operations on channels can be done without blocking: nothing out of control sends,
// and nothing but a statement of its own sends where there may be no buffer.
func controllable(pkgs []pkg) bool {
	yes := true
	for _, p := range pkgs {
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			if err != nil {
				return false
			}
			for _, spec := range f.Imports {
				switch spec.Path.Value {
				case `"time"`, `"context"`, `"os/signal"`, `"reflect"`:
					yes = false
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
					if r := received(c.Comm); r == nil || !pure(r.X) { // it may be evaluated several times
						yes = false
					}
				}

				return true
			})
		}
	}

	return yes
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return arrow(p.X)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}

	return nil
}

// channels are used cooperatively.
func (w *weaver) channels(n ast.Node) {
	recv := func(u *ast.UnaryExpr, name string) {
		if u == nil || w.skip[u] {
			return
		}
		w.skip[u] = true
		w.used = true
		w.replace(u.OpPos, u.X.Pos(), "vsched."+name+"(")
		w.insert(u.X.End(), ")")
	}
	switch n := n.(type) {
	case *ast.SendStmt:
		if w.skip[n] {
			return
		}
		w.used = true
		w.insert(n.Chan.Pos(), "vsched.Send(")
		w.replace(n.Chan.End(), n.Value.Pos(), ")(")
		w.insert(n.Value.End(), ")")
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			recv(arrow(n.Rhs[0]), "Recv2")
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			recv(arrow(n.Values[0]), "Recv2")
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			recv(n, "Recv")
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
			if _, builtin := w.info.Uses[id].(*types.Builtin); builtin {
				w.used = true
				w.replace(id.Pos(), id.End(), "vsched.Close")
			}
		}
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			w.selectStmt(s, n.Pos())
		}
	case *ast.SelectStmt:
		w.selectStmt(n, n.Pos())
	case *ast.CommClause:
		// what is received there is received by the select
		if n.Comm != nil {
			w.skip[received(n.Comm)] = true
		}
	}
}

// selectStmt tries again when no channel is ready.
func (w *weaver) selectStmt(s *ast.SelectStmt, from token.Pos) {
	if w.skip[s] {
		return
	}
	w.skip[s] = true
	w.used = true
	label := fmt.Sprintf("vschedL%d", w.off(s.Pos()))
	next := " if vschedT.Next() { goto " + label + " };"
	n, ready := 0, true
	for _, c := range s.Body.List {
		c := c.(*ast.CommClause)
		if c.Comm == nil {
			ready = false
			w.insert(c.Colon+1, next)

			continue
		}
		w.insert(c.Colon+1, " vsched.TookAny();")
		from := received(c.Comm).X
		w.insert(from.Pos(), fmt.Sprintf("vsched.Turn(vschedT, %d, ", n))
		w.insert(from.End(), ")")
		n++
	}
	w.insert(from, fmt.Sprintf("{ vschedT := vsched.Turns(%d); %s: ", n, label))
	if ready {
		w.insert(s.Body.Rbrace, "; default: "+next+" vsched.Poll(); goto "+label+" ")
	}
	w.insert(s.End(), " }")
}

// received in a case of a select.
func received(s ast.Stmt) *ast.UnaryExpr {
	switch c := s.(type) {
	case *ast.ExprStmt:
		return arrow(c.X)
	case *ast.AssignStmt:
		return arrow(c.Rhs[0])
	}

	return nil
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)

	return ok
}

func (w *weaver) goStmt(s *ast.GoStmt) {
	w.used = true
	if _, lit := s.Call.Fun.(*ast.FuncLit); lit && len(s.Call.Args) == 0 {
		w.replace(s.Go, s.Call.Fun.Pos(), "vsched.Go(")
		w.replace(s.Call.Lparen, s.Call.Rparen+1, ")")

		return
	}

	// the arguments are evaluated by the goroutine that starts the other
	var names, values []string
	for i, a := range s.Call.Args {
		names = append(names, fmt.Sprintf("vschedA%d", i))
		values = append(values, w.text(a))
		w.replace(a.Pos(), a.End(), names[i])
	}
	before := "{ "
	if len(names) > 0 {
		before += strings.Join(names, ", ") + " := " + strings.Join(values, ", ") + "; "
	}
	w.replace(s.Go, s.Call.Fun.Pos(), before+"vsched.Go(func() { ")
	w.insert(s.Call.End(), " }) }")
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}

	return false
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)

	return e == nil || ok && id.Name == "_"
}

func (w *weaver) rangeStmt(s *ast.RangeStmt) {
	t := w.info.Types[s.X].Type
	if t == nil {
		return
	}
	if _, isChan := t.Underlying().(*types.Chan); isChan && w.chans && w.ok {
		w.used = true
		w.replace(s.For, s.X.Pos(), "for vschedC := ")
		w.insert(s.X.End(), "; ; ")
		switch {
		case blank(s.Key):
			w.insert(s.Body.Lbrace+1, " if _, vschedOK := vsched.Recv2(vschedC); !vschedOK { break }; ")
		case s.Tok == token.DEFINE:
			w.insert(s.Body.Lbrace+1, " "+w.text(s.Key)+", vschedOK := vsched.Recv2(vschedC); if !vschedOK { break }; ")
		default:
			w.insert(s.Body.Lbrace+1, " vschedV, vschedOK := vsched.Recv2(vschedC); if !vschedOK { break }; "+w.text(s.Key)+" = vschedV; ")
		}

		return
	}
	if s.Key == nil || s.Tok != token.DEFINE {
		return
	}
	if _, isMap := t.Underlying().(*types.Map); !isMap {
		return
	}
	w.used = true
	site := w.loc(s.Pos(), false)
	x := w.text(s.X)
	key := w.text(s.Key)
	if pure(s.X) {
		if blank(s.Key) {
			key = "vschedK"
		}
		head := fmt.Sprintf("for _, %s := range vsched.Keys(%d, %s) ", key, site, x)
		body := fmt.Sprintf(" if _, vschedOK := %s[%s]; !vschedOK { continue }; ", x, key)
		if s.Value != nil && !blank(s.Value) {
			body = fmt.Sprintf(" %s, vschedOK := %s[%s]; if !vschedOK { continue }; ", w.text(s.Value), x, key)
		}
		w.replace(s.For, s.Body.Lbrace, head)
		w.insert(s.Body.Lbrace+1, body)

		return
	}
	head := fmt.Sprintf("for _, vschedPair := range vsched.Pairs(%d, %s) ", site, x)
	body := " _ = vschedPair; "
	if !blank(s.Key) {
		body += key + " := vschedPair.K; "
	}
	if s.Value != nil && !blank(s.Value) {
		body += w.text(s.Value) + " := vschedPair.V; "
	}
	w.replace(s.For, s.Body.Lbrace, head)
	w.insert(s.Body.Lbrace+1, body)
}
