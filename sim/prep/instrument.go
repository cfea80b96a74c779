package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Site describes one yield point.
type Site struct {
	File string
	Line int
	Hot  bool
}

type pkgVars struct {
	vars   map[string]bool // package-level variables
	fields map[string]bool // field names assigned to somewhere in the package
}

func packageVars(p pkgInfo) pkgVars {
	g := pkgVars{map[string]bool{}, map[string]bool{}}
	fset := token.NewFileSet()
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		must(err)
		for _, d := range af.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							g.vars[n.Name] = true
						}
					}
				}
			}
		}
		note := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.SelectorExpr:
					g.fields[x.Sel.Name] = true
					return
				case *ast.IndexExpr:
					e = x.X
				case *ast.ParenExpr:
					e = x.X
				case *ast.StarExpr:
					e = x.X
				default:
					return
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						note(l)
					}
				}
			case *ast.IncDecStmt:
				note(x.X)
			}
			return true
		})
	}
	return g
}

type textEdit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type inst struct {
	fset  *token.FileSet
	file  *token.File
	src   []byte
	g     pkgVars
	base  int
	sites []Site
	edits []textEdit
	level int
	scope *ast.Scope
	lits  []*ast.FuncLit // enclosing function literals, innermost last
}

func instrument(path, rtPath string, g pkgVars, base, level int, more []textEdit) ([]byte, []Site, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	in := &inst{fset: fset, file: fset.File(af.Pos()), src: src, g: g, base: base, level: level, scope: af.Scope}
	for _, d := range af.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				in.block(x.Body)
			}
		case *ast.GenDecl:
			in.exprLits(x)
		}
	}
	in.edits = append(in.edits, more...)
	if len(in.sites) > 0 {
		in.insert(in.off(af.Name.End()), "; import verifrt \""+rtPath+"\"")
	}
	out, err := in.apply()
	return out, in.sites, err
}

func (in *inst) apply() ([]byte, error) {
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range in.edits {
		if e.off < pos {
			return nil, fmt.Errorf("overlapping edits at offset %d", e.off)
		}
		out.Write(in.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(in.src[pos:])
	return out.Bytes(), nil
}

func (in *inst) off(p token.Pos) int { return in.file.Offset(p) }

func (in *inst) insert(off int, text string) {
	in.edits = append(in.edits, textEdit{off, off, text, len(in.edits)})
}

func (in *inst) replace(off, end int, text string) {
	in.edits = append(in.edits, textEdit{off, end, text, len(in.edits)})
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) site(p token.Pos, hot bool) string {
	id := in.base + len(in.sites)
	pos := in.fset.Position(p)
	in.sites = append(in.sites, Site{filepath.Base(pos.Filename), pos.Line, hot})
	if hot {
		return fmt.Sprintf("verifrt.H(%d); ", id)
	}
	return fmt.Sprintf("verifrt.Y(%d); ", id)
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	if len(b.List) == 0 {
		in.insert(in.off(b.Lbrace)+1, " "+strings.TrimSuffix(in.site(b.Lbrace, false), "; ")+" ")
		return
	}
	in.list(b.List)
}

func (in *inst) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.insert(in.off(s.Pos()), in.site(s.Pos(), in.hot(s)))
		in.stmt(s)
	}
}

// stmt descends into a statement whose own yield is already in place.
func (in *inst) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		in.stmt(x.Stmt)
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		if x.Init != nil {
			in.exprLits(x.Init)
		}
		in.exprLits(x.Cond)
		in.block(x.Body)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			in.block(e)
		case *ast.IfStmt:
			in.insert(in.off(e.Pos()), "{ "+in.site(e.Pos(), in.hot(e)))
			in.stmt(e)
			in.insert(in.off(e.End()), " }")
		}
	case *ast.ForStmt:
		for _, y := range []ast.Stmt{x.Init, x.Post} {
			if y != nil {
				in.exprLits(y)
			}
		}
		if x.Cond != nil {
			in.exprLits(x.Cond)
		}
		in.block(x.Body)
	case *ast.RangeStmt:
		in.exprLits(x.X)
		in.block(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			in.exprLits(x.Init)
		}
		if x.Tag != nil {
			in.exprLits(x.Tag)
		}
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			in.exprLits(x.Init)
		}
		in.exprLits(x.Assign)
		in.clauses(x.Body)
	case *ast.SelectStmt:
		in.clauses(x.Body)
	case *ast.GoStmt:
		in.goStmt(x)
	case *ast.AssignStmt:
		if in.level >= 2 && len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && in.shared(x.Lhs[0]) && !hasCall(x.Lhs[0]) {
			lhs := in.text(x.Lhs[0])
			if x.Tok == token.ASSIGN {
				if in.readsShared(x.Rhs[0]) {
					in.replace(in.off(x.Lhs[0].Pos()), in.off(x.Rhs[0].Pos()), "{ verifv := ")
					in.exprLits(x.Rhs[0])
					in.insert(in.off(x.Rhs[0].End()), "; "+in.site(x.Pos(), true)+lhs+" = verifv }")
					return
				}
			} else {
				op := strings.TrimSuffix(x.Tok.String(), "=")
				in.replace(in.off(x.Lhs[0].Pos()), in.off(x.Rhs[0].Pos()), "{ verifv := "+lhs+" "+op+" (")
				in.exprLits(x.Rhs[0])
				in.insert(in.off(x.Rhs[0].End()), "); "+in.site(x.Pos(), true)+lhs+" = verifv }")
				return
			}
		}
		in.exprLits(x)
	case *ast.IncDecStmt:
		if in.level >= 2 && in.shared(x.X) && !hasCall(x.X) {
			lhs := in.text(x.X)
			in.replace(in.off(x.Pos()), in.off(x.End()), "{ verifv := "+lhs+" "+x.Tok.String()[:1]+" 1; "+in.site(x.Pos(), true)+lhs+" = verifv }")
			return
		}
		in.exprLits(x)
	default:
		in.exprLits(s)
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch cc := c.(type) {
		case *ast.CaseClause:
			for _, e := range cc.List {
				in.exprLits(e)
			}
			in.list(cc.Body)
		case *ast.CommClause:
			in.list(cc.Body)
		}
	}
}

// exprLits instruments function literals inside an expression or simple statement.
func (in *inst) exprLits(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			in.lits = append(in.lits, fl)
			in.block(fl.Body)
			in.lits = in.lits[:len(in.lits)-1]
			return false
		}
		return true
	})
}

func (in *inst) goStmt(g *ast.GoStmt) {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok {
		sep := ""
		if len(fl.Type.Params.List) > 0 {
			sep = ", "
		}
		named := true
		for _, f := range fl.Type.Params.List {
			if len(f.Names) == 0 {
				named = false
			}
		}
		if named {
			in.insert(in.off(fl.Type.Params.Opening)+1, "veriftok *verifrt.Tok"+sep)
			in.insert(in.off(fl.Body.Lbrace)+1, " verifrt.Enter(veriftok); defer verifrt.Leave(veriftok); ")
			in.lits = append(in.lits, fl)
			in.block(fl.Body)
			in.lits = in.lits[:len(in.lits)-1]
			sep = ""
			if len(call.Args) > 0 {
				sep = ", "
			}
			in.insert(in.off(call.Lparen)+1, "verifrt.Spawn()"+sep)
			for _, a := range call.Args {
				in.exprLits(a)
			}
			return
		}
	}
	if id, ok := call.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "print" || id.Name == "println" || id.Name == "panic") {
		return
	}
	// go f(a, b)  =>  { tok; f0 := f; a0 := a; go func() { f0(a0, b0) }() }
	var sb strings.Builder
	sb.WriteString("{ veriftok := verifrt.Spawn(); veriff := " + in.text(call.Fun) + "; ")
	args := []string{}
	for i, a := range call.Args {
		switch a.(type) {
		case *ast.BasicLit:
			args = append(args, in.text(a))
			continue
		case *ast.Ident:
			if n := a.(*ast.Ident).Name; n == "nil" || n == "true" || n == "false" {
				args = append(args, n)
				continue
			}
		}
		fmt.Fprintf(&sb, "verifa%d := %s; ", i, in.text(a))
		args = append(args, fmt.Sprintf("verifa%d", i))
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	sb.WriteString("go func() { verifrt.Enter(veriftok); defer verifrt.Leave(veriftok); veriff(" + strings.Join(args, ", ") + ell + ") }() }")
	in.replace(in.off(g.Pos()), in.off(g.End()), sb.String())
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}

// shared tells whether an assignable expression may be visible to another goroutine.
func (in *inst) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return in.sharedIdent(x)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return in.shared(x.X)
	}
	return false
}

func (in *inst) sharedIdent(x *ast.Ident) bool {
	if x.Name == "_" {
		return false
	}
	if x.Obj == nil {
		return in.g.vars[x.Name]
	}
	if in.scope.Lookup(x.Name) == x.Obj {
		return x.Obj.Kind == ast.Var
	}
	if len(in.lits) > 0 && x.Obj.Kind == ast.Var {
		fl := in.lits[len(in.lits)-1]
		p := x.Obj.Pos()
		return p < fl.Pos() || p > fl.End()
	}
	return false
}

func (in *inst) readsShared(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr:
			found = true
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); !ok || id.Obj != nil || in.g.vars[id.Name] {
				found = true
			}
		case *ast.Ident:
			if in.sharedIdent(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

var syncCalls = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Wait": true, "Done": true, "Add": true, "Do": true, "Load": true, "Store": true, "CompareAndSwap": true, "Get": true, "Put": true, "Swap": true, "LoadOrStore": true}

// hot marks statements that touch state another goroutine may change.
func (in *inst) hot(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.FuncLit:
			return false
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if in.g.fields[x.Sel.Name] || syncCalls[x.Sel.Name] {
				found = true
			}
		case *ast.Ident:
			if in.sharedIdent(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

// instrumentLib places one call at every function entry and loop body of a
// third-party file: steps are counted there, and entries can be scheduled.
func instrumentLib(path, rtPath string, base int) ([]byte, []Site, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	in := &inst{fset: fset, file: fset.File(af.Pos()), src: src, base: base, scope: af.Scope}
	at := func(b *ast.BlockStmt, entry bool) {
		if b == nil {
			return
		}
		call := in.site(b.Lbrace, false)
		if !entry {
			call = strings.Replace(call, "verifrt.Y", "verifrt.C", 1)
		}
		in.insert(in.off(b.Lbrace)+1, " "+call)
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name != "init" {
				at(x.Body, true)
			}
		case *ast.FuncLit:
			at(x.Body, true)
		case *ast.ForStmt:
			at(x.Body, false)
		case *ast.RangeStmt:
			at(x.Body, false)
		}
		return true
	})
	if len(in.sites) > 0 {
		in.insert(in.off(af.Name.End()), "; import verifrt \""+rtPath+"\"")
	}
	out, err := in.apply()
	return out, in.sites, err
}
