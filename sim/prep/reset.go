package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

// A run has to start from what a new process starts from. For each package-level
// variable a function is appended to its file that repeats its initialisation;
// a generated file calls them in the order of their dependencies.
type resets struct {
	tail   map[string]string     // text to append, by file
	rename map[string][]textEdit // init functions get ordinary names
	calls  []string              // in order
	inits  []string
}

type varInit struct {
	names []string
	fn    string
	deps  map[string]bool
	state int
}

func packageResets(p pkgInfo) resets {
	out := resets{tail: map[string]string{}, rename: map[string][]textEdit{}}
	fset := token.NewFileSet()
	funcs := map[string]map[string]bool{} // identifiers used by a function or by the methods of that name
	var vars []*varInit
	byName := map[string]*varInit{}
	uses := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		if n != nil {
			ast.Inspect(n, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					m[id.Name] = true
				}
				return true
			})
		}
		return m
	}
	files := append([]string{}, p.GoFiles...)
	sort.Strings(files)
	for _, f := range files {
		path := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		must(err)
		src := readText(path)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
		add := func(names []string, body string, deps map[string]bool) {
			v := &varInit{names: names, fn: fmt.Sprintf("verifReset%d", len(vars)), deps: deps}
			vars = append(vars, v)
			for _, n := range names {
				byName[n] = v
			}
			out.tail[path] += fmt.Sprintf("\nfunc %s() { %s }\n", v.fn, body)
		}
		for _, d := range af.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("verifInit%d", len(out.inits))
					out.inits = append(out.inits, n)
					out.rename[path] = append(out.rename[path], textEdit{off: off(x.Name.Pos()), end: off(x.Name.End()), text: n})
					continue
				}
				m := funcs[x.Name.Name]
				if m == nil {
					m = map[string]bool{}
					funcs[x.Name.Name] = m
				}
				for k := range uses(x.Body) {
					m[k] = true
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR || embeds(x.Doc) {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					if embeds(vs.Doc) {
						continue
					}
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
					}
					switch {
					case len(vs.Values) == 0:
						for _, n := range names {
							if n != "_" {
								add([]string{n}, "var z "+text(vs.Type)+"; "+n+" = z", nil)
							}
						}
					case len(vs.Values) == len(names):
						for i, n := range names {
							if n != "_" {
								add([]string{n}, n+" = "+text(vs.Values[i]), uses(vs.Values[i]))
							}
						}
					default:
						add(names, strings.Join(names, ", ")+" = "+text(vs.Values[0]), uses(vs.Values[0]))
					}
				}
			}
		}
	}
	var visit func(v *varInit)
	visit = func(v *varInit) {
		if v.state != 0 {
			return
		}
		v.state = 1
		seen := map[string]bool{}
		var follow func(m map[string]bool)
		follow = func(m map[string]bool) {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if seen[k] {
					continue
				}
				seen[k] = true
				if w := byName[k]; w != nil && w != v {
					visit(w)
				}
				if f := funcs[k]; f != nil {
					follow(f)
				}
			}
		}
		follow(v.deps)
		out.calls = append(out.calls, v.fn)
	}
	for _, v := range vars {
		visit(v)
	}
	return out
}

func embeds(doc *ast.CommentGroup) bool {
	return doc != nil && strings.Contains(fmt.Sprint(rawComments(doc)), "go:embed")
}

func rawComments(doc *ast.CommentGroup) (out []string) {
	for _, c := range doc.List {
		out = append(out, c.Text)
	}
	return
}

// file is the generated file of a package.
func (r resets) file(pkg, rtPath string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport verifrt %q\n\nfunc verifReset() {\n", pkg, rtPath)
	for _, c := range r.calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	for _, c := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n\nfunc init() {\n")
	for _, c := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("\tverifrt.OnReset(verifReset)\n}\n")
	return b.String()
}
