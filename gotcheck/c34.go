package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N08: the text of the generated source is followed, type-checked, and the
// generated functions are then analysed in their turn.

func init() { checks["N08"] = checkN08 }

type genImporter map[string]*types.Package

func (m genImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not known", path)
}

func checkN08(p *Program, tier string) *Result {
	r := newResult("N08")
	r.Rule = "GenerateTypeStruct, GenerateTypeStructSliceFromTable and GenerateTypeStructSliceToTable are abstractly interpreted on tables of 0 to 7 columns with known names, for every column type. The texts that they make are put together in one file with the imports they need, parsed and type-checked against the analysed package: there must be no error. Then the generated functions are themselves built and abstractly interpreted, from a table of 0 to 2 rows to structs and back: the table that comes back must have the columns and the cells of the first."
	imp := genImporter{p.Types.Path(): p.Types}
	var visit func(q *types.Package)
	visit = func(q *types.Package) {
		for _, x := range q.Imports() {
			if imp[x.Path()] == nil {
				imp[x.Path()] = x
				visit(x)
			}
		}
	}
	visit(p.Types)
	fs := []*ssa.Function{p.Method("Table", "GenerateTypeStruct"), p.Method("Table", "GenerateTypeStructSliceFromTable"), p.Method("Table", "GenerateTypeStructSliceToTable")}
	var ws []*ordTable
	names := [][]string{{"a", "b", "c"}, {"=err", "=table", "=rowIndex"}, {"=nil", "=fmt", "=slice"}, {"=colNames", "=make", "=tableName"}}
	for _, typ := range p.colTypeUniverse() {
		for _, ns := range names {
			ws = append(ws, &ordTable{name: "N1", names: ns[:1], types: []string{typ}})
			ws = append(ws, &ordTable{name: "N1", names: ns, types: []string{typ, "int", typ}})
		}
	}
	ws = append(ws, &ordTable{name: "N1"})
	ws = append(ws, &ordTable{name: "N1", names: []string{"a", "b", "c", "d"}, types: []string{"int", "int", "string", "bool"}})
	for u := p.colTypeUniverse(); len(u) > 0; {
		many := &ordTable{name: "N1"}
		for len(u) > 0 && len(many.types) < 7 {
			many.names, many.types = append(many.names, "n"+strconv.Itoa(len(u))), append(many.types, u[0])
			u = u[1:]
		}
		ws = append(ws, many)
	}
	gens := make([]*genSource, len(ws))
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		what := w.String()
		src := ""
		for _, f := range fs {
			if f == nil {
				return
			}
			run := p.ordNew(f.Name() + " of " + what)
			run.konst = true
			tw := &textWorld{p: p, notes: map[string]bool{}, name: isNameTag, typ: func(s string) string { return "string" }}
			W := run.in.W
			W.Text = tw
			call := W.OnCall
			W.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
				switch name := extName(fn); name {
				case "strings.Join":
					es, ok := in.seq(st, args[0])
					sep, isC := args[1].str1()
					ok = ok && isC
					var b []string
					for _, e := range es {
						x, isC := e.str1()
						b, ok = append(b, x), ok && isC
					}
					if ok {
						return []Ret{{vals: []*Val{strVal(strings.Join(b, sep))}, flags: st.flags}}, true
					}
				case "bytes.ToUpper", "bytes.ToLower":
					es, ok := in.seq(st, args[0])
					b := make([]byte, len(es))
					for k, e := range es {
						c, isC := e.int1()
						ok = ok && isC && c >= 0 && c < 128
						b[k] = byte(c)
					}
					if ok {
						t := strings.ToUpper(string(b))
						if name == "bytes.ToLower" {
							t = strings.ToLower(string(b))
						}
						var out []*Val
						for k := range b {
							out = append(out, intVal(int64(t[k])))
						}
						return []Ret{{vals: []*Val{view(&Val{nilb: mayNon}, in.newCont(st, &heapArr{elems: out}), 0, len(out))}, flags: st.flags}}, true
					}
				}
				if rets, ok := tw.call(in, act, st, i, fn, args); ok {
					return rets, ok
				}
				return call(in, act, st, i, fn, args)
			}
			watch := W.Watch
			W.Watch = func(n *types.Named, field string) bool {
				if n != nil && field == "" && n.Obj().Pkg() != nil {
					q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
					return q == "bytes.Buffer" || q == "strings.Builder"
				}
				return watch(n, field)
			}
			o := run.build(w)
			rets := run.in.Run(f, []*Val{ptrTo(o)}, run.mem, run.st.flags, nil)
			var text string
			n := 0
			for _, rt := range rets {
				if nonNilErr(rt.vals, f.Signature) {
					continue
				}
				n++
				s, ok := textOf(rt.vals[0])
				if !ok {
					n = 2
				}
				text = s
			}
			if debugInterp {
				fmt.Printf("GEN %s %d %v %q\n", f.Name(), n, run.in.undecided, text)
			}
			if n != 1 || run.in.over || run.in.undecided {
				r.count("tables not followed", 1)
				return
			}
			for _, x := range pieces(text) {
				if x.form == "" {
					src += x.lit
				} else {
					src += "\x01" // what is not known: may only be in comments
				}
			}
			src += "\n"
		}
		r.count("generated files", 1)
		if strings.Contains(noComments(src), "\x01") {
			r.count("tables not followed", 1)
			return
		}
		src = strings.ReplaceAll(src, "\x01", "?") + `
func useOfBoth(table *gotables.Table) (*gotables.Table, error) {
	rows, err := TypeStructSliceFromTable_colN1(table)
	if err != nil {
		return nil, err
	}
	return TypeStructSliceToTable_colN1(rows)
}
`
		pkg, err := genCheck(p.Fset, imp, p.Types.Path(), src)
		r.oblig(err == nil)
		if err != nil {
			r.add("compile|"+strings.Join(w.types, ",")+"|"+strings.Join(w.names, ","), p.at(fs[0].Pos()), "", "the source generated for a table with %s (columns "+strings.Join(w.names, ", ")+") does not compile: %v", what, err)
			return
		}
		gens[wi] = pkg
	})
	p.genPkgs = map[*ssa.Package]bool{}
	ssas := make([]*ssa.Package, len(ws))
	for i, g := range gens {
		if g != nil {
			ssas[i] = p.Prog.CreatePackage(g.pkg, []*ast.File{g.file}, g.info, false)
			ssas[i].Build()
			p.genPkgs[ssas[i]] = true
		}
	}
	p.parallel(r, len(ws), func(wi int, r *Result) {
		if ssas[wi] == nil {
			return
		}
		from, to := ssas[wi].Func("TypeStructSliceFromTable_colN1"), ssas[wi].Func("TypeStructSliceToTable_colN1")
		if from == nil || to == nil {
			r.count("round trips not followed", 2)
			return
		}
		for n := 0; n < 3; n++ {
			w := *ws[wi]
			if len(w.names) == 0 && n > 0 {
				break
			}
			for i := 0; i < n; i++ {
				var row []ordCell
				for j, typ := range w.types {
					c := ordCell(fmt.Sprintf("q%d_%d", i, j))
					if typ == "bool" {
						c = ordCell([]string{"true", "false"}[(i+j)%2])
					} else if i == 1 && j == 0 {
						c = "zero"
					}
					row = append(row, c)
				}
				w.rows = append(w.rows, row)
			}
			p.genTrip(r, &w, from, to)
		}
	})
	return r
}

// genTrip follows the generated functions from a table to structs and back.
func (p *Program) genTrip(r *Result, w *ordTable, from, to *ssa.Function) {
	what := "the generated functions on " + w.String()
	run := p.ordNew(what)
	run.konst = true
	o := run.build(w)
	r.count("round trips", 1)
	follow := func(f *ssa.Function, a *Val) (*Ret, bool) {
		rets := run.in.Run(f, []*Val{a}, run.mem, run.st.flags, nil)
		var good *Ret
		n := 0
		for k := range rets {
			if !nonNilErr(rets[k].vals, f.Signature) {
				n++
				good = &rets[k]
			}
		}
		if debugInterp {
			fmt.Println("TRIP", what, f.Name(), len(rets), n, run.in.over, run.in.undecided)
		}
		if n > 1 || run.in.over || run.in.undecided || n == 1 && run.in.heapOf(good.flags).lost {
			r.count("round trips not followed", 1)
			return nil, false
		}
		if n == 0 {
			r.oblig(false)
			r.add("trip|"+strings.Join(w.types, ",")+"|"+strings.Join(w.names, ","), p.at(p.Method("Table", "GenerateTypeStruct").Pos()), "", "%s: %s cannot succeed", what, f.Name())
			return nil, false
		}
		return good, true
	}
	rt, ok := follow(from, ptrTo(o))
	if !ok {
		return
	}
	run.after(rt)
	if rt, ok = follow(to, rt.vals[0]); !ok {
		return
	}
	if rt.vals[0].isNil() {
		r.oblig(false)
		r.add("trip|"+strings.Join(w.types, ",")+"|"+strings.Join(w.names, ","), p.at(p.Method("Table", "GenerateTypeStruct").Pos()), "", "%s: no table comes back", what)
		return
	}
	if rt.vals[0].obj == nil || rt.vals[0].field != "" {
		r.count("round trips not followed", 1)
		return
	}
	names, rows, ok := run.read(rt, rt.vals[0].obj)
	if !ok {
		r.count("round trips not followed", 1)
		return
	}
	bad, known := "", true
	if len(rows) != len(w.rows) {
		bad = fmt.Sprintf("%d rows of %d come back", len(rows), len(w.rows))
	}
	var want []string
	for _, n := range w.names {
		want = append(want, run.konstName(n))
	}
	if strings.Join(names, " ") != strings.Join(want, " ") {
		bad = fmt.Sprintf("the columns are %v and not %v", names, want)
	}
	sr := shapeRun{p: p, in: run.in}
	back := rt.vals[0].obj
	run.after(rt)
	full := &Ret{mem: run.mem, flags: run.st.flags}
	if ts, ok := run.in.seq(&State{mem: run.mem, flags: run.st.flags}, sr.field(full, back, "colTypes")); !ok {
		known = false
	} else {
		for j, x := range ts {
			if t, isC := x.str1(); !isC {
				known = false
			} else if bad == "" && (j >= len(w.types) || t != w.types[j]) {
				bad = fmt.Sprintf("column %d has type %s", j, t)
			}
		}
	}
	if x := sr.field(full, back, "tableName"); bad == "" && len(x.cs) == 1 {
		if t, _ := x.str1(); t != run.konstName(w.name) {
			bad = fmt.Sprintf("the table has the name %q", t)
		}
	}
	for i := range rows {
		for j := range rows[i] {
			if bad != "" || i >= len(w.rows) || j >= len(w.rows[i]) {
				continue
			}
			switch c := rows[i][j]; {
			case c == w.rows[i][j] || c == "false" && w.rows[i][j] == "zero" || c == "zero" && w.rows[i][j] == "false":
			case strings.HasPrefix(string(c), "?"):
				known = false
			default:
				bad = fmt.Sprintf("row %d column %s is %s and not %s", i, want[j], c, w.rows[i][j])
			}
		}
	}
	if debugInterp {
		fmt.Println("TRIPPED", what, names, rows, bad)
	}
	if bad == "" && !known {
		r.count("round trips not followed", 1)
		return
	}
	r.oblig(bad == "")
	if bad != "" {
		r.add("trip|"+strings.Join(w.types, ",")+"|"+strings.Join(w.names, ","), p.at(p.Method("Table", "GenerateTypeStruct").Pos()), "", "%s: %s", what, bad)
	}
}

type genSource struct {
	pkg  *types.Package
	info *types.Info
	file *ast.File
}

// genCheck type-checks generated source.
func genCheck(fset *token.FileSet, imp genImporter, path, src string) (*genSource, error) {
	f, err := parser.ParseFile(fset, "generated.go", "package generated\n"+src, 0)
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
				used[x.Name] = true
			}
		}
		return true
	})
	head := "package generated\n"
	for n, q := range map[string]string{"fmt": "fmt", "time": "time", "gotables": path} {
		if used[n] {
			head += fmt.Sprintf("import %q\n", q)
		}
	}
	f, err = parser.ParseFile(fset, "generated.go", head+src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: imp}
	g := &genSource{file: f, info: &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}}
	g.pkg, err = conf.Check("generated", fset, []*ast.File{f}, g.info)
	return g, err
}

// noComments leaves out the comments of Go source.
func noComments(src string) string {
	out := ""
	for src != "" {
		switch {
		case strings.HasPrefix(src, "/*"):
			i := strings.Index(src[2:], "*/")
			if i < 0 {
				return out
			}
			src = src[i+4:]
		case strings.HasPrefix(src, "//"):
			i := strings.IndexByte(src, '\n')
			if i < 0 {
				return out
			}
			src = src[i:]
		case src[0] == '"':
			i := 1
			for i < len(src) && src[i] != '"' {
				if src[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(src) {
				return out + src
			}
			out, src = out+src[:i+1], src[i+1:]
		default:
			out, src = out+src[:1], src[1:]
		}
	}
	return out
}
