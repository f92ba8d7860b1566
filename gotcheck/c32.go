package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N06: nesting is followed on small tables with known keys. The text of a
// table stands for the table.

func init() { checks["N06"] = checkN06 }

func checkN06(p *Program, tier string) *Result {
	r := newResult("N06")
	r.Rule = "Nest is abstractly interpreted on small tables with known keys (1 and 2 keys, each direction, rows in every order), where each row of the table has matching rows in the other. The sorts and searches inside follow their comparisons. The text of a table is taken as a symbol that stands for its name, columns and rows. Afterwards each row must have kept its cells and hold the text of a table with the name of the new column, the columns of the nested table, and exactly its rows with the same keys."
	f := p.Method("Table", "Nest")
	if f == nil {
		return r
	}
	type world struct {
		a, b *ordTable
		from bool // the keys are those of the second table
	}
	var ws []world
	one := func(typ string, as, bs []int, rev, from bool) {
		a := &ordTable{name: "N1", names: []string{"n1", "n0"}, types: []string{"string", typ}, keys: []ordKey{{"n0", rev}}}
		b := &ordTable{name: "N2", names: []string{"n0", "n2", "n3"}, types: []string{typ, "string", "int"}}
		for i, k := range as {
			a.rows = append(a.rows, []ordCell{ordCell("qx" + strconv.Itoa(i)), keyCell(typ, k)})
		}
		for i, k := range bs {
			b.rows = append(b.rows, []ordCell{keyCell(typ, k), ordCell("qy" + strconv.Itoa(i)), ordCell("qz" + strconv.Itoa(i))})
		}
		if from {
			a.keys, b.keys = nil, a.keys
		}
		ws = append(ws, world{a, b, from})
	}
	for _, typ := range []string{"int", "string"} {
		for _, rev := range []bool{false, true} {
			for _, from := range []bool{false, true} {
				for _, ab := range [][2][]int{
					{{1}, {1}}, {{1}, {1, 1}}, {{1, 2}, {1, 2}}, {{2, 1}, {1, 2}}, {{2, 1}, {2, 1, 2}},
					{{1, 2}, {2, 1, 1}}, {{2}, {1, 2, 3}}, {{3, 1}, {3, 2, 1}}, {{1, 1}, {1, 1}}, {{}, {1, 2}},
				} {
					one(typ, ab[0], ab[1], rev, from)
				}
			}
		}
	}
	if tier == "thorough" {
		for _, rev := range []bool{false, true} {
			for _, as := range [][]int{{1, 2, 3}, {3, 1, 2}, {2, 3}, {3, 3, 1}} {
				for _, bs := range [][]int{{1, 2, 3}, {3, 2, 1, 3}, {3, 3, 1, 2}, {2, 1, 3, 1}} {
					one("int", as, bs, rev, false)
				}
			}
		}
	}
	for d := 0; d < 4; d++ {
		for _, ks := range [][2][][2]int{{{{1, 1}}, {{1, 2}, {1, 1}, {2, 1}}}, {{{1, 2}, {1, 1}}, {{1, 1}, {1, 2}}}, {{{2, 1}, {1, 2}}, {{1, 2}, {2, 1}, {2, 1}}}} {
			a := &ordTable{name: "N1", names: []string{"n0", "n1", "n4"}, types: []string{"int", "string", "string"}, keys: []ordKey{{"n0", d&1 != 0}, {"n1", d&2 != 0}}}
			b := &ordTable{name: "N2", names: []string{"n2", "n1", "n0"}, types: []string{"string", "string", "int"}}
			for i, k := range ks[0] {
				a.rows = append(a.rows, []ordCell{keyCell("int", k[0]), keyCell("string", k[1]), ordCell("qx" + strconv.Itoa(i))})
			}
			for i, k := range ks[1] {
				b.rows = append(b.rows, []ordCell{ordCell("qy" + strconv.Itoa(i)), keyCell("string", k[1]), keyCell("int", k[0])})
			}
			ws = append(ws, world{a, b, false})
		}
	}
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		what := fmt.Sprintf("Nest into %s of %s", w.a, w.b)
		run := p.ordNew(what)
		run.konst = true
		texts := map[string]string{}
		call := run.in.W.OnCall
		run.in.W.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
			if rv := fn.Signature.Recv(); rv != nil && named(rv.Type()) == p.Table && len(args) == 1 && strings.HasPrefix(fn.Name(), "String") && args[0].obj != nil && args[0].field == "" {
				rt := &Ret{mem: st.mem, flags: st.flags}
				if ns, rows, ok := run.read(rt, args[0].obj); ok {
					sr := shapeRun{p: p, in: in}
					name, _ := sr.field(rt, args[0].obj, "tableName").str1()
					t := nestText(name, ns, rows)
					tag := fmt.Sprintf("qT%x", hashString(t))
					texts[tag] = t
					return []Ret{{vals: []*Val{{nilb: mayNon, tag: tag}}, mem: st.mem, flags: st.flags}}, true
				}
			}
			return call(in, act, st, i, fn, args)
		}
		oa, ob := run.build(w.a), run.build(w.b)
		r.count("worlds", 1)
		if !run.keys(oa, w.a) || !run.keys(ob, w.b) {
			r.count("worlds not followed", 1)
			return
		}
		rets := run.in.Run(f, []*Val{ptrTo(oa), ptrTo(ob), strVal("nested")}, run.mem, run.st.flags, nil)
		if run.in.over {
			r.count("worlds abandoned (too large)", 1)
			return
		}
		if run.in.undecided {
			r.count("worlds with an undecided branch", 1)
			return
		}
		keys := w.a.keys
		if w.from {
			keys = w.b.keys
		}
		can, bad, known := false, "", true
		for k := range rets {
			rt := &rets[k]
			if nonNilErr(rt.vals, f.Signature) {
				continue
			}
			can = true
			ns, rows, ok := run.read(rt, oa)
			if !ok {
				known = false
				continue
			}
			if len(ns) != len(w.a.names)+1 || ns[len(ns)-1] != "nested" {
				bad = "the table has columns " + strings.Join(ns, ", ")
				continue
			}
			if b := sortedRows(w.a, cut(rows, len(w.a.names)), keys); b == "?" {
				known = false
				continue
			} else if b != "" {
				bad = b
				continue
			}
			for _, row := range rows {
				g, ok := texts[string(row[len(row)-1])]
				if !ok {
					known = false
					continue
				}
				var names []string
				for _, n := range w.b.names {
					names = append(names, "col"+n)
				}
				var in [][]ordCell
				for _, x := range w.b.rows {
					same := true
					for _, key := range keys {
						same = same && x[colIndexOf(w.b.names, key.col)] == row[colIndexOf(w.a.names, key.col)]
					}
					if same {
						in = append(in, x)
					}
				}
				if want := nestText("nested", names, in); strings.Contains(g, "?") {
					known = false
				} else if g != want {
					bad = fmt.Sprintf("row %s gets %s instead of %s", rowText(row[:len(row)-1]), g, want)
				}
			}
		}
		if !can {
			bad = "cannot succeed"
		}
		if bad == "" && !known {
			r.count("worlds not followed", 1)
			return
		}
		r.oblig(bad == "")
		if bad != "" {
			r.add("nest", p.at(f.Pos()), "", "%s: %s", what, bad)
		}
	})
	return r
}

// nestText describes a table, its rows in any order.
func nestText(name string, names []string, rows [][]ordCell) string {
	var rs []string
	for _, x := range rows {
		rs = append(rs, rowText(x))
	}
	sort.Strings(rs)
	return fmt.Sprintf("table %s with columns %s and rows %s", name, strings.Join(names, ", "), strings.Join(rs, " "))
}

func cut(rows [][]ordCell, n int) (out [][]ordCell) {
	for _, x := range rows {
		if len(x) >= n {
			x = x[:n]
		}
		out = append(out, x)
	}
	return
}

func hashString(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}
