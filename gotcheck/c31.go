package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() { checks["N05"] = checkN05 }

// ---- N05

func checkN05(p *Program, tier string) *Result {
	r := newResult("N05")
	r.Rule = "Merge is abstractly interpreted on two small tables with known keys and, in the other columns, every combination of zero value, other value (a symbol) and NaN, for each column type. The sorts and searches inside follow their comparisons. The result must have one row per key, in the order of the keys, and each cell must be that which the documented rule gives."
	f := p.Method("Table", "Merge")
	if f == nil {
		return r
	}
	type world struct {
		a, b *ordTable
		typ  string
	}
	var ws []world
	for _, typ := range p.colTypeUniverse() {
		classes := []ordCell{"zero", "q"}
		other := typ
		if goSlice(p.goType(typ)) || typ == "time.Time" { // the zero value of a new cell is not followed
			other = "string"
		}
		if strings.HasPrefix(typ, "float") {
			classes = append(classes, "NaN")
		}
		for _, x := range classes {
			for _, y := range classes {
				c, d := x, y
				if x == "q" {
					c = "qx"
				}
				if y == "q" {
					d = "qy"
				}
				a := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"int", typ, "string"}, keys: []ordKey{{"n0", false}}, rows: [][]ordCell{{"i1", c, "qu"}}}
				b := &ordTable{name: "N2", names: []string{"n1", "n0", "n3"}, types: []string{typ, "int", other}, rows: [][]ordCell{{d, "i1", "qw"}}}
				ws = append(ws, world{a, b, typ})
			}
		}
		// known values
		var pairs [][2]ordCell
		if _, signed, ok := intBits(typ); ok || strings.HasPrefix(typ, "float") {
			pairs = [][2]ordCell{{"i3", "i7"}, {"i7", "i3"}}
			if signed || !ok {
				pairs = append(pairs, [2]ordCell{"i-3", "i7"}, [2]ordCell{"i-7", "i-3"}, [2]ordCell{"i-3", "zero"}, [2]ordCell{"zero", "i-3"})
			}
		} else if typ == "string" {
			pairs = [][2]ordCell{{"sa", "sb"}, {"sb", "sa"}, {"s ", "sb"}, {"sb", "s "}, {"zero", "s "}, {"s0", "sb"}}
		}
		for _, c := range pairs {
			a := &ordTable{name: "N1", names: []string{"n0", "n1"}, types: []string{"int", typ}, keys: []ordKey{{"n0", false}}, rows: [][]ordCell{{"i1", c[0]}}}
			b := &ordTable{name: "N2", names: []string{"n1", "n0"}, types: []string{typ, "int"}, rows: [][]ordCell{{c[1], "i1"}}}
			ws = append(ws, world{a, b, typ})
		}
		// no match
		a := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"int", typ, "string"}, keys: []ordKey{{"n0", false}}, rows: [][]ordCell{{"i2", "qx", "qu"}}}
		b := &ordTable{name: "N2", names: []string{"n1", "n0", "n3"}, types: []string{typ, "int", typ}, rows: [][]ordCell{{"qy", "i1", "qw"}}}
		ws = append(ws, world{a, b, typ})
	}
	// more rows
	for _, typ := range []string{"int", "string"} {
		for _, rev := range []bool{false, true} {
			for _, ks := range [][2][]int{{{1, 5}, {1, 3}}, {{3, 1}, {2, 3}}, {{1, 2}, {3}}, {{2}, {1, 2}}, {{4, 2}, {2, 4}}, {{1}, {3, 2}}} {
				a := &ordTable{name: "N1", names: []string{"n0", "n1"}, types: []string{typ, "string"}, keys: []ordKey{{"n0", rev}}}
				b := &ordTable{name: "N2", names: []string{"n1", "n0"}, types: []string{"string", typ}}
				for i, k := range ks[0] {
					c := ordCell("qx" + strconv.Itoa(i))
					if i == 1 {
						c = "zero"
					}
					a.rows = append(a.rows, []ordCell{keyCell(typ, k), c})
				}
				for i, k := range ks[1] {
					b.rows = append(b.rows, []ordCell{ordCell("qy" + strconv.Itoa(i)), keyCell(typ, k)})
				}
				ws = append(ws, world{a, b, typ})
				c, d := *a, *b
				c.keys, d.keys = nil, a.keys // the keys of the second table
				ws = append(ws, world{&c, &d, typ})
			}
		}
	}
	// two keys
	for d := 0; d < 4; d++ {
		for _, ks := range [][2][][2]int{{{{1, 1}}, {{1, 2}}}, {{{1, 2}, {2, 1}}, {{1, 1}}}, {{{1, 1}, {1, 2}}, {{1, 2}}}, {{{2, 1}}, {{2, 1}, {1, 1}}}} {
			a := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"int", "string", "string"}, keys: []ordKey{{"n0", d&1 != 0}, {"n1", d&2 != 0}}}
			b := &ordTable{name: "N2", names: []string{"n2", "n1", "n0"}, types: []string{"string", "string", "int"}}
			for i, k := range ks[0] {
				c := ordCell("qx" + strconv.Itoa(i))
				if i == 1 {
					c = "zero"
				}
				a.rows = append(a.rows, []ordCell{keyCell("int", k[0]), keyCell("string", k[1]), c})
			}
			for i, k := range ks[1] {
				b.rows = append(b.rows, []ordCell{ordCell("qy" + strconv.Itoa(i)), keyCell("string", k[1]), keyCell("int", k[0])})
			}
			ws = append(ws, world{a, b, "string"})
		}
	}
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		what := fmt.Sprintf("Merge of %s and %s", w.a, w.b)
		run := p.ordNew(what)
		run.konst = true
		oa, ob := run.build(w.a), run.build(w.b)
		r.count("worlds", 1)
		if !run.keys(oa, w.a) || !run.keys(ob, w.b) {
			r.count("worlds not followed", 1)
			return
		}
		rets := run.in.Run(f, []*Val{ptrTo(oa), ptrTo(ob)}, run.mem, run.st.flags, nil)
		if run.in.over {
			r.count("worlds abandoned (too large)", 1)
			return
		}
		if run.in.undecided {
			r.count("worlds with an undecided branch", 1)
			if debugInterp {
				fmt.Println("UNDECIDED WORLD", what)
			}
			return
		}
		names, want := mergeWant(w.a, w.b)
		for k := range names {
			names[k] = "col" + names[k]
		}
		can, bad, known := false, "", true
		for k := range rets {
			rt := &rets[k]
			if nonNilErr(rt.vals, f.Signature) {
				continue
			}
			can = true
			if rt.vals[0].obj == nil || rt.vals[0].field != "" {
				known = false
				continue
			}
			ns, rows, ok := run.read(rt, rt.vals[0].obj)
			if !ok {
				known = false
				continue
			}
			b, k := mergeBad(names, want, ns, rows)
			if b != "" {
				bad = b
			}
			known = known && k
		}
		if !can {
			bad = "cannot succeed"
		}
		if bad == "" && !known {
			if debugInterp {
				fmt.Println("UNKNOWN WORLD", what)
			}
			r.count("worlds not followed", 1)
			return
		}
		r.oblig(bad == "")
		if bad != "" {
			r.add("merge|"+w.typ, p.at(f.Pos()), "", "%s: %s", what, bad)
		}
	})
	return r
}

func colIndexOf(names []string, n string) int {
	for j := range names {
		if names[j] == n {
			return j
		}
	}
	return -1
}

// mergeWant is the documented result of a merge: columns and rows in key order.
func mergeWant(a, b *ordTable) (names []string, rows [][]ordCell) {
	keys := a.keys
	if len(keys) == 0 {
		keys = b.keys
	}
	typ := map[string]string{}
	for _, t := range []*ordTable{a, b} {
		for j, n := range t.names {
			if typ[n] == "" {
				typ[n] = t.types[j]
				names = append(names, n)
			}
		}
	}
	at := func(t *ordTable, row []ordCell, n string) ordCell {
		if row != nil {
			if j := colIndexOf(t.names, n); j >= 0 {
				if typ[n] == "bool" && strings.HasPrefix(string(row[j]), "q") {
					return "true"
				}
				return row[j]
			}
		}
		if strings.HasPrefix(typ[n], "float") {
			return "NaN"
		}
		return "zero"
	}
	keyOf := func(t *ordTable, row []ordCell) (v []ordCell) {
		for _, k := range keys {
			v = append(v, row[colIndexOf(t.names, k.col)])
		}
		return
	}
	find := func(t *ordTable, v []ordCell) []ordCell {
		for _, row := range t.rows {
			if rowText(keyOf(t, row)) == rowText(v) {
				return row
			}
		}
		return nil
	}
	var vals [][]ordCell
	seen := map[string]bool{}
	for _, t := range []*ordTable{a, b} {
		for _, row := range t.rows {
			v := keyOf(t, row)
			if !seen[rowText(v)] {
				seen[rowText(v)] = true
				vals = append(vals, v)
			}
		}
	}
	less := func(x, y []ordCell) bool {
		for i, k := range keys {
			if c := ordCompare(x[i], y[i]); c != 0 {
				return (c < 0) != k.rev
			}
		}
		return false
	}
	for i := range vals {
		for j := i + 1; j < len(vals); j++ {
			if less(vals[j], vals[i]) {
				vals[i], vals[j] = vals[j], vals[i]
			}
		}
	}
	null := func(c ordCell) int {
		switch c {
		case "NaN":
			return 2
		case "zero":
			return 1
		}
		return 0
	}
	for _, v := range vals {
		ra, rb := find(a, v), find(b, v)
		var row []ordCell
		for _, n := range names {
			x, y := at(a, ra, n), at(b, rb, n)
			switch {
			case ra == nil:
				x = y
			case rb != nil && null(y) < null(x):
				x = y
			}
			row = append(row, x)
		}
		rows = append(rows, row)
	}
	return
}

func mergeBad(names []string, want [][]ordCell, ns []string, rows [][]ordCell) (bad string, known bool) {
	known = true
	for _, n := range names {
		if colIndexOf(ns, n) < 0 {
			return "the result has no column " + n, true
		}
	}
	if len(ns) != len(names) {
		return "the result has columns " + strings.Join(ns, ", "), true
	}
	if len(rows) != len(want) {
		return fmt.Sprintf("the result has %d rows instead of %d", len(rows), len(want)), true
	}
	for i := range want {
		for j, n := range names {
			g := rows[i][colIndexOf(ns, n)]
			if g == "?" {
				known = false
				continue
			}
			if g != want[i][j] {
				return fmt.Sprintf("the cell of column %s in row %d is %s instead of %s", n, i, rowText([]ordCell{g}), rowText([]ordCell{want[i][j]})), true
			}
		}
	}
	return "", known
}

func goSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
