package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// C29: the comparison of tables is followed on two small tables in the shape
// domain.  A world fixes, for every pair of cells (bytes, nested tables), that
// they are equal or that they are not: values are symbols, equal when they are
// the same symbol.

func init() { checks["C29"] = checkC29 }

const c29Rule = "Equals of tables is abstractly interpreted on two tables of three columns and two rows whose cells are symbols (bytes of slices and nested tables too), for each column type, with the columns in the same or in another order. In the worlds where one cell, one byte, the length of one slice, one column name, one column type, the number of rows or columns, or the order of the rows differs, no outcome may be true; in the worlds where all like-named cells are equal, an outcome must be true. Equals of table sets is interpreted with the comparison of tables as an uninterpreted summary."

type eqWorld struct {
	typ  string
	what string // what differs ("" equal)
	perm []int  // column of table 1 at each position of table 2
	k, j int    // the cell that differs
	kind string // value, shorter, longer, byte, type, colname, extracol, lesscol, extrarow, lessrow, rows, name
	rows int
	dup  bool // all cells of the first table (bytes of a slice) are equal
}

func (e eqWorld) String() string {
	s := "all like-named cells equal"
	if e.what != "" {
		s = e.what
	}
	if e.dup {
		s += ", and all cells of the first table have the same value"
	}
	return fmt.Sprintf("columns of type %s, column order %v, %d rows: %s", e.typ, e.perm, e.rows, s)
}

func checkC29(p *Program, tier string) *Result {
	r := newResult("C29")
	r.Rule = c29Rule
	eq := p.Method("Table", "Equals")
	set := p.Method("TableSet", "Equals")
	var ws []eqWorld
	if eq != nil {
		id, rot, rev := []int{0, 1, 2}, []int{1, 2, 0}, []int{2, 1, 0}
		perms := [][]int{id, rot}
		if tier == "thorough" {
			perms = append(perms, rev, []int{2, 0, 1}, []int{1, 0, 2}, []int{0, 2, 1})
		}
		for _, t := range p.colTypeUniverse() {
			for _, pm := range perms {
				ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2}, eqWorld{typ: t, perm: pm, rows: 0})
				for k := 0; k < 2; k++ {
					for j := 0; j < 3; j++ {
						ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "value", what: fmt.Sprintf("the cells of column n%d in row %d differ", j, k)})
						ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "less", what: fmt.Sprintf("the cell of column n%d in row %d is less in the second table", j, k)})
						if t == "[]byte" || t == "[]uint8" {
							ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "byte", what: fmt.Sprintf("the last bytes of column n%d in row %d differ", j, k)})
							ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "byte0", what: fmt.Sprintf("the first bytes of column n%d in row %d differ", j, k)})
							ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "shorter", what: fmt.Sprintf("column n%d in row %d has a byte less in the second table", j, k)})
							ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, k: k, j: j, kind: "longer", what: fmt.Sprintf("column n%d in row %d has a byte more in the second table", j, k)})
						}
					}
				}
				ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, kind: "rows", what: "the rows are in another order"})
				for _, rows := range []int{0, 2} {
					for j := 0; j < 3; j++ {
						ws = append(ws, eqWorld{typ: t, perm: pm, rows: rows, j: j, kind: "colname", what: fmt.Sprintf("column n%d has another name in the second table", j)})
						ws = append(ws, eqWorld{typ: t, perm: pm, rows: rows, j: j, kind: "type", what: fmt.Sprintf("column n%d has another type in the second table", j)})
					}
					ws = append(ws, eqWorld{typ: t, perm: pm, rows: rows, kind: "extracol", what: "the second table has a column more"})
					ws = append(ws, eqWorld{typ: t, perm: pm, rows: rows, kind: "lesscol", what: "the second table has a column less"})
					ws = append(ws, eqWorld{typ: t, perm: pm, rows: rows, kind: "extrarow", what: "the second table has a row more"})
				}
				ws = append(ws, eqWorld{typ: t, perm: pm, rows: 2, kind: "lessrow", what: "the second table has a row less"})
			}
		}
	}
	for _, e := range append([]eqWorld{}, ws...) {
		if e.kind != "rows" && e.rows > 0 {
			e.dup = true
			ws = append(ws, e)
		}
	}
	p.parallel(r, len(ws), func(wi int, r *Result) { p.eqJob(eq, ws[wi], tier, r) })
	if set != nil && eq != nil {
		for _, d := range []int{-1, 0, 1, 2, 3} {
			p.eqSetJob(set, eq, d, r)
		}
	}
	r.count("worlds", len(ws))
	return r
}

func (p *Program) eqJob(f *ssa.Function, e eqWorld, tier string, r *Result) {
	w := &World{Name: e.String(), Heap: true}
	in := NewInterp(p, w)
	in.limit = 40000
	st := &State{mem: Mem{}}
	list := func(es []*Val) *Val {
		return view(&Val{nilb: mayNon}, in.newCont(st, &heapArr{elems: es}), 0, len(es))
	}
	init := map[*Obj]map[string]*Val{}
	ident := map[*Obj]string{}
	cell := func(side, id, typ string, kind string) *Val {
		gt := p.goType(typ)
		if gt == nil {
			return &Val{nilb: mayNon, tag: id, lab: LConstName}
		}
		v := &Val{nilb: mayNon, tag: id, lab: LConstName}
		switch typ {
		case "[]byte", "[]uint8":
			bs := []string{id + ".0", id + ".1"}
			if e.dup {
				bs[1] = bs[0]
			}
			switch kind {
			case "byte":
				bs[1] = "qx"
			case "byte0":
				bs[0] = "qx"
			case "shorter":
				bs = bs[:1]
			case "longer":
				bs = append(bs, "qx")
			}
			var es []*Val
			for _, b := range bs {
				x := rangeVal(Bound{}, Bound{off: 255}).dup()
				x.tag, x.lab = b, LConstName
				es = append(es, &x)
			}
			c := list(es).dup()
			c.lab |= LConstName
			return &Val{nilb: mayNon, dyn: gt, inner: &c, lab: LConstName}
		case "*Table":
			o := in.obj(side+"."+id, false, p.Table, nil)
			ident[o] = id
			c := ptrTo(o).dup()
			return &Val{nilb: mayNon, dyn: gt, inner: &c}
		}
		return &Val{nilb: mayNon, tag: id, dyn: gt, inner: v, lab: LConstName}
	}
	other := func(t string) string {
		if t == "int" {
			return "string"
		}
		return "int"
	}
	build := func(o *Obj, side string, perm []int) {
		second := side == "B"
		m := map[string]*Val{"tableName": {nilb: mayNon, tag: "N0"}, "parentTable": NilVal, "isStructShape": FalseVal, "isNilTable": FalseVal}
		var ns, ts []*Val
		im := &heapArr{isMap: true}
		var typs []string
		for i, j := range perm {
			n, t := "n"+strconv.Itoa(j), e.typ
			if second && e.kind == "colname" && j == e.j {
				n = "n9"
			}
			if second && e.kind == "type" && j == e.j {
				t = other(t)
			}
			typs = append(typs, t)
			ns = append(ns, &Val{nilb: mayNon, tag: n})
			ts = append(ts, strVal(t))
			im.keys = append(im.keys, "T"+n)
			im.elems = append(im.elems, intVal(int64(i)))
		}
		// keys are kept in order
		for i := range im.keys {
			for k := i + 1; k < len(im.keys); k++ {
				if im.keys[k] < im.keys[i] {
					im.keys[i], im.keys[k] = im.keys[k], im.keys[i]
					im.elems[i], im.elems[k] = im.elems[k], im.elems[i]
				}
			}
		}
		m["colNames"], m["colTypes"] = list(ns), list(ts)
		m["colNamesMap"] = &Val{nilb: mayNon, cont: in.newCont(st, im), lab: LTracked}
		rows := e.rows
		if second && e.kind == "extrarow" {
			rows++
		}
		if second && e.kind == "lessrow" {
			rows--
		}
		var rs []*Val
		for k := 0; k < rows; k++ {
			kk := k
			if second && e.kind == "rows" {
				kk = rows - 1 - k
			}
			var cs []*Val
			for i, j := range perm {
				id, kind := fmt.Sprintf("q%d_%d", kk, j), ""
				if e.dup {
					id = "q0"
				}
				if second && k == e.k && j == e.j {
					switch e.kind {
					case "value":
						id = "qx"
					case "less":
						id = "qa"
					case "byte", "byte0", "shorter", "longer":
						kind = e.kind
					}
				}
				cs = append(cs, cell(side, id, typs[i], kind))
			}
			rs = append(rs, list(cs))
		}
		m["rows"] = list(rs)
		m["sortKeys"] = list(nil)
		init[o] = m
	}
	a := in.obj("t1", false, p.Table, nil)
	b := in.obj("t2", false, p.Table, nil)
	build(a, "A", []int{0, 1, 2})
	perm := e.perm
	switch e.kind {
	case "extracol":
		perm = append(append([]int{}, perm...), 3)
	case "lesscol":
		perm = perm[:2]
	}
	build(b, "B", perm)
	w.Field = func(o *Obj, n *types.Named, field string) *Val {
		if n != p.Table {
			return nil
		}
		if m := init[o]; m != nil {
			return m[field]
		}
		return nil
	}
	w.Fields = func(o *Obj) (vs []*Val) {
		for _, v := range init[o] {
			vs = append(vs, v)
		}
		return
	}
	isCell := func(v *Val) bool { return len(v.tag) > 1 && v.tag[0] == 'q' }
	// the symbol that differs is qx, greater than all, or qa, less than all
	order := func(x, y *Val) (int, bool) {
		rank := func(v *Val) int {
			switch v.tag {
			case "qa":
				return -1
			case "qx":
				return 1
			}
			return 0
		}
		switch a, b := rank(x), rank(y); {
		case x.tag == y.tag:
			return 0, true
		case a < b:
			return -1, true
		case a > b:
			return 1, true
		}
		return 0, false
	}
	w.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
		if x.tag == "" || y.tag == "" {
			return nil
		}
		if i.Op != token.EQL && i.Op != token.NEQ {
			if isCell(x) && isCell(y) {
				if c, ok := order(x, y); ok {
					switch i.Op {
					case token.LSS:
						return boolVal(c < 0)
					case token.LEQ:
						return boolVal(c <= 0)
					case token.GTR:
						return boolVal(c > 0)
					case token.GEQ:
						return boolVal(c >= 0)
					}
				}
			}
			return nil
		}
		if isCell(x) && isCell(y) || isNameTag(x.tag) && isNameTag(y.tag) {
			same := x.tag == y.tag && (x.dyn == nil || y.dyn == nil || types.Identical(x.dyn, y.dyn))
			return boolVal(same == (i.Op == token.EQL))
		}
		return nil
	}
	w.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
		truth := func(same bool) ([]Ret, bool) {
			return []Ret{{vals: []*Val{boolVal(same)}, flags: st.flags}}, true
		}
		switch {
		case fn == f && len(args) == 2:
			if args[0].obj == nil || args[1].obj == nil || ident[args[0].obj] == "" || ident[args[1].obj] == "" {
				in.undecided = true
				return nil, false
			}
			if ident[args[0].obj] == ident[args[1].obj] {
				return []Ret{{vals: []*Val{TrueVal, NilVal}, flags: st.flags}}, true
			}
			return []Ret{{vals: []*Val{FalseVal, NonNil}, flags: st.flags}}, true
		case fn.String() == "(time.Time).Equal" && len(args) == 2 && isCell(args[0]) && isCell(args[1]):
			return truth(args[0].tag == args[1].tag)
		case (fn.String() == "(time.Time).Before" || fn.String() == "(time.Time).After") && len(args) == 2 && isCell(args[0]) && isCell(args[1]):
			if c, ok := order(args[0], args[1]); ok {
				return truth(fn.Name() == "Before" && c < 0 || fn.Name() == "After" && c > 0)
			}
		case fn.String() == "bytes.Equal" && len(args) == 2 || fn.String() == "reflect.DeepEqual" && len(args) == 2:
			x, y := args[0], args[1]
			if x.inner != nil && y.inner != nil {
				x, y = x.inner, y.inner
			}
			xs, ok := in.seq(st, x)
			ys, ok2 := in.seq(st, y)
			if !ok || !ok2 {
				if isCell(x) && isCell(y) {
					return truth(x.tag == y.tag)
				}
				break
			}
			same := len(xs) == len(ys)
			for k := 0; same && k < len(xs); k++ {
				if !isCell(xs[k]) || !isCell(ys[k]) {
					return nil, false
				}
				same = xs[k].tag == ys[k].tag
			}
			return truth(same)
		}
		return nil, false
	}
	hp := st.flags
	w.HeapTop = in.heapOf(hp).next() - 1
	rets := in.Run(f, []*Val{ptrTo(a), ptrTo(b)}, nil, hp, nil)
	p.eqJudge(r, f, e.String(), e.what == "", e.kind+"|"+e.typ, rets, in)
}

func (p *Program) eqJudge(r *Result, f *ssa.Function, what string, equal bool, key string, rets []Ret, in *Interp) {
	if in.over {
		r.count("worlds abandoned (too large)", 1)
		return
	}
	if in.undecided {
		r.count("worlds whose comparisons are not decided", 1)
		return
	}
	can, must := false, false
	for _, rt := range rets {
		if in.heapOf(rt.flags).lost {
			r.count("worlds not followed", 1)
			return
		}
		v := rt.vals[0]
		if !v.isFalse() {
			can = true
		}
		if v.isTrue() {
			must = true
		}
	}
	bad := equal && !can || !equal && must
	r.oblig(!bad)
	if bad {
		s := "can return true"
		if equal {
			s = "cannot return true"
		}
		r.add(fmt.Sprintf("%s|%s", shortName(f), key), p.at(f.Pos()), "", "%s %s although: %s", shortName(f), s, what)
	}
}

// eqSetJob: table sets of two tables whose tables d differ (-1: none, 2: the
// second set has a table more, 3: less).
func (p *Program) eqSetJob(f, eq *ssa.Function, d int, r *Result) {
	what := map[int]string{-1: "all tables equal", 0: "the first tables differ", 1: "the last tables differ", 2: "the second set has a table more", 3: "the second set has a table less"}[d]
	w := &World{Name: what, Heap: true}
	in := NewInterp(p, w)
	in.limit = 40000
	st := &State{mem: Mem{}}
	init := map[*Obj]map[string]*Val{}
	ident := map[*Obj]string{}
	var args []*Val
	for s, side := range []string{"A", "B"} {
		n := 2
		if s == 1 && d == 2 {
			n = 3
		}
		if s == 1 && d == 3 {
			n = 1
		}
		var ts []*Val
		for i := 0; i < n; i++ {
			o := in.obj(side+strconv.Itoa(i), false, p.Table, nil)
			ident[o] = strconv.Itoa(i)
			if s == 1 && i == d {
				ident[o] = "x"
			}
			ts = append(ts, ptrTo(o))
			init[o] = map[string]*Val{"tableName": {nilb: mayNon, tag: "N" + strconv.Itoa(i)}}
		}
		o := in.obj("set"+side, false, p.TSet, nil)
		init[o] = map[string]*Val{"tables": view(&Val{nilb: mayNon}, in.newCont(st, &heapArr{elems: ts}), 0, len(ts)), "tableSetName": {nilb: mayNon, tag: "S"}}
		args = append(args, ptrTo(o))
	}
	w.Field = func(o *Obj, n *types.Named, field string) *Val {
		if m := init[o]; m != nil {
			return m[field]
		}
		return nil
	}
	w.Fields = func(o *Obj) (vs []*Val) {
		for _, v := range init[o] {
			vs = append(vs, v)
		}
		return
	}
	w.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
		if (i.Op == token.EQL || i.Op == token.NEQ) && isString(i.X.Type()) && x.tag != "" && y.tag != "" {
			return boolVal((x.tag == y.tag) == (i.Op == token.EQL))
		}
		return nil
	}
	w.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, as []*Val) ([]Ret, bool) {
		if fn == eq && len(as) == 2 {
			if as[0].obj == nil || as[1].obj == nil {
				in.undecided = true
				return nil, false
			}
			if ident[as[0].obj] == ident[as[1].obj] {
				return []Ret{{vals: []*Val{TrueVal, NilVal}, flags: st.flags}}, true
			}
			return []Ret{{vals: []*Val{FalseVal, NonNil}, flags: st.flags}}, true
		}
		return nil, false
	}
	hp := st.flags
	w.HeapTop = in.heapOf(hp).next() - 1
	rets := in.Run(f, args, nil, hp, nil)
	p.eqJudge(r, f, what, d < 0, fmt.Sprintf("set%d", d), rets, in)
}
