package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N03, N04: sorting and searching are followed on small tables
// whose keys are known to be less than, equal to or greater than one another.
// All other cells are symbols.

func init() {
	checks["N03"] = checkN03
	checks["N04"] = checkN04
}

type ordCell string // a key: "i3", "sb"; a zero value: "zero"; NaN: "NaN"; else a symbol

type ordTable struct {
	name  string
	names []string
	types []string
	rows  [][]ordCell
	keys  []ordKey
}

type ordKey struct {
	col string
	rev bool
}

func (t *ordTable) String() string {
	var b []string
	for j := range t.names {
		b = append(b, t.names[j]+" "+t.types[j])
	}
	s := "columns (" + strings.Join(b, ", ") + ")"
	if len(t.keys) > 0 {
		b = nil
		for _, k := range t.keys {
			d := ""
			if k.rev {
				d = " descending"
			}
			b = append(b, k.col+d)
		}
		s += " by " + strings.Join(b, ", ")
	}
	b = nil
	for _, r := range t.rows {
		b = append(b, rowText(r))
	}
	return s + " rows " + strings.Join(b, " ")
}

func rowText(r []ordCell) string {
	var c []string
	for _, x := range r {
		c = append(c, strings.TrimPrefix(strings.TrimPrefix(string(x), "q"), "="))
	}
	return "(" + strings.Join(c, " ") + ")"
}

type ordRun struct {
	p     *Program
	in    *Interp
	st    *State
	init  map[*Obj]map[string]*Val
	nil_  map[*Obj]bool
	mem   Mem
	konst bool
}

// konstName is the known name that stands for n: "=" before n says that it is
// the name itself.
func (r *ordRun) konstName(n string) string {
	if strings.HasPrefix(n, "=") {
		return n[1:]
	}
	return "col" + n
}

func (r *ordRun) nm(n string) *Val {
	if r.konst {
		return strVal(r.konstName(n))
	}
	return &Val{nilb: mayNon, tag: n}
}

func (r *ordRun) nk(n string) string {
	if r.konst {
		return "C" + strconv.Quote(r.konstName(n))
	}
	return "T" + n
}

func (p *Program) ordNew(name string) *ordRun {
	w := &World{Name: name, Heap: true, Order: true, MaxDepth: 40}
	r := &ordRun{p: p, in: NewInterp(p, w), st: &State{mem: Mem{}}, init: map[*Obj]map[string]*Val{}, mem: Mem{}}
	r.in.limit = 60000
	w.Field = func(o *Obj, n *types.Named, field string) *Val {
		if n != p.Table {
			return nil
		}
		if m := r.init[o]; m != nil {
			return m[field]
		}
		return nil
	}
	w.Fields = func(o *Obj) (vs []*Val) {
		for _, v := range r.init[o] {
			vs = append(vs, v)
		}
		return
	}
	w.Watch = func(n *types.Named, field string) bool {
		return n == p.Table && field == "tableName"
	}
	w.NotName = func(c, tag string) bool { return isNameTag(tag) && (!plainName(c) || p.isTypeName(c)) }
	isQ := func(v *Val) bool { return strings.HasPrefix(v.tag, "q") }
	w.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
		if isQ(x) && isQ(y) { // the symbols have an order, so that a comparison of the wrong cells shows
			switch i.Op {
			case token.LSS:
				return boolVal(x.tag > y.tag)
			case token.LEQ:
				return boolVal(x.tag >= y.tag)
			case token.GTR:
				return boolVal(x.tag < y.tag)
			case token.GEQ:
				return boolVal(x.tag <= y.tag)
			}
		}
		if i.Op != token.EQL && i.Op != token.NEQ {
			return nil
		}
		eq := func(b bool) *Val { return boolVal(b == (i.Op == token.EQL)) }
		nan := func(v *Val) bool { return v.tag == "NaN" }
		switch {
		case nan(x) || nan(y):
			return eq(false)
		case isQ(x) && isQ(y):
			return eq(x.tag == y.tag)
		case isQ(x) && isZeroConst(y), isQ(y) && isZeroConst(x):
			return eq(false)
		case isNameTag(x.tag) && isNameTag(y.tag):
			return eq(x.tag == y.tag)
		}
		if isString(i.X.Type()) {
			for _, q := range [][2]*Val{{x, y}, {y, x}} {
				if _, ok := q[1].str1(); ok && isNameTag(q[0].tag) { // no name of the world is a constant of the code
					return eq(false)
				}
			}
		}
		return nil
	}
	w.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
		one := func(v *Val) ([]Ret, bool) { return []Ret{{vals: []*Val{v}, flags: st.flags}}, true }
		switch fn.String() {
		case "math.NaN":
			return one(&Val{nilb: mayNon, tag: "NaN"})
		case "math.IsNaN":
			x := args[0]
			if x.tag == "NaN" {
				return one(TrueVal)
			}
			if isQ(x) || len(x.cs) == 1 {
				return one(FalseVal)
			}
		case "reflect.ValueOf":
			if x := args[0]; x.inner != nil {
				return one(&Val{nilb: mayNon, inner: x.inner, dyn: x.dyn})
			}
		case "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float", "(reflect.Value).String", "(reflect.Value).Bool":
			if x := args[0]; x.inner != nil {
				return one(x.inner)
			}
		case "(reflect.Value).IsZero":
			if x := args[0]; x.inner != nil {
				if isQ(x.inner) {
					return one(FalseVal)
				}
				if isZeroConst(x.inner) || x.inner.tag == "zerotime" {
					return one(TrueVal)
				}
			}
		case "(time.Time).IsZero":
			switch {
			case isQ(args[0]):
				return one(FalseVal)
			case args[0].tag == "zerotime":
				return one(TrueVal)
			}
		}
		return typeTexts(in, act, st, i, fn, args)
	}
	return r
}

func isZeroConst(v *Val) bool {
	if k, ok := v.int1(); ok && v.num {
		return k == 0
	}
	if len(v.cs) != 1 {
		return false
	}
	switch c := v.cs[0]; c.Kind() {
	case constant.String:
		return constant.StringVal(c) == ""
	case constant.Bool:
		return !constant.BoolVal(c)
	case constant.Int, constant.Float:
		return constant.Sign(c) == 0
	}
	return false
}

func (r *ordRun) list(es []*Val) *Val {
	return view(&Val{nilb: mayNon}, r.in.newCont(r.st, &heapArr{elems: es}), 0, len(es))
}

// value makes the value of a cell.
func (r *ordRun) value(c ordCell, typ, id string) *Val {
	gt := r.p.goType(typ)
	var x *Val
	bits, signed, isInt := intBits(typ)
	switch {
	case strings.HasPrefix(string(c), "i"):
		k, _ := strconv.Atoi(string(c[1:]))
		x = intVal(int64(k))
		if strings.HasPrefix(typ, "float") {
			x = &Val{nilb: mayNon, cs: []constant.Value{constant.MakeFloat64(float64(k))}}
		}
	case strings.HasPrefix(string(c), "s"):
		x = strVal(string(c[1:]))
	case c == "true":
		x = TrueVal
	case c == "false":
		x = FalseVal
	case c == "NaN":
		x = &Val{nilb: mayNon, tag: "NaN"}
	case c == "zero":
		switch {
		case typ == "string":
			x = strVal("")
		case typ == "bool":
			x = FalseVal
		case isInt:
			x = intVal(0)
		case strings.HasPrefix(typ, "float"):
			x = &Val{nilb: mayNon, cs: []constant.Value{constant.MakeFloat64(0)}}
		case typ == "time.Time":
			x = &Val{nilb: mayNon, tag: "zerotime"}
		case typ == "*Table":
			o := r.in.obj("niltable"+id, false, r.p.Table, nil)
			r.init[o] = map[string]*Val{"isNilTable": TrueVal, "isStructShape": FalseVal, "tableName": strVal(""), "parentTable": NilVal,
				"colNames": r.list(nil), "colTypes": r.list(nil), "rows": r.list(nil), "sortKeys": r.list(nil)}
			r.init[o]["colNamesMap"] = &Val{nilb: mayNon, cont: r.in.newCont(r.st, &heapArr{isMap: true}), lab: LTracked}
			x = ptrTo(o)
		default:
			x = r.list(nil)
		}
	default: // a symbol
		switch {
		case typ == "bool":
			x = TrueVal
		case isInt:
			v := intRange(bits, signed).dup()
			v.tag = string(c)
			x = &v
		case typ == "*Table":
			o := r.in.obj(string(c), false, r.p.Table, nil)
			r.init[o] = map[string]*Val{"isNilTable": FalseVal, "isStructShape": FalseVal, "tableName": {nilb: mayNon, tag: "Nt"}, "parentTable": NilVal,
				"colNames": r.list(nil), "colTypes": r.list(nil), "rows": r.list(nil), "sortKeys": r.list(nil)}
			r.init[o]["colNamesMap"] = &Val{nilb: mayNon, cont: r.in.newCont(r.st, &heapArr{isMap: true}), lab: LTracked}
			x = ptrTo(o)
		case typ == "[]byte" || typ == "[]uint8":
			v := rangeVal(Bound{}, Bound{off: 255}).dup()
			v.tag = string(c)
			x = r.list([]*Val{&v})
		default:
			x = &Val{nilb: mayNon, tag: string(c)}
		}
	}
	return &Val{nilb: mayNon, dyn: gt, inner: x}
}

func (r *ordRun) build(t *ordTable) *Obj {
	o := r.in.obj(t.name, false, r.p.Table, nil)
	m := map[string]*Val{"tableName": r.nm(t.name), "parentTable": NilVal, "isStructShape": FalseVal, "isNilTable": FalseVal}
	var ns, ts, rs []*Val
	im := &heapArr{isMap: true}
	for j, n := range t.names {
		ns, ts = append(ns, r.nm(n)), append(ts, strVal(t.types[j]))
		im.keys, im.elems = append(im.keys, r.nk(n)), append(im.elems, intVal(int64(j)))
	}
	for i := range im.keys { // keys are kept in order
		for k := i + 1; k < len(im.keys); k++ {
			if im.keys[k] < im.keys[i] {
				im.keys[i], im.keys[k] = im.keys[k], im.keys[i]
				im.elems[i], im.elems[k] = im.elems[k], im.elems[i]
			}
		}
	}
	for i, row := range t.rows {
		var cs []*Val
		for j, c := range row {
			cs = append(cs, r.value(c, t.types[j], fmt.Sprintf("%s%d_%d", t.name, i, j)))
		}
		rs = append(rs, r.list(cs))
	}
	m["colNames"], m["colTypes"], m["rows"], m["sortKeys"] = r.list(ns), r.list(ts), r.list(rs), r.list(nil)
	m["colNamesMap"] = &Val{nilb: mayNon, cont: r.in.newCont(r.st, im), lab: LTracked}
	r.init[o] = m
	return o
}

// call runs a function in the state that was reached (false: it has no single
// outcome without error).
func (r *ordRun) call(f *ssa.Function, args ...*Val) bool {
	if f == nil {
		return false
	}
	rets := r.in.Run(f, args, r.mem, r.st.flags, nil)
	var good []Ret
	for _, rt := range rets {
		if !nonNilErr(rt.vals, f.Signature) {
			good = append(good, rt)
		}
	}
	if len(good) != 1 || r.in.over || r.in.heapOf(good[0].flags).lost {
		if debugInterp {
			fmt.Println("ORD", r.in.W.Name, f.Name(), len(rets), len(good), r.in.over)
		}
		return false
	}
	r.after(&good[0])
	return true
}

func (r *ordRun) after(rt *Ret) {
	m := Mem{}
	for k, v := range r.mem {
		m[k] = v
	}
	for k, v := range rt.mem {
		m[k] = v
	}
	r.mem, r.st.flags = m, rt.flags
}

// keys sets the sort keys of a table.
func (r *ordRun) keys(o *Obj, t *ordTable) bool {
	var rev []*Val
	for _, k := range t.keys {
		if !r.call(r.p.Method("Table", "AppendSortKey"), ptrTo(o), r.nm(k.col)) {
			return false
		}
		if k.rev {
			rev = append(rev, r.nm(k.col))
		}
	}
	if len(rev) > 0 {
		return r.call(r.p.Method("Table", "SetSortKeysReverse"), ptrTo(o), r.list(rev))
	}
	return true
}

// read gives the columns and cells of a table after a call.
func (r *ordRun) read(rt *Ret, o *Obj) (names []string, rows [][]ordCell, ok bool) {
	mem := Mem{}
	for k, v := range r.mem {
		mem[k] = v
	}
	for k, v := range rt.mem {
		mem[k] = v
	}
	st := &State{mem: mem, flags: rt.flags}
	if r.in.heapOf(rt.flags).lost {
		return nil, nil, false
	}
	sr := shapeRun{p: r.p, in: r.in}
	full := &Ret{mem: mem, flags: rt.flags}
	ns, ok1 := r.in.seq(st, sr.field(full, o, "colNames"))
	rs, ok2 := r.in.seq(st, sr.field(full, o, "rows"))
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	for _, n := range ns {
		s, isC := n.str1()
		if n.tag != "" {
			s = n.tag
		} else if !isC {
			return nil, nil, false
		}
		names = append(names, s)
	}
	for _, x := range rs {
		cs, ok := r.in.seq(st, x)
		if !ok {
			return nil, nil, false
		}
		var row []ordCell
		for _, c := range cs {
			row = append(row, r.cell(st, full, c))
		}
		rows = append(rows, row)
	}
	return names, rows, true
}

func (r *ordRun) cell(st *State, rt *Ret, c *Val) ordCell {
	if c.isNil() {
		return "nil"
	}
	if c.inner == nil {
		return "?"
	}
	x := c.inner
	switch {
	case x.tag == "NaN":
		return "NaN"
	case x.tag == "zerotime":
		return "zero"
	case strings.HasPrefix(x.tag, "q"):
		return ordCell(x.tag)
	case x.isTrue():
		return "true"
	case x.tag == "" && isZeroConst(x):
		return "zero"
	case x.obj != nil && x.field == "":
		if strings.HasPrefix(x.obj.id, "q") {
			return ordCell(x.obj.id)
		}
		sr := shapeRun{p: r.p, in: r.in}
		if sr.field(rt, x.obj, "isNilTable").isTrue() {
			return "zero"
		}
		return "?"
	}
	if c.dyn != nil {
		if _, ok := c.dyn.Underlying().(*types.Slice); ok {
			es, ok := r.in.seq(st, x)
			switch {
			case x.isNil() || ok && len(es) == 0:
				return "zero"
			case ok && len(es) == 1 && strings.HasPrefix(es[0].tag, "q"):
				return ordCell(es[0].tag)
			}
			return "?"
		}
		if named(c.dyn) != nil && named(c.dyn).String() == "time.Time" && x.tag == "" && len(x.flds) > 0 {
			return "zero"
		}
	}
	if x.tag == "" {
		if k, ok := x.int1(); ok {
			return ordCell("i" + strconv.FormatInt(k, 10))
		}
		if s, ok := x.str1(); ok {
			return ordCell("s" + s)
		}
		if len(x.cs) == 1 && x.cs[0].Kind() != constant.String {
			f, _ := constant.Float64Val(constant.ToFloat(x.cs[0]))
			return ordCell("i" + strconv.FormatFloat(f, 'g', -1, 64))
		}
	}
	return "?"
}

// ---- N03

func checkN03(p *Program, tier string) *Result {
	r := newResult("N03")
	r.Rule = "Sort and SortSimple are abstractly interpreted on tables of 0 to 3 (thorough: 4) rows whose keys are known to be less than, equal to or greater than one another, in every arrangement and direction, with 1 and 2 keys; the library sort gives every arrangement that the less function allows, by way of the Swap method. The other cells are symbols: afterwards the rows must be those of before, each with its own cells, in the order of the keys."
	type world struct {
		t    *ordTable
		op   string
		want []ordKey
	}
	var ws []world
	sort3 := p.Method("Table", "Sort")
	simple := p.Method("Table", "SortSimple")
	max := 3
	if tier == "thorough" {
		max = 4
	}
	var seqs [][]int
	var rec func(s []int, n int)
	rec = func(s []int, n int) {
		if len(s) == n {
			seqs = append(seqs, append([]int{}, s...))
			return
		}
		for k := 1; k <= n; k++ {
			rec(append(s, k), n)
		}
	}
	for n := 0; n <= max; n++ {
		rec(nil, n)
	}
	table := func(typ string, s []int, col int) *ordTable {
		t := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"string", "string", "string"}}
		t.types[col] = typ
		for i, k := range s {
			row := []ordCell{ordCell(fmt.Sprintf("qa%d", i)), ordCell(fmt.Sprintf("qb%d", i)), ordCell(fmt.Sprintf("qc%d", i))}
			row[col] = keyCell(typ, k)
			t.rows = append(t.rows, row)
		}
		return t
	}
	for _, s := range seqs {
		for col := 0; col < 3; col++ {
			for _, typ := range []string{"int", "string", "float64"} {
				if typ != "int" && (col != 1 || len(s) > 3) {
					continue
				}
				for _, rev := range []bool{false, true} {
					t := table(typ, s, col)
					t.keys = []ordKey{{t.names[col], rev}}
					ws = append(ws, world{t, "Sort", t.keys})
					if !rev {
						t := table(typ, s, col)
						ws = append(ws, world{t, "SortSimple", []ordKey{{t.names[col], false}}})
						ws = append(ws, world{t, "Sort by columns", []ordKey{{t.names[col], false}}})
					}
				}
			}
		}
		// two keys
		if len(s) > 1 && len(s) <= 3 {
			for _, u := range seqs {
				if len(u) != len(s) {
					continue
				}
				for d := 0; d < 4; d++ {
					t := table("int", s, 2)
					t.types[0] = "string"
					for i := range t.rows {
						t.rows[i][0] = keyCell("string", u[i])
					}
					t.keys = []ordKey{{"n2", d&1 != 0}, {"n0", d&2 != 0}}
					ws = append(ws, world{t, "Sort", t.keys})
				}
			}
		}
	}
	// three keys
	for d := 0; d < 8; d++ {
		for _, rows := range [][][3]int{{{1, 1, 2}, {1, 1, 1}}, {{1, 1, 1}, {1, 1, 2}}, {{1, 2, 1}, {1, 1, 2}, {1, 1, 1}}, {{2, 1, 1}, {1, 2, 2}, {1, 2, 1}}} {
			t := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"int", "string", "int"}, keys: []ordKey{{"n0", d&1 != 0}, {"n1", d&2 != 0}, {"n2", d&4 != 0}}}
			for _, k := range rows {
				t.rows = append(t.rows, []ordCell{keyCell("int", k[0]), keyCell("string", k[1]), keyCell("int", k[2])})
			}
			ws = append(ws, world{t, "Sort", t.keys})
		}
	}
	// the other cells of each type
	for _, typ := range p.colTypeUniverse() {
		for _, s := range [][]int{{2, 1}, {1, 2}, {3, 1, 2}} {
			t := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{typ, "int", typ}}
			for i, k := range s {
				a, b := ordCell(fmt.Sprintf("qa%d", i)), ordCell(fmt.Sprintf("qb%d", i))
				if typ == "bool" {
					a, b = "true", "zero"
					if i == 1 {
						a, b = b, a
					}
				}
				t.rows = append(t.rows, []ordCell{a, keyCell("int", k), b})
			}
			ws = append(ws, world{t, "SortSimple", []ordKey{{"n1", false}}})
			u := *t
			u.keys = []ordKey{{"n1", true}}
			ws = append(ws, world{&u, "Sort", u.keys})
		}
	}
	if sort3 == nil || simple == nil {
		return r
	}
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		what := w.op + " of " + w.t.String()
		run := p.ordNew(what)
		o := run.build(w.t)
		r.count("worlds", 1)
		if !run.keys(o, w.t) {
			r.count("worlds not followed", 1)
			return
		}
		var rets []Ret
		f := sort3
		var names []*Val
		for _, k := range w.want {
			names = append(names, run.nm(k.col))
		}
		switch w.op {
		case "Sort":
			rets = run.in.Run(f, []*Val{ptrTo(o), NilVal}, run.mem, run.st.flags, nil)
		case "Sort by columns":
			rets = run.in.Run(f, []*Val{ptrTo(o), run.list(names)}, run.mem, run.st.flags, nil)
		default:
			f = simple
			rets = run.in.Run(f, []*Val{ptrTo(o), run.list(names)}, run.mem, run.st.flags, nil)
		}
		if run.in.over {
			r.count("worlds abandoned (too large)", 1)
			return
		}
		if run.in.undecided {
			r.count("worlds with an undecided branch", 1)
			return
		}
		can := false
		for k := range rets {
			rt := &rets[k]
			if nonNilErr(rt.vals, f.Signature) {
				continue
			}
			can = true
			_, rows, ok := run.read(rt, o)
			if !ok {
				r.count("outcomes not followed", 1)
				continue
			}
			bad := sortedRows(w.t, rows, w.want)
			if bad == "?" {
				r.count("outcomes not followed", 1)
				continue
			}
			r.oblig(bad == "")
			if bad != "" {
				r.add("sort|"+f.Name(), p.at(f.Pos()), "", "%s: %s", what, bad)
				return
			}
		}
		r.oblig(can)
		if !can {
			r.add("fails|"+f.Name(), p.at(f.Pos()), "", "%s cannot succeed", what)
		}
	})
	return r
}

func keyCell(typ string, k int) ordCell {
	switch typ {
	case "string":
		return ordCell("s" + string(rune('a'+k)))
	case "bool":
		if k > 1 {
			return "true"
		}
		return "zero"
	}
	return ordCell("i" + strconv.Itoa(k))
}

// ordLess compares keys: -1, 0, 1.
func ordCompare(x, y ordCell) int {
	if x == y {
		return 0
	}
	rank := func(c ordCell) (int, string) {
		switch c {
		case "zero":
			return 0, ""
		case "true":
			return 1, ""
		}
		if c[0] == 'i' {
			k, _ := strconv.Atoi(string(c[1:]))
			return k, ""
		}
		return 0, string(c)
	}
	a, s := rank(x)
	b, t := rank(y)
	if a < b || a == b && s < t {
		return -1
	}
	return 1
}

// sortedRows says what is wrong with rows as the sorted rows of t.
func sortedRows(t *ordTable, rows [][]ordCell, keys []ordKey) string {
	var b []string
	for _, x := range rows {
		for _, c := range x {
			if c == "?" {
				return "?"
			}
		}
		b = append(b, rowText(x))
	}
	after := "the rows are " + strings.Join(b, " ")
	if len(rows) != len(t.rows) {
		return fmt.Sprintf("there are %d rows instead of %d", len(rows), len(t.rows))
	}
	left := map[string]int{}
	for _, x := range t.rows {
		left[rowText(x)]++
	}
	for _, x := range rows {
		if left[rowText(x)] == 0 {
			return after
		}
		left[rowText(x)]--
	}
	for i := 0; i+1 < len(rows); i++ {
		for _, k := range keys {
			j := 0
			for t.names[j] != k.col {
				j++
			}
			c := ordCompare(rows[i][j], rows[i+1][j])
			if k.rev {
				c = -c
			}
			if c < 0 {
				break
			}
			if c > 0 {
				return after
			}
		}
	}
	return ""
}

// ---- N04

func checkN04(p *Program, tier string) *Result {
	r := newResult("N04")
	r.Rule = "Search, SearchFirst, SearchLast and SearchRange are abstractly interpreted on sorted tables of 1 to 4 (thorough: 6) rows whose keys are known to be less than, equal to or greater than the values searched for, with 1 and 2 keys in each direction. The binary search follows its predicate. Where a row matches, the first (last) matching row must be returned; where none does, an error."
	type world struct {
		t    *ordTable
		op   string
		vals []ordCell
	}
	var ws []world
	max := 4
	if tier == "thorough" {
		max = 6
	}
	var seqs [][]int // ascending, values 2, 4, 6
	var rec func(s []int, n int)
	rec = func(s []int, n int) {
		if len(s) == n {
			seqs = append(seqs, append([]int{}, s...))
			return
		}
		for _, k := range []int{2, 4, 6} {
			if len(s) == 0 || k >= s[len(s)-1] {
				rec(append(s, k), n)
			}
		}
	}
	for n := 0; n <= max; n++ {
		rec(nil, n)
	}
	ops := []string{"Search", "SearchFirst", "SearchLast", "SearchRange"}
	for _, s := range seqs {
		for _, rev := range []bool{false, true} {
			for _, typ := range []string{"int", "string"} {
				if typ == "string" && len(s) != 3 {
					continue
				}
				t := &ordTable{name: "N1", names: []string{"n0", "n1"}, types: []string{"string", typ}, keys: []ordKey{{"n1", rev}}}
				for i := range s {
					k := s[i]
					if rev {
						k = s[len(s)-1-i]
					}
					t.rows = append(t.rows, []ordCell{ordCell("qa" + strconv.Itoa(i)), keyCell(typ, k)})
				}
				for v := 1; v <= 7; v++ {
					for _, op := range ops {
						if op == "Search" && v%2 != 0 {
							continue
						}
						ws = append(ws, world{t, op, []ordCell{keyCell(typ, v)}})
					}
				}
			}
		}
	}
	// two keys
	for d := 0; d < 4; d++ {
		for _, s := range [][][2]int{{{2, 2}, {2, 4}, {4, 2}}, {{2, 2}, {2, 2}, {2, 4}, {4, 4}}, {{2, 4}, {4, 2}}, {{2, 2}, {4, 4}, {6, 2}, {6, 4}}} {
			t := &ordTable{name: "N1", names: []string{"n0", "n1"}, types: []string{"string", "int"}, keys: []ordKey{{"n1", d&1 != 0}, {"n0", d&2 != 0}}}
			rows := append([][2]int{}, s...)
			for i := range rows { // by both keys
				for k := i + 1; k < len(rows); k++ {
					less := func(a, b [2]int) bool {
						if a[0] != b[0] {
							return (a[0] < b[0]) != (d&1 != 0)
						}
						return a[1] != b[1] && (a[1] < b[1]) != (d&2 != 0)
					}
					if less(rows[k], rows[i]) {
						rows[i], rows[k] = rows[k], rows[i]
					}
				}
			}
			for _, x := range rows {
				t.rows = append(t.rows, []ordCell{keyCell("string", x[1]), keyCell("int", x[0])})
			}
			for v := 1; v <= 7; v++ {
				for u := 1; u <= 5; u++ {
					for _, op := range ops[1:] {
						ws = append(ws, world{t, op, []ordCell{keyCell("int", v), keyCell("string", u)}})
					}
				}
			}
		}
	}
	// three keys
	for d := 0; d < 8; d++ {
		dir := func(k int) int {
			if d>>uint(k)&1 != 0 {
				return -1
			}
			return 1
		}
		t := &ordTable{name: "N1", names: []string{"n0", "n1", "n2"}, types: []string{"int", "string", "int"}, keys: []ordKey{{"n0", d&1 != 0}, {"n1", d&2 != 0}, {"n2", d&4 != 0}}}
		for _, k := range [][3]int{{-1, 1, 1}, {0, 0, -1}, {0, 0, 1}, {0, 0, 1}, {1, -1, 1}} {
			t.rows = append(t.rows, []ordCell{keyCell("int", 4+2*k[0]*dir(0)), keyCell("string", 4+2*k[1]*dir(1)), keyCell("int", 4+2*k[2]*dir(2))})
		}
		for _, v := range [][3]int{{2, 2, 2}, {2, 6, 6}, {4, 4, 2}, {4, 4, 4}, {4, 4, 6}, {6, 2, 2}, {6, 2, 6}, {4, 2, 4}} {
			for _, op := range ops[1:] {
				ws = append(ws, world{t, op, []ordCell{keyCell("int", v[0]), keyCell("string", v[1]), keyCell("int", v[2])}})
			}
		}
	}
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		f := p.Method("Table", w.op)
		if f == nil {
			return
		}
		what := fmt.Sprintf("%s%s in %s", w.op, rowText(w.vals), w.t)
		run := p.ordNew(what)
		o := run.build(w.t)
		r.count("worlds", 1)
		if !run.keys(o, w.t) {
			r.count("worlds not followed", 1)
			return
		}
		var vs []*Val
		first, last := -1, -1
		for i, row := range w.t.rows {
			same := true
			for k, key := range w.t.keys {
				j := 0
				for w.t.names[j] != key.col {
					j++
				}
				same = same && row[j] == w.vals[k]
			}
			if same {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		for k, key := range w.t.keys {
			j := 0
			for w.t.names[j] != key.col {
				j++
			}
			vs = append(vs, run.value(w.vals[k], w.t.types[j], "v"))
		}
		rets := run.in.Run(f, []*Val{ptrTo(o), run.list(vs)}, run.mem, run.st.flags, nil)
		if run.in.over {
			r.count("worlds abandoned (too large)", 1)
			return
		}
		if run.in.undecided {
			r.count("worlds with an undecided branch", 1)
			return
		}
		bad, known := "", true
		can := false
		for k := range rets {
			rt := &rets[k]
			if run.in.heapOf(rt.flags).lost {
				known = false
				continue
			}
			e := rt.vals[len(rt.vals)-1]
			if !e.isNil() && !e.isNonNil() {
				known = false
				continue
			}
			if e.isNonNil() {
				continue
			}
			can = true
			want := []int{first}
			switch w.op {
			case "SearchLast":
				want = []int{last}
			case "SearchRange":
				want = []int{first, last}
			case "Search": // any matching row
			}
			if first < 0 {
				bad = "succeeds although no row matches"
				continue
			}
			for j, x := range want {
				g, ok := rt.vals[j].int1()
				if !ok {
					known = false
				} else if g != int64(x) && (w.op != "Search" || g < int64(first) || g > int64(last)) {
					bad = fmt.Sprintf("returns %d instead of %d", g, x)
				}
			}
		}
		if first >= 0 && !can && known {
			bad = fmt.Sprintf("fails although row %d matches", first)
		}
		if bad == "" && !known {
			r.count("worlds not followed", 1)
			return
		}
		r.oblig(bad == "")
		if bad != "" {
			r.add("search|"+w.op, p.at(f.Pos()), "", "%s %s", what, bad)
		}
	})
	return r
}
