package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Round trips: a writer is followed on a table (or set) of symbols, and the
// reader on what it wrote.  What is read must be what was written.

func init() {
	for _, id := range []string{"C04", "C06", "C08", "C09", "C10", "N01", "N02"} {
		id := id
		checks[id] = func(p *Program, tier string) *Result { return checkRoundTrip(p, tier, id) }
	}
}

const rtRule = "The writer is abstractly interpreted on tables whose cells and names are symbols, its text being kept as a sequence of literal parts and renderings of symbols; the encoders and decoders of the standard library and of yaml.v3 are modelled on such texts; the reader is then interpreted on what was written. It must be able to succeed, and on no outcome may it succeed with other names, types, cells, rows, shape or keys."

type rtWorld struct {
	form   string // json, jsonindent, yaml, gob
	set    bool
	typ    string
	rows   int
	cols   int
	tables int
	inner  string // column type of nested tables
	v0     int    // first variant of the cells of text forms
	kind   string // struct, keys, empty, nested, nestednil, nanos, big, whole, rev, mixed
}

func (e rtWorld) String() string {
	what := "a table"
	if e.set {
		what = fmt.Sprintf("a set of %d tables", e.tables)
	}
	s := fmt.Sprintf("%s of %d rows and %d columns of type %s", what, e.rows, e.cols, e.typ)
	if e.kind != "" {
		s += " (" + map[string]string{
			"struct": "in struct shape", "emptystruct": "in struct shape, empty cells", "keys": "with sort keys", "empty": "empty cells", "nestednil": "nested nil tables",
			"nanos": "times with nanoseconds", "big": "large numbers", "whole": "whole numbers", "rev": "maps in reverse order", "mixed": "columns of other types too",
		}[e.kind] + ")"
	}
	if e.inner != "" {
		s += ", nested tables of type " + e.inner
	}
	if isTextForm(e.form) {
		s += fmt.Sprintf(", variant %d", e.v0)
	}
	return s
}

// rtTable is what a table contains.
type rtTable struct {
	nilTable bool
	name     string
	names    []string
	types    []string
	rows     [][]rtCell
	strct    bool
	keys     []rtKey
}

type rtKey struct {
	col int
	rev bool
}

type rtCell struct {
	sym   string
	bytes []string
	isB   bool
	sub   *rtTable
}

type rtRun struct {
	p    *Program
	in   *Interp
	w    *World
	tw   *textWorld
	e    rtWorld
	st   *State
	init map[*Obj]map[string]*Val
	typs map[string]string
	vars map[string]*tvar // variants of the symbols of text forms
	nsym int
}

func (p *Program) rtNew(e rtWorld) *rtRun {
	w := &World{Name: e.String(), Heap: true, MaxDepth: 40}
	tw := &textWorld{p: p, notes: map[string]bool{}, nanos: e.kind == "nanos", big: e.kind == "big", whole: e.kind == "whole", rev: e.kind == "rev"}
	r := &rtRun{p: p, in: NewInterp(p, w), w: w, tw: tw, e: e, st: &State{mem: Mem{}}, init: map[*Obj]map[string]*Val{}, typs: map[string]string{}}
	w.Text = tw
	tw.typ = func(s string) string {
		if isNameTag(s) || s != "" && (s[0] == 'S' || s[0] == 'F') {
			return "string"
		}
		return r.typs[s]
	}
	tw.name = isNameTag
	w.OnCall = tw.call
	if rtTrace != nil {
		w.OnCall = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
			rets, ok := tw.call(in, a, st, i, fn, args)
			rtTrace(in, a, st, i, fn, args, rets, ok)
			return rets, ok
		}
	}
	w.BinOp = tw.binop
	w.Watch = func(n *types.Named, field string) bool {
		if n != nil && n.Obj().Pkg() == p.Types && field != "" && !strings.Contains(field, ".") {
			i := p.fieldIndex(n, field)
			if i < 0 {
				return false
			}
			if _, ok := n.Underlying().(*types.Struct); !ok {
				return false
			}
			_, basic := n.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Basic)
			return basic
		}
		if n == nil || field != "" || n.Obj().Pkg() == nil {
			return false
		}
		return n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer" || n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
	}
	w.Field = func(o *Obj, n *types.Named, field string) *Val {
		if m := r.init[o]; m != nil && (n == p.Table || n == p.TSet) {
			return m[field]
		}
		return nil
	}
	w.Fields = func(o *Obj) (vs []*Val) {
		for _, v := range r.init[o] {
			vs = append(vs, v)
		}
		return
	}
	w.NotName = func(c, tag string) bool { return isNameTag(tag) && (!plainName(c) || p.isTypeName(c)) }
	if isTextForm(e.form) {
		r.textSetup()
	}
	return r
}

func (r *rtRun) list(es []*Val) *Val {
	return view(&Val{nilb: mayNon}, r.in.newCont(r.st, &heapArr{elems: es}), 0, len(es))
}

// symbol makes the value of a symbol of a basic type.
func (r *rtRun) symbol(id, typ string) *Val {
	if isTextForm(r.e.form) {
		return r.textSymbol(id, typ)
	}
	r.typs[id] = typ
	v := &Val{nilb: mayNon}
	if bits, signed, ok := intBits(typ); ok {
		c := intRange(bits, signed).dup()
		if r.e.kind == "big" {
			c = bigRange(typ).dup()
		}
		v = &c
	}
	v.tag = id
	return v
}

// model describes a table of the world.
func (r *rtRun) model(prefix string, typ string, rows, cols, depth int) *rtTable {
	t := &rtTable{name: "N" + prefix}
	for j := 0; j < cols; j++ {
		t.names = append(t.names, "n"+prefix+strconv.Itoa(j))
		ct := typ
		if r.e.kind == "mixed" && j == 1 {
			ct = "string"
		}
		if r.e.kind == "mixed" && j == 2 {
			ct = "int"
		}
		t.types = append(t.types, ct)
	}
	t.strct = strings.HasSuffix(r.e.kind, "struct") && depth == 0
	if r.e.kind == "keys" && cols > 1 {
		t.keys = []rtKey{{1, true}, {0, false}}
	}
	for k := 0; k < rows; k++ {
		var cs []rtCell
		for j := 0; j < cols; j++ {
			c := rtCell{sym: fmt.Sprintf("q%s%d_%d", prefix, k, j)}
			switch t.types[j] {
			case "[]byte", "[]uint8":
				c.isB = true
				n := 2
				if strings.HasPrefix(r.e.kind, "empty") {
					n = 0
				}
				for b := 0; b < n; b++ {
					c.bytes = append(c.bytes, fmt.Sprintf("%s.%d", c.sym, b))
				}
			case "*Table":
				if r.e.kind == "nestednil" && (k+j)%2 == 0 || depth > 0 {
					c.sub = &rtTable{nilTable: true}
				} else if isTextForm(r.e.form) { // a place holder with the name of the table
					c.sub = r.model(fmt.Sprintf("%s%d_%d", prefix, k, j), "int", 0, 0, depth+1)
				} else {
					inner := r.e.inner
					if inner == "" {
						inner = []string{"string", "int"}[(k+j)%2]
					}
					c.sub = r.model(fmt.Sprintf("%s%d_%d", prefix, k, j), inner, 1, 1, depth+1)
				}
			}
			cs = append(cs, c)
		}
		t.rows = append(t.rows, cs)
	}
	return t
}

// build makes the object of a table.
func (r *rtRun) build(t *rtTable, id string) *Obj {
	o := r.in.obj(id, false, r.p.Table, nil)
	m := map[string]*Val{"parentTable": NilVal, "isStructShape": boolVal(t.strct), "isNilTable": boolVal(t.nilTable), "tableName": {nilb: mayNon, tag: t.name}}
	if t.nilTable {
		m["tableName"] = strVal("")
	}
	var ns, ts []*Val
	im := &heapArr{isMap: true}
	for j := range t.names {
		ns = append(ns, &Val{nilb: mayNon, tag: t.names[j]})
		ts = append(ts, strVal(t.types[j]))
		im.keys = append(im.keys, "T"+t.names[j])
		im.elems = append(im.elems, intVal(int64(j)))
	}
	m["colNames"], m["colTypes"] = r.list(ns), r.list(ts)
	m["colNamesMap"] = &Val{nilb: mayNon, cont: r.in.newCont(r.st, im), lab: LTracked}
	var rs []*Val
	for _, row := range t.rows {
		var cs []*Val
		for j, c := range row {
			gt := r.p.goType(t.types[j])
			var x *Val
			switch {
			case c.sub != nil:
				x = ptrTo(r.build(c.sub, id+"."+c.sym))
			case c.isB:
				var bs []*Val
				for _, b := range c.bytes {
					bs = append(bs, r.symbol(b, "byte"))
				}
				x = r.list(bs)
			default:
				x = r.symbol(c.sym, t.types[j])
			}
			cs = append(cs, &Val{nilb: mayNon, dyn: gt, inner: x})
		}
		rs = append(rs, r.list(cs))
	}
	m["rows"] = r.list(rs)
	var ks []*Val
	if kt, _ := r.p.Types.Scope().Lookup("sortKey").(*types.TypeName); kt != nil {
		sty := kt.Type().Underlying().(*types.Struct)
		for _, k := range t.keys {
			v := &Val{nilb: mayNon, ty: named(kt.Type())}
			for i := 0; i < sty.NumFields(); i++ {
				x := r.in.topOf(sty.Field(i).Type())
				switch sty.Field(i).Name() {
				case "colName":
					x = &Val{nilb: mayNon, tag: t.names[k.col]}
				case "colType":
					x = strVal(t.types[k.col])
				case "reverse":
					x = boolVal(k.rev)
				case "sortFunc":
					x = NonNil
				}
				v.flds = append(v.flds, x)
			}
			ks = append(ks, v)
		}
	}
	m["sortKeys"] = r.list(ks)
	r.init[o] = m
	return o
}

const setName = "NS0"

func (r *rtRun) buildSet(ts []*rtTable) *Obj {
	o := r.in.obj("set", false, r.p.TSet, nil)
	var vs []*Val
	for k, t := range ts {
		vs = append(vs, ptrTo(r.build(t, fmt.Sprintf("table%d", k))))
	}
	r.init[o] = map[string]*Val{"tableSetName": {nilb: mayNon, tag: setName}, "fileName": {nilb: mayNon, tag: "F0"}, "tables": r.list(vs)}
	return o
}

// verdict of a comparison
const (
	vEqual = iota
	vUnknown
	vDiffer
)

type rtDiff struct {
	v    int
	kind string
	what string
}

func (d *rtDiff) unknown(what string) {
	if d.v == vEqual {
		d.v, d.what = vUnknown, what
	}
}

func (d *rtDiff) differ(kind, format string, args ...interface{}) {
	if d.v != vDiffer {
		d.v, d.kind, d.what = vDiffer, kind, fmt.Sprintf(format, args...)
	}
}

func (r *rtRun) field(rt *Ret, o *Obj, name string) *Val {
	sr := shapeRun{p: r.p, in: r.in}
	return sr.field(rt, o, name)
}

// text compares a string with the symbol it should be.
func (r *rtRun) text(d *rtDiff, kind, what string, v *Val, want string) {
	s, ok := textOf(v)
	switch {
	case !ok:
		d.unknown(what)
	case s == want:
	case r.tw.tm != nil:
		switch r.tw.sameText(s, want) {
		case -1:
			d.differ(kind, "%s is %s instead of %s", what, plainText(s), plainText(want))
		case 0:
			if strings.Contains(s, fLoss) {
				d.differ(kind, "%s is %s instead of %s", what, plainText(s), plainText(want))
			} else {
				d.unknown(what)
			}
		}
	case v.tag == "" || strings.Contains(s, "\x01"):
		d.differ(kind, "%s is %s instead of %s", what, plainText(s), plainText(want))
	default:
		d.unknown(what)
	}
}

func plainText(s string) string {
	out := ""
	for _, p := range pieces(s) {
		if p.form == "" {
			out += strconv.Quote(p.lit)
		} else if p.form == fRaw {
			out += "<" + p.sym + ">"
		} else {
			out += "<" + p.sym + " as " + p.form + ">"
		}
	}
	if s == "" {
		return `""`
	}
	return out
}

func raw(sym string) string {
	if sym == "" {
		return ""
	}
	return sym1(fRaw, sym)
}

// same compares table object v after the call with what it should be.
func (r *rtRun) same(d *rtDiff, rt *Ret, v *Val, t *rtTable, what string) {
	if v.isNil() {
		d.differ("nil", "%s is nil", what)
		return
	}
	if v.obj == nil || v.field != "" {
		d.unknown(what)
		return
	}
	st := &State{mem: rt.mem, flags: rt.flags}
	o := v.obj
	if x := r.field(rt, o, "isNilTable"); t.nilTable {
		if x.isFalse() {
			d.differ("niltable", "%s is no nil table", what)
		} else if !x.isTrue() {
			d.unknown("isNilTable")
		}
		return
	} else if x.isTrue() {
		d.differ("niltable", "%s is a nil table", what)
		return
	}
	r.text(d, "name", "the name of "+what, r.field(rt, o, "tableName"), raw(t.name))
	seq := func(f string) ([]*Val, bool) {
		x := r.field(rt, o, f)
		es, ok := r.in.seq(st, x)
		if !ok && x.isNil() {
			return nil, true
		}
		return es, ok
	}
	if ns, ok := seq("colNames"); !ok {
		d.unknown("column names")
	} else if len(ns) != len(t.names) {
		d.differ("cols", "%s has %d columns instead of %d", what, len(ns), len(t.names))
		return
	} else {
		for j := range ns {
			r.text(d, "colname", fmt.Sprintf("the name of column %d of %s", j, what), ns[j], raw(t.names[j]))
		}
	}
	if ts, ok := seq("colTypes"); !ok {
		d.unknown("column types")
	} else if len(ts) != len(t.types) {
		d.differ("cols", "%s has %d column types instead of %d", what, len(ts), len(t.types))
		return
	} else {
		for j := range ts {
			r.text(d, "coltype", fmt.Sprintf("the type of column %d of %s", j, what), ts[j], t.types[j])
		}
	}
	if x := r.field(rt, o, "isStructShape"); t.strct && x.isFalse() || !t.strct && x.isTrue() {
		d.differ("shape", "the shape of %s is lost", what)
	} else if !x.isTrue() && !x.isFalse() {
		d.unknown("shape")
	}
	rows, ok := seq("rows")
	if !ok {
		d.unknown("rows")
	} else if len(rows) != len(t.rows) {
		d.differ("rows", "%s has %d rows instead of %d", what, len(rows), len(t.rows))
		return
	}
	for k := range rows {
		cs, ok := r.in.seq(st, rows[k])
		if !ok {
			d.unknown("row")
			continue
		}
		if len(cs) != len(t.rows[k]) {
			d.differ("cells", "row %d of %s has %d cells instead of %d", k, what, len(cs), len(t.rows[k]))
			return
		}
		for j := range cs {
			r.cell(d, rt, st, cs[j], t.rows[k][j], t.types[j], fmt.Sprintf("the cell of column %d in row %d of %s", j, k, what))
		}
	}
	if r.e.form == "gob" {
		ks, ok := seq("sortKeys")
		if !ok {
			d.unknown("sort keys")
		} else if len(ks) != len(t.keys) {
			d.differ("keys", "%s has %d sort keys instead of %d", what, len(ks), len(t.keys))
			return
		}
		kt, _ := r.p.Types.Scope().Lookup("sortKey").(*types.TypeName)
		for k := range ks {
			sty := kt.Type().Underlying().(*types.Struct)
			for i := 0; i < sty.NumFields(); i++ {
				x := r.in.fieldOf(st, ks[k], kt.Type(), sty.Field(i).Name(), sty.Field(i).Type())
				what := fmt.Sprintf("%s of sort key %d of %s", sty.Field(i).Name(), k, what)
				switch sty.Field(i).Name() {
				case "colName":
					r.text(d, "key", what, x, raw(t.names[t.keys[k].col]))
				case "colType":
					r.text(d, "key", what, x, t.types[t.keys[k].col])
				case "reverse":
					if x.isTrue() && !t.keys[k].rev || x.isFalse() && t.keys[k].rev {
						d.differ("key", "%s is the opposite", what)
					} else if !x.isTrue() && !x.isFalse() {
						d.unknown(what)
					}
				case "sortFunc":
					if x.isNil() {
						d.differ("key", "%s is nil", what)
					}
				}
			}
		}
	}
}

func (r *rtRun) cell(d *rtDiff, rt *Ret, st *State, v *Val, c rtCell, typ, what string) {
	gt := r.p.goType(typ)
	if v.isNil() {
		d.differ("nilcell", "%s is nil", what)
		return
	}
	if v.dyn == nil || v.inner == nil {
		d.unknown(what)
		return
	}
	if !types.Identical(v.dyn, gt) {
		d.differ("celltype", "%s is of Go type %s", what, types.TypeString(v.dyn, nil))
		return
	}
	x := v.inner
	switch {
	case c.sub != nil:
		r.same(d, rt, x, c.sub, "the table in "+what)
	case c.isB:
		es, ok := r.in.seq(st, x)
		if !ok {
			d.unknown(what)
			return
		}
		if len(es) != len(c.bytes) {
			d.differ("bytes", "%s has %d bytes instead of %d", what, len(es), len(c.bytes))
			return
		}
		for k := range es {
			r.sym(d, es[k], c.bytes[k], fmt.Sprintf("byte %d of %s", k, what))
		}
	case typ == "string":
		want := raw(c.sym)
		if tv := r.vars[c.sym]; tv != nil && tv.cst != nil {
			want, _ = tv.cst.str1()
		}
		r.text(d, "cell", what, x, want)
	default:
		r.sym(d, x, c.sym, what)
	}
}

// sym compares a value with the symbol it should be.
func (r *rtRun) sym(d *rtDiff, v *Val, want, what string) {
	if tv := r.vars[want]; tv != nil {
		if tv.flt != "" && strings.HasPrefix(v.tag, "=") {
			if v.tag[1:] != tv.flt {
				d.differ("cell", "%s is always %s instead of %s", what, v.tag[1:], tv.flt)
			}
			return
		}
		if tv.cst != nil {
			k, isK := tv.cst.int1()
			x, isX := v.int1()
			switch {
			case isK && isX && k == x, tv.cst.isTrue() && v.isTrue(), tv.cst.isFalse() && v.isFalse():
			case isK && isX:
				d.differ("cell", "%s is %d instead of %d", what, x, k)
			case tv.cst.isTrue() && v.isFalse(), tv.cst.isFalse() && v.isTrue():
				d.differ("cell", "%s is the opposite", what)
			case strings.HasPrefix(v.tag, "\x01"+fLoss):
				d.differ("lossy", "%s does not keep its value", what)
			default:
				d.unknown(what)
			}
			return
		}
		if strings.HasPrefix(v.tag, "=") {
			d.differ("cell", "%s is always %s", what, v.tag[1:])
			return
		}
	}
	switch {
	case v.tag == want:
	case strings.HasPrefix(v.tag, "\x01"+fLoss):
		d.differ("lossy", "%s does not keep its value", what)
	case v.tag != "" && r.typs[v.tag] != "":
		d.differ("cell", "%s is <%s> instead of <%s>", what, v.tag, want)
	case len(v.cs) == 1:
		d.differ("cell", "%s is always %s", what, v.cs[0])
	default:
		if k, ok := v.int1(); ok {
			d.differ("cell", "%s is always %d", what, k)
			return
		}
		d.unknown(what)
	}
}

// rtTrace is for debugging.
var rtTrace func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val, rets []Ret, ok bool)

// codecs are the writers and readers of a form.
func (p *Program) rtFuncs(form string, set bool) (wr, rd *ssa.Function) {
	fn := func(n string) *ssa.Function { return p.SSA.Func(n) }
	switch {
	case form == "json" && set:
		return p.Method("TableSet", "GetTableSetAsJSON"), fn("NewTableSetFromJSON")
	case form == "jsonindent" && set:
		return p.Method("TableSet", "GetTableSetAsJSONIndent"), fn("NewTableSetFromJSON")
	case form == "json":
		return p.Method("Table", "GetTableAsJSON"), fn("NewTableFromJSON")
	case form == "jsonindent":
		return p.Method("Table", "GetTableAsJSONIndent"), fn("NewTableFromJSON")
	case form == "yaml" && set:
		return p.Method("TableSet", "GetTableSetAsYAML"), fn("NewTableSetFromYAML")
	case form == "text" && set:
		return p.Method("TableSet", "String"), fn("NewTableSetFromString")
	case form == "text":
		return p.Method("Table", "String"), fn("NewTableFromString")
	case form == "unpadded" && set:
		return p.Method("TableSet", "StringUnpadded"), fn("NewTableSetFromString")
	case form == "unpadded":
		return p.Method("Table", "StringUnpadded"), fn("NewTableFromString")
	case form == "gob" && set:
		return p.Method("TableSet", "GobEncode"), fn("NewTableSetFromGob")
	case form == "gob":
		return p.Method("Table", "GobEncode"), fn("NewTableFromGob")
	}
	return nil, nil
}

func (p *Program) rtJob(e rtWorld, tier string, r *Result) {
	wr, rd := p.rtFuncs(e.form, e.set)
	if wr == nil || rd == nil {
		return
	}
	run := p.rtNew(e)
	run.in.limit = 60000
	var ts []*rtTable
	for k := 0; k < e.tables; k++ {
		rows := e.rows
		if k%2 == 1 && e.tables > 1 {
			rows = (e.rows + 1) % 3
			if isTextForm(e.form) && strings.HasSuffix(e.kind, "struct") {
				rows = (e.rows + 1) % 2 // more rows are written as a table
			}
		}
		ts = append(ts, run.model(strconv.Itoa(k)+"t", e.typ, rows, e.cols, 0))
	}
	var arg *Val
	if e.set {
		arg = ptrTo(run.buildSet(ts))
	} else {
		arg = ptrTo(run.build(ts[0], "table"))
	}
	r.count("worlds", 1)
	key := fmt.Sprintf("%s|%s", shortName(wr), e.typ)
	if e.kind != "" || e.inner != "" {
		key += "|" + e.kind + e.inner
	}
	bad := func(kind, where, format string, args ...interface{}) {
		if !rtCounts(r.Prop, kind) {
			r.oblig(true)
			r.count("worlds with a difference that is another property's matter", 1)
			return
		}
		r.oblig(false)
		r.add(kind+"|"+key, where, "", "%s: %s", e, fmt.Sprintf(format, args...))
	}
	run.w.HeapTop = run.in.heapOf(run.st.flags).next() - 1
	rets := run.in.Run(wr, []*Val{arg}, nil, run.st.flags, nil)
	wrote, read, unknown := false, false, ""
	for k := range rets {
		rt := &rets[k]
		if nonNilErr(rt.vals, wr.Signature) {
			continue
		}
		if run.in.heapOf(rt.flags).lost {
			unknown = "the writer is not followed"
			continue
		}
		wrote = true
		run.w.HeapTop = run.in.heapOf(rt.flags).next() - 1
		for _, rr := range run.in.Run(rd, []*Val{rt.vals[0]}, rt.mem, rt.flags, nil) {
			rr := rr
			if nonNilErr(rr.vals, rd.Signature) {
				continue
			}
			if run.in.heapOf(rr.flags).lost {
				unknown = "the reader is not followed"
				continue
			}
			if !noErr(rr.vals, rd.Signature) {
				unknown = "the error is not known"
				continue
			}
			d := &rtDiff{}
			run.judge(d, &rr, rr.vals[0], ts)
			switch d.v {
			case vEqual:
				read = true
			case vUnknown:
				unknown = d.what + " is not known"
			case vDiffer:
				bad(d.kind, p.at(rd.Pos()), "%s reads back what %s wrote, but %s", shortName(rd), shortName(wr), d.what)
				return
			}
		}
	}
	if run.in.over {
		r.count("worlds abandoned (too large)", 1)
		r.Unknown = append(r.Unknown, e.form+": "+e.String()+": abandoned")
		return
	}
	note := ""
	var ns []string
	for n := range run.tw.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	if len(ns) > 0 {
		note = " (" + strings.Join(ns, "; ") + ")"
	}
	switch {
	case read:
		r.oblig(true)
		r.sample(e.form + ": " + e.String())
	case unknown != "":
		r.count("worlds not decided: "+unknown, 1)
		r.Unknown = append(r.Unknown, e.form+": "+e.String()+": "+unknown)
	case !wrote:
		bad("write", p.at(wr.Pos()), "%s always fails%s", shortName(wr), note)
	default:
		bad("read", p.at(rd.Pos()), "%s always fails on what %s wrote%s", shortName(rd), shortName(wr), note)
	}
}

// noErr: the error result is nil.
func noErr(vals []*Val, sig *types.Signature) bool {
	n := sig.Results().Len()
	return n == 0 || !isErrorType(sig.Results().At(n-1).Type()) || vals[n-1].isNil()
}

func (r *rtRun) judge(d *rtDiff, rt *Ret, v *Val, ts []*rtTable) {
	if !r.e.set {
		r.same(d, rt, v, ts[0], "the table")
		return
	}
	if v.obj == nil || v.field != "" {
		d.unknown("the set")
		return
	}
	r.text(d, "setname", "the name of the set", r.field(rt, v.obj, "tableSetName"), raw(setName))
	if r.e.form == "gob" {
		r.text(d, "filename", "the file name of the set", r.field(rt, v.obj, "fileName"), raw("F0"))
	}
	st := &State{mem: rt.mem, flags: rt.flags}
	es, ok := r.in.seq(st, r.field(rt, v.obj, "tables"))
	if !ok {
		d.unknown("the tables")
		return
	}
	if len(es) != len(ts) {
		d.differ("tables", "the set has %d tables instead of %d", len(es), len(ts))
		return
	}
	for k := range es {
		r.same(d, rt, es[k], ts[k], fmt.Sprintf("table %d", k))
	}
}

// rtWorlds are the worlds of a property.
func (p *Program) rtWorlds(prop, tier string) (ws []rtWorld) {
	all := p.colTypeUniverse()
	excluded := func(form, t string) bool { return form == "gob" && (t == "*Table" || t == "time.Time") }
	add := func(e rtWorld) {
		if wr, _ := p.rtFuncs(e.form, e.set); wr != nil && !excluded(e.form, e.typ) {
			ws = append(ws, e)
		}
	}
	base := func(form string, set bool, t string) rtWorld {
		e := rtWorld{form: form, set: set, typ: t, rows: 2, cols: 2, tables: 1}
		return e
	}
	kinds := func(f string, set bool, t string) {
		for _, k := range []string{"big", "whole", "nanos", "empty"} {
			num := strings.HasPrefix(t, "int") || strings.HasPrefix(t, "uint") || strings.HasPrefix(t, "float")
			if k == "big" && num || k == "whole" && strings.HasPrefix(t, "float") || k == "nanos" && t == "time.Time" || k == "empty" && strings.HasPrefix(t, "[]") {
				e := base(f, set, t)
				e.kind = k
				add(e)
			}
		}
	}
	structure := func(f string, set bool) {
		for _, t := range []string{"int", "string", "[]byte"} {
			for rows := 0; rows < 3; rows++ {
				for cols := 0; cols < 4; cols++ {
					if cols == 0 && rows > 0 {
						continue
					}
					e := base(f, set, t)
					e.rows, e.cols = rows, cols
					add(e)
				}
			}
			for _, k := range []string{"struct", "keys", "rev", "mixed"} {
				if k == "keys" && t == "[]byte" { // cannot be sorted by
					continue
				}
				for rows := 0; rows < 3; rows++ {
					e := base(f, set, t)
					e.rows, e.kind = rows, k
					if k == "mixed" || k == "rev" {
						e.cols = 3
					}
					add(e)
				}
			}
			if set {
				for n := 0; n < 4; n++ {
					for rows := 0; rows < 3; rows++ {
						e := base(f, set, t)
						e.tables, e.rows = n, rows
						if n > 2 {
							e.cols = 1
						}
						add(e)
					}
				}
			}
		}
		e := base(f, set, "*Table")
		e.kind = "nestednil"
		add(e)
		e.kind = ""
		e.rows, e.cols = 2, 1
		add(e)
		e.rows, e.cols = 1, 1
		add(e)
	}
	forms := []string{"json", "yaml", "gob", "jsonindent"}
	switch prop {
	case "C03", "C04", "C06", "C08", "N01":
		p.textWorlds(prop, tier, add)
		if prop == "C08" || prop == "N01" {
			return
		}
	case "C02":
		p.textWorlds(prop, tier, add)
		forms = []string{"json", "yaml"}
	case "C09":
		forms = []string{"gob"}
	case "C10":
		forms = []string{"json", "yaml", "jsonindent"}
	}
	for _, f := range forms {
		for _, set := range []bool{true, false} {
			for _, t := range all {
				switch prop {
				case "C02":
					add(base(f, set, t))
				case "C03":
					add(base(f, set, t))
					kinds(f, set, t)
					if f != "gob" && t != "*Table" {
						add(rtWorld{form: f, set: set, typ: "*Table", rows: 1, cols: 1, tables: 1, inner: t})
					}
				case "C04":
					if num := strings.HasPrefix(t, "int") || strings.HasPrefix(t, "uint") || strings.HasPrefix(t, "float") || t == "byte" || t == "rune"; num || strings.HasPrefix(t, "[]") {
						add(base(f, set, t))
						kinds(f, set, t)
					}
				case "C06":
					if t == "string" || t == "rune" {
						add(base(f, set, t))
					}
				case "C09", "N02":
					add(base(f, set, t))
					kinds(f, set, t)
				}
			}
			if prop == "C09" || prop == "C10" || prop == "N02" {
				structure(f, set)
			}
		}
	}
	return
}

// rtCounts: a difference of this kind breaks the property.
func rtCounts(prop, kind string) bool {
	value := kind == "cell" || kind == "nilcell" || kind == "lossy" || kind == "bytes" || kind == "celltype"
	switch prop {
	case "C02":
		return kind == "celltype" || kind == "nilcell"
	case "C03":
		return value || kind == "coltype" || kind == "read" || kind == "write" || kind == "niltable" || kind == "nil"
	case "C04":
		return kind == "lossy" || kind == "read" || kind == "write"
	case "C06":
		return value || kind == "read" || kind == "write"
	case "C08":
		return kind == "read"
	case "C10":
		return kind != "lossy"
	}
	return true
}

func checkRoundTrip(p *Program, tier, prop string) *Result {
	r := newResult(prop)
	r.Rule = rtRule
	ws := p.rtWorlds(prop, tier)
	p.parallel(r, len(ws), func(i int, r *Result) { p.rtJob(ws[i], tier, r) })
	return r
}
