package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = func(p *Program, tier string) *Result { return withDocs(p, checkShapes(p, tier, "C21"), tier) }
	checks["C23"] = func(p *Program, tier string) *Result { return withDocs(p, checkShapes(p, tier, "C23"), tier) }
	checks["C18"] = func(p *Program, tier string) *Result { return checkShapes(p, tier, "C18") }
	checks["C22"] = func(p *Program, tier string) *Result { return withDocs(p, checkShapes(p, tier, "C22"), tier) }
	checks["C16"] = func(p *Program, tier string) *Result { return checkShapes(p, tier, "C16") }
}

// shape describes the table arguments and name and index arguments of a world.
type shape struct {
	cols, rows int
	strs       []string // tag of each string argument, or = and a constant
	ints       []int64  // value of each int argument
	list       []string // elements of list-of-names arguments
	keys       []int    // columns that are sort keys
	typ        string
	arg        string   // name of a table argument
	like       bool     // the argument table has the same columns in another order
	typed      []string // types of the columns in turn
	ifc        string   // type of each argument of interface type
	dirs       []bool   // directions of the sort keys of the table and of its argument
	argKeys    []int    // columns that are sort keys of an argument table
}

func (s *shape) String() string {
	var b []string
	b = append(b, fmt.Sprintf("%d columns, %d rows", s.cols, s.rows))
	if len(s.strs) > 0 {
		b = append(b, "names "+strings.Join(s.strs, ","))
	}
	if len(s.ints) > 0 {
		b = append(b, "indices "+fmt.Sprint(s.ints))
	}
	if s.list != nil {
		b = append(b, "list "+strings.Join(s.list, ","))
	}
	if s.arg != "" && s.arg != "M0" {
		b = append(b, "argument table named "+s.arg)
	}
	if s.like {
		b = append(b, "argument table with the same columns in another order and a sort key")
	}
	if len(s.keys) > 0 {
		b = append(b, fmt.Sprintf("sort keys on columns %v", s.keys))
	}
	if s.typed != nil {
		b = append(b, "types "+strings.Join(s.typed, ","))
	}
	if s.ifc != "" {
		b = append(b, "a value of type "+s.ifc)
	}
	return strings.Join(b, "; ")
}

const argWhich = "its argument table"

type shapeRun struct {
	p    *Program
	in   *Interp
	W    *World
	s    *shape
	init map[*Obj]map[string]*Val // tracked fields of the table arguments
	heap uint64
	args []*Val
	tabs []*Obj
	sets []*Obj
	own  map[int32]string // containers of the tables before the call
	who  map[int32]*Obj   // and the table they belong to
	was  map[*Obj]string  // what each table is
}

func (p *Program) shapeWorld(f *ssa.Function, s *shape) *shapeRun {
	w := &World{Name: s.String(), Heap: true, TypeName: s.typ}
	in := NewInterp(p, w)
	r := &shapeRun{p: p, in: in, W: w, s: s, init: map[*Obj]map[string]*Val{}, own: map[int32]string{}, who: map[int32]*Obj{}, was: map[*Obj]string{}}
	st := &State{mem: Mem{}}
	list := func(es []*Val) *Val {
		id := in.newCont(st, &heapArr{elems: es})
		return view(&Val{nilb: mayNon}, id, 0, len(es))
	}
	names := func(prefix string, n int) []*Val {
		var es []*Val
		for j := 0; j < n; j++ {
			es = append(es, &Val{nilb: mayNon, tag: prefix + strconv.Itoa(j)})
		}
		return es
	}
	keyType, _ := p.Types.Scope().Lookup("sortKey").(*types.TypeName)
	rotate := func(es []*Val, on bool) []*Val {
		if on && len(es) > 1 {
			return append(append([]*Val{}, es[len(es)-1]), es[:len(es)-1]...)
		}
		return es
	}
	table := func(o *Obj, n, t, c string, cols, rows int, keys []int, name, which string) {
		like := s.like && which == argWhich
		shift := 0
		if which == argWhich && !like {
			shift = 1
		}
		m := map[string]*Val{}
		r.was[o] = which
		m["tableName"] = &Val{nilb: mayNon, tag: name}
		m["parentTable"] = NilVal
		m["isStructShape"] = FalseVal
		m["colNames"] = list(rotate(names(n, cols), like))
		var ts []*Val
		if s.typed != nil {
			for j := 0; j < cols; j++ {
				ts = append(ts, strVal(s.typed[(j+shift)%len(s.typed)]))
			}
		} else {
			ts = names(t, cols)
		}
		m["colTypes"] = list(rotate(ts, like))
		im := &heapArr{isMap: true}
		for j := 0; j < cols; j++ {
			im.keys = append(im.keys, "T"+n+strconv.Itoa(j))
			at := j
			if like {
				at = (j + 1) % cols
			}
			im.elems = append(im.elems, intVal(int64(at)))
		}
		m["colNamesMap"] = &Val{nilb: mayNon, cont: in.newCont(st, im), lab: LTracked}
		var rs []*Val
		for k := 0; k < rows; k++ {
			cells := names(fmt.Sprintf("%s%d.", c, k), cols)
			if s.typed != nil {
				for j, v := range cells {
					tn := s.typed[(j+shift)%len(s.typed)]
					cells[j] = r.typedCell(v.tag, tn, list)
				}
			} else if s.typ == "*Table" {
				for j, v := range cells {
					cells[j] = &Val{nilb: mayNon, tag: v.tag, dyn: types.NewPointer(p.Table), inner: &Val{nilb: mayNon, tag: v.tag, obj: in.obj(v.tag, false, p.Table, nil)}}
				}
			}
			row := list(rotate(cells, like))
			r.own[row.cont], r.who[row.cont] = fmt.Sprintf("row %d", k), o
			rs = append(rs, row)
		}
		m["rows"] = list(rs)
		var ks []*Val
		if keyType != nil {
			sty := keyType.Type().Underlying().(*types.Struct)
			for j, col := range keys {
				kn := n
				if like {
					kn = "l" + n
				}
				v := &Val{nilb: mayNon, ty: named(keyType.Type()), tag: fmt.Sprintf("k%s%d", kn, j)}
				for i := 0; i < sty.NumFields(); i++ {
					x := in.topOf(sty.Field(i).Type())
					switch sty.Field(i).Name() {
					case "colName":
						x = &Val{nilb: mayNon, tag: n + strconv.Itoa(col)}
					case "colType":
						x = &Val{nilb: mayNon, tag: t + strconv.Itoa(col)}
					case "sortFunc":
						x = &Val{nilb: mayNon, tag: "f" + kn + strconv.Itoa(j)}
					case "reverse":
						if j < len(s.dirs) {
							x = boolVal(s.dirs[j])
						}
					}
					v.flds = append(v.flds, x)
				}
				ks = append(ks, v)
			}
		}
		m["sortKeys"] = list(ks)
		m["isNilTable"] = FalseVal
		for f, v := range m {
			if v.cont != 0 {
				r.own[v.cont], r.who[v.cont] = f, o
			}
		}
		r.init[o] = m
	}
	argTable := func(o *Obj) {
		if s.like {
			ks := []int{0}
			if s.argKeys != nil {
				ks = s.argKeys
			}
			table(o, "n", "t", "d", s.cols, s.rows, ks, s.arg, argWhich)
		} else {
			table(o, "m", "u", "d", 2, s.rows, nil, s.arg, argWhich)
		}
	}
	set := func(o *Obj, which string) {
		m := map[string]*Val{}
		r.was[o] = which
		m["tableSetName"] = &Val{nilb: mayNon, tag: "S" + o.id}
		m["fileName"] = &Val{nilb: mayNon, tag: "F" + o.id}
		var ts []*Val
		for k := 0; k < s.cols; k++ {
			x := in.obj(fmt.Sprintf("%s.table%d", o.id, k), false, p.Table, nil)
			table(x, "n", "t", fmt.Sprintf("c%d", k), 2, []int{1, 0, 2}[k%3], nil, "N"+strconv.Itoa(k), fmt.Sprintf("table %d of the set", k))
			ts = append(ts, &Val{nilb: mayNon, obj: x, tag: x.id})
		}
		m["tables"] = list(ts)
		r.own[m["tables"].cont], r.who[m["tables"].cont] = "tables", o
		r.init[o] = m
	}
	si, ii := 0, 0
	for j, q := range f.Params {
		var v *Val
		switch t := q.Type().Underlying().(type) {
		case *types.Basic:
			if isString(q.Type()) {
				v = &Val{nilb: mayNon}
				if si < len(s.strs) {
					v.tag = s.strs[si]
					if strings.HasPrefix(v.tag, "=") {
						v = withLab(strVal(v.tag[1:]), LConstName)
					}
					si++
				}
			} else if t.Kind() == types.Int && ii < len(s.ints) {
				v = intVal(s.ints[ii])
				ii++
			}
		case *types.Slice:
			if s.list != nil && (isString(t.Elem()) || isInteger(t.Elem())) {
				var es []*Val
				for _, x := range s.list {
					e := &Val{nilb: mayNon, tag: x}
					if strings.HasPrefix(x, "=") {
						e = withLab(strVal(x[1:]), LConstName)
					}
					if isInteger(t.Elem()) {
						if k, err := strconv.Atoi(strings.TrimLeft(x, "nw@o")); err == nil && !strings.Contains(x, "@") {
							e = intVal(int64(k))
						} else {
							e = withTag(rangeVal(Bound{}, Bound{off: int64(s.cols - 1)}), strings.TrimPrefix(x, "n@"))
						}
					}
					es = append(es, e)
				}
				v = list(es)
			}
		}
		if v == nil && s.ifc != "" {
			if t, ok := q.Type().Underlying().(*types.Interface); ok && t.NumMethods() == 0 {
				v = r.ifcVal(list)
			} else if t, ok := q.Type().Underlying().(*types.Slice); ok {
				if t, ok := t.Elem().Underlying().(*types.Interface); ok && t.NumMethods() == 0 {
					v = list([]*Val{r.ifcVal(list)})
				}
			}
		}
		if v == nil {
			v = in.argFor("arg"+strconv.Itoa(j), q.Type())
			if s.typed != nil && v.obj == nil {
				v = withTag(v, "a"+strconv.Itoa(j))
			}
		}
		if n := named(q.Type()); v.obj != nil && n == p.Table {
			if len(r.tabs) == 0 {
				if len(r.sets) == 0 {
					table(v.obj, "n", "t", "c", s.cols, s.rows, s.keys, "N0", "the table")
				} else {
					argTable(v.obj)
				}
			} else {
				argTable(v.obj)
			}
			r.tabs = append(r.tabs, v.obj)
		} else if v.obj != nil && n == p.TSet {
			which := "the table set"
			if len(r.sets) > 0 {
				which = "its argument table set"
			}
			set(v.obj, which)
			r.sets = append(r.sets, v.obj)
		}
		r.args = append(r.args, v)
	}
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		if st != p.Table && st != p.TSet {
			return nil
		}
		if m := r.init[o]; m != nil {
			if v := m[field]; v != nil {
				return v
			}
			return nil
		}
		if field == "isNilTable" {
			return FalseVal
		}
		return nil
	}
	w.Fields = func(o *Obj) (vs []*Val) {
		for _, v := range r.init[o] {
			vs = append(vs, v)
		}
		return
	}
	w.Override = func(fn *ssa.Function, args []*Val) ([][]*Val, bool) {
		// these only read (C17) and are not about the shape of one table
		if fn.Signature.Recv() != nil && fn.Object() != nil && fn.Object().Exported() {
			switch fn.Name() {
			case "IsValidTableNesting":
				return [][]*Val{{TrueVal, NilVal}, {FalseVal, NonNil}}, true
			case "HasCircularReference":
				return [][]*Val{{FalseVal, NilVal}, {TrueVal, NonNil}}, true
			}
		}
		return nil, false
	}
	w.Watch = func(n *types.Named, field string) bool {
		return n == p.Table && (field == "tableName" || field == "parentTable") || n == p.TSet && (field == "tableSetName" || field == "fileName")
	}
	w.NotName = func(c, tag string) bool { // an existing name is a valid one
		return isNameTag(tag) && tag[0] != 'w' && tag[0] != 'W' && (!plainName(c) || p.isTypeName(c))
	}
	w.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
		if i.Op != token.EQL && i.Op != token.NEQ || !isString(i.X.Type()) {
			return nil
		}
		for _, q := range [][2]*Val{{x, y}, {y, x}} {
			if c, ok := q[1].str1(); ok && w.NotName(c, q[0].tag) && !plainName(c) { // the name of a type may be meant as a type
				return boolVal(i.Op == token.NEQ)
			}
		}
		// two names of the world
		if !isNameTag(x.tag) || !isNameTag(y.tag) {
			return nil
		}
		if x.tag != y.tag && strings.Contains(x.tag+y.tag, "@") {
			return nil
		}
		return boolVal((x.tag == y.tag) == (i.Op == token.EQL))
	}
	if s.typed != nil {
		w.OnCall = sr02call
		w.Varargs = true
	}
	r.heap = st.flags
	w.HeapTop = in.heapOf(r.heap).next() - 1
	return r
}

func isNameTag(t string) bool {
	return t != "" && strings.IndexByte("nmwNMW", t[0]) >= 0
}

func plainName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i] | 0x20
		if !(c >= 'a' && c <= 'z' || s[i] == '_' || s[i] >= '0' && s[i] <= '9' && i > 0) {
			return false
		}
	}
	return s != ""
}

// field reads a field of table o after the call.
func (r *shapeRun) field(rt *Ret, o *Obj, name string) *Val {
	nt := r.p.Table
	if named(o.typ) == r.p.TSet {
		nt = r.p.TSet
	}
	i := r.p.fieldIndex(nt, name)
	if i < 0 {
		return Top
	}
	t := nt.Underlying().(*types.Struct).Field(i).Type()
	mem := rt.mem
	if mem == nil {
		mem = Mem{}
	}
	return r.in.load(&State{mem: mem, flags: rt.flags}, &Val{nilb: mayNon, obj: o, field: name}, t)
}

type content struct {
	names, types []*Val
	rows         [][]*Val // nil: unknown row
	index        *heapArr
	keys         []*Val
	okN, okT     bool
	okR, okK     bool
}

func (r *shapeRun) content(rt *Ret, o *Obj) *content {
	st := &State{mem: rt.mem, flags: rt.flags}
	c := &content{}
	c.names, c.okN = r.in.seq(st, r.field(rt, o, "colNames"))
	c.types, c.okT = r.in.seq(st, r.field(rt, o, "colTypes"))
	rows, ok := r.in.seq(st, r.field(rt, o, "rows"))
	c.okR = ok
	for _, row := range rows {
		es, ok := r.in.seq(st, row)
		if !ok {
			es = nil
		} else if es == nil {
			es = []*Val{}
		}
		c.rows = append(c.rows, es)
	}
	if v := r.field(rt, o, "colNamesMap"); v != nil {
		c.index = r.in.cont(st, v)
	}
	c.keys, c.okK = r.in.seq(st, r.field(rt, o, "sortKeys"))
	return c
}

// origin splits a tag into its kind and position: n2 -> n, 2; c1.2 -> c1., 2.
func origin(tag string) (kind, pos string) {
	if i := strings.Index(tag, "@"); i >= 0 {
		return tag[:i], tag[i:]
	}
	i := len(tag)
	for i > 0 && tag[i-1] >= '0' && tag[i-1] <= '9' {
		i--
	}
	return tag[:i], tag[i:]
}

func tags(vs []*Val) string {
	var b []string
	for _, v := range vs {
		t := v.tag
		if t == "" {
			t = "?"
		}
		b = append(b, t)
	}
	return "[" + strings.Join(b, " ") + "]"
}

// inStep reports how the parallel structures of a table disagree.
func (c *content) inStep() (kind, what string) {
	n := -1
	lens := func(name string, k int) {
		if kind != "" {
			return
		}
		if n < 0 {
			n = k
		} else if n != k {
			kind, what = "length|"+name, fmt.Sprintf("%d %s for %d column names", k, name, n)
		}
	}
	if c.okN {
		lens("column names", len(c.names))
		if c.okT {
			lens("column types", len(c.types))
		}
		if c.index != nil && !c.index.fuzzy {
			lens("index entries", len(c.index.keys))
		}
		for _, row := range c.rows {
			if row != nil {
				lens("cells in a row", len(row))
			}
		}
	}
	if kind != "" || !c.okN {
		return
	}
	for j, v := range c.names {
		if c.index != nil && v.tag != "" {
			found := false
			for i, k := range c.index.keys {
				if k == "T"+v.tag {
					found = true
					if x := c.index.elems[i]; x.num {
						if k, ok := x.int1(); ok && k != int64(j) {
							return "index", fmt.Sprintf("the index gives column %s position %d, but it is at %d", v.tag, k, j)
						}
					}
				}
			}
			if !found && !c.index.fuzzy {
				return "index", fmt.Sprintf("column %s is not in the index", v.tag)
			}
		}
		nk, np := origin(v.tag)
		id := ""
		if nk == "n" || nk == "m" {
			id = np
		}
		if c.okT {
			if tk, tp := origin(c.types[j].tag); tk == "t" || tk == "u" {
				if id == "" {
					id = tp
				} else if tp != id || (tk == "t") != (nk == "n") {
					return "types", fmt.Sprintf("column %s has the type of column %s%s", v.tag, map[string]string{"t": "n", "u": "m"}[tk], tp)
				}
			}
		}
		if id == "" {
			continue
		}
		for k, row := range c.rows {
			if row == nil || row[j].tag == "" {
				continue
			}
			ck, cp := origin(row[j].tag)
			if (strings.HasPrefix(ck, "c") || strings.HasPrefix(ck, "d")) && strings.HasSuffix(ck, ".") && cp != id {
				return "cells", fmt.Sprintf("column %s of row %d has the cell of the column at position %s", v.tag, k, cp)
			}
		}
	}
	// cells of one row together
	for k, row := range c.rows {
		rk := ""
		for _, v := range row {
			ck, _ := origin(v.tag)
			if !strings.HasSuffix(ck, ".") || len(c.rows) < 2 {
				continue
			}
			if rk == "" {
				rk = ck
			} else if ck != rk && rk[0] == ck[0] {
				return "rows", fmt.Sprintf("row %d has cells of different rows: %s", k, tags(row))
			}
		}
	}
	return
}

// keysRefer reports a sort key that does not belong to a column.
func (c *content) keysRefer(p *Program) (kind, what string) {
	if !c.okK || !c.okN {
		return
	}
	sty := p.Types.Scope().Lookup("sortKey").Type().Underlying().(*types.Struct)
	for _, k := range c.keys {
		if len(k.flds) != sty.NumFields() {
			continue
		}
		for i, x := range k.flds {
			switch sty.Field(i).Name() {
			case "colName":
				if x.tag == "" {
					continue
				}
				found, all := false, true
				for _, v := range c.names {
					if v.tag == x.tag {
						found = true
					}
					if v.tag == "" {
						all = false
					}
				}
				if !found && all && !strings.Contains(tags(c.names)+x.tag, "@") {
					return "key", fmt.Sprintf("there is a sort key on %s, which is not a column (%s)", x.tag, tags(c.names))
				}
			case "sortFunc":
				if x.isNil() {
					return "func", "a sort key has no comparison"
				}
			}
		}
	}
	return
}

// differs reports how a table differs from what it was before the call.
func (r *shapeRun) differs(rt *Ret, o *Obj) (kind, what string) {
	before := &Ret{mem: Mem{}, flags: r.heap}
	isSet := named(o.typ) == r.p.TSet
	scalars := []string{"tableName", "isNilTable", "isStructShape", "parentTable"}
	if isSet {
		scalars = []string{"tableSetName", "fileName"}
	}
	for _, f := range scalars {
		x, y := r.field(before, o, f), r.field(rt, o, f)
		if y.tag != "" && x.tag != "" && y.tag != x.tag || y.tag == "" && isConst(y) && (x.tag != "" || isConst(x) && !same(setLab(x, 0), setLab(y, 0))) ||
			x.isNil() && y.isNonNil() || x.isNonNil() && y.isNil() {
			return f, "its " + f + " is changed"
		}
	}
	if isSet {
		a, ok1 := r.in.seq(&State{mem: before.mem, flags: before.flags}, r.field(before, o, "tables"))
		b, ok2 := r.in.seq(&State{mem: rt.mem, flags: rt.flags}, r.field(rt, o, "tables"))
		if ok1 && ok2 {
			if len(a) != len(b) {
				return "tables", fmt.Sprintf("the set has %d instead of %d tables", len(b), len(a))
			}
			for i := range a {
				if b[i].obj != nil && b[i].obj != a[i].obj {
					return "tables", fmt.Sprintf("the set has another table at %d", i)
				}
			}
			for _, t := range a {
				if k, w := r.differs(rt, t.obj); k != "" {
					return "table " + k, w + " in " + r.was[t.obj]
				}
			}
		}
		return
	}
	a, b := r.content(before, o), r.content(rt, o)
	seqDiff := func(x, y []*Val) string {
		if len(x) != len(y) {
			return fmt.Sprintf("has %d instead of %d elements", len(y), len(x))
		}
		for i := range x {
			if y[i].tag != "" && x[i].tag != y[i].tag {
				return fmt.Sprintf("has %s instead of %s at %d", y[i].tag, x[i].tag, i)
			}
			if y[i].isNil() && x[i].isNonNil() {
				return fmt.Sprintf("has nil instead of %s at %d", x[i].tag, i)
			}
		}
		return ""
	}
	if b.okN {
		if d := seqDiff(a.names, b.names); d != "" {
			return "colNames", "the list of column names " + d
		}
	}
	if b.okT {
		if d := seqDiff(a.types, b.types); d != "" {
			return "colTypes", "the list of column types " + d
		}
	}
	if b.index != nil && !b.index.fuzzy {
		if len(a.index.keys) != len(b.index.keys) {
			return "colNamesMap", fmt.Sprintf("the name index has %d instead of %d entries", len(b.index.keys), len(a.index.keys))
		}
		for i, k := range b.index.keys {
			if k != a.index.keys[i] || b.index.elems[i].num && !same(intOnly(b.index.elems[i]), intOnly(a.index.elems[i])) {
				return "colNamesMap", "the name index has other entries"
			}
		}
	}
	if b.okR {
		if len(a.rows) != len(b.rows) {
			return "rows", fmt.Sprintf("the table has %d instead of %d rows", len(b.rows), len(a.rows))
		}
		for k := range a.rows {
			if b.rows[k] != nil {
				if d := seqDiff(a.rows[k], b.rows[k]); d != "" {
					return "rows", fmt.Sprintf("row %d %s", k, d)
				}
			}
		}
	}
	if b.okK {
		if len(a.keys) != len(b.keys) {
			return "sortKeys", fmt.Sprintf("the table has %d instead of %d sort keys", len(b.keys), len(a.keys))
		}
		for i := range a.keys {
			x, y := a.keys[i], b.keys[i]
			if same(x, y) || len(x.flds) != len(y.flds) {
				continue
			}
			sty := r.p.Types.Scope().Lookup("sortKey").Type().Underlying().(*types.Struct)
			for j := range x.flds {
				if sty.Field(j).Name() == "colName" && y.flds[j].tag != "" && y.flds[j].tag != x.flds[j].tag ||
					sty.Field(j).Name() == "reverse" && (y.flds[j].isTrue() || y.flds[j].isFalse()) {
					return "sortKeys", fmt.Sprintf("the %s of sort key %d is changed", sty.Field(j).Name(), i)
				}
			}
		}
	}
	return
}

// nameID identifies a name: a symbol or a constant.
func nameID(v *Val) string {
	if v.tag != "" {
		if strings.Contains(v.tag, "@") {
			return ""
		}
		return v.tag
	}
	if s, ok := v.str1(); ok {
		return strconv.Quote(s)
	}
	return ""
}

// badNames reports an invalid or repeated name in a table or table set.
func (r *shapeRun) badNames(rt *Ret, o *Obj) (kind, what string) {
	st := &State{mem: rt.mem, flags: rt.flags}
	invalid := func(v *Val) string {
		if s, ok := v.str1(); ok && v.tag == "" && r.s.invalid(s) {
			return strconv.Quote(s)
		}
		return ""
	}
	if named(o.typ) == r.p.TSet {
		ts, ok := r.in.seq(st, r.field(rt, o, "tables"))
		if !ok {
			return
		}
		seen := map[string]int{}
		for i, t := range ts {
			if t.obj == nil || t.field != "" {
				continue
			}
			v := r.field(rt, t.obj, "tableName")
			if x := invalid(v); x != "" {
				return "invalid", "a table of the set is named " + x
			}
			if id := nameID(v); id != "" {
				if j, ok := seen[id]; ok {
					return "twice", fmt.Sprintf("tables %d and %d of the set are both named %s", j, i, id)
				}
				seen[id] = i
			}
		}
		return
	}
	if x := invalid(r.field(rt, o, "tableName")); x != "" {
		return "invalid", "the table is named " + x
	}
	names, ok := r.in.seq(st, r.field(rt, o, "colNames"))
	if !ok {
		return
	}
	seen := map[string]int{}
	for i, v := range names {
		if x := invalid(v); x != "" {
			return "invalid", fmt.Sprintf("column %d is named %s", i, x)
		}
		if id := nameID(v); id != "" {
			if j, ok := seen[id]; ok {
				return "twice", fmt.Sprintf("columns %d and %d are both named %s", j, i, id)
			}
			seen[id] = i
		}
	}
	return
}

func (s *shape) invalid(c string) bool {
	for _, x := range append(append([]string{}, s.strs...), s.list...) {
		if x == "="+c {
			return true
		}
	}
	return false
}

// shares reports storage of o that another table had before the call.
func (r *shapeRun) shares(rt *Ret, o *Obj, deep bool) (kind, what string) {
	st := &State{mem: rt.mem, flags: rt.flags}
	mine := func(v *Val) string {
		if v == nil || v.cont == 0 {
			return ""
		}
		if w := r.who[v.cont]; w != nil && w != o {
			return r.own[v.cont] + " of " + r.was[w]
		}
		return ""
	}
	fields := []string{"colNames", "colTypes", "colNamesMap", "rows", "sortKeys"}
	if named(o.typ) == r.p.TSet {
		fields = []string{"tables"}
	}
	for _, f := range fields {
		v := r.field(rt, o, f)
		if v.cont != 0 && v.clo == v.chi && r.own[v.cont] == f && f != "colNamesMap" {
			continue // nothing in it
		}
		if x := mine(v); x != "" {
			return f, "its " + f + " are stored in the " + x
		}
		if f == "rows" || f == "tables" {
			es, ok := r.in.seq(st, v)
			if !ok {
				continue
			}
			for k, e := range es {
				if x := mine(e); x != "" && e.clo < e.chi {
					return "row", fmt.Sprintf("its row %d is stored in %s", k, x)
				}
				if f == "tables" && e.obj != nil && o.fresh && r.was[e.obj] != "" {
					return "table", fmt.Sprintf("its table %d is %s", k, r.was[e.obj])
				}
				if deep && f == "rows" {
					cs, _ := r.in.seq(st, e)
					for j, c := range cs {
						if c.inner != nil && c.inner.obj != nil && !c.inner.obj.fresh && c.inner.tag != "" {
							return "nested", fmt.Sprintf("the nested table in column %d of its row %d is that of the original", j, k)
						}
					}
				}
			}
		}
	}
	return
}

func intOnly(v *Val) *Val {
	if k, ok := v.int1(); ok {
		return intVal(k)
	}
	return v
}

// badNames are not valid as the name of a table or column.
var badNames = []string{"", "a b", "1x", "a-b", "x]", "int", "\u00ea", "a\u00b5"}

// shapesFor enumerates the worlds of an operation.
func (p *Program) shapesFor(f *ssa.Function, tier, prop string, small bool) []*shape {
	nStr, nInt, list := 0, 0, false
	isSet := f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == p.TSet
	argTab, twoTabs := false, false
	for j, q := range f.Params {
		if isSet && j > 0 && p.isTablePtr(q.Type()) && named(q.Type()) == p.Table {
			argTab = true
		}
		if !isSet && j > 0 && p.isTablePtr(q.Type()) && named(q.Type()) == p.Table {
			twoTabs = true
		}
		switch t := q.Type().Underlying().(type) {
		case *types.Basic:
			if isString(q.Type()) {
				nStr++
			} else if t.Kind() == types.Int {
				nInt++
			}
		case *types.Slice:
			if j > 0 && (isString(t.Elem()) || isInteger(t.Elem())) {
				list = true
			}
		}
	}
	if nStr > 2 {
		nStr = 2
	}
	if nInt > 2 {
		nInt = 2
	}
	dims := [][2]int{{3, 2}}
	if prop == "C18" && tier != "thorough" {
		dims = append(dims, [2]int{2, 1}, [2]int{2, 0})
	} else if tier != "thorough" && !isSet {
		dims = append(dims, [2]int{1, 0}, [2]int{2, 1})
	}
	if tier == "thorough" {
		dims = append(dims, [2]int{4, 3}, [2]int{1, 1}, [2]int{2, 0}, [2]int{2, 1})
	}
	if small {
		dims = [][2]int{{2, 1}}
	}
	var out []*shape
	for _, d := range dims {
		var names []string
		old, other := "n", "w"
		if isSet {
			old, other = "N", "W"
		}
		for j := 0; j < d[0]; j++ {
			names = append(names, old+strconv.Itoa(j))
		}
		names = append(names, other+"0")
		var strs [][]string
		switch nStr {
		case 0:
			strs = [][]string{nil}
		case 1:
			for _, a := range names {
				strs = append(strs, []string{a})
			}
		case 2:
			for _, a := range names {
				for _, b := range append(names, other+"1") {
					strs = append(strs, []string{a, b})
				}
			}
		}
		var ints [][]int64
		top := d[0]
		if d[1] > top {
			top = d[1]
		}
		switch nInt {
		case 0:
			ints = [][]int64{nil}
		case 1:
			for a := 0; a < top; a++ {
				ints = append(ints, []int64{int64(a)})
			}
		case 2:
			for a := 0; a < top; a++ {
				for b := 0; b < top; b++ {
					ints = append(ints, []int64{int64(a), int64(b)})
				}
			}
		}
		lists := [][]string{nil}
		if list {
			var perm []string
			for j := 0; j < d[0]; j++ {
				perm = append(perm, "n@o"+strconv.Itoa(j))
			}
			rev := []string{}
			for j := d[0] - 1; j >= 0; j-- {
				rev = append(rev, "n"+strconv.Itoa(j))
			}
			rot := []string{}
			for j := 0; j < d[0]; j++ {
				rot = append(rot, "n"+strconv.Itoa((j+1)%d[0]))
			}
			lists = [][]string{perm, rev, rot, {"n0"}, {"n0", "w0"}, {"w0", "n0"}, {}}
		}
		var keys []int
		for j := 0; j < d[0]; j += 2 {
			keys = append(keys, j)
		}
		typ := "int"
		if prop == "C18" {
			typ = "*Table"
		}
		keySets := [][]int{keys}
		if prop == "C23" && len(keys) > 0 {
			// The library accepts a column as a sort key more than once.
			keySets = append(keySets, append(append([]int{}, keys...), keys[0]), []int{keys[len(keys)-1], keys[0], keys[0]})
		}
		argNames := []string{"M0"}
		if argTab {
			argNames = append(argNames, "N1")
		}
		if twoTabs {
			for _, k := range [][]int{keys, nil} {
				for _, s := range strs {
					for _, i := range ints {
						for _, l := range lists {
							out = append(out, &shape{cols: d[0], rows: d[1], strs: s, ints: i, list: l, keys: k, typ: typ, arg: "M0", like: true})
						}
					}
				}
			}
		}
		for _, an := range argNames {
			for _, s := range strs {
				for _, i := range ints {
					for _, l := range lists {
						for _, ks := range keySets {
							out = append(out, &shape{cols: d[0], rows: d[1], strs: s, ints: i, list: l, keys: ks, typ: typ, arg: an})
						}
					}
				}
			}
		}
		if prop == "C22" {
			for _, bad := range badNames {
				for k := 0; k < nStr; k++ {
					for _, nm := range names {
						ss := []string{nm, nm}[:nStr]
						ss[k] = "=" + bad
						l := lists[0]
						if list {
							l = []string{"w0", "w1"}
						}
						out = append(out, &shape{cols: d[0], rows: d[1], strs: append([]string{}, ss...), ints: ints[0], list: l, keys: keys, typ: typ, arg: "M0"})
					}
				}
				if list {
					out = append(out, &shape{cols: d[0], rows: d[1], strs: []string{other + "0", other + "1"}[:nStr], ints: ints[0], list: []string{"=" + bad, "w2"}, keys: keys, typ: typ, arg: "M0"})
					out = append(out, &shape{cols: d[0], rows: d[1], strs: []string{other + "0", other + "1"}[:nStr], ints: ints[0], list: []string{"w2", "w2"}, keys: keys, typ: typ, arg: "M0"})
				}
			}
		}
	}
	return out
}

const shapeWhat = "every method of Table and every function that returns a table is abstractly interpreted on tables of known small shape whose names, types, cells, index entries and sort keys are distinct symbols followed element by element through slices, maps, loops and calls, for every choice of name arguments among the columns and new names, of index arguments, and of lists. "

var shapeRules = map[string]string{
	"C21": shapeWhat + "On every successful outcome the receiver, table arguments and new tables must have as many types, index entries and cells per row as names, the type and cells at each position must be those of the column named there, and the index must map each name to its position.",
	"C23": shapeWhat + "On every successful outcome each sort key must name a column of its table and have a comparison.",
	"C22": shapeWhat + "In further worlds one name argument is a constant that is not a valid name, or a list repeats a name. On every successful outcome no table or column of the receiver, arguments or results may have an invalid name, no two columns of a table and no two tables of a table set may have the same name.",
	"C18": shapeWhat + "On every successful outcome no column list, type list, index, row list, row or sort key list of a new table, of the receiver or of an argument table may be a container that belonged to another table before the call; a new table set may not contain an existing table; a deep copy may not contain an existing nested table.",
	"C16": shapeWhat + "On every outcome that returns an error the names, types, index, rows, cells and sort keys of the receiver and table arguments must be those of before the call.",
}

func checkShapes(p *Program, tier, prop string) *Result {
	r := newResult(prop)
	r.Rule = shapeRules[prop]
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		use := false
		if n := f.Signature.Recv(); n != nil && (named(n.Type()) == p.Table || named(n.Type()) == p.TSet) {
			use = true
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if n := named(f.Signature.Results().At(i).Type()); n == p.Table || n == p.TSet {
				use = true
			}
		}
		if use {
			fs = append(fs, f)
		}
	}
	type job struct {
		f  *ssa.Function
		ss []*shape
	}
	var jobs []job
	for _, f := range fs {
		ss := p.shapesFor(f, tier, prop, false)
		if prop == "C02" {
			ss = p.typedShapes(f, tier)
		}
		if prop != "C22" && prop != "C02" && (len(f.Params) == 0 || !p.isTablePtr(f.Params[0].Type())) {
			ss = ss[:1] // a reader or constructor
		}
		if len(f.Params) == 0 || !p.isTablePtr(f.Params[0].Type()) {
			jobs = append(jobs, job{f, ss})
			continue
		}
		for _, s := range ss {
			jobs = append(jobs, job{f, []*shape{s}})
		}
	}
	var again sync.Map // operations analysed on smaller tables too
	p.parallel(r, len(jobs), func(ji int, r *Result) {
		f := jobs[ji].f
		for _, s := range jobs[ji].ss {
			if p.shapeJob(f, s, tier, prop, r) {
				continue
			}
			if prop == "C02" {
				break
			}
			if _, done := again.LoadOrStore(f, true); !done && len(f.Params) > 0 && p.isTablePtr(f.Params[0].Type()) {
				for _, s := range p.shapesFor(f, tier, prop, true) {
					p.shapeJob(f, s, tier, prop, r)
				}
			}
			break
		}
	})
	if prop == "C22" {
		p.namesParse(r)
	}
	r.count("operations", len(fs))
	return r
}

// shapeJob analyses one operation in one world (false: too large).
func (p *Program) shapeJob(f *ssa.Function, s *shape, tier, prop string, r *Result) bool {
	name := shortName(f)
	sr := p.shapeWorld(f, s)
	sr.in.limit = 40000
	if tier == "thorough" {
		sr.in.limit = 400000
	}
	rets := sr.in.Run(f, sr.args, nil, sr.heap, nil)
	r.count("worlds", 1)
	if sr.in.over {
		r.count("worlds abandoned (too large)", 1)
		return false
	}
	if sr.in.undecided {
		r.count("worlds whose constant name is not decided", 1)
		return true
	}
	bad := ""
	for k := range rets {
		rt := &rets[k]
		if sr.in.heapOf(rt.flags).lost {
			r.count("outcomes not followed", 1)
			continue
		}
		failed := nonNilErr(rt.vals, f.Signature)
		objs := append(append([]*Obj{}, sr.tabs...), sr.sets...)
		nOld := len(objs)
		if !failed {
			for _, v := range rt.vals {
				if v.obj != nil && v.obj.fresh && v.field == "" && (named(v.obj.typ) == p.Table || named(v.obj.typ) == p.TSet) {
					objs = append(objs, v.obj)
				}
			}
		}
		for j, o := range objs {
			which := sr.was[o]
			if j >= nOld {
				which = "the new table"
			}
			isSet := named(o.typ) == p.TSet
			kind, what := "", ""
			switch {
			case prop == "C02" && !failed:
				kind, what = sr.cellTypes(rt, o, fillsZero(f))
			case prop == "C22" && !failed:
				kind, what = sr.badNames(rt, o)
			case prop == "C18" && !failed:
				kind, what = sr.shares(rt, o, f.Name() == "CopyDeep")
			case isSet && prop != "C16":
			case prop == "C21" && !failed:
				kind, what = sr.content(rt, o).inStep()
			case prop == "C23" && !failed:
				kind, what = sr.content(rt, o).keysRefer(p)
			case prop == "C16" && failed && j < nOld:
				kind, what = sr.differs(rt, o)
			}
			r.oblig(kind == "")
			if kind != "" && bad == "" {
				bad = kind
				when := "succeeds"
				if failed {
					when = "fails"
				}
				r.add(fmt.Sprintf("%s|%s", kind, name), p.at(f.Pos()), "", "when %s %s, in %s %s (%s)", name, when, which, what, s)
			}
		}
	}
	return true
}
