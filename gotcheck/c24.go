package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// C24: every operation is followed on tables nested in one another.  A world
// is a graph: table k has a column of nested tables whose cells hold table
// next[k] (or the nil table).

func init() { checks["C24"] = checkC24 }

type nesting struct {
	name   string
	next   []int // table nested in table k (-1: nil table)
	cyclic bool
}

var nestings = []nesting{
	{"a nil table in a cell", []int{-1}, false},
	{"one level of nesting", []int{1, -1}, false},
	{"two levels of nesting", []int{1, 2, -1}, false},
	{"three levels of nesting", []int{1, 2, 3, -1}, false},
	{"a table nested in itself", []int{0}, true},
	{"two tables nested in each other", []int{1, 0}, true},
	{"three tables nested in one another", []int{1, 2, 0}, true},
	{"a table that holds one nested in itself", []int{1, 1}, true},
	{"a table that holds two nested in each other", []int{1, 2, 1}, true},
}

type nestJob struct {
	f    *ssa.Function
	g    nesting
	late bool // the nested table is in the last row and column
	self bool // a second table argument is the same table
}

func (j nestJob) String() string {
	s := j.g.name
	if j.late {
		s += ", in the second row and third column"
	}
	if j.self {
		s += ", given twice"
	}
	return s
}

type nestResult struct {
	visited bool // the rows of a table two levels down were read
	deep    string
	where   string
	ok      bool // an outcome without error
	fail    bool // an outcome with an error
	silent  bool // an outcome without error that was followed
	over    bool
}

// nestRun analyses one operation on one nesting.
func (p *Program) nestRun(jb nestJob) (res nestResult) {
	f, g := jb.f, jb.g
	r := p.rtNew(rtWorld{form: "json", typ: "int"})
	r.in.limit = 60000
	r.w.MaxRec = 2*len(g.next) + 2
	nested := map[*Obj]bool{}
	graph := func(id string) *Obj {
		var os []*Obj
		for k := range g.next {
			os = append(os, r.in.obj(fmt.Sprintf("%s.%d", id, k), false, p.Table, nil))
		}
		for k, o := range os {
			pre := "T" + strconv.Itoa(k)
			m := map[string]*Val{"isStructShape": FalseVal, "isNilTable": FalseVal, "tableName": {nilb: mayNon, tag: "N" + pre}, "parentTable": NilVal}
			for j, t := range g.next {
				if t == k && (j != k || k > 0) {
					m["parentTable"] = ptrTo(os[j])
				}
			}
			cols := []string{"*Table", "int"}
			rows := []bool{true}
			if jb.late {
				cols, rows = []string{"int", "string", "*Table"}, []bool{false, true}
			}
			var ns, ts, rs []*Val
			im := &heapArr{isMap: true}
			for j, c := range cols {
				n := fmt.Sprintf("n%s%d", pre, j)
				ns, ts = append(ns, &Val{nilb: mayNon, tag: n}), append(ts, strVal(c))
				im.keys, im.elems = append(im.keys, "T"+n), append(im.elems, intVal(int64(j)))
			}
			for i, full := range rows {
				var cs []*Val
				for j, c := range cols {
					var x *Val
					switch {
					case c == "*Table" && full && g.next[k] >= 0:
						x = ptrTo(os[g.next[k]])
					case c == "*Table":
						x = ptrTo(r.build(&rtTable{nilTable: true}, fmt.Sprintf("%s.nil%d.%d.%d", id, k, i, j)))
					default:
						x = r.symbol(fmt.Sprintf("q%s%d_%d", pre, i, j), c)
					}
					cs = append(cs, &Val{nilb: mayNon, dyn: p.goType(c), inner: x})
				}
				rs = append(rs, r.list(cs))
			}
			m["colNames"], m["colTypes"], m["rows"], m["sortKeys"] = r.list(ns), r.list(ts), r.list(rs), r.list(nil)
			m["colNamesMap"] = &Val{nilb: mayNon, cont: r.in.newCont(r.st, im), lab: LTracked}
			r.init[o] = m
			if k > 1 {
				nested[o] = true
			}
		}
		return os[0]
	}
	var args []*Val
	var first *Obj
	n := 0
	table := func() *Val {
		if first != nil && jb.self {
			return ptrTo(first)
		}
		o := graph("g" + strconv.Itoa(n))
		n++
		if first == nil {
			first = o
		}
		return ptrTo(o)
	}
	for k, q := range f.Params {
		switch {
		case p.isTablePtr(q.Type()) && named(q.Type().Underlying().(*types.Pointer).Elem()) == p.Table:
			args = append(args, table())
		case p.isTablePtr(q.Type()):
			o := r.in.obj("set"+strconv.Itoa(k), false, p.TSet, nil)
			r.init[o] = map[string]*Val{"tableSetName": {nilb: mayNon, tag: setName}, "fileName": {nilb: mayNon, tag: "F0"}, "tables": r.list([]*Val{table()})}
			args = append(args, ptrTo(o))
		case types.Identical(q.Type().Underlying(), types.Typ[types.Bool]):
			args = append(args, TrueVal)
		case isInteger(q.Type()):
			args = append(args, intVal(0))
		default:
			if _, ok := q.Type().Underlying().(*types.Signature); ok {
				args = append(args, NilVal)
			} else if _, ok := q.Type().Underlying().(*types.Map); ok {
				args = append(args, NilVal)
			} else {
				args = append(args, r.in.argFor("arg"+strconv.Itoa(k), q.Type()))
			}
		}
	}
	r.w.OnRec = func(in *Interp, callee *ssa.Function, st *State) {
		if res.deep == "" && !in.heapOf(st.flags).lost {
			res.deep, res.where = shortName(callee), p.at(callee.Pos())
		}
	}
	inner := r.w.Field
	r.w.Field = func(o *Obj, n *types.Named, field string) *Val {
		if nested[o] && n == p.Table && field == "rows" && len(r.in.stack) > 0 {
			res.visited = true
		}
		return inner(o, n, field)
	}
	r.w.HeapTop = r.in.heapOf(r.st.flags).next() - 1
	res.visited = false
	rets := r.in.Run(f, args, nil, r.st.flags, nil)
	res.over = r.in.over
	res.visited = res.visited && !res.over
	sig := f.Signature.Results()
	hasErr := sig.Len() > 0 && isErrorType(sig.At(sig.Len()-1).Type())
	for k := range rets {
		rt := &rets[k]
		lost := r.in.heapOf(rt.flags).lost
		if hasErr && !rt.vals[sig.Len()-1].isNil() {
			res.fail = true
		}
		if !hasErr || !rt.vals[sig.Len()-1].isNonNil() {
			res.ok = true
			if hasErr && !lost {
				res.silent = true
			}
		}
	}
	return
}

func checkC24(p *Program, tier string) *Result {
	r := newResult("C24")
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		for _, q := range f.Params {
			if p.isTablePtr(q.Type()) {
				fs = append(fs, f)
				break
			}
		}
	}
	p.parallel(r, len(fs), func(k int, r *Result) {
		f := fs[k]
		name := shortName(f)
		for _, late := range []bool{false, true} {
			base, descends := map[bool]bool{}, map[bool]bool{}
			for _, g := range nestings {
				for _, self := range []bool{false, true} {
					tabs := 0
					for _, q := range f.Params {
						if p.isTablePtr(q.Type()) {
							tabs++
						}
					}
					if self && tabs < 2 {
						continue
					}
					jb := nestJob{f, g, late, self}
					res := p.nestRun(jb)
					r.count("worlds", 1)
					if debugInterp {
						fmt.Printf("NEST %s | %s | %+v\n", name, jb, res)
					}
					if len(g.next) == 1 && !g.cyclic {
						base[self] = res.ok
					}
					if !g.cyclic && res.visited {
						descends[self] = true
					}
					if res.over {
						r.count("worlds abandoned (too large)", 1)
					}
					bad := false
					switch {
					case res.deep != "":
						bad = true
						r.add("recursion|"+name, res.where, "", "given %s, %s calls %s again and again without end", jb, name, res.deep)
					case g.cyclic && descends[self] && res.silent && !res.over:
						bad = true
						r.add("silent|"+name, p.at(f.Pos()), "", "given %s, %s descends into nested tables and succeeds", jb, name)
					case !g.cyclic && base[self] && !res.ok && !res.over:
						bad = true
						r.add("refused|"+name, p.at(f.Pos()), "", "%s succeeds on a table without nested tables but not given %s", name, jb)
					}
					if g.cyclic && descends[self] {
						r.count("worlds in which a descent meets a table again", 1)
					}
					r.oblig(!bad)
				}
			}
		}
	})
	r.count("operations", len(fs))
	return r
}
