package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: shape worlds whose columns have given types and whose cells are values
// of these types.

func init() {
	checks["C02"] = func(p *Program, tier string) *Result {
		r := checkShapes(p, tier, "C02")
		ws := p.rtWorlds("C02", tier)
		p.parallel(r, len(ws), func(i int, r *Result) { p.rtJob(ws[i], tier, r) })
		return withDocs(p, r, tier)
	}
	shapeRules["C02"] = "every method of Table and every function that returns a table is abstractly interpreted on small tables of each column type, element by element, with name, type and index arguments from a representative set, and with values of each type and nil for arguments of interface type. On every successful outcome every cell of the receiver, table arguments and new tables must hold a non-nil value whose dynamic type is that of its column; a cell that is neither an old cell nor an argument must not be known to be other than the zero value. The same holds of every table read from JSON, YAML or text, for tables of each column type."
}

// typedCell is a cell of a column type.
func (r *shapeRun) typedCell(tag, tn string, list func([]*Val) *Val) *Val {
	gt := r.p.goType(tn)
	if gt == nil {
		return &Val{nilb: mayNon, tag: tag}
	}
	x := &Val{nilb: mayNon, tag: tag}
	switch gt.Underlying().(type) {
	case *types.Pointer:
		x.obj = r.in.obj(tag, false, r.p.Table, nil)
	case *types.Slice:
		x = withTag(list([]*Val{Top}), tag)
	case *types.Basic:
		x = withTag(r.in.topOf(gt), tag)
	}
	return &Val{nilb: mayNon, tag: tag, dyn: gt, inner: x}
}

func (r *shapeRun) ifcVal(list func([]*Val) *Val) *Val {
	switch r.s.ifc {
	case "nil":
		return NilVal
	case "nil *Table":
		return &Val{nilb: mayNon, dyn: types.NewPointer(r.p.Table), inner: NilVal, tag: "ifc"}
	case "struct{}":
		return &Val{nilb: mayNon, dyn: types.NewStruct(nil, nil), tag: "ifc"}
	}
	return r.typedCell("ifc", r.s.ifc, list)
}

// typeVerb is the text of a type as %T writes it.
func typeVerb(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()].Name()
	}
	switch u := t.(type) {
	case *types.Alias:
		return typeVerb(types.Unalias(u))
	case *types.Slice:
		return "[]" + typeVerb(u.Elem())
	case *types.Pointer:
		return "*" + typeVerb(u.Elem())
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sr02call: fmt.Sprintf("%T", x) and the like.
func sr02call(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool) {
	switch extName(f) {
	case "fmt.Sprintf":
		if s, ok := args[0].str1(); ok && s == "%T" && len(args) > 1 {
			if es, ok := in.seq(st, args[1]); ok && len(es) == 1 && es[0].dyn != nil {
				return []Ret{{vals: []*Val{strVal(typeVerb(es[0].dyn))}, mem: st.mem, flags: st.flags}}, true
			}
		}
	}
	return nil, false
}

// fillsZero: the operation makes new cells with the zero value.
func fillsZero(f *ssa.Function) bool {
	n := f.Name()
	return strings.HasPrefix(n, "AppendRow") && !strings.Contains(n, "From") && !strings.Contains(n, "Map") || strings.HasPrefix(n, "AppendCol") && !strings.Contains(n, "From") || strings.Contains(n, "ZeroValue")
}

// cellTypes reports a cell that does not hold a value of the type of its column.
func (r *shapeRun) cellTypes(rt *Ret, o *Obj, zeroes bool) (kind, what string) {
	if named(o.typ) == r.p.TSet {
		st := &State{mem: rt.mem, flags: rt.flags}
		ts, ok := r.in.seq(st, r.field(rt, o, "tables"))
		for k, t := range ts {
			if ok && t.obj != nil && t.field == "" {
				if kind, what := r.cellTypes(rt, t.obj, zeroes); kind != "" {
					return kind, fmt.Sprintf("table %d: %s", k, what)
				}
			}
		}
		return
	}
	c := r.content(rt, o)
	if !c.okT || !c.okR {
		return
	}
	for k, row := range c.rows {
		for j, v := range row {
			if j >= len(c.types) {
				break
			}
			where := fmt.Sprintf("the cell of column %d in row %d", j, k)
			if v.isNil() {
				return "nil", where + " is nil"
			}
			tn, ok := c.types[j].str1()
			if !ok {
				continue
			}
			gt := r.p.goType(tn)
			if gt == nil {
				return "type", fmt.Sprintf("column %d has type %q, which is not a column type", j, tn)
			}
			if v.dyn == nil {
				continue
			}
			if !types.Identical(v.dyn, gt) {
				return "celltype", fmt.Sprintf("%s holds a value of type %s, while the type of the column is %s", where, typeVerb(v.dyn), tn)
			}
			x := v.inner
			if x == nil {
				continue
			}
			if _, ok := gt.Underlying().(*types.Pointer); ok && x.isNil() {
				return "nil", where + " holds a nil table"
			}
			if zeroes && v.tag == "" && x.tag == "" {
				if n, ok := x.int1(); ok && n != 0 {
					return "zero", fmt.Sprintf("%s has been set to %d", where, n)
				}
				if s, ok := x.str1(); ok && isString(gt) && s != "" {
					return "zero", fmt.Sprintf("%s has been set to %q", where, s)
				}
				if isString(gt) {
					continue
				}
				if b, ok := gt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && x.isTrue() {
					return "zero", where + " has been set to true"
				}
			}
		}
	}
	return
}

// typedShapes enumerates the worlds of an operation for C02.
func (p *Program) typedShapes(f *ssa.Function, tier string) []*shape {
	nStr, nInt, list, ifc, tabs := 0, 0, false, false, 0
	for j, q := range f.Params {
		if p.isTablePtr(q.Type()) {
			tabs++
		}
		switch t := q.Type().Underlying().(type) {
		case *types.Basic:
			if isString(q.Type()) {
				nStr++
			} else if t.Kind() == types.Int {
				nInt++
			}
		case *types.Interface:
			ifc = ifc || t.NumMethods() == 0
		case *types.Slice:
			if j > 0 && (isString(t.Elem()) || isInteger(t.Elem())) {
				list = true
			}
			if i, ok := t.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				ifc = true
			}
		}
	}
	isSet := f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == p.TSet
	all := p.colTypeUniverse()
	old, other := "n", "w"
	if isSet {
		old, other = "N", "W"
	}
	var out []*shape
	for ti, T := range all {
		U := all[(ti+1)%len(all)]
		if types.Identical(p.goType(T), p.goType(U)) {
			U = all[(ti+2)%len(all)]
		}
		strs := [][]string{nil}
		if nStr > 0 {
			strs = [][]string{{old + "0"}, {old + "1"}, {other + "0"}}
		}
		if nStr > 1 {
			strs = nil
			for _, a := range []string{old + "0", old + "1", other + "0"} {
				for _, b := range []string{old + "1", other + "1", "=" + T} {
					strs = append(strs, []string{a, b})
				}
			}
		}
		ints := [][]int64{nil}
		if nInt == 1 {
			ints = [][]int64{{0}, {1}}
		} else if nInt > 1 {
			ints = [][]int64{{0, 0}, {0, 1}, {1, 0}, {1, 1}}
		}
		lists := [][]string{nil}
		if list {
			lists = [][]string{{old + "1", old + "0"}, {other + "0", other + "1"}, {"=" + T, "=" + U}}
		}
		vals := []string{""}
		if ifc {
			vals = append([]string{"nil", "nil *Table", "struct{}"}, all...)
		}
		for _, s := range strs {
			for _, i := range ints {
				for _, l := range lists {
					for _, v := range vals {
						out = append(out, &shape{cols: 2, rows: 2, strs: s, ints: i, list: l, typed: []string{T, U}, ifc: v, typ: T, arg: "M0"})
						if tabs > 1 && !isSet {
							out = append(out, &shape{cols: 2, rows: 2, strs: s, ints: i, list: l, typed: []string{T, U}, ifc: v, typ: T, arg: "M0", like: true})
						}
					}
				}
			}
		}
	}
	return out
}
