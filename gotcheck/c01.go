package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

const (
	LCell Label = 1 << iota
	LColType
	LInput
	LVal
	LErr
	LKey
	LName
)

const flagCellWrite = 1

type accessor struct {
	fn      *ssa.Function
	getter  bool
	byIndex bool
	must    bool
	nominal string
}

// nominalTypes maps the type part of an accessor name to a column type.
func nominalType(x string) string {
	switch x {
	case "ByteSlice":
		return "[]byte"
	case "Uint8Slice":
		return "[]uint8"
	case "Time":
		return "time.Time"
	case "Table":
		return "*Table"
	case "Bool", "Byte", "Float32", "Float64", "Int", "Int16", "Int32", "Int64", "Int8", "Rune", "String", "Uint", "Uint16", "Uint32", "Uint64", "Uint8":
		return strings.ToLower(x)
	}
	return ""
}

// accessors finds the typed accessor methods of *Table by name and signature.
func (p *Program) accessors() []accessor {
	var out []accessor
	for _, f := range p.Exported() {
		if f.Signature.Recv() == nil || named(f.Signature.Recv().Type()) != p.Table {
			continue
		}
		n := f.Name()
		a := accessor{fn: f}
		switch {
		case strings.HasPrefix(n, "Get"):
			a.getter = true
			n = n[3:]
		case strings.HasPrefix(n, "Set"):
			n = n[3:]
		default:
			continue
		}
		for _, suf := range []string{"MustGet", "MustSet"} {
			if strings.HasSuffix(n, suf) {
				a.must = true
				n = strings.TrimSuffix(n, suf)
			}
		}
		if strings.HasSuffix(n, "ByColIndex") {
			a.byIndex = true
			n = strings.TrimSuffix(n, "ByColIndex")
		}
		a.nominal = nominalType(n)
		if a.nominal == "" {
			continue
		}
		want := 3
		if !a.getter {
			want = 4
		}
		if len(f.Params) != want {
			continue
		}
		out = append(out, a)
	}
	return out
}

func (p *Program) isRowType(t types.Type) bool {
	n := named(t)
	if n != nil && n.Obj().Pkg() == p.Types && n.Obj().Name() == "tableRow" {
		return true
	}
	return false
}

// cellAddr: the address is that of a cell.
func (p *Program) cellAddr(v ssa.Value) *ssa.IndexAddr {
	ia, ok := v.(*ssa.IndexAddr)
	if ok && p.isRowType(ia.X.Type()) {
		return ia
	}
	return nil
}

// typeWorld is the world in which every column has type T.
func (p *Program) typeWorld(T string) *World {
	return &World{Name: "every column is " + T, ColType: strVal(T), CellType: p.goType(T), CellLab: LCell, TypeLab: LColType}
}

func (p *Program) recv() *Obj { return &Obj{id: "recv", typ: p.Table} }

func ptrTo(o *Obj) *Val { return &Val{nilb: mayNon, obj: o, ty: named(o.typ)} }

func checkC01(p *Program, tier string) *Result {
	r := newResult("C01")
	r.Rule = "for every typed accessor and every column type T, the accessor is abstractly interpreted (SSA, interprocedurally) under the assumption that all columns are declared T: success must be reachable exactly when T is the accessor's type or alias, the transferred value must be the addressed cell itself (getter) or the argument itself with the accessor's dynamic type (setter), the row and column used must be the arguments, and the failing outcomes must not have written a cell."
	r.NotCovered = "index range checks (C12), nil receivers (C11)."
	r.Assume = []string{"SSA construction by golang.org/x/tools/go/ssa is faithful", "cells already hold the declared Go type (C02)"}
	acc := p.accessors()
	r.count("accessors", len(acc))
	if len(acc) < 100 {
		r.add("anchor|accessors", "helpers.go", "", "only %d typed accessors found", len(acc))
	}
	have := map[string]bool{}
	for _, a := range acc {
		have[fmt.Sprint(a.getter, a.byIndex, a.must, a.nominal)] = true
	}
	p.parallel(r, len(acc), func(k int, r *Result) {
		for _, T := range p.Types20 {
			p.checkAccessor(r, acc[k], T)
		}
	})
	for _, T := range p.Types20 {
		for _, g := range []bool{true, false} {
			for _, b := range []bool{true, false} {
				for _, m := range []bool{true, false} {
					ok := have[fmt.Sprint(g, b, m, T)]
					r.oblig(ok)
					if !ok {
						r.add(fmt.Sprintf("missing|getter=%v|byIndex=%v|must=%v|%s", g, b, m, T), "helpers.go", "", "no accessor for column type %s", T)
					}
				}
			}
		}
	}
	return r
}

func (p *Program) checkAccessor(r *Result, a accessor, T string) {
	w := p.typeWorld(T)
	gt := p.goType(T)
	nt := p.goType(a.nominal)
	expect := types.Identical(gt, nt)
	inner := withTag(&Val{nilb: mayNon, lab: LCell}, "cell")
	w.Cells = &Val{nilb: mayNon, dyn: gt, inner: inner, lab: LCell, tag: "cell"}
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		if st == p.Table && field == "isNilTable" {
			return FalseVal
		}
		if st == p.Table && field == "colNamesMap" {
			return &Val{nilb: mayNon, elem: withTag(rangeVal(Bound{}, posInf), "colOf")}
		}
		return nil
	}
	flag := func(addr *Val, st *ssa.Store) uint64 {
		if p.cellAddr(st.Addr) != nil {
			return flagCellWrite
		}
		return 0
	}
	w.FlagStore = flag
	in := NewInterp(p, w)
	recv := in.obj("recv", false, p.Table, nil)
	args := []*Val{ptrTo(recv)}
	if a.byIndex {
		args = append(args, withTag(NonNil, "col"))
	} else {
		args = append(args, withTag(NonNil, "colName"))
	}
	args = append(args, withTag(NonNil, "row"))
	if !a.getter {
		v := withTag(&Val{nilb: mayNon, lab: LVal}, "val")
		if pt, ok := nt.(*types.Pointer); ok {
			c := v.dup()
			c.obj = in.obj("argtable", false, pt.Elem(), nil)
			v = &c
		}
		args = append(args, v)
	}
	name := a.fn.Name()
	key := func(rule string) string { return fmt.Sprintf("%s|%s|%s", rule, name, T) }
	bad := 0
	where := p.at(a.fn.Pos())
	fail := func(rule, wh, path, f string, x ...interface{}) {
		bad++
		r.add(key(rule), wh, path, "in a world where the column has type %s: %s", T, fmt.Sprintf(f, x...))
	}
	obs := func(ev *Event) {
		switch i := ev.Instr.(type) {
		case *ssa.TypeAssert:
			x := ev.Val(i.X)
			if x.lab&LCell != 0 && !i.CommaOk && assertHolds(x, i.AssertedType) < 0 {
				fail("assert", p.posOf(i), in.pathString(), "%s asserts the cell to be %s", name, i.AssertedType)
			}
		case *ssa.Store:
			if ia := p.cellAddr(i.Addr); ia != nil && !a.getter {
				v := ev.Val(i.Val)
				if v.dyn == nil || !types.Identical(v.dyn, gt) {
					fail("stored-type", p.posOf(i), in.pathString(), "%s stores a value that is not a %s", name, gt)
				} else if v.inner == nil || v.inner.tag != "val" {
					fail("stored-value", p.posOf(i), in.pathString(), "%s stores something other than its argument", name)
				}
			} else if ia != nil {
				fail("getter-writes", p.posOf(i), in.pathString(), "%s writes a cell", name)
			}
		case *ssa.IndexAddr:
			xt := i.X.Type()
			if p.isRowType(xt) {
				t := ev.Val(i.Index).tag
				if a.byIndex && t != "col" || !a.byIndex && t != "colOf" {
					fail("column", p.posOf(i), in.pathString(), "%s addresses a column other than the one asked for", name)
				}
			} else if sl, ok := xt.Underlying().(*types.Slice); ok && p.isRowType(sl.Elem()) {
				if t := ev.Val(i.Index).tag; t != "row" {
					fail("row", p.posOf(i), in.pathString(), "%s addresses a row other than the one asked for", name)
				}
			}
		case *ssa.Lookup:
			if mt, ok := i.X.Type().Underlying().(*types.Map); ok && types.Identical(mt.Elem(), types.Typ[types.Int]) && ev.Val(i.X).elem != nil && ev.Val(i.X).elem.tag == "colOf" {
				if ev.Val(i.Index).tag != "colName" {
					fail("name", p.posOf(i), in.pathString(), "%s looks up a column other than the one named", name)
				}
			}
		}
	}
	rets := in.Run(a.fn, args, nil, 0, obs)
	if in.over {
		r.add(key("budget"), where, "", "analysis budget exceeded")
		return
	}
	success, good := false, true
	for _, rt := range rets {
		ok := true
		hasErr := false
		if n := len(rt.vals); n > 0 && isErrorType(a.fn.Signature.Results().At(n-1).Type()) {
			hasErr = true
			e := rt.vals[n-1]
			if e.isNonNil() {
				ok = false
			} else if !e.isNil() {
				// undetermined error: treat as possible success
				ok = true
			}
		}
		_ = hasErr
		if ok {
			success = true
			if a.getter {
				if rt.vals[0].tag != "cell" {
					good = false
				}
			} else if rt.flags&flagCellWrite == 0 {
				good = false
			}
		} else if rt.flags&flagCellWrite != 0 {
			fail("write-on-error", where, "", "%s can return an error after writing the cell", name)
		}
	}
	if expect && !success {
		fail("rejects", where, "", "%s can never succeed on a column of its own type", name)
	}
	if !expect && success {
		fail("accepts", where, "", "%s can succeed on a column of another type", name)
	}
	if expect && success && !good {
		fail("transfer", where, "", "%s can report success without transferring the addressed cell", name)
	}
	r.oblig(bad == 0)
	if len(r.Samples) < 4 {
		r.sample(fmt.Sprintf("%s with column type %s: success reachable=%v (expected %v)", name, T, success, expect))
	}
}
