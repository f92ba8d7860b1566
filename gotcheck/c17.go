package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

// mutates: the operation's documented purpose is to change its receiver.
func mutates(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := f.Name()
	for _, p := range []string{"Set", "Append", "Delete", "Rename", "Swap", "Reorder", "OrderCols", "Reverse", "Shuffle", "SortSimple", "Nest"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return n == "Sort"
}

func writtenField(i ssa.Instruction) string {
	switch i := i.(type) {
	case *ssa.Store:
		a := i.Addr
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				return fieldName(x)
			case *ssa.IndexAddr:
				if u, ok := x.X.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.FieldAddr); ok {
						a = u.X
						continue
					}
				}
				return "element"
			}
			return "content"
		}
	}
	return "content"
}

func checkC17(p *Program, tier string) *Result {
	r := newResult("C17")
	r.Rule = "every exported function and method is abstractly interpreted with every reference to the storage of each table or table set argument labelled (rows, columns, index, keys, nested tables, transitively). No store, map update, delete, in-place append, copy or in-place sort reachable from it may have a labelled target, except in the receiver of operations whose purpose is to change it and the parent link of a table that is being nested."
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		for _, q := range f.Params {
			if p.isTablePtr(q.Type()) {
				fs = append(fs, f)
				break
			}
		}
	}
	p.parallel(r, len(fs), func(k int, r *Result) {
		f := fs[k]
		name := shortName(f)
		var free Label
		if mutates(f) {
			free = LRef0
		}
		w := &World{Name: "refs"}
		in := NewInterp(p, w)
		bad := 0
		report := false
		w.OnWrite = func(st *State, t *Val, i ssa.Instruction) {
			if !report || t.lab&LRefMask&^free == 0 {
				return
			}
			fld := writtenField(i)
			if fld == "parentTable" {
				return
			}
			bad++
			j := 0
			for ; t.lab&^free&(LRef0<<uint(j)) == 0; j++ {
			}
			r.add(fmt.Sprintf("write|%s|%s|%s", name, f.Params[j].Name(), fld), p.posOf(i), in.pathString(), "%s can modify %s of its argument %s in %s", name, fld, f.Params[j].Name(), shortName(i.Parent()))
		}
		args := in.refArgs(f)
		a := in.activation(f, args, nil, Mem{}, 0)
		report = true
		in.obs = func(ev *Event) {}
		in.done = map[string]bool{}
		in.reportAct(a)
		if in.over {
			r.Unknown = append(r.Unknown, name)
		}
		r.oblig(bad == 0)
	})
	r.count("operations with table arguments", len(fs))
	return r
}
