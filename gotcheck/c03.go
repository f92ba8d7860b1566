package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// populated is the world in which every column has type T and every table
// has at least one row and one column.
func (p *Program) populated(T string) (*World, *Interp) {
	w := p.typeWorld(T)
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		if st == p.Table && field == "isNilTable" {
			return FalseVal
		}
		return nil
	}
	in := NewInterp(p, w)
	p.countSyms(w, in, nil, true)
	return w, in
}

func (in *Interp) genericArgs(f *ssa.Function) []*Val {
	var args []*Val
	for j, q := range f.Params {
		args = append(args, in.argFor(fmt.Sprintf("arg%d", j), q.Type()))
	}
	return args
}

func succeeds(f *ssa.Function, rt Ret) bool {
	n := len(rt.vals)
	if n == 0 {
		return true
	}
	if !isErrorType(f.Signature.Results().At(n - 1).Type()) {
		return true
	}
	return !rt.vals[n-1].isNonNil()
}

func (p *Program) tableFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		for _, q := range f.Params {
			if p.isTablePtr(q.Type()) {
				fs = append(fs, f)
				break
			}
		}
	}
	return fs
}

// C03: no operation on tables reaches the default of a dispatch over the
// column types.

func init() {
	checks["C03"] = func(p *Program, tier string) *Result {
		r := checkRoundTrip(p, tier, "C03")
		p.checkDispatches(r)
		return r
	}
}

const dispRule = " Every exported function of tables and table sets is abstractly interpreted, interprocedurally, in the world in which every column is of type T and every cell holds a T, for each of the 20 column types T: it must not reach the default branch of a dispatch over column types (a chain of twelve or more comparisons with names of column types, or assertions of their Go types) that makes an error or panics. Every function that takes a column and a value must be able to accept a value of the type of the column."

// fails: the branch makes an error or panics.
func failsAt(b *ssa.BasicBlock) bool {
	for _, d := range b.Parent().Blocks {
		if !b.Dominates(d) {
			continue
		}
		for _, i := range d.Instrs {
			switch i := i.(type) {
			case *ssa.Panic:
				return true
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil && f.Pkg != nil {
					switch f.Pkg.Pkg.Path() + "." + f.Name() {
					case "fmt.Errorf", "errors.New":
						return true
					}
				}
			}
		}
	}
	return false
}

func (p *Program) checkDispatches(r *Result) {
	r.Rule += dispRule
	at := map[ssa.Instruction]*dispatch{}
	for _, f := range p.Funcs {
		for _, d := range p.dispatches(f) {
			last := d.ifs[len(d.ifs)-1]
			if len(d.ifs) >= 12 && failsAt(last.Block().Succs[1]) {
				at[last] = d
			}
		}
	}
	r.count("dispatches over column types", len(at))
	fs := p.typedOps()
	r.count("operations followed for each column type", len(fs))
	p.parallel(r, len(fs), func(k int, r *Result) {
		f := fs[k]
		for _, T := range p.Types20 {
			w, in := p.populated(T)
			w.TypeName = T
			w.OnCall = typeTexts
			bad := map[*dispatch]bool{}
			rets := in.Run(f, p.typedArgs(in, f, T), nil, 0, func(ev *Event) {
				if d := at[ev.Instr]; d != nil && ev.Val(d.ifs[len(d.ifs)-1].Cond).isFalse() {
					bad[d] = true
				}
			})
			if in.over {
				r.count("operations abandoned (too large)", 1)
			}
			r.oblig(len(bad) == 0)
			for d := range bad {
				r.add("default|"+shortName(d.fn)+"|"+T, p.posOf(d.first), "", "%s reaches the default of the dispatch over column types in %s on a table with columns of type %s", shortName(f), shortName(d.fn), T)
			}
			if !takesCell(f) || in.over {
				continue
			}
			ok := false
			for _, rt := range rets {
				ok = ok || succeeds(f, rt) && !(len(rt.vals) > 1 && rt.vals[0].isFalse())
			}
			r.oblig(ok)
			if !ok {
				r.add("refuses|"+shortName(f)+"|"+T, p.at(f.Pos()), "", "%s refuses every value of type %s for a column of type %s", shortName(f), T, T)
			}
		}
	})
}

// typedOps are the exported functions and methods with tables or sets.
func (p *Program) typedOps() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		for _, q := range f.Params {
			if p.isTablePtr(q.Type()) || p.pkgStruct(q.Type()) != nil || isSetPtr(q.Type()) {
				fs = append(fs, f)
				break
			}
		}
	}
	return fs
}

func isSetPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == "TableSet"
}

// takesCell: a column, by name or index, and a value of it.
func takesCell(f *ssa.Function) bool {
	n := len(f.Params)
	return n >= 3 && isAny(f.Params[n-1].Type())
}

// typedArgs are arguments of any value, but values of the columns are of type T.
func (p *Program) typedArgs(in *Interp, f *ssa.Function, T string) []*Val {
	args := in.genericArgs(f)
	for j, q := range f.Params {
		if !isAny(q.Type()) {
			continue
		}
		t := p.goType(T)
		args[j] = ifaceOf(t, &Val{nilb: mayNon})
		if pt, ok := t.(*types.Pointer); ok {
			args[j] = ifaceOf(t, ptrTo(&Obj{id: fmt.Sprintf("arg%d.cell", j), typ: named(pt.Elem())}))
		}
	}
	return args
}

// typeTexts: fmt.Sprintf("%T", x) and reflect.TypeOf(x), where the type of x
// is known.
func typeTexts(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool) {
	ret := func(v *Val) ([]Ret, bool) {
		return []Ret{{vals: []*Val{v}, mem: st.mem, flags: st.flags}}, true
	}
	switch extName(f) {
	case "fmt.Sprintf":
		if s, ok := args[0].str1(); ok && s == "%T" {
			if x := variadic(i.Common().Args[1]); x != nil {
				if v := in.eval(a, st, x); v.dyn != nil {
					return ret(strVal(typeVerb(v.dyn)))
				}
			}
		}
	case "reflect.TypeOf":
		if t := args[0].dyn; t != nil {
			s, n := typeVerb(t), ""
			switch types.Unalias(t).(type) {
			case *types.Named, *types.Basic:
				n = s[strings.LastIndexByte(s, '.')+1:]
			}
			return ret(&Val{nilb: mayNon, tag: "rtype:" + s + "|" + n})
		}
	}
	return nil, false
}

// variadic is the only value of a list of arguments.
func variadic(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var x ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				if x != nil {
					return nil
				}
				x = s.Val
				if mi, ok := x.(*ssa.ChangeInterface); ok {
					x = mi.X
				}
			}
		}
	}
	return x
}
