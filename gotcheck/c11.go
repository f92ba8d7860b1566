package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// panicsByContract: operations documented to panic on error.
func panicsByContract(f *ssa.Function) bool {
	n := f.Name()
	return strings.HasSuffix(n, "MustGet") || strings.HasSuffix(n, "MustSet") || strings.HasSuffix(n, "MustMake")
}

func (p *Program) isTablePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := named(pt.Elem())
	return n == p.Table || n == p.TSet
}

// argFor gives an unconstrained argument; pointers to tables are non-nil,
// distinct, well-formed objects.
func (in *Interp) argFor(name string, t types.Type) *Val {
	if in.P.isTablePtr(t) {
		return ptrTo(in.obj(name, false, t.Underlying().(*types.Pointer).Elem(), nil))
	}
	v := in.topOf(t)
	switch t.Underlying().(type) {
	case *types.Slice:
		c := *v
		c.str = ""
		c.ln = rangeVal(Bound{}, posInf)
		return &c
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
		c := *v
		c.nilb = mayNil | mayNon
		c.str = ""
		return &c
	}
	return v
}

// nilUse reports the operand of i that is certainly nil and dereferenced by i.
func nilUse(ev *Event) (string, bool) {
	switch i := ev.Instr.(type) {
	case *ssa.FieldAddr:
		if ev.Val(i.X).isNil() {
			return "field access through a nil pointer", true
		}
	case *ssa.UnOp:
		if i.Op == token.MUL && ev.Val(i.X).isNil() {
			return "dereference of a nil pointer", true
		}
	case *ssa.Store:
		if ev.Val(i.Addr).isNil() {
			return "store through a nil pointer", true
		}
	case *ssa.MapUpdate:
		if ev.Val(i.Map).isNil() {
			return "write to a nil map", true
		}
	case *ssa.IndexAddr:
		if x := ev.Val(i.X); x.isNil() {
			return "indexing of a nil slice", true
		}
	case ssa.CallInstruction:
		c := i.Common()
		if c.IsInvoke() && ev.Val(c.Value).isNil() {
			return "method call on a nil interface", true
		}
		if !c.IsInvoke() {
			if _, isB := c.Value.(*ssa.Builtin); !isB && c.StaticCallee() == nil && ev.Val(c.Value).isNil() {
				return "call of a nil function", true
			}
		}
	}
	return "", false
}

func checkC11(p *Program, tier string) *Result {
	r := newResult("C11")
	r.Rule = "every exported function and method is abstractly interpreted (SSA, interprocedurally) with its receiver, and in turn each table or table set argument, fixed to nil: no instruction that dereferences a certainly-nil value and no panic may be reachable, and when the receiver is nil and the method has an error result every reachable return must carry a non-nil error."
	r.NotCovered = "nil maps, functions or slices passed by the caller; nil tables stored inside cells (C02 excludes them)."
	r.Assume = []string{"standard library calls do not dereference the nil values passed to them"}
	fs := p.Exported()
	p.parallel(r, len(fs), func(fi int, r *Result) {
		f := fs[fi]
		n := 0
		for k, prm := range f.Params {
			isRecv := k == 0 && f.Signature.Recv() != nil
			if !p.isTablePtr(prm.Type()) {
				continue
			}
			n++
			w := &World{Name: "nil"}
			in := NewInterp(p, w)
			var args []*Val
			for j, q := range f.Params {
				if j == k {
					args = append(args, NilVal)
				} else {
					args = append(args, in.argFor(fmt.Sprintf("arg%d", j), q.Type()))
				}
			}
			what := fmt.Sprintf("argument %s", prm.Name())
			pk := fmt.Sprintf("arg%d", k)
			if isRecv {
				what, pk = "receiver", "recv"
			}
			name := shortName(f)
			bad := 0
			rets := in.Run(f, args, nil, 0, func(ev *Event) {
				if m, ok := nilUse(ev); ok {
					bad++
					r.add(fmt.Sprintf("deref|%s|%s|%s", name, pk, shortName(ev.Instr.Parent())), p.posOf(ev.Instr), in.pathString(), "with a nil %s, %s reaches a %s in %s", what, name, m, shortName(ev.Instr.Parent()))
				}
				if _, ok := ev.Instr.(*ssa.Panic); ok && !panicsByContract(f) && isRecv {
					bad++
					r.add(fmt.Sprintf("panic|%s|%s|%s", name, pk, shortName(ev.Instr.Parent())), p.posOf(ev.Instr), in.pathString(), "with a nil %s, %s can panic", what, name)
				}
			})
			if isRecv {
				res := f.Signature.Results()
				if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
					for _, rt := range rets {
						if !rt.vals[res.Len()-1].isNonNil() {
							bad++
							r.add(fmt.Sprintf("noerror|%s|%s", name, pk), p.at(f.Pos()), "", "with a nil %s, %s can return without an error", what, name)
						}
					}
				}
			}
			if in.over {
				bad++
				r.Unknown = append(r.Unknown, name)
			}
			r.oblig(bad == 0)
		}
		r.count("function x nil-able table argument", n)
	})
	return r
}
