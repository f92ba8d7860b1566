package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reference labels: bit j marks references to storage that belonged to
// argument j when the operation was called.  They live on references only
// (pointers, slices, maps, interfaces), never on plain values.
const LRef0 Label = 1 << 40
const LRefMask Label = 0xff << 40

func (p *Program) hasRefs(t types.Type) bool {
	p.refMu.RLock()
	r, ok := p.refCache[t]
	p.refMu.RUnlock()
	if ok {
		return r
	}
	r = hasRefs(t, 0)
	p.refMu.Lock()
	p.refCache[t] = r
	p.refMu.Unlock()
	return r
}

func hasRefs(t types.Type, d int) bool {
	if d > 5 {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if n.Obj().Pkg().Path() == "time" {
			return false
		}
	}
	if isErrorType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

// refArgs gives well-formed arguments in which every table reference of
// argument j carries label LRef0<<j.
func (in *Interp) refArgs(f *ssa.Function) []*Val {
	var args []*Val
	for j, q := range f.Params {
		v := in.argFor("arg"+string(rune('0'+j)), q.Type())
		if in.P.isTablePtr(q.Type()) && j < 8 {
			v = withLab(v, LRef0<<uint(j))
		}
		args = append(args, v)
	}
	return args
}

func fieldName(x *ssa.FieldAddr) string {
	return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
}
