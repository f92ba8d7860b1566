package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A dispatch is a chain of comparisons of one value with names of column
// types, or of type assertions on one value, each tried when the one before
// it failed.
type dispatch struct {
	fn    *ssa.Function
	first *ssa.If
	ifs   []*ssa.If
	names []string // type names or Go types tried
	byTyp bool
}

// typeTest: the condition compares some value with the name of a column type
// or asserts a dynamic type.
func (p *Program) typeTest(c ssa.Value) (x ssa.Value, name string, byTyp, ok bool) {
	switch c := c.(type) {
	case *ssa.BinOp:
		if c.Op != token.EQL {
			return
		}
		for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if k, isC := pr[1].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String {
				s := constant.StringVal(k.Value)
				if p.isTypeName(s) {
					return pr[0], s, false, true
				}
			}
		}
	case *ssa.Extract:
		if ta, isA := c.Tuple.(*ssa.TypeAssert); isA && c.Index == 1 && ta.CommaOk {
			return ta.X, types.TypeString(ta.AssertedType, types.RelativeTo(p.Types)), true, true
		}
	}
	return
}

func (p *Program) isTypeName(s string) bool {
	for _, t := range p.Types20 {
		if t == s {
			return true
		}
	}
	return false
}

func lastIf(b *ssa.BasicBlock) *ssa.If {
	if n := len(b.Instrs); n > 0 {
		if i, ok := b.Instrs[n-1].(*ssa.If); ok {
			return i
		}
	}
	return nil
}

func (p *Program) dispatches(f *ssa.Function) []*dispatch {
	inner := map[*ssa.If]bool{}
	next := func(i *ssa.If, x ssa.Value) *ssa.If {
		b := i.Block().Succs[1]
		if j := lastIf(b); j != nil {
			if y, _, _, ok := p.typeTest(j.Cond); ok && sameVal(x, y) {
				return j
			}
		}
		return nil
	}
	for _, b := range f.Blocks {
		if i := lastIf(b); i != nil {
			if x, _, _, ok := p.typeTest(i.Cond); ok {
				if j := next(i, x); j != nil {
					inner[j] = true
				}
			}
		}
	}
	var out []*dispatch
	for _, b := range f.Blocks {
		i := lastIf(b)
		if i == nil || inner[i] {
			continue
		}
		x, n, bt, ok := p.typeTest(i.Cond)
		if !ok {
			continue
		}
		d := &dispatch{fn: f, first: i, byTyp: bt}
		for i != nil && len(d.ifs) < 60 {
			d.ifs = append(d.ifs, i)
			_, n, _, _ = p.typeTest(i.Cond)
			d.names = append(d.names, n)
			i = next(i, x)
		}
		if len(d.ifs) >= 3 {
			out = append(out, d)
		}
	}
	return out
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		i, ok1 := x.X.(*ssa.IndexAddr)
		j, ok2 := y.X.(*ssa.IndexAddr)
		return ok1 && ok2 && sameVal(i.X, j.X) && i.Index == j.Index
	}
	return false
}
