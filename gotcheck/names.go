package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Second part of C22: a name that the constructor of tables (or the operation
// adding a column) accepts must be accepted where the text parser reads a
// table name (or the column names).  Both are followed on constant strings.

// runConst follows f on constant arguments (string or []string).
func (p *Program) runConst(f *ssa.Function, args ...interface{}) (rets []Ret, in *Interp) {
	w := &World{Name: "constant name", Heap: true}
	in = NewInterp(p, w)
	in.limit = 20000
	st := &State{mem: Mem{}}
	var vs []*Val
	for _, q := range f.Params {
		if len(vs) == 0 && f.Signature.Recv() != nil {
			vs = append(vs, in.argFor("recv", q.Type()))
			continue
		}
		var v *Val
		if len(args) > 0 {
			switch x := args[0].(type) {
			case string:
				v = withLab(strVal(x), LConstName)
			case []string:
				var es []*Val
				for _, s := range x {
					es = append(es, withLab(strVal(s), LConstName))
				}
				v = view(&Val{nilb: mayNon}, in.newCont(st, &heapArr{elems: es}), 0, len(es))
			}
			args = args[1:]
		}
		if v == nil {
			v = in.argFor("arg", q.Type())
		}
		vs = append(vs, v)
	}
	rets = in.Run(f, vs, nil, st.flags, nil)
	if in.over {
		return nil, in
	}
	return rets, in
}

// verdict: 1 every outcome is without error, -1 every outcome has one, 0 other.
func verdict(rets []Ret, in *Interp, sig *types.Signature) int {
	if in.over || in.undecided || len(rets) == 0 {
		return 0
	}
	bad := 0
	for _, r := range rets {
		e := r.vals[len(r.vals)-1]
		switch {
		case e.nilb&mayNil == 0:
			bad++
		case !e.isNil():
			return 0
		}
	}
	switch bad {
	case 0:
		return 1
	case len(rets):
		return -1
	}
	return 0
}

func lastIsError(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && isErrorType(s.Results().At(n-1).Type())
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func (p *Program) namesParse(r *Result) {
	params := func(f *ssa.Function) []*types.Var {
		var ps []*types.Var
		for i := 0; i < f.Signature.Params().Len(); i++ {
			ps = append(ps, f.Signature.Params().At(i))
		}
		return ps
	}
	var newTable []*ssa.Function // a name gives a table
	var tabNames []*ssa.Function // the parser's reader of a table name line
	var colNames []*ssa.Function // the parser's reader of column names
	for _, f := range p.Funcs {
		ps := params(f)
		if f.Blocks == nil || !lastIsError(f.Signature) || f.Signature.Results().Len() != 2 || len(ps) != 1 {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		exp := f.Object() != nil && f.Object().Exported()
		switch {
		case exp && f.Signature.Recv() == nil && isString(ps[0].Type()) && named(res) == p.Table:
			rets, in := p.runConst(f, "abc")
			bad, in2 := p.runConst(f, "a b")
			if verdict(rets, in, f.Signature) == 1 && verdict(bad, in2, f.Signature) == -1 {
				newTable = append(newTable, f)
			}
		case !exp && isString(ps[0].Type()) && isString(res):
			rets, in := p.runConst(f, "[abc]")
			ok := verdict(rets, in, f.Signature) == 1
			for _, x := range rets {
				s, k := x.vals[0].str1()
				ok = ok && k && s == "abc"
			}
			if ok {
				tabNames = append(tabNames, f)
			}
		case !exp && isStrSlice(ps[0].Type()) && isStrSlice(res):
			rets, in := p.runConst(f, []string{"abc", "def"})
			bad, in2 := p.runConst(f, []string{"abc", "a b"})
			if verdict(rets, in, f.Signature) == 1 && verdict(bad, in2, f.Signature) == -1 {
				colNames = append(colNames, f)
			}
		}
	}
	r.count("constructors from a name", len(newTable))
	r.count("parser functions reading names", len(tabNames)+len(colNames))
	addCol := p.Method("Table", "AppendCol")
	var cands []string
	for b := 0; b < 256; b++ {
		cands = append(cands, string([]byte{byte(b)}), "a"+string([]byte{byte(b)}), "a"+string([]byte{byte(b)})+"a")
	}
	for _, c := range []rune{0xaa, 0xb5, 0xba, 0xc0, 0xdf, 0xe9, 0xea, 0xf5, 0xfa, 0x100, 0x131, 0x3b1, 0x430, 0x4e00, 0x660, 0x2160, 0x1d7d8} {
		cands = append(cands, string(c), "a"+string(c), string(c)+"1")
	}
	cands = append(cands, p.colTypeUniverse()...)
	p.parallel(r, len(cands), func(ci int, r *Result) {
		c := cands[ci]
		for _, f := range newTable {
			rets, in := p.runConst(f, c)
			if verdict(rets, in, f.Signature) != 1 {
				r.oblig(true)
				continue
			}
			for _, g := range tabNames {
				rets, in := p.runConst(g, "["+c+"]")
				bad := verdict(rets, in, g.Signature) == -1
				r.oblig(!bad)
				if bad {
					r.add(fmt.Sprintf("parse|%s|%s", shortName(f), shortName(g)), p.at(g.Pos()), "", "%s accepts the name %q, but %s rejects %q", shortName(f), c, shortName(g), "["+c+"]")
				}
			}
		}
		if addCol == nil {
			return
		}
		s := &shape{cols: 1, rows: 1, strs: []string{"=" + c, "w1"}, typ: "int", arg: "M0"}
		sr := p.shapeWorld(addCol, s)
		sr.in.limit = 40000
		rets := sr.in.Run(addCol, sr.args, nil, sr.heap, nil)
		can := false
		for _, x := range rets {
			can = can || !nonNilErr(x.vals, addCol.Signature)
		}
		if !can || sr.in.over || sr.in.undecided {
			r.oblig(true)
			return
		}
		for _, g := range colNames {
			rets, in := p.runConst(g, []string{"abc", c})
			bad := verdict(rets, in, g.Signature) == -1 || len(strings.Fields(c)) != 1
			r.oblig(!bad)
			if bad {
				r.add(fmt.Sprintf("parse|%s|%s", shortName(addCol), shortName(g)), p.at(g.Pos()), "", "%s accepts the name %q, but %s rejects it", shortName(addCol), c, shortName(g))
			}
		}
	})
}
