package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// comparator finds the comparison that AppendSortKey stores in a sort key for
// a column of type T, by abstract interpretation of AppendSortKey itself.
func (p *Program) comparator(T string) (*ssa.Function, bool) {
	f := p.Method("Table", "AppendSortKey")
	if f == nil {
		return nil, false
	}
	_, in := p.populated(T)
	args := in.genericArgs(f)
	var fn *ssa.Function
	unknown := false
	for _, rt := range in.Run(f, args, nil, 0, nil) {
		if !succeeds(f, rt) {
			continue
		}
		v := rt.mem[memKey{args[0].obj, "sortKeys"}]
		if v == nil || v.elem == nil {
			unknown = true
			continue
		}
		found := false
		for _, x := range v.elem.flds {
			if x != nil && x.fn != nil {
				fn, found = x.fn, true
			}
		}
		if !found {
			// joined with unknown earlier keys: look at the value stored
			unknown = true
		}
	}
	if fn == nil && unknown {
		// observe the dynamic function value in the stored key
		in.Run(f, args, nil, 0, func(ev *Event) {
			if st, ok := ev.Instr.(*ssa.Store); ok {
				if _, isSig := st.Val.Type().Underlying().(*types.Signature); isSig {
					if x := ev.Val(st.Val); x.fn != nil {
						fn = x.fn
					}
				}
			}
		})
	}
	return fn, fn == nil && !unknown
}

// relWorld: two values A and B of one type in a fixed relation.  rel maps the
// form of a value ("", "lower", "upper") to the sign of A compared with B in
// that form; nanA, nanB mark floating-point values that are not numbers.
type relWorld struct {
	name       string
	rel        map[string]int
	nanA, nanB bool
	boolA      *bool
	boolB      *bool
	want       int
}

func tagForm(tag string) (form, base string, ok bool) {
	for strings.HasPrefix(tag, "w:") {
		tag = tag[2:]
	}
	for _, f := range []string{"lower", "upper"} {
		if strings.HasPrefix(tag, f+":") {
			form, tag = f, tag[len(f)+1:]
		}
	}
	for strings.HasPrefix(tag, "w:") {
		tag = tag[2:]
	}
	if tag == "A" || tag == "B" {
		return form, tag, true
	}
	return "", "", false
}

// sign compares two tagged values: known=false when the world does not say.
func (w *relWorld) sign(x, y string) (s int, unordered, known bool) {
	fx, bx, ok1 := tagForm(x)
	fy, by, ok2 := tagForm(y)
	if !ok1 || !ok2 {
		return 0, false, false
	}
	nan := func(b string) bool { return b == "A" && w.nanA || b == "B" && w.nanB }
	if nan(bx) || nan(by) {
		return 0, true, true
	}
	if fx != fy {
		return 0, false, false
	}
	if bx == by {
		return 0, false, true
	}
	s, ok := w.rel[fx]
	if !ok {
		return 0, false, false
	}
	if bx == "B" {
		s = -s
	}
	return s, false, true
}

func signHolds(op token.Token, s int) bool {
	switch op {
	case token.EQL:
		return s == 0
	case token.NEQ:
		return s != 0
	case token.LSS:
		return s < 0
	case token.LEQ:
		return s <= 0
	case token.GTR:
		return s > 0
	}
	return s >= 0
}

func signVal(s int) *Val {
	switch {
	case s < 0:
		return rangeVal(negInf, Bound{off: -1})
	case s > 0:
		return rangeVal(Bound{off: 1}, posInf)
	}
	return intVal(0)
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func sizeOf(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// install makes the interpreter decide comparisons of A and B by the world.
func (w *relWorld) install(W *World, T types.Type, undecided *bool) {
	W.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
		if x.tag == "" || y.tag == "" {
			return nil
		}
		s, unord, known := w.sign(x.tag, y.tag)
		if isCmp(i.Op) {
			if !known {
				*undecided = true
				return nil
			}
			if unord {
				return boolVal(i.Op == token.NEQ)
			}
			return boolVal(signHolds(i.Op, s))
		}
		if i.Op == token.SUB && known && isInteger(i.Type()) {
			if s == 0 {
				return intVal(0)
			}
			if !isUnsigned(i.Type()) && sizeOf(i.Type()) > sizeOf(T) {
				return signVal(s)
			}
			// the difference can overflow
			return &Val{nilb: mayNon}
		}
		return nil
	}
	W.OnCall = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool) {
		if in.P.inPkg(f) {
			return nil, false
		}
		one := func(v *Val) ([]Ret, bool) { return []Ret{{vals: []*Val{v}, flags: st.flags}}, true }
		name := f.Name()
		if o := f.Origin(); o != nil {
			f, name = o, o.Name()
		}
		pkg := ""
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			pkg = f.Object().Pkg().Path()
		}
		tagged := false
		for _, x := range args {
			if x.tag != "" {
				tagged = true
			}
		}
		switch pkg + "." + name {
		case "strings.ToLower":
			return one(&Val{nilb: mayNon, tag: "lower:" + args[0].tag})
		case "strings.ToUpper":
			return one(&Val{nilb: mayNon, tag: "upper:" + args[0].tag})
		case "strings.Compare", "cmp.Compare":
			if s, unord, known := w.sign(args[0].tag, args[1].tag); known && !unord {
				return one(intVal(int64(s)))
			} else if known && pkg == "cmp" { // NaN is less than any number
				nan := func(t string) bool { _, b, _ := tagForm(t); return b == "A" && w.nanA || b == "B" && w.nanB }
				switch {
				case nan(args[0].tag) && nan(args[1].tag):
					return one(intVal(0))
				case nan(args[0].tag):
					return one(intVal(-1))
				}
				return one(intVal(1))
			}
		case "cmp.Less":
			if s, unord, known := w.sign(args[0].tag, args[1].tag); known && !unord {
				return one(boolVal(s < 0))
			}
		case "math.IsNaN":
			if _, b, ok := tagForm(args[0].tag); ok {
				return one(boolVal(b == "A" && w.nanA || b == "B" && w.nanB))
			}
		}
		if tagged {
			*undecided = true
		}
		return nil, false
	}
}

func (p *Program) relWorlds(T string) []*relWorld {
	var ws []*relWorld
	switch {
	case T == "bool":
		for _, a := range []bool{false, true} {
			for _, b := range []bool{false, true} {
				a, b := a, b
				want := 0
				if a != b {
					want = 1
					if b {
						want = -1
					}
				}
				ws = append(ws, &relWorld{name: fmt.Sprintf("%v compared with %v", a, b), boolA: &a, boolB: &b, want: want})
			}
		}
	case T == "string":
		// ordered without regard to case, then with
		for _, l := range []int{-1, 0, 1} {
			for _, r := range []int{-1, 0, 1} {
				if r == 0 && l != 0 {
					continue
				}
				want := l
				if l == 0 {
					want = r
				}
				ws = append(ws, &relWorld{name: fmt.Sprintf("a %s b, lower case a %s b", relSym(r), relSym(l)), rel: map[string]int{"": r, "lower": l}, want: want})
			}
		}
	default:
		for _, s := range []int{-1, 0, 1} {
			ws = append(ws, &relWorld{name: "a " + relSym(s) + " b", rel: map[string]int{"": s}, want: s})
		}
	}
	return ws
}

func relSym(s int) string { return []string{"<", "=", ">"}[s+1] }

// run gives the abstract result of the comparison in world w.
func (p *Program) runCompare(fn *ssa.Function, T string, w *relWorld) (v *Val, undecided bool) {
	gt := p.goType(T)
	W := &World{Name: w.name}
	w.install(W, gt, &undecided)
	in := NewInterp(p, W)
	mk := func(tag string, b *bool) *Val {
		x := in.topOf(gt).dup()
		if b != nil {
			x.cs = []constant.Value{constant.MakeBool(*b)}
		} else {
			x.tag = tag
		}
		x.nilb = mayNon
		x.str = ""
		return &Val{nilb: mayNon, dyn: gt, inner: &x}
	}
	rets := in.Run(fn, []*Val{mk("A", w.boolA), mk("B", w.boolB)}, nil, 0, nil)
	for _, rt := range rets {
		if len(rt.vals) == 1 {
			v = join(v, rt.vals[0])
		}
	}
	return v, undecided
}

func signIs(v *Val, s int) bool {
	if v == nil || !v.num {
		return false
	}
	switch {
	case s < 0:
		return leq(v.hi, Bound{off: -1})
	case s > 0:
		return leq(Bound{off: 1}, v.lo)
	}
	k, ok := v.int1()
	return ok && k == 0
}

func signCannotBe(v *Val, s int) bool {
	if v == nil {
		return true
	}
	if !v.num {
		return false
	}
	for _, t := range []int{-1, 0, 1} {
		if t != s && signIs(v, t) {
			return true
		}
	}
	return false
}

var mustOrder = []string{"bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string", "uint", "uint16", "uint32", "uint64", "uint8"}

func checkC25(p *Program, tier string) *Result {
	r := newResult("C25")
	r.Rule = "for every column type the comparison that AppendSortKey puts into a sort key is found by abstract interpretation of AppendSortKey, and is itself interpreted over two values of the type in every possible relation (less, equal, greater; for text also every combination with the relation of the lower-case forms; for bool every pair; for floating point also with either or both not a number). Its result must have the sign of the relation, swapping must reverse it, and values of the type must not make it crash."
	orderable := map[string]bool{}
	for _, T := range mustOrder {
		orderable[T] = true
	}
	for _, T := range p.Types20 {
		fn, none := p.comparator(T)
		if fn == nil {
			if orderable[T] {
				r.oblig(!none)
				if none {
					r.add("none|"+T, "sort.go", "", "columns of type %s cannot be given a sort key: there is no comparison for them", T)
				} else {
					r.Unknown = append(r.Unknown, T+": comparison not resolved")
				}
			}
			continue
		}
		r.count("column types with a comparison", 1)
		where := p.at(fn.Pos())
		check := func(w *relWorld, want int) {
			v, und := p.runCompare(fn, T, w)
			r.count("worlds", 1)
			bad := !signIs(v, want)
			if bad && und && !signCannotBe(v, want) {
				r.Unknown = append(r.Unknown, T+" "+w.name)
				bad = false
			}
			r.oblig(!bad)
			if bad {
				res := "crashes"
				if v != nil {
					res = "returns " + show(v)
				}
				r.add(fmt.Sprintf("cmp|%s|%s", T, w.name), where, "", "comparison of %s values (%s): when %s it %s, expected a result %s 0", T, shortName(fn), w.name, res, relSym(want))
			}
		}
		if !orderable[T] { // a comparison for a type of unknown order: only its sanity
			for _, w := range p.relWorlds(T) {
				v, und := p.runCompare(fn, T, w)
				r.oblig(!(v == nil && !und))
				if v == nil && !und {
					r.add(fmt.Sprintf("cmp|%s|crash", T), where, "", "comparison of %s values always crashes", T)
				}
			}
			continue
		}
		for _, w := range p.relWorlds(T) {
			check(w, w.want)
		}
		if T == "float32" || T == "float64" {
			// not-a-number: equal to itself only, on the same side of every number
			v, und := p.runCompare(fn, T, &relWorld{name: "NaN first", nanA: true, rel: map[string]int{}})
			u, und2 := p.runCompare(fn, T, &relWorld{name: "NaN second", nanB: true, rel: map[string]int{}})
			ok := signIs(v, -1) && signIs(u, 1) || signIs(v, 1) && signIs(u, -1)
			r.count("worlds", 2)
			if !ok && (und || und2) {
				r.Unknown = append(r.Unknown, T+" NaN")
				ok = true
			}
			r.oblig(ok)
			if !ok {
				r.add(fmt.Sprintf("cmp|%s|NaN", T), where, "", "comparison of %s values (%s): a value that is not a number gives %s before and %s after a number; the results must be opposite and not zero", T, shortName(fn), show(v), show(u))
			}
			check(&relWorld{name: "both NaN", nanA: true, nanB: true, rel: map[string]int{}}, 0)
		}
		r.sample(fmt.Sprintf("%s: %s", T, shortName(fn)))
	}
	return r
}
