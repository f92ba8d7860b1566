package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C28"] = checkC28 }

func mustSibling(p *Program, f *ssa.Function) *ssa.Function {
	base := f.Name()
	for _, s := range []string{"MustGet", "MustSet", "MustMake"} {
		base = strings.TrimSuffix(base, s)
	}
	for _, g := range p.Exported() {
		if g.Name() != base {
			continue
		}
		a, b := f.Signature.Recv(), g.Signature.Recv()
		if (a == nil) != (b == nil) {
			continue
		}
		if a != nil && named(a.Type()) != named(b.Type()) {
			continue
		}
		return g
	}
	return nil
}

func checkC28(p *Program, tier string) *Result {
	r := newResult("C28")
	r.Rule = "each function named ...MustGet, ...MustSet or ...MustMake is abstractly interpreted with its error-returning counterpart replaced by two outcomes in turn. When the counterpart reports an error no return is reachable (it panics); when it succeeds no panic is reachable and the values returned are exactly the counterpart's; every call of the counterpart passes exactly the function's own receiver and arguments in order."
	r.NotCovered = "panicking variants that do not reach their counterpart at all (reported as undecided; the typed accessors among them are still decided by C01)."
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		if panicsByContract(f) {
			fs = append(fs, f)
		}
	}
	r.count("panicking variants", len(fs))
	if len(fs) < 80 {
		r.add("anchor|must", "", "", "only %d panicking variants found", len(fs))
	}
	p.parallel(r, len(fs), func(k int, r *Result) {
		f := fs[k]
		name := shortName(f)
		sib := mustSibling(p, f)
		r.oblig(sib != nil)
		if sib == nil {
			r.add("sibling|"+name, p.at(f.Pos()), "", "%s has no error-returning counterpart", name)
			return
		}
		for _, fail := range []bool{false, true} {
			bad := 0
			called := false
			w := &World{Name: "any"}
			in := NewInterp(p, w)
			var args []*Val
			for j, q := range f.Params {
				v := in.argFor(fmt.Sprintf("arg%d", j), q.Type())
				if fail && !(j == 0 && f.Signature.Recv() != nil) {
					v = in.topOf(q.Type()) // nil, too
				}
				args = append(args, withTag(v, fmt.Sprintf("arg%d", j)))
			}
			w.Field = nilTableFalse(p)
			w.Override = func(fn *ssa.Function, a []*Val) ([][]*Val, bool) {
				if fn != sib {
					return nil, false
				}
				called = true
				if len(a) != len(args) {
					bad++
				} else {
					for j := range a {
						if a[j].tag != args[j].tag {
							bad++
							r.add(fmt.Sprintf("args|%s|%d", name, j), p.at(f.Pos()), "", "%s does not pass its own %s to %s", name, f.Params[j].Name(), shortName(sib))
						}
					}
				}
				res := fn.Signature.Results()
				var t []*Val
				for j := 0; j < res.Len(); j++ {
					if j == res.Len()-1 && isErrorType(res.At(j).Type()) {
						if fail {
							t = append(t, NonNil)
						} else {
							t = append(t, NilVal)
						}
						continue
					}
					v := withTag(in.topOf(res.At(j).Type()), fmt.Sprintf("res%d", j))
					t = append(t, v)
				}
				return [][]*Val{t}, true
			}
			panics := ""
			rets := in.Run(f, args, nil, 0, func(ev *Event) {
				if i, ok := ev.Instr.(*ssa.Panic); ok {
					panics = p.posOf(i)
				}
			})
			if !called {
				r.Unknown = append(r.Unknown, name)
				r.oblig(true)
				continue
			}
			if fail {
				if len(rets) > 0 {
					bad++
					r.add("nopanic|"+name, p.at(f.Pos()), "", "%s can return although %s reported an error", name, shortName(sib))
				}
			} else {
				if panics != "" {
					bad++
					r.add("panics|"+name, panics, "", "%s can panic although %s succeeded", name, shortName(sib))
				}
				if len(rets) == 0 {
					bad++
					r.add("never|"+name, p.at(f.Pos()), "", "%s cannot return although %s succeeded", name, shortName(sib))
				}
				for _, rt := range rets {
					for j := range rt.vals {
						if rt.vals[j].tag != fmt.Sprintf("res%d", j) {
							bad++
							r.add(fmt.Sprintf("value|%s|%d", name, j), p.at(f.Pos()), "", "%s does not return the value that %s returned", name, shortName(sib))
						}
					}
				}
			}
			r.oblig(bad == 0)
		}
	})
	return r
}
