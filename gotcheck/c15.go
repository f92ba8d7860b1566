package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// neverFails: error results that are nil by contract, or whose failure only
// concerns diagnostics.
func neverFails(c *ssa.CallCommon, ev func(ssa.Value) *Val) bool {
	nm := calleeName(c)
	if strings.HasPrefix(nm, "(*bytes.Buffer).Write") || strings.HasPrefix(nm, "(*strings.Builder).Write") {
		return true
	}
	isErr := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stderr" || g.Name() == "Stdout") {
					return true
				}
			}
			t := v.Type().String()
			return t == "*bytes.Buffer" || t == "*strings.Builder"
		}
	}
	if strings.HasPrefix(nm, "fmt.Fprint") && len(c.Args) > 0 {
		return isErr(c.Args[0])
	}
	if strings.HasPrefix(nm, "(*os.File).Write") && len(c.Args) > 0 {
		return isErr(c.Args[0])
	}
	return nm == "fmt.Print" || nm == "fmt.Println" || nm == "fmt.Printf"
}

// predicateUse: a (bool, error) query used only for its boolean answer.
func predicateUse(p *Program, c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	v := c.Value()
	if f == nil || v == nil || !p.inPkg(f) || v.Referrers() == nil {
		return false
	}
	res := f.Signature.Results()
	if res.Len() != 2 || !types.Identical(res.At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	own := c.Parent().Signature.Results()
	if own.Len() == 2 && types.Identical(own.At(0).Type(), types.Typ[types.Bool]) {
		return false // a predicate built from predicates must pass the reason on
	}
	used := false
	for _, u := range *v.Referrers() {
		e, ok := u.(*ssa.Extract)
		if !ok || e.Referrers() == nil {
			continue
		}
		n := 0
		for _, x := range *e.Referrers() {
			if _, dbg := x.(*ssa.DebugRef); !dbg {
				n++
			}
		}
		if e.Index == 0 && n > 0 {
			used = true
		}
		if e.Index == 1 && n > 0 {
			return false
		}
	}
	return used
}

// triesAlternative: trial parsing of a line that may be something else.
func triesAlternative(p *Program, c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && p.inPkg(f) && f.Name() == "getTableSetName"
}

// recorded: the error is kept in a field for the caller to inspect.
func recorded(c ssa.CallInstruction) bool {
	v := c.Value()
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		st, ok := u.(*ssa.Store)
		if !ok || st.Val != ssa.Value(v) {
			continue
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if _, local := fa.X.(*ssa.Alloc); !local {
				return true
			}
		}
	}
	return false
}

// endOfInput: reads from a buffered reader in a function that tells the end
// of the input from other failures.
func endOfInput(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "bufio" || !strings.HasPrefix(f.Name(), "Read") {
		return false
	}
	for _, b := range c.Parent().Blocks {
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "EOF" {
					return true
				}
			}
		}
	}
	return false
}

// nestingNote: IsValidTableNesting prepares a message about parent links it
// deliberately does not insist on (nested tables are valid on their own).
func nestingNote(c ssa.CallInstruction) bool {
	f := c.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "IsValidTableNesting" && calleeName(c.Common()) == "fmt.Errorf"
}

// constantName: construction of an empty table or set under a constant valid
// name, which cannot fail.
func constantName(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f == nil || f.Name() != "NewTable" && f.Name() != "NewTableSet" || len(c.Common().Args) != 1 {
		return false
	}
	k, ok := c.Common().Args[0].(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && token.IsIdentifier(constant.StringVal(k.Value))
}

// handledBlocks are the blocks that run only in response to the failure of c
// (dominated by the failure side of a nil test of its error).
func handledBlocks(c ssa.CallInstruction) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	v := c.Value()
	if v == nil {
		return out
	}
	errs := map[ssa.Value]bool{}
	if isErrorType(v.Type()) {
		errs[v] = true
	}
	if v.Referrers() != nil {
		for _, u := range *v.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && isErrorType(e.Type()) {
				errs[e] = true
			}
		}
	}
	// values read back from the variable the error was stored to
	for e := range errs {
		if e.Referrers() == nil {
			continue
		}
		for _, u := range *e.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Val != e {
				continue
			}
			seen := false
			for _, i := range st.Block().Instrs {
				if i == ssa.Instruction(st) {
					seen = true
					continue
				}
				if !seen {
					continue
				}
				if x, ok := i.(*ssa.Store); ok && x.Addr == st.Addr {
					break
				}
				if l, ok := i.(*ssa.UnOp); ok && l.Op == token.MUL && l.X == st.Addr {
					errs[l] = true
				}
			}
		}
	}
	for e := range errs {
		if e.Referrers() == nil {
			continue
		}
		for _, u := range *e.Referrers() {
			b, ok := u.(*ssa.BinOp)
			if !ok || b.Op != token.NEQ && b.Op != token.EQL || b.Referrers() == nil {
				continue
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Value != nil {
				continue
			}
			for _, w := range *b.Referrers() {
				br, ok := w.(*ssa.If)
				if !ok {
					continue
				}
				side := 0
				if b.Op == token.EQL {
					side = 1
				}
				h := br.Block().Succs[side]
				if len(h.Preds) != 1 {
					continue
				}
				for _, x := range c.Parent().Blocks {
					if h.Dominates(x) {
						out[x] = true
					}
				}
			}
		}
	}
	return out
}

func errIndex(f *ssa.Function) int {
	r := f.Signature.Results()
	if n := r.Len(); n > 0 && isErrorType(r.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

type c15site struct {
	fn   *ssa.Function
	call ssa.CallInstruction
}

func checkC15(p *Program, tier string) *Result {
	r := newResult("C15")
	r.Rule = "for every call site with an error result, in every function of the package that itself returns an error (closures included): the function is abstractly interpreted with the alternatives in which this call fails split off (typestate bit 'failed'), and no return reachable in state 'failed' may carry a nil error. Freshly constructed errors (fmt.Errorf, errors.New) are included. The state is left when another step called only in response to the failure succeeds, when the error is kept in a field, and at the end of buffered input."
	r.NotCovered = "functions without an error result (their failures are C03 and C28); yes/no queries whose boolean answer is used and whose error is not looked at; trial parsing of a line as a table set name; writes to standard error and in-memory buffers."
	var sites []c15site
	for _, f := range p.Funcs {
		if errIndex(f) < 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sg := c.Common().Signature()
				if n := sg.Results().Len(); n == 0 || !isErrorType(sg.Results().At(n-1).Type()) {
					continue
				}
				if neverFails(c.Common(), nil) || predicateUse(p, c) || triesAlternative(p, c) || recorded(c) || endOfInput(c) || nestingNote(c) || constantName(c) {
					continue
				}
				sites = append(sites, c15site{f, c})
			}
		}
	}
	p.parallel(r, len(sites), func(k int, r *Result) {
		s := sites[k]
		ei := errIndex(s.fn)
		w := &World{Name: "c15"}
		w.Field = nilTableFalse(p)
		w.MaxDepth = 3
		if tier == "thorough" {
			w.MaxDepth = 5
		}
		in := NewInterp(p, w)
		w.FailSite = s.call
		var args []*Val
		for j, q := range s.fn.Params {
			args = append(args, in.argFor(fmt.Sprintf("arg%d", j), q.Type()))
		}
		var binds []*Val
		for j, q := range s.fn.FreeVars {
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				binds = append(binds, ptrTo(in.obj(fmt.Sprintf("free%d", j), false, pt.Elem(), nil)))
			} else {
				binds = append(binds, in.topOf(q.Type()))
			}
		}
		w.Recovers = handledBlocks(s.call)
		rets := in.activation(s.fn, args, binds, Mem{}, 0).rets
		bad := false
		failed := false
		for _, rt := range rets {
			if rt.flags&FlagFailed == 0 {
				continue
			}
			failed = true
			if !rt.vals[ei].isNonNil() {
				bad = true
			}
		}
		_ = failed
		if bad {
			nm := "a dynamic call"
			if c := s.call.Common().StaticCallee(); c != nil {
				nm = shortName(c)
			}
			r.add(fmt.Sprintf("swallow|%s|%s", shortName(s.fn), nm), p.posOf(s.call), "", "%s returns without an error although %s failed", shortName(s.fn), nm)
		}
		r.oblig(!bad)
	})
	r.count("error-returning call sites", len(sites))
	return r
}
