package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePkgs are standard packages whose functions do not write through their
// arguments (apart from the listed exceptions).
func pureExternal(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	switch p {
	case "strings", "strconv", "errors", "unicode", "unicode/utf8", "math", "path/filepath", "runtime", "reflect", "time", "regexp", "path", "math/bits":
		if fn.Signature.Recv() != nil && p == "strings" { // Builder, Reader, Replacer
			return false
		}
		return true
	case "fmt":
		return !strings.HasPrefix(fn.Name(), "F") && !strings.Contains(fn.Name(), "can")
	case "bytes":
		if fn.Signature.Recv() != nil {
			switch fn.Name() {
			case "String", "Len", "Bytes":
				return true
			}
			return false
		}
		return true
	}
	return false
}

func (in *Interp) callCommonNoResult(a *Activation, st *State, i ssa.CallInstruction) {
	// go / defer: evaluate for observation, ignore results
	c := i.Common()
	var args []*Val
	for _, x := range c.Args {
		args = append(args, in.eval(a, st, x))
	}
	fv := in.eval(a, st, c.Value)
	callee := c.StaticCallee()
	if callee == nil && fv.fn != nil {
		callee = fv.fn
	}
	if callee != nil && in.P.inPkg(callee) && len(callee.Blocks) > 0 {
		for _, r := range in.inline(a, st, i, callee, args, fv.binds) {
			if r.flags>>32 != st.flags>>32 {
				in.loseHeap(st)
			}
		}
	}
}

// runDeferred performs a deferred call at the end of a function.
func (in *Interp) runDeferred(a *Activation, st *State, d *ssa.Defer) []*State {
	c := d.Common()
	var args []*Val
	for _, x := range c.Args {
		args = append(args, in.eval(a, st, x))
	}
	fv := in.eval(a, st, c.Value)
	callee := c.StaticCallee()
	if callee == nil && fv.fn != nil {
		callee = fv.fn
	}
	if callee == nil || !in.P.inPkg(callee) || len(callee.Blocks) == 0 {
		return one(st)
	}
	byFlags := map[uint64]*State{}
	var out []*State
	for _, r := range in.inline(a, st, d, callee, args, fv.binds) {
		s := cloneState(st)
		s.flags = r.flags
		for k, v := range r.mem {
			s.mem[k] = v
		}
		if o := byFlags[r.flags]; o != nil {
			n, _ := in.joinState(o, s, false, false)
			*o = *n
			continue
		}
		byFlags[r.flags] = s
		out = append(out, s)
	}
	return out
}

// inline analyses an in-package callee and returns its alternatives.
func (in *Interp) inline(a *Activation, st *State, i ssa.CallInstruction, callee *ssa.Function, args, binds []*Val) []Ret {
	if in.W.Override != nil {
		if alts, ok := in.W.Override(callee, args); ok {
			var out []Ret
			for _, t := range alts {
				out = append(out, Ret{vals: t, flags: st.flags})
			}
			return out
		}
	}
	depth := 0
	for _, s := range in.stack {
		if s.fn == callee {
			depth++
		}
	}
	max := in.W.MaxDepth
	if max == 0 {
		max = 45
	}
	// memory visible to the callee
	var hp *heap
	if in.W.Heap {
		hp = in.heapOf(st.flags)
	}
	reach := memReach(append(append([]*Val{}, args...), binds...), st.mem, hp, in.W.Fields)
	sub := Mem{}
	for k, v := range st.mem {
		if reach[k.obj] {
			sub[k] = v
		}
	}
	key := actKey(callee, args, binds, sub, st.flags)
	act, known := in.memo[key]
	maxRec := 2
	if in.W.MaxRec > 0 {
		maxRec = in.W.MaxRec
		if (depth >= maxRec || known && !act.done && sameCall(args)) && in.W.OnRec != nil {
			in.W.OnRec(in, callee, st)
		}
	}
	if (known && !act.done) || (!known && (depth >= maxRec || len(in.stack) > max)) || (in.W.NoInline != nil && in.W.NoInline(callee)) {
		return in.havoc(callee, args, st)
	}
	act = in.activation(callee, args, binds, sub, st.flags)
	rets := in.renameFresh(act, st, i, reach)
	if in.W.Heap {
		rs := make([]Ret, len(rets))
		for k, r := range rets {
			in.gcHeap(st.flags, &r)
			rs[k] = r
		}
		rets = rs
	}
	if in.report && in.obs != nil && i != nil {
		in.path = append(in.path, i)
		in.reportAct(act)
		in.path = in.path[:len(in.path)-1]
	}
	return rets
}

// sameCall: two calls with these abstract arguments are the same call.
func sameCall(args []*Val) bool {
	for _, v := range args {
		if v.ty == nil && v.obj == nil && v.cont == 0 && v.dyn == nil && v.tag == "" && v.num {
			if _, ok := v.int1(); !ok {
				return false
			}
		}
	}
	return true
}

// siteID names what is allocated at a site; in a world with a heap, the
// allocations of recursive calls are kept apart.
func (in *Interp) siteID(fn *ssa.Function, name string) string {
	if d := in.recursion(fn); d > 0 {
		return fmt.Sprintf("%s#%s^%d", fn.String(), name, d)
	}
	return fn.String() + "#" + name
}

// recursion is the number of calls of fn around the current one.
func (in *Interp) recursion(fn *ssa.Function) int {
	if !in.W.Heap {
		return 0
	}
	d := -1
	for _, s := range in.stack {
		if s.fn == fn {
			d++
		}
	}
	return d
}

// renameFresh gives the objects allocated by a call identities of their own
// per call site, so that two calls of one constructor do not share an object.
//
// In a world with a heap the tables made by one call site in a loop are kept
// apart too: a table that is already there is never taken for a new one.
func (in *Interp) renameFresh(act *Activation, st *State, i ssa.CallInstruction, known map[*Obj]bool) []Ret {
	if i == nil {
		return act.rets
	}
	site := i.Parent().String()
	if v := i.Value(); v != nil {
		site += "." + v.Name()
	}
	if d := in.recursion(i.Parent()); d > 0 {
		site += fmt.Sprintf("^%d", d)
	}
	ck := act.key + "//" + site
	there := map[*Obj]bool{}
	maxDepth := 3
	if in.W.Heap {
		maxDepth = 12
		held := in.heapObjs(st.flags)
		if len(held) > 0 {
			all := map[*Obj]bool{}
			for o := range known {
				all[o] = true
			}
			for o := range held {
				all[o] = true
			}
			known = all
			ck += fmt.Sprintf("//%d", st.flags>>32)
		}
		var base []string
		for k := range st.mem {
			if k.obj != nil && k.obj.fresh && !there[k.obj] && (named(k.obj.typ) == in.P.Table || named(k.obj.typ) == in.P.TSet) && strings.Contains(k.obj.id, site) {
				there[k.obj] = true
				base = append(base, k.obj.id)
			}
		}
		sort.Strings(base)
		ck += strings.Join(base, "//")
	}
	if r, ok := in.renamed[ck]; ok && len(r) == len(act.rets) && act.done {
		return r
	}
	m := map[*Obj]*Obj{}
	memo := map[*Val]*Val{}
	ren := func(o *Obj) *Obj {
		if o == nil || !o.fresh || known[o] {
			return o
		}
		if n, ok := m[o]; ok {
			return n
		}
		n := o
		if o.depth < maxDepth {
			id := o.id + "@" + site
			n = in.obj(id, true, o.typ, o.site)
			for v := 1; there[n] && v < 8; v++ {
				n = in.obj(fmt.Sprintf("%s'%d", id, v), true, o.typ, o.site)
			}
			n.depth = o.depth + 1
		}
		m[o] = n
		return n
	}
	var rv func(v *Val, d int) *Val
	rv = func(v *Val, d int) *Val {
		if v == nil || d > 12 {
			return v
		}
		if x, ok := memo[v]; ok {
			return x
		}
		c := v.dup()
		changed := false
		if n := ren(v.obj); n != v.obj {
			c.obj = n
			changed = true
		}
		sub := func(p **Val) {
			if *p == nil {
				return
			}
			if n := rv(*p, d+1); n != *p {
				*p = n
				changed = true
			}
		}
		sub(&c.inner)
		sub(&c.ln)
		sub(&c.elem)
		sub(&c.paddr)
		sub(&c.pidx)
		if len(v.binds) > 0 {
			c.binds = nil
			for _, b := range v.binds {
				n := rv(b, d+1)
				changed = changed || n != b
				c.binds = append(c.binds, n)
			}
		}
		if len(v.flds) > 0 {
			c.flds = nil
			for _, b := range v.flds {
				n := rv(b, d+1)
				changed = changed || n != b
				c.flds = append(c.flds, n)
			}
		}
		if len(v.tup) > 0 {
			c.tup = nil
			for _, t := range v.tup {
				var nt []*Val
				for _, x := range t {
					n := rv(x, d+1)
					changed = changed || n != x
					nt = append(nt, n)
				}
				c.tup = append(c.tup, nt)
			}
		}
		if !changed {
			memo[v] = v
			return v
		}
		c.str = ""
		memo[v] = &c
		return &c
	}
	var out []Ret
	for _, r := range act.rets {
		n := Ret{flags: r.flags}
		for _, v := range r.vals {
			n.vals = append(n.vals, rv(v, 0))
		}
		if r.mem != nil {
			n.mem = Mem{}
			for k, v := range r.mem {
				n.mem[memKey{ren(k.obj), k.field}] = rv(v, 0)
			}
		}
		if in.W.Heap && len(m) > 0 {
			in.renameHeap(&n, rv)
		}
		out = append(out, n)
	}
	if act.done {
		if in.renamed == nil {
			in.renamed = map[string][]Ret{}
		}
		in.renamed[ck] = out
	}
	return out
}

// havoc gives the alternatives of a call nothing is known about.
func (in *Interp) havoc(fn *ssa.Function, args []*Val, st *State) []Ret {
	if in.W.Heap {
		for _, x := range args {
			if in.deepLab(st, x)&LTracked != 0 || x.obj != nil && !x.obj.fresh {
				in.loseHeap(st)
				break
			}
		}
	}
	var lab Label
	for _, x := range args {
		lab |= in.deepLab(st, x)
	}
	lab &^= LRefMask | LTracked | LGrown
	alts := in.sigAlts(fn.Signature, lab)
	var out []Ret
	for _, t := range alts {
		out = append(out, Ret{vals: t, flags: st.flags})
	}
	return out
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// sigAlts are the result alternatives of an unknown function.
func (in *Interp) sigAlts(sig *types.Signature, lab Label) [][]*Val {
	res := sig.Results()
	n := res.Len()
	if n == 0 {
		return [][]*Val{{}}
	}
	mk := func(ok bool) []*Val {
		var t []*Val
		for i := 0; i < n; i++ {
			rt := res.At(i).Type()
			if i == n-1 && isErrorType(rt) {
				if ok {
					t = append(t, NilVal)
				} else {
					t = append(t, withLab(NonNil, lab))
				}
				continue
			}
			v := in.topOf(rt)
			if ok {
				switch rt.Underlying().(type) {
				case *types.Pointer:
					c := *v
					c.nilb = mayNon
					c.str = ""
					v = &c
				}
			}
			t = append(t, withLab(v, lab))
		}
		return t
	}
	if isErrorType(res.At(n - 1).Type()) {
		return [][]*Val{mk(true), mk(false)}
	}
	return [][]*Val{mk(false)}
}

func (in *Interp) call(a *Activation, st *State, i *ssa.Call) []*State {
	c := i.Common()
	var args []*Val
	for _, x := range c.Args {
		args = append(args, in.eval(a, st, x))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(a, st, i, b, args)
	}
	var callee *ssa.Function
	var binds []*Val
	if c.IsInvoke() {
		recv := in.eval(a, st, c.Value)
		if recv.isNil() {
			return nil
		}
		if strings.HasPrefix(recv.tag, "rtype:") {
			t := strings.Split(recv.tag[6:], "|")
			switch c.Method.Name() {
			case "String":
				return in.finish(a, st, i, retsOf([][]*Val{{strVal(t[0])}}, st.flags), c.Signature())
			case "Name":
				return in.finish(a, st, i, retsOf([][]*Val{{strVal(t[1])}}, st.flags), c.Signature())
			}
		}
		if recv.dyn != nil {
			if m := in.P.Prog.LookupMethod(recv.dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				r := recv.inner
				if r == nil {
					r = in.topOf(recv.dyn)
				}
				args = append([]*Val{r}, args...)
			}
		}
		if callee == nil {
			var lab Label = recv.lab
			for _, x := range args {
				lab |= in.deepLab(st, x)
			}
			var alts [][]*Val
			done := false
			if in.W.Invoke != nil {
				alts, done = in.W.Invoke(in, c, args)
			}
			if !done {
				alts = in.sigAlts(c.Signature(), lab&^(LRefMask|LTracked|LGrown))
			}
			return in.finish(a, st, i, retsOf(alts, st.flags), c.Signature())
		}
	} else if s := c.StaticCallee(); s != nil {
		callee = s
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = in.eval(a, st, mc).binds
		}
	} else {
		fv := in.eval(a, st, c.Value)
		if fv.fn != nil {
			callee = fv.fn
			binds = fv.binds
		}
	}
	if callee == nil && in.W.Dyn != nil {
		if rets, ok := in.W.Dyn(in, a, st, i, in.eval(a, st, c.Value), args); ok {
			return in.finish(a, st, i, rets, c.Signature())
		}
	}
	if callee != nil && in.W.OnCall != nil {
		if rets, ok := in.W.OnCall(in, a, st, i, callee, args); ok {
			return in.finish(a, st, i, rets, c.Signature())
		}
	}
	if callee == nil {
		if in.P.isLoggerCall(c) { // var where = log.Print
			return in.finish(a, st, i, []Ret{{flags: st.flags}}, c.Signature())
		}
		var lab Label
		for _, x := range args {
			lab |= in.deepLab(st, x)
		}
		return in.finish(a, st, i, retsOf(in.sigAlts(c.Signature(), lab&^(LRefMask|LTracked|LGrown)), st.flags), c.Signature())
	}
	if in.P.inPkg(callee) && len(callee.Blocks) > 0 {
		rets := in.inline(a, st, i, callee, args, binds)
		return in.finish(a, st, i, rets, c.Signature())
	}
	if rets, ok := in.orderCall(a, st, i, callee, args); ok {
		return in.finish(a, st, i, rets, c.Signature())
	}
	if rets, ok := in.permuteCall(a, st, i, callee, args); ok {
		return in.finish(a, st, i, rets, c.Signature())
	}
	alts, ok := in.external(a, st, i, callee, args)
	if !ok {
		return nil
	}
	return in.finish(a, st, i, retsOf(alts, st.flags), c.Signature())
}

func retsOf(alts [][]*Val, flags uint64) []Ret {
	var out []Ret
	for _, t := range alts {
		out = append(out, Ret{vals: t, flags: flags})
	}
	return out
}

// finish applies callee results: one successor state per typestate flag set.
func (in *Interp) finish(a *Activation, st *State, i ssa.Value, rets []Ret, sig *types.Signature) []*State {
	if len(rets) == 0 {
		return nil
	}
	if in.W.FailSite != nil && len(in.stack) == 1 {
		if v, ok := in.W.FailSite.(ssa.Value); ok && v == i {
			nr := make([]Ret, 0, len(rets))
			for _, r := range rets {
				n := len(r.vals)
				if n > 0 && r.vals[n-1].isNonNil() {
					r.flags |= FlagFailed
					if cl := in.W.FailSite.Common().StaticCallee(); cl != nil && cl.Pkg != nil && (cl.Pkg.Pkg.Path() == "bufio" || cl.Pkg.Pkg.Path() == "io") {
						// a failure other than reaching the end of the input
						t := append([]*Val{}, r.vals...)
						t[n-1] = withTag(t[n-1], "notEOF")
						r.vals = t
					}
				}
				nr = append(nr, r)
			}
			rets = nr
		} else if ci, ok := i.(ssa.Instruction); ok && in.W.Recovers[ci.Block()] {
			nr := make([]Ret, 0, len(rets))
			for _, r := range rets {
				n := len(r.vals)
				if n > 0 && isErrorType(sig.Results().At(n-1).Type()) && r.vals[n-1].isNil() {
					r.flags &^= FlagFailed
				}
				nr = append(nr, r)
			}
			rets = nr
		}
	}
	groups := map[uint64][]Ret{}
	var order []uint64
	for _, r := range rets {
		if _, ok := groups[r.flags]; !ok {
			order = append(order, r.flags)
		}
		groups[r.flags] = append(groups[r.flags], r)
	}
	var out []*State
	for _, f := range order {
		g := groups[f]
		s := st
		if len(order) > 1 {
			s = cloneState(st)
		}
		s.flags = f
		var mem Mem
		for k, r := range g {
			if k == 0 {
				mem = r.mem
			} else if mem != nil || r.mem != nil {
				mem = joinMem(in, mem, r.mem, false)
			}
		}
		for k, v := range mem {
			s.mem[k] = v
		}
		n := sig.Results().Len()
		switch {
		case n == 0:
			in.set(a, s, i, NonNil)
		case n == 1:
			var v *Val
			for _, r := range g {
				v = join(v, r.vals[0])
			}
			in.set(a, s, i, v)
		default:
			var alts [][]*Val
			for _, r := range g {
				alts = append(alts, r.vals)
			}
			in.set(a, s, i, &Val{nilb: mayNon, tup: joinAlts(alts, nil, false, 0)})
		}
		out = append(out, s)
	}
	return out
}

func (in *Interp) builtin(a *Activation, st *State, i *ssa.Call, b *ssa.Builtin, args []*Val) []*State {
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		v := rangeVal(Bound{}, posInf)
		if x.ln != nil && x.ln.num {
			v = x.ln
			if !leq(Bound{}, v.lo) {
				v = rangeVal(Bound{}, v.hi)
			}
		} else if x.isNil() {
			v = intVal(0)
		} else if s, ok := x.str1(); ok {
			v = intVal(int64(len(s)))
		} else if l := in.W.Text.length(i.Call.Args[0].Type(), x); l != nil {
			v = l
		} else if n := in.heapLen(st, x); n != nil {
			v = n
		} else if x.glob != nil {
			if t := in.P.globalMap(x.glob); t != nil {
				v = intVal(int64(len(t)))
			}
		}
		in.set(a, st, i, withLab(v, x.lab))
	case "append":
		x := args[0]
		if in.W.OnWrite != nil {
			if sl, ok := i.Call.Args[0].(*ssa.Slice); ok && sl.High != nil {
				in.W.OnWrite(st, x, i)
			}
		}
		v := &Val{nilb: mayNon, lab: x.lab}
		t := i.Type().Underlying().(*types.Slice)
		ex := in.elemOf(st, x, t.Elem())
		if x.isNil() || x.ln != nil && isZeroLen(x.ln) {
			ex = nil
		} else if ex == nil {
			ex = in.topOf(t.Elem())
		}
		if len(args) == 2 {
			y := args[1]
			ey := in.elemOf(st, y, t.Elem())
			if y.isNil() || y.ln != nil && isZeroLen(y.ln) {
				ey = nil
			} else if ey == nil {
				ey = in.topOf(t.Elem())
			}
			v.elem = join(ex, ey)
			if b, ok := i.Call.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				v.elem = nil
			}
			if x.isNil() && y.isNil() {
				v.nilb = mayNil
			} else if !x.isNonNil() && !(y.ln != nil && y.ln.num && leq(Bound{off: 1}, y.ln.lo)) {
				v.nilb = mayNil | mayNon
			}
			v.lab |= y.lab &^ LRefMask
			xl, yl := x.ln, y.ln
			if xl == nil && x.isNil() {
				xl = intVal(0)
			}
			if xl != nil && xl.num && yl != nil && yl.num {
				v.ln = arith(token.ADD, xl, yl)
			} else if yl != nil && yl.num && yl.lo.inf == 0 {
				v.ln = rangeVal(Bound{off: lowConst(yl.lo)}, posInf)
			}
			v = in.heapAppend(st, v, x, y, t.Elem())
		} else {
			v = x
		}
		in.set(a, st, i, v)
	case "copy":
		dst, src := args[0], args[1]
		if in.W.OnWrite != nil {
			in.W.OnWrite(st, dst, i)
		}
		if dst.obj != nil {
			k := memKey{dst.obj, joinPath(dst.field, "[*]")}
			var et types.Type = types.NewInterfaceType(nil, nil)
			if sl, ok := i.Call.Args[0].Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			e := in.elemOf(st, src, et)
			if e == nil {
				e = in.topOf(et)
			}
			st.mem[k] = withLab(e, src.lab)
		}
		n := rangeVal(Bound{}, posInf)
		if in.W.Heap {
			var et types.Type = types.NewInterfaceType(nil, nil)
			if sl, ok := i.Call.Args[0].Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			if c := in.heapCopy(st, dst, src, et); c != nil {
				n = c
			}
		}
		in.set(a, st, i, n)
	case "delete":
		if in.W.FlagMap != nil {
			st.flags |= in.W.FlagMap(args[0], i)
		}
		if in.W.OnWrite != nil {
			in.W.OnWrite(st, args[0], i)
		}
		if len(args) > 1 {
			in.heapDelete(st, args[0], args[1])
		}
		in.set(a, st, i, NonNil)
	case "clear":
		in.heapForget(st, args)
		in.set(a, st, i, NonNil)
	case "panic":
		return nil
	case "recover":
		in.set(a, st, i, Top)
	case "ssa:wrapnilchk":
		in.set(a, st, i, args[0])
	case "min", "max":
		in.set(a, st, i, Top)
	default:
		in.set(a, st, i, in.topOf(i.Type()))
	}
	return one(st)
}

func extName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return fmt.Sprintf("(%s).%s", r.Type().String(), fn.Name())
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return fn.String()
}

// external models a function outside the package; ok=false: does not return.
func (in *Interp) external(a *Activation, st *State, i *ssa.Call, fn *ssa.Function, args []*Val) ([][]*Val, bool) {
	var lab Label
	for _, x := range args {
		lab |= in.deepLab(st, x)
	}
	lab &^= LRefMask | LTracked | LGrown
	name := extName(fn)
	if in.W.OnWrite != nil && len(args) > 0 {
		switch name {
		case "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "sort.Sort", "sort.Stable":
			t := args[0]
			if t.inner != nil {
				t = t.inner
			}
			in.W.OnWrite(st, t, i)
		}
	}
	if in.W.External != nil {
		if alts, ok := in.W.External(in, fn, args, st.mem); ok {
			return alts, alts != nil
		}
	}
	if r := in.fold(st, fn, args); r != nil {
		return [][]*Val{r}, true
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return nil, false
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort", "slices.Reverse": // a permutation
		if len(args) > 0 && in.heapPermute(st, args[0], name == "slices.Reverse") {
			return [][]*Val{{}}, true
		}
		in.heapForget(st, args)
		return [][]*Val{{}}, true
	case "fmt.Errorf", "errors.New":
		return [][]*Val{{withLab(&Val{nilb: mayNon}, lab)}}, true
	case "strings.Split", "strings.SplitN":
		return [][]*Val{{&Val{nilb: mayNon, ln: rangeVal(Bound{off: 1}, posInf), lab: lab}}}, true
	case "bytes.NewBufferString", "bytes.NewBuffer", "strings.NewReader", "regexp.MustCompile", "bufio.NewReader", "bufio.NewScanner", "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "encoding/json.NewDecoder", "encoding/json.NewEncoder", "reflect.TypeOf", "text/template.New":
		o := in.obj(fmt.Sprintf("%s#%s", a.fn.String(), i.Name()), false, i.Type(), i)
		v := &Val{nilb: mayNon, lab: lab, obj: o}
		st.mem[memKey{o, "~"}] = withLab(Top, lab)
		return [][]*Val{{v}}, true
	case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex":
		return [][]*Val{{&Val{nilb: mayNil | mayNon, ln: intVal(2), elem: rangeVal(Bound{}, posInf), lab: lab}}}, true
	}
	// callbacks
	isSort := fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sort"
	if isSort && len(args) > 0 && fn.Signature.Results().Len() == 0 {
		if t := args[0]; t.isNil() || t.dyn != nil && t.inner != nil && t.inner.isNil() {
			return [][]*Val{{}}, true // nothing to compare
		}
	}
	for _, x := range args {
		if x.fn != nil && in.P.inPkg(x.fn) && len(x.fn.Blocks) > 0 {
			var tops []*Val
			for _, p := range x.fn.Params {
				tops = append(tops, in.cbParam(p.Type()))
			}
			for _, r := range in.inline(a, st, i, x.fn, tops, x.binds) {
				in.orFlags(st, r.flags)
				for k, v := range r.mem {
					st.mem[k] = join(st.mem[k], v)
				}
			}
		}
		if isSort && x.dyn != nil {
			if n := named(x.dyn); n != nil && n.Obj().Pkg() == in.P.Types {
				for _, mname := range []string{"Len", "Less", "Swap"} {
					if m := in.P.Prog.LookupMethod(x.dyn, in.P.Types, mname); m != nil && len(m.Blocks) > 0 {
						margs := []*Val{x.inner}
						for k := 1; k < len(m.Params); k++ {
							margs = append(margs, in.cbParam(m.Params[k].Type()))
						}
						for _, r := range in.inline(a, st, i, m, margs, nil) {
							in.orFlags(st, r.flags)
							for k, v := range r.mem {
								st.mem[k] = join(st.mem[k], v)
							}
						}
					}
				}
			}
		}
	}
	if !pureExternal(fn) {
		in.heapForget(st, args)
		// may write through its pointer arguments
		seen := map[*Obj]bool{}
		var havoc func(v *Val, d int)
		havoc = func(v *Val, d int) {
			if v == nil || d > 3 {
				return
			}
			havoc(v.inner, d+1)
			if v.obj != nil && !seen[v.obj] {
				seen[v.obj] = true
				in.unwatch(st, v.obj)
				for k, x := range st.mem {
					if k.obj == v.obj {
						if strings.HasSuffix(k.field, "[*]") { // argument slices
							havoc(x, d+1)
							continue
						}
						st.mem[k] = withLab(in.topOfField(k), lab)
					}
				}
				if v.obj.typ != nil {
					if _, isPtr := v.obj.typ.Underlying().(*types.Struct); isPtr || true {
						if _, isArr := v.obj.typ.Underlying().(*types.Array); !isArr {
							if _, isSl := v.obj.typ.Underlying().(*types.Slice); !isSl || v.obj.site == nil || isAlloc(v.obj.site) {
								k := memKey{v.obj, joinPath(v.field, "~")}
								st.mem[k] = withLab(Top, lab)
								if v.field == "" {
									st.mem[memKey{v.obj, ""}] = withLab(in.topOf(v.obj.typ), lab)
								}
							}
						}
					}
				}
			}
		}
		for _, x := range args {
			havoc(x, 0)
		}
	}
	return in.sigAlts(fn.Signature, lab), true
}

func isAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func (in *Interp) topOfField(k memKey) *Val {
	if k.field == "" {
		return in.topOf(k.obj.typ)
	}
	if k.field == "~" {
		return Top
	}
	if t := fieldTypeByPath(k.obj.typ, k.field); t != nil {
		return in.topOf(t)
	}
	return Top
}

func (in *Interp) cbParam(t types.Type) *Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return rangeVal(Bound{}, posInf)
	}
	return in.topOf(t)
}
