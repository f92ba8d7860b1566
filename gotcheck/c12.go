package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// countSyms gives the containers of a table symbolic lengths: R rows, C
// columns, K tables in a set.  least1: all of them at least one.
func (p *Program) countSyms(w *World, in *Interp, only *Obj, least1 bool) {
	s := ""
	if least1 {
		s = "1"
	}
	R, C, K := symVal("R"+s, 0), symVal("C"+s, 0), symVal("K"+s, 0)
	prev := w.Field
	w.RowLen = C
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		var base *Val
		if prev != nil {
			base = prev(o, st, field)
		}
		if only != nil && o != nil && o != only {
			return base
		}
		mk := func(ln *Val, elem *Val) *Val {
			v := &Val{nilb: mayNil | mayNon}
			if base != nil {
				c := *base
				v = &c
				v.str = ""
			}
			v.ln = ln
			if v.elem == nil {
				v.elem = elem
			}
			return v
		}
		if st == p.Table {
			switch field {
			case "rows":
				return mk(R, &Val{nilb: mayNon, ln: C, elem: in.cellVal()})
			case "colNames", "colTypes":
				e := NonNil
				if field == "colTypes" && w.ColType != nil {
					e = w.ColType
				}
				return mk(C, e)
			case "colNamesMap":
				v := mk(C, nil)
				v.nilb = mayNon
				if v.elem == nil {
					v.elem = rangeVal(Bound{}, Bound{sym: "C" + s, off: -1})
				}
				return v
			}
		}
		if st == p.TSet && field == "tables" {
			return mk(K, nil)
		}
		return base
	}
}

type idxParam struct {
	k     int
	kind  string // R, C, K
	last  bool
	slice bool
}

func indexParams(f *ssa.Function) []idxParam {
	var out []idxParam
	for k, q := range f.Params {
		t := q.Type()
		slice := false
		if s, ok := t.Underlying().(*types.Slice); ok {
			t, slice = s.Elem(), true
		}
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			continue
		}
		n := strings.ToLower(q.Name())
		ip := idxParam{k: k, slice: slice, last: strings.HasPrefix(n, "last")}
		n2 := strings.TrimRight(n, "0123456789")
		switch {
		case strings.Contains(n2, "count") || strings.Contains(n2, "many") || strings.Contains(n2, "depth"):
			continue
		case strings.Contains(n2, "row"):
			ip.kind = "R"
		case strings.Contains(n2, "col"):
			ip.kind = "C"
		case strings.Contains(n2, "table"):
			ip.kind = "K"
		case strings.Contains(n2, "indic") && slice:
			ip.kind = "C"
		default:
			continue
		}
		out = append(out, ip)
	}
	return out
}

// outOfRange reports an index or slice expression that is certainly outside
// its container.
func outOfRange(ev *Event) (string, bool) {
	chk := func(x, idx *Val, ln *Val, incl bool) bool {
		if x.isNil() && !incl {
			return true
		}
		if !idx.num {
			return false
		}
		if idx.hi.inf == 0 && leq(idx.hi, Bound{off: -1}) {
			return true
		}
		if ln != nil && ln.num && ln.hi.inf == 0 && idx.lo.inf == 0 {
			b := ln.hi
			if incl {
				b = addB(b, 1)
			}
			return leq(b, idx.lo)
		}
		return false
	}
	switch i := ev.Instr.(type) {
	case *ssa.IndexAddr:
		x, idx := ev.Val(i.X), ev.Val(i.Index)
		ln := x.ln
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				ln = intVal(at.Len())
			}
		}
		if chk(x, idx, ln, false) {
			return fmt.Sprintf("index %s into a container of length %s", show(idx), show(ln)), true
		}
	case *ssa.Index:
		x, idx := ev.Val(i.X), ev.Val(i.Index)
		if chk(x, idx, x.ln, false) {
			return fmt.Sprintf("index %s into a container of length %s", show(idx), show(x.ln)), true
		}
	case *ssa.Lookup:
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x, idx := ev.Val(i.X), ev.Val(i.Index)
			if chk(x, idx, x.ln, false) {
				return "string index " + show(idx), true
			}
		}
	case *ssa.Slice:
		x := ev.Val(i.X)
		if i.Low != nil && i.High != nil {
			lo, hi := ev.Val(i.Low), ev.Val(i.High)
			if lo.num && hi.num && lo.lo.inf == 0 && hi.hi.inf == 0 && leq(addB(hi.hi, 1), lo.lo) {
				return fmt.Sprintf("slice bounds %s and %s", show(lo), show(hi)), true
			}
		}
		for _, b := range []ssa.Value{i.Low, i.High} {
			if b != nil && chk(x, ev.Val(b), x.ln, true) {
				return fmt.Sprintf("slice bound %s on a container of length %s", show(ev.Val(b)), show(x.ln)), true
			}
		}
	}
	return "", false
}

func show(v *Val) string {
	if v == nil {
		return "?"
	}
	if v.num {
		if v.lo == v.hi {
			return v.lo.String()
		}
		return fmt.Sprintf("[%s..%s]", v.lo, v.hi)
	}
	if len(v.cs) == 1 {
		return v.cs[0].ExactString()
	}
	return "?"
}

func errResult(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}

func checkC12(p *Program, tier string) *Result {
	r := newResult("C12")
	r.Rule = "for every index argument of every exported function, abstract interpretation (intervals with symbolic bounds over the row, column and table counts) of four worlds: all negative indices, all indices >= the count, index 0 and index count-1. In the first two no certainly out-of-range index or slice expression is reachable and every return carries an error (and no true result); in the last two success is reachable and no out-of-range expression is."
	r.NotCovered = "indices the caller takes from elsewhere; that the interior of the valid range behaves as its two ends do."
	r.Assume = []string{"the parallel column structures have equal length and every row has one cell per column (C21)"}
	fs := p.Exported()
	p.parallel(r, len(fs), func(k int, r *Result) {
		f := fs[k]
		n := 0
		if f.Signature.Recv() == nil || !p.isTablePtr(f.Signature.Recv().Type()) {
			return
		}
		ips := indexParams(f)
		for _, ip := range ips {
			n++
			worlds := []string{"negative", "too large", "first", "last"}
			if pairOf(ips, ip) {
				worlds = append(worlds, "both negative", "both too large")
			}
			for _, world := range worlds {
				p.indexWorld(r, f, ips, ip, world)
			}
		}
		r.count("index arguments", n)
	})
	if n := r.Counts["index arguments"]; n < 150 {
		r.add("anchor|index-args", "", "", "only %d index arguments found", n)
	}
	return r
}

// pairOf: ip is the first or last index of a range of rows.
func pairOf(ips []idxParam, ip idxParam) bool {
	n, l := 0, 0
	for _, x := range ips {
		if x.kind == ip.kind && !x.slice {
			n++
			if x.last {
				l++
			}
		}
	}
	return n == 2 && l == 1
}

func (p *Program) indexWorld(r *Result, f *ssa.Function, ips []idxParam, ip idxParam, world string) {
	w := &World{Name: world}
	in := NewInterp(p, w)
	good := world == "first" || world == "last"
	recv := in.obj("recv", false, f.Params[0].Type().Underlying().(*types.Pointer).Elem(), nil)
	var src *Obj = recv
	// a from-table argument is the one indexed by row arguments
	for k, q := range f.Params {
		if k > 0 && p.isTablePtr(q.Type()) && ip.kind == "R" && strings.HasPrefix(strings.ToLower(q.Name()), "from") {
			src = in.obj(fmt.Sprintf("arg%d", k), false, q.Type().Underlying().(*types.Pointer).Elem(), nil)
		}
	}
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		if st == p.Table && field == "isNilTable" {
			return FalseVal
		}
		return nil
	}
	p.countSyms(w, in, src, true)
	// in the bad worlds counts may be zero: use the plain symbols for the
	// container indexed by the argument under test
	suffix := "1"
	both := strings.HasPrefix(world, "both ")
	if !good && !ip.slice && !both {
		p.countSymsPlain(w, ip.kind, src)
		suffix = ""
	}
	mkIdx := func(q idxParam, wd string) *Val {
		sfx := "1"
		if q.kind == ip.kind {
			sfx = suffix
		}
		S := q.kind + sfx
		var v *Val
		switch wd {
		case "negative":
			v = rangeVal(negInf, Bound{off: -1})
		case "too large":
			v = rangeVal(Bound{sym: S}, posInf)
		case "both negative":
			v = intVal(-1)
		case "both too large":
			v = symVal(S, 0)
		case "first":
			v = intVal(0)
		case "last":
			v = symVal(S, -1)
		}
		if q.slice {
			return &Val{nilb: mayNon, elem: v, ln: symVal("C1", 0)}
		}
		return v
	}
	var args []*Val
	for k, q := range f.Params {
		var v *Val
		for _, x := range ips {
			if x.k != k {
				continue
			}
			switch {
			case x.k == ip.k || both && x.kind == ip.kind:
				v = mkIdx(x, world)
			case good && x.kind == ip.kind && !x.last && !ip.last && !pairOf(ips, ip):
				// two positions that may have to differ
				if world == "first" {
					v = mkIdx(x, "last")
				} else {
					v = mkIdx(x, "first")
				}
			case x.last && x.kind == ip.kind:
				v = mkIdx(x, "last")
				if !good {
					// keep the other bound valid when there is at least one row
					v = symVal(x.kind+suffix, -1)
				}
			case x.kind == ip.kind && !good:
				v = intVal(0)
			default:
				v = mkIdx(x, "first")
			}
		}
		if v == nil {
			v = in.argFor(fmt.Sprintf("arg%d", k), q.Type())
		}
		if k == 0 {
			v = ptrTo(recv)
		}
		args = append(args, v)
	}
	name := shortName(f)
	pname := f.Params[ip.k].Name()
	bad := 0
	rets := in.Run(f, args, nil, 0, func(ev *Event) {
		if m, ok := outOfRange(ev); ok {
			bad++
			r.add(fmt.Sprintf("oor|%s|%s|%s|%s", name, pname, strings.ReplaceAll(world, " ", "-"), shortName(ev.Instr.Parent())), p.posOf(ev.Instr), in.pathString(), "%s with %s %s reaches %s in %s", name, pname, world, m, shortName(ev.Instr.Parent()))
		}
	})
	wk := strings.ReplaceAll(world, " ", "-")
	hasBool := false
	for k := 0; k < f.Signature.Results().Len(); k++ {
		if b, ok := f.Signature.Results().At(k).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			hasBool = true // a predicate may answer false instead
		}
	}
	rangeOnly := pairOf(ips, ip) && !both && !good // first > last may denote the empty range
	nres := f.Signature.Results().Len()
	if !good {
		for _, rt := range rets {
			if rangeOnly {
				continue
			}
			if errResult(f) && !hasBool {
				if !rt.vals[nres-1].isNonNil() {
					bad++
					r.add(fmt.Sprintf("accepts|%s|%s|%s", name, pname, wk), p.at(f.Pos()), "", "%s with %s %s can return without an error", name, pname, world)
				}
			} else if !errResult(f) && panicsByContract(f) {
				bad++
				r.add(fmt.Sprintf("accepts|%s|%s|%s", name, pname, wk), p.at(f.Pos()), "", "%s with %s %s can return instead of panicking", name, pname, world)
			}
			for k := 0; k < nres; k++ {
				if b, ok := f.Signature.Results().At(k).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && !rt.vals[k].isFalse() {
					bad++
					r.add(fmt.Sprintf("says-true|%s|%s|%s", name, pname, wk), p.at(f.Pos()), "", "%s with %s %s can return true", name, pname, world)
				}
			}
		}
	} else {
		ok := false
		for _, rt := range rets {
			if !errResult(f) || !rt.vals[nres-1].isNonNil() {
				ok = true
			}
		}
		if !ok {
			bad++
			r.add(fmt.Sprintf("rejects|%s|%s|%s", name, pname, wk), p.at(f.Pos()), "", "%s with a valid %s (the %s one) can only fail", name, pname, world)
		}
	}
	if in.over {
		r.Unknown = append(r.Unknown, name)
		bad++
	}
	r.oblig(bad == 0)
}

// countSymsPlain replaces the at-least-one symbol of one kind by the plain one.
func (p *Program) countSymsPlain(w *World, kind string, only *Obj) {
	prev := w.Field
	if kind == "C" {
		w.RowLen = symVal("C", 0)
	}
	sub := func(v *Val) *Val {
		if v == nil {
			return v
		}
		c := *v
		c.str = ""
		c.ln = symVal(kind, 0)
		if c.elem != nil && c.elem.num && kind == "C" {
			c.elem = rangeVal(Bound{}, Bound{sym: "C", off: -1})
		}
		return &c
	}
	w.Field = func(o *Obj, st *types.Named, field string) *Val {
		v := prev(o, st, field)
		if only != nil && o != nil && o != only {
			return v
		}
		switch {
		case kind == "R" && st == p.Table && field == "rows",
			kind == "C" && st == p.Table && (field == "colNames" || field == "colTypes" || field == "colNamesMap"),
			kind == "K" && st == p.TSet && field == "tables":
			v = sub(v)
		}
		if kind == "C" && st == p.Table && field == "rows" && v != nil && v.elem != nil {
			c := *v
			e := *v.elem
			e.ln = symVal("C", 0)
			e.str = ""
			c.elem = &e
			c.str = ""
			v = &c
		}
		return v
	}
}
