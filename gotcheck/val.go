package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.  A *Val is immutable once published.
//
// The domain is a reduced product of: nilness, small constant sets (strings,
// booleans, floats), integer intervals whose bounds may be symbolic (sym+k,
// e.g. "number of rows - 1"), dynamic type of interface values, identity of
// the abstract object pointed to, slice length and element, statically known
// function values, tuples of alternatives (so that (value, error) pairs stay
// correlated) and provenance labels.

const (
	mayNil = 1
	mayNon = 2
)

type Bound struct {
	inf int8 // -1, 0, +1
	sym string
	off int64
}

func (b Bound) String() string {
	switch {
	case b.inf < 0:
		return "-inf"
	case b.inf > 0:
		return "+inf"
	case b.sym == "":
		return fmt.Sprint(b.off)
	case b.off == 0:
		return b.sym
	default:
		return fmt.Sprintf("%s%+d", b.sym, b.off)
	}
}

var negInf = Bound{inf: -1}
var posInf = Bound{inf: 1}

// Obj is an abstract object (memory region).
type Obj struct {
	id    string
	fresh bool       // allocated during the analysed call: unset fields are zero
	typ   types.Type // pointee type
	site  ssa.Value  // allocation site, if any
	depth int        // number of call sites in the identity
}

type Label uint64

type Val struct {
	nilb  uint8
	num   bool
	lo    Bound
	hi    Bound
	cs    []constant.Value // sorted by ExactString; nil: unknown
	dyn   types.Type       // dynamic type, when this is a non-nil interface value of known type
	inner *Val
	obj   *Obj   // pointee / backing store
	field string // when obj is set: address of this field of obj ("" = obj itself, "[*]" elements)
	ln    *Val   // length (numeric Val) for slices/strings/maps
	elem  *Val   // element value for slices not backed by obj
	fn    *ssa.Function
	binds []*Val
	glob  *ssa.Global // value loaded from this never-reassigned global
	tup   [][]*Val
	flds  []*Val // field values of a struct value
	paddr *Val   // address of an element: the container
	pidx  *Val
	lab   Label
	tag   string // identity of the concrete value, kept by copies only
	cont  int32  // tracked container this slice, array pointer or map refers to (0: none)
	clo   int    // range of it
	chi   int
	ty    *types.Named // anonymous struct pointee: static type (for default field loads)
	str   string       // cached key
}

var Top = &Val{nilb: mayNil | mayNon}
var NonNil = &Val{nilb: mayNon}
var NilVal = &Val{nilb: mayNil}

func withLab(v *Val, l Label) *Val {
	if v.lab|l == v.lab {
		return v
	}
	c := *v
	c.lab |= l
	c.str = ""
	return &c
}

func withTag(v *Val, t string) *Val {
	c := *v
	c.tag = t
	c.str = ""
	return &c
}

func setLab(v *Val, l Label) *Val {
	if v.lab == l {
		return v
	}
	c := *v
	c.lab = l
	c.str = ""
	return &c
}

func intVal(k int64) *Val {
	b := Bound{off: k}
	return &Val{nilb: mayNon, num: true, lo: b, hi: b}
}

func symVal(s string, k int64) *Val {
	b := Bound{sym: s, off: k}
	return &Val{nilb: mayNon, num: true, lo: b, hi: b}
}

func rangeVal(lo, hi Bound) *Val { return &Val{nilb: mayNon, num: true, lo: lo, hi: hi} }

func constVal(c constant.Value) *Val {
	if c == nil {
		return NilVal
	}
	if c.Kind() == constant.Int {
		if i, ok := constant.Int64Val(c); ok {
			return intVal(i)
		}
	}
	v := &Val{nilb: mayNon, cs: []constant.Value{c}}
	if c.Kind() == constant.String {
		v.ln = intVal(int64(len(constant.StringVal(c))))
	}
	return v
}

func strVal(s string) *Val { return constVal(constant.MakeString(s)) }
func boolVal(b bool) *Val  { return constVal(constant.MakeBool(b)) }

var TrueVal = boolVal(true)
var FalseVal = boolVal(false)
var BoolTop = &Val{nilb: mayNon, cs: []constant.Value{constant.MakeBool(false), constant.MakeBool(true)}}

func (v *Val) isTrue() bool {
	return len(v.cs) == 1 && v.cs[0].Kind() == constant.Bool && constant.BoolVal(v.cs[0])
}
func (v *Val) isFalse() bool {
	return len(v.cs) == 1 && v.cs[0].Kind() == constant.Bool && !constant.BoolVal(v.cs[0])
}
func (v *Val) isNil() bool    { return v.nilb == mayNil }
func (v *Val) isNonNil() bool { return v.nilb == mayNon }
func (v *Val) str1() (string, bool) {
	if len(v.cs) == 1 && v.cs[0].Kind() == constant.String {
		return constant.StringVal(v.cs[0]), true
	}
	return "", false
}
func (v *Val) int1() (int64, bool) {
	if v.num && v.lo == v.hi && v.lo.inf == 0 && v.lo.sym == "" {
		return v.lo.off, true
	}
	return 0, false
}

func (v *Val) key() string {
	if v == nil {
		return "_"
	}
	if v.str != "" {
		return v.str
	}
	var b strings.Builder
	fmt.Fprintf(&b, "n%d", v.nilb)
	if v.num {
		fmt.Fprintf(&b, "[%s,%s]", v.lo, v.hi)
	}
	for _, c := range v.cs {
		b.WriteString("c")
		b.WriteString(c.ExactString())
	}
	if v.dyn != nil {
		b.WriteString("d")
		b.WriteString(v.dyn.String())
	}
	if v.inner != nil {
		b.WriteString("(" + v.inner.key() + ")")
	}
	if v.obj != nil {
		b.WriteString("o" + v.obj.id + "." + v.field)
	}
	if v.ln != nil {
		b.WriteString("l" + v.ln.key())
	}
	if v.elem != nil {
		b.WriteString("e{" + v.elem.key() + "}")
	}
	if v.fn != nil {
		b.WriteString("f" + v.fn.String())
		for _, x := range v.binds {
			b.WriteString("," + x.key())
		}
	}
	if v.glob != nil {
		b.WriteString("g" + v.glob.Name())
	}
	for _, t := range v.tup {
		b.WriteString("<")
		for _, x := range t {
			b.WriteString(x.key() + ";")
		}
		b.WriteString(">")
	}
	if v.flds != nil {
		b.WriteString("S{")
		for _, x := range v.flds {
			b.WriteString(x.key() + ";")
		}
		b.WriteString("}")
	}
	if v.paddr != nil {
		b.WriteString("@" + v.paddr.key() + "#" + v.pidx.key() + "." + v.field)
	}
	if v.lab != 0 {
		fmt.Fprintf(&b, "L%x", uint64(v.lab))
	}
	if v.tag != "" {
		b.WriteString("T" + v.tag)
	}
	if v.ty != nil {
		b.WriteString("t" + v.ty.Obj().Name())
	}
	if v.cont != 0 {
		fmt.Fprintf(&b, "V%d:%d:%d", v.cont, v.clo, v.chi)
	}
	v.str = b.String()
	return v.str
}

func same(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.key() == b.key()
}

// leq: provably a <= b.
func leq(a, b Bound) bool {
	if a.inf < 0 || b.inf > 0 {
		return true
	}
	if a.inf > 0 || b.inf < 0 {
		return false
	}
	if a.sym == b.sym {
		return a.off <= b.off
	}
	if a.sym == "" { // constant <= sym+off, sym >= symMin
		return a.off <= symMin(b.sym)+b.off
	}
	return false
}

// symMin is the least value of a symbolic count.
func symMin(s string) int64 {
	if n := len(s); n > 0 && s[n-1] >= '1' && s[n-1] <= '9' { // counts named ...1 are at least one
		return int64(s[n-1] - '0')
	}
	return 0
}

func addB(a Bound, k int64) Bound {
	if a.inf != 0 {
		return a
	}
	a.off += k
	return a
}

func joinLo(a, b Bound) Bound {
	if leq(a, b) {
		return a
	}
	if leq(b, a) {
		return b
	}
	// constant vs symbol: fall to constant minimum if known
	if a.inf == 0 && b.inf == 0 {
		x := lowConst(a)
		y := lowConst(b)
		if x < y {
			return Bound{off: x}
		}
		return Bound{off: y}
	}
	return negInf
}

func lowConst(a Bound) int64 {
	if a.sym == "" {
		return a.off
	}
	return symMin(a.sym) + a.off
}

func joinHi(a, b Bound) Bound {
	if leq(a, b) {
		return b
	}
	if leq(b, a) {
		return a
	}
	return posInf
}

func meetLo(a, b Bound) Bound {
	if leq(a, b) {
		return b
	}
	if leq(b, a) {
		return a
	}
	// incomparable: prefer the symbolic one (more informative for index checks)
	if a.sym != "" {
		return a
	}
	return b
}

func meetHi(a, b Bound) Bound {
	if leq(a, b) {
		return a
	}
	if leq(b, a) {
		return b
	}
	if a.sym != "" {
		return a
	}
	return b
}

func joinCS(a, b []constant.Value) []constant.Value {
	if a == nil || b == nil {
		return nil
	}
	m := map[string]constant.Value{}
	for _, c := range a {
		m[c.ExactString()] = c
	}
	for _, c := range b {
		m[c.ExactString()] = c
	}
	if len(m) > 24 {
		return nil
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]constant.Value, 0, len(ks))
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

const maxAlts = 12

func join(a, b *Val) *Val { return joinW(a, b, false, 0) }

func joinW(a, b *Val, widen bool, depth int) *Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a == b || same(a, b) {
		return a
	}
	if depth > 6 {
		return &Val{nilb: a.nilb | b.nilb, lab: a.lab | b.lab}
	}
	r := &Val{nilb: a.nilb | b.nilb, lab: a.lab | b.lab}
	if a.tag == b.tag {
		r.tag = a.tag
	}
	if a.cont == b.cont && a.clo == b.clo && a.chi == b.chi {
		r.cont, r.clo, r.chi = a.cont, a.clo, a.chi
	}
	aNil, bNil := a.nilb == mayNil, b.nilb == mayNil
	if a.num && b.num {
		r.num = true
		r.lo = joinLo(a.lo, b.lo)
		r.hi = joinHi(a.hi, b.hi)
		if widen {
			if r.lo != a.lo {
				r.lo = negInf
				// a common, useful threshold
				if leq(Bound{off: 0}, a.lo) && leq(Bound{off: 0}, b.lo) {
					r.lo = Bound{off: 0}
				}
			}
			if r.hi != a.hi {
				r.hi = posInf
			}
		}
		if r.lo.inf != 0 && r.hi.inf != 0 {
			r.num = false
			r.lo, r.hi = Bound{}, Bound{}
		}
	}
	r.cs = joinCS(a.cs, b.cs)
	pick := func() (x *Val, both bool) {
		// information about the non-nil part survives joining with nil
		if aNil && !bNil {
			return b, false
		}
		if bNil && !aNil {
			return a, false
		}
		return nil, true
	}
	if x, both := pick(); !both {
		r.dyn, r.inner, r.obj, r.field, r.fn, r.binds, r.glob, r.ty, r.elem = x.dyn, x.inner, x.obj, x.field, x.fn, x.binds, x.glob, x.ty, x.elem
		r.paddr, r.pidx = x.paddr, x.pidx
		r.num, r.lo, r.hi, r.cs = x.num, x.lo, x.hi, x.cs
		if x.ln != nil {
			r.ln = joinW(x.ln, intVal(0), widen, depth+1)
		}
		return r
	}
	if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
		r.dyn = a.dyn
		r.inner = joinW(a.inner, b.inner, widen, depth+1)
	}
	if a.obj == b.obj && a.field == b.field {
		r.obj, r.field = a.obj, a.field
	} else if a.obj != nil || b.obj != nil {
		if a.ty != nil || b.ty != nil {
			r.ty = a.ty
			if r.ty == nil {
				r.ty = b.ty
			}
		}
	}
	if a.ty == b.ty {
		r.ty = a.ty
	}
	if a.ln != nil && b.ln != nil {
		r.ln = joinW(a.ln, b.ln, widen, depth+1)
		if !r.ln.num {
			r.ln = nil
		}
	}
	if a.elem != nil && b.elem != nil {
		r.elem = joinW(a.elem, b.elem, widen, depth+1)
	} else if a.elem != nil && b.ln != nil && isZeroLen(b.ln) {
		r.elem = a.elem
	} else if b.elem != nil && a.ln != nil && isZeroLen(a.ln) {
		r.elem = b.elem
	}
	if a.fn == b.fn && len(a.binds) == len(b.binds) {
		r.fn = a.fn
		for i := range a.binds {
			r.binds = append(r.binds, joinW(a.binds[i], b.binds[i], widen, depth+1))
		}
	}
	if a.glob == b.glob {
		r.glob = a.glob
	}
	if len(a.flds) > 0 && len(a.flds) == len(b.flds) {
		for i := range a.flds {
			r.flds = append(r.flds, joinW(a.flds[i], b.flds[i], widen, depth+1))
		}
	}
	if a.tup != nil && b.tup != nil {
		r.tup = joinAlts(a.tup, b.tup, widen, depth)
	}
	if a.paddr != nil && b.paddr != nil && a.field == b.field {
		r.field = a.field
		r.paddr = joinW(a.paddr, b.paddr, widen, depth+1)
		r.pidx = joinW(a.pidx, b.pidx, widen, depth+1)
	}
	return r
}

func isZeroLen(v *Val) bool { k, ok := v.int1(); return ok && k == 0 }

func altSig(t []*Val) string {
	var b strings.Builder
	for _, x := range t {
		if x == nil {
			b.WriteByte('_')
			continue
		}
		fmt.Fprintf(&b, "%d", x.nilb)
		if len(x.cs) == 1 && x.cs[0].Kind() == constant.Bool {
			b.WriteString(x.cs[0].ExactString())
		}
		b.WriteByte(';')
	}
	return b.String()
}

func joinAlts(a, b [][]*Val, widen bool, depth int) [][]*Val {
	m := map[string][]*Val{}
	var order []string
	add := func(t []*Val) {
		s := altSig(t)
		if o, ok := m[s]; ok {
			n := make([]*Val, len(o))
			for i := range o {
				n[i] = joinW(o[i], t[i], widen, depth+1)
			}
			m[s] = n
		} else {
			m[s] = t
			order = append(order, s)
		}
	}
	for _, t := range a {
		add(t)
	}
	for _, t := range b {
		add(t)
	}
	sort.Strings(order)
	out := make([][]*Val, 0, len(order))
	for _, s := range order {
		out = append(out, m[s])
	}
	for len(out) > maxAlts {
		x, y := out[len(out)-2], out[len(out)-1]
		n := make([]*Val, len(x))
		for i := range x {
			n[i] = joinW(x[i], y[i], widen, depth+1)
		}
		out = append(out[:len(out)-2], n)
	}
	return out
}

// compare decides x op y; returns +1 true, -1 false, 0 unknown.
func compare(op token.Token, x, y *Val) int {
	tri := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	switch op {
	case token.NEQ:
		return -compare(token.EQL, x, y)
	case token.EQL:
		if x.isNil() && y.isNil() {
			return 1
		}
		if x.isNil() && y.isNonNil() || y.isNil() && x.isNonNil() {
			return -1
		}
		if x.tag == "EOF" && y.tag == "notEOF" || y.tag == "EOF" && x.tag == "notEOF" {
			return -1
		}
		if x.tag == "EOF" && y.tag == "EOF" {
			return 1
		}
		if x.num && y.num {
			if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo && x.lo.inf == 0 {
				return 1
			}
			if leq(addB(x.hi, 1), y.lo) && x.hi.inf == 0 && y.lo.inf == 0 || leq(addB(y.hi, 1), x.lo) && y.hi.inf == 0 && x.lo.inf == 0 {
				return -1
			}
			return 0
		}
		if len(x.cs) > 0 && len(y.cs) > 0 {
			if len(x.cs) == 1 && len(y.cs) == 1 {
				if x.cs[0].Kind() == y.cs[0].Kind() || (x.cs[0].Kind() != constant.String && y.cs[0].Kind() != constant.String && x.cs[0].Kind() != constant.Bool && y.cs[0].Kind() != constant.Bool) {
					return tri(constant.Compare(x.cs[0], token.EQL, y.cs[0]))
				}
				return 0
			}
			for _, a := range x.cs {
				for _, b := range y.cs {
					if a.Kind() != b.Kind() || constant.Compare(a, token.EQL, b) {
						return 0
					}
				}
			}
			return -1
		}
		// string against "" by length
		if s, ok := y.str1(); ok && s == "" && x.ln != nil && x.ln.num && leq(Bound{off: 1}, x.ln.lo) {
			return -1
		}
		if x.dyn != nil && y.dyn != nil && !types.Identical(x.dyn, y.dyn) {
			return -1
		}
		return 0
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR {
			return compare(token.LSS, y, x)
		}
		if op == token.GEQ {
			return compare(token.LEQ, y, x)
		}
		if x.num && y.num {
			k := int64(0)
			if op == token.LSS {
				k = 1
			}
			// x + k <= y
			if x.hi.inf == 0 && y.lo.inf == 0 && leq(addB(x.hi, k), y.lo) {
				return 1
			}
			// not: y + (1-k) <= x
			if y.hi.inf == 0 && x.lo.inf == 0 && leq(addB(y.hi, 1-k), x.lo) {
				return -1
			}
		}
		if len(x.cs) == 1 && len(y.cs) == 1 && x.cs[0].Kind() == y.cs[0].Kind() && x.cs[0].Kind() != constant.Bool {
			return tri(constant.Compare(x.cs[0], op, y.cs[0]))
		}
		return 0
	}
	return 0
}

// dup is a copy that may be changed.
func (v *Val) dup() Val {
	c := *v
	c.str = ""
	return c
}
