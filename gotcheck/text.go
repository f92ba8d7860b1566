package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Symbolic text.  A string whose content is partly unknown is a sequence of
// pieces: literal text, and renderings of symbols (the value of a cell, a
// name).  The pieces are kept in the tag of the value, so that copies keep them
// and joins of different texts forget them.  The functions of the standard
// library which write and read text are modelled on such sequences: writing
// gives a rendering, and reading a rendering back gives the symbol again if
// (and only if) nothing of its value is lost.

// Renderings of a symbol.
const (
	fRaw  = "raw"   // the text of a string itself
	fJSON = "jq"    // a string as JSON, with quotes
	fGo   = "gq"    // a string as Go source, with quotes
	fDec  = "dec"   // an integer in decimal
	fFlt  = "flt"   // a floating-point number, shortest form for 64 bits
	fF32  = "flt32" // the same for 32 bits
	fBool = "bool"  // true or false
	fChr  = "chr"   // a rune as text
	fChrQ = "cq"    // a rune as Go source, with single quotes
	fChrJ = "cj"    // a rune as a JSON string, with quotes
	fChrG = "cg"    // a rune as a Go string, with quotes
	fTime = "time"  // a time, with its nanoseconds
	fTimS = "tims"  // a time in whole seconds
	fLoss = "?"     // something the symbol cannot be recovered from
)

type piece struct {
	lit  string // literal text, if form is empty
	form string
	sym  string
}

func textTag(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		if p.form == "" {
			b.WriteString(p.lit)
		} else {
			b.WriteString("\x01" + p.form + "\x02" + p.sym + "\x03")
		}
	}
	return b.String()
}

func pieces(s string) (ps []piece) {
	for s != "" {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			return append(ps, piece{lit: s})
		}
		if i > 0 {
			ps = append(ps, piece{lit: s[:i]})
		}
		s = s[i+1:]
		j, k := strings.IndexByte(s, 2), strings.IndexByte(s, 3)
		ps = append(ps, piece{form: s[:j], sym: s[j+1 : k]})
		s = s[k+1:]
	}
	return
}

func sym1(form, sym string) string { return "\x01" + form + "\x02" + sym + "\x03" }

// textOf is the text of a string value.
func textOf(v *Val) (string, bool) {
	if s, ok := v.str1(); ok {
		return s, true
	}
	switch {
	case v.tag == "":
		return "", false
	case strings.IndexByte(v.tag, 1) >= 0:
		return v.tag, true
	}
	return sym1(fRaw, v.tag), true
}

// textVal is the string value with this text.
func textVal(s string) *Val {
	if strings.IndexByte(s, 1) < 0 {
		return strVal(s)
	}
	if ps := pieces(s); len(ps) == 1 && ps[0].form == fRaw {
		return &Val{nilb: mayNon, tag: ps[0].sym}
	}
	return &Val{nilb: mayNon, tag: s}
}

// textWorld adds the models of text to a world.
type textWorld struct {
	p     *Program
	typ   func(sym string) string // declared type of a symbol ("string" for texts)
	name  func(sym string) bool   // the symbol is a valid name
	notes map[string]bool         // documents that are not what they should be
	nanos bool                    // times have nanoseconds
	big   bool                    // unsigned integers exceed the signed ones
	whole bool                    // floating-point numbers are whole numbers
	rev   bool                    // maps are ranged over in the reverse order of their keys

	// a place of the value being encoded or decoded as GOB, and what is there instead
	gobAt   string
	gobEdit func(in *Interp, st *State, at string, x *Val, t types.Type) *Val

	nums map[string]*Val // integers of known range
	huge map[string]bool // numbers too large for a float32

	// text of known layout (nil: the other forms)
	tm       func(form, sym string) []bset // template of a rendering
	times    map[string]time.Time          // a time like the symbol
	floats   map[string]string             // symbols for 0, NaN and infinities
	repFloat func(sym string) float64      // a number like the symbol
	val      func(sym string) *Val         // the range of the symbol
}

func (tw *textWorld) note(format string, args ...interface{}) {
	tw.notes[fmt.Sprintf(format, args...)] = true
}

// intBits gives the size and signedness of an integer type.
func intBits(t string) (bits int, signed, ok bool) {
	switch t {
	case "int", "int64":
		return 64, true, true
	case "int8":
		return 8, true, true
	case "int16":
		return 16, true, true
	case "int32", "rune":
		return 32, true, true
	case "uint", "uint64", "uintptr":
		return 64, false, true
	case "uint8", "byte":
		return 8, false, true
	case "uint16":
		return 16, false, true
	case "uint32":
		return 32, false, true
	}
	return 0, false, false
}

// fits: every value of integer type t is a value of an integer of this size.
func fits(t string, bits int, signed bool) bool {
	b, s, ok := intBits(t)
	if !ok {
		return false
	}
	switch {
	case s == signed:
		return b <= bits
	case s:
		return false
	}
	return b < bits
}

func (tw *textWorld) isFloat(t string) bool { return t == "float32" || t == "float64" }

// quote is the text of a string as Go source.
func (tw *textWorld) quote(s string, form string) string {
	ps := pieces(s)
	if len(ps) == 1 && ps[0].form == fRaw && !tw.name(ps[0].sym) {
		return sym1(form, ps[0].sym)
	}
	if len(ps) == 1 && ps[0].form == fChr {
		if form == fJSON {
			return sym1(fChrJ, ps[0].sym)
		}
		return sym1(fChrG, ps[0].sym)
	}
	out := `"`
	for _, p := range ps {
		switch {
		case p.form == "":
			q := strconv.Quote(p.lit)
			out += q[1 : len(q)-1]
		case p.form == fRaw && tw.name(p.sym), p.form == fDec, p.form == fBool, p.form == fFlt, p.form == fF32, p.form == fTime, p.form == fTimS:
			out += sym1(p.form, p.sym)
		default:
			out += sym1(fLoss, p.sym)
		}
	}
	return out + `"`
}

// render is the text of one operand of a formatting verb.
func (tw *textWorld) render(in *Interp, st *State, v *Val, verb rune) string {
	var t types.Type
	x := v
	if v.dyn != nil {
		t = v.dyn
		if v.inner != nil {
			x = v.inner
		}
	}
	lost := lossOf(x)
	if isSym(x) {
		lost = sym1(fLoss, x.tag)
	}
	if t == nil {
		return lost
	}
	if n := named(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number" {
		t = types.Typ[types.String]
	}
	if n := named(t); n != nil && n.Obj().Name() != "byte" && n.Obj().Name() != "rune" {
		return lost // may have its own way of writing itself
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := textOf(x)
			switch {
			case ok && (verb == 's' || verb == 'v'):
				return s
			case ok && verb == 'q':
				return tw.quote(s, fGo)
			}
		case u.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
			if len(x.cs) == 1 {
				return x.cs[0].String()
			}
			if x.tag != "" {
				return sym1(fBool, x.tag)
			}
		case u.Info()&types.IsInteger != 0:
			k, isK := x.int1()
			switch verb {
			case 'd', 'v':
				if isK {
					return strconv.FormatInt(k, 10)
				}
				if isSym(x) {
					return sym1(fDec, x.tag)
				}
			case 'c':
				if isK {
					return string(rune(k))
				}
				if isSym(x) {
					return sym1(fChr, x.tag)
				}
			case 'q':
				if isK {
					return strconv.QuoteRune(rune(k))
				}
				if isSym(x) {
					return sym1(fChrQ, x.tag)
				}
			}
		case u.Info()&types.IsFloat != 0 && tw.tm != nil && x.tag != "":
			bits := 64
			if u.Kind() == types.Float32 {
				bits = 32
			}
			switch verb {
			case 'v':
				return tw.fmtFloat(x.tag, 'g', -1, bits)
			case 'g', 'G':
				return tw.fmtFloat(x.tag, byte(verb), -1, bits)
			case 'f', 'e', 'E':
				return tw.fmtFloat(x.tag, byte(verb), 6, bits)
			}
		case u.Info()&types.IsFloat != 0 && (verb == 'v' || verb == 'g'):
			if isSym(x) {
				if u.Kind() == types.Float32 {
					return sym1(fF32, x.tag)
				}
				return sym1(fFlt, x.tag)
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 'v' || verb == 'd') {
			es, ok := in.seq(st, x)
			if !ok {
				return lost
			}
			var ss []string
			for _, e := range es {
				ss = append(ss, tw.render(in, st, &Val{nilb: mayNon, dyn: types.Typ[types.Uint8], inner: e}, 'd'))
			}
			return "[" + strings.Join(ss, " ") + "]"
		}
	}
	return lost
}

// isSym: the value is a symbol itself (not a text made from it).
func isSym(v *Val) bool { return v.tag != "" && strings.IndexByte(v.tag, 1) < 0 }

func (tw *textWorld) sprintf(in *Interp, st *State, format string, args []*Val) (string, bool) {
	if tw.tm != nil {
		return tw.tsprintf(in, st, format, args)
	}
	var b strings.Builder
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			b.WriteByte(format[i])
			continue
		}
		i++
		j := i
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return "", false
		}
		flags := format[i:j]
		verb, w := utf8.DecodeRuneInString(format[j:])
		i = j + w - 1
		if verb == '%' && flags == "" {
			b.WriteByte('%')
			continue
		}
		if verb == '*' || k >= len(args) {
			return "", false
		}
		s := tw.render(in, st, args[k], verb)
		if flags != "" {
			if strings.IndexByte(s, 1) < 0 && args[k].dyn != nil && args[k].inner != nil { // a constant
				if n, ok := args[k].inner.int1(); ok {
					s = fmt.Sprintf("%"+flags+string(verb), n)
				} else if c, ok := args[k].inner.str1(); ok {
					s = fmt.Sprintf("%"+flags+string(verb), c)
				} else {
					s = sym1(fLoss, "")
				}
			} else if strings.Trim(flags, "-0123456789") == "" && flags[0] != '0' {
				s = pad(s, flags[0] == '-')
			} else {
				s = sym1(fLoss, "")
			}
		}
		b.WriteString(s)
		k++
	}
	if k != len(args) {
		return "", false
	}
	return b.String(), true
}

// pad: spaces may be added to reach some width.
func pad(s string, right bool) string {
	if right {
		return s + sym1(fPad, "")
	}
	return sym1(fPad, "") + s
}

const fPad = "pad" // any number of spaces

// exact: the symbol can be recovered from its rendering.
func (tw *textWorld) exact(p piece) bool {
	t := tw.typ(p.sym)
	_, _, isInt := intBits(t)
	switch p.form {
	case fDec:
		return isInt || tw.whole && tw.isFloat(t)
	case fFlt:
		return tw.isFloat(t)
	case fF32:
		return t == "float32"
	case fBool:
		return t == "bool"
	case fChr, fChrQ, fChrJ, fChrG:
		return t == "rune" || t == "int32"
	case fTime:
		return t == "time.Time"
	case fTimS:
		return t == "time.Time" && !tw.nanos
	case fRaw, fJSON, fGo:
		return t == "string"
	}
	return false
}

// ref is where a pointer to a buffer points to.
func bufKey(v *Val) (memKey, bool) {
	if v == nil || v.obj == nil {
		return memKey{}, false
	}
	return memKey{v.obj, v.field}, true
}

// content is what a buffer holds.
func (tw *textWorld) content(in *Interp, st *State, p *Val, t types.Type) *Val {
	if k, ok := bufKey(p); ok {
		if v := in.heapOf(st.flags).fld[k]; v != nil {
			return v
		}
		if p.obj.fresh {
			return strVal("")
		}
		return Top
	}
	return in.load(st, p, t)
}

func (tw *textWorld) setContent(in *Interp, st *State, p, v *Val) {
	k, ok := bufKey(p)
	if !ok {
		in.loseHeap(st)
		return
	}
	h := in.heapOf(st.flags)
	if h.lost {
		return
	}
	h = h.clone()
	fld := map[memKey]*Val{k: v}
	for q, x := range h.fld {
		if q != k {
			fld[q] = x
		}
	}
	h.fld = fld
	in.setHeap(st, h)
}

func (tw *textWorld) write(in *Interp, st *State, p *Val, s string, ok bool, t types.Type) {
	old, ok2 := textOf(tw.content(in, st, p, t))
	if !ok || !ok2 {
		s, old = sym1(fLoss, ""), ""
	}
	tw.setContent(in, st, p, textVal(old+s))
}

// call models functions of the standard library.
func (tw *textWorld) call(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
	if in.P.inPkg(fn) && fn.Signature.Recv() == nil && len(args) == 1 && isString(fn.Params[0].Type()) && fn.Signature.Results().Len() > 0 && isSym(args[0]) && tw.name(args[0].tag) {
		// what holds for some valid names holds for a name of the world
		if vals := in.P.ofNames(fn); vals != nil {
			return []Ret{{vals: vals, flags: st.flags}}, true
		}
	}
	if fn.Pkg == nil && fn.Signature.Recv() == nil || in.P.inPkg(fn) {
		return nil, false
	}
	ret := func(vs ...*Val) ([]Ret, bool) { return []Ret{{vals: vs, flags: st.flags}}, true }
	txt := func(s string, ok bool) ([]Ret, bool) {
		if !ok {
			return ret(&Val{nilb: mayNon})
		}
		return ret(textVal(s))
	}
	name := extName(fn)
	if tw.tm != nil {
		if rs, ok := tw.tcall(in, a, st, i, fn, name, args); ok {
			return rs, true
		}
	}
	variadic := func(k int) ([]*Val, bool) {
		if len(args) <= k {
			return nil, true
		}
		if args[k].isNil() {
			return nil, true
		}
		return in.seq(st, args[k])
	}
	var bt types.Type
	if r := fn.Signature.Recv(); r != nil {
		if pt, ok := r.Type().Underlying().(*types.Pointer); ok {
			bt = pt.Elem()
		}
	}
	switch name {
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).WriteString":
		s, ok := textOf(args[1])
		tw.write(in, st, args[0], s, ok, bt)
		return ret(rangeVal(Bound{}, posInf), NilVal)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		s, ok := "", false
		if k, isK := args[1].int1(); isK {
			s, ok = string(rune(k)), true
			if strings.HasSuffix(name, "Byte") {
				s = string([]byte{byte(k)})
			}
		} else if isSym(args[1]) {
			s, ok = sym1(fChr, args[1].tag), true
		}
		tw.write(in, st, args[0], s, ok, bt)
		if strings.HasSuffix(name, "Byte") {
			return ret(NilVal)
		}
		return ret(rangeVal(Bound{}, posInf), NilVal)
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return ret(tw.content(in, st, args[0], bt))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if s, ok := textOf(tw.content(in, st, args[0], bt)); ok {
			return ret(tw.textLen(s))
		}
		return ret(rangeVal(Bound{}, posInf))
	case "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		n := int64(0)
		if len(args) > 1 {
			k, ok := args[1].int1()
			if !ok {
				tw.setContent(in, st, args[0], &Val{nilb: mayNon})
				return ret()
			}
			n = k
		}
		s, ok := textOf(tw.content(in, st, args[0], bt))
		if n != 0 && (!ok || strings.IndexByte(s, 1) >= 0 || int(n) > len(s)) {
			tw.setContent(in, st, args[0], &Val{nilb: mayNon})
			return ret()
		}
		tw.setContent(in, st, args[0], textVal(s[:n]))
		return ret()
	case "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader", "bytes.NewReader":
		o := in.obj(in.siteID(a.fn, i.Value().Name()), true, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), nil)
		v := ptrTo(o)
		c := args[0]
		if c.isNil() {
			c = strVal("")
		}
		tw.setContent(in, st, v, c)
		return ret(v)
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if args[0].dyn == nil || args[0].inner == nil {
			return nil, false
		}
		pt, ok := args[0].dyn.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		s, ok2 := "", false
		if name == "fmt.Fprintf" {
			if f, isK := args[1].str1(); isK {
				if vs, ok := variadic(2); ok {
					s, ok2 = tw.sprintf(in, st, f, vs)
				}
			}
		}
		tw.write(in, st, args[0].inner, s, ok2, pt.Elem())
		return ret(rangeVal(Bound{}, posInf), NilVal)
	case "fmt.Sprintf":
		f, ok := args[0].str1()
		if !ok {
			return txt("", false)
		}
		vs, ok := variadic(1)
		if !ok {
			return txt("", false)
		}
		s, ok := tw.sprintf(in, st, f, vs)
		return txt(s, ok)
	case "fmt.Sprintln":
		vs, ok := variadic(0)
		s := ""
		for k, v := range vs {
			if k > 0 {
				s += " "
			}
			s += tw.render(in, st, v, 'v')
		}
		return txt(s+"\n", ok)
	case "fmt.Sprint":
		vs, ok := variadic(0)
		if ok && len(vs) == 1 {
			return txt(tw.render(in, st, vs[0], 'v'), true)
		}
		return txt("", false)
	case "strconv.Quote":
		s, ok := textOf(args[0])
		return txt(tw.quote(s, fGo), ok)
	case "strconv.QuoteRune":
		if isSym(args[0]) {
			return txt(sym1(fChrQ, args[0].tag), true)
		}
		return nil, false
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if len(args) > 1 {
			if b, ok := args[1].int1(); !ok || b != 10 {
				return txt(sym1(fLoss, ""), true)
			}
		}
		if k, ok := args[0].int1(); ok {
			return txt(strconv.FormatInt(k, 10), true)
		}
		if !isSym(args[0]) && args[0].tag != "" {
			return txt(lossOf(args[0]), true)
		}
		return txt(sym1(fDec, args[0].tag), isSym(args[0]))
	case "strconv.FormatBool":
		if len(args[0].cs) == 1 {
			return txt(args[0].cs[0].String(), true)
		}
		return txt(sym1(fBool, args[0].tag), isSym(args[0]))
	case "strconv.FormatFloat":
		f, ok := args[1].int1()
		prec, ok2 := args[2].int1()
		bits, ok3 := args[3].int1()
		if !isSym(args[0]) || !ok || !ok2 || !ok3 {
			return txt(sym1(fLoss, ""), true)
		}
		switch {
		case prec != -1 || strings.IndexByte("feEgG", byte(f)) < 0:
			return txt(sym1(fLoss, args[0].tag), true)
		case bits == 32:
			return txt(sym1(fF32, args[0].tag), true)
		}
		return txt(sym1(fFlt, args[0].tag), true)
	case "(time.Time).Format", "(time.Time).String":
		if !isSym(args[0]) {
			return txt("", false)
		}
		if name == "(time.Time).Format" {
			switch l, _ := args[1].str1(); l {
			case "2006-01-02T15:04:05.999999999Z07:00":
				return txt(sym1(fTime, args[0].tag), true)
			case "2006-01-02T15:04:05Z07:00":
				return txt(sym1(fTimS, args[0].tag), true)
			}
		}
		return txt(sym1(fLoss, args[0].tag), true)
	case "(time.Time).Nanosecond":
		if isSym(args[0]) {
			if tw.nanos {
				return ret(rangeVal(Bound{off: 1}, Bound{off: 999999999}))
			}
			return ret(intVal(0))
		}
		return nil, false
	case "time.Parse":
		l, _ := args[0].str1()
		s, ok := textOf(args[1])
		ps := pieces(s)
		if ok && len(ps) == 1 && (ps[0].form == fTime || ps[0].form == fTimS) && strings.HasPrefix(l, "2006-01-02T15:04:05") && strings.HasSuffix(l, "Z07:00") {
			v := &Val{nilb: mayNon}
			if tw.exact(ps[0]) {
				v.tag = ps[0].sym
			} else {
				v.tag = sym1(fLoss, ps[0].sym)
			}
			return ret(v, NilVal)
		}
		if c, ok2 := args[1].str1(); ok2 && !strings.ContainsRune(c, 1) || ok && len(ps) <= 1 && !strings.ContainsRune(s, 1) {
			if !ok2 {
				c = s
			}
			if l, ok := args[0].str1(); ok {
				if _, err := time.Parse(l, c); err != nil {
					return ret(&Val{nilb: mayNon}, NonNil)
				}
				return ret(&Val{nilb: mayNon}, NilVal)
			}
		}
		return nil, false
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		bits, base := int64(64), int64(10)
		if len(args) == 3 {
			b, ok := args[1].int1()
			n, ok2 := args[2].int1()
			if !ok || !ok2 {
				return nil, false
			}
			base, bits = b, n
			if bits == 0 {
				bits = 64
			}
		}
		return tw.parseInt(in, st, args[0], base, int(bits), name != "strconv.ParseUint")
	case "(encoding/json.Number).Int64":
		return tw.parseInt(in, st, args[0], 10, 64, true)
	case "(encoding/json.Number).String":
		return ret(args[0])
	case "strconv.ParseFloat", "(encoding/json.Number).Float64":
		bits := int64(64)
		if len(args) == 2 {
			b, ok := args[1].int1()
			if !ok {
				return nil, false
			}
			bits = b
		}
		s, ok := textOf(args[0])
		ps := pieces(s)
		v := &Val{nilb: mayNon}
		if ok && len(ps) == 1 && ps[0].form == fLoss {
			v.tag = s
			return []Ret{{vals: []*Val{v, NilVal}, flags: st.flags}, {vals: []*Val{{nilb: mayNon}, NonNil}, flags: st.flags}}, true
		}
		if ok && len(ps) == 1 && (ps[0].form == fFlt || ps[0].form == fF32 || ps[0].form == fDec) {
			t := tw.typ(ps[0].sym)
			if tw.huge[ps[0].sym] && bits == 32 {
				return ret(&Val{nilb: mayNon, tag: "=+Inf"}, NonNil)
			}
			switch {
			case t == "float32" && tw.exact(ps[0]), t == "float64" && bits == 64 && tw.exact(ps[0]):
				v.tag = ps[0].sym
			case tw.exact(ps[0]) && fits(t, 53, true) && (bits == 64 || fits(t, 24, true)):
				v.tag = ps[0].sym
			default:
				v.tag = sym1(fLoss, ps[0].sym)
			}
			if ps[0].form != fDec && (bits == 64 || t == "float32") {
				return ret(v, NilVal)
			}
			return []Ret{{vals: []*Val{v, NilVal}, flags: st.flags}, {vals: []*Val{{nilb: mayNon}, NonNil}, flags: st.flags}}, true
		}
		return nil, false
	case "strconv.ParseBool":
		s, ok := textOf(args[0])
		ps := pieces(s)
		if ok && len(ps) == 1 && ps[0].form == fBool {
			return ret(&Val{nilb: mayNon, tag: ps[0].sym}, NilVal)
		}
		return nil, false
	case "math.IsNaN", "math.IsInf":
		if args[0].tag == "=+Inf" {
			return ret(boolVal(name == "math.IsInf"))
		}
		if isSym(args[0]) {
			return ret(FalseVal)
		}
		return nil, false
	case "unicode/utf8.ValidRune", "unicode/utf8.ValidString", "unicode/utf8.Valid":
		if _, ok := textOf(args[0]); ok {
			return ret(TrueVal)
		}
		if isSym(args[0]) {
			return ret(TrueVal)
		}
		return nil, false
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
		s, ok := textOf(args[0])
		if !ok || strings.IndexByte(s, 1) < 0 {
			return nil, false
		}
		return tw.trim(ret, name, s, args)
	case "strings.ReplaceAll", "strings.Replace":
		s, ok := textOf(args[0])
		o, ok2 := args[1].str1()
		n, ok3 := args[2].str1()
		if !ok || !ok2 || !ok3 || strings.IndexByte(s, 1) < 0 || len(args) == 4 {
			return nil, false
		}
		return ret(textVal(tw.replace(s, func(l string) string { return strings.ReplaceAll(l, o, n) }, o)))
	case "(*regexp.Regexp).ReplaceAllString":
		s, ok := textOf(args[1])
		n, ok3 := args[2].str1()
		if !ok || !ok3 || strings.IndexByte(s, 1) < 0 || !strings.HasPrefix(args[0].tag, "re:") {
			return nil, false
		}
		re, err := regexp.Compile(args[0].tag[3:])
		if err != nil {
			return nil, false
		}
		lit, _ := re.LiteralPrefix()
		return ret(textVal(tw.replace(s, func(l string) string { return re.ReplaceAllString(l, n) }, lit)))
	case "(*regexp.Regexp).MatchString", "regexp.MatchString":
		k := 1
		pat := ""
		if name == "regexp.MatchString" {
			p, ok := args[0].str1()
			if !ok {
				return nil, false
			}
			pat = p
		} else {
			if !strings.HasPrefix(args[0].tag, "re:") {
				return nil, false
			}
			pat = args[0].tag[3:]
		}
		if s, ok := textOf(args[k]); ok {
			if ps := pieces(s); len(ps) == 1 && ps[0].form == fRaw && tw.name(ps[0].sym) {
				if re, err := regexp.Compile(pat); err == nil && re.MatchString("aName1") && re.MatchString("a") && re.MatchString("Z_9") {
					if name == "regexp.MatchString" {
						return ret(TrueVal, NilVal)
					}
					return ret(TrueVal)
				}
			}
		}
		return nil, false
	}
	return tw.codec(in, a, st, i, fn, name, args)
}

var ofNames sync.Map

// ofNames is what a function of a string gives for every one of some valid
// names, if that is a known truth value or a nil error.
func (p *Program) ofNames(fn *ssa.Function) []*Val {
	if v, ok := ofNames.Load(fn); ok {
		return v.([]*Val)
	}
	var out []*Val
	for _, s := range []string{"a", "Name1", "_z9Z"} {
		rets, in := p.runConst(fn, s)
		if in.over || in.undecided || len(rets) != 1 {
			out = nil
			break
		}
		for k, v := range rets[0].vals {
			if !v.isTrue() && !v.isFalse() && !(v.isNil() && isErrorType(fn.Signature.Results().At(k).Type())) || s != "a" && (k >= len(out) || out[k].isTrue() != v.isTrue() || out[k].isNil() != v.isNil()) {
				rets = nil
				break
			}
		}
		if rets == nil {
			out = nil
			break
		}
		if s == "a" {
			for _, v := range rets[0].vals {
				switch {
				case v.isTrue():
					v = TrueVal
				case v.isFalse():
					v = FalseVal
				default:
					v = NilVal
				}
				out = append(out, v)
			}
		}
	}
	ofNames.Store(fn, out)
	return out
}

// parseInt reads an integer.
func (tw *textWorld) parseInt(in *Interp, st *State, x *Val, base int64, bits int, signed bool) ([]Ret, bool) {
	s, ok := textOf(x)
	ps := pieces(s)
	if !ok || len(ps) != 1 || ps[0].form == "" {
		return nil, false
	}
	fail := Ret{vals: []*Val{{nilb: mayNon, num: true, lo: negInf, hi: posInf}, NonNil}, flags: st.flags}
	if ps[0].form == fRaw {
		return nil, false
	}
	if base != 10 && base != 0 || ps[0].form == fLoss {
		v := intRange(bits, signed).dup()
		v.nilb, v.tag = mayNon, sym1(fLoss, ps[0].sym)
		return []Ret{{vals: []*Val{&v, NilVal}, flags: st.flags}, fail}, true
	}
	t := tw.typ(ps[0].sym)
	v := intRange(bits, signed)
	c := v.dup()
	v = &c
	v.nilb = mayNon
	if ps[0].form == fDec {
		v.tag = ps[0].sym
		if k := tw.nums[ps[0].sym]; k != nil {
			r := intRange(bits, signed)
			above := r.hi.inf == 0 && (k.hi.inf > 0 || k.hi.off > r.hi.off)
			below := r.lo.inf == 0 && k.lo.off < r.lo.off
			got := Ret{vals: []*Val{k, NilVal}, flags: st.flags}
			switch {
			case !above && !below:
				return []Ret{got}, true
			case r.hi.inf == 0 && (k.lo.off > r.hi.off || k.hi.inf > 0 && k.lo.off >= r.hi.off), k.hi.inf == 0 && k.hi.off < r.lo.off:
				return []Ret{fail}, true
			}
			m := k.dup()
			if above {
				m.hi = r.hi
			}
			if below {
				m.lo = r.lo
			}
			return []Ret{{vals: []*Val{&m, NilVal}, flags: st.flags}, fail}, true
		}
		if tw.big && !fits(t, bits, signed) && tw.isInt(t) {
			if !beyond(bigRange(t), bits, signed) {
				r := bigRange(t).dup()
				r.nilb, r.tag = mayNon, v.tag
				return []Ret{{vals: []*Val{&r, NilVal}, flags: st.flags}}, true
			}
			return []Ret{fail}, true
		}
		if fits(t, bits, signed) {
			if tb, ts, _ := intBits(t); true {
				r := intRange(tb, ts).dup()
				r.nilb, r.tag = mayNon, v.tag
				v = &r
			}
			return []Ret{{vals: []*Val{v, NilVal}, flags: st.flags}}, true
		}
		return []Ret{{vals: []*Val{v, NilVal}, flags: st.flags}, fail}, true
	}
	return []Ret{fail}, true
}

// intRange is any integer of a size.
func intRange(bits int, signed bool) *Val {
	switch {
	case bits >= 64 && signed:
		return rangeVal(Bound{off: -1 << 63}, Bound{off: 1<<63 - 1})
	case bits >= 64:
		return rangeVal(Bound{}, posInf)
	case signed:
		return rangeVal(Bound{off: -1 << (bits - 1)}, Bound{off: 1<<(bits-1) - 1})
	}
	return rangeVal(Bound{}, Bound{off: 1<<bits - 1})
}

// bigRange is the upper half of the values of an integer type.
func bigRange(t string) *Val {
	bits, signed, _ := intBits(t)
	switch {
	case bits == 64 && !signed:
		return rangeVal(Bound{off: 1<<63 - 1}, posInf)
	case signed:
		return rangeVal(Bound{off: 1 << (bits - 2)}, Bound{off: 1<<(bits-2) - 1 + 1<<(bits-2)})
	}
	return rangeVal(Bound{off: 1 << (bits - 1)}, Bound{off: 1<<(bits-1) - 1 + 1<<(bits-1)})
}

// beyond: no number of the range is an integer of this size.
func beyond(v *Val, bits int, signed bool) bool {
	r := intRange(bits, signed)
	return v.lo.inf == 0 && r.hi.inf == 0 && v.lo.off >= r.hi.off
}

func (tw *textWorld) isInt(t string) bool {
	_, _, ok := intBits(t)
	return ok
}

// lossOf is the text that stands for a value of which only part is left.
func lossOf(v *Val) string {
	if strings.HasPrefix(v.tag, "\x01"+fLoss) {
		return v.tag
	}
	return sym1(fLoss, "")
}

// replace applies f to the literal parts of a text, if what it looks for
// cannot be part of a rendering.
func (tw *textWorld) replace(s string, f func(string) string, old string) string {
	ps := pieces(s)
	for k, p := range ps {
		switch {
		case p.form == "":
			ps[k].lit = f(p.lit)
		case (p.form == fDec || p.form == fBool) && old != "" && strings.Trim(old, "0123456789-truefals") != "":
		default:
			ps[k] = piece{form: fLoss, sym: p.sym}
		}
	}
	return textTag(ps)
}

func (tw *textWorld) trim(ret func(...*Val) ([]Ret, bool), name, s string, args []*Val) ([]Ret, bool) {
	ps := pieces(s)
	set := " \t\r\n\v\f"
	if len(args) > 1 {
		c, ok := args[1].str1()
		if !ok {
			return ret(&Val{nilb: mayNon})
		}
		set = c
	}
	first, last := &ps[0], &ps[len(ps)-1]
	switch name {
	case "strings.TrimSuffix":
		if last.form == "" {
			last.lit = strings.TrimSuffix(last.lit, set)
		} else if tw.mayEnd(*last, set) {
			*last = piece{form: fLoss, sym: last.sym}
		}
		return ret(textVal(textTag(ps)))
	case "strings.TrimPrefix":
		if first.form == "" {
			first.lit = strings.TrimPrefix(first.lit, set)
		} else if tw.mayEnd(*first, set) {
			*first = piece{form: fLoss, sym: first.sym}
		}
		return ret(textVal(textTag(ps)))
	}
	if name != "strings.TrimRight" {
		for len(ps) > 0 {
			f := &ps[0]
			if f.form == "" {
				f.lit = strings.TrimLeft(f.lit, set)
				if f.lit != "" {
					break
				}
				ps = ps[1:]
				continue
			}
			if f.form == fPad && strings.Contains(set, " ") {
				ps = ps[1:]
				continue
			}
			if tw.mayStart(*f, set) {
				*f = piece{form: fLoss, sym: f.sym}
			}
			break
		}
	}
	if name != "strings.TrimLeft" {
		for len(ps) > 0 {
			f := &ps[len(ps)-1]
			if f.form == "" {
				f.lit = strings.TrimRight(f.lit, set)
				if f.lit != "" {
					break
				}
				ps = ps[:len(ps)-1]
				continue
			}
			if f.form == fPad && strings.Contains(set, " ") {
				ps = ps[:len(ps)-1]
				continue
			}
			if tw.mayStart(*f, set) {
				*f = piece{form: fLoss, sym: f.sym}
			}
			break
		}
	}
	return ret(textVal(textTag(ps)))
}

// mayStart: a rendering may begin or end with one of these characters.
func (tw *textWorld) mayStart(p piece, set string) bool {
	switch p.form {
	case fDec, fFlt, fF32, fTime, fTimS:
		return strings.ContainsAny(set, "0123456789+-.eENaIinfZT:")
	case fBool:
		return strings.ContainsAny(set, "tfes")
	case fJSON, fGo, fChrJ, fChrG:
		return strings.Contains(set, `"`)
	case fChrQ:
		return strings.Contains(set, `'`)
	case fRaw:
		if tw.name(p.sym) {
			return strings.Trim(set, " \t\r\n\v\f[]{}()\"'`,;:") != ""
		}
	}
	return true
}

func (tw *textWorld) mayEnd(p piece, s string) bool {
	if s == "" {
		return false
	}
	return tw.mayStart(p, s[len(s)-1:]) && tw.mayStart(p, s[:1])
}

// textLen is the length of a text.
func (tw *textWorld) textLen(s string) *Val {
	if tw.tm != nil {
		if as, ok := tw.atoms(s); ok {
			return intVal(int64(len(as)))
		}
	}
	n, sym := int64(0), false
	for _, p := range pieces(s) {
		if p.form == "" {
			n += int64(len(p.lit))
			continue
		}
		sym = true
		switch p.form {
		case fRaw, fPad, fLoss:
		case fJSON, fGo, fChrJ, fChrG, fChrQ:
			n += 2
		default:
			n++
		}
	}
	if sym {
		return rangeVal(Bound{off: n}, posInf)
	}
	return intVal(n)
}

// nameVal: constant or symbol of a map key.
func keyVal(id string) *Val {
	if id == "" {
		return Top
	}
	if id[0] == 'C' {
		if s, err := strconv.Unquote(id[1:]); err == nil {
			return strVal(s)
		}
		return Top
	}
	return &Val{nilb: mayNon, tag: id[1:]}
}

// conv models conversions of symbols and texts.
func (tw *textWorld) conv(in *Interp, st *State, from, to types.Type, x *Val) *Val {
	if tw.tm != nil {
		if v := tw.tconv(in, st, from, to, x); v != nil {
			return v
		}
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	switch {
	case ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
		if strings.HasPrefix(x.tag, "\x01"+fLoss) { // not better than before
			r := in.topOf(to).dup()
			r.nilb, r.tag = mayNon, x.tag
			return &r
		}
		if !isSym(x) {
			return nil
		}
		keep := false
		loss := true
		t := tw.typ(x.tag)
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		switch {
		case fi && ti:
			bits, signed, _ := intBits(tb.Name())
			if fits(t, bits, signed) {
				keep = true
			} else if x.num && x.lo.sym == "" && x.hi.sym == "" && x.lo.inf == 0 && x.hi.inf == 0 {
				r := intRange(bits, signed)
				keep = x.lo.off >= r.lo.off && (r.hi.inf > 0 || x.hi.off <= r.hi.off)
			} else {
				b2, s2, _ := intBits(fb.Name())
				keep = b2 == bits && s2 == signed
			}
			if keep {
				r := intRange(bits, signed).dup()
				if x.num && x.lo.inf == 0 {
					r.lo = x.lo
				}
				if x.num && x.hi.inf == 0 {
					r.hi = x.hi
				}
				r.tag, r.lab = x.tag, x.lab
				return &r
			}
		case !fi && !ti && (tw.huge[x.tag] || x.tag == "=+Inf"):
			if x.tag == "=+Inf" || tb.Kind() == types.Float32 {
				return &Val{nilb: mayNon, tag: "=+Inf", lab: x.lab}
			}
			keep = true
		case !fi && !ti:
			keep = t == "float32" || tb.Kind() == types.Float64 || tb.Kind() == types.UntypedFloat
		case fi && !ti:
			b, _, _ := intBits(t)
			if b == 0 { // a whole number read back as such
				keep = tw.whole && (t == "float32" || tb.Kind() == types.Float64)
				break
			}
			n := uint(53)
			if tb.Kind() == types.Float32 {
				n = 24
			}
			keep = fits(t, int(n), true) || x.num && x.lo.sym == "" && x.hi.sym == "" && x.lo.inf == 0 && x.hi.inf == 0 && x.lo.off >= -1<<n && x.hi.off <= 1<<n
		default:
			bits, signed, _ := intBits(tb.Name())
			_, _, isI := intBits(t)
			if isI && fits(t, bits, signed) {
				r := intRange(bits, signed).dup()
				r.nilb, r.tag, r.lab = mayNon, x.tag, x.lab
				return &r
			}
			loss = tw.isFloat(t) && !tw.whole
		}
		if keep {
			return &Val{nilb: mayNon, tag: x.tag, lab: x.lab}
		}
		r := in.topOf(to).dup()
		r.nilb = mayNon
		if loss {
			r.tag = sym1(fLoss, x.tag)
		}
		return &r
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if isSym(x) {
			return textVal(sym1(fChr, x.tag))
		}
	case x.inner != nil && x.dyn == nil && (ok1 && fb.Info()&types.IsString != 0 || ok2 && tb.Info()&types.IsString != 0):
		return x // a document
	case ok1 && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			e, _ := sl.Elem().Underlying().(*types.Basic)
			s, ok := textOf(x)
			if !ok || e == nil {
				return nil
			}
			if e.Kind() == types.Uint8 {
				return x
			}
			ps := pieces(s)
			if rs := []rune(s); e.Kind() == types.Int32 && strings.IndexByte(s, 1) < 0 && len(rs) <= in.maxEl() {
				arr := &heapArr{}
				for _, r := range rs {
					arr.elems = append(arr.elems, intVal(int64(r)))
				}
				if id := in.newCont(st, arr); id != 0 {
					return view(&Val{nilb: mayNon, lab: x.lab}, id, 0, len(rs))
				}
			}
			if e.Kind() == types.Int32 && len(ps) == 1 && ps[0].form == fChr {
				r := intRange(32, true).dup()
				r.tag = ps[0].sym
				if id := in.newCont(st, &heapArr{elems: []*Val{&r}}); id != 0 {
					return view(&Val{nilb: mayNon}, id, 0, 1)
				}
			}
		}
		if ok2 && tb.Info()&types.IsString != 0 {
			return x
		}
	case ok2 && tb.Info()&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			if e, _ := sl.Elem().Underlying().(*types.Basic); e != nil && e.Kind() == types.Uint8 && x.tag != "" {
				return x
			}
			if es, ok := in.seq(st, x); ok {
				out := ""
				for _, e := range es {
					if k, isK := e.int1(); isK {
						out += string(rune(k))
					} else if isSym(e) {
						out += sym1(fChr, e.tag)
					} else {
						return nil
					}
				}
				if e, _ := sl.Elem().Underlying().(*types.Basic); e != nil && e.Kind() == types.Int32 {
					return textVal(out)
				}
			}
		}
	}
	return nil
}

// index is a byte of a text.
func (tw *textWorld) index(in *Interp, st *State, x, k *Val) *Val {
	if x.tag == "" {
		return nil
	}
	if tw.tm != nil {
		if v := tw.tindex(x, k); v != nil {
			return v
		}
	}
	v := rangeVal(Bound{}, Bound{off: 255}).dup()
	v.lab, v.tag = x.lab, sym1(fLoss, "")
	return &v
}

// eqText compares two texts: 1 equal, -1 different, 0 unknown.
func (tw *textWorld) eqText(a, b string) int {
	if a == b {
		return 1
	}
	if tw.tm != nil {
		if c := tw.sameText(a, b); c != 0 {
			return c
		}
		p, ok := whole(a)
		q, ok2 := whole(b)
		if ok && ok2 && p.form == fRaw && q.form == fRaw && tw.name(p.sym) && tw.name(q.sym) && p.sym[0] == q.sym[0] {
			return -1 // names of different tables, or of different columns
		}
	}
	pa, pb := pieces(a), pieces(b)
	hasSym := func(ps []piece) bool {
		for _, p := range ps {
			if p.form != "" {
				return true
			}
		}
		return false
	}
	if !hasSym(pa) && !hasSym(pb) {
		return -1
	}
	if hasSym(pa) && hasSym(pb) {
		return 0
	}
	if hasSym(pb) {
		pa, pb = pb, pa
		a, b = b, a
	}
	// a has symbols, b is constant
	l := tw.textLen(a)
	if l.lo.off > int64(len(b)) || l.hi.inf == 0 && l.hi.off < int64(len(b)) {
		return -1
	}
	if pa[0].form == "" && !strings.HasPrefix(b, pa[0].lit) {
		return -1
	}
	if z := pa[len(pa)-1]; z.form == "" && !strings.HasSuffix(b, z.lit) {
		return -1
	}
	if len(pa) == 1 && pa[0].form == fRaw && tw.name(pa[0].sym) {
		if b == "" || in0(b) {
			return -1
		}
	}
	if b == "" && len(pa) == 1 && pa[0].form == fRaw && tw.typ(pa[0].sym) != "string" {
		return -1
	}
	return 0
}

// in0: the string cannot be the name of a table or column.
func in0(s string) bool {
	return !regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`).MatchString(s)
}

// length is the length of a text.
func (tw *textWorld) length(t types.Type, x *Val) *Val {
	if tw == nil || x.tag == "" || !isString(t) {
		return nil
	}
	if s, ok := textOf(x); ok {
		l := tw.textLen(s)
		if ps := pieces(s); len(ps) == 1 && ps[0].form == fRaw && tw.name(ps[0].sym) {
			if l.lo.off == 0 {
				l = rangeVal(Bound{off: 1}, posInf)
			}
		}
		return l
	}
	return nil
}

// binop models the operations on texts.
func (tw *textWorld) binop(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
	if tw.tm != nil && isInteger(i.X.Type()) {
		return tw.tcompare(i.Op, x, y)
	}
	if !isString(i.X.Type()) {
		return nil
	}
	isDoc := func(a, b *Val) bool { s, ok := b.str1(); return a.inner != nil && a.dyn == nil && ok && s == "" }
	switch i.Op {
	case token.ADD:
		s, ok := textOf(x)
		t, ok2 := textOf(y)
		if ok && ok2 && strings.IndexByte(s+t, 1) >= 0 {
			return textVal(s + t)
		}
	case token.EQL, token.NEQ:
		if isDoc(x, y) || isDoc(y, x) {
			return boolVal(i.Op == token.NEQ)
		}
		s, ok := textOf(x)
		t, ok2 := textOf(y)
		if ok && ok2 {
			if c := tw.eqText(s, t); c != 0 {
				return boolVal((c > 0) == (i.Op == token.EQL))
			}
		}
	}
	return nil
}

var _ = constant.MakeInt64
