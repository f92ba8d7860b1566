package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the JSON, YAML and GOB libraries on symbolic documents.

var anyT = types.NewInterfaceType(nil, nil)

func (tw *textWorld) codec(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, name string, args []*Val) ([]Ret, bool) {
	ret := func(vs ...*Val) ([]Ret, bool) { return []Ret{{vals: vs, flags: st.flags}}, true }
	fail := func() ([]Ret, bool) { return ret(NonNil) }
	iface := func(v *Val) *Val {
		if v.dyn != nil && v.inner != nil {
			return v.inner
		}
		return v
	}
	deref := func(v *Val) (*Val, types.Type, bool) { // an interface holding a pointer
		if v.dyn == nil || v.inner == nil {
			return nil, nil, false
		}
		pt, ok := v.dyn.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil, false
		}
		return v.inner, pt.Elem(), true
	}
	maker := func() ([]Ret, bool) {
		o := in.obj(in.siteID(a.fn, i.Value().Name()), true, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), nil)
		v := ptrTo(o)
		tw.setContent(in, st, v, iface(args[0]))
		return ret(v)
	}
	stream := func() *Val { // what an encoder writes to, or a decoder reads from
		if len(args) == 0 || args[0].obj == nil {
			return nil
		}
		return in.heapOf(st.flags).fld[memKey{args[0].obj, ""}]
	}
	switch name {
	case "encoding/json.NewEncoder", "encoding/json.NewDecoder", "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "gopkg.in/yaml.v3.NewEncoder", "gopkg.in/yaml.v3.NewDecoder":
		return maker()
	case "(*encoding/json.Encoder).SetEscapeHTML":
		return ret()
	case "(*encoding/json.Decoder).UseNumber":
		if args[0].obj == nil {
			in.loseHeap(st)
			return ret()
		}
		tw.setContent(in, st, &Val{nilb: mayNon, obj: args[0].obj, field: "num"}, TrueVal)
		return ret()
	case "(*encoding/json.Encoder).Encode":
		w := stream()
		s, ok := tw.toJSON(in, st, args[1])
		if w == nil {
			in.loseHeap(st)
			return ret(NilVal)
		}
		tw.write(in, st, w, s+"\n", ok, nil)
		return ret(NilVal)
	case "encoding/json.Marshal":
		s, ok := tw.toJSON(in, st, args[0])
		if !ok {
			return ret(&Val{nilb: mayNon}, NilVal)
		}
		return ret(textVal(s), NilVal)
	case "encoding/json.Indent", "encoding/json.Compact":
		s, ok := textOf(args[1])
		tw.write(in, st, args[0], s, ok, nil)
		return ret(NilVal)
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		num := false
		var text *Val
		if name == "encoding/json.Unmarshal" {
			text = args[0]
		} else {
			w := stream()
			if w == nil {
				in.loseHeap(st)
				return ret(NilVal)
			}
			text = tw.content(in, st, w, nil)
			num = in.heapOf(st.flags).fld[memKey{args[0].obj, "num"}] != nil
		}
		p, t, ok := deref(args[1])
		s, ok2 := textOf(text)
		if !ok || !ok2 {
			tw.note("a document that is not known is decoded")
			in.loseHeap(st)
			return ret(NilVal)
		}
		jp := &jsonParser{tw: tw, ps: pieces(s)}
		n := jp.value()
		if jp.err != "" {
			tw.note("the document is not valid JSON: %s", jp.err)
			return fail()
		}
		v := tw.fromJSON(in, st, n, num)
		if isAny(t) {
			in.assign(st, p, t, v)
			return ret(NilVal)
		}
		if v.dyn == nil || !types.Identical(v.dyn.Underlying(), t.Underlying()) {
			return fail()
		}
		in.assign(st, p, t, v.inner)
		return ret(NilVal)
	case "gopkg.in/yaml.v3.Marshal":
		v, ok := tw.fromYAML(in, st, args[0], 0)
		if !ok {
			tw.note("a value that is not known is encoded")
			in.loseHeap(st)
			return ret(&Val{nilb: mayNon}, NilVal)
		}
		return ret(&Val{nilb: mayNon, inner: v}, NilVal)
	case "gopkg.in/yaml.v3.Unmarshal":
		p, t, ok := deref(args[1])
		if !ok || args[0].inner == nil {
			tw.note("a document that is not known is decoded")
			in.loseHeap(st)
			return ret(NilVal)
		}
		v := args[0].inner
		if isAny(t) {
			in.assign(st, p, t, v)
			return ret(NilVal)
		}
		if v.dyn == nil || !types.Identical(v.dyn.Underlying(), t.Underlying()) {
			return fail()
		}
		in.assign(st, p, t, v.inner)
		return ret(NilVal)
	case "(*encoding/gob.Encoder).Encode":
		w := stream()
		if w == nil {
			in.loseHeap(st)
			return ret(NilVal)
		}
		v := args[1]
		if v.dyn == nil || v.inner == nil {
			in.loseHeap(st)
			return ret(NilVal)
		}
		old := tw.content(in, st, w, nil)
		if s, ok := textOf(old); !ok || s != "" { // a second value in the same buffer
			in.loseHeap(st)
			return ret(NilVal)
		}
		t := v.dyn
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t = pt.Elem()
		}
		x, ok := tw.gobCopy(in, st, a, i, v.inner, v.dyn, t, 0)
		if !ok {
			return fail()
		}
		tw.setContent(in, st, w, &Val{nilb: mayNon, inner: ifaceOf(t, x)})
		return ret(NilVal)
	case "(*encoding/gob.Decoder).Decode":
		w := stream()
		p, t, ok := deref(args[1])
		if w == nil || !ok {
			in.loseHeap(st)
			return ret(NilVal)
		}
		c := tw.content(in, st, w, nil)
		if s, isT := textOf(c); isT && s == "" {
			return fail() // nothing to read
		}
		if c.inner == nil {
			in.loseHeap(st)
			return ret(NilVal)
		}
		v := c.inner
		if v.dyn == nil || v.inner == nil {
			in.loseHeap(st)
			return ret(NilVal)
		}
		x, ok := tw.gobCopy(in, st, a, i, v.inner, v.dyn, t, 0)
		if !ok {
			return fail()
		}
		in.assign(st, p, t, x)
		return ret(NilVal)
	}
	return nil, false
}

// assign stores v through p.
func (in *Interp) assign(st *State, p *Val, t types.Type, v *Val) {
	in.heapStore(st, p, v)
	in.watch(st, p, v)
	if in.P.pkgStruct(t) != nil {
		in.storeStruct(st, p, v, t, 0)
	} else {
		in.store(st, p, v)
	}
}

func isAny(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

// toJSON is the JSON of a value.
func (tw *textWorld) toJSON(in *Interp, st *State, v *Val) (string, bool) {
	if v.isNil() {
		return "null", true
	}
	if v.dyn == nil || v.inner == nil {
		return "", false
	}
	x := v.inner
	switch u := v.dyn.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := textOf(x)
			if !ok {
				return "", false
			}
			if strings.IndexByte(s, 1) < 0 {
				b, _ := json.Marshal(s)
				return string(b), true
			}
			return tw.quote(s, fJSON), true
		case u.Info()&types.IsInteger != 0:
			return tw.render(in, st, v, 'd'), true
		case u.Info()&types.IsFloat != 0:
			return tw.render(in, st, v, 'v'), true
		case u.Info()&types.IsBoolean != 0:
			return tw.render(in, st, v, 't'), true
		}
	}
	return "", false
}

// A JSON document.
type jnode struct {
	kind rune // o, a, s, n, b, z (null)
	keys []string
	kids []*jnode
	text string
}

type jsonParser struct {
	tw  *textWorld
	ps  []piece
	k   int // piece
	i   int // position in a literal piece
	err string
}

func (j *jsonParser) fail(format string, args ...interface{}) *jnode {
	if j.err == "" {
		j.err = fmt.Sprintf(format, args...)
	}
	return &jnode{kind: 'z'}
}

// peek is the next literal byte after white space (0: none); sym the next
// piece, if it is a rendering.
func (j *jsonParser) peek(space bool) (c byte, sym *piece) {
	for j.k < len(j.ps) {
		p := &j.ps[j.k]
		if p.form == fPad && space {
			j.k++
			continue
		}
		if p.form != "" {
			return 0, p
		}
		if j.i >= len(p.lit) {
			j.k++
			j.i = 0
			continue
		}
		c := p.lit[j.i]
		if space && (c == ' ' || c == '\n' || c == '\t' || c == '\r') {
			j.i++
			continue
		}
		return c, nil
	}
	return 0, nil
}

func (j *jsonParser) expect(c byte) bool {
	if d, _ := j.peek(true); d != c {
		if d == 0 {
			j.fail("%q expected", string(c))
		} else {
			j.fail("%q expected instead of %q", string(c), string(d))
		}
		return false
	}
	j.i++
	return true
}

// str reads a string; the result is its text.
func (j *jsonParser) str() string {
	if c, p := j.peek(true); p != nil {
		switch p.form {
		case fJSON:
			j.k, j.i = j.k+1, 0
			return sym1(fRaw, p.sym)
		case fChrJ:
			j.k, j.i = j.k+1, 0
			return sym1(fChr, p.sym)
		case fGo, fChrG:
			j.fail("%s is escaped as in Go source", j.what(p.sym))
			return ""
		}
		j.fail("%s is written as %s where a string is expected", j.what(p.sym), p.form)
		return ""
	} else if c != '"' {
		j.fail("a string expected instead of %q", string(c))
		return ""
	}
	j.i++
	out := ""
	for j.err == "" {
		c, p := j.peek(false)
		if p != nil {
			switch {
			case p.form == fRaw && j.tw.name(p.sym), p.form == fDec, p.form == fFlt, p.form == fF32, p.form == fBool, p.form == fTime, p.form == fTimS, p.form == fLoss && p.sym != "" && !textual(j.tw.typ(p.sym)):
				out += sym1(p.form, p.sym)
				j.k, j.i = j.k+1, 0
				continue
			}
			j.fail("%s is written between quotes without being escaped", j.what(p.sym))
			return ""
		}
		switch c {
		case 0:
			j.fail("a string does not end")
			return ""
		case '"':
			j.i++
			return out
		case '\\':
			var b [2]byte
			b[0] = c
			j.i++
			d, _ := j.peek(false)
			b[1] = d
			var s string
			if json.Unmarshal([]byte(`"`+string(b[:])+`"`), &s) != nil {
				j.fail("the escape %q", string(b[:]))
				return ""
			}
			j.i++
			out += s
		default:
			if c < ' ' {
				j.fail("the character %q in a string", string(c))
				return ""
			}
			j.i++
			out += string([]byte{c})
		}
	}
	return out
}

func textual(t string) bool { return t == "string" || t == "rune" || t == "" }

func (j *jsonParser) what(sym string) string {
	if sym == "" {
		return "something"
	}
	if t := j.tw.typ(sym); t != "" {
		return "a value of type " + t
	}
	return "a value"
}

func (j *jsonParser) value() *jnode {
	c, p := j.peek(true)
	if p != nil {
		switch p.form {
		case fDec, fFlt, fF32:
			j.k, j.i = j.k+1, 0
			if d, q := j.peek(false); q != nil || d != 0 && strings.IndexByte(" \n\r\t,]}", d) < 0 {
				return j.fail("something follows a number")
			}
			return &jnode{kind: 'n', text: sym1(p.form, p.sym)}
		case fBool:
			j.k, j.i = j.k+1, 0
			return &jnode{kind: 'b', text: p.sym}
		case fLoss:
			if t := j.tw.typ(p.sym); p.sym != "" && (j.tw.isFloat(t)) || func() bool { _, _, ok := intBits(t); return ok }() {
				j.k, j.i = j.k+1, 0
				return &jnode{kind: 'n', text: sym1(fLoss, p.sym)}
			}
		}
		return &jnode{kind: 's', text: j.str()}
	}
	switch {
	case c == '{':
		j.i++
		n := &jnode{kind: 'o'}
		if c, _ := j.peek(true); c == '}' {
			j.i++
			return n
		}
		for j.err == "" {
			k := j.str()
			if !j.expect(':') {
				break
			}
			v := j.value()
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			if c, _ := j.peek(true); c == ',' {
				j.i++
				continue
			}
			j.expect('}')
			break
		}
		return n
	case c == '[':
		j.i++
		n := &jnode{kind: 'a'}
		if c, _ := j.peek(true); c == ']' {
			j.i++
			return n
		}
		for j.err == "" {
			n.kids = append(n.kids, j.value())
			if c, _ := j.peek(true); c == ',' {
				j.i++
				continue
			}
			j.expect(']')
			break
		}
		return n
	case c == '"':
		return &jnode{kind: 's', text: j.str()}
	case c == 0:
		return j.fail("the document ends")
	}
	w := ""
	for {
		c, p := j.peek(false)
		if p != nil || c == 0 || strings.IndexByte(" \n\r\t,]}:", c) >= 0 {
			if p != nil {
				return j.fail("%s follows %q", j.what(p.sym), w)
			}
			break
		}
		w += string([]byte{c})
		j.i++
	}
	switch w {
	case "true", "false":
		return &jnode{kind: 'B', text: w}
	case "null":
		return &jnode{kind: 'z'}
	}
	var num json.Number
	if json.Unmarshal([]byte(w), &num) == nil {
		return &jnode{kind: 'n', text: w}
	}
	return j.fail("%q", w)
}

func (tw *textWorld) numberT(in *Interp) types.Type {
	for _, p := range in.P.Prog.AllPackages() {
		if p.Pkg.Path() == "encoding/json" {
			if o := p.Pkg.Scope().Lookup("Number"); o != nil {
				return o.Type()
			}
		}
	}
	return types.Typ[types.String]
}

func ifaceOf(t types.Type, v *Val) *Val { return &Val{nilb: mayNon, dyn: t, inner: v, lab: v.lab} }

// fromJSON builds the value a document is decoded to.
func (tw *textWorld) fromJSON(in *Interp, st *State, n *jnode, num bool) *Val {
	switch n.kind {
	case 'z':
		return NilVal
	case 's':
		return ifaceOf(types.Typ[types.String], textVal(n.text))
	case 'B':
		return ifaceOf(types.Typ[types.Bool], boolVal(n.text == "true"))
	case 'b':
		return ifaceOf(types.Typ[types.Bool], &Val{nilb: mayNon, tag: n.text})
	case 'n':
		if num {
			return ifaceOf(tw.numberT(in), textVal(n.text))
		}
		v := &Val{nilb: mayNon}
		if ps := pieces(n.text); len(ps) == 1 && ps[0].form != "" {
			t := tw.typ(ps[0].sym)
			b, _, isInt := intBits(t)
			if isInt && b <= 32 || tw.isFloat(t) && tw.exact(ps[0]) {
				v.tag = ps[0].sym
			}
		}
		return ifaceOf(types.Typ[types.Float64], v)
	case 'a':
		var es []*Val
		for _, k := range n.kids {
			es = append(es, tw.fromJSON(in, st, k, num))
		}
		return ifaceOf(types.NewSlice(anyT), tw.newSlice(in, st, es))
	}
	var keys []*Val
	var es []*Val
	for k := range n.kids {
		keys = append(keys, textVal(n.keys[k]))
		es = append(es, tw.fromJSON(in, st, n.kids[k], num))
	}
	return ifaceOf(types.NewMap(types.Typ[types.String], anyT), tw.newMap(in, st, keys, es))
}

func (tw *textWorld) newSlice(in *Interp, st *State, es []*Val) *Val {
	id := in.newCont(st, &heapArr{elems: es})
	if id == 0 {
		return &Val{nilb: mayNon}
	}
	return view(&Val{nilb: mayNon}, id, 0, len(es))
}

func (tw *textWorld) newMap(in *Interp, st *State, keys, es []*Val) *Val {
	id := in.newCont(st, &heapArr{isMap: true})
	m := &Val{nilb: mayNon, cont: id, lab: LTracked}
	if id == 0 {
		return &Val{nilb: mayNon}
	}
	for k := range keys {
		in.heapMapUpdate(st, m, keys[k], es[k])
	}
	return m
}

// fromYAML is what a value is decoded to after it has been written as YAML.
func (tw *textWorld) fromYAML(in *Interp, st *State, v *Val, depth int) (*Val, bool) {
	if v.isNil() {
		return NilVal, true
	}
	if depth > 40 || v.dyn == nil || v.inner == nil {
		return nil, false
	}
	return tw.yamlTyped(in, st, v.inner, v.dyn, depth)
}

func (tw *textWorld) yamlTyped(in *Interp, st *State, x *Val, t types.Type, depth int) (*Val, bool) {
	if n := named(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return ifaceOf(t, x), true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return tw.fromYAML(in, st, x, depth+1)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if _, ok := textOf(x); !ok {
				return ifaceOf(types.Typ[types.String], &Val{nilb: mayNon}), true
			}
			return ifaceOf(types.Typ[types.String], x), true
		case u.Info()&types.IsBoolean != 0:
			return ifaceOf(types.Typ[types.Bool], x), true
		case u.Info()&types.IsInteger != 0:
			var to types.Type = types.Typ[types.Int]
			r := intRange(64, true).dup()
			if bits, signed, _ := intBits(u.Name()); !fits(u.Name(), 64, true) && tw.big {
				to = types.Typ[types.Uint64]
				r = rangeVal(Bound{off: 1<<63 - 1}, posInf).dup()
			} else if bits < 64 {
				r = intRange(bits, signed).dup()
			}
			if k, ok := x.int1(); ok {
				return ifaceOf(types.Typ[types.Int], intVal(k)), true
			}
			if isSym(x) || strings.HasPrefix(x.tag, "\x01"+fLoss) {
				r.tag = x.tag
			}
			r.nilb = mayNon
			return ifaceOf(to, &r), true
		case u.Info()&types.IsFloat != 0:
			if isSym(x) && tw.whole { // written without a point
				r := intRange(64, true).dup()
				r.nilb, r.tag = mayNon, x.tag
				return ifaceOf(types.Typ[types.Int], &r), true
			}
			return ifaceOf(types.Typ[types.Float64], x), true
		}
	case *types.Slice:
		es, ok := in.seq(st, x)
		if !ok {
			return nil, false
		}
		var out []*Val
		for _, e := range es {
			y, ok := tw.yamlTyped(in, st, e, u.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, y)
		}
		return ifaceOf(types.NewSlice(anyT), tw.newSlice(in, st, out)), true
	case *types.Map:
		if x.isNil() {
			return ifaceOf(types.NewMap(types.Typ[types.String], anyT), tw.newMap(in, st, nil, nil)), true
		}
		a := in.cont(st, x)
		if a == nil || !a.isMap || a.fuzzy {
			return nil, false
		}
		var ks, es []*Val
		for k, e := range a.elems {
			y, ok := tw.yamlTyped(in, st, e, u.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			ks, es = append(ks, keyVal(a.keys[k])), append(es, y)
		}
		return ifaceOf(types.NewMap(types.Typ[types.String], anyT), tw.newMap(in, st, ks, es)), true
	}
	return nil, false
}

// gobCopy is what a value of type from is decoded to in a variable of type to.
func (tw *textWorld) gobCopy(in *Interp, st *State, a *Activation, i ssa.CallInstruction, x *Val, from, to types.Type, depth int) (*Val, bool) {
	if depth > 10 {
		return nil, false
	}
	if _, ptr := from.Underlying().(*types.Pointer); !ptr && tw.gobEdit != nil {
		x = tw.gobEdit(in, st, tw.gobAt, x, from)
	}
	at := tw.gobAt
	defer func() { tw.gobAt = at }()
	fp, ok := from.Underlying().(*types.Pointer)
	if ok { // pointers are followed
		if x.isNil() {
			return NilVal, true
		}
		y := x
		if x.obj != nil || x.paddr != nil {
			y = in.load(st, x, fp.Elem())
		}
		return tw.gobCopy(in, st, a, i, y, fp.Elem(), to, depth+1)
	}
	if tp, ok := to.Underlying().(*types.Pointer); ok {
		v, ok := tw.gobCopy(in, st, a, i, x, from, tp.Elem(), depth+1)
		if !ok {
			return nil, false
		}
		o := in.obj(fmt.Sprintf("%s.%d", in.siteID(a.fn, i.Value().Name()), depth), true, tp.Elem(), nil)
		p := ptrTo(o)
		in.assign(st, p, tp.Elem(), v)
		return p, true
	}
	switch u := to.Underlying().(type) {
	case *types.Struct:
		fs, ok := from.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		v := &Val{nilb: mayNon, ty: named(to)}
		any := false
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			y := zeroOf(f.Type())
			if f.Exported() {
				for q := 0; q < fs.NumFields(); q++ {
					g := fs.Field(q)
					if g.Name() != f.Name() || isFuncType(g.Type()) || isFuncType(f.Type()) {
						continue
					}
					tw.gobAt = at + "." + f.Name()
					z, ok := tw.gobCopy(in, st, a, i, in.fieldOf(st, x, from, g.Name(), g.Type()), g.Type(), f.Type(), depth+1)
					if !ok {
						return nil, false
					}
					y, any = z, true
				}
			}
			v.flds = append(v.flds, y)
		}
		return v, any
	case *types.Slice:
		sl, ok := from.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		es, ok := in.seq(st, x)
		if !ok {
			if x.isNil() {
				return NilVal, true
			}
			return nil, false
		}
		if len(es) == 0 {
			return NilVal, true
		}
		var out []*Val
		for k, e := range es {
			tw.gobAt = at + "[" + strconv.Itoa(k) + "]"
			y, ok := tw.gobCopy(in, st, a, i, e, sl.Elem(), u.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, y)
		}
		return tw.newSlice(in, st, out), true
	case *types.Map:
		fm, ok := from.Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		if x.isNil() {
			return NilVal, true
		}
		c := in.cont(st, x)
		if c == nil || c.fuzzy {
			return nil, false
		}
		if len(c.elems) == 0 {
			return NilVal, true
		}
		var ks, es []*Val
		for k, e := range c.elems {
			tw.gobAt = at + "[" + strconv.Itoa(k) + "]"
			y, ok := tw.gobCopy(in, st, a, i, e, fm.Elem(), u.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			ks, es = append(ks, keyVal(c.keys[k])), append(es, y)
		}
		return tw.newMap(in, st, ks, es), true
	case *types.Interface:
		if x.isNil() {
			return NilVal, true
		}
		if x.dyn == nil || x.inner == nil {
			return nil, false
		}
		tw.gobAt = at + ".()"
		y, ok := tw.gobCopy(in, st, a, i, x.inner, x.dyn, x.dyn, depth+1)
		if !ok {
			return nil, false
		}
		if sl, isS := x.dyn.Underlying().(*types.Slice); isS && y.isNil() {
			_ = sl
			y = tw.newSlice(in, st, nil)
		}
		return ifaceOf(x.dyn, y), true
	case *types.Basic:
		if !types.Identical(from.Underlying(), u) {
			fb, ok := from.Underlying().(*types.Basic)
			if !ok || fb.Info()&types.IsInteger == 0 || u.Info()&types.IsInteger == 0 {
				return nil, false
			}
		}
		return x, true
	}
	return nil, false
}

func isFuncType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}
