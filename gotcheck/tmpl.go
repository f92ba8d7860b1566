package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Text of known layout.  For the text forms, where the reader looks at every
// character, the rendering of a symbol has a template: a fixed number of bytes,
// each of a class (a digit that is not zero, a letter, a quote ...).  Widths and
// positions are then numbers, and a regular expression, a comparison or a
// search is decided on the classes: all bytes of a class which the operation
// treats alike are one case.

type bset [4]uint64

func (b *bset) add(c byte)     { b[c>>6] |= 1 << (c & 63) }
func (b bset) has(c byte) bool { return b[c>>6]>>(c&63)&1 == 1 }
func (b bset) bytes() (out []byte) {
	for c := 0; c < 256; c++ {
		if b.has(byte(c)) {
			out = append(out, byte(c))
		}
	}
	return
}
func (b bset) and(o bset) bset {
	for k := range b {
		b[k] &= o[k]
	}
	return b
}
func (b bset) one() (byte, bool) {
	bs := b.bytes()
	if len(bs) == 1 {
		return bs[0], true
	}
	return 0, false
}

func classOf(s string) (b bset) {
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' {
			for c := int(s[i]); c <= int(s[i+2]); c++ {
				b.add(byte(c))
			}
			i += 2
			continue
		}
		b.add(s[i])
	}
	return
}

var (
	clDigit  = classOf("0-9")
	clFirst  = classOf("1-9")
	clLetter = classOf("a-zA-Z")
	clWord   = classOf("a-zA-Z0-9")
	clName   = classOf("a-zA-Z0-9_")
)

// templOf makes a template from a picture: D is a digit that is not zero, d any
// digit, p a letter, w a letter or digit, n a character of a name; everything
// else stands for itself, and so does what follows a backquote.
func templOf(pic string) (t []bset) {
	t = []bset{}
	for i := 0; i < len(pic); i++ {
		switch pic[i] {
		case 'D':
			t = append(t, clFirst)
		case 'd':
			t = append(t, clDigit)
		case 'p':
			t = append(t, clLetter)
		case 'w':
			t = append(t, clWord)
		case 'n':
			t = append(t, clName)
		case '`':
			i++
			t = append(t, classOf(pic[i:i+1]))
		default:
			t = append(t, classOf(pic[i:i+1]))
		}
	}
	return
}

// lit is the picture of literal text.
func litPic(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("Ddpwn`", s[i]) >= 0 {
			b.WriteByte('`')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// atom is one byte of a text.
type atom struct {
	b    byte // literal
	form string
	sym  string
	i, n int // position in the rendering, and its length
	cls  bset
}

func (a atom) set() bset {
	if a.form == "" {
		var s bset
		s.add(a.b)
		return s
	}
	return a.cls
}

func splitForm(f string) (base string, i, j int) {
	k := strings.LastIndexByte(f, '~')
	if k < 0 {
		return f, 0, -1
	}
	fmt.Sscanf(f[k+1:], "%d:%d", &i, &j)
	return f[:k], i, j
}

// atoms is a text as a sequence of bytes.
func (tw *textWorld) atoms(s string) ([]atom, bool) {
	out := []atom{}
	for _, p := range pieces(s) {
		if p.form == "" {
			for k := 0; k < len(p.lit); k++ {
				out = append(out, atom{b: p.lit[k]})
			}
			continue
		}
		base, i, j := splitForm(p.form)
		t := tw.templ(base, p.sym)
		if t == nil {
			return nil, false
		}
		if j < 0 {
			i, j = 0, len(t)
		}
		if i < 0 || j > len(t) {
			return nil, false
		}
		for k := i; k < j; k++ {
			out = append(out, atom{form: base, sym: p.sym, i: k, n: len(t), cls: t[k]})
		}
	}
	return out, true
}

// fromAtoms is the text of a sequence of bytes.
func fromAtoms(as []atom) string {
	var b strings.Builder
	for k := 0; k < len(as); {
		a := as[k]
		if a.form == "" {
			b.WriteByte(a.b)
			k++
			continue
		}
		e := k + 1
		for e < len(as) && as[e].form == a.form && as[e].sym == a.sym && as[e].i == as[e-1].i+1 {
			e++
		}
		f := a.form
		if a.i != 0 || as[e-1].i != a.n-1 {
			f = fmt.Sprintf("%s~%d:%d", f, a.i, as[e-1].i+1)
		}
		b.WriteString(sym1(f, a.sym))
		k = e
	}
	return b.String()
}

// lossText: something of this layout from which the symbol cannot be recovered.
func lossText(rep, sym string) string {
	if strings.ContainsAny(rep, "\x01\x02\x03~") {
		return sym1(fLoss, sym)
	}
	return sym1(fLoss+rep, sym)
}

func (tw *textWorld) templ(form, sym string) []bset {
	if strings.HasPrefix(form, fLoss) {
		if form == fLoss {
			return nil
		}
		var t []bset
		for i := 1; i < len(form); i++ {
			t = append(t, classOf(form[i:i+1]))
		}
		return t
	}
	return tw.tm(form, sym)
}

// byteVal is one byte of a text.
func byteVal(a atom) *Val {
	if a.form == "" {
		return intVal(int64(a.b))
	}
	bs := a.cls.bytes()
	v := rangeVal(Bound{off: int64(bs[0])}, Bound{off: int64(bs[len(bs)-1])})
	v.tag = fromAtoms([]atom{a})
	return v
}

// charAtom is the atom a byte value was made from.
func (tw *textWorld) charAtom(v *Val) (atom, bool) {
	if strings.IndexByte(v.tag, 1) == 0 {
		if as, ok := tw.atoms(v.tag); ok && len(as) == 1 {
			return as[0], true
		}
		return atom{}, false
	}
	if k, ok := v.int1(); ok && k >= 0 && k < 256 && v.tag == "" {
		return atom{b: byte(k)}, true
	}
	return atom{}, false
}

// reps are concrete texts of the layout: bytes of a class which sig treats
// alike are represented by one of them, and one position varies at a time.
func reps(as []atom, sig func(c byte) string) []string {
	base := make([]byte, len(as))
	alts := make([][]byte, len(as))
	for k, a := range as {
		if a.form == "" {
			base[k] = a.b
			continue
		}
		seen := map[string]bool{}
		for _, c := range a.cls.bytes() {
			s := ""
			if sig != nil {
				s = sig(c)
			}
			if !seen[s] {
				seen[s] = true
				alts[k] = append(alts[k], c)
			}
		}
		base[k] = alts[k][0]
	}
	out := []string{string(base)}
	last := append([]byte{}, base...)
	n := 0
	for k := range as {
		for _, c := range alts[k][min(1, len(alts[k])):] {
			x := append([]byte{}, base...)
			x[k] = c
			out = append(out, string(x))
			last[k] = c
			n++
		}
	}
	if n > 1 {
		out = append(out, string(last))
	}
	return out
}

func setSig(set string) func(c byte) string {
	return func(c byte) string {
		if strings.IndexByte(set, c) >= 0 {
			return string([]byte{c})
		}
		return ""
	}
}

var reSigs sync.Map

// reSig tells which bytes a regular expression treats alike.
func reSig(pat string) func(c byte) string {
	if f, ok := reSigs.Load(pat); ok {
		return f.(func(c byte) string)
	}
	f := func(c byte) string { return string([]byte{c}) }
	if re, err := syntax.Parse(pat, syntax.Perl); err == nil {
		if prog, err := syntax.Compile(re.Simplify()); err == nil {
			var tab [256]string
			for c := 0; c < 256; c++ {
				var b strings.Builder
				for k := range prog.Inst {
					switch in := &prog.Inst[k]; in.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						b.WriteByte("01"[bit(in.MatchRune(rune(c)))])
					}
				}
				b.WriteByte("01"[bit(syntax.IsWordChar(rune(c)))])
				b.WriteByte("01"[bit(c == '\n')])
				tab[c] = b.String()
			}
			f = func(c byte) string { return tab[c] }
		}
	}
	reSigs.Store(pat, f)
	return f
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sameText compares two texts byte by byte: 1 equal, -1 different, 0 unknown.
func (tw *textWorld) sameText(x, y string) int {
	if x == y {
		return 1
	}
	a, ok := tw.atoms(x)
	b, ok2 := tw.atoms(y)
	if !ok || !ok2 {
		return 0
	}
	if len(a) != len(b) {
		return -1
	}
	res := 1
	for k := range a {
		if a[k].form != "" && a[k].form == b[k].form && a[k].sym == b[k].sym && a[k].i == b[k].i {
			continue
		}
		p, q := a[k].set(), b[k].set()
		if p.and(q) == (bset{}) {
			return -1
		}
		_, o1 := p.one()
		_, o2 := q.one()
		if !o1 || !o2 {
			res = 0
		}
	}
	return res
}

// argText is the text of a string or byte slice.
func (tw *textWorld) argText(in *Interp, st *State, v *Val) (string, bool) {
	if v.cont != 0 {
		es, ok := in.seq(st, v)
		if !ok {
			return "", false
		}
		var as []atom
		for _, e := range es {
			a, ok := tw.charAtom(e)
			if !ok {
				return "", false
			}
			as = append(as, a)
		}
		return fromAtoms(as), true
	}
	if v.dyn == nil && v.inner != nil {
		return "", false
	}
	return textOf(v)
}

func (tw *textWorld) argAtoms(in *Interp, st *State, v *Val) ([]atom, bool) {
	s, ok := tw.argText(in, st, v)
	if !ok {
		return nil, false
	}
	return tw.atoms(s)
}

// whole: the text is one complete rendering.
func whole(s string) (piece, bool) {
	ps := pieces(s)
	if len(ps) == 1 && ps[0].form != "" && !strings.Contains(ps[0].form, "~") {
		return ps[0], true
	}
	return piece{}, false
}

type span struct{ i, j int }

// cases evaluates f on every representative of a text; each different result
// is one outcome.
func cases(as []atom, sig func(c byte) string, f func(s string) string) []string {
	seen := map[string]bool{}
	var out []string
	for _, r := range reps(as, sig) {
		x := f(r)
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func spansOf(loc [][]int) string {
	var b strings.Builder
	for _, l := range loc {
		fmt.Fprintf(&b, "%d:%d ", l[0], l[1])
	}
	return b.String()
}

func parseSpans(s string) (out []span) {
	for _, f := range strings.Fields(s) {
		var x span
		fmt.Sscanf(f, "%d:%d", &x.i, &x.j)
		out = append(out, x)
	}
	return
}

func (tw *textWorld) spanVal(as []atom, x span) *Val {
	if x.i < 0 {
		return strVal("")
	}
	return textVal(fromAtoms(as[x.i:x.j]))
}

func (tw *textWorld) strList(in *Interp, st *State, vs []*Val) *Val {
	v := &Val{nilb: mayNon, ln: intVal(int64(len(vs)))}
	if id := in.newCont(st, &heapArr{elems: vs}); id != 0 {
		return view(v, id, 0, len(vs))
	}
	return v
}

// outcomes makes one result for every case.
func outcomes(st *State, in *Interp, cs []string, f func(st *State, c string) []*Val) ([]Ret, bool) {
	var out []Ret
	for _, c := range cs {
		s := &State{mem: st.mem, flags: st.flags}
		vs := f(s, c)
		out = append(out, Ret{vals: vs, flags: s.flags})
	}
	return out, true
}

// reCall models the methods of a regular expression.
func (tw *textWorld) reCall(in *Interp, st *State, method, pat string, args []*Val) ([]Ret, bool) {
	as, ok := tw.argAtoms(in, st, args[0])
	if !ok {
		return nil, false
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, false
	}
	n := int64(-1)
	if len(args) > 1 && method != "ReplaceAllString" && method != "ReplaceAllLiteralString" {
		if n, ok = args[1].int1(); !ok {
			return nil, false
		}
	}
	sig := reSig(pat)
	switch method {
	case "MatchString", "Match":
		return outcomes(st, in, cases(as, sig, func(s string) string { return strconv.FormatBool(re.MatchString(s)) }), func(st *State, c string) []*Val {
			return []*Val{boolVal(c == "true")}
		})
	case "FindStringIndex", "FindString", "FindStringSubmatch", "FindStringSubmatchIndex":
		return outcomes(st, in, cases(as, sig, func(s string) string {
			m := re.FindStringSubmatchIndex(s)
			if m == nil {
				return "none"
			}
			var ls [][]int
			for k := 0; k+1 < len(m); k += 2 {
				ls = append(ls, []int{m[k], m[k+1]})
			}
			return spansOf(ls)
		}), func(st *State, c string) []*Val {
			if c == "none" {
				if method == "FindString" {
					return []*Val{strVal("")}
				}
				return []*Val{NilVal}
			}
			sp := parseSpans(c)
			var vs []*Val
			switch method {
			case "FindString":
				return []*Val{tw.spanVal(as, sp[0])}
			case "FindStringIndex":
				vs = []*Val{intVal(int64(sp[0].i)), intVal(int64(sp[0].j))}
			case "FindStringSubmatchIndex":
				for _, x := range sp {
					vs = append(vs, intVal(int64(x.i)), intVal(int64(x.j)))
				}
			default:
				for _, x := range sp {
					vs = append(vs, tw.spanVal(as, x))
				}
			}
			return []*Val{tw.strList(in, st, vs)}
		})
	case "FindAllString", "FindAllStringIndex", "Split":
		if method == "Split" && n != -1 {
			return nil, false
		}
		return outcomes(st, in, cases(as, sig, func(s string) string { return "x" + spansOf(re.FindAllStringIndex(s, int(n))) }), func(st *State, c string) []*Val {
			sp := parseSpans(c[1:])
			var vs []*Val
			switch method {
			case "Split":
				if len(as) == 0 {
					return []*Val{tw.strList(in, st, []*Val{strVal("")})}
				}
				beg, end := 0, 0
				for _, m := range sp {
					end = m.i
					if m.j != 0 {
						vs = append(vs, tw.spanVal(as, span{beg, end}))
					}
					beg = m.j
				}
				if end != len(as) {
					vs = append(vs, tw.spanVal(as, span{beg, len(as)}))
				}
			case "FindAllString":
				if len(sp) == 0 {
					return []*Val{NilVal}
				}
				for _, m := range sp {
					vs = append(vs, tw.spanVal(as, m))
				}
			default:
				if len(sp) == 0 {
					return []*Val{NilVal}
				}
				for _, m := range sp {
					vs = append(vs, tw.strList(in, st, []*Val{intVal(int64(m.i)), intVal(int64(m.j))}))
				}
			}
			return []*Val{tw.strList(in, st, vs)}
		})
	case "ReplaceAllString", "ReplaceAllLiteralString":
		by, ok := args[1].str1()
		if !ok || strings.Contains(by, "$") {
			return nil, false
		}
		return outcomes(st, in, cases(as, sig, func(s string) string { return "x" + spansOf(re.FindAllStringIndex(s, -1)) }), func(st *State, c string) []*Val {
			return []*Val{textVal(tw.replaceSpans(as, parseSpans(c[1:]), by))}
		})
	}
	return nil, false
}

func (tw *textWorld) replaceSpans(as []atom, sp []span, by string) string {
	var out []atom
	at := 0
	for _, m := range sp {
		out = append(out, as[at:m.i]...)
		for k := 0; k < len(by); k++ {
			out = append(out, atom{b: by[k]})
		}
		at = m.j
	}
	return fromAtoms(append(out, as[at:]...))
}

// stringsCall models functions of package strings (and bytes).
func (tw *textWorld) stringsCall(in *Interp, st *State, name string, args []*Val) ([]Ret, bool) {
	one := func(v *Val) ([]Ret, bool) { return []Ret{{vals: []*Val{v}, flags: st.flags}}, true }
	if name == "Join" {
		es, ok := in.seq(st, args[0])
		sep, ok2 := textOf(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		out := ""
		for k, e := range es {
			s, ok := textOf(e)
			if !ok {
				return nil, false
			}
			if k > 0 {
				out += sep
			}
			out += s
		}
		return one(textVal(out))
	}
	if name == "Repeat" {
		s, ok := textOf(args[0])
		n, ok2 := args[1].int1()
		if !ok || !ok2 || n < 0 || n > 1000 {
			return nil, false
		}
		return one(textVal(strings.Repeat(s, int(n))))
	}
	as, ok := tw.argAtoms(in, st, args[0])
	if !ok {
		return nil, false
	}
	arg := ""
	if len(args) > 1 {
		if k, isK := args[1].int1(); isK {
			arg = string(rune(k))
		} else if arg, ok = tw.argText(in, st, args[1]); !ok || strings.IndexByte(arg, 1) >= 0 {
			return nil, false
		}
	}
	num := func(f func(s string) int) ([]Ret, bool) {
		return outcomes(st, in, cases(as, setSig(arg), func(s string) string { return strconv.Itoa(f(s)) }), func(st *State, c string) []*Val {
			k, _ := strconv.Atoi(c)
			return []*Val{intVal(int64(k))}
		})
	}
	boolean := func(f func(s string) bool) ([]Ret, bool) {
		return outcomes(st, in, cases(as, setSig(arg), func(s string) string { return strconv.FormatBool(f(s)) }), func(st *State, c string) []*Val {
			return []*Val{boolVal(c == "true")}
		})
	}
	// part: f gives the beginning and end of the part that is kept
	part := func(set string, left func(s string) string, right func(s string) string) ([]Ret, bool) {
		return outcomes(st, in, cases(as, setSig(set), func(s string) string {
			i := len(s) - len(left(s))
			j := len(right(s))
			if j < i {
				j = i
			}
			return fmt.Sprintf("%d:%d", i, j)
		}), func(st *State, c string) []*Val {
			return []*Val{tw.spanVal(as, parseSpans(c)[0])}
		})
	}
	same := func(s string) string { return s }
	const white = " \t\r\n\v\f"
	list := func(sig string, f func(s string) [][]int) ([]Ret, bool) {
		return outcomes(st, in, cases(as, setSig(sig), func(s string) string { return "x" + spansOf(f(s)) }), func(st *State, c string) []*Val {
			var vs []*Val
			for _, x := range parseSpans(c[1:]) {
				vs = append(vs, tw.spanVal(as, x))
			}
			return []*Val{tw.strList(in, st, vs)}
		})
	}
	switch name {
	case "Index", "IndexByte", "IndexRune":
		return num(func(s string) int { return strings.Index(s, arg) })
	case "LastIndex", "LastIndexByte":
		return num(func(s string) int { return strings.LastIndex(s, arg) })
	case "Count":
		return num(func(s string) int { return strings.Count(s, arg) })
	case "IndexAny":
		return num(func(s string) int { return strings.IndexAny(s, arg) })
	case "Contains", "ContainsRune":
		return boolean(func(s string) bool { return strings.Contains(s, arg) })
	case "ContainsAny":
		return boolean(func(s string) bool { return strings.ContainsAny(s, arg) })
	case "HasPrefix":
		return boolean(func(s string) bool { return strings.HasPrefix(s, arg) })
	case "HasSuffix":
		return boolean(func(s string) bool { return strings.HasSuffix(s, arg) })
	case "TrimSpace":
		return part(white, func(s string) string { return strings.TrimLeft(s, white) }, func(s string) string { return strings.TrimRight(s, white) })
	case "Trim":
		return part(arg, func(s string) string { return strings.TrimLeft(s, arg) }, func(s string) string { return strings.TrimRight(s, arg) })
	case "TrimLeft":
		return part(arg, func(s string) string { return strings.TrimLeft(s, arg) }, same)
	case "TrimRight":
		return part(arg, same, func(s string) string { return strings.TrimRight(s, arg) })
	case "TrimPrefix":
		return part(arg, func(s string) string { return strings.TrimPrefix(s, arg) }, same)
	case "TrimSuffix":
		return part(arg, same, func(s string) string { return strings.TrimSuffix(s, arg) })
	case "Fields":
		return list(white, func(s string) (out [][]int) {
			for i := 0; i < len(s); {
				if strings.IndexByte(white, s[i]) >= 0 {
					i++
					continue
				}
				j := i
				for j < len(s) && strings.IndexByte(white, s[j]) < 0 {
					j++
				}
				out = append(out, []int{i, j})
				i = j
			}
			return
		})
	case "Split", "SplitN", "SplitAfter":
		n := int64(-1)
		if len(args) > 2 {
			if n, ok = args[2].int1(); !ok {
				return nil, false
			}
		}
		if arg == "" {
			return nil, false
		}
		return list(arg, func(s string) (out [][]int) {
			at := 0
			ps := strings.SplitN(s, arg, int(n))
			if name == "SplitAfter" {
				ps = strings.SplitAfter(s, arg)
			}
			for _, p := range ps {
				out = append(out, []int{at, at + len(p)})
				at += len(p)
				if name != "SplitAfter" {
					at += len(arg)
				}
			}
			return
		})
	case "Cut":
		return outcomes(st, in, cases(as, setSig(arg), func(s string) string { return strconv.Itoa(strings.Index(s, arg)) }), func(st *State, c string) []*Val {
			k, _ := strconv.Atoi(c)
			if k < 0 {
				return []*Val{tw.spanVal(as, span{0, len(as)}), strVal(""), FalseVal}
			}
			return []*Val{tw.spanVal(as, span{0, k}), tw.spanVal(as, span{k + len(arg), len(as)}), TrueVal}
		})
	case "ReplaceAll", "Replace":
		by, ok := args[2].str1()
		n := int64(-1)
		ok2 := true
		if len(args) > 3 {
			n, ok2 = args[3].int1()
		}
		if !ok || !ok2 || arg == "" {
			return nil, false
		}
		return outcomes(st, in, cases(as, setSig(arg), func(s string) string {
			var ls [][]int
			for at := 0; n < 0 || int64(len(ls)) < n; {
				k := strings.Index(s[at:], arg)
				if k < 0 {
					break
				}
				ls = append(ls, []int{at + k, at + k + len(arg)})
				at += k + len(arg)
			}
			return "x" + spansOf(ls)
		}), func(st *State, c string) []*Val {
			return []*Val{textVal(tw.replaceSpans(as, parseSpans(c[1:]), by))}
		})
	}
	return nil, false
}

// unquote reads a Go string literal.
func (tw *textWorld) unquote(as []atom) (string, bool, bool) {
	if p, ok := whole(fromAtoms(as)); ok {
		switch p.form {
		case fGo, fGoA:
			return sym1(fRaw, p.sym), true, true
		case fChrG:
			return sym1(fChr, p.sym), true, true
		}
	}
	rs := reps(as, setSig("\"`'\\\n"))
	good := 0
	for _, r := range rs {
		if _, err := strconv.Unquote(r); err == nil {
			good++
		}
	}
	if good == 0 {
		return "", false, true
	}
	if good < len(rs) {
		return "", false, false
	}
	var out []atom
	body := as[1 : len(as)-1]
	for k := 0; k < len(body); k++ {
		c, one := body[k].set().one()
		if !one || c != '\\' || rs[0][0] == '`' {
			out = append(out, body[k])
			continue
		}
		if k+1 == len(body) {
			return "", false, false
		}
		e, one := body[k+1].set().one()
		if !one {
			return lossText(rs[0], ""), true, true
		}
		switch e {
		case '"', '\\', '\'':
			out = append(out, body[k+1])
			k++
		default:
			x, err := strconv.Unquote(rs[0][:1] + rs[0][1+k:min(len(rs[0])-1, 3+k)] + rs[0][:1])
			if err != nil {
				return lossText(rs[0], ""), true, true
			}
			for m := 0; m < len(x); m++ {
				out = append(out, atom{b: x[m]})
			}
			k++
		}
	}
	return fromAtoms(out), true, true
}

const fGoA = "gqa" // a string as Go source in ASCII, with quotes

// runeOf is the rune a text of one character stands for.
func (tw *textWorld) runeOf(as []atom) (v *Val, n int) {
	r := reps(as, nil)[0]
	c, w := utf8.DecodeRuneInString(r)
	if as[0].form == fChr && as[0].i == 0 && w == as[0].n && len(as) >= w && as[w-1].sym == as[0].sym {
		x := intRange(32, true).dup()
		x.tag = as[0].sym
		return &x, w
	}
	if w == 1 {
		return byteVal(as[0]), 1
	}
	return intVal(int64(c)), w
}

// tcall models functions on text of known layout.
func (tw *textWorld) tcall(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, name string, args []*Val) ([]Ret, bool) {
	ret := func(vs ...*Val) ([]Ret, bool) { return []Ret{{vals: vs, flags: st.flags}}, true }
	if fn.Pkg == nil {
		return nil, false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes":
		if fn.Signature.Recv() == nil && len(args) > 0 {
			bytesResult := fn.Pkg.Pkg.Path() == "bytes" && fn.Signature.Results().Len() > 0
			if bytesResult {
				if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
					return nil, false
				}
			}
			if rs, ok := tw.stringsCall(in, st, fn.Name(), args); ok {
				return rs, true
			}
		}
	case "regexp":
		if fn.Signature.Recv() != nil && strings.HasPrefix(args[0].tag, "re:") && len(args) > 1 {
			if rs, ok := tw.reCall(in, st, fn.Name(), args[0].tag[3:], args[1:]); ok {
				return rs, true
			}
		}
		if name == "regexp.MatchString" {
			if pat, ok := args[0].str1(); ok {
				if rs, ok := tw.reCall(in, st, "MatchString", pat, args[1:]); ok {
					for k := range rs {
						rs[k].vals = append(rs[k].vals, NilVal)
					}
					return rs, true
				}
			}
		}
	}
	switch name {
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if c, ok := tw.charAtom(args[1]); ok {
			tw.write(in, st, args[0], fromAtoms([]atom{c}), true, nil)
			return ret(NilVal)
		}
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if c, ok := tw.charAtom(args[1]); ok && args[1].tag != "" {
			tw.write(in, st, args[0], fromAtoms([]atom{c}), true, nil)
			return ret(rangeVal(Bound{}, posInf), NilVal)
		}
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		if s, ok := tw.argText(in, st, args[1]); ok {
			tw.write(in, st, args[0], s, true, nil)
			return ret(rangeVal(Bound{}, posInf), NilVal)
		}
	case "(*bytes.Buffer).Truncate":
		if n, ok := args[1].int1(); ok {
			if as, ok := tw.argAtoms(in, st, tw.content(in, st, args[0], nil)); ok && n >= 0 && int(n) <= len(as) {
				tw.setContent(in, st, args[0], textVal(fromAtoms(as[:n])))
				return ret()
			}
		}
	case "bufio.NewReader", "bufio.NewScanner", "bufio.NewReaderSize":
		if args[0].dyn == nil || args[0].inner == nil {
			return nil, false
		}
		o := in.obj(in.siteID(a.fn, i.Value().Name()), true, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), nil)
		v := ptrTo(o)
		tw.setContent(in, st, v, tw.content(in, st, args[0].inner, nil))
		return ret(v)
	case "(*bufio.Reader).ReadString", "(*bytes.Buffer).ReadString", "(*bufio.Scanner).Scan":
		as, ok := tw.argAtoms(in, st, tw.content(in, st, args[0], nil))
		if !ok {
			in.loseHeap(st)
			return nil, false
		}
		delim := int64('\n')
		if len(args) > 1 {
			if delim, ok = args[1].int1(); !ok {
				return nil, false
			}
		}
		line, rest, end := as, []atom{}, true
		for k, x := range as {
			if s := x.set(); s.has(byte(delim)) {
				line, rest, end = as[:k+1], as[k+1:], false
				break
			}
		}
		if name == "(*bufio.Scanner).Scan" {
			if end && len(line) == 0 {
				return ret(FalseVal)
			}
			if !end {
				line = line[:len(line)-1]
			}
			if n := len(line); n > 0 && line[n-1].form == "" && line[n-1].b == '\r' {
				line = line[:n-1]
			}
			tok := *args[0]
			tok.field, tok.str = "~tok", ""
			tw.setContent(in, st, &tok, textVal(fromAtoms(line)))
			tw.setContent(in, st, args[0], textVal(fromAtoms(rest)))
			return ret(TrueVal)
		}
		tw.setContent(in, st, args[0], textVal(fromAtoms(rest)))
		e := NilVal
		if end {
			e = &Val{nilb: mayNon, tag: "EOF"}
		}
		return ret(textVal(fromAtoms(line)), e)
	case "(*bufio.Scanner).Text":
		tok := *args[0]
		tok.field, tok.str = "~tok", ""
		return ret(tw.content(in, st, &tok, nil))
	case "(*bufio.Scanner).Err":
		return ret(NilVal)
	case "(*bufio.Scanner).Buffer", "(*bufio.Scanner).Split":
		return ret()
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		if as, ok := tw.argAtoms(in, st, args[0]); ok {
			return ret(intVal(int64(utf8.RuneCountInString(reps(as, nil)[0]))))
		}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		if as, ok := tw.argAtoms(in, st, args[0]); ok && len(as) > 0 {
			v, n := tw.runeOf(as)
			return ret(v, intVal(int64(n)))
		}
	case "strconv.Unquote":
		if as, ok := tw.argAtoms(in, st, args[0]); ok {
			if s, ok, known := tw.unquote(as); ok {
				return ret(textVal(s), NilVal)
			} else if known {
				return ret(strVal(""), NonNil)
			}
		}
	case "strconv.UnquoteChar":
		q, isQ := args[1].int1()
		if as, ok := tw.argAtoms(in, st, args[0]); ok && isQ && q >= 0 && q < 256 {
			fail := func() ([]Ret, bool) { return ret(intVal(0), FalseVal, strVal(""), NonNil) }
			if len(as) == 0 {
				return fail()
			}
			r := reps(as, nil)[0]
			c, multi, tail, err := strconv.UnquoteChar(r, byte(q))
			if err != nil {
				return fail()
			}
			n := len(r) - len(tail)
			rest := textVal(fromAtoms(as[n:]))
			x := as[0]
			if (x.form == fChrQ || x.form == fChrG) && x.i == 1 && n == x.n-2 && as[n-1].sym == x.sym && as[n-1].form == x.form && as[n-1].i == x.n-2 {
				v := intRange(32, true).dup()
				v.tag = x.sym
				return ret(&v, boolVal(multi), rest, NilVal)
			}
			if r[0] != '\\' {
				v, _ := tw.runeOf(as)
				return ret(v, boolVal(multi), rest, NilVal)
			}
			return ret(intVal(int64(c)), boolVal(multi), rest, NilVal)
		}
	case "strconv.FormatFloat", "strconv.AppendFloat":
		if name == "strconv.FormatFloat" && args[0].tag != "" {
			f, ok := args[1].int1()
			prec, ok2 := args[2].int1()
			bits, ok3 := args[3].int1()
			if ok && ok2 && ok3 {
				return ret(textVal(tw.fmtFloat(args[0].tag, byte(f), int(prec), int(bits))))
			}
		}
	case "strconv.ParseFloat":
		bits, ok2 := args[1].int1()
		as, ok := tw.argAtoms(in, st, args[0])
		if ok && ok2 {
			return tw.parseFloat(in, st, as, int(bits))
		}
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		s, ok := tw.argText(in, st, args[0])
		if !ok {
			return nil, false
		}
		p, isDec := whole(s)
		isDec = isDec && p.form == fDec
		if strings.IndexByte(s, 1) < 0 || isDec && tw.templ(p.form, p.sym) == nil {
			return nil, false
		}
		as, ok := tw.atoms(s)
		if !ok {
			return nil, false
		}
		base, bits := int64(10), int64(64)
		if len(args) == 3 {
			var ok2 bool
			base, ok = args[1].int1()
			bits, ok2 = args[2].int1()
			if !ok || !ok2 {
				return nil, false
			}
		}
		v := intRange(int(bits)+64*bit(bits == 0), name != "strconv.ParseUint").dup()
		v.nilb, v.tag = mayNon, sym1(fLoss, "")
		if isDec && (base == 10 || base == 0) {
			if x := tw.val(p.sym); x != nil {
				v = *x
			}
			v.tag = p.sym
		}
		return outcomes(st, in, cases(as, nil, func(s string) string {
			var err error
			if name == "strconv.ParseUint" {
				_, err = strconv.ParseUint(s, int(base), int(bits))
			} else {
				_, err = strconv.ParseInt(s, int(base), int(bits))
			}
			return strconv.FormatBool(err == nil)
		}), func(st *State, c string) []*Val {
			if c == "true" {
				return []*Val{&v, NilVal}
			}
			return []*Val{intVal(0), NonNil}
		})
	case "strconv.ParseBool":
		if s, ok := tw.argText(in, st, args[0]); ok {
			if p, ok := whole(s); ok && p.form == fBool {
				return ret(&Val{nilb: mayNon, tag: p.sym}, NilVal)
			}
			if as, ok := tw.atoms(s); ok {
				b, err := strconv.ParseBool(reps(as, nil)[0])
				if err != nil {
					return ret(FalseVal, NonNil)
				}
				return ret(boolVal(b), NilVal)
			}
		}
	case "(time.Time).Format", "(time.Time).String":
		if rep, ok := tw.times[args[0].tag]; ok {
			l := "2006-01-02 15:04:05.999999999 -0700 MST"
			if name == "(time.Time).Format" {
				if l, ok = args[1].str1(); !ok {
					return nil, false
				}
			}
			_ = rep
			return ret(textVal(sym1(fTL+l, args[0].tag)))
		}
	case "(time.Time).Nanosecond":
		if rep, ok := tw.times[args[0].tag]; ok {
			return ret(intVal(int64(rep.Nanosecond())))
		}
	case "time.Parse":
		l, ok := args[0].str1()
		s, ok2 := tw.argText(in, st, args[1])
		if !ok || !ok2 {
			return nil, false
		}
		as, ok := tw.atoms(s)
		if !ok {
			return nil, false
		}
		t, err := time.Parse(l, timeRep(as))
		if err != nil {
			return ret(&Val{nilb: mayNon}, NonNil)
		}
		v := &Val{nilb: mayNon, tag: sym1(fLoss, "")}
		if p, ok := whole(s); ok && strings.HasPrefix(p.form, fTL) && t.Equal(tw.times[p.sym]) {
			v.tag = p.sym
		}
		return ret(v, NilVal)
	case "math.IsNaN", "math.IsInf":
		if isSym(args[0]) {
			f := tw.floats[strings.TrimPrefix(args[0].tag, "=")]
			if strings.HasPrefix(args[0].tag, "=") {
				f = args[0].tag[1:]
			}
			if name == "math.IsNaN" {
				return ret(boolVal(f == "NaN"))
			}
			sign, ok := args[1].int1()
			if !strings.HasSuffix(f, "Inf") {
				return ret(FalseVal)
			}
			if ok {
				return ret(boolVal(sign == 0 || (sign > 0) == (f[0] == '+')))
			}
		}
	}
	return nil, false
}

const fTL = "tl:" // a time in the layout that follows

// timeRep is the representative text of a time: every digit of a class is 1.
func timeRep(as []atom) string {
	b := []byte(reps(as, nil)[0])
	for k, a := range as {
		if _, one := a.set().one(); !one && a.set().has('1') {
			b[k] = '1'
		}
	}
	return string(b)
}

// fmtFloat is the text of a floating-point symbol.
func (tw *textWorld) fmtFloat(sym string, f byte, prec, bits int) string {
	if strings.HasPrefix(sym, "=") {
		x, err := strconv.ParseFloat(sym[1:], 64)
		if err != nil {
			return sym1(fLoss, "")
		}
		return strconv.FormatFloat(x, f, prec, bits)
	}
	if ps := pieces(sym); strings.HasPrefix(sym, "\x01"+fLoss) && len(ps) == 1 {
		if x, err := strconv.ParseFloat(ps[0].form[1:], 64); err == nil {
			return lossText(strconv.FormatFloat(x, f, prec, bits), ps[0].sym)
		}
	}
	if strings.IndexByte(sym, 1) >= 0 {
		return sym1(fLoss, "")
	}
	form := fFlt
	if bits == 32 {
		form = fF32
	}
	form += "." + string([]byte{f})
	t := tw.templ(form, sym)
	if t == nil {
		return sym1(fLoss, sym)
	}
	if prec < 0 || len(t) >= 3 && tw.floats[sym] != "" && tw.floats[sym] != "0" {
		return sym1(form, sym)
	}
	if f != 'f' {
		return tw.floatLoss(sym, f, prec, bits)
	}
	own := 0
	for k, c := range t {
		if b, one := c.one(); one && b == '.' {
			own = len(t) - k - 1
		}
	}
	switch {
	case prec < own:
		return tw.floatLoss(sym, f, prec, bits)
	case prec == own:
		return sym1(form, sym)
	}
	dot := ""
	if own == 0 {
		dot = "."
	}
	return sym1(form, sym) + dot + strings.Repeat("0", prec-own)
}

func (tw *textWorld) floatLoss(sym string, f byte, prec, bits int) string {
	return lossText(strconv.FormatFloat(tw.repFloat(sym), f, prec, bits), sym)
}

func (tw *textWorld) parseFloat(in *Interp, st *State, as []atom, bits int) ([]Ret, bool) {
	s := fromAtoms(as)
	r := reps(as, nil)[0]
	x, err := strconv.ParseFloat(r, bits)
	if err != nil {
		return []Ret{{vals: []*Val{{nilb: mayNon}, NonNil}, flags: st.flags}}, true
	}
	ps := pieces(s)
	v := &Val{nilb: mayNon, tag: lossText(strconv.FormatFloat(x, 'g', -1, 64), ps[len(ps)-1].sym)}
	switch {
	case strings.IndexByte(s, 1) < 0:
		v.tag = "=" + strconv.FormatFloat(x, 'g', -1, 64)
	case len(ps) <= 2 && ps[0].form != "" && !strings.Contains(ps[0].form, "~"):
		p := ps[0]
		exact := true
		if len(ps) == 2 { // zeros may follow
			t := tw.templ(p.form, p.sym)
			dot := false
			for _, c := range t {
				if b, one := c.one(); one && b == '.' {
					dot = true
				}
			}
			z := ps[1].lit
			if !dot && strings.HasPrefix(z, ".") {
				z, dot = z[1:], true
			}
			exact = dot && strings.Trim(z, "0") == "" && ps[1].form == "" && strings.HasSuffix(p.form, ".f")
		}
		t := tw.typ(p.sym)
		switch {
		case !exact:
		case strings.HasPrefix(p.form, fF32+".") && t == "float32", strings.HasPrefix(p.form, fFlt+".") && (t == "float32" || bits == 64):
			v.tag = p.sym
		case p.form == fDec && fits(t, 53, true) && (bits == 64 || fits(t, 24, true)):
			v.tag = p.sym
		}
	}
	return []Ret{{vals: []*Val{v, NilVal}, flags: st.flags}}, true
}

// tslice is a part of a text.
func (tw *textWorld) tslice(x, lo, hi *Val) *Val {
	if tw == nil || tw.tm == nil {
		return nil
	}
	s, ok := textOf(x)
	if !ok {
		return nil
	}
	as, ok := tw.atoms(s)
	if !ok {
		return nil
	}
	l, h := int64(0), int64(len(as))
	if lo != nil {
		if l, ok = lo.int1(); !ok {
			return nil
		}
	}
	if hi != nil {
		if h, ok = hi.int1(); !ok {
			return nil
		}
	}
	if l < 0 || h > int64(len(as)) || l > h {
		return nil
	}
	return withLab(textVal(fromAtoms(as[l:h])), x.lab)
}

// tindex is one byte of a text.
func (tw *textWorld) tindex(x, k *Val) *Val {
	s, ok := textOf(x)
	n, ok2 := k.int1()
	if !ok || !ok2 {
		return nil
	}
	as, ok := tw.atoms(s)
	if !ok || n < 0 || n >= int64(len(as)) {
		return nil
	}
	return withLab(byteVal(as[n]), x.lab)
}

// nextRune is the next step of a range over a text.
func (tw *textWorld) nextRune(x *Val, pos int64) (v *Val, n int, ok bool) {
	if tw == nil || tw.tm == nil {
		return nil, 0, false
	}
	s, ok := textOf(x)
	if !ok {
		return nil, 0, false
	}
	as, ok := tw.atoms(s)
	if !ok || pos > int64(len(as)) {
		return nil, 0, false
	}
	if pos == int64(len(as)) {
		return nil, 0, true
	}
	v, n = tw.runeOf(as[pos:])
	return v, n, true
}

// tcompare decides a comparison of a byte with a constant.
func (tw *textWorld) tcompare(op token.Token, x, y *Val) *Val {
	if x.tag == "" || strings.IndexByte(x.tag, 1) != 0 {
		if y.tag == "" || strings.IndexByte(y.tag, 1) != 0 {
			return nil
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		x, y = y, x
	}
	a, ok := tw.charAtom(x)
	k, ok2 := y.int1()
	if !ok || !ok2 {
		return nil
	}
	t, f := 0, 0
	bs := a.set().bytes()
	for _, c := range bs {
		var h bool
		switch b := int64(c); op {
		case token.EQL:
			h = b == k
		case token.NEQ:
			h = b != k
		case token.LSS:
			h = b < k
		case token.LEQ:
			h = b <= k
		case token.GTR:
			h = b > k
		case token.GEQ:
			h = b >= k
		default:
			return nil
		}
		if h {
			t++
		} else {
			f++
		}
	}
	switch {
	case f == 0:
		return TrueVal
	case t == 0:
		return FalseVal
	}
	return BoolTop
}

// width pads a text to a width.
func (tw *textWorld) padTo(s string, width int, left bool) (string, bool) {
	as, ok := tw.atoms(s)
	if !ok {
		return "", false
	}
	n := width - utf8.RuneCountInString(reps(as, nil)[0])
	if n <= 0 {
		return s, true
	}
	if left {
		return s + strings.Repeat(" ", n), true
	}
	return strings.Repeat(" ", n) + s, true
}

var _ = sort.Strings

// tconv models conversions of bytes and texts of known layout.
func (tw *textWorld) tconv(in *Interp, st *State, from, to types.Type, x *Val) *Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	isInt := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsInteger != 0 }
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	char := func() (atom, bool) {
		if strings.IndexByte(x.tag, 1) != 0 {
			return atom{}, false
		}
		return tw.charAtom(x)
	}
	switch {
	case isInt(fb) && isInt(tb):
		if _, ok := char(); ok {
			return x
		}
	case isInt(fb) && isStr(tb):
		if a, ok := char(); ok {
			for _, c := range a.cls.bytes() {
				if c >= 0x80 {
					return nil
				}
			}
			return textVal(fromAtoms([]atom{a}))
		}
	case isStr(fb) && tb == nil:
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		e, _ := sl.Elem().Underlying().(*types.Basic)
		s, ok := textOf(x)
		if !ok || e == nil {
			return nil
		}
		as, ok := tw.atoms(s)
		if !ok || len(as) > in.maxEl() {
			return nil
		}
		es := []*Val{}
		for k := 0; k < len(as); {
			if e.Kind() == types.Int32 {
				v, n := tw.runeOf(as[k:])
				es = append(es, v)
				k += n
				continue
			}
			es = append(es, byteVal(as[k]))
			k++
		}
		if id := in.newCont(st, &heapArr{elems: es}); id != 0 {
			return view(&Val{nilb: mayNon}, id, 0, len(es))
		}
	case isStr(tb) && fb == nil:
		sl, ok := from.Underlying().(*types.Slice)
		if !ok || x.cont == 0 {
			return nil
		}
		if e, _ := sl.Elem().Underlying().(*types.Basic); e == nil || e.Kind() != types.Uint8 {
			return nil
		}
		if s, ok := tw.argText(in, st, x); ok {
			return textVal(s)
		}
	}
	return nil
}

// tsprintf models formatting with widths.
func (tw *textWorld) tsprintf(in *Interp, st *State, format string, args []*Val) (string, bool) {
	var b strings.Builder
	k := 0
	arg := func() *Val {
		if k < len(args) {
			k++
			return args[k-1]
		}
		return nil
	}
	num := func() (int, bool) {
		v := arg()
		if v == nil || v.inner == nil {
			return 0, false
		}
		n, ok := v.inner.int1()
		return int(n), ok
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			b.WriteByte(format[i])
			continue
		}
		i++
		flags := ""
		for ; i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0; i++ {
			flags += format[i : i+1]
		}
		size := func() (int, bool, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				n, ok := num()
				return n, true, ok
			}
			j := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			n, _ := strconv.Atoi(format[j:i])
			return n, i > j, true
		}
		w, hasW, ok := size()
		if !ok {
			return "", false
		}
		prec, hasP := 0, false
		if i < len(format) && format[i] == '.' {
			i++
			if prec, _, ok = size(); !ok {
				return "", false
			}
			hasP = true
		}
		if i >= len(format) {
			return "", false
		}
		verb, n := utf8.DecodeRuneInString(format[i:])
		i += n - 1
		if verb == '%' {
			b.WriteByte('%')
			continue
		}
		v := arg()
		if v == nil {
			return "", false
		}
		left := strings.Contains(flags, "-")
		flags = strings.ReplaceAll(flags, "-", "")
		if w < 0 {
			w, left = -w, true
		}
		s := ""
		fb := (*types.Basic)(nil)
		if v.dyn != nil {
			fb, _ = v.dyn.Underlying().(*types.Basic)
		}
		switch {
		case fb != nil && fb.Info()&types.IsFloat != 0 && v.inner != nil && v.inner.tag != "" && hasP && strings.ContainsRune("feEgG", verb):
			bits := 64
			if fb.Kind() == types.Float32 {
				bits = 32
			}
			s = tw.fmtFloat(v.inner.tag, byte(verb), prec, bits)
		case flags == "+" && verb == 'q' && fb != nil && fb.Info()&types.IsString != 0 && v.inner != nil:
			t, ok := textOf(v.inner)
			if !ok {
				return "", false
			}
			s = tw.quote(t, fGoA)
		case hasP && verb == 's':
			as, ok := tw.atoms(tw.render(in, st, v, verb))
			if !ok {
				return "", false
			}
			s = fromAtoms(as[:min(prec, len(as))])
		default:
			s = tw.render(in, st, v, verb)
			if hasP {
				s = sym1(fLoss, "")
			}
			if flags == "0" && verb == 'd' {
				as, ok := tw.atoms(s)
				if !ok || len(as) > 0 && as[0].set().has('-') {
					s = sym1(fLoss, "")
				} else if len(as) < w {
					s = strings.Repeat("0", w-len(as)) + s
				}
			} else if flags != "" {
				s = sym1(fLoss, "")
			}
		}
		if hasW {
			if t, ok := tw.padTo(s, w, left); ok {
				s = t
			} else {
				s = sym1(fLoss, "")
			}
		}
		b.WriteString(s)
	}
	if k != len(args) {
		return "", false
	}
	return b.String(), true
}
