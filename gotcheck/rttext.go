package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The text forms: every cell is a symbol whose renderings have a known layout,
// taken in turn from a list of variants of its type.

type tvar struct {
	what string
	cst  *Val              // the cell is this constant
	pics map[string]string // pictures of its renderings
	val  *Val              // its range
	rep  float64
	flt  string // 0, NaN, +Inf, -Inf
	tim  string
}

func isTextForm(f string) bool { return f == "text" || f == "unpadded" || f == "csv" }

func intVars(typ string) (vs []tvar) {
	bits, signed, _ := intBits(typ)
	pic := func(what, p string, lo, hi int64) {
		v := rangeVal(Bound{off: lo}, Bound{off: hi})
		vs = append(vs, tvar{what: what, pics: map[string]string{fDec: p}, val: v})
	}
	num := func(what string, k int64) { vs = append(vs, tvar{what: what, cst: intVal(k)}) }
	pic("two digits", "Dd", 10, 99)
	num("zero", 0)
	pic("one digit", "D", 1, 9)
	if bits == 8 {
		pic("three digits", "10d", 100, 109)
	} else {
		n := map[int]int{16: 4, 32: 9, 64: 18}[bits]
		p := int64(1)
		for k := 0; k < n; k++ {
			p *= 10
		}
		pic("many digits", "1"+strings.Repeat("d", n), p, 2*p-1)
	}
	if signed {
		pic("a negative digit", "-D", -9, -1)
		num("the least value", -1<<(bits-1))
		num("the greatest value", 1<<(bits-1)-1)
		return
	}
	if bits < 64 {
		num("the greatest value", 1<<bits-1)
	} else {
		vs = append(vs, tvar{what: "the greatest value", pics: map[string]string{fDec: "18446744073709551615"}, val: rangeVal(Bound{off: 1<<63 - 1}, posInf)})
	}
	return
}

func floatVars(typ string) (vs []tvar) {
	bits := 64
	if typ == "float32" {
		bits = 32
	}
	add := func(what string, rep float64, f, e, wide string) {
		g := f
		if len(f) > 12 && !strings.Contains(f[:2], ".") || strings.HasPrefix(f, "0.000000") {
			g = e
		}
		m := map[string]string{}
		for _, x := range []string{fFlt, fF32} {
			w := f
			if x == fFlt && bits == 32 && wide != "" {
				w = wide
			}
			m[x+".f"], m[x+".e"], m[x+".g"] = w, e, g
			if w != f {
				m[x+".g"], m[x+".e"] = w, "D."+strings.Repeat("d", 16)+e[len(e)-4:]
			}
		}
		vs = append(vs, tvar{what: what, pics: m, rep: rep})
	}
	odd := func(s string, rep float64) {
		m := map[string]string{}
		for _, x := range []string{fFlt, fF32} {
			for _, f := range "feg" {
				m[x+"."+string(f)] = litPic(s)
				if s == "0" && f == 'e' {
					m[x+".e"] = "0e+00"
				}
			}
		}
		vs = append(vs, tvar{what: s, pics: m, rep: rep, flt: s})
	}
	add("a fraction", -11.1, "-Dd.D", "-D.dDe+01", "-Dd."+strings.Repeat("d", 14)+"D")
	odd("0", 0)
	add("a whole digit", 1, "D", "De+00", "")
	odd("NaN", math.NaN())
	add("thousandths", 0.001, "0.00D", "De-03", "0.00"+strings.Repeat("d", 17)+"D")
	add("a long fraction", 11111.11, "Ddddd.dD", "D.dddddDe+04", "Ddddd."+strings.Repeat("d", 10)+"D")
	odd("+Inf", math.Inf(1))
	add("a large number", 1e22, "D"+strings.Repeat("0", 22), "De+22", "D"+strings.Repeat("d", 22))
	odd("-Inf", math.Inf(-1))
	add("a tiny number", 1e-11, "0."+strings.Repeat("0", 10)+"D", "De-11", "0."+strings.Repeat("0", 10)+"D"+strings.Repeat("d", 15)+"D")
	add("a whole number", 100, "D00", "De+02", "")
	z := strings.Repeat
	if bits == 64 {
		add("a huge number", 1.11e60, "DdD"+z("0", 58), "D.dDe+60", "")
		add("a minute number", 1.11e-60, "0."+z("0", 59)+"DdD", "D.dDe-60", "")
		add("a number of 301 digits", 1e300, "D"+z("0", 300), "De+300", "")
		add("a number of 300 decimals", 1.1e-299, "0."+z("0", 298)+"DD", "D.De-299", "")
	} else {
		add("a huge number", 1.11e33, "DdD"+z("0", 31), "D.dDe+33", "Ddd"+z("d", 31))
		add("a minute number", 1e-33, "0."+z("0", 32)+"D", "De-33", "0."+z("0", 32)+"D"+z("d", 15)+"D")
	}
	if bits == 64 {
		add("sixteen digits", 1.111111111111111, "D."+strings.Repeat("d", 14)+"D", "D."+strings.Repeat("d", 14)+"De+00", "")
	} else {
		add("seven digits", 1.111111, "D.dddddD", "D.dddddDe+00", "D."+strings.Repeat("d", 18)+"D")
	}
	return
}

// stringVars: strings of two letters around something remarkable.
func stringVars() (vs []tvar) {
	for _, mid := range []string{"p", " ", `"`, `\`, "\n", "\t", "\x00", "\r", "\u00a0", "é", "世", ",", "#", "[[", "]", " = ", "'", "`", "%", "12", "\u2028", "\U0001F600", "\x7f"} {
		m := map[string]string{}
		q := strconv.Quote(mid)
		qa := strconv.QuoteToASCII(mid)
		pic := func(s string) string {
			if mid == "p" {
				return "p"
			}
			return litPic(s)
		}
		m[fRaw] = "p" + pic(mid) + "p"
		m[fGo] = `"p` + pic(q[1:len(q)-1]) + `p"`
		m[fGoA] = `"p` + pic(qa[1:len(qa)-1]) + `p"`
		vs = append(vs, tvar{what: strconv.Quote(mid) + " between letters", pics: m})
	}
	// at the ends
	for _, s := range []string{" ", `"`, `\`, "\n", "#", "[", "é", "\t"} {
		m := map[string]string{}
		q := strconv.Quote(s)
		qa := strconv.QuoteToASCII(s)
		m[fRaw] = litPic(s) + "p" + litPic(s)
		m[fGo] = `"` + litPic(q[1:len(q)-1]) + "p" + litPic(q[1:len(q)-1]) + `"`
		m[fGoA] = `"` + litPic(qa[1:len(qa)-1]) + "p" + litPic(qa[1:len(qa)-1]) + `"`
		vs = append(vs, tvar{what: strconv.Quote(s) + " at both ends", pics: m})
	}
	for _, s := range []string{"", " ", `"`, `\`, "NaN", "[]", "#", "0"} {
		vs = append(vs, tvar{what: strconv.Quote(s), cst: strVal(s)})
	}
	// one ordinary string in between
	out := []tvar{}
	for k := range vs {
		if k > 0 && k%2 == 0 {
			out = append(out, vs[0])
		}
		out = append(out, vs[k])
	}
	return out
}

func runeVars() (vs []tvar) {
	vs = append(vs, tvar{what: "a letter", pics: map[string]string{fChr: "p", fChrQ: "'p'", fChrG: `"p"`, fDec: "10d"}, val: rangeVal(Bound{off: 65}, Bound{off: 122})})
	for _, c := range "\"\\'\n\t\x00\r 0#[,`éÿ世\u00a0\u2028\U0001F600\U0010FFFF\ufffd\x7f\a" {
		vs = append(vs, tvar{what: strconv.QuoteRune(c), cst: intVal(int64(c))})
	}
	return
}

func timeVars() (vs []tvar) {
	fr := []string{"", ".1", ".11", ".111", ".000000001", ".111111", ".1111111", ".000001", ".111111111"}
	zs := []string{"Z", "+11:11", "-11:11"}
	for k := 0; k < len(fr)*len(zs); k++ {
		vs = append(vs, tvar{what: "a time with fraction \"" + fr[k%len(fr)] + "\"", tim: "1111-11-11T11:11:11" + fr[k%len(fr)] + zs[(k/len(fr)+k)%len(zs)]})
	}
	return
}

func varsOf(typ string) []tvar {
	switch typ {
	case "bool":
		return []tvar{{what: "true", cst: TrueVal}, {what: "false", cst: FalseVal}}
	case "string":
		return stringVars()
	case "rune":
		return runeVars()
	case "float32", "float64":
		return floatVars(typ)
	case "time.Time":
		return timeVars()
	}
	if _, _, ok := intBits(typ); ok {
		return intVars(typ)
	}
	return []tvar{{what: "any"}}
}

// namePics are the layouts of names.
var namePics = []string{"pnnn", "p", "pnnnnnnnnnnnn"}

// textSetup gives the symbols of a world of a text form their layouts.
func (r *rtRun) textSetup() {
	tw := r.tw
	r.vars = map[string]*tvar{}
	tw.times, tw.floats = map[string]time.Time{}, map[string]string{}
	tw.tm = func(form, sym string) []bset {
		if isNameTag(sym) {
			if form == fRaw {
				k := 0
				for _, c := range sym {
					k += int(c)
				}
				return templOf(namePics[k%len(namePics)])
			}
			return nil
		}
		v := r.vars[sym]
		if v == nil {
			return nil
		}
		if p, ok := v.pics[form]; ok {
			return templOf(p)
		}
		if v.tim != "" && strings.HasPrefix(form, fTL) {
			t, err := time.Parse(time.RFC3339Nano, v.tim)
			if err != nil {
				return nil
			}
			s := t.Format(form[len(fTL):])
			frac := false
			var b strings.Builder
			for k := 0; k < len(s); k++ {
				switch {
				case s[k] == '.':
					frac = true
				case s[k] < '0' || s[k] > '9':
					frac = false
				}
				if s[k] == '1' && !frac {
					b.WriteByte('d')
				} else { // the fraction is that of the variant
					b.WriteString(litPic(s[k : k+1]))
				}
			}
			return templOf(b.String())
		}
		return nil
	}
	tw.repFloat = func(sym string) float64 {
		if v := r.vars[sym]; v != nil {
			return v.rep
		}
		return 1
	}
	tw.val = func(sym string) *Val {
		if v := r.vars[sym]; v != nil && v.val != nil {
			x := v.val.dup()
			x.tag, x.nilb = sym, mayNon
			return &x
		}
		return nil
	}
}

// textSymbol is a cell of a text form.
func (r *rtRun) textSymbol(id, typ string) *Val {
	vs := varsOf(typ)
	v := &vs[(r.e.v0+r.nsym)%len(vs)]
	if r.e.kind == "big" {
		v = &vs[len(vs)-1]
	}
	r.nsym++
	r.vars[id] = v
	r.typs[id] = typ
	if v.flt != "" {
		r.tw.floats[id] = v.flt
	}
	if v.tim != "" {
		t, err := time.Parse(time.RFC3339Nano, v.tim)
		if err == nil {
			r.tw.times[id] = t
		}
	}
	if v.cst != nil {
		x := v.cst.dup()
		x.nilb = mayNon
		return &x
	}
	x := &Val{nilb: mayNon}
	if v.val != nil {
		y := v.val.dup()
		x = &y
		x.nilb = mayNon
	} else if bits, signed, ok := intBits(typ); ok {
		y := intRange(bits, signed).dup()
		x = &y
	}
	x.tag = id
	return x
}

// variants describes the cells of a world.
func (r *rtRun) variants() string {
	var ids []string
	for id := range r.vars {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []string
	for _, id := range ids {
		out = append(out, fmt.Sprintf("<%s> is %s", id, r.vars[id].what))
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, ", ")
}

// textWorlds are the worlds of the text forms.
func (p *Program) textWorlds(prop, tier string, add func(e rtWorld)) {
	for _, f := range []string{"text", "unpadded"} {
		for _, set := range []bool{true, false} {
			for _, t := range p.colTypeUniverse() {
				_, _, num := intBits(t)
				num = num || strings.HasPrefix(t, "float")
				if prop == "C04" && !num && !strings.HasPrefix(t, "[]") || prop == "C06" && t != "string" && t != "rune" {
					continue
				}
				if prop == "C02" {
					for v := 0; v < 8; v += 4 {
						add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 2, tables: 1, v0: v})
						add(rtWorld{form: f, set: set, typ: t, rows: 1, cols: 2, tables: 1, kind: "struct", v0: v})
					}
					continue
				}
				n := len(varsOf(t))
				if strings.HasPrefix(t, "[]") {
					n = len(varsOf("byte"))
				}
				for v := 0; v < n; v += 4 {
					add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 2, tables: 1, v0: v})
				}
				for v := 0; v < n; v += 3 { // other neighbours, and one column
					add(rtWorld{form: f, set: set, typ: t, rows: 3, cols: 1, tables: 1, v0: v + 1})
				}
				for v := 0; v < n; v += 3 {
					if v%2 == 1 == set && tier != "thorough" {
						continue
					}
					add(rtWorld{form: f, set: set, typ: t, rows: 1, cols: 3, tables: 1, kind: "struct", v0: v})
				}
				if num {
					add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 2, tables: 1, kind: "big"})
				}
				if strings.HasPrefix(t, "[]") {
					add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 2, tables: 1, kind: "empty"})
					add(rtWorld{form: f, set: set, typ: t, rows: 1, cols: 2, tables: 1, kind: "emptystruct"})
				}
				if t == "*Table" {
					add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 2, tables: 1, kind: "nestednil"})
				}
				if tier == "thorough" {
					for v := 0; v < n; v++ {
						add(rtWorld{form: f, set: set, typ: t, rows: 3, cols: 3, tables: 1, v0: v})
						add(rtWorld{form: f, set: set, typ: t, rows: 2, cols: 3, tables: 1, kind: "mixed", v0: v})
					}
				}
			}
			if prop != "N01" {
				continue
			}
			for _, t := range []string{"int", "string", "[]byte", "float64", "time.Time"} {
				for rows := 0; rows < 3; rows++ {
					for cols := 0; cols < 4; cols++ {
						if cols > 0 || rows == 0 {
							add(rtWorld{form: f, set: set, typ: t, rows: rows, cols: cols, tables: 1, v0: rows})
						}
						if cols > 0 && rows < 2 {
							add(rtWorld{form: f, set: set, typ: t, rows: rows, cols: cols, tables: 1, kind: "struct", v0: rows + cols})
						}
					}
					add(rtWorld{form: f, set: set, typ: t, rows: rows, cols: 3, tables: 1, kind: "mixed"})
					if !set {
						continue
					}
					for n := 0; n < 4; n++ {
						add(rtWorld{form: f, set: set, typ: t, rows: rows, cols: 1 + n%2, tables: n, v0: n})
						if rows < 2 && n > 0 {
							add(rtWorld{form: f, set: set, typ: t, rows: rows, cols: 2, tables: n, kind: "struct", v0: n})
						}
					}
				}
			}
		}
	}
}
