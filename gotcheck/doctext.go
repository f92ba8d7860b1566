package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

// Malformed text (C05, C07, C13): texts of known layout of which one value, or
// one line, is not what it should be.  Values are written as pictures (tmpl.go).

type textDoc struct {
	set    bool
	typ    string
	what   string
	lines  []string // pictures
	reject bool     // cannot be read
	props  string   // what it is for
}

// grammar is the form of the values of a type, as a regular expression.
func grammar(typ string) string {
	uns := `(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|\+?[0-9]+)`
	if _, signed, ok := intBits(typ); ok && typ != "rune" {
		if signed {
			return `(?:` + uns + `|-[0-9]+)`
		}
		return uns
	}
	switch typ {
	case "float32", "float64":
		return `(?:[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[+-]?[Nn][Aa][Nn]|[+-]?[Ii]nf)`
	case "bool":
		return `(?:true|false)`
	case "string":
		return `"(?:[^"\\]|\\.)*"`
	case "rune":
		return `'(?:[^'\\]|\\[^']+|\\')'`
	case "time.Time":
		return `\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.\d+)?(?:Z|[+-]\d\d:\d\d)`
	case "[]byte", "[]uint8":
		return `\[\s*(?:` + uns + `(?:\s+` + uns + `)*)?\s*\]`
	case "*Table":
		return `\[(?:[A-Za-z_][A-Za-z0-9_]*)?\]`
	}
	return ""
}

// picRep is a text of the layout.
func picRep(pic string) string {
	var b strings.Builder
	for i := 0; i < len(pic); i++ {
		switch pic[i] {
		case 'D', 'd':
			b.WriteByte('1')
		case 'p', 'w', 'n':
			b.WriteByte('a')
		case '`':
			i++
			b.WriteByte(pic[i])
		default:
			b.WriteByte(pic[i])
		}
	}
	return b.String()
}

// couldBe: the line may be a row of values of the types.
func couldBe(pic string, typs ...string) bool {
	re := `^\s*`
	for _, t := range typs {
		re += grammar(t) + `\s*`
	}
	return regexp.MustCompile(re + `$`).MatchString(picRep(pic))
}

var goodToks = map[string]string{
	"bool": "true", "string": `"zpp"`, "rune": `'p'`, "time.Time": "2021-01-02T03:04:05Z", "[]byte": "[D Dd]", "[]uint8": "[D Dd]", "*Table": "[zpp]", "float32": "Dd.D", "float64": "Dd.D",
}

// moreToks are other values of a type, of another form.
var moreToks = map[string][]string{
	"bool": {"false"}, "string": {`""`, `"z\\"z"`}, "rune": {`'\\''`, `'\\n'`}, "time.Time": {"2021-01-02T03:04:05.D+01:00"}, "[]byte": {"[]", "[D]"}, "[]uint8": {"[]", "[D]"}, "*Table": {"[]"}, "float32": {"NaN", "I`nf", ".D", "D"}, "float64": {"NaN", "I`nf", ".D", "D"},
	"int": {"-D", "0xD"}, "int8": {"-D", "0xD"}, "int16": {"-D", "0xD"}, "int32": {"-D", "0xD"}, "int64": {"-D", "0xD"}, "uint": {"+D", "0b1"}, "uint8": {"+D", "0b1"}, "byte": {"+D", "0b1"}, "uint16": {"+D", "0b1"}, "uint32": {"+D", "0b1"}, "uint64": {"+D", "0b1"},
}

func goodTok(typ string) string {
	if s := goodToks[typ]; s != "" {
		return s
	}
	return "Dd"
}

// odd values; those a type accepts are left out by couldBe.
var oddToks = []string{
	"D", "Dd", "-D", "+D", "D.D", ".D", "D.", "De+0D", "D.De-0D", "NaN", "+I`nf", "-I`nf", "zpp", `"zpp"`, `"z`, `z"`, `"z"z"`, `""`, `'p'`, `'pp'`, `''`, `'p`, `p'`, "true", "false", "True", "truez", "zfalse", "true1",
	"[]", "[D]", "[D D]", "[D,D]", "[D", "D]", "[zpp]", "[-D]", "[D.D]", "[D z]", "[D]]", "[[D]", "[zpp", "[D zpp]", "[3dd]", "[D 2`5`6]", "[D -D]",
	"Dz", "zD", "D-D", "--D", "+-D", "D_D", "D..D", "D.D.D", "1e", "1e+", "NaNz", "I`nfz", "zNaN", "zI`nf", "0x", "0xz", "0b2", "0o8", "#z", "=", "=D", "(D)", "D,", ",D", "D;", "D%", "$D",
	"2021-01-02", "2021-01-02T03:04:05", "2021-01-02T03:04:05Z", "2021-01-02T03:04:05Zz", "z2021-01-02T03:04:05Z", "2021-01-02T03:04:05+01", "2021-01-02 03:04:05Z", "2021-01-02T03:04Z", "2021-01-02T03:04:05.Z", "-2021-01-02T03:04:05Z",
	"-", "+", ".", "'", `"`, "[", "]", "!", "D!", "!D", `\\`, `"\\`, `'\\`, "\"z\\", "'\\'",
}

// tooLarge are values beyond the range of a type.
func tooLarge(typ string) []string {
	d := func(n int) string { return strings.Repeat("d", n) }
	switch typ {
	case "int8":
		return []string{"2dd", "-2dd", "128", "-129", "1" + d(9), "1" + d(25)}
	case "uint8", "byte":
		return []string{"3dd", "256", "-D", "1" + d(9), "1" + d(25)}
	case "int16":
		return []string{"4dddd", "-4dddd", "32768", "-32769", "1" + d(9), "1" + d(25)}
	case "uint16":
		return []string{"7dddd", "65536", "-D", "1" + d(9), "1" + d(25)}
	case "int32":
		return []string{"3" + d(9), "-3" + d(9), "2147483648", "-2147483649", "1" + d(12), "1" + d(25)}
	case "uint32":
		return []string{"5" + d(9), "4294967296", "-D", "1" + d(12), "1" + d(25)}
	case "int", "int64":
		return []string{"10" + d(18), "-10" + d(18), "9223372036854775808", "-9223372036854775809", "1" + d(25)}
	case "uint", "uint64":
		return []string{"2" + d(19), "18446744073709551616", "-D", "1" + d(25)}
	case "float32":
		return []string{"1" + d(45), "De+4D", "-De+4D"}
	case "float64":
		return []string{"De+31D"}
	case "[]byte", "[]uint8":
		return []string{"[3dd]", "[256]", "[D 3dd]", "[3dd D]", "[1" + d(9) + "]", "[D 1" + d(25) + "]"}
	case "time.Time":
		return []string{"2021-13-02T03:04:05Z", "2021-01-32T03:04:05Z", "2021-02-30T03:04:05Z", "2021-01-02T24:04:05Z", "2021-01-02T03:60:05Z"}
	}
	return nil
}

// otherBases are the first values beyond the range of a type in base 2, 8 and 16.
func otherBases(typ string) (out []string) {
	slice := typ == "[]byte" || typ == "[]uint8"
	bits, signed, ok := intBits(typ)
	if slice {
		bits, signed, ok = 8, false, true
	}
	if !ok || typ == "rune" {
		return nil
	}
	if signed {
		bits--
	}
	x := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	for _, s := range []string{"0b" + x.Text(2), "0B" + x.Text(2), "0o" + x.Text(8), "0O" + x.Text(8), "0" + x.Text(8), "0x" + x.Text(16), "0X" + x.Text(16)} {
		if slice {
			out = append(out, "["+s+"]", "[D "+s+"]")
			continue
		}
		out = append(out, s)
	}
	return
}

// foreign are characters that are no values.
var foreign = []string{"|", "||", "&", "%", "@", "~", "^", "*", "/", "//", "\\", "``", "<", ">", "{", "}", "+", ":", "_", "0", "\u00e9", "\u2014", "\x00", "\x7f", "\ufeff"}

// textDocs are the worlds of the text form.
func (p *Program) textDocs(tier, prop string) (out []textDoc) {
	for _, set := range []bool{true, false} {
		head := []string{"[T1]"}
		if set {
			head = []string{"[[S1]]", "", "[T1]"}
		}
		add := func(e textDoc, lines ...string) {
			e.set = set
			e.lines = append(append([]string{}, head...), lines...)
			out = append(out, e)
		}
		for _, t := range p.colTypeUniverse() {
			pt := litPic(t)
			// one value in each of three places
			row := func(tok, what string, reject bool, props string) {
				if strings.ContainsAny(tok, "\n") {
					return
				}
				bad := func(ok bool) bool { return reject || !ok }
				if line := tok + ` "zpp"`; !strings.HasPrefix(line, "#") && bad(couldBe(line, t, "string")) {
					add(textDoc{typ: t, what: what + " in the first column", reject: true, props: props}, "c0 c1", pt+" stri`ng", line)
				}
				if line := `"zpp" ` + tok; bad(couldBe(line, "string", t)) {
					add(textDoc{typ: t, what: what + " in the last column", reject: true, props: props}, "c0 c1", "stri`ng "+pt, line)
				}
				if bad(couldBe(tok, t)) {
					add(textDoc{typ: t, what: what + " in struct shape", reject: true, props: props}, "c0 "+pt+" = "+tok, `c1 stri`+"`ng"+` = "zpp"`)
				}
			}
			for _, tok := range oddToks {
				row(tok, "the value "+picRep(tok), false, "C05 C07")
			}
			for _, tok := range append(tooLarge(t), otherBases(t)...) {
				row(tok, "the value "+picRep(tok), true, "C05")
			}
			// something before or after a value
			v := goodTok(t)
			for k, v := range append([]string{v}, moreToks[t]...) {
				if k > 0 && prop == "C13" && tier != "thorough" {
					break
				}
				for _, j := range []string{"z", "!", ",", ";", ".", "-", "'", `"`, "=", "?", "(", "z ", "! ", ", ", "- ", "D ", `"z" `, "[] ", "$$$ "} {
					row(j+v, "text before a value: "+picRep(j+v), false, "C07")
				}
				for _, j := range []string{"z", "!", ",", ";", ".", "-", "'", `"`, "=", "?", ")", " z", " !", " ,", " -", " D", ` "z"`, " []", " # z", " $$$", " D D", " = D"} {
					row(v+j, "text after a value: "+picRep(v+j), false, "C07")
				}
			}
			// foreign characters
			for _, j := range foreign {
				if set || prop == "C13" && tier != "thorough" {
					break
				}
				for _, tok := range []string{j + v, j + " " + v} {
					row(tok, "text before a value: "+picRep(tok), false, "C07")
				}
				for _, tok := range []string{v + j, v + " " + j} {
					row(tok, "text after a value: "+picRep(tok), false, "C07")
				}
			}
			// too few and too many values
			for _, l := range []string{v, v + ` "z" "z"`, v + " " + v + ` "z"`, `"z"`, v + ` "z" ` + v} {
				if !couldBe(l, t, "string") {
					add(textDoc{typ: t, what: "the row " + picRep(l), reject: true, props: "C07"}, "c0 c1", pt+" stri`ng", l)
				}
			}
			add(textDoc{typ: t, what: "a good row"}, "c0 c1", pt+" stri`ng", v+` "zpp"`)
			add(textDoc{typ: t, what: "a good struct"}, "c0 "+pt+" = "+v, `c1 stri`+"`ng"+` = "zpp"`)
			add(textDoc{typ: t, what: "no value in struct shape", props: "C13"}, "c0 "+pt+" =", `c1 stri`+"`ng"+` = "zpp"`)
			add(textDoc{typ: t, what: "no value in the second line of a struct", props: "C13"}, `c1 stri`+"`ng"+` = "zpp"`, "c0 "+pt+" =")
			add(textDoc{typ: t, what: "one line of a struct without value", props: "C13"}, `c1 stri`+"`ng"+` = "zpp"`, "c0 "+pt)
			add(textDoc{typ: t, what: "one line of a struct with value", props: "C13"}, "c0 "+pt, `c1 stri`+"`ng"+` = "zpp"`)
		}
	}
	// odd lines
	odd := []string{"", " ", "[", "]", "[]", "[[", "]]", "[[]]", "[ ]", "[T1", "T1]", "[T1]z", "[z T1]", "[[T1]]", "[[T1]", "[T1]]", "=", "==", "c0", "c0 =", "c0 i`nt", "c0 i`nt =", "c0 i`nt = ", "c0 i`nt = D", "c0 i`nt D", "i`nt", "i`nt i`nt", "c0 c0", "c0 c1 c2", "#", "# z", `"`, `""`, "'", "D", "D D", `D "z" D`, "zpp zpp zpp zpp", "zpp = zpp", "= = = =", "!", "\\"}
	for _, set := range []bool{true, false} {
		for _, base := range [][]string{{"[[S1]]", "", "[T1]", "c0 c1", "i`nt stri`ng", `Dd "zpp"`, `D "z"`, "", "[T2]", "c0 i`nt = Dd", "c1 bool = true"}, {"[T1]", "c0 c1", "i`nt stri`ng", `Dd "zpp"`}, {"[T1]", "c0 i`nt = Dd", "c1 bool = true"}, {"[T1]", "c0 i`nt", "c1 bool"}} {
			for k := range base {
				rest := func(mid ...string) []string {
					return append(append(append([]string{}, base[:k]...), mid...), base[k+1:]...)
				}
				e := textDoc{set: set, typ: "lines", props: "C13"}
				e.what, e.lines = fmt.Sprintf("line %d of %d is missing", k+1, len(base)), rest()
				out = append(out, e)
				e.what, e.lines = fmt.Sprintf("line %d of %d is repeated", k+1, len(base)), rest(base[k], base[k])
				out = append(out, e)
				e.what, e.lines = fmt.Sprintf("the text ends after line %d of %d", k+1, len(base)), append([]string{}, base[:k+1]...)
				out = append(out, e)
				for i := 1; i < len(base[k]); i++ {
					if base[k][i-1] == '`' {
						continue
					}
					e.what, e.lines = fmt.Sprintf("the text ends in line %d of %d", k+1, len(base)), append(append([]string{}, base[:k]...), base[k][:i])
					out = append(out, e)
				}
				for _, l := range odd {
					e.what, e.lines = fmt.Sprintf("line %d of %d is %q", k+1, len(base), picRep(l)), rest(l)
					out = append(out, e)
					e.what, e.lines = fmt.Sprintf("before line %d of %d comes %q", k+1, len(base), picRep(l)), rest(l, base[k])
					out = append(out, e)
				}
			}
		}
	}
	return
}

// picText is a text of a layout: its runs of classes are renderings of symbols.
func (r *docRun) picText(pic string) string {
	var b strings.Builder
	for i := 0; i < len(pic); {
		j := i
		dec := true
		for j < len(pic) && strings.IndexByte("Ddpwn", pic[j]) >= 0 {
			dec = dec && (pic[j] == 'D' || pic[j] == 'd')
			j++
		}
		if j == i {
			if pic[i] == '`' {
				i++
			}
			b.WriteByte(pic[i])
			i++
			continue
		}
		id := fmt.Sprintf("q%d", r.nsym)
		r.nsym++
		r.typs[id] = "string"
		r.vars[id] = &tvar{pics: map[string]string{fRaw: pic[i:j]}}
		b.WriteString(sym1(fRaw, id))
		i = j
	}
	return b.String()
}

func (p *Program) textDocJob(e textDoc, tail string, r *Result) {
	rd := p.docReader("text", e.set)
	if rd == nil {
		return
	}
	run := &docRun{rtRun: p.rtNew(rtWorld{form: "text", set: e.set, typ: e.typ})}
	run.in.limit = 60000
	var ls []string
	for _, l := range e.lines {
		ls = append(ls, run.picText(l))
	}
	what := "text for a column of type " + e.typ + ": " + e.what
	if e.typ == "lines" {
		what = "text: " + e.what
	}
	p.docJudge(run, rd, textVal(strings.Join(ls, "\n")+tail), docWorld{form: "text", set: e.set, typ: e.typ, what: e.what, reject: e.reject}, what, r)
}
