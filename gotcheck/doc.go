package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Malformed documents (C05, C13): the readers are followed on documents that
// differ in one place from one that can be read.

// dn is a node of a document.
type dn struct {
	k    byte // s a string, y any string, n an integer, f a fraction, F a number too large for a float32, b a bool, z null, a a list, o an object, x an object with other keys than strings, t a time
	text string
	keys []string
	kids []*dn
	id   string // its symbol
}

func dStr(s string) *dn     { return &dn{k: 's', text: s} }
func dList(ks ...*dn) *dn   { return &dn{k: 'a', kids: ks} }
func dNum(class string) *dn { return &dn{k: 'n', text: class} }
func dObj(kv ...interface{}) *dn {
	n := &dn{k: 'o'}
	for i := 0; i < len(kv); i += 2 {
		n.keys = append(n.keys, kv[i].(string))
		n.kids = append(n.kids, kv[i+1].(*dn))
	}
	return n
}

func (n *dn) copy() *dn {
	c := &dn{k: n.k, text: n.text, keys: append([]string{}, n.keys...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.copy())
	}
	return c
}

func (n *dn) at(path []int) *dn {
	for _, i := range path {
		n = n.kids[i]
	}
	return n
}

func (n *dn) paths(pre []int, out *[][]int) {
	*out = append(*out, append([]int{}, pre...))
	for i, k := range n.kids {
		k.paths(append(append([]int{}, pre...), i), out)
	}
}

func (n *dn) String() string {
	switch n.k {
	case 's':
		return strconv.Quote(n.text)
	case 'y':
		return "a string"
	case 'n':
		return numClass[n.text].what
	case 'f':
		return "a fraction"
	case 'F':
		return "a number too large for a float32"
	case 'b':
		return "a bool"
	case 't':
		return "a time"
	case 'z':
		return "null"
	case 'a':
		var s []string
		for _, k := range n.kids {
			s = append(s, k.String())
		}
		return "[" + strings.Join(s, ", ") + "]"
	case 'x':
		return "an object with a number for a key"
	}
	var s []string
	for i, k := range n.kids {
		s = append(s, strconv.Quote(n.keys[i])+": "+k.String())
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// numClass are the kinds of integers, with their range.
var numClass = map[string]struct {
	what   string
	typ    string
	lo, hi Bound
}{
	"small":   {"a digit", "uint8", Bound{off: 1}, Bound{off: 9}},
	"minus":   {"a negative number", "int8", Bound{off: -128}, Bound{off: -1}},
	"uint8":   {"a number above 127", "uint8", Bound{off: 128}, Bound{off: 255}},
	"int16":   {"a number above 255", "int16", Bound{off: 256}, Bound{off: math.MaxInt16}},
	"minus16": {"a number below -128", "int16", Bound{off: math.MinInt16}, Bound{off: -129}},
	"uint16":  {"a number above 32767", "uint16", Bound{off: math.MaxInt16 + 1}, Bound{off: math.MaxUint16}},
	"int32":   {"a number above 65535", "int32", Bound{off: math.MaxUint16 + 1}, Bound{off: math.MaxInt32}},
	"minus32": {"a number below -32768", "int32", Bound{off: math.MinInt32}, Bound{off: math.MinInt16 - 1}},
	"uint32":  {"a number above 2147483647", "uint32", Bound{off: math.MaxInt32 + 1}, Bound{off: math.MaxUint32}},
	"int64":   {"a number above 4294967295", "int64", Bound{off: math.MaxUint32 + 1}, Bound{off: math.MaxInt64}},
	"minus64": {"a number below -2147483648", "int64", Bound{off: math.MinInt64}, Bound{off: math.MinInt32 - 1}},
	"uint64":  {"a number above 9223372036854775807", "uint64", Bound{off: math.MaxInt64}, posInf},
}

var numClasses = []string{"small", "minus", "uint8", "int16", "minus16", "uint16", "int32", "minus32", "uint32", "int64", "minus64", "uint64"}

// intoInt: every (1), no (-1) or some (0) number of a class is an integer of a type.
func intoInt(class, typ string) int {
	bits, signed, ok := intBits(typ)
	if !ok {
		return 0
	}
	c := numClass[class]
	r := intRange(bits, signed)
	above := c.hi.inf > 0 && r.hi.inf == 0 || c.hi.inf == 0 && r.hi.inf == 0 && c.hi.off > r.hi.off
	below := c.lo.off < r.lo.off
	if class == "uint64" {
		if bits == 64 && !signed {
			return 1
		}
		return -1
	}
	switch {
	case !above && !below:
		return 1
	case above && r.hi.inf == 0 && c.lo.off > r.hi.off, below && c.hi.inf == 0 && c.hi.off < r.lo.off:
		return -1
	}
	return 0
}

type docWorld struct {
	form   string // json, yaml
	set    bool
	what   string // the change
	typ    string
	doc    *dn
	cell   *dn // what stands in the place of the cell of column 0
	reject bool
}

// docRun makes the document of a world.
type docRun struct {
	*rtRun
	nsym int
}

func (r *docRun) num(class string) (string, *Val) {
	id := "q" + class + strconv.Itoa(r.nsym)
	r.nsym++
	c := numClass[class]
	r.typs[id] = c.typ
	v := rangeVal(c.lo, c.hi).dup()
	v.nilb, v.tag = mayNon, id
	r.tw.nums[id] = &v
	return id, &v
}

func (r *docRun) basic(typ string) string {
	id := "q" + typ + strconv.Itoa(r.nsym)
	r.nsym++
	r.typs[id] = typ
	return id
}

// json is the text of a document.
func (r *docRun) json(n *dn) string {
	switch n.k {
	case 's':
		return strconv.Quote(n.text)
	case 'y':
		n.id = r.basic("string")
		return sym1(fJSON, n.id)
	case 'n':
		n.id, _ = r.num(n.text)
		return sym1(fDec, n.id)
	case 'f', 'F':
		n.id = r.basic("float64")
		r.tw.huge[n.id] = n.k == 'F'
		return sym1(fFlt, n.id)
	case 'b':
		n.id = r.basic("bool")
		return sym1(fBool, n.id)
	case 'z':
		return "null"
	case 'a':
		var s []string
		for _, k := range n.kids {
			s = append(s, r.json(k))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	var s []string
	for i, k := range n.kids {
		s = append(s, strconv.Quote(n.keys[i])+":"+r.json(k))
	}
	return "{" + strings.Join(s, ",") + "}"
}

// yaml is the value a document is decoded to.
func (r *docRun) yaml(n *dn) *Val {
	anyMap := types.NewMap(types.Typ[types.String], anyT)
	switch n.k {
	case 's':
		return ifaceOf(types.Typ[types.String], strVal(n.text))
	case 'y':
		n.id = r.basic("string")
		return ifaceOf(types.Typ[types.String], &Val{nilb: mayNon, tag: sym1(fRaw, n.id)})
	case 'n':
		id, v := r.num(n.text)
		n.id = id
		if n.text == "uint64" {
			return ifaceOf(types.Typ[types.Uint64], v)
		}
		return ifaceOf(types.Typ[types.Int], v)
	case 'f', 'F':
		n.id = r.basic("float64")
		r.tw.huge[n.id] = n.k == 'F'
		return ifaceOf(types.Typ[types.Float64], &Val{nilb: mayNon, tag: n.id})
	case 'b':
		n.id = r.basic("bool")
		return ifaceOf(types.Typ[types.Bool], &Val{nilb: mayNon, tag: n.id})
	case 't':
		if t := r.p.goType("time.Time"); t != nil {
			n.id = r.basic("time.Time")
			return ifaceOf(t, &Val{nilb: mayNon, tag: n.id})
		}
		return NilVal
	case 'z':
		return NilVal
	case 'a':
		var es []*Val
		for _, k := range n.kids {
			es = append(es, r.yaml(k))
		}
		return ifaceOf(types.NewSlice(anyT), r.tw.newSlice(r.in, r.st, es))
	case 'x':
		return ifaceOf(types.NewMap(anyT, anyT), &Val{nilb: mayNon})
	}
	var ks, es []*Val
	for i, k := range n.kids {
		ks, es = append(ks, strVal(n.keys[i])), append(es, r.yaml(k))
	}
	return ifaceOf(anyMap, r.tw.newMap(r.in, r.st, ks, es))
}

// goodCell is a cell that can be read into a column.
func goodCell(form, typ string) *dn {
	if _, _, ok := intBits(typ); ok && !(form == "json" && typ == "rune") {
		return dNum("small")
	}
	switch typ {
	case "string":
		return &dn{k: 'y'}
	case "rune":
		return dStr("r")
	case "bool":
		return &dn{k: 'b'}
	case "float32", "float64":
		return &dn{k: 'f'}
	case "[]byte", "[]uint8":
		return dList(dNum("small"), dNum("small"))
	case "time.Time":
		if form == "yaml" {
			return &dn{k: 't'}
		}
		return dStr("2021-01-02T03:04:05Z")
	case "*Table":
		return dObj("tableName", dStr("T2"), "metadata", dList(dObj("c0", dStr("int"))))
	}
	return dNum("small")
}

// tableDoc is the document of a table of two columns and one row.
func tableDoc(form, name, typ string, cell *dn) *dn {
	row := dList(dObj("c0", cell), dObj("c1", &dn{k: 'y'}))
	if form == "yaml" {
		row = dList(cell, &dn{k: 'y'})
	}
	return dObj("tableName", dStr(name), "isStructShape", &dn{k: 'b'}, "metadata", dList(dObj("c0", dStr(typ)), dObj("c1", dStr("string"))), "data", dList(row))
}

func docOf(form string, set bool, typ string, cell *dn) *dn {
	t := tableDoc(form, "T1", typ, cell)
	if !set {
		return t
	}
	return dObj("tableSetName", dStr("S1"), "tables", dList(t))
}

// cellOf is the path of the cell of column 0.
func cellOf(form string, set bool) []int {
	p := []int{3, 0, 0}
	if form == "json" {
		p = append(p, 0)
	}
	if set {
		p = append([]int{1, 0}, p...)
	}
	return p
}

func without(n *dn, path []int) *dn {
	c := n.copy()
	o := c.at(path[:len(path)-1])
	i := path[len(path)-1]
	o.kids = append(o.kids[:i], o.kids[i+1:]...)
	if o.k == 'o' {
		o.keys = append(o.keys[:i], o.keys[i+1:]...)
	}
	return c
}

func with(n *dn, path []int, x *dn) *dn {
	c := n.copy()
	if len(path) == 0 {
		return x.copy()
	}
	c.at(path[:len(path)-1]).kids[path[len(path)-1]] = x.copy()
	return c
}

// pathName describes a place in a document.
func pathName(n *dn, path []int) string {
	s := ""
	for _, i := range path {
		if n.k == 'o' {
			s += "." + n.keys[i]
		} else {
			s += "[" + strconv.Itoa(i) + "]"
		}
		n = n.kids[i]
	}
	if s == "" {
		return "the document"
	}
	return strings.TrimPrefix(s, ".")
}

// oddNodes are what is put in the place of a node.
func oddNodes(form string) []*dn {
	out := []*dn{{k: 'z'}, {k: 'y'}, dStr(""), dStr("!"), dNum("small"), {k: 'f'}, {k: 'b'}, dList(), dList(&dn{k: 'z'}), dList(&dn{k: 'y'}), dList(dNum("small")), dList(&dn{k: 'f'}), dList(dList()), dList(dObj()), dObj(), dObj("k", &dn{k: 'z'}), dObj("tableName", &dn{k: 'z'}), dObj("tableName", dStr("T3")), dObj("tableName", dStr(""))}
	if form == "yaml" {
		out = append(out, &dn{k: 't'}, &dn{k: 'x'})
	}
	return out
}

// accepts: the node may be stored in a column of the type (1 certainly a value
// of it, -1 certainly not).
func accepts(n *dn, typ string) int {
	_, _, isInt := intBits(typ)
	flt := strings.HasPrefix(typ, "float")
	bytes := strings.HasPrefix(typ, "[]")
	switch n.k {
	case 'z':
		if typ == "*Table" {
			return 0
		}
		return -1
	case 'y', 's':
		if typ == "string" {
			return 1
		}
		if typ == "rune" && n.k == 's' && len(n.text) != 1 || typ == "time.Time" && n.k == 's' && len(n.text) < 10 {
			return -1 // "", "!" and "ab" are no times
		}
		if typ == "rune" || typ == "time.Time" {
			return 0
		}
		if (isInt || flt || typ == "bool") && n.k == 'y' {
			return 0 // a string may be the text of a number
		}
		return -1
	case 'n':
		if isInt {
			return intoInt(n.text, typ)
		}
		if flt {
			return 0
		}
		return -1
	case 'F':
		if typ == "float32" {
			return -1
		}
		if flt {
			return 1
		}
		return -1
	case 'f':
		if flt {
			return 1
		}
		return -1
	case 'b':
		if typ == "bool" {
			return 1
		}
		return -1
	case 't':
		if typ == "time.Time" {
			return 1
		}
		return -1
	case 'a':
		if !bytes {
			return -1
		}
		r := 1
		for _, k := range n.kids {
			if a := accepts(k, "uint8"); k.k != 'n' || a < 0 {
				return -1
			} else if a == 0 {
				r = 0
			}
		}
		return r
	case 'o', 'x':
		if typ != "*Table" {
			return -1
		}
	}
	return 0
}

func (p *Program) docReader(form string, set bool) *ssa.Function {
	_, rd := p.rtFuncs(form, set)
	return rd
}

// docWorlds are the worlds of JSON and YAML.
func (p *Program) docWorlds(prop string) (ws []docWorld) {
	for _, form := range []string{"json", "yaml"} {
		for _, set := range []bool{true, false} {
			if p.docReader(form, set) == nil {
				continue
			}
			cp := cellOf(form, set)
			for _, typ := range p.colTypeUniverse() {
				base := docOf(form, set, typ, goodCell(form, typ))
				cells := oddNodes(form)
				for _, c := range numClasses {
					cells = append(cells, dNum(c))
				}
				for _, c := range []string{"minus", "int16", "uint64"} {
					cells = append(cells, dList(dNum("small"), dNum(c)))
				}
				cells = append(cells, dList(dNum("small"), &dn{k: 'b'}), dList(dNum("small"), &dn{k: 'y'}), dList(dNum("uint8")), &dn{k: 'F'}, dStr("ab"), goodCell(form, typ))
				for _, c := range cells {
					ws = append(ws, docWorld{form: form, set: set, typ: typ, what: "the cell is " + c.String(), doc: with(base, cp, c), cell: c})
				}
			}
			if prop == "C05" {
				continue
			}
			for _, typ := range []string{"int", "*Table", "[]byte"} {
				base := docOf(form, set, typ, goodCell(form, typ))
				var ps [][]int
				base.paths(nil, &ps)
				for _, path := range ps {
					name := pathName(base, path)
					for _, x := range oddNodes(form) {
						ws = append(ws, docWorld{form: form, set: set, typ: typ, what: name + " is " + x.String(), doc: with(base, path, x)})
					}
					if len(path) > 0 {
						ws = append(ws, docWorld{form: form, set: set, typ: typ, what: name + " is missing", doc: without(base, path)})
						up := base.copy()
						o := up.at(path[:len(path)-1])
						i := path[len(path)-1]
						if o.k == 'a' {
							o.kids = append(o.kids, o.kids[i].copy())
							ws = append(ws, docWorld{form: form, set: set, typ: typ, what: name + " is repeated", doc: up})
						} else {
							o.keys[i] = "other"
							ws = append(ws, docWorld{form: form, set: set, typ: typ, what: name + " has another key", doc: up})
							up = up.copy()
							up.at(path[:len(path)-1]).keys[i] = ""
							ws = append(ws, docWorld{form: form, set: set, typ: typ, what: name + " has an empty key", doc: up})
						}
					}
				}
				// two things missing
				for _, a := range ps {
					for _, b := range ps {
						if len(a) == 0 || len(b) == 0 || len(a) > len(b) || pathName(base, a) >= pathName(base, b) || strings.HasPrefix(pathName(base, b), pathName(base, a)) {
							continue
						}
						same := len(a) == len(b)
						for k := 0; k+1 < len(a) && same; k++ {
							same = a[k] == b[k]
						}
						if same {
							continue // the index of the second is another
						}
						for _, x := range []*dn{nil, {k: 'z'}, dList(), dObj()} {
							d := base
							if x == nil {
								d = without(without(base, b), a)
							} else {
								d = with(with(base, b, x), a, x)
							}
							w := "missing"
							if x != nil {
								w = x.String()
							}
							ws = append(ws, docWorld{form: form, set: set, typ: typ, what: pathName(base, a) + " and " + pathName(base, b) + " are " + w, doc: d})
						}
					}
				}
			}
		}
	}
	return
}

func init() {
	for _, id := range []string{"C05", "C07", "C13"} {
		id := id
		checks[id] = func(p *Program, tier string) *Result { return checkDocs(p, tier, id) }
	}
}

var docRules = map[string]string{
	"C05": "The readers are abstractly interpreted on documents in which the value of one cell is of a kind (an integer of a given range, a fraction, a bool, a string, null, a list, an object) for each column type. A value that is not one of the type of the column must not be read without error, and one that is must be stored as it is.",
	"C07": "The reader of text is abstractly interpreted on rows of table and struct shape in which the value in one of three places is malformed, has something before or after it, or in which there are too few or too many values. Rows that are not a sequence of values of the types of the columns, separated by white space (decided by a grammar of its own, over classes of characters), must be rejected.",
	"C13": "The readers are abstractly interpreted on documents that differ from a valid one in one place (or have two things missing): every value in turn missing, repeated, under another key or replaced by one of another kind. No instruction that certainly panics may be reached, and a reader that succeeds must return a table.",
}

func checkDocs(p *Program, tier, prop string) *Result {
	r := newResult(prop)
	r.Rule = docRules[prop]
	ws := p.docWorlds(prop)
	if prop == "C07" {
		ws = nil
	}
	var ts []textDoc
	for _, e := range p.textDocs(tier, prop) {
		if prop == "C13" || strings.Contains(e.props, prop) || e.props == "" {
			ts = append(ts, e)
		}
	}
	p.parallel(r, len(ws)+len(ts), func(i int, r *Result) {
		if i < len(ws) {
			p.docJob(ws[i], r)
			return
		}
		p.textDocJob(ts[i-len(ws)], "\n", r)
	})
	if prop == "C13" {
		p.checkGob(r, tier)
	}
	return r
}

func (p *Program) docJob(e docWorld, r *Result) {
	rd := p.docReader(e.form, e.set)
	if rd == nil {
		return
	}
	run := &docRun{rtRun: p.rtNew(rtWorld{form: e.form, set: e.set, typ: e.typ})}
	run.in.limit = 60000
	run.tw.nums, run.tw.huge = map[string]*Val{}, map[string]bool{}
	var arg *Val
	if e.form == "json" {
		arg = textVal(run.json(e.doc))
	} else {
		arg = &Val{nilb: mayNon, inner: run.yaml(e.doc)}
	}
	what := map[string]string{"json": "JSON", "yaml": "YAML"}[e.form] + " document for a column of type " + e.typ + ": " + e.what
	p.docJudge(run, rd, arg, e, what, r)
}

func (p *Program) docJudge(run *docRun, rd *ssa.Function, arg *Val, e docWorld, what string, r *Result) {
	r.count("worlds", 1)
	key := shortName(rd) + "|" + e.typ
	pan, panAt := "", ""
	run.w.OnPanic = func(in *Interp, st *State, instr ssa.Instruction, w string) {
		if in.heapOf(st.flags).lost || pan != "" {
			return
		}
		pan, panAt = w, p.posOf(instr)
		if f := instr.Parent(); f != nil {
			pan += " in " + shortName(f)
		}
	}
	run.w.HeapTop = run.in.heapOf(run.st.flags).next() - 1
	rets := run.in.Run(rd, []*Val{arg}, nil, run.st.flags, nil)
	if run.in.over {
		r.count("worlds abandoned (too large)", 1)
		return
	}
	if r.Prop == "C13" {
		r.oblig(pan == "")
		if pan != "" {
			r.add("panic|"+key+"|"+pan, panAt, "", "%s: %s panics: %s", what, shortName(rd), pan)
			return
		}
	}
	ok, fail, lost := false, false, false
	fails := false
	for k := range rets {
		fails = fails || nonNilErr(rets[k].vals, rd.Signature)
	}
	for k := range rets {
		rt := &rets[k]
		if nonNilErr(rt.vals, rd.Signature) {
			fail = true
			continue
		}
		if run.in.heapOf(rt.flags).lost || !noErr(rt.vals, rd.Signature) {
			lost = true
			continue
		}
		ok = true
		if r.Prop == "C13" {
			r.oblig(!rt.vals[0].isNil())
			if rt.vals[0].isNil() {
				r.add("nil|"+key, p.at(rd.Pos()), "", "%s: %s returns neither a table nor an error", what, shortName(rd))
				return
			}
			continue
		}
		if r.Prop == "C02" || r.Prop == "C21" || r.Prop == "C22" || r.Prop == "C23" {
			w := p.docInvariant(run, rt, rt.vals[0], r.Prop, 0)
			r.oblig(w == "")
			if w != "" {
				r.add("decoded|"+key+"|"+e.what, p.at(rd.Pos()), "", "%s: %s succeeds, but %s", what, shortName(rd), w)
				return
			}
			continue
		}
		if e.reject {
			r.oblig(false)
			r.add("accepts|"+key+"|"+e.what, p.at(rd.Pos()), "", "%s: %s succeeds", what, shortName(rd))
			return
		}
		if e.cell == nil {
			continue
		}
		a := accepts(e.cell, e.typ)
		if a < 0 && e.cell.k == 'F' && e.typ == "float32" && (fails || lost) {
			continue // a comparison that is not decided
		}
		if a < 0 {
			r.oblig(false)
			r.add("accepts|"+key+"|"+e.cell.String(), p.at(rd.Pos()), "", "%s: %s succeeds", what, shortName(rd))
			return
		}
		d := &rtDiff{}
		run.stored(d, rt, e)
		switch d.v {
		case vEqual:
			r.oblig(true)
		case vUnknown:
			r.count("stored values not followed", 1)
		case vDiffer:
			r.oblig(false)
			r.add("stored|"+key+"|"+e.cell.String(), p.at(rd.Pos()), "", "%s: %s succeeds, but %s", what, shortName(rd), d.what)
			return
		}
	}
	switch {
	case ok && lost || lost && !fail:
		r.count("outcomes not followed", 1)
	case ok:
		r.count("worlds read", 1)
	case fail:
		r.oblig(true)
		r.count("worlds rejected", 1)
	}
	if r.Prop == "C05" && e.cell != nil && !ok && !lost && accepts(e.cell, e.typ) > 0 && debugInterp {
		fmt.Println("REJECTS", what)
	}
}

// stored compares the cell that was read with the one in the document.
func (r *docRun) stored(d *rtDiff, rt *Ret, e docWorld) {
	v := rt.vals[0]
	st := &State{mem: rt.mem, flags: rt.flags}
	if e.set {
		if v.obj == nil || v.field != "" {
			d.unknown("the set")
			return
		}
		ts, ok := r.in.seq(st, r.field(rt, v.obj, "tables"))
		if !ok || len(ts) == 0 {
			d.unknown("the tables")
			return
		}
		v = ts[0]
	}
	if v.obj == nil || v.field != "" {
		d.unknown("the table")
		return
	}
	rows, ok := r.in.seq(st, r.field(rt, v.obj, "rows"))
	if !ok || len(rows) == 0 {
		d.unknown("the rows")
		return
	}
	cells, ok := r.in.seq(st, rows[0])
	if !ok || len(cells) == 0 {
		d.unknown("the cells")
		return
	}
	c := rtCell{}
	switch e.cell.k {
	case 'n', 'y', 'b', 't', 'f', 'F':
		c.sym = e.doc.at(cellOf(e.form, e.set)).id
	default:
		d.unknown("the value")
		return
	}
	if !strings.HasPrefix(e.typ, "float") || (e.cell.k == 'f' || e.cell.k == 'F') && e.typ == "float64" { // numbers are rounded to floats
		r.cell(d, rt, st, cells[0], c, e.typ, "the cell")
	}
}
