package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decoding of GOB: what is decoded is what a table is encoded to, with another
// value in one place.

func init() {
	for id, rule := range map[string]string{
		"C02": "every cell of the table must hold a value of the type of its column",
		"C13": "the decoder must not panic, and return a table or an error",
		"C21": "names, types, index and rows of the table must be in step",
		"C22": "the names of the table must be valid and differ",
		"C23": "every sort key must name a column of the table",
	} {
		gobRules[id] = rule
	}
}

var gobRules = map[string]string{}

type gobWorld struct {
	typ  string
	keys bool
	bare bool // a table without rows
	rd   *ssa.Function
}

// gobEdits are the other values for a value.
func (r *rtRun) gobEdits(in *Interp, st *State, t *rtTable, at string, x *Val, typ types.Type) (names []string, vals []*Val) {
	add := func(n string, v *Val) { names, vals = append(names, n), append(vals, v) }
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(typ):
			for _, s := range []string{"", "!", "int", "string", "*Table"} {
				add(fmt.Sprintf("%q", s), strVal(s))
			}
			add("another name", textVal(raw("nother")))
			for j, n := range t.names {
				add(fmt.Sprintf("the name of column %d", j), textVal(raw(n)))
			}
		case u.Kind() == types.Bool:
			add("true", TrueVal)
			add("false", FalseVal)
		}
	case *types.Slice:
		es, ok := in.seq(st, x)
		if !ok {
			return
		}
		add("nil", NilVal)
		if n := len(es); n > 0 {
			add("short", r.tw.newSlice(in, st, append([]*Val{}, es[:n-1]...)))
			add("long", r.tw.newSlice(in, st, append(append([]*Val{}, es...), es[n-1])))
			if n > 1 {
				sw := append([]*Val{}, es...)
				sw[0], sw[n-1] = sw[n-1], sw[0]
				add("reversed", r.tw.newSlice(in, st, sw))
			}
		}
	case *types.Map:
		c := in.cont(st, x)
		if c == nil || c.fuzzy {
			return
		}
		add("nil", NilVal)
		mk := func(n string, f func(k int, key, v *Val) (*Val, *Val), extra ...*Val) {
			var ks, es []*Val
			for k := range c.elems {
				key, v := f(k, keyVal(c.keys[k]), c.elems[k])
				if key != nil {
					ks, es = append(ks, key), append(es, v)
				}
			}
			for k := 0; k+1 < len(extra); k += 2 {
				ks, es = append(ks, extra[k]), append(es, extra[k+1])
			}
			add(n, r.tw.newMap(in, st, ks, es))
		}
		same := func(k int, key, v *Val) (*Val, *Val) { return key, v }
		for q := range c.elems {
			q := q
			mk(fmt.Sprintf("without key %d", q), func(k int, key, v *Val) (*Val, *Val) {
				if k == q {
					return nil, nil
				}
				return key, v
			})
			mk(fmt.Sprintf("with another key %d", q), func(k int, key, v *Val) (*Val, *Val) {
				if k == q {
					return textVal(raw("nother")), v
				}
				return key, v
			})
			for _, n := range []int64{-1, 0, 1, 99} {
				n := n
				mk(fmt.Sprintf("with index %d under key %d", n, q), func(k int, key, v *Val) (*Val, *Val) {
					if k == q {
						return key, intVal(n)
					}
					return key, v
				})
			}
		}
		mk("with one more key", same, textVal(raw("nother")), intVal(0))
		mk("with one more column", same, textVal(raw("nother")), intVal(int64(len(c.elems))))
	case *types.Interface:
		add("nil", NilVal)
		for _, tn := range r.p.colTypeUniverse() {
			gt := r.p.goType(tn)
			if gt == nil || tn == "*Table" || tn == "time.Time" {
				continue
			}
			v := r.in.topOf(gt)
			if _, ok := gt.Underlying().(*types.Slice); ok {
				v = r.tw.newSlice(in, st, []*Val{Top})
			}
			if isString(gt) {
				v = strVal("x")
			}
			add("a value of type "+tn, ifaceOf(gt, v))
		}
		add("a value of type *int", ifaceOf(types.NewPointer(types.Typ[types.Int]), intVal(1)))
	}
	return
}

// checkGob adds the worlds of GOB to a property.
func (p *Program) checkGob(r *Result, tier string) {
	var ws []gobWorld
	wr, rd := p.rtFuncs("gob", false)
	if wr == nil || rd == nil {
		return
	}
	typs := []string{"int", "[]byte"}
	if r.Prop == "C02" || r.Prop == "C13" {
		typs = p.colTypeUniverse()
	}
	for _, t := range typs {
		if t == "*Table" || t == "time.Time" {
			continue
		}
		for _, f := range []*ssa.Function{rd, p.SSA.Func("GobDecodeTable")} {
			if f != nil && (f == rd || t == "int") {
				ws = append(ws, gobWorld{typ: t, rd: f}, gobWorld{typ: t, rd: f, keys: true})
				if t == "int" {
					ws = append(ws, gobWorld{typ: t, rd: f, bare: true})
				}
			}
		}
	}
	r.Rule += " " + gobNote + gobRules[r.Prop] + "."
	type job struct {
		w    gobWorld
		at   string
		name string
	}
	var jobs []job
	for _, w := range ws {
		pl := map[string]map[string]bool{}
		p.gobRun(w, "", "", pl, nil)
		var ps []string
		for at := range pl {
			ps = append(ps, at)
		}
		sort.Strings(ps)
		for _, at := range ps {
			if r.Prop == "C02" && w.typ != "int" && !strings.HasPrefix(at, ".Rows[") && !strings.HasPrefix(at, ".ColTypes") {
				continue
			}
			var ns []string
			for n := range pl[at] {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				jobs = append(jobs, job{w, at, n})
			}
		}
	}
	p.parallel(r, len(jobs), func(i int, r *Result) { p.gobRun(jobs[i].w, jobs[i].at, jobs[i].name, nil, r) })
	if r.Prop == "C13" {
		p.gobSets(r)
	}
}

const gobNote = "GOB: a table is encoded and decoded again by abstract interpretation, with each part of the encoded value (names, types, index, rows, cells, sort keys) in turn replaced by others; where decoding succeeds "

// gobRun follows one world; places collects the places and their other values.
func (p *Program) gobRun(w gobWorld, at, name string, places map[string]map[string]bool, r *Result) {
	wr, _ := p.rtFuncs("gob", false)
	e := rtWorld{form: "gob", typ: w.typ, rows: 2, cols: 2, tables: 1}
	if w.bare {
		e.rows = 0
	}
	if w.keys {
		e.kind = "keys"
	}
	run := &docRun{rtRun: p.rtNew(e)}
	run.in.limit = 60000
	call := run.w.OnCall
	run.w.OnCall = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
		if rets, ok := typeTexts(in, a, st, i, fn, args); ok {
			return rets, ok
		}
		return call(in, a, st, i, fn, args)
	}
	t := run.model("0t", w.typ, e.rows, 2, 0)
	arg := ptrTo(run.build(t, "table"))
	run.w.HeapTop = run.in.heapOf(run.st.flags).next() - 1
	for _, rt := range run.in.Run(wr, []*Val{arg}, nil, run.st.flags, nil) {
		if !noErr(rt.vals, wr.Signature) || run.in.heapOf(rt.flags).lost {
			continue
		}
		done := false
		run.tw.gobEdit = func(in *Interp, st *State, pl string, x *Val, typ types.Type) *Val {
			if places == nil && pl != at {
				return x
			}
			ns, vs := run.gobEdits(in, st, t, pl, x, typ)
			for k, n := range ns {
				if places != nil {
					if places[pl] == nil {
						places[pl] = map[string]bool{}
					}
					places[pl][n] = true
				} else if n == name {
					done = true
					return vs[k]
				}
			}
			return x
		}
		run.w.HeapTop = run.in.heapOf(rt.flags).next() - 1
		if places != nil {
			run.in.Run(w.rd, []*Val{rt.vals[0]}, rt.mem, rt.flags, nil)
			return
		}
		rows := ""
		if w.bare {
			rows = "without rows "
		}
		what := fmt.Sprintf("the GOB of a table "+rows+"with columns of type %s, with %s in the place of %s", w.typ, name, strings.TrimPrefix(at, "."))
		p.gobJudge(run, w.rd, rt.vals[0], rt.mem, rt.flags, w.typ, what, at+"|"+name, t, r)
		if !done {
			r.count("places not reached", 1)
		}
	}
}

func (p *Program) gobJudge(run *docRun, rd *ssa.Function, arg *Val, mem Mem, flags uint64, typ, what, key string, t *rtTable, r *Result) {
	r.count("GOB worlds", 1)
	key = "gob|" + shortName(rd) + "|" + typ + "|" + key
	pan, panAt := "", ""
	run.w.OnPanic = func(in *Interp, st *State, instr ssa.Instruction, w string) {
		if in.heapOf(st.flags).lost || pan != "" {
			return
		}
		pan, panAt = w, p.posOf(instr)
		if f := instr.Parent(); f != nil {
			pan += " in " + shortName(f)
		}
	}
	rets := run.in.Run(rd, []*Val{arg}, mem, flags, nil)
	if run.in.over {
		r.count("worlds abandoned (too large)", 1)
		return
	}
	if r.Prop == "C13" {
		r.oblig(pan == "")
		if pan != "" {
			r.add("panic|"+key, panAt, "", "%s: %s panics: %s", what, shortName(rd), pan)
			return
		}
	}
	ok, lost := false, false
	for k := range rets {
		rt := &rets[k]
		if nonNilErr(rt.vals, rd.Signature) {
			continue
		}
		if run.in.heapOf(rt.flags).lost || !noErr(rt.vals, rd.Signature) {
			lost = true
			continue
		}
		ok = true
		v := rt.vals[0]
		if r.Prop == "C13" {
			r.oblig(!v.isNil())
			if v.isNil() {
				r.add("nil|"+key, p.at(rd.Pos()), "", "%s: %s returns neither a table nor an error", what, shortName(rd))
				return
			}
			continue
		}
		if v.obj == nil || v.field != "" || t == nil {
			r.count("tables not followed", 1)
			continue
		}
		sr := &shapeRun{p: p, in: run.in}
		wrong := p.gobInvariant(sr, rt, v.obj, r.Prop)
		r.oblig(wrong == "")
		if wrong != "" {
			r.add("decoded|"+key, p.at(rd.Pos()), "", "%s: %s succeeds, but %s", what, shortName(rd), wrong)
			return
		}
	}
	switch {
	case lost:
		r.count("outcomes not followed", 1)
	case ok:
		r.count("worlds read", 1)
	default:
		r.oblig(true)
		r.count("worlds rejected", 1)
	}
}

// gobInvariant is what is wrong with a decoded table.
func (p *Program) gobInvariant(sr *shapeRun, rt *Ret, o *Obj, prop string) string {
	c := sr.content(rt, o)
	id := func(v *Val) string {
		s, ok := textOf(v)
		if ok {
			return s
		}
		return ""
	}
	switch prop {
	case "C02":
		_, what := sr.cellTypes(rt, o, false)
		return what
	case "C21":
		if c.okN && c.okT && len(c.names) != len(c.types) {
			return fmt.Sprintf("there are %d column names and %d column types", len(c.names), len(c.types))
		}
		if c.okN && c.okR {
			for k, row := range c.rows {
				if row != nil && len(row) != len(c.names) {
					return fmt.Sprintf("row %d has %d cells while there are %d columns", k, len(row), len(c.names))
				}
			}
		}
		if c.okN && c.index != nil && !c.index.fuzzy {
			if len(c.index.elems) != len(c.names) {
				return fmt.Sprintf("the index has %d entries while there are %d columns", len(c.index.elems), len(c.names))
			}
			for j, n := range c.names {
				nid, _ := keyID(n)
				for k, key := range c.index.keys {
					if key == nid && nid != "" {
						if x, ok := c.index.elems[k].int1(); ok && x != int64(j) {
							return fmt.Sprintf("the index of column %d is %d", j, x)
						}
						nid = ""
					}
				}
				if nid != "" && id(n) != "" {
					return fmt.Sprintf("column %d is not in the index", j)
				}
			}
		}
	case "C22":
		if s, ok := sr.field(rt, o, "tableName").str1(); ok && !plainName(s) {
			return fmt.Sprintf("the name of the table is %q", s)
		}
		if c.okN {
			seen := map[string]bool{}
			for j, n := range c.names {
				if s, ok := n.str1(); ok && !plainName(s) {
					return fmt.Sprintf("the name of column %d is %q", j, s)
				}
				if x := id(n); x != "" {
					if seen[x] {
						return fmt.Sprintf("the name of column %d is that of another column", j)
					}
					seen[x] = true
				}
			}
		}
	case "C23":
		if c.okN && c.okK {
			names := map[string]bool{}
			for _, n := range c.names {
				if id(n) == "" {
					return ""
				}
				names[id(n)] = true
			}
			kt, _ := p.Types.Scope().Lookup("sortKey").(*types.TypeName)
			if kt == nil {
				return ""
			}
			sty, _ := kt.Type().Underlying().(*types.Struct)
			st := &State{mem: rt.mem, flags: rt.flags}
			for k, key := range c.keys {
				for i := 0; sty != nil && i < sty.NumFields(); i++ {
					x := sr.in.fieldOf(st, key, kt.Type(), sty.Field(i).Name(), sty.Field(i).Type())
					switch sty.Field(i).Name() {
					case "colName":
						if id(x) != "" && !names[id(x)] {
							return fmt.Sprintf("sort key %d names a column that does not exist", k)
						}
					case "sortFunc":
						if x.isNil() {
							return fmt.Sprintf("sort key %d has no comparison", k)
						}
					}
				}
			}
		}
	}
	return ""
}

// gobSets: buffers with parts missing, empty or exchanged.
func (p *Program) gobSets(r *Result) {
	for _, rd := range []*ssa.Function{p.SSA.Func("NewTableFromGob"), p.SSA.Func("GobDecodeTable")} {
		if rd == nil {
			continue
		}
		for _, n := range []string{"nil", "empty"} {
			run := &docRun{rtRun: p.rtNew(rtWorld{form: "gob", typ: "int", rows: 1, cols: 1, tables: 1})}
			arg := NilVal
			if n == "empty" {
				arg = textVal("")
			}
			p.gobJudge(run, rd, arg, nil, run.st.flags, "int", "a GOB buffer that is "+n, n, nil, r)
		}
	}
	wr, _ := p.rtFuncs("gob", true)
	for _, rd := range []*ssa.Function{p.SSA.Func("NewTableSetFromGob"), p.SSA.Func("GobDecodeTableSet")} {
		if rd == nil || wr == nil {
			continue
		}
		for _, parts := range []string{"", "nil", "e", "H", "0", "01", "0e", "eH", "H0", "00H", "0HH", "01H", "10H", "0eH", "ee"} {
			run := &docRun{rtRun: p.rtNew(rtWorld{form: "gob", set: true, typ: "int", rows: 1, cols: 1, tables: 2})}
			run.in.limit = 60000
			var ts []*rtTable
			for k := 0; k < 2; k++ {
				ts = append(ts, run.model(fmt.Sprintf("%dt", k), "int", 1, 1, 0))
			}
			arg := ptrTo(run.buildSet(ts))
			run.w.HeapTop = run.in.heapOf(run.st.flags).next() - 1
			for _, rt := range run.in.Run(wr, []*Val{arg}, nil, run.st.flags, nil) {
				if !noErr(rt.vals, wr.Signature) || run.in.heapOf(rt.flags).lost {
					continue
				}
				st := &State{mem: rt.mem, flags: rt.flags}
				es, ok := run.in.seq(st, rt.vals[0])
				if !ok || len(es) != 3 {
					r.count("worlds abandoned (the buffers are not followed)", 1)
					continue
				}
				var bufs []*Val
				for _, c := range parts {
					switch c {
					case '0', '1':
						bufs = append(bufs, es[c-'0'])
					case 'H':
						bufs = append(bufs, es[2])
					default:
						bufs = append(bufs, textVal(""))
					}
				}
				v := NilVal
				if parts != "nil" {
					v = run.tw.newSlice(run.in, st, bufs)
				}
				run.w.HeapTop = run.in.heapOf(st.flags).next() - 1
				p.gobJudge(run, rd, v, st.mem, st.flags, "int", "a slice of GOB buffers "+parts+" (0, 1: tables, H: header, e: empty)", parts, nil, r)
			}
		}
	}
}

// withDocs adds the worlds of decoded documents.
func withDocs(p *Program, r *Result, tier string) *Result {
	p.checkGob(r, tier)
	p.docShapes(r, tier)
	return r
}

// docShapes: the invariants of tables read from JSON, YAML and text.
func (p *Program) docShapes(r *Result, tier string) {
	var ws []docWorld
	for _, e := range p.docWorlds("C13") {
		if e.cell == nil || r.Prop == "C02" {
			ws = append(ws, e)
		}
	}
	var ts []textDoc
	for _, e := range p.textDocs(tier, "C07") {
		if r.Prop == "C02" && (!e.reject || tier == "thorough") || e.typ == "lines" {
			ts = append(ts, e)
		}
	}
	r.Rule += " The same holds of tables read from JSON, YAML and text that differ from a valid document in one place."
	p.parallel(r, len(ws)+len(ts), func(i int, r *Result) {
		if i < len(ws) {
			p.docJob(ws[i], r)
			return
		}
		p.textDocJob(ts[i-len(ws)], "\n", r)
	})
}

// docInvariant is what is wrong with what was read.
func (p *Program) docInvariant(run *docRun, rt *Ret, v *Val, prop string, depth int) string {
	if v.obj == nil || v.field != "" || depth > 3 {
		return ""
	}
	sr := &shapeRun{p: p, in: run.in}
	st := &State{mem: rt.mem, flags: rt.flags}
	if named(v.obj.typ) != p.TSet {
		if x := sr.field(rt, v.obj, "isNilTable"); !x.isFalse() {
			return ""
		}
		if w := p.gobInvariant(sr, rt, v.obj, prop); w != "" {
			return w
		}
		rows, _ := run.in.seq(st, sr.field(rt, v.obj, "rows"))
		for k, row := range rows {
			cs, _ := run.in.seq(st, row)
			for j, c := range cs {
				if c.inner != nil && c.inner.obj != nil && named(c.inner.obj.typ) == p.Table {
					if w := p.docInvariant(run, rt, c.inner, prop, depth+1); w != "" {
						return fmt.Sprintf("in the table in column %d of row %d, %s", j, k, w)
					}
				}
			}
		}
		return ""
	}
	ts, ok := run.in.seq(st, sr.field(rt, v.obj, "tables"))
	if !ok {
		return ""
	}
	seen := map[string]bool{}
	for k, t := range ts {
		if w := p.docInvariant(run, rt, t, prop, depth); w != "" {
			return fmt.Sprintf("in table %d, %s", k, w)
		}
		if prop == "C22" && t.obj != nil && t.field == "" {
			if s, ok := textOf(sr.field(rt, t.obj, "tableName")); ok && s != "" {
				if seen[s] {
					return fmt.Sprintf("table %d has the name of another table", k)
				}
				seen[s] = true
			}
		}
	}
	return ""
}
