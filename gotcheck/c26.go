package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26; checks["C27"] = checkC27 }

// Labels of the two sides of a comparison.
const (
	LSideA Label = 1 << 33
	LSideB Label = 1 << 34
)

// keyWorld: a table with n sort keys whose comparisons give fixed results.
type keyWorld struct {
	n       int
	res     []int  // result of comparing side A with side B on key k
	rev     []bool // key k is descending
	wrong   string // set when a comparison is given the wrong operands
	nilArg  bool   // a comparison is given no value
	blind   bool   // a comparison was reached whose key or operands are not known
	calls   int
	noSides bool // do not insist on which side is which
}

func (k *keyWorld) String() string {
	var b []string
	for i := 0; i < k.n; i++ {
		d := "ascending"
		if k.rev[i] {
			d = "descending"
		}
		b = append(b, fmt.Sprintf("key %d %s, first %s second", i+1, d, relSym(k.res[i])))
	}
	return strings.Join(b, "; ")
}

// order is the sign of side A compared with side B under all keys.
func (k *keyWorld) order() int {
	for i := 0; i < k.n; i++ {
		if k.res[i] != 0 {
			if k.rev[i] {
				return -k.res[i]
			}
			return k.res[i]
		}
	}
	return 0
}

func numbered(tag, prefix string) (int, bool) {
	if !strings.HasPrefix(tag, prefix) {
		return 0, false
	}
	n := 0
	if _, err := fmt.Sscan(tag[len(prefix):], &n); err != nil {
		return 0, false
	}
	return n, true
}

// install sets up the tables of the world.
func (k *keyWorld) install(p *Program, W *World, in *Interp) {
	p.countSyms(W, in, nil, true)
	base := W.Field
	W.Field = func(o *Obj, st *types.Named, field string) *Val {
		v := base(o, st, field)
		if st == p.Table {
			switch field {
			case "isNilTable":
				return FalseVal
			case "sortKeys":
				return &Val{nilb: mayNon, ln: intVal(int64(k.n)), tag: "keys"}
			case "rows":
				return withTag(v, "rows")
			case "colNamesMap":
				c := *v
				c.tag, c.nilb, c.str = "index", mayNon, ""
				return &c
			}
		}
		return v
	}
	W.Elem = func(st *State, c, idx *Val) *Val {
		switch c.tag {
		case "keys":
			j, ok := idx.int1()
			if !ok || j < 0 || j >= int64(k.n) {
				return nil
			}
			return k.key(p, int(j))
		case "rows":
			l, ok := side(idx.tag)
			if !ok {
				return nil
			}
			return &Val{nilb: mayNon, ln: W.RowLen, tag: "row", lab: l}
		case "row":
			if j, ok := numbered(idx.tag, "col"); ok {
				return &Val{nilb: mayNon, tag: fmt.Sprintf("cell%d", j), lab: c.lab}
			}
			return &Val{nilb: mayNon, lab: c.lab}
		case "search":
			if j, ok := idx.int1(); ok {
				return &Val{nilb: mayNon, tag: fmt.Sprintf("cell%d", j), lab: LSideB}
			}
			return &Val{nilb: mayNon, lab: LSideB}
		}
		return nil
	}
	W.Look = func(st *State, m, key *Val) [][]*Val {
		if m.tag == "index" {
			if j, ok := numbered(key.tag, "name"); ok {
				return [][]*Val{{withTag(rangeVal(Bound{}, Bound{sym: "C1", off: -1}), fmt.Sprintf("col%d", j)), TrueVal}}
			}
		}
		return nil
	}
	W.Dyn = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *Val, args []*Val) ([]Ret, bool) {
		j, ok := numbered(f.tag, "cmp")
		if !ok || len(args) != 2 {
			if f.tag == "" && len(args) == 2 && i.Common().Signature().Results().Len() == 1 && isInteger(i.Common().Signature().Results().At(0).Type()) {
				k.blind = true
			}
			return nil, false
		}
		k.calls++
		if args[0].isNil() || args[1].isNil() {
			k.nilArg = true
			return nil, true
		}
		res := k.res[j]
		x, okx := numbered(args[0].tag, "cell")
		y, oky := numbered(args[1].tag, "cell")
		lx, ly := args[0].lab&(LSideA|LSideB), args[1].lab&(LSideA|LSideB)
		switch {
		case k.noSides:
		case !okx || !oky:
			k.blind = true
			return []Ret{{vals: []*Val{{nilb: mayNon}}, flags: st.flags | 1<<uint(j)}}, true
		case x != j || y != j:
			k.wrong = fmt.Sprintf("the comparison of key %d is given the cells of key %d and key %d at %s", j+1, x+1, y+1, in.P.posOf(i))
			return []Ret{{vals: []*Val{{nilb: mayNon}}, flags: st.flags | 1<<uint(j)}}, true
		case lx == LSideB && ly == LSideA:
			res = -res
		case lx != LSideA || ly != LSideB:
			k.wrong = fmt.Sprintf("the comparison of key %d is not given one value of each side at %s", j+1, in.P.posOf(i))
			return []Ret{{vals: []*Val{{nilb: mayNon}}, flags: st.flags | 1<<uint(j)}}, true
		}
		return []Ret{{vals: []*Val{intVal(int64(res))}, flags: st.flags | 1<<uint(j)}}, true
	}
}

func side(tag string) (Label, bool) {
	switch tag {
	case "I", "first", "last":
		return LSideA, true
	case "J":
		return LSideB, true
	}
	return 0, false
}

func (k *keyWorld) key(p *Program, j int) *Val {
	o := p.Types.Scope().Lookup("sortKey")
	if o == nil {
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	v := &Val{nilb: mayNon, ty: named(o.Type())}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Signature:
			v.flds = append(v.flds, &Val{nilb: mayNon, tag: fmt.Sprintf("cmp%d", j)})
			continue
		}
		switch {
		case f.Name() == "colName":
			v.flds = append(v.flds, &Val{nilb: mayNon, tag: fmt.Sprintf("name%d", j)})
		case f.Name() == "reverse":
			v.flds = append(v.flds, boolVal(k.rev[j]))
		default:
			v.flds = append(v.flds, &Val{nilb: mayNon})
		}
	}
	return v
}

func keyWorlds(n int) []*keyWorld {
	var out []*keyWorld
	var rec func(i int, res []int, rev []bool)
	rec = func(i int, res []int, rev []bool) {
		if i == n {
			out = append(out, &keyWorld{n: n, res: append([]int{}, res...), rev: append([]bool{}, rev...)})
			return
		}
		for _, c := range []int{-1, 0, 1} {
			for _, r := range []bool{false, true} {
				rec(i+1, append(res, c), append(rev, r))
			}
		}
	}
	rec(0, nil, nil)
	return out
}

func nonNilErr(vals []*Val, sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type()) && vals[n-1].isNonNil()
}

func extPkgName(f *ssa.Function) (pkg, name string) {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	return pkg, f.Name()
}

// predicate is one ordering decision found in the code: a less function, a
// three-way comparison or the predicate of a binary search.
type predicate struct {
	kind string // less, cmp, search, searchLast
	val  *Val
	pos  string
	fn   string
}

// decisions runs op in world k and evaluates the callbacks it hands to sorting
// and searching functions.
func (p *Program) decisions(op *ssa.Function, k *keyWorld) (map[string]*predicate, []Ret) {
	W := &World{Name: k.String()}
	in := NewInterp(p, W)
	k.install(p, W, in)
	out := map[string]*predicate{}
	idx := func(tag string) *Val {
		return withTag(rangeVal(Bound{}, Bound{sym: "R1", off: -1}), tag)
	}
	note := func(kind string, i ssa.CallInstruction, fn *ssa.Function, rets []Ret, nres int) {
		var v *Val
		for _, r := range rets {
			if len(r.vals) > 0 {
				v = join(v, r.vals[0])
			}
		}
		out[p.posOf(i)] = &predicate{kind: kind, val: v, pos: p.posOf(i), fn: shortName(fn)}
	}
	W.OnCall = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool) {
		pkg, name := extPkgName(f)
		if f.Pkg == p.SSA {
			pkg = "gotables"
		}
		var cb *Val
		for _, x := range args {
			if x.fn != nil && len(x.fn.Blocks) > 0 {
				cb = x
			}
		}
		switch pkg + "." + name {
		case "sort.Sort", "sort.Stable":
			x := args[0]
			if x.dyn == nil {
				k.blind = true
				return nil, false
			}
			if m := p.Prog.LookupMethod(x.dyn, p.Types, "Less"); m != nil && len(m.Blocks) > 0 {
				rets := in.inline(a, st, i, m, []*Val{x.inner, idx("I"), idx("J")}, nil)
				note("less", i, m, rets, 1)
			}
			return []Ret{{flags: st.flags}}, true
		case "sort.Slice", "sort.SliceStable":
			if cb == nil {
				k.blind = true
				return nil, false
			}
			note("less", i, cb.fn, in.inline(a, st, i, cb.fn, []*Val{idx("I"), idx("J")}, cb.binds), 1)
			return []Ret{{flags: st.flags}}, true
		case "slices.SortFunc", "slices.SortStableFunc":
			if cb == nil {
				k.blind = true
				return nil, false
			}
			row := func(l Label) *Val { return &Val{nilb: mayNon, ln: W.RowLen, tag: "row", lab: l} }
			note("cmp", i, cb.fn, in.inline(a, st, i, cb.fn, []*Val{row(LSideA), row(LSideB)}, cb.binds), 1)
			return []Ret{{flags: st.flags}}, true
		case "sort.Search", "gotables.SearchFirst", "gotables.SearchLast":
			if cb == nil {
				return nil, false
			}
			kind := "search"
			lo, hi := Bound{}, Bound{sym: "R1"}
			if name == "SearchLast" {
				kind = "searchLast"
				lo, hi = Bound{off: -1}, Bound{sym: "R1", off: -1}
			}
			note(kind, i, cb.fn, in.inline(a, st, i, cb.fn, []*Val{idx("I")}, cb.binds), 1)
			return []Ret{{vals: []*Val{withTag(rangeVal(lo, hi), "I")}, flags: st.flags}}, true
		case "gotables.SetSortKeys":
			return []Ret{{vals: []*Val{NilVal}, flags: st.flags}}, true
		case "gotables.checkSearchArguments":
			return []Ret{{vals: []*Val{NilVal}, flags: st.flags}}, true
		}
		return nil, false
	}
	args := in.genericArgs(op)
	ints := []string{"I", "J"}
	for j, q := range op.Params {
		switch t := q.Type().Underlying().(type) {
		case *types.Slice:
			if isString(t.Elem()) {
				args[j] = &Val{nilb: mayNon, ln: intVal(int64(k.n))} // column names
				if op.Name() == "Sort" {
					args[j] = &Val{nilb: mayNil, ln: intVal(0)}
				}
			} else {
				args[j] = &Val{nilb: mayNon, ln: intVal(int64(k.n)), tag: "search"}
			}
		case *types.Basic:
			if t.Kind() == types.Int && len(ints) > 0 {
				args[j] = idx(ints[0])
				ints = ints[1:]
			}
		}
	}
	rets := in.Run(op, args, nil, 0, nil)
	return out, rets
}

// keySequence: an operation that sets sort keys keeps the sequence and the
// directions it is given.
func (p *Program) keySequence(r *Result) {
	type key struct {
		col string
		rev bool
	}
	type world struct {
		op   *ssa.Function
		s    *shape
		want []key
	}
	var ws []world
	var dirs [][]bool
	for k := 0; k < 8; k++ {
		dirs = append(dirs, []bool{k&1 != 0, k&2 != 0, k&4 != 0})
	}
	orders := [][]int{{0, 1, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2}, {2, 0}, {1}}
	nm := func(c int) string { return "n" + strconv.Itoa(c) }
	for _, name := range []string{"SetSortKeys", "Sort", "SortSimple", "SetSortKeysReverse", "AppendSortKey", "DeleteSortKey", "SetSortKeysFromTable"} {
		op := p.Method("Table", name)
		if op == nil {
			continue
		}
		r.count("operations that set keys", 1)
		for _, o := range orders {
			for di, d := range dirs {
				if di>>uint(len(o)) != 0 {
					continue
				}
				s := &shape{cols: 3, rows: 1, typ: "int", arg: "M0", dirs: d}
				var list []string
				var now []key
				for j, c := range o {
					list = append(list, nm(c))
					now = append(now, key{nm(c), d[j]})
				}
				switch name {
				case "SetSortKeys", "Sort", "SortSimple":
					s.list, s.keys = list, []int{1, 0}
					for j := range now {
						now[j].rev = false
					}
					ws = append(ws, world{op, s, now})
				case "SetSortKeysReverse":
					s.keys = o
					for j := range o {
						t := *s
						t.list = list[j:]
						want := append([]key{}, now...)
						for k := j; k < len(want); k++ {
							want[k].rev = true
						}
						ws = append(ws, world{op, &t, want})
					}
				case "AppendSortKey":
					s.keys = o
					for c := 0; c < 3; c++ {
						t := *s
						t.strs = []string{nm(c)}
						ws = append(ws, world{op, &t, append(append([]key{}, now...), key{nm(c), false})})
					}
				case "DeleteSortKey":
					s.keys = o
					for j := range o {
						t := *s
						t.strs = []string{nm(o[j])}
						ws = append(ws, world{op, &t, append(append([]key{}, now[:j]...), now[j+1:]...)})
					}
				case "SetSortKeysFromTable":
					s.like, s.argKeys, s.keys = true, o, []int{1, 0}
					ws = append(ws, world{op, s, now})
				}
			}
		}
	}
	sty := p.Types.Scope().Lookup("sortKey").Type().Underlying().(*types.Struct)
	p.parallel(r, len(ws), func(wi int, r *Result) {
		w := ws[wi]
		sr := p.shapeWorld(w.op, w.s)
		sr.in.limit = 40000
		rets := sr.in.Run(w.op, sr.args, nil, sr.heap, nil)
		r.count("worlds of keys set", 1)
		if sr.in.over {
			r.count("worlds abandoned (too large)", 1)
			return
		}
		show := func(ks []key) string {
			var b []string
			for _, k := range ks {
				d := " ascending"
				if k.rev {
					d = " descending"
				}
				b = append(b, k.col+d)
			}
			return "[" + strings.Join(b, ", ") + "]"
		}
		for k := range rets {
			rt := &rets[k]
			if nonNilErr(rt.vals, w.op.Signature) {
				continue
			}
			c := &content{}
			if !sr.in.heapOf(rt.flags).lost {
				c = sr.content(rt, sr.tabs[0])
			}
			if !c.okK {
				r.count("keys not followed", 1)
				continue
			}
			var got []key
			known := true
			for _, x := range c.keys {
				g := key{}
				if len(x.flds) != sty.NumFields() {
					known = false
					continue
				}
				for i, f := range x.flds {
					switch sty.Field(i).Name() {
					case "colName":
						g.col = f.tag
					case "reverse":
						g.rev = f.isTrue()
						known = known && (f.isTrue() || f.isFalse())
					}
				}
				known = known && g.col != "" && !strings.Contains(g.col, "@")
				got = append(got, g)
			}
			if len(c.keys) == len(w.want) && !known {
				r.count("keys not followed", 1)
				continue
			}
			ok := len(c.keys) == len(w.want) && show(got) == show(w.want)
			r.oblig(ok)
			if !ok {
				g := show(got)
				if !known {
					g = fmt.Sprintf("%d keys", len(c.keys))
				}
				r.add("keys|"+w.op.Name(), p.at(w.op.Pos()), "", "when %s succeeds the sort keys are %s instead of %s (%s)", w.op.Name(), g, show(w.want), w.s)
				return
			}
		}
	})
}

func checkC26(p *Program, tier string) *Result {
	r := newResult("C26")
	r.Rule = "Sort, SortSimple, SearchFirst, Search, SearchLast and CompareRows are abstractly interpreted on tables with 1 to 3 (thorough: 4) sort keys, for every combination of key direction and of comparison result per key. The comparison of key k must be given the cells of key k's column from both sides; the less function must be true exactly when the first row is before the second under the key sequence, the predicate of the first-match search exactly when the row is not before the searched values, that of the last-match search exactly when it is not after them, and CompareRows must give the sign of the order."
	r.Rule += " SetSortKeys, SetSortKeysReverse, SetSortKeysFromTable, AppendSortKey, DeleteSortKey, Sort and SortSimple are interpreted on tables with sort keys in several sequences and directions: afterwards the keys must be those given, in that sequence and direction."
	p.keySequence(r)
	max := 3
	if tier == "thorough" {
		max = 4
	}
	for _, name := range []string{"Sort", "SortSimple", "SearchFirst", "Search", "SearchLast", "CompareRows"} {
		op := p.Method("Table", name)
		if op == nil {
			continue
		}
		r.count("operations", 1)
		for n := 1; n <= max; n++ {
			ws := keyWorlds(n)
			p.parallel(r, len(ws), func(wi int, r *Result) {
				k := ws[wi]
				ds, rets := p.decisions(op, k)
				if name == "CompareRows" {
					var v *Val
					for _, rt := range rets {
						if !nonNilErr(rt.vals, op.Signature) {
							v = join(v, rt.vals[0])
						}
					}
					ds = map[string]*predicate{"": {kind: "cmp", val: v, pos: p.at(op.Pos()), fn: shortName(op)}}
				}
				if len(ds) == 0 {
					r.Unknown = append(r.Unknown, name+": no call of a sorting or searching function found")
				}
				for _, d := range ds {
					o := k.order()
					want := o < 0
					ok, desc := true, ""
					switch d.kind {
					case "less":
						desc = "less function"
					case "search":
						want = o >= 0
						if name == "SearchLast" {
							want = o > 0
						}
						desc = "predicate of the binary search"
					case "searchLast":
						want = o <= 0
						if name != "SearchLast" {
							want = o < 0
						}
						desc = "predicate of the last-match search"
					}
					if d.kind == "cmp" {
						ok = signIs(d.val, o)
						desc = "row comparison"
					} else {
						ok = d.val != nil && (want && d.val.isTrue() || !want && d.val.isFalse())
					}
					if k.wrong != "" {
						r.oblig(false)
						r.add("operands|"+name, d.pos, "", "%s: %s", name, k.wrong)
						continue
					}
					if !ok && (k.blind || k.calls == 0) && d.val != nil {
						r.Unknown = append(r.Unknown, name+" "+k.String())
						ok = true
					}
					r.oblig(ok)
					if !ok {
						got := "crashes"
						if d.val != nil {
							got = "gives " + showBool(d.val)
						}
						exp := fmt.Sprint(want)
						if d.kind == "cmp" {
							exp = "a result " + relSym(o) + " 0"
						}
						r.add(fmt.Sprintf("order|%s", name), d.pos, "", "%s: the %s (%s) %s where %s is expected (%s)", name, desc, d.fn, got, exp, k)
					}
				}
				r.count("worlds", 1)
			})
		}
	}
	return r
}

func showBool(v *Val) string {
	switch {
	case v.isTrue():
		return "true"
	case v.isFalse():
		return "false"
	case v.num:
		return show(v)
	}
	return "either result"
}

func checkC27(p *Program, tier string) *Result {
	r := newResult("C27")
	r.Rule = "SearchFirst, Search, SearchLast and SearchRange are abstractly interpreted with the binary search giving, in turn, a position past the last row, a position before the first row, the only position of an empty table, and a position inside the table at which the comparisons of the keys differ (each key in turn) or all agree. Only the last may succeed, it must be able to, the row reported must be the position found, and no comparison may be given a missing value or be made outside the table."
	type world struct {
		name        string
		first, last *Val
		empty       bool
		res         []int
		succeed     bool
	}
	R := Bound{sym: "R1"}
	in01 := rangeVal(Bound{}, Bound{sym: "R1", off: -1})
	ws := []world{
		{"the search ends past the last row", rangeVal(R, R), in01, false, []int{0, 0}, false},
		{"the search ends before the first row", in01, intVal(-1), false, []int{0, 0}, false},
		{"the table is empty", intVal(0), intVal(-1), true, []int{0, 0}, false},
		{"the values differ on the first key", in01, in01, false, []int{1, 0}, false},
		{"the values differ on the first key (less)", in01, in01, false, []int{-1, 0}, false},
		{"the values differ on the second key", in01, in01, false, []int{0, 1}, false},
		{"the values differ on the second key (less)", in01, in01, false, []int{0, -1}, false},
		{"the values differ on both keys", in01, in01, false, []int{1, -1}, false},
		{"the values agree", in01, in01, false, []int{0, 0}, true},
	}
	for _, n := range []int{1, 3, 4} {
		ws = append(ws, world{fmt.Sprintf("the values agree on %d key(s)", n), in01, in01, false, make([]int, n), true})
		for k := 0; k < n; k++ {
			for _, c := range []int{1, -1} {
				res := make([]int, n)
				res[k] = c
				ws = append(ws, world{fmt.Sprintf("of %d key(s) the values differ on key %d only (%+d)", n, k+1, c), in01, in01, false, res, false})
			}
		}
	}
	for _, name := range []string{"SearchFirst", "Search", "SearchLast", "SearchRange"} {
		op := p.Method("Table", name)
		if op == nil {
			continue
		}
		r.count("operations", 1)
		for _, w := range ws {
			if (name == "SearchFirst" || name == "Search") && w.first == in01 && w.last != in01 ||
				name == "SearchLast" && w.last == in01 && w.first != in01 {
				continue
			}
			n := len(w.res)
			revs := [][]bool{{false, false}, {true, false}, {false, true}, {true, true}}
			if n != 2 {
				revs = nil
				for bits := 0; bits < 1<<n; bits++ {
					rev := make([]bool, n)
					for j := range rev {
						rev[j] = bits>>j&1 == 1
					}
					revs = append(revs, rev)
				}
			}
			for _, rev := range revs {
				k := &keyWorld{n: n, res: w.res, rev: rev}
				W := &World{Name: w.name}
				in := NewInterp(p, W)
				k.install(p, W, in)
				if w.empty {
					base := W.Field
					W.Field = func(o *Obj, st *types.Named, field string) *Val {
						v := base(o, st, field)
						if st == p.Table && field == "rows" {
							c := *v
							c.ln, c.str = intVal(0), ""
							return &c
						}
						return v
					}
				}
				searched, crash := false, ""
				W.OnCall = func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool) {
					pkg, fname := extPkgName(f)
					if f.Pkg == p.SSA {
						pkg = "gotables"
					}
					v := withTag(w.first, "first")
					switch pkg + "." + fname {
					case "gotables.SearchLast":
						v = withTag(w.last, "last")
					case "sort.Search", "gotables.SearchFirst":
					case "gotables.checkSearchArguments":
						return []Ret{{vals: []*Val{NilVal}, flags: st.flags}}, true
					default:
						return nil, false
					}
					if f.Signature.Recv() != nil {
						return nil, false
					}
					searched = true
					return []Ret{{vals: []*Val{v}, flags: st.flags}}, true
				}
				W.BinOp = func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val {
					if c, ok := y.int1(); ok && c == 1 && i.Op == token.SUB && x.tag == "first" {
						return withTag(w.last, "last") // the row before the first that is greater
					}
					return nil
				}
				args := in.genericArgs(op)
				for j, q := range op.Params {
					if sl, ok := q.Type().Underlying().(*types.Slice); ok && !isString(sl.Elem()) {
						args[j] = &Val{nilb: mayNon, ln: intVal(int64(n)), tag: "search"}
					}
				}
				rets := in.Run(op, args, nil, 0, func(ev *Event) {
					if in.crashes(ev.Act, ev.St, ev.Instr) {
						crash = p.posOf(ev.Instr)
					}
				})
				if !searched {
					r.Unknown = append(r.Unknown, name+": no binary search found")
					continue
				}
				ok := false
				idxOK := true
				for _, rt := range rets {
					if nonNilErr(rt.vals, op.Signature) {
						continue
					}
					ok = true
					for j, v := range rt.vals[:len(rt.vals)-1] {
						if len(rt.vals) == 3 && v.tag != []string{"first", "last"}[j] {
							idxOK = false
						}
						if _, at := side(v.tag); !at {
							idxOK = false
						}
					}
				}
				key := func(s string) string { return fmt.Sprintf("%s|%s|%s", s, name, w.name) }
				bad := false
				where := p.at(op.Pos())
				if k.nilArg || crash != "" {
					bad = true
					at := crash
					if at == "" {
						at = where
					}
					r.add(key("crash"), at, "", "%s: when %s, a row outside the table is read or a missing value is compared", name, w.name)
				}
				if ok && !w.succeed && !(k.blind && !w.empty) {
					bad = true
					r.add(key("accept"), where, "", "%s reports success when %s", name, w.name)
				}
				if !ok && w.succeed {
					bad = true
					r.add(key("reject"), where, "", "%s cannot succeed when %s", name, w.name)
				}
				if ok && w.succeed && !idxOK {
					bad = true
					r.add(key("index"), where, "", "%s reports an index that is not the position at which the values were compared", name)
				}
				r.oblig(!bad)
				r.count("worlds", 1)
			}
		}
	}
	return r
}
