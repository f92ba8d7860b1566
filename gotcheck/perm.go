package main

import (
	"golang.org/x/tools/go/ssa"
)

// permuteCall analyses a call that sorts or shuffles a short sequence of known
// elements: one alternative for each permutation.
func (in *Interp) permuteCall(a *Activation, st *State, i *ssa.Call, fn *ssa.Function, args []*Val) ([]Ret, bool) {
	if !in.W.Heap || in.heapOf(st.flags).lost || len(args) == 0 {
		return nil, false
	}
	var n int64
	var swap func(r Ret, x, y int64) []Ret
	after := func(r Ret) *State {
		s := cloneState(st)
		s.flags = r.flags
		for k, v := range r.mem {
			s.mem[k] = v
		}
		return s
	}
	call := func(r Ret, m *ssa.Function, margs, binds []*Val) []Ret {
		s := after(r)
		var out []Ret
		for _, x := range in.inline(a, s, i, m, margs, binds) {
			t := Ret{flags: x.flags, mem: Mem{}, vals: x.vals}
			for k, v := range r.mem {
				t.mem[k] = v
			}
			for k, v := range x.mem {
				t.mem[k] = v
			}
			out = append(out, t)
		}
		return out
	}
	x := args[0]
	switch extName(fn) {
	case "sort.Sort", "sort.Stable", "sort.Reverse":
		if x.dyn == nil || x.inner == nil {
			return nil, false
		}
		lenf := in.P.Prog.LookupMethod(x.dyn, in.P.Types, "Len")
		swapf := in.P.Prog.LookupMethod(x.dyn, in.P.Types, "Swap")
		if lenf == nil || swapf == nil || len(lenf.Blocks) == 0 || len(swapf.Blocks) == 0 || !in.P.inPkg(swapf) {
			return nil, false
		}
		rs := call(Ret{flags: st.flags}, lenf, []*Val{x.inner}, nil)
		if len(rs) != 1 || len(rs[0].vals) != 1 {
			return nil, false
		}
		k, ok := rs[0].vals[0].int1()
		if !ok {
			return nil, false
		}
		n = k
		swap = func(r Ret, j, k int64) []Ret {
			return call(r, swapf, []*Val{x.inner, intVal(j), intVal(k)}, nil)
		}
	case "math/rand.Shuffle", "(*math/rand.Rand).Shuffle":
		if extName(fn) != "math/rand.Shuffle" {
			args = args[1:]
		}
		k, ok := args[0].int1()
		f := args[1].fn
		if !ok || f == nil || len(f.Blocks) == 0 || !in.P.inPkg(f) {
			return nil, false
		}
		n = k
		swap = func(r Ret, j, k int64) []Ret {
			return call(r, f, []*Val{intVal(j), intVal(k)}, args[1].binds)
		}
	default:
		return nil, false
	}
	if n > 3 || n < 0 {
		return nil, false
	}
	out := []Ret{{flags: st.flags, vals: []*Val{}}}
	step := func(pairs [][2]int64) {
		for _, r := range append([]Ret{}, out...) {
			for _, q := range pairs {
				out = append(out, swap(r, q[0], q[1])...)
			}
		}
	}
	if n >= 2 {
		step([][2]int64{{0, 1}})
	}
	if n >= 3 {
		step([][2]int64{{0, 2}, {1, 2}})
	}
	for k := range out {
		out[k].vals = []*Val{}
	}
	return out, true
}

// orderCall analyses a call that sorts a short sequence, or searches one, where
// the comparisons of its elements are decided: one alternative for each
// arrangement that agrees with the comparisons.
func (in *Interp) orderCall(a *Activation, st *State, i *ssa.Call, fn *ssa.Function, args []*Val) ([]Ret, bool) {
	if !in.W.Order || in.heapOf(st.flags).lost || len(args) == 0 {
		return nil, false
	}
	// ask gives the value of a comparison (nil: not decided)
	ask := func(m *ssa.Function, margs, binds []*Val) *Val {
		var v *Val
		for _, x := range in.inline(a, cloneState(st), i, m, margs, binds) {
			if len(x.vals) == 1 {
				v = join(v, x.vals[0])
			}
		}
		return v
	}
	x := args[0]
	name := extName(fn)
	stable := name == "sort.Stable" || name == "sort.SliceStable" || name == "slices.SortStableFunc"
	switch name {
	case "sort.Search":
		n, ok := args[0].int1()
		f := args[1].fn
		if !ok || f == nil || len(f.Blocks) == 0 {
			return nil, false
		}
		lo, hi := int64(0), n
		for lo < hi {
			h := lo + (hi-lo)/2
			v := ask(f, []*Val{intVal(h)}, args[1].binds)
			switch {
			case v == nil:
				return nil, false
			case v.isTrue():
				hi = h
			case v.isFalse():
				lo = h + 1
			default:
				return nil, false
			}
		}
		return []Ret{{vals: []*Val{intVal(lo)}, flags: st.flags}}, true
	case "sort.Sort", "sort.Stable":
		if x.dyn == nil || x.inner == nil {
			return nil, false
		}
		lenf := in.P.Prog.LookupMethod(x.dyn, in.P.Types, "Len")
		swapf := in.P.Prog.LookupMethod(x.dyn, in.P.Types, "Swap")
		lessf := in.P.Prog.LookupMethod(x.dyn, in.P.Types, "Less")
		if lenf == nil || swapf == nil || lessf == nil || len(lenf.Blocks) == 0 || len(swapf.Blocks) == 0 || len(lessf.Blocks) == 0 {
			return nil, false
		}
		l := ask(lenf, []*Val{x.inner}, nil)
		if l == nil {
			return nil, false
		}
		n, ok := l.int1()
		if !ok || n < 0 || n > 4 {
			return nil, false
		}
		ps := arrange(int(n), stable, func(j, k int) *Val {
			return ask(lessf, []*Val{x.inner, intVal(int64(j)), intVal(int64(k))}, nil)
		})
		var out []Ret
		for _, p := range ps {
			rs := []Ret{{flags: st.flags, vals: []*Val{}}}
			at := make([]int, n) // what is at each place
			for k := range at {
				at[k] = k
			}
			for k := range at {
				for j := k + 1; j < len(at); j++ {
					if at[k] == p[k] || at[j] != p[k] {
						continue
					}
					at[k], at[j] = at[j], at[k]
					var next []Ret
					for _, r := range rs {
						s := cloneState(st)
						s.flags = r.flags
						for f, v := range r.mem {
							s.mem[f] = v
						}
						for _, y := range in.inline(a, s, i, swapf, []*Val{x.inner, intVal(int64(k)), intVal(int64(j))}, nil) {
							t := Ret{flags: y.flags, mem: Mem{}, vals: []*Val{}}
							for f, v := range r.mem {
								t.mem[f] = v
							}
							for f, v := range y.mem {
								t.mem[f] = v
							}
							next = append(next, t)
						}
					}
					rs = next
				}
			}
			out = append(out, rs...)
		}
		return out, true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if x.inner != nil {
			x = x.inner
		}
		f := args[1].fn
		es, ok := in.seq(st, x)
		if !ok || f == nil || len(f.Blocks) == 0 || len(es) > 4 {
			return nil, false
		}
		es = append([]*Val{}, es...)
		ps := arrange(len(es), stable, func(j, k int) *Val {
			if name == "sort.Slice" || name == "sort.SliceStable" {
				return ask(f, []*Val{intVal(int64(j)), intVal(int64(k))}, args[1].binds)
			}
			c := ask(f, []*Val{es[j], es[k]}, args[1].binds)
			if c == nil {
				return nil
			}
			if v, ok := c.int1(); ok {
				return boolVal(v < 0)
			}
			return nil
		})
		var out []Ret
		for _, p := range ps {
			s := cloneState(st)
			n := in.cont(s, x).clone()
			for k := range p {
				n.elems[x.clo+k] = es[p[k]]
			}
			in.putCont(s, x.cont, n)
			out = append(out, Ret{flags: s.flags, vals: []*Val{}})
		}
		return out, true
	}
	return nil, false
}

// arrange gives the arrangements of n elements in which none is after another
// that it must be before.
func arrange(n int, stable bool, less func(j, k int) *Val) (out [][]int) {
	before := make([][]int, n) // 1: must, 0: may, -1: need not
	for j := range before {
		before[j] = make([]int, n)
		for k := range before[j] {
			if j == k {
				continue
			}
			v := less(j, k)
			switch {
			case v != nil && v.isTrue():
				before[j][k] = 1
			case v != nil && v.isFalse():
				before[j][k] = -1
			}
		}
	}
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for k := 0; k < n; k++ {
			if used>>uint(k)&1 != 0 {
				continue
			}
			ok := true
			for j := 0; j < n; j++ {
				if j == k || used>>uint(j)&1 != 0 {
					continue
				}
				if before[j][k] == 1 && before[k][j] != 1 || stable && j < k && before[j][k] == -1 && before[k][j] == -1 {
					ok = false
				}
			}
			if ok {
				rec(append(p, k), used|1<<uint(k))
			}
		}
	}
	rec(nil, 0)
	return
}
