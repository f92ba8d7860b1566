package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N07: shuffling is followed with every choice of the random source.

func init() { checks["N07"] = checkN07 }

func checkN07(p *Program, tier string) *Result {
	r := newResult("N07")
	max := 4
	if tier == "thorough" {
		max = 5
	}
	r.Rule = fmt.Sprintf("ShuffleRandom and ShufflePseudorandom are abstractly interpreted on tables of 0 to %d rows of symbols, once for each sequence of choices that the random source can make (each choice from n is taken to be uniform and independent, which is what the library promises). Each run must leave a permutation of the rows, and all permutations must have the same probability. The source of ShufflePseudorandom must start from a constant, that of ShuffleRandom must not.", max)
	for _, name := range []string{"ShuffleRandom", "ShufflePseudorandom"} {
		f := p.Method("Table", name)
		if f == nil {
			continue
		}
		for n := 0; n <= max; n++ {
			p.shuffled(r, f, n)
		}
	}
	return r
}

func (p *Program) shuffled(r *Result, f *ssa.Function, n int) {
	t := &ordTable{name: "N1", names: []string{"n0", "n1"}, types: []string{"string", "string"}}
	for i := 0; i < n; i++ {
		t.rows = append(t.rows, []ordCell{ordCell(fmt.Sprintf("qa%d", i)), ordCell(fmt.Sprintf("qb%d", i))})
	}
	what := fmt.Sprintf("%s of %d rows", f.Name(), n)
	prob := map[string]*big.Rat{}
	var script, sizes []int
	seeded, constant := false, true
	clock, global := false, false // used: what differs from run to run, the source that all share
	for {
		at := 0
		weight := big.NewRat(1, 1)
		lost := false
		choose := func(k int64) (int64, bool) {
			if k <= 0 || k > 100 {
				return 0, false
			}
			if at == len(script) {
				script, sizes = append(script, 0), append(sizes, int(k))
			}
			if sizes[at] != int(k) || len(script) > 50 {
				lost = true
				return 0, false
			}
			at++
			weight.Mul(weight, big.NewRat(1, k))
			return int64(script[at-1]), true
		}
		run := p.ordNew(what)
		run.konst = true
		call := run.in.W.OnCall
		run.in.W.OnCall = func(in *Interp, act *Activation, st *State, i ssa.CallInstruction, fn *ssa.Function, args []*Val) ([]Ret, bool) {
			s := extName(fn)
			if !strings.Contains(s, "math/rand") {
				if strings.HasPrefix(s, "time.Now") || strings.HasPrefix(s, "crypto/rand") || strings.HasPrefix(s, "os.") || strings.HasPrefix(s, "runtime.") {
					clock = true
				}
				return call(in, act, st, i, fn, args)
			}
			as := args
			if fn.Signature.Recv() == nil && !strings.HasPrefix(fn.Name(), "New") {
				global = true
			}
			if fn.Signature.Recv() != nil && len(as) > 0 {
				as = as[1:]
			}
			one := func(v *Val) ([]Ret, bool) { return []Ret{{vals: []*Val{v}, flags: st.flags}}, true }
			switch fn.Name() {
			case "NewSource", "NewPCG", "NewChaCha8", "Seed":
				seeded = true
				for _, x := range as {
					if _, ok := x.int1(); !ok {
						constant = false
					}
				}
			case "New":
			case "Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "UintN", "Uint32N", "Uint64N":
				k, ok := as[0].int1()
				if ok {
					k, ok = choose(k)
				}
				if ok {
					return one(intVal(k))
				}
				lost = true
			case "Perm":
				k, ok := as[0].int1()
				if !ok || k < 0 || k > 10 {
					lost = true
					break
				}
				es := make([]*Val, k)
				for a := range es {
					b, ok := choose(int64(a + 1))
					if !ok {
						lost = true
						b = 0
					}
					es[a] = es[b]
					es[b] = intVal(int64(a))
				}
				return one(view(&Val{nilb: mayNon}, in.newCont(st, &heapArr{elems: es}), 0, len(es)))
			case "Shuffle":
				k, ok := as[0].int1()
				c, isCall := i.(*ssa.Call)
				if !ok || !isCall || as[1].fn == nil || k > 10 {
					lost = true
					break
				}
				cur := Ret{flags: st.flags, mem: Mem{}, vals: []*Val{}}
				for a := k - 1; a > 0; a-- {
					b, ok := choose(a + 1)
					if !ok {
						lost = true
						break
					}
					s := cloneState(st)
					s.flags = cur.flags
					for f, v := range cur.mem {
						s.mem[f] = v
					}
					ys := in.inline(act, s, c, as[1].fn, []*Val{intVal(a), intVal(b)}, as[1].binds)
					if len(ys) != 1 {
						lost = true
						break
					}
					for f, v := range ys[0].mem {
						cur.mem[f] = v
					}
					cur.flags = ys[0].flags
				}
				return []Ret{cur}, true
			default:
				lost = true
			}
			return nil, false
		}
		o := run.build(t)
		rets := run.in.Run(f, []*Val{ptrTo(o)}, run.mem, run.st.flags, nil)
		r.count("runs", 1)
		if lost || run.in.over || run.in.undecided || len(rets) != 1 || nonNilErr(rets[0].vals, f.Signature) {
			r.count("tables not followed", 1)
			return
		}
		_, rows, ok := run.read(&rets[0], o)
		bad := "?"
		if ok {
			bad = sortedRows(t, rows, nil)
		}
		if bad == "?" {
			r.count("tables not followed", 1)
			return
		}
		r.oblig(bad == "")
		if bad != "" {
			r.add("rows|"+f.Name(), p.at(f.Pos()), "", "%s, where the source gives %v: %s", what, script, bad)
			return
		}
		var b []string
		for _, x := range rows {
			b = append(b, rowText(x))
		}
		k := strings.Join(b, " ")
		if prob[k] == nil {
			prob[k] = new(big.Rat)
		}
		prob[k].Add(prob[k], weight)
		// the next sequence of choices
		script, sizes = script[:at], sizes[:at]
		for len(script) > 0 && script[len(script)-1]+1 == sizes[len(script)-1] {
			script, sizes = script[:len(script)-1], sizes[:len(script)-1]
		}
		if len(script) == 0 {
			break
		}
		script[len(script)-1]++
	}
	all := int64(1)
	for k := int64(2); k <= int64(n); k++ {
		all *= k
	}
	bad := ""
	if int64(len(prob)) != all {
		bad = fmt.Sprintf("only %d of %d orders are possible", len(prob), all)
	}
	for k, x := range prob {
		if bad == "" && x.Cmp(big.NewRat(1, all)) != 0 {
			bad = fmt.Sprintf("the order %s has probability %s instead of 1/%d", k, x, all)
		}
	}
	r.oblig(bad == "")
	if bad != "" {
		r.add("orders|"+f.Name(), p.at(f.Pos()), "", "%s: %s", what, bad)
		return
	}
	if n < 2 {
		return
	}
	if f.Name() == "ShuffleRandom" {
		bad = ""
		if seeded && constant {
			bad = "the source starts from a constant: the order is the same each time"
		}
	} else if global && !seeded {
		bad = "the order depends on the shared source"
	} else if seeded && !constant && clock {
		bad = "the source does not start from a constant: the order is not the same each time"
	}
	r.oblig(bad == "")
	if bad != "" {
		r.add("seed|"+f.Name(), p.at(f.Pos()), "", "%s: %s", what, bad)
	}
}
