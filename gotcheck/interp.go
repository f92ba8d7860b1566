package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// World fixes the assumption under which a function is analysed.
type World struct {
	Name        string
	ColType     *Val       // every column's declared type string (nil: unknown)
	CellType    types.Type // Go type of every cell (nil: unknown)
	CellLab     Label
	TypeLab     Label
	StructField func(x *Val, st *types.Named, field string) *Val // field of a struct value not tracked field by field
	Field       func(o *Obj, st *types.Named, field string) *Val // default field content; nil result: built-in default
	GlobalVal   func(g *ssa.Global) *Val
	External    func(in *Interp, fn *ssa.Function, args []*Val, mem Mem) ([][]*Val, bool)
	Invoke      func(in *Interp, call *ssa.CallCommon, args []*Val) ([][]*Val, bool)
	// FlagStore / FlagCall set typestate flags
	FlagStore         func(addr *Val, st *ssa.Store) uint64
	FlagMap           func(m *Val, mu ssa.Instruction) uint64
	OnWrite           func(st *State, target *Val, i ssa.Instruction)      // every write through a reference; may set st.flags
	Override          func(fn *ssa.Function, args []*Val) ([][]*Val, bool) // replaces an in-package call
	NoInline          func(fn *ssa.Function) bool
	BinOp             func(in *Interp, st *State, i *ssa.BinOp, x, y *Val) *Val
	Elem              func(st *State, c, idx *Val) *Val   // element of a container
	Look              func(st *State, m, k *Val) [][]*Val // map lookup: (value, found) alternatives
	Dyn               func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *Val, args []*Val) ([]Ret, bool)
	OnCall            func(in *Interp, a *Activation, st *State, i ssa.CallInstruction, f *ssa.Function, args []*Val) ([]Ret, bool)
	MaxDepth          int
	MaxRec            int                                                             // calls of one function within itself (0: 2)
	OnRec             func(in *Interp, callee *ssa.Function, st *State)               // a call beyond MaxRec
	Watch             func(n *types.Named, field string) bool                         // fields whose values are kept apart by path
	NotName           func(s, tag string) bool                                        // the string is none of the names the symbol may be
	HeapTop           int32                                                           // containers up to this one existed before the call
	Fields            func(o *Obj) []*Val                                             // what Field can give for o
	OnPanic           func(in *Interp, st *State, instr ssa.Instruction, what string) // a certain panic
	Varargs           bool                                                            // arrays of arguments to functions outside the package too
	Order             bool                                                            // sorts and searches of short sequences follow the comparisons
	Heap              bool                                                            // track the elements of small containers
	Text              *textWorld                                                      // models of text and documents
	TypeName          string                                                          // every unknown string compared with the name of a column type is this name
	Cells             *Val                                                            // value of every cell if set (overrides CellType)
	RowLen            *Val
	InvariantInParams bool
	Recovers          map[*ssa.BasicBlock]bool // blocks in which the success of another step makes up for FailSite
	FailSite          ssa.CallInstruction      // in the root activation: split off the alternatives in which this call fails
}

// FlagFailed marks states after the failure of World.FailSite.
const FlagFailed uint64 = 1 << 31

type Mem map[memKey]*Val

type memKey struct {
	obj   *Obj
	field string
}

type State struct {
	env   []*Val
	mem   Mem
	flags uint64
	part  string // values of the counters of the enclosing loops, where known
	defs  []*ssa.Defer
}

// partKey: states of a block with different keys are kept apart.
type partKey struct {
	flags uint64
	part  string
}

type Ret struct {
	vals  []*Val
	flags uint64
	mem   Mem
}

type Activation struct {
	fn     *ssa.Function
	args   []*Val
	binds  []*Val
	key    string
	in     map[*ssa.BasicBlock]map[partKey]*State
	visits map[*ssa.BasicBlock]map[partKey]int
	rets   []Ret
	idx    map[ssa.Value]int
	depth  int
	done   bool
	mem    Mem
	flags  uint64
}

type Observer func(ev *Event)

// Event is one reached instruction with the abstract state before it.
type Event struct {
	In    *Interp
	Act   *Activation
	Instr ssa.Instruction
	St    *State
	Path  []ssa.CallInstruction // call path from the root
	Rets  []Ret                 // for returns
}

func (e *Event) Val(v ssa.Value) *Val { return e.In.eval(e.Act, e.St, v) }

type Interp struct {
	P         *Program
	W         *World
	memo      map[string]*Activation
	stack     []*Activation
	steps     int
	limit     int
	undecided bool // a branch on the text of a constant name was not decided
	over      bool
	obs       Observer
	done      map[string]bool // reported activations
	path      []ssa.CallInstruction
	objs      map[string]*Obj
	regIdx    map[*ssa.Function]map[ssa.Value]int
	report    bool
	renamed   map[string][]Ret
	heaps     []*heap
	heapIDs   map[string]uint64
	held      map[uint64]map[*Obj]bool // objects a heap refers to
	loops     map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock
}

// LConstName marks the constant names of a world.
const LConstName Label = 1 << 52

func NewInterp(p *Program, w *World) *Interp {
	return &Interp{P: p, W: w, memo: map[string]*Activation{}, limit: 3000000, objs: map[string]*Obj{}, regIdx: map[*ssa.Function]map[ssa.Value]int{}}
}

// Run analyses fn with the given arguments to a fixpoint, then reports every
// reached instruction to obs with the final abstract state.
func (in *Interp) Run(fn *ssa.Function, args []*Val, mem Mem, flags uint64, obs Observer) []Ret {
	if mem == nil {
		mem = Mem{}
	}
	a := in.activation(fn, args, nil, mem, flags)
	if obs != nil {
		in.obs = obs
		in.done = map[string]bool{}
		in.path = nil
		in.reportAct(a)
		in.obs = nil
	}
	return a.rets
}

func (in *Interp) obj(id string, fresh bool, t types.Type, site ssa.Value) *Obj {
	if o, ok := in.objs[id]; ok {
		return o
	}
	o := &Obj{id: id, fresh: fresh, typ: t, site: site}
	in.objs[id] = o
	return o
}

func (in *Interp) regs(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := in.regIdx[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	in.regIdx[fn] = m
	return m
}

func memReach(vals []*Val, mem Mem, h *heap, more func(o *Obj) []*Val) map[*Obj]bool {
	seen := map[*Obj]bool{}
	conts := map[int32]bool{}
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || d > 8 {
			return
		}
		if v.obj != nil && !seen[v.obj] {
			seen[v.obj] = true
			for k, x := range mem {
				if k.obj == v.obj {
					walk(x, d+1)
				}
			}
			if more != nil {
				for _, x := range more(v.obj) {
					walk(x, d+1)
				}
			}
		}
		if v.cont != 0 && h != nil && !conts[v.cont] {
			conts[v.cont] = true
			if a := h.arr[v.cont]; a != nil {
				for _, e := range a.elems {
					walk(e, d+1)
				}
			}
		}
		walk(v.inner, d+1)
		walk(v.elem, d+1)
		walk(v.paddr, d+1)
		for _, x := range v.binds {
			walk(x, d+1)
		}
		for _, x := range v.flds {
			walk(x, d+1)
		}
		for _, t := range v.tup {
			for _, x := range t {
				walk(x, d+1)
			}
		}
	}
	for _, v := range vals {
		walk(v, 0)
	}
	return seen
}

func memKeyStr(mem Mem) string {
	if len(mem) == 0 {
		return ""
	}
	var ks []string
	for k, v := range mem {
		ks = append(ks, k.obj.id+"."+k.field+"="+v.key())
	}
	sort.Strings(ks)
	return strings.Join(ks, "&")
}

func actKey(fn *ssa.Function, args, binds []*Val, mem Mem, flags uint64) string {
	var b strings.Builder
	b.WriteString(fn.String())
	fmt.Fprintf(&b, "|%d|", flags)
	for _, a := range args {
		b.WriteString(a.key())
		b.WriteByte('|')
	}
	b.WriteByte('~')
	for _, a := range binds {
		b.WriteString(a.key())
		b.WriteByte('|')
	}
	b.WriteString(memKeyStr(mem))
	return b.String()
}

// activation returns the (memoised) fixpoint of one call.
func (in *Interp) activation(fn *ssa.Function, args, binds []*Val, mem Mem, flags uint64) *Activation {
	key := actKey(fn, args, binds, mem, flags)
	if a, ok := in.memo[key]; ok {
		return a
	}
	a := &Activation{fn: fn, args: args, binds: binds, key: key, in: map[*ssa.BasicBlock]map[partKey]*State{}, visits: map[*ssa.BasicBlock]map[partKey]int{}, mem: mem, flags: flags}
	a.idx = in.regs(fn)
	in.memo[key] = a
	in.stack = append(in.stack, a)
	in.fixpoint(a)
	in.stack = in.stack[:len(in.stack)-1]
	a.done = true
	return a
}

func (in *Interp) entry(a *Activation) *State {
	st := &State{env: make([]*Val, len(a.idx)), mem: Mem{}, flags: a.flags}
	for k, v := range a.mem {
		st.mem[k] = v
	}
	for i, p := range a.fn.Params {
		v := Top
		if i < len(a.args) && a.args[i] != nil {
			v = a.args[i]
		}
		st.env[a.idx[p]] = v
	}
	for i, p := range a.fn.FreeVars {
		v := Top
		if i < len(a.binds) && a.binds[i] != nil {
			v = a.binds[i]
		}
		st.env[a.idx[p]] = v
	}
	return st
}

func cloneState(s *State) *State {
	n := &State{env: make([]*Val, len(s.env)), mem: make(Mem, len(s.mem)), flags: s.flags, defs: s.defs}
	copy(n.env, s.env)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type workItem struct {
	b *ssa.BasicBlock
	f partKey
}

func (in *Interp) fixpoint(a *Activation) {
	fn := a.fn
	if len(fn.Blocks) == 0 {
		return
	}
	st := in.entry(a)
	b0 := fn.Blocks[0]
	a.in[b0] = map[partKey]*State{{a.flags, ""}: st}
	work := []workItem{{b0, partKey{a.flags, ""}}}
	inWork := map[workItem]bool{work[0]: true}
	order := rpo(fn)
	retAlts := map[string]Ret{}
	for len(work) > 0 {
		// pick smallest rpo
		bi := 0
		for i := range work {
			if order[work[i].b] < order[work[bi].b] {
				bi = i
			}
		}
		it := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		delete(inWork, it)
		in.steps++
		if in.steps > in.limit {
			in.over = true
			return
		}
		s := a.in[it.b][it.f]
		outs := in.execBlock(a, it.b, cloneState(s), nil)
		for _, o := range outs {
			if o.ret != nil {
				sig := fmt.Sprintf("%d|%s", o.ret.flags, altSig(o.ret.vals))
				if old, ok := retAlts[sig]; ok {
					n := Ret{flags: old.flags, mem: joinMem(in, old.mem, o.ret.mem, false)}
					for i := range old.vals {
						n.vals = append(n.vals, join(old.vals[i], o.ret.vals[i]))
					}
					retAlts[sig] = n
				} else {
					retAlts[sig] = *o.ret
				}
				continue
			}
			m := a.in[o.b]
			if m == nil {
				m = map[partKey]*State{}
				a.in[o.b] = m
			}
			o.st.part = ""
			for _, d := range o.st.defs {
				o.st.part += fmt.Sprintf("d%d.%d;", d.Block().Index, d.Pos())
			}
			if in.W.Heap {
				o.st.part += in.loopPart(a, o.b, o.st)
				if m[partKey{o.st.flags, o.st.part}] == nil && len(m) >= maxParts {
					in.loseHeap(o.st)
					o.st.part = ""
				}
			}
			f := partKey{o.st.flags, o.st.part}
			old := m[f]
			if old == nil {
				m[f] = o.st
			} else {
				vm := a.visits[o.b]
				if vm == nil {
					vm = map[partKey]int{}
					a.visits[o.b] = vm
				}
				vm[f]++
				n, changed := in.joinState(old, o.st, vm[f] > 6, vm[f] > 40)
				if !changed {
					continue
				}
				m[f] = n
			}
			w := workItem{o.b, f}
			if !inWork[w] {
				inWork[w] = true
				work = append(work, w)
			}
		}
	}
	var ks []string
	for k := range retAlts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	a.rets = nil
	for _, k := range ks {
		a.rets = append(a.rets, retAlts[k])
	}
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i := range post {
		m[post[len(post)-1-i]] = i
	}
	return m
}

func (in *Interp) joinState(a, b *State, widen, hard bool) (*State, bool) {
	n := &State{env: make([]*Val, len(a.env)), flags: a.flags, defs: a.defs}
	changed := false
	for i := range a.env {
		v := joinW(a.env[i], b.env[i], widen, 0)
		if hard && a.env[i] != nil && !same(v, a.env[i]) {
			v = &Val{nilb: v.nilb, lab: v.lab}
		}
		n.env[i] = v
		if !changed && !same(v, a.env[i]) {
			changed = true
		}
	}
	n.mem = joinMem(in, a.mem, b.mem, widen)
	if !changed {
		if len(n.mem) != len(a.mem) {
			changed = true
		} else {
			for k, v := range n.mem {
				if !same(v, a.mem[k]) {
					changed = true
					break
				}
			}
		}
	}
	return n, changed
}

func joinMem(in *Interp, a, b Mem, widen bool) Mem {
	n := Mem{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			n[k] = joinW(v, w, widen, 0)
		} else {
			n[k] = joinW(v, in.defaultField(k.obj, k.field, b), widen, 0)
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			n[k] = joinW(in.defaultField(k.obj, k.field, a), w, widen, 0)
		}
	}
	return n
}

type blockOut struct {
	b   *ssa.BasicBlock
	st  *State
	ret *Ret
}

// execBlock runs the instructions of b from st.  obs, when set, is called
// before each instruction.
func (in *Interp) execBlock(a *Activation, b *ssa.BasicBlock, st *State, obs func(ssa.Instruction, *State)) []blockOut {
	states := []*State{st}
	var outs []blockOut
	for _, instr := range b.Instrs {
		if len(states) == 0 {
			return outs
		}
		switch instr := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if obs != nil {
				for _, s := range states {
					obs(instr, s)
				}
			}
			continue
		case *ssa.If:
			for _, s := range states {
				if obs != nil {
					obs(instr, s)
				}
				c := in.eval(a, s, instr.Cond)
				if c.lab&LConstName != 0 && !c.isFalse() && !c.isTrue() {
					in.undecided = true
				}
				ways := 0
				for i, succ := range b.Succs {
					sense := i == 0
					if sense && c.isFalse() || !sense && c.isTrue() {
						continue
					}
					n := cloneState(s)
					if !in.refine(a, n, instr.Cond, sense, 0) {
						continue
					}
					ways++
					if ways > 1 && in.W.Order {
						in.undecided = true
						if debugInterp {
							fmt.Println("UNDECIDED", a.fn, in.P.at(instr.Cond.Pos()), instr.Cond)
						}
					}
					in.phis(a, b, succ, n)
					outs = append(outs, blockOut{b: succ, st: n})
				}
			}
			return outs
		case *ssa.Jump:
			for _, s := range states {
				if obs != nil {
					obs(instr, s)
				}
				n := cloneState(s)
				in.phis(a, b, b.Succs[0], n)
				outs = append(outs, blockOut{b: b.Succs[0], st: n})
			}
			return outs
		case *ssa.Return:
			for _, s := range states {
				if obs != nil {
					obs(instr, s)
				}
				for _, vals := range in.returned(a, s, instr) {
					outs = append(outs, blockOut{ret: &Ret{flags: s.flags, mem: s.mem, vals: vals}})
				}
			}
			return outs
		case *ssa.Panic:
			for _, s := range states {
				if obs != nil {
					obs(instr, s)
				}
				if in.W.OnPanic != nil {
					in.W.OnPanic(in, s, instr, "an explicit panic")
				}
			}
			return outs
		default:
			var next []*State
			for _, s := range states {
				if obs != nil {
					obs(instr, s)
				}
				next = append(next, in.exec(a, s, instr)...)
			}
			states = mergeByFlags(in, next)
		}
	}
	return outs
}

func mergeByFlags(in *Interp, ss []*State) []*State {
	if len(ss) <= 1 {
		return ss
	}
	m := map[uint64]*State{}
	var order []uint64
	for _, s := range ss {
		if o, ok := m[s.flags]; ok {
			n, _ := in.joinState(o, s, false, false)
			m[s.flags] = n
		} else {
			m[s.flags] = s
			order = append(order, s.flags)
		}
	}
	out := make([]*State, 0, len(order))
	for _, f := range order {
		out = append(out, m[f])
	}
	return out
}

func (in *Interp) phis(a *Activation, from, to *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	if pi < 0 {
		return
	}
	type pv struct {
		i int
		v *Val
	}
	var vals []pv
	for _, instr := range to.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, pv{a.idx[phi], in.eval(a, st, phi.Edges[pi])})
	}
	for _, x := range vals {
		st.env[x.i] = x.v
	}
}

// eval gives the abstract value of an SSA operand.
func (in *Interp) eval(a *Activation, st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch t := v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				_ = t
				return in.P.zeroStruct(v.Type())
			case *types.Slice, *types.Map:
				return &Val{nilb: mayNil, ln: intVal(0)}
			}
			return NilVal
		}
		return constVal(v.Value)
	case *ssa.Global:
		return &Val{nilb: mayNon, glob: v, field: "&"}
	case *ssa.Function:
		return &Val{nilb: mayNon, fn: v}
	case *ssa.Builtin:
		return NonNil
	}
	i, ok := a.idx[v]
	if !ok {
		return Top
	}
	x := st.env[i]
	if x == nil {
		return Top
	}
	return x
}

func (in *Interp) set(a *Activation, st *State, v ssa.Value, x *Val) {
	if x == nil {
		x = Top
	}
	if x.lab&LRefMask != 0 && !in.P.hasRefs(v.Type()) {
		x = setLab(x, x.lab&^LRefMask)
	}
	st.env[a.idx[v]] = x
}

func named(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// zeroOf is the abstract zero value of a type.
func zeroOf(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return FalseVal
		case u.Info()&types.IsString != 0:
			return strVal("")
		case u.Info()&types.IsInteger != 0:
			return intVal(0)
		case u.Info()&types.IsFloat != 0:
			return constVal(constant.MakeFloat64(0))
		}
		return Top
	case *types.Slice, *types.Map:
		return &Val{nilb: mayNil, ln: intVal(0)}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return NilVal
	}
	return NonNil
}

// topOf is the least informative value of a static type.
func (in *Interp) topOf(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolTop
		}
		if u.Info()&types.IsUnsigned != 0 {
			return rangeVal(Bound{}, posInf)
		}
		return NonNil
	case *types.Struct, *types.Array:
		if n := named(t); n != nil {
			return &Val{nilb: mayNon, ty: n}
		}
		return NonNil
	case *types.Pointer:
		if n := named(u.Elem()); n != nil {
			return &Val{nilb: mayNil | mayNon, ty: n}
		}
		return Top
	case *types.Slice:
		v := &Val{nilb: mayNil | mayNon}
		if n := named(t); n != nil {
			switch n.Obj().Name() {
			case "tableRow":
				v.elem = in.cellVal()
				if in.W.RowLen != nil {
					v.ln = in.W.RowLen
				}
			}
		}
		return v
	}
	return Top
}

func (in *Interp) cellVal() *Val {
	if in.W.Cells != nil {
		return in.W.Cells
	}
	if in.W.CellType == nil {
		return &Val{nilb: mayNon, lab: in.W.CellLab}
	}
	inner := in.topOf(in.W.CellType)
	inner = withLab(inner, in.W.CellLab)
	if _, ok := in.W.CellType.Underlying().(*types.Pointer); ok { // cells are never nil
		c := *inner
		c.nilb = mayNon
		c.str = ""
		inner = &c
	}
	if _, ok := in.W.CellType.Underlying().(*types.Slice); ok {
		c := *inner
		c.nilb = mayNon
		c.str = ""
		inner = &c
	}
	return &Val{nilb: mayNon, dyn: in.W.CellType, inner: inner, lab: in.W.CellLab}
}

// defaultField is the content of a field that has not been stored to.
func (in *Interp) defaultField(o *Obj, field string, mem Mem) *Val {
	if strings.HasSuffix(field, "[*]") {
		if o.fresh {
			if at, ok := o.typ.Underlying().(*types.Array); ok {
				return zeroOf(at.Elem())
			}
			if at, ok := o.typ.Underlying().(*types.Slice); ok {
				return zeroOf(at.Elem())
			}
		}
		return Top
	}
	if i := strings.LastIndex(field, "."); i >= 0 {
		// field of an embedded struct value: resolve its type
		ft := fieldTypeByPath(o.typ, field)
		if ft == nil {
			return Top
		}
		if o.fresh {
			return zeroOf(ft)
		}
		return in.topOf(ft)
	}
	if field == "" {
		if o.fresh {
			return zeroOf(o.typ)
		}
		return in.topOf(o.typ)
	}
	n := named(o.typ)
	if o.fresh {
		if st, ok := o.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == field {
					return zeroOf(st.Field(i).Type())
				}
			}
		}
		return Top
	}
	return in.fieldDefault(o, n, field)
}

func (p *Program) zeroStruct(t types.Type) *Val {
	sty := p.pkgStruct(t)
	if sty == nil {
		return NonNil
	}
	v := &Val{nilb: mayNon, ty: named(t)}
	for i := 0; i < sty.NumFields(); i++ {
		v.flds = append(v.flds, zeroOf(sty.Field(i).Type()))
	}
	return v
}

func fieldTypeByPath(t types.Type, path string) types.Type {
	for _, f := range strings.Split(path, ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				ft = st.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		t = ft
	}
	return t
}

func (in *Interp) fieldDefault(o *Obj, n *types.Named, field string) *Val {
	if n == nil {
		return Top
	}
	if in.W.Field != nil {
		if v := in.W.Field(o, n, field); v != nil {
			return v
		}
	}
	var ft types.Type
	if st, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				ft = st.Field(i).Type()
			}
		}
	}
	if ft == nil {
		return Top
	}
	v := in.topOf(ft)
	if in.P.isColTypesField(n, field) {
		c := *v
		if in.W.ColType != nil {
			c.elem = withLab(in.W.ColType, in.W.TypeLab)
		} else {
			c.elem = withLab(NonNil, in.W.TypeLab)
		}
		c.str = ""
		v = &c
	}
	return v
}

// load reads through an address value.
func (in *Interp) load(st *State, p *Val, t types.Type) *Val {
	if p.glob != nil && p.field == "&" {
		return in.P.globalLoad(in, p.glob, t)
	}
	if p.obj != nil {
		if v := in.watched(st, p); v != nil {
			return v
		}
		if v, ok := st.mem[memKey{p.obj, p.field}]; ok {
			if v.flds != nil || in.P.pkgStruct(t) == nil {
				return v
			}
		}
		if sv := in.loadStruct(st, p, t); sv != nil {
			return sv
		}
		v := in.defaultField(p.obj, p.field, st.mem)
		if sl, ok := t.Underlying().(*types.Slice); ok && !p.obj.fresh && v.obj == nil && !v.isNil() {
			c := *v
			c.str = ""
			c.obj = in.obj(p.obj.id+"."+p.field+"[]", false, t, nil)
			if c.elem == nil {
				c.elem = in.topOf(sl.Elem())
			}
			v = &c
		}
		return v
	}
	if e := in.heapLoad(st, p, t); e != nil {
		return e
	}
	if p.paddr != nil && in.W.Elem != nil {
		if e := in.W.Elem(st, p.paddr, p.pidx); e != nil {
			e = withLab(e, p.lab)
			if p.field == "" {
				return e
			}
			if p.ty != nil && !strings.Contains(p.field, ".") {
				return withLab(in.fieldOf(st, e, p.ty, p.field, t), e.lab)
			}
		}
	}
	if p.paddr != nil { // element of a slice or array
		if p.field == "" {
			if e := in.elemOf(st, p.paddr, t); e != nil {
				return e
			}
		} else if p.ty != nil && !strings.Contains(p.field, ".") {
			if e := in.elemOf(st, p.paddr, p.ty); e != nil {
				return withLab(in.fieldOf(st, e, p.ty, p.field, t), e.lab)
			}
		}
	}
	if p.field != "" && p.ty != nil { // field of an anonymous struct
		return in.fieldDefault(nil, p.ty, p.field)
	}
	return in.topOf(t)
}

func (in *Interp) elemOf(st *State, c *Val, t types.Type) *Val {
	if c.obj != nil {
		k := memKey{c.obj, joinPath(c.field, "[*]")}
		if v, ok := st.mem[k]; ok {
			return v
		}
		if c.obj.fresh {
			return zeroOf(t)
		}
	}
	if c.elem != nil {
		return c.elem
	}
	return nil
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

// pkgStruct: struct types of the analysed package, whose fields are tracked.
func (p *Program) pkgStruct(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return nil
	}
	if n := named(t); n != nil && n.Obj().Pkg() != p.Types && !(p.genPkgs != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "generated") {
		return nil
	}
	return st
}

// loadStruct reads a whole struct, field by field.
func (in *Interp) loadStruct(st *State, p *Val, t types.Type) *Val {
	sty := in.P.pkgStruct(t)
	if sty == nil || strings.Count(p.field, ".") > 2 {
		return nil
	}
	v := &Val{nilb: mayNon, ty: named(t)}
	for i := 0; i < sty.NumFields(); i++ {
		f := sty.Field(i)
		v.flds = append(v.flds, in.load(st, &Val{nilb: mayNon, obj: p.obj, field: joinPath(p.field, f.Name())}, f.Type()))
	}
	return v
}

// fieldOf selects a field of a struct value.
func (in *Interp) fieldOf(st *State, x *Val, t types.Type, f string, ft types.Type) *Val {
	if sty, ok := t.Underlying().(*types.Struct); ok && len(x.flds) == sty.NumFields() {
		for i := 0; i < sty.NumFields(); i++ {
			if sty.Field(i).Name() == f {
				return x.flds[i]
			}
		}
	}
	if n := named(t); n != nil {
		return in.fieldDefaultOf(x, n, f)
	}
	return in.topOf(ft)
}

func (in *Interp) fieldDefaultOf(x *Val, n *types.Named, f string) *Val {
	if in.W.StructField != nil {
		if v := in.W.StructField(x, n, f); v != nil {
			return v
		}
	}
	return in.fieldDefault(nil, n, f)
}

// storeStruct writes a whole struct, field by field.
func (in *Interp) storeStruct(st *State, p, v *Val, t types.Type, depth int) {
	sty := in.P.pkgStruct(t)
	if sty == nil || p.obj == nil || depth > 2 {
		in.store(st, p, v)
		return
	}
	delete(st.mem, memKey{p.obj, p.field})
	for i := 0; i < sty.NumFields(); i++ {
		f := sty.Field(i)
		q := &Val{nilb: mayNon, obj: p.obj, field: joinPath(p.field, f.Name())}
		x := withLab(in.fieldOf(st, v, t, f.Name(), f.Type()), v.lab)
		if x.lab&LRefMask != 0 && !in.P.hasRefs(f.Type()) {
			x = setLab(x, x.lab&^LRefMask)
		}
		in.storeStruct(st, q, x, f.Type(), depth+1)
	}
}

func (in *Interp) store(st *State, p, v *Val) {
	if p.obj == nil && p.paddr != nil && p.field != "" {
		// one field of the elements of a slice
		et := p.ty
		if et == nil {
			return
		}
		sty, ok := et.Underlying().(*types.Struct)
		if !ok {
			return
		}
		e := in.elemOf(st, p.paddr, et)
		if e == nil {
			e = in.topOf(et)
		}
		n := *e
		n.str = ""
		n.flds = nil
		for i := 0; i < sty.NumFields(); i++ {
			x := in.fieldOf(st, e, et, sty.Field(i).Name(), sty.Field(i).Type())
			if sty.Field(i).Name() == p.field {
				x = join(x, v)
			}
			n.flds = append(n.flds, x)
		}
		q := *p
		q.field, q.str = "", ""
		p, v = &q, &n
	}
	if p.obj != nil {
		k := memKey{p.obj, p.field}
		st.mem[k] = v
		return
	}
	if p.paddr != nil && p.paddr.obj != nil {
		k := memKey{p.paddr.obj, joinPath(p.paddr.field, "[*]")}
		if o, ok := st.mem[k]; ok {
			st.mem[k] = join(o, v)
		} else if p.paddr.obj.fresh {
			// element-wise initialised array or slice: elements not yet stored
			// are zero, but a freshly made backing array is normally filled
			// completely before it is read
			st.mem[k] = v
		} else if p.paddr.elem != nil {
			st.mem[k] = join(p.paddr.elem, v)
		} else {
			st.mem[k] = join(Top, v)
		}
		return
	}
	if p.paddr != nil && p.paddr.elem != nil {
		n := join(p.paddr.elem, v)
		if same(n, p.paddr.elem) {
			return
		}
		c := *p.paddr
		c.elem = n
		c.str = ""
		old := p.paddr.key()
		for k, x := range st.mem {
			if x.elem != nil && x.key() == old {
				st.mem[k] = &c
			}
		}
		for k, x := range st.env {
			if x != nil && x.elem != nil && x.key() == old {
				st.env[k] = &c
			}
		}
	}
}

// deepLab collects the provenance labels reachable from v.
func (in *Interp) deepLab(st *State, v *Val) Label {
	seen := map[*Obj]bool{}
	var l Label
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || d > 6 {
			return
		}
		l |= v.lab
		walk(v.inner, d+1)
		walk(v.elem, d+1)
		walk(v.paddr, d+1)
		for _, x := range v.binds {
			walk(x, d+1)
		}
		for _, x := range v.flds {
			walk(x, d+1)
		}
		for _, t := range v.tup {
			for _, x := range t {
				walk(x, d+1)
			}
		}
		if v.obj != nil && !seen[v.obj] {
			seen[v.obj] = true
			for k, x := range st.mem {
				if k.obj == v.obj {
					walk(x, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return l
}

func one(s *State) []*State { return []*State{s} }

func (in *Interp) exec(a *Activation, st *State, instr ssa.Instruction) []*State {
	if in.crashes(a, st, instr) {
		return nil
	}
	switch i := instr.(type) {
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := in.obj(in.siteID(a.fn, i.Name()), true, et, i)
		// a fresh activation of the allocation: forget the previous contents
		in.unwatch(st, o)
		for k := range st.mem {
			if k.obj == o {
				delete(st.mem, k)
			}
		}
		v := &Val{nilb: mayNon, obj: o}
		if n := named(et); n != nil {
			v.ty = n
		}
		if at, ok := et.Underlying().(*types.Array); ok && in.W.Heap && in.trackedAlloc(i) {
			v = in.freshSlice(st, v, at.Len(), at.Elem())
		}
		in.set(a, st, i, v)
	case *ssa.FieldAddr:
		x := in.eval(a, st, i.X)
		n := named(i.X.Type())
		sty := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := sty.Field(i.Field).Name()
		if x.obj != nil && !(strings.HasSuffix(x.field, "[*]")) {
			in.set(a, st, i, &Val{nilb: mayNon, obj: x.obj, field: joinPath(x.field, f), lab: x.lab})
		} else {
			v := &Val{nilb: mayNon, ty: n, field: f, lab: x.lab}
			if x.paddr != nil && x.field == "" {
				v.paddr, v.pidx = x.paddr, x.pidx
			}
			in.set(a, st, i, v)
		}
	case *ssa.Field:
		x := in.eval(a, st, i.X)
		sty := i.X.Type().Underlying().(*types.Struct)
		in.set(a, st, i, withLab(in.fieldOf(st, x, i.X.Type(), sty.Field(i.Field).Name(), i.Type()), x.lab))
	case *ssa.IndexAddr:
		x := in.eval(a, st, i.X)
		idx := in.eval(a, st, i.Index)
		in.set(a, st, i, &Val{nilb: mayNon, paddr: x, pidx: idx, lab: x.lab, ty: named(i.Type())})
	case *ssa.Index:
		x := in.eval(a, st, i.X)
		if v := strIndex(x, in.eval(a, st, i.Index)); v != nil {
			in.set(a, st, i, v)
			return one(st)
		}
		if in.W.Text != nil && isString(i.X.Type()) {
			if v := in.W.Text.index(in, st, x, in.eval(a, st, i.Index)); v != nil {
				in.set(a, st, i, v)
				return one(st)
			}
		}
		e := in.elemOf(st, x, i.Type())
		if e == nil {
			e = in.topOf(i.Type())
		}
		in.set(a, st, i, withLab(e, x.lab))
	case *ssa.UnOp:
		in.unop(a, st, i)
	case *ssa.BinOp:
		x, y := in.eval(a, st, i.X), in.eval(a, st, i.Y)
		in.set(a, st, i, in.binop(st, i, x, y))
	case *ssa.Convert:
		x := in.eval(a, st, i.X)
		if in.W.Text != nil {
			if v := in.W.Text.conv(in, st, i.X.Type(), i.Type(), x); v != nil {
				in.set(a, st, i, v)
				return one(st)
			}
		}
		in.set(a, st, i, in.convert(i.X.Type(), i.Type(), x))
	case *ssa.MultiConvert:
		in.set(a, st, i, withLab(in.topOf(i.Type()), in.eval(a, st, i.X).lab))
	case *ssa.ChangeType:
		in.set(a, st, i, in.eval(a, st, i.X))
	case *ssa.ChangeInterface:
		in.set(a, st, i, in.eval(a, st, i.X))
	case *ssa.MakeInterface:
		x := in.eval(a, st, i.X)
		in.set(a, st, i, &Val{nilb: mayNon, dyn: i.X.Type(), inner: x, lab: x.lab})
	case *ssa.TypeAssert:
		return in.typeAssert(a, st, i)
	case *ssa.Extract:
		t := in.eval(a, st, i.Tuple)
		if t.tup != nil {
			var v *Val
			for _, alt := range t.tup {
				if i.Index < len(alt) {
					v = join(v, alt[i.Index])
				}
			}
			if v == nil {
				v = in.topOf(i.Type())
			}
			in.set(a, st, i, v)
		} else {
			in.set(a, st, i, withLab(in.topOf(i.Type()), t.lab))
		}
	case *ssa.Slice:
		in.slice(a, st, i)
	case *ssa.MakeSlice:
		o := in.obj(in.siteID(a.fn, i.Name()), true, i.Type(), i)
		for k := range st.mem {
			if k.obj == o {
				delete(st.mem, k)
			}
		}
		ln := in.eval(a, st, i.Len)
		v := &Val{nilb: mayNon, obj: o}
		if ln.num {
			v.ln = ln
		}
		if n, ok := ln.int1(); ok {
			v = in.freshSlice(st, v, n, i.Type().Underlying().(*types.Slice).Elem())
		}
		in.set(a, st, i, v)
	case *ssa.MakeMap:
		o := in.obj(in.siteID(a.fn, i.Name()), true, i.Type(), i)
		for k := range st.mem {
			if k.obj == o {
				delete(st.mem, k)
			}
		}
		v := &Val{nilb: mayNon, obj: o}
		if in.W.Heap {
			if id := in.newCont(st, &heapArr{isMap: true}); id != 0 {
				v.cont, v.lab = id, LTracked
			}
		}
		in.set(a, st, i, v)
	case *ssa.MakeChan:
		in.set(a, st, i, NonNil)
	case *ssa.MakeClosure:
		v := &Val{nilb: mayNon, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.binds = append(v.binds, in.eval(a, st, b))
		}
		in.set(a, st, i, v)
	case *ssa.Lookup:
		in.lookup(a, st, i)
	case *ssa.MapUpdate:
		m := in.eval(a, st, i.Map)
		v := in.eval(a, st, i.Value)
		if in.W.FlagMap != nil {
			st.flags |= in.W.FlagMap(m, i)
		}
		if in.W.OnWrite != nil {
			in.W.OnWrite(st, m, i)
		}
		in.heapMapUpdate(st, m, in.eval(a, st, i.Key), v)
		if m.obj != nil {
			k := memKey{m.obj, joinPath(m.field, "[*]")}
			if o, ok := st.mem[k]; ok {
				st.mem[k] = join(o, v)
			} else {
				st.mem[k] = v
			}
			kk := memKey{m.obj, joinPath(m.field, "[key]")}
			st.mem[kk] = join(st.mem[kk], in.eval(a, st, i.Key))
		}
	case *ssa.Range:
		x := in.eval(a, st, i.X)
		it := &Val{nilb: mayNon}
		if _, ok := x.str1(); ok && isString(i.X.Type()) {
			c := intVal(0).dup() // the position in a known string
			it = &c
		} else if in.W.Text != nil && in.knownMap(st, x) != nil {
			c := intVal(0).dup() // the position in a known map
			it = &c
		} else if _, _, ok := in.W.Text.nextRune(x, 0); ok && isString(i.X.Type()) {
			c := intVal(0).dup()
			it = &c
		}
		it.paddr, it.lab = x, x.lab
		in.set(a, st, i, it)
	case *ssa.Next:
		it := in.eval(a, st, i.Iter)
		if rng, ok := i.Iter.(*ssa.Range); ok && i.IsString && it.paddr != nil {
			if pos, ok := it.int1(); ok {
				if c, n, ok := in.W.Text.nextRune(it.paddr, pos); ok {
					if c == nil {
						in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{FalseVal, Top, Top}}})
						break
					}
					in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{TrueVal, withLab(intVal(pos), it.lab), withLab(c, it.lab)}}})
					next := intVal(pos + int64(n)).dup()
					next.paddr, next.lab, next.nilb = it.paddr, it.lab, it.nilb
					in.set(a, st, rng, &next)
					break
				}
			}
			s, ok := it.paddr.str1()
			if pos, ok2 := it.int1(); ok && ok2 && pos >= 0 && pos <= int64(len(s)) {
				if pos == int64(len(s)) {
					in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{FalseVal, Top, Top}}})
					break
				}
				c, n := utf8.DecodeRuneInString(s[pos:])
				in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{TrueVal, withLab(intVal(pos), it.lab), withLab(intVal(int64(c)), it.lab)}}})
				next := intVal(pos + int64(n)).dup()
				next.paddr, next.lab, next.nilb = it.paddr, it.lab, it.nilb
				in.set(a, st, rng, &next)
				break
			}
		}
		if rng, ok := i.Iter.(*ssa.Range); ok && !i.IsString && it.paddr != nil && in.W.Text != nil {
			if m := in.knownMap(st, it.paddr); m != nil {
				if pos, ok := it.int1(); ok && pos <= int64(len(m.elems)) {
					if pos == int64(len(m.elems)) {
						in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{FalseVal, Top, Top}}})
						break
					}
					j := pos
					if in.W.Text.rev {
						j = int64(len(m.elems)) - 1 - pos
					}
					in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{TrueVal, keyVal(m.keys[j]), m.elems[j]}}})
					next := intVal(pos + 1).dup()
					next.paddr, next.lab, next.nilb = it.paddr, it.lab, it.nilb
					in.set(a, st, rng, &next)
					break
				}
			}
		}
		tt := i.Type().(*types.Tuple)
		k, v := Top, Top
		if tt.At(1).Type() != nil && !isInvalid(tt.At(1).Type()) {
			k = withLab(in.topOf(tt.At(1).Type()), it.lab)
		}
		if tt.At(2).Type() != nil && !isInvalid(tt.At(2).Type()) {
			v = withLab(in.topOf(tt.At(2).Type()), it.lab)
		}
		if !i.IsString && it.paddr != nil {
			if it.paddr.obj != nil {
				if e := in.elemOf(st, it.paddr, types.NewInterfaceType(nil, nil)); e != nil && !isInvalid(tt.At(2).Type()) {
					if st.mem[memKey{it.paddr.obj, joinPath(it.paddr.field, "[*]")}] != nil {
						v = e
					}
				}
				if kv := st.mem[memKey{it.paddr.obj, joinPath(it.paddr.field, "[key]")}]; kv != nil {
					k = kv
				}
			} else if it.paddr.elem != nil {
				v = it.paddr.elem
			}
			v = withLab(v, it.lab)
		}
		if i.IsString {
			k = rangeVal(Bound{}, posInf)
		}
		in.set(a, st, i, &Val{nilb: mayNon, tup: [][]*Val{{FalseVal, Top, Top}, {TrueVal, k, v}}})
	case *ssa.Store:
		p := in.eval(a, st, i.Addr)
		v := in.eval(a, st, i.Val)
		if in.W.FlagStore != nil {
			st.flags |= in.W.FlagStore(p, i)
		}
		if in.W.OnWrite != nil {
			in.W.OnWrite(st, p, i)
		}
		in.heapStore(st, p, v)
		if in.P.pkgStruct(i.Val.Type()) != nil && p.obj != nil {
			in.unwatch(st, p.obj)
		}
		in.watch(st, p, v)
		if sty := in.P.pkgStruct(i.Val.Type()); sty != nil {
			in.storeStruct(st, p, v, i.Val.Type(), 0)
		} else {
			in.store(st, p, v)
		}
	case *ssa.Call:
		return in.call(a, st, i)
	case *ssa.Go:
		in.callCommonNoResult(a, st, i)
	case *ssa.Defer:
		for _, d := range st.defs {
			if d == i {
				return one(st)
			}
		}
		st.defs = append(append([]*ssa.Defer{}, st.defs...), i)
	case *ssa.RunDefers:
		states := one(st)
		for k := len(st.defs) - 1; k >= 0; k-- {
			var next []*State
			for _, s := range states {
				next = append(next, in.runDeferred(a, s, st.defs[k])...)
			}
			states = next
		}
		return states
	case *ssa.Send, *ssa.DebugRef:
	case *ssa.Select:
		in.set(a, st, i, Top)
	case *ssa.SliceToArrayPointer:
		in.set(a, st, i, Top)
	default:
		if v, ok := instr.(ssa.Value); ok {
			in.set(a, st, v, Top)
		}
	}
	return one(st)
}

// knownMap is the content of a map whose keys are all known.
func (in *Interp) knownMap(st *State, x *Val) *heapArr {
	if x.glob != nil && in.W.Text != nil && in.W.Text.tm != nil {
		if tab := in.P.globalMap(x.glob); tab != nil && len(tab) <= in.maxEl() {
			m := &heapArr{isMap: true}
			for k := range tab {
				m.keys = append(m.keys, "C"+k)
			}
			sort.Strings(m.keys)
			for _, k := range m.keys {
				m.elems = append(m.elems, tab[k[1:]])
			}
			return m
		}
	}
	if a := in.cont(st, x); a != nil && a.isMap && !a.fuzzy {
		return a
	}
	return nil
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (in *Interp) unop(a *Activation, st *State, i *ssa.UnOp) {
	x := in.eval(a, st, i.X)
	switch i.Op {
	case token.MUL:
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			if v := in.P.globalField(fa); v != nil {
				in.set(a, st, i, v)
				return
			}
		}
		in.set(a, st, i, withLab(in.load(st, x, i.Type()), x.lab))
	case token.NOT:
		switch {
		case x.isTrue():
			in.set(a, st, i, withLab(FalseVal, x.lab))
		case x.isFalse():
			in.set(a, st, i, withLab(TrueVal, x.lab))
		default:
			in.set(a, st, i, withLab(BoolTop, x.lab))
		}
	case token.SUB:
		if k, ok := x.int1(); ok {
			in.set(a, st, i, withLab(intVal(-k), x.lab))
		} else if len(x.cs) == 1 {
			in.set(a, st, i, withLab(constVal(constant.UnaryOp(token.SUB, x.cs[0], 0)), x.lab))
		} else if x.num && x.lo.sym == "" && x.hi.sym == "" {
			neg := func(b Bound) Bound { b.inf, b.off = -b.inf, -b.off; return b }
			in.set(a, st, i, withLab(rangeVal(neg(x.hi), neg(x.lo)), x.lab))
		} else {
			in.set(a, st, i, withLab(NonNil, x.lab))
		}
	case token.ARROW:
		in.set(a, st, i, Top)
	default:
		in.set(a, st, i, withLab(in.topOf(i.Type()), x.lab))
	}
}

func (in *Interp) binop(st *State, i *ssa.BinOp, x, y *Val) *Val {
	lab := x.lab | y.lab
	if in.W.BinOp != nil {
		if v := in.W.BinOp(in, st, i, x, y); v != nil {
			return v
		}
	}
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.W.TypeName != "" {
			x, y = in.asTypeName(x, y), in.asTypeName(y, x)
		}
		switch compare(i.Op, x, y) {
		case 1:
			return withLab(TrueVal, lab)
		case -1:
			return withLab(FalseVal, lab)
		}
		return withLab(BoolTop, lab)
	}
	isInt := false
	if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		isInt = true
	}
	if isInt && x.num && y.num {
		if v := arith(i.Op, x, y); v != nil {
			return withLab(v, lab)
		}
		return withLab(NonNil, lab)
	}
	if i.Op == token.ADD && len(x.cs) > 0 && len(y.cs) > 0 && x.cs[0].Kind() == constant.String && y.cs[0].Kind() == constant.String && len(x.cs)*len(y.cs) <= 24 {
		var v *Val
		for _, p := range x.cs {
			for _, q := range y.cs {
				v = join(v, strVal(constant.StringVal(p)+constant.StringVal(q)))
			}
		}
		return withLab(v, lab)
	}
	return withLab(in.topOf(i.Type()), lab)
}

// asTypeName: an unknown string compared with the name of a column type.
func (in *Interp) asTypeName(x, y *Val) *Val {
	if s, ok := y.str1(); ok && len(x.cs) == 0 && x.nilb == mayNon && in.P.isTypeName(s) {
		return withLab(strVal(in.W.TypeName), x.lab)
	}
	return x
}

// arith is interval arithmetic on symbolic bounds (nil: nothing known).
func arith(op token.Token, x, y *Val) *Val {
	switch op {
	case token.ADD:
		if k, ok := y.int1(); ok {
			return rangeVal(addB(x.lo, k), addB(x.hi, k))
		}
		if k, ok := x.int1(); ok {
			return rangeVal(addB(y.lo, k), addB(y.hi, k))
		}
		lo, hi := negInf, posInf
		if x.lo.inf == 0 && y.lo.inf == 0 {
			if x.lo.sym == "" {
				lo = addB(y.lo, x.lo.off)
			} else {
				lo = addB(x.lo, lowConst(y.lo))
			}
		}
		if x.hi.inf == 0 && y.hi.inf == 0 && (x.hi.sym == "" || y.hi.sym == "") {
			if x.hi.sym == "" {
				hi = addB(y.hi, x.hi.off)
			} else {
				hi = addB(x.hi, y.hi.off)
			}
		}
		if lo.inf == 0 || hi.inf == 0 {
			return rangeVal(lo, hi)
		}
	case token.SUB:
		if k, ok := y.int1(); ok {
			return rangeVal(addB(x.lo, -k), addB(x.hi, -k))
		}
		lo, hi := negInf, posInf
		diff := func(p, q Bound) (int64, bool) {
			if p.inf == 0 && q.inf == 0 && p.sym == q.sym {
				return p.off - q.off, true
			}
			return 0, false
		}
		if d, ok := diff(x.lo, y.hi); ok {
			lo = Bound{off: d}
		}
		if d, ok := diff(x.hi, y.lo); ok {
			hi = Bound{off: d}
		} else if x.hi.inf == 0 && x.hi.sym != "" && y.lo.inf == 0 && y.lo.sym == "" {
			hi = addB(x.hi, -y.lo.off)
		}
		if lo.inf == 0 || hi.inf == 0 {
			return rangeVal(lo, hi)
		}
	case token.MUL:
		if p, ok := x.int1(); ok {
			if q, ok := y.int1(); ok {
				return intVal(p * q)
			}
		}
	case token.QUO, token.SHR:
		if p, ok := x.int1(); ok {
			if q, ok := y.int1(); ok && q > 0 && op == token.QUO {
				return intVal(p / q)
			} else if ok && q >= 0 && q < 63 && op == token.SHR {
				return intVal(p >> uint(q))
			}
		}
		if x.num && leq(Bound{}, x.lo) {
			return rangeVal(Bound{}, x.hi)
		}
	case token.REM:
		if p, ok := x.int1(); ok && p >= 0 {
			if q, ok := y.int1(); ok && q > 0 {
				return intVal(p % q)
			}
		}
		if q, ok := y.int1(); ok && q > 0 && leq(Bound{}, x.lo) {
			return rangeVal(Bound{}, Bound{off: q - 1})
		}
	}
	return nil
}

// widened is the identity of an integer after conversion to another kind:
// kept, marked as widened, when every value is preserved.
func widened(f, t *types.Basic, tag string) string {
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	if fu == tu && sizeOf(t) >= sizeOf(f) || fu && !tu && sizeOf(t) > sizeOf(f) {
		return "w:" + tag
	}
	return ""
}

func (in *Interp) convert(from, to types.Type, x *Val) *Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if in.W.Order && x.tag == "NaN" && tb.Info()&types.IsFloat != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if x.num {
				if fb.Kind() != tb.Kind() && x.tag != "" {
					return withTag(x, widened(fb, tb, x.tag))
				}
				return x
			}
			if fb.Kind() == tb.Kind() {
				return x
			}
			r := withLab(in.topOf(to), x.lab)
			if x.tag != "" {
				r = withTag(r, widened(fb, tb, x.tag))
			}
			return r
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			if k, ok := x.int1(); ok {
				return withLab(&Val{nilb: mayNon, cs: []constant.Value{constant.ToFloat(constant.MakeInt64(k))}}, x.lab)
			}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if k, ok := x.int1(); ok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return withLab(strVal(string(rune(k))), x.lab)
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			if fb.Kind() != tb.Kind() && x.tag != "" {
				if sizeOf(tb) > sizeOf(fb) {
					return withTag(x, "w:"+x.tag)
				}
				return withTag(x, "")
			}
			return x
		}
	}
	r := in.topOf(to)
	c := *r
	c.nilb = mayNon
	if _, ok := to.Underlying().(*types.Pointer); ok {
		c.nilb = x.nilb
	}
	c.lab |= x.lab
	c.str = ""
	return &c
}

func (in *Interp) slice(a *Activation, st *State, i *ssa.Slice) {
	x := in.eval(a, st, i.X)
	v := &Val{nilb: x.nilb, lab: x.lab, obj: x.obj, field: x.field, elem: x.elem}
	if i.X.Type().Underlying() != nil {
		if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			v.nilb = mayNon
		}
	}
	// length
	var total *Val
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			total = intVal(at.Len())
		}
	} else {
		total = x.ln
	}
	lo := intVal(0)
	if i.Low != nil {
		lo = in.eval(a, st, i.Low)
	}
	hi := total
	if i.High != nil {
		hi = in.eval(a, st, i.High)
	}
	if hi != nil && hi.num && lo.num {
		d := arith(token.SUB, hi, lo)
		if d != nil {
			v.ln = d
		}
	}
	if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		v.nilb = mayNon
	}
	var high *Val
	if i.High != nil {
		high = hi
	}
	if s := strSlice(x, lo, high); s != nil {
		in.set(a, st, i, s)
		return
	}
	if s := in.W.Text.tslice(x, lo, high); s != nil && isString(i.X.Type()) {
		in.set(a, st, i, s)
		return
	}
	in.set(a, st, i, in.heapSlice(st, v, x, lo, high))
}

func (in *Interp) lookup(a *Activation, st *State, i *ssa.Lookup) {
	x := in.eval(a, st, i.X)
	k := in.eval(a, st, i.Index)
	if v := strIndex(x, k); v != nil {
		in.set(a, st, i, v)
		return
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if in.W.Text != nil {
			if v := in.W.Text.index(in, st, x, k); v != nil {
				in.set(a, st, i, v)
				return
			}
		}
		in.set(a, st, i, withLab(rangeVal(Bound{}, Bound{off: 255}), x.lab))
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	if in.W.Heap {
		if alts := in.heapLookup(st, x, k, mt.Elem()); alts != nil {
			in.setLookup(a, st, i, alts)
			return
		}
	}
	if in.W.Look != nil {
		if alts := in.W.Look(st, x, k); alts != nil {
			in.setLookup(a, st, i, alts)
			return
		}
	}
	zero := zeroOf(mt.Elem())
	lab := x.lab | k.lab&^LRefMask
	if x.glob != nil {
		if tab := in.P.globalMap(x.glob); tab != nil {
			if len(k.cs) == 0 && !k.num && in.W.TypeName != "" {
				if v, ok := tab[constant.MakeString(in.W.TypeName).ExactString()]; ok {
					in.setLookup(a, st, i, [][]*Val{{withLab(v, lab), TrueVal}, {zero, FalseVal}})
					return
				}
			}
			if tw := in.W.Text; tw != nil && tw.tm != nil && k.tag != "" && len(k.cs) == 0 {
				if t, ok := textOf(k); ok {
					var alts [][]*Val
					none := true
					for c, v := range tab {
						s, err := strconv.Unquote(c)
						if err == nil && in.W.NotName != nil && in.W.NotName(s, k.tag) {
							continue
						}
						switch tw.eqText(t, s) {
						case 1:
							alts, none = [][]*Val{{withLab(v, lab), TrueVal}}, false
						case 0:
							alts = append(alts, []*Val{withLab(v, lab), TrueVal})
						}
						if !none {
							break
						}
					}
					if none {
						alts = append(alts, []*Val{zero, FalseVal})
					}
					in.setLookup(a, st, i, alts)
					return
				}
			}
			if len(k.cs) > 0 || k.num {
				var keys []constant.Value
				keys = append(keys, k.cs...)
				if n, ok := k.int1(); ok {
					keys = append(keys, constant.MakeInt64(n))
				}
				if len(keys) > 0 {
					var alts [][]*Val
					for _, c := range keys {
						if v, ok := tab[c.ExactString()]; ok {
							alts = append(alts, []*Val{withLab(v, lab), TrueVal})
						} else {
							alts = append(alts, []*Val{zero, FalseVal})
						}
					}
					in.setLookup(a, st, i, alts)
					return
				}
			}
			var alts [][]*Val
			for _, v := range tab {
				alts = append(alts, []*Val{withLab(v, lab), TrueVal})
			}
			alts = append(alts, []*Val{zero, FalseVal})
			in.setLookup(a, st, i, alts)
			return
		}
	}
	if x.obj != nil {
		if e, ok := st.mem[memKey{x.obj, joinPath(x.field, "[*]")}]; ok {
			in.setLookup(a, st, i, [][]*Val{{withLab(e, lab), TrueVal}, {zero, FalseVal}})
			return
		}
		if x.obj.fresh {
			in.setLookup(a, st, i, [][]*Val{{zero, FalseVal}})
			return
		}
	}
	e := x.elem
	if e == nil {
		e = in.topOf(mt.Elem())
	}
	in.setLookup(a, st, i, [][]*Val{{withLab(e, lab), TrueVal}, {zero, FalseVal}})
}

func (in *Interp) setLookup(a *Activation, st *State, i *ssa.Lookup, alts [][]*Val) {
	alts = joinAlts(alts, nil, false, 0)
	if i.CommaOk {
		in.set(a, st, i, &Val{nilb: mayNon, tup: alts})
		return
	}
	var v *Val
	for _, t := range alts {
		v = join(v, t[0])
	}
	in.set(a, st, i, v)
}

// assertResult: +1 certainly holds, -1 certainly fails, 0 unknown.
func assertHolds(x *Val, t types.Type) int {
	if x.isNil() {
		return -1
	}
	if x.dyn == nil {
		return 0
	}
	ok := false
	if it, isI := t.Underlying().(*types.Interface); isI {
		ok = types.Implements(x.dyn, it)
	} else {
		ok = types.Identical(x.dyn, t)
	}
	if !ok {
		return -1
	}
	if x.isNonNil() {
		return 1
	}
	return 0
}

func (in *Interp) typeAssert(a *Activation, st *State, i *ssa.TypeAssert) []*State {
	x := in.eval(a, st, i.X)
	h := assertHolds(x, i.AssertedType)
	_, isI := i.AssertedType.Underlying().(*types.Interface)
	var res *Val
	if isI {
		c := *x
		c.nilb = mayNon
		c.str = ""
		res = &c
	} else if x.dyn != nil && types.Identical(x.dyn, i.AssertedType) && x.inner != nil {
		res = x.inner
	} else {
		res = withLab(in.topOf(i.AssertedType), x.lab)
	}
	res = withLab(res, x.lab)
	if i.CommaOk {
		var alts [][]*Val
		if h >= 0 {
			alts = append(alts, []*Val{res, TrueVal})
		}
		if h <= 0 {
			alts = append(alts, []*Val{zeroOf(i.AssertedType), FalseVal})
		}
		in.set(a, st, i, &Val{nilb: mayNon, tup: alts})
		return one(st)
	}
	if h < 0 {
		if in.W.OnPanic != nil {
			in.W.OnPanic(in, st, i, "an assertion to type "+types.TypeString(i.AssertedType, types.RelativeTo(in.P.Types)))
		}
		return nil // certain panic
	}
	in.set(a, st, i, res)
	return one(st)
}

// refine narrows st under cond == sense; false means infeasible.
func (in *Interp) refine(a *Activation, st *State, cond ssa.Value, sense bool, depth int) bool {
	if depth > 4 {
		return true
	}
	if _, ok := cond.(*ssa.Const); ok {
		return true
	}
	b := boolVal(sense)
	cur := in.eval(a, st, cond)
	if _, ok := a.idx[cond]; ok {
		in.narrow(a, st, cond, withLab(b, cur.lab))
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return in.refine(a, st, c.X, !sense, depth+1)
		}
		if c.Op == token.MUL {
			in.narrowMem(a, st, c, withLab(b, cur.lab))
		}
	case *ssa.BinOp:
		op := c.Op
		if !sense {
			op = negate(op)
		}
		if op == token.ILLEGAL {
			return true
		}
		return in.refineCmp(a, st, op, c.X, c.Y)
	}
	return true
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return token.ILLEGAL
}

func (in *Interp) refineCmp(a *Activation, st *State, op token.Token, X, Y ssa.Value) bool {
	x, y := in.eval(a, st, X), in.eval(a, st, Y)
	if compare(op, x, y) < 0 {
		return false
	}
	nx, ny := refineVals(op, x, y)
	if nx != nil && !same(nx, x) {
		in.narrow(a, st, X, nx)
	}
	if ny != nil && !same(ny, y) {
		in.narrow(a, st, Y, ny)
	}
	return true
}

func refineVals(op token.Token, x, y *Val) (*Val, *Val) {
	cp := func(v *Val) *Val { c := *v; c.str = ""; return &c }
	nx, ny := x, y
	switch op {
	case token.EQL:
		if y.isNil() {
			nx = cp(x)
			nx.nilb = mayNil
			if nx.ln != nil {
				nx.ln = intVal(0)
			}
			return nx, ny
		}
		if x.isNil() {
			ny = cp(y)
			ny.nilb = mayNil
			return nx, ny
		}
		if len(y.cs) > 0 && len(x.cs) == 0 && !x.num {
			nx = cp(x)
			nx.cs = y.cs
			nx.ln = y.ln
		} else if len(x.cs) > 0 && len(y.cs) == 0 && !y.num {
			ny = cp(y)
			ny.cs = x.cs
			ny.ln = x.ln
		} else if len(x.cs) > 0 && len(y.cs) > 0 {
			inter := interCS(x.cs, y.cs)
			nx, ny = cp(x), cp(y)
			nx.cs, ny.cs = inter, inter
		}
		if y.num {
			nx = cp(nx)
			if x.num {
				nx.lo, nx.hi = meetLo(x.lo, y.lo), meetHi(x.hi, y.hi)
			} else {
				nx.num, nx.lo, nx.hi = true, y.lo, y.hi
			}
		}
		if x.num {
			ny = cp(ny)
			if y.num {
				ny.lo, ny.hi = meetLo(x.lo, y.lo), meetHi(x.hi, y.hi)
			} else {
				ny.num, ny.lo, ny.hi = true, x.lo, x.hi
			}
		}
	case token.NEQ:
		if y.isNil() {
			nx = cp(x)
			nx.nilb = mayNon
		} else if x.isNil() {
			ny = cp(y)
			ny.nilb = mayNon
		}
		if len(y.cs) == 1 && len(x.cs) > 1 {
			nx = cp(x)
			nx.cs = removeCS(x.cs, y.cs[0])
		} else if len(x.cs) == 1 && len(y.cs) > 1 {
			ny = cp(y)
			ny.cs = removeCS(y.cs, x.cs[0])
		}
		if x.num && y.num {
			if y.lo == y.hi && y.lo.inf == 0 {
				nx = cp(nx)
				if x.lo == y.lo {
					nx.lo = addB(x.lo, 1)
				}
				if x.hi == y.hi {
					nx.hi = addB(x.hi, -1)
				}
			} else if x.lo == x.hi && x.lo.inf == 0 {
				ny = cp(ny)
				if y.lo == x.lo {
					ny.lo = addB(y.lo, 1)
				}
				if y.hi == x.hi {
					ny.hi = addB(y.hi, -1)
				}
			}
		}
		if s, ok := y.str1(); ok && s == "" && len(x.cs) == 0 {
			nx = cp(nx)
			if x.ln != nil && x.ln.num {
				nx.ln = rangeVal(meetLo(x.ln.lo, Bound{off: 1}), x.ln.hi)
			} else {
				nx.ln = rangeVal(Bound{off: 1}, posInf)
			}
		}
	case token.LSS, token.LEQ:
		k := int64(0)
		if op == token.LSS {
			k = 1
		}
		if y.num && y.hi.inf == 0 {
			nx = cp(nx)
			if x.num {
				nx.hi = meetHi(x.hi, addB(y.hi, -k))
			} else {
				nx.num, nx.lo, nx.hi = true, negInf, addB(y.hi, -k)
			}
		}
		if x.num && x.lo.inf == 0 {
			ny = cp(ny)
			if y.num {
				ny.lo = meetLo(y.lo, addB(x.lo, k))
			} else {
				ny.num, ny.lo, ny.hi = true, addB(x.lo, k), posInf
			}
		}
	case token.GTR:
		b, a := refineVals(token.LSS, y, x)
		return a, b
	case token.GEQ:
		b, a := refineVals(token.LEQ, y, x)
		return a, b
	}
	return nx, ny
}

func interCS(a, b []constant.Value) []constant.Value {
	var out []constant.Value
	for _, x := range a {
		for _, y := range b {
			if x.ExactString() == y.ExactString() {
				out = append(out, x)
			}
		}
	}
	if out == nil {
		out = a
	}
	return out
}

func removeCS(a []constant.Value, c constant.Value) []constant.Value {
	var out []constant.Value
	for _, x := range a {
		if x.ExactString() != c.ExactString() {
			out = append(out, x)
		}
	}
	if out == nil {
		return a
	}
	return out
}

// narrow records a refined value for register r and propagates it to the
// tuple, memory cell or length it was obtained from.
func (in *Interp) narrow(a *Activation, st *State, r ssa.Value, v *Val) {
	if _, ok := a.idx[r]; !ok {
		return
	}
	in.set(a, st, r, v)
	switch d := r.(type) {
	case *ssa.Extract:
		t := in.eval(a, st, d.Tuple)
		if t.tup == nil {
			return
		}
		var keep [][]*Val
		for _, alt := range t.tup {
			if compatible(alt[d.Index], v) {
				keep = append(keep, alt)
			}
		}
		if len(keep) == 0 || len(keep) == len(t.tup) {
			return
		}
		nt := *t
		nt.tup = keep
		nt.str = ""
		in.set(a, st, d.Tuple, &nt)
		if refs := d.Tuple.Referrers(); refs != nil {
			for _, u := range *refs {
				e, ok := u.(*ssa.Extract)
				if !ok || e == d || st.env[a.idx[e]] == nil {
					continue
				}
				var x *Val
				for _, alt := range keep {
					x = join(x, alt[e.Index])
				}
				in.set(a, st, e, x)
			}
		}
		// type assertion with comma-ok: refine the operand
		if ta, ok := d.Tuple.(*ssa.TypeAssert); ok && d.Index == 1 && v.isTrue() {
			x := in.eval(a, st, ta.X)
			if _, isI := ta.AssertedType.Underlying().(*types.Interface); !isI && x.dyn == nil {
				c := *x
				c.dyn = ta.AssertedType
				c.inner = withLab(in.topOf(ta.AssertedType), x.lab)
				c.nilb = mayNon
				c.str = ""
				if _, ok := a.idx[ta.X]; ok {
					in.set(a, st, ta.X, &c)
				}
			}
		}
	case *ssa.UnOp:
		if d.Op == token.MUL {
			in.narrowMem(a, st, d, v)
		}
	case *ssa.Call:
		if bi, ok := d.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			arg := d.Call.Args[0]
			x := in.eval(a, st, arg)
			c := *x
			c.ln = setLab(v, 0)
			c.str = ""
			if _, ok := a.idx[arg]; ok {
				in.narrow(a, st, arg, &c)
			}
		}
	case *ssa.ChangeType:
		in.narrow(a, st, d.X, v)
	case *ssa.ChangeInterface:
		in.narrow(a, st, d.X, v)
	case *ssa.Convert:
		// int <-> int conversions that keep the value
		if v.num {
			if x := in.eval(a, st, d.X); x.num {
				in.narrow(a, st, d.X, v)
			}
		}
	}
}

func compatible(x, v *Val) bool {
	if x == nil {
		return true
	}
	if x.nilb&v.nilb == 0 {
		return false
	}
	if len(x.cs) > 0 && len(v.cs) > 0 {
		for _, p := range x.cs {
			for _, q := range v.cs {
				if p.ExactString() == q.ExactString() {
					return true
				}
			}
		}
		return false
	}
	if x.num && v.num {
		return compare(token.EQL, x, v) >= 0
	}
	return true
}

func (in *Interp) narrowMem(a *Activation, st *State, d *ssa.UnOp, v *Val) {
	p := in.eval(a, st, d.X)
	if p.obj == nil {
		return
	}
	in.store(st, p, v)
}

func (in *Interp) reportAct(a *Activation) {
	if in.done[a.key] {
		return
	}
	in.done[a.key] = true
	in.stack = append(in.stack, a)
	var blocks []*ssa.BasicBlock
	for _, b := range a.fn.Blocks {
		if a.in[b] != nil {
			blocks = append(blocks, b)
		}
	}
	for _, b := range blocks {
		var fl []partKey
		for f := range a.in[b] {
			fl = append(fl, f)
		}
		sort.Slice(fl, func(i, j int) bool {
			return fl[i].flags < fl[j].flags || fl[i].flags == fl[j].flags && fl[i].part < fl[j].part
		})
		for _, f := range fl {
			s := a.in[b][f]
			saved := in.report
			in.report = true
			in.execBlock(a, b, cloneState(s), func(i ssa.Instruction, st *State) {
				in.obs(&Event{In: in, Act: a, Instr: i, St: st, Path: in.path, Rets: a.rets})
			})
			in.report = saved
		}
	}
	in.stack = in.stack[:len(in.stack)-1]
}

func (in *Interp) pathString() string {
	var b strings.Builder
	for _, c := range in.path {
		if b.Len() > 0 {
			b.WriteString(" -> ")
		}
		fmt.Fprintf(&b, "%s", in.P.at(c.Pos()))
	}
	return b.String()
}

var debugInterp = os.Getenv("GOTCHECK_DEBUG") != ""

// crashes: instr certainly panics in st (nil dereference, index out of range).
func (in *Interp) crashes(a *Activation, st *State, instr ssa.Instruction) bool {
	switch instr.(type) {
	case *ssa.FieldAddr, *ssa.UnOp, *ssa.Store, *ssa.MapUpdate, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Slice, *ssa.Call:
	default:
		return false
	}
	ev := &Event{In: in, Act: a, Instr: instr, St: st}
	what, ok := nilUse(ev)
	if !ok {
		what, ok = outOfRange(ev)
	}
	if ok && in.W.OnPanic != nil {
		in.W.OnPanic(in, st, instr, what)
	}
	return ok
}

// returned gives the alternatives of the returned values; results taken from
// one tuple stay correlated.
func (in *Interp) returned(a *Activation, st *State, r *ssa.Return) [][]*Val {
	var vals []*Val
	byTuple := map[ssa.Value]int{}
	var tuple ssa.Value
	for _, v := range r.Results {
		vals = append(vals, in.eval(a, st, v))
		if e, ok := v.(*ssa.Extract); ok {
			byTuple[e.Tuple]++
			if byTuple[e.Tuple] > 1 {
				tuple = e.Tuple
			}
		}
	}
	if tuple == nil {
		return [][]*Val{vals}
	}
	t := in.eval(a, st, tuple)
	if len(t.tup) < 2 {
		return [][]*Val{vals}
	}
	var out [][]*Val
	for _, alt := range t.tup {
		vs := append([]*Val{}, vals...)
		ok := true
		for k, v := range r.Results {
			if e, isE := v.(*ssa.Extract); isE && e.Tuple == tuple && e.Index < len(alt) {
				if !compatible(alt[e.Index], vals[k]) {
					ok = false
				}
				vs[k] = alt[e.Index]
			}
		}
		if ok {
			out = append(out, vs)
		}
	}
	if len(out) == 0 {
		return [][]*Val{vals}
	}
	return out
}
