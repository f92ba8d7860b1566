package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The shape domain: slices, arrays and maps of a small known size are tracked
// element by element.  A slice value refers to a container and a range of it,
// so that two slices of one backing array share their elements.  The contents
// of all containers form a heap, which is part of the partition key of a state
// (the high half of State.flags): states with different shapes are kept apart.
//
// Whatever the domain cannot follow (a store through a reference that may be
// one of several containers, an unknown callee) makes the heap lost, after
// which nothing is concluded from it.

// LTracked marks references that may refer to a tracked container.
const LTracked Label = 1 << 50

// LGrown marks slices made by an append that grew out of a tracked container:
// their first elements may still be those of the container.
const LGrown Label = 1 << 51

const (
	maxElems = 8
	maxConts = 96
	maxParts = 96
)

// maxEl is the size up to which containers are followed.
func (in *Interp) maxEl() int {
	if in.W.Text != nil && in.W.Text.tm != nil {
		return 64
	}
	return maxElems
}

type heapArr struct {
	elems []*Val
	isMap bool
	keys  []string // identities of the keys of a map, parallel to elems
	fuzzy bool     // map: may have other keys, or lack one of these
}

type heap struct {
	arr  map[int32]*heapArr
	fld  map[memKey]*Val // watched fields that have been written
	lost bool
}

func (h *heap) clone() *heap {
	n := &heap{arr: map[int32]*heapArr{}, lost: h.lost, fld: h.fld}
	for k, v := range h.arr {
		n.arr[k] = v
	}
	return n
}

func (h *heap) next() int32 {
	var m int32
	for k := range h.arr {
		if k > m {
			m = k
		}
	}
	return m + 1
}

func (h *heap) key() string {
	if h.lost {
		return "lost"
	}
	var ids []int
	for k := range h.arr {
		ids = append(ids, int(k))
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, k := range ids {
		a := h.arr[int32(k)]
		fmt.Fprintf(&b, "%d:%v%v(", k, a.isMap, a.fuzzy)
		for i, e := range a.elems {
			if a.isMap {
				b.WriteString(a.keys[i] + "=")
			}
			b.WriteString(e.key() + ",")
		}
		b.WriteString(")")
	}
	if len(h.fld) > 0 {
		b.WriteString(memKeyStr(h.fld))
	}
	return b.String()
}

func (a *heapArr) clone() *heapArr {
	n := *a
	n.elems = append([]*Val{}, a.elems...)
	n.keys = append([]string{}, a.keys...)
	return &n
}

// typestate is the part of the flags that does not identify the heap.
func typestate(f uint64) uint64 { return f & 0xffffffff }

func (in *Interp) heapOf(flags uint64) *heap {
	id := flags >> 32
	if id == 0 {
		return &heap{arr: map[int32]*heapArr{}}
	}
	return in.heaps[id-1]
}

func (in *Interp) internHeap(h *heap) uint64 {
	if in.heapIDs == nil {
		in.heapIDs = map[string]uint64{}
	}
	k := h.key()
	id, ok := in.heapIDs[k]
	if !ok {
		in.heaps = append(in.heaps, h)
		id = uint64(len(in.heaps))
		in.heapIDs[k] = id
	}
	return id << 32
}

func (in *Interp) setHeap(st *State, h *heap) {
	st.flags = typestate(st.flags) | in.internHeap(h)
}

func (in *Interp) loseHeap(st *State) {
	if in.W.Heap {
		in.setHeap(st, &heap{lost: true})
	}
}

// cont returns the container v refers to, or nil.
func (in *Interp) cont(st *State, v *Val) *heapArr {
	if !in.W.Heap || v == nil || v.cont == 0 {
		return nil
	}
	h := in.heapOf(st.flags)
	if h.lost {
		return nil
	}
	return h.arr[v.cont]
}

func (in *Interp) newCont(st *State, a *heapArr) int32 {
	if !in.W.Heap || len(a.elems) > in.maxEl() {
		return 0
	}
	h := in.heapOf(st.flags)
	if h.lost || len(h.arr) >= maxConts && (in.W.Text == nil && !in.W.Order || len(h.arr) >= 5*maxConts) {
		return 0
	}
	h = h.clone()
	id := h.next()
	h.arr[id] = a
	in.setHeap(st, h)
	return id
}

// view makes v refer to elements lo..hi of container id.
func view(v *Val, id int32, lo, hi int) *Val {
	c := *v
	c.str = ""
	c.cont, c.clo, c.chi = id, lo, hi
	if id != 0 {
		c.ln = intVal(int64(hi - lo))
		c.lab |= LTracked
	}
	return &c
}

// freshSlice makes v a tracked slice of n zero elements.
func (in *Interp) freshSlice(st *State, v *Val, n int64, et types.Type) *Val {
	if !in.W.Heap || n < 0 || n > int64(in.maxEl()) {
		return v
	}
	a := &heapArr{}
	for k := int64(0); k < n; k++ {
		z := zeroOf(et)
		if s := in.P.pkgStruct(et); s != nil {
			if zs := in.P.zeroStruct(et); zs != nil {
				z = zs
			}
		}
		a.elems = append(a.elems, z)
	}
	if id := in.newCont(st, a); id != 0 {
		return view(v, id, 0, int(n))
	}
	return v
}

// elements of v, when it is a tracked slice.
func (in *Interp) seq(st *State, v *Val) ([]*Val, bool) {
	a := in.cont(st, v)
	if a == nil || a.isMap || v.chi > len(a.elems) || v.clo > v.chi {
		return nil, false
	}
	return a.elems[v.clo:v.chi], true
}

// select1 reads one element of a sequence.
func select1(es []*Val, idx *Val) *Val {
	if idx == nil {
		return nil
	}
	if k, ok := idx.int1(); ok {
		if k >= 0 && int(k) < len(es) {
			return es[k]
		}
		return nil
	}
	var v *Val
	for _, e := range es {
		v = join(v, e)
	}
	if v != nil && idx.tag != "" {
		if p := uniform(es); p != "" {
			v = withTag(v, p+"@"+idx.tag)
		}
	}
	return v
}

// uniform: the elements are p0, p1, p2, ...
func uniform(es []*Val) string {
	p := ""
	for i, e := range es {
		s := strconv.Itoa(i)
		if !strings.HasSuffix(e.tag, s) || e.tag == s {
			return ""
		}
		q := strings.TrimSuffix(e.tag, s)
		if i > 0 && q != p {
			return ""
		}
		p = q
	}
	return p
}

// heapLoad reads through the element address p.
func (in *Interp) heapLoad(st *State, p *Val, t types.Type) *Val {
	if p.paddr == nil || p.paddr.cont == 0 {
		return nil
	}
	es, ok := in.seq(st, p.paddr)
	if !ok {
		return nil
	}
	e := select1(es, p.pidx)
	if e == nil {
		return nil
	}
	if p.field == "" {
		return withLab(e, p.lab&LRefMask)
	}
	if p.ty != nil && !strings.Contains(p.field, ".") {
		return in.fieldOf(st, e, p.ty, p.field, t)
	}
	return nil
}

// heapStore writes v through the element address p.
func (in *Interp) heapStore(st *State, p, v *Val) {
	if !in.W.Heap || p.paddr == nil || p.obj != nil {
		return
	}
	if in.heapOf(st.flags).lost {
		return
	}
	c := p.paddr
	a := in.cont(st, c)
	if a == nil || a.isMap || c.chi > len(a.elems) {
		if c.lab&(LTracked|LGrown) != 0 {
			in.loseHeap(st)
		}
		return
	}
	upd := func(old *Val) *Val {
		if p.field == "" {
			return v
		}
		if p.ty == nil || strings.Contains(p.field, ".") {
			return Top
		}
		sty, ok := p.ty.Underlying().(*types.Struct)
		if !ok {
			return Top
		}
		n := *old
		n.str, n.tag = "", ""
		n.flds = nil
		for i := 0; i < sty.NumFields(); i++ {
			x := in.fieldOf(st, old, p.ty, sty.Field(i).Name(), sty.Field(i).Type())
			if sty.Field(i).Name() == p.field {
				x = v
			}
			n.flds = append(n.flds, x)
		}
		return &n
	}
	n := a.clone()
	if k, ok := p.pidx.int1(); ok && k >= 0 && c.clo+int(k) < c.chi {
		n.elems[c.clo+int(k)] = upd(n.elems[c.clo+int(k)])
	} else {
		for j := c.clo; j < c.chi; j++ {
			n.elems[j] = withTag(join(n.elems[j], upd(n.elems[j])), "")
		}
	}
	in.putCont(st, c.cont, n)
}

// heapPermute reverses or sorts the elements of v, when that is decided.
func (in *Interp) heapPermute(st *State, v *Val, reverse bool) bool {
	if !in.W.Heap || v == nil {
		return false
	}
	es, ok := in.seq(st, v)
	if !ok {
		return false
	}
	es = append([]*Val{}, es...)
	if reverse {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	} else {
		ints, strs := true, true
		for _, e := range es {
			if _, ok := e.int1(); !ok || !e.num {
				ints = false
			}
			if _, ok := e.str1(); !ok || e.tag != "" {
				strs = false
			}
		}
		if !ints && !strs {
			return false
		}
		sort.SliceStable(es, func(i, j int) bool {
			if ints {
				x, _ := es[i].int1()
				y, _ := es[j].int1()
				return x < y
			}
			x, _ := es[i].str1()
			y, _ := es[j].str1()
			return x < y
		})
	}
	n := in.cont(st, v).clone()
	copy(n.elems[v.clo:v.chi], es)
	in.putCont(st, v.cont, n)
	return true
}

func (in *Interp) putCont(st *State, id int32, a *heapArr) {
	h := in.heapOf(st.flags).clone()
	h.arr[id] = a
	in.setHeap(st, h)
}

// heapSlice gives v = x[lo:hi] its range.
func (in *Interp) heapSlice(st *State, v, x, lo, hi *Val) *Val {
	if !in.W.Heap || x.cont == 0 {
		return v
	}
	a := in.cont(st, x)
	l, okl := lo.int1()
	if a == nil || a.isMap || !okl || l < 0 {
		return withLab(v, LTracked)
	}
	h := int64(x.chi - x.clo)
	if hi != nil {
		var ok bool
		if h, ok = hi.int1(); !ok {
			return withLab(v, LTracked)
		}
	}
	if l > h || x.clo+int(h) > len(a.elems) {
		return withLab(v, LTracked)
	}
	return view(v, x.cont, x.clo+int(l), x.clo+int(h))
}

// heapAppend gives v = append(x, y...) its elements.
func (in *Interp) heapAppend(st *State, v, x, y *Val, et types.Type) *Val {
	if !in.W.Heap {
		return v
	}
	grown := func() *Val {
		c := *v
		c.str, c.cont, c.clo, c.chi = "", 0, 0, 0
		c.lab &^= LTracked
		// a container made by the call and outgrown is not followed further; the
		// empty one made here keeps this path apart from the ones before it
		in.newCont(st, &heapArr{})
		if x.cont == 0 || x.cont <= in.W.HeapTop {
			if x.lab&(LTracked|LGrown) != 0 {
				c.lab |= LGrown
			}
		}
		return &c
	}
	lose := func() *Val {
		if x.lab&LTracked != 0 && x.cont == 0 {
			in.loseHeap(st)
		}
		c := *v
		c.str, c.cont = "", 0
		c.lab = c.lab&^LTracked | x.lab&LTracked
		return &c
	}
	es, ok := in.seq(st, x)
	if !ok && !(x.isNil() || x.ln != nil && isZeroLen(x.ln) && x.lab&LTracked == 0) {
		return lose()
	}
	ys, ok2 := in.seq(st, y)
	if !ok2 {
		n := int64(-1)
		if y.isNil() {
			n = 0
		} else if y.ln != nil {
			if k, ok := y.ln.int1(); ok {
				n = k
			}
		}
		if n < 0 || n > int64(in.maxEl()) {
			// an append within the container would overwrite its elements
			if a := in.cont(st, x); a != nil && x.chi < len(a.elems) {
				in.loseHeap(st)
			}
			return lose()
		}
		e := in.elemOf(st, y, et)
		if e == nil {
			e = in.topOf(et)
		}
		for ; n > 0; n-- {
			ys = append(ys, withTag(e, ""))
		}
	}
	if a := in.cont(st, x); a != nil && x.chi < len(a.elems) && x.chi+len(ys) <= len(a.elems) {
		n := a.clone()
		copy(n.elems[x.chi:], append([]*Val{}, ys...))
		in.putCont(st, x.cont, n)
		return view(v, x.cont, x.clo, x.chi+len(ys))
	}
	all := append(append([]*Val{}, es...), ys...)
	if id := in.newCont(st, &heapArr{elems: all}); id != 0 {
		return view(v, id, 0, len(all))
	}
	if len(all) > in.maxEl() {
		return grown()
	}
	return lose()
}

// heapCopy performs copy(dst, src) and returns the number copied if known.
func (in *Interp) heapCopy(st *State, dst, src *Val, et types.Type) *Val {
	if !in.W.Heap {
		return nil
	}
	ds, ok := in.seq(st, dst)
	if !ok {
		if dst.lab&(LTracked|LGrown) != 0 {
			in.loseHeap(st)
		}
		return nil
	}
	a := in.cont(st, dst).clone()
	ss, ok := in.seq(st, src)
	if !ok && src.isNil() {
		return intVal(0)
	}
	if !ok {
		e := in.elemOf(st, src, et)
		if e == nil {
			e = in.topOf(et)
		}
		for j := dst.clo; j < dst.chi; j++ {
			a.elems[j] = withTag(join(a.elems[j], e), "")
		}
		in.putCont(st, dst.cont, a)
		return nil
	}
	n := len(ds)
	if len(ss) < n {
		n = len(ss)
	}
	copy(a.elems[dst.clo:dst.clo+n], append([]*Val{}, ss[:n]...))
	in.putCont(st, dst.cont, a)
	return intVal(int64(n))
}

// keyID is the identity of a map key: a constant, a name, or a name known only
// by a symbolic position.
func keyID(k *Val) (id string, kind byte) {
	switch {
	case k.tag != "" && strings.Contains(k.tag, "@"):
		return "T" + k.tag, '@'
	case k.tag != "":
		return "T" + k.tag, 'T'
	case len(k.cs) == 1 && k.cs[0].Kind() == constant.String:
		return "C" + k.cs[0].ExactString(), 'C'
	case k.obj != nil && k.field == "" && k.isNonNil():
		return "O" + k.obj.id, 'O'
	}
	return "", 0
}

func idKind(id string) byte {
	if id[0] == 'T' && strings.Contains(id, "@") {
		return '@'
	}
	return id[0]
}

// maybeSameKey: two different identities may denote the same key.
func (in *Interp) maybeSameKey(x, y string) bool {
	if idKind(x) == idKind(y) {
		return false
	}
	if x[0] == 'T' && y[0] == 'C' {
		x, y = y, x
	}
	if x[0] == 'C' && in.W.NotName != nil {
		if s, err := strconv.Unquote(x[1:]); err == nil && in.W.NotName(s, y[1:]) {
			return false
		}
	}
	return true
}

func (in *Interp) heapMapUpdate(st *State, m, k, v *Val) {
	if !in.W.Heap || in.heapOf(st.flags).lost {
		return
	}
	a := in.cont(st, m)
	if a == nil || !a.isMap {
		if m.lab&LTracked != 0 {
			in.loseHeap(st)
		}
		return
	}
	n := a.clone()
	id, _ := keyID(k)
	if id == "" {
		n.fuzzy = true
		for i := range n.elems {
			n.elems[i] = withTag(join(n.elems[i], v), "")
		}
		in.putCont(st, m.cont, n)
		return
	}
	found := false
	for i, x := range n.keys {
		switch {
		case x == id:
			n.elems[i] = v
			found = true
		case in.maybeSameKey(x, id):
			n.elems[i] = withTag(join(n.elems[i], v), "")
			n.fuzzy = true
		}
	}
	if !found {
		if len(n.keys) >= in.maxEl() {
			in.loseHeap(st)
			return
		}
		// keys are kept in order, so that equal maps are equal
		j := sort.SearchStrings(n.keys, id)
		n.keys = append(n.keys[:j], append([]string{id}, n.keys[j:]...)...)
		n.elems = append(n.elems[:j], append([]*Val{v}, n.elems[j:]...)...)
	}
	in.putCont(st, m.cont, n)
}

func (in *Interp) heapDelete(st *State, m, k *Val) {
	if !in.W.Heap || in.heapOf(st.flags).lost {
		return
	}
	a := in.cont(st, m)
	if a == nil || !a.isMap {
		if m.lab&LTracked != 0 {
			in.loseHeap(st)
		}
		return
	}
	n := a.clone()
	id, _ := keyID(k)
	if id == "" {
		n.fuzzy = true
	}
	for i := 0; i < len(n.keys); i++ {
		if id != "" && n.keys[i] == id {
			n.keys = append(n.keys[:i], n.keys[i+1:]...)
			n.elems = append(n.elems[:i], n.elems[i+1:]...)
			i--
		} else if id != "" && in.maybeSameKey(n.keys[i], id) {
			n.fuzzy = true
		}
	}
	in.putCont(st, m.cont, n)
}

func (in *Interp) heapLookup(st *State, m, k *Val, et types.Type) [][]*Val {
	a := in.cont(st, m)
	if a == nil || !a.isMap {
		return nil
	}
	id, kind := keyID(k)
	zero := []*Val{zeroOf(et), FalseVal}
	if id != "" {
		other := a.fuzzy
		for i, x := range a.keys {
			if x == id {
				return [][]*Val{{a.elems[i], TrueVal}}
			}
			if in.maybeSameKey(x, id) {
				other = true
			}
		}
		if kind == '@' { // the map gives each name its position
			if j := strings.Index(k.tag, "@"); j > 0 && len(a.keys) > 0 {
				p, sym, all := k.tag[:j], k.tag[j+1:], true
				for i, x := range a.keys {
					n, ok := a.elems[i].int1()
					if !ok || x != fmt.Sprintf("T%s%d", p, n) {
						all = false
					}
				}
				if all && !a.fuzzy {
					return [][]*Val{{withTag(rangeVal(Bound{}, Bound{off: int64(len(a.keys) - 1)}), sym), TrueVal}}
				}
			}
		}
		if !other {
			return [][]*Val{zero}
		}
	}
	var v *Val
	for _, e := range a.elems {
		v = join(v, withTag(e, ""))
	}
	if a.fuzzy {
		v = join(v, in.topOf(et))
	}
	if v == nil {
		return [][]*Val{zero}
	}
	return [][]*Val{{v, TrueVal}, zero}
}

// heapLen is the number of entries of a tracked map.
func (in *Interp) heapLen(st *State, m *Val) *Val {
	a := in.cont(st, m)
	if a == nil || !a.isMap || a.fuzzy {
		return nil
	}
	return intVal(int64(len(a.elems)))
}

// heapForget: an unknown function may write to what its arguments refer to.
func (in *Interp) heapForget(st *State, args []*Val) {
	if !in.W.Heap {
		return
	}
	h := in.heapOf(st.flags)
	if h.lost {
		return
	}
	n := h.clone()
	seen := map[int32]bool{}
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || d > 6 {
			return
		}
		walk(v.inner, d+1)
		if v.cont != 0 && !seen[v.cont] {
			seen[v.cont] = true
			if a := h.arr[v.cont]; a != nil {
				c := a.clone()
				for i, e := range a.elems {
					walk(e, 0)
					c.elems[i] = &Val{nilb: mayNil | mayNon}
				}
				c.fuzzy = c.isMap
				n.arr[v.cont] = c
			}
		} else if v.lab&(LTracked|LGrown) != 0 && v.cont == 0 && v.obj == nil && v.dyn == nil && v.elem != nil {
			n.lost = true
		}
	}
	for _, x := range args {
		walk(x, 0)
	}
	if n.lost {
		in.loseHeap(st)
		return
	}
	if len(seen) > 0 {
		in.setHeap(st, n)
	}
}

// gcHeap drops the containers created since old that are no longer reachable.
func (in *Interp) gcHeap(old uint64, r *Ret) {
	if !in.W.Heap || r.flags>>32 == old>>32 {
		return
	}
	h := in.heapOf(r.flags)
	if h.lost {
		return
	}
	o := in.heapOf(old)
	if len(h.arr) <= len(o.arr) {
		return
	}
	live := map[int32]bool{}
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || d > 8 {
			return
		}
		if v.cont != 0 && !live[v.cont] {
			live[v.cont] = true
			if a := h.arr[v.cont]; a != nil {
				for _, e := range a.elems {
					walk(e, 0)
				}
			}
		}
		walk(v.inner, d+1)
		walk(v.elem, d+1)
		walk(v.paddr, d+1)
		for _, x := range v.binds {
			walk(x, d+1)
		}
		for _, x := range v.flds {
			walk(x, d+1)
		}
		for _, t := range v.tup {
			for _, x := range t {
				walk(x, d+1)
			}
		}
	}
	for k := range o.arr {
		live[k] = true
		if a := h.arr[k]; a != nil {
			for _, e := range a.elems {
				walk(e, 0)
			}
		}
	}
	for _, v := range r.vals {
		walk(v, 0)
	}
	for _, v := range r.mem {
		walk(v, 0)
	}
	for _, v := range h.fld {
		walk(v, 0)
	}
	n := &heap{arr: map[int32]*heapArr{}, fld: h.fld}
	for k, a := range h.arr {
		if live[k] {
			n.arr[k] = a
		}
	}
	if len(n.arr) != len(h.arr) {
		r.flags = typestate(r.flags) | in.internHeap(n)
	}
}

// renameHeap applies a renaming of objects to the elements of containers.
func (in *Interp) renameHeap(r *Ret, rv func(v *Val, d int) *Val) {
	h := in.heapOf(r.flags)
	var n *heap
	for k, a := range h.arr {
		var c *heapArr
		for i, e := range a.elems {
			if x := rv(e, 0); x != e {
				if c == nil {
					c = a.clone()
				}
				c.elems[i] = x
			}
		}
		if c != nil {
			if n == nil {
				n = h.clone()
			}
			n.arr[k] = c
		}
	}
	for k, v := range h.fld {
		o, x := rv(&Val{nilb: mayNon, obj: k.obj}, 0).obj, rv(v, 0)
		if o != k.obj || x != v {
			if n == nil {
				n = h.clone()
			}
			fld := map[memKey]*Val{}
			for q, y := range n.fld {
				if q != k {
					fld[q] = y
				}
			}
			fld[memKey{o, k.field}] = x
			n.fld = fld
		}
	}
	if n != nil {
		r.flags = typestate(r.flags) | in.internHeap(n)
	}
}

// watch records the value stored in a watched field of an object.
func (in *Interp) watch(st *State, p, v *Val) {
	if !in.W.Heap || in.W.Watch == nil || p.obj == nil || p.obj.typ == nil || !in.W.Watch(named(p.obj.typ), p.field) {
		return
	}
	h := in.heapOf(st.flags)
	if h.lost {
		return
	}
	k := memKey{p.obj, p.field}
	if o := h.fld[k]; o != nil && same(o, v) {
		return
	}
	h = h.clone()
	fld := map[memKey]*Val{k: v}
	for q, x := range h.fld {
		if q != k {
			fld[q] = x
		}
	}
	h.fld = fld
	in.setHeap(st, h)
}

// unwatch forgets the watched fields of a newly allocated object.
func (in *Interp) unwatch(st *State, o *Obj) {
	if !in.W.Heap || in.W.Watch == nil {
		return
	}
	h := in.heapOf(st.flags)
	fld := map[memKey]*Val{}
	for q, x := range h.fld {
		if q.obj != o {
			fld[q] = x
		}
	}
	if len(fld) != len(h.fld) {
		h = h.clone()
		h.fld = fld
		in.setHeap(st, h)
	}
}

// watched is the value of a watched field (nil: not written).
func (in *Interp) watched(st *State, p *Val) *Val {
	if !in.W.Heap || in.W.Watch == nil || p.obj == nil {
		return nil
	}
	return in.heapOf(st.flags).fld[memKey{p.obj, p.field}]
}

// orFlags adds what a callback did to the flags of st.
func (in *Interp) orFlags(st *State, f uint64) {
	t := typestate(st.flags) | typestate(f)
	hid := st.flags >> 32
	if in.W.Heap && f>>32 != hid {
		a, b := in.heapOf(st.flags), in.heapOf(f)
		n := &heap{arr: map[int32]*heapArr{}, lost: a.lost || b.lost, fld: map[memKey]*Val{}}
		for k, x := range a.fld {
			n.fld[k] = x
		}
		for k, y := range b.fld {
			if x := n.fld[k]; x == nil || !same(x, y) {
				n.fld[k] = Top
			}
		}
		for k, x := range a.arr {
			y := b.arr[k]
			if y == nil || x == y {
				n.arr[k] = x
				continue
			}
			c := x.clone()
			c.fuzzy = c.isMap
			for i := range c.elems {
				c.elems[i] = &Val{nilb: mayNil | mayNon}
			}
			n.arr[k] = c
		}
		if n.lost {
			n = &heap{lost: true}
		}
		hid = in.internHeap(n) >> 32
	}
	st.flags = t | hid<<32
}

// trackedAlloc: arrays built to pass arguments to functions outside the
// package are not tracked.
func (in *Interp) trackedAlloc(i *ssa.Alloc) bool {
	if i.Comment != "varargs" || in.W.Text != nil || in.W.Varargs {
		return true
	}
	for _, r := range *i.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *sl.Referrers() {
			if c, ok := u.(ssa.CallInstruction); ok {
				if _, isB := c.Common().Value.(*ssa.Builtin); isB {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil && in.P.inPkg(f) {
					return true
				}
			}
		}
	}
	return false
}

var _ = token.ADD

// loopPart keeps the iterations of loops with known counters apart: the
// counters of the loops around block b, as far as they are small constants.
func (in *Interp) loopPart(a *Activation, b *ssa.BasicBlock, st *State) string {
	loops := in.loopsOf(a.fn)
	part := ""
	for _, h := range loops[b] {
		for _, i := range h.Instrs {
			if nx, ok := i.(*ssa.Next); ok && (nx.IsString || in.W.Text != nil) {
				if k, ok := in.eval(a, st, nx.Iter).int1(); ok {
					part += fmt.Sprintf("%d.%s=%d;", h.Index, nx.Iter.Name(), k)
				}
			}
		}
		for _, i := range h.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInteger(phi.Type()) {
				continue
			}
			v := in.eval(a, st, phi)
			if k, ok := v.int1(); ok && k >= -1 && k <= int64(in.maxEl()+1) {
				part += fmt.Sprintf("%d.%s=%d;", h.Index, phi.Name(), k)
			}
		}
	}
	return part
}

// loopsOf gives the headers of the natural loops that contain each block.
func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	body := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, u := range fn.Blocks {
		for _, h := range u.Succs {
			if !h.Dominates(u) {
				continue
			}
			m := body[h]
			if m == nil {
				m = map[*ssa.BasicBlock]bool{h: true}
				body[h] = m
			}
			work := []*ssa.BasicBlock{u}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if m[x] {
					continue
				}
				m[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	out := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, h := range fn.Blocks {
		for b := range body[h] {
			out[b] = append(out[b], h)
		}
	}
	for b := range out {
		hs := out[b]
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	}
	if in.loops == nil {
		in.loops = map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	}
	in.loops[fn] = out
	return out
}

// heapObjs are the objects made during the analysis that a heap refers to.
func (in *Interp) heapObjs(flags uint64) map[*Obj]bool {
	id := flags >> 32
	if m, ok := in.held[id]; ok {
		return m
	}
	h := in.heapOf(flags)
	seen := map[*Obj]bool{}
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || d > 12 {
			return
		}
		if v.obj != nil && v.obj.fresh {
			seen[v.obj] = true
		}
		for _, x := range []*Val{v.inner, v.elem, v.paddr, v.ln, v.pidx} {
			walk(x, d+1)
		}
		for _, x := range append(append([]*Val{}, v.binds...), v.flds...) {
			walk(x, d+1)
		}
		for _, t := range v.tup {
			for _, x := range t {
				walk(x, d+1)
			}
		}
	}
	for _, a := range h.arr {
		for _, e := range a.elems {
			walk(e, 0)
		}
	}
	for k, v := range h.fld {
		if k.obj.fresh {
			seen[k.obj] = true
		}
		walk(v, 0)
	}
	if in.held == nil {
		in.held = map[uint64]map[*Obj]bool{}
	}
	in.held[id] = seen
	return seen
}
