package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked package under analysis with its SSA form.
type Program struct {
	genPkgs  map[*ssa.Package]bool // packages of generated source (N08)
	Dir      string
	Fset     *token.FileSet
	Pkg      *packages.Package
	Types    *types.Package
	Prog     *ssa.Program
	SSA      *ssa.Package
	Funcs    []*ssa.Function // all source functions of the package (incl. closures)
	Table    *types.Named
	TSet     *types.Named
	gmaps    map[*ssa.Global]map[string]*Val
	gstore   map[*ssa.Global][]ssa.Instruction // stores to the global outside init
	ginit    map[*ssa.Global][]ssa.Value       // values stored by init
	gfield   map[gfieldKey][]ssa.Value         // fields set at initialisation
	gother   map[*ssa.Global]bool              // address escapes
	Types20  []string
	refMu    sync.RWMutex
	refCache map[types.Type]bool
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	p := &Program{Dir: dir, Pkg: pkgs[0], Fset: pkgs[0].Fset, Types: pkgs[0].Types, refCache: map[types.Type]bool{}}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.Prog, p.SSA = prog, ps[0]
	p.SSA.Build()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == p.SSA && len(f.Blocks) > 0 && f.Synthetic == "" {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	for _, x := range []struct {
		n string
		d **types.Named
	}{{"Table", &p.Table}, {"TableSet", &p.TSet}} {
		o := p.Types.Scope().Lookup(x.n)
		if o == nil {
			return nil, fmt.Errorf("type %s not found", x.n)
		}
		*x.d = o.Type().(*types.Named)
	}
	p.scanGlobals()
	for _, f := range []string{"rows", "colNames", "colTypes", "colNamesMap", "sortKeys"} {
		if p.fieldIndex(p.Table, f) < 0 {
			return nil, fmt.Errorf("type Table has no field %s", f)
		}
	}
	p.Types20 = p.colTypeUniverse()
	if len(p.Types20) < 15 {
		return nil, fmt.Errorf("column type universe not resolved (%d types)", len(p.Types20))
	}
	p.freeze()
	return p, nil
}

func (p *Program) fieldIndex(n *types.Named, f string) int {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return i
		}
	}
	return -1
}

func (p *Program) inPkg(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == p.SSA || f.Pkg != nil && p.genPkgs[f.Pkg] {
		return true
	}
	// synthetic wrappers and bound methods
	if f.Object() != nil && f.Object().Pkg() == p.Types {
		return true
	}
	return false
}

func (p *Program) at(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// posOf finds a usable position for an instruction.
func (p *Program) posOf(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.at(i.Pos())
	}
	b := i.Block()
	if b == nil {
		return "?"
	}
	seen := false
	last := token.NoPos
	for _, x := range b.Instrs {
		if x == i {
			seen = true
		}
		if x.Pos().IsValid() {
			if !seen {
				last = x.Pos()
			} else {
				return p.at(x.Pos())
			}
		}
	}
	if last.IsValid() {
		return p.at(last)
	}
	return p.at(i.Parent().Pos())
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// escapes: instruction i uses the address of g other than to read or write it
// or one of its fields.
func escapes(i ssa.Instruction, g *ssa.Global) bool {
	switch i := i.(type) {
	case *ssa.UnOp:
		return false
	case *ssa.Store:
		return i.Val == ssa.Value(g)
	case *ssa.FieldAddr:
		for _, r := range *i.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.Store:
				if r.Val == ssa.Value(i) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return true
}

type gfieldKey struct {
	g *ssa.Global
	i int
}

// globalField is the constant in a field of a package-level struct that is
// set once, at initialisation (nil: not known).
func (p *Program) globalField(fa *ssa.FieldAddr) *Val {
	g, ok := fa.X.(*ssa.Global)
	if !ok || g.Pkg != p.SSA || len(p.gstore[g]) > 0 || len(p.ginit[g]) > 0 || p.gother[g] {
		return nil
	}
	vs := p.gfield[gfieldKey{g, fa.Field}]
	if len(vs) != 1 {
		return nil
	}
	c, ok := vs[0].(*ssa.Const)
	if !ok || c.Value == nil {
		return nil
	}
	return p.initVal(c)
}

// scanGlobals records who writes each package-level variable.
func (p *Program) scanGlobals() {
	p.gmaps = map[*ssa.Global]map[string]*Val{}
	p.gstore = map[*ssa.Global][]ssa.Instruction{}
	p.ginit = map[*ssa.Global][]ssa.Value{}
	p.gfield = map[gfieldKey][]ssa.Value{}
	p.gother = map[*ssa.Global]bool{}
	initf := p.SSA.Func("init")
	fs := append([]*ssa.Function{}, p.Funcs...)
	have := false
	for _, f := range fs {
		if f == initf {
			have = true
		}
	}
	if !have && initf != nil {
		fs = append(fs, initf)
	}
	for _, f := range fs {
		live := constLive(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && escapes(i, g) {
						p.gother[g] = true
					}
				}
				switch i := i.(type) {
				case *ssa.Store:
					if g := globalBase(i.Addr); g != nil {
						if isInit(f) {
							if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) {
								k := gfieldKey{g, fa.Field}
								p.gfield[k] = append(p.gfield[k], i.Val)
							} else if i.Addr != ssa.Value(g) {
								p.gother[g] = true
							}
							if i.Addr == ssa.Value(g) {
								p.ginit[g] = append(p.ginit[g], i.Val)
							}
						} else {
							p.gstore[g] = append(p.gstore[g], i)
						}
					}
				case *ssa.MapUpdate:
					if g := loadedGlobal(i.Map); g != nil && !isInit(f) {
						p.gstore[g] = append(p.gstore[g], i)
					}
				case *ssa.Call:
					if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						if g := loadedGlobal(i.Call.Args[0]); g != nil && !isInit(f) {
							p.gstore[g] = append(p.gstore[g], i)
						}
					}
				}
			}
		}
	}
	// constant tables
	for _, m := range p.SSA.Members {
		g, ok := m.(*ssa.Global)
		if !ok || len(p.gstore[g]) > 0 || len(p.ginit[g]) != 1 {
			continue
		}
		if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); !ok {
			continue
		}
		mk, ok := p.ginit[g][0].(*ssa.MakeMap)
		if !ok {
			continue
		}
		tab := map[string]*Val{}
		good := true
		addFrom := func(v ssa.Value) {
			if v.Referrers() == nil {
				return
			}
			for _, u := range *v.Referrers() {
				if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == v {
					k, ok := mu.Key.(*ssa.Const)
					if !ok || k.Value == nil {
						good = false
						return
					}
					tab[k.Value.ExactString()] = p.initVal(mu.Value)
				}
			}
		}
		addFrom(mk)
		// further updates in init functions through the global
		for _, f := range fs {
			if !isInit(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if mu, ok := i.(*ssa.MapUpdate); ok && loadedGlobal(mu.Map) == g {
						k, ok := mu.Key.(*ssa.Const)
						if !ok {
							good = false
							continue
						}
						tab[k.Value.ExactString()] = p.initVal(mu.Value)
					}
				}
			}
		}
		if good {
			p.gmaps[g] = tab
		}
	}
}

// constLive gives the blocks that constant conditions leave reachable.
func constLive(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) == 0 {
		return live
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if live[b] {
			continue
		}
		live[b] = true
		succs := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := i.Cond.(*ssa.Const); ok && c.Value != nil {
				if constant.BoolVal(c.Value) {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		work = append(work, succs...)
	}
	return live
}

func (p *Program) initVal(v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return constVal(v.Value)
	case *ssa.Function:
		return &Val{nilb: mayNon, fn: v}
	case *ssa.MakeClosure:
		return &Val{nilb: mayNon, fn: v.Fn.(*ssa.Function)}
	case *ssa.MakeInterface:
		return &Val{nilb: mayNon, dyn: v.X.Type(), inner: p.initVal(v.X)}
	case *ssa.ChangeType:
		return p.initVal(v.X)
	case *ssa.UnOp:
		if g := globalBase(v.X); g != nil && v.X == ssa.Value(g) && len(p.gstore[g]) == 0 && len(p.ginit[g]) == 1 {
			return p.initVal(p.ginit[g][0])
		}
	}
	return Top
}

// globalBase finds the global whose storage an address lies in.
func globalBase(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
			return loadedGlobal(x.X)
		default:
			return nil
		}
	}
}

func loadedGlobal(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return globalBase(u.X)
	}
	return nil
}

func (p *Program) globalMap(g *ssa.Global) map[string]*Val { return p.gmaps[g] }

func (p *Program) globalLoad(in *Interp, g *ssa.Global, t types.Type) *Val {
	if in.W.GlobalVal != nil {
		if v := in.W.GlobalVal(g); v != nil {
			return v
		}
	}
	if g.Pkg != p.SSA {
		// globals of other packages: error values like io.EOF are non-nil
		v := in.topOf(t).dup()
		if isErrorType(t) {
			v.nilb = mayNon
			if g.Name() == "EOF" && g.Pkg.Pkg.Path() == "io" {
				v.tag = "EOF"
			}
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			v.nilb = mayNon
		}
		v.str = ""
		return &v
	}
	if len(p.gstore[g]) > 0 {
		return in.topOf(t)
	}
	if p.gmaps[g] != nil {
		return &Val{nilb: mayNon, glob: g}
	}
	switch len(p.ginit[g]) {
	case 0:
		if _, ok := t.Underlying().(*types.Struct); ok {
			return in.topOf(t)
		}
		return zeroOf(t)
	case 1:
		v := p.ginit[g][0]
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				return zeroOf(t)
			}
			return constVal(c.Value)
		}
		if f, ok := v.(*ssa.Function); ok {
			return &Val{nilb: mayNon, fn: f}
		}
		tv := in.topOf(t).dup()
		if isRegexpPtr(t) {
			if pat, ok := p.globalRegexp(g); ok {
				tv.tag = "re:" + pat
			}
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Map:
			tv.nilb = mayNon
		}
		tv.str = ""
		return &tv
	}
	return in.topOf(t)
}

func (p *Program) isLoggerCall(c *ssa.CallCommon) bool {
	g := loadedGlobal(c.Value)
	return g != nil && g.Name() == "where"
}

func (p *Program) isColTypesField(n *types.Named, f string) bool {
	if n == nil || n.Obj().Pkg() != p.Types {
		return false
	}
	return f == "colTypes" || f == "ColTypes"
}

// colTypeUniverse: the valid column types, from the constant table used by IsValidColType.
func (p *Program) colTypeUniverse() []string {
	f := p.SSA.Func("IsValidColType")
	if f == nil {
		return nil
	}
	best := map[string]*Val{}
	var visit func(f *ssa.Function, d int)
	seen := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function, d int) {
		if f == nil || d > 3 || seen[f] || !p.inPkg(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if l, ok := i.(*ssa.Lookup); ok {
					if g := loadedGlobal(l.X); g != nil {
						if t := p.globalMap(g); len(t) > len(best) {
							best = t
						}
					}
				}
				if c, ok := i.(*ssa.Call); ok {
					visit(c.Call.StaticCallee(), d+1)
				}
			}
		}
	}
	visit(f, 0)
	var out []string
	for k := range best {
		s, err := unq(k)
		if err == nil {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func unq(s string) (string, error) {
	c := constant.MakeFromLiteral(s, token.STRING, 0)
	if c.Kind() != constant.String {
		return "", fmt.Errorf("not a string: %s", s)
	}
	return constant.StringVal(c), nil
}

// goType maps a column type name to the Go type of its cells.
func (p *Program) goType(name string) types.Type {
	switch name {
	case "*Table":
		return types.NewPointer(p.Table)
	case "time.Time":
		for _, imp := range p.Types.Imports() {
			if imp.Path() == "time" {
				return imp.Scope().Lookup("Time").Type()
			}
		}
		return nil
	case "[]byte", "[]uint8":
		return types.NewSlice(types.Typ[types.Uint8])
	case "byte":
		return types.Typ[types.Uint8]
	case "rune":
		return types.Typ[types.Int32]
	}
	if o := types.Universe.Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// exported reports the exported functions and methods of the package.
func (p *Program) Exported() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			if n := named(r.Type()); n == nil || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func (p *Program) Method(t, name string) *ssa.Function {
	o := p.Types.Scope().Lookup(t)
	if o == nil {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
		if m := p.Prog.LookupMethod(ty, p.Types, name); m != nil && m.Synthetic == "" {
			return m
		}
	}
	return nil
}

func shortName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/urban-wombat/gotables.", "")
	return s
}
