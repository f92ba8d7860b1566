package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = checkC14
	checks["C19"] = checkC19
	checks["C20"] = checkC20
}

// LGlob marks values obtained through package-level variables.
const LGlob Label = 1 << 20

// runGeneric analyses f with unconstrained, well-formed arguments.
func (p *Program) runGeneric(w *World, f *ssa.Function, obs func(in *Interp, ev *Event)) (*Interp, []Ret) {
	in := NewInterp(p, w)
	if debugInterp {
		t0 := time.Now()
		defer func() { fmt.Println("TIME", time.Since(t0).Milliseconds(), shortName(f), in.steps, len(in.memo)) }()
	}
	var args []*Val
	for j, q := range f.Params {
		args = append(args, in.argFor(fmt.Sprintf("arg%d", j), q.Type()))
	}
	rets := in.Run(f, args, nil, 0, func(ev *Event) { obs(in, ev) })
	return in, rets
}

func calleeName(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if c.IsInvoke() {
		return ""
	}
	if s := c.StaticCallee(); s != nil {
		return extName(s)
	}
	return ""
}

func checkC14(p *Program, tier string) *Result {
	r := newResult("C14")
	r.Rule = "abstract interpretation (SSA, interprocedural, path feasibility by constants and nilness) of every exported function and method with unconstrained arguments: no call that ends the process (os.Exit, log.Fatal*, runtime.Goexit, log.Panic*) is reachable, and no panic statement is reachable except in operations documented to panic instead of returning an error (MustGet, MustSet, MustMake)."
	r.NotCovered = "run-time panics (index, nil, assertion: C11, C12, C13); exhaustion of memory or stack (C24)."
	fs := p.Exported()
	n := len(fs)
	p.parallel(r, n, func(k int, r *Result) {
		f := fs[k]
		bad := 0
		name := shortName(f)
		in, _ := p.runGeneric(&World{Name: "any"}, f, func(in *Interp, ev *Event) {
			switch i := ev.Instr.(type) {
			case ssa.CallInstruction:
				switch nm := calleeName(i.Common()); nm {
				case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf", "log.Panicln", "syscall.Exit",
					"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf":
					if strings.Contains(nm, "Panic") && panicsByContract(f) {
						return
					}
					bad++
					r.add(fmt.Sprintf("exit|%s|%s|%s", name, nm, shortName(i.Parent())), p.posOf(i), in.pathString(), "%s can reach %s in %s", name, nm, shortName(i.Parent()))
				}
			case *ssa.Panic:
				if panicsByContract(f) || !i.Pos().IsValid() { // no position: compiler-generated (select)
					return
				}
				bad++
				r.add(fmt.Sprintf("panic|%s|%s", name, shortName(i.Parent())), p.posOf(i), in.pathString(), "%s can reach a panic statement in %s", name, shortName(i.Parent()))
			}
		})
		if in.over {
			r.Unknown = append(r.Unknown, name)
		}
		r.oblig(bad == 0)
	})
	r.count("exported functions and methods", n)
	return r
}

func checkC20(p *Program, tier string) *Result {
	r := newResult("C20")
	r.Rule = "abstract interpretation of every exported function and method that is not itself a printing utility (a Util function or one with Print in its name): no call of fmt.Print, fmt.Printf or fmt.Println, no use of os.Stdout and no redirection of the standard logger to it is reachable."
	var fs []*ssa.Function
	for _, f := range p.Exported() {
		if !strings.Contains(f.Name(), "Print") && !strings.HasPrefix(f.Name(), "Util") {
			fs = append(fs, f)
		}
	}
	n := len(fs)
	p.parallel(r, n, func(k int, r *Result) {
		f := fs[k]
		name := shortName(f)
		bad := 0
		in, _ := p.runGeneric(&World{Name: "any"}, f, func(in *Interp, ev *Event) {
			what := ""
			switch i := ev.Instr.(type) {
			case ssa.CallInstruction:
				switch nm := calleeName(i.Common()); nm {
				case "fmt.Print", "fmt.Printf", "fmt.Println":
					what = nm
				}
			case *ssa.UnOp:
				if g, ok := i.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
					what = "os.Stdout"
				}
			}
			if what != "" {
				bad++
				r.add(fmt.Sprintf("stdout|%s|%s|%s", name, what, shortName(ev.Instr.Parent())), p.posOf(ev.Instr), in.pathString(), "%s can write to standard output through %s in %s", name, what, shortName(ev.Instr.Parent()))
			}
		})
		if in.over {
			r.Unknown = append(r.Unknown, name)
		}
		r.oblig(bad == 0)
	})
	r.count("exported functions and methods", n)
	return r
}

// globalsWorld labels everything obtained through a mutable package-level
// reference.
func (p *Program) globalsWorld() *World {
	w := &World{Name: "any"}
	w.GlobalVal = func(g *ssa.Global) *Val {
		if g.Pkg != p.SSA || p.gmaps[g] != nil {
			return nil
		}
		t := g.Type().(*types.Pointer).Elem()
		switch u := t.Underlying().(type) {
		case *types.Map, *types.Slice:
			v := Top.dup()
			v.nilb = mayNon
			v.lab = LGlob
			return &v
		case *types.Pointer:
			if n := named(u.Elem()); n != nil && n.Obj().Pkg() != p.Types {
				return nil // e.g. *regexp.Regexp, safe for concurrent use
			}
			return &Val{nilb: mayNon, lab: LGlob, ty: named(u.Elem())}
		}
		return nil
	}
	return w
}

func checkC19(p *Program, tier string) *Result {
	r := newResult("C19")
	r.Rule = "abstract interpretation of every exported function and method: no reachable store, map update, delete or increment has a package-level variable (or an object reached through one) as its target, no process-wide setting is changed (math/rand.Seed, os.Setenv, os.Chdir, log.SetOutput/SetFlags/SetPrefix), and no atomic or sync primitive at package level is used to smuggle such state."
	r.NotCovered = "concurrent use of one table by several goroutines, which the library does not promise; functions whose documented purpose is to change a setting (none exist)."
	fs := p.Exported()
	n := len(fs)
	p.parallel(r, n, func(k int, r *Result) {
		f := fs[k]
		w := p.globalsWorld()
		bad := 0
		name := shortName(f)
		in, _ := p.runGeneric(w, f, func(in *Interp, ev *Event) {
			what := ""
			switch i := ev.Instr.(type) {
			case *ssa.Store:
				if g := globalBase(i.Addr); g != nil {
					what = g.Name()
				} else if a := ev.Val(i.Addr); a.lab&LGlob != 0 {
					what = "an object shared through a package-level variable"
				}
			case *ssa.MapUpdate:
				if g := loadedGlobal(i.Map); g != nil {
					what = g.Name()
				} else if a := ev.Val(i.Map); a.lab&LGlob != 0 {
					what = "a map shared through a package-level variable"
				}
			case ssa.CallInstruction:
				c := i.Common()
				switch nm := calleeName(c); nm {
				case "builtin.delete", "builtin.copy", "builtin.clear":
					if g := loadedGlobal(c.Args[0]); g != nil {
						what = g.Name()
					}
				case "math/rand.Seed", "os.Setenv", "os.Unsetenv", "os.Chdir", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "os.Clearenv":
					what = nm
				default:
					// a package-level variable whose address is handed to a callee
					for _, a := range c.Args {
						if g, ok := a.(*ssa.Global); ok && g.Pkg == p.SSA {
							what = g.Name()
						}
					}
				}
			}
			if what != "" {
				bad++
				r.add(fmt.Sprintf("global|%s|%s", what, shortName(ev.Instr.Parent())), p.posOf(ev.Instr), in.pathString(), "%s (reached from %s) writes %s", shortName(ev.Instr.Parent()), name, what)
			}
		})
		if in.over {
			r.Unknown = append(r.Unknown, name)
		}
		r.oblig(bad == 0)
	})
	r.count("exported functions and methods", n)
	r.count("package-level variables", len(p.globals()))
	return r
}

func (p *Program) globals() []*ssa.Global {
	var out []*ssa.Global
	for _, m := range p.SSA.Members {
		if g, ok := m.(*ssa.Global); ok {
			out = append(out, g)
		}
	}
	return out
}
