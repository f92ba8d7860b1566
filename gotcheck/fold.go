package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"html"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// foldable are pure functions of the standard library applied to constants
// during the analysis (constant propagation).
var foldable = map[string]interface{}{
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
	"strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.Title": strings.Title, "strings.Fields": strings.Fields, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPrint": unicode.IsPrint, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.ParseBool": strconv.ParseBool, "strconv.Atoi": strconv.Atoi,
	"strconv.ParseInt": strconv.ParseInt, "strconv.Unquote": strconv.Unquote, "strconv.ParseUint": strconv.ParseUint, "strconv.FormatUint": strconv.FormatUint, "strconv.FormatBool": strconv.FormatBool,
	"strconv.QuoteRune": strconv.QuoteRune, "strconv.QuoteRuneToASCII": strconv.QuoteRuneToASCII, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.CanBackquote": strconv.CanBackquote,
	"unicode/utf8.ValidRune": utf8.ValidRune,
	"path.Base":              path.Base, "path.Ext": path.Ext, "path/filepath.Base": filepath.Base, "path/filepath.Ext": filepath.Ext, "html.EscapeString": html.EscapeString,
}

func isConst(v *Val) bool {
	if len(v.cs) == 1 {
		return true
	}
	_, ok := v.int1()
	return ok
}

// goConst converts a constant value to a Go value of type t.
func goConst(v *Val, t reflect.Type) (reflect.Value, bool) {
	z := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.str1()
		if !ok {
			return z, false
		}
		z.SetString(s)
		return z, true
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		k, ok := v.int1()
		if !ok {
			return z, false
		}
		z.SetInt(k)
		return z, true
	case reflect.Uint8, reflect.Uint64, reflect.Uint:
		k, ok := v.int1()
		if !ok || k < 0 {
			return z, false
		}
		z.SetUint(uint64(k))
		return z, true
	case reflect.Bool:
		if len(v.cs) == 1 && v.cs[0].Kind() == constant.Bool {
			z.SetBool(constant.BoolVal(v.cs[0]))
			return z, true
		}
	}
	return z, false
}

// fold applies a pure function to constant arguments (nil: not possible).
func (in *Interp) fold(st *State, fn *ssa.Function, args []*Val) []*Val {
	if fn.Pkg == nil {
		return nil
	}
	if r := fn.Signature.Recv(); r != nil {
		if fn.Pkg.Pkg.Path() == "regexp" && len(args) > 0 && strings.HasPrefix(args[0].tag, "re:") {
			re, err := regexp.Compile(args[0].tag[3:])
			if err != nil {
				return nil
			}
			m := reflect.ValueOf(re).MethodByName(fn.Name())
			switch fn.Name() {
			case "MatchString", "FindString", "FindStringIndex", "ReplaceAllString", "Split", "ReplaceAllLiteralString", "FindAllString", "FindStringSubmatch":
				return in.foldCall(st, m, args[1:])
			}
		}
		return nil
	}
	name := fn.Pkg.Pkg.Path() + "." + fn.Name()
	switch name {
	case "regexp.MustCompile":
		if s, ok := args[0].str1(); ok {
			return []*Val{{nilb: mayNon, tag: "re:" + s}}
		}
		return nil
	case "regexp.MatchString":
		if s, ok := args[0].str1(); ok {
			if re, err := regexp.Compile(s); err == nil {
				if r := in.foldCall(st, reflect.ValueOf(re.MatchString), args[1:]); r != nil {
					return append(r, NilVal)
				}
			}
		}
		return nil
	}
	f, ok := foldable[name]
	if !ok {
		return nil
	}
	return in.foldCall(st, reflect.ValueOf(f), args)
}

func (in *Interp) foldCall(st *State, f reflect.Value, args []*Val) (out []*Val) {
	t := f.Type()
	if t.NumIn() != len(args) || t.IsVariadic() {
		return nil
	}
	var vs []reflect.Value
	var lab Label
	for i, x := range args {
		v, ok := goConst(x, t.In(i))
		if !ok {
			return nil
		}
		lab |= x.lab
		vs = append(vs, v)
	}
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	for _, r := range f.Call(vs) {
		var v *Val
		switch r.Kind() {
		case reflect.String:
			v = strVal(r.String())
		case reflect.Bool:
			v = boolVal(r.Bool())
		case reflect.Int, reflect.Int32, reflect.Int64:
			v = intVal(r.Int())
		case reflect.Uint64, reflect.Uint, reflect.Uint8:
			if r.Uint() > 1<<63-1 {
				v = intRange(64, false)
			} else {
				v = intVal(int64(r.Uint()))
			}
		case reflect.Interface: // error
			v = NilVal
			if !r.IsNil() {
				v = NonNil
			}
		case reflect.Slice:
			if r.IsNil() {
				v = NilVal
				break
			}
			v = &Val{nilb: mayNon, ln: intVal(int64(r.Len()))}
			if in.W.Heap && r.Len() <= in.maxEl() {
				a := &heapArr{}
				for k := 0; k < r.Len(); k++ {
					e := r.Index(k)
					if e.Kind() == reflect.String {
						a.elems = append(a.elems, strVal(e.String()))
					} else {
						a.elems = append(a.elems, intVal(e.Int()))
					}
				}
				if id := in.newCont(st, a); id != 0 {
					v = view(v, id, 0, r.Len())
				}
			}
		default:
			return nil
		}
		out = append(out, withLab(v, lab))
	}
	return out
}

// strIndex is one byte of a constant string.
func strIndex(x, k *Val) *Val {
	s, ok := x.str1()
	if !ok {
		return nil
	}
	i, ok := k.int1()
	if !ok || i < 0 || i >= int64(len(s)) {
		return nil
	}
	return withLab(intVal(int64(s[i])), x.lab)
}

// strSlice is a part of a constant string.
func strSlice(x, lo, hi *Val) *Val {
	s, ok := x.str1()
	if !ok || lo == nil {
		return nil
	}
	l, ok := lo.int1()
	if !ok {
		return nil
	}
	h := int64(len(s))
	if hi != nil {
		if h, ok = hi.int1(); !ok {
			return nil
		}
	}
	if l < 0 || h > int64(len(s)) || l > h {
		return nil
	}
	return withLab(strVal(s[l:h]), x.lab)
}

// constExpr evaluates a value of package initialisation to a string, if it is
// constant.
func (p *Program) constExpr(v ssa.Value, depth int) (string, bool) {
	if depth > 6 {
		return "", false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value), true
		}
	case *ssa.UnOp:
		if g := loadedGlobal(v); g != nil && v.X == ssa.Value(g) && len(p.gstore[g]) == 0 && len(p.ginit[g]) == 1 {
			return p.constExpr(p.ginit[g][0], depth+1)
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			a, ok := p.constExpr(v.X, depth+1)
			b, ok2 := p.constExpr(v.Y, depth+1)
			return a + b, ok && ok2
		}
	case *ssa.ChangeType:
		return p.constExpr(v.X, depth+1)
	case *ssa.MakeInterface:
		return p.constExpr(v.X, depth+1)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" || f.Name() != "Sprintf" {
			return "", false
		}
		format, ok := p.constExpr(v.Call.Args[0], depth+1)
		if !ok {
			return "", false
		}
		var args []interface{}
		if sl, ok := v.Call.Args[1].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return "", false
			}
			at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				return "", false
			}
			args = make([]interface{}, at.Len())
			for _, u := range *al.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					if u == ssa.Instruction(sl) {
						continue
					}
					return "", false
				}
				k, ok := ia.Index.(*ssa.Const)
				if !ok || len(*ia.Referrers()) != 1 {
					return "", false
				}
				st, ok := (*ia.Referrers())[0].(*ssa.Store)
				if !ok {
					return "", false
				}
				x, ok := p.constExpr(st.Val, depth+1)
				if !ok {
					return "", false
				}
				args[k.Int64()] = x
			}
		} else if c, ok := v.Call.Args[1].(*ssa.Const); !ok || c.Value != nil {
			return "", false
		}
		return fmt.Sprintf(format, args...), true
	}
	return "", false
}

// globalRegexp is the pattern of a regular expression held by a package-level
// variable that is set once, at initialisation.
func (p *Program) globalRegexp(g *ssa.Global) (string, bool) {
	if len(p.gstore[g]) > 0 || len(p.ginit[g]) != 1 {
		return "", false
	}
	c, ok := p.ginit[g][0].(*ssa.Call)
	if !ok || c.Call.IsInvoke() {
		return "", false
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "regexp" || f.Name() != "MustCompile" {
		return "", false
	}
	return p.constExpr(c.Call.Args[0], 0)
}

func isRegexpPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := named(pt.Elem())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "regexp"
}
