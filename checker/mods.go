package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var modPrefix = "simulator/v2"

// World is the loaded program and the flow-insensitive facts about it.
type World struct {
	prog       *ssa.Program
	lpkgs      []*packages.Package
	pkgs       map[string]*ssa.Package
	funcs      []*ssa.Function
	modc       map[*ssa.Function]*rw
	taken      map[string][]*ssa.Function // signature -> address-taken functions
	named      []*types.Named             // concrete named types of the module
	mapFields  map[string][]string        // map type -> classes of fields holding it
	errs       []string
	alias      *aliases
	globalUses map[*ssa.Global][]ssa.Instruction
}

type rw struct {
	mod, ref map[string]bool
	events   bool
}

func inRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPrefix || strings.HasPrefix(p.Path(), modPrefix+"/"))
}

// repoStruct returns the struct type when t is a struct whose fields are tracked.
func repoStruct(t types.Type) (*types.Struct, string, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, "", false
	}
	if n, ok := t.(*types.Named); ok {
		if !inRepoPkg(n.Obj().Pkg()) {
			return nil, "", false
		}
		return st, typeName(n), true
	}
	if a, ok := t.(*types.Alias); ok {
		return repoStruct(types.Unalias(a))
	}
	return st, "struct", true
}

// leafClasses are the classes of all leaves of a value of type t stored at a
// place of class prefix (used when whole structs are stored).
func leafClasses(t types.Type, self string, add func(string)) {
	if st, name, ok := repoStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			leafClasses(f.Type(), "f:"+name+"."+fieldName(t, i), add)
		}
		return
	}
	add(self)
}

func (w *World) mapClasses(m ssa.Value, add func(string)) {
	mt := m.Type().Underlying().(*types.Map)
	base := w.mapClass(m)
	tc := "m:" + mt.String()
	add3 := func(c string) { add(c); add("mi" + c[1:]); add("ml" + c[1:]) }
	add3(base)
	if base == tc {
		for _, c := range w.mapFields[mt.String()] {
			add3(c)
		}
	} else {
		add3(tc)
	}
}

func (w *World) mapClass(m ssa.Value) string {
	switch x := m.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "m:" + fieldKey(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return "m:" + fieldKey(x.X.Type(), x.Field)
	}
	return "m:" + m.Type().Underlying().(*types.Map).String()
}

// fieldKey is Type.field for a (pointer to) struct type.
func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeName(t) + "." + fieldName(t, i)
}

func (w *World) addrClasses(a ssa.Value, add func(string)) {
	el := func() types.Type {
		if p, ok := a.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return a.Type()
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		leafClasses(el(), "f:"+fieldKey(x.X.Type(), x.Field), add)
	case *ssa.IndexAddr:
		leafClasses(el(), elemClass(el()), add)
	case *ssa.Global:
		leafClasses(el(), "g:"+x.RelString(nil), add)
	case *ssa.Alloc:
		if _, _, ok := repoStruct(el()); ok {
			// a fresh object: nothing that existed before changes
			return
		}
	default:
		leafClasses(el(), "p:"+el().String(), add)
	}
}

func elemClass(t types.Type) string { return "e:" + t.String() }

func (w *World) rw(fn *ssa.Function) *rw {
	if r, ok := w.modc[fn]; ok {
		return r
	}
	// transitive closure over the call graph
	res := &rw{mod: map[string]bool{}, ref: map[string]bool{}}
	cl := &closureOf{w: w, top: fn, in: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, dyn: map[*ssa.Function]bool{}}
	cl.walk(fn)
	for f := range cl.in {
		w.direct(cl, f, res)
	}
	plain := true
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			plain = false
		}
	}
	if plain {
		delete(res.mod, newObject) // what is made is not given back
	}
	w.modc[fn] = res
	return res
}

// closureOf is what a call of top may run.
type closureOf struct {
	w     *World
	top   *ssa.Function
	in    map[*ssa.Function]bool
	calls map[*ssa.Function][]*ssa.CallCommon // the calls that reach a function
	dyn   map[*ssa.Function]bool              // not all its calls are known
}

func (cl *closureOf) walk(f *ssa.Function) {
	if f == nil || cl.in[f] {
		return
	}
	cl.in[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok {
				cl.walk(m.Fn.(*ssa.Function))
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				for _, t := range cl.w.callees(com) {
					if com.StaticCallee() == t {
						cl.calls[t] = append(cl.calls[t], com)
					} else {
						cl.dyn[t] = true
					}
					cl.walk(t)
				}
			}
		}
	}
}

// fresh: the address is in a variable made during the call, so that nothing
// that was there before is touched.
func (cl *closureOf) fresh(a ssa.Value) bool {
	return cl.freshIn(a, map[ssa.Value]bool{})
}

func (cl *closureOf) freshIn(a ssa.Value, seen map[ssa.Value]bool) bool {
	for i := 0; i < 30; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			a = x.X
		case *ssa.FreeVar:
			if a = boundTo(x); a == nil {
				return false
			}
		case *ssa.Alloc:
			for p := cl.top.Parent(); p != nil; p = p.Parent() {
				if p == x.Parent() {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			f := x.Parent()
			if f == cl.top || cl.dyn[f] || len(cl.calls[f]) == 0 {
				return false
			}
			if seen[x] {
				return true
			}
			seen[x] = true
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, com := range cl.calls[f] {
					if i >= len(com.Args) || !cl.freshIn(com.Args[i], seen) {
						return false
					}
				}
				return true
			}
			return false
		default:
			return false
		}
	}
	return false
}

// boundTo is the variable a closure captures, nil if there are several.
func boundTo(v *ssa.FreeVar) ssa.Value {
	f := v.Parent()
	if f.Parent() == nil {
		return nil
	}
	var r ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				for i, fv := range f.FreeVars {
					if fv == v {
						if r != nil && r != mc.Bindings[i] {
							return nil
						}
						r = mc.Bindings[i]
					}
				}
			}
		}
	}
	return r
}

// ofCall: the address is a variable of the call or of one around it.
func ofCall(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FreeVar:
			return true
		case *ssa.Alloc:
			return !x.Heap
		default:
			return false
		}
	}
}

// newObject stands for what a call makes anew: it changes nothing that was
// there, but two calls do not give the same object.
const newObject = "new"

func (w *World) direct(cl *closureOf, f *ssa.Function, res *rw) {
	mod := func(c string) { res.mod[c] = true }
	ref := func(c string) { res.ref[c] = true }
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if cl.fresh(x.Addr) {
					if !ofCall(x.Addr) {
						mod(newObject)
					}
				} else {
					w.addrClasses(x.Addr, mod)
				}
			case *ssa.MapUpdate:
				w.mapClasses(x.Map, mod)
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					if !cl.fresh(x.X) {
						w.addrClasses(x.X, ref)
					}
				}
				if x.Op.String() == "<-" {
					res.events = true
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					w.mapClasses(x.X, ref)
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					w.mapClasses(x.X, ref)
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				res.events = true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						w.mapClasses(com.Args[0], mod)
					case "copy":
						if s, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
							mod(elemClass(s.Elem()))
						}
					case "len":
						if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
							w.mapClasses(com.Args[0], ref)
						}
					case "close":
						res.events = true
					}
				} else if sf := com.StaticCallee(); sf != nil && len(sf.Blocks) == 0 {
					if !pureExternal(sf) && !ignoredExternal(sf) {
						res.events = true
						for _, a := range com.Args {
							w.pointeeClasses(a.Type(), mod)
						}
					}
				}
			}
		}
	}
}

// pointeeClasses: classes an external function may write through a pointer argument.
func (w *World) pointeeClasses(t types.Type, add func(string)) {
	switch p := t.Underlying().(type) {
	case *types.Pointer:
		if _, _, ok := repoStruct(p.Elem()); ok {
			leafClasses(p.Elem(), "", func(s string) {
				if s != "" {
					add(s)
				}
			})
		}
	case *types.Slice:
		add(elemClass(p.Elem()))
	}
}

// callees resolves the module functions a call may reach.
func (w *World) callees(com *ssa.CallCommon) []*ssa.Function {
	if com.IsInvoke() {
		return w.implMethods(com.Value.Type(), com.Method)
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	return w.taken[sigKey(com.Signature())]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// implMethods are the methods of module types that an interface call may reach.
func (w *World) implMethods(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range w.named {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if !types.Implements(t, iface) {
				continue
			}
			sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := w.prog.MethodValue(sel); f != nil {
				out = append(out, f)
			}
			break
		}
	}
	return out
}

func extName(f *ssa.Function) string {
	if f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return f.String()
}

var purePkgs = map[string]bool{
	"math": true, "strings": true, "strconv": true, "errors": true, "unicode": true,
	"path": true, "path/filepath": true, "bytes": true, "math/bits": true,
}

func pureExternal(f *ssa.Function) bool {
	n := extName(f)
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if purePkgs[pkg] {
		return !strings.Contains(n, "Builder") && !strings.Contains(n, "Buffer")
	}
	switch pkg {
	case "time":
		switch n {
		case "time.Now", "time.Sleep", "time.After", "time.Since", "time.Tick", "time.NewTicker":
			return false
		}
		return true
	case "fmt":
		return n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Errorf" || n == "fmt.Sprintln"
	case "reflect":
		switch n {
		case "reflect.TypeOf", "reflect.ValueOf":
			return true
		}
		if i := strings.LastIndex(n, "."); strings.HasPrefix(n, "(reflect.Value)") {
			switch n[i+1:] {
			case "Kind", "Elem", "String", "Bool", "Interface", "MapIndex", "Int", "Float", "Len", "Index", "IsNil", "IsValid", "Type":
				return true
			}
		}
		return false
	case "github.com/spf13/viper":
		return strings.HasPrefix(n, "github.com/spf13/viper.Get") || n == "github.com/spf13/viper.IsSet"
	case "encoding/json":
		return n == "encoding/json.Marshal"
	}
	return n == "sort.Search"
}

// ignoredExternal: calls with no effect on anything the rules observe.
func ignoredExternal(f *ssa.Function) bool {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	return strings.HasPrefix(pkg, "go.uber.org/zap")
}
