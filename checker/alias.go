package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aliases groups the slices and maps of the module that may be the same
// memory (unification over all assignments, calls, fields and elements). Two
// lists in different groups never share a backing array.
type aliases struct {
	w      *World
	parent []int
	elem   map[int]int // group of the elements
	vals   map[ssa.Value]int
	places map[string]int
	names  map[int][]string // places of a group
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (a *aliases) fresh() int {
	a.parent = append(a.parent, len(a.parent))
	return len(a.parent) - 1
}

func (a *aliases) find(x int) int {
	for a.parent[x] != x {
		a.parent[x] = a.parent[a.parent[x]]
		x = a.parent[x]
	}
	return x
}

func (a *aliases) union(x, y int) {
	x, y = a.find(x), a.find(y)
	if x == y {
		return
	}
	a.parent[y] = x
	ex, okx := a.elem[x]
	ey, oky := a.elem[y]
	if oky {
		delete(a.elem, y)
		if okx {
			a.union(ex, ey)
		} else {
			a.elem[x] = ey
		}
	}
}

func (a *aliases) elems(x int) int {
	x = a.find(x)
	e, ok := a.elem[x]
	if !ok {
		e = a.fresh()
		a.elem[x] = e
	}
	return a.find(e)
}

func (a *aliases) val(v ssa.Value) int {
	n, ok := a.vals[v]
	if !ok {
		n = a.fresh()
		a.vals[v] = n
	}
	return a.find(n)
}

func (a *aliases) place(k string) int {
	n, ok := a.places[k]
	if !ok {
		n = a.fresh()
		a.places[k] = n
	}
	return a.find(n)
}

// cell is the group of what is stored at an address.
func (a *aliases) cell(addr ssa.Value) int {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return a.place(fieldKey(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return a.elems(a.val(x.X))
		}
		return a.elems(a.cell(x.X)) // array
	case *ssa.Global:
		return a.place("var " + x.RelString(nil))
	case *ssa.FreeVar:
		return a.val(x)
	case *ssa.Alloc:
		return a.val(x)
	case *ssa.Phi, *ssa.Parameter:
		return a.val(addr)
	}
	return a.val(addr)
}

func newAliases(w *World) *aliases {
	a := &aliases{w: w, elem: map[int]int{}, vals: map[ssa.Value]int{}, places: map[string]int{}, names: map[int][]string{}}
	for _, f := range w.funcs {
		if !inRepoFn(f) || generated(w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.instr(f, in)
			}
		}
	}
	for k, n := range a.places {
		r := a.find(n)
		a.names[r] = append(a.names[r], k)
	}
	for _, v := range a.names {
		sort.Strings(v)
	}
	return a
}

// same relates two values, through structs too.
func (a *aliases) same(x, y ssa.Value) {
	if isRef(x.Type()) && isRef(y.Type()) || isPtr(x.Type()) && isPtr(y.Type()) {
		a.union(a.val(x), a.val(y))
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (a *aliases) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if isRef(x.Val.Type()) {
			a.union(a.cell(x.Addr), a.val(x.Val))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isRef(x.Type()) {
			a.union(a.val(x), a.cell(x.X))
		}
		if x.Op == token.ARROW && isRef(x.Type()) {
			a.union(a.val(x), a.elems(a.val(x.X)))
		}
	case *ssa.Field:
		if isRef(x.Type()) {
			a.union(a.val(x), a.place(fieldKey(x.X.Type(), x.Field)))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.same(x, e)
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a.union(a.val(x), a.cell(x.X))
		} else {
			a.same(x, x.X)
		}
	case *ssa.ChangeType:
		a.same(x, x.X)
	case *ssa.MakeInterface:
		if isRef(x.X.Type()) {
			a.union(a.val(x), a.val(x.X))
		}
	case *ssa.TypeAssert:
		if isRef(x.AssertedType) {
			a.union(a.val(x), a.val(x.X))
		}
	case *ssa.Lookup:
		if isRef(x.Type()) {
			a.union(a.val(x), a.elems(a.val(x.X)))
		}
		if tp, ok := x.Type().(*types.Tuple); ok && isRef(tp.At(0).Type()) {
			a.union(a.val(x), a.elems(a.val(x.X)))
		}
	case *ssa.Extract:
		if isRef(x.Type()) {
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
					a.union(a.val(x), a.elems(a.val(r.X)))
				}
			case *ssa.Lookup, *ssa.TypeAssert:
				if x.Index == 0 {
					a.union(a.val(x), a.val(x.Tuple))
				}
			case *ssa.UnOp:
				if x.Index == 0 {
					a.union(a.val(x), a.elems(a.val(t.X)))
				}
			case *ssa.Call:
				for _, g := range a.w.callees(&t.Call) {
					a.results(g, func(i int, v ssa.Value) {
						if i == x.Index {
							a.same(x, v)
						}
					})
				}
			}
		}
	case *ssa.MapUpdate:
		if isRef(x.Value.Type()) {
			a.union(a.elems(a.val(x.Map)), a.val(x.Value))
		}
	case *ssa.Send:
		if isRef(x.X.Type()) {
			a.union(a.elems(a.val(x.Chan)), a.val(x.X))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.union(a.val(g.FreeVars[i]), a.val(b))
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		com := ci.Common()
		if bi, ok := com.Value.(*ssa.Builtin); ok {
			v := ci.Value()
			if bi.Name() == "append" && v != nil {
				a.same(v, com.Args[0])
				if s, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && isRef(s.Elem()) && len(com.Args) > 1 {
					a.union(a.elems(a.val(v)), a.elems(a.val(com.Args[1])))
				}
			}
			return
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		for _, g := range a.w.callees(com) {
			if len(g.Blocks) == 0 {
				continue
			}
			for i, p := range g.Params {
				if i < len(args) {
					a.same(p, args[i])
				}
			}
			if v := ci.Value(); v != nil && isRef(v.Type()) {
				a.results(g, func(_ int, r ssa.Value) { a.same(v, r) })
			}
		}
	}
}

func (a *aliases) results(g *ssa.Function, f func(int, ssa.Value)) {
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range r.Results {
				f(i, v)
			}
		}
	}
}

func (a *aliases) describe(g int) string {
	if n := a.names[a.find(g)]; len(n) > 0 {
		return strings.Join(n, ", ")
	}
	return ""
}

// ---- what a piece of code reads and writes

type access struct {
	read, write bool
	pos         token.Pos // of the write, or the read
	what        string
}

type accesses map[string]*access

func (m accesses) add(k, what string, write bool, pos token.Pos) {
	x := m[k]
	if x == nil {
		x = &access{pos: pos, what: what}
		m[k] = x
	}
	if write {
		if !x.write {
			x.pos = pos
		}
		x.write = true
	} else {
		x.read = true
	}
}

type accessor struct {
	a     *aliases
	known map[ssa.Value]bool // flags (or variables that hold one) of known value
	after ssa.Instruction    // only what comes after this
	done  map[string]bool
	own   map[ssa.Value]bool // memory nobody else has
}

// flag: the value of a condition, if it is known
func (ac *accessor) flag(v ssa.Value) (val, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			val, ok = ac.flag(x.X)
			return !val, ok
		case token.MUL:
			if val, ok = ac.known[x.X]; ok {
				return val, ok
			}
			if al, isAl := x.X.(*ssa.Alloc); isAl {
				if s := onlyStore(al); s != nil {
					return ac.flag(s)
				}
			}
		}
	}
	val, ok = ac.known[v]
	return val, ok
}

// onlyStore: the one value that is ever put in a variable
func onlyStore(al *ssa.Alloc) ssa.Value {
	var only *ssa.Store
	n := 0
	var count func(v ssa.Value)
	count = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == v {
					only = x
					n++
				} else {
					n += 2 // its address is kept
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						count(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	count(al)
	if n != 1 || only.Parent() != al.Parent() || !before(al, only) || only.Block() != al.Block() && len(al.Parent().Blocks) > 0 && only.Block() != al.Parent().Blocks[0] {
		return nil
	}
	return only.Val
}

// live: the blocks of f that can run
func (ac *accessor) live(f *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if out[b] {
			return
		}
		out[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := ac.flag(iff.Cond); ok {
				if v {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return out
}

// flags: what is known about the parameters of g in a call
func (ac *accessor) flags(com *ssa.CallCommon, args []ssa.Value, g *ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for i, p := range g.Params {
		if i < len(args) {
			if v, ok := ac.flag(args[i]); ok {
				out[p] = v
			}
		}
	}
	if mc, ok := com.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if v, ok := ac.known[b]; ok {
				out[g.FreeVars[i]] = v
			} else if al, ok := b.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					if v, ok := ac.flag(s); ok {
						out[g.FreeVars[i]] = v
					}
				}
			}
		}
	}
	return out
}

// owned: address x lies in memory made here and not handed on
func (ac *accessor) owned(x ssa.Value) bool {
	for i := 0; i < 40; i++ {
		if ac.own[x] {
			return true
		}
		switch y := x.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			x = y.X
		case *ssa.IndexAddr:
			if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
				return ac.own[y.X]
			}
			x = y.X
		default:
			return false
		}
	}
	return false
}

// code adds the accesses of some blocks of fn and of what they call.
func (ac *accessor) code(fn *ssa.Function, blocks []*ssa.BasicBlock, out accesses) {
	a := ac.a
	live := ac.live(fn)
	for _, b := range blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ac.after != nil && in.Block() == ac.after.Block() && (in == ac.after || !before(ac.after, in)) {
				continue
			}
			pos := in.Pos()
			switch x := in.(type) {
			case *ssa.Store:
				ac.addr(x.Addr, true, pos, out)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					ac.addr(x.X, false, pos, out)
				}
			case *ssa.MapUpdate:
				ac.group(x.Map, true, pos, out)
			case *ssa.Lookup:
				ac.group(x.X, false, pos, out)
			case *ssa.Range:
				ac.group(x.X, false, pos, out)
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if bi, ok := com.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete":
					ac.group(com.Args[0], true, pos, out)
				case "copy":
					ac.group(com.Args[0], true, pos, out)
					ac.group(com.Args[1], false, pos, out)
				case "append":
					if shortened(com.Args[0]) {
						ac.group(com.Args[0], true, pos, out)
					}
					if len(com.Args) > 1 {
						ac.group(com.Args[1], false, pos, out)
					}
				case "len":
					if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
						ac.group(com.Args[0], false, pos, out)
					}
				}
				continue
			}
			args := com.Args
			if com.IsInvoke() {
				args = append([]ssa.Value{com.Value}, args...)
			}
			repo := false
			for _, g := range a.w.callees(com) {
				if len(g.Blocks) == 0 {
					continue
				}
				repo = true
				sub := &accessor{a: a, done: ac.done, own: map[ssa.Value]bool{}, known: ac.flags(com, args, g)}
				key := g.String()
				var ks []string
				for p, v := range sub.known {
					ks = append(ks, fmt.Sprint(p.Name(), v))
				}
				sort.Strings(ks)
				key += strings.Join(ks, " ")
				for i, p := range g.Params {
					if i < len(args) && isPtr(p.Type()) && ac.owned(args[i]) {
						sub.own[p] = true
						key += fmt.Sprint(" ", i)
					}
				}
				if mc, ok := com.Value.(*ssa.MakeClosure); ok {
					for i, bv := range mc.Bindings {
						if ac.owned(bv) {
							sub.own[g.FreeVars[i]] = true
							key += fmt.Sprint(" b", i)
						}
					}
				}
				if ac.done[key] {
					continue
				}
				ac.done[key] = true
				sub.code(g, g.Blocks, out)
			}
			if repo {
				continue
			}
			if sf := com.StaticCallee(); sf != nil && (pureExternal(sf) || ignoredExternal(sf)) {
				continue
			}
			if sorts(com) {
				v := com.Args[0]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if isRef(v.Type()) {
					ac.group(v, true, pos, out)
				}
				continue
			}
			// an object outside the module changes when it is used
			for _, arg := range args {
				if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL && isPtr(ld.Type()) {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						out.add("o:"+k, k, true, pos)
					}
				}
				if fl, ok := arg.(*ssa.Field); ok && isPtr(fl.Type()) {
					k := fieldKey(fl.X.Type(), fl.Field)
					out.add("o:"+k, k, true, pos)
				}
			}
		}
	}
}

// shortened: v is a list cut short, so that appending to it overwrites
func shortened(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			if x.High != nil {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					return true
				}
			}
			return walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			if isBuiltin(x, "append") {
				return walk(x.Call.Args[0])
			}
		case *ssa.UnOp:
			// a field emptied before in the same function
			if x.Op != token.MUL {
				return false
			}
			for _, b := range x.Parent().Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && sameAddr(s.Addr, x.X) && walk(s.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

func (ac *accessor) group(v ssa.Value, write bool, pos token.Pos, out accesses) {
	if !isRef(v.Type()) {
		return
	}
	g := ac.a.val(v)
	what := ac.a.describe(g)
	if what == "" {
		what = "a " + typeName(v.Type())
	}
	out.add(fmt.Sprint("g:", g), what, write, pos)
}

func (ac *accessor) addr(x ssa.Value, write bool, pos token.Pos, out accesses) {
	switch y := x.(type) {
	case *ssa.FieldAddr:
		if ac.owned(y) {
			return
		}
		k := fieldKey(y.X.Type(), y.Field)
		out.add("f:"+k, k, write, pos)
	case *ssa.IndexAddr:
		if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
			ac.group(y.X, write, pos, out)
			return
		}
		if !ac.owned(y) {
			ac.addr(y.X, write, pos, out)
		}
	case *ssa.Global:
		out.add("v:"+y.RelString(nil), y.Name(), write, pos)
	case *ssa.FreeVar:
		if !ac.own[y] {
			out.add("c:"+y.Name()+" "+y.Parent().String(), y.Name(), write, pos)
		}
	case *ssa.Alloc:
	default:
		// a pointer to a whole value
		if p, ok := x.Type().Underlying().(*types.Pointer); ok && !ac.owned(x) {
			if st, n, ok := repoStruct(p.Elem()); ok {
				for i := 0; i < st.NumFields(); i++ {
					k := n + "." + fieldName(p.Elem(), i)
					out.add("f:"+k, k, write, pos)
				}
			}
		}
	}
}
