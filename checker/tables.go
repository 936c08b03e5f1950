package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package level tables: variables that get their value in the initialiser of
// the package and are only read from there on.

type table struct {
	val  *Term
	keys []*Term // of a map, in order
	vals []*Term
}

// headers of the record files are judged by name
var judgedByName = map[string]bool{"csvHeaderIndexes": true, "logHeader": true}

func (w *World) usesOf(g *ssa.Global) []ssa.Instruction {
	if w.globalUses == nil {
		w.globalUses = map[*ssa.Global][]ssa.Instruction{}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o == nil {
							continue
						}
						if g, ok := (*o).(*ssa.Global); ok {
							w.globalUses[g] = append(w.globalUses[g], in)
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		for _, f := range w.funcs {
			walk(f)
		}
		for _, p := range w.prog.AllPackages() {
			if p.Pkg != nil && inRepoPkg(p.Pkg) {
				walk(p.Func("init"))
			}
		}
	}
	return w.globalUses[g]
}

// onlyReadValue: nothing reachable from v is changed or kept through v.
// Values taken out of it are followed when they are not plain.
func (w *World) onlyReadValue(v ssa.Value, seen map[ssa.Value]bool, plain bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, basic := v.Type().Underlying().(*types.Basic); basic {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	taken := func(x ssa.Value) bool { return plain || w.onlyReadValue(x, seen, plain) }
	addrRead := func(a ssa.Value) bool {
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op != token.MUL || !taken(x) {
					return false
				}
			case *ssa.FieldAddr:
				for _, y := range *x.Referrers() {
					if l, ok := y.(*ssa.UnOp); !ok || l.Op != token.MUL || !taken(l) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp:
		case *ssa.IndexAddr:
			if x.X != v || !addrRead(x) {
				return false
			}
		case *ssa.Lookup:
			if !taken(x) {
				return false
			}
		case *ssa.Range, *ssa.Extract, *ssa.Field:
			val := r.(ssa.Value)
			if _, isR := r.(*ssa.Range); isR {
				for _, n := range *val.Referrers() {
					if y, ok := n.(*ssa.Next); ok && !taken(y) {
						return false
					}
				}
			} else if !taken(val) {
				return false
			}
		case *ssa.Index:
			if !taken(x) {
				return false
			}
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
			if !w.onlyReadValue(r.(ssa.Value), seen, plain) {
				return false
			}
		case ssa.CallInstruction:
			com := x.Common()
			if com.Value == v {
				continue // a function of the table is called
			}
			if com.IsInvoke() {
				return false
			}
			if b, ok := com.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append", "copy":
					if com.Args[0] == v {
						return false
					}
				default:
					return false
				}
				continue
			}
			f := com.StaticCallee()
			if f == nil || f.Blocks == nil || !inRepoFn(f) {
				return false
			}
			for i, a := range com.Args {
				if a == v && (i >= len(f.Params) || !w.onlyReadValue(f.Params[i], seen, plain)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// tableOf is the fixed value of a package level variable, or nil.
func (e *Engine) tableOf(g *ssa.Global) *table {
	if t, ok := e.tables[g]; ok {
		return t
	}
	if e.tables == nil {
		e.tables = map[*ssa.Global]*table{}
	}
	e.tables[g] = nil
	e.tables[g] = e.initialValue(g)
	return e.tables[g]
}

func (e *Engine) initialValue(g *ssa.Global) *table {
	if g.Pkg == nil || g.Pkg.Pkg == nil || !inRepoPkg(g.Pkg.Pkg) || judgedByName[g.Name()] {
		return nil
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return nil // the linker can set it
	}
	var put *ssa.Store
	var loads []*ssa.UnOp
	for _, in := range e.w.usesOf(g) {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != g || put != nil || x.Parent() != g.Pkg.Func("init") {
				return nil
			}
			put = x
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			loads = append(loads, x)
		default:
			return nil
		}
	}
	if put == nil {
		return nil
	}
	// what builds the value
	need := map[ssa.Instruction]bool{}
	ok := true
	var want func(v ssa.Value)
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v && x != put {
					need[x] = true
					want(x.Val)
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					need[x] = true
					want(x.Key)
					want(x.Value)
				}
			case *ssa.IndexAddr:
				need[x] = true
				want(x.Index)
				uses(x)
			case *ssa.FieldAddr:
				need[x] = true
				uses(x)
			}
		}
	}
	want = func(v ssa.Value) {
		in, isIn := v.(ssa.Instruction)
		if !isIn {
			return
		}
		if need[in] {
			return
		}
		need[in] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap:
			uses(v)
		case *ssa.Slice:
			want(x.X)
		case *ssa.MakeClosure:
			ok = ok && len(x.Bindings) == 0
		case *ssa.Convert:
			want(x.X)
		case *ssa.ChangeType:
			want(x.X)
		case *ssa.MakeInterface:
			want(x.X)
		case *ssa.BinOp:
			want(x.X)
			want(x.Y)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, glob := x.X.(*ssa.Global); glob {
					ok = false
				}
			}
			want(x.X)
		case *ssa.IndexAddr:
			want(x.X)
		case *ssa.FieldAddr:
			want(x.X)
		default:
			ok = false
		}
	}
	want(put.Val)
	if !ok {
		return nil
	}
	fr := &frame{fn: put.Parent(), ctx: "init:" + g.Name()}
	f := &FS{env: map[ssa.Value]*Term{}, st: newState()}
	t := &table{}
	for _, b := range put.Parent().Blocks {
		for _, in := range b.Instrs {
			if !need[in] {
				continue
			}
			e.instr(fr, f, in)
			if mu, isM := in.(*ssa.MapUpdate); isM && mu.Map == put.Val {
				t.keys = append(t.keys, e.strip(e.val(fr, f, mu.Key)))
				t.vals = append(t.vals, e.deep(f.st, e.val(fr, f, mu.Value)))
			}
		}
	}
	t.val = e.deep(f.st, e.val(fr, f, put.Val))
	switch elem.Underlying().(type) {
	case *types.Slice:
		if t.val.op != OSeq || !allElems(t.val) {
			return nil
		}
	case *types.Map:
		for _, k := range t.keys {
			if k.op != OConst {
				return nil
			}
		}
	case *types.Basic:
		if t.val.op != OConst {
			return nil
		}
	case *types.Signature:
	default:
		return nil
	}
	plain := true
	if t.val.op == OSeq {
		for _, p := range t.val.args {
			plain = plain && allPlain(p.args[0])
		}
	}
	for _, v := range t.vals {
		plain = plain && allPlain(v)
	}
	for _, l := range loads {
		if !e.w.onlyReadValue(l, map[ssa.Value]bool{}, plain) {
			return nil
		}
	}
	return t
}

// allPlain: constants and functions only, which nothing can change.
func allPlain(t *Term) bool {
	return !contains(t, func(x *Term) bool {
		switch x.op {
		case OConst, OStruct, OClosure:
			return false
		case OCall:
			return !strings.HasPrefix(x.s, "iface:")
		}
		return true
	})
}

// literalMap is the table a lookup reads when it is written down and never
// changed: a package level variable, or a map literal of the function.
func (e *Engine) literalMap(fr *frame, f *FS, v ssa.Value) *table {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			return e.tableOf(g)
		}
		return nil
	}
	mk, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	t := &table{val: e.val(fr, f, v)}
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
		case *ssa.MapUpdate:
			k := e.strip(e.val(fr, f, x.Key))
			if x.Map != v || x.Block() != mk.Block() || k.op != OConst {
				return nil
			}
			t.keys = append(t.keys, k)
			t.vals = append(t.vals, e.val(fr, f, x.Value))
		case *ssa.Call:
			if !isBuiltin(x.Call.Value, "len") {
				return nil
			}
		default:
			return nil
		}
	}
	return t
}

// lookup splits a state by the entry of the table that a lookup finds.
func (e *Engine) lookup(fr *frame, f *FS, x *ssa.Lookup) []*FS {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	t := e.literalMap(fr, f, x.X)
	if t == nil || len(t.keys) == 0 || len(t.keys) > 40 {
		return nil
	}
	k := e.strip(e.val(fr, f, x.Index))
	give := func(g *FS, v *Term, p bool) {
		if x.CommaOk {
			g.set(x, e.u.Tuple(v, e.u.Bool(p)))
		} else {
			g.set(x, v)
		}
	}
	var out []*FS
	rest := f
	for i, key := range t.keys {
		q := e.u.EQ(k, key)
		switch e.u.decide(rest.st, q) {
		case 1:
			give(rest, t.vals[i], true)
			return append(out, rest)
		case 0:
			continue
		}
		g := rest.fork()
		g.st.setFact(q, true)
		give(g, t.vals[i], true)
		out = append(out, g)
		rest.st.setFact(q, false)
	}
	give(rest, e.zero(mt.Elem()), false)
	return append(out, rest)
}

// isTable: v is the value of a package level variable that never changes.
func (e *Engine) isTable(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	return ok && e.tableOf(g) != nil
}
