package main

import (
	"go/token"
	"go/types"
	"math/big"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) doCall(fr *frame, f *FS, in ssa.Instruction, val ssa.Value) []*FS {
	com := in.(ssa.CallInstruction).Common()
	var fn, recv *Term
	if com.IsInvoke() {
		recv = e.val(fr, f, com.Value)
	} else {
		fn = e.val(fr, f, com.Value)
	}
	var args []*Term
	for _, a := range com.Args {
		args = append(args, e.val(fr, f, a))
	}
	return e.callWith(fr, f, in, val, com, fn, recv, args)
}

func (e *Engine) bind(f *FS, val ssa.Value, r ...*Term) {
	if val == nil {
		return
	}
	if t, ok := val.Type().(*types.Tuple); ok {
		if t.Len() == 0 {
			return
		}
		if len(r) == 1 && r[0].op == OTuple {
			f.set(val, r[0])
			return
		}
		f.set(val, e.u.Tuple(r...))
		return
	}
	if len(r) > 0 {
		f.set(val, r[0])
	}
}

func results(com *ssa.CallCommon) *types.Tuple { return com.Signature().Results() }

func (e *Engine) callWith(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, com *ssa.CallCommon, fn, recv *Term, args []*Term) []*FS {
	e.sites++
	if com.IsInvoke() {
		return e.invoke(fr, f, in, val, com, recv, args)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, f, in, val, b.Name(), com, args)
	}
	if fn.op == OClosure {
		target := fn.fn
		if len(target.Blocks) > 0 {
			if e.opaque == nil || helper(target) || !e.opaque(target) {
				return e.inline(fr, f, in, val, target, fn.args, args)
			}
			return e.opaqueCall(fr, f, in, val, target, args)
		}
		return e.external(fr, f, in, val, target, com, args)
	}
	// unknown function value
	res := results(com)
	mods := map[string]bool{}
	for _, t := range e.w.taken[sigKey(com.Signature())] {
		for c := range e.w.rw(t).mod {
			mods[c] = true
		}
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		if len(mods) == 0 {
			rs = append(rs, e.u.Call("dyn#"+itoa(i), append([]*Term{fn}, e.stripAll(args)...)...))
		} else {
			rs = append(rs, e.fresh(fr, in, "dyn#"+itoa(i), append([]*Term{fn}, e.stripAll(args)...)...))
		}
	}
	if len(mods) > 0 {
		e.event(f, &Event{kind: "dyncall", recv: fn, args: e.stripAll(args), pos: in.Pos(), ctx: fr.ctx})
		e.u.clobber(f.st, mods, e.fresh(fr, in, "dyncall"))
	}
	e.bind(f, val, rs...)
	return []*FS{f}
}

func (e *Engine) stripAll(a []*Term) []*Term {
	out := make([]*Term, len(a))
	for i, x := range a {
		out[i] = e.strip(x)
	}
	return out
}

func (e *Engine) inline(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, target *ssa.Function, binds, args []*Term) []*FS {
	rec := false
	for _, s := range fr.stack {
		if s == target {
			rec = true
		}
	}
	if rec || len(fr.stack) > e.maxDepth {
		if len(fr.stack) > e.maxDepth && !rec {
			e.giveUp("call depth limit at %s", target)
		}
		return e.opaqueCall(fr, f, in, val, target, args)
	}
	ctx := e.site(fr, in)
	// short contexts: keep the chain but not the prefix of the same function
	outs := e.exec(target, args, binds, f.st, ctx, fr.ks, fr.stack)
	var res []*FS
	for _, o := range outs {
		if o.kind != "return" {
			fr.outs = append(fr.outs, o)
			continue
		}
		g := &FS{env: f.env, eshare: true, st: o.st, defers: f.defers, prev: f.prev}
		f.eshare = true
		e.bind(g, val, o.ret...)
		if val != nil && len(o.ret) == 1 && g.env[val] == nil {
			g.set(val, o.ret[0])
		}
		res = append(res, g)
	}
	return res
}

// opaqueCall: a module function that is not followed.
func (e *Engine) opaqueCall(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, target *ssa.Function, args []*Term) []*FS {
	rw := e.w.rw(target)
	name := fnName(target)
	a := e.stripAll(args)
	var rs []*Term
	n := target.Signature.Results().Len()
	st := e.stamp(f.st, rw.ref)
	for i := 0; i < n; i++ {
		if len(rw.mod) == 0 && !rw.events {
			rs = append(rs, e.u.Call("fn:"+name+"#"+itoa(i), append(a[:len(a):len(a)], st)...))
		} else {
			rs = append(rs, e.fresh(fr, in, "ret#"+itoa(i)+":"+name, a...))
		}
	}
	if len(rw.mod) > 0 || rw.events {
		ev := &Event{kind: "fn", name: name, args: a, pos: in.Pos(), ctx: fr.ctx}
		if n == 1 {
			ev.ret = rs[0]
		} else if n > 1 {
			ev.ret = e.u.Tuple(rs...)
		}
		e.event(f, ev)
		e.u.clobber(f.st, rw.mod, e.fresh(fr, in, "fn:"+name, a...))
	}
	e.bind(f, val, rs...)
	return []*FS{f}
}

// stamp identifies the last event that changed what refs reads.
func (e *Engine) stamp(s *State, refs map[string]bool) *Term {
	for i := len(s.mem.clobs) - 1; i >= 0; i-- {
		c := s.mem.clobs[i]
		if c.classes == nil {
			if refs[classOf(c.at)] {
				return c.tag
			}
			continue
		}
		for k := range c.classes {
			if refs[k] {
				return c.tag
			}
		}
	}
	return e.u.Nil()
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return typeName(n)
	}
	return "interface"
}

func (e *Engine) invoke(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, com *ssa.CallCommon, recv *Term, args []*Term) []*FS {
	var dt types.Type
	inner := recv
	if recv.op == OCall && strings.HasPrefix(recv.s, "iface:") {
		dt = e.types[recv]
		inner = recv.args[0]
	} else if t, ok := e.dyn[recv]; ok {
		dt = t
	}
	if dt != nil {
		sel := e.w.prog.MethodSets.MethodSet(dt).Lookup(com.Method.Pkg(), com.Method.Name())
		if sel != nil {
			if m := e.w.prog.MethodValue(sel); m != nil && len(m.Blocks) > 0 {
				return e.inline(fr, f, in, val, m, nil, append([]*Term{inner}, args...))
			}
		}
	}
	if m := com.Method; m.Pkg() != nil && m.Pkg().Path() == matPkg && e.matCall(fr, f, in, val, "("+matPkg+".Matrix)."+m.Name(), com, append([]*Term{recv}, args...)) {
		return []*FS{f}
	}
	name := ifaceName(com.Value.Type()) + "." + methodName(com.Method)
	a := e.stripAll(args)
	impls := e.w.implMethods(com.Value.Type(), com.Method)
	mods, refs := map[string]bool{}, map[string]bool{}
	events := len(impls) == 0
	for _, m := range impls {
		r := e.w.rw(m)
		for c := range r.mod {
			mods[c] = true
		}
		for c := range r.ref {
			refs[c] = true
		}
		events = events || r.events
	}
	if len(impls) == 0 && com.Method.Name() == "Error" {
		e.bind(f, val, e.u.Call("error.Error", e.strip(recv)))
		return []*FS{f}
	}
	n := results(com).Len()
	base := append([]*Term{e.strip(recv)}, a...)
	var rs []*Term
	pure := len(mods) == 0 && !events
	var st *Term
	if pure {
		st = e.stamp(f.st, refs)
	}
	for i := 0; i < n; i++ {
		if pure {
			rs = append(rs, e.u.Call(name+suffix(i), append(base[:len(base):len(base)], st)...))
		} else {
			rs = append(rs, e.fresh(fr, in, name+suffix(i), base...))
		}
	}
	if !pure {
		ev := &Event{kind: "invoke", name: name, recv: e.strip(recv), args: a, pos: in.Pos(), ctx: fr.ctx}
		if n == 1 {
			ev.ret = rs[0]
		} else if n > 1 {
			ev.ret = e.u.Tuple(rs...)
		}
		e.event(f, ev)
		e.u.clobber(f.st, mods, e.fresh(fr, in, "ev:"+name, base...))
	}
	e.bind(f, val, rs...)
	return []*FS{f}
}

func suffix(i int) string {
	if i == 0 {
		return ""
	}
	return "#" + itoa(i)
}

func (e *Engine) builtin(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, name string, com *ssa.CallCommon, args []*Term) []*FS {
	u := e.u
	switch name {
	case "append":
		if len(args) == 1 {
			e.bind(f, val, args[0])
			break
		}
		y := e.deep(f.st, args[1])
		x := args[0]
		if x.op == OInit && x.args[0].op == OMapAt {
			// a list that is not in the map is empty
			at := x.args[0]
			in := u.Init(u.mk(Term{op: OMapIn, s: "mi" + at.s[1:], args: at.args}))
			if u.decide(f.st, in) == 0 {
				x = u.Seq()
			}
		}
		if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
			x, y = e.spelled(f.st, x, sl.Elem()), e.spelled(f.st, y, sl.Elem())
		}
		q := u.Seq(u.Spread(x), u.Spread(y))
		if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && q.op == OSeq && y.op == OSeq && len(y.args) == 1 && y.args[0].op == OElem {
			// the appended element is newer than what was forgotten of its class
			cls := elemClass(sl.Elem())
			_, _, isS := repoStruct(sl.Elem())
			for _, c := range f.st.mem.clobs {
				if c.classes[cls] && !isS {
					if allElems(q) {
						for i, p := range q.args {
							u.write(f.st, u.Index(q, u.Int(int64(i)), cls), p.args[0])
						}
					} else {
						u.write(f.st, u.Index(q, u.Len(x), cls), y.args[0].args[0])
					}
					break
				}
			}
		}
		e.bind(f, val, q)
	case "len":
		t := com.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			_, _, ln := e.mapAddr(args[0], u.Nil(), t)
			e.bind(f, val, e.readAt(f.st, ln))
		} else if ch, ok := t.Underlying().(*types.Chan); ok {
			_ = ch
			e.bind(f, val, e.fresh(fr, in, "chanlen", args[0]))
		} else if p, ok := t.Underlying().(*types.Pointer); ok {
			e.bind(f, val, u.Int(p.Elem().Underlying().(*types.Array).Len()))
		} else {
			e.bind(f, val, u.Len(args[0]))
		}
	case "cap":
		e.bind(f, val, u.Call("cap", args[0]))
	case "copy":
		moved := e.fitting(f.st, args)
		e.event(f, &Event{kind: "copy", args: []*Term{args[0], args[1]}, pos: in.Pos(), ctx: fr.ctx})
		cl := map[string]bool{}
		if s, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
			cl[elemClass(s.Elem())] = true
		}
		n, m := u.Len(args[0]), u.Len(args[1])
		if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && e.unrollMax > 0 && isNum(n) && isNum(m) && isFreshSeq(args[0]) && args[0].op == OCall {
			if m.rat.Cmp(n.rat) < 0 {
				n = m
			}
			cls := elemClass(sl.Elem())
			for i := int64(0); u.Int(i).rat.Cmp(n.rat) < 0; i++ {
				x := e.readAt(f.st, u.Index(args[1], u.Int(i), cls))
				u.write(f.st, u.Index(args[0], u.Int(i), cls), x)
			}
		} else if isFreshSeq(args[0]) && args[0].op == OCall {
			// filling a fresh buffer does not change anything else
			e.u.write(f.st, u.mk(Term{op: OIndex, s: "copied", args: []*Term{args[0], u.Nil()}}), args[1])
		} else {
			u.clobber(f.st, cl, e.fresh(fr, in, "copy", args...))
		}
		if moved != nil {
			e.bind(f, val, moved)
			break
		}
		e.bind(f, val, e.fresh(fr, in, "copied", args...))
	case "delete":
		at, inn, ln := e.mapAddr(args[0], e.strip(args[1]), com.Args[0].Type())
		e.mapSet(f.st, fr, in, at, inn, ln, false)
		u.write(f.st, at, e.zero(com.Args[0].Type().Underlying().(*types.Map).Elem()))
	case "close":
		e.event(f, &Event{kind: "close", recv: args[0], pos: in.Pos(), ctx: fr.ctx})
	case "min", "max":
		e.bind(f, val, u.Call(name, args...))
	case "print", "println":
	case "ssa:wrapnilchk":
		e.bind(f, val, args[0])
	case "recover":
		e.bind(f, val, e.fresh(fr, in, "recover"))
	default:
		e.bind(f, val, e.fresh(fr, in, name, args...))
	}
	return []*FS{f}
}

func (e *Engine) external(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, target *ssa.Function, com *ssa.CallCommon, args []*Term) []*FS {
	u := e.u
	name := extName(target)
	one := []*FS{f}
	if ignoredExternal(target) {
		if n := results(com).Len(); n == 1 {
			e.bind(f, val, u.Call("ext:"+name))
		} else if n > 1 {
			var rs []*Term
			for i := 0; i < n; i++ {
				rs = append(rs, u.Call("ext:"+name+suffix(i)))
			}
			e.bind(f, val, rs...)
		}
		if strings.HasSuffix(name, ".Fatal") || strings.HasSuffix(name, ".Panic") {
			fr.outs = append(fr.outs, Out{"abort", nil, f.st, in.Pos()})
			return nil
		}
		return one
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf":
		fr.outs = append(fr.outs, Out{"abort", e.stripAll(args), f.st, in.Pos()})
		return nil
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print":
		e.bind(f, val, u.Int(0), u.Nil())
		return one
	case "encoding/json.Unmarshal":
		data := e.strip(args[0])
		p := e.strip(args[1])
		t := com.Args[1]
		var pt types.Type = t.Type()
		if mi, ok := t.(*ssa.MakeInterface); ok {
			pt = mi.X.Type()
		} else if args[1].op == OCall && strings.HasPrefix(args[1].s, "iface:") && e.types[args[1]] != nil {
			pt = e.types[args[1]]
		}
		errT := u.Call("json.err", data, u.Call("t:"+pt.String()))
		if ptr, ok := pt.Underlying().(*types.Pointer); ok {
			e.store(f.st, p, ptr.Elem(), e.decoded(data, ptr.Elem(), ""))
		}
		e.event(f, &Event{kind: "call", name: name, args: []*Term{data, p}, pos: in.Pos(), ctx: fr.ctx})
		if e.after != nil {
			e.after(f.st, &Event{kind: "call", name: name, args: []*Term{data, p}})
		}
		e.bind(f, val, errT)
		return one
	}
	if putBytes(e, fr, f, name, com, args) {
		return one
	}
	if strings.Contains(name, matPkg) && e.matCall(fr, f, in, val, name, com, args) {
		return one
	}
	if name == "sort.Search" && len(args) == 2 {
		if p := e.lambda(fr, f, in, args[1], 1); p != nil {
			e.bind(f, val, u.Call(name, args[0], p))
			return one
		}
	}
	if (name == "sort.Slice" || name == "sort.SliceStable") && len(args) == 2 {
		if p := e.lambda(fr, f, in, args[1], 2); p != nil {
			args = []*Term{args[0], p}
		}
	}
	if (name == "sort.Sort" || name == "sort.Stable") && len(args) == 1 {
		if p := e.lessOf(fr, f, in, args[0]); p != nil {
			args = []*Term{args[0], p}
		}
	}
	a := make([]*Term, len(args))
	for i, x := range args {
		d := e.deep(f.st, x)
		a[i] = e.strip(d)
		if strings.HasPrefix(name, "fmt.Sprint") {
			e.wholeArgs = wholeNumbers(d)
		}
	}
	if pureExternal(target) {
		if name == "encoding/json.Marshal" {
			src := com.Args[0]
			t := a[0]
			if mi, ok := src.(*ssa.MakeInterface); ok {
				if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
					_ = p
					t = a[0]
				}
			}
			e.bind(f, val, u.Call("json", t), u.Call("json.marshalerr", t))
			return one
		}
		if r := e.pureCall(name, a); r != nil {
			e.bind(f, val, r)
			return one
		}
		if name == "path/filepath.Abs" {
			// relative to the folder the process works in
			if wd := u.workDir(); f.st.mem.ents[wd] != nil {
				a = append(a, e.readAt(f.st, wd))
			}
		}
		n := results(com).Len()
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, u.Call(name+suffix(i), a...))
		}
		e.bind(f, val, rs...)
		return one
	}
	n := results(com).Len()
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, e.fresh(fr, in, name+suffix(i), a...))
	}
	ev := &Event{kind: "call", name: name, args: a, pos: in.Pos(), ctx: fr.ctx}
	if n == 1 {
		ev.ret = rs[0]
	} else if n > 1 {
		ev.ret = u.Tuple(rs...)
	}
	e.event(f, ev)
	if name == "os.Chdir" {
		u.write(f.st, u.workDir(), a[0])
	}
	cl := map[string]bool{}
	for _, x := range com.Args {
		t := x.Type()
		if mi, ok := x.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		e.w.pointeeClasses(t, func(c string) { cl[c] = true })
		if _, isF := t.Underlying().(*types.Signature); isF {
			if c, ok := e.val(fr, f, x), true; ok && c.op == OClosure {
				for k := range e.w.rw(c.fn).mod {
					cl[k] = true
				}
			}
		}
	}
	for i, x := range com.Args {
		t := x.Type()
		if mi, ok := x.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && a[i].op == OAlloc {
			if _, _, rs := repoStruct(p.Elem()); !rs {
				u.write(f.st, a[i], e.fresh(fr, in, "out", a[i]))
			}
		}
	}
	if len(cl) > 0 {
		u.clobber(f.st, cl, e.fresh(fr, in, "call:"+name))
	}
	if e.after != nil {
		e.after(f.st, ev)
	}
	e.bind(f, val, rs...)
	return one
}

// workDir is the cell of the folder the process works in.
func (u *U) workDir() *Term { return u.Field(u.Sym("process"), "os.workdir") }

// putBytes: the bytes of a number are written to a part of a local array.
func putBytes(e *Engine, fr *frame, f *FS, name string, com *ssa.CallCommon, args []*Term) bool {
	n := map[string]int64{"PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[name[strings.LastIndex(name, ".")+1:]]
	big := strings.HasPrefix(name, "(encoding/binary.bigEndian)")
	if n == 0 || !big && !strings.HasPrefix(name, "(encoding/binary.littleEndian)") || len(com.Args) != 3 {
		return false
	}
	sl, ok := com.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	p, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return false
	}
	lo := e.u.Int(0)
	if sl.Low != nil {
		lo = e.val(fr, f, sl.Low)
	}
	if !isNum(lo) {
		return false
	}
	base := e.val(fr, f, sl.X)
	for i := int64(0); i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		e.u.write(f.st, e.u.Index(base, e.u.Add(lo, e.u.Int(i)), elemClass(arr.Elem())), e.u.Call("byte", args[2], e.u.Int(k)))
	}
	return true
}

// lambda is the body of a side effect free function value as a term over
// bound variables, nil when it has several outcomes.
func (e *Engine) lambda(fr *frame, f *FS, in ssa.Instruction, fn *Term, n int) *Term {
	fn = e.strip(fn)
	if fn.op != OClosure || len(fn.fn.Blocks) == 0 || len(fn.fn.Params) != n {
		return nil
	}
	return e.bodyOf(fr, f, in, fn.fn, nil, fn.args, n)
}

// lessOf is the order of a value that is sorted by its own methods.
func (e *Engine) lessOf(fr *frame, f *FS, in ssa.Instruction, x *Term) *Term {
	t := e.types[x]
	if x.op != OCall || !strings.HasPrefix(x.s, "iface:") || t == nil {
		return nil
	}
	for _, n := range e.w.named {
		if !types.Identical(n, deref(t)) {
			continue
		}
		sel := e.w.prog.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), "Less")
		if sel == nil {
			return nil
		}
		m := e.w.prog.MethodValue(sel)
		if m == nil || len(m.Blocks) == 0 || len(m.Params) != 3 {
			return nil
		}
		return e.bodyOf(fr, f, in, m, x.args[:1], nil, 2)
	}
	return nil
}

// bodyOf is the result of a function without effects, over n bound arguments.
func (e *Engine) bodyOf(fr *frame, f *FS, in ssa.Instruction, fn *ssa.Function, first, binds []*Term, n int) *Term {
	rw := e.w.rw(fn)
	if len(rw.mod) > 0 || rw.events {
		return nil
	}
	var args []*Term
	for i := 0; i < n; i++ {
		args = append(args, e.u.Sym("λ"+itoa(i)))
	}
	outs := e.exec(fn, append(first[:len(first):len(first)], args...), binds, f.st.fork(), e.site(fr, in), fr.ks, fr.stack)
	var t *Term
	for _, o := range outs {
		if o.kind != "return" || len(o.ret) != 1 || t != nil {
			return nil
		}
		t = o.ret[0]
	}
	if t == nil {
		return nil
	}
	for _, x := range args {
		t = e.u.Bind(t, x)
	}
	return t
}

// decoded is the value of type t decoded from data.
func (e *Engine) decoded(data *Term, t types.Type, path string) *Term {
	if st, name, ok := repoStruct(t); ok {
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, e.decoded(data, st.Field(i).Type(), path+"."+fieldName(t, i)))
		}
		return e.u.mk(Term{op: OStruct, s: name, args: as})
	}
	return e.u.Call("decoded"+path, data)
}

// wholeNumbers tells which of the values handed to a formatting function are
// plain integers, which print alike as %v and %d.
func wholeNumbers(args *Term) []bool {
	if args.op != OSeq {
		return nil
	}
	var out []bool
	for _, p := range args.args {
		w := false
		if p.op == OElem && p.args[0].op == OCall {
			switch p.args[0].s {
			case "iface:int", "iface:int8", "iface:int16", "iface:int32", "iface:int64", "iface:uint", "iface:uint8", "iface:uint16", "iface:uint32", "iface:uint64":
				w = true
			}
		}
		out = append(out, w)
	}
	return out
}

// pureCall canonicalises well known pure functions.
func (e *Engine) pureCall(name string, a []*Term) *Term {
	u := e.u
	switch name {
	case "fmt.Sprintf":
		if a[0].op == OConst && len(a) == 2 && a[1].op == OSeq && allElems(a[1]) {
			if r := e.sprintf(a[0].s, a[1].args); r != nil {
				return r
			}
		}
		if a[0].op == OConst && len(a) == 2 && a[1].op == OSeq && len(a[1].args) == 0 {
			return a[0]
		}
	case "fmt.Sprint":
		if len(a) == 1 && a[0].op == OSeq && len(a[0].args) == 1 && allElems(a[0]) {
			if x := e.strip(a[0].args[0].args[0]); x.op == OConst && x.kind == 's' {
				return x
			}
			if len(e.wholeArgs) == 1 && e.wholeArgs[0] {
				return u.Call("%d", a[0].args[0].args[0])
			}
			return u.Call("%v", a[0].args[0].args[0])
		}
	case "strconv.Itoa":
		return u.Call("%d", a[0])
	case "strconv.FormatInt":
		if isNum(a[1]) && a[1].s == "10" {
			return u.Call("%d", a[0])
		}
	case "strconv.FormatFloat":
		if a[1].s == "102" && isNum(a[2]) {
			return u.Call("%."+a[2].s+"f", a[0])
		}
	case "(time.Time).Sub":
		if a[0] == a[1] {
			return u.Int(0)
		}
	case "(time.Duration).Hours", "(time.Duration).Minutes", "(time.Duration).Seconds":
		if isNum(a[0]) && a[0].rat.Sign() == 0 {
			return a[0]
		}
	case "math.Max", "math.Min":
		return e.bounds(name, a[0], a[1])
	case "strings.Compare":
		return nil
	case "strings.ToUpper", "strings.ToLower":
		if a[0].op == OConst && a[0].kind == 's' {
			if name == "strings.ToUpper" {
				return u.Str(strings.ToUpper(a[0].s))
			}
			return u.Str(strings.ToLower(a[0].s))
		}
	case "path/filepath.Ext", "path.Ext":
		if a[0].op == OConst {
			return u.Str(path.Ext(a[0].s))
		}
	case "strings.HasSuffix":
		if a[0].op == OConst && a[1].op == OConst {
			return u.Bool(strings.HasSuffix(a[0].s, a[1].s))
		}
	case "math.Abs":
		if isNum(a[0]) {
			return u.Num(new(big.Rat).Abs(a[0].rat))
		}
	case "math.Pow":
		if isNum(a[0]) && isNum(a[1]) && a[1].rat.IsInt() && a[1].rat.Sign() >= 0 && a[1].rat.Num().Int64() < 64 {
			r := big.NewRat(1, 1)
			for i := int64(0); i < a[1].rat.Num().Int64(); i++ {
				r = new(big.Rat).Mul(r, a[0].rat)
			}
			return u.Num(r)
		}
	case "math.NaN", "math.Inf":
		return u.Call(name, a...)
	}
	return nil
}

func (e *Engine) sprintf(f string, args []*Term) *Term {
	u := e.u
	out := u.Str("")
	i, n := 0, 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = u.Cat(out, u.Str(f[i:]))
			break
		}
		out = u.Cat(out, u.Str(f[i:i+j]))
		i += j
		k := i + 1
		for k < len(f) && !(f[k] >= 'a' && f[k] <= 'z' || f[k] >= 'A' && f[k] <= 'Z' || f[k] == '%') {
			k++
		}
		if k >= len(f) {
			return nil
		}
		verb := f[i : k+1]
		i = k + 1
		if verb == "%%" {
			out = u.Cat(out, u.Str("%"))
			continue
		}
		if n >= len(args) {
			return nil
		}
		x := args[n].args[0]
		if verb == "%v" && n < len(e.wholeArgs) && e.wholeArgs[n] {
			verb = "%d"
		}
		n++
		if strings.HasSuffix(verb, "f") && strings.HasPrefix(verb, "%0.") {
			verb = "%" + verb[2:]
		}
		if verb == "%d" && isNum(x) && x.rat.IsInt() {
			out = u.Cat(out, u.Str(x.rat.RatString()))
			continue
		}
		if verb == "%s" && x.op == OConst && x.kind == 's' {
			out = u.Cat(out, x)
			continue
		}
		if verb == "%s" || verb == "%v" {
			verb = "%v"
		}
		out = u.Cat(out, u.Call(verb, x))
	}
	return out
}

var _ = token.NoPos

// spelled writes out the elements of a short list of known length, if it was
// made empty of values or some were changed since.
func (e *Engine) spelled(st *State, x *Term, t types.Type) *Term {
	u := e.u
	n := u.Len(x)
	if !isNum(n) || n.rat.Sign() <= 0 || e.unrollMax <= 0 || n.rat.Cmp(u.Int(int64(e.unrollMax)).rat) > 0 {
		return x
	}
	if _, _, ok := repoStruct(t); ok {
		return x
	}
	made := x.op == OCall && x.s == "make"
	if !made && x.op != OSeq {
		return x
	}
	changed := made
	var ps []*Term
	for i := int64(0); u.Int(i).rat.Cmp(n.rat) < 0; i++ {
		at := u.Index(x, u.Int(i), elemClass(t))
		v := e.elemAt(x, u.Int(i))
		if w, ok := st.mem.ents[at]; ok {
			changed = changed || w != v
			v = w
		} else if v == nil {
			v = e.readAt(st, at)
		}
		ps = append(ps, u.Elem(v))
	}
	if !changed {
		return x
	}
	return u.Seq(ps...)
}

// bounds is a maximum or minimum, with a constant bound first and an upper
// bound inside a lower one.
func (e *Engine) bounds(name string, x, y *Term) *Term {
	u := e.u
	if isNum(y) && !isNum(x) {
		x, y = y, x
	}
	if name == "math.Min" && isNum(x) && y.op == OCall && y.s == "math.Max" && isNum(y.args[0]) && y.args[0].rat.Cmp(x.rat) <= 0 {
		return u.Call("math.Max", y.args[0], e.bounds("math.Min", x, y.args[1]))
	}
	return u.Call(name, x, y)
}

// fitting is the number of entries a copy moves, when the state determines
// it. A bound that limits neither side is dropped: args become open slices.
func (e *Engine) fitting(st *State, args []*Term) *Term {
	u := e.u
	n, m := u.Len(args[0]), u.Len(args[1])
	d := u.Sub(n, m)
	atLeast := func(x *Term) bool { // x >= 0
		if isNum(x) {
			return x.rat.Sign() >= 0
		}
		return u.decide(st, u.LT(x, true)) == 0
	}
	open := func(x *Term) *Term {
		if x.op == OSlice && x.args[2] != nil && x.args[1] != nil {
			return u.SliceOp(x.args[0], x.args[1], nil)
		}
		return x
	}
	var r *Term
	small, large := atLeast(d), atLeast(u.Neg(d))
	if large {
		r = n
	}
	if small {
		r = m
	}
	if small {
		args[0] = open(args[0])
	}
	if large {
		args[1] = open(args[1])
	}
	return r
}
