package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine computes, for a function, the set of abstract outcomes of its paths.
type Engine struct {
	tables      map[*ssa.Global]*table
	wholeArgs   []bool // which values being formatted are plain integers
	w           *World
	u           *U
	maxDepth    int
	maxStates   int
	unrollLists int  // longest loop walked one iteration at a time, if not 12
	unrollMax   int  // iterations of a loop left from its middle that are walked one by one
	noUnroll    bool // loops are always summarised, even those of few iterations
	precise     bool // merging keeps all facts
	steps       int
	maxSteps    int
	track       func(class string) bool // memory that keeps states apart (nil: all)
	keepEv      func(*Event) bool       // events that are recorded (nil: all)
	opaque      func(*ssa.Function) bool
	dyn         map[*Term]types.Type
	symAddr     map[*Term]*Term   // μ symbol -> address it stands for
	symKs       map[*Term][]*Term // symbol -> counters of the loops it is made in
	loopKs      []*Term           // counters of the loops being analysed
	types       map[*Term]types.Type
	info        map[*ssa.Function]*fnInfo
	undecided   []string
	funcsSeen   map[*ssa.Function]bool
	sites       int
	loops       map[string]*LoopInfo
	onDiv       func(st *State, by *Term, pos token.Pos) // sees every integer division by a variable
	onEvent     func(st *State, ev *Event)               // sees every event with the state it happens in
	after       func(*State, *Event)                     // like onEvent, for external calls, once their effect is known
	ghost       bool                                     // maintain cache size minus the sizes of the files in the queue
}

func newEngine(w *World) *Engine {
	return &Engine{w: w, u: newU(), maxDepth: 14, maxStates: 6000, maxSteps: 4000000,
		dyn: map[*Term]types.Type{}, symAddr: map[*Term]*Term{}, symKs: map[*Term][]*Term{}, info: map[*ssa.Function]*fnInfo{},
		types: map[*Term]types.Type{}, funcsSeen: map[*ssa.Function]bool{}, loops: map[string]*LoopInfo{}}
}

// Out is one class of completed paths.
type Out struct {
	kind string // return, panic, abort
	ret  []*Term
	st   *State
	pos  token.Pos
}

// FS is a state inside a frame.
type FS struct {
	env    map[ssa.Value]*Term
	eshare bool
	st     *State
	defers []dcall
	prev   *ssa.BasicBlock
}

type dcall struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
	recv *Term
}

type frame struct {
	fn    *ssa.Function
	ctx   string
	depth int
	ks    []*Term
	stack []*ssa.Function
	outs  []Out
}

type edge struct {
	from, to *ssa.BasicBlock
	fs       *FS
}

func (f *FS) fork() *FS {
	f.eshare = true
	return &FS{env: f.env, eshare: true, st: f.st.fork(), defers: f.defers[:len(f.defers):len(f.defers)], prev: f.prev}
}

func (f *FS) set(v ssa.Value, t *Term) {
	if f.eshare {
		n := make(map[ssa.Value]*Term, len(f.env)+4)
		for k, x := range f.env {
			n[k] = x
		}
		f.env = n
		f.eshare = false
	}
	f.env[v] = t
}

func (e *Engine) giveUp(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range e.undecided {
		if x == s {
			return
		}
	}
	e.undecided = append(e.undecided, s)
}

// ---------------------------------------------------------------- fn info

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live  map[*ssa.BasicBlock][]ssa.Value
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := e.info[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock][]ssa.Value{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// liveness
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	changed := true
	for changed {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
					if tracked(phi.Edges[pi]) {
						live[phi.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); isPhi {
						continue
					}
					delete(live, v)
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				var rands [12]*ssa.Value
				for _, op := range ins.Operands(rands[:0]) {
					if op != nil && *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			// φ of b are live at entry (already resolved)
			if len(live) != len(in[b]) {
				changed = true
			}
			in[b] = live
		}
	}
	for b, m := range in {
		var vs []ssa.Value
		for v := range m {
			vs = append(vs, v)
		}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok && !m[p] {
				if refs := p.Referrers(); refs != nil && len(*refs) > 0 {
					vs = append(vs, p)
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		fi.live[b] = vs
	}
	e.info[fn] = fi
	return fi
}

// ---------------------------------------------------------------- values

func (e *Engine) zero(t types.Type) *Term {
	u := e.u
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsNumeric != 0:
			return u.Int(0)
		case x.Info()&types.IsString != 0:
			return u.Str("")
		case x.Info()&types.IsBoolean != 0:
			return u.Bool(false)
		}
		return u.Nil()
	case *types.Slice:
		return u.Seq()
	case *types.Struct:
		if st, name, ok := repoStruct(t); ok {
			var args []*Term
			for i := 0; i < st.NumFields(); i++ {
				args = append(args, e.zero(st.Field(i).Type()))
			}
			return u.mk(Term{op: OStruct, s: name, args: args})
		}
		return u.Call("zero:" + t.String())
	case *types.Array:
		if x.Len() <= 64 {
			var ps []*Term
			for i := int64(0); i < x.Len(); i++ {
				ps = append(ps, u.Elem(e.zero(x.Elem())))
			}
			return u.Seq(ps...)
		}
		return u.Call("zero:" + t.String())
	case *types.Tuple:
		var args []*Term
		for i := 0; i < x.Len(); i++ {
			args = append(args, e.zero(x.At(i).Type()))
		}
		return u.Tuple(args...)
	}
	return u.Nil()
}

func (e *Engine) constant(c *ssa.Const) *Term {
	u := e.u
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return u.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return u.Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(c.Value.ExactString())
		if !ok {
			return u.Call("const:" + c.Value.ExactString())
		}
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && c.Value.Kind() == constant.Float {
			// decimal rounding is not observable to the rules: keep the short form
			f, _ := constant.Float64Val(c.Value)
			if s, ok := new(big.Rat).SetString(fmt.Sprintf("%v", f)); ok {
				r = s
			}
		}
		return u.Num(r)
	}
	return u.Call("const:" + c.Value.ExactString())
}

func (e *Engine) val(fr *frame, fs *FS, v ssa.Value) *Term {
	u := e.u
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Function:
		return u.mk(Term{op: OClosure, fn: x})
	case *ssa.Global:
		return u.mk(Term{op: OGlobal, s: x.RelString(nil)})
	case *ssa.Builtin:
		return u.Sym("builtin:" + x.Name())
	}
	if t, ok := fs.env[v]; ok {
		return t
	}
	return u.Sym("undef:" + fr.fn.String() + ":" + v.Name())
}

func (e *Engine) site(fr *frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fr.ctx + "/" + in.Parent().Name() + "." + itoa(b.Index) + "." + itoa(i)
		}
	}
	return fr.ctx + "/" + in.Parent().Name()
}

func (e *Engine) fresh(fr *frame, in ssa.Instruction, what string, extra ...*Term) *Term {
	args := append(append([]*Term{}, extra...), fr.ks...)
	return e.u.Call("?"+what+"@"+e.site(fr, in), args...)
}

func (e *Engine) fieldAddr(base *Term, t types.Type, i int) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	if f.Embedded() {
		if _, _, ok := repoStruct(f.Type()); ok {
			return base
		}
	}
	return e.u.Field(base, fieldKey(t, i))
}

// load reads a whole value of type t at addr.
func (e *Engine) load(s *State, addr *Term, t types.Type) *Term {
	if st, name, ok := repoStruct(t); ok {
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			args = append(args, e.load(s, e.fieldAddr(addr, t, i), st.Field(i).Type()))
		}
		return e.u.mk(Term{op: OStruct, s: name, args: args})
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		var ps []*Term
		for i := int64(0); i < a.Len(); i++ {
			ps = append(ps, e.u.Elem(e.load(s, e.u.Index(addr, e.u.Int(i), elemClass(a.Elem())), a.Elem())))
		}
		return e.u.Seq(ps...)
	}
	return e.readAt(s, addr)
}

func (e *Engine) readAt(s *State, addr *Term) *Term {
	v := e.u.read(s, addr)
	if v.op == OInit && v.args[0] == addr && addr.op == OIndex {
		if x := e.elemAt(addr.args[0], addr.args[1]); x != nil {
			return x
		}
		if m := addr.args[0]; m.op == OCall && m.s == "make" && len(m.args) == 2 && m.args[0].op == OAlloc {
			_, filled := s.mem.ents[e.u.mk(Term{op: OIndex, s: "copied", args: []*Term{m, e.u.Nil()}})]
			if sl, ok := e.types[m].(*types.Slice); ok && !filled {
				return e.zero(sl.Elem())
			}
		}
	}
	if v.op == OInit && rootOf(addr).op == OAlloc && addr.op == OLenAt {
		return e.u.Int(0)
	}
	return v
}

// elemAt is element i of sequence value x when its construction is known.
func (e *Engine) elemAt(x, i *Term) *Term {
	u := e.u
	switch x.op {
	case OSeq:
		off := u.Int(0)
		for _, p := range x.args {
			d := u.Sub(i, off)
			if p.op == OElem {
				if isZero(d) {
					return p.args[0]
				}
				if !isNum(d) {
					return nil
				}
				off = u.Add(off, u.Int(1))
				continue
			}
			l := u.Len(p.args[0])
			rel := u.Sub(d, l)
			if isNum(d) && isNum(l) {
				if d.rat.Cmp(l.rat) < 0 {
					return e.elemAt(p.args[0], d)
				}
			} else if isNum(rel) && rel.rat.Sign() >= 0 {
				// beyond this spread
			} else {
				return nil
			}
			off = u.Add(off, l)
		}
	case OMapSeq:
		b := u.Sym("β" + itoa(x.args[1].beta-1))
		if x.args[1].beta == 0 {
			return x.args[1]
		}
		return u.Subst(x.args[1], b, i)
	}
	return nil
}

// store writes a whole value.
func (e *Engine) store(s *State, addr *Term, t types.Type, v *Term) {
	if st, _, ok := repoStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			var fv *Term
			if v.op == OStruct && len(v.args) == st.NumFields() {
				fv = v.args[i]
			} else {
				fv = e.u.Call("fld:"+fieldKey(t, i), v)
			}
			e.store(s, e.fieldAddr(addr, t, i), st.Field(i).Type(), fv)
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		for i := int64(0); i < a.Len(); i++ {
			idx := e.u.Int(i)
			ev := e.elemAt(v, idx)
			if ev == nil {
				ev = e.u.Call("elem", v, idx)
			}
			e.store(s, e.u.Index(addr, idx, elemClass(a.Elem())), a.Elem(), ev)
		}
		return
	}
	if e.ghost && addr.op == OField && addr.s == "cache.SimpleCache.size" {
		g := e.ghostAddr()
		e.u.write(s, g, e.u.Add(e.u.read(s, g), e.u.Sub(v, e.readAt(s, addr))))
	}
	e.u.write(s, addr, v)
}

func (e *Engine) mapClassOf(m *Term, t types.Type) string {
	x := m
	if y, ok := e.symAddr[m]; ok {
		x = e.u.Init(y)
	}
	if x.op == OCall && x.s == "@" {
		x = e.u.Init(x.args[1])
	}
	if x.op == OInit && x.args[0].op == OField {
		return ":" + x.args[0].s
	}
	return ":" + t.Underlying().(*types.Map).String()
}

func (e *Engine) mapAddr(m, k *Term, t types.Type) (at, in, ln *Term) {
	c := e.mapClassOf(m, t)
	u := e.u
	return u.mk(Term{op: OMapAt, s: "m" + c, args: []*Term{m, k}}),
		u.mk(Term{op: OMapIn, s: "mi" + c, args: []*Term{m, k}}),
		u.mk(Term{op: OLenAt, s: "ml" + c, args: []*Term{m}})
}

func (e *Engine) presence(s *State, in *Term) *Term {
	v := e.u.read(s, in)
	if v.op == OInit && rootOf(in).op == OAlloc {
		return e.u.Bool(false)
	}
	if k := in.args[1]; v.op == OInit && k.op == OCall && k.s == "rkey" && k.args[0] == in.args[0] {
		return e.u.Bool(true)
	}
	if d := e.u.decide(s, v); d >= 0 {
		return e.u.Bool(d == 1)
	}
	return v
}

// strip removes the dynamic type wrappers of interface values.
func (e *Engine) strip(t *Term) *Term {
	if t == nil {
		return nil
	}
	return e.u.Rewrite(t, func(x *Term) *Term {
		if x.op == OCall && strings.HasPrefix(x.s, "iface:") {
			return e.strip(x.args[0])
		}
		return nil
	})
}

// ---------------------------------------------------------------- merging

func (e *Engine) tracked(class string) bool {
	return e.track == nil || e.track(class) || e.ghost && strings.HasPrefix(class, "f:ghost.")
}

func (e *Engine) stateKey(sb *strings.Builder, s *State) {
	var ks []string
	for a, v := range s.mem.ents {
		if e.tracked(classOf(a)) && a.op != OAlloc {
			ks = append(ks, fmt.Sprintf("%d=%d", a.id, v.id))
		} else if a.op == OAlloc {
			ks = append(ks, fmt.Sprintf("%d=%d", a.id, v.id))
		}
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteByte('#')
	for _, ev := range s.events {
		sb.WriteString(ev.key())
		sb.WriteByte(';')
	}
}

// lossless: two fact sets are equal or differ in the truth of one fact only.
func lossless(a, b map[*Term]bool) bool {
	if len(a) != len(b) {
		return false
	}
	n := 0
	for f, v := range a {
		w, ok := b[f]
		if !ok {
			return false
		}
		if v != w {
			n++
		}
	}
	return n <= 1
}

// made records the loops a symbol is made in: it has another value in each of
// their iterations.
func (e *Engine) made(s *Term) *Term {
	if len(e.loopKs) > 0 && e.symKs[s] == nil {
		e.symKs[s] = append([]*Term{}, e.loopKs...)
	}
	return s
}

func (e *Engine) variesWith(s, k *Term) bool {
	for _, x := range e.symKs[s] {
		if x == k {
			return true
		}
	}
	return false
}

func (e *Engine) mergeStates(a, b *State, tag string) {
	// a absorbs b; keys are equal
	nf := map[*Term]bool{}
	for f, v := range a.facts {
		if w, ok := b.facts[f]; ok && w == v {
			nf[f] = v
		}
	}
	a.facts, a.fshare = nf, false
	if a.mem != b.mem {
		diff := false
		for x, v := range a.mem.ents {
			if b.mem.ents[x] != v {
				diff = true
			}
		}
		for x := range b.mem.ents {
			if _, ok := a.mem.ents[x]; !ok {
				diff = true
			}
		}
		same := len(a.mem.clobs) == len(b.mem.clobs)
		if same {
			for i := range a.mem.clobs {
				if a.mem.clobs[i].tag != b.mem.clobs[i].tag {
					same = false
				}
			}
		}
		if diff || !same {
			m := a.wmem()
			j := e.made(e.u.Sym("join:" + tag))
			all := map[*Term]bool{}
			for x := range a.mem.ents {
				all[x] = true
			}
			for x := range b.mem.ents {
				all[x] = true
			}
			nm := &Mem{ents: map[*Term]*Term{}, clobs: m.clobs}
			for x := range all {
				va, vb := e.u.read(a, x), e.u.read(b, x)
				if va == vb {
					nm.ents[x] = va
				} else {
					nm.ents[x] = e.u.Call("@", j, x)
				}
			}
			if !same {
				// keep the clobbers of both
				p := 0
				for p < len(a.mem.clobs) && p < len(b.mem.clobs) && a.mem.clobs[p].tag == b.mem.clobs[p].tag {
					p++
				}
				// what holds for all entries of a map holds on one side only
				var cs []clob
				for i, c := range append(nm.clobs[:len(nm.clobs):len(nm.clobs)], b.mem.clobs[p:]...) {
					if i < p || c.only == nil {
						cs = append(cs, c)
					}
				}
				nm.clobs = cs
			}
			a.mem = nm
		}
	}
}

// gc forgets objects created under ctx that nothing can reach any more.
func (e *Engine) gc(s *State, ctx string, roots []*Term) {
	var mine []*Term
	for a := range s.mem.ents {
		if r := rootOf(a); r.op == OAlloc && strings.HasPrefix(r.s, ctx) {
			mine = append(mine, a)
		}
	}
	if len(mine) == 0 {
		return
	}
	reach := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, a := range t.allocs {
			if !reach[a] {
				reach[a] = true
				work = append(work, a)
			}
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, ev := range s.events {
		mark(ev.recv)
		for _, a := range ev.args {
			mark(a)
		}
	}
	byRoot := map[*Term][]*Term{}
	for a, v := range s.mem.ents {
		if r := rootOf(a); r.op == OAlloc && strings.HasPrefix(r.s, ctx) {
			byRoot[r] = append(byRoot[r], v)
			for _, x := range a.args {
				if x != nil && x != r {
					byRoot[r] = append(byRoot[r], x)
				}
			}
			continue
		}
		mark(v)
		mark(a)
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range byRoot[r] {
			mark(v)
		}
	}
	drop := false
	for _, a := range mine {
		if !reach[rootOf(a)] {
			drop = true
		}
	}
	if !drop {
		return
	}
	m := s.wmem()
	for _, a := range mine {
		if !reach[rootOf(a)] {
			delete(m.ents, a)
		}
	}
	var cs []clob
	for _, c := range m.clobs {
		if c.at != nil {
			if r := rootOf(c.at); r.op == OAlloc && strings.HasPrefix(r.s, ctx) && !reach[r] {
				continue
			}
		}
		cs = append(cs, c)
	}
	m.clobs = cs
}

func (e *Engine) mergeFS(b *ssa.BasicBlock, fi *fnInfo, in []*FS, ctx, tag string) []*FS {
	if len(in) < 2 {
		return in
	}
	idx := map[string]*FS{}
	same := map[string][]*FS{}
	var out []*FS
	for _, f := range in {
		var roots []*Term
		for _, v := range fi.live[b] {
			if t, ok := f.env[v]; ok {
				roots = append(roots, t)
			}
		}
		for _, d := range f.defers {
			roots = append(roots, d.args...)
			roots = append(roots, d.fn, d.recv)
		}
		e.gc(f.st, ctx, roots)
		var sb strings.Builder
		for _, v := range fi.live[b] {
			if t, ok := f.env[v]; ok {
				fmt.Fprintf(&sb, "%d,", t.id)
			} else {
				sb.WriteString("-,")
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "d%p", d.in)
		}
		e.stateKey(&sb, f.st)
		k := sb.String()
		if e.precise {
			done := false
			for _, o := range same[k] {
				if lossless(o.st.facts, f.st.facts) {
					e.mergeStates(o.st, f.st, tag)
					done = true
					break
				}
			}
			if !done {
				same[k] = append(same[k], f)
				out = append(out, f)
			}
			continue
		}
		if o, ok := idx[k]; ok {
			e.mergeStates(o.st, f.st, tag)
			continue
		}
		idx[k] = f
		out = append(out, f)
	}
	return out
}

func (e *Engine) mergeOuts(outs []Out, tag string) []Out {
	for _, o := range outs {
		e.gc(o.st, tag+".", o.ret)
	}
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []Out
	for _, o := range outs {
		var sb strings.Builder
		sb.WriteString(o.kind + "|")
		for _, r := range o.ret {
			fmt.Fprintf(&sb, "%d,", r.id)
		}
		e.stateKey(&sb, o.st)
		k := sb.String()
		if i, ok := idx[k]; ok && (!e.precise || lossless(res[i].st.facts, o.st.facts)) {
			e.mergeStates(res[i].st, o.st, tag)
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

// ---------------------------------------------------------------- running

// Run analyses fn from an arbitrary state described by st.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []Out {
	return e.exec(fn, args, nil, st, "", nil, nil)
}

func (e *Engine) exec(fn *ssa.Function, args, binds []*Term, st *State, ctx string, ks []*Term, stack []*ssa.Function) []Out {
	e.funcsSeen[fn] = true
	fr := &frame{fn: fn, ctx: ctx, ks: ks, stack: append(stack[:len(stack):len(stack)], fn), depth: len(stack)}
	fs := &FS{env: map[ssa.Value]*Term{}, st: st.fork()}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fs.env[p] = binds[i]
		}
	}
	fi := e.fnInfo(fn)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	e.region(fr, fi, all, fn.Blocks[0], []*FS{fs}, false)
	return e.mergeOuts(fr.outs, ctx+"/"+fn.Name())
}

// region runs the blocks of set from entry; back edges to entry are latches
// when isLoop.
func (e *Engine) region(fr *frame, fi *fnInfo, set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []*FS, isLoop bool) (latches []*FS, exits []edge) {
	pending := map[*ssa.BasicBlock][]*FS{entry: in}
	deliver := func(from, to *ssa.BasicBlock, fs *FS) {
		if isLoop && to == entry {
			e.phis(fr, fs, from, to, true)
			latches = append(latches, fs)
			return
		}
		if !set[to] {
			exits = append(exits, edge{from, to, fs})
			return
		}
		e.phis(fr, fs, from, to, false)
		pending[to] = append(pending[to], fs)
	}
	for _, b := range fi.rpo {
		if !set[b] {
			continue
		}
		fss := pending[b]
		if len(fss) == 0 {
			continue
		}
		delete(pending, b)
		fss = e.mergeFS(b, fi, fss, fr.ctx+"/"+fr.fn.Name()+".", fr.ctx+"/"+fr.fn.Name()+"."+itoa(b.Index))
		if len(fss) > e.maxStates {
			e.giveUp("more than %d states in %s", e.maxStates, fr.fn)
			fss = fss[:1]
		}
		if body, ok := fi.loops[b]; ok && !(isLoop && b == entry) {
			for _, fs := range fss {
				for _, x := range e.loop(fr, fi, b, body, fs) {
					deliver(x.from, x.to, x.fs)
				}
			}
			continue
		}
		for _, fs := range fss {
			for _, x := range e.block(fr, b, fs) {
				deliver(x.from, x.to, x.fs)
			}
		}
		if e.steps > e.maxSteps {
			e.giveUp("step limit in %s", fr.fn)
			return
		}
	}
	return
}

func (e *Engine) phis(fr *frame, fs *FS, from, to *ssa.BasicBlock, latch bool) {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var vs []*Term
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, e.val(fr, fs, p.Edges[pi]))
	}
	for i, p := range ps {
		fs.set(p, vs[i])
	}
	fs.prev = from
}

// block executes the instructions of b in one state; calls may split it.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, fs *FS) []edge {
	cur := []*FS{fs}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*FS
		var done []edge
		term := false
		for _, f := range cur {
			e.steps++
			switch x := in.(type) {
			case *ssa.If:
				term = true
				c := e.val(fr, f, x.Cond)
				switch e.u.decide(f.st, c) {
				case 1:
					done = append(done, edge{b, b.Succs[0], f})
				case 0:
					done = append(done, edge{b, b.Succs[1], f})
				default:
					g := f.fork()
					f.st.setFact(c, true)
					g.st.setFact(c, false)
					done = append(done, edge{b, b.Succs[0], f}, edge{b, b.Succs[1], g})
				}
			case *ssa.Jump:
				term = true
				done = append(done, edge{b, b.Succs[0], f})
			case *ssa.Return:
				term = true
				var r []*Term
				for _, v := range x.Results {
					r = append(r, e.val(fr, f, v))
				}
				fr.outs = append(fr.outs, Out{"return", r, f.st, x.Pos()})
			case *ssa.Panic:
				term = true
				for _, g := range e.runDefers(fr, f) {
					fr.outs = append(fr.outs, Out{"panic", []*Term{e.strip(e.val(fr, g, x.X))}, g.st, x.Pos()})
				}
			case *ssa.RunDefers:
				next = append(next, e.runDefers(fr, f)...)
			case *ssa.Defer:
				d := dcall{in: x}
				com := x.Common()
				if com.IsInvoke() {
					d.recv = e.val(fr, f, com.Value)
				} else {
					d.fn = e.val(fr, f, com.Value)
				}
				for _, a := range com.Args {
					d.args = append(d.args, e.val(fr, f, a))
				}
				f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
				next = append(next, f)
			case *ssa.Call:
				next = append(next, e.doCall(fr, f, x, x)...)
			case *ssa.Lookup:
				if fs := e.lookup(fr, f, x); fs != nil {
					next = append(next, fs...)
					break
				}
				e.instr(fr, f, in)
				next = append(next, f)
			default:
				e.instr(fr, f, in)
				next = append(next, f)
			}
		}
		if term {
			return done
		}
		cur = next
		if len(cur) == 0 {
			return nil
		}
		if len(cur) > e.maxStates {
			e.giveUp("more than %d states in %s", e.maxStates, fr.fn)
			cur = cur[:1]
		}
	}
	return nil
}

func (e *Engine) runDefers(fr *frame, f *FS) []*FS {
	cur := []*FS{f}
	ds := f.defers
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*FS
		for _, g := range cur {
			g.defers = nil
			next = append(next, e.callWith(fr, g, ds[i].in, nil, ds[i].in.Common(), ds[i].fn, ds[i].recv, ds[i].args)...)
		}
		cur = next
	}
	return cur
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) binop(op token.Token, a, b *Term, t types.Type) *Term {
	u := e.u
	switch op {
	case token.EQL:
		return u.EQ(a, b)
	case token.NEQ:
		return u.Not(u.EQ(a, b))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return u.Cat(a, b)
		case token.LSS:
			return u.Call("strlt", a, b)
		case token.GTR:
			return u.Call("strlt", b, a)
		case token.LEQ:
			return u.Not(u.Call("strlt", b, a))
		case token.GEQ:
			return u.Not(u.Call("strlt", a, b))
		}
	}
	i := isInt(t)
	switch op {
	case token.ADD:
		return u.Add(a, b)
	case token.SUB:
		return u.Sub(a, b)
	case token.MUL:
		return u.Mul(a, b)
	case token.QUO:
		if i {
			if isNum(a) && isNum(b) && b.rat.Sign() != 0 {
				return u.Num(new(big.Rat).SetInt(new(big.Int).Quo(a.rat.Num(), b.rat.Num())))
			}
			return u.Call("idiv", a, b)
		}
		return u.Div(a, b)
	case token.REM:
		return u.mod(a, b)
	case token.LSS:
		return u.LT(u.Sub(a, b), i)
	case token.GTR:
		return u.LT(u.Sub(b, a), i)
	case token.LEQ:
		return u.Not(u.LT(u.Sub(b, a), i))
	case token.GEQ:
		return u.Not(u.LT(u.Sub(a, b), i))
	case token.SHL:
		if isNum(a) && isNum(b) && b.rat.IsInt() && b.rat.Num().IsInt64() && b.rat.Num().Int64() < 64 {
			return u.Num(new(big.Rat).SetInt(new(big.Int).Lsh(a.rat.Num(), uint(b.rat.Num().Int64()))))
		}
	case token.SHR:
		if isNum(a) && isNum(b) && b.rat.IsInt() && b.rat.Num().IsInt64() && b.rat.Num().Int64() < 64 {
			return u.Num(new(big.Rat).SetInt(new(big.Int).Rsh(a.rat.Num(), uint(b.rat.Num().Int64()))))
		}
	}
	return u.Call("op"+op.String(), a, b)
}

func (e *Engine) convert(t *Term, from, to types.Type) *Term {
	u := e.u
	switch {
	case isInt(from) && isFloat(to):
		return t
	case isFloat(from) && isInt(to):
		if isNum(t) && t.rat.IsInt() {
			return t
		}
		return u.Call("trunc", t)
	case isInt(from) && isInt(to):
		if isNum(t) {
			return t
		}
		sz := types.SizesFor("gc", "amd64")
		if sz.Sizeof(to.Underlying()) < sz.Sizeof(from.Underlying()) {
			return u.Call("narrow"+to.Underlying().String(), t)
		}
		return t
	case isInt(from) && isString(to):
		return u.Call("rune2str", t)
	}
	return t
}

// instr executes an instruction that neither branches nor calls.
func (e *Engine) instr(fr *frame, f *FS, in ssa.Instruction) {
	u := e.u
	v := func(x ssa.Value) *Term { return e.val(fr, f, x) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := u.mk(Term{op: OAlloc, s: e.site(fr, in), args: fr.ks})
		e.types[a] = x.Type().Underlying().(*types.Pointer).Elem()
		el := e.types[a]
		e.store(f.st, a, el, e.zero(el))
		f.set(x, a)
	case *ssa.BinOp:
		if e.onDiv != nil && (x.Op == token.QUO || x.Op == token.REM) && isInt(x.X.Type()) {
			if by := v(x.Y); !isNum(by) || isZero(by) {
				e.onDiv(f.st, by, x.Pos())
			}
		}
		f.set(x, e.binop(x.Op, v(x.X), v(x.Y), x.X.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if t := e.tableOf(g); t != nil {
					f.set(x, t.val)
					break
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && (literalTable(ia.X) || e.isTable(ia.X)) {
				if y := e.elemAt(v(ia.X), v(ia.Index)); y != nil {
					f.set(x, y)
					break
				}
			}
			f.set(x, e.load(f.st, v(x.X), x.Type()))
		case token.NOT:
			f.set(x, u.Not(v(x.X)))
		case token.SUB:
			f.set(x, u.Neg(v(x.X)))
		case token.ARROW:
			ch := v(x.X)
			r := e.fresh(fr, in, "recv", ch)
			e.event(f, &Event{kind: "recv", recv: ch, ret: r, pos: x.Pos(), ctx: fr.ctx})
			if x.CommaOk {
				f.set(x, u.Tuple(r, e.fresh(fr, in, "recvok", ch)))
			} else {
				f.set(x, r)
			}
		default:
			f.set(x, u.Call("op"+x.Op.String(), v(x.X)))
		}
	case *ssa.ChangeType:
		f.set(x, v(x.X))
	case *ssa.ChangeInterface:
		f.set(x, v(x.X))
	case *ssa.MultiConvert:
		f.set(x, v(x.X))
	case *ssa.Convert:
		f.set(x, e.convert(v(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		f.set(x, v(x.X))
	case *ssa.MakeInterface:
		t := v(x.X)
		m := u.Call("iface:"+x.X.Type().String(), t)
		e.types[m] = x.X.Type()
		f.set(x, m)
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			f.set(x, t.args[x.Index])
		} else {
			f.set(x, u.Call("#"+itoa(x.Index), t))
		}
	case *ssa.FieldAddr:
		f.set(x, e.fieldAddr(v(x.X), x.X.Type(), x.Field))
	case *ssa.Field:
		t := v(x.X)
		if t.op == OStruct && x.Field < len(t.args) {
			f.set(x, t.args[x.Field])
		} else {
			f.set(x, u.Call("fld:"+fieldKey(x.X.Type(), x.Field), t))
		}
	case *ssa.IndexAddr:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		f.set(x, u.Index(v(x.X), v(x.Index), elemClass(el)))
	case *ssa.Index:
		b, i := v(x.X), v(x.Index)
		if t := e.elemAt(b, i); t != nil {
			f.set(x, t)
		} else {
			f.set(x, u.Call("elem", b, i))
		}
	case *ssa.Lookup:
		m, k := v(x.X), v(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			f.set(x, u.Call("elem", m, k))
			return
		}
		at, inn, _ := e.mapAddr(m, e.strip(k), x.X.Type())
		mt := x.X.Type().Underlying().(*types.Map)
		p := e.presence(f.st, inn)
		var val *Term
		if p.op == OConst && !p.b {
			val = e.zero(mt.Elem())
		} else if _, _, rs := repoStruct(mt.Elem()); rs {
			val = u.read(f.st, at)
		} else {
			val = u.read(f.st, at)
		}
		if x.CommaOk {
			f.set(x, u.Tuple(val, p))
		} else {
			f.set(x, val)
		}
	case *ssa.MapUpdate:
		m, k := v(x.Map), e.strip(v(x.Key))
		at, inn, ln := e.mapAddr(m, k, x.Map.Type())
		e.mapSet(f.st, fr, in, at, inn, ln, true)
		u.write(f.st, at, v(x.Value))
	case *ssa.MakeMap:
		a := u.mk(Term{op: OAlloc, s: e.site(fr, in), args: fr.ks})
		e.types[a] = x.Type()
		_, _, ln := e.mapAddr(a, u.Nil(), x.Type())
		u.write(f.st, ln, u.Int(0))
		f.set(x, a)
	case *ssa.MakeChan:
		a := u.mk(Term{op: OAlloc, s: e.site(fr, in), args: fr.ks})
		e.types[a] = x.Type()
		e.event(f, &Event{kind: "makechan", recv: a, args: []*Term{v(x.Size)}, pos: x.Pos(), ctx: fr.ctx})
		f.set(x, a)
	case *ssa.MakeSlice:
		n := v(x.Len)
		if isZero(n) {
			f.set(x, u.Seq())
			return
		}
		a := u.mk(Term{op: OAlloc, s: e.site(fr, in), args: fr.ks})
		m := u.Call("make", a, n)
		e.types[m] = x.Type()
		f.set(x, m)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		f.set(x, u.mk(Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: bs}))
	case *ssa.Slice:
		b := v(x.X)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				if arr.Len() <= 64 {
					b = e.load(f.st, b, p.Elem())
				}
			}
		}
		var lo, hi *Term
		if x.Low != nil {
			lo = v(x.Low)
		}
		if x.High != nil {
			hi = v(x.High)
		}
		if b.op == OSeq && len(b.args) > 0 && b.args[0].op == OSpread && lo != nil && isNum(lo) && hi == nil {
			first := b.args[0].args[0]
			if u.decide(f.st, u.LT(u.Sub(u.Len(first), lo), true)) == 0 {
				f.set(x, u.Seq(append([]*Term{u.Spread(u.SliceOp(first, lo, nil))}, b.args[1:]...)...))
				return
			}
		}
		f.set(x, u.SliceOp(b, lo, hi))
	case *ssa.Store:
		e.store(f.st, v(x.Addr), x.Val.Type(), v(x.Val))
	case *ssa.TypeAssert:
		t := v(x.X)
		if t.op == OCall && strings.HasPrefix(t.s, "iface:") {
			same := t.s == "iface:"+x.AssertedType.String()
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				if dt := e.types[t]; dt != nil {
					ok := types.Implements(dt, x.AssertedType.Underlying().(*types.Interface))
					if x.CommaOk {
						if ok {
							f.set(x, u.Tuple(t, u.Bool(true)))
						} else {
							f.set(x, u.Tuple(u.Nil(), u.Bool(false)))
						}
						return
					}
				}
				f.set(x, t)
				return
			}
			if x.CommaOk {
				if same {
					f.set(x, u.Tuple(t.args[0], u.Bool(true)))
				} else {
					f.set(x, u.Tuple(e.zero(x.AssertedType), u.Bool(false)))
				}
				return
			}
			if same {
				f.set(x, t.args[0])
			} else {
				f.set(x, u.Call("badassert:"+x.AssertedType.String(), t))
			}
			return
		}
		if t == u.Nil() && x.CommaOk {
			f.set(x, u.Tuple(e.zero(x.AssertedType), u.Bool(false)))
			return
		}
		r := t
		if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
			r = u.Call("as:"+x.AssertedType.String(), t)
		}
		if x.CommaOk {
			f.set(x, u.Tuple(r, u.Call("is:"+x.AssertedType.String(), t)))
		} else {
			f.set(x, r)
		}
	case *ssa.Range:
		m := v(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			_, _, ln := e.mapAddr(m, u.Nil(), x.X.Type())
			f.set(x, u.Call("range", m, e.readAt(f.st, ln)))
		} else {
			f.set(x, u.Call("range", m, u.Len(m)))
		}
	case *ssa.Next:
		it := v(x.Iter)
		k := u.Int(0)
		if len(fr.ks) > 0 {
			k = fr.ks[len(fr.ks)-1]
		}
		if it.op != OCall || it.s != "range" {
			f.set(x, e.fresh(fr, in, "next"))
			return
		}
		ok := u.LT(u.Sub(k, it.args[1]), true)
		m := it.args[0]
		if x.IsString {
			f.set(x, u.Tuple(ok, k, u.Call("elem", m, k)))
			return
		}
		if r, isR := x.Iter.(*ssa.Range); isR && isNum(k) {
			if t := e.literalMap(fr, f, r.X); t != nil && k.rat.IsInt() && k.rat.Num().Int64() < int64(len(t.keys)) {
				i := k.rat.Num().Int64()
				f.set(x, u.Tuple(u.Bool(true), t.keys[i], t.vals[i]))
				return
			} else if t != nil {
				f.set(x, u.Tuple(u.Bool(false), u.Nil(), u.Nil()))
				return
			}
		}
		key := u.Call("rkey", m, k)
		var val *Term
		if r, isR := x.Iter.(*ssa.Range); isR {
			at, inn, _ := e.mapAddr(m, key, r.X.Type())
			val = u.read(f.st, at)
			_ = inn
		} else {
			val = e.fresh(fr, in, "nextval")
		}
		f.set(x, u.Tuple(ok, key, val))
	case *ssa.Send:
		e.event(f, &Event{kind: "send", recv: v(x.Chan), args: []*Term{e.strip(e.deep(f.st, v(x.X)))}, pos: x.Pos(), ctx: fr.ctx})
	case *ssa.Go:
		com := x.Common()
		ev := &Event{kind: "go", pos: x.Pos(), ctx: fr.ctx}
		if !com.IsInvoke() {
			ev.recv = v(com.Value)
			if ev.recv.fn != nil {
				ev.name = ev.recv.fn.Name()
			}
		}
		for _, a := range com.Args {
			ev.args = append(ev.args, e.strip(v(a)))
		}
		e.event(f, ev)
	case *ssa.Select:
		r := e.fresh(fr, in, "select")
		e.event(f, &Event{kind: "select", ret: r, pos: x.Pos(), ctx: fr.ctx})
		f.set(x, r)
	default:
		if val, ok := in.(ssa.Value); ok {
			f.set(val, e.fresh(fr, in, "instr"))
		}
		e.giveUp("unhandled instruction %T in %s", in, fr.fn)
	}
}

// mapSet updates presence and length for an insertion or deletion.
func (e *Engine) mapSet(s *State, fr *frame, in ssa.Instruction, at, inn, ln *Term, present bool) {
	u := e.u
	p := e.presence(s, inn)
	n := e.readAt(s, ln)
	switch {
	case p.op == OConst && p.b == present:
	case p.op == OConst && present:
		u.write(s, ln, u.Add(n, u.Int(1)))
	case p.op == OConst:
		u.write(s, ln, u.Sub(n, u.Int(1)))
	default:
		u.write(s, ln, u.Call("len±", n, p, u.Bool(present)))
	}
	u.write(s, inn, u.Bool(present))
}

func (e *Engine) event(f *FS, ev *Event) {
	if e.ghost {
		e.ghostEvent(f.st, ev)
	}
	if e.onEvent != nil {
		e.onEvent(f.st, ev)
	}
	if e.keepEv != nil && !e.keepEv(ev) {
		return
	}
	f.st.addEvent(ev)
}

// deep resolves the current content of a sequence written in place.
func (e *Engine) deep(s *State, t *Term) *Term {
	if t.op == OSeq && allElems(t) {
		var ps []*Term
		changed := false
		for i, p := range t.args {
			x := p.args[0]
			for a, v := range s.mem.ents {
				if a.op == OIndex && a.args[0] == t && isNum(a.args[1]) && a.args[1].rat.Cmp(new(big.Rat).SetInt64(int64(i))) == 0 {
					x = v
					changed = true
				}
			}
			ps = append(ps, e.u.Elem(x))
		}
		if changed {
			return e.u.Seq(ps...)
		}
	}
	return t
}

// literalTable: v is a list literal that is only read where it is written
// down, so nothing changes its elements.
func literalTable(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	onlyRead := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.FieldAddr:
				for _, y := range *x.Referrers() {
					if l, ok := y.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if x.Block() != al.Block() {
				return false
			}
			for _, y := range *x.Referrers() {
				switch z := y.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					if z.Addr != x || z.Block() != al.Block() {
						return false
					}
				case *ssa.FieldAddr:
					for _, w := range *z.Referrers() {
						if st, ok := w.(*ssa.Store); !ok || st.Addr != z || st.Block() != al.Block() {
							return false
						}
					}
				default:
					return false
				}
			}
		case *ssa.Slice:
			if x != sl {
				return false
			}
		default:
			return false
		}
	}
	for _, r := range *sl.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (u *U) mod(a, b *Term) *Term {
	if isNum(a) && isNum(b) && b.rat.Sign() != 0 && a.rat.IsInt() && b.rat.IsInt() {
		return u.Num(new(big.Rat).SetInt(new(big.Int).Rem(a.rat.Num(), b.rat.Num())))
	}
	return u.Call("mod", a, b)
}
