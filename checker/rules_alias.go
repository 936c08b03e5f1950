package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P36", 12, "what goroutines share", func(c *Ctx) {
		c.guarded("goroutines", c.goroutines)
	})
	register("P37", 6, "lists that share memory", func(c *Ctx) {
		c.guarded("scratch lists", c.scratchLists)
		c.guarded("walked lists", c.walkedLists)
	})
}

func (w *World) aliases() *aliases {
	if w.alias == nil {
		w.alias = newAliases(w)
	}
	return w.alias
}

// goStmt is a go statement and one function it starts.
type goStmt struct {
	in  *ssa.Go
	fn  *ssa.Function // where
	g   *ssa.Function // what
	own map[ssa.Value]bool
}

func (c *Ctx) goStmts() []*goStmt {
	var out []*goStmt
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				n := 0
				for _, g := range c.w.callees(&x.Call) {
					if len(g.Blocks) > 0 {
						out = append(out, &goStmt{in: x, fn: f, g: g, own: map[ssa.Value]bool{}})
						n++
					}
				}
				c.check("goroutine", constructOf(f), n > 0, x.Pos(), "a goroutine runs code outside the module")
			}
		}
	}
	return out
}

// transitive: g and the functions it calls
func (c *Ctx) transitive(g *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range c.w.callees(ci.Common()) {
						walk(t)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(g)
	return seen
}

type recvSite struct {
	fn     *ssa.Function
	in     *ssa.UnOp
	header *ssa.BasicBlock
	blocks []*ssa.BasicBlock
	early  []token.Pos
}

// receives: the places that receive from channels of group ch
func (c *Ctx) receives(a *aliases, ch int, not map[*ssa.Function]bool) []*recvSite {
	var out []*recvSite
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || not[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW || a.val(u.X) != a.find(ch) {
					continue
				}
				s := &recvSite{fn: f, in: u}
				if bl := loopBlocks(b); bl != nil && b == u.Block() {
					s.header = b
					for _, x := range f.Blocks {
						if bl[x] {
							s.blocks = append(s.blocks, x)
							if x != b {
								for _, y := range x.Succs {
									if !bl[y] && !endsInPanic(y, 0) {
										s.early = append(s.early, x.Instrs[len(x.Instrs)-1].Pos())
									}
								}
							}
						}
					}
				} else {
					r := reachable([]*ssa.BasicBlock{b}, nil)
					for _, x := range f.Blocks {
						if r[x] {
							s.blocks = append(s.blocks, x)
						}
					}
				}
				out = append(out, s)
			}
		}
	}
	return out
}

// pathsTo: b and the blocks that may follow it before header
func pathsTo(b, header *ssa.BasicBlock) []*ssa.BasicBlock {
	avoid := map[*ssa.BasicBlock]bool{}
	var from []*ssa.BasicBlock
	if header != nil {
		avoid[header] = true
	}
	for _, s := range b.Succs {
		if s != header {
			from = append(from, s)
		}
	}
	out := []*ssa.BasicBlock{b}
	for x := range reachable(from, avoid) {
		if x != b && x != header {
			out = append(out, x)
		}
	}
	return out
}

// origin is a way the goroutine that fills a channel was started: what is known
// about the parameters of the function that starts it, and the call in the
// function that receives.
type origin struct {
	known map[ssa.Value]bool
	call  *ssa.Call
}

// originsOf: how the channel v was made by fn
func (c *Ctx) originsOf(a *aliases, v ssa.Value, fn *ssa.Function, known map[ssa.Value]bool, depth int) []origin {
	if depth > 8 {
		return []origin{{}}
	}
	var out []origin
	switch x := v.(type) {
	case *ssa.Call:
		ac := &accessor{a: a, known: known}
		if x.Call.StaticCallee() == fn {
			return []origin{{ac.flags(&x.Call, x.Call.Args, fn), x}}
		}
		if g := x.Call.StaticCallee(); g != nil && inRepoFn(g) {
			a.results(g, func(_ int, r ssa.Value) {
				for _, o := range c.originsOf(a, r, fn, ac.flags(&x.Call, x.Call.Args, g), depth+1) {
					out = append(out, origin{o.known, x})
				}
			})
		}
	case *ssa.ChangeType:
		return c.originsOf(a, x.X, fn, known, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				out = append(out, c.originsOf(a, e, fn, known, depth+1)...)
			}
		}
	case *ssa.Parameter:
		for _, arg := range c.argsFor(x) {
			for _, o := range c.originsOf(a, arg, fn, nil, depth+1) {
				out = append(out, origin{o.known, nil})
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return c.originsOf(a, s, fn, known, depth+1)
			}
		}
	}
	if len(out) == 0 {
		return []origin{{}}
	}
	return out
}

func conflict(a, b accesses) []string {
	var out []string
	for k, x := range a {
		y := b[k]
		if y != nil && (x.write || y.write) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) goroutines() {
	a := c.w.aliases()
	stmts := c.goStmts()
	c.check("goroutine", "coverage", len(stmts) >= 5, token.NoPos, "only %d goroutines are started", len(stmts))
	for _, st := range stmts {
		con := constructOf(st.fn)
		st := st
		c.extra = append(c.extra, fnName(st.fn))
		// memory that only this goroutine has
		c.handedOver(st, con)
		c.captured(st, con)
		// the channel it fills
		fills := map[int]bool{}
		mine := c.transitive(st.g)
		for f := range mine {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Send); ok {
						fills[a.val(s.Chan)] = true
					}
				}
			}
		}
		acc := func(known map[ssa.Value]bool) accesses {
			out := accesses{}
			own := map[ssa.Value]bool{}
			for k := range st.own {
				own[k] = true
			}
			ac := &accessor{a: a, known: known, done: map[string]bool{}, own: own}
			ac.code(st.g, st.g.Blocks, out)
			return out
		}
		all := acc(nil)
		var sites []*recvSite
		for ch := range fills {
			sites = append(sites, c.receives(a, ch, mine)...)
		}
		if len(fills) > 0 && len(sites) == 0 && !c.receivesAny(st.g) {
			c.closes(st, con) // nobody uses it
			continue
		}
		if len(fills) == 0 || c.receivesAny(st.g) && len(sites) == 0 {
			// it runs beside the whole module
			c.beside(st, con, all, mine)
			continue
		}
		c.closes(st, con)
		for _, s := range sites {
			where := con + " and " + constructOf(s.fn)
			for _, o := range c.originsOf(a, s.in.X, st.fn, nil, 0) {
				start := &accessor{a: a, known: o.known}
				g := acc(start.flags(&st.in.Call, st.in.Call.Args, st.g))
				r := accesses{}
				ac := &accessor{a: a, done: map[string]bool{}, own: map[ssa.Value]bool{}}
				ac.code(s.fn, s.blocks, r)
				if o.call != nil && s.header != nil {
					// from the start of the goroutine to the first receive
					ac.after = o.call
					ac.code(s.fn, pathsTo(o.call.Block(), s.header), r)
				}
				// and the rest of the function that starts it
				(&accessor{a: a, after: st.in, done: map[string]bool{}, own: map[ssa.Value]bool{}}).code(st.fn, pathsTo(st.in.Block(), nil), r)
				bad := conflict(g, r)
				for _, k := range bad {
					pos, how := g[k].pos, "the goroutine changes"
					if r[k].write {
						pos, how = r[k].pos, "its consumer changes"
					}
					c.check("shared memory", where, false, pos, "%s %s while the other one uses it", how, g[k].what)
				}
				c.check("shared memory", where, len(bad) == 0, s.in.Pos(), "")
			}
			if len(s.early) > 0 {
				c.beside(st, where, all, mine)
			}
		}
	}
}

// receivesAny: g receives something from a channel it was given
func (c *Ctx) receivesAny(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
		}
	}
	return false
}

// closes: the goroutine closes the channel it fills, whatever way it ends
func (c *Ctx) closes(st *goStmt, con string) {
	var closing []ssa.Instruction
	for _, b := range st.g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				closing = append(closing, in)
			} else if t := ci.Common().StaticCallee(); t != nil && inRepoFn(t) && alwaysCloses(t, 0) {
				closing = append(closing, in)
			}
		}
	}
	ends := 0
	for _, b := range st.g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == st.g.Recover {
			continue
		}
		ends++
		done := false
		for _, x := range closing {
			done = done || before(x, ret)
		}
		c.check("closed", con, done, ret.Pos(), "the goroutine can end without closing its channel")
	}
	c.check("closed", con, ends > 0, st.in.Pos(), "the goroutine never ends")
}

// alwaysCloses: t closes a channel before it returns
func alwaysCloses(t *ssa.Function, depth int) bool {
	if len(t.Blocks) == 0 || depth > 5 {
		return false
	}
	var closing []ssa.Instruction
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					closing = append(closing, in)
				} else if g := ci.Common().StaticCallee(); g != nil && inRepoFn(g) && alwaysCloses(g, depth+1) {
					closing = append(closing, in)
				}
			}
		}
	}
	for _, b := range t.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == t.Recover {
			continue
		}
		done := false
		for _, x := range closing {
			done = done || before(x, ret)
		}
		if !done {
			return false
		}
	}
	return len(closing) > 0
}

// captured: variables that the goroutine shares with the function that starts it
func (c *Ctx) captured(st *goStmt, con string) {
	mc, ok := st.in.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	after := func(in ssa.Instruction) bool {
		if in.Block() == st.in.Block() && before(st.in, in) && in != ssa.Instruction(st.in) {
			return true
		}
		r := reachable(st.in.Block().Succs, nil)
		return r[in.Block()]
	}
	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok {
			continue
		}
		fv := st.g.FreeVars[i]
		writes := false
		for _, u := range *fv.Referrers() {
			if s, ok := u.(*ssa.Store); ok && addrBaseIs(s.Addr, fv) {
				writes = true
			}
		}
		for _, u := range allUses(al) {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val != ssa.Value(al) && after(x) {
					c.check("captured variables", con, false, x.Pos(), "%s is changed while the goroutine may read it", al.Comment)
				}
			case *ssa.UnOp:
				if writes && after(x) {
					c.check("captured variables", con, false, x.Pos(), "%s is read while the goroutine may change it", al.Comment)
				}
			}
		}
	}
	c.check("captured variables", con, true, st.in.Pos(), "")
}

func allUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, u := range *v.Referrers() {
		out = append(out, u)
		switch x := u.(type) {
		case *ssa.FieldAddr:
			out = append(out, allUses(x)...)
		case *ssa.IndexAddr:
			out = append(out, allUses(x)...)
		}
	}
	return out
}

func addrBaseIs(a, base ssa.Value) bool {
	for i := 0; i < 20; i++ {
		if a == base {
			return true
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return false
		}
	}
	return false
}

// launches are the places after which a goroutine runs: the go statement and
// the calls that lead to it.
type launches struct {
	c      *Ctx
	points map[*ssa.Function][]ssa.Instruction
	calls  map[*ssa.Function][]ssa.Instruction // static calls of a function
	known  map[*ssa.Function]bool
}

func (c *Ctx) launches(st *goStmt) *launches {
	ls := &launches{c, map[*ssa.Function][]ssa.Instruction{st.fn: {st.in}}, map[*ssa.Function][]ssa.Instruction{}, map[*ssa.Function]bool{}}
	other := map[*ssa.Function]bool{}
	for _, f := range c.w.funcs {
		if f.Synthetic != "" && f.Object() != nil { // of no consequence: calls through an interface are looked for apart
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if _, plain := in.(*ssa.Call); callee != nil && plain {
						ls.calls[callee] = append(ls.calls[callee], in)
					} else if callee != nil {
						other[callee] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						other[g] = true
					}
				}
			}
		}
	}
	for f := range other {
		delete(ls.calls, f)
	}
	for todo := []*ssa.Function{st.fn}; len(todo) > 0; todo = todo[1:] {
		for _, in := range ls.calls[todo[0]] {
			g := in.Parent()
			if ls.points[g] == nil {
				todo = append(todo, g)
			}
			ls.points[g] = append(ls.points[g], in)
		}
	}
	return ls
}

// after: the instruction may run after the goroutine has been started in f.
func (ls *launches) after(f *ssa.Function, in ssa.Instruction) bool {
	for _, p := range ls.points[f] {
		if in.Block() == p.Block() && before(p, in) && in != p {
			return true
		}
		if reachable(p.Block().Succs, nil)[in.Block()] {
			return true
		}
	}
	return false
}

// prior: f is a helper that is called only before the goroutine is started.
func (ls *launches) prior(f *ssa.Function) bool {
	if r, ok := ls.known[f]; ok {
		return r
	}
	ls.known[f] = false
	if ls.points[f] != nil || f.Object() == nil || f.Object().Exported() || len(ls.calls[f]) == 0 || ls.c.methodOfIface(f) {
		return false
	}
	for _, in := range ls.calls[f] {
		g := in.Parent()
		if ls.points[g] != nil && ls.after(g, in) || ls.points[g] == nil && !ls.prior(g) {
			return false
		}
	}
	ls.known[f] = true
	return true
}

// handedOver: an object that is passed to the goroutine and that everybody
// else only compares with nil
func (c *Ctx) handedOver(st *goStmt, con string) {
	if _, ok := st.in.Call.Value.(*ssa.MakeClosure); ok {
		// captured copies of structs
		mc := st.in.Call.Value.(*ssa.MakeClosure)
		for i, b := range mc.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && isStructT(al.Type().Underlying().(*types.Pointer).Elem()) {
				st.own[st.g.FreeVars[i]] = true
			}
		}
	}
	ls := c.launches(st)
	for i, arg := range st.in.Call.Args {
		ld, ok := arg.(*ssa.UnOp)
		if !ok || !isPtr(arg.Type()) {
			continue
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		k := fieldKey(fa.X.Type(), fa.Field)
		bad := false
		for _, f := range c.w.funcs {
			if !inRepoFn(f) || ls.prior(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					l, ok := in.(*ssa.UnOp)
					if !ok || l.Op != token.MUL {
						continue
					}
					fa2, ok := l.X.(*ssa.FieldAddr)
					if !ok || fieldKey(fa2.X.Type(), fa2.Field) != k {
						continue
					}
					for _, u := range *l.Referrers() {
						if bo, ok := u.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
							continue
						}
						if _, ok := u.(*ssa.DebugRef); ok || ls.points[f] != nil && !ls.after(f, u) {
							continue
						}
						bad = true
						c.check("handed over", con, false, u.Pos(), "%s is used outside the goroutine it belongs to", k)
					}
				}
			}
		}
		c.check("handed over", con, !bad, st.in.Pos(), "%s does not belong to the goroutine alone", k)
		if !bad && i < len(st.g.Params) {
			st.own[st.g.Params[i]] = true
		}
	}
}

// beside: the goroutine may run at the same time as everything else
func (c *Ctx) beside(st *goStmt, con string, acc accesses, mine map[*ssa.Function]bool) {
	own := accesses{}
	ac := &accessor{a: c.w.aliases(), done: map[string]bool{}, own: map[ssa.Value]bool{}}
	for k := range st.own {
		ac.own[k] = true
	}
	ac.code(st.g, st.g.Blocks, own)
	rest := accesses{}
	ls := c.launches(st)
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) || mine[f] || f.Name() == "init" || ls.prior(f) {
			continue
		}
		if ls.points[f] != nil {
			for _, p := range ls.points[f] {
				(&accessor{a: c.w.aliases(), after: p, done: map[string]bool{}, own: map[ssa.Value]bool{}}).code(f, pathsTo(p.Block(), nil), rest)
			}
			continue
		}
		other := &accessor{a: c.w.aliases(), done: map[string]bool{}, own: map[ssa.Value]bool{}}
		// the callees are in the list themselves
		for _, g := range c.w.funcs {
			other.done[g.String()] = true
		}
		other.code(f, f.Blocks, rest)
	}
	bad := conflict(own, rest)
	for _, k := range bad {
		pos := own[k].pos
		if rest[k].write {
			pos = rest[k].pos
		}
		c.check("shared memory", con, false, pos, "%s is used by the goroutine and by the rest of the program", own[k].what)
	}
	c.check("shared memory", con, len(bad) == 0, st.in.Pos(), "")
}

// ---- lists that are emptied and refilled

// refilled: the fields whose list is emptied in place and filled again
func (c *Ctx) refilled() map[string]token.Pos {
	out := map[string]token.Pos{}
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || sl.High == nil {
					continue
				}
				if k, ok := sl.High.(*ssa.Const); !ok || k.Value == nil || constant.Sign(k.Value) != 0 {
					continue
				}
				ld, ok := sl.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					k := fieldKey(fa.X.Type(), fa.Field)
					if _, ok := out[k]; !ok {
						out[k] = sl.Pos()
					}
				}
			}
		}
	}
	return out
}

func (c *Ctx) scratchLists() {
	bufs := c.refilled()
	c.check("scratch list", "coverage", len(bufs) >= 4, token.NoPos, "only %d lists are reused", len(bufs))
	var ks []string
	for k := range bufs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	held := map[ssa.Value][]string{}
	for _, k := range ks {
		c.check("scratch list", k, true, bufs[k], "")
		for v := range c.flowsFrom(k) {
			held[v] = append(held[v], k)
		}
	}
	c.overwritten(held)
}

// flowsFrom: the values that may be the list of a field; reports where such a
// list is put into anything that outlives its use.
func (c *Ctx) flowsFrom(k string) map[ssa.Value]bool {
	vals := map[ssa.Value]bool{}
	var queue []ssa.Value
	add := func(v ssa.Value) {
		if !vals[v] {
			vals[v] = true
			queue = append(queue, v)
		}
	}
	isField := func(a ssa.Value) bool {
		fa, ok := a.(*ssa.FieldAddr)
		return ok && fieldKey(fa.X.Type(), fa.Field) == k
	}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && isField(x.X) {
						add(x)
					}
				case *ssa.Field:
					if fieldKey(x.X.Type(), x.Field) == k {
						add(x)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range c.w.callees(ci.Common()) {
						callers[t] = append(callers[t], ci)
					}
				}
			}
		}
	}
	bad := func(pos token.Pos, into string) {
		c.check("scratch list", k, false, pos, "the list is kept in %s: refilling it changes what is kept", into)
	}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				add(x)
			case *ssa.Slice:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.MakeInterface:
				add(x)
			case *ssa.TypeAssert:
				if !x.CommaOk {
					add(x)
				}
			case *ssa.Store:
				if x.Val != v {
					break
				}
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					for _, l := range *a.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
							add(ld)
						}
					}
				case *ssa.FieldAddr:
					if !isField(a) {
						bad(x.Pos(), fieldKey(a.X.Type(), a.Field))
					}
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok && onlyPrinted(al) {
						break
					}
					bad(x.Pos(), "another list")
				case *ssa.Global:
					bad(x.Pos(), a.Name())
				default:
					bad(x.Pos(), "memory that outlives it")
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					bad(x.Pos(), "a map")
				}
			case *ssa.Send:
				if x.X == v {
					bad(x.Pos(), "a channel")
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if r != v {
						continue
					}
					for _, ci := range callers[x.Parent()] {
						cv := ci.Value()
						if cv == nil {
							continue
						}
						if x.Parent().Signature.Results().Len() == 1 {
							add(cv)
							continue
						}
						for _, cu := range *cv.Referrers() {
							if ex, ok := cu.(*ssa.Extract); ok && ex.Index == i {
								add(ex)
							}
						}
					}
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						add(g.FreeVars[i])
					}
				}
			}
			if ci, ok := u.(ssa.CallInstruction); ok {
				com := ci.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && com.Args[0] == v && ci.Value() != nil {
						add(ci.Value())
					}
					continue
				}
				args := com.Args
				if com.IsInvoke() {
					args = append([]ssa.Value{com.Value}, args...)
				}
				for _, t := range c.w.callees(com) {
					for i, p := range t.Params {
						if i < len(args) && args[i] == v && len(t.Blocks) > 0 {
							add(p)
						}
					}
				}
			}
		}
	}
	return vals
}

// onlyPrinted: an argument list that only goes to functions outside the module
func onlyPrinted(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		sl, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, su := range *sl.Referrers() {
			c, ok := su.(*ssa.Call)
			if !ok {
				return false
			}
			f := c.Call.StaticCallee()
			if f == nil || len(f.Blocks) > 0 {
				return false
			}
		}
	}
	return true
}

// overwritten: a list is still used after something that refills it
func (c *Ctx) overwritten(held map[ssa.Value][]string) {
	a := c.w.aliases()
	writesOf := map[string]accesses{}
	writes := func(in ssa.Instruction) accesses {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		if _, ok := in.(*ssa.Defer); ok {
			return nil
		}
		out := accesses{}
		for _, t := range c.w.callees(ci.Common()) {
			if len(t.Blocks) == 0 || !inRepoFn(t) {
				continue
			}
			acc := writesOf[t.String()]
			if acc == nil {
				acc = accesses{}
				ac := &accessor{a: a, done: map[string]bool{}, own: map[ssa.Value]bool{}}
				ac.code(t, t.Blocks, acc)
				writesOf[t.String()] = acc
			}
			for k, x := range acc {
				if x.write {
					out.add(k, x.what, true, x.pos)
				}
			}
		}
		return out
	}
	n := 0
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		// values that hold such a list
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !isRef(v.Type()) {
					continue
				}
				switch in.(type) {
				case *ssa.Call, *ssa.UnOp, *ssa.Extract:
				default:
					continue
				}
				if isBuiltin(v, "append") || len(held[v]) == 0 {
					continue
				}
				n++
				uses := derivedUses(v)
				for _, wb := range f.Blocks {
					for _, wi := range wb.Instrs {
						if wi == in || !follows(in, wi) {
							continue
						}
						ws := writes(wi)
						k := ""
						for _, x := range held[v] {
							if ws["f:"+x] != nil {
								k = x
							}
						}
						if k == "" {
							continue
						}
						for _, u := range uses {
							if u != wi && between(in, wi, u) {
								c.check("still in use", k, false, u.Pos(), "the list is used here after %s has refilled it", c.where(wi.Pos()))
							}
						}
					}
				}
			}
		}
	}
	c.check("still in use", "coverage", n >= 4, token.NoPos, "only %d uses of reused lists", n)
	c.note("%d values hold a reused list", n)
}

// derivedUses: the instructions that read the list v
func derivedUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Slice:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.IndexAddr, *ssa.Index, *ssa.Range, *ssa.MakeInterface, *ssa.Return:
				out = append(out, u)
			case *ssa.Call:
				if isBuiltin(x, "len") || isBuiltin(x, "cap") {
					continue
				}
				out = append(out, u)
			}
		}
	}
	walk(v)
	return out
}

// follows: b may run after a
func follows(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && before(a, b) {
		return true
	}
	return reachable(a.Block().Succs, nil)[b.Block()]
}

// between: use may run after w without passing def again
func between(def, w, use ssa.Instruction) bool {
	if w.Block() == use.Block() && before(w, use) {
		if !(w.Block() == def.Block() && before(w, def) && before(def, use)) {
			return true
		}
		return false
	}
	avoid := map[*ssa.BasicBlock]bool{}
	if w.Block() == def.Block() && before(w, def) {
		return false
	}
	if use.Block() == def.Block() && before(use, def) {
		// reached before the definition again
		r := reachable(w.Block().Succs, nil)
		return r[use.Block()]
	}
	avoid[def.Block()] = true
	return reachable(w.Block().Succs, avoid)[use.Block()]
}

// ---- lists that are changed while they are walked

func (c *Ctx) walkedLists() {
	a := c.w.aliases()
	n := 0
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		done := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				sl, ok := ia.X.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				_ = sl
				h, idx := indexLoop(ia)
				if h == nil || idx == nil {
					continue
				}
				bl := loopBlocks(h)
				if d, ok := ia.X.(ssa.Instruction); ok && bl[d.Block()] {
					continue // read again for every entry
				}
				g := a.val(ia.X)
				if len(a.names[g]) == 0 && !a.isEntry(g) {
					continue // nobody else has it
				}
				key := a.describe(g) + " " + h.String()
				if done[key] {
					continue
				}
				done[key] = true
				n++
				for x := range bl {
					for _, wi := range x.Instrs {
						ci, ok := wi.(ssa.CallInstruction)
						if !ok {
							continue
						}
						for _, t := range c.w.callees(ci.Common()) {
							if len(t.Blocks) == 0 || !inRepoFn(t) {
								continue
							}
							acc := accesses{}
							ac := &accessor{a: a, done: map[string]bool{}, own: map[ssa.Value]bool{}}
							ac.code(t, t.Blocks, acc)
							if w := acc[fmt.Sprint("g:", a.find(g))]; w != nil && w.write {
								c.check("walked list", constructOf(f), false, wi.Pos(), "%s is walked while %s changes it (%s)", a.describe(g), fnName(t), c.where(w.pos))
							}
						}
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok {
							args := ci.Common().Args
							switch bi.Name() {
							case "copy":
								if a.val(args[0]) == g {
									c.check("walked list", constructOf(f), false, wi.Pos(), "%s is walked while its entries are moved", a.describe(g))
								}
							case "append":
								if a.val(args[0]) == g && shortened(args[0]) {
									c.check("walked list", constructOf(f), false, wi.Pos(), "%s is walked while its entries are moved", a.describe(g))
								}
							}
						}
					}
				}
				c.check("walked list", constructOf(f), true, ia.Pos(), "")
			}
		}
	}
	c.check("walked list", "coverage", n >= 5, token.NoPos, "only %d lists are walked", n)
}

// isEntry: the lists of group g are entries of something
func (a *aliases) isEntry(g int) bool {
	for _, e := range a.elem {
		if a.find(e) == a.find(g) {
			return true
		}
	}
	return false
}

// methodOfIface: a call of an interface method may reach f.
func (c *Ctx) methodOfIface(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	for _, p := range c.w.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if i, ok := t.Type().Underlying().(*types.Interface); ok {
					for k := 0; k < i.NumMethods(); k++ {
						if i.Method(k).Name() == f.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
