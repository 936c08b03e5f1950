package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R04", 20, "every decision of an eviction call: the files picked, their number, and what is accounted for each", ruleEviction)
}

func ruleEviction(c *Ctx) {
	c.guarded("callEvictionAgent", c.evictionCall)
	c.guarded("sort.Sort", c.sortable)
	for _, add := range []bool{false, true} {
		for _, hit := range []bool{false, true} {
			c.guarded("AIRL.UpdatePolicy", func() { c.categorised(add, hit) })
		}
	}
}

// sortable: a type that can be sorted has its length, and swaps two elements.
func (c *Ctx) sortable() {
	for _, n := range c.w.named {
		var m [3]*ssa.Function
		for i, name := range []string{"Len", "Less", "Swap"} {
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if sel := c.w.prog.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name); sel != nil && m[i] == nil {
					m[i] = c.w.prog.MethodValue(sel)
				}
			}
		}
		if _, ok := n.Underlying().(*types.Slice); !ok || m[0] == nil || m[1] == nil || m[2] == nil || len(m[2].Params) != 3 || len(m[0].Params) != 1 {
			continue
		}
		con := typeName(n)
		s := c.scOn(c.engine(), m[0], con+".Len", "s")
		s.ensure("length", con, "ret0 == len(s)")
		s = c.scOn(c.engine(), m[2], con+".Swap", "s", "i", "j")
		s.assume("i != j")
		s.ensure("swap", con, "s[i] == old(s[j]) && s[j] == old(s[i])")
	}
}

// picked is a run of files taken from the list of a category: n of them, the
// first at index from and each next one step further.
type picked struct {
	n, from, step *Term
	single        bool
	name          *Term // the file name, in terms of beta for a run
}

type evictCall struct {
	c      *Ctx
	s      *Sc
	e      *Engine
	o      Out
	state  *Term // the received state
	con    string
	starts map[*Term]*Term // values at the start of an iteration
}

func (x *evictCall) field(n string) *Term {
	return x.e.u.Call("fld:cache.CatState."+n, x.state)
}

// isField: the term is the field of the received state.
func (x *evictCall) isField(t *Term, n string) bool { return untag(t) == x.field(n) }

// at is the body of a run at an index.
func (x *evictCall) at(body, k *Term) *Term {
	if b := x.e.u.betaOf(body); b != nil {
		return x.e.u.Subst(body, b, k)
	}
	return body
}

// runs splits a list of the files picked into runs; get gives the file of an
// element, to be an element of the list of the category.
func (x *evictCall) runs(parts []*Term, get func(*Term) *Term) ([]picked, bool) {
	u := x.e.u
	var r []picked
	idx := func(t *Term) *Term {
		f := untag(get(t))
		if f == nil || f.op != OIndex || !x.isField(f.args[0], "Files") {
			return nil
		}
		return f.args[1]
	}
	for _, p := range parts {
		switch {
		case p.op == OElem:
			i := idx(p.args[0])
			if i == nil {
				return nil, false
			}
			r = append(r, picked{n: u.Int(1), from: i, step: u.Int(0), single: true, name: p.args[0]})
		case p.op == OSpread && p.args[0].op == OMapSeq:
			m := p.args[0]
			body := m.args[1]
			at := func(v *Term) *Term { return idx(x.at(body, v)) }
			k := u.Sym("k?")
			i0, i1, ik := at(u.Int(0)), at(u.Int(1)), at(k)
			if i0 == nil || i1 == nil || ik == nil {
				return nil, false
			}
			step := u.Sub(i1, i0)
			if !isZero(u.Sub(ik, u.Add(i0, u.Mul(step, k)))) {
				return nil, false
			}
			r = append(r, picked{n: m.args[0], from: i0, step: step, name: body})
		default:
			return nil, false
		}
	}
	return r, true
}

func (c *Ctx) evictionCall() {
	con := "callEvictionAgent"
	e := c.engine()
	e.precise = true
	fn := c.fn("cache.AIRL.callEvictionAgent")
	work := c.opaqueWork()
	e.opaque = func(f *ssa.Function) bool { return f != fn && work(f) }
	s := c.scOn(e, fn, con, "c")
	s.setNil("c.logFile")
	n := 0
	for _, o := range s.returns() {
		n++
		x := &evictCall{c: c, s: s, e: e, o: o, con: con}
		x.check()
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path returns")
}

// delta finds the variable that starts as (and ends the function as) t and
// returns its change over an iteration.
func phiOf(it *IterOut, t *Term) *Term {
	for _, p := range it.phis {
		if p[0] == t {
			return p[1]
		}
	}
	// a variable that lives in memory because a function literal uses it
	for a, v := range it.start {
		if v == t && a.op == OAlloc {
			return it.writes[a]
		}
	}
	if t.op == OSym && strings.HasPrefix(t.s, "μ:") {
		return t // not written in this iteration
	}
	return nil
}

func (x *evictCall) check() {
	c, s, e, o, con := x.c, x.s, x.e, x.o, x.con
	u := e.u
	evts := o.st.events
	// once per call
	ok, why := s.holds(o, "c.evictionAgentNumCalls == old(c.evictionAgentNumCalls) + 1")
	c.check("the call is counted", con, ok, o.pos, "%s", why)
	clear := c.called(evts, "files.Manager.ClearDeletedFileMiss")
	gen := c.called(evts, "cache.CategoryManager.GetStateFromCategories")
	if !c.check("categories are asked once", con, len(gen) == 1, o.pos, "the categories are asked %d times", len(gen)) {
		return
	}
	var loop *Event
	at := map[*Event]int{}
	for i, ev := range evts {
		at[ev] = i
		if ev.kind != "loop" {
			continue
		}
		if len(evs(each1(ev.loop), "recv", "")) > 0 {
			c.check("categories are asked once", con, loop == nil, o.pos, "two loops receive")
			loop = ev
		}
	}
	if !c.check("categories are asked once", con, loop != nil, o.pos, "no loop receives the states") {
		return
	}
	c.check("tracking restarts", con, len(clear) == 1 && at[clear[0]] < at[loop] && rootedAt(clear[0].args[0], s.arg("c")), o.pos, "the tracking of evicted files is not restarted before the decisions")
	total, names := o.ret[0], o.ret[1]
	// the list of files to take out of their categories
	var out *Event
	var list *Term
	for _, ev := range evts {
		if ev.kind != "loop" {
			continue
		}
		for _, it := range ev.loop.iters {
			for _, d := range c.called(it.events, "cache.CategoryManager.deleteFileFromCategory") {
				f := untag(d.args[2])
				if f == nil || f.op != OField || f.args[0].op != OIndex {
					continue
				}
				out, list = ev, f.args[0].args[0]
				el := u.Index(list, ev.loop.k, f.args[0].s)
				cat := untag(d.args[1])
				c.check("leaves its category", con, rootedAt(d.args[0], s.arg("c")) && f.args[0] == el && cat.op == OField && cat.args[0] == el && ev.loop.trip == u.Len(list), d.pos, "taken out of the categories: %v, %s times", d.args[1:], ev.loop.trip)
			}
			c.check("leaves its category", con, countEv(it.events, "fn", fnName(c.fn("cache.CategoryManager.deleteFileFromCategory"))) <= 1, o.pos, "two files leave their category at once")
		}
	}
	if !c.check("leaves its category", con, list != nil, o.pos, "no file is taken out of its category") {
		return
	}
	for _, it := range out.loop.iters {
		c.check("leaves its category", con, countEv(it.events, "fn", fnName(c.fn("cache.CategoryManager.deleteFileFromCategory"))) == 1, out.pos, "a file stays in its category where %s", factsString(it.facts))
	}
	c.check("leaves its category", con, at[out] > at[loop], o.pos, "files leave their category while the categories are read")
	rm := 0
	for _, ev := range evts {
		if ev.kind == "invoke" && ev.name == "queue.Queue.remove" {
			rm++
			c.check("leaves the cache", con, len(ev.args) == 1 && ev.args[0] == names, ev.pos, "the queue removes %v", ev.args)
		}
	}
	c.check("leaves the cache", con, rm == 1, o.pos, "%d removals from the queue", rm)
	seen := map[string]int{}
	acts := map[string]*Term{}
	for _, a := range []string{"DeleteAll", "DeleteHalf", "DeleteQuarter", "DeleteOne", "NotDelete"} {
		acts[a], _, _ = c.pkgConst(e, "qlearn", "Action"+a)
	}
	numFinal := s.term(o, "c.numDeleted")
	numOld := s.old("c.numDeleted")
	dataFinal := s.term(o, "c.dataDeleted")
	x.starts = map[*Term]*Term{}
	for _, it := range loop.loop.iters {
		for a, v := range it.start {
			x.starts[a] = v
		}
	}
	for _, it := range loop.loop.iters {
		rc := evs(it.events, "recv", "")
		if !c.check("one decision at a time", con, len(rc) == 1 && rc[0].recv == gen[0].ret, o.pos, "%d states are received", len(rc)) {
			continue
		}
		x.state = rc[0].ret
		if x.state.op == OTuple {
			x.state = x.state.args[0]
		}
		action := x.field("Action")
		act := "other"
		for a, t := range acts {
			if it.truth(u, u.EQ(action, t)) == 1 {
				act = a
			}
		}
		seen[act]++
		cc := con + " " + act
		// the decision is counted
		counts := 0
		for a, v := range it.writes {
			if a.op == OMapAt && a.args[0] == s.old("c.actionCounters") {
				counts++
				st := it.start[a]
				c.check("the decision is counted", cc, a.args[1] == action && st != nil && isOne(u, u.Sub(v, st)), o.pos, "the counter of %s becomes %s", a.args[1], v)
			}
		}
		c.check("the decision is counted", cc, counts == 1, o.pos, "%d counters change", counts)
		// the files picked
		d, f, t := phiOf(it, names), phiOf(it, list), phiOf(it, total)
		if !c.check("files of the decision", cc, d != nil && f != nil && t != nil, o.pos, "the lists of files are lost") {
			continue
		}
		dp, ok1 := addedTo(u, d, names)
		fp, ok2 := addedTo(u, f, list)
		if !c.check("files of the decision", cc, ok1 && ok2, o.pos, "the lists of files are %s and %s", d, f) {
			continue
		}
		dr, ok1 := x.runs(dp, func(t *Term) *Term { return fieldBase(t, "Filename") })
		fr, ok2 := x.runs(fp, func(t *Term) *Term { return c.structField(t, "cache.DelCatFile", "File") })
		if !c.check("files of the decision", cc, ok1 && ok2 && len(dr) == len(fr), o.pos, "the files are %s and %s", d, f) {
			continue
		}
		same := true
		for i := range dr {
			same = same && dr[i].n == fr[i].n && dr[i].from == fr[i].from && dr[i].step == fr[i].step
			same = same && x.isField(c.structField(fr[i].name, "cache.DelCatFile", "Category"), "Category")
		}
		c.check("files of the decision", cc, same, o.pos, "the files that leave the cache are not those that leave the category: %s and %s", d, f)
		x.count(it, cc, act, dr)
		x.volumes(it, cc, dr, u.Sub(t, total), numFinal, numOld, dataFinal, names, list, total)
		x.remembered(it, cc, act, dr)
	}
	for a := range acts {
		c.check("every decision is carried out", con+" "+a, seen[a] > 0, o.pos, "no case for %s", a)
	}
}

// addedTo: the parts a list has got since it was base.
func addedTo(u *U, l, base *Term) ([]*Term, bool) {
	if l == base {
		return nil, true
	}
	if l.op == OSeq && len(l.args) > 0 && l.args[0].op == OSpread && l.args[0].args[0] == base {
		return l.args[1:], true
	}
	return nil, false
}

// fieldBase: the value whose named field t is.
func fieldBase(t *Term, field string) *Term {
	t = untag(t)
	if t != nil && t.op == OField && shortField(t.s) == field {
		return t.args[0]
	}
	return nil
}

// count: the number of files picked is that of the decision, and they are
// different files.
func (x *evictCall) count(it *IterOut, cc, act string, rs []picked) {
	c, u := x.c, x.e.u
	pos := x.o.pos
	n := u.Int(0)
	for i, r := range rs {
		if i > 0 {
			last := rs[i-1]
			step := r.step
			if r.single {
				step = last.step
			}
			if last.single {
				last.step = step
			}
			c.check("each file once", cc, !isZero(step) && isZero(u.Sub(step, last.step)) && isZero(u.Sub(r.from, u.Add(last.from, u.Mul(last.step, last.n)))), pos, "the files picked are not consecutive")
		} else if !r.single {
			c.check("each file once", cc, isOne(u, r.step) || isOne(u, u.Neg(r.step)), pos, "the files picked are not consecutive")
		}
		n = u.Add(n, r.n)
	}
	size := u.Len(x.field("Files"))
	st := &State{facts: it.facts}
	for _, r := range rs {
		if isNum(r.from) && !isZero(r.from) {
			c.check("number of files", cc, u.decide(st, u.LT(u.Sub(r.from, size), true)) == 1, pos, "file %s of a category that may have one", r.from)
		}
	}
	is := func(p *Term) bool { return u.decide(st, u.LT(p, true)) == 1 }
	ok := false
	switch act {
	case "NotDelete", "other":
		ok = len(rs) == 0
	case "DeleteAll":
		ok = n == size
	case "DeleteOne":
		ok = isOne(u, n)
		if len(rs) == 1 {
			order, by := x.sorted(it)
			last := isZero(u.Sub(rs[0].from, u.Sub(size, u.Int(1))))
			c.check("the file not requested for longest", cc, order > 0 && isZero(rs[0].from) || order < 0 && last, pos, "file %s of the category is deleted, where the files are ordered by %s", rs[0].from, by)
		}
	default:
		div := int64(2)
		if act == "DeleteQuarter" {
			div = 4
		}
		b := u.Call("idiv", size, u.Int(div))
		one := u.decide(st, u.EQ(size, u.Int(1))) == 1 || is(u.Sub(b, u.Int(2)))
		switch {
		case isOne(u, n) && one:
			ok = true
		case n == b:
			ok = u.decide(st, u.LT(u.Sub(b, u.Int(1)), true)) == 0
		default:
			// a loop that goes on while fewer files than wanted are picked
			wanted := []*Term{b}
			if one {
				wanted = append(wanted, u.Int(1))
			}
			for _, ev := range it.events {
				if ev.kind != "loop" {
					continue
				}
				l := ev.loop
				for i, w := range wanted {
					some := i > 0 || u.decide(st, u.LT(u.Sub(b, u.Int(1)), true)) == 0
					// every round leaves fewer than wanted: it begins or ends with fewer
					begins, ends := true, true
					for _, li := range l.iters {
						lst := &State{facts: li.facts}
						begins = begins && u.decide(lst, u.LT(u.Sub(l.k, w), true)) == 1
						ends = ends && u.decide(lst, u.LT(u.Sub(u.Add(l.k, u.Int(1)), w), true)) == 1
					}
					switch {
					case isOne(u, u.Sub(n, l.k)):
						ok = ok || ends && is(u.Sub(u.Sub(w, n), u.Int(1)))
					case n == l.k:
						ok = ok || begins && some && is(u.Sub(u.Sub(w, n), u.Int(1)))
					case n == size && l.trip == size:
						ok = ok || ends || begins && some
					}
				}
			}
		}
	}
	c.check("number of files", cc, ok, pos, "%s of %s files are deleted", n, size)
}

// sorted: the order by last request of the files of the category when they are
// picked, 1 if the first was not requested for longest, -1 if the last, 0 if
// they are not ordered by it.
func (x *evictCall) sorted(it *IterOut) (int, *Term) {
	u := x.e.u
	r, by := 0, u.Nil()
	for _, ev := range it.events {
		if ev.kind != "call" || !strings.HasPrefix(ev.name, "sort.S") || len(ev.args) != 2 || !x.isField(ev.args[0], "Files") {
			continue
		}
		t := ev.args[1]
		by, r = t, 0
		neg := t.op == ONot
		if neg {
			t = t.args[0]
		}
		if t.op != OLT {
			continue
		}
		recency := func(v *Term) int {
			y := untag(v)
			if y == nil || y.op != OField || y.s != "files.Stats.Recency" {
				return -1
			}
			f := untag(y.args[0])
			if f == nil || f.op != OIndex || !x.isField(f.args[0], "Files") {
				return -1
			}
			for i := 0; i < 2; i++ {
				if f.args[1] == u.Sym("β"+itoa(i)) {
					return i
				}
			}
			return -1
		}
		dir := map[int]int{}
		for _, m := range u.monos(t.args[0]) {
			if len(m.vars) == 0 && m.coef.Cmp(big.NewRat(-1, 1)) == 0 {
				// whole numbers: at least one more
				continue
			}
			if len(m.vars) == 1 && m.coef.IsInt() {
				dir[recency(m.vars[0].t)] += m.coef.Sign()
			} else {
				dir[-1]++
			}
		}
		if len(dir) == 2 && dir[0] == -dir[1] {
			r = dir[0]
			if neg {
				r = -r
			}
		}
	}
	return r, by
}

// sizeOf: t is the size of the file called name (or of its statistics).
func (x *evictCall) sizeOf(t *Term, list []*Event, name *Term) bool {
	b := fieldBase(t, "Size")
	return b != nil && x.isFile(b, list, name)
}

// isFile: b are the statistics kept under the name or the file of that name.
func (x *evictCall) isFile(b *Term, list []*Event, name *Term) bool {
	if untag(b) == untag(fieldBase(name, "Filename")) {
		return true
	}
	for _, g := range x.c.called(list, "files.Manager.Get") {
		if g.ret == b && g.args[1] == name {
			return true
		}
	}
	return false
}

// volumes: the sizes of the files picked, and nothing else, are taken from the
// occupancy and counted as deleted.
func (x *evictCall) volumes(it *IterOut, cc string, rs []picked, tot, numFinal, numOld, dataFinal, names, list, total *Term) {
	c, s, u := x.c, x.s, x.e.u
	pos := x.o.pos
	terms := 0
	for _, m := range u.monos(tot) {
		terms++
		one := m.coef.Cmp(big.NewRat(1, 1)) == 0 && len(m.vars) == 1 && m.vars[0].e == 1
		if !c.check("volume", cc, one, pos, "the volume deleted is %s", tot) {
			return
		}
	}
	c.check("volume", cc, terms == len(rs), pos, "the volume deleted is %s", tot)
	for _, r := range rs {
		found := false
		for _, m := range u.monos(tot) {
			t := m.vars[0].t
			if r.single {
				found = found || x.sizeOf(t, it.events, r.name)
			} else if t.op == OSum && t.args[0] == r.n {
				found = true
			}
		}
		c.check("volume", cc, found, pos, "the volume deleted is %s", tot)
		if r.single {
			continue
		}
		// step by step in the loop
		for _, ev := range it.events {
			if ev.kind != "loop" || ev.loop.trip != r.n && ev.loop.k != r.n {
				continue
			}
			for _, li := range ev.loop.iters {
				d := x.change(li, "c.size")
				if d == nil {
					continue
				}
				c.check("volume", cc+" each", x.sizeOf(u.Neg(d), li.events, x.at(r.name, ev.loop.k)), pos, "the occupancy changes by %s for a file", d)
			}
		}
	}
	d := x.change(it, "c.size")
	if d == nil {
		d = u.Int(0)
	}
	c.check("occupancy", cc, isZero(u.Add(d, tot)), pos, "the occupancy changes by %s, deleted are %s", d, tot)
	d = x.change(it, "c.dataDeleted")
	if d == nil {
		d = u.Int(0)
	}
	c.check("volume counted", cc, isZero(u.Sub(d, tot)) || isZero(d) && isZero(u.Sub(dataFinal, u.Add(s.old("c.dataDeleted"), total))), pos, "%s are counted, deleted are %s", d, tot)
	num := x.change(it, "c.numDeleted")
	n := u.Int(0)
	for _, r := range rs {
		n = u.Add(n, r.n)
	}
	late := u.Sub(numFinal, numOld)
	c.check("number counted", cc, num != nil && isZero(u.Sub(num, n)) || num == nil && (late == u.Len(names) || late == u.Len(list)), pos, "%s files are counted, in the end %s", num, late)
}

// change of a field of the cache over an iteration, nil if it is not written.
func (x *evictCall) change(it *IterOut, path string) *Term {
	a, _ := x.s.addr(path)
	v, ok := it.writes[a]
	if !ok || it.start[a] == nil {
		return nil
	}
	return x.e.u.Sub(v, it.start[a])
}

// remembered: each file concerned has the decision remembered under its name,
// and each file deleted is tracked as evicted.
func (x *evictCall) remembered(it *IterOut, cc, act string, rs []picked) {
	c, u := x.c, x.e.u
	pos := x.o.pos
	if act == "NotDelete" {
		n := 0
		for _, ev := range it.events {
			if ev.kind != "loop" {
				continue
			}
			for _, li := range ev.loop.iters {
				if len(c.called(li.events, "qlearn.Agent.SaveMemoryWithNoLimits")) == 0 {
					continue
				}
				n++
				ok := ev.loop.trip == u.Len(x.field("Files"))
				c.check("kept files are remembered", cc, ok, pos, "%s kept files are remembered", ev.loop.trip)
				name := x.savedFor(li, cc, li.events, nil, true)
				if name == nil {
					continue
				}
				f := untag(fieldBase(name, "Filename"))
				i := (*Term)(nil)
				if f != nil && f.op == OIndex && x.isField(f.args[0], "Files") {
					i = f.args[1]
				}
				ok = i != nil && (i == ev.loop.k || isZero(u.Sub(i, u.Sub(u.Sub(u.Len(x.field("Files")), u.Int(1)), ev.loop.k))))
				c.check("kept files are remembered", cc, ok, pos, "the file remembered is %s", name)
			}
		}
		c.check("kept files are remembered", cc, n == 1, pos, "%d loops over the kept files", n)
		c.check("kept files are not tracked as evicted", cc, len(evs(it.events, "fn", fnName(c.fn("files.Manager.AddDeletedFileMiss")))) == 0, pos, "a kept file is tracked")
		return
	}
	saves := 0
	for _, r := range rs {
		if r.single {
			x.savedFor(it, cc, it.events, r.name, false)
			saves++
			continue
		}
		done := false
		for _, ev := range it.events {
			if ev.kind != "loop" || ev.loop.trip != r.n && ev.loop.k != r.n && ev.loop.trip != u.Len(x.field("Files")) {
				continue
			}
			if len(evs(each1(ev.loop), "fn", fnName(c.fn("qlearn.Agent.SaveMemoryWithNoLimits")))) == 0 {
				continue
			}
			done = true
			for _, li := range ev.loop.iters {
				x.savedFor(li, cc, li.events, x.at(r.name, ev.loop.k), false)
			}
		}
		c.check("deleted files are remembered", cc, done, pos, "the deleted files are not remembered")
	}
	c.check("deleted files are remembered", cc, saves == len(c.called(it.events, "qlearn.Agent.SaveMemoryWithNoLimits")), pos, "a choice is remembered for another file")
}

func (x *evictCall) savedFor(it *IterOut, cc string, list []*Event, name *Term, kept bool) *Term {
	c, s, u := x.c, x.s, x.e.u
	saves := c.called(list, "qlearn.Agent.SaveMemoryWithNoLimits")
	want := 1
	if kept {
		want = 2
	}
	if !c.check("what is remembered", cc, len(saves) == want, x.o.pos, "%d choices are remembered for a file", len(saves)) {
		return nil
	}
	var under *Term
	marks := 0
	for _, sv := range saves {
		if x.e.strip(sv.args[1]) == u.Str("NotDelete") {
			marks++
			continue
		}
		under = x.e.strip(sv.args[1])
	}
	if !c.check("what is remembered", cc, under != nil && (marks == 1) == kept, x.o.pos, "%d choices are remembered as NotDelete", marks) {
		return nil
	}
	if name != nil {
		c.check("what is remembered", cc, under == name, x.o.pos, "the choice for %s is remembered under %s", name, under)
	}
	size, _ := s.addr("c.size")
	now := it.writes[size]
	if now == nil {
		now = x.starts[size]
	}
	for _, sv := range saves {
		f := func(n string) *Term { return c.structField(sv.args[2], "qlearn.Choice", n) }
		if !c.check("what is remembered", cc, f("State") != nil && fromAgent(sv.args[0], "evictionAgent"), sv.pos, "%v is remembered", sv.args) {
			continue
		}
		c.check("what is remembered", cc+" State", x.isField(f("State"), "Idx"), sv.pos, "the state is %s", f("State"))
		c.check("what is remembered", cc+" Action", x.isField(f("Action"), "Action"), sv.pos, "the action is %s", f("Action"))
		c.check("what is remembered", cc+" Tick", f("Tick") == s.old("c.tick"), sv.pos, "the tick is %s", f("Tick"))
		c.check("what is remembered", cc+" Hit", f("Hit") == u.Bool(false), sv.pos, "hit is %s", f("Hit"))
		for _, p := range [][2]string{{"DeltaT", "DeltaLastRequest"}, {"Size", "Size"}, {"Frequency", "Frequency"}} {
			b := fieldBase(f(p[0]), p[1])
			c.check("what is remembered", cc+" "+p[0], b != nil && x.isFile(b, list, under), sv.pos, "%s is %s", p[0], f(p[0]))
		}
		if now != nil {
			ok := isZero(u.Sub(u.Mul(f("Capacity"), s.old("c.MaxSize")), u.Mul(now, u.Int(100))))
			c.check("what is remembered", cc+" Capacity", ok, sv.pos, "the occupancy is %s", f("Capacity"))
		}
	}
	if !kept {
		tr := c.called(list, "files.Manager.AddDeletedFileMiss")
		c.check("deleted files are tracked", cc, len(tr) == 1 && tr[0].args[1] == under && rootedAt(tr[0].args[0], s.arg("c")), x.o.pos, "%d files are tracked as evicted", len(tr))
	}
	return under
}

// categorised: a file that is added or hit is put in the category of its
// statistics, with an eviction agent, and no other.
func (c *Ctx) categorised(add, hit bool) {
	con := "AIRL.UpdatePolicy"
	e := c.engine()
	e.precise = true
	e.opaque = c.opaqueWork()
	e.keepEv = func(ev *Event) bool {
		return ev.kind == "fn" || isRandom(ev) || ev.name == "queue.Queue.insert" || ev.name == "queue.Queue.update"
	}
	s := c.scOn(e, c.fn("cache.AIRL.UpdatePolicy"), con, "c", "req", "st", "hit")
	u := e.u
	s.setBool("c.additionAgentOK", add)
	s.setBool("c.evictionAgentOK", true)
	s.setNil("c.logFile")
	k, _, _ := c.pkgConst(e, "cache", "SCDL2")
	s.set("c.rlType", k)
	m, _, _ := c.pkgConst(e, "cache", "EvictionOnFree")
	s.set("c.evictionType", m)
	s.give("hit", u.Bool(hit))
	n := 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		ev := o.st.events
		held := countEv(ev, "invoke", "queue.Queue.insert") + countEv(ev, "invoke", "queue.Queue.update")
		get, put := c.called(ev, "cache.CategoryManager.GetFileCategory"), c.called(ev, "cache.CategoryManager.AddOrUpdateCategoryFile")
		if held == 0 {
			c.check("refused files have no category", con, len(put) == 0, o.pos, "a file that is not stored is put in a category")
			continue
		}
		n++
		ok := len(put) == 1 && len(get) >= 1 && rootedAt(put[0].args[0], s.arg("c")) && put[0].args[2] == s.arg("st")
		if ok {
			ok = false
			for _, g := range get {
				ok = ok || g.ret == put[0].args[1] && g.args[1] == s.arg("st")
			}
		}
		c.check("stored files are in their category", con, ok, o.pos, "a file is stored or hit and %d are put in a category", len(put))
	}
	c.check("paths", con, n > 0, s.fn.Pos(), "no path stores a file")
}
