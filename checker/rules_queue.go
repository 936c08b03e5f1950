package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", 30, "contracts on the tables of every replacement queue after initialisation, insertion, update and removal, with loop summaries for the removal of many files", ruleQueueTables)
	register("P23", 12, "traversal order, insertion end and ordering predicate of every replacement queue, as loop summaries and normalised comparison predicates", ruleQueueOrder)
	register("P24", 8, "loop summaries of every victim selection: continuing implies the volume is not reached, stopping early implies it is", ruleVictimVolume)
	register("P45", 15, "contracts: an update or removal of a file the tables agree on returns no error but where its ordering value was not found; coverage of the search for its place by the index range of its loop; values recorded by the search", ruleQueueAccepts)
	register("P25", 15, "contracts: a wrong insertion, update or removal is answered with an error and leaves the tables alone; the wrappers forward their arguments and turn errors into a stop", ruleQueueMisuse)
}

// queueKind describes one concrete replacement queue.
type queueKind struct {
	t     *types.Named
	name  string
	kind  string // list, buckets, set
	owner string // struct that declares the tables
	w     *World
	c     *Ctx
	ord   map[string]*Term
}

func (c *Ctx) queueKinds() []*queueKind {
	var r []*queueKind
	for _, n := range c.implementers("queue.Queue") {
		k := &queueKind{t: n, name: n.Obj().Name(), kind: "set", c: c, w: c.w}
		var find func(t types.Type)
		find = func(t types.Type) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch fieldName(t, i) {
				case "files":
					k.owner = typeName(t)
				case "queue":
					switch f.Type().Underlying().(type) {
					case *types.Slice:
						k.kind = "list"
					case *types.Map:
						k.kind = "buckets"
					}
				}
				if f.Embedded() {
					find(f.Type())
				}
			}
		}
		find(n)
		r = append(r, k)
	}
	return r
}

// isBase: a type that only serves as the base of other queues.
func (k *queueKind) isBase() bool {
	for _, o := range k.w.named {
		st, ok := o.Underlying().(*types.Struct)
		if !ok || o == k.t {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && types.Identical(st.Field(i).Type(), k.t) {
				return true
			}
		}
	}
	return false
}

func (k *queueKind) fn(method string) *ssa.Function {
	f := k.c.methodOf(types.NewPointer(k.t), method)
	if f == nil {
		k.c.missing("method " + k.name + "." + method)
	}
	return f
}

// sc is a scenario of a method on a queue whose orderings are set up by init.
func (k *queueKind) sc(method string, args ...string) *Sc {
	c := k.c
	e := c.engine()
	e.maxStates *= 2
	s := c.scOn(e, k.fn(method), k.name+"."+method, append([]string{"q"}, args...)...)
	if k.kind == "buckets" {
		outs := e.Run(k.fn("init"), []*Term{s.arg("q")}, newState())
		for _, o := range outs {
			for a, v := range o.st.mem.ents {
				if a.op == OField && v.op == OClosure {
					e.u.write(s.pre, a, v)
				}
			}
		}
	}
	return s
}

// tables are the maps that are keyed by file.
func (k *queueKind) tables() []string {
	switch k.kind {
	case "list":
		return []string{"files", "lastIndex"}
	case "buckets":
		return []string{"files", "lastIndex", "lastVal"}
	}
	return []string{"files"}
}

// feature is the ordering value of a file as an expression.
func (k *queueKind) feature(f string) string {
	switch k.name {
	case "LFU":
		return f + ".Frequency"
	case "Weighted":
		return f + ".Weight"
	}
	return f + ".Size"
}

func (k *queueKind) descending() bool { return k.name == "SizeBig" }

// sliceFrom returns lo when t is base[lo:].
func sliceFrom(u *U, t, base *Term) *Term {
	if t == base {
		return u.Int(0)
	}
	if t.op == OSlice && t.args[0] == base && t.args[2] == nil && t.args[1] != nil {
		return t.args[1]
	}
	return nil
}

// removedAt recognises that final is base without the n entries at position i.
func removedAt(u *U, base, final, n *Term, evts []*Event) *Term {
	ln := u.Len(base)
	if final == u.SliceOp(base, n, nil) {
		return u.Int(0)
	}
	if final == u.SliceOp(base, nil, u.Sub(ln, n)) {
		for _, ev := range evts {
			if ev.kind != "copy" || len(ev.args) != 2 {
				continue
			}
			d, s := sliceFrom(u, ev.args[0], base), sliceFrom(u, ev.args[1], base)
			if d != nil && s != nil && isZero(u.Sub(u.Sub(s, d), n)) {
				return d
			}
		}
		return nil
	}
	if final.op == OSeq && len(final.args) == 2 && final.args[0].op == OSpread && final.args[1].op == OSpread {
		a, b := final.args[0].args[0], final.args[1].args[0]
		if a.op == OSlice && a.args[0] == base && a.args[1] == nil && a.args[2] != nil {
			if s := sliceFrom(u, b, base); s != nil && isZero(u.Sub(u.Sub(s, a.args[2]), n)) {
				return a.args[2]
			}
		}
	}
	return nil
}

// insertedAt recognises that final is base with v inserted at position i.
func insertedAt(u *U, st *State, base, final, v *Term, evts []*Event) *Term {
	if final.op != OSeq {
		return nil
	}
	if len(final.args) == 3 && final.args[0].op == OSpread && final.args[1].op == OElem && final.args[1].args[0] == v && final.args[2].op == OSpread {
		a := final.args[0].args[0]
		if a.op == OSlice && a.args[0] == base && a.args[1] == nil {
			if s := sliceFrom(u, final.args[2].args[0], base); s != nil && s == a.args[2] {
				return s
			}
		}
	}
	if len(final.args) != 2 || final.args[0] != u.Spread(base) && !(base.op == OSeq && len(base.args) == 0) || final.args[1].op != OElem {
		return nil
	}
	for _, ev := range evts {
		if ev.kind != "copy" || len(ev.args) != 2 {
			continue
		}
		d, s := sliceFrom(u, ev.args[0], final), sliceFrom(u, ev.args[1], final)
		if d == nil || s == nil || !isZero(u.Sub(u.Sub(d, s), u.Int(1))) {
			continue
		}
		for a, x := range st.mem.ents {
			if a.op == OIndex && a.args[0] == final && a.args[1] == s && x == v {
				return s
			}
		}
	}
	if final.args[1].args[0] == v {
		return u.Len(base)
	}
	return nil
}

// orderedSearch recognises the position of v in an ordered list: the first
// position whose entry is not before v (orEqual: or equal).
func orderedSearch(u *U, pos, base, v *Term, desc, integer, strict bool) bool {
	if pos == nil || pos.op != OCall || pos.s != "sort.Search" || pos.args[0] != u.Len(base) {
		return false
	}
	pred := pos.args[1]
	var elem *Term
	contains(pred, func(t *Term) bool {
		if t.op == OInit && t.args[0].op == OIndex && t.args[0].args[0] == base || t.op == OCall && t.s == "@" && t.args[1].op == OIndex && t.args[1].args[0] == base {
			elem = t
		}
		return elem != nil
	})
	if elem == nil {
		return false
	}
	a, b := elem, v // ascending: v < elem or v <= elem
	if desc {
		a, b = v, elem
	}
	if pred == u.LT(u.Sub(b, a), integer) {
		return !strict // v itself is not found
	}
	return pred == u.Not(u.LT(u.Sub(a, b), integer))
}

func (k *queueKind) integer() bool { return k.name == "LFU" }

func ruleQueueTables(c *Ctx) {
	kinds := c.queueKinds()
	c.check("coverage", "queues", len(kinds) >= 6, token.NoPos, "only %d replacement queues", len(kinds))
	for _, k := range kinds {
		k := k
		if k.isBase() {
			continue
		}
		c.guarded(k.name, func() { queueTables(c, k) })
	}
}

func queueTables(c *Ctx, k *queueKind) {
	// init
	s := k.sc("init")
	con := k.name
	for _, t := range k.tables() {
		s.ensure("empty after init", con, "len(q."+t+") == 0")
	}
	if k.kind != "set" {
		s.ensure("empty after init", con, "len(q.queue) == 0")
	}
	if k.kind == "buckets" {
		s.ensure("empty after init", con, "len(q.orderedValues) == 0")
	}
	// queries
	s = k.sc("Check", "file")
	s.ensure("membership", con, "ret0 == in(q.files, file)")
	s = k.sc("len")
	s.ensure("length", con, "ret0 == len(q.files)")
	s = k.sc("getFileStats", "file")
	s.ensure("statistics of a file", con, "ret0 == q.files[file]")
	s.assume("!in(q.files, file)")
	s.ran = false
	c.check("statistics of an absent file", con, len(s.returns()) == 0, s.fn.Pos(), "the statistics of a file that is not there are answered")
	// insertion
	s = k.sc("insert", "file")
	s.assume("!in(q.files, file.Filename)")
	u := s.e.u
	n := 0
	for _, o := range s.returns() {
		n++
		s.ensureOut(o, "insertion", con, "ret0 == nil")
		s.ensureOut(o, "insertion", con, "q.files[file.Filename] == file && len(q.files) == old(len(q.files)) + 1")
		for _, t := range k.tables() {
			s.ensureOut(o, "insertion in every table", con, "in(q."+t+", file.Filename)")
		}
		name := s.old("file.Filename")
		switch k.kind {
		case "list":
			q := s.term(o, "q.queue")
			c.check("insertion in the order", con, q == u.Seq(u.Spread(s.old("q.queue")), u.Elem(name)), o.pos, "the order becomes %s", q)
			s.ensureOut(o, "position", con, "q.lastIndex[file.Filename] == old(len(q.queue))")
		case "buckets":
			v := s.old(k.feature("file"))
			s.ensureOut(o, "ordering value", con, "q.lastVal[file.Filename] == "+k.feature("file"))
			s.ensureOut(o, "insertion in the order", con, "in(q.queue, "+k.feature("file")+")")
			b := s.term(o, "q.queue["+k.feature("file")+"]")
			old := s.old("q.queue[" + k.feature("file") + "]")
			_, in, _ := s.e.mapAddr(s.old("q.queue"), v, k.queueType())
			was := u.decide(o.st, s.e.presence(s.pre, in))
			ov, ov0 := s.term(o, "q.orderedValues"), s.old("q.orderedValues")
			switch was {
			case 1:
				c.check("insertion in the order", con, b == u.Seq(u.Spread(old), u.Elem(name)), o.pos, "the group becomes %s", b)
				c.check("position", con, isZero(u.Sub(s.term(o, "q.lastIndex[file.Filename]"), u.Len(old))), o.pos, "position %s", s.term(o, "q.lastIndex[file.Filename]"))
				c.check("ordering values", con, ov == ov0, o.pos, "the ordering values change to %s although the group exists", ov)
			case 0:
				// a group that is not there reads as an empty list
				none := func(t *Term) *Term { return u.Subst(t, old, u.Seq()) }
				c.check("insertion in the order", con, none(b) == u.Seq(u.Elem(name)), o.pos, "the new group is %s", b)
				c.check("position", con, isZero(none(s.term(o, "q.lastIndex[file.Filename]"))), o.pos, "position %s", s.term(o, "q.lastIndex[file.Filename]"))
				i := insertedAt(u, o.st, ov0, ov, v, o.st.events)
				c.check("ordering values", con, i != nil, o.pos, "the ordering values become %s", ov)
			default:
				c.check("ordering values", con, false, o.pos, "it is not decided whether the group exists")
			}
		}
	}
	c.check("insertion", con, n > 0, s.fn.Pos(), "no path inserts")
	// update
	s = k.sc("update", "file")
	s.assume("in(q.files, file.Filename) && q.files[file.Filename] == file")
	for _, t := range k.tables() {
		s.assume("in(q." + t + ", file.Filename)")
	}
	u = s.e.u
	n = 0
	for _, o := range s.returns() {
		if k.kind == "list" {
			k.searched(s.e, o, s.old("q.queue"), s.old("q.lastIndex[file.Filename]"), s.old("file.Filename"), con)
		}
		if r := s.term(o, "ret0"); r.op != OConst {
			continue // the tables disagree
		}
		n++
		name := s.old("file.Filename")
		for _, t := range k.tables() {
			s.ensureOut(o, "update keeps the file", con, "in(q."+t+", file.Filename)")
		}
		s.ensureOut(o, "update keeps the file", con, "q.files[file.Filename] == file")
		switch k.kind {
		case "list":
			// moved to the end
			q0 := s.old("q.queue")
			q := s.term(o, "q.queue")
			ok, last := false, u.Sub(u.Len(q0), u.Int(1))
			if q == q0 {
				for _, ev := range o.st.events {
					if ev.kind != "copy" {
						continue
					}
					d, f := sliceFrom(u, ev.args[0], q0), sliceFrom(u, ev.args[1], q0)
					if d != nil && f != nil && isZero(u.Sub(u.Sub(f, d), u.Int(1))) && k.located(s.e, o.st, q0, d, name) {
						ok = true
					}
				}
				at := s.e.readAt(o.st, u.Index(q0, last, "e:int64"))
				ok = ok && at == name
			} else if q.op == OSeq && len(q.args) == 3 && q.args[2] == u.Elem(name) {
				i := removedAt(u, q0, u.Seq(q.args[0], q.args[1]), u.Int(1), nil)
				ok = i != nil && k.located(s.e, o.st, q0, i, name)
			}
			c.check("update moves the file to the end", con, ok, o.pos, "the order becomes %s", q)
			s.ensureOut(o, "position", con, "q.lastIndex[file.Filename] == old(len(q.queue)) - 1")
		case "buckets":
			b := s.term(o, "q.queue["+k.feature("file")+"]")
			c.check("update moves the file to its new group", con, b.op == OSeq && len(b.args) > 0 && b.args[len(b.args)-1] == u.Elem(name), o.pos, "the group becomes %s", b)
			s.ensureOut(o, "ordering value", con, "q.lastVal[file.Filename] == "+k.feature("file"))
		}
	}
	c.check("update", con, n > 0, s.fn.Pos(), "no path updates")
	// removal of one file
	s = k.sc("remove", "files")
	u = s.e.u
	x := u.Sym("x")
	s.give("files", u.Seq(u.Elem(x)))
	s.env["x"] = val{x, types.Typ[types.Int64]}
	n = 0
	for _, t := range k.tables() {
		s.assume("in(q." + t + ", x)")
	}
	for _, o := range s.returns() {
		switch k.kind {
		case "list":
			k.searched(s.e, o, s.old("q.queue"), s.old("q.lastIndex[x]"), x, con)
		case "buckets":
			s.env["v"] = val{s.old("q.lastVal[x]"), s.env["x"].ty}
			k.searched(s.e, o, s.old("q.queue[v]"), s.old("q.lastIndex[x]"), x, con)
		}
		r := o.ret[0]
		if r.op != OConst {
			continue
		}
		n++
		for _, t := range k.tables() {
			s.ensureOut(o, "removal from every table", con, "!in(q."+t+", x)")
		}
		switch k.kind {
		case "list":
			q0 := s.old("q.queue")
			i := removedAt(u, q0, s.term(o, "q.queue"), u.Int(1), o.st.events)
			c.check("removal from the order", con, i != nil && k.located(s.e, o.st, q0, i, x), o.pos, "the order becomes %s", s.term(o, "q.queue"))
		case "buckets":
			v := s.old("q.lastVal[x]")
			s.env["v"] = val{v, s.env["x"].ty}
			b0 := s.old("q.queue[v]")
			_, in, _ := s.e.mapAddr(s.old("q.queue"), v, k.queueType())
			switch u.decide(o.st, s.e.presence(o.st, in)) {
			case 1:
				i := removedAt(u, b0, s.term(o, "q.queue[v]"), u.Int(1), o.st.events)
				c.check("removal from the order", con, i != nil && k.located(s.e, o.st, b0, i, x), o.pos, "the group becomes %s", s.term(o, "q.queue[v]"))
				c.check("kept group", con, s.term(o, "q.orderedValues") == s.old("q.orderedValues"), o.pos, "the ordering values change to %s although the group stays", s.term(o, "q.orderedValues"))
			case 0:
				c.check("dropped group", con, u.decide(o.st, u.LT(u.Sub(u.Len(b0), u.Int(2)), true)) == 1, o.pos, "a group of more than one file is dropped")
				k.valueRemoved(s.e, o.st, s.old("q.orderedValues"), s.term(o, "q.orderedValues"), v, o.st.events, con, o.pos)
			default:
				c.check("dropped group", con, false, o.pos, "it is not decided whether the group stays")
			}
		}
	}
	c.check("removal", con, n > 0, s.fn.Pos(), "no path removes")
	// removal of many files: every name, in every table
	s = k.sc("remove", "files")
	k.pairedRemovals(s, con, "remove")
	k.removesAll(s, con, "remove")
	s = k.sc("removeWorst", "files")
	k.pairedRemovals(s, con, "removeWorst")
	k.removesAll(s, con, "removeWorst")
	if k.kind != "set" {
		k.prefixRemoval(s, con)
	}
}

func (k *queueKind) queueType() types.Type {
	var r types.Type
	var find func(t types.Type)
	find = func(t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if fieldName(t, i) == "queue" {
				r = st.Field(i).Type()
			}
			if st.Field(i).Embedded() {
				find(st.Field(i).Type())
			}
		}
	}
	find(k.t)
	return r
}

// located: the path established that entry i of base is the file x; -1 stands
// for an exhausted search, which the slicing rejects.
func (k *queueKind) located(e *Engine, st *State, base, i, x *Term) bool {
	if isNum(i) && i.rat.Sign() < 0 {
		return true
	}
	at := e.u.Index(base, i, "e:int64")
	for f, v := range st.facts {
		if !v || f.op != OEQ {
			continue
		}
		for j := 0; j < 2; j++ {
			y := f.args[j]
			if f.args[1-j] == x && (y.op == OInit && y.args[0] == at || y.op == OCall && y.s == "@" && y.args[1] == at) {
				return true
			}
		}
	}
	return false
}

// searched: a search for the file x in base that goes by positions looks at all
// places up to the recorded one: a file never moves behind its recorded place.
func (k *queueKind) searched(e *Engine, o Out, base, rec, x *Term, con string) {
	u := e.u
	for _, ev := range o.st.events {
		l := ev.loop
		if l == nil || l.trip == nil {
			continue
		}
		for _, it := range l.iters {
			for f, v := range it.facts {
				if v || f.op != OEQ {
					continue
				}
				for j := 0; j < 2; j++ {
					y := f.args[j]
					if f.args[1-j] != x {
						continue
					}
					var at *Term
					if y.op == OInit {
						at = y.args[0]
					} else if y.op == OCall && y.s == "@" {
						at = y.args[1]
					}
					if at == nil || at.op != OIndex || at.args[0] != base {
						continue
					}
					lo, hi := u.Subst(at.args[1], l.k, u.Int(0)), u.Subst(at.args[1], l.k, u.Sub(l.trip, u.Int(1)))
					if u.decide(o.st, u.LT(u.Sub(u.Subst(at.args[1], l.k, u.Int(1)), lo), true)) == 1 {
						lo, hi = hi, lo
					}
					less := func(a, b *Term) bool { return u.decide(o.st, u.LT(u.Sub(a, b), true)) == 1 }
					k.c.check("search for the place", con, !less(u.Int(0), lo), o.pos, "the search stops at place %s", lo)
					top := rec
					if less(rec, u.Len(base)) {
						top = u.Sub(rec, u.Int(1)) // the recorded place was tried before
					}
					notLess := func(a, b *Term) bool { return u.decide(o.st, u.LT(u.Sub(a, b), true)) == 0 }
					k.c.check("search for the place", con, hi.op == OCall && strings.Contains(strings.ToLower(hi.s), "min") || notLess(hi, top) || notLess(hi, u.Sub(u.Len(base), u.Int(1))), o.pos, "the search starts at place %s", hi)
					inside, found := false, false
					here := u.EQ(x, y)
					for f2, v2 := range o.st.facts {
						if contains(f2, func(z *Term) bool { return z == l.k }) {
							inside = true
							found = found || v2 && (f2 == here || f2.op == OEQ && (f2.args[0] == x || f2.args[1] == x))
						}
					}
					k.c.check("search for the place", con, !inside || found, o.pos, "the search ends early where %s", factsString(o.st.facts))
				}
			}
		}
	}
}

func (k *queueKind) valueRemoved(e *Engine, st *State, ov0, ov, v *Term, evts []*Event, con string, pos token.Pos) {
	u := e.u
	i := removedAt(u, ov0, ov, u.Int(1), evts)
	k.c.check("ordering value of a dropped group", con, i != nil, pos, "the ordering values become %s", ov)
	if i != nil && !(isNum(i) && i.rat.Sign() < 0) {
		found := false
		for f, t := range st.facts {
			if t && f.op == OEQ && contains(f, func(y *Term) bool { return y.op == OIndex && y.args[0] == ov0 && y.args[1] == i }) {
				found = true
			}
		}
		if i.op == OCall && i.s == "sort.Search" {
			found = false
			known := map[*Term]bool{}
			below := u.LT(u.Sub(i, u.Len(ov0)), true)
			for f, t := range map[*Term]bool{below: true, u.LT(i, true): false} {
				if f.op == ONot {
					f, t = f.args[0], !t
				}
				known[f] = t
			}
			for f, t := range st.facts {
				if contains(f, func(y *Term) bool { return y == i }) {
					if t && f.op == OEQ && (f.args[0] == v || f.args[1] == v) {
						continue // the entry found is compared
					}
					d := u.decide(&State{facts: known}, f)
					k.c.check("ordering value of a dropped group", con, d == b2i(t), pos, "the ordering value is dropped only when %s is %v", f, t)
				}
			}
		}
		k.c.check("ordering value of a dropped group", con, found || orderedSearch(u, i, ov0, v, k.descending(), k.integer(), true), pos, "the ordering value is looked for at %s", i)
	}
}

// scope is one iteration of a loop or the whole of a path.
type scope struct {
	facts  map[*Term]bool
	start  map[*Term]*Term
	writes map[*Term]*Term
	events []*Event
	phis   map[string][2]*Term
	loop   *LoopInfo
}

func scopesOf(o Out) []scope {
	r := []scope{{facts: o.st.facts, writes: o.st.mem.ents, events: o.st.events}}
	seen := map[*LoopInfo]bool{}
	each(o.st.events, func(ev *Event, in []*LoopInfo) {
		if ev.kind == "loop" && !seen[ev.loop] {
			seen[ev.loop] = true
			for _, it := range ev.loop.iters {
				r = append(r, scope{it.facts, it.start, it.writes, it.events, it.phis, ev.loop})
			}
		}
	})
	return r
}

// presence lists the keys a scope adds to or takes from a table.
func (k *queueKind) presence(s scope, table string) map[*Term]*Term {
	r := map[*Term]*Term{}
	for a, v := range s.writes {
		if a.op == OMapIn && a.s == "mi:"+k.owner+"."+table {
			r[a.args[1]] = v
		}
	}
	return r
}

func (k *queueKind) pairedRemovals(s *Sc, con, method string) {
	c := k.c
	rem := 0
	for _, o := range s.returns() {
		if o.ret[0].op != OConst {
			continue
		}
		for _, sc := range scopesOf(o) {
			fs := k.presence(sc, "files")
			for _, t := range k.tables() {
				ts := k.presence(sc, t)
				for key, v := range fs {
					c.check("tables agree in "+method, con, ts[key] == v, o.pos, "%s is taken from or added to the files but not %s", key, t)
				}
				for key, v := range ts {
					heal := v.op == OConst && v.b && (key.op == OInit && key.args[0].op == OIndex || key.op == OCall && key.s == "@" && key.args[1].op == OIndex)
					c.check("tables agree in "+method, con, fs[key] == v || heal, o.pos, "%s is taken from or added to %s but not the files", key, t)
				}
			}
			for _, v := range fs {
				if sc.loop != nil && v.op == OConst && !v.b {
					rem++
				}
			}
		}
	}
	c.check("removal in "+method, con, rem > 0, s.fn.Pos(), "no iteration removes a file")
}

// removesAll: a removal that succeeds went through all names it was given.
func (k *queueKind) removesAll(s *Sc, con, method string) {
	c, u := k.c, s.e.u
	names := s.arg("files")
	var removes func(l *LoopInfo) bool
	removes = func(l *LoopInfo) bool {
		for _, it := range l.iters {
			for a, v := range it.writes {
				if a.op == OMapIn && a.s == "mi:"+k.owner+".files" && v.op == OConst && !v.b {
					return true
				}
			}
			for _, ev := range it.events {
				if ev.loop != nil && removes(ev.loop) {
					return true
				}
			}
		}
		return false
	}
	for _, o := range s.returns() {
		if o.ret[0].op != OConst || s.e.infeasible(o.st.facts) {
			continue
		}
		for _, ev := range o.st.events {
			l := ev.loop
			if l == nil || !removes(l) {
				continue
			}
			inside := false
			var lens []*Term
			contains2(o.st.facts, func(x *Term) {
				inside = inside || x == l.k
				if x.op == OLen {
					lens = append(lens, x)
				}
			})
			// the names that are left when groups are taken off their front
			rest := names
			for n, v := range l.enter {
				for _, it := range l.iters {
					if p, ok := it.phis[n]; ok && v == names {
						rest = p[0]
					}
				}
			}
			left := u.Len(rest)
			if rest == names {
				left = u.Sub(left, u.Add(l.k, u.Int(1)))
			}
			switch {
			case !inside && rest == names && l.trip != nil && k.kind != "buckets":
				c.check("all names in "+method, con, l.trip == u.Len(names), o.pos, "%s names are gone through", l.trip)
			case inside:
				ok := u.decide(o.st, u.LT(u.Sub(left, u.Int(1)), true)) == 1
				for _, n := range lens {
					ok = ok || rest != names && n != left && u.decide(o.st, u.LT(u.Sub(u.Sub(left, n), u.Int(1)), true)) == 1
				}
				c.check("all names in "+method, con, ok, o.pos, "it stops early when %s", factsString(o.st.facts))
			}
			for _, it := range l.iters {
				for _, x := range it.events {
					if x.loop == nil || !removes(x.loop) {
						continue
					}
					for _, i2 := range x.loop.iters {
						known := map[*Term]bool{}
						contains2(i2.facts, func(y *Term) {
							if y.op == OLen {
								below := u.LT(u.Sub(x.loop.k, y), true)
								if below.op == ONot {
									known[below.args[0]] = false
								} else {
									known[below] = true
								}
							}
						})
						for f, t := range i2.facts {
							if f.op != OLT || !contains(f, func(y *Term) bool { return y == x.loop.k }) {
								continue
							}
							d := u.decide(&State{facts: known}, f)
							c.check("all names in "+method, con, d == b2i(t), o.pos, "names of a group are left out: they are taken only when %s is %v", f, t)
						}
					}
				}
			}
		}
	}
}

// prefixRemoval: removing the worst files takes a prefix of the order and
// compares every name.
func (k *queueKind) prefixRemoval(s *Sc, con string) {
	c, u := k.c, s.e.u
	names := s.arg("files")
	n := 0
	for _, o := range s.returns() {
		if o.ret[0].op != OConst {
			continue
		}
		for _, sc := range scopesOf(o) {
			if sc.loop == nil {
				continue
			}
			for key, v := range k.presence(sc, "files") {
				if v.op != OConst || v.b {
					continue
				}
				// the removed name was compared with the entry of the order at the same position
				ok := false
				for f, t := range sc.facts {
					if !t || f.op != OEQ || f.args[0] != key && f.args[1] != key {
						continue
					}
					ia, ib := entryIndex(f.args[0]), entryIndex(f.args[1])
					if ia != nil && ib != nil && ia.args[0] != ib.args[0] && ia.args[1] == ib.args[1] && ia.args[1] == sc.loop.k {
						ok = true
					}
				}
				n++
				c.check("removed prefix", con, ok, o.pos, "%s is removed without being compared with the worst files in order", key)
			}
		}
		if k.kind == "list" {
			q0 := s.old("q.queue")
			i := removedAt(u, q0, s.term(o, "q.queue"), u.Len(names), o.st.events)
			c.check("removed prefix", con, i != nil && isZero(i), o.pos, "the order becomes %s", s.term(o, "q.queue"))
		}
	}
	c.check("removed prefix", con, n > 0, s.fn.Pos(), "no worst file is removed")
	if k.kind != "buckets" {
		return
	}
	dropped, cut, values := 0, 0, 0
	for _, o := range s.returns() {
		if o.ret[0].op != OConst {
			continue
		}
		counted := k.cutFront(s, o)
		if counted {
			values++
		}
		for _, sc := range scopesOf(o) {
			for key, v := range k.presence(sc, "queue") {
				var q0, q1 *Term
				for a, x := range sc.writes {
					if a.op == OMapAt && a.s == "m:"+k.owner+".queue" && a.args[1] == key {
						q1 = x
						q0 = sc.start[a]
						if q0 == nil {
							q0 = s.e.readAt(s.pre, a)
						}
					}
				}
				if v.op == OConst && !v.b {
					// the whole group is named
					dropped++
					ok := false
					for f, t := range sc.facts {
						if f.op == OLT && !t && contains(f, func(x *Term) bool { return x.op == OLen && entryOf(x.args[0], key) }) {
							ok = true
						}
						if f.op == OEQ && t && contains(f, func(x *Term) bool { return x.op == OLen && entryOf(x.args[0], key) }) {
							ok = true
						}
					}
					c.check("dropped group in removeWorst", con, ok, o.pos, "a group is dropped without comparing its length")
					rec := sc.loop == nil || counted
					for _, p := range sc.phis {
						if p[1].op == OSeq && contains(p[1], func(x *Term) bool { return x == key }) || p[1] != p[0] && p[1].op == OSeq {
							rec = true
						}
					}
					for _, p := range sc.phis {
						if p[0] != p[1] && p[1].op == OMapSeq {
							rec = true
						}
					}
					c.check("dropped group in removeWorst", con, rec, o.pos, "the ordering value of a dropped group is not collected")
				} else if q1 != nil && q0 != nil && q1 != q0 {
					cut++
					ok := false
					for _, ev := range sc.events {
						if ev.kind != "copy" {
							continue
						}
						d, f := sliceFrom(u, ev.args[0], ev.args[0]), ev.args[1]
						if d != nil && f.op == OSlice && f.args[0] == ev.args[0] && f.args[2] == nil && q1 == u.SliceOp(ev.args[0], nil, u.Sub(u.Len(ev.args[0]), f.args[1])) {
							ok = true
						}
					}
					if q1.op == OSlice && q1.args[2] == nil {
						ok = true
					}
					c.check("shortened group", con, ok, o.pos, "a group becomes %s", q1)
				}
			}
			for a, x := range sc.writes {
				if sc.loop != nil && a.op == OField && strings.HasSuffix(a.s, ".orderedValues") {
					values++
					i := removedAt(u, sc.start[a], x, u.Int(1), sc.events)
					c.check("ordering values of dropped groups", con, i != nil && i.op == OCall && i.s == "sort.Search" || i != nil && entryFact(sc.facts, sc.start[a], i), o.pos, "the ordering values become %s", x)
				}
			}
		}
	}
	c.check("removed prefix", con, dropped > 0 && cut > 0 && values > 0, s.fn.Pos(), "%d dropped groups, %d shortened, %d removed ordering values", dropped, cut, values)
}

// cutFront: the groups are visited in order, all but the last one visited are
// dropped, and as many ordering values are taken from the front as groups were
// dropped.
func (k *queueKind) cutFront(s *Sc, o Out) bool {
	u := s.e.u
	drops := func(sc scope) *Term {
		var r *Term
		for key, v := range k.presence(sc, "queue") {
			if v.op == OConst && !v.b {
				if r != nil {
					return nil
				}
				r = key
			}
		}
		return r
	}
	front := s.old("q.orderedValues")
	at := func(key, i *Term) bool {
		x := entryIndex(key)
		return x != nil && x.args[0] == front && x.args[1] == i
	}
	var loop *LoopInfo
	for _, sc := range scopesOf(o) {
		if sc.loop == nil {
			continue
		}
		if key := drops(sc); key != nil {
			if loop != nil && loop != sc.loop || !at(key, sc.loop.k) {
				return false
			}
			loop = sc.loop
		}
	}
	if loop == nil {
		return false
	}
	for _, sc := range scopesOf(o) {
		if sc.loop == loop && drops(sc) == nil {
			return false
		}
	}
	want := loop.k
	inside := contains2has(o.st.facts, loop.k)
	if !inside {
		want = loop.trip
	} else if key := drops(scope{writes: o.st.mem.ents}); key != nil && at(key, loop.k) {
		want = u.Add(want, u.Int(1))
	}
	if want == nil {
		return false
	}
	i := removedAt(u, front, s.term(o, "q.orderedValues"), want, o.st.events)
	return i != nil && isZero(i)
}

func contains2has(facts map[*Term]bool, x *Term) bool {
	for f := range facts {
		if contains(f, func(y *Term) bool { return y == x }) {
			return true
		}
	}
	return false
}

func entryIndex(t *Term) *Term {
	if t.op == OInit && t.args[0].op == OIndex {
		return t.args[0]
	}
	if t.op == OCall && t.s == "@" && t.args[1].op == OIndex {
		return t.args[1]
	}
	return nil
}

// entryOf: t is the value of a map at key.
func entryOf(t, key *Term) bool {
	if t.op == OInit && t.args[0].op == OMapAt {
		return t.args[0].args[1] == key
	}
	if t.op == OCall && t.s == "@" && t.args[1].op == OMapAt {
		return t.args[1].args[1] == key
	}
	return false
}

func entryFact(facts map[*Term]bool, base, i *Term) bool {
	for f, t := range facts {
		if t && f.op == OEQ && contains(f, func(y *Term) bool { return y.op == OIndex && y.args[0] == base && y.args[1] == i }) {
			return true
		}
	}
	return false
}

// element is the file a traversal visits for the given loop counters.
func (k *queueKind) element(s *Sc, ks []*Term, reverse bool) *Term {
	u, e := s.e.u, s.e
	at := func(seq, i *Term, cl string) *Term {
		if reverse {
			i = u.Sub(u.Sub(u.Len(seq), u.Int(1)), i)
		}
		return e.readAt(s.pre, u.Index(seq, i, cl))
	}
	var name *Term
	switch {
	case k.kind == "list" && len(ks) == 1:
		name = at(s.old("q.queue"), ks[0], "e:int64")
	case k.kind == "buckets" && len(ks) == 2:
		cl := "e:float64"
		if k.integer() {
			cl = "e:int64"
		}
		v := at(s.old("q.orderedValues"), ks[0], cl)
		a, _, _ := e.mapAddr(s.old("q.queue"), v, k.queueType())
		name = at(e.readAt(s.pre, a), ks[1], "e:int64")
	case k.kind == "set" && len(ks) == 1:
		m := s.old("q.files")
		name = u.Call("rkey", m, ks[0])
	default:
		return nil
	}
	s.env["·n"] = val{name, types.Typ[types.Int64]}
	w := s.env["·n"]
	a, _, _ := e.mapAddr(s.old("q.files"), w.t, k.filesType())
	return e.readAt(s.pre, a)
}

func (k *queueKind) filesType() types.Type {
	var r types.Type
	var find func(t types.Type)
	find = func(t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if fieldName(t, i) == "files" {
				r = st.Field(i).Type()
			}
			if st.Field(i).Embedded() {
				find(st.Field(i).Type())
			}
		}
	}
	find(k.t)
	return r
}

// visits calls f for every iteration that appends to the result list.
func (k *queueKind) visits(o Out, f func(x *Term, it *IterOut, ks []*Term)) {
	each(o.st.events, func(ev *Event, in []*LoopInfo) {
		if ev.kind != "loop" {
			return
		}
		var ks []*Term
		for _, l := range in {
			ks = append(ks, l.k)
		}
		ks = append(ks, ev.loop.k)
		for _, it := range ev.loop.iters {
			nested := false
			for _, x := range it.events {
				if x.kind == "loop" {
					nested = true
				}
			}
			if nested {
				continue
			}
			seen := map[*Term]bool{}
			took := func(v *Term) {
				if v == nil || v.op != OSeq || len(v.args) == 0 || v.args[len(v.args)-1].op != OElem {
					return
				}
				if x := v.args[len(v.args)-1].args[0]; !seen[x] {
					seen[x] = true
					f(x, it, ks)
				}
			}
			for a, v := range it.writes {
				if a.op == OField && strings.HasSuffix(a.s, ".buffer") {
					took(v)
				}
			}
			for _, p := range it.phis {
				if p[1] != nil && p[1].op == OSeq && len(p[1].args) == 2 && p[1].args[0].op == OSpread && p[1].args[0].args[0] == p[0] {
					took(p[1])
				}
			}
		}
	})
}

func (k *queueKind) listRule(rule, con, method string, s *Sc, reverse bool) {
	c := k.c
	n := 0
	depth := map[string]int{"list": 1, "buckets": 2, "set": 1}[k.kind]
	for _, o := range s.returns() {
		// what is returned is the list put together
		r := o.ret[0]
		whole := r == s.term(o, "q.buffer") || r.op == OMapSeq || r.op == OSym || r.op == OSeq && (len(r.args) == 0 || r.args[0].op == OSpread && r.args[len(r.args)-1].op == OElem)
		c.check("whole list", con, whole, o.pos, "%s returns %s", method, r)
		k.visits(o, func(x *Term, it *IterOut, ks []*Term) {
			if len(ks) < depth {
				return // seen from the surrounding iteration
			}
			n++
			want := k.element(s, ks, reverse)
			c.check(rule, con, x == want, o.pos, "%s visits %s, expected %s", method, x, want)
		})
	}
	c.check(rule, con, n > 0, s.fn.Pos(), "%s visits nothing", method)
}

func ruleQueueOrder(c *Ctx) {
	for _, k := range c.queueKinds() {
		k := k
		if k.isBase() {
			continue
		}
		c.guarded(k.name, func() {
			con := k.name
			if k.kind == "set" {
				// no order, but everything is visited
				s := k.sc("getQueue")
				k.listRule("visits every file", con, "getQueue", s, false)
				return
			}
			s := k.sc("getWorstFilesUp2Size", "totSize")
			k.listRule("victims from the worst", con, "victim selection", s, false)
			s = k.sc("getFromWorst")
			k.listRule("listing from the worst", con, "getFromWorst", s, false)
			k.complete(s, con)
			s = k.sc("getQueue")
			k.listRule("listing from the best", con, "getQueue", s, true)
			k.complete(s, con)
			if k.kind != "buckets" {
				return
			}
			// the order of the groups
			s = k.sc("insert", "file")
			s.assume("!in(q.files, file.Filename)")
			s.assume("!in(q.queue, " + k.feature("file") + ")")
			u := s.e.u
			n := 0
			for _, o := range s.returns() {
				ov0, ov := s.old("q.orderedValues"), s.term(o, "q.orderedValues")
				v := s.old(k.feature("file"))
				i := insertedAt(u, o.st, ov0, ov, v, o.st.events)
				if i == nil {
					c.check("order of the groups", con, false, o.pos, "the ordering values become %s", ov)
					continue
				}
				n++
				ok := orderedSearch(u, i, ov0, v, k.descending(), k.integer(), false)
				if !ok && isZero(u.Sub(i, u.Len(ov0))) {
					// appended because the search says so
					for f, t := range o.st.facts {
						if t && contains(f, func(x *Term) bool {
							return x.op == OCall && x.s == "sort.Search" && orderedSearch(u, x, ov0, v, k.descending(), k.integer(), false)
						}) {
							ok = true
						}
					}
				}
				c.check("order of the groups", con, ok, o.pos, "a new ordering value is placed at %s", i)
			}
			c.check("order of the groups", con, n > 0, s.fn.Pos(), "no group is created")
		})
	}
}

// complete: a listing has every file.
func (k *queueKind) complete(s *Sc, con string) {
	c, u := k.c, s.e.u
	for _, o := range s.returns() {
		each(o.st.events, func(ev *Event, in []*LoopInfo) {
			if ev.kind != "loop" || len(in) > 0 {
				return
			}
			base := "q.queue"
			if k.kind == "buckets" {
				base = "q.orderedValues"
			}
			c.check("complete listing", con, ev.loop.trip == u.Len(s.old(base)), o.pos, "%s entries are listed", ev.loop.trip)
		})
		early := false
		for f := range o.st.facts {
			if contains(f, func(x *Term) bool { return x.op == OSym && strings.HasPrefix(x.s, "k:") }) {
				early = true
			}
		}
		c.check("complete listing", con, !early, o.pos, "a listing can stop early where %s", factsString(o.st.facts))
	}
}

// volume is the total size of the files of a list: what an earlier round left
// (a symbol, before files in total), runs of files and single files.
func volume(e *Engine, l, before *Term, size func(*Term) *Term) *Term {
	u := e.u
	var v *Term
	parts := []*Term{u.Spread(l)}
	if l.op == OSeq {
		parts = l.args
	}
	v = u.Int(0)
	left := false
	for _, p := range parts {
		switch x := p.args[0]; {
		case p.op == OElem:
			v = u.Add(v, size(x))
		case p.op != OSpread:
			return nil
		case x.op == OMapSeq:
			v = u.Add(v, u.Sum(x.args[0], size(x.args[1])))
		case x.op == OSym && !left:
			left = true
			v = u.Add(v, before)
		default:
			return nil
		}
	}
	return v
}

func ruleVictimVolume(c *Ctx) {
	for _, k := range c.queueKinds() {
		k := k
		if k.isBase() {
			continue
		}
		c.guarded(k.name, func() {
			con := k.name
			s := k.sc("getWorstFilesUp2Size", "totSize")
			u, e := s.e.u, s.e
			tot := s.arg("totSize")
			depth := map[string]int{"list": 1, "buckets": 2, "set": 1}[k.kind]
			size := func(x *Term) *Term { return e.readAt(s.pre, u.Field(x, "files.Stats.Size")) }
			// volume before the element at ks
			before := func(ks []*Term) *Term {
				sz := size(k.element(s, ks, false))
				last := ks[len(ks)-1]
				v := u.Sum(last, u.Bind(sz, last))
				if len(ks) == 2 {
					cl := "e:float64"
					if k.integer() {
						cl = "e:int64"
					}
					ov := e.readAt(s.pre, u.Index(s.old("q.orderedValues"), ks[0], cl))
					a, _, _ := e.mapAddr(s.old("q.queue"), ov, k.queueType())
					full := u.Sum(u.Len(e.readAt(s.pre, a)), u.Bind(sz, last))
					v = u.Add(v, u.Sum(ks[0], u.Bind(full, ks[0])))
				}
				return v
			}
			cont := 0
			var counters []*Term
			// a selection stops once it has enough: either no round ends with
			// enough (it is left then), or no round begins with enough
			endsShort, beginsShort := true, true
			why := ""
			for _, o := range s.returns() {
				k.visits(o, func(x *Term, it *IterOut, ks []*Term) {
					if len(ks) < depth {
						return
					}
					cont++
					counters = ks
					st := &State{facts: it.facts}
					short := func(v *Term) bool { return u.decide(st, u.LT(u.Sub(v, tot), false)) == 1 }
					if !short(u.Add(before(ks), size(k.element(s, ks, false)))) {
						endsShort, why = false, factsString(it.facts)
					}
					if !short(before(ks)) {
						beginsShort = false
					}
				})
			}
			c.check("no more victims than needed", con, endsShort || beginsShort, s.fn.Pos(), "the selection goes on where %s", why)
			c.check("no more victims than needed", con, cont > 0, s.fn.Pos(), "no victim is selected in a loop")
			if counters == nil {
				return
			}
			stops := 0
			for _, o := range s.returns() {
				early := false
				for f := range o.st.facts {
					if contains(f, func(x *Term) bool { return x.op == OSym && strings.HasPrefix(x.s, "k:") }) {
						early = true
					}
				}
				if !early {
					continue
				}
				stops++
				enough := func(v *Term) bool { return u.decide(o.st, u.LT(u.Sub(v, tot), false)) == 0 }
				// the volume of the files before the current group
				groups := u.Int(0)
				if depth == 2 {
					sz := size(k.element(s, counters, false))
					last := counters[1]
					cl := "e:float64"
					if k.integer() {
						cl = "e:int64"
					}
					ov := e.readAt(s.pre, u.Index(s.old("q.orderedValues"), counters[0], cl))
					a, _, _ := e.mapAddr(s.old("q.queue"), ov, k.queueType())
					full := u.Sum(u.Len(e.readAt(s.pre, a)), u.Bind(sz, last))
					groups = u.Sum(counters[0], u.Bind(full, counters[0]))
				}
				v := volume(e, o.ret[0], groups, size)
				ok := v != nil && enough(v)
				if v == nil {
					ok = enough(before(counters)) || enough(u.Add(before(counters), size(k.element(s, counters, false)))) || enough(groups)
				}
				if !ok && k.kind == "list" {
					// nothing is left to select
					ok = u.decide(o.st, u.LT(u.Sub(counters[0], u.Len(s.old("q.queue"))), true)) == 0
				}
				c.check("enough victims", con, ok, o.pos, "the selection stops early where %s", factsString(o.st.facts))
			}
			c.check("enough victims", con, stops > 0, s.fn.Pos(), "the selection never stops early")
			s = k.sc("getWorstFilesUp2Size", "totSize")
			s.assume("totSize <= 0")
			c.check("nothing is no volume", con, len(s.returns()) == 0, s.fn.Pos(), "a volume that is not positive is accepted")
		})
	}
}

func ruleQueueMisuse(c *Ctx) {
	for _, k := range c.queueKinds() {
		k := k
		if k.isBase() {
			continue
		}
		c.guarded(k.name, func() {
			con := k.name
			unchanged := func(s *Sc, rule string, o Out) {
				c.check(rule, con, o.ret[0].op == OCall, o.pos, "no error is returned where %s", factsString(o.st.facts))
				s.ensureOut(o, rule, con, "len(q.files) == old(len(q.files))")
				for _, t := range append(k.tables(), "queue") {
					for a, v := range o.st.mem.ents {
						if a.op == OMapIn && a.s == "mi:"+k.owner+"."+t && t != "lastIndex" {
							c.check(rule, con, s.e.readAt(s.pre, a) == v, o.pos, "%s changes", a)
						}
					}
				}
				if k.kind == "list" {
					s.ensureOut(o, rule, con, "len(q.queue) == old(len(q.queue))")
				}
				if k.kind == "buckets" {
					s.ensureOut(o, rule, con, "len(q.orderedValues) == old(len(q.orderedValues))")
				}
			}
			s := k.sc("insert", "file")
			s.assume("in(q.files, file.Filename)")
			for _, o := range s.returns() {
				unchanged(s, "double insertion", o)
			}
			c.check("double insertion", con, len(s.returns()) > 0, s.fn.Pos(), "no path returns")
			s = k.sc("update", "file")
			s.assume("!in(q.files, file.Filename)")
			for _, o := range s.returns() {
				unchanged(s, "update of an absent file", o)
			}
			s = k.sc("update", "file")
			s.assume("in(q.files, file.Filename) && q.files[file.Filename] != file")
			for _, o := range s.returns() {
				unchanged(s, "update with other statistics", o)
			}
			if k.kind == "set" {
				return
			}
			s = k.sc("remove", "files")
			x := s.e.u.Sym("x")
			s.give("files", s.e.u.Seq(s.e.u.Elem(x)))
			s.env["x"] = val{x, types.Typ[types.Int64]}
			for _, t := range k.tables() {
				s.assume("!in(q." + t + ", x)")
			}
			for _, o := range s.returns() {
				unchanged(s, "removal of an absent file", o)
			}
		})
	}
	// the wrappers
	for _, w := range []struct {
		name, method string
		args         []string
		err          bool
	}{
		{"Insert", "insert", []string{"q", "file"}, true}, {"Update", "update", []string{"q", "file"}, true},
		{"Remove", "remove", []string{"q", "files"}, true}, {"RemoveWorst", "removeWorst", []string{"q", "files"}, true},
		{"Init", "init", []string{"q"}, false},
		{"Get", "getQueue", []string{"q"}, false}, {"GetFromWorst", "getFromWorst", []string{"q"}, false},
		{"GetWorstFilesUp2Size", "getWorstFilesUp2Size", []string{"q", "size"}, false},
		{"GetFileStats", "getFileStats", []string{"q", "file"}, false}, {"Check", "Check", []string{"q", "file"}, false}, {"Len", "len", []string{"q"}, false},
	} {
		w := w
		c.guarded("queue."+w.name, func() {
			s := c.sc("queue."+w.name, w.args...)
			con := "queue." + w.name
			outs := s.returns()
			c.check("forwards", con, len(outs) == 1, s.fn.Pos(), "%d outcomes", len(outs))
			for _, o := range outs {
				evs := evs(o.st.events, "invoke", "queue.Queue."+w.method)
				if len(evs) == 0 && len(o.ret) == 1 && o.ret[0].op == OCall && strings.HasPrefix(o.ret[0].s, "queue.Queue."+w.method) {
					r := o.ret[0]
					ok := r.args[0] == s.e.strip(s.arg("q"))
					for i, a := range w.args[1:] {
						ok = ok && r.args[i+1] == s.e.strip(s.arg(a))
					}
					c.check("forwards", con, ok, o.pos, "asks %s", r)
					continue
				}
				if !c.check("forwards", con, len(evs) == 1, o.pos, "%d calls of %s", len(evs), w.method) {
					continue
				}
				ok := evs[0].recv == s.e.strip(s.arg("q"))
				for i, a := range w.args[1:] {
					ok = ok && evs[0].args[i] == s.e.strip(s.arg(a))
				}
				c.check("forwards", con, ok, o.pos, "the arguments are %v", evs[0].args)
				if w.err {
					c.check("errors stop", con, s.e.u.decide(o.st, s.e.u.EQ(evs[0].ret, s.e.u.Nil())) == 1, o.pos, "an error of the queue is ignored")
				} else if len(o.ret) == 1 {
					c.check("forwards", con, o.ret[0] == evs[0].ret, o.pos, "answers %s", o.ret[0])
				}
			}
		})
	}
}

// exhausted: the path went through a search for x in base by position without
// finding it, which cannot happen when all places are searched.
func (k *queueKind) exhausted(o Out, base, x *Term) bool {
	for _, ev := range o.st.events {
		l := ev.loop
		if l == nil {
			continue
		}
		search, inside := false, false
		for _, it := range l.iters {
			for f, v := range it.facts {
				if v || f.op != OEQ {
					continue
				}
				for j := 0; j < 2; j++ {
					if at := entryIndex(f.args[j]); f.args[1-j] == x && at != nil {
						search = true
					}
				}
			}
		}
		contains2(o.st.facts, func(y *Term) { inside = inside || y == l.k })
		if search && !inside {
			return true
		}
	}
	return false
}

// ruleQueueAccepts: a queue does what it is asked when the request is right.
func ruleQueueAccepts(c *Ctx) {
	for _, k := range c.queueKinds() {
		k := k
		if k.isBase() {
			continue
		}
		c.guarded(k.name, func() {
			con := k.name
			accepted := func(s *Sc, rule, rec, name string) {
				u := s.e.u
				var base *Term
				x := s.old(name)
				n := 0
				switch k.kind {
				case "list":
					base = s.old("q.queue")
				case "buckets":
					s.env["v"] = val{s.old("q.lastVal[" + name + "]"), types.Typ[types.Int64]}
					base = s.old("q.queue[v]")
				}
				for _, o := range s.returns() {
					if base != nil {
						k.searched(s.e, o, base, s.old(rec), x, con)
						k.recorded(s.e, o, con)
					}
					if o.ret[0].op == OConst {
						n++
						continue
					}
					if s.e.infeasible(o.st.facts) || base != nil && k.exhausted(o, base, x) {
						continue
					}
					ok := k.kind == "buckets" && u.decide(o.st, u.LT(u.Sub(u.Len(base), u.Int(2)), true)) == 1
					contains2(o.st.facts, func(y *Term) {
						ok = ok && !(y.op == OField && strings.HasPrefix(y.s, "files.Stats.") && y.s != "files.Stats.Filename")
					})
					c.check(rule, con, ok, o.pos, "a file that is queued is refused where %s", factsString(o.st.facts))
				}
				c.check(rule, con, n > 0, s.fn.Pos(), "no path succeeds")
			}
			s := k.sc("update", "file")
			s.assume("in(q.files, file.Filename) && q.files[file.Filename] == file")
			for _, t := range k.tables() {
				s.assume("in(q." + t + ", file.Filename)")
			}
			if k.kind != "set" {
				s.assume("q.lastIndex[file.Filename] >= 0")
			}
			accepted(s, "update of a queued file", "q.lastIndex[file.Filename]", "file.Filename")
			s = k.sc("remove", "files")
			x := s.e.u.Sym("x")
			s.give("files", s.e.u.Seq(s.e.u.Elem(x)))
			s.env["x"] = val{x, types.Typ[types.Int64]}
			for _, t := range k.tables() {
				s.assume("in(q." + t + ", x)")
			}
			if k.kind != "set" {
				s.assume("q.lastIndex[x] >= 0")
			}
			accepted(s, "removal of a queued file", "q.lastIndex[x]", "x")
			if k.kind == "set" {
				return
			}
			s = k.sc("removeWorst", "files")
			for _, o := range s.returns() {
				if o.ret[0].op == OConst {
					continue
				}
				differ := false
				for f, v := range o.st.facts {
					differ = differ || !v && f.op == OEQ && entryIndex(f.args[0]) != nil && entryIndex(f.args[1]) != nil
				}
				if differ {
					continue
				}
				ok := k.kind == "buckets"
				for _, ev := range o.st.events {
					if ev.loop == nil {
						continue
					}
					inside := false
					contains2(o.st.facts, func(y *Term) { inside = inside || y == ev.loop.k })
					if inside {
						ok = k.kind == "buckets" && !k.takes(ev.loop)
					}
				}
				contains2(o.st.facts, func(y *Term) {
					ok = ok && !(y.op == OField && strings.HasPrefix(y.s, "files.Stats."))
				})
				c.check("removal of the worst files", con, ok, o.pos, "the files named in order are refused where %s", factsString(o.st.facts))
			}
		})
	}
}

// takes: an iteration of the loop itself takes a file out.
func (k *queueKind) takes(l *LoopInfo) bool {
	for _, it := range l.iters {
		for a, v := range it.writes {
			if a.op == OMapIn && a.s == "mi:"+k.owner+".files" && v.op == OConst && !v.b {
				nested := false
				for _, ev := range it.events {
					nested = nested || ev.loop != nil
				}
				if !nested {
					return true
				}
			}
		}
	}
	return false
}

// recorded: where a search corrects the recorded place of a file it passes, it
// records the place where it found it.
func (k *queueKind) recorded(e *Engine, o Out, con string) {
	for _, ev := range o.st.events {
		if ev.loop == nil {
			continue
		}
		for _, it := range ev.loop.iters {
			for a, v := range it.writes {
				if a.op != OMapAt || a.s != "m:"+k.owner+".lastIndex" {
					continue
				}
				at := entryIndex(a.args[1])
				if at == nil {
					continue
				}
				// one place before is where the file is after the removal
				before := e.u.LT(e.u.Add(e.u.Sub(v, at.args[1]), e.u.Int(1)), true)
				k.c.check("recorded place", con, e.u.decide(&State{facts: it.facts}, before) == 0, o.pos, "place %s is recorded for %s", v, a.args[1])
			}
		}
	}
}
