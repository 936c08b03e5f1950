package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R08", 20, "every reward given to the tables: the decision it is for, its amount in every case, and the relation of a state to the next one", ruleRewards)
	register("R09", 8, "every path of the comparison of the rewards of two days, for each agent", ruleUnleash)
}

func ruleRewards(c *Ctx) {
	for _, hit := range []bool{false, true} {
		hit := hit
		c.guarded("delayedRewardEvictionAgent", func() { c.delayed("Eviction", "", hit) })
		c.guarded("delayedRewardAdditionAgent", func() { c.delayed("Addition", "SCDL2", hit) })
		c.guarded("delayedRewardAdditionAgent", func() { c.delayed("Addition", "SCDL", hit) })
	}
	for _, added := range []bool{false, true} {
		added := added
		c.guarded("rewardEvictionAfterForcedCall", func() { c.afterForced(added) })
	}
	c.guarded("punishEvictionAgentOnForcedCall", c.punished)
	c.guarded("checkEvictionNextState", c.nextState)
	c.guarded("GetStateFromCategories", c.lastStates)
}

func (c *Ctx) rewardScenario(fn string, args ...string) *Sc {
	e := c.engine()
	e.precise = true
	work := c.opaqueWork()
	f := c.fn("cache.AIRL." + fn)
	also := map[*ssa.Function]bool{}
	for _, n := range []string{
		"cache.AIRL.checkEvictionNextState", "qlearn.Agent.Remember", "qlearn.Agent.UnleashEpsilon", "qlearn.Agent.ResetMemories", "qlearn.Agent.ResetTableAction",
		"files.Manager.GetOrCreate", "files.Stats.UpdateStats",
	} {
		also[c.fn(n)] = true
	}
	e.opaque = func(g *ssa.Function) bool { return g != f && (work(g) || also[g]) }
	return c.scOn(e, f, "AIRL."+fn, args...)
}

// values are the results of a decision table over the facts of an iteration:
// questions that the facts leave open are answered both ways.
func values(e *Engine, facts map[*Term]bool, table func(q func(*Term) bool) *Term) []*Term {
	u := e.u
	var out []*Term
	var run func(assumed map[*Term]bool)
	run = func(assumed map[*Term]bool) {
		fs := map[*Term]bool{}
		for f, v := range facts {
			fs[f] = v
		}
		for f, v := range assumed {
			fs[f] = v
		}
		var open *Term
		t := table(func(q *Term) bool {
			switch u.decide(&State{facts: fs}, q) {
			case 1:
				return true
			case 0:
				return false
			}
			for q.op == ONot {
				q = q.args[0]
			}
			if open == nil {
				open = q
			}
			return false
		})
		if _, again := assumed[open]; again {
			panic("undecidable question " + open.String())
		}
		if open == nil {
			out = append(out, t)
			return
		}
		for _, v := range []bool{true, false} {
			as := map[*Term]bool{open: v}
			for f, x := range assumed {
				as[f] = x
			}
			all := map[*Term]bool{}
			for f, x := range fs {
				all[f] = x
			}
			all[open] = v
			if !e.infeasible(all) {
				run(as)
			}
		}
	}
	run(map[*Term]bool{})
	return out
}

// update is the one update of a table in an iteration, followed by the one of
// the exploration rate.
func (c *Ctx) update(con string, it *IterOut, agent string, cache *Term, pos token.Pos) *Event {
	up, ep := c.called(it.events, "qlearn.Agent.UpdateTable"), c.called(it.events, "qlearn.Agent.UpdateEpsilon")
	ok := len(up) == 1 && len(ep) == 1 && fromAgent(up[0].args[0], agent) && fromAgent(ep[0].args[0], agent) && rootedAt(up[0].args[0], cache) && rootedAt(ep[0].args[0], cache)
	ok = ok && countEv(it.events, "fn", up[0].name) == 1 && countEv(it.events, "fn", ep[0].name) == 1
	if !c.check("one update per decision", con, ok, pos, "%d updates of the table and %d of the exploration rate", len(up), len(ep)) {
		return nil
	}
	return up[0]
}

// stray: updates outside of the loops over the decisions.
func (c *Ctx) stray(con string, o Out) {
	n := len(c.called(o.st.events, "qlearn.Agent.UpdateTable")) + len(c.called(o.st.events, "qlearn.Agent.UpdateEpsilon"))
	c.check("one update per decision", con, n == 0, o.pos, "%d updates for no decision", n)
}

func (c *Ctx) hasUpdate(l *LoopInfo) bool {
	n := 0
	for _, f := range []string{"qlearn.Agent.UpdateTable", "qlearn.Agent.UpdateEpsilon"} {
		n += countEv(each1(l), "fn", fnName(c.fn(f)))
	}
	return n > 0
}

func (c *Ctx) delayed(kind, rl string, hit bool) {
	con := "delayedReward" + kind + "Agent"
	agent := map[string]string{"Eviction": "evictionAgent", "Addition": "additionAgent"}[kind]
	s := c.rewardScenario(con, "c", "name", "hit")
	e, u := s.e, s.e.u
	s.give("hit", u.Bool(hit))
	if rl != "" {
		con += " " + rl
		k, _, _ := c.pkgConst(e, "cache", rl)
		s.set("c.rlType", k)
	}
	if hit {
		con += " hit"
	} else {
		con += " miss"
	}
	runs := 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		c.stray(con, o)
		// the remembered decisions
		mt := s.mapTypeOf("c." + agent + ".Memory")
		at, in, _ := e.mapAddr(s.old("c."+agent+".Memory"), s.arg("name"), mt)
		mem, known := u.Init(at), u.Init(in)
		left := int64(1)
		if kind == "Addition" {
			left = 2
		}
		if rl == "SCDL" {
			left = 0
			rem := c.called(o.st.events, "qlearn.Agent.Remember")
			if !c.check("remembered decisions", con, len(rem) == 1 && rem[0].ret != nil && rem[0].ret.op == OTuple && fromAgent(rem[0].args[0], agent) && e.strip(rem[0].args[1]) == s.arg("name"), o.pos, "the decisions are not recalled once") {
				continue
			}
			mem, known = rem[0].ret.args[0], rem[0].ret.args[1]
		}
		loops := 0
		for _, ev := range o.st.events {
			if ev.kind != "loop" || !c.hasUpdate(ev.loop) {
				continue
			}
			loops++
			l := ev.loop
			trip := u.Sub(u.Len(mem), u.Int(left))
			// a longer walk that stops, or does nothing, past the last of them
			within := func(facts map[*Term]bool) int {
				if w := u.decidePos(facts, u.LT(u.Sub(u.Sub(trip, l.k), u.Int(1)), true)); w >= 0 {
					return 1 - w
				}
				return u.decidePos(facts, u.LT(u.Sub(l.k, trip), true))
			}
			exact := l.trip == trip
			if l.trip != nil && !exact && isNum(u.Sub(l.trip, trip)) && u.Sub(l.trip, trip).rat.Sign() > 0 {
				exact = true
				for _, it := range l.iters {
					if w := within(it.facts); !e.infeasible(it.facts) && (w < 0 || (w == 1) != c.hasUpdate(&LoopInfo{iters: []*IterOut{it}})) {
						exact = false
					}
				}
				for f := range o.st.facts {
					if contains(f, func(x *Term) bool { return x == l.k }) && within(o.st.facts) != 0 {
						exact = false
					}
				}
			}
			c.check("remembered decisions", con, exact, l.pos, "%s decisions are rewarded instead of %s", l.trip, trip)
			for _, it := range l.iters {
				if e.infeasible(it.facts) {
					continue
				}
				runs++
				up := c.update(con, it, agent, s.arg("c"), l.pos)
				if up == nil {
					continue
				}
				f := func(i *Term, n string) *Term {
					return e.load(o.st, u.Field(u.Index(mem, i, elemClass(c.w.lookupType("qlearn.Choice"))), "qlearn.Choice."+n), fieldType(c.w.lookupType("qlearn.Choice"), n))
				}
				prev := func(n string) *Term { return f(l.k, n) }
				next := func(n string) *Term { return f(u.Add(l.k, u.Int(1)), n) }
				if rl == "SCDL" {
					next = prev
				}
				c.check("decision rewarded", con, untag(up.args[1]) == untag(prev("State")) && untag(up.args[2]) == untag(next("State")) && untag(up.args[3]) == untag(prev("Action")), up.pos, "the table is updated for %v", up.args[1:])
				act := func(n string) *Term { a, _, _ := c.pkgConst(e, "qlearn", "Action"+n); return u.EQ(prev("Action"), a) }
				for _, want := range values(e, it.facts, func(q func(*Term) bool) *Term {
					switch {
					case kind == "Eviction":
						grew := u.LT(u.Sub(prev("Capacity"), next("Capacity")), false)
						kept := act("NotDelete")
						switch {
						case hit && !q(kept):
							return u.Int(1)
						case hit && q(grew):
							return u.Int(2)
						case hit:
							return u.Int(3)
						case q(kept):
							return u.Int(-1)
						case q(grew):
							return u.Int(-3)
						}
						return u.Int(-2)
					case rl == "SCDL2":
						switch {
						case hit && !q(prev("Hit")) && q(next("Hit")):
							return u.Int(2)
						case hit:
							return u.Int(1)
						case q(act("NotStore")) && !q(next("Hit")):
							return u.Int(-2)
						}
						return u.Int(-1)
					}
					return c.scdlReward(s, q, prev, act, hit)
				}) {
					got := up.args[4]
					same := isZero(u.Sub(got, want)) || isZero(e.simp(it.facts, u.Sub(got, want)))
					c.check("amount of the reward", con, same, up.pos, "the reward is %s instead of %s when %s", got, want, factsString(it.facts))
				}
			}
		}
		if u.decide(o.st, known) == 0 {
			c.check("remembered decisions", con, loops == 0, o.pos, "decisions that are not remembered are rewarded")
			continue
		}
		c.check("remembered decisions", con, loops == 1, o.pos, "the remembered decisions are gone through %d times", loops)
	}
	c.check("paths", con, runs > 0, s.fn.Pos(), "no decision is rewarded")
}

// scdlReward: in terms of the size of the file, minus one for each sign that
// the decision was bad; without any, plus or minus one by hit or miss.
func (c *Ctx) scdlReward(s *Sc, q func(*Term) bool, prev func(string) *Term, act func(string) *Term, hit bool) *Term {
	u := s.e.u
	size := u.Scale(prev("Size"), big.NewRat(1, 1024))
	above := func(expr string) bool { return q(s.old(expr)) }
	bad := int64(0)
	if !q(prev("Hit")) {
		if q(act("NotStore")) {
			if above("c.dataReadOnMiss/c.bandwidth < 0.5") || above("c.dataWritten/c.dataRead < 0.1") {
				bad++
			}
		} else if q(act("Store")) {
			if above("c.dataReadOnMiss/c.bandwidth > 0.75") || above("c.dataWritten/c.dataRead > 0.5") {
				bad++
			}
		}
		if above("c.dataReadOnMiss/c.dataRead > 0.5") {
			bad++
		}
	} else {
		if above("c.dataReadOnHit/c.dataRead < 0.3") {
			bad++
		}
		if above("c.dataWritten/c.dataRead > 0.3") {
			bad++
		}
	}
	if bad > 0 {
		return u.Scale(size, big.NewRat(-bad, 1))
	}
	if hit {
		return size
	}
	return u.Neg(size)
}

// received is the state an iteration works on, sent by the manager of the
// categories for its last decisions.
func (c *Ctx) received(con string, s *Sc, it *IterOut, gen *Event, pos token.Pos) func(string) *Term {
	u := s.e.u
	rc := evs(it.events, "recv", "")
	if !c.check("every last decision", con, len(rc) == 1 && rc[0].recv == gen.ret, pos, "%d states are received", len(rc)) {
		return nil
	}
	st := rc[0].ret
	if st.op == OTuple {
		st = st.args[0]
	}
	return func(n string) *Term { return u.Call("fld:cache.CatState."+n, st) }
}

func (c *Ctx) asksLast(con string, s *Sc, gen []*Event, pos token.Pos) bool {
	return c.check("every last decision", con, len(gen) == 1 && rootedAt(gen[0].args[0], s.arg("c")) && gen[0].args[1] == s.e.u.Bool(false), pos, "the last decisions are asked %d times", len(gen))
}

func (c *Ctx) afterForced(added bool) {
	con := "rewardEvictionAfterForcedCall"
	s := c.rewardScenario(con, "c", "added")
	e, u := s.e, s.e.u
	if added {
		con += " added"
	} else {
		con += " not added"
	}
	s.give("added", u.Bool(added))
	keep, _, _ := c.pkgConst(e, "qlearn", "ActionNotDelete")
	runs := 0
	for _, o := range s.returns() {
		c.stray(con, o)
		gen := c.called(o.st.events, "cache.CategoryManager.GetStateFromCategories")
		if !c.asksLast(con, s, gen, o.pos) {
			continue
		}
		loops := 0
		for _, ev := range o.st.events {
			if ev.kind != "loop" || len(evs(each1(ev.loop), "recv", "")) == 0 && !c.hasUpdate(ev.loop) {
				continue
			}
			loops++
			for _, it := range ev.loop.iters {
				runs++
				f := c.received(con, s, it, gen[0], ev.loop.pos)
				up := c.update(con, it, "evictionAgent", s.arg("c"), ev.loop.pos)
				if f == nil || up == nil {
					continue
				}
				c.check("decision rewarded", con, up.args[1] == f("Idx") && up.args[2] == f("Idx") && up.args[3] == f("Action"), up.pos, "the table is updated for %v", up.args[1:])
				for _, want := range values(e, it.facts, func(q func(*Term) bool) *Term {
					if !added && q(u.EQ(f("Action"), keep)) {
						return u.Neg(s.old("c.evictionRO"))
					}
					return s.old("c.evictionRO")
				}) {
					c.check("amount of the reward", con, up.args[4] == want, up.pos, "the reward is %s instead of %s", up.args[4], want)
				}
			}
		}
		c.check("every last decision", con, loops == 1, o.pos, "the decisions are gone through %d times", loops)
	}
	c.check("paths", con, runs > 0, s.fn.Pos(), "no decision is rewarded")
}

func (c *Ctx) punished() {
	con := "punishEvictionAgentOnForcedCall"
	s := c.rewardScenario(con, "c")
	e, u := s.e, s.e.u
	choice := c.w.lookupType("qlearn.Choice")
	runs := 0
	for _, o := range s.returns() {
		c.stray(con, o)
		ok, why := s.holds(o, "c.evictionAgentNumForcedCalls == old(c.evictionAgentNumForcedCalls) + 1")
		c.check("a forced call is counted", con, ok, o.pos, "%s", why)
		mt := s.mapTypeOf("c.evictionAgent.Memory")
		at, in, _ := e.mapAddr(s.old("c.evictionAgent.Memory"), u.Str("NotDelete"), mt)
		mem := u.Init(at)
		forgotten := e.presence(o.st, in)
		gone := u.decide(o.st, forgotten) == 0 || forgotten.op == OConst && !forgotten.b
		c.check("decisions are forgotten", con, gone, o.pos, "the decisions to keep stay in memory")
		loops := 0
		for _, ev := range o.st.events {
			if ev.kind != "loop" || !c.hasUpdate(ev.loop) {
				continue
			}
			loops++
			l := ev.loop
			c.check("remembered decisions", con, l.trip == u.Len(mem), l.pos, "%s decisions are punished", l.trip)
			for _, it := range l.iters {
				gen := c.called(it.events, "cache.CategoryManager.GetStateFromCategories")
				if !c.asksLast(con, s, gen, l.pos) {
					continue
				}
				inner := 0
				for _, iv := range it.events {
					if iv.kind != "loop" || len(evs(each1(iv.loop), "recv", "")) == 0 && !c.hasUpdate(iv.loop) {
						continue
					}
					inner++
					for _, jt := range iv.loop.iters {
						runs++
						f := c.received(con, s, jt, gen[0], l.pos)
						if f == nil {
							continue
						}
						prev := func(n string) *Term {
							return untag(e.load(o.st, u.Field(u.Index(mem, l.k, elemClass(choice)), "qlearn.Choice."+n), fieldType(choice, n)))
						}
						chk := c.called(jt.events, "cache.AIRL.checkEvictionNextState")
						if !c.check("towards the next states", con, len(chk) == 1 && chk[0].args[0] == s.arg("c") && untag(chk[0].args[1]) == prev("State") && chk[0].args[2] == f("Idx"), l.pos, "the state is not compared once with the decision") {
							continue
						}
						is := jt.truth(u, chk[0].ret)
						if is == 0 {
							c.check("towards the next states", con, len(c.called(jt.events, "qlearn.Agent.UpdateTable"))+len(c.called(jt.events, "qlearn.Agent.UpdateEpsilon")) == 0, l.pos, "a state that is not next is rewarded")
							continue
						}
						c.check("towards the next states", con, is == 1, l.pos, "a reward does not depend on the next state")
						up := c.update(con, jt, "evictionAgent", s.arg("c"), l.pos)
						if up == nil {
							continue
						}
						c.check("decision rewarded", con, untag(up.args[1]) == prev("State") && up.args[2] == f("Idx") && untag(up.args[3]) == prev("Action"), up.pos, "the table is updated for %v", up.args[1:])
						c.check("amount of the reward", con, up.args[4] == u.Neg(s.old("c.evictionRO")), up.pos, "the punishment is %s", up.args[4])
					}
				}
				c.check("towards the next states", con, inner == 1, l.pos, "the states are gone through %d times", inner)
			}
		}
		want := 1
		if u.decide(o.st, u.Init(in)) == 0 {
			want = 0
		}
		c.check("remembered decisions", con, loops == want, o.pos, "the remembered decisions are gone through %d times", loops)
	}
	c.check("paths", con, runs > 0, s.fn.Pos(), "no decision is punished")
}

func (c *Ctx) nextState() {
	con := "checkEvictionNextState"
	e := c.engine()
	e.precise = true
	s := c.scOn(e, c.fn("cache.AIRL."+con), con, "c", "a", "b")
	u := e.u
	memo := s.old("c.evictionCheckNextStateMap")
	a, b := s.arg("a"), s.arg("b")
	seen, fresh := 0, 0
	for _, o := range s.returns() {
		known := false
		var cell *Term
		for addr, v := range o.st.mem.ents {
			if addr.op == OMapAt && addr.args[0] == memo {
				c.check("result is remembered", con, cell == nil && v == o.ret[0], o.pos, "%s is remembered instead of %s", v, o.ret[0])
				cell = addr
			}
		}
		var key *Term
		for f, v := range o.st.facts {
			if v && f.op == OInit && f.args[0].op == OMapIn && f.args[0].args[0] == memo {
				known, key = true, f.args[0].args[1]
			}
		}
		if cell != nil {
			key = cell.args[1]
		}
		if key != nil {
			c.check("result is remembered", con, oneToOne(u, key, a, b), o.pos, "states share the key %s", key)
		}
		if known {
			seen++
			at, _, _ := e.mapAddr(memo, key, s.mapTypeOf("c.evictionCheckNextStateMap"))
			c.check("result is remembered", con, untag(o.ret[0]) == at, o.pos, "%s is returned for a pair of states seen before", o.ret[0])
			continue
		}
		fresh++
		is := func(st *Term, f string) *Term {
			return s.old("c.evictionAgent.QTable.States[" + map[*Term]string{a: "a", b: "b"}[st] + "][c.evictionFeatureManager.FeatureIdxMap[\"" + f + "\"]]")
		}
		for _, want := range values(e, o.st.facts, func(q func(*Term) bool) *Term {
			ok := q(u.EQ(is(b, "catSize"), is(a, "catSize"))) && q(u.EQ(is(b, "catDeltaLastRequest"), is(a, "catDeltaLastRequest")))
			ok = ok && !q(u.LT(u.Sub(is(b, "catNumReq"), is(a, "catNumReq")), true))
			return u.Bool(ok)
		}) {
			got := o.ret[0]
			d := u.decide(o.st, got)
			if d < 0 {
				// the answer is the last comparison
				lt := u.LT(u.Sub(is(b, "catNumReq"), is(a, "catNumReq")), true)
				same := u.decide(o.st, u.EQ(is(b, "catSize"), is(a, "catSize"))) == 1 && u.decide(o.st, u.EQ(is(b, "catDeltaLastRequest"), is(a, "catDeltaLastRequest"))) == 1
				c.check("states that follow", con, same && got == u.Not(lt), o.pos, "the answer is %s", got)
				continue
			}
			c.check("states that follow", con, want.op == OConst && want.b == (d == 1), o.pos, "the answer is %s when %s", got, factsString(o.st.facts))
		}
	}
	c.note("pairs of states: %d paths with a result remembered, %d without", seen, fresh)
	c.check("paths", con, fresh > 0, s.fn.Pos(), "no path compares the states")
}

// oneToOne: the key tells both numbers apart, from each other and in all
// their bits.
func oneToOne(u *U, key, a, b *Term) bool {
	bits := map[*Term]map[string]bool{a: {}, b: {}}
	whole := map[*Term]bool{}
	var walk func(*Term, bool)
	walk = func(t *Term, top bool) {
		switch {
		case t == a || t == b:
			whole[t] = top
		case t.op == OCall && t.s == "byte":
			for _, x := range []*Term{a, b} {
				v := t.args[0]
				if v == x || v.op == OCall && (v.s == "narrowuint32" || v.s == "narrowint32") && v.args[0] == x {
					bits[x][t.args[1].String()] = true
				}
			}
		case t.op == OSeq || t.op == OElem || t.op == OStruct:
			for _, x := range t.args {
				walk(x, top)
			}
		case t.op == OCall:
			for _, x := range t.args {
				walk(x, false)
			}
		}
	}
	walk(key, true)
	if len(bits[a])+len(bits[b]) > 0 {
		for _, x := range []*Term{a, b} {
			if !whole[x] && len(bits[x]) < 4 {
				return false
			}
		}
		return true
	}
	// some other function of the two: it must use both, and their order
	uses := func(x *Term) bool { return contains(key, func(t *Term) bool { return t == x }) }
	tmp := u.Sym("swap?")
	swapped := u.Subst(u.Subst(u.Subst(key, a, tmp), b, a), tmp, b)
	return uses(a) && uses(b) && swapped != key
}

// lastStates: asked for the last decisions, the manager sends each of them.
func (c *Ctx) lastStates() {
	con := "GetStateFromCategories"
	work := c.opaqueWork()
	fn := c.fn("cache.CategoryManager.GetStateFromCategories")
	e := c.engine()
	e.precise = true
	e.opaque = func(f *ssa.Function) bool { return f != fn && work(f) }
	s := c.scOn(e, fn, con, "m", "fresh", "agent", "capacity", "hitRate", "maxSize")
	u := e.u
	s.give("fresh", u.Bool(false))
	last := s.old("m.lastStateAction")
	runs := 0
	for _, o := range s.returns() {
		gos := evs(o.st.events, "go", "")
		if !c.check("every last decision", con, len(gos) == 1 && goTarget(gos[0]) != nil, fn.Pos(), "%d producers", len(gos)) {
			continue
		}
		cl := goTarget(gos[0])
		for _, g := range e.exec(cl.fn, goArgs(gos[0]), cl.args, o.st.fork(), "go", nil, nil) {
			if g.kind != "return" {
				continue
			}
			c.check("every last decision", con, len(evs(g.st.events, "close", "")) == 1, fn.Pos(), "the states never end")
			loops := 0
			for _, ev := range g.st.events {
				if ev.kind != "loop" || len(evs(each1(ev.loop), "send", "")) == 0 {
					continue
				}
				loops++
				_, _, cnt := e.mapAddr(last, u.Int(0), s.mapTypeOf("m.lastStateAction"))
				n := u.Init(cnt)
				c.check("every last decision", con, ev.loop.trip == n, ev.loop.pos, "%s decisions are sent", ev.loop.trip)
				for _, it := range ev.loop.iters {
					runs++
					sends := evs(it.events, "send", "")
					if !c.check("every last decision", con, len(sends) == 1 && sends[0].recv == o.ret[0], ev.loop.pos, "%d states are sent", len(sends)) {
						continue
					}
					v := sends[0].args[0]
					c.check("every last decision", con, c.eachOf(e, v, last, ev.loop.k), sends[0].pos, "%s is sent", v)
				}
			}
			c.check("every last decision", con, loops == 1, fn.Pos(), "the decisions are sent %d times", loops)
		}
	}
	c.check("paths", con, runs > 0, fn.Pos(), "no decision is sent")
}

// eachOf: the value is that of the map for the k-th of its keys.
func (c *Ctx) eachOf(e *Engine, v, m, k *Term) bool {
	u := e.u
	t := untag(v)
	if v.op == OStruct {
		if len(v.args) == 0 {
			return false
		}
		t = nil
		for _, a := range v.args {
			x := untag(a)
			for x != nil && x.op == OField {
				x = x.args[0]
			}
			if x == nil || t != nil && t != x {
				return false
			}
			t = x
		}
	}
	if t == nil || t.op != OMapAt || t.args[0] != m {
		return false
	}
	key := untag(t.args[1])
	isKey := func(x *Term) bool { return x != nil && x.op == OCall && x.s == "rkey" && x.args[0] == m }
	if isKey(key) {
		return true
	}
	if key == nil || key.op != OIndex || key.args[1] != k {
		return false
	}
	_ = u
	return contains(key.args[0], isKey)
}

func ruleUnleash(c *Ctx) {
	c.guarded("UnleashEpsilon", c.unleash)
	for _, add := range []bool{false, true} {
		for _, evc := range []bool{false, true} {
			c.guarded("BeforeRequest", func() { c.newDay(add, evc) })
		}
	}
}

// unleash: exploration restarts from the top, and goes down to the target.
func (c *Ctx) unleash() {
	con := "UnleashEpsilon"
	for _, mode := range []string{"off", "full", "target"} {
		e := c.engine()
		fn := c.fn("qlearn.Agent.UnleashEpsilon")
		upd := c.fn("qlearn.Agent.UpdateEpsilon")
		e.opaque = func(f *ssa.Function) bool { return f == upd }
		s := c.scOn(e, fn, con, "a", "to")
		u := e.u
		cc := con + " " + mode
		s.setBool("a.allowEpsilonUnleash", mode != "off")
		half := u.Num(big.NewRat(1, 2))
		if mode == "full" {
			s.give("to", u.Nil())
		} else {
			s.give("to", u.Call("iface:float64", half))
		}
		n := 0
		for _, o := range s.returns() {
			n++
			eps, step := s.term(o, "a.Epsilon"), s.term(o, "a.StepNum")
			switch mode {
			case "off":
				c.check("exploration restarts", cc, eps == s.old("a.Epsilon") && step == s.old("a.StepNum"), o.pos, "exploration restarts although it may not")
			case "full":
				c.check("exploration restarts", cc, isOne(u, eps) && isZero(step), o.pos, "exploration restarts at %s, step %s", eps, step)
			default:
				above := u.decide(o.st, u.LT(u.Sub(half, eps), false))
				c.check("exploration restarts", cc, above == 0, o.pos, "exploration restarts at %s, not down to the target", eps)
				down := 0
				for _, ev := range o.st.events {
					if ev.kind != "loop" {
						continue
					}
					for _, it := range ev.loop.iters {
						down++
						c.check("exploration restarts", cc, len(it.events) == 1 && it.events[0].name == fnName(upd) && it.events[0].args[0] == s.arg("a"), ev.loop.pos, "the way down is not that of the updates")
					}
				}
				c.check("exploration restarts", cc, down > 0, o.pos, "the way down is not that of the updates")
			}
		}
		c.check("paths", cc, n > 0, fn.Pos(), "no path returns")
	}
}

func (c *Ctx) newDay(add, evc bool) {
	con := "AIRL.BeforeRequest"
	for n, v := range map[string]bool{"addition": add, "eviction": evc} {
		con2 := con + " " + n
		if !v {
			con2 += " off"
		}
		c.newDayOf(con2, n, add, evc)
	}
}

func (c *Ctx) newDayOf(con, kind string, add, evc bool) {
	s := c.rewardScenario("BeforeRequest", "c", "req", "hit")
	e, u := s.e, s.e.u
	s.setBool("c.additionAgentOK", add)
	s.setBool("c.evictionAgentOK", evc)
	on := add
	other := "evictionAgent"
	if kind == "eviction" {
		on, other = evc, "additionAgent"
	}
	// the other agent explores
	s.assume("c." + other + ".Epsilon > c." + other + ".MinEpsilon + 0.01")
	s.assume("c." + other + "BadQValue < 8")
	ag := kind + "Agent"
	limit, _, _ := c.pkgConst(e, "cache", "maxBadQValueInRow")
	old := func(x string) *Term { return s.old("c." + ag + x) }
	n := 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		n++
		ok, why := s.holds(o, "c.curTime == req.DayTime && c.prevTime == old(c.curTime)")
		c.check("days are followed", con, ok, o.pos, "%s", why)
		type res struct {
			prev, bad *Term
			ev        string
		}
		for _, want := range values(e, o.st.facts, func(q func(*Term) bool) *Term {
			r := []*Term{old("PrevQValue"), old("BadQValue"), u.Str("")}
			same := s.old("req.DayTime.Equal(c.curTime)")
			if q(same) {
				return u.Tuple(r...)
			}
			if !q(s.old("c." + ag + ".Epsilon > c." + ag + ".MinEpsilon + 0.01")) {
				r[0] = old(".QValue")
				if !q(u.EQ(old("PrevQValue"), u.Int(0))) {
					if q(u.LT(u.Sub(old(".QValue"), old("PrevQValue")), false)) {
						r[1] = u.Add(r[1], u.Int(1))
					} else {
						r[1] = u.Int(0)
					}
				}
			}
			if !q(u.LT(u.Sub(r[1], limit), true)) && on {
				r[1] = u.Int(0)
				r[2] = u.Str("half")
				if q(u.LT(old(".QValue"), false)) {
					r[2] = u.Str("full")
				}
			}
			return u.Tuple(r...)
		}) {
			got := func(x string) *Term { return s.term(o, "c."+ag+x) }
			eq := func(a, b *Term) bool { return isZero(e.simp(o.st.facts, u.Sub(a, b))) }
			c.check("days are compared", con, eq(got("PrevQValue"), want.args[0]) && eq(got("BadQValue"), want.args[1]), o.pos, "the reward kept is %s and the bad days %s instead of %s and %s when %s", got("PrevQValue"), got("BadQValue"), want.args[0], want.args[1], factsString(o.st.facts))
			un, rm := c.called(o.st.events, "qlearn.Agent.UnleashEpsilon"), c.called(o.st.events, "qlearn.Agent.ResetMemories")
			start := ""
			ok := len(un) <= 1 && len(rm) <= 1
			for _, ev := range append(append([]*Event{}, un...), rm...) {
				ok = ok && fromAgent(ev.args[0], ag) && rootedAt(ev.args[0], s.arg("c"))
			}
			if len(un) == 1 {
				switch a := e.strip(un[0].args[1]); {
				case a == u.Num(big.NewRat(1, 2)):
					start = "half"
				case a == u.Nil():
					start = "full"
				default:
					start = a.String()
				}
			}
			ok = ok && len(rm) == b2i(start == "full")
			c.check("exploration restarts", con, ok && u.Str(start) == want.args[2], o.pos, "exploration restarts: %q instead of %s, %d memories are forgotten", start, want.args[2], len(rm))
		}
	}
	c.check("paths", con, n > 2, s.fn.Pos(), "no path compares days")
}

// fieldType is the type of a field of a struct of the repository.
func fieldType(n *types.Named, field string) types.Type {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(n, i) == field {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}
