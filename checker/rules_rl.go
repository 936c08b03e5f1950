package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", 14, "order facts of every path decide that the chosen action is a maximal one; the written table entry is compared with the update rule", ruleQLearning)
	register("R02", 12, "contracts on the agent's parameters over every function that writes them", ruleExploration)
	register("R06", 12, "feature indexes decided from the order facts of each path, and the enumeration of the states walked for fixed shapes", ruleStates)
}

// order is what the facts of a path say about the order of some values.
type order struct{ le, lt map[[2]*Term]bool }

func newOrder(u *U, facts map[*Term]bool, vs []*Term) *order {
	o := &order{map[[2]*Term]bool{}, map[[2]*Term]bool{}}
	st := &State{facts: facts}
	for _, a := range vs {
		o.le[[2]*Term{a, a}] = true
		for _, b := range vs {
			if a == b {
				continue
			}
			for _, integer := range []bool{false, true} {
				switch u.decide(st, u.LT(u.Sub(a, b), integer)) {
				case 1:
					o.lt[[2]*Term{a, b}], o.le[[2]*Term{a, b}] = true, true
				case 0:
					o.le[[2]*Term{b, a}] = true
				}
			}
			if u.decide(st, u.EQ(a, b)) == 1 {
				o.le[[2]*Term{a, b}], o.le[[2]*Term{b, a}] = true, true
			}
		}
	}
	for _, k := range vs {
		for _, i := range vs {
			for _, j := range vs {
				if o.le[[2]*Term{i, k}] && o.le[[2]*Term{k, j}] {
					o.le[[2]*Term{i, j}] = true
					if o.lt[[2]*Term{i, k}] || o.lt[[2]*Term{k, j}] {
						o.lt[[2]*Term{i, j}] = true
					}
				}
			}
		}
	}
	return o
}

func (o *order) atLeast(a, b *Term) bool { return o.le[[2]*Term{b, a}] }
func (o *order) above(a, b *Term) bool   { return o.lt[[2]*Term{b, a}] }

// contradictory facts describe no execution.
func (o *order) contradictory() bool {
	for k := range o.lt {
		if k[0] == k[1] {
			return true
		}
	}
	return false
}

// maximal tells whether v is the largest of vs.
func (o *order) maximal(v *Term, vs []*Term) bool {
	for _, x := range vs {
		if !o.atLeast(v, x) {
			return false
		}
	}
	return true
}

// choices are the positions an index may have: a constant, or a drawn element
// of a list of constants. ok is false if they are not known.
func choices(u *U, i *Term, evts []*Event) (r []int64, ok bool) {
	if isNum(i) && i.rat.IsInt() {
		return []int64{i.rat.Num().Int64()}, true
	}
	if i.op == OInit {
		i = i.args[0]
	}
	if i.op != OIndex && !(i.op == OCall && len(i.args) == 2) {
		return nil, false
	}
	list, at := i.args[0], i.args[1]
	if list.op != OSeq || !allElems(list) {
		return nil, false
	}
	// the drawn position is one of the list
	within := false
	each(evts, func(ev *Event, _ []*LoopInfo) {
		if ev.kind == "call" && ev.ret == at && (ev.name == "(*math/rand.Rand).Intn" || ev.name == "math/rand.Intn" || ev.name == "(*math/rand.Rand).Int63n") {
			within = len(ev.args) > 0 && isZero(u.Sub(ev.args[len(ev.args)-1], u.Int(int64(len(list.args)))))
		}
	})
	if !within {
		return nil, false
	}
	for _, p := range list.args {
		if !isNum(p.args[0]) {
			return nil, false
		}
		r = append(r, p.args[0].rat.Num().Int64())
	}
	return r, true
}

// values makes a row of n unknown numbers.
func (s *Sc) values(name string, n int) (row *Term, vs []*Term) {
	u := s.e.u
	var ps []*Term
	for i := 0; i < n; i++ {
		v := u.Sym(fmt.Sprintf("%s%d", name, i))
		vs = append(vs, v)
		ps = append(ps, u.Elem(v))
	}
	return u.Seq(ps...), vs
}

// isMax tells whether t is known to be a largest element of the row.
func (s *Sc) isMax(o Out, t, row *Term, vs []*Term) bool {
	u := s.e.u
	ord := newOrder(u, o.st.facts, vs)
	if ord.contradictory() || ord.maximal(t, vs) {
		return true
	}
	if t.op == OCall && (t.s == "math.Max" || t.s == "max") {
		all := map[*Term]bool{}
		var leaf func(x *Term) bool
		leaf = func(x *Term) bool {
			if x.op == OCall && (x.s == "math.Max" || x.s == "max") {
				for _, a := range x.args {
					if !leaf(a) {
						return false
					}
				}
				return true
			}
			all[x] = true
			for _, v := range vs {
				if x == v {
					return true
				}
			}
			return false
		}
		if !leaf(t) {
			return false
		}
		for _, v := range vs {
			ok := false
			for x := range all {
				ok = ok || ord.atLeast(x, v)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if t.op == OInit {
		t = t.args[0]
	}
	if t.op == OIndex && t.args[0] == row {
		cs, ok := choices(u, t.args[1], o.st.events)
		for _, i := range cs {
			ok = ok && i >= 0 && i < int64(len(vs)) && ord.maximal(vs[i], vs)
		}
		return ok
	}
	return false
}

func ruleQLearning(c *Ctx) {
	sizes := []int{2, 3, 5}
	best := func(name string, val bool) {
		c.guarded(name, func() {
			for _, n := range sizes {
				e := c.engine()
				e.precise = true
				s := c.scOn(e, c.fn("qlearn.Agent."+name), name, "a", "st")
				u := e.u
				row, vs := s.values("v", n)
				u.write(s.pre, u.Index(s.old("a.QTable.Actions"), s.arg("st"), "e:[]float64"), row)
				acts, _ := s.values("act", n)
				s.set("a.QTable.ActionTypes", acts)
				outs := s.returns()
				c.check("returns", name, len(outs) > 0, s.fn.Pos(), "no path returns for %d actions", n)
				for _, o := range outs {
					if e.infeasible(o.st.facts) || newOrder(u, o.st.facts, vs).contradictory() {
						continue
					}
					if val {
						c.check("highest value", name, s.isMax(o, o.ret[0], row, vs), o.pos, "with %d actions the value %s is returned when %s", n, o.ret[0], factsString(o.st.facts))
						continue
					}
					// the action at the position of a highest value
					ok := false
					for i, a := range acts.args {
						if a.args[0] == o.ret[0] {
							ok = newOrder(u, o.st.facts, vs).maximal(vs[i], vs)
						}
					}
					r := o.ret[0]
					if r.op == OInit {
						r = r.args[0]
					}
					if r.op == OIndex && r.args[0] == acts {
						cs, known := choices(u, r.args[1], o.st.events)
						ok = known
						for _, i := range cs {
							ok = ok && i >= 0 && i < int64(n) && newOrder(u, o.st.facts, vs).maximal(vs[i], vs)
						}
					}
					c.check("an action of highest value", name, ok, o.pos, "with %d actions the action %s is returned when %s", n, r, factsString(o.st.facts))
				}
				c.check("changes nothing", name, s.pure(), s.fn.Pos(), "the agent is changed")
			}
		})
	}
	best("GetBestAction", false)
	best("GetBestActionValue", true)

	con := "UpdateTable"
	c.guarded(con, func() {
		for _, n := range sizes {
			for _, self := range []bool{false, true} {
				e := c.engine()
				e.precise = true
				s := c.scOn(e, c.fn("qlearn.Agent.UpdateTable"), con, "a", "st", "next", "act", "reward")
				u := e.u
				alg, _, ok := c.pkgConst(e, "qlearn", "RLQLearning")
				if !ok {
					c.missing("qlearn.RLQLearning")
				}
				s.set("a.UpdateAlgorithm", alg)
				s.assume("in(a.QTable.ActionTypeIdxs, act)")
				if self {
					s.give("next", s.arg("st"))
				} else {
					s.assume("st != next")
				}
				table := s.old("a.QTable.Actions")
				cur, _ := s.values("v", n)
				row, vs := s.values("w", n)
				if self {
					cur = row
				}
				u.write(s.pre, u.Index(table, s.arg("st"), "e:[]float64"), cur)
				u.write(s.pre, u.Index(table, s.arg("next"), "e:[]float64"), row)
				pos := s.old("a.QTable.ActionTypeIdxs[act]")
				lr, disc, rew := s.old("a.LearningRate"), s.old("a.DiscountFactor"), s.arg("reward")
				at := u.Index(cur, pos, "e:float64")
				q := e.readAt(s.pre, at)
				qv, _ := s.addr("a.QValue")
				outs := s.returns()
				c.check("returns", con, len(outs) > 0 && len(s.kind("panic")) == 0, s.fn.Pos(), "an update of a known action does not return")
				for _, o := range outs {
					if newOrder(u, o.st.facts, vs).contradictory() {
						continue
					}
					// no other table entry or parameter changes
					for a, v := range o.st.mem.ents {
						if s.pre.mem.ents[a] == v || rootOf(a).op == OAlloc || a == qv {
							continue
						}
						c.check("one entry changes", con, a == at, o.pos, "%s becomes %s", a, v)
					}
					c.check("accumulated reward", con, isZero(u.Sub(e.readAt(o.st, qv), u.Add(s.old("a.QValue"), rew))), o.pos, "the accumulated reward becomes %s", e.readAt(o.st, qv))
					v := e.readAt(o.st, at)
					rule := func(m *Term) *Term {
						return u.Add(q, u.Mul(lr, u.Sub(u.Add(rew, u.Mul(disc, m)), q)))
					}
					ok := false
					cands := append([]*Term{}, vs...)
					contains(v, func(x *Term) bool {
						if x.op == OIndex || x.op == OInit || x.op == OCall {
							cands = append(cands, x)
						}
						return false
					})
					for _, m := range cands {
						if isZero(u.Sub(v, rule(m))) && s.isMax(o, m, row, vs) {
							ok = true
						}
					}
					c.check("update rule", con, ok, o.pos, "with %d actions, same state %v, the entry becomes %s when %s", n, self, v, factsString(o.st.facts))
				}
			}
		}
		for _, unknown := range []bool{true, false} {
			e := c.engine()
			s := c.scOn(e, c.fn("qlearn.Agent.UpdateTable"), con, "a", "st", "next", "act", "reward")
			if unknown {
				s.assume("!in(a.QTable.ActionTypeIdxs, act)")
			} else {
				alg, _, _ := c.pkgConst(e, "qlearn", "RLQLearning")
				s.pre.setFact(e.u.EQ(s.old("a.UpdateAlgorithm"), alg), false)
			}
			for _, o := range s.returns() {
				c.check("unknown action or rule ends the program", con, e.infeasible(o.st.facts), o.pos, "an update with an unknown action or rule returns")
			}
			c.check("unknown action or rule ends the program", con, len(s.kind("panic")) > 0, s.fn.Pos(), "no panic")
		}
	})

	con = "GetActionValue"
	c.guarded(con, func() {
		s := c.sc("qlearn.Agent.GetActionValue", "a", "st", "act")
		s.ensure("value of the action", con, "ret == a.QTable.Actions[st][a.QTable.ActionTypeIdxs[act]]")
	})

	con = "Agent.Init"
	c.guarded(con, func() { c.agentActions(con) })
	c.guarded("memories", func() { c.agentMemories() })
}

// pure tells whether every return leaves the memory as it was.
func (s *Sc) pure() bool {
	for _, o := range s.returns() {
		for a, v := range o.st.mem.ents {
			if s.pre.mem.ents[a] != v && !newMemory(a) && s.e.u.read(s.pre, a) != v {
				return false
			}
		}
	}
	return true
}

// newMemory: address a is in memory made by the function
func newMemory(a *Term) bool {
	r := rootOf(a)
	return r.op == OAlloc || r.op == OCall && r.s == "make" && r.args[0].op == OAlloc
}

// agentActions checks the actions of each role and where the table keeps them.
func (c *Ctx) agentActions(con string) {
	for role, want := range map[string][]string{
		"AdditionAgent": {"ActionNotStore", "ActionStore"},
		"EvictionAgent": {"ActionNotDelete", "ActionDeleteOne", "ActionDeleteQuarter", "ActionDeleteHalf", "ActionDeleteAll"},
	} {
		e := c.engine()
		e.precise = true
		init := c.fn("qlearn.QTable.Init")
		e.opaque = func(f *ssa.Function) bool { return f == init }
		s := c.scOn(e, c.fn("qlearn.Agent.Init"), con, "a", "fm", "role", "eps", "decay", "unleash", "seed")
		r, _, ok := c.pkgConst(e, "qlearn", role)
		if !ok {
			c.missing("qlearn." + role)
		}
		s.give("role", r)
		for _, o := range s.returns() {
			calls := evs(o.st.events, "fn", fnName(init))
			if !c.check("one table is made", con, len(calls) == 1, o.pos, "%d tables are made for the %s", len(calls), role) {
				continue
			}
			list := e.deep(o.st, calls[0].args[2])
			have := map[*Term]bool{}
			known := list.op == OSeq && allElems(list)
			if known {
				for _, p := range list.args {
					have[p.args[0]] = true
				}
			}
			for _, w := range want {
				t, _, ok := c.pkgConst(e, "qlearn", w)
				if !ok {
					c.missing("qlearn." + w)
				}
				c.check("actions of the role", con+" "+role, known && have[t], calls[0].pos, "%s is not among the actions %s", w, list)
			}
			c.check("actions of the role", con+" "+role, known && len(list.args) == len(want) && len(have) == len(want), calls[0].pos, "the actions are %s", list)
			tab, _ := s.addr("a.QTable")
			c.check("table of the agent", con, calls[0].args[0] == tab && calls[0].args[1] == s.arg("fm") && calls[0].args[3] == s.arg("seed"), calls[0].pos, "the table %s is made with %v", calls[0].args[0], calls[0].args[1:])
			s.ensureOut(o, "learns by the Q-learning rule", con, "a.UpdateAlgorithm == qlearn.RLQLearning")
		}
	}
}

// agentMemories: what is remembered of past choices.
func (c *Ctx) agentMemories() {
	for _, m := range []struct {
		fn  string
		max int
	}{{"SaveMemory", 32}, {"SaveMemoryWithNoLimits", 0}} {
		con := m.fn
		full := []string{"false"}
		if m.max > 0 {
			full = []string{"false", "true"}
		}
		for _, known := range []bool{false, true} {
			for _, f := range full {
				if !known && f == "true" {
					continue
				}
				e := c.engine()
				s := c.scOn(e, c.fn("qlearn.Agent."+m.fn), con, "a", "key", "choice")
				if known {
					s.assume("in(a.Memory, key)")
				} else {
					s.assume("!in(a.Memory, key)")
				}
				u := e.u
				old := s.old("a.Memory[key]")
				if known && m.max > 0 {
					if f == "true" {
						s.assume("len(a.Memory[key]) == 32")
					} else {
						s.assume("len(a.Memory[key]) < 32")
					}
				}
				outs := s.returns()
				c.check("returns", con, len(outs) > 0, s.fn.Pos(), "no path returns")
				for _, o := range outs {
					if e.infeasible(o.st.facts) {
						continue
					}
					now := e.deep(o.st, s.term(o, "a.Memory[key]"))
					ch := u.Elem(e.load(s.pre, s.arg("choice"), s.env["choice"].ty))
					last := u.Seq(ch)
					keep := u.Seq(u.Spread(old), ch)
					ok := false
					switch {
					case !known:
						ok = now == last
					case f == "true":
						// the oldest is forgotten
						tail := u.SliceOp(old, u.Int(1), u.Len(old))
						ok = now == u.Seq(u.Spread(tail), ch) || now == u.Seq(u.Spread(u.SliceOp(old, u.Int(1), u.Int(32))), ch) || now == u.Seq(u.Spread(u.SliceOp(old, u.Int(1), nil)), ch)
					default:
						ok = now == keep
					}
					c.check("the choice is added to the memory of its key", con, ok, o.pos, "known %v full %s: the memory becomes %s", known, f, now)
				}
			}
		}
	}
	con := "Remember"
	for _, known := range []bool{false, true} {
		s := c.sc("qlearn.Agent.Remember", "a", "key")
		if known {
			s.assume("in(a.Memory, key)")
			s.ensure("remembered once", con, "ret1 && !in(a.Memory, key) && len(ret0) == old(len(a.Memory[key]))")
		} else {
			s.assume("!in(a.Memory, key)")
			s.ensure("remembered once", con, "!ret1 && len(ret0) == 0")
		}
	}
}

func ruleExploration(c *Ctx) {
	con := "UpdateEpsilon"
	c.guarded(con, func() {
		s := c.sc("qlearn.Agent.UpdateEpsilon", "a")
		s.ensure("decay", con, "implies(old(a.Epsilon) > old(a.MinEpsilon), a.StepNum == old(a.StepNum) + 1 && a.Epsilon == a.MinEpsilon + (a.MaxEpsilon - a.MinEpsilon) * math.Exp(-a.DecayRateEpsilon * float64(old(a.StepNum) + 1)))")
		s.ensure("stops at the least rate", con, "implies(!(old(a.Epsilon) > old(a.MinEpsilon)), a.StepNum == old(a.StepNum) && a.Epsilon == old(a.Epsilon))")
		s.ensure("nothing else changes", con, "a.MinEpsilon == old(a.MinEpsilon) && a.MaxEpsilon == old(a.MaxEpsilon) && a.DecayRateEpsilon == old(a.DecayRateEpsilon) && a.LearningRate == old(a.LearningRate) && a.DiscountFactor == old(a.DiscountFactor) && a.QValue == old(a.QValue)")
	})
	con = "UnleashEpsilon"
	upd := "UpdateEpsilon"
	c.guarded(con, func() {
		s := c.sc("qlearn.Agent.UnleashEpsilon", "a", "target")
		s.assume("!a.allowEpsilonUnleash")
		s.ensure("only if allowed", con, "a.Epsilon == old(a.Epsilon) && a.StepNum == old(a.StepNum)")
		s = c.sc("qlearn.Agent.UnleashEpsilon", "a", "target")
		s.assume("a.allowEpsilonUnleash")
		s.give("target", s.e.u.Nil())
		s.ensure("back to the start", con, "(a.Epsilon == 1.0 || a.Epsilon == a.MaxEpsilon) && a.StepNum == 0")

		e := c.engine()
		up := c.fn("qlearn.Agent." + upd)
		e.precise = true
		e.opaque = func(f *ssa.Function) bool { return f == up }
		s = c.scOn(e, c.fn("qlearn.Agent.UnleashEpsilon"), con, "a", "target")
		s.assume("a.allowEpsilonUnleash")
		v := e.u.Sym("target rate")
		s.give("target", e.u.Call("iface:float64", v))
		eps, _ := s.addr("a.Epsilon")
		step, _ := s.addr("a.StepNum")
		n := 0
		for _, o := range s.returns() {
			n++
			c.check("back to the given rate", con, e.u.decide(o.st, e.u.LT(e.u.Sub(v, e.readAt(o.st, eps)), false)) == 0, o.pos, "it stops with the rate %s", e.readAt(o.st, eps))
			// until then only the decay changes the rate, from one and zero
			each(o.st.events, func(ev *Event, in []*LoopInfo) {
				if ev.kind == "loop" {
					for _, it := range ev.loop.iters {
						for a := range it.writes {
							c.check("decays to the given rate", con, a != eps && a != step, ev.pos, "%s is changed to %s", a, it.writes[a])
						}
						c.check("decays to the given rate", con, countEv(it.events, "fn", fnName(up)) == 1, ev.pos, "one round does not decay the rate once")
						for a, x := range it.start {
							if a == eps {
								c.check("decays to the given rate", con, it.truth(e.u, e.u.LT(e.u.Sub(v, x), false)) == 1, ev.pos, "it goes on with the rate %s", x)
							}
						}
					}
				}
			})
		}
		c.check("back to the given rate", con, n > 0, s.fn.Pos(), "no path returns")
	})
	c.guarded("parameters", func() {
		for _, f := range []string{"Init", "ResetParams"} {
			con := "Agent." + f
			e := c.engine()
			init := c.fn("qlearn.QTable.Init")
			e.opaque = func(f *ssa.Function) bool { return f == init }
			var s *Sc
			if f == "Init" {
				s = c.scOn(e, c.fn("qlearn.Agent.Init"), con, "a", "fm", "role", "eps", "decay", "unleash", "seed")
			} else {
				s = c.scOn(e, c.fn("qlearn.Agent.ResetParams"), con, "a", "eps", "decay")
			}
			s.ensure("learning rate and discount", con, "a.LearningRate == 0.9 && a.DiscountFactor == 0.5")
			s.ensure("range of the rate", con, "a.MaxEpsilon == 1.0 && a.MinEpsilon == 0.1")
			s.ensure("given rate and decay", con, "a.Epsilon == eps && a.DecayRateEpsilon == decay")
			if f == "Init" {
				s.ensure("unleash flag", con, "a.allowEpsilonUnleash == unleash")
				s.ensure("no memories", con, "len(a.Memory) == 0")
				s.ensure("one random source", con, "a.RGenerator == a.QTable.RandomGenerator")
			} else {
				s.ensure("starts again", con, "a.StepNum == 0 && a.QValue == 0.0")
				s.ensure("the table is kept", con, "a.QTable.Actions == old(a.QTable.Actions) && a.QTable.States == old(a.QTable.States)")
			}
		}
	})
	c.guarded("random", func() {
		e := c.engine()
		s := c.scOn(e, c.fn("qlearn.Agent.GetRandomFloat"), "GetRandomFloat", "a")
		for _, o := range s.returns() {
			ok := false
			each(o.st.events, func(ev *Event, _ []*LoopInfo) {
				if ev.kind == "call" && ev.name == "(*math/rand.Rand).Float64" && ev.ret == o.ret[0] {
					ok = ev.args[0] == s.old("a.RGenerator")
				}
			})
			c.check("drawn from the seeded source", "GetRandomFloat", ok, o.pos, "it returns %s", o.ret[0])
		}
	})
	con = "QTable.Init"
	c.guarded(con, func() {
		e := c.engine()
		e.track = func(cl string) bool { return true }
		s := c.scOn(e, c.fn("qlearn.QTable.Init"), con, "t", "fm", "acts", "seed")
		for _, o := range s.returns() {
			src := evs(o.st.events, "call", "math/rand.NewSource")
			nw := evs(o.st.events, "call", "math/rand.New")
			ok := len(src) == 1 && len(nw) == 1 && src[0].args[0] == s.arg("seed") && nw[0].args[0] == src[0].ret && s.term(o, "t.RandomGenerator") == nw[0].ret
			c.check("random source of the given seed", con, ok, o.pos, "the random source is %s", s.term(o, "t.RandomGenerator"))
		}
	})
	// both agents of the cache get their own parameters
	c.guarded("AIRL.Init", func() { c.agentsOfCache() })
}

// agentsOfCache: each agent is made with its own settings.
func (c *Ctx) agentsOfCache() {
	con := "AIRL.Init"
	agent := c.fn("qlearn.Agent.Init")
	parse := c.fn("featuremap.Parse")
	simple := c.fn("cache.SimpleCache.Init")
	for _, add := range []bool{true, false} {
		for _, evc := range []bool{true, false} {
			e := c.engine()
			e.opaque = func(f *ssa.Function) bool { return f == agent || f == parse || f == simple }
			s := c.scOn(e, c.fn("cache.AIRL.Init"), con, "c", "p")
			s.setStr("p.AIRLType", "scdl2")
			s.setStr("p.EvictionAgentType", "onK")
			for f, on := range map[string]bool{"p.AIRLAdditionFeatureMap": add, "p.AIRLEvictionFeatureMap": evc} {
				if on {
					s.setStr(f, f)
				} else {
					s.setStr(f, "")
				}
			}
			for _, o := range s.returns() {
				got := map[*Term]*Event{}
				for _, ev := range evs(o.st.events, "fn", fnName(agent)) {
					c.check("one agent each", con, got[ev.args[0]] == nil, ev.pos, "%s is made twice", ev.args[0])
					got[ev.args[0]] = ev
				}
				n := 0
				for _, x := range []struct {
					on          bool
					agent, fm   string
					role, pre   string
					flag, param string
				}{
					{add, "c.additionAgent", "c.additionFeatureManager", "AdditionAgent", "p.AIRLAddition", "c.additionAgentOK", "p.AIRLAdditionFeatureMap"},
					{evc, "c.evictionAgent", "c.evictionFeatureManager", "EvictionAgent", "p.AIRLEviction", "c.evictionAgentOK", "p.AIRLEvictionFeatureMap"},
				} {
					a, _ := s.addr(x.agent)
					ev := got[a]
					cc := con + " " + x.role
					s.ensureOut(o, "used if it has a feature map", cc, x.flag+" == "+fmt.Sprint(x.on))
					if !x.on {
						c.check("no agent without a feature map", cc, ev == nil, s.fn.Pos(), "the agent is made without a feature map")
						continue
					}
					n++
					if !c.check("agent is made", cc, ev != nil, o.pos, "%s is not made", x.agent) {
						continue
					}
					fm, _ := s.addr(x.fm)
					role, _, _ := c.pkgConst(e, "qlearn", x.role)
					c.check("its feature map", cc, ev.args[1] == fm, ev.pos, "it uses the features of %s", ev.args[1])
					c.check("its role", cc, ev.args[2] == role, ev.pos, "it is made as %s", ev.args[2])
					c.check("its settings", cc, ev.args[3] == s.old(x.pre+"EpsilonStart") && ev.args[4] == s.old(x.pre+"EpsilonDecay") && ev.args[5] == s.old(x.pre+"EpsilonUnleash") && ev.args[6] == s.old("p.RandSeed"), ev.pos, "it is made with %v", ev.args[3:])
				}
				c.check("one agent each", con, len(got) == n, o.pos, "%d agents are made", len(got))
			}
		}
	}
}

func (s *Sc) obj(i int, kind int64, field string, elem string, vals []*Term) {
	s.objOf("fm.Features", i, kind, field, elem, vals)
}

func (s *Sc) objOf(list string, i int, kind int64, field string, elem string, vals []*Term) {
	p := fmt.Sprintf("%s[%d].", list, i)
	s.setBool(p+"Buckets", true)
	s.setInt(p+"ReflectType", kind)
	var ps []*Term
	for _, v := range vals {
		ps = append(ps, s.e.u.Elem(v))
	}
	s.set(p+field, s.e.u.Seq(ps...))
}

var featureKinds = []struct {
	kind    int64
	field   string
	typ     string
	ordered bool
}{
	{1, "BoolValues", "bool", false},
	{24, "StringValues", "string", false},
	{6, "Int64Values", "int64", true},
	{14, "Float64Values", "float64", true},
}

func ruleStates(c *Ctx) {
	for _, k := range featureKinds {
		k := k
		con := "Obj.Index " + k.typ
		c.guarded(con, func() {
			for n := 1; n <= 4; n++ {
				e := c.engine()
				e.precise = true
				s := c.scOn(e, c.fn("featuremap.Obj.Index"), con, "o", "v")
				u := e.u
				s.setBool("o.Buckets", true)
				s.setInt("o.ReflectType", k.kind)
				row, vs := s.values("b", n)
				s.set("o."+k.field, row)
				v := u.Sym("v")
				s.give("v", u.Call("iface:"+k.typ, v))
				if k.ordered {
					for i := 1; i < n; i++ {
						s.pre.setFact(u.LT(u.Sub(vs[i-1], vs[i]), k.typ == "int64"), true)
					}
				} else {
					for i := range vs {
						for j := 0; j < i; j++ {
							s.pre.setFact(u.EQ(vs[i], vs[j]), false)
						}
					}
				}
				seen := map[int64]bool{}
				for _, o := range s.returns() {
					if e.infeasible(o.st.facts) {
						continue
					}
					all := append([]*Term{v}, vs...)
					ord := newOrder(u, o.st.facts, all)
					if k.ordered && ord.contradictory() {
						continue
					}
					r := o.ret[0]
					if !isNum(r) || !r.rat.IsInt() {
						c.note("the index of a feature is not a number here: %s", r)
						continue
					}
					i := r.rat.Num().Int64()
					seen[i] = true
					ok := i >= -1 && i < int64(n)
					if ok && k.ordered {
						if i >= 0 {
							ok = ord.atLeast(vs[i], v) && (i == 0 || ord.above(v, vs[i-1]))
						} else {
							ok = ord.above(v, vs[n-1])
						}
					} else if ok {
						for j, x := range vs {
							d := u.decide(o.st, u.EQ(v, x))
							if int64(j) == i {
								ok = ok && d == 1
							} else if i < 0 {
								ok = ok && d == 0
							}
						}
					}
					rule := "the bucket of the value"
					if !k.ordered {
						rule = "the place of the value"
					}
					c.check(rule, con, ok, o.pos, "with %d values the index %d is returned when %s", n, i, factsString(o.st.facts))
				}
			}
		})
		c.guarded("Obj.Size "+k.typ, func() {
			s := c.sc("featuremap.Obj.Size", "o")
			s.setBool("o.Buckets", true)
			s.setInt("o.ReflectType", k.kind)
			s.ensure("number of values", "Obj.Size "+k.typ, "ret == len(o."+k.field+")")
			s = c.sc("featuremap.Obj.Value", "o", "i")
			s.setBool("o.Buckets", true)
			s.setInt("o.ReflectType", k.kind)
			for _, o := range s.returns() {
				c.check("value of the index", "Obj.Value "+k.typ, s.e.strip(o.ret[0]) == s.term(o, "o."+k.field+"[i]"), o.pos, "it returns %s", o.ret[0])
			}
		})
	}
	c.guarded("states", func() {
		shapes := [][]int{{1}, {3}, {2, 3}, {3, 1}, {2, 2, 2}, {2, 1, 3}, {3, 2, 2}}
		if c.tier == "thorough" {
			shapes = append(shapes, []int{12}, []int{4, 3}, []int{3, 4}, []int{1, 1, 1, 1}, []int{2, 1, 2, 3}, []int{2, 3, 2})
		}
		for _, sh := range shapes {
			c.shapeOf(sh)
			c.fileWeights(sh)
		}
	})
}

// fileWeights: the weights of the file features number the combinations of
// their buckets, whatever other features there are.
func (c *Ctx) fileWeights(sh []int) {
	wf := c.fn("featuremap.FeatureManager.makeFileFeatureIdxWeights")
	e := c.engine()
	e.precise = true
	e.unrollMax = 40
	s := c.scOn(e, wf, "makeFileFeatureIdxWeights", "fm")
	u := e.u
	s.set("fm.FileFeatures", u.Call("make", u.Sym("&fileFeatures"), u.Int(int64(len(sh)))))
	for i, n := range sh {
		k := featureKinds[(i+n)%4]
		_, vs := s.values(fmt.Sprintf("b%d_", i), n)
		s.objOf("fm.FileFeatures", i, k.kind, k.field, k.typ, vs)
	}
	con := fmt.Sprintf("file features %v", sh)
	outs := s.returns()
	wa, _ := s.addr("fm.FileFeatureIdxWeights")
	for _, o := range outs {
		w := e.readAt(o.st, wa)
		total := int64(1)
		for i := len(sh) - 1; i >= 0; i-- {
			x := e.elem(o.st, w, u.Int(int64(i)), types.Typ[types.Int])
			if !isNum(x) {
				c.note("the weight %d of the %s is not decided: %s", i, con, x)
				break
			}
			c.check("weight of a file feature", "makeFileFeatureIdxWeights", x.rat.Cmp(new(big.Rat).SetInt64(total)) == 0, wf.Pos(), "with the sizes %v the weight of file feature %d is %s, not %d", sh, i, x, total)
			total *= int64(sh[i])
		}
	}
	c.check("weight of a file feature", con, len(outs) > 0, wf.Pos(), "no weights are made")
}

// note records something that was not decided.
func (c *Ctx) note(format string, a ...interface{}) {
	n := fmt.Sprintf(format, a...)
	for _, x := range c.notes {
		if x == n {
			return
		}
	}
	c.notes = append(c.notes, n)
}

// shapeOf walks the enumeration of the states for features with the given
// numbers of values.
func (c *Ctx) shapeOf(sh []int) {
	e := c.engine()
	e.precise = true
	e.unrollMax = 40
	s := c.scOn(e, c.fn("qlearn.QTable.Init"), "QTable.Init", "t", "fm", "acts", "seed")
	u := e.u
	feats := u.Call("make", u.Sym("&features"), u.Int(int64(len(sh))))
	s.set("fm.Features", feats)
	for i, n := range sh {
		k := featureKinds[(i+n)%4]
		_, vs := s.values(fmt.Sprintf("b%d_", i), n)
		s.obj(i, k.kind, k.field, k.typ, vs)
	}
	acts, as := s.values("act", 3)
	for i := range as {
		as[i] = u.Int(int64(i - 7))
		acts.args[i] = u.Elem(as[i])
	}
	acts = u.Seq(u.Elem(as[0]), u.Elem(as[1]), u.Elem(as[2]))
	s.give("acts", acts)

	// the weights of this shape
	wf := c.fn("featuremap.FeatureManager.makeFeatureIdxWeights")
	var weights []*Term
	ws := e.Run(wf, []*Term{s.arg("fm")}, s.pre.fork())
	con := fmt.Sprintf("features %v", sh)
	if len(ws) != 1 || ws[0].kind != "return" {
		c.note("the weights of the shape %v are not decided", sh)
		return
	}
	wa, _ := s.addr("fm.FeatureIdxWeights")
	w := e.readAt(ws[0].st, wa)
	total := int64(1)
	for i := len(sh) - 1; i >= 0; i-- {
		x := e.elem(ws[0].st, w, u.Int(int64(i)), types.Typ[types.Int])
		weights = append([]*Term{x}, weights...)
		if !isNum(x) {
			c.note("the weight %d of the shape %v is not decided: %s", i, sh, x)
			return
		}
		c.check("weight of a feature", "makeFeatureIdxWeights", x.rat.Cmp(new(big.Rat).SetInt64(total)) == 0, wf.Pos(), "with the sizes %v the weight of feature %d is %s, not %d", sh, i, x, total)
		total *= int64(sh[i])
	}
	s.pre = ws[0].st
	s.args[1] = s.arg("fm")
	outs := s.returns()
	if len(outs) != 1 {
		c.note("the enumeration of the shape %v has %d results", sh, len(outs))
		return
	}
	o := outs[0]
	states, actions := s.term(o, "t.States"), s.term(o, "t.Actions")
	ns, na := u.Len(states), u.Len(actions)
	if !isNum(ns) || !isNum(na) || states.op != OSeq || !allElems(states) {
		c.note("the number of states of the shape %v is not decided: %s", sh, ns)
		return
	}
	pos := s.fn.Pos()
	c.check("one state per combination", con, ns.rat.Cmp(new(big.Rat).SetInt64(total)) == 0, pos, "%s states instead of %d", ns, total)
	c.check("one row of values per state", con, ns == na, pos, "%s rows for %s states", na, ns)
	c.check("action positions", "QTable.Init", s.actionPositions(o, acts), pos, "the positions of the actions differ from their list")
	index := c.fn("qlearn.QTable.FeatureIdxs2StateIdx")
	seen := map[string]bool{}
	for i, p := range states.args {
		row := p.args[0]
		var digits []*Term
		key := ""
		okRange := true
		for j := range sh {
			d := e.elem(o.st, row, u.Int(int64(j)), types.Typ[types.Int])
			if !isNum(d) {
				c.note("state %d of the shape %v is not decided", i, sh)
				return
			}
			okRange = okRange && d.rat.Sign() >= 0 && d.rat.Cmp(new(big.Rat).SetInt64(int64(sh[j]))) < 0
			digits = append(digits, u.Elem(d))
			key += d.String() + ","
		}
		c.check("states are distinct combinations", con, okRange && !seen[key] && isZero(u.Sub(u.Len(row), u.Int(int64(len(sh))))), pos, "state %d is %s again, or out of range", i, key)
		seen[key] = true
		tab := e.load(o.st, s.arg("t"), deref(index.Params[0].Type()))
		rs := e.Run(index, []*Term{tab, u.Seq(digits...)}, o.st.fork())
		for _, r := range rs {
			if r.kind != "return" || len(r.ret) != 1 {
				continue
			}
			c.check("index of a state is its place", con, isZero(u.Sub(r.ret[0], u.Int(int64(i)))), index.Pos(), "the combination %s is state %d but has the index %s", key, i, r.ret[0])
		}
		arow := e.elemAt(actions, u.Int(int64(i)))
		if arow != nil {
			ok := u.Len(arow) == u.Int(3)
			for j := int64(0); j < 3 && ok; j++ {
				ok = isZero(e.elem(o.st, arow, u.Int(j), types.Typ[types.Float64]))
			}
			c.check("values start at zero", con, ok, pos, "the values of state %d do not start as a zero for each action", i)
			for j := 0; j < i; j++ {
				if e.elemAt(actions, u.Int(int64(j))) == arow {
					c.check("one row of values per state", con, false, pos, "states %d and %d share their values", i, j)
				}
			}
		}
	}
}

// actionPositions: position and action list agree with the given actions.
func (s *Sc) actionPositions(o Out, acts *Term) bool {
	e, u := s.e, s.e.u
	list := s.term(o, "t.ActionTypes")
	if u.Len(list) != u.Int(int64(len(acts.args))) {
		return false
	}
	m := s.term(o, "t.ActionTypeIdxs")
	_, mt := s.addr("t.ActionTypeIdxs")
	_, lt := s.addr("t.ActionTypes")
	for i, p := range acts.args {
		if e.elem(o.st, list, u.Int(int64(i)), lt.Underlying().(*types.Slice).Elem()) != p.args[0] {
			return false
		}
		at, in, _ := e.mapAddr(m, p.args[0], mt)
		if e.presence(o.st, in) != u.Bool(true) || !isZero(u.Sub(e.readAt(o.st, at), u.Int(int64(i)))) {
			return false
		}
	}
	return true
}
