package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R07", 20, "every path of the policies on which the eviction agent, the plain eviction, a punishment or a reward can be called, for each mode", ruleTriggers)
}

var evictionModes = []string{"EvictionOnK", "EvictionOnDayEnd", "EvictionOnFree"}

func ruleTriggers(c *Ctx) {
	for _, mode := range append([]string{""}, evictionModes...) {
		mode := mode
		for _, add := range []bool{false, true} {
			for _, hit := range []bool{false, true} {
				c.guarded("AIRL.UpdatePolicy", func() { c.spaceFor(mode, add, hit) })
			}
		}
		c.guarded("AIRL.AfterRequest", func() { c.afterMode(mode) })
		c.guarded("AIRL.ClearStats", func() { c.clearMode(mode) })
	}
}

// modeScenario starts a method of the learning cache with an eviction agent
// that works in the mode, or none.
func (c *Ctx) modeScenario(fn, mode string, args ...string) *Sc {
	e := c.engine()
	e.precise = true
	work := c.opaqueWork()
	base := map[*ssa.Function]bool{}
	for _, n := range []string{"cache.SimpleCache.AfterRequest", "cache.SimpleCache.ClearStats"} {
		base[c.fn(n)] = true
	}
	e.opaque = func(f *ssa.Function) bool { return base[f] || work(f) }
	e.keepEv = func(ev *Event) bool {
		return ev.kind == "fn" || isRandom(ev) || ev.name == "queue.Queue.insert" || ev.name == "queue.Queue.update"
	}
	s := c.scOn(e, c.fn("cache.AIRL."+fn), "AIRL."+fn, args...)
	s.setNil("c.logFile")
	s.setBool("c.evictionAgentOK", mode != "")
	if mode != "" {
		m, _, _ := c.pkgConst(e, "cache", mode)
		s.set("c.evictionType", m)
	}
	k, _, _ := c.pkgConst(e, "cache", "SCDL2")
	s.set("c.rlType", k)
	return s
}

func (c *Ctx) spaceFor(mode string, add, hit bool) {
	s := c.modeScenario("UpdatePolicy", mode, "c", "req", "st", "hit")
	e, u := s.e, s.e.u
	con := "AIRL.UpdatePolicy " + mode
	if add {
		con += " with an addition agent"
	}
	s.setBool("c.additionAgentOK", add)
	s.give("hit", u.Bool(hit))
	yes, _, _ := c.pkgConst(e, "qlearn", "ActionStore")
	full := s.old("c.Size() + req.Size > c.MaxSize")
	made := 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		ev := o.st.events
		calls, frees := c.called(ev, "cache.AIRL.callEvictionAgent"), c.called(ev, "cache.SimpleCache.Free")
		punish, reward := c.called(ev, "cache.AIRL.punishEvictionAgentOnForcedCall"), c.called(ev, "cache.AIRL.rewardEvictionAfterForcedCall")
		ins := countEv(ev, "invoke", "queue.Queue.insert")
		is := u.decide(o.st, full)
		store := !hit
		if add && !hit {
			saves := append(c.called(ev, "qlearn.Agent.SaveMemory"), c.called(ev, "qlearn.Agent.SaveMemoryWithNoLimits")...)
			store = false
			for _, sv := range saves {
				act := c.structField(sv.args[2], "qlearn.Choice", "Action")
				store = store || act != nil && u.decide(o.st, u.EQ(act, yes)) == 1
			}
		}
		at := func(x *Event) int {
			for i, y := range ev {
				if x == y {
					return i
				}
			}
			return -1
		}
		if !store || is == 0 {
			c.check("nothing is evicted without need", con, len(calls)+len(frees)+len(punish)+len(reward) == 0, o.pos, "%d calls of the agent, %d evictions, %d punishments, %d rewards although no space is needed", len(calls), len(frees), len(punish), len(reward))
			continue
		}
		if !c.check("space is made when needed", con, is == 1, o.pos, "a file is stored without a look at the space left") {
			continue
		}
		made++
		if mode == "" {
			ok := len(calls)+len(punish)+len(reward) == 0 && len(frees) == 1 && frees[0].args[1] == s.old("req.Size") && frees[0].args[2] == u.Bool(false) && rootedAt(frees[0].args[0], s.arg("c"))
			c.check("space is made when needed", con, ok, o.pos, "%d calls of the agent and %d evictions of a cache without eviction agent", len(calls), len(frees))
			continue
		}
		if !c.check("space is made when needed", con, len(calls) == 1 && len(frees) == 0, o.pos, "%d calls of the agent and %d plain evictions for one file to be stored", len(calls), len(frees)) {
			continue
		}
		forced := 1
		if mode == "EvictionOnFree" {
			forced = 0
		}
		c.check("a forced call is punished", con, len(punish) == forced && (forced == 0 || at(punish[0]) < at(calls[0])), o.pos, "%d punishments", len(punish))
		c.check("the outcome is rewarded", con, len(reward) == 1 && u.decide(o.st, reward[0].args[1]) == b2i(ins > 0) && at(reward[0]) > at(calls[len(calls)-1]), o.pos, "%d rewards for a file that is added: %v", len(reward), ins > 0)
	}
	c.check("paths", con, hit || made > 0, s.fn.Pos(), "no path makes space")
}

func (c *Ctx) afterMode(mode string) {
	for _, add := range []bool{false, true} {
		s := c.modeScenario("AfterRequest", mode, "c", "req", "st", "hit", "added")
		e, u := s.e, s.e.u
		con := "AIRL.AfterRequest " + mode
		s.setBool("c.additionAgentOK", add)
		n := 0
		for _, o := range s.returns() {
			n++
			ev := o.st.events
			calls := c.called(ev, "cache.AIRL.callEvictionAgent")
			ra, re := c.called(ev, "cache.AIRL.delayedRewardAdditionAgent"), c.called(ev, "cache.AIRL.delayedRewardEvictionAgent")
			given := func(list []*Event, want bool) bool {
				if !want {
					return len(list) == 0
				}
				return len(list) == 1 && list[0].args[1] == s.old("req.Filename") && list[0].args[2] == s.arg("hit")
			}
			c.check("delayed rewards", con, given(ra, add) && given(re, mode != ""), o.pos, "%d rewards of the addition agent, %d of the eviction agent", len(ra), len(re))
			c.check("the request is accounted", con, len(c.called(ev, "cache.SimpleCache.AfterRequest")) == 1, o.pos, "the request is not accounted once")
			for _, b := range c.called(ev, "cache.SimpleCache.AfterRequest") {
				c.check("the request is accounted", con, b.args[1] == s.arg("req") && b.args[2] == s.arg("st") && b.args[3] == s.arg("hit") && b.args[4] == s.arg("added"), b.pos, "it is accounted as %v", b.args[1:])
			}
			if mode == "" {
				c.check("calls of the mode", con, len(calls) == 0, o.pos, "an agent that is not there is called")
				continue
			}
			if mode != "EvictionOnK" {
				c.check("calls of the mode", con, len(calls) == 0, o.pos, "the agent is called after a request")
			} else {
				due := u.decide(o.st, s.old("c.evictionAgentStep <= 0"))
				c.check("calls of the mode", con, due >= 0 && len(calls) == due, o.pos, "%d calls with the step at zero: %v", len(calls), due)
				// the call does not know the step
				want := "c.evictionAgentStep == old(c.evictionAgentStep) - 1"
				if due == 1 {
					want = "c.evictionAgentStep == old(c.evictionAgentK)"
				}
				ok, why := s.holds(o, want)
				c.check("step", con, ok, o.pos, "%s", why)
			}
			// the number of categories is sampled once
			sum, was := s.term(o, "c.sumNumDailyCategories"), s.old("c.sumNumDailyCategories")
			list, before := s.term(o, "c.numDailyCategories"), s.old("c.numDailyCategories")
			parts, isAdded := addedTo(u, e.strip(list), before)
			num := u.Sub(sum, was)
			c.check("categories are counted", con, isAdded && len(parts) == 1 && parts[0].op == OElem && parts[0].args[0] == num && !isZero(num), o.pos, "the numbers become %s and their sum changes by %s", list, num)
		}
		c.check("paths", con, n > 0, s.fn.Pos(), "no path returns")
	}
}

func (c *Ctx) clearMode(mode string) {
	s := c.modeScenario("ClearStats", mode, "c")
	con := "AIRL.ClearStats " + mode
	n := 0
	for _, o := range s.returns() {
		n++
		calls := c.called(o.st.events, "cache.AIRL.callEvictionAgent")
		want := 0
		if mode == "EvictionOnDayEnd" {
			want = 1
		}
		c.check("calls of the mode", con, len(calls) == want, o.pos, "%d calls at the end of a period", len(calls))
	}
	c.check("paths", con, n > 0, s.fn.Pos(), "no path returns")
}
