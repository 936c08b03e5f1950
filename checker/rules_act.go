package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R03", 30, "the state of every order of the features, and the provenance of the chosen action on every path of the two places that decide", ruleDecisions)
}

// agentWork are the functions of the learning cache that are analysed on
// their own, so that the policies can be followed around them.
func (c *Ctx) agentWork() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, n := range []string{
		"cache.AIRL.getState4AdditionAgent", "cache.AIRL.delayedRewardAdditionAgent", "cache.AIRL.delayedRewardEvictionAgent",
		"cache.AIRL.punishEvictionAgentOnForcedCall", "cache.AIRL.callEvictionAgent", "cache.AIRL.rewardEvictionAfterForcedCall",
		"qlearn.Agent.GetBestAction", "qlearn.Agent.SaveMemory", "qlearn.Agent.SaveMemoryWithNoLimits", "qlearn.Agent.UpdateTable", "qlearn.Agent.UpdateEpsilon",
		"qlearn.QTable.FeatureIdxs2StateIdx",
		"cache.CategoryManager.GetFileCategory", "cache.CategoryManager.AddOrUpdateCategoryFile", "cache.CategoryManager.deleteFileFromCategory",
		"cache.CategoryManager.GetStateFromCategories",
		"cache.SimpleCache.Free", "cache.SimpleCache.HitRate", "cache.SimpleCache.toLogBuffer", "featuremap.Obj.Index",
		"files.Manager.Get", "files.Manager.AddDeletedFileMiss", "files.Manager.ClearDeletedFileMiss",
	} {
		r[c.fn(n)] = true
	}
	return r
}

func (c *Ctx) opaqueWork() func(*ssa.Function) bool {
	m := c.agentWork()
	return func(f *ssa.Function) bool { return m[f] }
}

// called are the events of calls of the named function, in order.
func (c *Ctx) called(list []*Event, name string) []*Event {
	n := fnName(c.fn(name))
	var r []*Event
	for _, ev := range list {
		if ev.kind == "fn" && ev.name == n {
			r = append(r, ev)
		}
	}
	return r
}

// isCallOf: the term is a result of the named function without side effects.
func (c *Ctx) isCallOf(t *Term, name string) bool {
	return t != nil && t.op == OCall && t.s == "fn:"+fnName(c.fn(name))+"#0"
}

func ruleDecisions(c *Ctx) {
	c.guarded("getState4AdditionAgent", func() { c.additionState() })
	for _, rl := range []string{"SCDL", "SCDL2"} {
		for _, evc := range []bool{false, true} {
			for _, hit := range []bool{false, true} {
				c.guarded("AIRL.UpdatePolicy", func() { c.additionDecision(rl, evc, hit) })
			}
		}
	}
	c.guarded("GetStateFromCategories", func() { c.evictionDecision() })
	c.guarded("callers", func() {
		for _, m := range []struct {
			fn    string
			fresh bool
		}{{"callEvictionAgent", true}, {"punishEvictionAgentOnForcedCall", false}, {"rewardEvictionAfterForcedCall", false}} {
			e := c.engine()
			e.opaque = c.opaqueWork()
			s := c.scOn(e, c.fn("cache.AIRL."+m.fn), m.fn, "c", "x")
			if m.fn == "punishEvictionAgentOnForcedCall" {
				continue
			}
			n := 0
			for _, o := range s.returns() {
				for _, ev := range c.called(o.st.events, "cache.CategoryManager.GetStateFromCategories") {
					n++
					ok := ev.args[1] == e.u.Bool(m.fresh) && fromAgent(ev.args[2], "evictionAgent") && ev.args[3] == s.old("c.Capacity()") && c.isHitRate(ev.args[4], s.arg("c")) && ev.args[5] == s.old("c.MaxSize")
					c.check("state of the cache", "AIRL."+m.fn, ok, ev.pos, "the categories are asked with %v", ev.args[1:])
				}
			}
			c.check("state of the cache", "AIRL."+m.fn, n > 0, s.fn.Pos(), "the categories are not asked")
		}
	})
}

// fromAgent: the value of an agent (or its address) is that of the cache.
func fromAgent(t *Term, field string) bool {
	if t.op == OStruct {
		if len(t.args) == 0 {
			return false
		}
		for _, a := range t.args {
			if a.op == OConst || a.op == OSeq && len(a.args) == 0 {
				continue
			}
			if !fromAgent(a, field) {
				return false
			}
		}
		return true
	}
	return contains(t, func(x *Term) bool { return x.op == OField && x.s == "cache.AIRL."+field })
}

var additionFeatures = map[string]string{"hit": "hit", "size": "st.Size", "numReq": "st.Frequency", "deltaLastRequest": "st.DeltaLastRequest", "percOcc": "c.Capacity()"}

func (c *Ctx) additionState() {
	con := "getState4AdditionAgent"
	var all []string
	for _, n := range []string{"deltaLastRequest", "hit", "hitRate", "numReq", "percOcc", "size"} {
		all = append(all, n)
	}
	lists := [][]string{all, {"size"}, {"numReq", "size"}, {"percOcc", "hit"}}
	for i := 1; i < len(all); i++ {
		lists = append(lists, append(append([]string{}, all[i:]...), all[:i]...))
	}
	work := c.opaqueWork()
	for _, names := range lists {
		e := c.engine()
		e.precise = true
		e.unrollMax = 12
		fn := c.fn("cache.AIRL.getState4AdditionAgent")
		e.opaque = func(f *ssa.Function) bool { return f != fn && work(f) }
		s := c.scOn(e, fn, con, "c", "hit", "st")
		s.featureList("c.additionFeatureManager.Features", names)
		n := 0
		for _, o := range s.returns() {
			n++
			got := o.ret[0]
			ok := c.isCallOf(got, "qlearn.QTable.FeatureIdxs2StateIdx") && len(got.args) >= 2 && fromAgent(got.args[0], "additionAgent")
			if ok {
				ok = c.bucketsAre(s, got.args[1], names, additionFeatures)
			}
			c.check("state of the request", con+" "+strings.Join(names, ","), ok, o.pos, "the state is %s", got)
		}
		c.check("state of the request", con+" "+strings.Join(names, ","), n > 0, fn.Pos(), "no path returns")
	}
}

// bucketsAre: the list holds the bucket of each feature, in order.
func (c *Ctx) bucketsAre(s *Sc, list *Term, names []string, want map[string]string) bool {
	if list.op != OSeq || !allElems(list) || len(list.args) != len(names) {
		return false
	}
	for i, a := range list.args {
		f, v, ok := c.bucketOf(s.e, a.args[0])
		if !ok || f != names[i] {
			return false
		}
		if f == "hitRate" {
			ok = c.isHitRate(s.e.strip(v), s.arg("c"))
		} else {
			ok = s.e.strip(v) == s.old(want[f])
		}
		if !ok {
			return false
		}
	}
	return true
}

// isHitRate: the hit rate of the cache at p.
func (c *Ctx) isHitRate(t, p *Term) bool {
	return c.isCallOf(t, "cache.SimpleCache.HitRate") && rootedAt(t.args[0], p)
}

func isRandom(ev *Event) bool { return ev.kind == "call" && ev.name == "(*math/rand.Rand).Float64" }

// chosen checks how an action of a path was chosen: the best one of the state
// if the random number is above the rate, else a random one of the list.
func (c *Ctx) chosen(con string, e *Engine, st *State, list []*Event, act, state, eps, actions *Term, fromRole func(*Term) bool, o Out) {
	u := e.u
	var rs []*Event
	for _, ev := range list {
		if isRandom(ev) {
			rs = append(rs, ev)
		}
	}
	best := c.called(list, "qlearn.Agent.GetBestAction")
	if !c.check("one draw decides", con, len(rs) >= 1, o.pos, "no random number is drawn") {
		return
	}
	above := -1
	for f, v := range st.facts {
		if f.op != OLT || !contains(f, func(x *Term) bool { return x == rs[0].ret }) {
			continue
		}
		var x *Term
		contains(f, func(t *Term) bool {
			if untag(t) == untag(eps) && t != untag(t) {
				x = t
			}
			return x != nil
		})
		if x != nil && f == u.LT(u.Sub(x, rs[0].ret), false) {
			above = b2i(v)
		} else if x != nil && f == u.LT(u.Sub(rs[0].ret, x), false) && v {
			above = 0
		}
	}
	switch {
	case len(best) == 1 && len(rs) == 1:
		c.check("exploits above the rate", con, above == 1, best[0].pos, "the best action is taken although the draw is not above the rate")
		c.check("best action of the state", con, act == best[0].ret && best[0].args[1] == state && fromRole(best[0].args[0]), best[0].pos, "action %s for state %s of %s", act, best[0].args[1], best[0].args[0])
	case len(best) == 0 && len(rs) == 2:
		c.check("explores up to the rate", con, above == 0, rs[1].pos, "a random action is taken although the draw is above the rate")
		x := untag(act)
		ok := x.op == OIndex && untag(x.args[0]) == untag(actions) && isFloorOf(x.args[1], u.Mul(rs[1].ret, u.Len(x.args[0])))
		c.check("any action", con, ok, rs[1].pos, "the random action is %s", act)
	default:
		c.check("one draw decides", con, false, o.pos, "%d draws and %d best actions on a path", len(rs), len(best))
	}
}

// isFloorOf: i is x cut to an integer.
func isFloorOf(i, x *Term) bool {
	return i.op == OCall && i.s == "trunc" && len(i.args) == 1 && i.args[0] == x
}

func (c *Ctx) additionDecision(rl string, evc, hit bool) {
	con := fmt.Sprintf("AIRL.UpdatePolicy %s", rl)
	e := c.engine()
	e.precise = true
	e.opaque = c.opaqueWork()
	e.keepEv = func(ev *Event) bool {
		return ev.kind == "fn" || isRandom(ev) || ev.name == "queue.Queue.insert" || ev.name == "queue.Queue.update"
	}
	s := c.scOn(e, c.fn("cache.AIRL.UpdatePolicy"), con, "c", "req", "st", "hit")
	u := e.u
	s.setBool("c.additionAgentOK", true)
	s.setBool("c.evictionAgentOK", evc)
	s.setNil("c.logFile")
	k, _, _ := c.pkgConst(e, "cache", rl)
	s.set("c.rlType", k)
	if evc {
		m, _, _ := c.pkgConst(e, "cache", "EvictionOnFree")
		s.set("c.evictionType", m)
	}
	s.give("hit", u.Bool(hit))
	no, _, _ := c.pkgConst(e, "qlearn", "ActionNotStore")
	yes, _, _ := c.pkgConst(e, "qlearn", "ActionStore")
	counter, _, _ := e.mapAddr(s.old("c.actionCounters"), u.Sym("a"), s.mapTypeOf("c.actionCounters"))
	paths, stored := 0, 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		paths++
		evts := o.st.events
		n1, n2 := c.called(evts, "qlearn.Agent.SaveMemory"), c.called(evts, "qlearn.Agent.SaveMemoryWithNoLimits")
		saves := append(append([]*Event{}, n1...), n2...)
		ins := countEv(evts, "invoke", "queue.Queue.insert")
		if hit {
			c.check("decides on misses only", con, len(saves) == 0 && ins == 0 && o.ret[0] == u.Bool(false), o.pos, "a hit is decided on")
			for a := range o.st.mem.ents {
				c.check("decides on misses only", con, classOf(a) != classOf(counter), o.pos, "a hit counts as a decision")
			}
			continue
		}
		if !c.check("one choice is remembered", con, len(saves) == 1 && (rl == "SCDL") == (len(n1) == 1), o.pos, "%d and %d choices are remembered", len(n1), len(n2)) {
			continue
		}
		sv := saves[0]
		state, act := c.structField(sv.args[2], "qlearn.Choice", "State"), c.structField(sv.args[2], "qlearn.Choice", "Action")
		if !c.check("one choice is remembered", con, state != nil && act != nil && fromAgent(sv.args[0], "additionAgent") && e.strip(sv.args[1]) == s.old("req.Filename"), sv.pos, "%v is remembered", sv.args) {
			continue
		}
		// the state is the one computed for this request
		var st *Event
		for _, ev := range c.called(evts, "cache.AIRL.getState4AdditionAgent") {
			if ev.ret == state {
				st = ev
			}
		}
		if c.check("state of the request", con, st != nil, sv.pos, "the remembered state is %s", state) {
			c.check("state of the request", con, st.args[0] == s.arg("c") && st.args[1] == u.Bool(hit) && st.args[2] == s.arg("st"), st.pos, "the state is computed for %v", st.args)
		}
		for f, want := range map[string]string{"Tick": "c.tick", "DeltaT": "st.DeltaLastRequest", "Capacity": "c.Capacity()", "Size": "req.Size", "Frequency": "st.Frequency"} {
			v := c.structField(sv.args[2], "qlearn.Choice", f)
			c.check("what is remembered", con+" "+f, v == s.old(want), sv.pos, "%s is %s", f, v)
		}
		c.check("what is remembered", con+" Hit", c.structField(sv.args[2], "qlearn.Choice", "Hit") == u.Bool(hit), sv.pos, "a miss is remembered as a hit")
		eps := s.old("c.additionAgent.Epsilon")
		acts := s.old("c.additionAgent.QTable.ActionTypes")
		c.chosen(con, e, o.st, evts, act, state, eps, acts, func(t *Term) bool { return fromAgent(t, "additionAgent") }, o)
		// the decision is carried out
		isNo, isYes := u.decide(o.st, u.EQ(act, no)), u.decide(o.st, u.EQ(act, yes))
		c.check("stores only on a decision to store", con, ins == 0 || isYes == 1 && isNo != 1, o.pos, "a file is stored without a decision")
		if isNo == 1 || isYes != 1 {
			c.check("stores only on a decision to store", con, ins == 0 && o.ret[0] == u.Bool(false), o.pos, "a skipped file is reported as %s", o.ret[0])
		}
		if isYes == 1 && ins == 0 {
			ok, _ := s.holds(o, "c.Size() + req.Size > c.GetMaxSize()")
			c.check("a decision to store is carried out", con, ok, o.pos, "a file that fits is not stored")
		}
		stored += ins
		// and counted
		if len(c.called(evts, "cache.AIRL.callEvictionAgent")) == 0 {
			counts := 0
			for a, v := range o.st.mem.ents {
				if a.op != OMapAt || classOf(a) != classOf(counter) {
					continue
				}
				counts++
				c.check("the decision is counted", con, a.args[1] == act && isOne(u, u.Sub(v, e.u.read(s.pre, a))), o.pos, "the counter of %s becomes %s", a.args[1], v)
			}
			c.check("the decision is counted", con, counts == 1, o.pos, "%d counters change", counts)
		}
	}
	c.check("paths", con, paths > 0 && (hit || stored > 0), s.fn.Pos(), "%d paths store %d files", paths, stored)
}

var evictionFeatures = []string{"catDeltaLastRequest", "catNumReq", "catPercOcc", "catSize", "hitRate", "percOcc"}

func (c *Ctx) evictionDecision() {
	lists := [][]string{{"catSize"}, {"percOcc", "catNumReq"}}
	for i := range evictionFeatures {
		lists = append(lists, append(append([]string{}, evictionFeatures[i:]...), evictionFeatures[:i]...))
	}
	for _, names := range lists {
		c.guarded("GetStateFromCategories", func() { c.evictionStates(names) })
	}
}

func (c *Ctx) evictionStates(names []string) {
	con := "GetStateFromCategories"
	work := c.opaqueWork()
	fn := c.fn("cache.CategoryManager.GetStateFromCategories")
	e := c.engine()
	e.precise = true
	e.unrollMax = 12
	e.opaque = func(f *ssa.Function) bool { return f != fn && work(f) }
	s := c.scOn(e, fn, con, "m", "fresh", "agent", "capacity", "hitRate", "maxSize")
	u := e.u
	s.give("fresh", u.Bool(true))
	s.featureList("m.features", names)
	runs := 0
	for _, o := range s.returns() {
		gos := evs(o.st.events, "go", "")
		if !c.check("one producer", con, len(gos) == 1 && goTarget(gos[0]) != nil, fn.Pos(), "%d producers", len(gos)) {
			continue
		}
		cl := goTarget(gos[0])
		for _, g := range e.exec(cl.fn, goArgs(gos[0]), cl.args, o.st.fork(), "go", nil, nil) {
			if g.kind != "return" {
				continue
			}
			for _, ev := range g.st.events {
				if ev.kind != "loop" || len(evs(each1(ev.loop), "send", "")) == 0 {
					continue
				}
				for _, it := range ev.loop.iters {
					runs++
					c.categoryState(s, con, names, o, ev.loop, it)
				}
			}
		}
	}
	c.check("one state per category", con, runs > 0, fn.Pos(), "no state is sent")
}

func (c *Ctx) categoryState(s *Sc, con string, names []string, o Out, l *LoopInfo, it *IterOut) {
	e, u := s.e, s.e.u
	sends := evs(it.events, "send", "")
	if !c.check("one state per category", con, len(sends) == 1 && sends[0].recv == o.ret[0], l.pos, "%d states are sent", len(sends)) {
		return
	}
	v := sends[0].args[0]
	f := func(n string) *Term { return c.structField(v, "cache.CatState", n) }
	idx, cat, act := f("Idx"), f("Category"), f("Action")
	if !c.check("one state per category", con, idx != nil, sends[0].pos, "%s is sent", v) {
		return
	}
	cc := con + " " + strings.Join(names, ",")
	// every category once
	at := untag(cat)
	keys := s.old("m.categoryFileListMap")
	_, _, cnt := e.mapAddr(keys, cat, s.mapTypeOf("m.categoryFileListMap"))
	n := u.Init(cnt)
	each := at != nil && at.op == OIndex && at.args[1] == l.k && at.args[0].op == OMapSeq && at.args[0].args[0] == n && at.args[0].args[1].op == OCall && at.args[0].args[1].s == "rkey" && at.args[0].args[1].args[0] == keys && l.trip == n ||
		at != nil && at.op == OCall && at.s == "rkey" && at.args[0] == keys && l.trip == n
	c.check("one state per category", con, each, sends[0].pos, "the states are those of %s, %s times", cat, l.trip)
	in := func(path string, k *Term) *Term {
		a, _, _ := e.mapAddr(s.old(path), k, s.mapTypeOf(path))
		return a
	}
	c.check("files of the category", con, untag(f("Files")) == in("m.categoryFileListMap", cat), sends[0].pos, "the files are %s", f("Files"))
	// the state
	ok := c.isCallOf(idx, "qlearn.QTable.FeatureIdxs2StateIdx") && idx.args[1].op == OSeq && allElems(idx.args[1]) && len(idx.args[1].args) == len(names)
	if c.check("state of the category", cc, ok && rootedAt(idx.args[0], s.arg("agent")), sends[0].pos, "the state is %s", idx) {
		for i, a := range idx.args[1].args {
			x := a.args[0]
			good := false
			switch names[i] {
			case "catPercOcc", "percOcc", "hitRate":
				want := s.arg("capacity")
				if names[i] == "hitRate" {
					want = s.arg("hitRate")
				}
				fe, v, isB := c.bucketOf(e, x)
				if names[i] == "catPercOcc" {
					size := u.Init(in("m.categorySizesMap", cat))
					good = isB && fe == names[i] && isZero(u.Sub(e.strip(v), u.Scale(u.Div(size, s.arg("maxSize")), big.NewRat(100, 1))))
				} else {
					good = isB && fe == names[i] && e.strip(v) == want
				}
			default:
				y := untag(x)
				good = y != nil && y.op == OIndex && untag(y.args[0]) == in("m.categoryFileFeatureIdx", cat) && untag(y.args[1]) == in("m.fileFeatureIdxMap", u.Str(names[i]))
			}
			c.check("state of the category", cc, good, sends[0].pos, "%s is %s", names[i], x)
		}
	}
	c.chosen(con, e, &State{facts: it.facts}, it.events, act, idx, s.old("agent.Epsilon"), s.old("agent.QTable.ActionTypes"), func(t *Term) bool { return rootedAt(t, s.arg("agent")) }, o)
	kept := 0
	for a, w := range it.writes {
		if a.op == OMapAt && a.args[1] == idx && w == v {
			kept++
		}
	}
	c.check("last decisions are kept", con, kept == 1, sends[0].pos, "the decision is not kept")
}

// untag is the address a value was read from.
func untag(t *Term) *Term {
	for t != nil {
		switch {
		case t.op == OInit:
			t = t.args[0]
		case t.op == OCall && t.s == "@" && len(t.args) == 2:
			t = t.args[1]
		default:
			return t
		}
	}
	return nil
}

// rootedAt: every known part of the value is read from p.
func rootedAt(t, p *Term) bool {
	if t == p {
		return true
	}
	if t.op == OStruct {
		for _, a := range t.args {
			if a.op == OConst || a.op == OSeq && len(a.args) == 0 {
				continue
			}
			if !rootedAt(a, p) {
				return false
			}
		}
		return true
	}
	return contains(t, func(x *Term) bool { return x == p })
}
