package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	registerProto("P38", 14, "the row, entry and value of every path of the table functions compared with the rule; indexes of one-hot states for fixed shapes", rulePrototypeTable)
	registerProto("P39", 12, "effect summaries of the prototype cache with the eviction loop as an invariant; order facts of every iteration", rulePrototypeCache)
	registerProto("P40", 8, "paths of one step of the training: order and arguments of the calls, action and reward passed on", rulePrototypeTraining)
}

// oneHots are all states of features with the given numbers of values.
func oneHots(sh []int) [][]int64 {
	out := [][]int64{nil}
	for _, n := range sh {
		var next [][]int64
		for _, p := range out {
			for i := 0; i < n; i++ {
				q := append([]int64{}, p...)
				for j := 0; j < n; j++ {
					q = append(q, int64(b2i(i == j)))
				}
				next = append(next, q)
			}
		}
		out = next
	}
	return out
}

func (u *U) row(xs []int64) *Term {
	var ps []*Term
	for _, x := range xs {
		ps = append(ps, u.Elem(u.Int(x)))
	}
	return u.Seq(ps...)
}

func rulePrototypeTable(c *Ctx) {
	index := c.fn("qtable.QTable.GetStateIdx")
	// the number of a state
	place := func(e *Engine, st *State, tab *Term, state []int64) *Term {
		rs := e.Run(index, []*Term{tab, e.u.row(state)}, st.fork())
		var t *Term
		for _, r := range rs {
			if r.kind == "return" && !e.infeasible(r.st.facts) {
				if t != nil && t != r.ret[0] {
					return nil
				}
				t = r.ret[0]
			}
		}
		return t
	}
	con := "GetStateIdx"
	c.guarded(con, func() {
		shapes := [][]int{{2}, {3}, {2, 2}, {2, 3}, {3, 2, 2}, {6}, {2, 2, 2, 2}}
		if c.tier == "thorough" {
			shapes = append(shapes, []int{6, 7}, []int{3, 3, 3}, []int{12})
		}
		for _, sh := range shapes {
			e := c.engine()
			e.unrollMax = 40
			s := c.scOn(e, index, con, "t", "state")
			seen := map[*Term]bool{}
			for _, h := range oneHots(sh) {
				i := place(e, s.pre, s.arg("t"), h)
				if i == nil || !isNum(i) {
					c.check("states have different numbers", con, false, index.Pos(), "the number of state %v is %v", h, i)
					continue
				}
				c.check("states have different numbers", con, !seen[i] && i.rat.Sign() >= 0 && i.rat.IsInt(), index.Pos(), "the number %s of state %v is that of another", i, h)
				seen[i] = true
			}
		}
	})

	sizes := []int{2, 3, 4}
	state := []int64{0, 1, 1, 0, 0}
	// a table with the actions act0, act1, ... and the row v0, v1, ... for a state
	setup := func(fn string, n int, args ...string) (s *Sc, acts, row, at *Term, vs []*Term) {
		e := c.engine()
		e.precise = true
		e.unrollMax = 40
		s = c.scOn(e, c.fn("qtable.QTable."+fn), fn, args...)
		u := e.u
		acts, as := s.values("act", n)
		for i := range as {
			for j := 0; j < i; j++ {
				s.pre.setFact(u.EQ(as[i], as[j]), false)
			}
		}
		s.set("t.actions", acts)
		at = place(e, s.pre, s.arg("t"), state)
		if at == nil {
			c.missing("the number of a state")
		}
		row, vs = s.values("v", n)
		_, mt := s.addr("t.states")
		a, in, _ := e.mapAddr(s.old("t.states"), at, mt)
		u.write(s.pre, a, row)
		u.write(s.pre, in, u.Bool(true))
		return
	}
	con = "GetBestAction"
	c.guarded(con, func() {
		for _, n := range sizes {
			s, acts, row, _, vs := setup(con, n, "t", "state")
			u := s.e.u
			s.give("state", u.row(state))
			outs := s.returns()
			c.check("returns", con, len(outs) > 0, s.fn.Pos(), "no path returns")
			for _, o := range outs {
				ord := newOrder(u, o.st.facts, vs)
				if s.e.infeasible(o.st.facts) || ord.contradictory() {
					continue
				}
				ok := false
				for i, a := range acts.args {
					ok = ok || a.args[0] == o.ret[0] && ord.maximal(vs[i], vs)
				}
				c.check("an action of highest value", con, ok, o.pos, "with %d actions and the values %s the action %s is returned when %s", n, row, o.ret[0], factsString(o.st.facts))
			}
			c.check("changes nothing", con, s.pure(), s.fn.Pos(), "the table is changed")
		}
	})
	con = "GetAction"
	c.guarded(con, func() {
		for _, n := range sizes {
			for k := 0; k < n; k++ {
				s, acts, _, at, vs := setup(con, n, "t", "st", "act")
				s.give("st", at)
				s.give("act", acts.args[k].args[0])
				for _, o := range s.returns() {
					c.check("value of the action", con, o.ret[0] == vs[k], o.pos, "the value of action %d of %d is %s", k, n, o.ret[0])
				}
				c.check("changes nothing", con, s.pure(), s.fn.Pos(), "the table is changed")
			}
		}
	})
	con = "Update"
	c.guarded(con, func() {
		for _, n := range sizes {
			for k := 0; k < n; k++ {
				s, acts, row, _, vs := setup(con, n, "t", "state", "act", "reward")
				e, u := s.e, s.e.u
				s.give("state", u.row(state))
				s.give("act", acts.args[k].args[0])
				at := u.Index(row, u.Int(int64(k)), "e:float64")
				outs := s.returns()
				c.check("returns", con, len(outs) > 0 && len(s.kind("panic")) == 0, s.fn.Pos(), "an update does not return")
				for _, o := range outs {
					if e.infeasible(o.st.facts) || newOrder(u, o.st.facts, vs).contradictory() {
						continue
					}
					for a, v := range o.st.mem.ents {
						if s.pre.mem.ents[a] == v || rootOf(a).op == OAlloc {
							continue
						}
						c.check("one entry changes", con, a == at, o.pos, "for action %d of %d, %s becomes %s", k, n, a, v)
					}
					v := e.readAt(o.st, at)
					ok := false
					cands := append([]*Term{}, vs...)
					contains(v, func(x *Term) bool {
						if x.op == OCall {
							cands = append(cands, x)
						}
						return false
					})
					for _, m := range cands {
						want := u.Add(vs[k], u.Mul(s.old("t.learningRate"), u.Sub(u.Add(s.arg("reward"), u.Mul(s.old("t.DecayRate"), m)), vs[k])))
						ok = ok || isZero(u.Sub(v, want)) && s.isMax(o, m, row, vs)
					}
					c.check("update rule", con, ok, o.pos, "the value of action %d of %d becomes %s when %s", k, n, v, factsString(o.st.facts))
				}
			}
		}
	})
	con = "GenCurState"
	c.guarded(con, func() {
		for _, sh := range [][]int{{1}, {3}, {2, 3}, {3, 1, 2}} {
			e := c.engine()
			e.precise = true
			e.unrollMax = 40
			s := c.scOn(e, c.fn("qtable.QTable.GenCurState"), con, "t", "args")
			u := e.u
			names, _ := s.values("name", len(sh))
			s.set("t.featureNames", names)
			vals, xs := s.values("x", len(sh))
			s.give("args", vals)
			var feats []*Term
			var bounds [][]*Term
			for i, n := range sh {
				b, bs := s.values(fmt.Sprintf("b%d_", i), n)
				feats = append(feats, u.Elem(b))
				bounds = append(bounds, bs)
			}
			s.set("t.features", u.Seq(feats...))
			outs := s.returns()
			c.check("returns", con, len(outs) > 0, s.fn.Pos(), "no path returns")
			for _, o := range outs {
				if e.infeasible(o.st.facts) {
					continue
				}
				k := int64(0)
				for i, bs := range bounds {
					ord := newOrder(u, o.st.facts, append([]*Term{xs[i]}, bs...))
					hot, hots := -1, 0
					for j := range bs {
						d := e.elem(o.st, o.ret[0], u.Int(k), types.Typ[types.Float64])
						k++
						if isOne(u, d) {
							hot = j
							hots++
						} else if !isZero(d) {
							hots += 2
						}
					}
					ok := hots == 1
					if ok && !ord.contradictory() {
						for j := 0; j < hot; j++ {
							ok = ok && ord.above(xs[i], bs[j])
						}
						ok = ok && (hot == len(bs)-1 || ord.atLeast(bs[hot], xs[i]))
					}
					c.check("the bucket of each value", con, ok, o.pos, "feature %d of %v is put in bucket %d when %s", i, sh, hot, factsString(o.st.facts))
				}
				c.check("one entry per bucket", con, isZero(u.Sub(u.Len(o.ret[0]), u.Int(k))), o.pos, "the state has %s entries for %v", u.Len(o.ret[0]), sh)
			}
			c.check("changes nothing", con, s.pure(), s.fn.Pos(), "the table is changed")
		}
	})
	c.guarded("states", func() { c.prototypeStates(place) })
}

// prototypeStates: every combination is a state of the table.
func (c *Ctx) prototypeStates(place func(*Engine, *State, *Term, []int64) *Term) {
	con := "genStates"
	fn := c.fn("qtable.QTable.genStates")
	for _, sh := range [][]int{{1}, {3}, {2, 3}, {2, 2, 2}, {3, 1, 2}} {
		e := c.engine()
		e.precise = true
		e.unrollMax = 60
		s := c.scOn(e, fn, con, "t")
		u := e.u
		var feats []*Term
		for i, n := range sh {
			b, _ := s.values(fmt.Sprintf("b%d_", i), n)
			feats = append(feats, u.Elem(b))
		}
		s.set("t.features", u.Seq(feats...))
		want := map[string]bool{}
		for _, h := range oneHots(sh) {
			want[fmt.Sprint(h)] = true
		}
		outs := s.returns()
		c.check("started", con, len(outs) == 1, fn.Pos(), "%d results", len(outs))
		for _, o := range outs {
			got := map[string]bool{}
			for _, g := range evs(o.st.events, "go", "") {
				t := goTarget(g)
				if t == nil {
					continue
				}
				for _, r := range e.exec(t.fn, goArgs(g), t.args, o.st.fork(), "go", nil, nil) {
					n := 0
					each(r.st.events[len(o.st.events):], func(ev *Event, loops []*LoopInfo) {
						if ev.kind != "send" {
							return
						}
						n++
						h := []int64{}
						ln := u.Len(ev.args[0])
						if len(loops) > 0 || !isNum(ln) {
							c.note("the states of the shape %v are not decided", sh)
							return
						}
						for i := int64(0); i < ln.rat.Num().Int64(); i++ {
							d := e.elem(r.st, ev.args[0], u.Int(i), types.Typ[types.Float64])
							if !isNum(d) {
								c.note("the states of the shape %v are not decided: %s", sh, d)
								return
							}
							h = append(h, d.rat.Num().Int64())
						}
						k := fmt.Sprint(h)
						c.check("each combination once", con, want[k] && !got[k], ev.pos, "for %v, %s is no state or comes twice", sh, k)
						got[k] = true
					})
					c.check("each combination once", con, n == len(want), fn.Pos(), "for %v there are %d states instead of %d", sh, n, len(want))
				}
			}
			c.check("each combination once", con, len(got) == len(want), fn.Pos(), "for %v %d states of %d are made", sh, len(got), len(want))
		}
	}

	con = "Init"
	e := c.engine()
	gen := fn
	index := c.fn("qtable.QTable.GetStateIdx")
	e.opaque = func(f *ssa.Function) bool { return f == gen || f == index || f.Name() == "PrintTable" }
	u := e.u
	s := c.scOn(e, c.fn("qtable.QTable.Init"), con, "t", "features", "names", "actions")
	n := 0
	for _, o := range s.returns() {
		for _, ev := range o.st.events {
			if ev.loop == nil {
				continue
			}
			for _, it := range ev.loop.iters {
				var st *Term
				for _, x := range it.events {
					if x.kind == "recv" {
						st = x.ret
					}
				}
				if st == nil {
					continue
				}
				if e.infeasible(it.facts) {
					continue
				}
				n++
				// one new row, under the number of the state
				var nums []*Term
				for _, x := range evs(it.events, "fn", fnName(index)) {
					for _, a := range x.args {
						if a == st {
							nums = append(nums, x.ret)
						}
					}
				}
				if len(nums) == 0 {
					c.note("the number of a state in the table is not decided")
					continue
				}
				rows := 0
				for a, w := range it.writes {
					if a.op != OMapAt {
						continue
					}
					rows++
					known := false
					for _, x := range nums {
						known = known || a.args[1] == x
					}
					c.check("a row of zeros for each state", con, known && zeroRow(w) && isZero(u.Sub(u.Len(w), u.Len(s.arg("actions")))), ev.loop.pos, "state %s gets the values %s at %s", st, w, a)
				}
				c.check("a row of zeros for each state", con, rows == 1, ev.loop.pos, "a state gets %d rows", rows)
			}
		}
		s.ensureOut(o, "its actions", con, "len(t.actions) == len(actions)")
		s.ensureOut(o, "its features", con, "len(t.features) == len(features) && len(t.featureNames) == len(names)")
		s.ensureOut(o, "its rates", con, "t.learningRate > 0 && t.learningRate <= 1 && t.Epsilon == t.MaxEpsilon && t.MinEpsilon < t.MaxEpsilon && t.MinEpsilon > 0")
	}
	c.check("states are received", con, n > 0, s.fn.Pos(), "no state is received")
}

// zeroRow: a list made of zeros
func zeroRow(t *Term) bool {
	if t.op == OCall && t.s == "make" {
		return true
	}
	if t.op != OSeq || !allElems(t) {
		return false
	}
	for _, p := range t.args {
		if !isZero(p.args[0]) {
			return false
		}
	}
	return true
}

// rulePrototypeTraining: a step of the training stores what was decided and
// teaches the table the action taken.
func rulePrototypeTraining(c *Ctx) {
	con := "main"
	fn := c.fn("main.main")
	e := c.engine()
	u := e.u
	e.noUnroll = true
	work := map[*ssa.Function]string{}
	for _, n := range []string{"cache.SimCache.Init", "cache.SimCache.UpdateStats", "cache.SimCache.GetMinValue", "cache.SimCache.GetPoints", "cache.SimCache.GetCapacity", "cache.SimCache.Insert",
		"qtable.QTable.Init", "qtable.QTable.GenCurState", "qtable.QTable.GetBestAction", "qtable.QTable.Update", "qtable.QTable.PrintTable"} {
		work[c.fn(n)] = n[strings.LastIndex(n, ".")+1:]
	}
	e.opaque = func(f *ssa.Function) bool { return work[f] != "" }
	is := func(ev *Event, name string) bool {
		if ev.kind != "fn" {
			return false
		}
		for f, n := range work {
			if n == name && fnName(f) == ev.name {
				return true
			}
		}
		return false
	}
	// resultOf: a result of a function that has no effect
	resultOf := func(t *Term, name string, i int) bool {
		if t.op != OCall || !strings.HasPrefix(t.s, "fn:") || !strings.HasSuffix(t.s, fmt.Sprintf("#%d", i)) {
			return false
		}
		for f, n := range work {
			if n == name && t.s == fmt.Sprintf("fn:%s#%d", fnName(f), i) {
				return true
			}
		}
		return false
	}
	store, _, _ := c.pkgConst(e, "qtable", "ActionStore")
	not, _, _ := c.pkgConst(e, "qtable", "ActionNotStore")
	steps, episodes := 0, 0
	for _, o := range e.Run(fn, nil, newState()) {
		each(o.st.events, func(ev *Event, in []*LoopInfo) {
			if ev.loop == nil {
				return
			}
			for _, it := range ev.loop.iters {
				by := map[string][]*Event{}
				var draws []*Term
				for _, x := range it.events {
					for _, n := range work {
						if is(x, n) {
							by[n] = append(by[n], x)
						}
					}
					if x.kind == "call" && strings.HasSuffix(x.name, "rand.Rand).Float64") {
						draws = append(draws, x.ret)
					}
				}
				// the rate of exploration falls from episode to episode
				for a, v := range it.writes {
					if len(by["Update"]) > 0 || a.op != OField || shortField(a.s) != "Epsilon" {
						continue
					}
					var min, max, rate *Term
					contains(v, func(x *Term) bool {
						if x.op == OInit || untag(x) != x {
							switch y := untag(x); {
							case y.op != OField:
							case shortField(y.s) == "MinEpsilon":
								min = x
							case shortField(y.s) == "MaxEpsilon":
								max = x
							case shortField(y.s) == "DecayRate":
								rate = x
							}
						}
						return false
					})
					ok := min != nil && max != nil && rate != nil
					if ok {
						want := u.Add(min, u.Mul(u.Sub(max, min), u.Call("math.Exp", u.Neg(u.Mul(rate, ev.loop.k)))))
						ok = isZero(u.Sub(v, want))
					}
					episodes++
					c.check("exploration falls with the episodes", con, ok, ev.loop.pos, "the rate becomes %s", v)
				}
				if len(by["Update"]) == 0 {
					// not a step
					c.check("stores in a step", con, len(by["Insert"]) == 0, ev.loop.pos, "a file is stored and nothing is learned")
					continue
				}
				steps++
				up, us, gs := by["Update"], by["UpdateStats"], by["GenCurState"]
				c.check("one lesson a step", con, len(up) == 1, ev.loop.pos, "a step updates the table %d times", len(up))
				c.check("one request a step", con, len(us) == 1, ev.loop.pos, "a step counts %d requests", len(us))
				if len(us) != 1 || len(up) != 1 {
					continue
				}
				state, act, reward := up[0].args[1], up[0].args[2], up[0].args[3]
				var gen *Event
				for _, g := range gs {
					if g.ret == state {
						gen = g
					}
				}
				c.check("the state of the request", con, gen != nil, up[0].pos, "the table is updated for %s", state)
				if gen == nil {
					continue
				}
				vals := gen.args[1]
				file, size := us[0].args[1], us[0].args[2]
				num := us[0].ret
				if num.op == OTuple {
					num = num.args[1]
				}
				ok := vals.op == OSeq && allElems(vals) && len(vals.args) == 4
				if ok {
					v := func(i int) *Term { return vals.args[i].args[0] }
					ok = v(0) == size && v(1) == num && resultOf(v(2), "GetCapacity", 0) && (isZero(v(3)) || isOne(u, v(3)))
					if ok {
						// the file is more valuable than the least one
						more := -1
						for t := range it.facts {
							for _, cand := range []*Term{t, u.Not(t)} {
								if cand.op != OLT {
									continue
								}
								contains(cand, func(x *Term) bool {
									if resultOf(x, "GetMinValue", 1) && us[0].ret.op == OTuple {
										more = it.truth(u, u.Less(x, us[0].ret.args[2]))
									}
									return false
								})
							}
						}
						ok = more == int(b2i(isOne(u, v(3))))
					}
				}
				c.check("what the state is made of", con, ok, gen.pos, "the state is made of %s", vals)
				// the action
				switch {
				case resultOf(act, "GetBestAction", 0):
					c.check("best action of that state", con, act.args[1] == state, up[0].pos, "the action is %s", act)
					c.check("explored or best", con, len(draws) == 1 && c.aboveEpsilon(u, it, draws[0]) == 1, up[0].pos, "the best action is taken when %s", factsString(it.facts))
				case act == store || act == not:
					c.check("explored or best", con, len(draws) == 1 && c.aboveEpsilon(u, it, draws[0]) == 0, up[0].pos, "an action is explored when %s", factsString(it.facts))
				default:
					c.check("explored or best", con, false, up[0].pos, "the action taken is %s", act)
				}
				want := it.truth(u, u.EQ(act, store))
				if act == store {
					want = 1
				} else if act == not {
					want = 0
				}
				ins := by["Insert"]
				c.check("stored when decided", con, want == int(b2i(len(ins) == 1)) && len(ins) <= 1, up[0].pos, "the file is stored %d times when the action is %s", len(ins), act)
				last := "UpdateStats"
				for _, x := range ins {
					c.check("the file of the request", con, x.args[1] == file && x.args[2] == size, x.pos, "%s of size %s is stored", x.args[1], x.args[2])
					last = "Insert"
				}
				// the reward is counted after the action
				n := 0
				for _, m := range u.monos(reward) {
					if m.coef.Sign() > 0 && len(m.vars) == 1 && resultOf(m.vars[0].t, "GetPoints", 0) {
						g := m.vars[0].t
						at := g.args[len(g.args)-1]
						if m.coef.Cmp(big.NewRat(1, 1)) == 0 && strings.Contains(at.s, ")."+last) {
							n++
						}
					}
				}
				c.check("rewarded after the action", con, n == 1, up[0].pos, "the reward is %s", reward)
			}
		})
	}
	c.check("steps", con, steps > 0, fn.Pos(), "no step of the training is found")
	c.check("episodes", con, episodes > 0, fn.Pos(), "no change of the rate of exploration is found")
}

// aboveEpsilon: whether the draw is above the rate of exploration
func (c *Ctx) aboveEpsilon(u *U, it *IterOut, draw *Term) int {
	r := -1
	for t := range it.facts {
		for _, x := range []*Term{t, u.Not(t)} {
			if x.op != OLT {
				continue
			}
			rest := u.Add(x.args[0], draw)
			if len(u.monos(rest)) == 1 && !isNum(rest) {
				r = it.truth(u, u.Less(rest, draw))
				continue
			}
			rest = u.Sub(draw, x.args[0])
			if len(u.monos(rest)) == 1 && !isNum(rest) {
				r = it.truth(u, u.Less(rest, draw))
			}
		}
	}
	return r
}

// statField: the key of a file whose statistic t is.
func statField(t *Term, field string) *Term {
	b := fieldBase(t, field)
	if b == nil {
		return nil
	}
	b = untag(b)
	if b.op != OMapAt || !isField(b.args[0], "stats") {
		return nil
	}
	return b.args[1]
}

// isField: a named field of the cache, whether it is held by value or not.
func isField(t *Term, name string) bool {
	t = untag(t)
	switch t.op {
	case OField:
		return shortField(t.s) == name
	case OCall:
		return strings.HasPrefix(t.s, "fld:") && shortField(t.s) == name
	}
	return false
}

// fileKey: the file number i of the contents of the cache.
func fileKey(t, i *Term) bool {
	return t != nil && t.op == OCall && t.s == "rkey" && isField(t.args[0], "files") && t.args[1] == i
}

// overContents: the sum over the files in the cache of the product of some of
// their statistics; returns the number of files that are summed.
func overContents(u *U, t *Term, fields ...string) *Term {
	if t.op != OSum {
		return nil
	}
	ms := u.monos(t.args[1])
	if len(ms) != 1 || ms[0].coef.Cmp(big.NewRat(1, 1)) != 0 || len(ms[0].vars) != len(fields) {
		return nil
	}
	for _, f := range fields {
		ok := false
		for _, v := range ms[0].vars {
			ok = ok || v.e == 1 && fileKey(statField(v.t, f), u.betaOf(t.args[1]))
		}
		if !ok {
			return nil
		}
	}
	return t.args[0]
}

// isContents: the number of files in the cache
func isContents(t *Term) bool {
	if t.op == OLen || t.op == OLenAt {
		return isField(t.args[0], "files")
	}
	t = untag(t)
	return t.op == OLenAt && isField(t.args[0], "files")
}

// searched: the loop goes over all n files and leaves in name the one of
// lowest value, and in least that value.
func searched(u *U, l *LoopInfo, name, least, n *Term) (bool, string) {
	if l.trip == nil {
		return false, "not every file is looked at"
	}
	if n != nil && l.trip != n {
		return false, fmt.Sprintf("%s files are looked at instead of %s", l.trip, n)
	}
	takes := 0
	for _, it := range l.iters {
		end := phiOf(it, name)
		if end == nil {
			return false, "the name is not decided in the loop"
		}
		// the value of the file chosen so far
		var so *Term
		var now *Term
		contains2(it.facts, func(x *Term) {
			if x.op == OField {
				return // an address
			}
			if fileKey(statField(x, "Value"), l.k) {
				now = x
			}
			if statField(x, "Value") == name {
				so = x
			}
		})
		if least != nil {
			so = least
		}
		if so == nil || now == nil {
			if end != name && it.truth(u, u.EQ(name, u.Str(""))) == 1 {
				takes++
				continue // nothing was chosen yet
			}
			return false, "no value is compared"
		}
		switch {
		case fileKey(end, l.k):
			takes++
			if least != nil && !fileKey(statField(phiOf(it, least), "Value"), l.k) {
				return false, "the value kept is not that of the file kept"
			}
			if it.truth(u, u.Less(so, now)) != 0 && it.truth(u, u.EQ(name, u.Str(""))) != 1 {
				return false, "a file of higher value replaces the one chosen"
			}
		case end == name:
			if least != nil && phiOf(it, least) != least {
				return false, "the value kept is not that of the file kept"
			}
			if it.truth(u, u.Less(now, so)) != 0 {
				return false, "a file of lower value is passed over"
			}
		default:
			return false, fmt.Sprintf("%s is chosen", end)
		}
	}
	return takes > 0, "no file is chosen"
}

// Less orders two numbers.
func (u *U) Less(a, b *Term) *Term { return u.LT(u.Sub(a, b), false) }

// contains2 visits all parts of the facts.
func contains2(facts map[*Term]bool, f func(*Term)) {
	for t := range facts {
		contains(t, func(x *Term) bool { f(x); return false })
	}
}

func loopsIn(list []*Event) []*LoopInfo {
	var r []*LoopInfo
	each(list, func(ev *Event, _ []*LoopInfo) {
		if ev.loop != nil {
			r = append(r, ev.loop)
		}
	})
	return r
}

func rulePrototypeCache(c *Ctx) {
	con := "GetSize"
	total := func(con string, fields ...string) {
		c.guarded(con, func() {
			s := c.sc("cache.SimCache."+con, "cache")
			for _, o := range s.returns() {
				n := overContents(s.e.u, o.ret[0], fields...)
				c.check("sum over the contents", con, n != nil && isContents(n), o.pos, "it returns %s", o.ret[0])
			}
			c.check("reading changes nothing", con, s.pure(), s.fn.Pos(), "the cache is changed")
		})
	}
	total("GetSize", "Size")
	total("GetPoints", "Size", "NumReq")
	con = "GetCapacity"
	c.guarded(con, func() {
		s := c.sc("cache.SimCache.GetCapacity", "cache")
		u := s.e.u
		for _, o := range s.returns() {
			q := u.Div(u.Mul(o.ret[0], s.old("cache.MaxSize")), u.Int(100))
			n := overContents(u, q, "Size")
			c.check("share of the space", con, n != nil && isContents(n), o.pos, "it returns %s", o.ret[0])
		}
		c.check("reading changes nothing", con, s.pure(), s.fn.Pos(), "the cache is changed")
	})
	con = "UpdateStats"
	c.guarded(con, func() {
		for _, known := range []bool{true, false} {
			s := c.sc("cache.SimCache.UpdateStats", "cache", "fileName", "size")
			what := con + " of a new file"
			if known {
				what = con + " of a known file"
				s.assume("in(cache.stats, fileName)")
				s.run()
				s.ensure("one more request", what, "cache.stats[fileName].NumReq == old(cache.stats[fileName].NumReq) + 1")
				s.ensure("the size stays", what, "cache.stats[fileName].Size == old(cache.stats[fileName].Size)")
			} else {
				s.assume("!in(cache.stats, fileName)")
				s.run()
				s.ensure("one more request", what, "cache.stats[fileName].NumReq == 1")
				s.ensure("the size is kept", what, "cache.stats[fileName].Size == size")
			}
			s.ensure("the value of a file", what, "cache.stats[fileName].Value == cache.stats[fileName].Size * cache.stats[fileName].NumReq")
			s.ensure("what is returned", what, "ret0 == cache.stats[fileName].Size && ret1 == cache.stats[fileName].NumReq && ret2 == cache.stats[fileName].Value")
			for _, o := range s.returns() {
				for a, v := range o.st.mem.ents {
					if s.pre.mem.ents[a] == v {
						continue
					}
					c.check("only that file", what, a.op == OLenAt && isField(a.args[0], "stats") || touches(a, s.arg("fileName")), o.pos, "%s becomes %s", a, v)
				}
			}
		}
	})
	con = "GetMinValue"
	c.guarded(con, func() {
		e := c.engine()
		e.precise = true
		s := c.scOn(e, c.fn("cache.SimCache.GetMinValue"), "GetMinValue", "cache")
		u := s.e.u
		for _, o := range s.returns() {
			ok, why := false, "no loop"
			for _, l := range loopsIn(o.st.events) {
				least := o.ret[1]
				has := false
				for _, it := range l.iters {
					has = has || phiOf(it, least) != nil
				}
				if !has {
					if statField(least, "Value") != o.ret[0] {
						why = "the value returned is not that of the file returned"
						continue
					}
					least = nil
				}
				ok, why = searched(u, l, o.ret[0], least, nil)
				if ok && !isContents(l.trip) {
					ok, why = false, fmt.Sprintf("%s files are looked at", l.trip)
				}
				if ok && least != nil {
					ok, why = highStart(l, least), "the search starts at a value a file can reach"
				}
				if ok {
					break
				}
			}
			c.check("the file of lowest value", con, ok, o.pos, "%s", why)
		}
		c.check("reading changes nothing", con, s.pure(), s.fn.Pos(), "the cache is changed")
	})
	con = "Remove"
	c.guarded(con, func() {
		s := c.sc("cache.SimCache.Remove", "cache", "fileName")
		s.ensure("the file is gone", con, "!in(cache.files, fileName)")
		for _, o := range s.returns() {
			for a, v := range o.st.mem.ents {
				if s.pre.mem.ents[a] == v {
					continue
				}
				c.check("only that file", con, isContents(a) || touches(a, s.arg("fileName")), o.pos, "%s becomes %s", a, v)
			}
		}
	})
	con = "GetStats"
	c.guarded(con, func() {
		s := c.sc("cache.SimCache.GetStats", "cache", "fileName")
		s.ensure("of the file asked for", con, "ret0 == cache.stats[fileName]")
		c.check("reading changes nothing", con, s.pure(), s.fn.Pos(), "the cache is changed")
	})
	c.guarded("Insert", c.prototypeInsert)
}

// highStart: the value at the start of a search is the largest there is.
func highStart(l *LoopInfo, least *Term) bool {
	for name, v := range l.enter {
		for _, it := range l.iters {
			if p, ok := it.phis[name]; ok && p[0] == least {
				if isNum(v) {
					f, _ := v.rat.Float64()
					return f >= math.MaxFloat64
				}
				return v.op == OCall && strings.HasPrefix(v.s, "math.Inf")
			}
		}
	}
	return false
}

// touches: an entry of a map of the cache under the given key, or a part of it.
func touches(a, key *Term) bool {
	for a != nil {
		switch a.op {
		case OMapAt, OMapIn:
			return a.args[1] == key
		case OAlloc:
			return true
		case OField, OInit:
			a = untag(a.args[0])
		default:
			return false
		}
	}
	return false
}

// prototypeInsert: a file is added only where it fits, and what makes room for
// it is the file of lowest value, one after the other.
func (c *Ctx) prototypeInsert() {
	con := "Insert"
	e := c.engine()
	e.precise = true
	s := c.scOn(e, c.fn("cache.SimCache.Insert"), con, "cache", "fileName", "size")
	u := e.u
	file, size := s.arg("fileName"), s.arg("size")
	max := s.old("cache.MaxSize")
	adds, evicts := 0, 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		var in, ln *Term
		for a, v := range o.st.mem.ents {
			switch {
			case a.op == OMapIn && isField(a.args[0], "files") && a.args[1] == file:
				in = v
			case isContents(a):
				ln = v
			}
		}
		if u.decide(o.st, u.Less(max, size)) == 1 {
			changed := ""
			for a, v := range o.st.mem.ents {
				if s.pre.mem.ents[a] != v && v != u.Init(a) {
					changed += fmt.Sprintf(" %s becomes %s", a, v)
				}
			}
			c.check("a file bigger than the cache", con, changed == "", o.pos, "%s", changed)
			continue
		}
		c.check("a file bigger than the cache", con, u.decide(o.st, u.Less(max, size)) == 0, o.pos, "no path tells a file that is bigger than the cache")
		c.check("the file is in the cache", con, in != nil && u.decide(o.st, in) == 1, o.pos, "the file is not added when %s", factsString(o.st.facts))
		if in == nil {
			continue
		}
		adds++
		// how many files there are just before
		var before *Term
		if ln != nil && ln.op == OCall && strings.HasPrefix(ln.s, "len±") {
			before = ln.args[0]
		}
		fits := false
		contains2(o.st.facts, func(x *Term) {
			if n := overContents(u, x, "Size"); n != nil && n == before {
				fits = fits || u.decide(o.st, u.Less(max, u.Add(x, size))) == 0
			}
		})
		// or the sum is kept while files go
		if !fits {
			for _, l := range loopsIn(o.st.events) {
				for _, it := range l.iters {
					for _, p := range it.phis {
						if kept := keptSum(u, l, p[0]); kept {
							fits = fits || u.decide(o.st, u.Less(max, u.Add(p[0], size))) == 0 || u.decide(o.st, u.Less(max, u.Add(p[1], size))) == 0
						}
					}
				}
			}
		}
		c.check("there is room for it", con, fits, o.pos, "the file is added when %s", factsString(o.st.facts))
		for _, ev := range o.st.events {
			if ev.loop == nil {
				continue
			}
			for _, it := range ev.loop.iters {
				gone, ok, why := 0, false, ""
				for a, v := range it.writes {
					if a.op != OMapIn || !isField(a.args[0], "files") {
						continue
					}
					gone++
					c.check("only files leave", con, v == u.Bool(false), ev.loop.pos, "a file is added while there is no room")
					for _, l := range loopsIn(it.events) {
						for _, i2 := range l.iters {
							if phiOf(i2, a.args[1]) == nil {
								continue
							}
							why = "the name is not decided in one loop"
							for _, p := range i2.phis {
								if fileKey(statField(p[1], "Value"), l.k) {
									ok, why = searched(u, l, a.args[1], p[0], contentsAt(it))
									if ok {
										ok, why = highStart(l, p[0]), "the search starts at a value a file can reach"
									}
								}
							}
							if why == "the name is not decided in one loop" {
								ok, why = searched(u, l, a.args[1], nil, contentsAt(it))
							}
						}
					}
				}
				if gone == 0 {
					continue
				}
				evicts++
				c.check("only while it does not fit", con, onlyWhileFull(u, ev.loop, it, max, size), ev.loop.pos, "a file leaves when %s", factsString(it.facts))
				c.check("the file of lowest value leaves", con, gone == 1 && ok, ev.loop.pos, "%d files leave at a time: %s", gone, why)
			}
		}
	}
	c.check("files are added", con, adds > 0, s.fn.Pos(), "no path adds a file")
	c.check("files are evicted", con, evicts > 0, s.fn.Pos(), "no path evicts files")
}

// onlyWhileFull: a file that leaves in this iteration leaves while the new one
// does not fit: either that is known where the iteration starts, or it is known
// where the loop starts and where an iteration ends.
func onlyWhileFull(u *U, l *LoopInfo, it *IterOut, max, size *Term) bool {
	full := func(sum *Term) bool { return it.truth(u, u.Less(max, u.Add(sum, size))) == 1 }
	at := func(pick func(m map[*Term]*Term) *Term, which map[*Term]*Term) bool {
		n := pick(which)
		if n == nil {
			return false
		}
		found := false
		contains2(it.facts, func(x *Term) {
			if overContents(u, x, "Size") == n {
				found = found || full(x)
			}
		})
		return found
	}
	number := func(m map[*Term]*Term) *Term {
		for a, v := range m {
			if isContents(a) {
				return v
			}
		}
		return nil
	}
	if at(number, it.start) {
		return true
	}
	ends, enters := at(number, it.writes), at(number, l.entry)
	for name, start := range l.enter {
		p, has := it.phis[name]
		if !has || !keptSum(u, l, p[0]) {
			continue
		}
		if full(p[0]) {
			return true
		}
		ends = ends || full(p[1])
		enters = enters || full(start)
	}
	return ends && enters
}

// contentsAt: the number of files at the start of an iteration
func contentsAt(it *IterOut) *Term {
	for a, v := range it.start {
		if isContents(a) {
			return v
		}
	}
	return nil
}

// keptSum: the loop variable is the size of the contents: it starts there and
// goes down by the size of the file that leaves.
func keptSum(u *U, l *LoopInfo, v *Term) bool {
	ok := false
	for name, start := range l.enter {
		for _, it := range l.iters {
			p, has := it.phis[name]
			if !has || p[0] != v {
				continue
			}
			ok = overContents(u, start, "Size") != nil
			var gone *Term
			for a := range it.writes {
				if a.op == OMapIn && isField(a.args[0], "files") {
					gone = a.args[1]
				}
			}
			d := u.Sub(p[0], p[1])
			if !ok || gone == nil || statField(d, "Size") != gone {
				return false
			}
		}
	}
	return ok
}
