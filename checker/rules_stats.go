package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P26", 9, "loop summary of the purge: guard of every deletion, weight kept with it, and the condition that starts it", rulePurge)
	register("P27", 40, "contract on the statistics of the requested file over every BeforeRequest implementation", ruleFileStats)
	register("P28", 10, "inductive accounting: every function that writes a weight, the sum or the set of files keeps their difference", ruleWeightSum)
}

// statsEngine follows the statistics and leaves the rest abstract.
func (c *Ctx) statsEngine() *Engine {
	e := c.engine()
	keep := func(cl string) bool {
		return strings.Contains(cl, "files.Stats.") && !strings.HasSuffix(cl, ".Weight") && !strings.HasSuffix(cl, ".RequestedTimesMean") || strings.Contains(cl, "files.Manager.") && !strings.HasSuffix(cl, ".weightSum") || strings.Contains(cl, "*files.Stats") || strings.HasPrefix(cl, "e:") || strings.HasSuffix(cl, ".numReq") || strings.HasSuffix(cl, ".tick")
	}
	e.track = keep
	memo := map[*ssa.Function]bool{}
	e.opaque = func(f *ssa.Function) bool {
		r, ok := memo[f]
		if !ok {
			rw := c.w.rw(f)
			r = len(rw.mod) > 0
			for k := range rw.mod {
				if keep(k) && !strings.HasPrefix(k, "e:") {
					r = false
				}
			}
			memo[f] = r
		}
		return r
	}
	e.keepEv = func(ev *Event) bool { return false }
	return e
}

func ruleFileStats(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "BeforeRequest") {
		m := m
		con := m.name + ".BeforeRequest"
		for _, known := range []bool{true, false} {
			for _, hit := range []bool{true, false} {
				known, hit := known, hit
				c.guarded(con, func() {
					e := c.statsEngine()
					s := c.scOn(e, m.fn, con, "c", "req", "hit")
					s.give("hit", e.u.Bool(hit))
					pick := func(a, b string) string {
						if hit {
							return a
						}
						return b
					}
					if !known {
						s.assume("!in(c.stats.Data, req.Filename)")
					} else {
						s.assume("in(c.stats.Data, req.Filename)")
					}
					c.check("returns", con, len(s.returns()) > 0, m.fn.Pos(), "no path returns")
					s.ensure("request count", con, "c.numReq == old(c.numReq) + 1")
					s.ensure("hit is passed on", con, "ret1 == "+pick("true", "false"))
					s.ensure("file is known", con, "in(c.stats.Data, req.Filename) && ret0 == c.stats.Data[req.Filename]")
					s.ensure("size", con, "ret0.Size == req.Size")
					s.ensure("recency", con, "ret0.Recency == old(c.tick)")
					s.ensure("last update", con, "ret0.StatLastUpdateTime == req.DayTime && c.stats.lastUpdateTime == req.DayTime")
					s.ensure("first update", con, "implies(!old(c.stats.firstUpdateTime.IsZero()), c.stats.firstUpdateTime == old(c.stats.firstUpdateTime)) && implies(old(c.stats.firstUpdateTime.IsZero()), c.stats.firstUpdateTime == req.DayTime)")
					if known {
						s.ensure("frequency", con, "ret0.Frequency == old(c.stats.Data[req.Filename].Frequency) + 1")
						s.ensure("hits and misses", con, "ret0.NHits == old(c.stats.Data[req.Filename].NHits) + "+pick("1", "0")+" && ret0.NMiss == old(c.stats.Data[req.Filename].NMiss) + "+pick("0", "1"))
						s.ensure("distance", con, "ret0.DeltaLastRequest == old(c.tick) - old(c.stats.Data[req.Filename].Recency)")
						s.ensure("request times", con, "len(ret0.RequestedTimes) == ite(old(len(c.stats.Data[req.Filename].RequestedTimes)) < 32, old(len(c.stats.Data[req.Filename].RequestedTimes)) + 1, old(len(c.stats.Data[req.Filename].RequestedTimes)))")
						s.ensure("request times", con, "ret0.RequestedTimes[old(c.stats.Data[req.Filename].idxLastRequest)] == req.DayTime")
						s.ensure("request times", con, "ret0.idxLastRequest == (old(c.stats.Data[req.Filename].idxLastRequest) + 1) % 32 || old(c.stats.Data[req.Filename].idxLastRequest) != 31 && ret0.idxLastRequest == old(c.stats.Data[req.Filename].idxLastRequest) + 1")
						s.ensure("name and type are kept", con, "ret0.Filename == old(c.stats.Data[req.Filename].Filename) && len(c.stats.Data) == old(len(c.stats.Data))")
					} else {
						s.ensure("name and type are kept", con, "ret0.Filename == req.Filename && len(c.stats.Data) == old(len(c.stats.Data)) + 1")
						s.ensure("frequency", con, "ret0.Frequency == 1")
						s.ensure("hits and misses", con, "ret0.NHits == "+pick("1", "0")+" && ret0.NMiss == "+pick("0", "1"))
						s.ensure("distance", con, "ret0.DeltaLastRequest == 9223372036854775807")
						s.ensure("request times", con, "len(ret0.RequestedTimes) == 1 && ret0.RequestedTimes[0] == req.DayTime && ret0.idxLastRequest == 1")
						s.ensure("insert time", con, "ret0.StatInsertTime == req.DayTime")
					}
				})
			}
		}
	}
}

func rulePurge(c *Ctx) {
	c.guarded("Purge", func() {
		for _, calc := range []bool{true, false} {
			e := c.engine()
			e.precise = true
			s := c.scOn(e, c.fn("files.Manager.Purge"), "Purge", "s", "has")
			s.setBool("s.calcWeight", calc)
			u := e.u
			con := "Purge"
			for _, o := range s.returns() {
				sum := u.Field(s.arg("s"), "files.Manager.weightSum")
				del, kept := 0, 0
				for _, ev := range o.st.events {
					if ev.kind != "loop" {
						continue
					}
					l := ev.loop
					for _, it := range l.iters {
						var key *Term // the file of this iteration
						for f := range it.facts {
							contains(f, func(x *Term) bool {
								if x.op == OCall && x.s == "rkey" {
									key = x
								}
								return false
							})
						}
						var gone *Term
						for a, v := range it.writes {
							if a.op == OMapIn && v == u.Bool(false) {
								gone = a.args[1]
							}
						}
						if !c.check("looks at every file", con, key != nil && key.args[1] == l.k && (gone == nil || gone == key) && l.trip == s.old("len(s.Data)"), ev.pos, "the loop over %s files works on %s and deletes %s", l.trip, key, gone) {
							continue
						}
						_, mt := s.addr("s.Data")
						at, _, _ := e.mapAddr(s.old("s.Data"), key, mt)
						cur := e.readAt(s.pre, at)
						for _, x := range l.iters {
							if st, ok := x.start[at]; ok {
								cur = st
							}
						}
						has := u.Call("dyn#0", s.arg("has"), key)
						last := e.readAt(s.pre, u.Field(cur, "files.Stats.StatLastUpdateTime"))
						age := u.Call("(time.Duration).Hours", u.Call("(time.Time).Sub", s.old("s.lastUpdateTime"), last))
						young := it.truth(u, u.LT(u.Sub(u.Scale(age, big.NewRat(1, 24)), s.old("s.maxNumDayDiff")), false))
						in := it.truth(u, has)
						w, wr := it.writes[sum]
						if gone == nil {
							kept++
							c.check("old files are purged", con, in == 1 || young == 1, ev.pos, "statistics are kept where %s", factsString(it.facts))
							for a := range it.writes {
								c.check("kept files keep their statistics", con, a.op != OField || !strings.HasPrefix(a.s, "files.Stats."), ev.pos, "%s changes although the file stays", a)
							}
							c.check("kept files keep their weight", con, !wr, ev.pos, "the sum changes although the file stays")
							continue
						}
						del++
						c.check("only files outside of the cache", con, in == 0, ev.pos, "statistics are deleted where %s", factsString(it.facts))
						c.check("only old files", con, young == 0, ev.pos, "statistics are deleted where %s", factsString(it.facts))
						if calc {
							weight := e.readAt(s.pre, u.Field(cur, "files.Stats.Weight"))
							c.check("weight leaves with the file", con, wr && isZero(u.Sub(u.Sub(it.start[sum], w), weight)), ev.pos, "the sum of weights becomes %s", w)
						} else {
							c.check("weight leaves with the file", con, !wr, ev.pos, "the sum of weights becomes %s", w)
						}
					}
				}
				c.check("deletes", con, del >= 1 && kept >= 1, o.pos, "%d deleting and %d keeping kinds of iteration", del, kept)
				first := e.readAt(o.st, u.Field(s.arg("s"), "files.Manager.firstUpdateTime"))
				c.check("next purge", con, first == s.old("s.lastUpdateTime"), o.pos, "the next period starts at %s", first)
			}
		}
	})
	c.guarded("Dirty", func() {
		s := c.sc("files.Manager.Dirty", "s")
		s.e.precise = true
		s.ensure("due", "Dirty", "ret0 == (s.lastUpdateTime.Sub(s.firstUpdateTime).Hours() / 24 >= s.deltaDaysStep)")
	})
	for _, m := range c.impls("cache.Cache", "AfterRequest") {
		m := m
		con := m.name + ".AfterRequest"
		c.guarded(con, func() {
			for _, due := range []bool{true, false} {
				e := c.engine()
				pf, df := c.fn("files.Manager.Purge"), c.fn("files.Manager.Dirty")
				e.track = func(cl string) bool { return strings.Contains(cl, "files.Manager.") }
				purges := func(com *ssa.CallCommon, f *ssa.Function) bool { return f == pf }
				e.opaque = func(f *ssa.Function) bool {
					return f == pf || f != df && len(c.w.rw(f).mod) > 0 && !c.w.reaches(f, purges)
				}
				e.keepEv = func(ev *Event) bool {
					return ev.kind == "fn" && ev.name == fnName(pf)
				}
				s := c.scOn(e, m.fn, con, "c", "req", "st", "hit", "added")
				x := "c.stats.lastUpdateTime.Sub(c.stats.firstUpdateTime).Hours() / 24 - c.stats.deltaDaysStep"
				if due {
					s.assume(x + " >= 0")
				} else {
					s.assume(x + " < 0")
				}
				n := 0
				for _, o := range s.returns() {
					n++
					ev := evs(o.st.events, "fn", fnName(pf))
					if !due {
						c.check("purged when due", con, len(ev) == 0, o.pos, "statistics are purged although no purge is due")
						continue
					}
					ok := len(ev) == 1
					if ok {
						ok = c.asksQueue(s, o, ev[0].args[1])
					}
					c.check("purged when due", con, ok, o.pos, "a due purge happens %d times, or not with the files of the queue as files to keep: %v", len(ev), ev)
				}
				c.check("purged when due", con, n > 0, m.fn.Pos(), "no path returns")
			}
		})
	}
}

// asksQueue: h answers whether the queue holds a file.
func (c *Ctx) asksQueue(s *Sc, o Out, h *Term) bool {
	if h.op != OClosure || h.fn == nil {
		return false
	}
	x := s.e.u.Sym("&some file")
	n := 0
	for _, r := range s.e.exec(h.fn, []*Term{x}, h.args, o.st.fork(), "has", nil, nil) {
		if r.kind != "return" {
			continue
		}
		n++
		t := r.ret[0]
		if t.op != OCall || t.s != "queue.Queue.Check" || t.args[0] != s.old("c.files") || t.args[1] != x {
			return false
		}
	}
	return n > 0
}

const weightSumField = "files.Manager.weightSum"

func ruleWeightSum(c *Ctx) {
	seen := map[*ssa.Function]bool{}
	note := func(e *Engine) {
		for f := range e.funcsSeen {
			seen[f] = true
		}
	}
	c.guarded("mean", func() {
		s := c.sc("files.Manager.GetWeightMedian", "s")
		s.ensure("mean weight", "GetWeightMedian", "ret0 == s.weightSum / float64(len(s.Data))")
	})
	// a request
	for _, known := range []bool{true, false} {
		known := known
		con := "WeightFun.BeforeRequest"
		c.guarded(con, func() {
			e := c.engine()
			m := c.fn("cache.WeightFun.BeforeRequest")
			mean := map[*ssa.Function]bool{}
			for _, f := range c.w.funcs {
				// a query of the request times is an uninterpreted value here
				if f.Signature.Recv() != nil && inRepoFn(f) && strings.HasSuffix(f.Signature.Recv().Type().String(), "files.Stats") && len(c.w.rw(f).mod) == 0 && !c.w.rw(f).events {
					for k := range c.w.rw(f).ref {
						mean[f] = mean[f] || strings.HasSuffix(k, ".RequestedTimes")
					}
				}
			}
			e.opaque = func(f *ssa.Function) bool { return mean[f] }
			s := c.scOn(e, m, con, "c", "req", "hit")
			if known {
				s.assume("in(c.stats.Data, req.Filename)")
			} else {
				s.assume("!in(c.stats.Data, req.Filename)")
			}
			n := 0
			for _, o := range s.returns() {
				n++
				c.check("request", con, len(o.st.events) == 0, o.pos, "a request does %v", o.st.events)
			}
			c.check("request", con, n > 0, m.Pos(), "no path returns")
			if known {
				s.ensure("sum follows the weight", con, "c.stats.weightSum == old(c.stats.weightSum) + ret0.Weight - old(c.stats.Data[req.Filename].Weight)")
			} else {
				s.ensure("sum follows the weight", con, "c.stats.weightSum == old(c.stats.weightSum) + ret0.Weight")
			}
			u := e.u
			for _, o := range s.returns() {
				st := o.ret[0]
				get := func(f string) *Term { return e.readAt(o.st, u.Field(st, "files.Stats."+f)) }
				w := get("Weight")
				ok := w.op == OCall && strings.HasPrefix(w.s, "dyn#") && len(w.args) == 7
				if ok {
					want := []*Term{s.old("c.weightFunction"), get("Frequency"), get("Size"), get("RequestedTimesMean"), s.old("c.fParams.Alpha"), s.old("c.fParams.Beta"), s.old("c.fParams.Gamma")}
					for i, x := range want {
						ok = ok && w.args[i] == x
					}
				}
				c.check("weight of the file", con, ok, o.pos, "the weight becomes %s", w)
				c.check("mean age", con, contains(get("RequestedTimesMean"), func(x *Term) bool {
					if x.op != OCall {
						return false
					}
					for f := range mean {
						if strings.HasPrefix(x.s, "fn:"+fnName(f)) {
							return true
						}
					}
					return false
				}), o.pos, "the mean age is %s", get("RequestedTimesMean"))
			}
			note(e)
			for f := range mean {
				seen[f] = true
			}
		})
	}
	// the mean age of the requests
	c.guarded("mean age", func() {
		s := c.sc("files.Stats.updateWeight", "s", "fun", "a", "b", "g")
		s.e.precise = true
		u := s.e.u
		con := "updateWeight"
		for _, o := range s.returns() {
			loops := 0
			var sum *Term
			for _, ev := range o.st.events {
				if ev.kind != "loop" {
					continue
				}
				loops++
				l := ev.loop
				c.check("mean age", con, l.trip == s.old("len(s.RequestedTimes)"), ev.pos, "the mean is over %s times", l.trip)
				for _, it := range l.iters {
					at := s.e.readAt(s.pre, u.Index(s.old("s.RequestedTimes"), l.k, "e:time.Time"))
					for a, v := range it.start {
						if a.op == OIndex {
							at = v
						}
					}
					zero := it.truth(u, u.Call("(time.Time).IsZero", at))
					add := u.Call("(time.Time).Sub", s.old("s.StatLastUpdateTime"), at)
					for _, p := range it.phis {
						if isNum(u.Sub(p[0], l.k)) {
							continue
						}
						sum = p[0]
						ok := zero == 1 && p[1] == p[0] || zero == 0 && isZero(u.Sub(u.Sub(p[1], p[0]), add))
						c.check("mean age", con, ok, ev.pos, "a request adds %s where %s", u.Sub(p[1], p[0]), factsString(it.facts))
					}
				}
			}
			c.check("mean age", con, loops == 1 && sum != nil, o.pos, "%d loops over the request times", loops)
			mean := s.e.readAt(o.st, u.Field(s.arg("s"), "files.Stats.RequestedTimesMean"))
			ok := isZero(mean)
			if !ok {
				t := u.Scale(mean, big.NewRat(32, 1))
				ok = t.op == OCall && t.s == "(time.Duration).Minutes" && t.args[0].op == OSym
			}
			c.check("mean age", con, ok, o.pos, "the mean is %s", mean)
			c.check("new weight is returned", con, o.ret[0] == s.e.readAt(o.st, u.Field(s.arg("s"), "files.Stats.Weight")), o.pos, "the result is %s", o.ret[0])
		}
	})
	// forgetting all weights
	c.guarded("Clear", func() {
		s := c.sc("files.Manager.Clear", "s")
		u := s.e.u
		s.ensure("cleared", "Clear", "s.weightSum == 0")
		note(s.e)
		for _, o := range s.returns() {
			n := 0
			for _, ev := range o.st.events {
				if ev.kind != "loop" {
					continue
				}
				for _, it := range ev.loop.iters {
					n++
					ok := false
					for a, v := range it.writes {
						if a.op == OField && a.s == "files.Stats.Weight" {
							ok = isZero(v) && contains(a, func(x *Term) bool { return x.op == OCall && x.s == "rkey" && x.args[1] == ev.loop.k })
						}
					}
					c.check("cleared", "Clear", ok && ev.loop.trip == s.old("len(s.Data)"), ev.pos, "a weight stays")
				}
			}
			c.check("cleared", "Clear", n > 0, o.pos, "no loop over the files")
		}
		_ = u
	})
	// an empty start
	c.guarded("Clear", func() {
		s := c.sc("cache.WeightFun.Clear", "c")
		s.ensure("cleared", "WeightFun.Clear", "c.stats.weightSum == 0 && len(c.stats.Data) == 0")
		note(s.e)
	})
	// a purge
	c.guarded("Purge", func() {
		s := c.sc("files.Manager.Purge", "s", "has")
		s.setBool("s.calcWeight", true)
		s.run()
		note(s.e)
		c.sumInLoops(s, "Purge", s.arg("s"), s.old("s.Data"), "s.Data")
	})
	// a loaded dump
	c.guarded("Loads", func() {
		s := c.sc("cache.WeightFun.Loads", "c", "lines", "x")
		s.setBool("c.stats.calcWeight", true)
		s.run()
		note(s.e)
		base := s.arg("c")
		if a, _ := s.addr("c.stats"); a != nil {
			base = a
		}
		c.sumInLoops(s, "WeightFun.Loads", base, s.old("c.stats.Data"), "c.stats.Data")
	})
	// every writer has been seen
	root := map[*ssa.Function]bool{}
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(c.w.lookupType("cache.WeightFun")))
	for i := 0; i < ms.Len(); i++ {
		if f := c.w.prog.FuncValue(ms.At(i).Obj().(*types.Func)); f != nil && !(helper(f) && !f.Object().Exported()) {
			root[f] = true
		}
	}
	reach := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || reach[f] || !inRepoFn(f) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for f := range root {
		walk(f)
	}
	n := 0
	for f := range reach {
		w := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(deref(fa.X.Type()), fa.Field)
						if k == weightSumField || k == "files.Stats.Weight" {
							if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
								w = k
							}
						}
					}
				case *ssa.MapUpdate:
					if strings.HasSuffix(x.Map.Type().String(), "]*simulator/v2/cache/files.Stats") {
						w = "the set of files"
					}
				}
			}
		}
		if w != "" {
			n++
			c.check("accounted writers", "writers", seen[f], f.Pos(), "%s writes %s outside of the analysed accounting", fnName(f), w)
		}
	}
	c.check("accounted writers", "writers", n >= 4, token.NoPos, "only %d writers of the weights were found", n)
}

// sumInLoops: in every iteration the sum of weights changes by the weights
// that enter or leave the set of files.
func (c *Ctx) sumInLoops(s *Sc, con string, base, data *Term, path string) {
	e, u := s.e, s.e.u
	_, mt := s.addr(path)
	sum := u.Field(base, weightSumField)
	n := 0
	for _, o := range s.outs {
		for _, ev := range o.st.events {
			if ev.kind != "loop" {
				continue
			}
			l := ev.loop
			start := map[*Term]*Term{}
			for _, it := range l.iters {
				for a, v := range it.start {
					start[a] = v
				}
			}
			val := func(a *Term) *Term {
				if v, ok := start[a]; ok {
					return v
				}
				return e.readAt(s.pre, a)
			}
			for _, it := range l.iters {
				want := u.Int(0)
				undecided := false
				for a, v := range it.writes {
					if a.op != OMapIn || a.args[0] != data {
						continue
					}
					at, in, _ := e.mapAddr(data, a.args[1], mt)
					was := it.truth(u, val(in))
					if v == u.Bool(false) {
						was = 1 // it is an entry the loop ranges over
					}
					old := e.readAt(s.pre, u.Field(val(at), "files.Stats.Weight"))
					if was < 0 {
						undecided = true
					}
					if was == 1 {
						want = u.Sub(want, old)
					}
					if v == u.Bool(true) {
						obj := it.writes[at]
						if obj == nil {
							undecided = true
							continue
						}
						var data *Term
						for _, x := range it.events {
							if x.kind == "call" && x.name == "encoding/json.Unmarshal" && x.args[1] == obj {
								data = x.args[0]
							}
						}
						if w := it.made[u.Field(obj, "files.Stats.Weight")]; data == nil && w != nil {
							want = u.Add(want, w)
							continue
						}
						if data == nil {
							undecided = true
							continue
						}
						want = u.Add(want, u.Call("decoded.Weight", data))
					}
				}
				got := u.Int(0)
				if w, ok := it.writes[sum]; ok {
					got = u.Sub(w, it.start[sum])
				}
				n++
				c.check("sum follows the files", con, !undecided && isZero(u.Sub(got, want)), ev.pos, "the sum changes by %s and the files by %s where %s", got, want, factsString(it.facts))
			}
		}
	}
	c.check("sum follows the files", con, n > 1, s.fn.Pos(), "no loop over the files")
}
