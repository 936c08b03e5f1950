package main

import (
	"go/token"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P12", 50, "for every report row written by the simulation: the header cell of a column decides which accessor value stands in that column of every row", ruleReport)
	register("P14", 7, "truth table of every iteration of the record loop: day boundary, report, clearing, window counters", ruleWindows)
	register("P17", 20, "truth table of every iteration of the record loop: exactly one category per record, by its declared condition", ruleRecords)
	register("P18", 6, "truth tables of every record filter, over all combinations of its atomic conditions", ruleFilters)
	register("P21", 12, "order of the life cycle steps of a simulation run on every path: load, clear, requests, dump, tables, terminate", ruleRunCycle)
}

// simulate is a scenario of cache.Simulate; the reader, the request entry and
// the dump functions are opaque.
func (c *Ctx) simulate() *Sc {
	e := c.engine()
	op := map[*ssa.Function]bool{}
	for _, n := range []string{"cache.GetFile", "cache.Load", "cache.Loads", "cache.Dump", "cache.OpenSimFile", "cache.OpenSimFolder", "cache.GetSimulationRunNum",
		"cache.OutputCSV.Create", "cache.OutputCSV.Write", "cache.OutputCSV.Close"} {
		if f := c.fn(n); f != nil {
			op[f] = true
		} else {
			c.missing(n)
		}
	}
	e.opaque = func(f *ssa.Function) bool { return op[f] }
	e.maxStates *= 8
	e.precise = true
	return c.scOn(e, c.fn("cache.Simulate"), "Simulate", "cacheType", "cacheInstance", "param")
}

func (s *Sc) plainRun(cacheType string) {
	s.setBool("param.LoadDump", false)
	s.setBool("param.Dump", false)
	s.setStr("param.CPUprofile", "")
	s.setStr("param.MEMprofile", "")
	if cacheType != "" {
		s.give("cacheType", s.e.u.Str(cacheType))
	}
}

// recordLoop is the loop that receives the records.
func recordLoops(outs []Out) []*LoopInfo {
	seen := map[*LoopInfo]bool{}
	var r []*LoopInfo
	for _, o := range outs {
		for _, ev := range o.st.events {
			if ev.kind != "loop" || seen[ev.loop] {
				continue
			}
			for _, it := range ev.loop.iters {
				if recordOf(it) != nil && !seen[ev.loop] {
					seen[ev.loop] = true
					r = append(r, ev.loop)
				}
			}
		}
	}
	return r
}

func recordOf(it *IterOut) *Term {
	for _, ev := range it.events {
		if ev.kind == "recv" && ev.ret != nil {
			if ev.ret.op == OTuple {
				return ev.ret.args[0]
			}
			return ev.ret
		}
	}
	return nil
}

// next is the value of t after the iteration.
func (it *IterOut) next(u *U, k, t *Term) *Term {
	return u.Rewrite(t, func(x *Term) *Term {
		if x == k {
			return u.Add(k, u.Int(1))
		}
		if x.op != OSym {
			return nil
		}
		for _, p := range it.phis {
			if p[0] == x {
				return p[1]
			}
		}
		for a, s := range it.start {
			if s == x {
				if w, ok := it.writes[a]; ok {
					return w
				}
			}
		}
		return nil
	})
}

// carried lists the values a loop carries from iteration to iteration.
func carried(l *LoopInfo) []*Term {
	n := map[*Term]int{}
	for _, it := range l.iters {
		seen := map[*Term]bool{}
		for _, p := range it.phis {
			seen[p[0]] = true
		}
		for _, s := range it.start {
			seen[s] = true
		}
		for t := range seen {
			if t.op == OSym {
				n[t]++
			}
		}
	}
	var r []*Term
	for t := range n {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// truth of a boolean term in an iteration: 1, 0, or -1 when it is open.
func (it *IterOut) truth(u *U, t *Term) int { return u.decide(&State{facts: it.facts}, t) }

func (s *Sc) recField(rec *Term, f string) *Term {
	n := "cache.CSVRecord." + f
	return s.e.fieldOfValue(rec, n)
}

// fieldOfValue is a field of a struct value that was received or returned.
func (e *Engine) fieldOfValue(v *Term, name string) *Term { return e.u.Call("fld:"+name, v) }

func allTrue(xs ...int) int {
	r := 1
	for _, x := range xs {
		if x == 0 {
			return 0
		}
		if x < 0 {
			r = -1
		}
	}
	return r
}

func anyTrue(xs ...int) int {
	r := 0
	for _, x := range xs {
		if x == 1 {
			return 1
		}
		if x < 0 {
			r = -1
		}
	}
	return r
}

func not(x int) int {
	if x < 0 {
		return x
	}
	return 1 - x
}

// filterPasses is the outcome of an optional filter of the parameters.
func (s *Sc) filterPasses(it *IterOut, field string, rec *Term) int {
	u := s.e.u
	f := s.old("param." + field)
	if it.truth(u, u.EQ(f, u.Nil())) == 1 {
		return 1
	}
	for t, v := range it.facts {
		if t.op == OCall && t.s == "cache.Filter.Check" && t.args[0] == f && isRecord(t.args[1], rec) {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func isRecord(t, rec *Term) bool {
	if t == rec {
		return true
	}
	if t.op != OStruct {
		return false
	}
	for _, a := range t.args {
		if a.op != OCall || !strings.HasPrefix(a.s, "fld:") || a.args[0] != rec {
			return false
		}
	}
	return true
}

// statField is the term that ends in a field of the run statistics.
func (s *Sc) statField(o Out, field string) *Term {
	for _, ev := range o.st.events {
		for _, a := range ev.args {
			var r *Term
			contains(a, func(x *Term) bool {
				if x.op == OStruct && strings.HasSuffix(x.s, "SimulationStats") {
					for _, n := range s.c.w.named {
						if n.Obj().Name() != "SimulationStats" {
							continue
						}
						for i := 0; i < len(x.args); i++ {
							if fieldName(n, i) == field {
								r = x.args[i]
							}
						}
					}
				}
				return r != nil
			})
			if r != nil {
				return r
			}
		}
	}
	return nil
}

func ruleRecords(c *Ctx) {
	c.guarded("Simulate", func() {
		s := c.simulate()
		s.plainRun("lru")
		u := s.e.u
		outs := s.returns()
		loops := recordLoops(outs)
		c.check("record loop", "Simulate", len(loops) >= 1, s.fn.Pos(), "no loop receives records")
		if len(loops) == 0 {
			return
		}
		cats := map[string]*Term{}
		names := []string{"TotNumRecords", "TotFilteredRecords", "TotJumpedRecords", "TotInvalidRecords", "TotRedirectedRecords", "SizeRedirectedRecords"}
		for _, n := range names {
			cats[n] = s.statField(outs[0], n)
			if cats[n] == nil {
				c.check("reported", n, false, s.fn.Pos(), "the run statistics have no %s", n)
				return
			}
			for _, o := range outs {
				c.check("reported", n, s.statField(o, n) == cats[n], o.pos, "%s is reported as %s", n, s.statField(o, n))
			}
			start := u.Rewrite(cats[n], func(x *Term) *Term {
				if x == loops[0].k {
					return u.Int(0)
				}
				return nil
			})
			_ = start
		}
		// the window counter is the carried value that explains the jumped records
		var wc *Term
		var why string
		for _, l := range loops {
			for _, t := range carried(l) {
				ok, n := true, 0
				for _, it := range l.iters {
					j := isOne(u, u.Sub(it.next(u, l.k, cats["TotJumpedRecords"]), cats["TotJumpedRecords"]))
					x := it.truth(u, u.LT(u.Sub(it.next(u, l.k, t), s.old("param.WindowStart")), true))
					if x < 0 || (x == 1) != j {
						ok = false
						break
					}
					if j {
						n++
					}
				}
				if ok && n > 0 {
					wc = t
				}
			}
			c.check("jumped records", "Simulate", wc != nil, l.pos, "no counter decides which records are jumped: a record is not jumped exactly if its window is before the first one")
			if wc == nil {
				return
			}
			counts := map[string]int{}
			for _, it := range l.iters {
				rec := recordOf(it)
				if rec == nil {
					c.check("category", "Simulate", false, l.pos, "an iteration receives no record")
					continue
				}
				fld := func(f string) *Term { return s.recField(rec, f) }
				d := func(n string) *Term { return u.Sub(it.next(u, l.k, cats[n]), cats[n]) }
				one := func(n string) bool { return isOne(u, d(n)) }
				c.check("every record counts once", "total", one("TotNumRecords"), l.pos, "the number of records grows by %s where %s", d("TotNumRecords"), factsString(it.facts))
				calls := 0
				var call *Event
				for _, ev := range it.events {
					if ev.kind == "fn" && strings.HasSuffix(ev.name, "cache.GetFile") {
						calls++
						call = ev
					}
				}
				n := calls
				for _, x := range []string{"TotFilteredRecords", "TotJumpedRecords", "TotInvalidRecords"} {
					if one(x) {
						n++
						counts[x]++
					} else {
						c.check("category", x, isZero(d(x)), l.pos, "the counter grows by %s", d(x))
					}
				}
				c.check("category", "exactly one", n == 1, l.pos, "a record is in %d categories where %s", n, factsString(it.facts))
				jumped := it.truth(u, u.LT(u.Sub(it.next(u, l.k, wc), s.old("param.WindowStart")), true))
				success := allTrue(it.truth(u, fld("JobSuccess")), it.truth(u, u.EQ(fld("JobExecExitCode"), u.Int(0))))
				pass := allTrue(success, s.filterPasses(it, "DataTypeFilter", rec), s.filterPasses(it, "RecordFilter", rec))
				eff := u.Mul(u.Div(fld("CPUTime"), u.Add(fld("CPUTime"), fld("IOTime"))), u.Int(100))
				bad := anyTrue(it.truth(u, u.LT(eff, false)), it.truth(u, u.LT(u.Sub(u.Int(100), eff), false)),
					it.truth(u, u.Call("math.IsInf", eff, u.Int(0))), it.truth(u, u.Call("math.IsNaN", eff)))
				switch {
				case one("TotJumpedRecords"):
					c.check("jumped", "Simulate", jumped == 1, l.pos, "a record is jumped where %s", factsString(it.facts))
				case one("TotFilteredRecords"):
					c.check("filtered", "Simulate", jumped == 0 && pass == 0, l.pos, "a record is filtered where %s", factsString(it.facts))
				case one("TotInvalidRecords"):
					c.check("invalid", "Simulate", jumped == 0 && pass == 1 && bad == 1, l.pos, "a record is invalid where %s", factsString(it.facts))
				case call != nil:
					counts["served"]++
					c.check("served", "Simulate", jumped == 0 && pass == 1 && bad == 0, l.pos, "a record is requested where %s", factsString(it.facts))
					want := []*Term{fld("Filename"), fld("SizeM"), fld("Protocol"), eff, fld("Day"), fld("SiteName"), fld("UserID"), fld("FileType")}
					ok := call.args[0] == s.e.strip(s.arg("cacheInstance"))
					got := call.args[1]
					ok = ok && got.op == OSeq && len(got.args) == len(want)
					if ok {
						for i, w := range want {
							ok = ok && s.e.strip(got.args[i].args[0]) == w
						}
					}
					c.check("request", "Simulate", ok, l.pos, "the cache is asked with %s", got)
					red := -1
					if call.ret != nil && call.ret.op == OTuple {
						red = it.truth(u, call.ret.args[1])
					}
					if red == 1 {
						counts["redirected"]++
					}
					c.check("redirected", "count", red >= 0 && (red == 1) == one("TotRedirectedRecords") && (red == 1 || isZero(d("TotRedirectedRecords"))), l.pos, "the redirected records grow by %s where %s", d("TotRedirectedRecords"), factsString(it.facts))
					size := u.Int(0)
					if red == 1 {
						size = fld("SizeM")
					}
					c.check("redirected", "volume", d("SizeRedirectedRecords") == size, l.pos, "the redirected volume grows by %s", d("SizeRedirectedRecords"))
				}
				if call == nil {
					c.check("redirected", "count", isZero(d("TotRedirectedRecords")) && isZero(d("SizeRedirectedRecords")), l.pos, "redirected records are counted without a request")
				}
			}
			for _, x := range []string{"TotFilteredRecords", "TotJumpedRecords", "TotInvalidRecords", "served", "redirected"} {
				c.check("reachable", x, counts[x] > 0, l.pos, "no path counts %s", x)
			}
		}
		_ = why
	})
}

func isOne(u *U, t *Term) bool { return isZero(u.Sub(t, u.Int(1))) }

// longer: the facts decide whether cur is at least 23 hours after latest.
func (s *Sc) newDay(it *IterOut, cur, latest *Term) int {
	u := s.e.u
	d := u.Call("(time.Time).Sub", cur, latest)
	if r := it.truth(u, u.LT(u.Sub(u.Call("(time.Duration).Hours", d), u.Int(23)), false)); r >= 0 {
		return not(r)
	}
	return not(it.truth(u, u.LT(u.Sub(d, u.Int(23*3600*1000000000)), true)))
}

func isWrite(ev *Event) bool {
	return ev.kind == "call" && ev.name == "(*encoding/csv.Writer).Write" || ev.kind == "fn" && strings.HasSuffix(ev.name, "cache.OutputCSV).Write")
}

func ruleWindows(c *Ctx) {
	c.guarded("Simulate", func() {
		s := c.simulate()
		s.plainRun("lru")
		u := s.e.u
		outs := s.returns()
		loops := recordLoops(outs)
		c.check("record loop", "Simulate", len(loops) >= 1, s.fn.Pos(), "no loop receives records")
		for _, l := range loops {
			cs := carried(l)
			day := func(it *IterOut, latest *Term) (d int, cur *Term, first int) {
				cur = u.Call("time.Unix", s.recField(recordOf(it), "Day"), u.Int(0))
				first = it.truth(u, u.Call("(time.Time).IsZero", latest))
				if first == 1 {
					return 0, cur, 1
				}
				return s.newDay(it, cur, latest), cur, first
			}
			cleared := func(it *IterOut) (w, cl, req int) {
				for i, ev := range it.events {
					switch {
					case isWrite(ev):
						w = i + 1
					case ev.kind == "invoke" && ev.name == "cache.Cache.ClearStats":
						cl = i + 1
					case ev.kind == "fn" && strings.HasSuffix(ev.name, "cache.GetFile"):
						req = i + 1
					}
				}
				return
			}
			// the time of the last report
			var latest *Term
			for _, t := range cs {
				ok := true
				for _, it := range l.iters {
					if recordOf(it) == nil {
						ok = false
						break
					}
					d, cur, first := day(it, t)
					_, cl, _ := cleared(it)
					want := t
					if d == 1 || first == 1 {
						want = cur
					}
					if d < 0 || (d == 1) != (cl > 0) || it.next(u, l.k, t) != want {
						ok = false
						break
					}
				}
				if ok {
					latest = t
				}
			}
			c.check("day boundary", "Simulate", latest != nil, l.pos, "the statistics are not cleared exactly when a record is at least 23 hours after the start of the period")
			if latest == nil {
				continue
			}
			// the window counters
			var wc, step *Term
			for _, a := range cs {
				for _, b := range cs {
					if a == b || a == latest || b == latest {
						continue
					}
					ok := true
					for _, it := range l.iters {
						d, _, _ := day(it, latest)
						b1 := u.Add(b, u.Int(int64(d)))
						full := it.truth(u, u.EQ(b1, s.old("param.WindowSize")))
						a1 := u.Add(a, u.Int(1))
						if full == 0 {
							a1 = a
						} else {
							b1 = u.Int(0)
						}
						if full < 0 || it.next(u, l.k, a) != a1 || it.next(u, l.k, b) != b1 {
							ok = false
							break
						}
					}
					if ok {
						wc, step = a, b
					}
				}
			}
			c.check("windows", "Simulate", wc != nil, l.pos, "the window does not advance exactly when the configured number of days has passed")
			if wc == nil {
				continue
			}
			_ = step
			rows, silent := 0, 0
			for _, it := range l.iters {
				d, _, _ := day(it, latest)
				w, cl, req := cleared(it)
				early := it.truth(u, u.LT(u.Sub(wc, s.old("param.WindowStart")), true))
				if d == 1 {
					c.check("report row", "Simulate", early >= 0 && (early == 0) == (w > 0), l.pos, "a period ends %s a row where %s", map[bool]string{true: "with", false: "without"}[w > 0], factsString(it.facts))
					c.check("report before clearing", "Simulate", w < cl, l.pos, "the statistics are cleared before the row is written")
				} else {
					c.check("report row", "Simulate", w == 0, l.pos, "a row is written within a period")
				}
				if w > 0 {
					rows++
				} else {
					silent++
				}
				c.check("clearing before the request", "Simulate", req == 0 || cl < req, l.pos, "the first request of a period is cleared away")
				c.check("last window", "Simulate", it.truth(u, u.EQ(it.next(u, l.k, wc), s.old("param.WindowStop"))) == 0, l.pos, "the run goes on in the window it should stop at where %s", factsString(it.facts))
			}
			c.check("report row", "Simulate", rows > 0 && silent > 0, l.pos, "%d iterations write a row, %d do not", rows, silent)
		}
	})
}

// reportColumns says what stands in a column of the report.
var reportColumns = map[string]string{
	"num req": "NumRequests", "num hit": "NumHits", "num added": "NumAdded", "num deleted": "NumDeleted", "num redirected": "NumRedirected",
	"num miss after delete": "GetTotDeletedFileMiss", "size redirected": "RedirectedSize", "cache size": "GetMaxSize", "size": "Size", "capacity": "Capacity",
	"bandwidth": "Bandwidth", "bandwidth usage": "BandwidthUsage", "hit rate": "HitRate", "weighted hit rate": "WeightedHitRate", "written data": "DataWritten",
	"read data": "DataRead", "read on hit data": "DataReadOnHit", "read on miss data": "DataReadOnMiss", "deleted data": "DataDeleted", "avg free space": "AvgFreeSpace",
	"std dev free space": "StdDevFreeSpace", "CPU efficiency": "CPUEff", "CPU hit efficiency": "CPUHitEff", "CPU miss efficiency": "CPUMissEff",
	"CPU efficiency upper bound": "CPUEffUpperBound", "CPU efficiency lower bound": "CPUEffLowerBound",
}

// aiColumns: the columns of the learning cache, by the group that fills them.
var aiColumns = map[string][]struct{ name, value string }{
	"epsilonStats":          {{"Addition epsilon", "ite(c.additionAgentOK, c.additionAgent.Epsilon, -1)"}, {"Eviction epsilon", "ite(c.evictionAgentOK, c.evictionAgent.Epsilon, -1)"}},
	"valueFunctions":        {{"Addition qvalue function", "ite(c.additionAgentOK, c.additionAgent.QValue, 0)"}, {"Eviction qvalue function", "ite(c.evictionAgentOK, c.evictionAgent.QValue, 0)"}},
	"evictionStats":         {{"Eviction calls", "c.evictionAgentNumCalls"}, {"Eviction forced calls", "c.evictionAgentNumForcedCalls"}},
	"evictionCategoryStats": {{"Eviction mean num categories", ""}, {"Eviction std dev num categories", ""}},
	"actionStats": {{"Action store", "c.actionCounters[qlearn.ActionStore]"}, {"Action not store", "c.actionCounters[qlearn.ActionNotStore]"}, {"Action delete all", "c.actionCounters[qlearn.ActionDeleteAll]"},
		{"Action delete half", "c.actionCounters[qlearn.ActionDeleteHalf]"}, {"Action delete quarter", "c.actionCounters[qlearn.ActionDeleteQuarter]"},
		{"Action delete one", "c.actionCounters[qlearn.ActionDeleteOne]"}, {"Action not delete", "c.actionCounters[qlearn.ActionNotDelete]"}},
}

func ruleReport(c *Ctx) {
	for _, kind := range []string{"lru", "aiRL"} {
		kind := kind
		c.guarded("Simulate "+kind, func() { reportOf(c, kind) })
	}
	c.guarded("ExtraOutput", func() { extraColumns(c) })
}

func rowOf(ev *Event) *Term {
	r := ev.args[len(ev.args)-1]
	if r.op == OSeq {
		return r
	}
	return nil
}

func reportOf(c *Ctx, kind string) {
	s := c.simulate()
	s.plainRun(kind)
	s.setNil("param.RecordFilter")
	s.setNil("param.DataTypeFilter")
	e := s.e
	ci := e.strip(s.arg("cacheInstance"))
	seen := map[string]bool{}
	rows, headers := 0, 0
	for _, o := range s.returns() {
		var header []string
		for _, ev := range o.st.events {
			if isWrite(ev) && header == nil {
				r := rowOf(ev)
				if !c.check("header", kind, r != nil, ev.pos, "the first row is %v", ev.args) {
					return
				}
				headers++
				for _, x := range r.args {
					if x.op != OElem || x.args[0].op != OConst || x.args[0].kind != 's' {
						c.check("header", kind, false, ev.pos, "a header cell is %s", x)
						return
					}
					header = append(header, x.args[0].s)
				}
			}
			if ev.kind != "loop" {
				continue
			}
			for _, it := range ev.loop.iters {
				for _, w := range it.events {
					if !isWrite(w) || seen[w.key()] {
						continue
					}
					seen[w.key()] = true
					rows++
					r := rowOf(w)
					if r == nil {
						c.check("row", kind, false, w.pos, "a row is %v", w.args)
						continue
					}
					col := 0
					for _, x := range r.args {
						if x.op == OSpread {
							// a group of the learning cache
							g := extraGroup(x.args[0], it, ci)
							if !c.check("row", kind, g != "", w.pos, "a row has %s from column %d on", x, col) {
								return
							}
							for _, n := range aiColumns[g] {
								have := "nothing"
								if col < len(header) {
									have = header[col]
								}
								c.check("column", n.name, have == n.name, w.pos, "group %s fills column %d, which is headed %s and not %s", g, col, have, n.name)
								col++
							}
							continue
						}
						if col >= len(header) {
							c.check("row", kind, false, w.pos, "a row has more cells than the header")
							return
						}
						h := header[col]
						cell := x.args[0]
						if h == "date" {
							c.check("column", h, cell.op == OCall && cell.s == "(time.Time).String", w.pos, "the date is %s", cell)
						} else if want, ok := reportColumns[h]; ok {
							c.check("column", h, isAccessor(cell, it, ci, want), w.pos, "column %d, headed %q, has %s and not %s", col, h, cell, want)
						} else {
							c.check("column", h, false, w.pos, "column %d is headed %q, which is not a report column", col, h)
						}
						col++
					}
					c.check("row", kind+" width", col == len(header), w.pos, "a row has %d cells and the header %d", col, len(header))
				}
			}
		}
		have := map[string]bool{}
		for _, h := range header {
			c.check("header", h, !have[h], o.pos, "the header names %q twice", h)
			have[h] = true
		}
		for h := range reportColumns {
			c.check("header", h, have[h], o.pos, "the header has no column %q", h)
		}
		if kind == "aiRL" {
			for _, g := range aiColumns {
				for _, n := range g {
					c.check("header", n.name, have[n.name], o.pos, "the header has no column %q", n.name)
				}
			}
		}
	}
	c.check("row", kind+" coverage", rows > 0 && headers > 0, s.fn.Pos(), "%d rows and %d headers are written", rows, headers)
}

// isAccessor: the cell formats the value that the cache answers for a method.
func isAccessor(cell *Term, it *IterOut, ci *Term, method string) bool {
	if cell.op != OCall || !strings.HasPrefix(cell.s, "%") || len(cell.args) != 1 {
		return false
	}
	v := cell.args[0]
	if v.op == OCall && v.s == "cache.Cache."+method && v.args[0] == ci {
		return true
	}
	for _, ev := range it.events {
		if ev.kind == "invoke" && ev.name == "cache.Cache."+method && ev.recv == ci && ev.ret == v {
			return true
		}
	}
	return false
}

// extraGroup is the group name when t is the split answer of ExtraOutput.
func extraGroup(t *Term, it *IterOut, ci *Term) string {
	if t.op == OCall && t.s == "strings.Split" {
	}
	if t.op != OCall || t.s != "strings.Split" || t.args[1].op != OConst || t.args[1].s != "," {
		return ""
	}
	v := t.args[0]
	if v.op == OCall && v.s == "cache.Cache.ExtraOutput" && v.args[0] == ci && v.args[1].op == OConst {
		return v.args[1].s
	}
	for _, ev := range it.events {
		if ev.kind == "invoke" && ev.name == "cache.Cache.ExtraOutput" && ev.recv == ci && ev.ret == v && ev.args[0].op == OConst {
			return ev.args[0].s
		}
	}
	return ""
}

func commas(u *U, t *Term) []*Term {
	parts := []*Term{t}
	if t.op == OCat {
		parts = t.args
	}
	var r []*Term
	cell := true
	for _, p := range parts {
		if p.op == OConst && p.kind == 's' {
			// a constant can have separators and cells
			for i, x := range strings.Split(p.s, ",") {
				if i > 0 {
					cell = true
				}
				if x == "" {
					continue
				}
				if !cell {
					return nil
				}
				v := u.Str(x)
				if q, ok := new(big.Rat).SetString(x); ok {
					v = u.Num(q)
				}
				r = append(r, v)
				cell = false
			}
			continue
		}
		if !cell {
			return nil
		}
		r = append(r, p)
		cell = false
	}
	return r
}

func extraColumns(c *Ctx) {
	var fn *ssa.Function
	for _, m := range c.impls("cache.Cache", "ExtraOutput") {
		if m.name == "AIRL" {
			fn = m.fn
		}
	}
	if fn == nil {
		c.missing("AIRL.ExtraOutput")
		return
	}
	divides := func(e *Engine, con string) {
		e.onDiv = func(st *State, by *Term, pos token.Pos) {
			c.check("no division by zero", con, e.u.decide(st, e.u.EQ(by, e.u.Int(0))) == 0, pos, "divides by %s, which may be zero", by)
		}
	}
	for _, m := range c.impls("cache.Cache", "ExtraStats") {
		m := m
		c.guarded(m.name+".ExtraStats", func() {
			e := c.engine()
			divides(e, m.name+".ExtraStats")
			s := c.scOn(e, m.fn, m.name+".ExtraStats", "c")
			c.check("no division by zero", m.name+".ExtraStats", len(s.returns()) > 0, m.fn.Pos(), "no path answers")
		})
	}
	for g, cols := range aiColumns {
		e := c.engine()
		divides(e, "group "+g)
		s := c.scOn(e, fn, "AIRL.ExtraOutput", "c", "info")
		s.give("info", s.e.u.Str(g))
		n := 0
		for _, o := range s.returns() {
			n++
			cells := commas(s.e.u, o.ret[0])
			if !c.check("group", g, len(cells) == len(cols), o.pos, "group %s is %s", g, o.ret[0]) {
				continue
			}
			for i, x := range cols {
				if x.value == "" {
					continue
				}
				cell := cells[i]
				if cell.op == OCall && strings.HasPrefix(cell.s, "%") && len(cell.args) == 1 {
					cell = cell.args[0]
				}
				s.env["·cell"] = s.env["c"]
				ok := false
				for _, a := range s.value(o, x.value) {
					if a.v.t == cell {
						ok = true
					}
				}
				c.check("group", g+" "+x.name, ok, o.pos, "the cell of %s is %s", x.name, cell)
			}
		}
		c.check("group", g, n > 0, fn.Pos(), "no path answers")
	}
}

func ruleFilters(c *Ctx) {
	for _, f := range []struct{ name, want string }{
		{"SuccessJob", "r.JobSuccess && r.JobExecExitCode == 0"},
		{"UsDataMcTypes", "r.DataType == 0 || r.DataType == 3"},
		{"ItDataMcTypes", "r.DataType == 0 || r.DataType == 1"},
		{"UsMINIAODNOT1andT3", "(r.FileType == 2 || r.FileType == 9) && r.SiteName < 9"},
		{"UsMINIAODNOFNALLPCNOT1FNALLFilter", "(r.FileType == 2 || r.FileType == 9) && r.SiteName != 9 && r.SiteName != 16"},
		{"UsMINIAODandNOFNALLPCFilter", "(r.FileType == 2 || r.FileType == 9) && r.SiteName != 16"},
	} {
		f := f
		c.guarded(f.name, func() {
			s := c.scOn(c.engine(), c.fn("cache."+f.name+".Check"), f.name+".Check", "filter", "r")
			s.e.precise = true
			s.ensure("filter", f.name, "ret0 == ("+f.want+")")
			yes, no := 0, 0
			for _, o := range s.returns() {
				if x := s.e.u.decide(o.st, o.ret[0]); x == 1 {
					yes++
				} else if x == 0 {
					no++
				}
			}
			c.check("filter", f.name, yes+no > 0 && len(s.kind("panic")) == 0, s.fn.Pos(), "no answer")
		})
	}
	known := map[string]bool{"SuccessJob": true, "UsDataMcTypes": true, "ItDataMcTypes": true, "UsMINIAODNOT1andT3": true, "UsMINIAODNOFNALLPCNOT1FNALLFilter": true, "UsMINIAODandNOFNALLPCFilter": true}
	n := 0
	for _, t := range c.implementers("cache.Filter") {
		if known[t.Obj().Name()] {
			n++
		}
	}
	c.check("coverage", "filters", n >= 6, token.NoPos, "%d of the six filters are there", n)
}

func ruleRunCycle(c *Ctx) {
	name := func(ev *Event) string {
		n := ev.name
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		return n
	}
	for _, kind := range []string{"lru", "aiRL", "profiled"} {
		kind := kind
		c.guarded("Simulate "+kind, func() {
			s := c.simulate()
			s.e.precise = true
			s.setStr("param.CPUprofile", "")
			s.setStr("param.MEMprofile", "")
			if kind == "profiled" {
				kind = "lru"
				s.setStr("param.CPUprofile", "cpu")
				s.setStr("param.MEMprofile", "mem")
				s.setBool("param.LoadDump", false)
			}
			s.setNil("param.RecordFilter")
			s.setNil("param.DataTypeFilter")
			s.give("cacheType", s.e.u.Str(kind))
			e, u := s.e, s.e.u
			// the record loop is summarised, its body is not the subject
			ci := e.strip(s.arg("cacheInstance"))
			n := 0
			for _, o := range s.returns() {
				n++
				truth := func(p string) int { return u.decide(o.st, s.old("param."+p)) }
				load, dump, cold, noStats := truth("LoadDump"), truth("Dump"), truth("ColdStart"), truth("ColdStartNoStats")
				pos := map[string]int{}
				var evOf = map[string]*Event{}
				var extra []string
				for i, ev := range o.st.events {
					x := name(ev)
					if ev.kind == "loop" {
						for _, it := range ev.loop.iters {
							if recordOf(it) != nil {
								pos["records"] = i + 1
							}
						}
						continue
					}
					on := ev.kind == "fn" && len(ev.args) > 0 && ev.args[0] == ci || ev.kind == "invoke" && ev.recv == ci
					if !on {
						continue
					}
					if x == "ExtraOutput" && len(ev.args) > 0 && ev.args[0].op == OConst {
						x = ev.args[0].s
						extra = append(extra, x)
					}
					if pos[x] > 0 {
						c.check("once", x, false, ev.pos, "%s happens twice", x)
					}
					pos[x], evOf[x] = i+1, ev
				}
				fact := factsString(o.st.facts)
				// loading
				c.check("load", kind, load >= 0 && (load == 1) == (pos["Load"] > 0) && (load == 1) == (pos["Loads"] > 0), o.pos, "a dump is loaded: %v, although the parameter says %v", pos["Load"] > 0, load == 1)
				if ev := evOf["Load"]; ev != nil {
					c.check("load", kind+" name", ev.args[1] == s.old("param.LoadDumpFileName"), ev.pos, "the dump is read from %s", ev.args[1])
				}
				if ev, l := evOf["Loads"], evOf["Load"]; ev != nil && l != nil {
					c.check("load", kind+" content", ev.args[1] == l.ret && pos["Load"] < pos["Loads"], ev.pos, "the content loaded is %s", ev.args[1])
					if kind == "aiRL" {
						v := ev.args[2]
						ok := v.op == OSeq && len(v.args) == 2 && e.strip(v.args[0].args[0]) == s.old("param.AIRLEpsilonStart") && e.strip(v.args[1].args[0]) == s.old("param.AIRLEpsilonDecay")
						c.check("load", kind+" epsilon", ok, ev.pos, "the exploration parameters are %s", v)
					}
				}
				wantClear := load == 1 && cold == 1 && noStats == 1
				wantFiles := load == 1 && cold == 1 && noStats == 0
				c.check("cold start", kind+" without statistics", wantClear == (pos["Clear"] > 0), o.pos, "cleared: %v where %s", pos["Clear"] > 0, fact)
				c.check("cold start", kind+" with statistics", wantFiles == (pos["ClearFiles"] > 0), o.pos, "files cleared: %v where %s", pos["ClearFiles"] > 0, fact)
				for _, x := range []string{"Clear", "ClearFiles"} {
					c.check("order", kind+" "+x, pos[x] == 0 || pos[x] > pos["Loads"] && pos[x] < pos["records"], o.pos, "%s is not between loading and the first record", x)
				}
				c.check("order", kind+" load", pos["Loads"] == 0 || pos["Loads"] < pos["records"], o.pos, "the dump is loaded after the first record")
				// the end
				c.check("dump", kind, dump >= 0 && (dump == 1) == (pos["Dump"] > 0), o.pos, "dumped: %v where %s", pos["Dump"] > 0, fact)
				if ev := evOf["Dump"]; ev != nil {
					c.check("dump", kind+" name", ev.args[1] == s.old("param.DumpFileName") && ev.args[2] == s.old("param.DumpFilesAndStats"), ev.pos, "the dump goes to %s with %s", ev.args[1], ev.args[2])
					c.check("order", kind+" dump", pos["Dump"] > pos["records"], o.pos, "the dump is written before the records")
				}
				c.check("terminate", kind, pos["Terminate"] > 0 && pos["Terminate"] > pos["records"], o.pos, "the cache is not terminated after the records")
				if kind == "aiRL" {
					for _, x := range []string{"additionQTable", "evictionQTable"} {
						c.check("tables", x, pos[x] > pos["records"], o.pos, "the table is not saved after the records")
					}
				} else {
					c.check("tables", kind, len(extra) == 0, o.pos, "tables are saved for a cache without agents: %v", extra)
				}
			}
			c.check("cycle", kind, n > 0, s.fn.Pos(), "no path ends")
		})
	}
}
