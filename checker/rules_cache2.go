package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", 6, "contract on every admission: a file is accepted only when the facts of the path imply that the accounted size stays within the capacity", ruleCapacity)
	register("P03", 12, "event summaries of every UpdatePolicy implementation: reported additions, queue insertions and queue updates per path", ruleAdmissionTruth)
	register("P30", 6, "truth table of the admission decision of every deterministic policy when there is room", ruleAdmissionPolicy)
	register("P43", 20, "event summaries of every UpdatePolicy implementation for a hit, a file that fits, a refused and an admitted file without room: when victims are asked for, and for which volume", ruleMakeRoom)
	register("P04", 10, "event order and argument wiring on every path of the request entry point for every number of supplied fields", rulePipeline)
	register("P07", 8, "closed form summary of Free: victims asked for, counters, returned volume and removal list agree", ruleFree)
	register("P08", 4, "contract and event rules on every CheckRedirect implementation", ruleRedirect)
	register("P09", 3, "event rules on CheckWatermark for every watermark configuration", ruleWatermark)
	register("P10", 20, "every counter behind a reported metric has its empty value after ClearStats; content and clock are kept; Clear empties everything", ruleReset)
	register("P11", 6, "contract on Check and on the deleted-file miss bookkeeping", ruleCheckEffects)
	register("P13", 15, "each derived metric is compared with its defining formula as a normalised expression", ruleMetrics)
}

// onlyEvents keeps events of the given interface methods.
func onlyEvents(e *Engine, names ...string) {
	e.keepEv = func(ev *Event) bool {
		if ev.kind == "loop" {
			for _, it := range ev.loop.iters {
				if len(it.events) > 0 {
					return true
				}
			}
			return false
		}
		for _, n := range names {
			if ev.name == n || ev.kind == n {
				return true
			}
		}
		return false
	}
}

// policyEngine inlines what decides on an admission and skips the rest.
func (c *Ctx) policyEngine() *Engine {
	e := c.engine()
	e.track = func(cl string) bool { return cl == "f:cache.SimpleCache.size" || cl == "f:cache.SimpleCache.MaxSize" }
	memo := map[*ssa.Function]bool{}
	e.opaque = func(f *ssa.Function) bool {
		r, ok := memo[f]
		if !ok {
			r = len(c.w.rw(f).mod) > 0 && !c.w.reaches(f, func(com *ssa.CallCommon, callee *ssa.Function) bool {
				if com.IsInvoke() && ifaceName(com.Value.Type()) == "queue.Queue" {
					return methodName(com.Method) == "insert" || methodName(com.Method) == "update"
				}
				return false
			})
			memo[f] = r
		}
		return r
	}
	onlyEvents(e, "queue.Queue.insert", "queue.Queue.update")
	return e
}

func ruleCapacity(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "UpdatePolicy") {
		m := m
		c.guarded(m.name, func() {
			e := c.policyEngine()
			s := c.scOn(e, m.fn, m.name+".UpdatePolicy", "c", "req", "st", "hit")
			s.assume("c.Size() <= c.GetMaxSize()")
			s.assume("req.Size > 0")
			s.ensure("capacity", m.name+".UpdatePolicy", "implies(ret0, c.Size() <= c.GetMaxSize())")
			n := 0
			for _, o := range s.returns() {
				n += countEv(o.st.events, "invoke", "queue.Queue.insert")
			}
			c.check("capacity", m.name+".UpdatePolicy", n > 0, m.fn.Pos(), "no path inserts a file")
		})
	}
}

func ruleAdmissionTruth(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "UpdatePolicy") {
		m := m
		for _, hit := range []bool{false, true} {
			hit := hit
			c.guarded(m.name, func() {
				e := c.policyEngine()
				s := c.scOn(e, m.fn, m.name+".UpdatePolicy", "c", "req", "st", "hit")
				s.give("hit", e.u.Bool(hit))
				con := m.name + ".UpdatePolicy"
				st := s.arg("st")
				outs := s.returns()
				c.check("returns", con, len(outs) > 0, m.fn.Pos(), "no path returns")
				for _, o := range outs {
					pos := o.pos
					ins := evs(o.st.events, "invoke", "queue.Queue.insert")
					upd := evs(o.st.events, "invoke", "queue.Queue.update")
					r := e.simp(o.st.facts, o.ret[0])
					added := e.u.decide(o.st, r)
					where := fmt.Sprintf("on the path where %s", factsString(o.st.facts))
					if hit {
						c.check("hit adds nothing", con, added == 0 && len(ins) == 0, pos, "a hit is reported as added (%v) or inserts (%d insertions) %s", r, len(ins), where)
						if m.name != "InfiniteCache" {
							c.check("hit refreshes the queue", con, len(upd) == 1 && upd[0].args[0] == st, pos, "a hit tells the queue %d times about the requested file %s", len(upd), where)
						}
						continue
					}
					c.check("miss is not an update", con, len(upd) == 0, pos, "a miss updates the queue position of a file %s", where)
					switch added {
					case 1:
						c.check("added means inserted", con, len(ins) == 1 && ins[0].args[0] == st, pos, "reported as added with %d insertions of the requested file %s", len(ins), where)
					case 0:
						c.check("not added means not inserted", con, len(ins) == 0, pos, "reported as not added but inserted %s", where)
					default:
						c.check("added is decided", con, false, pos, "result %v %s", r, where)
					}
				}
			})
		}
	}
}

// datasetRead: the dataset is the list of the configured file, all of it.
func (c *Ctx) datasetRead() {
	con := "LRUDatasetVerifier.Init"
	e := c.engine()
	e.precise = true
	base := c.fn("cache.SimpleCache.Init")
	e.opaque = func(f *ssa.Function) bool { return f == base }
	s := c.scOn(e, c.fn("cache.LRUDatasetVerifier.Init"), con, "c", "param")
	u := e.u
	n := 0
	for _, o := range s.returns() {
		if e.infeasible(o.st.facts) {
			continue
		}
		n++
		for f, v := range o.st.facts {
			if f.op == OEQ && !v && (f.args[0] == u.Nil() || f.args[1] == u.Nil()) && contains(f, func(x *Term) bool {
				return strings.HasPrefix(x.s, "?os.Open#1") || strings.Contains(x.s, "Decode") || strings.Contains(x.s, "gzip.NewReader#1") || x.s == "json.err"
			}) {
				c.check("dataset errors", con, false, o.pos, "the dataset is taken after an error: %s", f)
			}
		}
		opened := evs(o.st.events, "call", "os.Open")
		c.check("dataset file", con, len(opened) == 1 && opened[0].args[0] == s.old("param.Dataset2TestPath"), o.pos, "the dataset is not read from the configured file")
		nd, gz := evs(o.st.events, "call", "encoding/json.NewDecoder"), evs(o.st.events, "call", "compress/gzip.NewReader")
		c.check("dataset file", con, len(gz) == 1 && len(opened) == 1 && e.strip(gz[0].args[0]) == opened[0].ret.args[0], o.pos, "the configured file is not decompressed")
		for _, d := range nd {
			c.check("dataset file", con, len(gz) == 1 && e.strip(d.args[0]) == gz[0].ret.args[0], d.pos, "%s is decoded", d.args[0])
		}
		m := s.term(o, "c.datasetFileMap")
		c.check("dataset file", con, m.op == OAlloc, o.pos, "the dataset is kept in %s", m)
		var loops []*LoopInfo
		for _, ev := range o.st.events {
			if ev.kind == "loop" {
				for _, it := range ev.loop.iters {
					for a := range it.writes {
						if a.op == OMapIn && a.args[0] == m {
							loops = append(loops, ev.loop)
						}
					}
				}
			}
		}
		if !c.check("listed files", con, len(loops) == 1, o.pos, "%d loops fill the dataset", len(loops)) {
			continue
		}
		l := loops[0]
		for _, it := range l.iters {
			n := 0
			for a, v := range it.writes {
				if a.op != OMapIn || a.args[0] != m {
					continue
				}
				n++
				key := untag(a.args[1])
				ok := key.op == OIndex && key.args[1] == l.k && l.trip == u.Len(key.args[0])
				list := key
				if ok {
					list = key.args[0]
					ok = strings.HasSuffix(list.String(), ".SelectedFiles")
				}
				c.check("listed files", con, ok && v == u.Bool(true), l.pos, "the dataset has %s of %s, %s times", a.args[1], list, l.trip)
			}
			c.check("listed files", con, n == 1, l.pos, "%d files are noted for one of the list", n)
		}
		c.check("listed files", con, len(l.iters) > 0, l.pos, "no file is taken")
	}
	c.check("dataset file", con, n > 0, s.fn.Pos(), "no path reads a dataset")
	// and it stays that list
	for _, n := range c.implementers("cache.Cache") {
		ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			m := c.w.prog.FuncValue(ms.At(i).Obj().(*types.Func))
			if m == nil || typeName(deref(m.Signature.Recv().Type())) != "cache.LRUDatasetVerifier" || methodName(ms.At(i).Obj()) == "Init" {
				continue
			}
			if !c.w.calledOutside(m, s.fn) {
				continue
			}
			for cl := range c.w.rw(m).mod {
				c.check("the dataset stays", con, !strings.HasSuffix(cl, ".datasetFileMap"), m.Pos(), "%s changes the dataset", fnName(m))
			}
		}
	}
	f := fieldTag(c.w.lookupType("cache.DatasetFiles"), "SelectedFiles")
	c.check("dataset file", "SelectedFiles", f == "selected_files", s.fn.Pos(), "the list is read from the entry %q", f)
}

// fieldTag is the JSON name of a field.
func fieldTag(n *types.Named, field string) string {
	if n == nil {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(n, i) == field {
			return strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		}
	}
	return ""
}

func ruleAdmissionPolicy(c *Ctx) {
	c.guarded("LRUDatasetVerifier.Init", c.datasetRead)
	want := map[string]string{
		"SimpleCache":        "ret0 == true",
		"InfiniteCache":      "ret0 == true",
		"WeightFun":          "ret0 == !(st.Weight > old(c.stats.GetWeightMedian()))",
		"LRUDatasetVerifier": "ret0 == in(c.datasetFileMap, req.Filename)",
		"RandomCache":        "",
	}
	for _, m := range c.impls("cache.Cache", "UpdatePolicy") {
		m := m
		w, ok := want[m.name]
		if !ok {
			continue
		}
		c.guarded(m.name, func() {
			e := c.policyEngine()
			s := c.scOn(e, m.fn, m.name+".UpdatePolicy", "c", "req", "st", "hit")
			s.give("hit", e.u.Bool(false))
			s.assume("c.Size() + req.Size <= c.GetMaxSize()")
			con := m.name + ".UpdatePolicy"
			if m.name == "LRUDatasetVerifier" && c.selectedByValue() {
				for _, in := range []string{"", "!"} {
					s := c.scOn(c.policyEngine(), m.fn, con, "c", "req", "st", "hit")
					s.give("hit", s.e.u.Bool(false))
					s.assume("c.Size() + req.Size <= c.GetMaxSize()")
					s.assume(in + "in(c.datasetFileMap, req.Filename)")
					s.assume(in + "c.datasetFileMap[req.Filename]")
					s.ensure("admission", con, "ret0 == "+map[string]string{"": "true", "!": "false"}[in])
				}
				delete(want, m.name)
				return
			}
			if w != "" {
				s.ensure("admission", con, w)
				delete(want, m.name)
				return
			}
			// a seeded draw decides: one atom about one draw, admitted above one half
			yes, no := 0, 0
			for _, o := range s.returns() {
				d := c.drawn(e, o, "admission", con)
				r := e.u.decide(o.st, e.simp(o.st.facts, o.ret[0]))
				c.check("admission", con, d != 0 && (r == 1) == (d == 1), o.pos, "result %v on the path where %s", o.ret[0], factsString(o.st.facts))
				if r == 1 {
					yes++
				} else {
					no++
				}
			}
			c.check("admission", con, yes > 0 && no > 0, m.fn.Pos(), "both decisions are possible")
			delete(want, m.name)
		})
	}
	for n := range want {
		c.check("anchor", n, false, token.NoPos, "no admission policy for %s", n)
	}
	// the sources of the decisions
	s := c.sc("files.Manager.GetWeightMedian", "s")
	s.ensure("mean weight", "files.Manager.GetWeightMedian", "ret0 == s.weightSum / float64(len(s.Data))")
	c.guarded("seed", func() {
		s := c.sc("cache.RandomCache.Init", "c", "params")
		n := 0
		for _, o := range s.returns() {
			t := s.term(o, "c.randomGenerator")
			n++
			seed := s.old("params.RandSeed")
			c.check("seeded draw", "RandomCache.Init", seeded(o, t, seed), o.pos, "the generator %s is not seeded with the configured seed", t)
		}
		c.check("seeded draw", "RandomCache.Init", n > 0, s.fn.Pos(), "no path returns")
	})
}

// seeded: a generator of a source that was made from the seed.
func seeded(o Out, gen, seed *Term) bool {
	src := map[*Term]bool{}
	for _, ev := range evs(o.st.events, "call", "") {
		if len(ev.args) == 0 {
			continue
		}
		switch {
		case strings.HasSuffix(ev.name, "rand.NewSource") && ev.args[0] == seed:
			src[ev.ret] = true
		case strings.HasSuffix(ev.name, "rand.New"):
			a := ev.args[0]
			if a.op == OCall && strings.HasPrefix(a.s, "iface:") {
				a = a.args[0]
			}
			if ev.ret == gen && (src[a] || src[ev.args[0]]) {
				return true
			}
		}
	}
	return false
}

// drawn tells what the seeded draw of a path decided: 1 from one half up, -1
// below, 0 without a draw.
func (c *Ctx) drawn(e *Engine, o Out, rule, con string) int {
	d := 0
	for f, v := range o.st.facts {
		if f.op != OLT || !contains(f, func(t *Term) bool {
			return t.op == OCall && strings.Contains(t.s, "rand") || t.op == OSym && strings.Contains(t.s, "rand")
		}) {
			continue
		}
		rest, k := e.u.splitConst(f.args[0])
		pos := e.u.monos(rest)[0].coef.Sign() > 0
		half := k.Cmp(ratHalf) == 0 || k.Cmp(ratMinusHalf) == 0
		// one half itself is on the side of the larger draws
		c.check(rule, con, half && pos && len(e.u.monos(rest)) == 1, o.pos, "the draw is compared as %s", f)
		// rest + k < 0: draw < 1/2 when the coefficient is positive
		if (v && pos) || (!v && !pos) {
			d = -1
		} else {
			d = 1
		}
	}
	return d
}

// ruleMakeRoom: a decision evicts only for a file that is going to be stored
// and does not fit, and asks for the size of that file.
func ruleMakeRoom(c *Ctx) {
	// when the policy admits a miss, and when it refuses it
	want := map[string][2]string{
		"SimpleCache":        {"true", ""},
		"InfiniteCache":      {"true", ""},
		"WeightFun":          {"!(st.Weight > c.stats.GetWeightMedian())", "st.Weight > c.stats.GetWeightMedian()"},
		"LRUDatasetVerifier": {"in(c.datasetFileMap, req.Filename)", "!in(c.datasetFileMap, req.Filename)"},
		"RandomCache":        {"true", ""},
	}
	onQueue := func(com *ssa.CallCommon, callee *ssa.Function) bool {
		return com.IsInvoke() && ifaceName(com.Value.Type()) == "queue.Queue"
	}
	for _, m := range c.impls("cache.Cache", "UpdatePolicy") {
		m := m
		w, ok := want[m.name]
		if !ok {
			continue
		}
		delete(want, m.name)
		con := m.name + ".UpdatePolicy"
		run := func(hit, fits bool, assume string, judge func(s *Sc, o Out, asked, gone []*Event)) {
			e := c.engine()
			e.track = func(cl string) bool { return cl == "f:cache.SimpleCache.size" || cl == "f:cache.SimpleCache.MaxSize" }
			memo := map[*ssa.Function]bool{}
			e.opaque = func(f *ssa.Function) bool {
				r, ok := memo[f]
				if !ok {
					r = len(c.w.rw(f).mod) > 0 && !c.w.reaches(f, onQueue)
					memo[f] = r
				}
				return r
			}
			onlyEvents(e, "queue.Queue.getWorstFilesUp2Size", "queue.Queue.removeWorst", "queue.Queue.remove")
			s := c.scOn(e, m.fn, con, "c", "req", "st", "hit")
			s.give("hit", e.u.Bool(hit))
			s.assume("c.Size() <= c.GetMaxSize()")
			s.assume("req.Size > 0")
			if fits {
				s.assume("c.Size() + req.Size <= c.GetMaxSize()")
			} else {
				s.assume("c.Size() + req.Size > c.GetMaxSize()")
			}
			if assume != "" && assume != "true" {
				s.assume(assume)
				if m.name == "LRUDatasetVerifier" && c.selectedByValue() {
					s.assume(strings.Replace(assume, "in(c.datasetFileMap, req.Filename)", "c.datasetFileMap[req.Filename]", 1))
				}
			}
			outs := s.returns()
			c.check("decisions", con, len(outs) > 0, m.fn.Pos(), "no path decides")
			for _, o := range outs {
				if e.infeasible(o.st.facts) {
					continue
				}
				var asked, gone []*Event
				each(o.st.events, func(ev *Event, in []*LoopInfo) {
					switch ev.name {
					case "queue.Queue.getWorstFilesUp2Size":
						asked = append(asked, ev)
					case "queue.Queue.removeWorst", "queue.Queue.remove":
						gone = append(gone, ev)
					}
				})
				judge(s, o, asked, gone)
			}
		}
		nothing := func(rule string) func(*Sc, Out, []*Event, []*Event) {
			return func(s *Sc, o Out, asked, gone []*Event) {
				c.check(rule, con, len(asked) == 0 && len(gone) == 0, o.pos, "files are evicted on the path where %s", factsString(o.st.facts))
			}
		}
		c.guarded(m.name, func() {
			run(true, false, "", nothing("a hit evicts nothing"))
			run(false, true, "", nothing("nothing is evicted for a file that fits"))
			if w[1] != "" {
				run(false, false, w[1], func(s *Sc, o Out, asked, gone []*Event) {
					nothing("nothing is evicted for a refused file")(s, o, asked, gone)
					c.check("a refused file stays out", con, s.e.u.decide(o.st, s.e.simp(o.st.facts, o.ret[0])) == 0, o.pos, "a file that the policy refuses is stored when there is no room")
				})
			}
			if m.name == "InfiniteCache" {
				run(false, false, "", nothing("the infinite cache evicts nothing"))
				return
			}
			made := 0
			run(false, false, w[0], func(s *Sc, o Out, asked, gone []*Event) {
				if m.name == "RandomCache" {
					d := c.drawn(s.e, o, "the draw", con)
					if !c.check("the draw", con, d != 0, o.pos, "a decision without a draw") {
						return
					}
					if d < 0 {
						nothing("nothing is evicted for a refused file")(s, o, asked, gone)
						c.check("a refused file stays out", con, s.e.u.decide(o.st, s.e.simp(o.st.facts, o.ret[0])) == 0, o.pos, "a file that the policy refuses is stored when there is no room")
						return
					}
				}
				made++
				ok := len(asked) == 1 && len(gone) <= 1
				if c.check("room is made once", con, ok, o.pos, "the replacement order is asked %d times for victims when %s", len(asked), factsString(o.st.facts)) {
					c.check("room for the size of the file", con, asked[0].args[len(asked[0].args)-1] == s.old("req.Size"), asked[0].pos, "victims of the volume %s are asked for", asked[0].args[len(asked[0].args)-1])
				}
				s.ensureOut(o, "stored if it fits then", con, "implies(!ret0, c.Size() + req.Size > c.GetMaxSize())")
			})
			c.check("room is made", con, made > 0, m.fn.Pos(), "no path makes room")
		})
	}
	for n := range want {
		c.check("anchor", n, false, token.NoPos, "no admission policy for %s", n)
	}
}

func rulePipeline(c *Ctx) {
	fields := []struct{ name, ty string }{
		{"Filename", "int64"}, {"Size", "float64"}, {"Protocol", "int64"}, {"CPUEff", "float64"},
		{"Day", "int64"}, {"SiteName", "int64"}, {"UserID", "int64"}, {"FileType", "int64"},
	}
	for n := 2; n <= len(fields); n++ {
		n := n
		c.guarded("GetFile", func() {
			e := c.engine()
			u := e.u
			s := c.scOn(e, c.fn("cache.GetFile"), "cache.GetFile", "cache", "vars")
			var parts []*Term
			var syms []*Term
			for i := 0; i < n; i++ {
				x := u.Sym("v." + fields[i].name)
				syms = append(syms, x)
				parts = append(parts, u.Elem(u.Call("iface:"+fields[i].ty, x)))
			}
			s.give("vars", u.Seq(parts...))
			con := "GetFile"
			outs := s.returns()
			c.check("panics", con, len(s.kind("panic")) == 0, s.fn.Pos(), "panics with %d fields", n)
			c.check("returns", con, len(outs) >= 3, s.fn.Pos(), "%d outcomes with %d fields", len(outs), n)
			cache := e.strip(s.arg("cache"))
			hits, misses, redirects := 0, 0, 0
			for _, o := range outs {
				var calls []*Event
				for _, ev := range o.st.events {
					if ev.kind == "invoke" && strings.HasPrefix(ev.name, "cache.Cache.") {
						calls = append(calls, ev)
						c.check("same cache", con, ev.recv == cache, ev.pos, "%s is called on %s", ev.name, ev.recv)
					}
				}
				var names []string
				for _, ev := range calls {
					names = append(names, strings.TrimPrefix(ev.name, "cache.Cache."))
				}
				seq := strings.Join(names, " ")
				full := "BeforeRequest UpdatePolicy AfterRequest CheckWatermark"
				kind := ""
				switch seq {
				case "Check " + full:
					kind = "hit"
				case "Check CheckRedirect":
					kind = "redirect"
				case "Check CheckRedirect " + full:
					kind = "miss"
				default:
					c.check("order", con, false, o.pos, "a request goes through: %s", seq)
					continue
				}
				c.check("order", con, true, o.pos, "")
				hit := e.u.decide(o.st, calls[0].ret)
				c.check("looked up file", con, calls[0].args[0] == syms[0], calls[0].pos, "Check(%s)", calls[0].args[0])
				c.check("branch", con, hit == map[string]int{"hit": 1, "redirect": 0, "miss": 0}[kind], o.pos, "%s although the lookup returned %v", kind, calls[0].ret)
				if kind != "hit" {
					rd := e.u.decide(o.st, calls[1].ret)
					c.check("redirect question", con, calls[1].args[0] == syms[0] && calls[1].args[1] == syms[1], calls[1].pos, "CheckRedirect(%v)", calls[1].args)
					c.check("branch", con, (rd == 1) == (kind == "redirect") && rd >= 0, o.pos, "%s although the redirect question was answered %v", kind, calls[1].ret)
				}
				r1 := e.u.decide(o.st, e.simp(o.st.facts, o.ret[1]))
				c.check("reported redirect", con, (r1 == 1) == (kind == "redirect") && r1 >= 0, o.pos, "redirected reported as %v for a %s", o.ret[1], kind)
				switch kind {
				case "redirect":
					redirects++
					c.check("reported addition", con, e.u.decide(o.st, e.simp(o.st.facts, o.ret[0])) == 0, o.pos, "a redirected request reported as added: %v", o.ret[0])
					continue
				case "hit":
					hits++
				default:
					misses++
				}
				b := calls[len(calls)-4:]
				req := b[0].args[0]
				c.check("arguments", con, b[1].args[0] == req && b[2].args[0] == req, o.pos, "the steps see different requests")
				c.check("arguments", con, b[0].args[1] == calls[0].ret || e.u.decide(o.st, b[0].args[1]) == hit && hit >= 0, o.pos, "BeforeRequest is told hit=%v", b[0].args[1])
				st0, hit0 := projTerm(e, b[0].ret, 0), projTerm(e, b[0].ret, 1)
				c.check("arguments", con, b[1].args[1] == st0 && b[2].args[1] == st0, o.pos, "the policy works on %v, statistics were %v", b[1].args[1], st0)
				c.check("arguments", con, b[1].args[2] == hit0 && b[2].args[2] == hit0, o.pos, "the policy is told hit=%v, BeforeRequest returned %v", b[1].args[2], hit0)
				c.check("arguments", con, b[2].args[3] == b[1].ret, o.pos, "AfterRequest is told added=%v, the policy returned %v", b[2].args[3], b[1].ret)
				c.check("reported addition", con, o.ret[0] == b[1].ret, o.pos, "added reported as %v, the policy returned %v", o.ret[0], b[1].ret)
				for i, f := range fields {
					got := e.readAt(o.st, u.Field(req, "cache.Request."+f.name))
					want := u.Int(0)
					if i < n {
						want = syms[i]
					}
					ok := got == want
					if !ok && got.op == OCall && got.s == "@" {
						continue // the steps may change the request
					}
					c.check("request field "+f.name, con, ok, s.fn.Pos(), "field %s of the request is %v, expected %v (%d fields given)", f.name, got, want, n)
				}
			}
			c.check("cases", con, hits == 1 && misses == 1 && redirects == 1, s.fn.Pos(), "%d hit, %d miss, %d redirect paths", hits, misses, redirects)
		})
	}
}

// projTerm is result i of an event result.
func projTerm(e *Engine, t *Term, i int) *Term {
	if t != nil && t.op == OTuple {
		return t.args[i]
	}
	return t
}

func ruleFree(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "Free") {
		m := m
		if m.name != "SimpleCache" {
			continue
		}
		for _, perc := range []bool{false, true} {
			perc := perc
			c.guarded("Free", func() {
				e := c.engine()
				u := e.u
				onlyEvents(e, "invoke")
				s := c.scOn(e, m.fn, "Free", "c", "amount", "percentage")
				s.give("percentage", u.Bool(perc))
				con := "Free"
				want := s.arg("amount")
				if perc {
					want = u.Div(u.Mul(s.arg("amount"), s.old("c.MaxSize")), u.Int(100))
				}
				pos, non := 0, 0
				for _, o := range s.returns() {
					s.ensureOut(o, "returned volume", con, "ret0 == old(c.Size()) - c.Size()")
					s.ensureOut(o, "deleted volume", con, "c.DataDeleted() == old(c.DataDeleted()) + old(c.Size()) - c.Size()")
					d := u.decide(o.st, u.LT(u.Neg(want), false))
					ask := evs(o.st.events, "invoke", "queue.Queue.getWorstFilesUp2Size")
					rem := evs(o.st.events, "invoke", "queue.Queue.removeWorst")
					rem = append(rem, evs(o.st.events, "invoke", "queue.Queue.remove")...)
					if d != 1 {
						non++
						c.check("nothing to free", con, d == 0 && len(rem) == 0, o.pos, "files are removed on the path where %s", factsString(o.st.facts))
						s.ensureOut(o, "nothing to free", con, "c.NumDeleted() == old(c.NumDeleted()) && c.Size() == old(c.Size())")
						continue
					}
					pos++
					if !c.check("victims", con, len(ask) == 1 && len(rem) == 1, o.pos, "%d victim lists, %d removals", len(ask), len(rem)) {
						continue
					}
					c.check("amount", con, ask[0].args[0] == want, ask[0].pos, "victims for %s are asked for, expected %s", ask[0].args[0], want)
					list := rem[0].args[0]
					n := u.Len(list)
					c.check("deleted count", con, isZero(u.Sub(u.Sub(s.term(o, "c.NumDeleted()"), s.old("c.NumDeleted()")), n)), o.pos, "%s deletions counted, %s files removed", s.term(o, "c.NumDeleted()"), n)
					c.check("all victims", con, n == u.Len(ask[0].ret), o.pos, "%s of %s victims are removed", n, u.Len(ask[0].ret))
					w := e.weightOf(o.st, list)
					c.check("volume of the removed files", con, isZero(u.Sub(e.simp(o.st.facts, o.ret[0]), w)), o.pos, "returned %s, removed %s", o.ret[0], w)
					// the removed names are the names of the victims
					ok := contains(list, func(t *Term) bool {
						return t.op == OMapSeq && contains(t.args[1], func(x *Term) bool { return x == ask[0].ret })
					})
					c.check("removed files are the victims", con, ok, o.pos, "removed %s", list)
				}
				c.check("cases", con, pos > 0 && non > 0, s.fn.Pos(), "%d paths free something, %d do not", pos, non)
				// a victim that is not the known file stops the simulation
				c.check("identity", con, len(s.kind("panic")) > 0, s.fn.Pos(), "a victim without matching statistics is accepted")
			})
		}
	}
}

func ruleRedirect(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "CheckRedirect") {
		e := c.cacheEngine(simpleFields("*")...)
		s := c.scOn(e, m.fn, m.name+".CheckRedirect", "c", "filename", "size")
		con := m.name + ".CheckRedirect"
		s.ensure("decision", con, "ret0 == (old(c.canRedirect) && old(c.BandwidthUsage()) >= 95)")
		s.ensure("counted", con, "c.NumRedirected() == old(c.NumRedirected()) + ite(ret0, 1, 0)")
		s.ensure("volume", con, "c.RedirectedSize() == old(c.RedirectedSize()) + ite(ret0, size, 0)")
		for _, f := range []string{"hit", "miss", "size", "numReq", "numAdded", "numDeleted", "dataRead", "dataReadOnMiss", "dataReadOnHit", "dataWritten", "dataDeleted", "tick", "MaxSize", "numDailyHit", "numDailyMiss"} {
			s.ensure("no other effect", con, "c."+f+" == old(c."+f+")")
		}
	}
}

func ruleWatermark(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "CheckWatermark") {
		m := m
		if m.name != "SimpleCache" {
			continue
		}
		free := c.fn("cache.SimpleCache.Free")
		for _, sc := range []struct {
			use  bool
			cond string
			want int
		}{{false, "c.Capacity() >= c.highWatermark", 0}, {false, "c.Capacity() < c.highWatermark", 0}, {true, "c.Capacity() >= c.highWatermark", 1}, {true, "c.Capacity() < c.highWatermark", 0}} {
			e := c.engine()
			e.opaque = func(f *ssa.Function) bool { return f == free }
			s := c.scOn(e, m.fn, "CheckWatermark", "c")
			s.setBool("c.useWatermarks", sc.use).assume(sc.cond)
			con := "CheckWatermark"
			outs := s.returns()
			c.check("trigger", con, len(outs) > 0, s.fn.Pos(), "no path returns")
			for _, o := range outs {
				var frees []*Event
				each(o.st.events, func(ev *Event, in []*LoopInfo) {
					if ev.kind == "fn" && strings.HasSuffix(ev.name, ".Free") {
						frees = append(frees, ev)
					}
				})
				if !c.check("trigger", con, len(frees) == sc.want, o.pos, "%d evictions with watermarks %v and %s", len(frees), sc.use, sc.cond) {
					continue
				}
				if len(frees) == 1 {
					c.check("amount", con, isZero(e.u.Sub(frees[0].args[1], s.old("c.Capacity() - c.lowWatermark"))), frees[0].pos, "frees %s", frees[0].args[1])
					c.check("amount is a percentage", con, e.u.decide(o.st, frees[0].args[2]) == 1, frees[0].pos, "percentage=%s", frees[0].args[2])
				}
				s.ensureOut(o, "result", con, fmt.Sprintf("ret0 == %v", len(frees) == 0))
			}
		}
	}
}

// resetMetrics are the counters that start every reporting period at zero.
var resetMetrics = []string{
	"NumRequests()", "NumHits()", "NumAdded()", "NumDeleted()", "NumRedirected()", "RedirectedSize()",
	"BandwidthUsage()", "DataWritten()", "DataRead()", "DataReadOnHit()", "DataReadOnMiss()", "DataDeleted()",
	"hit", "miss", "numDailyHit", "numDailyMiss", "hitCPUEff", "missCPUEff", "upperCPUEff", "lowerCPUEff", "numLocal", "numRemote", "sumDailyFreeSpace",
}

// seeQueue makes an engine look into the procedures that change a queue.
func (c *Ctx) seeQueue(e *Engine) {
	old := e.opaque
	e.opaque = func(f *ssa.Function) bool { return old(f) && !c.w.reaches(f, queueMutation) }
}

func ruleReset(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "ClearStats") {
		m := m
		c.guarded(m.name, func() {
			e := c.cacheEngine(simpleFields("*")...)
			s := c.scOn(e, m.fn, m.name+".ClearStats", "c")
			if m.name == "AIRL" {
				// an eviction round at the end of the day belongs to the new day
				s.setBool("c.evictionAgentOK", false)
			}
			con := m.name + ".ClearStats"
			for _, x := range resetMetrics {
				s.ensure("zeroed "+x, con, "c."+x+" == 0")
			}
			s.ensure("free space samples dropped", con, "len(c.dailyfreeSpace) == 0")
			for _, x := range []string{"Size()", "tick", "MaxSize", "bandwidth", "region", "files", "canRedirect", "useWatermarks", "highWatermark", "lowWatermark"} {
				s.ensure("kept "+x, con, "c."+x+" == old(c."+x+")")
			}
		})
	}
	c.guarded("AIRL", func() {
		e := c.engine()
		ce := c.fn("cache.AIRL.callEvictionAgent")
		e.opaque = func(f *ssa.Function) bool { return f == ce }
		s := c.scOn(e, c.fn("cache.AIRL.ClearStats"), "AIRL.ClearStats", "c")
		s.setBool("c.evictionAgentOK", true)
		s.assume("c.evictionType != cache.EvictionOnDayEnd")
		for _, x := range []string{"evictionAgentNumCalls", "evictionAgentNumForcedCalls", "sumNumDailyCategories", "NumRequests()", "NumHits()", "DataDeleted()", "NumDeleted()"} {
			s.ensure("zeroed "+x, "AIRL.ClearStats", "c."+x+" == 0")
		}
		s.ensure("category samples dropped", "AIRL.ClearStats", "len(c.numDailyCategories) == 0")
		for _, a := range []string{"Store", "NotStore", "DeleteAll", "DeleteHalf", "DeleteQuarter", "DeleteOne", "NotDelete"} {
			s.ensure("zeroed action count "+a, "AIRL.ClearStats", "c.actionCounters[qlearn.Action"+a+"] == 0")
		}
	})
	for _, m := range c.impls("cache.Cache", "Clear") {
		m := m
		c.guarded(m.name, func() {
			e := c.cacheEngine(append(simpleFields("*"), "f:files.Manager.*")...)
			c.seeQueue(e)
			s := c.scOn(e, m.fn, m.name+".Clear", "c")
			con := m.name + ".Clear"
			c.categoriesEmptied(m.fn, m.name, con)
			for _, x := range resetMetrics {
				s.ensure("zeroed "+x, con, "c."+x+" == 0")
			}
			s.ensure("size", con, "c.Size() == 0")
			s.ensure("tick", con, "c.tick == 0")
			s.ensure("statistics", con, "len(c.stats.Data) == 0 && c.stats.weightSum == 0")
			for _, o := range s.returns() {
				c.check("queue emptied", con, countEv(o.st.events, "invoke", "queue.Queue.init") == 1, o.pos, "the queue is not emptied")
			}
		})
	}
	for _, m := range c.impls("cache.Cache", "ClearFiles") {
		m := m
		c.guarded(m.name, func() {
			e := c.cacheEngine(append(simpleFields("*"), "f:files.Manager.*")...)
			c.seeQueue(e)
			s := c.scOn(e, m.fn, m.name+".ClearFiles", "c")
			con := m.name + ".ClearFiles"
			c.categoriesEmptied(m.fn, m.name, con)
			s.ensure("size", con, "c.Size() == 0")
			s.ensure("statistics", con, "c.stats.weightSum == 0")
			for cl := range c.w.rw(m.fn).mod {
				kept := !strings.HasPrefix(cl, "f:files.Stats.") || cl == "f:files.Stats.Recency" || cl == "f:files.Stats.Weight"
				if strings.HasPrefix(cl, "m:files.Manager.Data") {
					kept = false
				}
				c.checkKey("statistics of known files", con, con+" "+cl, kept, m.fn.Pos(), "%s changes when only the files are cleared", cl)
			}
			for _, o := range s.returns() {
				c.check("queue emptied", con, countEv(o.st.events, "invoke", "queue.Queue.init") == 1, o.pos, "the queue is not emptied")
			}
		})
	}
}

// categoriesEmptied: the eviction agent has no file of an emptied cache.
func (c *Ctx) categoriesEmptied(f *ssa.Function, name, con string) {
	if name != "AIRL" {
		return
	}
	e := c.engine()
	base := map[*ssa.Function]bool{c.fn("cache.SimpleCache.Clear"): true, c.fn("cache.SimpleCache.ClearFiles"): true}
	e.opaque = func(f *ssa.Function) bool { return base[f] }
	s := c.scOn(e, f, con, "c")
	s.setBool("c.evictionAgentOK", true)
	for _, m := range []string{"filesCategoryMap", "categoryFileListMap", "categorySizesMap"} {
		s.ensure("categories emptied", con, "len(c.evictionCategoryManager."+m+") == 0")
	}
}

func ruleCheckEffects(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "Check") {
		s := c.scOn(c.engine(), m.fn, m.name+".Check", "c", "filename")
		con := m.name + ".Check"
		s.ensure("answer", con, "ret0 == old(c.files.Check(filename))")
		s.ensure("hit changes nothing", con, "implies(ret0, c.stats.deletedFileMiss[filename] == old(c.stats.deletedFileMiss[filename]) && in(c.stats.deletedFileMiss, filename) == old(in(c.stats.deletedFileMiss, filename)))")
		s.ensure("miss of a deleted file", con, "implies(!ret0 && old(in(c.stats.deletedFileMiss, filename)), c.stats.deletedFileMiss[filename] == old(c.stats.deletedFileMiss[filename]) + 1)")
		s.ensure("miss of another file", con, "implies(!ret0 && !old(in(c.stats.deletedFileMiss, filename)), !in(c.stats.deletedFileMiss, filename))")
		for _, f := range []string{"hit", "miss", "size", "numReq", "numAdded", "numDeleted", "dataRead", "dataReadOnMiss", "dataReadOnHit", "dataWritten", "dataDeleted", "tick", "MaxSize", "numRedirected", "redirectSize"} {
			s.ensure("no other effect", con, "c."+f+" == old(c."+f+")")
		}
	}
	c.guarded("files.Manager", func() {
		s := c.sc("files.Manager.AddDeletedFileMiss", "s", "filename")
		s.ensure("tracking starts at zero", "AddDeletedFileMiss", "in(s.deletedFileMiss, filename) && s.deletedFileMiss[filename] == 0")
		s.ensure("tracking keeps the total", "AddDeletedFileMiss", "s.deletedFilesMissLastCount == old(s.deletedFilesMissLastCount)")
	})
	c.guarded("files.Manager", func() {
		s := c.sc("files.Manager.GetTotDeletedFileMiss", "s")
		// the reported total is what was carried over plus the misses since
		for _, o := range s.returns() {
			u := s.e.u
			m := s.old("s.deletedFileMiss")
			d := u.Sub(o.ret[0], s.old("s.deletedFilesMissLastCount"))
			c.check("total", "GetTotDeletedFileMiss", isMapTotal(d, m), o.pos, "the total is %s", o.ret[0])
		}
		s.ensure("carried over restarts", "GetTotDeletedFileMiss", "s.deletedFilesMissLastCount == 0")
	})
	c.guarded("files.Manager", func() {
		s := c.sc("files.Manager.ClearDeletedFileMiss", "s")
		for _, o := range s.returns() {
			u := s.e.u
			m := s.old("s.deletedFileMiss")
			d := u.Sub(s.term(o, "s.deletedFilesMissLastCount"), s.old("s.deletedFilesMissLastCount"))
			c.check("carried over", "ClearDeletedFileMiss", isMapTotal(d, m), o.pos, "carried over %s", d)
		}
		s.ensure("tracking emptied", "ClearDeletedFileMiss", "len(s.deletedFileMiss) == 0")
	})
}

// isMapTotal recognises the sum of all values of a map.
func isMapTotal(d, m *Term) bool {
	if d.op != OSum {
		return false
	}
	return contains(d.args[0], func(t *Term) bool { return t == m || t.op == OLenAt && t.args[0] == m }) && contains(d.args[1], func(t *Term) bool { return t.op == OMapAt && t.args[0] == m })
}

// hitRateFormula: hits over requests, zero without requests. The counters are
// never negative, so there are no requests where the ratio is not a number.
func (s *Sc) hitRateFormula(con string) {
	c, u := s.c, s.e.u
	total := u.Add(s.old("c.hit"), s.old("c.miss"))
	for _, o := range s.returns() {
		ok, why := s.holds(o, "ret0 == ite(isNaN(c.hit / (c.hit + c.miss) * 100), 0, c.hit / (c.hit + c.miss) * 100)")
		some := u.decide(o.st, u.LT(u.Neg(total), false)) // total > 0
		if z := u.decide(o.st, u.EQ(total, u.Int(0))); some < 0 && z >= 0 {
			some = 1 - z
		}
		if !ok && some == 1 {
			ok, why = s.holds(o, "ret0 == c.hit / (c.hit + c.miss) * 100")
		}
		if !ok && some == 0 {
			ok, why = s.holds(o, "ret0 == 0")
		}
		c.check("formula", con, ok, o.pos, "%s", why)
	}
	c.check("formula", con, len(s.returns()) > 0, s.fn.Pos(), "no path returns")
}

// selectedByValue: every entry of the dataset is stored as true, so its value
// says the same as its presence.
func (c *Ctx) selectedByValue() bool {
	n := 0
	for _, f := range c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				up, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				ld, ok := up.Map.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || fieldName(deref(fa.X.Type()), fa.Field) != "datasetFileMap" {
					continue
				}
				k, ok := up.Value.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.ExactString() != "true" {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

func ruleMetrics(c *Ctx) {
	type mt struct{ method, expr string }
	for _, m := range []mt{
		{"WeightedHitRate", "ret0 == c.HitRate() * c.dataReadOnHit"},
		{"HitRate", ""},
		{"Capacity", "ret0 == c.size / c.MaxSize * 100"},
		{"Size", "ret0 == c.size"},
		{"GetMaxSize", "ret0 == c.MaxSize"},
		{"Bandwidth", "ret0 == c.bandwidth"},
		{"BandwidthUsage", "ret0 == c.dataReadOnMiss / c.bandwidth * 100"},
		{"DataWritten", "ret0 == c.dataWritten"},
		{"DataRead", "ret0 == c.dataRead"},
		{"DataReadOnHit", "ret0 == c.dataReadOnHit"},
		{"DataReadOnMiss", "ret0 == c.dataReadOnMiss"},
		{"DataDeleted", "ret0 == c.dataDeleted"},
		{"CPUEff", "ret0 == (c.hitCPUEff + c.missCPUEff) / float64(c.numDailyHit + c.numDailyMiss)"},
		{"CPUHitEff", "ret0 == c.hitCPUEff / float64(c.numDailyHit)"},
		{"CPUMissEff", "ret0 == c.missCPUEff / float64(c.numDailyMiss)"},
		{"CPUEffUpperBound", "ret0 == c.upperCPUEff / float64(c.numLocal)"},
		{"CPUEffLowerBound", "ret0 == c.lowerCPUEff / float64(c.numRemote)"},
		{"AvgFreeSpace", "ret0 == c.sumDailyFreeSpace / float64(len(c.dailyfreeSpace))"},
		{"NumRequests", "ret0 == c.numReq"},
		{"NumHits", "ret0 == int64(c.hit)"},
		{"NumAdded", "ret0 == c.numAdded"},
		{"NumDeleted", "ret0 == c.numDeleted"},
		{"NumRedirected", "ret0 == c.numRedirected"},
		{"RedirectedSize", "ret0 == c.redirectSize"},
	} {
		for _, im := range c.impls("cache.Cache", m.method) {
			im, m := im, m
			c.guarded(im.name+"."+m.method, func() {
				s := c.scOn(c.engine(), im.fn, im.name+"."+m.method, "c")
				if m.method == "HitRate" {
					s.hitRateFormula(im.name + "." + m.method)
				} else {
					s.ensure("formula", im.name+"."+m.method, m.expr)
				}
				for _, o := range s.returns() {
					c.check("reading changes nothing", im.name+"."+m.method, len(c.w.rw(im.fn).mod) == 0, o.pos, "it writes %v", keysOf(c.w.rw(im.fn).mod))
				}
			})
		}
	}
	// regional penalty
	for _, r := range []struct {
		region string
		want   string
	}{{"it", "19"}, {"us", "10"}, {"xx", "0"}} {
		s := c.sc("cache.SimpleCache.CPUEffBoundDiff", "c")
		s.setStr("c.region", r.region)
		s.ensure("regional penalty", "CPUEffBoundDiff", "ret0 == "+r.want)
	}
	for _, r := range []string{"IT", "US", "de", "it2"} {
		s := c.sc("cache.SimpleCache.CPUEffBoundDiff", "c")
		s.setStr("c.region", r)
		s.ensure("regional penalty", "CPUEffBoundDiff", "ret0 == 0")
	}
	s := c.sc("cache.SimpleCache.CPUEffBoundDiff", "c")
	s.setStr("c.region", "")
	s.ensure("measured penalty", "CPUEffBoundDiff", "ret0 == ite(!isNaN(c.CPUEffUpperBound() - c.CPUEffLowerBound()) && c.CPUEffUpperBound() - c.CPUEffLowerBound() > 0, c.CPUEffUpperBound() - c.CPUEffLowerBound(), 0)")
	// standard deviation of the free space
	c.guarded("StdDevFreeSpace", func() {
		s := c.sc("cache.SimpleCache.StdDevFreeSpace", "c")
		for _, o := range s.returns() {
			u := s.e.u
			xs := s.old("c.dailyfreeSpace")
			mean := s.old("c.AvgFreeSpace()")
			n := u.Len(xs)
			k := u.Sym("k:spec")
			x := s.e.readAt(s.pre, u.Index(xs, k, "e:float64"))
			d := u.Sub(x, mean)
			want := u.Call("math.Sqrt", u.Div(u.Sum(n, u.Bind(u.Mul(d, d), k)), u.Sub(n, u.Int(1))))
			c.check("formula", "SimpleCache.StdDevFreeSpace", o.ret[0] == want, o.pos, "computes %s, expected %s", o.ret[0], want)
		}
	})
	// the free space is sampled at each request
	for _, m := range c.impls("cache.Cache", "AfterRequest") {
		e := c.cacheEngine(simpleFields("dailyfreeSpace", "sumDailyFreeSpace", "size", "MaxSize")...)
		s := c.scOn(e, m.fn, m.name+".AfterRequest", "c", "req", "st", "hit", "added")
		s.ensure("free space sample", m.name+".AfterRequest", "len(c.dailyfreeSpace) == old(len(c.dailyfreeSpace)) + 1 && c.dailyfreeSpace[old(len(c.dailyfreeSpace))] == c.GetMaxSize() - c.Size() && c.sumDailyFreeSpace == old(c.sumDailyFreeSpace) + c.GetMaxSize() - c.Size()")
	}
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// calledOutside: the function runs in another way than as a part of its setup.
func (w *World) calledOutside(f, setup *ssa.Function) bool {
	seen := map[*ssa.Function]bool{setup: true}
	var outside func(f *ssa.Function) bool
	outside = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		callers := w.callersOf(f)
		for _, g := range callers {
			if outside(g) {
				return true
			}
		}
		return len(callers) == 0
	}
	return outside(f)
}

func (w *World) callersOf(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range w.funcs {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(call.Common()) {
						if t == f {
							r = append(r, g)
						}
					}
				}
			}
		}
	}
	return r
}
