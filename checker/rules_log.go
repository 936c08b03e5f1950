package main

import (
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", 150, "every row sent to the event log on any path: cells against the state at that moment, and event counts against what happened", ruleLogRows)
	register("P31", 20, "typestate of the log writer: set up, every row written in order, terminator, closing and waiting", ruleLogWriter)
}

// logged runs a method with the event log open and checks every row at the
// moment it is sent. The outcome keeps the row, insertion and size events.
func (c *Ctx) logged(fn *ssa.Function, name string, on bool, prep func(s *Sc)) *Sc {
	e := c.engine()
	u := e.u
	cl := map[string]bool{"f:cache.SimpleCache.tick": true, "f:cache.SimpleCache.size": true, "f:cache.SimpleCache.MaxSize": true, "f:cache.SimpleCache.logFile": true, "f:cache.SimpleCache.logBuffer": true}
	e.track = func(x string) bool { return cl[x] }
	sends := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok {
					if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok {
						if sl, ok := ch.Elem().Underlying().(*types.Slice); ok && sl.Elem().String() == "string" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	call := c.w.lookup("cache.AIRL.callEvictionAgent")
	e.opaque = func(f *ssa.Function) bool {
		if f == call && fn != call {
			return true
		}
		r, ok := memo[f]
		if !ok {
			rw := c.w.rw(f)
			r = f.Signature.Results().Len() == 0 || len(rw.mod) > 0
			for k := range cl {
				r = r && !rw.mod[k]
			}
			r = r && !c.w.reaches(f, func(com *ssa.CallCommon, callee *ssa.Function) bool {
				return callee != nil && inRepoFn(callee) && sends(callee) || com.IsInvoke() && ifaceName(com.Value.Type()) == "queue.Queue"
			}) && !sends(f)
			memo[f] = r
		}
		return r
	}
	e.keepEv = func(ev *Event) bool {
		switch ev.kind {
		case "send", "recv":
			return true
		case "loop":
			for _, it := range ev.loop.iters {
				if len(it.events) > 0 {
					return true
				}
				for a := range it.writes {
					if classOf(a) == "f:cache.SimpleCache.size" {
						return true
					}
				}
			}
			return false
		case "fn":
			return call != nil && ev.name == fnName(call) || strings.HasSuffix(ev.name, "SaveMemoryWithNoLimits")
		}
		return ev.name == "queue.Queue.insert" || ev.name == "queue.Queue.removeWorst" || ev.name == "queue.Queue.remove"
	}
	s := c.scOn(e, fn, name, "c", "a", "b", "d", "f")
	ca := s.arg("c")
	fld := func(f string) *Term { return u.Field(ca, "cache.SimpleCache."+f) }
	if on {
		u.write(s.pre, fld("logFile"), u.Sym("&log"))
	} else {
		u.write(s.pre, fld("logFile"), u.Nil())
	}
	u.write(s.pre, fld("logBuffer"), u.Sym("&stream"))
	if prep != nil {
		prep(s)
	}
	e.onEvent = func(st *State, ev *Event) {
		if ev.kind != "send" {
			return
		}
		if ev.recv != u.Sym("&stream") {
			return
		}
		c.check("log is open", name, on, ev.pos, "a row is sent although there is no log")
		row := ev.args[0]
		kind := rowKind(row)
		if !c.check("row width", name, row.op == OSeq && allElems(row) && len(row.args) == 8, ev.pos, "the row is %s", row) {
			return
		}
		key := name + " " + kind
		cell := func(i int) *Term { return row.args[i].args[0] }
		num := func(t *Term, verb string) *Term {
			if t.op == OCall && t.s == verb && len(t.args) == 1 {
				return t.args[0]
			}
			return nil
		}
		c.check("cell tick", key, num(cell(0), "%d") == e.readAt(st, fld("tick")), ev.pos, "the tick is %s", cell(0))
		size, max := e.readAt(st, fld("size")), e.readAt(st, fld("MaxSize"))
		c.check("cell cache size", key, num(cell(2), "%.2f") == size, ev.pos, "the cache size is %s, expected %s", cell(2), size)
		c.check("cell capacity", key, num(cell(3), "%.2f") == u.Scale(u.Div(size, max), big.NewRat(100, 1)), ev.pos, "the capacity is %s", cell(3))
		blank := func(i int, verb string) bool {
			v := num(cell(i), verb)
			return v != nil && isNum(v) && v.rat.Cmp(big.NewRat(-1, 1)) == 0 || cell(i) == u.Str("-1") && verb == "%d" || cell(i) == u.Str("-1.00") && verb == "%.2f"
		}
		switch kind {
		case "ADD", "DELETE", "SKIP", "KEEP":
			base := baseOf(num(cell(4), "%d"))
			if !c.check("cell filename", key, base != nil, ev.pos, "the filename is %s", cell(4)) {
				return
			}
			for i, f := range []string{"Filename", "Size", "Frequency", "DeltaLastRequest"} {
				verb := "%d"
				if f == "Size" {
					verb = "%.2f"
				}
				want := e.readAt(st, u.Field(base, "files.Stats."+f))
				c.check("cell "+f, key, num(cell(4+i), verb) == want, ev.pos, "the cell is %s, expected %s", cell(4+i), want)
			}
		case "HIT", "MISS":
			c.check("cell Filename", key, num(cell(4), "%d") == s.arg("a"), ev.pos, "the filename is %s", cell(4))
			c.check("cell Size", key, blank(5, "%.2f") && blank(6, "%d") && blank(7, "%d"), ev.pos, "the cells are %s", row)
		case "REDIRECT":
			c.check("cell Filename", key, num(cell(4), "%d") == s.arg("a"), ev.pos, "the filename is %s", cell(4))
			c.check("cell Size", key, num(cell(5), "%.2f") == s.arg("b") && blank(6, "%d") && blank(7, "%d"), ev.pos, "the cells are %s", row)
		case "FREE", "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL":
			c.check("cell Filename", key, blank(4, "%d") && blank(5, "%.2f") && blank(6, "%d") && blank(7, "%d"), ev.pos, "the cells are %s", row)
		default:
			c.check("event name", name, false, ev.pos, "the event is called %s", cell(1))
		}
	}
	return s
}

func rowKind(row *Term) string {
	if row.op == OSeq && len(row.args) > 1 && row.args[1].op == OElem {
		if t := row.args[1].args[0]; t.op == OConst {
			return t.s
		}
		return "?"
	}
	return ""
}

// baseOf is the structure whose field holds the value.
func baseOf(t *Term) *Term {
	if t == nil {
		return nil
	}
	var a *Term
	if t.op == OInit {
		a = t.args[0]
	} else if t.op == OCall && t.s == "@" {
		a = t.args[1]
	}
	if a != nil && a.op == OField {
		return a.args[0]
	}
	return nil
}

// rows are the kinds of rows sent on a path, outside of loops.
func rowsOf(evs []*Event) map[string]int {
	r := map[string]int{}
	for _, ev := range evs {
		if ev.kind == "send" {
			r[rowKind(ev.args[0])]++
		}
	}
	return r
}

func sum(m map[string]int) (n int) {
	for _, x := range m {
		n += x
	}
	return
}

func ruleLogRows(c *Ctx) {
	c.guarded("header", func() {
		want := "tick,action or event,cache size,cache capacity,filename,size,num req,delta t"
		got := strings.Join(c.globalStrings("cache", "logHeader"), ",")
		c.check("header", "log", got == want, token.NoPos, "the header is %s", got)
	})
	// the lookup
	for _, m := range c.impls("cache.Cache", "Check") {
		m := m
		c.guarded(m.name+".Check", func() {
			con := m.name + ".Check"
			s := c.logged(m.fn, con, true, nil)
			s.e.precise = true
			hits := 0
			for _, o := range s.returns() {
				r := rowsOf(o.st.events)
				hit := s.e.u.decide(o.st, o.ret[0])
				if hit == 1 {
					hits++
				}
				c.check("one row per lookup", con, sum(r) == 1 && (r["HIT"] == 1) == (hit == 1) && (r["MISS"] == 1) == (hit == 0), o.pos, "a lookup with hit=%d logs %v", hit, r)
			}
			c.check("one row per lookup", con, hits > 0, m.fn.Pos(), "no hit")
			c.silent(m.fn, con, nil)
		})
	}
	for _, m := range c.impls("cache.Cache", "CheckRedirect") {
		m := m
		c.guarded(m.name+".CheckRedirect", func() {
			con := m.name + ".CheckRedirect"
			s := c.logged(m.fn, con, true, nil)
			s.e.precise = true
			n := 0
			for _, o := range s.returns() {
				r := rowsOf(o.st.events)
				red := s.e.u.decide(o.st, o.ret[0])
				c.check("one row per redirect", con, red >= 0 && sum(r) == red && r["REDIRECT"] == red, o.pos, "a request with redirect=%d logs %v", red, r)
				n += sum(r)
			}
			if m.name != "InfiniteCache" {
				c.check("one row per redirect", con, n > 0 || len(s.returns()) == 1, m.fn.Pos(), "no redirection is logged")
			}
			c.silent(m.fn, con, nil)
		})
	}
	for _, m := range c.impls("cache.Cache", "Free") {
		m := m
		c.guarded(m.name+".Free", func() {
			con := m.name + ".Free"
			s := c.logged(m.fn, con, true, nil)
			frees := 0
			for _, o := range s.returns() {
				r := rowsOf(o.st.events)
				rem := len(evs(o.st.events, "invoke", "queue.Queue.removeWorst")) + len(evs(o.st.events, "invoke", "queue.Queue.remove"))
				c.check("one row per liberation", con, r["FREE"] == sum(r) && (rem == 0 || r["FREE"] == 1) && r["FREE"] <= 1, o.pos, "%d removals, rows %v", rem, r)
				frees += r["FREE"]
				first := -1
				for i, ev := range o.st.events {
					if ev.kind == "send" && first < 0 {
						first = i
					}
					if ev.kind == "loop" {
						c.check("one row per liberation", con, first >= 0, ev.pos, "files are deleted before the FREE row")
					}
				}
			}
			c.check("one row per liberation", con, frees > 0, m.fn.Pos(), "no FREE row")
			c.deleteRows(s, con)
			c.silent(m.fn, con, nil)
		})
	}
	for _, m := range c.impls("cache.Cache", "UpdatePolicy") {
		m := m
		if m.name == "AIRL" {
			continue
		}
		c.guarded(m.name+".UpdatePolicy", func() {
			con := m.name + ".UpdatePolicy"
			s := c.logged(m.fn, con, true, func(s *Sc) {
				fr := c.methodOf(types.NewPointer(c.w.lookupType("cache."+m.name)), "Free")
				old := s.e.opaque
				s.e.opaque = func(f *ssa.Function) bool { return f == fr || old(f) }
			})
			adds := 0
			for _, o := range s.returns() {
				c.addRows(s, o, con)
				adds += rowsOf(o.st.events)["ADD"]
			}
			c.check("one row per addition", con, adds > 0, m.fn.Pos(), "no ADD row")
			c.silent(m.fn, con, nil)
		})
	}
	// reinforcement learning
	c.guarded("AIRL.callEvictionAgent", func() {
		con := "AIRL.callEvictionAgent"
		fn := c.fn("cache.AIRL.callEvictionAgent")
		s := c.logged(fn, con, true, nil)
		c.check("one row per deletion", con, len(s.returns()) > 0, fn.Pos(), "no path")
		c.deleteRows(s, con)
		c.silent(fn, con, nil)
	})
	for _, mode := range []string{"EvictionOnK", "EvictionOnDayEnd", "EvictionOnFree"} {
		for _, meth := range []string{"UpdatePolicy", "AfterRequest", "ClearStats"} {
			mode, meth := mode, meth
			c.guarded("AIRL."+meth, func() {
				con := "AIRL." + meth
				fn := c.fn("cache.AIRL." + meth)
				prep := func(s *Sc) {
					s.setBool("c.evictionAgentOK", true)
					k, _, _ := c.pkgConst(s.e, "cache", mode)
					s.set("c.evictionType", k)
					k2, _, _ := c.pkgConst(s.e, "cache", "SCDL2")
					s.set("c.rlType", k2)
				}
				s := c.logged(fn, con, true, prep)
				calls := 0
				for _, o := range s.returns() {
					each(o.st.events, func(ev *Event, in []*LoopInfo) {
						if ev.kind == "fn" && strings.HasSuffix(ev.name, "callEvictionAgent") {
							calls++
						}
					})
					if meth == "UpdatePolicy" {
						c.addRows(s, o, con)
					} else {
						r := rowsOf(o.st.events)
						n := countEv(o.st.events, "fn", fnName(c.fn("cache.AIRL.callEvictionAgent")))
						c.check("one row per agent call", con+" "+mode, sum(r) == n && r["ONK"]+r["ONDAYEND"] == n && n <= 1, o.pos, "%d calls of the agent, rows %v", n, r)
						c.check("mode of the call", con+" "+mode, (r["ONK"] == 0 || mode == "EvictionOnK") && (r["ONDAYEND"] == 0 || mode == "EvictionOnDayEnd"), o.pos, "rows %v in mode %s", r, mode)
					}
				}
				want := meth == "UpdatePolicy" || meth == "AfterRequest" && mode == "EvictionOnK" || meth == "ClearStats" && mode == "EvictionOnDayEnd"
				c.check("agent is called", con+" "+mode, want == (calls > 0), fn.Pos(), "%d calls of the agent in mode %s", calls, mode)
				c.silent(fn, con, prep)
			})
		}
	}
}

// silent: without a log no row is sent.
func (c *Ctx) silent(fn *ssa.Function, con string, prep func(s *Sc)) {
	s := c.logged(fn, con, false, prep)
	n := 0
	for range s.returns() {
		n++
	}
	c.check("log is open", con, n > 0, fn.Pos(), "no path without a log")
}

// shownSize is the cache size a row shows.
func shownSize(row *Term) *Term {
	if len(row.args) < 3 {
		return nil
	}
	t := row.args[2].args[0]
	if t.op == OCall && t.s == "%.2f" && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

// addRows: an ADD row exactly when a file is inserted.
func (c *Ctx) addRows(s *Sc, o Out, con string) {
	r := rowsOf(o.st.events)
	ins := countEv(o.st.events, "invoke", "queue.Queue.insert")
	c.check("one row per addition", con, r["ADD"] == ins && ins <= 1, o.pos, "%d insertions, rows %v", ins, r)
	if r["ADD"] == 1 && ins == 1 {
		each(o.st.events, func(ev *Event, in []*LoopInfo) {
			if ev.kind != "send" || rowKind(ev.args[0]) != "ADD" {
				return
			}
			size := s.e.readAt(o.st, s.e.u.Field(s.arg("c"), "cache.SimpleCache.size"))
			c.check("row after the change", con, shownSize(ev.args[0]) == size, ev.pos, "the row of the addition shows %s, the cache holds %s after it", ev.args[0].args[2].args[0], size)
		})
	}
	c.check("no skip and add", con, r["SKIP"] <= 1 && (r["SKIP"] == 0 || ins == 0), o.pos, "a skipped file is inserted")
}

// deleteRows: in every iteration the accounted size falls by the sizes of the
// DELETE rows.
func (c *Ctx) deleteRows(s *Sc, con string) {
	e, u := s.e, s.e.u
	addr := u.Field(s.arg("c"), "cache.SimpleCache.size")
	n := 0
	for _, o := range s.returns() {
		each(o.st.events, func(ev *Event, in []*LoopInfo) {
			if ev.kind != "loop" {
				return
			}
			for _, it := range ev.loop.iters {
				nested := false
				vol := u.Int(0)
				rows := 0
				keep, saved := 0, 0
				var row *Term
				for _, x := range it.events {
					switch {
					case x.kind == "loop":
						nested = true
					case x.kind == "fn" && strings.HasSuffix(x.name, "SaveMemoryWithNoLimits"):
						saved++
					case x.kind == "send" && rowKind(x.args[0]) == "DELETE":
						rows++
						row = x.args[0]
						t := x.args[0].args[5].args[0]
						if t.op == OCall && len(t.args) == 1 {
							vol = u.Add(vol, t.args[0])
						}
					case x.kind == "send" && rowKind(x.args[0]) == "KEEP":
						keep++
					}
				}
				if nested {
					continue
				}
				if w, ok := it.writes[addr]; ok {
					d := u.Sub(it.start[addr], w)
					if it.start[addr] == nil {
						continue
					}
					n++
					c.check("one row per deletion", con, isZero(e.simp(it.facts, u.Sub(d, vol))) && (rows == 1 || isZero(d) && rows == 0), ev.pos, "%d DELETE rows for a volume of %s", rows, d)
					if rows == 1 {
						c.check("row after the change", con, shownSize(row) == w, ev.pos, "the row of the deletion shows %s, the cache holds %s after it", row.args[2].args[0], w)
					}
				} else {
					c.check("one row per deletion", con, rows == 0, ev.pos, "a DELETE row without a deletion")
				}
				c.check("one row per kept file", con, keep == 0 || rows == 0, ev.pos, "a file is kept and deleted")
			}
		})
	}
	c.check("one row per deletion", con, n > 0, s.fn.Pos(), "no deletion")
}

func ruleLogWriter(c *Ctx) {
	c.outputFile()
	for _, m := range c.impls("cache.Cache", "Init") {
		m := m
		if m.name != "SimpleCache" {
			continue
		}
		c.guarded("Init", func() {
			e := c.engine()
			s := c.scOn(e, m.fn, "SimpleCache.Init", "c", "param")
			e.u.write(s.pre, e.u.Field(s.arg("c"), "cache.SimpleCache.logFile"), e.u.Nil())
			u := e.u
			on, off := 0, 0
			for _, o := range s.returns() {
				get := func(f string) *Term { return e.readAt(o.st, u.Field(s.arg("c"), "cache.SimpleCache."+f)) }
				want := u.decide(o.st, s.old("param.Log"))
				gos := evs(o.st.events, "go", "")
				if want == 0 {
					off++
					c.check("no log", "Init", len(gos) == 0 && get("logFile") == u.Nil(), o.pos, "a log is opened although it is off")
					continue
				}
				on++
				var cr, wr *Event
				ic, iw, ig := -1, -1, -1
				for i, ev := range o.st.events {
					if ev.name == "os.Create" {
						cr, ic = ev, i
					}
					if ev.name == csvWrite && wr == nil {
						wr, iw = ev, i
					}
					if ev.kind == "go" {
						ig = i
					}
				}
				c.check("opened", "Init", want == 1 && cr != nil && ic < ig && get("logFile") != u.Nil(), o.pos, "the log is not created before its writer starts")
				ok := wr != nil && ic < iw && iw < ig && strings.Contains(wr.args[1].String(), "logHeader")
				c.check("header first", "Init", ok, o.pos, "the header is not written before the rows")
				if !c.check("writer", "Init", len(gos) == 1, o.pos, "%d writers are started", len(gos)) {
					continue
				}
				clo := goTarget(gos[0])
				if !c.check("writer", "Init", clo != nil && clo.fn != nil, o.pos, "the writer is not a function of the module") {
					continue
				}
				stream, done, file := get("logBuffer"), get("logClose"), get("logFile")
				c.check("channels", "Init", stream != done && nonNilTerm(u, o.st, stream) && nonNilTerm(u, o.st, done), o.pos, "the channels are %s and %s", stream, done)
				c.writerLoop(s, clo, gos[0], o, stream, done, file)
			}
			c.check("cases", "Init", on > 0 && off > 0, s.fn.Pos(), "%d paths with log, %d without", on, off)
		})
	}
	for _, m := range c.impls("cache.Cache", "Terminate") {
		m := m
		c.guarded(m.name+".Terminate", func() {
			s := c.scOn(c.engine(), m.fn, m.name+".Terminate", "c")
			s.e.precise = true
			u := s.e.u
			stream, done := s.old("c.logBuffer"), s.old("c.logClose")
			on := 0
			for _, o := range s.returns() {
				open := u.decide(o.st, u.EQ(s.old("c.logFile"), u.Nil()))
				snd := evs(o.st.events, "send", "")
				rcv := evs(o.st.events, "recv", "")
				if open == 1 {
					c.check("nothing to close", m.name, len(snd)+len(rcv) == 0, o.pos, "a log that was never opened is closed")
					continue
				}
				on++
				ok := len(snd) == 1 && snd[0].recv == stream
				if ok {
					r := snd[0].args[0]
					ok = r.op == OSeq && len(r.args) == 1 && r.args[0] == u.Elem(u.Str(c.terminator))
				}
				c.check("terminator", m.name, ok, o.pos, "the terminator is not sent (%v)", snd)
				c.check("waits", m.name, len(rcv) == 1 && rcv[0].recv == done, o.pos, "the end does not wait for the writer")
				first, second := -1, -1
				for i, ev := range o.st.events {
					if ev.kind == "send" {
						first = i
					}
					if ev.kind == "recv" {
						second = i
					}
				}
				c.check("waits", m.name, first < second, o.pos, "the end waits before it sends the terminator")
			}
			c.check("cases", m.name, on > 0, s.fn.Pos(), "a log is never closed")
		})
	}
}

const csvWrite = "(*encoding/csv.Writer).Write"

// outputFile: the CSV file that rows are written to.
func (c *Ctx) outputFile() {
	pos := func(o Out, name string) int {
		r := -1
		for i, ev := range o.st.events {
			if ev.name == name {
				if r >= 0 {
					return -2
				}
				r = i
			}
		}
		return r
	}
	const flush, zclose, fclose = "(*encoding/csv.Writer).Flush", "(*compress/gzip.Writer).Close", "(*os.File).Close"
	c.guarded("OutputCSV.Create", func() {
		for _, zip := range []bool{true, false} {
			s := c.sc("cache.OutputCSV.Create", "o", "name", "zip")
			s.give("zip", s.e.u.Bool(zip))
			u := s.e.u
			get := func(o Out, f string) *Term { return s.e.readAt(o.st, u.Field(s.arg("o"), "cache.OutputCSV."+f)) }
			for _, o := range s.returns() {
				cr, cw, zw := pos(o, "os.Create"), pos(o, "encoding/csv.NewWriter"), pos(o, "compress/gzip.NewWriter")
				if !c.check("creates", "OutputCSV.Create", cr >= 0 && cw > cr, o.pos, "no file or no writer is created") {
					continue
				}
				ev := o.st.events
				file := get(o, "file")
				c.check("creates", "OutputCSV.Create", ev[cr].ret == file || ev[cr].ret.op == OTuple && ev[cr].ret.args[0] == file, o.pos, "the file kept is %s", file)
				c.check("creates", "OutputCSV.Create", ev[cw].ret == get(o, "csvWriter"), o.pos, "the writer kept is %s", get(o, "csvWriter"))
				if zip {
					c.check("compresses", "OutputCSV.Create", zw > cr && zw < cw && s.e.strip(ev[zw].args[0]) == file && s.e.strip(ev[cw].args[0]) == ev[zw].ret && ev[zw].ret == get(o, "compressedWriter"), o.pos, "the rows do not pass through the compressor into the file")
				} else {
					c.check("plain", "OutputCSV.Create", zw == -1 && s.e.strip(ev[cw].args[0]) == file, o.pos, "the rows do not go straight into the file")
				}
				name := s.arg("name")
				if zip {
					c.check("name", "OutputCSV.Create", ev[cr].args[0] != name, o.pos, "a compressed file keeps the plain name")
				} else {
					c.check("name", "OutputCSV.Create", ev[cr].args[0] == name, o.pos, "the file is called %s", ev[cr].args[0])
				}
			}
		}
	})
	c.guarded("OutputCSV.Write", func() {
		s := c.sc("cache.OutputCSV.Write", "o", "row")
		s.e.precise = true
		for _, o := range s.returns() {
			w, f := pos(o, csvWrite), pos(o, flush)
			ok := w >= 0 && f > w && o.st.events[w].args[0] == s.old("o.csvWriter") && o.st.events[w].args[1] == s.arg("row")
			c.check("writes the row", "OutputCSV.Write", ok, o.pos, "the row is not written and flushed")
			err := o.st.events[w].ret
			c.check("reports failures", "OutputCSV.Write", s.e.u.decide(o.st, s.e.u.EQ(err, s.e.u.Nil())) == 1, o.pos, "a failed write is passed over")
		}
	})
	c.guarded("OutputCSV.Close", func() {
		s := c.sc("cache.OutputCSV.Close", "o")
		s.e.precise = true
		for _, o := range s.returns() {
			f, z, cl := pos(o, flush), pos(o, zclose), pos(o, fclose)
			zip := s.e.u.decide(o.st, s.e.u.EQ(s.old("o.compressedWriter"), s.e.u.Nil())) == 0
			c.check("closing order", "OutputCSV.Close", f >= 0 && cl > f && (zip && z > f && z < cl || !zip && z == -1), o.pos, "flush at %d, compressor closed at %d, file closed at %d", f, z, cl)
		}
	})
}

func nonNilTerm(u *U, st *State, t *Term) bool { return u.decide(st, u.EQ(t, u.Nil())) == 0 }

// writerLoop checks the goroutine that writes the log.
func (c *Ctx) writerLoop(s *Sc, clo *Term, ev *Event, o Out, stream, done, file *Term) {
	e, u := s.e, s.e.u
	e.precise = true
	csvw := e.readAt(o.st, u.Field(file, "cache.OutputCSV.csvWriter"))
	ends := 0
	for _, g := range e.exec(clo.fn, goArgs(ev), clo.args, o.st, "go", nil, nil) {
		if g.kind == "panic" && len(g.st.events) > 0 && g.st.events[len(g.st.events)-1].name == csvWrite {
			continue // the row cannot be written
		}
		if g.kind != "return" {
			c.check("writer ends", "writer", false, g.pos, "the writer ends in a %s", g.kind)
			continue
		}
		ends++
		tail := g.st.events[len(o.st.events):]
		closed, told, wrote := -1, -1, 0
		pending := map[*Term]bool{}
		for i, x := range tail {
			switch {
			case x.name == "(*os.File).Close":
				closed = i
			case x.kind == "send" && x.recv == done, x.kind == "close" && x.recv == done:
				told = i
			case x.name == csvWrite:
				wrote++
			case x.kind == "recv" && x.recv == stream:
				pending[received(x.ret)] = true
			case x.kind == "loop":
				for _, it := range x.loop.iters {
					var got, w []*Term
					ok, carried := true, false
					for _, y := range it.events {
						if y.kind == "recv" && y.recv == stream {
							got = append(got, received(y.ret))
						}
						if y.name == csvWrite {
							w = append(w, y.args[1])
							ok = ok && y.args[0] == csvw
						}
					}
					// a row received before the iteration may be written in it, if the
					// one received last is left to the next iteration
					for name, p := range it.phis {
						in := x.loop.enter[name]
						if len(got) > 0 && p[1] == got[len(got)-1] && in != nil && pending[in] {
							got = append([]*Term{p[0]}, got[:len(got)-1]...)
							carried = true
							break
						}
					}
					ok = ok && carried == (len(pending) > 0)
					c.check("every row is written", "writer", ok && len(got) > 0 && slices.Equal(got, w), x.pos, "%d rows are received and %d written, or others", len(got), len(w))
				}
			}
		}
		c.check("closes before it reports", "writer", closed >= 0 && told > closed, g.pos, "the file is closed at %d, the end is reported at %d", closed, told)
		c.check("terminator is not written", "writer", wrote == 0, g.pos, "something is written after the last row")
		// the row that ends the writer
		term := ""
		one := false
		for f, v := range g.st.facts {
			if v && f.op == OEQ {
				for i := 0; i < 2; i++ {
					if f.args[i].op == OConst && f.args[i].kind == 's' {
						term = f.args[i].s
					}
					if isNum(f.args[i]) && f.args[i].rat.IsInt() && f.args[i].rat.Num().Int64() == 1 {
						one = true
					}
				}
			}
			if v && contains(f, func(x *Term) bool { return x.op == OLen }) {
				one = true
			}
		}
		if shut := func() bool {
			for f, v := range g.st.facts {
				if !v && strings.Contains(f.String(), "recvok") {
					return true
				}
			}
			return false
		}(); shut && term == "" && c.onlyCloser(clo.fn) {
			continue // nobody closes the channel while the writer reads it
		}
		c.check("terminator", "writer", term != "" && one, g.pos, "the writer ends where %s", factsString(g.st.facts))
		c.terminator = term
	}
	c.check("writer ends", "writer", ends > 0, clo.fn.Pos(), "the writer never ends")
	_ = u
}

// received is the value received.
func received(t *Term) *Term {
	if t != nil && t.op == OTuple {
		return t.args[0]
	}
	return t
}

// onlyCloser tells whether rows channels are closed by the writer only.
func (c *Ctx) onlyCloser(writer *ssa.Function) bool {
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				com, ok := in.(ssa.CallInstruction)
				if !ok || !isBuiltin(com.Common().Value, "close") {
					continue
				}
				ch, ok := com.Common().Args[0].Type().Underlying().(*types.Chan)
				if ok && types.TypeString(ch.Elem(), nil) == "[]string" && fn != writer {
					return false
				}
			}
		}
	}
	return true
}
