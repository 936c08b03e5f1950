package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P33", 60, "records written by every dump method matched with the case that reads them back; loop summaries of loading; order of the file operations", ruleDumps)
}

// dumpTags are the record kinds a dump method writes, found by their contents.
type dumpTags struct{ files, stats string }

func ruleDumps(c *Ctx) {
	tags := map[*types.Named]map[string]string{} // receiver -> content -> tag
	for _, m := range c.impls("cache.Cache", "Dumps") {
		m := m
		c.guarded(m.name+".Dumps", func() { c.dumpsOf(m, tags) })
	}
	for _, m := range c.impls("cache.Cache", "Loads") {
		m := m
		c.guarded(m.name+".Loads", func() { c.loadsOf(m, tags) })
	}
	for _, m := range c.impls("cache.Cache", "Dump") {
		m := m
		c.guarded(m.name+".Dump", func() { c.dumpFile(m) })
	}
	for _, m := range c.impls("cache.Cache", "Load") {
		m := m
		c.guarded(m.name+".Load", func() { c.loadFile(m) })
	}
	c.jsonNames()
}

// structField is a field of a struct value.
func (c *Ctx) structField(t *Term, typ, field string) *Term {
	n := c.w.lookupType(typ)
	if n == nil {
		c.missing("type " + typ)
	}
	st := n.Underlying().(*types.Struct)
	if t.op != OStruct || len(t.args) != st.NumFields() || t.s != typ {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(n, i) == field {
			return t.args[i]
		}
	}
	return nil
}

// jsonOf is the value an encoded text was made from.
func jsonOf(t *Term) *Term {
	if t != nil && t.op == OCall && t.s == "json" && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

// isValueAt reports whether v is what p points to (or p itself).
func isValueAt(v, p *Term) bool {
	if v == nil || p == nil {
		return false
	}
	if v == p {
		return true
	}
	if v.op != OStruct || len(v.args) == 0 {
		return false
	}
	for _, a := range v.args {
		if a.op == OStruct {
			if len(a.args) == 0 || !contains(a, func(x *Term) bool { return x == p }) {
				return false
			}
			continue
		}
		if baseOf(a) != p {
			return false
		}
	}
	return true
}

type dumpRec struct {
	tag      string
	data     *Term // the value encoded as data
	filename *Term
	n        *Term // how many, nil for one
	ok       bool
	raw      *Term
}

// record takes a dumped line apart.
func (c *Ctx) record(t *Term) dumpRec {
	r := dumpRec{raw: t}
	if t.op != OSeq || len(t.args) != 2 || t.args[0].op != OSpread {
		return r
	}
	end := t.args[1].args[0]
	if !(end.op == OConst && (end.s == "\n" || isNum(end) && end.rat.IsInt() && end.rat.Num().Int64() == 10)) {
		return r
	}
	rec := jsonOf(t.args[0].args[0])
	if rec == nil {
		return r
	}
	info, data, fn := c.structField(rec, "cache.DumpRecord", "Info"), c.structField(rec, "cache.DumpRecord", "Data"), c.structField(rec, "cache.DumpRecord", "Filename")
	inf := jsonOf(info)
	if inf == nil || jsonOf(data) == nil {
		return r
	}
	typ := c.structField(inf, "cache.DumpInfo", "Type")
	if typ == nil || typ.op != OConst || typ.kind != 's' {
		return r
	}
	r.tag, r.data, r.filename, r.ok = typ.s, jsonOf(data), fn, true
	return r
}

// agentFields are the fields of a cache that hold agents and feature managers,
// with the flag that says whether they are in use.
var agentFields = []struct{ field, flag string }{
	{"additionAgent", "additionAgentOK"},
	{"additionFeatureManager", "additionAgentOK"},
	{"evictionAgent", "evictionAgentOK"},
	{"evictionFeatureManager", "evictionAgentOK"},
}

func (c *Ctx) dumpsOf(m *impl, tags map[*types.Named]map[string]string) {
	con := m.name + ".Dumps"
	agents := m.name == "AIRL"
	found := map[string]string{}
	note := func(what, tag string) {
		if old, ok := found[what]; ok && old != tag {
			c.check("record kinds", con, false, m.fn.Pos(), "%s are written as %s and as %s", what, old, tag)
		}
		for w, t := range found {
			if w != what {
				c.check("record kinds", con, t != tag, m.fn.Pos(), "%s and %s are written as %s", w, what, tag)
			}
		}
		found[what] = tag
	}
	flags := []bool{false, true}
	for _, full := range flags {
		for _, add := range flags {
			for _, evc := range flags {
				if !agents && (add || evc) {
					continue
				}
				e := c.engine()
				s := c.scOn(e, m.fn, con, "c", "full")
				s.give("full", e.u.Bool(full))
				want := map[string]bool{}
				if agents {
					s.setBool("c.additionAgentOK", add)
					s.setBool("c.evictionAgentOK", evc)
					for _, a := range agentFields {
						if a.flag == "additionAgentOK" && add || a.flag == "evictionAgentOK" && evc {
							want[a.field] = true
						}
					}
				}
				if full {
					want["files"], want["stats"] = true, true
				}
				for _, o := range s.returns() {
					var worst *Event
					for _, ev := range o.st.events {
						if ev.name == "queue.Queue.getFromWorst" {
							worst = ev
						}
					}
					recs, ok := c.records(e, o.ret[0])
					if !c.check("records", con, ok, o.pos, "the dump is %s", o.ret[0]) {
						continue
					}
					got := map[string]int{}
					for _, r := range recs {
						if !c.check("record form", con, r.ok, o.pos, "a record is %s", r.raw) {
							continue
						}
						what := ""
						switch {
						case r.n != nil && worst != nil && r.n == e.u.Len(worst.ret):
							what = "files"
							p := baseOf(r.filename)
							c.check("cached files", con, p != nil && isValueAt(r.data, p) && contains(p, func(x *Term) bool { return x == worst.ret }), o.pos, "a file record holds %s of file %s", r.data, r.filename)
							okn := r.filename.op == OInit && r.filename.args[0].s == "files.Stats.Filename" || r.filename.op == OCall && r.filename.s == "@" && r.filename.args[1].s == "files.Stats.Filename"
							c.check("cached files", con, okn, o.pos, "a file record is named %s", r.filename)
							c.check("cached files", con, worst.recv == s.old("c.files") || len(worst.args) > 0 && worst.args[0] == s.old("c.files"), o.pos, "the files are not those of the cache")
						case r.n != nil && r.n == s.old("len(c.stats.Data)"):
							what = "stats"
							key := r.filename
							at, _, _ := e.mapAddr(s.old("c.stats.Data"), key, c.mapType(s, "c.stats.Data"))
							d := r.data
							okd := isValueAt(d, e.readAt(o.st, at)) || d == e.u.Init(at)
							c.check("statistics", con, okd && (key.op == OCall && key.s == "rkey"), o.pos, "a statistics record holds %s of file %s", d, key)
						case r.n == nil:
							for _, a := range agentFields {
								ad := e.u.Field(s.arg("c"), "cache.AIRL."+a.field)
								if isValueAt(r.data, ad) || r.data.op == OStruct && contains(r.data, func(x *Term) bool { return x == ad }) {
									what = a.field
								}
							}
						}
						if !c.check("record contents", con, what != "", o.pos, "a record of kind %s holds %s", r.tag, r.data) {
							continue
						}
						got[what]++
						note(what, r.tag)
					}
					for w := range want {
						c.check("everything is dumped", con+" "+w, got[w] == 1, o.pos, "%s are written %d times", w, got[w])
					}
					for w := range got {
						c.check("nothing else is dumped", con+" "+w, want[w], o.pos, "%s are written although they are not asked for", w)
					}
				}
			}
		}
	}
	for _, n := range m.types {
		tags[n] = found
	}
}

func (c *Ctx) mapType(s *Sc, path string) types.Type {
	_, t := s.addr(path)
	return t
}

// records lists the records of a dump.
func (c *Ctx) records(e *Engine, t *Term) ([]dumpRec, bool) {
	if t.op != OSeq {
		if t.op == OMapSeq {
			r := c.record(t.args[1])
			r.n = t.args[0]
			return []dumpRec{r}, true
		}
		return nil, false
	}
	var r []dumpRec
	for _, a := range t.args {
		switch {
		case a.op == OElem:
			r = append(r, c.record(a.args[0]))
		case a.args[0].op == OMapSeq:
			x := c.record(a.args[0].args[1])
			x.n = a.args[0].args[0]
			r = append(r, x)
		default:
			return nil, false
		}
	}
	return r, true
}

func (c *Ctx) loadsOf(m *impl, tags map[*types.Named]map[string]string) {
	con := m.name + ".Loads"
	tag := tags[m.types[0]]
	for _, n := range m.types {
		for k, v := range tags[n] {
			c.check("record kinds", con, tag[k] == v, m.fn.Pos(), "%s are dumped as %s by one kind of cache and as %s by another", k, tag[k], v)
		}
	}
	if !c.check("record kinds", con, tag["files"] != "" && tag["stats"] != "", m.fn.Pos(), "nothing is dumped") {
		return
	}
	agents := m.name == "AIRL"
	for _, evc := range []bool{false, true} {
		if evc && !agents {
			continue
		}
		e := c.engine()
		e.precise = true
		u := e.u
		e.opaque = func(f *ssa.Function) bool {
			r := f.Signature.Recv()
			return r != nil && typeName(deref(r.Type())) == "cache.CategoryManager"
		}
		s := c.scOn(e, m.fn, con, "c", "lines", "vars")
		if agents {
			s.setBool("c.evictionAgentOK", evc)
		}
		s.run()
		c.panicsOnlyOnErrors(s, con)
		loops := map[*LoopInfo]bool{}
		for _, o := range s.outs {
			var mine *LoopInfo
			n := 0
			for _, ev := range o.st.events {
				if ev.kind == "loop" && len(evs(each1(ev.loop), "call", "encoding/json.Unmarshal")) > 0 {
					n++
					mine = ev.loop
				}
			}
			if o.kind != "return" {
				bad := false
				for f, v := range o.st.facts {
					bad = bad || !v && f.op == OEQ && contains(f, func(x *Term) bool { return x.op == OCall && x.s == "json.err" })
				}
				for _, ev := range o.st.events {
					c.check("rejected before it is stored", con, !bad || ev.kind != "invoke" || ev.name != "queue.Queue.insert", ev.pos, "a record that cannot be decoded enters the cache before it is rejected")
				}
				continue
			}
			if !c.check("reads every record", con, n == 1 && mine.trip == u.Len(s.arg("lines")), o.pos, "%d loops over the records", n) {
				continue
			}
			loops[mine] = true
		}
		seen := map[string]int{}
		for l := range loops {
			for _, it := range l.iters {
				c.loadedRecord(s, con, l, it, tag, agents, evc, seen)
			}
		}
		want := []string{"files", "stats"}
		if agents {
			for _, a := range agentFields {
				want = append(want, a.field)
			}
		}
		for _, w := range want {
			c.check("every kind is read back", con+" "+w, seen[w] > 0, m.fn.Pos(), "no case restores the %s", w)
		}
	}
}

func each1(l *LoopInfo) []*Event {
	var r []*Event
	for _, it := range l.iters {
		r = append(r, it.events...)
	}
	return r
}

// loadedRecord checks one case of the loop over the records.
func (c *Ctx) loadedRecord(s *Sc, con string, l *LoopInfo, it *IterOut, tag map[string]string, agents, evc bool, seen map[string]int) {
	e, u := s.e, s.e.u
	pos := l.pos
	if !pos.IsValid() {
		pos = s.fn.Pos()
	}
	rec := e.elem(s.pre, s.arg("lines"), l.k, types.NewSlice(types.Universe.Lookup("byte").Type()))
	dec := func(path string, x *Term) *Term { return u.Call("decoded."+path, x) }
	info, data, name := dec("Info", rec), dec("Data", rec), dec("Filename", rec)
	what := ""
	for k, v := range tag {
		if it.truth(u, u.EQ(dec("Type", info), u.Str(v))) == 1 {
			what = k
		}
	}
	noErr := func(d *Term) bool {
		for f, v := range it.facts {
			if v && f.op == OEQ {
				for i := 0; i < 2; i++ {
					if f.args[i].op == OCall && f.args[i].s == "json.err" && f.args[i].args[0] == d && f.args[1-i] == u.Nil() {
						return true
					}
				}
			}
		}
		return false
	}
	c.check("undecodable records are refused", con, noErr(rec) && noErr(info), pos, "the loop goes on with a record that is not decoded")
	// what happens to the cache
	var ins []*Event
	var obj *Term // what the data is decoded into
	catAdd := 0
	each(it.events, func(ev *Event, _ []*LoopInfo) {
		switch {
		case ev.name == "queue.Queue.insert":
			ins = append(ins, ev)
		case ev.name == "encoding/json.Unmarshal" && ev.args[0] == data:
			obj = ev.args[1]
		}
	})
	for _, ev := range it.events {
		if ev.kind == "fn" && strings.HasSuffix(ev.name, "AddOrUpdateCategoryFile") && obj != nil && (ev.args[2] == obj || holdsDecoded(it, ev.args[2], data, u)) {
			catAdd++
		}
	}
	at, in, _ := e.mapAddr(s.old("c.stats.Data"), name, c.mapType(s, "c.stats.Data"))
	size := u.Field(s.arg("c"), "cache.SimpleCache.size")
	sizeW, sizeSet := it.writes[size]
	start := it.start[size]
	if start == nil {
		for _, x := range l.iters {
			if x.start[size] != nil {
				start = x.start[size]
			}
		}
	}
	if sizeSet && sizeW == start {
		sizeSet = false
	}
	if what == "" {
		c.check("unknown records change nothing", con, len(ins) == 0 && !sizeSet, pos, "a record of no known kind changes the cache")
		return
	}
	seen[what]++
	key := con + " " + what
	c.check("undecodable records are refused", key, noErr(data), pos, "the loop goes on with contents that are not decoded")
	if !c.check("contents", key, obj != nil, pos, "the contents are not decoded") {
		return
	}
	if _, ok := it.writes[at]; !ok {
		// the file also knows its own name
		at2, in2, _ := e.mapAddr(s.old("c.stats.Data"), dec("Filename", data), c.mapType(s, "c.stats.Data"))
		if _, ok := it.writes[at2]; ok || it.truth(u, e.presenceIn(it, in2)) == 1 {
			at, in = at2, in2
		}
	}
	stored, sto := it.writes[at]
	if sto && it.start[at] == stored {
		sto = false
	}
	if what == "files" || what == "stats" {
		p := stored
		if what == "files" && len(ins) == 1 {
			p = ins[0].args[len(ins[0].args)-1]
		}
		if p != nil && p != obj && holdsDecoded(it, p, data, u) {
			obj = p // a copy
		}
		c.check("an object for every file", key, contains(obj, func(x *Term) bool { return x == l.k }), pos, "the same object is used for every record")
	}
	switch what {
	case "files":
		ok := len(ins) == 1 && ins[0].args[len(ins[0].args)-1] == obj && (ins[0].recv == s.old("c.files") || ins[0].args[0] == s.old("c.files"))
		c.check("file is cached again", key, ok, pos, "%d insertions (%v)", len(ins), ins)
		okS := sizeSet && start != nil && isZero(u.Sub(u.Sub(sizeW, start), dec("Size", data)))
		c.check("file size is counted", key, okS, pos, "the size becomes %s", sizeW)
		c.check("statistics are the file's", key, sto && stored == obj && it.writes[in] != nil && it.writes[in] == u.Bool(true), pos, "the statistics under the file's name are %s", stored)
		if evc {
			c.check("file is in its category", key, catAdd == 1, pos, "the file is added to %d categories", catAdd)
		}
	case "stats":
		c.check("statistics only", key, len(ins) == 0 && !sizeSet, pos, "a statistics record changes the files")
		pres := it.truth(u, e.presenceIn(it, in))
		for f, v := range it.facts {
			// statistics that are there are never nil
			if f.op == OEQ && (f.args[0] == u.Nil() && untag(f.args[1]) == at || f.args[1] == u.Nil() && untag(f.args[0]) == at) {
				pres = b2i(!v)
			}
		}
		ok := pres == 1 && !sto || pres == 0 && sto && stored == obj && it.writes[in] == u.Bool(true)
		c.check("statistics restored", key, ok, pos, "the statistics become %s where %s", stored, factsString(it.facts))
	default:
		c.check("agent only", key, len(ins) == 0 && !sizeSet && !sto, pos, "an agent record changes the files")
		ad := u.Field(s.arg("c"), "cache.AIRL."+what)
		c.check("contents", key, obj == ad, pos, "the contents are decoded into %s", obj)
		if strings.HasSuffix(what, "Agent") {
			flag := u.Field(s.arg("c"), "cache.AIRL."+what+"OK")
			v := it.writes[flag]
			okF := v == u.Bool(true) || v == nil && what == "evictionAgent" && evc
			c.check("agent in use", key, okF, pos, "the agent is not marked as in use")
			for i, f := range []string{"Epsilon", "DecayRateEpsilon"} {
				w := it.writes[u.Field(ad, "qlearn.Agent."+f)]
				vars, at := s.arg("vars"), u.Int(int64(i))
				ok := w != nil && contains(w, func(x *Term) bool {
					return x.op == OIndex && x.args[0] == vars && x.args[1] == at
				})
				c.check("exploration restarts", key+" "+f, ok, pos, "%s becomes %s", f, w)
			}
			w := it.writes[u.Field(ad, "qlearn.Agent.StepNum")]
			c.check("exploration restarts", key+" StepNum", w != nil && isZero(w), pos, "StepNum becomes %s", w)
			// nothing that was learnt is dropped
			for a := range it.writes {
				if a.op == OField && (strings.HasPrefix(a.s, "qlearn.QTable.") || a.s == "qlearn.Agent.NumStates" || a.s == "qlearn.Agent.NumVars") && contains(a, func(x *Term) bool { return x == ad }) {
					v := it.writes[a]
					c.check("learnt values stay", key, contains(v, func(x *Term) bool { return x == data }) || isDropped(a.s), pos, "%s becomes %s", a, v)
				}
			}
		}
	}
}

// holdsDecoded: all fields of the statistics p are those decoded from data.
func holdsDecoded(it *IterOut, p, data *Term, u *U) bool {
	n := 0
	for _, m := range []map[*Term]*Term{it.writes, it.made} {
		for a, v := range m {
			if a.op == OField && a.args[0] == p && strings.HasPrefix(a.s, "files.Stats.") {
				f := strings.TrimPrefix(a.s, "files.Stats.")
				if f[0] >= 'A' && f[0] <= 'Z' {
					if v != u.Call("decoded."+f, data) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// isDropped: fields of a table that are not part of what was learnt.
func isDropped(class string) bool {
	return strings.HasSuffix(class, ".logger") || strings.HasSuffix(class, ".RandomGenerator")
}

// presenceIn is the membership of a key at the start of an iteration.
func (e *Engine) presenceIn(it *IterOut, in *Term) *Term {
	if v, ok := it.start[in]; ok {
		return v
	}
	for f := range it.facts {
		var r *Term
		contains(f, func(x *Term) bool {
			if x == e.u.Init(in) || x.op == OCall && x.s == "@" && len(x.args) == 2 && x.args[1] == in {
				r = x
			}
			return false
		})
		if r != nil {
			return r
		}
	}
	return e.u.Init(in)
}

func (c *Ctx) dumpFile(m *impl) {
	con := m.name + ".Dump"
	e := c.engine()
	e.precise = true
	u := e.u
	e.opaque = func(f *ssa.Function) bool { return fnShort(f) == "Dumps" && f.Signature.Recv() != nil }
	s := c.scOn(e, m.fn, con, "c", "name", "full")
	s.run()
	c.panicsOnlyOnErrors(s, con)
	for _, o := range s.returns() {
		at := map[string]int{}
		var dumps, loop, file, zip *Event
		lp := -1
		for i, ev := range o.st.events {
			if _, dup := at[ev.name]; dup && ev.kind == "call" {
				c.check("file operations", con, ev.name != "os.Create" && ev.name != "compress/gzip.NewWriter", ev.pos, "%s is called twice", ev.name)
			}
			at[ev.name] = i
			switch {
			case ev.name == "os.Create":
				file = ev
			case ev.name == "compress/gzip.NewWriter":
				zip = ev
			case ev.kind == "fn" && strings.HasSuffix(ev.name, ".Dumps"):
				dumps = ev
			case ev.kind == "loop":
				for _, it := range ev.loop.iters {
					if countEv(it.events, "call", "(*compress/gzip.Writer).Write") > 0 {
						loop, lp = ev, i
					}
				}
			}
		}
		if !c.check("file operations", con, dumps != nil && loop != nil && file != nil && zip != nil, o.pos, "a dump ends without creating, compressing or writing") {
			continue
		}
		c.check("file operations", con, file.args[0] == s.arg("name"), o.pos, "the file is called %s", file.args[0])
		fv := file.ret
		if fv.op == OTuple {
			fv = fv.args[0]
		}
		c.check("file operations", con, e.strip(zip.args[0]) == fv, o.pos, "the compressor does not write to the file")
		c.check("asks for what is wanted", con, len(dumps.args) > 1 && dumps.args[1] == s.arg("full") && dumps.args[0] == s.arg("c"), o.pos, "the records are %s", dumps)
		c.check("every record is written", con, loop.loop.trip == u.Len(dumps.ret), m.fn.Pos(), "%s records are written", loop.loop.trip)
		for _, it := range loop.loop.iters {
			w := evs(it.events, "call", "(*compress/gzip.Writer).Write")
			ok := len(w) == 1 && w[0].args[0] == zip.ret && w[0].args[1] == e.elem(o.st, dumps.ret, loop.loop.k, types.NewSlice(types.Universe.Lookup("byte").Type()))
			c.check("every record is written", con, ok, m.fn.Pos(), "a record is written %d times", len(w))
			if len(w) == 1 {
				er := w[0].ret
				if er.op == OTuple {
					er = er.args[len(er.args)-1]
				}
				c.check("failures are reported", con+" write", it.truth(u, u.EQ(er, u.Nil())) == 1, w[0].pos, "a failed write is passed over")
			}
		}
		zc, okz := at["(*compress/gzip.Writer).Close"]
		fc, okf := at["(*os.File).Close"]
		c.check("closing", con, okz && zc > lp && okf && fc > zc, o.pos, "compressor closed at %d, file at %d, last record at %d", zc, fc, lp)
		for _, ev := range o.st.events {
			if ev.name != "os.Create" && ev.name != "(*compress/gzip.Writer).Close" && ev.name != "(*os.File).Close" || ev.ret == nil {
				continue
			}
			er := ev.ret
			if er.op == OTuple {
				er = er.args[len(er.args)-1]
			}
			if ev.name == "(*os.File).Close" {
				c.check("failures are reported", con+" "+ev.name, u.decide(o.st, u.EQ(er, u.Nil())) != 0, ev.pos, "only a failed %s is passed over", ev.name)
				continue
			}
			c.check("failures are reported", con+" "+ev.name, u.decide(o.st, u.EQ(er, u.Nil())) == 1, ev.pos, "a failed %s is passed over", ev.name)
		}
	}
}

func (c *Ctx) loadFile(m *impl) {
	con := m.name + ".Load"
	e := c.engine()
	e.precise = true
	u := e.u
	const read = "(*compress/gzip.Reader).Read"
	s := c.scOn(e, m.fn, con, "c", "name")
	s.run()
	c.panicsOnlyOnErrors(s, con)
	errOf := func(ev *Event) *Term {
		if ev.ret.op == OTuple {
			return ev.ret.args[len(ev.ret.args)-1]
		}
		return ev.ret
	}
	reused := reusesBuffer(m.fn) && !copiesRecords(m.fn)
	for _, o := range s.returns() {
		var file, zip, last *Event
		var loop *LoopInfo
		closed := 0
		for _, ev := range o.st.events {
			switch {
			case ev.name == "os.Open":
				file = ev
			case ev.name == "compress/gzip.NewReader":
				zip = ev
			case ev.name == read:
				last = ev
			case ev.name == "(*os.File).Close":
				closed++
			case ev.kind == "loop" && countEv(each1(ev.loop), "call", read) > 0:
				loop = ev.loop
			}
		}
		if !c.check("file operations", con, file != nil && zip != nil, o.pos, "a file is loaded without opening or decompressing it") {
			continue
		}
		fv := file.ret
		if fv.op == OTuple {
			fv = fv.args[0]
		}
		c.check("file operations", con, file.args[0] == s.arg("name") && e.strip(zip.args[0]) == fv && closed > 0, o.pos, "the file read is %s", file.args[0])
		for _, ev := range []*Event{file, zip} {
			c.check("failures are reported", con+" "+ev.name, u.decide(o.st, u.EQ(errOf(ev), u.Nil())) == 1, ev.pos, "a failed %s is passed over", ev.name)
		}
		if loop == nil || last == nil {
			c.notes = append(c.notes, con+": the file is not read byte by byte; its splitting is not analysed")
			continue
		}
		eof := false
		for f, v := range o.st.facts {
			if v && f.op == OEQ && (f.args[0] == errOf(last) || f.args[1] == errOf(last)) && (strings.Contains(f.args[0].String(), "io.EOF") || strings.Contains(f.args[1].String(), "io.EOF")) {
				eof = true
			}
		}
		c.check("reads to the end", con, eof, o.pos, "reading ends where %s", factsString(o.st.facts))
		// one byte is read; a newline ends the record
		var buf, recs *Term
		for _, it := range loop.iters {
			rd := evs(it.events, "call", read)
			if !c.check("reads every byte", con, len(rd) == 1 && rd[0].args[1].op == OSeq && len(rd[0].args[1].args) == 1 && allElems(rd[0].args[1]), m.fn.Pos(), "%d reads in one step", len(rd)) {
				continue
			}
			c.check("failures are reported", con+" "+read, it.truth(u, u.EQ(errOf(rd[0]), u.Nil())) == 1, rd[0].pos, "a failed read is passed over")
			nl := -1
			for f, v := range it.facts {
				if f.op == OEQ {
					for i := 0; i < 2; i++ {
						x := f.args[i]
						if x.op == OConst && x.kind == 's' && x.s == "\n" || isNum(x) && x.rat.IsInt() && x.rat.Num().Int64() == 10 {
							nl = 0
							if v {
								nl = 1
							}
						}
					}
				}
			}
			if !c.check("records end at newlines", con, nl >= 0, m.fn.Pos(), "a byte is read where %s", factsString(it.facts)) {
				continue
			}
			for _, p := range variables(it) {
				switch {
				case nl == 0 && p[1].op == OSeq && len(p[1].args) == 2 && p[1].args[0].op == OSpread && p[1].args[0].args[0] == p[0]:
					c.check("bytes are kept", con, p[1].args[1] == rd[0].args[1].args[0] || byteRead(p[1].args[1], rd[0].args[1]), m.fn.Pos(), "a byte becomes %s", p[1].args[1])
					buf = p[0]
				case nl == 1 && p[1].op == OSeq && len(p[1].args) == 2 && p[1].args[0].op == OSpread && p[1].args[0].args[0] == p[0] && p[1].args[1].op == OElem:
					recs = p[0]
				}
			}
		}
		if !c.check("bytes are kept", con, buf != nil, m.fn.Pos(), "no byte is kept") || !c.check("records are kept", con, recs != nil, m.fn.Pos(), "no record is kept") {
			continue
		}
		for _, it := range loop.iters {
			grown := false
			for _, p := range variables(it) {
				if p[0] == recs && p[1] != recs {
					grown = true
					x := p[1].args[len(p[1].args)-1].args[0]
					c.check("records are kept", con, c.holdsBytes(it.writes, x, buf, reused), m.fn.Pos(), "a record is %s (the bytes so far are %s)", x, buf)
				}
			}
			for _, p := range variables(it) {
				if p[0] == buf {
					empty := p[1].op == OSeq && len(p[1].args) == 0 || p[1] == u.Nil()
					c.check("records are separated", con, grown == empty, m.fn.Pos(), "the bytes become %s", p[1])
				}
			}
		}
		// what is left at the end
		r := o.ret[0]
		left := u.decide(o.st, u.EQ(u.Len(buf), u.Int(0)))
		switch {
		case r == recs:
			c.check("last record", con, left == 1, o.pos, "the bytes after the last newline are dropped")
		case r.op == OSeq && len(r.args) == 2 && r.args[0].op == OSpread && r.args[0].args[0] == recs && r.args[1].op == OElem:
			x := r.args[1].args[0]
			c.check("last record", con, c.holdsBytes(o.st.mem.ents, x, buf, false), o.pos, "the last record is %s", x)
		default:
			c.check("last record", con, false, o.pos, "the records are %s", r)
		}
	}
}

// holdsBytes: x is a copy of the bytes, or the bytes themselves when they are
// not overwritten later.
func (c *Ctx) holdsBytes(w map[*Term]*Term, x, buf *Term, reused bool) bool {
	if x == buf {
		return !reused
	}
	for a, v := range w {
		if v == buf && rootOf(a) == rootOf(x) {
			return true
		}
	}
	return false
}

// reusesBuffer: the function empties a byte slice without allocating.
func reusesBuffer(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok || sl.High == nil {
				continue
			}
			k, ok := sl.High.(*ssa.Const)
			if !ok || k.Value == nil || constant.Sign(k.Value) != 0 {
				continue
			}
			if _, isArr := sl.X.(*ssa.Alloc); isArr {
				continue
			}
			if t, ok := sl.Type().Underlying().(*types.Slice); ok && types.Identical(t.Elem(), types.Typ[types.Byte]) {
				return true
			}
		}
	}
	return false
}

// variables: the values before and after of what changes, in the frame or in
// memory.
func variables(it *IterOut) [][2]*Term {
	var r [][2]*Term
	for _, p := range it.phis {
		r = append(r, p)
	}
	for a, v := range it.start {
		if a.op == OAlloc && it.writes[a] != nil {
			r = append(r, [2]*Term{v, it.writes[a]})
		}
	}
	return r
}

// byteRead: the element is the byte that was read into the buffer.
func byteRead(x, buf *Term) bool {
	if x.op != OElem {
		return false
	}
	at := untag(x.args[0])
	return at.op == OIndex && at.args[0] == buf && isNum(at.args[1]) && at.args[1].rat.Sign() == 0
}

// copiesRecords: every byte slice that is put in a list is a fresh copy.
func copiesRecords(f *ssa.Function) bool {
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				continue
			}
			t, ok := st.Val.Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(t.Elem(), types.Typ[types.Byte]) {
				continue
			}
			call, ok := st.Val.(*ssa.Call)
			if !ok || !isBuiltin(call, "append") || !freshList(call.Call.Args[0]) {
				return false
			}
			found = true
		}
	}
	return found
}

// freshList: an empty list that shares no memory with another one.
func freshList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		return ok && len(*a.Referrers()) == 1
	case *ssa.ChangeType:
		return freshList(x.X)
	}
	return false
}

// jsonNames: a field that is dumped is read back into the same field.
func (c *Ctx) jsonNames() {
	seen := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := t.(type) {
		case *types.Pointer:
			walk(x.Elem())
			return
		case *types.Slice:
			walk(x.Elem())
			return
		case *types.Map:
			walk(x.Elem())
			return
		}
		n, ok := t.(*types.Named)
		if !ok || seen[typeName(n)] || !inRepoPkg(n.Obj().Pkg()) {
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		seen[typeName(n)] = true
		names := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			if !f.Exported() {
				continue
			}
			con := typeName(n) + "." + f.Name()
			if name == "-" && opts == "" {
				// what is left out is not encodable
				c.check("left out", con, !encodable(f.Type(), nil), f.Pos(), "the field is left out of dumps")
				continue
			}
			if name == "" {
				name = f.Name()
			}
			low := strings.ToLower(name)
			c.check("field names", con, names[low] == "", f.Pos(), "%s and %s are dumped under the same name", names[low], f.Name())
			names[low] = f.Name()
			c.check("encodable", con, encodable(f.Type(), nil), f.Pos(), "%s cannot be encoded", f.Type())
			walk(f.Type())
		}
	}
	for _, r := range []string{"cache.DumpRecord", "cache.DumpInfo", "files.Stats", "qlearn.Agent", "featuremap.FeatureManager"} {
		n := c.w.lookupType(r)
		if n == nil {
			c.missing("type " + r)
		}
		walk(n)
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.extra = append(c.extra, ks...)
}

// encodable: the type can be written as JSON.
func encodable(t types.Type, seen []types.Type) bool {
	for _, s := range seen {
		if s == t {
			return true
		}
	}
	seen = append(seen, t)
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsComplex == 0 && x.Kind() != types.UnsafePointer
	case *types.Chan, *types.Signature:
		return false
	case *types.Pointer:
		return encodable(x.Elem(), seen)
	case *types.Slice:
		return encodable(x.Elem(), seen)
	case *types.Array:
		return encodable(x.Elem(), seen)
	case *types.Map:
		b, ok := x.Key().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsString) != 0 && encodable(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Exported() && reflect.StructTag(x.Tag(i)).Get("json") != "-" && !encodable(x.Field(i).Type(), seen) {
				return false
			}
		}
	}
	return true
}

// panicsOnlyOnErrors: every panic follows an error some call returned.
func (c *Ctx) panicsOnlyOnErrors(s *Sc, con string) {
	for _, o := range s.kind("panic") {
		ok := false
		for f, v := range o.st.facts {
			if !v && f.op == OEQ && (f.args[0] == s.e.u.Nil() || f.args[1] == s.e.u.Nil()) {
				x := f.args[0]
				if x == s.e.u.Nil() {
					x = f.args[1]
				}
				ok = ok || x.op == OCall && x.s == "json.err" || x.op == OSym || x.op == OCall && strings.HasPrefix(x.s, "?")
			}
		}
		c.check("panics report errors", con, ok, o.pos, "it panics where %s", factsString(o.st.facts))
	}
}

// elem is entry i of a sequence with elements of type t.
func (e *Engine) elem(st *State, seq, i *Term, t types.Type) *Term {
	if x, ok := st.mem.ents[e.u.Index(seq, i, elemClass(t))]; ok {
		return x
	}
	if x := e.elemAt(seq, i); x != nil {
		return x
	}
	return e.readAt(st, e.u.Index(seq, i, elemClass(t)))
}
