package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P41", 12, "every path of the statistics lines, of the coverage of a table and of the text of a Q-table: the cells against the quantities they name", ruleReports)
}

func ruleReports(c *Ctx) {
	c.guarded("Agent.GetCoverage", c.coverage)
	c.guarded("Agent.Init", c.tableSize)
	for typ, want := range statLabels {
		typ, want := typ, want
		c.guarded(typ+".ExtraStats", func() { c.statsLine(typ, want) })
	}
	for _, a := range []string{"addition", "eviction"} {
		a := a
		c.guarded(a+" table", func() { c.tableText(a) })
	}
	for _, k := range featureKinds {
		k := k
		c.guarded("Obj.ToString", func() { c.valueText(k.kind, k.field) })
	}
}

// label is a cell of a line of statistics: a name and what it shows.
type label struct {
	group int
	name  string
	value *Term
}

// labels reads a text made of "name:value" cells, separated by bars.
func labels(t *Term) []label {
	parts := []*Term{t}
	if t.op == OCat {
		parts = t.args
	}
	var r []label
	name, group := "", 0
	open := false
	for _, p := range parts {
		if p.op == OConst && p.kind == 's' {
			for i, x := range strings.Split(p.s, "|") {
				if i > 0 {
					name, open = "", false
					if x == "" && i < strings.Count(p.s, "|") {
						group++
					}
				}
				name += x
				if j := strings.Index(name, ":"); j >= 0 && !open {
					name, open = name[:j], true
				}
			}
			continue
		}
		if open {
			if p.op == OCall && strings.HasPrefix(p.s, "%") && len(p.args) == 1 {
				p = p.args[0]
			}
			r = append(r, label{group, name, p})
		} else {
			r = append(r, label{group, "?", p})
		}
	}
	return r
}

var statLabels = map[string][]struct {
	group int
	name  string
	what  string // an expression, or the number of a result of the coverage of an agent
	cover int
}{
	"AIRL": {
		{0, "SCov", "c.additionAgent", 2}, {0, "ACov", "c.additionAgent", 1}, {0, "Eps", "c.additionAgent.Epsilon", 0},
		{1, "SCov", "c.evictionAgent", 2}, {1, "ACov", "c.evictionAgent", 1}, {1, "Eps", "c.evictionAgent.Epsilon", 0},
	},
	"WeightFun": {
		{0, "a", "c.fParams.Alpha", 0}, {0, "b", "c.fParams.Beta", 0}, {0, "g", "c.fParams.Gamma", 0}, {0, "wAVG", "c.stats.GetWeightMedian()", 0},
	},
}

func (c *Ctx) statsLine(typ string, want []struct {
	group int
	name  string
	what  string
	cover int
}) {
	con := typ + ".ExtraStats"
	fn := c.fn("cache." + con)
	cov := c.fn("qlearn.Agent.GetCoverage")
	e := c.engine()
	e.opaque = func(f *ssa.Function) bool { return f == cov }
	s := c.scOn(e, fn, con, "c")
	n := 0
	for _, o := range s.returns() {
		n++
		ls := labels(o.ret[0])
		if !c.check("cells", con, len(ls) == len(want), o.pos, "the line has %d cells instead of %d: %s", len(ls), len(want), o.ret[0]) {
			continue
		}
		for i, w := range want {
			l := ls[i]
			name := fmt.Sprintf("%s %s of group %d", con, w.name, w.group+1)
			if !c.check("label", name, l.name == w.name && l.group == w.group, o.pos, "cell %d is labelled %s", i+1, l.name) {
				continue
			}
			ok := false
			if w.cover == 0 {
				for _, a := range s.value(o, w.what) {
					ok = ok || a.v.t == l.value
				}
			} else {
				v := l.value
				a, _ := s.addr(w.what)
				ok = v.op == OCall && strings.HasPrefix(v.s, "fn:"+fnName(cov)+"#") &&
					v.s == fmt.Sprintf("fn:%s#%d", fnName(cov), w.cover-1) && len(v.args) > 0 && e.deepOf(v.args[0], a)
			}
			c.check("label", name, ok, o.pos, "it shows %s", l.value)
		}
	}
	c.check("paths", con, n > 0 && len(s.kind("panic")) == 0, fn.Pos(), "no line is made")
}

// deepOf: v is the whole struct at address a.
func (e *Engine) deepOf(v, a *Term) bool {
	v = untag(v)
	if v == a {
		return true
	}
	if v.op == OStruct {
		for _, x := range v.args {
			if b := untag(x); b.op == OField && b.args[0] == a {
				return true
			}
		}
	}
	return false
}

// coverage: the counts behind the two percentages.
func (c *Ctx) coverage() {
	con := "Agent.GetCoverage"
	fn := c.fn("qlearn." + con)
	s := c.scOn(c.engine(), fn, con, "agent")
	e, u := s.e, s.e.u
	n := 0
	for _, o := range s.returns() {
		n++
		tab := s.term(o, "agent.QTable.Actions")
		count := func(i int, over string) *Term {
			x := u.Div(u.Mul(o.ret[i], s.term(o, "agent."+over)), u.Int(100))
			x = e.simp(o.st.facts, x)
			ok := !contains(x, func(t *Term) bool { return t.op == OField })
			for _, m := range u.monos(x) {
				ok = ok && m.coef.IsInt()
			}
			c.check("over all", con+" "+over, ok, o.pos, "the share is %s, which is not 100 times a count over %s", o.ret[i], over)
			if !ok {
				return nil
			}
			return x
		}
		cells, rows := count(0, "NumVars"), count(1, "NumStates")
		if cells == nil || rows == nil {
			continue
		}
		var outer []*LoopInfo
		for _, ev := range o.st.events {
			if ev.loop != nil {
				outer = append(outer, ev.loop)
			}
		}
		if len(outer) != 1 || cells.op == OSum || rows.op == OSum {
			c.note("%s: the shape of the counting is not recognised", con)
			continue
		}
		l := outer[0]
		c.check("every row is looked at", con, l.trip == u.Len(tab), l.pos, "%s rows are looked at", l.trip)
		for _, it := range l.iters {
			row := e.elem(o.st, tab, l.k, types.NewSlice(types.Typ[types.Float64]))
			cEnd, rEnd := phiOf(it, cells), phiOf(it, rows)
			inner := loopsIn(it.events)
			if cEnd == nil || rEnd == nil || len(inner) != 1 {
				c.note("%s: the shape of the counting is not recognised", con)
				continue
			}
			in := inner[0]
			c.check("every entry is looked at", con, in.trip == u.Len(row), in.pos, "%s entries of a row are looked at", in.trip)
			x := e.elem(o.st, row, in.k, types.Typ[types.Float64])
			counts, flags := c.counters(u, in, u.EQ(x, u.Int(0)))
			okc, any := false, 0
			for name, p := range counts {
				d := u.Add(cEnd, u.Neg(u.Add(p, u.Neg(in.enter[name]))))
				if d == cells {
					okc = true
				}
				// a count is never below its start
				below := u.LT(u.Sub(u.Sub(p, in.enter[name]), u.Int(1)), true)
				if it.truth(u, u.EQ(p, in.enter[name])) == 0 || it.truth(u, below) == 0 {
					any = 1
				} else if it.truth(u, u.EQ(p, in.enter[name])) == 1 || it.truth(u, below) == 1 {
					any = -1
				}
			}
			c.check("non-zero entries are counted", con, okc, in.pos, "the entries counted go from %s to %s in a row", cells, cEnd)
			for name, p := range flags {
				was := in.enter[name]
				if it.truth(u, was) != 0 {
					continue
				}
				if y := it.truth(u, p); y == 1 {
					any = 1
				} else if y == 0 {
					any = -1
				}
			}
			if any == 0 {
				c.check("rows with an entry are counted", con, false, in.pos, "whether the row has a non-zero entry does not decide if it counts")
				continue
			}
			want := rows
			if any == 1 {
				want = u.Add(rows, u.Int(1))
			}
			c.check("rows with an entry are counted", con, rEnd == want, in.pos, "the rows counted go from %s to %s at a row %s a non-zero entry", rows, rEnd, map[int]string{1: "with", -1: "without"}[any])
		}
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path answers")
}

// counters are the loop variables that count the iterations in which the
// condition does not hold, and those that remember that there was one.
func (c *Ctx) counters(u *U, l *LoopInfo, zero *Term) (counts, flags map[string]*Term) {
	counts, flags = map[string]*Term{}, map[string]*Term{}
	for name := range l.enter {
		nc, nf, zc := true, true, true
		var start *Term
		for _, it := range l.iters {
			p, has := it.phis[name]
			if !has {
				nc, nf = false, false
				continue
			}
			start = p[0]
			switch it.truth(u, zero) {
			case 1:
				zc = zc && p[1] == p[0]
			case 0:
				nc = nc && p[1] == u.Add(p[0], u.Int(1))
				nf = nf && p[1] == u.Bool(true)
			default:
				nc, nf = false, false
			}
		}
		if start == nil || !zc {
			continue
		}
		if nc {
			counts[name] = start
		}
		if nf {
			flags[name] = start
		}
	}
	return
}

// tableSize: the sizes the shares are taken of.
func (c *Ctx) tableSize() {
	con := "Agent.Init"
	fn := c.fn("qlearn." + con)
	init := c.fn("qlearn.QTable.Init")
	e := c.engine()
	e.opaque = func(f *ssa.Function) bool { return f == init }
	s := c.scOn(e, fn, con, "agent", "fm", "role", "eps", "decay", "unleash", "seed")
	n := 0
	for _, o := range s.returns() {
		n++
		for _, x := range []string{"agent.NumStates == len(agent.QTable.States)", "agent.NumVars == len(agent.QTable.States) * len(agent.QTable.Actions[0])"} {
			ok, why := s.holds(o, x)
			c.check("size", con+" "+strings.Fields(x)[0], ok, o.pos, "%s: %s", x, why)
		}
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path returns")
}

// text reads a text as lines of cells, nil when a cell is made of several
// parts.
func (e *Engine) text(t *Term) [][]*Term {
	u := e.u
	var parts []*Term
	var flat func(t *Term) bool
	flat = func(t *Term) bool {
		switch {
		case t.op == OCat:
			for _, x := range t.args {
				if !flat(x) {
					return false
				}
			}
		case t.op == OCall && t.s == "strings.Join":
			l := t.args[0]
			if l.op != OSeq || !allElems(l) {
				return false
			}
			for i, x := range l.args {
				if i > 0 {
					parts = append(parts, t.args[1])
				}
				if !flat(x.args[0]) {
					return false
				}
			}
		default:
			parts = append(parts, t)
		}
		return true
	}
	if !flat(t) {
		return nil
	}
	lines := [][]*Term{{}}
	open := true
	put := func(x *Term) bool {
		if !open {
			return false
		}
		lines[len(lines)-1] = append(lines[len(lines)-1], x)
		open = false
		return true
	}
	for _, p := range parts {
		if p.op != OConst || p.kind != 's' {
			if !put(p) {
				return nil
			}
			continue
		}
		rest := p.s
		for rest != "" {
			i := strings.IndexAny(rest, ",\n")
			w := rest
			if i >= 0 {
				w = rest[:i]
			}
			if w != "" && !put(u.Str(w)) {
				return nil
			}
			if i < 0 {
				break
			}
			if rest[i] == '\n' {
				lines = append(lines, []*Term{})
			}
			open = true
			rest = rest[i+1:]
		}
	}
	if len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1] // a final line end
	}
	return lines
}

// shown is the value a cell shows as a number or a word.
func shown(t *Term) *Term {
	if t.op == OCall && len(t.args) >= 1 && (strings.HasPrefix(t.s, "%") && len(t.args) == 1 || strings.HasPrefix(t.s, "strconv.")) {
		return t.args[0]
	}
	return t
}

// tableText: the table of an agent as text, and the file it is written to.
func (c *Ctx) tableText(agent string) {
	con := agent + " table"
	fn := c.fn("cache.AIRL.ExtraOutput")
	toString := c.fn("featuremap.Obj.ToString")
	for _, have := range []bool{true, false} {
		e := c.engine()
		e.opaque = func(f *ssa.Function) bool { return f == toString }
		s := c.scOn(e, fn, con, "c", "info")
		u := e.u
		s.give("info", u.Str(agent+"QTable"))
		s.setBool("c."+agent+"AgentOK", have)
		if !have {
			s.run()
			for _, o := range s.returns() {
				c.check("an agent that is not used has no table", con, o.ret[0] == u.Str("") && len(calls(o, "os.Create")) == 0, o.pos, "a table is made of an agent that is not used: %s", o.ret[0])
			}
			continue
		}
		q := "c." + agent + "Agent.QTable."
		var names []string
		for n := range actionNames {
			names = append(names, n)
		}
		sort.Strings(names)
		var acts []*Term
		for _, n := range names {
			v, _, ok := c.pkgConst(e, "qlearn", n)
			if !ok {
				c.missing("qlearn." + n)
				return
			}
			acts = append(acts, u.Elem(v))
		}
		row := func(p string, n int) *Term {
			var es []*Term
			for i := 0; i < n; i++ {
				es = append(es, u.Elem(u.Sym(fmt.Sprintf("%s%d", p, i))))
			}
			return u.Seq(es...)
		}
		s.set(q+"ActionTypes", u.Seq(acts...))
		s.featureList(q+"FeatureManager.Features", []string{"size", "numReq"})
		var sts, vals []*Term
		for i := 0; i < 3; i++ {
			sts = append(sts, u.Elem(row(fmt.Sprintf("s%d.", i), 2)))
			vals = append(vals, u.Elem(row(fmt.Sprintf("q%d.", i), len(acts))))
		}
		s.set(q+"States", u.Seq(sts...))
		s.set(q+"Actions", u.Seq(vals...))
		n := 0
		for _, o := range s.returns() {
			n++
			c.tableLines(s, o, con, o.ret[0], names, sts, vals, toString)
			made := calls(o, "os.Create")
			wr := append(calls(o, "(*os.File).WriteString"), calls(o, "(*os.File).Write")...)
			ok := len(made) == 1 && made[0].args[0] == u.Str(agent+"QTable.csv")
			c.check("file", con, ok, o.pos, "the table is not written to %sQTable.csv", agent)
			if ok {
				f := made[0].ret
				if f != nil && f.op == OTuple {
					f = f.args[0]
				}
				c.check("file content", con, len(wr) == 1 && wr[0].args[0] == f && wr[0].args[1] == o.ret[0], o.pos, "the file does not get the whole table")
			}
		}
		c.check("paths", con, n > 0, fn.Pos(), "no path makes the table")
		for _, o := range s.returns() {
			for _, ev := range append(calls(o, "os.Create"), append(calls(o, "(*os.File).WriteString"), calls(o, "(*os.File).Write")...)...) {
				ok := ev.ret != nil && ev.ret.op == OTuple && u.decide(o.st, u.EQ(ev.ret.args[1], u.Nil())) == 1
				c.check("a failure to write is not ignored", con+" "+ev.name, ok, ev.pos, "an error of %s is ignored", ev.name)
			}
		}
	}
}

var actionNames = map[string]bool{"ActionDeleteAll": true, "ActionDeleteHalf": true, "ActionDeleteQuarter": true, "ActionDeleteOne": true, "ActionNotDelete": true, "ActionStore": true, "ActionNotStore": true}

func calls(o Out, name string) []*Event {
	var r []*Event
	each(o.st.events, func(ev *Event, _ []*LoopInfo) {
		if ev.kind == "call" && ev.name == name {
			r = append(r, ev)
		}
	})
	return r
}

func (c *Ctx) tableLines(s *Sc, o Out, con string, t *Term, names []string, sts, vals []*Term, toString *ssa.Function) {
	u := s.e.u
	lines := s.e.text(t)
	if lines == nil {
		// made in a way that is not followed, at least of the right table
		c.note("%s: the text is not recognised: %.300s", con, t.String())
		for r := range sts {
			for _, x := range append(append([]*Term{}, sts[r].args[0].args...), vals[r].args[0].args...) {
				c.check("text", con, contains(t, func(y *Term) bool { return y == x.args[0] }), o.pos, "%s of the table is not in its text", x.args[0])
			}
		}
		return
	}
	if !c.check("a header and a row per state", con, len(lines) == 1+len(sts), o.pos, "%d lines for %d states", len(lines), len(sts)) {
		return
	}
	for i, l := range lines {
		if !c.check("cells of a line", con, len(l) == len(names)+2, o.pos, "line %d has %d cells for %d actions and 2 features", i, len(l), len(names)) {
			return
		}
	}
	for i, n := range names {
		c.check("header", con+" "+n, lines[0][i] == u.Str(n), o.pos, "the column of %s is headed %s", n, lines[0][i])
	}
	for i, n := range []string{"size", "numReq"} {
		c.check("header", con+" features", lines[0][len(names)+i] == u.Str(n), o.pos, "the column of feature %s is headed %s", n, lines[0][len(names)+i])
	}
	for r := range sts {
		for i := range names {
			w := vals[r].args[0].args[i].args[0]
			c.check("action values", con, shown(lines[r+1][i]) == w, o.pos, "row %d shows %s for %s", r, lines[r+1][i], names[i])
		}
		for i, n := range []string{"size", "numReq"} {
			x := lines[r+1][len(names)+i]
			var args []*Term
			if x.op == OCall && x.s == "fn:"+fnName(toString)+"#0" {
				args = x.args
			}
			for _, ev := range o.st.events {
				if ev.kind == "fn" && ev.name == fnName(toString) && ev.ret == x {
					args = ev.args
				}
			}
			ok := len(args) >= 2 && args[1] == sts[r].args[0].args[i].args[0] &&
				c.structField(args[0], "featuremap.Obj", "Name") == u.Str(n)
			c.check("feature values", con, ok, o.pos, "row %d shows %s for feature %s", r, x, n)
		}
	}
}

// valueText: a value of a feature as text.
func (c *Ctx) valueText(kind int64, field string) {
	con := "Obj.ToString " + field
	fn := c.fn("featuremap.Obj.ToString")
	e := c.engine()
	e.precise = true
	s := c.scOn(e, fn, con, "obj", "i")
	s.assume(fmt.Sprintf("obj.ReflectType == %d", kind))
	u := e.u
	n, ends := 0, 0
	for _, o := range s.returns() {
		n++
		v := s.term(o, "obj."+field+"[i]")
		got := o.ret[0]
		top := -1
		switch field {
		case "Int64Values":
			if top = 0; isNum(v) {
				top = b2i(v == u.Int(math.MaxInt64))
			} else if got == u.Str("max") {
				top = -1
			}
		case "Float64Values":
			// the largest number, as the constant is kept
			if top = 0; isNum(v) {
				f, _ := v.rat.Float64()
				top = b2i(f == math.MaxFloat64)
			} else if got == u.Str("max") {
				top = -1
			}
		default:
			top = 0
		}
		if top == 1 {
			ends++
			c.check("open end", con, got == u.Str("max"), o.pos, "an open end is shown as %s", got)
			continue
		}
		ok := shown(got) == v
		if field == "BoolValues" && !ok {
			switch u.decide(o.st, v) {
			case 1:
				ok = got == u.Str("true")
			case 0:
				ok = got == u.Str("false")
			}
		}
		c.check("value", con, ok && top == 0, o.pos, "value %s is shown as %s", v, got)
	}
	if field == "Int64Values" || field == "Float64Values" {
		c.check("open end", con, ends > 0, fn.Pos(), "an open end is shown as a number")
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path answers")
}
