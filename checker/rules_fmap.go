package main

import (
	"go/constant"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R10", 20, "every path of the reader of feature maps: the entries of a feature, its values by type, its place in the lists, and the rejections", ruleFeatureMap)
}

func ruleFeatureMap(c *Ctx) {
	c.guarded("FeatureManager.Populate", c.populate)
	c.guarded("Parse", c.parsed)
}

func (c *Ctx) populate() {
	con := "FeatureManager.Populate"
	e := c.engine()
	weights := map[*ssa.Function]string{
		c.fn("featuremap.FeatureManager.makeFeatureIdxWeights"):     "weights",
		c.fn("featuremap.FeatureManager.makeFileFeatureIdxWeights"): "file weights",
	}
	e.opaque = func(f *ssa.Function) bool { return weights[f] != "" }
	e.precise = true
	s := c.scOn(e, c.fn("featuremap.FeatureManager.Populate"), con, "m", "path")
	kind := func(n string) *Term { return c.reflectKind(e, n) }
	rets, rejects := 0, map[string]int{}
	for _, o := range s.run().outs {
		switch o.kind {
		case "return":
			rets++
			c.featuresRead(s, con, o, kind)
			for f, n := range weights {
				calls := c.called(o.st.events, "featuremap.FeatureManager."+f.Name())
				last := len(o.st.events) - 1
				for last >= 0 && o.st.events[last].kind != "loop" {
					last--
				}
				after := false
				for i, ev := range o.st.events {
					if len(calls) == 1 && ev == calls[0] {
						after = i > last
					}
				}
				c.check("weights", con, len(calls) == 1 && calls[0].args[0] == s.arg("m") && after, o.pos, "the %s are not computed after the features are read", n)
			}
		case "panic", "abort":
			rejects[o.kind]++
			c.rejected(s, con, o, kind)
		}
	}
	c.note("feature maps: %d paths read one, %d panic and %d stop the program", rets, rejects["panic"], rejects["abort"])
	c.check("paths", con, rets > 0, s.fn.Pos(), "no path reads a feature map")
}

// parsed: a map that is asked for is read, by a manager that can report what
// is wrong with it.
func (c *Ctx) parsed() {
	con := "Parse"
	e := c.engine()
	pop := c.fn("featuremap.FeatureManager.Populate")
	e.opaque = func(f *ssa.Function) bool { return f == pop }
	s := c.scOn(e, c.fn("featuremap.Parse"), con, "path")
	e.onEvent = func(st *State, ev *Event) {
		if ev.kind == "fn" && ev.name == fnName(pop) {
			lg := e.readAt(st, e.u.Field(ev.args[0], "featuremap.FeatureManager.logger"))
			c.check("errors are reported", con, lg != nil && !isZero(lg) && lg != e.u.Nil(), ev.pos, "a map is read without a logger for its errors")
		}
	}
	n := 0
	for _, o := range s.returns() {
		n++
		calls := c.called(o.st.events, "featuremap.FeatureManager.Populate")
		c.check("the map is read", con, len(calls) == 1 && calls[0].args[1] == s.arg("path"), o.pos, "the map is read %d times", len(calls))
	}
	c.check("paths", con, n > 0, s.fn.Pos(), "no path returns")
}

// reflectKind is the value of a kind of package reflect.
func (c *Ctx) reflectKind(e *Engine, n string) *Term {
	for _, p := range c.w.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			if k, ok := p.Members[n].(*ssa.NamedConst); ok {
				if v, ok := constant.Int64Val(constant.ToInt(k.Value.Value)); ok {
					return e.u.Int(v)
				}
			}
		}
	}
	c.missing("reflect." + n)
	return nil
}

// isCall: t is the result of a call of the named function on something of x.
func isCallOn(t *Term, name string, x *Term) bool {
	return t != nil && t.op == OCall && t.s == name && contains(t, func(y *Term) bool { return y == x })
}

// rejected: a path that does not return has met something that is not a
// feature map, or an error.
func (c *Ctx) rejected(s *Sc, con string, o Out, kind func(string) *Term) {
	u := s.e.u
	why := ""
	for f, v := range o.st.facts {
		if f.op != OEQ {
			continue
		}
		a, b := f.args[0], f.args[1]
		switch {
		case !v && (a == u.Nil() || b == u.Nil()):
			why = "an error"
		case !v && f.s == "n" && contains(a, func(x *Term) bool { return strings.Contains(x.s, "Kind") }):
			why = "a kind"
		}
	}
	if why == "" {
		// an unknown extension, or an unknown entry: it is none of those known
		if o.kind == "abort" {
			n := 0
			for f, v := range o.st.facts {
				if f.op == OEQ && !v && contains(f, func(x *Term) bool { return x.op == OCall && x.s == "path/filepath.Ext" }) {
					n++
				}
			}
			if n >= 3 {
				why = "the extension"
			}
		} else {
			known := map[string]bool{"buckets": true, "values": true, "openRight": true, "fileFeature": true, "type": true}
			for f, v := range o.st.facts {
				if f.op != OEQ || v {
					continue
				}
				for _, x := range f.args {
					if x.op == OConst && x.kind == 's' {
						delete(known, x.s)
					}
				}
			}
			if len(known) == 0 {
				why = "the entry"
			}
		}
	}
	c.check("rejections", con, why != "", o.pos, "a feature map is rejected when %s", factsString(o.st.facts))
}

func (c *Ctx) featuresRead(s *Sc, con string, o Out, kind func(string) *Term) {
	e, u := s.e, s.e.u
	// no error was met
	for f, v := range o.st.facts {
		if f.op == OEQ && !v && (f.args[0] == u.Nil() || f.args[1] == u.Nil()) && contains(f, func(x *Term) bool {
			return strings.HasPrefix(x.s, "?os.Open#1") || strings.Contains(x.s, "Decode") || strings.Contains(x.s, "gzip.NewReader#1")
		}) {
			c.check("errors", con, false, o.pos, "a feature map is read after an error: %s", f)
		}
	}
	// compressed or plain by the extension
	dec := evs(o.st.events, "call", "(*encoding/json.Decoder).Decode")
	gz := evs(o.st.events, "call", "compress/gzip.NewReader")
	nd := evs(o.st.events, "call", "encoding/json.NewDecoder")
	opened := evs(o.st.events, "call", "os.Open")
	if c.check("file", con, len(opened) == 1 && opened[0].args[0] == s.arg("path") && len(dec) == 1 && len(nd) == 1 && dec[0].args[0] == nd[0].ret, o.pos, "%d files opened, %d decoded", len(opened), len(dec)) {
		ext := u.Call("path/filepath.Ext", s.arg("path"))
		packed := -1
		switch {
		case u.decide(o.st, u.EQ(ext, u.Str(".gz"))) == 1, u.decide(o.st, u.EQ(ext, u.Str(".gzip"))) == 1:
			packed = 1
		case u.decide(o.st, u.EQ(ext, u.Str(".json"))) == 1:
			packed = 0
		}
		src := opened[0].ret.args[0]
		for _, g := range gz {
			if e.strip(g.args[0]) == src && g.ret.op == OTuple {
				src = g.ret.args[0]
			}
		}
		if packed >= 0 {
			c.check("file", con, len(gz) == packed && e.strip(nd[0].args[0]) == src, nd[0].pos, "%s is decoded", nd[0].args[0])
		} else {
			c.check("file", con, len(gz) == 1 && e.strip(nd[0].args[0]) == src, nd[0].pos, "%s is decoded from a file that may be compressed", nd[0].args[0])
		}
	}
	// the loop over the features
	feats := s.at("m.Features")
	var loop *LoopInfo
	for _, ev := range o.st.events {
		if ev.kind != "loop" {
			continue
		}
		for _, it := range ev.loop.iters {
			if it.writes[feats] != nil {
				if c.check("every feature", con, loop == nil || loop == ev.loop, o.pos, "features are added in two loops") {
					loop = ev.loop
				}
			}
		}
	}
	if !c.check("every feature", con, loop != nil, o.pos, "no feature is read") {
		return
	}
	// starts empty
	for _, p := range []string{"m.Features", "m.FileFeatures"} {
		if v, ok := loop.entry[s.at(p)]; ok {
			c.check("starts empty", con, v.op == OSeq && len(v.args) == 0 || v.op == OCall && v.s == "make" || isZero(u.Len(v)), o.pos, "%s starts as %s", p, v)
		}
	}
	for _, p := range []string{"m.FeatureIdxMap", "m.FileFeatureIdxMap"} {
		v := s.term(o, p)
		c.check("starts empty", con, v.op == OAlloc, o.pos, "%s is %s", p, v)
	}
	seen := map[string]int{}
	for _, it := range loop.iters {
		if e.infeasible(it.facts) {
			continue
		}
		c.featureRead(s, con, o, loop, it, kind, seen)
	}
	for _, n := range []string{"bool", "string", "int", "int open", "float", "float open", "file feature", "not a file feature"} {
		c.check("every feature", con+" "+n, seen[n] > 0, o.pos, "no path reads one")
	}
}

// featureRead checks the feature added by one case of the loop.
func (c *Ctx) featureRead(s *Sc, con string, o Out, l *LoopInfo, it *IterOut, kind func(string) *Term, seen map[string]int) {
	e, u := s.e, s.e.u
	pos := l.pos
	feats, ffeats := s.at("m.Features"), s.at("m.FileFeatures")
	list, before := it.writes[feats], it.start[feats]
	if !c.check("every feature", con, list != nil, pos, "a feature is left out when %s", factsString(it.facts)) {
		return
	}
	parts, ok := addedTo(u, list, before)
	if !c.check("every feature", con, ok && len(parts) == 1 && parts[0].op == OElem, pos, "the features become %s", list) {
		return
	}
	obj := parts[0].args[0]
	f := func(n string) *Term { return c.structField(obj, "featuremap.Obj", n) }
	if !c.check("every feature", con, f("Name") != nil, pos, "%s is added", obj) {
		return
	}
	// the name is that of the k-th key
	name := f("Name")
	key := contains(name, func(x *Term) bool { return x.op == OIndex && x.args[1] == l.k })
	c.check("name", con, key && l.trip != nil, pos, "the feature is named %s", name)
	sorted := 0
	for _, ev := range o.st.events {
		if ev == nil || ev.kind == "loop" && ev.loop == l {
			break
		}
		if ev.kind == "call" && strings.HasPrefix(ev.name, "sort.") && len(ev.args) > 0 {
			list := e.strip(ev.args[0])
			if contains(name, func(x *Term) bool { return x == list }) {
				sorted++
				if len(ev.args) > 1 {
					p := ev.args[1]
					up := p.op == OCall && p.s == "strlt" && u.Subst(p.args[0], u.Sym("β0"), u.Sym("β1")) == p.args[1] && p.args[0] != p.args[1]
					c.check("order", con, up, ev.pos, "the features are ordered by %s", p)
				}
			}
		}
	}
	c.check("order", con, sorted > 0, pos, "the features are in no order")
	// the entries
	for _, ev := range evs(it.events, "call", "(reflect.Value).MapRange") {
		ok := contains(ev.args[0], func(x *Term) bool {
			return x.op == OCall && x.s == "(reflect.Value).MapIndex" && contains(x.args[1], func(y *Term) bool { return y.op == OIndex && y.args[1] == l.k })
		})
		c.check("entries", con, ok, ev.pos, "the entries of a feature are those of %s", ev.args[0])
	}
	inner := c.entriesLoop(s, it)
	if !c.check("entries", con, inner != nil, pos, "the entries of a feature are not read") {
		return
	}
	entries := c.entries(s, con, inner, kind)
	if entries == nil {
		return
	}
	// what the flags are after the loop over the entries
	flag := map[string]*Term{}
	for n, a := range entries {
		if n == "values" {
			continue
		}
		v := f(n)
		flag[n] = v
		was := a.now
		same := v == was || was != nil && it.truth(u, u.EQ(v, was)) == 1 || v != nil && v.op == OConst && was != nil && it.truth(u, was) == b2i(v.b)
		c.check("entries", con+" "+n, same, pos, "%s is %s instead of the one read, %s", n, v, was)
	}
	items := entries["values"].now
	typ := f("Type")
	is := ""
	for _, t := range []string{"bool", "string", "int", "float"} {
		if it.truth(u, u.EQ(typ, u.Str(t))) == 1 {
			is = t
		}
	}
	open := it.truth(u, f("BucketOpenRight"))
	lists := map[string]*Term{}
	for _, n := range []string{"StringValues", "BoolValues", "Int64Values", "Float64Values"} {
		lists[n] = f(n)
	}
	type spec struct {
		kind, list, as string
		conv           func(*Term) *Term
		top            float64
	}
	id := func(x *Term) *Term { return x }
	sp, known := map[string]spec{
		"bool":   {"Bool", "BoolValues", "bool", id, 0},
		"string": {"String", "StringValues", "string", id, 0},
		"int":    {"Int64", "Int64Values", "float64", func(x *Term) *Term { return u.Call("trunc", x) }, math.MaxInt64},
		"float":  {"Float64", "Float64Values", "float64", id, math.MaxFloat64},
	}[is]
	cc := con + " " + is
	for n, v := range lists {
		if known && n == sp.list {
			continue
		}
		c.check("values", cc, v.op == OSeq && len(v.args) == 0, pos, "%s is %s", n, v)
	}
	if known {
		c.check("kind", cc, f("ReflectType") == kind(sp.kind), pos, "the kind is %s", f("ReflectType"))
		v := lists[sp.list]
		var tops []*Term
		base := v
		if v.op == OSeq && len(v.args) > 1 {
			base = v.args[0]
			if base.op == OSpread {
				base = base.args[0]
			}
			tops = v.args[1:]
		}
		c.check("values", cc, c.listOf(s, it, base, items, sp.as, sp.conv), pos, "%s is %s", sp.list, v)
		if sp.top == 0 {
			seen[is]++
			c.check("open bucket", cc, len(tops) == 0, pos, "%s is %s", sp.list, v)
		} else {
			if open == 1 {
				seen[is+" open"]++
			} else if open == 0 {
				seen[is]++
			}
			ok := open == 0 && len(tops) == 0 || open == 1 && len(tops) == 1 && tops[0].op == OElem && isTop(tops[0].args[0], sp.top)
			c.check("open bucket", cc, ok, pos, "%s is %s when openRight is %d", sp.list, v, open)
		}
	}
	// its place
	place := func(what, m, list string, before *Term) {
		mt := s.mapTypeOf("m." + m)
		at, _, _ := e.mapAddr(s.term(o, "m."+m), name, mt)
		c.check("place", con+" "+list, it.writes[at] == u.Len(before), pos, "the place of the %s is %s", what, it.writes[at])
	}
	place("feature", "FeatureIdxMap", "Features", before)
	file := it.truth(u, f("FileFeature"))
	flist, fbefore := it.writes[ffeats], it.start[ffeats]
	switch {
	case file == 1:
		seen["file feature"]++
		if flist == nil {
			c.check("file features", con, false, pos, "a file feature is left out")
			return
		}
		fp, ok := addedTo(u, flist, fbefore)
		c.check("file features", con, ok && len(fp) == 1 && fp[0].op == OElem && fp[0].args[0] == obj, pos, "the file features become %s", flist)
		place("file feature", "FileFeatureIdxMap", "FileFeatures", fbefore)
	case file == 0:
		seen["not a file feature"]++
		c.check("file features", con, flist == nil || flist == fbefore, pos, "the file features become %s", flist)
		for a := range it.writes {
			if a.op == OMapAt && a.args[0] == s.term(o, "m.FileFeatureIdxMap") {
				c.check("file features", con, false, pos, "a feature that is not of files gets a place among them")
			}
		}
	default:
		c.check("file features", con, false, pos, "a feature is a file feature or not whatever its flag")
	}
}

// isTop: the number is the one above every value of its type.
func isTop(t *Term, top float64) bool {
	if !isNum(t) {
		return false
	}
	v, _ := t.rat.Float64()
	return v == top && (top != math.MaxInt64 || t.rat.IsInt() && t.rat.Num().IsInt64())
}

// entriesLoop is the loop over the entries of the feature.
func (c *Ctx) entriesLoop(s *Sc, it *IterOut) *LoopInfo {
	var r *LoopInfo
	for _, ev := range it.events {
		if ev.kind != "loop" {
			continue
		}
		for _, jt := range ev.loop.iters {
			for f := range jt.facts {
				if f.op == OEQ && (f.args[0] == s.e.u.Str("openRight") || f.args[1] == s.e.u.Str("openRight")) {
					r = ev.loop
				}
			}
		}
	}
	return r
}

// entry is where an entry of a feature is kept while they are read.
type entry struct {
	now *Term // its value after the loop
}

// entries checks the cases of the loop over the entries of a feature.
func (c *Ctx) entries(s *Sc, con string, l *LoopInfo, kind func(string) *Term) map[string]*entry {
	u := s.e.u
	pos := l.pos
	known := []string{"buckets", "values", "openRight", "fileFeature", "type"}
	field := map[string]string{"openRight": "BucketOpenRight", "fileFeature": "FileFeature", "type": "Type"}
	// the name of the entry
	var key *Term
	for _, it := range l.iters {
		for f := range it.facts {
			if f.op == OEQ {
				for i, x := range f.args {
					if x == u.Str("openRight") {
						key = f.args[1-i]
					}
				}
			}
		}
	}
	r := map[string]*entry{}
	seen := map[string]int{}
	for _, it := range l.iters {
		which := ""
		for _, k := range known {
			if it.truth(u, u.EQ(key, u.Str(k))) == 1 {
				which = k
			}
		}
		if !c.check("entries", con, which != "" || it.truth(u, u.EQ(key, u.Str("buckets"))) < 0, pos, "an unknown entry is accepted when %s", factsString(it.facts)) {
			continue
		}
		if which == "" {
			which = "buckets" // one of the two names
		}
		seen[which]++
		// of the value of the entry, not of another one
		of := func(t *Term) bool {
			vs := evs(it.events, "call", "(*reflect.MapIter).Value")
			return len(vs) == 0 || contains(t, func(x *Term) bool { return x == vs[0].ret })
		}
		// what changes
		var changed []string
		for a, v := range it.writes {
			if a.op != OField || v == it.start[a] {
				continue
			}
			n := shortField(a.s)
			changed = append(changed, n)
			if r[n] == nil {
				r[n] = &entry{now: it.start[a]}
				zero := l.entry[a]
				c.check("entries", con+" "+n, zero != nil && (isZero(zero) || zero == u.Str("") || zero.op == OConst && zero.kind == 'b' && !zero.b), pos, "%s of a feature starts as %s", n, zero)
			}
			// its value comes from the value of the entry
			good := false
			switch which {
			case "buckets", "values":
				good = n == "Buckets" && v == u.Bool(true)
			case "type":
				good = n == "Type" && v.op == OCall && v.s == "(reflect.Value).String" && v != key && of(v)
			default:
				if n == field[which] {
					good = v.op == OCall && v.s == "(reflect.Value).Bool" && of(v)
					if v == u.Bool(true) {
						for f, val := range it.facts {
							good = good || val && f.op == OCall && f.s == "(reflect.Value).Bool" && of(f)
						}
					}
				}
			}
			c.check("entries", con+" "+n, good, pos, "the entry %s makes %s %s", which, n, v)
		}
		if len(changed) == 0 && field[which] != "" {
			// the flag is off
			off := false
			for f, val := range it.facts {
				off = off || !val && f.op == OCall && f.s == "(reflect.Value).Bool" && of(f)
			}
			c.check("entries", con+" "+field[which], off, pos, "the entry %s has no effect", which)
		}
		for p, v := range it.phis {
			if v[0] == v[1] || which != "buckets" && which != "values" {
				continue
			}
			if v[1].op == OCall && strings.HasPrefix(v[1].s, "as:[]") && contains(v[1], func(x *Term) bool { return x.s == "(reflect.Value).Interface" && of(x) }) {
				r["values"] = &entry{now: v[0]}
				start := l.enter[p]
				c.check("entries", con+" values", start != nil && isZero(u.Len(start)), pos, "the values of a feature start as %s", start)
			}
		}
		if which == "buckets" || which == "values" {
			slice := false
			for f, v := range it.facts {
				slice = slice || v && f.op == OEQ && f.s == "n" && f.args[1] == kind("Slice")
			}
			c.check("entries", con+" values", slice, pos, "values that are no list are accepted")
			c.check("entries", con+" values", r["values"] != nil, pos, "the values are not read")
		}
	}
	for _, k := range []string{"buckets", "openRight", "fileFeature", "type"} {
		c.check("entries", con, seen[k] > 0, pos, "the entry %s is not read", k)
	}
	for _, n := range []string{"Buckets", "BucketOpenRight", "FileFeature", "Type", "values"} {
		if !c.check("entries", con+" "+n, r[n] != nil, pos, "%s is never set", n) {
			return nil
		}
	}
	return r
}

// listOf: the list holds the items, converted, in their order.
func (c *Ctx) listOf(s *Sc, it *IterOut, list, items *Term, as string, conv func(*Term) *Term) bool {
	u := s.e.u
	want := func(x *Term) *Term { return conv(u.Call("as:"+as, x)) }
	if list.op == OSeq && len(list.args) == 1 && list.args[0].op == OSpread {
		list = list.args[0].args[0]
	}
	isItem := func(v, k *Term) bool {
		ok := false
		contains(v, func(x *Term) bool {
			if x.op == OCall && x.s == "as:"+as {
				y := untag(x.args[0])
				ok = y != nil && y.op == OIndex && y.args[0] == items && y.args[1] == k && want(x.args[0]) == v
			}
			return false
		})
		return ok
	}
	if list.op == OMapSeq {
		return list.args[0] == u.Len(items) && isItem(list.args[1], u.betaOf(list.args[1]))
	}
	if u.Len(list) != u.Len(items) {
		return false
	}
	for _, ev := range it.events {
		if ev.kind != "loop" || ev.loop.trip != u.Len(items) {
			continue
		}
		for _, jt := range ev.loop.iters {
			for a, v := range jt.writes {
				if a.op == OIndex && a.args[0] == list && a.args[1] == ev.loop.k && isItem(v, ev.loop.k) {
					return len(ev.loop.iters) == 1
				}
			}
		}
	}
	return false
}

// at is the address of a path.
func (s *Sc) at(path string) *Term {
	a, _ := s.addr(path)
	return a
}
