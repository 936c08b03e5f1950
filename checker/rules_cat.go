package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R05", 20, "inductive contracts on every function that changes the categories, and the category computed for symbolic statistics", ruleCategories)
}

func ruleCategories(c *Ctx) {
	del, ins := c.fn("cache.CategoryManager.deleteFileFromCategory"), c.fn("cache.CategoryManager.insertFileInCategory")
	con := "insertFileInCategory"
	c.guarded(con, func() {
		for _, known := range []bool{true, false} {
			e := c.engine()
			e.precise = true
			s := c.scOn(e, ins, con, "m", "cat", "f")
			u := e.u
			if known {
				s.assume("in(m.categoryFileListMap, cat)")
			} else {
				s.assume("!in(m.categoryFileListMap, cat)")
			}
			old := s.old("m.categoryFileListMap[cat]")
			c.check("returns", con, len(s.returns()) > 0, ins.Pos(), "no path returns")
			for _, o := range s.returns() {
				now := e.deep(o.st, s.term(o, "m.categoryFileListMap[cat]"))
				want := u.Seq(u.Elem(s.arg("f")))
				if known {
					want = u.Seq(u.Spread(old), u.Elem(s.arg("f")))
				}
				c.check("listed once more", con, now == want, o.pos, "the files of the category become %s", now)
				s.ensureOut(o, "category of the file", con, "m.filesCategoryMap[f.Filename] == cat && in(m.filesCategoryMap, f.Filename) && in(m.categoryFileListMap, cat)")
				s.ensureOut(o, "size of the category", con, "m.categorySizesMap[cat] == old(m.categorySizesMap[cat]) + f.Size && m.fileSupportDataSizeMap[f] == f.Size && in(m.categorySizesMap, cat)")
				s.onlyMapEntries(o, con, s.arg("cat"), s.old("f.Filename"), s.arg("f"))
			}
		}
	})
	con = "deleteFileFromCategory"
	c.guarded(con, func() {
		e := c.engine()
		e.precise = true
		s := c.scOn(e, del, con, "m", "cat", "f")
		u := e.u
		base := s.old("m.categoryFileListMap[cat]")
		ln := u.Len(base)
		kept, gone := 0, 0
		for _, o := range s.returns() {
			if e.infeasible(o.st.facts) {
				continue
			}
			s.ensureOut(o, "category of the file", con, "!in(m.filesCategoryMap, f.Filename)")
			s.onlyMapEntries(o, con, s.arg("cat"), s.old("f.Filename"), s.arg("f"))
			at, in, _ := e.mapAddr(s.old("m.categoryFileListMap"), s.arg("cat"), s.mapTypeOf("m.categoryFileListMap"))
			switch e.presence(o.st, in) {
			case u.Bool(false):
				gone++
				// only the last file of a category takes it with it
				one := u.decide(o.st, u.LT(u.Sub(ln, u.Int(2)), true)) == 1 || u.decide(o.st, u.EQ(ln, u.Int(1))) == 1
				c.check("the category ends with its last file", con, one, o.pos, "the category is removed when %s", factsString(o.st.facts))
				s.ensureOut(o, "the category ends with its last file", con, "!in(m.categorySizesMap, cat) && !in(m.categoryFileFeatureIdx, cat)")
				c.check("the file was listed", con, s.listedAt(o, base, nil), o.pos, "the category is removed without the file")
			default:
				kept++
				// (it is not empty: the file is listed)
				many := u.decide(o.st, u.LT(u.Sub(ln, u.Int(2)), true)) == 0 || u.decide(o.st, u.EQ(ln, u.Int(1))) == 0
				c.check("the category ends with its last file", con, many, o.pos, "the category is kept when %s", factsString(o.st.facts))
				s.ensureOut(o, "size of the category", con, "m.categorySizesMap[cat] == old(m.categorySizesMap[cat]) - old(m.fileSupportDataSizeMap[f])")
				final := e.readAt(o.st, at)
				i := removedAt(u, base, final, u.Int(1), o.st.events)
				c.check("leaves the list", con, i != nil && s.listedAt(o, base, i), o.pos, "the files of the category become %s", final)
			}
		}
		c.check("returns", con, kept > 0 && gone > 0, del.Pos(), "no path removes a file (%d) or a category (%d)", kept, gone)
	})
	con = "AddOrUpdateCategoryFile"
	c.guarded(con, func() {
		for _, k := range []string{"new", "same", "moved"} {
			e := c.engine()
			e.opaque = func(f *ssa.Function) bool { return f == del || f == ins }
			s := c.scOn(e, c.fn("cache.CategoryManager.AddOrUpdateCategoryFile"), con, "m", "cat", "f")
			want := ""
			d, i := "delete:"+s.old("m.filesCategoryMap[f.Filename]").String()+";", "insert:"+s.arg("cat").String()+";"
			switch k {
			case "new":
				s.assume("!in(m.filesCategoryMap, f.Filename)")
				want = i
			case "same":
				s.assume("in(m.filesCategoryMap, f.Filename)")
				s.assume("m.filesCategoryMap[f.Filename] == cat")
			case "moved":
				s.assume("in(m.filesCategoryMap, f.Filename)")
				s.assume("m.filesCategoryMap[f.Filename] != cat")
				want = d + i
			}
			outs := s.returns()
			c.check("returns", con, len(outs) > 0, s.fn.Pos(), "no path returns")
			for _, o := range outs {
				got := ""
				each(o.st.events, func(ev *Event, _ []*LoopInfo) {
					if ev.kind != "fn" {
						return
					}
					n := "insert:"
					if ev.name == fnName(del) {
						n = "delete:"
					} else if ev.name != fnName(ins) {
						return
					}
					if ev.args[0] != s.arg("m") || ev.args[2] != s.arg("f") {
						n = "other " + n
					}
					got += n + ev.args[1].String() + ";"
				})
				c.check("in one category", con+" "+k, got == want, o.pos, "a %s file: %s instead of %s", k, got, want)
			}
		}
	})
	c.guarded("GetFileCategory", func() { c.fileCategory() })
	con = "GetNumCategories"
	c.guarded(con, func() {
		s := c.sc("cache.CategoryManager.GetNumCategories", "m")
		s.ensure("number of categories", con, "ret == len(m.categorySizesMap)")
	})
	con = "CategoryManager.Init"
	c.guarded(con, func() {
		s := c.sc("cache.CategoryManager.Init", "m", "feat", "w", "ffeat", "fw", "idx")
		s.ensure("starts empty", con, "len(m.categoryFileListMap) == 0 && len(m.categorySizesMap) == 0 && len(m.filesCategoryMap) == 0 && len(m.categoryFileFeatureIdx) == 0 && len(m.fileSupportDataSizeMap) == 0 && len(m.lastStateAction) == 0")
		s.ensure("given features", con, "m.features == feat && m.featureIdxWeights == w && m.fileFeatures == ffeat && m.fileFeatureIdxWeights == fw && m.fileFeatureIdxMap == idx")
	})
}

// mapTypeOf is the map type of a field.
func (s *Sc) mapTypeOf(path string) types.Type {
	_, t := s.addr(path)
	return t
}

// onlyMapEntries: the maps change at the given keys only.
func (s *Sc) onlyMapEntries(o Out, con string, keys ...*Term) {
	for a, v := range o.st.mem.ents {
		if a.op != OMapIn || s.pre.mem.ents[a] == v || rootOf(a).op == OAlloc {
			continue
		}
		ok := false
		for _, k := range keys {
			ok = ok || a.args[1] == k
		}
		s.c.check("others stay where they are", con, ok, o.pos, "the entry %s changes", a)
	}
}

// listedAt: the facts of the path say that the file is at position i of the
// list (any position if i is nil).
func (s *Sc) listedAt(o Out, base, i *Term) bool {
	name := s.old("f.Filename")
	for f, v := range o.st.facts {
		if !v || f.op != OEQ {
			continue
		}
		side := func(x *Term) bool {
			return contains(x, func(t *Term) bool {
				return t.op == OIndex && t.args[0] == base && (i == nil || t.args[1] == i)
			})
		}
		if len(f.args) == 2 && (f.args[0] == name && side(f.args[1]) || f.args[1] == name && side(f.args[0]) || f.s == "n" && side(f.args[0]) && contains(f.args[0], func(t *Term) bool { return t == name })) {
			return true
		}
		// or the entry is the file itself
		if len(f.args) == 2 && (f.args[0] == s.arg("f") && side(f.args[1]) || f.args[1] == s.arg("f") && side(f.args[0])) {
			return true
		}
	}
	return false
}

// featureList gives the parameter a list of features with the given names.
func (s *Sc) featureList(path string, names []string) {
	u := s.e.u
	l := u.Call("make", u.Sym("&features:"+path), u.Int(int64(len(names))))
	s.set(path, l)
	for i, n := range names {
		s.setStr(fmt.Sprintf("%s[%d].Name", path, i), n)
	}
}

// bucketOf recognises the index of a value for a feature.
func (c *Ctx) bucketOf(e *Engine, t *Term) (feature string, value *Term, ok bool) {
	if t.op == OCall {
	}
	if t.op != OCall || !strings.HasPrefix(t.s, "fn:") || !strings.Contains(t.s, "Obj).Index") || len(t.args) < 2 {
		return "", nil, false
	}
	obj := t.args[0]
	n := c.structField(obj, "featuremap.Obj", "Name")
	if n == nil || n.op != OConst {
		return "", nil, false
	}
	return n.s, t.args[1], true
}

func permutations(xs []string) (r [][]string) {
	if len(xs) == 0 {
		return [][]string{nil}
	}
	for i := range xs {
		rest := append(append([]string{}, xs[:i]...), xs[i+1:]...)
		for _, p := range permutations(rest) {
			r = append(r, append([]string{xs[i]}, p...))
		}
	}
	return
}

var catFeatures = map[string]string{"catSize": "f.Size", "catNumReq": "f.Frequency", "catDeltaLastRequest": "f.DeltaLastRequest"}

// fileCategory: the category of a file is computed from its own statistics.
func (c *Ctx) fileCategory() {
	con := "GetFileCategory"
	idx := c.fn("featuremap.Obj.Index")
	lists := permutations([]string{"catSize", "catNumReq", "catDeltaLastRequest"})
	lists = append(lists, []string{"catDeltaLastRequest", "catNumReq", "catPercOcc", "catSize", "hitRate", "percOcc"}, []string{"percOcc", "catSize"}, []string{"catNumReq", "hitRate", "catDeltaLastRequest"})
	for _, names := range lists {
		for _, known := range []bool{true, false} {
			e := c.engine()
			e.precise = true
			e.unrollMax = 12
			e.opaque = func(f *ssa.Function) bool { return f == idx }
			s := c.scOn(e, c.fn("cache.CategoryManager.GetFileCategory"), con, "m", "f")
			u := e.u
			s.featureList("m.features", names)
			used := 0
			for _, n := range names {
				if catFeatures[n] != "" {
					used++
				}
			}
			w := s.old("m.fileFeatureIdxWeights")
			for _, o := range s.returns() {
				if e.infeasible(o.st.facts) {
					continue
				}
				// the expected sum
				got := o.ret[0]
				var parts []*Term
				seen := map[*Term]bool{}
				contains(got, func(t *Term) bool {
					if f, _, ok := c.bucketOf(e, t); ok && !seen[t] {
						_ = f
						seen[t] = true
					}
					return false
				})
				want := u.Int(0)
				i := 0
				ok := true
				for _, n := range names {
					src := catFeatures[n]
					if src == "" {
						continue
					}
					var b *Term
					for t := range seen {
						if f, v, _ := c.bucketOf(e, t); f == n && e.strip(v) == s.old(src) {
							b = t
						}
					}
					if b == nil {
						ok = false
						break
					}
					parts = append(parts, b)
					want = u.Add(want, u.Mul(b, e.elem(s.pre, w, u.Int(int64(i)), types.Typ[types.Int])))
					i++
				}
				c.check("category of the statistics", con+" "+strings.Join(names, ","), ok && isZero(u.Sub(got, want)), o.pos, "the category is %s instead of %s (%d buckets)", got, want, len(seen))
				if !ok {
					continue
				}
				mp := s.old("m.categoryFileListMap")
				at, in, _ := e.mapAddr(mp, got, s.mapTypeOf("m.categoryFileListMap"))
				pres := e.u.decide(o.st, e.presence(s.pre, in))
				if known {
					// a category that exists is left as it is
					if pres == 1 {
						for a, v := range o.st.mem.ents {
							if (a.op == OMapIn || a.op == OMapAt) && s.pre.mem.ents[a] != v && rootOf(a).op != OAlloc {
								c.check("a known category is kept", con, e.u.read(s.pre, a) == v, o.pos, "%s becomes %s", a, v)
							}
						}
						c.check("a known category is kept", con, true, o.pos, "")
					}
					continue
				}
				if pres != 0 {
					continue
				}
				c.check("a new category starts empty", con, e.presence(o.st, in) == u.Bool(true) && isZero(u.Len(e.readAt(o.st, at))), o.pos, "the files of a new category are %s", e.readAt(o.st, at))
				ia, iin, _ := e.mapAddr(s.old("m.categoryFileFeatureIdx"), got, s.mapTypeOf("m.categoryFileFeatureIdx"))
				sa, sin, _ := e.mapAddr(s.old("m.categorySizesMap"), got, s.mapTypeOf("m.categorySizesMap"))
				c.check("a new category starts empty", con, e.presence(o.st, sin) == u.Bool(true) && isZero(e.readAt(o.st, sa)), o.pos, "the size of a new category is %s", e.readAt(o.st, sa))
				row := e.readAt(o.st, ia)
				good := e.presence(o.st, iin) == u.Bool(true) && isZero(u.Sub(u.Len(row), u.Int(int64(used))))
				for j, b := range parts {
					good = good && e.elem(o.st, row, u.Int(int64(j)), types.Typ[types.Int]) == b
				}
				c.check("a category keeps its buckets", con, good, o.pos, "the buckets kept for a new category are %s", row)
			}
		}
	}
}
