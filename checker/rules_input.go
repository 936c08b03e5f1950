package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", 30, "flow of every column of the input into the record field of that column, through the header mapping, and path conditions of opening and ending a file", ruleInput)
}

// inputColumns: header name -> record field and kind of value.
var inputColumns = []struct{ col, field, parse string }{
	{"Filename", "Filename", "Int"}, {"SiteName", "SiteName", "Int"}, {"UserID", "UserID", "Int"}, {"TaskID", "TaskID", "Int"}, {"TaskMonitorID", "TaskMonitorID", "Int"},
	{"JobID", "JobID", "Int"}, {"Protocol", "Protocol", "Int"}, {"JobExecExitCode", "JobExecExitCode", "Int"}, {"JobStart", "JobStart", "Int"}, {"JobEnd", "JobEnd", "Int"},
	{"NumCPU", "NumCPU", "Int"}, {"WrapWC", "WrapWC", "Float"}, {"WrapCPU", "WrapCPU", "Float"}, {"Size", "Size", "Float"}, {"DataType", "DataType", "Int"}, {"FileType", "FileType", "Int"},
	{"JobLengthH", "JobLengthH", "Float"}, {"JobLengthM", "JobLengthM", "Float"}, {"JobSuccess", "JobSuccess", "Bool"}, {"CPUTime", "CPUTime", "Float"}, {"IOTime", "IOTime", "Float"},
	{"reqDay", "Day", ""}, {"Region", "Region", "Int"}, {"Campaign", "Campaign", "Int"}, {"Process", "Process", "Int"},
}

// indexOf is the index term when t is an element of the sequence base.
func indexOf(t, base *Term) *Term {
	a := entryIndex(t)
	if a != nil && a.args[0] == base {
		return a.args[1]
	}
	return nil
}

// globalList is the value of a package level list of integers.
func (c *Ctx) globalList(pkg, name string) (r []int64) {
	for _, v := range c.globalConsts(pkg, name) {
		n, _ := constant.Int64Val(constant.ToInt(v))
		r = append(r, n)
	}
	return
}

// globalStrings is the value of a package level list of strings.
func (c *Ctx) globalStrings(pkg, name string) (r []string) {
	for _, v := range c.globalConsts(pkg, name) {
		if v.Kind() == constant.String {
			r = append(r, constant.StringVal(v))
		}
	}
	return
}

// globalConsts are the elements of a package level list of constants.
func (c *Ctx) globalConsts(pkg, name string) []constant.Value {
	for _, p := range c.w.lpkgs {
		if p.Name != pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range g.Specs {
					v, ok := sp.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for i, n := range v.Names {
						if n.Name != name || i >= len(v.Values) {
							continue
						}
						l, ok := v.Values[i].(*ast.CompositeLit)
						if !ok {
							return nil
						}
						var r []constant.Value
						for _, x := range l.Elts {
							tv := p.TypesInfo.Types[x]
							if tv.Value == nil {
								return nil
							}
							r = append(r, tv.Value)
						}
						return r
					}
				}
			}
		}
	}
	return nil
}

func ruleInput(c *Ctx) {
	header := ""
	c.guarded("header", func() {
		e := c.engine()
		h, _, ok := c.pkgConst(e, "cache", "csvHeader")
		if !ok || h.op != OConst {
			c.missing("constant csvHeader")
			return
		}
		header = h.s
		l := c.globalList("cache", "csvHeaderIndexes")
		names := strings.Split(header, ",")
		ok = len(l) == len(names)
		for i, x := range l {
			ok = ok && int64(i) == x
		}
		c.check("standard header", "csvHeaderIndexes", ok, token.NoPos, "the standard column positions are %v for %d columns", l, len(names))
	})
	pos := map[string]int{}
	for i, n := range strings.Split(header, ",") {
		if _, ok := pos[n]; ok {
			c.check("standard header", n, false, token.NoPos, "the column is there twice")
		}
		pos[n] = i
	}
	c.guarded("recordGenerator", func() {
		e := c.engine()
		u := e.u
		s := c.scOn(e, c.fn("cache.recordGenerator"), "recordGenerator", "csvReader", "curFile", "headerMap")
		for _, o := range s.returns() {
			gos := evs(o.st.events, "go", "")
			if !c.check("reader", "goroutine", len(gos) == 1, o.pos, "%d goroutines are started", len(gos)) {
				continue
			}
			clo := goTarget(gos[0])
			if clo == nil || clo.fn == nil {
				c.check("reader", "goroutine", false, o.pos, "the goroutine is not a function of the module")
				continue
			}
			mk := evs(o.st.events, "makechan", "")
			c.check("reader", "channel", len(mk) == 1 && o.ret[0] == mk[0].recv, o.pos, "the channel answered is %s", o.ret[0])
			outs := e.exec(clo.fn, goArgs(gos[0]), clo.args, o.st, "go", nil, nil)
			ends := 0
			for _, g := range outs {
				if g.kind == "abort" {
					// a reading error other than the end stops the run
					continue
				}
				if g.kind != "return" {
					c.check("reader", "end", false, g.pos, "the reader ends in a %s", g.kind)
					continue
				}
				ends++
				closes, fclose := 0, 0
				for _, ev := range g.st.events {
					if ev.kind == "close" && ev.recv == o.ret[0] {
						closes++
					}
					if ev.kind == "call" && ev.name == "(*os.File).Close" && ev.args[0] == s.arg("curFile") {
						fclose++
					}
				}
				c.check("reader", "closes the channel", closes == 1, g.pos, "the channel is closed %d times", closes)
				c.check("reader", "closes the file", fclose == 1, g.pos, "the file is closed %d times", fclose)
				eof := false
				for f, v := range g.st.facts {
					if v && f.op == OEQ && contains(f, func(x *Term) bool { return x.op == OInit && x.args[0].op == OGlobal && x.args[0].s == "io.EOF" }) {
						eof = true
					}
				}
				c.check("reader", "ends at the end of the file", eof, g.pos, "the reader stops where %s", factsString(g.st.facts))
				each(g.st.events, func(ev *Event, in []*LoopInfo) {
					if ev.kind != "loop" {
						return
					}
					for _, it := range ev.loop.iters {
						var rec *Term
						var sends []*Event
						reads := 0
						for _, x := range it.events {
							if x.kind == "call" && x.name == "(*encoding/csv.Reader).Read" {
								reads++
								if x.ret.op == OTuple {
									rec = x.ret.args[0]
								}
								c.check("reader", "source", x.args[0] == s.arg("csvReader"), x.pos, "rows are read from %s", x.args[0])
							}
							if x.kind == "send" {
								sends = append(sends, x)
							}
						}
						if rec == nil {
							continue
						}
						if !c.check("reader", "one record per row", reads == 1 && len(sends) == 1, ev.pos, "%d rows are read and %d records sent", reads, len(sends)) {
							continue
						}
						v := sends[0].args[0]
						c.check("reader", "channel", sends[0].recv == o.ret[0], ev.pos, "the record goes to %s", sends[0].recv)
						for _, a := range sends[0].args {
							if a.op == OStruct {
								v = a
							}
						}
						if v.op != OStruct {
							c.check("record", "fields", false, ev.pos, "the record is %s", v)
							continue
						}
						rt := c.w.lookupType("cache.CSVRecord")
						for _, col := range inputColumns {
							var got *Term
							for i := range v.args {
								if rt != nil && fieldName(rt, i) == col.field {
									got = v.args[i]
								}
							}
							p, ok := pos[col.col]
							if got == nil || !ok {
								c.check("record", col.field, false, ev.pos, "no column %s or no field %s", col.col, col.field)
								continue
							}
							src := parsed(u, got, col.parse)
							ix := (*Term)(nil)
							if src != nil {
								if i := indexOf(src, rec); i != nil {
									ix = indexOf(i, s.arg("headerMap"))
								}
							}
							c.check("record", col.field, ix != nil && isZero(u.Sub(ix, u.Int(int64(p)))), ev.pos, "field %s is %s, not column %s (%d)", col.field, got, col.col, p)
						}
						var size, sizeM *Term
						for i := range v.args {
							switch fieldName(rt, i) {
							case "Size":
								size = v.args[i]
							case "SizeM":
								sizeM = v.args[i]
							}
						}
						c.check("record", "SizeM", sizeM != nil && sizeM == u.Scale(size, big.NewRat(1, 1024*1024)), ev.pos, "the size in megabytes is %s", sizeM)
					}
				})
			}
			c.check("reader", "end", ends > 0, o.pos, "the reader never ends")
		}
	})
	c.guarded("OpenSimFile", func() {
		e := c.engine()
		e.precise = true
		gen, idx := c.fn("cache.recordGenerator"), c.fn("cache.getHeaderIndexes")
		e.opaque = func(f *ssa.Function) bool { return f == gen || f == idx }
		s := c.scOn(e, c.fn("cache.OpenSimFile"), "OpenSimFile", "filePath")
		u := e.u
		n := map[string]int{}
		for _, o := range s.returns() {
			calls := evs(o.st.events, "fn", fnName(gen))
			if !c.check("open", "one reader", len(calls) == 1 && o.ret[0] == calls[0].ret, o.pos, "%d readers are started", len(calls)) {
				continue
			}
			opens := evs(o.st.events, "call", "os.Open")
			if !c.check("open", "file", len(opens) == 1 && opens[0].args[0] == s.arg("filePath"), o.pos, "%d files are opened", len(opens)) {
				continue
			}
			file := opens[0].ret.args[0]
			reads := evs(o.st.events, "call", "(*encoding/csv.Reader).Read")
			if !c.check("open", "header row", len(reads) == 1, o.pos, "%d rows are taken off as header", len(reads)) {
				continue
			}
			hdr := reads[0].ret.args[0]
			ext := u.Call("path.Ext", s.arg("filePath"))
			zip := anyTrue(u.decide(o.st, u.EQ(ext, u.Str(".gz"))), u.decide(o.st, u.EQ(ext, u.Str(".gzip"))))
			if zip < 0 {
				ext = u.Call("path/filepath.Ext", s.arg("filePath"))
				zip = anyTrue(u.decide(o.st, u.EQ(ext, u.Str(".gz"))), u.decide(o.st, u.EQ(ext, u.Str(".gzip"))))
			}
			gz := evs(o.st.events, "call", "compress/gzip.NewReader")
			c.check("open", "compression", zip >= 0 && (zip == 1) == (len(gz) == 1), o.pos, "decompressed: %v where %s", len(gz) == 1, factsString(o.st.facts))
			src := file
			if len(gz) == 1 {
				c.check("open", "compression source", gz[0].args[0] == file, o.pos, "decompresses %s", gz[0].args[0])
				src = gz[0].ret.args[0]
			}
			rd := evs(o.st.events, "call", "encoding/csv.NewReader")
			c.check("open", "reader", len(rd) == 1 && rd[0].args[0] == src && reads[0].args[0] == rd[0].ret && calls[0].args[0] == rd[0].ret && calls[0].args[1] == file, o.pos, "the reader is %v", calls[0].args)
			std := u.decide(o.st, u.EQ(u.Call("strings.Join", hdr, u.Str(",")), u.Str(header)))
			m := calls[0].args[2]
			isStd := m.op == OInit && m.args[0].op == OGlobal && strings.HasSuffix(m.args[0].s, "csvHeaderIndexes")
			isIdx := m.op == OCall && strings.Contains(m.s, "getHeaderIndexes") && m.args[0] == hdr
			c.check("open", "column mapping", std == 1 && (isStd || isIdx) || std == 0 && isIdx, o.pos, "the columns are mapped by %s where %s", m, factsString(o.st.facts))
			n[itoa(zip)+itoa(std)]++
		}
		c.check("open", "cases", n["11"] > 0 && n["10"] > 0 && n["01"] > 0 && n["00"] > 0, s.fn.Pos(), "cases %v", n)
		for _, o := range s.kind("panic") {
			_ = o
		}
	})
	c.guarded("getHeaderIndexes", func() {
		e := c.engine()
		s := c.scOn(e, c.fn("cache.getHeaderIndexes"), "getHeaderIndexes", "header")
		u := e.u
		names := u.Call("strings.Split", u.Str(header), u.Str(","))
		seen := 0
		for _, o := range s.returns() {
			each(o.st.events, func(ev *Event, in []*LoopInfo) {
				if ev.kind != "loop" {
					return
				}
				if len(in) == 0 {
					c.check("mapping", "all columns", ev.loop.trip == u.Len(names) || isNum(ev.loop.trip) && isZero(u.Sub(ev.loop.trip, u.Int(int64(len(pos))))), ev.pos, "%s columns are mapped", ev.loop.trip)
					return
				}
				for _, it := range ev.loop.iters {
					want := u.EQ(e.readAt(s.pre, u.Index(names, in[0].k, "e:string")), e.readAt(s.pre, u.Index(s.arg("header"), ev.loop.k, "e:string")))
					match := it.truth(u, want)
					added := 0
					for _, p := range it.phis {
						if p[1] == p[0] || p[0] == ev.loop.k {
							continue
						}
						if p[1].op == OSeq && len(p[1].args) == 2 && p[1].args[0] == u.Spread(p[0]) && p[1].args[1] == u.Elem(ev.loop.k) {
							added++
						} else if p[1].op == OSeq {
							added += 2
						}
					}
					seen++
					c.check("mapping", "position of a column", match >= 0 && added == match, ev.pos, "%d positions are added where %s", added, factsString(it.facts))
				}
			})
		}
		c.check("mapping", "cases", seen >= 2, s.fn.Pos(), "%d cases", seen)
	})
	c.guarded("OpenSimFolder", func() {
		e := c.engine()
		e.precise = true
		of := c.fn("cache.OpenSimFile")
		e.opaque = func(f *ssa.Function) bool { return f == of }
		s := c.scOn(e, c.fn("cache.OpenSimFolder"), "OpenSimFolder", "dirPath")
		for _, o := range s.returns() {
			gos := evs(o.st.events, "go", "")
			if !c.check("folder", "goroutine", len(gos) == 1, o.pos, "%d goroutines are started", len(gos)) {
				continue
			}
			sorts := 0
			var list *Term
			for _, ev := range o.st.events {
				if ev.kind == "call" && strings.HasPrefix(ev.name, "sort.") {
					sorts++
					list = ev.args[0]
					if len(ev.args) > 1 {
						c.check("folder", "sorted by name", ascending(e, ev.args[1], list), ev.pos, "the files are ordered by %s", ev.args[1])
					}
				}
			}
			c.check("folder", "sorted by name", sorts == 1, o.pos, "the files are sorted %d times", sorts)
			clo := goTarget(gos[0])
			if clo == nil || clo.fn == nil {
				c.check("folder", "goroutine", false, o.pos, "the goroutine is not a function of the module")
				continue
			}
			// the files can be chosen when the folder is listed
			chosen, listed, left := false, 0, 0
			for _, l := range loopsIn(o.st.events) {
				for _, it := range l.iters {
					known := extKnown(it.facts)
					if known < 0 {
						continue
					}
					added := false
					for _, p := range variables(it) {
						added = added || p[0] != p[1] && p[1].op == OSeq
					}
					chosen = true
					if added {
						listed++
					} else {
						left++
					}
					c.check("folder", "data files", (known == 1) == added, l.pos, "a file is listed: %v where %s", added, factsString(it.facts))
				}
			}
			if chosen {
				c.check("folder", "data files", listed >= 3 && left > 0, o.pos, "%d kinds of files are listed and %d are not", listed, left)
			}
			forwarded, skipped, closes := 0, 0, 0
			for _, g := range e.exec(clo.fn, goArgs(gos[0]), clo.args, o.st, "go", nil, nil) {
				if g.kind != "return" {
					c.check("folder", "end", false, g.pos, "the reader ends in a %s", g.kind)
					continue
				}
				closes = 0
				for _, ev := range g.st.events {
					if ev.kind == "close" && ev.recv == o.ret[0] {
						closes++
					}
				}
				c.check("folder", "closes the channel", closes == 1, g.pos, "the channel is closed %d times", closes)
				for _, ev := range g.st.events[len(o.st.events):] {
					if ev.kind != "loop" {
						continue
					}
					for _, it := range ev.loop.iters {
						var open *Event
						inner := 0
						for _, x := range it.events {
							if x.kind == "fn" {
								open = x
							}
							if x.kind == "loop" {
								for _, y := range x.loop.iters {
									rec := recordOf(y)
									sent := 0
									for _, z := range y.events {
										if z.kind == "send" {
											sent++
											okv := false
											for _, a := range z.args {
												if rec != nil && isRecord(a, rec) {
													okv = true
												}
											}
											c.check("folder", "forwards the record", okv, z.pos, "%v is sent", z.args)
										}
									}
									c.check("folder", "forwards every record", rec != nil && sent == 1, x.pos, "%d records are sent for one received", sent)
									inner++
								}
							}
						}
						if open == nil {
							skipped++
						} else {
							forwarded++
							c.check("folder", "forwards every record", inner > 0, ev.pos, "the records of a file are not forwarded")
						}
						known := extKnown(it.facts)
						if chosen {
							known = 1
						}
						c.check("folder", "data files", known >= 0 && (known == 1) == (open != nil), ev.pos, "a file is read: %v where %s", open != nil, factsString(it.facts))
					}
				}
			}
			c.check("folder", "data files", chosen && forwarded > 0 && skipped == 0 || forwarded >= 3 && skipped > 0, o.pos, "%d kinds of files are read and %d are not", forwarded, skipped)
		}
	})
}

// ascending: the comparison of elements β0 and β1 is list[β0] < list[β1].
func ascending(e *Engine, pred, list *Term) bool {
	l0, l1 := e.u.Sym("λ0"), e.u.Sym("λ1")
	a, b := e.elemAt(list, l0), e.elemAt(list, l1)
	if a == nil || b == nil {
		return false
	}
	w := e.u.Call("strlt", a, b)
	return pred == e.u.Bind(e.u.Bind(w, l0), l1)
}

// parsed is the text a value was parsed from.
func parsed(u *U, t *Term, kind string) *Term {
	if t.op == OCall && strings.HasPrefix(t.s, "strconv.Parse"+kind) && kind != "" && len(t.args) > 0 {
		if kind == "Int" && (len(t.args) != 3 || !isNum(t.args[1]) || t.args[1].s != "10" || !isNum(t.args[2]) || t.args[2].s != "64") {
			return nil
		}
		return t.args[0]
	}
	if t.op == OCall && t.s == "strconv.Atoi" && kind == "Int" {
		return t.args[0]
	}
	if kind == "" {
		// a day, possibly written as a decimal
		if t.op == OCall && t.s == "trunc" {
			return parsed(u, t.args[0], "Float")
		}
		return nil
	}
	return nil
}

// goArgs are the arguments a goroutine is started with.
func goArgs(ev *Event) []*Term {
	if ev.recv != nil && ev.recv.op == OClosure {
		return ev.args
	}
	return nil
}

func goTarget(ev *Event) *Term {
	for _, a := range append([]*Term{ev.recv, ev.ret}, ev.args...) {
		if a != nil && a.op == OClosure {
			return a
		}
	}
	return nil
}

func (w *World) lookupType(name string) *types.Named {
	for _, n := range w.named {
		if typeName(n) == name {
			return n
		}
	}
	return nil
}

// extKnown: whether a file is known to have the extension of a data file.
func extKnown(facts map[*Term]bool) int {
	known := -1
	for f, v := range facts {
		if f.op != OEQ {
			continue
		}
		for i := 0; i < 2; i++ {
			x := f.args[i]
			if x.op == OConst && (x.s == ".csv" || x.s == ".gz" || x.s == ".gzip") && contains(f.args[1-i], func(y *Term) bool { return y.op == OCall && strings.HasSuffix(y.s, ".Ext") }) {
				if v {
					known = 1
				} else if known < 0 {
					known = 0
				}
			}
		}
	}
	return known
}
