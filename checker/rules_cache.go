package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// impl is one declared method body shared by one or more cache types.
type impl struct {
	fn    *ssa.Function
	name  string // SimpleCache, AIRL...
	types []*types.Named
}

// implementers are the concrete types of the module that satisfy an interface.
func (c *Ctx) implementers(ifc string) []*types.Named {
	parts := strings.Split(ifc, ".")
	var it *types.Interface
	for _, p := range c.w.pkgs {
		if p.Pkg.Name() == parts[0] && inRepoPkg(p.Pkg) {
			if m, ok := p.Members[actualType(parts[0], parts[1])].(*ssa.Type); ok {
				it, _ = m.Type().Underlying().(*types.Interface)
			}
		}
	}
	if it == nil {
		c.missing("interface " + ifc)
	}
	var r []*types.Named
	for _, n := range c.w.named {
		if types.Implements(types.NewPointer(n), it) && inRepoPkg(n.Obj().Pkg()) {
			r = append(r, n)
		}
	}
	return r
}

// impls groups the types implementing an interface by the body of a method.
func (c *Ctx) impls(ifc, method string) []*impl {
	by := map[*ssa.Function]*impl{}
	var r []*impl
	for _, n := range c.implementers(ifc) {
		ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			if methodName(ms.At(i).Obj()) != method {
				continue
			}
			f := c.w.prog.FuncValue(ms.At(i).Obj().(*types.Func))
			if f == nil {
				continue
			}
			m := by[f]
			if m == nil {
				rt := deref(f.Signature.Recv().Type())
				m = &impl{fn: f, name: typeName(rt)}
				if i := strings.LastIndex(m.name, "."); i >= 0 {
					m.name = m.name[i+1:]
				}
				by[f] = m
				r = append(r, m)
			}
			m.types = append(m.types, n)
		}
	}
	if len(r) == 0 {
		c.missing("an implementation of " + ifc + "." + method)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// matchClass reports whether a memory class is among patterns (with * suffix).
func matchClass(cl string, classes []string) bool {
	for _, x := range classes {
		if cl == x || strings.HasSuffix(x, "*") && strings.HasPrefix(cl, x[:len(x)-1]) {
			return true
		}
	}
	return false
}

// cacheEngine keeps apart only states that differ in the given classes and
// does not look into procedures that cannot write them.
func (c *Ctx) cacheEngine(classes ...string) *Engine {
	e := c.engine()
	e.track = func(cl string) bool { return matchClass(cl, classes) }
	memo := map[*ssa.Function]bool{}
	e.opaque = func(f *ssa.Function) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		r := f.Signature.Results().Len() == 0
		if r {
			for cl := range c.w.rw(f).mod {
				if matchClass(cl, classes) {
					r = false
				}
			}
		}
		memo[f] = r
		return r
	}
	return e
}

func simpleFields(names ...string) []string {
	var r []string
	for _, n := range names {
		r = append(r, "f:cache.SimpleCache."+n)
	}
	return r
}

func init() {
	register("P05", 8, "contracts on the summary of every AfterRequest/BeforeRequest implementation: hit, miss, request and traffic counters change by exactly the requested amount of the right kind", ruleTraffic)
	register("P06", 5, "contracts on the summary of every AfterRequest implementation for every protocol, region, hit and efficiency case", ruleCPUEff)
}

func ruleTraffic(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "BeforeRequest") {
		m := m
		con := m.name + ".BeforeRequest"
		c.guarded(con, func() {
			s := c.scOn(c.statsEngine(), m.fn, con, "c", "req", "hit")
			s.ensure("one request counted", con, "c.NumRequests() == old(c.NumRequests()) + 1")
			s.ensure("traffic untouched", con, "c.DataRead() == old(c.DataRead()) && c.DataWritten() == old(c.DataWritten()) && c.hit == old(c.hit) && c.miss == old(c.miss)")
		})
	}
	for _, m := range c.impls("cache.Cache", "AfterRequest") {
		for _, hit := range []bool{true, false} {
			for _, added := range []bool{true, false} {
				if hit && added {
					continue
				}
				e := c.cacheEngine(simpleFields("dataRead", "dataReadOnHit", "dataReadOnMiss", "dataWritten", "numAdded", "hit", "miss", "numDailyHit", "numDailyMiss", "numReq", "tick")...)
				s := c.scOn(e, m.fn, m.name+".AfterRequest", "c", "req", "st", "hit", "added")
				s.give("hit", e.u.Bool(hit)).give("added", e.u.Bool(added)).run()
				con := m.name + ".AfterRequest"
				if hit {
					con += " on a hit"
				} else if added {
					con += " on an added miss"
				} else {
					con += " on a miss not added"
				}
				s.ensure("read volume", con, "c.DataRead() == old(c.DataRead()) + req.Size")
				s.ensure("read on hit", con, "c.DataReadOnHit() == old(c.DataReadOnHit()) + ite(hit, req.Size, 0)")
				s.ensure("read on miss", con, "c.DataReadOnMiss() == old(c.DataReadOnMiss()) + ite(hit, 0, req.Size)")
				s.ensure("written volume", con, "c.DataWritten() == old(c.DataWritten()) + ite(added, req.Size, 0)")
				s.ensure("added count", con, "c.NumAdded() == old(c.NumAdded()) + ite(added, 1, 0)")
				s.ensure("hit and miss count", con, "c.hit == old(c.hit) + ite(hit, 1, 0) && c.miss == old(c.miss) + ite(hit, 0, 1)")
				s.ensure("daily hit and miss count", con, "c.numDailyHit == old(c.numDailyHit) + ite(hit, 1, 0) && c.numDailyMiss == old(c.numDailyMiss) + ite(hit, 0, 1)")
				s.ensure("request count", con, "c.NumRequests() == old(c.NumRequests())")
				s.ensure("tick", con, "c.tick == old(c.tick) + 1")
			}
		}
	}
}

func ruleCPUEff(c *Ctx) {
	for _, m := range c.impls("cache.Cache", "AfterRequest") {
		for _, hit := range []bool{true, false} {
			for _, proto := range []int64{0, 1} {
				for _, region := range []string{"", "it", "us"} {
					e := c.cacheEngine(simpleFields("upperCPUEff", "lowerCPUEff", "numLocal", "numRemote", "hitCPUEff", "missCPUEff")...)
					s := c.scOn(e, m.fn, m.name+".AfterRequest", "c", "req", "st", "hit", "added")
					s.give("hit", e.u.Bool(hit))
					s.setInt("req.Protocol", proto).setStr("c.region", region).assume("req.CPUEff > 0")
					con := m.name + ".AfterRequest"
					s.ensure("local total", con, "c.upperCPUEff == old(c.upperCPUEff) + ite(req.Protocol == 1, req.CPUEff, 0)")
					s.ensure("remote total", con, "c.lowerCPUEff == old(c.lowerCPUEff) + ite(req.Protocol == 0, req.CPUEff, 0)")
					s.ensure("local and remote count", con, "c.numLocal == old(c.numLocal) + req.Protocol && c.numRemote == old(c.numRemote) + 1 - req.Protocol")
					if hit {
						s.ensure("hit efficiency", con, "c.hitCPUEff == old(c.hitCPUEff) + ite(req.Protocol == 1, req.CPUEff, req.CPUEff + c.CPUEffBoundDiff()) && c.missCPUEff == old(c.missCPUEff)")
					} else {
						s.ensure("miss efficiency", con, "c.missCPUEff == old(c.missCPUEff) + ite(req.Protocol == 1, req.CPUEff - c.CPUEffBoundDiff(), req.CPUEff) && c.hitCPUEff == old(c.hitCPUEff)")
					}
				}
			}
		}
	}
}

func init() {
	register("P01", 12, "relational invariant kept as a ghost cell through every method of every cache type (loops by induction): accounted size minus the sizes handed to and taken from the queue does not change, and is zero after a clear", ruleOccupancy)
}

func queueMutation(com *ssa.CallCommon, callee *ssa.Function) bool {
	if com.IsInvoke() && ifaceName(com.Value.Type()) == "queue.Queue" {
		switch methodName(com.Method) {
		case "insert", "remove", "removeWorst", "init":
			return true
		}
	}
	return false
}

func ruleOccupancy(c *Ctx) {
	n := 0
	for _, t := range c.implementers("cache.Cache") {
		ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			fn := c.w.prog.FuncValue(ms.At(i).Obj().(*types.Func))
			if fn == nil || !inRepoFn(fn) || deref(fn.Signature.Recv().Type()) != types.Type(t) {
				continue
			}
			name := t.Obj().Name() + "." + fn.Name()
			if fnShort(fn) == "Init" {
				continue
			}
			if !c.w.rw(fn).mod["f:cache.SimpleCache.size"] && !c.w.reaches(fn, queueMutation) {
				continue
			}
			if !c.isMember("cache.Cache", fn) && c.w.isCalled(fn) {
				continue // a part of the methods that call it
			}
			n++
			c.guarded(name, func() { occupancyOf(c, fn, name) })
		}
	}
	c.check("coverage", "methods that change the cache content", n >= 10, 0, "only %d methods", n)
}

// isMember: the method is one of the interface.
func (c *Ctx) isMember(ifc string, fn *ssa.Function) bool {
	for _, n := range c.w.ifaceMethods(ifc) {
		if n == fnShort(fn) {
			return true
		}
	}
	return false
}

func (w *World) ifaceMethods(ifc string) []string {
	var r []string
	parts := strings.Split(ifc, ".")
	for _, p := range w.pkgs {
		if p.Pkg.Name() != parts[0] || !inRepoPkg(p.Pkg) {
			continue
		}
		if m, ok := p.Members[actualType(parts[0], parts[1])].(*ssa.Type); ok {
			if it, ok := m.Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					r = append(r, methodName(it.Method(i)))
				}
			}
		}
	}
	return r
}

// isCalled: something else in the repository calls the function by name.
func (w *World) isCalled(fn *ssa.Function) bool {
	for _, f := range w.funcs {
		if f == fn || f.Parent() == fn {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					return true
				}
			}
		}
	}
	return false
}

func occupancyOf(c *Ctx, fn *ssa.Function, name string) {
	e := c.engine()
	e.ghost = true
	e.track = func(cl string) bool { return cl == "f:cache.SimpleCache.size" }
	memo := map[*ssa.Function]bool{}
	e.opaque = func(f *ssa.Function) bool {
		r, ok := memo[f]
		if !ok {
			r = !c.w.rw(f).mod["f:cache.SimpleCache.size"] && !c.w.reaches(f, queueMutation) && f.Signature.Results().Len() == 0
			memo[f] = r
		}
		return r
	}
	e.keepEv = func(ev *Event) bool { return false }
	s := c.scOn(e, fn, name, "c", "req", "st", "hit")
	u := e.u
	if fnShort(fn) == "UpdatePolicy" {
		s.assume("st.Size == req.Size")
	}
	outs := s.returns()
	c.check("occupancy", name, len(outs) > 0, fn.Pos(), "no path returns")
	g := e.ghostAddr()
	for _, o := range outs {
		d := u.Sub(e.simp(o.st.facts, u.read(o.st, g)), u.Init(g))
		if fnShort(fn) == "Clear" || fnShort(fn) == "ClearFiles" {
			d = e.simp(o.st.facts, u.read(o.st, g))
		}
		pos := o.pos
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		c.check("occupancy", name, isZero(d), pos, "%s: the accounted size and the files in the queue drift apart by %s on the path where %s", name, d, factsString(o.st.facts))
	}
}
