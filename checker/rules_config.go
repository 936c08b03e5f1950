package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", 10, "contracts of the unit conversion and of the bandwidth setter, constants folded", ruleUnits)
	register("P16", 60, "for every cache type name: concrete type, capacity, replacement queue and settings stored on every path of Create and InitInstance", ruleKinds)
	register("P44", 20, "paths of the command that starts a simulation, per kind of cache: folders it works in, name of the run, when it is left out; moves of earlier results", func(c *Ctx) { ruleFolders(c); ruleKeptRuns(c) })
	register("P34", 70, "flow of every configuration key into the parameter of the cache or of the run it configures", ruleConfig)
}

func ruleUnits(c *Ctx) {
	for _, x := range []struct{ units, f string }{
		{"M,m", "1"}, {"G,g", "1024"}, {"T,t", "1048576"}, {"P,p", "1073741824"},
	} {
		for _, unit := range strings.Split(x.units, ",") {
			unit, f := unit, x.f
			c.guarded("GetCacheSize "+unit, func() {
				s := c.sc("cache.GetCacheSize", "size", "unit")
				s.give("unit", s.e.u.Str(unit))
				c.check("unit", unit, len(s.returns()) > 0 && len(s.kind("panic")) == 0, s.fn.Pos(), "no size for unit %s", unit)
				s.ensure("unit", unit, "ret0 == size * "+f)
			})
		}
	}
	c.guarded("GetCacheSize other", func() {
		s := c.sc("cache.GetCacheSize", "size", "unit")
		s.e.precise = true
		for _, o := range s.returns() {
			known := -1
			for _, unit := range []string{"M", "m", "G", "g", "T", "t", "P", "p"} {
				if s.e.u.decide(o.st, s.e.u.EQ(s.arg("unit"), s.e.u.Str(unit))) == 1 {
					known = 1
				}
				for _, f := range []string{"strings.ToUpper", "strings.ToLower"} {
					if s.e.u.decide(o.st, s.e.u.EQ(s.e.u.Call(f, s.arg("unit")), s.e.u.Str(unit))) == 1 {
						known = 1
					}
				}
			}
			c.check("unit", "unknown", known == 1, o.pos, "a size is answered for a unit that is none of M, G, T, P: %s", factsString(o.st.facts))
		}
	})
	for _, im := range c.impls("cache.Cache", "SetBandwidth") {
		im := im
		c.guarded(im.name, func() {
			s := c.scOn(c.engine(), im.fn, im.name, "c", "gbit")
			s.ensure("bandwidth", im.name, "c.Bandwidth() == gbit * 1000 / 8 * 60 * 60 * 24")
			s.ensure("bandwidth", im.name, "c.Size() == old(c.Size())")
		})
	}
	c.guarded("SetBandwidth", func() {
		s := c.sc("cache.SetBandwidth", "c", "gbit")
		for _, o := range s.returns() {
			x := evs(o.st.events, "invoke", "cache.Cache.SetBandwidth")
			c.check("bandwidth", "forwarded", len(x) == 1 && len(x[0].args) == 1 && x[0].args[0] == s.arg("gbit"), o.pos, "the bandwidth is forwarded as %v", x)
		}
	})
}

type kindSpec struct {
	name, typ, queue string
	config           string // queue type parameter that must lead to the queue; "" when fixed
}

var cacheKinds = []kindSpec{
	{"infinite", "InfiniteCache", "QueueNone", ""},
	{"random", "RandomCache", "QueueNone", ""},
	{"random_lru", "RandomCache", "LRU", ""},
	{"lru", "SimpleCache", "LRU", ""},
	{"lfu", "SimpleCache", "LFU", ""},
	{"sizeBig", "SimpleCache", "SizeBig", ""},
	{"sizeSmall", "SimpleCache", "SizeSmall", ""},
	{"lruDatasetVerifier", "LRUDatasetVerifier", "LRU", ""},
	{"aiNN", "AINN", "LRU", ""},
	{"weightFunLRU", "WeightFun", "LRU", ""},
}

func ruleKinds(c *Ctx) {
	all := append(append([]kindSpec{}, cacheKinds...), kindSpec{"aiRL", "AIRL", "", ""})
	for _, k := range all {
		k := k
		c.guarded("Create "+k.name, func() {
			e := c.engine()
			op := c.fn("cache.GetCacheSize")
			e.opaque = func(f *ssa.Function) bool { return f == op }
			s := c.scOn(e, c.fn("cache.Create"), "Create", "kind", "size", "unit", "wf", "wfp")
			s.give("kind", e.u.Str(k.name))
			outs := s.returns()
			c.check("created", k.name, len(outs) > 0, s.fn.Pos(), "the cache type is refused")
			for _, o := range outs {
				t := e.types[o.ret[0]]
				c.check("created", k.name, t != nil && deref(t) != t && typeName(deref(t)) == "cache."+k.typ, o.pos, "a cache of type %v is created", t)
				max := e.readAt(o.st, e.u.Field(e.strip(o.ret[0]), "cache.SimpleCache.MaxSize"))
				c.check("capacity", k.name, max.op == OCall && strings.HasPrefix(max.s, "fn:") && strings.Contains(max.s, "GetCacheSize") && max.args[0] == s.arg("size") && max.args[1] == s.arg("unit"), o.pos, "the capacity is %s", max)
			}
		})
	}
	c.guarded("Create unknown", func() {
		e := c.engine()
		s := c.scOn(e, c.fn("cache.Create"), "Create", "kind", "size", "unit", "wf", "wfp")
		for _, o := range s.returns() {
			known := false
			for _, k := range all {
				known = known || e.u.decide(o.st, e.u.EQ(s.arg("kind"), e.u.Str(k.name))) == 1
			}
			c.check("created", "unknown", known, o.pos, "a cache is created for a type that is none of the known ones")
		}
	})
	for _, k := range cacheKinds {
		k := k
		c.guarded("InitInstance "+k.name, func() {
			s := c.initScenario(k.name, k.typ)
			switch k.name {
			case "weightFunLRU":
				for _, f := range []struct{ name, want string }{
					{"FuncAdditive", "a * float64(n) + b * s + g * m"},
					{"FuncAdditiveExp", "math.Pow(float64(n), a) + math.Pow(s, b) + math.Pow(m, g)"},
					{"FuncMultiplicative", "math.Pow(float64(n), a) * math.Pow(s, b) * math.Pow(m, g)"},
				} {
					s := c.initScenario(k.name, k.typ)
					s.setStr("params.FunctionTypeString", f.name)
					c.initChecks(s, k)
					for _, o := range s.returns() {
						w := s.e.readAt(o.st, s.e.u.Field(s.arg("cache"), "cache.WeightFun.weightFunction"))
						c.weightFormula(s.e, f.name, w, f.want, o)
						for _, p := range []string{"Alpha", "Beta", "Gamma"} {
							got := s.e.readAt(o.st, s.e.u.Field(s.e.u.Field(s.arg("cache"), "cache.WeightFun.fParams"), "cache.WeightFunctionParameters."+p))
							c.check("weight parameter", f.name+" "+p, got == s.old("params.WfParams."+p), o.pos, "the parameter is %s", got)
						}
					}
				}
				for _, o := range s.returns() {
					known := false
					for _, n := range []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"} {
						known = known || s.e.u.decide(o.st, s.e.u.EQ(s.old("params.FunctionTypeString"), s.e.u.Str(n))) == 1
					}
					c.check("weight function", "unknown", known, o.pos, "an unknown weight function is accepted")
				}
			case "aiNN":
				for _, o := range s.returns() {
					c.check("feature map", k.name, s.e.u.decide(o.st, s.e.u.EQ(s.old("params.AIFeatureMap"), s.e.u.Str(""))) == 0, o.pos, "a missing feature map is accepted")
				}
				c.initChecks(s, k)
			default:
				c.initChecks(s, k)
			}
			if k.name == "random" || k.name == "random_lru" {
				for _, o := range s.returns() {
					src, gen := evs(o.st.events, "call", "math/rand.NewSource"), evs(o.st.events, "call", "math/rand.New")
					got := s.e.readAt(o.st, s.e.u.Field(s.arg("cache"), "cache.RandomCache.randomGenerator"))
					c.check("seed", k.name, len(src) == 1 && len(gen) == 1 && src[0].args[0] == s.old("params.RandSeed") && gen[0].args[0] == src[0].ret && got == gen[0].ret, o.pos, "the generator is %s", got)
				}
			}
		})
	}
	// reinforcement learning
	for _, rl := range []struct {
		typ, evMap, addMap, queue string
		agent                     int
	}{
		{"SCDL", "", "addition", "LRU", 0}, {"SCDL2", "", "addition", "LRU", 0}, {"SCDL2", "map", "addition", "QueueNone", 1}, {"SCDL2", "map", "", "QueueNone", 1},
	} {
		rl := rl
		name := rl.typ + " " + rl.evMap
		adds := b2i(rl.addMap != "")
		if adds == 0 {
			name += " only"
		}
		c.guarded("aiRL "+name, func() {
			s := c.initScenario("aiRL", "AIRL")
			s.setStr("params.AIRLType", rl.typ)
			s.setStr("params.AIRLAdditionFeatureMap", rl.addMap)
			s.setStr("params.AIRLEvictionFeatureMap", rl.evMap)
			s.setStr("params.EvictionAgentType", "onK")
			c.initChecks(s, kindSpec{"aiRL", "AIRL", rl.queue, name})
			for _, o := range s.returns() {
				get := func(f string) *Term { return s.e.readAt(o.st, s.e.u.Field(s.arg("cache"), "cache.AIRL."+f)) }
				c.check("agents", name, get("evictionAgentOK") == s.e.u.Bool(rl.agent == 1), o.pos, "the eviction agent is on: %s", get("evictionAgentOK"))
				c.check("agents", name, get("additionAgentOK") == s.e.u.Bool(adds == 1), o.pos, "the addition agent is on: %s", get("additionAgentOK"))
				n := map[string]int{}
				for _, ev := range o.st.events {
					if ev.kind != "fn" || !strings.HasSuffix(ev.name, "Agent).Init") {
						continue
					}
					role, _, _ := c.pkgConst(s.e, "qlearn", "EvictionAgent")
					which := "Addition"
					if ev.args[2] == role {
						which = "Eviction"
					}
					n[which]++
					addr := s.e.u.Field(s.arg("cache"), "cache.AIRL."+strings.ToLower(which)+"Agent")
					want := []*Term{s.old("params.AIRL" + which + "EpsilonStart"), s.old("params.AIRL" + which + "EpsilonDecay"), s.old("params.AIRL" + which + "EpsilonUnleash"), s.old("params.RandSeed")}
					ok := ev.args[0] == addr && len(ev.args) == 7 && ev.args[1] == s.e.u.Field(s.arg("cache"), "cache.AIRL."+strings.ToLower(which)+"FeatureManager")
					for i, w := range want {
						ok = ok && ev.args[3+i] == w
					}
					c.check("agents", name+" "+which, ok, ev.pos, "the agent is set up with %v", ev.args)
				}
				c.check("agents", name+" Addition", n["Addition"] == adds, o.pos, "the addition agent is set up %d times", n["Addition"])
				c.check("agents", name+" Eviction", n["Eviction"] == rl.agent, o.pos, "the eviction agent is set up %d times", n["Eviction"])
				if rl.typ == "SCDL2" {
					c.check("eviction step", name, get("evictionAgentK") == s.old("params.AIRLEvictionK") && get("evictionAgentStep") == s.old("params.AIRLEvictionK"), o.pos, "the eviction agent waits %s of %s requests", get("evictionAgentStep"), get("evictionAgentK"))
				}
				manager := func(which, f string) *Term {
					return s.e.readAt(o.st, s.e.u.Field(s.e.u.Field(s.arg("cache"), "cache.AIRL."+strings.ToLower(which)+"FeatureManager"), "featuremap.FeatureManager."+f))
				}
				cats := 0
				for _, ev := range o.st.events {
					if ev.kind != "fn" || !strings.HasSuffix(ev.name, "CategoryManager).Init") {
						continue
					}
					cats++
					if ok := len(ev.args) == 6 || len(ev.args) == 7; !ok {
						c.check("categories", name, false, ev.pos, "the category manager is set up with %v", ev.args)
						continue
					}
					c.check("categories", name, ev.args[0] == s.e.u.Field(s.arg("cache"), "cache.AIRL.evictionCategoryManager"), ev.pos, "%s is set up", ev.args[0])
					for i, f := range []string{"Features", "FeatureIdxWeights", "FileFeatures", "FileFeatureIdxWeights", "FileFeatureIdxMap"} {
						want := manager("Eviction", f)
						c.check("categories", name+" "+f, ev.args[1+i] == want, ev.pos, "the category manager is given %s instead of %s", ev.args[1+i], want)
					}
				}
				c.check("categories", name, cats == rl.agent, o.pos, "the category manager is set up %d times", cats)
				for _, which := range []string{"Addition", "Eviction"} {
					if which == "Eviction" && rl.agent == 0 || which == "Addition" && adds == 0 {
						continue
					}
					from := s.e.u.Nil()
					for _, ev := range evs(o.st.events, "fn", "") {
						if strings.HasSuffix(ev.name, "featuremap.Parse") && s.e.fieldOfValue(ev.ret, "featuremap.FeatureManager.Features") == manager(which, "Features") {
							from = ev.args[0]
						}
					}
					c.check("feature map", name+" "+which, from == s.old("params.AIRL"+which+"FeatureMap"), o.pos, "the feature map is read from %s", from)
				}
				mt := fieldType(c.w.lookupType("cache.AIRL"), "actionCounters")
				for _, a := range []string{"Store", "NotStore", "NotDelete", "DeleteAll", "DeleteHalf", "DeleteQuarter", "DeleteOne"} {
					k, _, ok := c.pkgConst(s.e, "qlearn", "Action"+a)
					if !ok {
						c.missing("qlearn.Action" + a)
					}
					m := get("actionCounters")
					c.check("action counters", name, m.op == OAlloc, o.pos, "the action counters are %s", m)
					at, in, _ := s.e.mapAddr(m, k, mt)
					v := s.e.readAt(o.st, at)
					// what an opaque call may have changed is not known to be wrong
					c.check("action counters", name+" "+a, s.e.u.decide(o.st, s.e.presence(o.st, in)) == 0 || v.op != OConst || isZero(v), o.pos, "the counter of %s starts at %s", a, v)
				}
			}
		})
	}
	for _, ev := range []struct{ names, konst string }{
		{"onK,on_k,ONK", "EvictionOnK"}, {"onDayEnd,on_day_end,ONDAYEND", "EvictionOnDayEnd"}, {"onFree,on_free,ONFREE", "EvictionOnFree"},
	} {
		for _, n := range strings.Split(ev.names, ",") {
			n, k := n, ev.konst
			c.guarded("eviction mode "+n, func() {
				s := c.initScenario("aiRL", "AIRL")
				s.setStr("params.AIRLType", "SCDL2")
				s.setStr("params.AIRLAdditionFeatureMap", "")
				s.setStr("params.AIRLEvictionFeatureMap", "map")
				s.setStr("params.EvictionAgentType", n)
				want, _, ok := c.pkgConst(s.e, "cache", k)
				for _, o := range s.returns() {
					got := s.e.readAt(o.st, s.e.u.Field(s.arg("cache"), "cache.AIRL.evictionType"))
					c.check("eviction mode", n, ok && got == want, o.pos, "the mode is %s", got)
				}
				c.check("eviction mode", n, len(s.returns()) > 0, s.fn.Pos(), "the mode is refused")
			})
		}
	}
}

// initScenario starts InitInstance for a cache of the named kind.
func (c *Ctx) initScenario(kind, typ string) *Sc {
	e := c.engine()
	op := map[*ssa.Function]bool{}
	for _, n := range []string{"featuremap.Parse", "neuralnet.LoadModel", "qlearn.Agent.Init", "cache.CategoryManager.Init"} {
		op[c.fn(n)] = true
	}
	e.opaque = func(f *ssa.Function) bool { return op[f] }
	s := c.scOn(e, c.fn("cache.InitInstance"), "InitInstance "+kind, "kind", "cache", "params")
	s.give("kind", e.u.Str(kind))
	n := c.w.lookupType("cache." + typ)
	if n == nil {
		c.missing("type cache." + typ)
	}
	s.dynType(s.arg("cache"), types.NewPointer(n))
	// a new cache
	for _, f := range []string{"additionAgentOK", "evictionAgentOK"} {
		e.u.write(s.pre, e.u.Field(s.arg("cache"), "cache.AIRL."+f), e.u.Bool(false))
	}
	return s
}

func (c *Ctx) initChecks(s *Sc, k kindSpec) {
	name := strings.TrimSpace(k.name + " " + k.config)
	outs := s.returns()
	c.check("set up", name, len(outs) > 0, s.fn.Pos(), "no path sets the cache up")
	e, u := s.e, s.e.u
	for _, o := range outs {
		get := func(f string) *Term { return e.readAt(o.st, u.Field(s.arg("cache"), "cache.SimpleCache."+f)) }
		t := e.types[get("files")]
		got := "nothing"
		if t != nil {
			got = typeName(deref(t))
		}
		c.check("queue", name, got == "queue."+k.queue, o.pos, "the replacement queue is %s", got)
		if t != nil {
			c.tablesMade(s, o, name, e.strip(get("files")), deref(t))
		}
		for _, p := range [][2]string{{"logSimulation", "Log"}, {"canRedirect", "RedirectReq"}, {"useWatermarks", "Watermarks"}, {"highWatermark", "HighWatermark"},
			{"lowWatermark", "LowWatermark"}, {"maxNumDayDiff", "MaxNumDayDiff"}, {"deltaDaysStep", "DeltaDaysStep"}} {
			c.check("setting", name+" "+p[1], same(u, o, get(p[0]), s.old("params."+p[1])), o.pos, "the cache works with %s", get(p[0]))
		}
		calc := s.old("params.CalcWeight")
		if k.name == "weightFunLRU" {
			calc = u.Bool(true)
		}
		st := u.Field(s.arg("cache"), "cache.SimpleCache.stats")
		stat := func(f string) *Term { return e.readAt(o.st, u.Field(st, "files.Manager."+f)) }
		c.check("setting", name+" weights", same(u, o, stat("calcWeight"), calc), o.pos, "weights are computed: %s", stat("calcWeight"))
		c.check("setting", name+" purge", stat("maxNumDayDiff") == s.old("params.MaxNumDayDiff") && stat("deltaDaysStep") == s.old("params.DeltaDaysStep"), o.pos, "the statistics are purged after %s, every %s days", stat("maxNumDayDiff"), stat("deltaDaysStep"))
		c.check("watermarks", name, u.decide(o.st, u.LT(u.Sub(s.old("params.HighWatermark"), s.old("params.LowWatermark")), true)) == 0, o.pos, "a high watermark below the low one is accepted where %s", factsString(o.st.facts))
	}
}

// tablesMade: the tables of the queue have been made, so that it can be used.
func (c *Ctx) tablesMade(s *Sc, o Out, name string, q *Term, t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			c.tablesMade(s, o, name, q, deref(f.Type()))
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Map, *types.Signature:
			v := s.e.readAt(o.st, s.e.u.Field(q, fieldKey(t, i)))
			c.check("queue is set up", name, v != s.e.u.Nil(), o.pos, "%s of the replacement queue is not made", f.Name())
		}
	}
}

// same: equal, possibly under the facts of the path.
func same(u *U, o Out, a, b *Term) bool {
	return a == b || u.decide(o.st, u.EQ(a, b)) == 1 || a.op == OConst && a.kind == 'b' && u.decide(o.st, b) == b2i(a.b)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// weightFormula runs the function value stored as weight function on symbols.
func (c *Ctx) weightFormula(e *Engine, name string, w *Term, want string, o Out) {
	w = e.strip(w)
	if !c.check("weight function", name, w.op == OClosure && w.fn != nil && len(w.fn.Params) == 6, o.pos, "the weight function is %s", w) {
		return
	}
	s := c.scOn(e, w.fn, name, "n", "s", "m", "a", "b", "g")
	c.check("weight formula", name, len(s.returns()) > 0, w.fn.Pos(), "no weight")
	s.ensure("weight formula", name, "ret0 == "+want)
}

// --------------------------------------------------------------- plumbing

type confParam struct{ field, key, get string }

var initConf = []confParam{
	{"Log", "sim.log", "Bool"}, {"RedirectReq", "sim.cache.bandwidth.redirect", "Bool"}, {"Watermarks", "sim.cache.watermarks", "Bool"},
	{"HighWatermark", "sim.cache.watermark.high", "Float64"}, {"LowWatermark", "sim.cache.watermark.low", "Float64"},
	{"Dataset2TestPath", "sim.ai.dataset2TestPath", "String"}, {"AIModel", "sim.ai.model", "String"},
	{"FunctionTypeString", "sim.weightfunc.name", "String"}, {"EvictionAgentType", "sim.ai.rl.eviction.type", "String"},
	{"AIRLEvictionK", "sim.ai.rl.eviction.k", "Int64"}, {"AIRLType", "sim.ai.rl.type", "String"},
	{"MaxNumDayDiff", "sim.cache.stats.maxNumDayDiff", "Float64"}, {"DeltaDaysStep", "sim.cache.stats.deltaDaysStep", "Float64"}, {"RandSeed", "sim.seed", "Int64"},
	{"WfParams.Alpha", "sim.weightfunc.alpha", "Float64"}, {"WfParams.Beta", "sim.weightfunc.beta", "Float64"}, {"WfParams.Gamma", "sim.weightfunc.gamma", "Float64"},
}

var runConf = []confParam{
	{"LoadDump", "sim.loaddump", "Bool"}, {"Dump", "sim.dump", "Bool"}, {"DumpFilesAndStats", "sim.dumpfilesandstats", "Bool"},
	{"ColdStart", "sim.coldstart", "Bool"}, {"ColdStartNoStats", "sim.coldstartnostats", "Bool"},
	{"AIRLEpsilonStart", "sim.ai.rl.epsilon.start", "Float64"}, {"AIRLEpsilonDecay", "sim.ai.rl.epsilon.decay", "Float64"},
	{"CPUprofile", "sim.cpuprofile", "String"}, {"MEMprofile", "sim.memprofile", "String"},
	{"WindowSize", "sim.window.size", "Int"}, {"WindowStart", "sim.window.start", "Int"}, {"WindowStop", "sim.window.stop", "Int"},
	{"OutputUpdateDelay", "sim.outputupdatedelay", "Float64"},
}

var confDefaults = map[string]interface{}{
	"sim.region": "all", "sim.outputFolder": ".", "sim.overwrite": false, "sim.dump": false, "sim.dumpfilesandstats": true, "sim.dumpfilename": "",
	"sim.loaddump": false, "sim.loaddumpfilename": "", "sim.window.size": 7.0, "sim.window.start": 0.0, "sim.window.stop": 0.0,
	"sim.cache.watermarks": false, "sim.cache.watermark.high": 95.0, "sim.cache.watermark.low": 75.0, "sim.coldstart": false, "sim.coldstartnostats": false,
	"sim.log": false, "sim.seed": 42.0, "sim.cpuprofile": "", "sim.memprofile": "", "sim.outputupdatedelay": 2.4,
	"sim.cache.size.value": 100.0, "sim.cache.size.unit": "T", "sim.cache.bandwidth.value": 10.0, "sim.cache.bandwidth.redirect": false,
	"sim.cache.stats.maxNumDayDiff": 6.0, "sim.cache.stats.deltaDaysStep": 7.0,
	"sim.weightfunc.name": "FuncAdditiveExp", "sim.weightfunc.alpha": 1.0, "sim.weightfunc.beta": 1.0, "sim.weightfunc.gamma": 1.0, "sim.loglevel": "INFO",
	"sim.ai.rl.epsilon.start": 1.0, "sim.ai.rl.epsilon.decay": 0.0000042, "sim.ai.rl.epsilon.unleash": true,
	"sim.ai.featuremap": "", "sim.ai.rl.type": "SCDL2",
	"sim.ai.rl.addition.featuremap": "", "sim.ai.rl.addition.epsilon.start": -1.0, "sim.ai.rl.addition.epsilon.decay": -1.0, "sim.ai.rl.addition.epsilon.unleash": false,
	"sim.ai.rl.eviction.featuremap": "", "sim.ai.rl.eviction.k": 32.0, "sim.ai.rl.eviction.type": "onK", "sim.ai.rl.eviction.epsilon.start": -1.0,
	"sim.ai.rl.eviction.epsilon.decay": -1.0, "sim.ai.rl.eviction.epsilon.unleash": false, "sim.ai.model": "", "sim.ai.dataset2TestPath": "",
}

const viperPkg = "github.com/spf13/viper."

// conf is the value of a configuration key.
func conf(u *U, get, key string) *Term { return u.Call(viperPkg+"Get"+get, u.Str(key)) }

// confRead: t is a read of the key, whatever the case of its letters.
func confRead(t *Term, get, key string) bool {
	for t.op == OCall && len(t.args) == 1 && !strings.HasPrefix(t.s, viperPkg) && strings.HasPrefix(t.s, "conv") {
		t = t.args[0]
	}
	if t.op != OCall || !strings.HasPrefix(t.s, viperPkg+"Get") || len(t.args) != 1 || t.args[0].op != OConst {
		return false
	}
	g := strings.TrimPrefix(t.s, viperPkg+"Get")
	if strings.HasPrefix(get, "Int") {
		return strings.HasPrefix(g, "Int") && strings.EqualFold(t.args[0].s, key)
	}
	return g == get && strings.EqualFold(t.args[0].s, key)
}

// command finds the function that the command line starts, that which sets
// the defaults and the steps that a run consists of.
func (c *Ctx) command() (runFn, cfg *ssa.Function, op map[*ssa.Function]bool) {
	simulate, initI, create := c.fn("cache.Simulate"), c.fn("cache.InitInstance"), c.fn("cache.Create")
	setBW, setReg := c.fn("cache.SetBandwidth"), c.fn("cache.SetRegion")
	op = map[*ssa.Function]bool{simulate: true, initI: true, create: true, setBW: true, setReg: true}
	for _, f := range c.w.funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && fnShort(f) == "configureViper" {
			cfg = f
		}
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && fnShort(f) == "initZapLog" {
			op[f] = true
		}
	}
	calls := func(callee *ssa.Function) func(com *ssa.CallCommon, f *ssa.Function) bool {
		return func(com *ssa.CallCommon, f *ssa.Function) bool { return f == callee }
	}
	// the entry point: the function value that reaches the simulation and is
	// started with the command line arguments
	for _, f := range c.w.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || len(f.Params) != 2 || f.Signature.Results().Len() != 0 {
			continue
		}
		if p, ok := f.Params[0].Type().(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "cobra.Command") && c.w.reaches(f, calls(simulate)) {
			runFn = f
		}
	}
	if runFn == nil {
		c.missing("command that starts the simulation")
	}
	return
}

func ruleConfig(c *Ctx) {
	runFn, cfg, op := c.command()
	if runFn == nil {
		return
	}
	// defaults
	c.guarded("defaults", func() {
		e := c.engine()
		e.unrollLists = 200
		fn := cfg
		if fn == nil {
			fn = runFn
		}
		got := map[string]*Term{}
		var pos token.Pos
		for _, o := range e.Run(fn, []*Term{e.u.Sym("name"), e.u.Sym("args")}, newState()) {
			if o.kind != "return" {
				continue
			}
			for _, ev := range evs(o.st.events, "call", viperPkg+"SetDefault") {
				pos = ev.pos
				if ev.args[0].op == OConst {
					got[strings.ToLower(ev.args[0].s)] = ev.args[1]
				}
			}
		}
		for k, w := range confDefaults {
			g := got[strings.ToLower(k)]
			ok := g != nil && g.op == OConst
			if ok {
				switch w := w.(type) {
				case string:
					ok = g.kind == 's' && g.s == w
				case bool:
					ok = g.kind == 'b' && g.b == w
				case float64:
					ok = false
				}
			}
			if f, isF := w.(float64); isF && g != nil && isNum(g) {
				x, _ := g.rat.Float64()
				ok = x == f
			}
			c.check("default", k, ok, pos, "the default is %v, not %v", g, w)
		}
	})
	if cfg != nil {
		op[cfg] = true
	}
	outer := runFn.Parent()
	for i, sc := range []struct {
		nn, add, ev, unleash bool
		start, decay         [2]bool // addition, eviction: given explicitly
		region               string
		dump, load           bool
	}{
		{false, false, false, false, [2]bool{true, true}, [2]bool{true, true}, "us", true, false},
		{true, true, false, false, [2]bool{false, true}, [2]bool{true, false}, "it", false, true},
		{false, false, true, false, [2]bool{true, false}, [2]bool{false, true}, "all", true, true},
		{true, true, true, true, [2]bool{false, false}, [2]bool{false, false}, "us", false, false},
	} {
		i, sc := i, sc
		c.guarded("configuration "+itoa(i), func() {
			e := c.engine()
			e.opaque = func(f *ssa.Function) bool { return op[f] }
			u := e.u
			var binds []*Term
			st := newState()
			if outer != nil && len(runFn.FreeVars) > 0 {
				for _, fv := range runFn.FreeVars {
					binds = append(binds, u.Sym("&"+fv.Name()))
				}
			}
			fact := func(t *Term, v bool) { st.facts[t] = v }
			empty := func(key string) *Term { return u.EQ(conf(u, "String", key), u.Str("")) }
			fact(empty("sim.ai.featuremap"), !sc.nn)
			fact(empty("sim.ai.rl.addition.featuremap"), !sc.add)
			fact(empty("sim.ai.rl.eviction.featuremap"), !sc.ev)
			fact(conf(u, "Bool", "sim.ai.rl.epsilon.unleash"), sc.unleash)
			for j, w := range []string{"addition", "eviction"} {
				fact(u.EQ(conf(u, "Float64", "sim.ai.rl."+w+".epsilon.start"), u.Int(-1)), !sc.start[j])
				fact(u.EQ(conf(u, "Float64", "sim.ai.rl."+w+".epsilon.decay"), u.Int(-1)), !sc.decay[j])
			}
			for _, r := range []string{"us", "it"} {
				fact(u.EQ(conf(u, "String", "sim.region"), u.Str(r)), r == sc.region)
			}
			fact(empty("sim.dumpfilename"), !sc.dump)
			fact(empty("sim.loaddumpfilename"), !sc.load)
			outs := e.exec(runFn, []*Term{u.Sym("&cmd"), u.Sym("args")}, binds, st, "", nil, nil)
			n := 0
			for _, o := range outs {
				if o.kind != "return" {
					continue
				}
				ev := map[string]*Event{}
				cnt := map[string]int{}
				for _, x := range o.st.events {
					if x.kind == "fn" || x.kind == "invoke" {
						short := x.name[strings.LastIndex(x.name, ".")+1:]
						ev[short] = x
						cnt[short]++
					}
				}
				if cnt["Simulate"] == 0 {
					// nothing is run when the results are already there
					ow := u.decide(o.st, conf(u, "Bool", "sim.overwrite"))
					c.check("existing results", "kept", ow == 0 && cnt["Create"] == 0, o.pos, "a configured run is left out where %s", factsString(o.st.facts))
					continue
				}
				n++
				one := true
				for _, x := range []string{"Create", "InitInstance", "SetBandwidth", "Simulate"} {
					one = c.check("steps", x, cnt[x] == 1, o.pos, "%s happens %d times", x, cnt[x]) && one
				}
				if !one {
					continue
				}
				at := func(name string) int {
					for i, x := range o.st.events {
						if x == ev[name] {
							return i
						}
					}
					return -1
				}
				c.check("steps", "order", at("Create") < at("InitInstance") && at("InitInstance") < at("SetBandwidth") && at("SetBandwidth") < at("Simulate"), o.pos, "the steps are out of order")
				cr := ev["Create"]
				kind := conf(u, "String", "sim.cache.type")
				c.check("create", "type", confRead(cr.args[0], "String", "sim.cache.type"), cr.pos, "the cache type is %s", cr.args[0])
				c.check("create", "size", confRead(cr.args[1], "Float64", "sim.cache.size.value"), cr.pos, "the size is %s", cr.args[1])
				c.check("create", "unit", confRead(cr.args[2], "String", "sim.cache.size.unit"), cr.pos, "the unit is %s", cr.args[2])
				for _, x := range []string{"InitInstance", "Simulate"} {
					c.check("cache", x, ev[x].args[0] == kind && ev[x].args[1] == cr.ret, ev[x].pos, "%s works on %s %s", x, ev[x].args[0], ev[x].args[1])
				}
				bw := ev["SetBandwidth"]
				c.check("bandwidth", "value", bw.args[0] == cr.ret && confRead(bw.args[1], "Float64", "sim.cache.bandwidth.value"), bw.pos, "the bandwidth is %s", bw.args[1])
				par := func(v *Term, typ, field string) *Term {
					for _, f := range strings.Split(field, ".") {
						t := c.w.lookupType(typ)
						if t == nil || v.op != OStruct {
							return u.Str("no " + typ + "." + field)
						}
						var r *Term
						for i, x := range v.args {
							if fieldName(t, i) == f {
								r = x
							}
						}
						if r == nil {
							return u.Str("no field " + f)
						}
						v, typ = r, "cache.WeightFunctionParameters"
					}
					return e.strip(v)
				}
				in, ru := ev["InitInstance"].args[2], ev["Simulate"].args[2]
				for _, p := range initConf {
					v := par(in, "cache.InitParameters", p.field)
					c.check("parameter", p.field, confRead(v, p.get, p.key), ev["InitInstance"].pos, "%s is %s, not the configured %s", p.field, v, p.key)
				}
				for _, p := range runConf {
					v := par(ru, "cache.SimulationParams", p.field)
					c.check("run parameter", p.field, confRead(v, p.get, p.key), ev["Simulate"].pos, "%s is %s, not the configured %s", p.field, v, p.key)
				}
				path := func(v *Term, key string, given bool) bool {
					if !given {
						return v == u.Str("") || confRead(v, "String", key)
					}
					return contains(v, func(x *Term) bool { return confRead(x, "String", key) }) && strings.HasPrefix(v.s, "path/filepath.Abs")
				}
				for _, p := range []struct {
					field, key string
					given      bool
				}{{"AIFeatureMap", "sim.ai.featuremap", sc.nn}, {"AIRLAdditionFeatureMap", "sim.ai.rl.addition.featuremap", sc.add}, {"AIRLEvictionFeatureMap", "sim.ai.rl.eviction.featuremap", sc.ev}} {
					v := par(in, "cache.InitParameters", p.field)
					c.check("parameter", p.field, path(v, p.key, p.given), ev["InitInstance"].pos, "%s is %s", p.field, v)
				}
				v := par(ru, "cache.SimulationParams", "DataPath")
				c.check("run parameter", "DataPath", path(v, "sim.data", true), ev["Simulate"].pos, "the data are read from %s", v)
				for j, w := range []string{"addition", "eviction"} {
					W := strings.Title(w)
					for _, y := range []struct {
						f, k  string
						given bool
					}{{"Start", "start", sc.start[j]}, {"Decay", "decay", sc.decay[j]}} {
						v := par(in, "cache.InitParameters", "AIRL"+W+"Epsilon"+y.f)
						key := "sim.ai.rl.epsilon." + y.k
						if y.given {
							key = "sim.ai.rl." + w + ".epsilon." + y.k
						}
						c.check("parameter", "AIRL"+W+"Epsilon"+y.f, confRead(v, "Float64", key), ev["InitInstance"].pos, "the value is %s, not the configured %s", v, key)
					}
					v := par(in, "cache.InitParameters", "AIRL"+W+"EpsilonUnleash")
					known := u.decide(o.st, v)
					ok := confRead(v, "Bool", "sim.ai.rl."+w+".epsilon.unleash")
					if sc.unleash {
						ok = known == 1
					} else if known >= 0 {
						ok = u.decide(o.st, conf(u, "Bool", "sim.ai.rl."+w+".epsilon.unleash")) == known
					}
					c.check("parameter", "AIRL"+W+"EpsilonUnleash", ok, ev["InitInstance"].pos, "the value is %s", v)
				}
				for _, y := range []struct {
					f, key string
					given  bool
				}{{"DumpFileName", "sim.dumpfilename", sc.dump}, {"LoadDumpFileName", "sim.loaddumpfilename", sc.load}} {
					v := par(ru, "cache.SimulationParams", y.f)
					ok := y.given && confRead(v, "String", y.key) || !y.given && v == u.Str("cache_dump.json.gz")
					c.check("run parameter", y.f, ok, ev["Simulate"].pos, "the file is %s", v)
				}
				want := map[string][2]string{"us": {"cache.UsMINIAODNOT1andT3", "cache.UsDataMcTypes"}, "it": {"", "cache.ItDataMcTypes"}, "all": {"", ""}}[sc.region]
				for j, f := range []string{"RecordFilter", "DataTypeFilter"} {
					t := c.w.lookupType("cache.SimulationParams")
					var raw *Term
					for i, x := range ru.args {
						if ru.op == OStruct && fieldName(t, i) == f {
							raw = x
						}
					}
					got := ""
					if raw != nil && raw != u.Nil() {
						got = "?"
						if ty := e.types[raw]; ty != nil {
							got = typeName(deref(ty))
						} else if raw.op == OStruct {
							got = raw.s
						}
					}
					c.check("filter", sc.region+" "+f, got == want[j], ev["Simulate"].pos, "the filter is %q", got)
				}
				if sc.region != "all" {
					r := ev["SetRegion"]
					c.check("region", sc.region, r != nil && r.args[0] == cr.ret && (r.args[1] == u.Str(sc.region) || confRead(r.args[1], "String", "sim.region")), o.pos, "the region is not set")
				}
			}
			c.check("steps", "run "+itoa(i), n > 0, runFn.Pos(), "no path starts the simulation")
		})
	}
}

// concat is the text as a list of constant and computed parts.
func concat(t *Term) []*Term {
	switch {
	case t.op == OCat:
		var r []*Term
		for _, x := range t.args {
			r = append(r, concat(x)...)
		}
		return r
	case t.op == OCall && t.s == "strings.Join" && t.args[0].op == OSeq && allElems(t.args[0]):
		var r []*Term
		for i, x := range t.args[0].args {
			if i > 0 {
				r = append(r, concat(t.args[1])...)
			}
			r = append(r, concat(x.args[0])...)
		}
		return r
	case t.op == OCall && (t.s == "%v" || t.s == "%s") && len(t.args) == 1 && (t.args[0].op == OCat || t.args[0].op == OCall && (strings.HasPrefix(t.args[0].s, "strings.") || strings.HasPrefix(t.args[0].s, "%") || strings.HasPrefix(t.args[0].s, viperPkg+"GetString"))):
		return concat(t.args[0])
	}
	return []*Term{t}
}

// sameText: both texts consist of the same parts; constants may be cut
// anywhere, and keys written in any case.
func sameText(a, b []*Term) bool {
	norm := func(l []*Term) []string {
		var r []string
		lit := false
		for _, t := range l {
			s := t.String()
			if t.op == OConst && t.kind == 's' {
				if t.s == "" {
					continue
				}
				if lit {
					r[len(r)-1] += t.s
					continue
				}
				lit = true
				s = "'" + t.s
			} else {
				lit = false
				s = strings.ToLower(s)
			}
			r = append(r, s)
		}
		return r
	}
	x, y := norm(a), norm(b)
	return strings.Join(x, "\x00") == strings.Join(y, "\x00")
}

// pathParts are the elements of a joined path.
func pathParts(t *Term) []*Term {
	if t.op == OCall && (t.s == "path/filepath.Join" || t.s == "path.Join") && len(t.args) == 1 && t.args[0].op == OSeq && allElems(t.args[0]) {
		var r []*Term
		for _, x := range t.args[0].args {
			r = append(r, pathParts(x.args[0])...)
		}
		return r
	}
	return []*Term{t}
}

// ruleFolders: where a run reads its input and writes its results.
func ruleFolders(c *Ctx) {
	runFn, cfg, op := c.command()
	if runFn == nil {
		return
	}
	if cfg != nil {
		op[cfg] = true
	}
	for _, sc := range []struct{ name, kind, rl string }{{"plain", "", ""}, {"weight function", "weightFunLRU", ""}, {"SCDL2", "aiRL", "SCDL2"}, {"SCDL", "aiRL", "SCDL"}, {"other type", "", ""}} {
		sc := sc
		c.guarded(sc.name, func() {
			e := c.engine()
			e.opaque = func(f *ssa.Function) bool { return op[f] }
			u := e.u
			st := newState()
			var binds []*Term
			for _, fv := range runFn.FreeVars {
				binds = append(binds, u.Sym("&"+fv.Name()))
			}
			fact := func(t *Term, v bool) { st.facts[t] = v }
			is := func(key, v string, b bool) { fact(u.EQ(conf(u, "String", key), u.Str(v)), b) }
			for _, k := range []string{"sim.ai.featuremap", "sim.ai.rl.addition.featuremap", "sim.ai.rl.eviction.featuremap"} {
				is(k, "", false)
			}
			fact(conf(u, "Bool", "sim.ai.rl.epsilon.unleash"), true)
			for _, w := range []string{"addition", "eviction"} {
				fact(u.EQ(conf(u, "Float64", "sim.ai.rl."+w+".epsilon.start"), u.Int(-1)), true)
				fact(u.EQ(conf(u, "Float64", "sim.ai.rl."+w+".epsilon.decay"), u.Int(-1)), true)
			}
			is("sim.dumpfilename", "", true)
			is("sim.loaddumpfilename", "", true)
			for _, k := range []string{"weightFunLRU", "aiRL"} {
				is("sim.cache.type", k, k == sc.kind)
			}
			if sc.kind == "aiRL" {
				is("sim.ai.rl.type", "SCDL2", sc.rl == "SCDL2")
			}
			is("sim.type", "normal", sc.name != "other type")
			S := func(k string) *Term { return conf(u, "String", k) }
			N := func(f, k string) *Term { return u.Call(f, conf(u, "Float64", k)) }
			sep := u.Str("_")
			size := []*Term{N("%.0f", "sim.cache.size.value"), u.Call("strings.ToUpper", S("sim.cache.size.unit"))}
			rest := append(append([]*Term{sep}, size...), sep, N("%.0f", "sim.cache.bandwidth.value"), u.Str("Gbit"), sep, S("sim.region"))
			want := append([]*Term{S("sim.cache.type")}, rest...)
			switch {
			case sc.kind == "weightFunLRU":
				want = []*Term{S("sim.cache.type"), sep, S("sim.weightfunc.name"), sep, N("%.2f", "sim.weightfunc.alpha"), sep, N("%.2f", "sim.weightfunc.beta"), sep, N("%.2f", "sim.weightfunc.gamma")}
			case sc.rl == "SCDL2":
				want = append([]*Term{S("sim.cache.type"), sep, S("sim.ai.rl.type"), u.Str("-"), S("sim.ai.rl.eviction.type")}, rest...)
			case sc.kind == "aiRL":
				want = append([]*Term{S("sim.cache.type"), sep, S("sim.ai.rl.type")}, rest...)
			}
			// kept: overwriting is off and there are results of more than 600
			// bytes (1), or not (0)
			kept := func(o Out, stat *Event) int {
				if u.decide(o.st, conf(u, "Bool", "sim.overwrite")) == 1 {
					return 0
				}
				if stat == nil || stat.ret == nil || stat.ret.op != OTuple || u.decide(o.st, conf(u, "Bool", "sim.overwrite")) != 0 {
					return -1
				}
				if u.decide(o.st, u.EQ(u.Nil(), stat.ret.args[1])) == 0 {
					return 0
				}
				for _, ev := range o.st.events {
					if ev.kind == "invoke" && strings.HasSuffix(ev.name, "FileInfo.Size") && ev.ret != nil {
						if d := u.decide(o.st, u.LT(u.Add(ev.ret, u.Int(-601)), true)); d >= 0 {
							return 1 - d
						}
					}
				}
				return -1
			}
			n, left := 0, 0
			for _, o := range e.exec(runFn, []*Term{u.Sym("&cmd"), u.Sym("args")}, binds, st, "", nil, nil) {
				if o.kind != "return" {
					continue
				}
				var dirs []*Event
				var sim, made, stat, mk *Event
				home := -1
				for i, ev := range o.st.events {
					short := ev.name[strings.LastIndex(ev.name, ".")+1:]
					switch {
					case ev.kind == "call" && ev.name == "os.Chdir":
						dirs = append(dirs, ev)
						home = i
					case ev.kind == "call" && (ev.name == "os.MkdirAll" || ev.name == "os.Mkdir"):
						mk = ev
					case ev.kind == "call" && (ev.name == "os.Stat" || ev.name == "os.Lstat"):
						stat = ev
						c.check("looked up in the results folder", sc.name, home >= 0 && (sc.name == "other type" || len(dirs) == 2), ev.pos, "%s is looked up in another folder", ev.args[0])
					case ev.kind == "fn" && short == "Create":
						made = ev
					case ev.kind == "fn" && short == "Simulate":
						sim = ev
					}
				}
				if sim == nil || made == nil {
					left++
					c.check("left out", sc.name, sim == nil && made == nil && kept(o, stat) == 1, o.pos, "a configured run is left out where %s", factsString(o.st.facts))
					continue
				}
				n++
				nd := 2
				if sc.name == "other type" {
					nd = 1
				}
				if !c.check("working folder", sc.name, len(dirs) == nd, o.pos, "the folder is changed %d times", len(dirs)) {
					continue
				}
				c.check("configuration folder", sc.name, dirs[0].args[0].op == OCall && dirs[0].args[0].s == "path/filepath.Dir" && contains(dirs[0].args[0], func(x *Term) bool { return x.op == OCall && x.s == "path/filepath.Abs" && len(x.args) == 1 }), dirs[0].pos, "paths are relative to %s", dirs[0].args[0])
				abs := func(t *Term, key string) bool {
					return t.op == OCall && t.s == "path/filepath.Abs" && len(t.args) == 2 && confRead(t.args[0], "String", key) && t.args[1] == dirs[0].args[0]
				}
				t := c.w.lookupType("cache.SimulationParams")
				par := func(f string) *Term {
					for i, x := range sim.args[2].args {
						if sim.args[2].op == OStruct && fieldName(t, i) == f {
							return e.strip(x)
						}
					}
					return u.Nil()
				}
				c.check("input relative to the configuration", sc.name, abs(par("DataPath"), "sim.data"), sim.pos, "the data are read from %s", par("DataPath"))
				c.check("results are not lost", sc.name, kept(o, stat) == 0, sim.pos, "a run starts where %s", factsString(o.st.facts))
				if sc.name == "other type" {
					continue
				}
				p := pathParts(dirs[1].args[0])
				ok := len(p) == 3 && abs(p[0], "sim.outputFolder") && p[1] == u.Str("run_full_normal")
				c.check("results folder", sc.name, ok, dirs[1].pos, "the results go to %s", dirs[1].args[0])
				if ok {
					c.check("folder of the configuration", sc.name, sameText(concat(p[2]), want), dirs[1].pos, "the folder is called %s", p[2])
				}
				c.check("folder is made", sc.name, mk != nil && mk.args[0] == dirs[1].args[0], dirs[1].pos, "the folder is not made before it is used")
				if stat != nil {
					c.check("results of a run", sc.name, stat.args[0] == par("OutFile"), stat.pos, "%s is looked for, the results go to %s", stat.args[0], par("OutFile"))
				}
				base := par("BaseName")
				c.check("name of the run", sc.name, sameText(concat(base), want), sim.pos, "the run is called %s", base)
			}
			c.check("runs", sc.name, n > 0 && left > 0, runFn.Pos(), "%d paths start the simulation, %d leave it out", n, left)
		})
	}
}

// ruleKeptRuns: a run that goes on from a dump keeps the results before it.
func ruleKeptRuns(c *Ctx) {
	for _, load := range []bool{true, false} {
		load := load
		con := "Simulate"
		c.guarded("earlier results", func() {
			s := c.simulate()
			s.plainRun("lru")
			s.setBool("param.LoadDump", load)
			s.setNil("param.RecordFilter")
			s.setNil("param.DataTypeFilter")
			u := s.e.u
			out := s.old("param.OutFile")
			n := 0
			for _, o := range s.returns() {
				n++
				moved, made := -1, -1
				var mv, num *Event
				for i, ev := range o.st.events {
					switch {
					case ev.kind == "call" && ev.name == "os.Rename":
						c.check("moved once", con, mv == nil, ev.pos, "results are moved twice")
						moved, mv = i, ev
					case ev.kind == "fn" && strings.HasSuffix(ev.name, "cache.OutputCSV).Create") || ev.kind == "call" && (ev.name == "os.Create" || ev.name == "os.OpenFile"):
						if made < 0 && contains(u.Tuple(ev.args...), func(x *Term) bool { return x == out }) {
							made = i
							if ev.kind == "fn" {
								c.check("results are written", con, ev.args[len(ev.args)-1] == u.Bool(false), ev.pos, "the results are compressed under another name")
							}
						}
					case ev.kind == "fn" && strings.HasSuffix(ev.name, "cache.GetSimulationRunNum"):
						num = ev
					}
				}
				c.check("results are written", con, made >= 0, o.pos, "the results file is not made")
				if !load {
					c.check("nothing is moved", con, mv == nil, o.pos, "results are moved without loading")
					continue
				}
				if !c.check("kept", con, mv != nil && moved < made, o.pos, "the results before are not moved before they are written anew") {
					continue
				}
				c.check("kept", con, mv.args[0] == out, mv.pos, "%s is moved", mv.args[0])
				c.check("failure stops", con, u.decide(o.st, u.EQ(u.Nil(), mv.ret)) == 1, mv.pos, "the run goes on although the results before were not moved")
				var run *Term
				if num != nil {
					run = num.ret
				} else if f := c.w.lookup("cache.GetSimulationRunNum"); f != nil {
					contains(mv.args[1], func(x *Term) bool {
						if x.op == OCall && strings.Contains(x.s, "GetSimulationRunNum") {
							run = x
						}
						return false
					})
				}
				parts := concat(mv.args[1])
				counted, numbered := false, false
				for _, p := range parts {
					if p.op == OConst && p.kind == 's' && strings.Contains(p.s, "_run-") {
						counted = true
					}
					if run != nil && p.op == OCall && strings.HasPrefix(p.s, "%") && len(p.args) == 1 && p.args[0] == run {
						numbered = true
					}
				}
				c.check("own name", con, counted && numbered && contains(mv.args[1], func(x *Term) bool { return x == out }), mv.pos, "the results before are kept as %s", mv.args[1])
				if num != nil {
					c.check("runs of the folder", con, num.args[0] == u.Call("path/filepath.Dir", s.old("param.LoadDumpFileName")), num.pos, "the runs in %s are counted", num.args[0])
				}
			}
			c.check("runs", con, n > 0, s.fn.Pos(), "no path ends")
		})
	}
	// the number of runs that are kept
	c.guarded("GetSimulationRunNum", func() {
		s := c.sc("cache.GetSimulationRunNum", "folder")
		u := s.e.u
		n := 0
		for _, o := range s.returns() {
			for _, l := range loopsIn(o.st.events) {
				n++
				ok := len(l.iters) > 1
				counts := false
				for name := range l.enter {
					good, some := true, false
					for _, it := range l.iters {
						p, has := it.phis[name]
						if !has {
							good = false
							continue
						}
						is := -1
						for f, v := range it.facts {
							if contains(f, func(x *Term) bool { return x.op == OConst && x.kind == 's' && x.s == "_run-" }) {
								is = b2i(v)
								if f.op == OLT || f.op == OEQ {
									is = 2
								}
							}
						}
						switch p[1] {
						case p[0]:
							good = good && is != 1 && is != -1
						case u.Add(p[0], u.Int(1)):
							good, some = good && is != 0 && is != -1, true
						default:
							good = false
						}
					}
					counts = counts || good && some
				}
				over := l.trip != nil && contains(l.trip, func(x *Term) bool {
					return strings.Contains(x.s, "ReadDir") || strings.Contains(x.s, "Glob") || strings.Contains(x.s, "Readdir")
				})
				c.check("number of runs", "GetSimulationRunNum", ok && counts && over, l.pos, "the names with _run- in the folder are not counted one by one")
			}
		}
		c.check("number of runs", "GetSimulationRunNum", n > 0, s.fn.Pos(), "no path returns")
	})
}
