package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P35", 12, "equal seeds, settings and records give equal runs", func(c *Ctx) {
		c.guarded("map order", c.mapOrder)
		c.guarded("random numbers", c.randomSources)
		c.guarded("clock", c.clock)
	})
}

func generated(w *World, f *ssa.Function) bool {
	return strings.HasSuffix(w.prog.Fset.Position(f.Pos()).Filename, ".pb.go")
}

func constructOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return fnName(f)
}

func (c *Ctx) mapOrder() {
	a := &orderAn{c: c, returns: map[*ssa.Function]map[int]bool{}, calls: map[string]callEffect{}}
	none := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		rv := f.Signature.Recv()
		if rv == nil {
			return false
		}
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && typeName(n) == "queue.QueueNone"
	}
	dumps := map[*ssa.Function]bool{}
	for _, im := range c.impls("cache.Cache", "Dumps") {
		dumps[im.fn] = true
	}
	a.exempt = func(f *ssa.Function) bool { return dumps[f] || none(f) }
	a.skip = none
	var done = map[string]bool{}
	reporter := func(f *ssa.Function) func(token.Pos, string, ...interface{}) {
		return func(pos token.Pos, format string, x ...interface{}) {
			c.check("map order", constructOf(f), false, pos, format, x...)
		}
	}
	nsrc := 0
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) || none(f) {
			continue
		}
		found := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if x.IsString {
						continue
					}
					found = true
					var seeds []ssa.Value
					for _, u := range *x.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index > 0 {
							seeds = append(seeds, ex)
						}
					}
					r := a.loop(f, b, seeds, nil, reporter(f))
					a.after(f, r, reporter(f))
				case *ssa.Call:
					switch n := calleeName(&x.Call); {
					case n == "(reflect.Value).MapKeys" || strings.HasPrefix(n, "maps.Keys") || strings.HasPrefix(n, "maps.Values"):
						found = true
						rs, _ := a.list(f, x, false, x.Pos(), nil, reporter(f))
						a.returned(f, rs, x.Pos(), reporter(f))
					case n == "(*reflect.MapIter).Next":
						found = true
						h := b
						var seeds []ssa.Value
						bl := loopBlocks(h)
						for lb := range bl {
							for _, li := range lb.Instrs {
								if k, ok := li.(*ssa.Call); ok {
									if kn := calleeName(&k.Call); (kn == "(*reflect.MapIter).Key" || kn == "(*reflect.MapIter).Value") && k.Call.Args[0] == x.Call.Args[0] {
										seeds = append(seeds, k)
									}
								}
							}
						}
						a.entries(f, h, bl, seeds, reporter(f))
					}
				}
			}
		}
		if found {
			nsrc++
			if !done[constructOf(f)] {
				done[constructOf(f)] = true
				c.check("map order", constructOf(f), true, f.Pos(), "")
			}
			c.extra = append(c.extra, fnName(f))
		}
	}
	// lists handed to the callers
	seen := map[string]bool{}
	for i := 0; i < 10; i++ {
		var fs []*ssa.Function
		for f := range a.returns {
			if !seen[f.String()] {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		if len(fs) == 0 {
			break
		}
		for _, f := range fs {
			seen[f.String()] = true
			callers := 0
			for _, g := range c.w.funcs {
				if !inRepoFn(g) {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(*ssa.Call)
						if !ok {
							continue
						}
						for _, t := range c.w.callees(&call.Call) {
							if t != f {
								continue
							}
							callers++
							c.check("map order", constructOf(g), true, call.Pos(), "")
							if f.Signature.Results().Len() == 1 {
								rs, _ := a.list(g, call, false, call.Pos(), nil, reporter(g))
								a.returned(g, rs, call.Pos(), reporter(g))
								continue
							}
							for _, u := range *call.Referrers() {
								if ex, ok := u.(*ssa.Extract); ok && a.returns[f][ex.Index] {
									rs, _ := a.list(g, ex, false, call.Pos(), nil, reporter(g))
									a.returned(g, rs, call.Pos(), reporter(g))
								}
							}
						}
					}
				}
			}
			c.check("map order", constructOf(f), callers > 0, f.Pos(), "%s returns a list in map order", fnName(f))
		}
	}
	c.check("map order", "coverage", nsrc >= 5, token.NoPos, "only %d functions visit a map", nsrc)
	c.note("%d functions visit maps, %d loops over elements in map order, %d lists filled in map order", nsrc, a.loops, a.lists)
}

// entries checks a loop over the entries of a reflected map: nothing that an
// iteration assigns is read by another.
func (a *orderAn) entries(f *ssa.Function, h *ssa.BasicBlock, bl map[*ssa.BasicBlock]bool, seeds []ssa.Value, report func(token.Pos, string, ...interface{})) {
	a.loops++
	if bl == nil {
		report(h.Instrs[0].Pos(), "one entry of a map is picked")
		return
	}
	r := &region{a: a, fn: f, blocks: bl, header: h, elem: map[ssa.Value]bool{}, carried: map[ssa.Value]bool{}, effects: map[*ssa.BasicBlock]bool{}, report: report}
	for _, s := range seeds {
		r.elem[s] = true
	}
	phis := map[ssa.Value]bool{}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis[p] = true
		}
	}
	var stores []*ssa.Store
	for b := range bl {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && !(addrBase(s.Addr) != nil && r.in(addrBase(s.Addr))) {
				stores = append(stores, s)
			}
		}
	}
	for b := range bl {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL {
					for _, s := range stores {
						if sameAddr(s.Addr, x.X) {
							report(x.Pos(), "an entry is read with what another entry has set")
						}
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Return:
				report(in.Pos(), "the entries of a map are used in map order")
			}
			var buf [12]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				if *o != nil && phis[*o] && !unusedArg(in, *o) {
					report(in.Pos(), "an entry is read with what another entry has set")
				}
			}
		}
	}
}

// unusedArg: the value is only handed to a function that does not look at it.
func unusedArg(in ssa.Instruction, v ssa.Value) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for i, a := range call.Call.Args {
		if a == v && (i >= len(f.Params) || len(*f.Params[i].Referrers()) > 0) {
			return false
		}
	}
	return true
}

// ---- random numbers

func (c *Ctx) randomSources() {
	sources := 0
	for _, f := range c.w.funcs {
		if !inRepoFn(f) || generated(c.w, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sel, ok := in.(*ssa.Select); ok && len(sel.States) > 1 {
					c.check("random numbers", constructOf(f), false, sel.Pos(), "a select chooses at random among its ready cases")
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				n := calleeName(com)
				switch {
				case n == "math/rand.NewSource" || n == "math/rand/v2.NewPCG":
					sources++
					for _, x := range com.Args {
						why := c.notSeed(x, 0, map[ssa.Value]bool{})
						c.check("random numbers", constructOf(f), why == "", in.Pos(), "a generator starts from %s", why)
					}
				case n == "math/rand.New" || strings.HasPrefix(n, "(*math/rand."):
				case strings.HasSuffix(n, ".init"):
				case strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "crypto/rand") || strings.HasPrefix(n, "hash/maphash") || strings.HasPrefix(n, "(*hash/maphash"):
					c.check("random numbers", constructOf(f), false, in.Pos(), "%s does not follow the configured seed", n)
				}
			}
		}
	}
	c.check("random numbers", "seeded generators", sources >= 1, token.NoPos, "no generator is made from a seed")
}

// notSeed: "" when v comes from settings only
func (c *Ctx) notSeed(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	if seen[v] || depth > 30 {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Alloc, *ssa.FieldAddr:
		if p, ok := v.(*ssa.Parameter); ok {
			for _, arg := range c.argsFor(p) {
				if w := c.notSeed(arg, depth+1, seen); w != "" {
					return w
				}
			}
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == v {
					if w := c.notSeed(s.Val, depth+1, seen); w != "" {
						return w
					}
				}
			}
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			k := fieldKey(fa.X.Type(), fa.Field)
			for _, s := range c.storesTo(k) {
				if w := c.notSeed(s, depth+1, seen); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Field:
		for _, s := range c.storesTo(fieldKey(x.X.Type(), x.Field)) {
			if w := c.notSeed(s, depth+1, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Call:
		n := calleeName(&x.Call)
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						if w := c.notSeed(res, depth+1, seen); w != "" {
							return w
						}
					}
				}
			}
			return ""
		}
		if strings.HasPrefix(n, "github.com/spf13/viper.Get") || strings.HasPrefix(n, "(*github.com/spf13/viper.Viper).Get") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "math.") {
			return ""
		}
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			return ""
		}
		if n == "" {
			n = "a call"
		}
		return n
	case ssa.Instruction:
		var buf [12]*ssa.Value
		for _, o := range x.Operands(buf[:0]) {
			if *o != nil {
				if w := c.notSeed(*o, depth+1, seen); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func (c *Ctx) argsFor(p *ssa.Parameter) []ssa.Value {
	var out []ssa.Value
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	for _, g := range c.w.funcs {
		if !inRepoFn(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if com.StaticCallee() == p.Parent() && idx < len(com.Args) {
					out = append(out, com.Args[idx])
				}
			}
		}
	}
	return out
}

func (c *Ctx) storesTo(field string) []ssa.Value {
	var out []ssa.Value
	for _, g := range c.w.funcs {
		if !inRepoFn(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == field {
						out = append(out, s.Val)
					}
				}
			}
		}
	}
	return out
}

// ---- clock

// clockAn follows what is computed from the time of day.
type clockAn struct {
	c     *Ctx
	seen  map[string]map[int]bool
	reads int
}

func isClock(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Hostname", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "runtime.ReadMemStats":
		return true
	}
	return false
}

func (c *Ctx) clock() {
	a := &clockAn{c: c, seen: map[string]map[int]bool{}}
	for _, f := range c.w.funcs {
		if inRepoFn(f) && !generated(c.w, f) && f.Parent() == nil {
			a.run(f, nil)
		}
	}
	c.check("clock", "coverage", a.reads >= 1, token.NoPos, "the clock is never read")
}

// run analyses fn with the given parameters read from the clock and returns
// the results that are.
func (a *clockAn) run(fn *ssa.Function, params []int) map[int]bool {
	key := fn.String()
	for _, p := range params {
		key += string(rune('a' + p))
	}
	if r, ok := a.seen[key]; ok {
		return r
	}
	res := map[int]bool{}
	a.seen[key] = res
	t := map[ssa.Value]bool{}
	for _, p := range params {
		t[fn.Params[p]] = true
	}
	con := constructOf(fn)
	var tainted []ssa.Value // local places
	ctl := map[*ssa.BasicBlock]bool{}
	read := false
	report := map[token.Pos]string{}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !t[v] {
				if os.Getenv("DBG") != "" {
					fmt.Println("CLOCK", fn.Name(), a.c.where(v.Pos()), v.Name(), v)
				}
				t[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var buf [12]*ssa.Value
				any := false
				for _, o := range in.Operands(buf[:0]) {
					any = any || *o != nil && t[*o]
				}
				switch x := in.(type) {
				case *ssa.Phi:
					if any {
						mark(x)
						break
					}
					for _, p := range fn.Blocks {
						if cond := lastCond(p); cond != nil && t[cond] && joins(x, p) {
							mark(x)
						}
					}
				case *ssa.If:
					if !t[x.Cond] {
						break
					}
					if os.Getenv("DBG") != "" {
						fmt.Println("CLOCK IF", a.c.where(x.Cond.Pos()), x.Cond, x.Cond.Name())
					}
					for _, d := range controlled(b) {
						if !ctl[d] {
							ctl[d] = true
							changed = true
						}
					}
				case *ssa.Store:
					if !t[x.Val] && !ctl[b] {
						break
					}
					if al := addrBase(x.Addr); al != nil && !escapesToHeap(al) {
						if t[x.Val] {
							if _, st, ok := repoStruct(al.Type().Underlying().(*types.Pointer).Elem()); ok && statText(st, x) {
								break // the elapsed time belongs to the run statistics
							}
						}
						dup := false
						for _, y := range tainted {
							dup = dup || y == ssa.Value(al)
						}
						if !dup {
							tainted = append(tainted, al)
							changed = true
							if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
								mark(al)
							}
						}
						break
					}
					if t[x.Val] {
						report[x.Pos()] = "the time of day is stored in " + placeName(x.Addr)
					} else {
						report[x.Pos()] = "whether " + placeName(x.Addr) + " is assigned depends on the time of day"
					}
				case *ssa.UnOp:
					if any {
						mark(x)
					}
					if x.Op == token.MUL {
						if al := addrBase(x.X); al != nil {
							for _, y := range tainted {
								if y == ssa.Value(al) {
									mark(x)
								}
							}
						}
					}
				case *ssa.MapUpdate:
					if any || ctl[b] {
						report[x.Pos()] = "a map entry depends on the time of day"
					}
				case *ssa.Send:
					if any || ctl[b] {
						report[x.Pos()] = "what is sent depends on the time of day"
					}
				case *ssa.Go, *ssa.Defer:
					if any || ctl[b] {
						report[in.Pos()] = "what is started depends on the time of day"
					}
				case *ssa.Return:
					for i, r := range x.Results {
						if t[r] && !res[i] {
							res[i] = true
							changed = true
						}
					}
					if ctl[b] && len(fn.Blocks) > 1 {
						for i := range x.Results {
							if !res[i] {
								res[i] = true
								changed = true
							}
						}
					}
				case *ssa.Call:
					n := calleeName(&x.Call)
					if isClock(n) {
						read = true
						mark(x)
						break
					}
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if any && bi.Name() != "len" && bi.Name() != "cap" {
							mark(x)
						}
						if ctl[b] && (bi.Name() == "delete" || bi.Name() == "close") {
							report[x.Pos()] = "a removal depends on the time of day"
						}
						break
					}
					repo := false
					for _, g := range a.c.w.callees(&x.Call) {
						if len(g.Blocks) == 0 || !inRepoFn(g) {
							continue
						}
						repo = true
						var ps []int
						if !x.Call.IsInvoke() {
							for i, arg := range x.Call.Args {
								if t[arg] && i < len(g.Params) {
									ps = append(ps, i)
								}
							}
						}
						for i := range a.run(g, ps) {
							if g.Signature.Results().Len() == 1 {
								mark(x)
							} else {
								for _, u := range *x.Referrers() {
									if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
										mark(ex)
									}
								}
							}
						}
						if ctl[b] {
							if m := a.c.w.rw(g); len(m.mod) > 0 || m.events {
								if bad := a.effect(g); bad != "" {
									report[x.Pos()] = "the time of day decides whether " + fnName(g) + " is called, which " + bad
								}
							}
						}
					}
					if repo {
						break
					}
					f := x.Call.StaticCallee()
					switch {
					case f != nil && (pureExternal(f) || ignoredExternal(f)), strings.HasPrefix(n, "(time."), strings.HasPrefix(n, "time."):
						if any {
							mark(x)
						}
					case quietCall(n):
					case n == "encoding/json.Marshal":
					case x.Call.IsInvoke() && strings.HasPrefix(n, "go.uber.org"):
					default:
						if any || ctl[b] {
							report[x.Pos()] = n + " depends on the time of day"
						}
					}
				default:
					if v, ok := in.(ssa.Value); ok && any {
						mark(v)
					}
				}
			}
		}
	}
	if read || len(params) > 0 {
		if read {
			a.reads++
		}
		a.c.extra = append(a.c.extra, fnName(fn))
		a.c.check("clock", con, true, fn.Pos(), "")
	}
	for p, m := range report {
		a.c.check("clock", con, false, p, "%s", m)
	}
	return res
}

// effect: what calling g changes, "" when it only logs
func (a *clockAn) effect(g *ssa.Function) string {
	m := a.c.w.rw(g)
	var ms []string
	for k := range m.mod {
		if strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "m:") || strings.HasPrefix(k, "g:") {
			ms = append(ms, k[2:])
		}
	}
	sort.Strings(ms)
	if len(ms) > 0 {
		return "changes " + ms[0]
	}
	if m.events {
		return "has effects outside"
	}
	return ""
}

func statText(st string, s *ssa.Store) bool {
	if st != "cache.SimulationStats" {
		return false
	}
	b, ok := s.Val.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func reachable(from []*ssa.BasicBlock, avoid map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] || avoid[x] {
			return
		}
		seen[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, x := range from {
		walk(x)
	}
	return seen
}

// controlled: the blocks that run or not depending on the branch at b
func controlled(b *ssa.BasicBlock) []*ssa.BasicBlock {
	post := map[*ssa.BasicBlock]bool{b: true}
	for _, x := range b.Parent().Blocks {
		if x == b {
			continue
		}
		out := true
		for y := range reachable(b.Succs, map[*ssa.BasicBlock]bool{x: true}) {
			if _, ok := y.Instrs[len(y.Instrs)-1].(*ssa.Return); ok {
				out = false
			}
		}
		if out {
			post[x] = true
		}
	}
	var out []*ssa.BasicBlock
	r := reachable(b.Succs, post)
	for _, x := range b.Parent().Blocks {
		if r[x] {
			out = append(out, x)
		}
	}
	return out
}

// joins: the values of p differ with the side taken at the branch b
func joins(p *ssa.Phi, b *ssa.BasicBlock) bool {
	r := map[*ssa.BasicBlock]bool{}
	for _, x := range controlled(b) {
		r[x] = true
	}
	var v ssa.Value
	for i, pr := range p.Block().Preds {
		if !r[pr] && pr != b {
			continue
		}
		if v != nil && v != p.Edges[i] {
			return true
		}
		v = p.Edges[i]
	}
	return false
}

func escapesToHeap(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return true
			}
		case *ssa.MakeClosure, *ssa.Return, *ssa.Send, *ssa.MapUpdate:
			return true
		}
	}
	return false
}
