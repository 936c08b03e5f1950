package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The occupancy ghost is the accounted size of a cache minus the sizes of the
// files that its queue was told to hold. It is kept like a memory cell, so that
// the loop machinery proves that a loop leaves it as it was.

func (e *Engine) ghostAddr() *Term { return e.u.Field(e.u.Sym("&ghost"), "ghost.occ") }

func isInt64Slice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

func (e *Engine) ghostEvent(s *State, ev *Event) {
	if ev.kind != "invoke" {
		return
	}
	u := e.u
	g := e.ghostAddr()
	switch ev.name {
	case "queue.Queue.insert":
		u.write(s, g, u.Sub(u.read(s, g), e.readAt(s, u.Field(e.strip(ev.args[0]), "files.Stats.Size"))))
	case "queue.Queue.removeWorst", "queue.Queue.remove":
		u.write(s, g, u.Add(u.read(s, g), e.weightOf(s, e.strip(ev.args[0]))))
	case "queue.Queue.init":
		// the queue is empty now
		u.write(s, g, u.Sub(u.Init(u.Sym("&size")), u.Init(u.Sym("&size"))))
		for a, v := range s.mem.ents {
			if a.op == OField && a.s == "cache.SimpleCache.size" {
				u.write(s, g, v)
				return
			}
		}
		u.write(s, g, u.Init(u.Field(u.Sym("&c"), "cache.SimpleCache.size")))
	}
}

// weightOf is the total size of the files named in a list.
func (e *Engine) weightOf(s *State, t *Term) *Term {
	u := e.u
	switch t.op {
	case OSeq:
		r := u.Int(0)
		for _, p := range t.args {
			switch p.op {
			case OElem:
				r = u.Add(r, e.sizeOfName(s, p.args[0]))
			case OSpread:
				r = u.Add(r, e.weightOf(s, p.args[0]))
			default:
				r = u.Add(r, u.Call("w", p))
			}
		}
		return r
	case OMapSeq:
		return u.Sum(t.args[0], e.sizeOfName(s, t.args[1]))
	case OConst:
		return u.Int(0)
	}
	return u.Call("w", t)
}

// sizeOfName is the size of the file whose statistics hold this name.
func (e *Engine) sizeOfName(s *State, n *Term) *Term {
	u := e.u
	if n.op == OInit && n.args[0].op == OField && n.args[0].s == "files.Stats.Filename" {
		return e.readAt(s, u.Field(n.args[0].args[0], "files.Stats.Size"))
	}
	return u.Call("sizeOf", n)
}

// reaches reports whether fn may call, directly or not, something in the set.
func (w *World) reaches(fn *ssa.Function, hit func(com *ssa.CallCommon, callee *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if com.IsInvoke() {
					if hit(com, nil) {
						return true
					}
					continue
				}
				for _, t := range w.callees(com) {
					if hit(com, t) {
						return true
					}
					if inRepoFn(t) && walk(t) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

func inRepoFn(f *ssa.Function) bool { return f != nil && f.Pkg != nil && inRepoPkg(f.Pkg.Pkg) }
