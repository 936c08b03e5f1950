package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) loop(fr *frame, fi *fnInfo, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in *FS) []edge {
	u := e.u
	if r, ok := e.unroll(fr, fi, header, body, in); ok {
		return r
	}
	id := fr.ctx + "/" + fr.fn.Name() + "." + itoa(header.Index)
	for _, x := range fr.ks {
		if isNum(x) {
			// an iteration of an unrolled loop around this one
			id += "#" + x.String()
		}
	}
	k := u.Sym("k:" + id)
	ks0, lks := fr.ks, e.loopKs
	e.loopKs = append(lks[:len(lks):len(lks)], k)
	fr.ks = append(fr.ks[:len(fr.ks):len(fr.ks)], k)
	defer func() { fr.ks, e.loopKs = ks0, lks }()

	var phis []*ssa.Phi
	initPhi := map[*ssa.Phi]*Term{}
	hyp := map[*ssa.Phi]*Term{}
	symOf := map[*ssa.Phi]*Term{}
	for _, x := range header.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		initPhi[p] = e.val(fr, in, p)
		symOf[p] = e.made(u.Sym("φ:" + id + ":" + p.Name()))
		hyp[p] = symOf[p]
	}
	memHyp := map[*Term]*Term{}
	memSym := map[*Term]*Term{}
	classes := map[string]bool{}
	local := map[*Term]bool{k: true}
	for _, s := range symOf {
		local[s] = true
	}
	dependsOnLoop := func(t *Term) bool {
		return contains(t, func(x *Term) bool {
			return local[x] || x.op == OSym && (strings.HasPrefix(x.s, "k:"+id) || strings.HasPrefix(x.s, "φ:"+id) || strings.HasPrefix(x.s, "μ:"+id))
		})
	}
	nEv := len(in.st.events)
	tag := u.Call("loop:"+id, append(append([]*Term{}, ks0...), k)...)

	start := func() *FS {
		f := in.fork()
		for _, p := range phis {
			f.set(p, hyp[p])
		}
		if len(classes) > 0 {
			cl := map[string]bool{}
			for c := range classes {
				cl[c] = true
			}
			e.clobberLocal(f.st, cl, tag, k)
		}
		// written addresses, in a fixed order
		for _, a := range sortedTerms(memHyp) {
			m := f.st.wmem()
			e.u.write(f.st, a, memHyp[a])
			_ = m
		}
		return f
	}
	outs0 := fr.outs
	run := func() (*FS, []*FS, []edge, []Out) {
		fr.outs = nil
		s := start()
		base := s.fork()
		l, x := e.region(fr, fi, body, header, []*FS{s}, true)
		o := fr.outs
		fr.outs = outs0
		return base, l, x, o
	}
	// A: what the body writes
	var base *FS
	var latches []*FS
	var exits []edge
	var outs []Out
	for round := 0; ; round++ {
		base, latches, exits, outs = run()
		grown := false
		for _, l := range latches {
			bm, lm := base.st.mem, l.st.mem
			if bm == lm {
				continue
			}
			for a, v := range lm.ents {
				if bv, ok := bm.ents[a]; ok && bv == v {
					continue
				}
				r := rootOf(a)
				if r.op == OAlloc && dependsOnLoop(r) {
					continue
				}
				if a.op == OIndex && isFreshSeq(a.args[0]) && dependsOnLoop(a.args[0]) {
					continue
				}
				if a.op == OIndex && a.args[0].op == OSeq && v == e.elemAt(a.args[0], a.args[1]) && bm.ents[a] == nil {
					// a list made in the iteration, with what it was made of
					continue
				}
				if v.op == OCall && v.s == "@" && v.args[1] == a && bm.ents[a] == nil {
					// only the record of a possible alias
					continue
				}
				if dependsOnLoop(a) {
					if !classes[classOf(a)] {
						classes[classOf(a)] = true
						grown = true
					}
					continue
				}
				if _, ok := memHyp[a]; !ok && !classes[classOf(a)] {
					s := e.made(u.Sym("μ:" + id + ":" + itoa(a.id)))
					e.symAddr[s] = a
					memHyp[a] = s
					memSym[a] = s
					local[s] = true
					grown = true
				}
			}
			for _, c := range lm.clobs[min(len(bm.clobs), len(lm.clobs)):] {
				if c.classes != nil {
					for cl := range c.classes {
						if !classes[cl] {
							classes[cl] = true
							grown = true
						}
					}
				}
			}
			// entries deleted by clobbers are covered by the classes
		}
		for a := range memHyp {
			if classes[classOf(a)] && e.classClobbered(latches, base, classOf(a)) {
				delete(memHyp, a)
				delete(memSym, a)
			}
		}
		if !grown || round > 10 {
			if grown {
				e.giveUp("loop %s: write set does not stabilise", id)
			}
			break
		}
	}
	if os.Getenv("DBG") != "" {
		fmt.Println("LOOP", id, classes)
	}
	// B: closed forms
	initOf := func(a *Term) *Term { return e.readAt(in.st, a) }
	pinned := map[*ssa.Phi]bool{}
	pinnedMem := map[*Term]bool{}
	for round := 0; round < 8; round++ {
		solved := false
		var done []*Term
		solve := func(sym, init *Term, latchVals []*Term, numeric bool, sums bool) *Term {
			if len(latchVals) == 0 {
				return init
			}
			v := latchVals[0]
			for _, x := range latchVals {
				if x != v {
					return nil
				}
			}
			if v == sym {
				return init
			}
			if v == init && !contains(v, func(x *Term) bool { return local[x] }) {
				return nil
			}
			unresolved := func(t *Term) bool {
				return contains(t, func(x *Term) bool { return x != k && (local[x] || e.variesWith(x, k)) })
			}
			if numeric {
				d := u.Sub(v, sym)
				if !unresolved(d) {
					if !contains(d, func(x *Term) bool { return x == k }) {
						return u.Add(init, u.Mul(d, k))
					}
					if sums {
						return u.Add(init, u.Sum(k, u.Bind(d, k)))
					}
				}
				return nil
			}
			if sums && v.op == OSeq && len(v.args) == 2 && v.args[0].op == OSpread && v.args[0].args[0] == sym && v.args[1].op == OElem && !unresolved(v.args[1]) {
				ms := u.mk(Term{op: OMapSeq, args: []*Term{k, u.Bind(v.args[1].args[0], k)}})
				return u.Seq(u.Spread(init), u.Spread(ms))
			}
			return nil
		}
		sums := round >= 1
		if g := e.ghostAddr(); e.ghost && memHyp[g] != nil && memHyp[g] == memSym[g] && round >= 1 {
			for _, p := range phis {
				if !isInt64Slice(p.Type()) || hyp[p] != symOf[p] || len(latches) == 0 {
					continue
				}
				all := true
				for _, l := range latches {
					d := u.Sub(u.Add(u.read(l.st, g), e.weightOf(l.st, l.env[p])), u.Add(memSym[g], e.weightOf(l.st, symOf[p])))
					if !isZero(e.simp(l.st.facts, d)) {
						all = false
					}
				}
				if all {
					memHyp[g] = u.Sub(u.Add(initOf(g), e.weightOf(in.st, initPhi[p])), e.weightOf(in.st, symOf[p]))
					done = append(done, memSym[g])
					solved = true
					pinned[p] = true
					break
				}
			}
			// the list can live in memory: a function literal adds to it
			for _, a := range sortedTerms(memHyp) {
				if memHyp[g] != memSym[g] || a.op != OAlloc || memHyp[a] != memSym[a] || len(latches) == 0 {
					continue
				}
				all, lists := true, false
				for _, l := range latches {
					v := u.read(l.st, a)
					if v.op == OSeq {
						lists = true
					} else if v.op != OSym {
						all = false
						break
					}
					d := u.Sub(u.Add(u.read(l.st, g), e.weightOf(l.st, v)), u.Add(memSym[g], e.weightOf(l.st, memSym[a])))
					if !isZero(e.simp(l.st.facts, d)) {
						all = false
					}
				}
				if all && lists {
					memHyp[g] = u.Sub(u.Add(initOf(g), e.weightOf(in.st, initOf(a))), e.weightOf(in.st, memSym[a]))
					done = append(done, memSym[g])
					solved = true
					pinnedMem[a] = true
					break
				}
			}
		}
		for _, p := range phis {
			if hyp[p] != symOf[p] || pinned[p] {
				continue
			}
			var vs []*Term
			for _, l := range latches {
				vs = append(vs, l.env[p])
			}
			num := isInt(p.Type()) || isFloat(p.Type())
			if s := solve(symOf[p], initPhi[p], vs, num, sums); s != nil {
				hyp[p] = s
				done = append(done, symOf[p])
				solved = true
			}
		}
		for _, a := range sortedTerms(memHyp) {
			if memHyp[a] != memSym[a] || pinnedMem[a] {
				continue
			}
			var vs []*Term
			init := initOf(a)
			for _, l := range latches {
				vs = append(vs, e.u.read(l.st, a))
			}
			num := false
			for _, v := range vs {
				if d := u.Sub(v, memSym[a]); (isNumeric(v) || isNumeric(d)) && v.op != OSeq {
					num = v.op != OConst || v.kind == 'n'
				}
			}
			for _, v := range vs {
				if v.op == OSeq || v.op == OConst && v.kind != 'n' {
					num = false
				}
			}
			if s := solve(memSym[a], init, vs, num, sums); s != nil {
				memHyp[a] = s
				done = append(done, memSym[a])
				solved = true
			}
		}
		for _, d := range done {
			delete(local, d)
		}
		if !solved && round >= 2 {
			break
		}
		if solved {
			base, latches, exits, outs = run()
		}
	}
	// C: summary
	li := &LoopInfo{id: id, pos: header.Instrs[0].Pos(), k: k, entry: map[*Term]*Term{}, enter: map[string]*Term{}}
	for _, l := range latches {
		it := &IterOut{facts: l.st.facts, events: l.st.events[nEv:], start: map[*Term]*Term{}, writes: map[*Term]*Term{}, made: map[*Term]*Term{}, phis: map[string][2]*Term{}}
		for a, v := range l.st.mem.ents {
			if bv, ok := base.st.mem.ents[a]; ok {
				if bv != v {
					it.start[a] = bv
					it.writes[a] = v
				}
			} else if r := rootOf(a); !(r.op == OAlloc && dependsOnLoop(r)) {
				if v.op == OCall && v.s == "@" && v.args[1] == a || a.op == OIndex && a.args[0].op == OSeq && v == e.elemAt(a.args[0], a.args[1]) {
					continue
				}
				it.start[a] = e.u.read(base.st, a)
				it.writes[a] = v
			} else {
				it.made[a] = v
			}
		}
		for a := range it.writes {
			if _, ok := li.entry[a]; !ok && !dependsOnLoop(a) {
				li.entry[a] = e.u.read(in.st, a)
			}
		}
		for _, p := range phis {
			li.enter[p.Name()] = initPhi[p]
			it.phis[p.Name()] = [2]*Term{base.env[p], l.env[p]}
		}
		li.iters = append(li.iters, it)
	}
	ev := &Event{kind: "loop", name: "loop", loop: li, pos: li.pos, ctx: fr.ctx}
	insert := func(s *State) {
		if len(li.iters) == 0 {
			return
		}
		keep := e.keepEv == nil || e.keepEv(ev)
		if !keep {
			return
		}
		n := make([]*Event, 0, len(s.events)+1)
		n = append(n, s.events[:nEv]...)
		n = append(n, ev)
		n = append(n, s.events[nEv:]...)
		s.events = n
	}
	for i := range outs {
		insert(outs[i].st)
	}
	fr.outs = append(outs0, outs...)
	var res []edge
	for _, x := range exits {
		if x.from == header {
			if n := e.tripCount(x.fs.st, in.st, k); n != nil {
				li.trip = n
				m, v := e.filled(li)
				e.substFS(x.fs, k, n, in)
				if m != nil {
					e.forAll(x.fs.st, li, m, v)
				}
			}
		}
		insert(x.fs.st)
		res = append(res, x)
	}
	return res
}

// filled tells that a walk over a whole map leaves the zero value in each of
// its entries: an entry of the map, and the value.
func (e *Engine) filled(l *LoopInfo) (*Term, *Term) {
	var m, v *Term
	for _, it := range l.iters {
		n := 0
		for a, w := range it.writes {
			if a.op != OMapAt {
				continue
			}
			key := a.args[1]
			if key.op != OCall || key.s != "rkey" || key.args[0] != a.args[0] || key.args[1] != l.k || !isZero(w) || m != nil && (m.args[0] != a.args[0] || m.s != a.s) {
				return nil, nil
			}
			m, v = a, w
			n++
		}
		if n != 1 {
			return nil, nil
		}
	}
	if m == nil || l.trip == nil || l.trip.op != OInit && (l.trip.op != OCall || l.trip.s != "@") || !contains(l.trip, func(x *Term) bool { return x.op == OLenAt && x.args[0] == m.args[0] }) {
		return nil, nil
	}
	return m, v
}

// forAll records what a walk over a whole map did to each entry.
func (e *Engine) forAll(s *State, li *LoopInfo, m, v *Term) {
	u := e.u
	gone := u.mk(Term{op: OMapIn, s: "mi" + m.s[1:], args: m.args})
	c := clob{at: m, only: m.args[0], fill: v, empty: deletesAll(li, gone), tag: u.Call("all", m, v)}
	w := s.wmem()
	for a := range w.ents {
		if a.op == OMapAt && a.args[0] == c.only && a.s == m.s || a.op == OMapIn && a.args[0] == c.only && a.s == gone.s && c.empty {
			delete(w.ents, a)
		}
	}
	w.clobs = append(w.clobs[:len(w.clobs):len(w.clobs)], c)
	if c.empty {
		u.write(s, u.mk(Term{op: OLenAt, s: "ml" + m.s[1:], args: m.args[:1]}), u.Int(0))
	}
}

// deletesAll: every iteration takes the entry away.
func deletesAll(l *LoopInfo, in *Term) bool {
	for _, it := range l.iters {
		if v := it.writes[in]; v == nil || v.op != OConst || v.b {
			return false
		}
	}
	return true
}

func (e *Engine) classClobbered(latches []*FS, base *FS, c string) bool {
	for _, l := range latches {
		bm, lm := base.st.mem, l.st.mem
		for _, x := range lm.clobs[min(len(bm.clobs), len(lm.clobs)):] {
			if x.classes != nil && x.classes[c] {
				return true
			}
		}
	}
	return false
}

// clobberLocal is clobber, but objects created before are only spared when they cannot be reached.
func (e *Engine) clobberLocal(s *State, cl map[string]bool, tag, k *Term) {
	e.u.clobber(s, cl, tag)
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// tripCount: number of iterations implied by leaving the loop at its header.
func (e *Engine) tripCount(s, before *State, k *Term) *Term {
	u := e.u
	for f, v := range s.facts {
		if _, old := before.facts[f]; old {
			continue
		}
		var p *Term
		switch {
		case f.op == OLT:
			p = f.args[0]
			if c, rest, ok := e.linear(p, k); ok {
				if c == 1 && !v { // !(k+rest<0): k >= -rest
					return u.Neg(rest)
				}
				if c == -1 && v { // rest-k<0: k>rest; first such k is rest+1
					return u.Add(rest, u.Int(1))
				}
			}
		case f.op == OEQ && f.s == "n" && v:
			p = u.Sub(f.args[0], f.args[1])
			if c, rest, ok := e.linear(p, k); ok {
				if c == 1 {
					return u.Neg(rest)
				}
				return rest
			}
		}
	}
	return nil
}

// linear splits p = c*k + rest with c = ±1 and rest free of k.
func (e *Engine) linear(p, k *Term) (int, *Term, bool) {
	c := 0
	var rest []mono
	for _, m := range e.u.monos(p) {
		if len(m.vars) == 1 && m.vars[0].t == k && m.vars[0].e == 1 {
			switch m.coef.RatString() {
			case "1":
				c = 1
			case "-1":
				c = -1
			default:
				return 0, nil, false
			}
			continue
		}
		rest = append(rest, m)
	}
	if c == 0 {
		return 0, nil, false
	}
	r := e.u.fromMonos(rest)
	if contains(r, func(x *Term) bool { return x == k }) {
		return 0, nil, false
	}
	return c, r, true
}

func (e *Engine) substFS(f *FS, k, n *Term, before *FS) {
	u := e.u
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		return u.rewrite(t, func(x *Term) *Term {
			if x == k {
				return n
			}
			return nil
		}, memo)
	}
	env := make(map[ssa.Value]*Term, len(f.env))
	for v, t := range f.env {
		env[v] = sub(t)
	}
	f.env, f.eshare = env, false
	nm := &Mem{ents: make(map[*Term]*Term, len(f.st.mem.ents))}
	for a, v := range f.st.mem.ents {
		nm.ents[sub(a)] = sub(v)
	}
	for _, c := range f.st.mem.clobs {
		c.tag = sub(c.tag)
		if c.at != nil {
			c.at = sub(c.at)
		}
		if c.only != nil {
			c.only, c.fill = sub(c.only), sub(c.fill)
		}
		nm.clobs = append(nm.clobs, c)
	}
	f.st.mem, f.st.shared = nm, false
	nf := map[*Term]bool{}
	for t, v := range f.st.facts {
		s := sub(t)
		for s.op == ONot {
			s, v = s.args[0], !v
		}
		if !isConst(s) {
			nf[s] = v
		}
	}
	f.st.facts, f.st.fshare = nf, false
}

var _ = fmt.Sprint

// unroll walks a loop whose number of iterations the state determines.
func (e *Engine) unroll(fr *frame, fi *fnInfo, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, in *FS) ([]edge, bool) {
	if e.noUnroll {
		return nil, false
	}
	ks0, outs0 := fr.ks, fr.outs
	defer func() { fr.ks = ks0 }()
	if _, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If); !ok {
		// A loop left from its middle: every branch has to be decided.
		cur := in.fork()
		for i := 0; i < e.unrollMax; i++ {
			fr.ks = append(ks0[:len(ks0):len(ks0)], e.u.Int(int64(i)))
			l, x := e.region(fr, fi, body, header, []*FS{cur}, true)
			if len(l)+len(x) != 1 {
				break
			}
			if len(x) == 1 {
				return x, true
			}
			cur = l[0]
		}
		fr.outs = outs0
		return nil, false
	}
	// stays is true when the header leads into the body, false when out of the loop.
	stays := func(f *FS) (bool, bool) {
		es := e.block(fr, header, f.fork())
		if len(es) != 1 {
			return false, false
		}
		return body[es[0].to], true
	}
	cur := []*FS{in.fork()}
	var exits []edge
	for i := 0; len(cur) > 0; i++ {
		if i > max(12, e.unrollLists) {
			fr.outs = outs0
			return nil, false
		}
		fr.ks = append(ks0[:len(ks0):len(ks0)], e.u.Int(int64(i)))
		for _, f := range cur {
			if in, ok := stays(f); !ok || i == 0 && !in {
				fr.outs = outs0
				return nil, false
			}
		}
		l, x := e.region(fr, fi, body, header, cur, true)
		exits = append(exits, x...)
		cur = nil
		if len(l) > 0 {
			cur = e.mergeFS(header, fi, l, fr.ctx+"/"+fr.fn.Name()+".", fr.ctx+"/"+fr.fn.Name()+"."+itoa(header.Index)+"."+itoa(i))
		}
	}
	return exits, true
}
