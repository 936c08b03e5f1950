package main

import (
	"fmt"
	"go/token"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// clob records that every address of the given classes that is not in the
// entries may hold a value written by tag.
type clob struct {
	classes map[string]bool // nil means: only addresses that may alias at
	at      *Term
	tag     *Term
	only    *Term // nothing is forgotten: every entry of this map holds fill
	fill    *Term
	empty   bool // and has been deleted
}

// Mem maps addresses to values. Persistent by copy on write.
type Mem struct {
	ents  map[*Term]*Term
	clobs []clob
}

func (m *Mem) clone() *Mem {
	n := &Mem{ents: make(map[*Term]*Term, len(m.ents)+2), clobs: m.clobs[:len(m.clobs):len(m.clobs)]}
	for k, v := range m.ents {
		n.ents[k] = v
	}
	return n
}

// Event is an observable action of the analysed code.
type Event struct {
	kind string // call, invoke, send, recv, go, close, loop, sort, copy
	name string
	recv *Term
	args []*Term
	ret  *Term
	pos  token.Pos
	ctx  string
	loop *LoopInfo
}

func (e *Event) key() string {
	var sb strings.Builder
	sb.WriteString(e.kind + ":" + e.name)
	if e.recv != nil {
		fmt.Fprintf(&sb, "@%d", e.recv.id)
	}
	for _, a := range e.args {
		if a != nil {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	if e.loop != nil {
		sb.WriteString(e.loop.key())
	}
	return sb.String()
}

func (e *Event) String() string {
	var sb strings.Builder
	sb.WriteString(e.kind + " " + e.name)
	if e.recv != nil {
		sb.WriteString(" " + e.recv.String())
	}
	sb.WriteString("(")
	for i, a := range e.args {
		if i > 0 {
			sb.WriteString(", ")
		}
		if a == nil {
			sb.WriteString("_")
		} else {
			sb.WriteString(a.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// LoopInfo summarises one natural loop.
type LoopInfo struct {
	id    string
	pos   token.Pos
	k     *Term
	trip  *Term // number of iterations when left at the header, nil when unknown
	iters []*IterOut
	entry map[*Term]*Term  // address -> value before the loop, for written addresses
	enter map[string]*Term // loop variable -> value before the loop
}

// IterOut is one class of paths through one whole iteration.
type IterOut struct {
	facts  map[*Term]bool // facts that hold at the end of the iteration
	events []*Event
	start  map[*Term]*Term // address -> value at the start of the iteration
	writes map[*Term]*Term // address -> value at the end, for written addresses
	made   map[*Term]*Term // contents of the objects an iteration makes
	phis   map[string][2]*Term
}

func (l *LoopInfo) key() string {
	var ks []string
	for _, it := range l.iters {
		var sb strings.Builder
		for _, e := range it.events {
			sb.WriteString(e.key() + ";")
		}
		var ws []string
		for a, v := range it.writes {
			ws = append(ws, fmt.Sprintf("%d=%d", a.id, v.id))
		}
		sort.Strings(ws)
		sb.WriteString(strings.Join(ws, ","))
		ks = append(ks, sb.String())
	}
	sort.Strings(ks)
	return l.id + "{" + strings.Join(ks, "|") + "}"
}

// State is one abstract state: memory, facts and history of a class of paths.
type State struct {
	mem    *Mem
	shared bool // mem is shared with another state
	facts  map[*Term]bool
	fshare bool
	events []*Event
}

func newState() *State {
	return &State{mem: &Mem{ents: map[*Term]*Term{}}, facts: map[*Term]bool{}}
}

func (s *State) fork() *State {
	s.shared, s.fshare = true, true
	n := *s
	n.events = s.events[:len(s.events):len(s.events)]
	return &n
}

func (s *State) wmem() *Mem {
	if s.shared {
		s.mem = s.mem.clone()
		s.shared = false
	}
	return s.mem
}

func (s *State) setFact(a *Term, v bool) {
	for a.op == ONot {
		a, v = a.args[0], !v
	}
	if isConst(a) {
		return
	}
	if x, ok := s.facts[a]; ok && x == v {
		return
	}
	if s.fshare {
		n := make(map[*Term]bool, len(s.facts)+1)
		for k, x := range s.facts {
			n[k] = x
		}
		s.facts = n
		s.fshare = false
	}
	s.facts[a] = v
}

func (s *State) addEvent(e *Event) { s.events = append(s.events[:len(s.events):len(s.events)], e) }

// ------------------------------------------------------------------ classes

// classOf is the alias class of an address.
func classOf(a *Term) string {
	switch a.op {
	case OField:
		return "f:" + a.s
	case OIndex:
		return a.s
	case OMapAt, OMapIn, OLenAt:
		return a.s
	case OGlobal:
		return "g:" + a.s
	case OAlloc:
		return "a:" + a.s
	}
	return "p:" + a.String()
}

func rootOf(a *Term) *Term {
	for a != nil {
		switch a.op {
		case OField, OIndex, OMapAt, OMapIn, OLenAt:
			a = a.args[0]
		default:
			return a
		}
	}
	return a
}

// ptrMayAlias: can two pointer/map/slice values denote the same object?
func (u *U) ptrMayAlias(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OAlloc || b.op == OAlloc {
		// fresh objects are distinct from each other and from older ones
		if a.op == OAlloc && b.op == OAlloc {
			return a.s == b.s && !sameArgsDiffer(a, b)
		}
		return false
	}
	if isFreshSeq(a) || isFreshSeq(b) {
		return false
	}
	if isConst(a) || isConst(b) {
		return false
	}
	if s != nil {
		if v, ok := s.facts[u.EQ(a, b)]; ok && !v {
			return false
		}
	}
	switch {
	case a.op == OField && b.op == OField:
		return a.s == b.s && u.ptrMayAlias(s, a.args[0], b.args[0])
	case a.op == OIndex && b.op == OIndex:
		return u.mayAlias(s, a, b)
	case a.op == OGlobal && b.op == OGlobal:
		return false
	}
	return true
}

func isFreshSeq(a *Term) bool {
	return a.op == OSeq && allElems(a) || a.op == OCall && a.s == "make"
}

func sameArgsDiffer(a, b *Term) bool { return false }

func (u *U) diffConst(a, b *Term) (*big.Rat, bool) {
	if isNum(a) && isNum(b) || isNumeric(a) || isNumeric(b) || a.op == OSym || b.op == OSym {
		d := u.Sub(a, b)
		if isNum(d) {
			return d.rat, true
		}
	}
	return nil, false
}

// mayAlias: can two addresses of the same class be the same cell?
func (u *U) mayAlias(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return false
	}
	switch a.op {
	case OField:
		return a.s == b.s && u.ptrMayAlias(s, a.args[0], b.args[0])
	case OLenAt:
		return a.s == b.s && u.ptrMayAlias(s, a.args[0], b.args[0])
	case OIndex, OMapAt, OMapIn:
		if a.s != b.s || !u.ptrMayAlias(s, a.args[0], b.args[0]) {
			return false
		}
		if a.args[0] == b.args[0] {
			if isConst(a.args[1]) && isConst(b.args[1]) {
				return false
			}
			if d, ok := u.diffConst(a.args[1], b.args[1]); ok && d.Sign() != 0 {
				return false
			}
			if s != nil {
				if v, ok := s.facts[u.EQ(a.args[1], b.args[1])]; ok && !v {
					return false
				}
			}
		}
		return true
	case OGlobal:
		return a.s == b.s
	case OAlloc:
		return a.s == b.s
	}
	return u.ptrMayAlias(s, a, b)
}

// read the value held by an address.
func (u *U) read(s *State, a *Term) *Term {
	if v, ok := s.mem.ents[a]; ok {
		return v
	}
	// must alias through recorded equalities of pointers
	cl := classOf(a)
	for i := len(s.mem.clobs) - 1; i >= 0; i-- {
		c := s.mem.clobs[i]
		if c.only != nil {
			if a.op == OMapAt && a.args[0] == c.only && cl == classOf(c.at) {
				return c.fill
			}
			if a.op == OMapIn && a.args[0] == c.only && c.empty && cl[2:] == classOf(c.at)[1:] {
				return u.Bool(false)
			}
			continue
		}
		if c.classes != nil {
			if !c.classes[cl] {
				continue
			}
			if r := rootOf(a); r.op == OAlloc && c.at == r {
				continue
			}
			return u.Call("@", c.tag, a)
		}
		if classOf(c.at) == cl && u.mayAlias(s, c.at, a) {
			return u.Call("@", c.tag, a)
		}
	}
	return u.Init(a)
}

// write stores v and forgets what may alias the address.
func (u *U) write(s *State, a, v *Term) {
	m := s.wmem()
	cl := classOf(a)
	need := false
	for b := range m.ents {
		if b != a && classOf(b) == cl && u.mayAlias(s, a, b) {
			m.ents[b] = u.Call("@", u.Call("w", a, v), b)
			need = true
		}
	}
	_ = need
	m.ents[a] = v
	if r := rootOf(a); a.op != OAlloc && !(a.op == OGlobal) && r.op != OAlloc && (a.op == OField || a.op == OIndex || a.op == OMapAt || a.op == OMapIn || a.op == OLenAt) {
		m.clobs = append(m.clobs[:len(m.clobs):len(m.clobs)], clob{at: a, tag: u.Call("w", a, v)})
	} else if a.op == OIndex && !isNum(a.args[1]) || a.op == OMapAt || a.op == OMapIn {
		m.clobs = append(m.clobs[:len(m.clobs):len(m.clobs)], clob{at: a, tag: u.Call("w", a, v)})
	}
}

// clobber forgets every address of the given classes.
func (u *U) clobber(s *State, classes map[string]bool, tag *Term) {
	if len(classes) == 0 {
		return
	}
	m := s.wmem()
	for b := range m.ents {
		if classes[classOf(b)] {
			delete(m.ents, b)
		}
	}
	m.clobs = append(m.clobs[:len(m.clobs):len(m.clobs)], clob{classes: classes, tag: tag})
}

// ------------------------------------------------------------------ facts

// decide evaluates a boolean term in a state: 1 true, 0 false, -1 unknown.
func (u *U) decide(s *State, t *Term) int {
	neg := false
	for t.op == ONot {
		t, neg = t.args[0], !neg
	}
	r := u.decidePos(s.facts, t)
	if r >= 0 && neg {
		return 1 - r
	}
	return r
}

func (u *U) decidePos(facts map[*Term]bool, t *Term) int {
	if t.op == OConst {
		if t.b {
			return 1
		}
		return 0
	}
	if v, ok := facts[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.op {
	case OLT:
		// interval of the non constant part
		rest, c := u.splitConst(t.args[0]) // rest + c < 0
		return u.decideLT(facts, rest, c)
	case OEQ:
		if t.s == "n" {
			lo, los, hi, his := u.bounds(facts, t.args[0])
			v := t.args[1].rat
			if lo != nil && (v.Cmp(lo) < 0 || v.Cmp(lo) == 0 && los) {
				return 0
			}
			if hi != nil && (v.Cmp(hi) > 0 || v.Cmp(hi) == 0 && his) {
				return 0
			}
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Cmp(v) == 0 {
				return 1
			}
		}
		// x == c known for another constant
		for f, val := range facts {
			if !val || f.op != OEQ {
				continue
			}
			if f.s == "n" && t.s == "n" {
				if f.args[0] == t.args[0] && f.args[1] != t.args[1] {
					return 0
				}
				continue
			}
			var x, cst *Term
			if isConst(t.args[0]) {
				cst, x = t.args[0], t.args[1]
			} else if isConst(t.args[1]) {
				cst, x = t.args[1], t.args[0]
			} else {
				continue
			}
			for i := 0; i < 2; i++ {
				if f.args[i] == x && isConst(f.args[1-i]) && f.args[1-i] != cst {
					return 0
				}
			}
		}
	}
	return -1
}

// bounds of the polynomial rest implied by facts (lo<=rest<=hi, strict flags)
func (u *U) bounds(facts map[*Term]bool, rest *Term) (lo *big.Rat, los bool, hi *big.Rat, his bool) {
	setLo := func(v *big.Rat, s bool) {
		if lo == nil || v.Cmp(lo) > 0 || v.Cmp(lo) == 0 && s {
			lo, los = v, s
		}
	}
	setHi := func(v *big.Rat, s bool) {
		if hi == nil || v.Cmp(hi) < 0 || v.Cmp(hi) == 0 && s {
			hi, his = v, s
		}
	}
	if nonNeg(rest) {
		setLo(new(big.Rat), false)
	}
	neg := u.Neg(rest)
	for f, val := range facts {
		switch f.op {
		case OLT:
			r, c := u.splitConst(f.args[0])
			nc := new(big.Rat).Neg(c)
			if r == rest {
				if val { // rest < -c
					setHi(nc, true)
				} else {
					setLo(nc, false)
				}
			} else if r == neg {
				// -rest + c < 0  <=> rest > c
				if val {
					setLo(c, true)
				} else {
					setHi(c, false)
				}
			}
		case OEQ:
			if f.s == "n" && val {
				if f.args[0] == rest {
					setLo(f.args[1].rat, false)
					setHi(f.args[1].rat, false)
				} else if f.args[0] == neg {
					v := new(big.Rat).Neg(f.args[1].rat)
					setLo(v, false)
					setHi(v, false)
				}
			}
		}
	}
	return
}

func (u *U) decideLT(facts map[*Term]bool, rest *Term, c *big.Rat) int {
	lo, _, hi, his := u.bounds(facts, rest)
	nc := new(big.Rat).Neg(c) // rest < nc ?
	if hi != nil && (hi.Cmp(nc) < 0 || hi.Cmp(nc) == 0 && his) {
		return 1
	}
	if lo != nil && lo.Cmp(nc) >= 0 {
		return 0
	}
	return -1
}

func factsString(f map[*Term]bool) string {
	var ss []string
	for t, v := range f {
		if v {
			ss = append(ss, t.String())
		} else {
			ss = append(ss, "!("+t.String()+")")
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " & ")
}

func itoa(i int) string { return strconv.Itoa(i) }
