package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the operator of a Term.
type Op int

const (
	OConst   Op = iota // s: canonical text; rat/str/bool payload
	OSym               // free symbol s
	OField             // address: args[0].s
	OIndex             // address: args[0][args[1]]
	OMapAt             // address: map args[0] key args[1] (value)
	OMapIn             // address: map args[0] key args[1] (presence)
	OLenAt             // address: number of entries of map args[0]
	OGlobal            // address of package variable s
	OAlloc             // address of an object created in this execution, s unique
	OInit              // value held by address args[0] before the analysed code ran
	OPoly              // polynomial, poly field
	OLT                // boolean: args[0] < 0
	OEQ                // boolean: args[0] == args[1]
	ONot               // boolean negation
	OCall              // pure function s of args
	OSeq               // sequence: args are OElem/OSpread
	OElem              // element of a sequence literal
	OSpread            // spread of a sequence in a sequence
	OMapSeq            // sequence of args[0] entries, entry number β is args[1]
	OSum               // sum for β in 0..args[0]-1 of args[1]
	OStruct            // struct value: s type, args in field order
	OTuple             // multi value
	OClosure           // function value fn with bindings args
	OLen               // length of sequence value args[0]
	OSlice             // args[0][args[1]:args[2]] (args[2] may be nil term)
	OCat               // string concatenation
)

// Term is a hash-consed symbolic value.
type Term struct {
	id     int
	op     Op
	s      string
	args   []*Term
	rat    *big.Rat // numeric constants
	b      bool     // bool constants
	kind   byte     // for constants: 'n' number, 's' string, 'b' bool, '0' nil
	poly   []mono
	fn     *ssa.Function
	typ    types.Type // informative: concrete type when known
	beta   int        // 1 + highest bound variable index inside, 0 if none
	allocs []*Term    // allocations mentioned inside
}

type mono struct {
	coef *big.Rat
	vars []pow
}

type pow struct {
	t *Term
	e int
}

// U is the universe of terms of one analysis.
type U struct {
	tab  map[string]*Term
	list []*Term
}

var ratHalf, ratMinusHalf = big.NewRat(1, 2), big.NewRat(-1, 2)

func newU() *U { return &U{tab: map[string]*Term{}} }

func (u *U) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.op)))
	sb.WriteByte('|')
	sb.WriteString(t.s)
	sb.WriteByte('|')
	if t.op == OConst {
		sb.WriteByte(t.kind)
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('-')
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	for _, m := range t.poly {
		sb.WriteByte('+')
		sb.WriteString(m.coef.RatString())
		for _, p := range m.vars {
			fmt.Fprintf(&sb, "*%d^%d", p.t.id, p.e)
		}
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "@%p", t.fn)
	}
	k := sb.String()
	if x, ok := u.tab[k]; ok {
		return x
	}
	x := new(Term)
	*x = t
	x.id = len(u.list) + 1
	for _, a := range t.args {
		if a != nil && a.beta > x.beta {
			x.beta = a.beta
		}
	}
	for _, m := range t.poly {
		for _, p := range m.vars {
			if p.t.beta > x.beta {
				x.beta = p.t.beta
			}
		}
	}
	add := func(a *Term) {
		if a == nil {
			return
		}
	next:
		for _, y := range a.allocs {
			for _, z := range x.allocs {
				if z == y {
					continue next
				}
			}
			x.allocs = append(x.allocs, y)
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.poly {
		for _, p := range m.vars {
			add(p.t)
		}
	}
	if t.op == OAlloc {
		add(&Term{allocs: []*Term{x}})
	}
	if t.op == OSym && strings.HasPrefix(t.s, "β") {
		n, _ := strconv.Atoi(t.s[len("β"):])
		x.beta = n + 1
	}
	if t.op == OSum || t.op == OMapSeq {
		// the bound variable is the highest one in the body
		x.beta = t.args[0].beta
		if b := t.args[1].beta - 1; b > x.beta {
			x.beta = b
		}
	}
	u.tab[k] = x
	u.list = append(u.list, x)
	return x
}

func (u *U) Sym(s string) *Term { return u.mk(Term{op: OSym, s: s}) }
func (u *U) Num(r *big.Rat) *Term {
	return u.mk(Term{op: OConst, kind: 'n', s: r.RatString(), rat: r})
}
func (u *U) Int(i int64) *Term   { return u.Num(new(big.Rat).SetInt64(i)) }
func (u *U) Flt(f float64) *Term { r := new(big.Rat); r.SetFloat64(f); return u.Num(r) }
func (u *U) Str(s string) *Term  { return u.mk(Term{op: OConst, kind: 's', s: s}) }
func (u *U) Bool(b bool) *Term {
	return u.mk(Term{op: OConst, kind: 'b', s: strconv.FormatBool(b), b: b})
}
func (u *U) Nil() *Term                      { return u.mk(Term{op: OConst, kind: '0', s: "nil"}) }
func (u *U) Field(b *Term, f string) *Term   { return u.mk(Term{op: OField, s: f, args: []*Term{b}}) }
func (u *U) Init(a *Term) *Term              { return u.mk(Term{op: OInit, args: []*Term{a}}) }
func (u *U) Call(n string, a ...*Term) *Term { return u.mk(Term{op: OCall, s: n, args: a}) }
func (u *U) Tuple(a ...*Term) *Term          { return u.mk(Term{op: OTuple, args: a}) }

// Index is the address of element i of b; s is the class of the element.
func (u *U) Index(b, i *Term, s string) *Term {
	if b.op == OSlice {
		lo := b.args[1]
		if lo == nil {
			return u.Index(b.args[0], i, s)
		}
		return u.Index(b.args[0], u.Add(lo, i), s)
	}
	return u.mk(Term{op: OIndex, s: s, args: []*Term{b, i}})
}

// SliceOp is x[lo:hi]
func (u *U) SliceOp(x, lo, hi *Term) *Term {
	if lo != nil && isZero(lo) {
		lo = nil
	}
	if hi != nil && isZero(hi) {
		return u.Seq()
	}
	if x.op == OSeq && lo == nil && hi == nil {
		return x
	}
	if x.op == OSeq && allElems(x) {
		l, h := int64(0), int64(len(x.args))
		ok := true
		if lo != nil {
			if lo.op == OConst && lo.rat.IsInt() {
				l = lo.rat.Num().Int64()
			} else {
				ok = false
			}
		}
		if hi != nil {
			if hi.op == OConst && hi.rat.IsInt() {
				h = hi.rat.Num().Int64()
			} else {
				ok = false
			}
		}
		if ok && l >= 0 && l <= h && h <= int64(len(x.args)) {
			return u.Seq(x.args[l:h]...)
		}
	}
	if hi != nil && hi == u.Len(x) {
		hi = nil
	}
	if x.op == OSlice {
		base, lo0, hi0 := x.args[0], x.args[1], x.args[2]
		nlo := lo
		if lo0 != nil {
			if lo == nil {
				nlo = lo0
			} else {
				nlo = u.Add(lo0, lo)
			}
		}
		nhi := hi0
		if hi != nil {
			nhi = hi
			if lo0 != nil {
				nhi = u.Add(lo0, hi)
			}
		}
		return u.SliceOp(base, nlo, nhi)
	}
	if lo == nil && hi == nil {
		return x
	}
	return u.mk(Term{op: OSlice, args: []*Term{x, lo, hi}})
}

func allElems(x *Term) bool {
	for _, a := range x.args {
		if a.op != OElem {
			return false
		}
	}
	return true
}

// Seq builds a sequence from OElem/OSpread parts, flattening.
func (u *U) Seq(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OSpread && p.args[0].op == OSeq {
			out = append(out, p.args[0].args...)
			continue
		}
		if p.op == OSpread && p.args[0].op == OConst && p.args[0].kind == '0' {
			continue
		}
		out = append(out, p)
	}
	if len(out) == 1 && out[0].op == OSpread {
		return out[0].args[0]
	}
	return u.mk(Term{op: OSeq, args: out})
}
func (u *U) Elem(x *Term) *Term   { return u.mk(Term{op: OElem, args: []*Term{x}}) }
func (u *U) Spread(x *Term) *Term { return u.mk(Term{op: OSpread, args: []*Term{x}}) }

func (u *U) Len(x *Term) *Term {
	switch x.op {
	case OSeq:
		tot := u.Int(0)
		for _, p := range x.args {
			if p.op == OElem {
				tot = u.Add(tot, u.Int(1))
			} else {
				tot = u.Add(tot, u.Len(p.args[0]))
			}
		}
		return tot
	case OMapSeq:
		return x.args[0]
	case OConst:
		if x.kind == 's' {
			return u.Int(int64(len(x.s)))
		}
		if x.kind == '0' {
			return u.Int(0)
		}
	case OSlice:
		hi := x.args[2]
		if hi == nil {
			hi = u.Len(x.args[0])
		}
		if x.args[1] == nil {
			return hi
		}
		return u.Sub(hi, x.args[1])
	case OCall:
		if x.s == "make" {
			return x.args[1]
		}
	}
	return u.mk(Term{op: OLen, args: []*Term{x}})
}

func (u *U) Cat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.op == OCat {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range parts {
		if p.op == OConst && p.kind == 's' {
			if p.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == OConst && out[n-1].kind == 's' {
				out[n-1] = u.Str(out[n-1].s + p.s)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return u.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return u.mk(Term{op: OCat, args: out})
}

// ---------------------------------------------------------------- arithmetic

func isZero(t *Term) bool {
	return t.op == OConst && t.kind == 'n' && t.rat.Sign() == 0
}
func isNum(t *Term) bool { return t != nil && t.op == OConst && t.kind == 'n' }

func (u *U) monos(t *Term) []mono {
	switch {
	case t.op == OPoly:
		return t.poly
	case isNum(t):
		if t.rat.Sign() == 0 {
			return nil
		}
		return []mono{{coef: t.rat}}
	}
	return []mono{{coef: big.NewRat(1, 1), vars: []pow{{t, 1}}}}
}

func monoKey(v []pow) string {
	var sb strings.Builder
	for _, p := range v {
		fmt.Fprintf(&sb, "%d^%d*", p.t.id, p.e)
	}
	return sb.String()
}

func (u *U) fromMonos(ms []mono) *Term {
	acc := map[string]*mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m.vars)
		if x, ok := acc[k]; ok {
			x.coef = new(big.Rat).Add(x.coef, m.coef)
		} else {
			c := m
			acc[k] = &c
			keys = append(keys, k)
		}
	}
	var out []mono
	for _, k := range keys {
		if acc[k].coef.Sign() != 0 {
			out = append(out, *acc[k])
		}
	}
	if len(out) == 0 {
		return u.Num(new(big.Rat))
	}
	sort.Slice(out, func(i, j int) bool { return monoLess(out[i].vars, out[j].vars) })
	if len(out) == 1 {
		m := out[0]
		if len(m.vars) == 0 {
			return u.Num(m.coef)
		}
		if len(m.vars) == 1 && m.vars[0].e == 1 && m.coef.Cmp(big.NewRat(1, 1)) == 0 {
			return m.vars[0].t
		}
	}
	return u.mk(Term{op: OPoly, poly: out})
}

func monoLess(a, b []pow) bool {
	// constants last
	if len(a) == 0 || len(b) == 0 {
		return len(a) > len(b)
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].t.id != b[i].t.id {
			return a[i].t.id < b[i].t.id
		}
		if a[i].e != b[i].e {
			return a[i].e < b[i].e
		}
	}
	return len(a) > len(b)
}

func (u *U) Add(a, b *Term) *Term {
	return u.fromMonos(append(append([]mono{}, u.monos(a)...), u.monos(b)...))
}
func (u *U) Scale(a *Term, c *big.Rat) *Term {
	var out []mono
	for _, m := range u.monos(a) {
		out = append(out, mono{new(big.Rat).Mul(m.coef, c), m.vars})
	}
	return u.fromMonos(out)
}
func (u *U) Neg(a *Term) *Term    { return u.Scale(a, big.NewRat(-1, 1)) }
func (u *U) Sub(a, b *Term) *Term { return u.Add(a, u.Neg(b)) }
func (u *U) Mul(a, b *Term) *Term {
	var out []mono
	for _, x := range u.monos(a) {
		for _, y := range u.monos(b) {
			e := map[*Term]int{}
			for _, p := range x.vars {
				e[p.t] += p.e
			}
			for _, p := range y.vars {
				e[p.t] += p.e
			}
			var vs []pow
			for t, n := range e {
				if n != 0 {
					vs = append(vs, pow{t, n})
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].t.id < vs[j].t.id })
			out = append(out, mono{new(big.Rat).Mul(x.coef, y.coef), vs})
		}
	}
	return u.fromMonos(out)
}
func (u *U) Div(a, b *Term) *Term {
	if isNum(b) && b.rat.Sign() != 0 {
		return u.Scale(a, new(big.Rat).Inv(b.rat))
	}
	ms := u.monos(b)
	if len(ms) == 1 {
		var vs []pow
		for _, p := range ms[0].vars {
			vs = append(vs, pow{p.t, -p.e})
		}
		inv := u.fromMonos([]mono{{new(big.Rat).Inv(ms[0].coef), vs}})
		return u.Mul(a, inv)
	}
	if len(ms) == 0 {
		return u.Call("div0", a)
	}
	c := ms[0].coef
	nb := u.Scale(b, new(big.Rat).Inv(c))
	if a == b {
		return u.Int(1)
	}
	inv := u.mk(Term{op: OPoly, poly: []mono{{new(big.Rat).Inv(c), []pow{{nb, -1}}}}})
	return u.Mul(a, inv)
}

// constant part of a polynomial and the rest
func (u *U) splitConst(p *Term) (*Term, *big.Rat) {
	c := new(big.Rat)
	var rest []mono
	for _, m := range u.monos(p) {
		if len(m.vars) == 0 {
			c = m.coef
		} else {
			rest = append(rest, m)
		}
	}
	return u.fromMonos(rest), c
}

// ---------------------------------------------------------------- booleans

func (u *U) Not(t *Term) *Term {
	if t.op == ONot {
		return t.args[0]
	}
	if t.op == OConst && t.kind == 'b' {
		return u.Bool(!t.b)
	}
	return u.mk(Term{op: ONot, args: []*Term{t}})
}

// LT is p < 0. integer selects the integer canonical form.
func (u *U) LT(p *Term, integer bool) *Term {
	if isNum(p) {
		return u.Bool(p.rat.Sign() < 0)
	}
	ms := u.monos(p)
	lead := ms[0].coef
	abs := new(big.Rat).Abs(lead)
	if abs.Cmp(big.NewRat(1, 1)) != 0 {
		allInt := true
		if integer {
			for _, m := range ms {
				if !new(big.Rat).Quo(m.coef, abs).IsInt() {
					allInt = false
				}
			}
		}
		if allInt {
			return u.LT(u.Scale(p, new(big.Rat).Inv(abs)), integer)
		}
	}
	if integer {
		if lead.Sign() < 0 {
			// p<0  <=>  !(-p-1<0)
			return u.Not(u.LT(u.Sub(u.Neg(p), u.Int(1)), true))
		}
		rest, c := u.splitConst(p)
		nn := nonNeg(rest)
		if nn && c.Sign() >= 0 {
			return u.Bool(false) // rest+c >= 0
		}
		if nn && c.Cmp(big.NewRat(-1, 1)) == 0 {
			return u.EQ(rest, u.Int(0)) // rest < 1
		}
	}
	return u.mk(Term{op: OLT, args: []*Term{p}})
}

// nonNeg: certainly >= 0
func nonNeg(t *Term) bool {
	switch t.op {
	case OLen:
		return true
	case OSym:
		return strings.HasPrefix(t.s, "k:") || strings.HasPrefix(t.s, "β")
	case OInit:
		return t.args[0].op == OLenAt
	case OConst:
		return t.kind == 'n' && t.rat.Sign() >= 0
	case OPoly:
		for _, m := range t.poly {
			if m.coef.Sign() < 0 {
				return false
			}
			for _, p := range m.vars {
				if p.e < 0 || !nonNeg(p.t) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func isConst(t *Term) bool { return t.op == OConst }

func (u *U) EQ(a, b *Term) *Term {
	if a == b {
		return u.Bool(true)
	}
	if isConst(a) && isConst(b) {
		return u.Bool(false)
	}
	// booleans
	if a.op == OConst && a.kind == 'b' {
		a, b = b, a
	}
	if b.op == OConst && b.kind == 'b' {
		if b.b {
			return a
		}
		return u.Not(a)
	}
	if b.op == OConst && b.kind == '0' {
		a, b = b, a
	}
	if a.op == OConst && a.kind == '0' {
		if definitelyNonNil(b) {
			return u.Bool(false)
		}
		if b.op == OSeq && len(b.args) == 0 {
			return u.Call("isnilseq", b)
		}
	}
	if isNumeric(a) || isNumeric(b) {
		p := u.Sub(a, b)
		if isNum(p) {
			return u.Bool(p.rat.Sign() == 0)
		}
		ms := u.monos(p)
		if len(ms) >= 1 && ms[0].coef.Cmp(big.NewRat(1, 1)) != 0 {
			p = u.Scale(p, new(big.Rat).Inv(ms[0].coef))
		}
		rest, c := u.splitConst(p)
		return u.mk(Term{op: OEQ, args: []*Term{rest, u.Num(new(big.Rat).Neg(c))}, s: "n"})
	}
	if a.op == OAlloc && b.op == OAlloc {
		return u.Bool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return u.mk(Term{op: OEQ, args: []*Term{a, b}})
}

func isNumeric(t *Term) bool {
	return isNum(t) || t.op == OPoly || t.op == OLen || t.op == OSum
}

func definitelyNonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OClosure, OField, OIndex:
		return true
	case OSym:
		return strings.HasPrefix(t.s, "&")
	case OSeq:
		return len(t.args) > 0 && t.args[0].op == OElem
	case OCall:
		if strings.HasPrefix(t.s, "iface:") {
			return true
		}
		switch t.s {
		case "fmt.Errorf", "errors.New", "make", "(error)":
			return true
		}
	case OStruct:
		return true
	}
	return false
}

// ---------------------------------------------------------------- rewriting

// Rewrite applies f bottom-up; f returns nil to keep.
func (u *U) Rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	return u.rewrite(t, f, memo)
}

func (u *U) rewrite(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	var r *Term
	switch {
	case t.op == OPoly:
		changed := false
		acc := u.Int(0)
		for _, m := range t.poly {
			x := u.Num(m.coef)
			for _, p := range m.vars {
				n := u.rewrite(p.t, f, memo)
				if n != p.t {
					changed = true
				}
				for i := 0; i < p.e; i++ {
					x = u.Mul(x, n)
				}
				for i := 0; i > p.e; i-- {
					x = u.Div(x, n)
				}
			}
			acc = u.Add(acc, x)
		}
		if changed {
			r = acc
		} else {
			r = t
		}
	case len(t.args) == 0:
		r = t
	default:
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = u.rewrite(a, f, memo)
			if na[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
		} else {
			r = u.rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

func (u *U) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OIndex:
		return u.Index(na[0], na[1], t.s)
	case OLT:
		return u.LT(na[0], false)
	case OEQ:
		return u.EQ(na[0], na[1])
	case ONot:
		return u.Not(na[0])
	case OSeq:
		return u.Seq(na...)
	case OLen:
		return u.Len(na[0])
	case OSlice:
		return u.SliceOp(na[0], na[1], na[2])
	case OCat:
		r := na[0]
		for _, x := range na[1:] {
			r = u.Cat(r, x)
		}
		return r
	case OSum:
		return u.Sum(na[0], na[1])
	case OCall:
		if t.s == "mod" {
			return u.mod(na[0], na[1])
		}
	}
	c := *t
	c.args = na
	return u.mk(c)
}

func (u *U) Subst(t, from, to *Term) *Term {
	return u.Rewrite(t, func(x *Term) *Term {
		if x == from {
			return to
		}
		return nil
	})
}

// contains reports whether some subterm satisfies f.
func contains(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, p := range m.vars {
				if rec(p.t) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// Sum of body over β = 0..n-1, where body has the bound variable already.
func (u *U) Sum(n, body *Term) *Term {
	b := u.betaOf(body)
	acc := u.Int(0)
	for _, m := range u.monos(body) {
		one := mono{big.NewRat(1, 1), m.vars}
		bm := u.fromMonos([]mono{one})
		var s *Term
		if b == nil || !contains(bm, func(x *Term) bool { return x == b }) {
			s = u.Mul(n, bm)
		} else {
			s = u.mk(Term{op: OSum, args: []*Term{n, bm}})
		}
		acc = u.Add(acc, u.Scale(s, m.coef))
	}
	return acc
}

func (u *U) betaOf(t *Term) *Term {
	if t.beta == 0 {
		return nil
	}
	return u.Sym("β" + strconv.Itoa(t.beta-1))
}

// Bind replaces k by a fresh bound variable in t.
func (u *U) Bind(t, k *Term) *Term {
	return u.Subst(t, k, u.Sym("β"+strconv.Itoa(t.beta)))
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.fmt(&sb, 0)
	s := sb.String()
	if len(s) > 400 {
		s = strings.ToValidUTF8(s[:400], "") + "…"
	}
	return s
}

func shortField(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (t *Term) fmt(sb *strings.Builder, d int) {
	if t == nil {
		sb.WriteString("_")
		return
	}
	if d > 14 {
		sb.WriteString("…")
		return
	}
	list := func(a []*Term) {
		for i, x := range a {
			if i > 0 {
				sb.WriteString(", ")
			}
			x.fmt(sb, d+1)
		}
	}
	switch t.op {
	case OConst:
		if t.kind == 's' {
			sb.WriteString(strconv.Quote(t.s))
		} else {
			sb.WriteString(t.s)
		}
	case OSym, OGlobal:
		if strings.HasPrefix(t.s, "k:") || strings.HasPrefix(t.s, "φ:") || strings.HasPrefix(t.s, "μ:") {
			fmt.Fprintf(sb, "%s·%d", strings.SplitN(t.s, ":", 2)[0], t.id)
			return
		}
		sb.WriteString(t.s)
	case OAlloc:
		fmt.Fprintf(sb, "new·%d", t.id)
	case OField:
		t.args[0].fmt(sb, d+1)
		sb.WriteString("." + shortField(t.s))
	case OIndex:
		t.args[0].fmt(sb, d+1)
		sb.WriteString("[")
		t.args[1].fmt(sb, d+1)
		sb.WriteString("]")
	case OMapAt, OMapIn:
		if t.op == OMapIn {
			sb.WriteString("in:")
		}
		t.args[0].fmt(sb, d+1)
		sb.WriteString("{")
		t.args[1].fmt(sb, d+1)
		sb.WriteString("}")
	case OLenAt:
		sb.WriteString("#")
		t.args[0].fmt(sb, d+1)
	case OInit:
		t.args[0].fmt(sb, d+1)
	case OPoly:
		for i, m := range t.poly {
			if i > 0 {
				sb.WriteString(" + ")
			}
			one := m.coef.Cmp(big.NewRat(1, 1)) == 0
			if !one || len(m.vars) == 0 {
				sb.WriteString(m.coef.RatString())
			}
			for j, p := range m.vars {
				if j > 0 || !one {
					sb.WriteString("·")
				}
				if p.t.op == OPoly {
					sb.WriteString("(")
				}
				p.t.fmt(sb, d+1)
				if p.t.op == OPoly {
					sb.WriteString(")")
				}
				if p.e != 1 {
					fmt.Fprintf(sb, "^%d", p.e)
				}
			}
		}
	case OLT:
		t.args[0].fmt(sb, d+1)
		sb.WriteString(" < 0")
	case OEQ:
		t.args[0].fmt(sb, d+1)
		sb.WriteString(" == ")
		t.args[1].fmt(sb, d+1)
	case ONot:
		sb.WriteString("!(")
		t.args[0].fmt(sb, d+1)
		sb.WriteString(")")
	case OCall:
		if t.s == "@" {
			t.args[1].fmt(sb, d+1)
			fmt.Fprintf(sb, "′%d", t.args[0].id)
			return
		}
		if strings.HasPrefix(t.s, "?") {
			n := t.s[1:]
			if i := strings.IndexByte(n, '@'); i >= 0 {
				n = n[:i]
			}
			fmt.Fprintf(sb, "?%s·%d", n[strings.LastIndexByte(n, '/')+1:], t.id)
			return
		}
		if strings.HasPrefix(t.s, "loop:") {
			fmt.Fprintf(sb, "loop·%d", t.id)
			return
		}
		sb.WriteString(t.s + "(")
		list(t.args)
		sb.WriteString(")")
	case OSeq:
		sb.WriteString("[")
		list(t.args)
		sb.WriteString("]")
	case OElem:
		t.args[0].fmt(sb, d+1)
	case OSpread:
		t.args[0].fmt(sb, d+1)
		sb.WriteString("...")
	case OMapSeq, OSum:
		if t.op == OSum {
			sb.WriteString("Σ")
		} else {
			sb.WriteString("each")
		}
		sb.WriteString("<")
		t.args[0].fmt(sb, d+1)
		sb.WriteString(">(")
		t.args[1].fmt(sb, d+1)
		sb.WriteString(")")
	case OStruct:
		sb.WriteString(shortField(t.s) + "{")
		list(t.args)
		sb.WriteString("}")
	case OTuple:
		sb.WriteString("(")
		list(t.args)
		sb.WriteString(")")
	case OClosure:
		sb.WriteString("func:" + t.fn.Name())
	case OLen:
		sb.WriteString("len(")
		t.args[0].fmt(sb, d+1)
		sb.WriteString(")")
	case OSlice:
		t.args[0].fmt(sb, d+1)
		sb.WriteString("[")
		if t.args[1] != nil {
			t.args[1].fmt(sb, d+1)
		}
		sb.WriteString(":")
		if t.args[2] != nil {
			t.args[2].fmt(sb, d+1)
		}
		sb.WriteString("]")
	case OCat:
		for i, x := range t.args {
			if i > 0 {
				sb.WriteString(" ++ ")
			}
			x.fmt(sb, d+1)
		}
	}
}
