package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A contract is written as a Go expression over the arguments of a function
// and its results; old(x) is x before the call. It is evaluated symbolically
// with the same interpreter that summarises the function.

type val struct {
	t  *Term
	ty types.Type
}

type alt struct {
	facts map[*Term]bool
	v     val
}

// Sc is one scenario: a function started from a described set of states.
type Sc struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	name string
	pre  *State
	args []*Term
	env  map[string]val
	outs []Out
	ran  bool

	args0 []*Term // the arguments before structures are loaded
	depth int
	cases map[string]*Sc
}

func (c *Ctx) fn(name string) *ssa.Function {
	f := c.w.lookup(name)
	if f == nil {
		c.missing("function " + name)
	}
	return f
}

func (c *Ctx) sc(name string, argNames ...string) *Sc {
	return c.scOn(c.engine(), c.fn(name), name, argNames...)
}

func (c *Ctx) scOn(e *Engine, fn *ssa.Function, name string, argNames ...string) *Sc {
	s := &Sc{c: c, e: e, fn: fn, name: name, pre: newState(), env: map[string]val{}}
	for i, p := range fn.Params {
		n := "a" + itoa(i)
		if i < len(argNames) {
			n = argNames[i]
		}
		t := p.Type()
		sym := n
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			sym = "&" + n
		case *types.Struct:
			if _, _, ok := repoStruct(t); ok {
				sym = "&" + n
			}
		case *types.Interface:
			_ = u
			sym = "&" + n
		}
		s.env[n] = val{e.u.Sym(sym), t}
		s.args = append(s.args, nil)
		s.args[i] = e.u.Sym(sym)
	}
	return s
}

// arg is the symbol of a named argument.
func (s *Sc) arg(n string) *Term { return s.env[n].t }

func (s *Sc) bad(format string, a ...interface{}) {
	s.c.missing(s.name + ": " + fmt.Sprintf(format, a...))
}

// addr resolves a path such as "c.stats.Data" to the address of the field.
func (s *Sc) addr(path string) (*Term, types.Type) {
	x, err := parser.ParseExpr(path)
	if err != nil {
		s.bad("bad path %s", path)
	}
	sel, ok := x.(*ast.SelectorExpr)
	if !ok {
		s.bad("bad path %s", path)
	}
	w := &wld{s: s, pre: s.pre, post: s.pre}
	as := w.ev(sel.X, s.pre.facts, false)
	a, ty, ok := s.fieldAddr(as[0].v, sel.Sel.Name)
	if !ok {
		s.bad("no field %s", path)
	}
	return a, ty
}

func (s *Sc) set(path string, t *Term) *Sc {
	a, ty := s.addr(path)
	if m, ok := ty.Underlying().(*types.Map); ok {
		_ = m
	}
	s.e.u.write(s.pre, a, t)
	return s
}

func (s *Sc) setStr(path, v string) *Sc       { return s.set(path, s.e.u.Str(v)) }
func (s *Sc) setInt(path string, v int64) *Sc { return s.set(path, s.e.u.Int(v)) }
func (s *Sc) setBool(path string, v bool) *Sc { return s.set(path, s.e.u.Bool(v)) }
func (s *Sc) setNil(path string) *Sc          { return s.set(path, s.e.u.Nil()) }

// give sets an argument to a value.
func (s *Sc) give(name string, t *Term) *Sc {
	for i := range s.args {
		if s.args[i] == s.env[name].t {
			s.args[i] = t
		}
	}
	s.env[name] = val{t, s.env[name].ty}
	return s
}

// dynType binds the dynamic type of an interface argument or field value.
func (s *Sc) dynType(t *Term, ty types.Type) *Sc {
	s.e.dyn[t] = ty
	return s
}

// assume adds a condition on the initial state.
func (s *Sc) assume(expr string) *Sc {
	x, err := parser.ParseExpr(expr)
	if err != nil {
		s.bad("bad assumption %s: %v", expr, err)
	}
	s.assumeX(x)
	return s
}

func (s *Sc) assumeX(x ast.Expr) {
	if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		s.assumeX(b.X)
		s.assumeX(b.Y)
		return
	}
	if p, ok := x.(*ast.ParenExpr); ok {
		s.assumeX(p.X)
		return
	}
	w := &wld{s: s, pre: s.pre, post: s.pre}
	as := w.ev(x, s.pre.facts, false)
	if len(as) != 1 {
		s.bad("assumption has several cases")
	}
	s.pre = s.pre.fork()
	t, v := as[0].v.t, true
	for t.op == ONot {
		t, v = t.args[0], !v
	}
	if t.op == OConst {
		return
	}
	s.pre.setFact(t, v)
}

func (s *Sc) run() *Sc {
	if s.ran {
		return s
	}
	s.ran = true
	s.args0 = append([]*Term(nil), s.args...)
	for i, p := range s.fn.Params {
		if _, _, ok := repoStruct(p.Type()); ok {
			s.args[i] = s.e.load(s.pre, s.args[i], p.Type())
		}
	}
	s.outs = s.e.Run(s.fn, s.args, s.pre.fork())
	s.c.paths += len(s.outs)
	return s
}

func (s *Sc) kind(k string) []Out {
	s.run()
	var r []Out
	for _, o := range s.outs {
		if o.kind == k {
			r = append(r, o)
		}
	}
	return r
}

func (s *Sc) returns() []Out { return s.kind("return") }

// ensure checks a contract at every return.
func (s *Sc) ensure(rule, construct, expr string) *Sc {
	outs := s.returns()
	if len(outs) == 0 {
		s.c.check(rule, construct, false, s.fn.Pos(), "no path returns")
	}
	for _, o := range outs {
		s.ensureOut(o, rule, construct, expr)
	}
	return s
}

func (s *Sc) ensureOut(o Out, rule, construct, expr string) bool {
	ok, why := s.holds(o, expr)
	pos := o.pos
	if !pos.IsValid() {
		pos = s.fn.Pos()
	}
	return s.c.check(rule, construct, ok, pos, "%s: %s does not hold on the path where %s; %s", s.name, expr, factsString(o.st.facts), why)
}

func (s *Sc) holds(o Out, expr string) (bool, string) {
	x, err := parser.ParseExpr(expr)
	if err != nil {
		s.bad("bad contract %s: %v", expr, err)
	}
	return s.holdsX(o, x)
}

func (s *Sc) holdsX(o Out, x ast.Expr) (bool, string) {
	if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		if ok, why := s.holdsX(o, b.X); !ok {
			return ok, why
		}
		return s.holdsX(o, b.Y)
	}
	w := &wld{s: s, pre: s.pre, post: o.st, ret: o.ret}
	for _, a := range w.ev(x, o.st.facts, false) {
		t := s.e.simp(a.facts, a.v.t)
		d := s.e.u.decide(&State{facts: a.facts}, t)
		if d == 1 {
			continue
		}
		if s.e.infeasible(a.facts) {
			continue
		}
		more, possible := s.e.spread(a.facts)
		if !possible || s.e.u.decide(&State{facts: more}, t) == 1 {
			continue
		}
		why := "left with " + t.String()
		// The contract distinguishes cases that the summary does not: analyse
		// the function again in the case that failed.
		if s.refineCase(o.st.facts, a.facts, x) {
			continue
		}
		// or the summary merged cases that the failing condition tells apart
		rel := map[*Term]bool{}
		vars := map[*Term]bool{}
		leaves(t, vars)
		for f, v := range o.st.facts {
			fv := map[*Term]bool{}
			leaves(f, fv)
			for x := range fv {
				if vars[x] {
					rel[f] = v
				}
			}
		}
		if s.refineCase(s.pre.facts, rel, x) {
			continue
		}
		return false, why
	}
	return true, ""
}

// spread adds to the facts what they say about equal terms.
func (e *Engine) spread(facts map[*Term]bool) (map[*Term]bool, bool) {
	r := map[*Term]bool{}
	for f, v := range facts {
		r[f] = v
		if f.op == OEQ && !v || f.op == OLT {
			n := e.simp(facts, f)
			if n.op == OConst && n.kind == 'b' && n.b != v {
				return nil, false
			}
			if n != f && n.op == f.op {
				r[n] = v
			}
		}
	}
	return r, true
}

// leaves collects the initial values and symbols of a term.
func leaves(t *Term, into map[*Term]bool) {
	contains(t, func(x *Term) bool {
		if x.op == OInit || x.op == OSym {
			into[x] = true
		}
		return false
	})
}

// volatile terms have no meaning before the call.
func volatile(t *Term) bool {
	return t.op == OSym && strings.HasPrefix(t.s, "?")
}

// refineCase reports whether the contract holds when the function is analysed
// from the initial states of one case only.
func (s *Sc) refineCase(have, want map[*Term]bool, x ast.Expr) bool {
	if s.depth >= 2 {
		return false
	}
	var add []*Term
	for t, v := range want {
		if h, ok := have[t]; ok && h == v {
			continue
		}
		if contains(t, volatile) {
			continue
		}
		add = append(add, t)
	}
	if len(add) == 0 {
		return false
	}
	sort.Slice(add, func(i, j int) bool { return add[i].id < add[j].id })
	key := ""
	pre := s.pre.fork()
	for _, t := range add {
		v := want[t]
		pre.setFact(t, v)
		key += fmt.Sprint(t.id, v, ";")
	}
	if s.cases == nil {
		s.cases = map[string]*Sc{}
	}
	sub := s.cases[key]
	if sub == nil {
		if len(s.cases) > 40 {
			return false
		}
		sub = &Sc{c: s.c, e: s.e, fn: s.fn, name: s.name, pre: pre, args: append([]*Term(nil), s.args0...), env: s.env, depth: s.depth + 1}
		if sub.args0 == nil {
			sub.args0 = sub.args
		}
		s.cases[key] = sub
	}
	for _, o := range sub.returns() {
		if ok, _ := sub.holdsX(o, x); !ok {
			return false
		}
	}
	return true
}

// value evaluates an expression after an outcome; all alternatives.
func (s *Sc) value(o Out, expr string) []alt {
	x, err := parser.ParseExpr(expr)
	if err != nil {
		s.bad("bad expression %s: %v", expr, err)
	}
	w := &wld{s: s, pre: s.pre, post: o.st, ret: o.ret}
	return w.ev(x, o.st.facts, false)
}

// term evaluates an expression with one value.
func (s *Sc) term(o Out, expr string) *Term {
	as := s.value(o, expr)
	t := s.e.simp(as[0].facts, as[0].v.t)
	for _, a := range as[1:] {
		if s.e.simp(a.facts, a.v.t) != t {
			s.bad("%s has several values", expr)
		}
	}
	return t
}

// old evaluates an expression in the initial state.
func (s *Sc) old(expr string) *Term {
	return s.term(Out{st: s.pre}, expr)
}

// ---------------------------------------------------------------- simplification

// simp rewrites t with the equalities among the facts.
func (e *Engine) simp(facts map[*Term]bool, t *Term) *Term {
	u := e.u
	for round := 0; round < 4; round++ {
		sub := map[*Term]*Term{}
		var fs []*Term
		for f := range facts {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		for _, f := range fs {
			v := facts[f]
			if f.op == OEQ && v {
				if f.s == "n" {
					if len(sub) > 0 {
						// what was solved for before
						if g := u.Rewrite(f, func(x *Term) *Term { return sub[x] }); g != f {
							if g.op != OEQ || g.s != "n" {
								continue
							}
							f = g
						}
					}
					ms := u.monos(f.args[0])
					for i := len(ms) - 1; i >= 0; i-- {
						m := ms[i]
						if len(m.vars) != 1 || m.vars[0].e != 1 {
							continue
						}
						x := m.vars[0].t
						rest := u.Sub(f.args[1], u.Sub(f.args[0], u.fromMonos([]mono{m})))
						r := u.Scale(rest, new(big.Rat).Inv(m.coef))
						if contains(r, func(y *Term) bool { return y == x }) || sub[x] != nil {
							continue
						}
						sub[x] = r
						break
					}
					continue
				}
				a, b := f.args[0], f.args[1]
				if isConst(b) || b.id < a.id && !isConst(a) {
					a, b = b, a
				}
				// b becomes a
				if sub[b] == nil && !contains(a, func(y *Term) bool { return y == b }) {
					sub[b] = a
				}
				continue
			}
			if sub[f] == nil && f.op != OLT && f.op != OEQ {
				sub[f] = u.Bool(v)
			}
		}
		n := u.Rewrite(t, func(x *Term) *Term {
			if r := sub[x]; r != nil {
				return r
			}
			if x.op == OInit && x.args[0].op == OIndex && x.args[0].args[0].op == OSeq {
				return e.elemAt(x.args[0].args[0], x.args[0].args[1])
			}
			return nil
		})
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// ---------------------------------------------------------------- expressions

type wld struct {
	s         *Sc
	pre, post *State
	ret       []*Term
	bound     map[string]val
}

func (w *wld) st(old bool, facts map[*Term]bool) *State {
	m := w.post.mem
	if old {
		m = w.pre.mem
	}
	return &State{mem: m, shared: true, facts: facts, fshare: true}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldAddr is the address of field name of v (pointer to or place of a struct).
func (s *Sc) fieldAddr(v val, name string) (*Term, types.Type, bool) {
	t := deref(v.ty)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldName(t, i) == name {
			return s.e.fieldAddr(v.t, t, i), st.Field(i).Type(), true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		b := s.e.fieldAddr(v.t, t, i)
		if a, ty, ok := s.fieldAddr(val{b, f.Type()}, name); ok {
			return a, ty, true
		}
	}
	return nil, nil, false
}

func (w *wld) ev(x ast.Expr, facts map[*Term]bool, old bool) []alt {
	s, e := w.s, w.s.e
	u := e.u
	one := func(t *Term, ty types.Type) []alt { return []alt{{facts, val{t, ty}}} }
	switch n := x.(type) {
	case *ast.ParenExpr:
		return w.ev(n.X, facts, old)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			r, _ := new(big.Rat).SetString(n.Value)
			return one(u.Num(r), types.Typ[types.UntypedInt])
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(n.Value)
			return one(u.Num(r), types.Typ[types.UntypedFloat])
		case token.STRING:
			v, _ := strconv.Unquote(n.Value)
			return one(u.Str(v), types.Typ[types.String])
		}
	case *ast.Ident:
		if v, ok := w.bound[n.Name]; ok {
			return one(v.t, v.ty)
		}
		switch n.Name {
		case "nil":
			return one(u.Nil(), types.Typ[types.UntypedNil])
		case "true", "false":
			return one(u.Bool(n.Name == "true"), types.Typ[types.Bool])
		}
		if strings.HasPrefix(n.Name, "ret") {
			i := 0
			if len(n.Name) > 3 {
				i, _ = strconv.Atoi(n.Name[3:])
			}
			if i < len(w.ret) {
				return one(w.ret[i], s.fn.Signature.Results().At(i).Type())
			}
			s.bad("no result %s", n.Name)
		}
		if v, ok := s.env[n.Name]; ok {
			return one(v.t, v.ty)
		}
		s.bad("unknown name %s", n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := s.env[id.Name]; !isVar && !strings.HasPrefix(id.Name, "ret") && w.bound[id.Name].t == nil {
				if t, ty, ok := s.c.pkgConst(e, id.Name, n.Sel.Name); ok {
					return one(t, ty)
				}
				s.bad("unknown name %s.%s", id.Name, n.Sel.Name)
			}
		}
		var out []alt
		for _, a := range w.ev(n.X, facts, old) {
			v := a.v
			if v.t.op == OStruct {
				st := deref(v.ty).Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if fieldName(deref(v.ty), i) == n.Sel.Name {
						out = append(out, alt{a.facts, val{v.t.args[i], st.Field(i).Type()}})
					}
				}
				continue
			}
			ad, ty, ok := s.fieldAddr(v, n.Sel.Name)
			if !ok {
				s.bad("no field %s of %s", n.Sel.Name, v.ty)
			}
			if _, _, isS := repoStruct(ty); isS {
				out = append(out, alt{a.facts, val{ad, ty}})
				continue
			}
			t := e.readAt(w.st(old, a.facts), ad)
			out = append(out, alt{a.facts, val{t, ty}})
		}
		return out
	case *ast.IndexExpr:
		var out []alt
		for _, a := range w.ev(n.X, facts, old) {
			for _, b := range w.ev(n.Index, a.facts, old) {
				switch ty := a.v.ty.Underlying().(type) {
				case *types.Map:
					at, _, _ := e.mapAddr(a.v.t, b.v.t, a.v.ty)
					out = append(out, alt{b.facts, val{e.readAt(w.st(old, b.facts), at), ty.Elem()}})
				case *types.Slice:
					ad := u.Index(a.v.t, b.v.t, elemClass(ty.Elem()))
					if _, _, isS := repoStruct(ty.Elem()); isS {
						if t := e.elemAt(a.v.t, b.v.t); t != nil {
							out = append(out, alt{b.facts, val{t, ty.Elem()}})
							continue
						}
						out = append(out, alt{b.facts, val{ad, ty.Elem()}})
						continue
					}
					out = append(out, alt{b.facts, val{e.readAt(w.st(old, b.facts), ad), ty.Elem()}})
				default:
					s.bad("cannot index %s", a.v.ty)
				}
			}
		}
		return out
	case *ast.UnaryExpr:
		var out []alt
		for _, a := range w.ev(n.X, facts, old) {
			switch n.Op {
			case token.SUB:
				out = append(out, alt{a.facts, val{u.Neg(a.v.t), a.v.ty}})
			case token.NOT:
				out = append(out, alt{a.facts, val{u.Not(a.v.t), a.v.ty}})
			}
		}
		return out
	case *ast.BinaryExpr:
		var out []alt
		for _, a := range w.ev(n.X, facts, old) {
			if n.Op == token.LAND || n.Op == token.LOR {
				at := e.simp(a.facts, a.v.t)
				d := u.decide(&State{facts: a.facts}, at)
				for _, k := range []int{1, 0} {
					if d >= 0 && d != k {
						continue
					}
					f2 := a.facts
					if d < 0 {
						var ok bool
						if f2, ok = e.withFact(a.facts, at, k == 1); !ok {
							continue
						}
					}
					if (k == 1) == (n.Op == token.LOR) {
						out = append(out, alt{f2, val{u.Bool(n.Op == token.LOR), types.Typ[types.Bool]}})
					} else {
						out = append(out, w.ev(n.Y, f2, old)...)
					}
				}
				continue
			}
			for _, b := range w.ev(n.Y, a.facts, old) {
				x, y := e.simp(b.facts, a.v.t), e.simp(b.facts, b.v.t)
				ty := a.v.ty
				if bt, ok := ty.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
					ty = b.v.ty
				}
				num := isFloat(ty) || isInt(ty)
				if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
					num = true
				}
				integer := isInt(ty)
				var t *Term
				rt := ty
				switch n.Op {
				case token.ADD:
					if isString(ty) {
						t = u.Cat(x, y)
					} else {
						t = u.Add(x, y)
					}
				case token.SUB:
					t = u.Sub(x, y)
				case token.MUL:
					t = u.Mul(x, y)
				case token.QUO:
					t = u.Div(x, y)
				case token.REM:
					t = e.binop(token.REM, x, y, ty)
				case token.EQL, token.NEQ:
					rt = types.Typ[types.Bool]
					if num {
						d := u.Sub(x, y)
						d = e.simp(b.facts, d)
						if isZero(d) {
							t = u.Bool(true)
						} else {
							t = u.EQ(x, y)
						}
					} else {
						t = u.EQ(e.strip(x), e.strip(y))
					}
					if n.Op == token.NEQ {
						t = u.Not(t)
					}
				case token.LSS:
					t, rt = u.LT(u.Sub(x, y), integer), types.Typ[types.Bool]
				case token.GTR:
					t, rt = u.LT(u.Sub(y, x), integer), types.Typ[types.Bool]
				case token.LEQ:
					t, rt = u.Not(u.LT(u.Sub(y, x), integer)), types.Typ[types.Bool]
				case token.GEQ:
					t, rt = u.Not(u.LT(u.Sub(x, y), integer)), types.Typ[types.Bool]
				default:
					s.bad("operator %s", n.Op)
				}
				out = append(out, alt{b.facts, val{t, rt}})
			}
		}
		return out
	case *ast.CallExpr:
		return w.call(n, facts, old)
	}
	s.bad("unsupported expression %T", x)
	return nil
}

// withFact adds a decided atom to facts.
func (e *Engine) withFact(facts map[*Term]bool, t *Term, v bool) (map[*Term]bool, bool) {
	for t.op == ONot {
		t, v = t.args[0], !v
	}
	if t.op == OConst {
		return facts, t.b == v
	}
	n := &State{facts: facts, fshare: true, mem: &Mem{}}
	if d := e.u.decide(n, t); d >= 0 && (d == 1) != v {
		return nil, false
	}
	n.setFact(t, v)
	return n.facts, true
}

func (w *wld) args(xs []ast.Expr, facts map[*Term]bool, old bool) []struct {
	facts map[*Term]bool
	vs    []val
} {
	type r = struct {
		facts map[*Term]bool
		vs    []val
	}
	cur := []r{{facts, nil}}
	for _, x := range xs {
		var nx []r
		for _, c := range cur {
			for _, a := range w.ev(x, c.facts, old) {
				nx = append(nx, r{a.facts, append(c.vs[:len(c.vs):len(c.vs)], a.v)})
			}
		}
		cur = nx
	}
	return cur
}

func (w *wld) call(n *ast.CallExpr, facts map[*Term]bool, old bool) []alt {
	s, e := w.s, w.s.e
	u := e.u
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isVar := s.env[id.Name]; !isVar && w.bound[id.Name].t == nil && !strings.HasPrefix(id.Name, "ret") {
				name = id.Name + "." + f.Sel.Name
			}
		}
	}
	switch name {
	case "old":
		return w.ev(n.Args[0], facts, true)
	case "implies":
		return w.ev(&ast.BinaryExpr{X: &ast.UnaryExpr{Op: token.NOT, X: n.Args[0]}, Op: token.LOR, Y: n.Args[1]}, facts, old)
	case "ite":
		var out []alt
		for _, a := range w.ev(n.Args[0], facts, old) {
			at := e.simp(a.facts, a.v.t)
			d := u.decide(&State{facts: a.facts}, at)
			for _, k := range []int{1, 0} {
				if d >= 0 && d != k {
					continue
				}
				f2 := a.facts
				if d < 0 {
					var ok bool
					if f2, ok = e.withFact(a.facts, at, k == 1); !ok {
						continue
					}
				}
				out = append(out, w.ev(n.Args[2-k], f2, old)...)
			}
		}
		return out
	case "len", "in", "int64", "float64", "int", "isNaN":
		var out []alt
		for _, r := range w.args(n.Args, facts, old) {
			st := w.st(old, r.facts)
			a := r.vs[0]
			switch name {
			case "len":
				if _, ok := a.ty.Underlying().(*types.Map); ok {
					_, _, ln := e.mapAddr(a.t, u.Nil(), a.ty)
					out = append(out, alt{r.facts, val{e.readAt(st, ln), types.Typ[types.Int]}})
				} else {
					out = append(out, alt{r.facts, val{u.Len(a.t), types.Typ[types.Int]}})
				}
			case "in":
				_, in, _ := e.mapAddr(a.t, r.vs[1].t, a.ty)
				out = append(out, alt{r.facts, val{e.presence(st, in), types.Typ[types.Bool]}})
			case "int64", "float64", "int":
				ty := map[string]types.Type{"int64": types.Typ[types.Int64], "float64": types.Typ[types.Float64], "int": types.Typ[types.Int]}[name]
				out = append(out, alt{r.facts, val{e.convert(a.t, a.ty, ty), ty}})
			case "isNaN":
				out = append(out, alt{r.facts, val{u.Call("math.IsNaN", a.t), types.Typ[types.Bool]}})
			}
		}
		return out
	}
	if strings.HasPrefix(name, "math.") {
		var out []alt
		for _, r := range w.args(n.Args, facts, old) {
			var ts []*Term
			for _, v := range r.vs {
				ts = append(ts, v.t)
			}
			t := e.pureCall(name, ts)
			if t == nil {
				t = u.Call(name, ts...)
			}
			ty := types.Typ[types.Float64]
			if strings.HasPrefix(name, "math.Is") {
				ty = types.Typ[types.Bool]
			}
			out = append(out, alt{r.facts, val{t, ty}})
		}
		return out
	}
	runFn := func(fn *ssa.Function, args []*Term, facts map[*Term]bool) []alt {
		var out []alt
		st := w.st(old, facts)
		for i, p := range fn.Params {
			if i < len(args) {
				if _, _, ok := repoStruct(p.Type()); ok && args[i].op != OStruct {
					args[i] = e.load(st, args[i], p.Type())
				}
			}
		}
		for _, o := range e.Run(fn, args, st.fork()) {
			if o.kind != "return" || len(o.ret) == 0 {
				continue
			}
			out = append(out, alt{o.st.facts, val{o.ret[0], fn.Signature.Results().At(0).Type()}})
		}
		return out
	}
	if name != "" && strings.Contains(name, ".") {
		fn := s.c.fn(name)
		var out []alt
		for _, r := range w.args(n.Args, facts, old) {
			var ts []*Term
			for _, v := range r.vs {
				ts = append(ts, v.t)
			}
			out = append(out, runFn(fn, ts, r.facts)...)
		}
		return out
	}
	sel, ok := n.Fun.(*ast.SelectorExpr)
	if !ok {
		s.bad("cannot call %s", name)
	}
	var out []alt
	for _, a := range w.ev(sel.X, facts, old) {
		for _, r := range w.args(n.Args, a.facts, old) {
			ty := a.v.ty
			rt := a.v.t
			if d, ok := e.dyn[rt]; ok {
				ty = d
			}
			if _, isI := ty.Underlying().(*types.Interface); isI {
				// an unknown implementation: the pure query term
				out = append(out, w.query(ty, sel.Sel.Name, rt, r.vs, r.facts, old))
				continue
			}
			if obj, _, _ := types.LookupFieldOrMethod(ty, true, nil, sel.Sel.Name); obj != nil {
				if m, ok := obj.(*types.Func); ok && !inRepoPkg(m.Pkg()) {
					ts := []*Term{rt}
					for _, v := range r.vs {
						ts = append(ts, v.t)
					}
					x := extName(s.c.w.prog.FuncValue(m))
					t := e.pureCall(x, ts)
					if t == nil {
						t = u.Call(x, ts...)
					}
					out = append(out, alt{r.facts, val{t, m.Type().(*types.Signature).Results().At(0).Type()}})
					continue
				}
			}
			if _, isP := ty.Underlying().(*types.Pointer); !isP {
				ty = types.NewPointer(ty)
			}
			fn := s.c.methodOf(ty, sel.Sel.Name)
			if fn == nil {
				s.bad("no method %s of %s", sel.Sel.Name, ty)
			}
			ts := []*Term{rt}
			for _, v := range r.vs {
				ts = append(ts, v.t)
			}
			out = append(out, runFn(fn, ts, r.facts)...)
		}
	}
	return out
}

// query is the value of a side effect free method of an interface value.
func (w *wld) query(ty types.Type, method string, recv *Term, vs []val, facts map[*Term]bool, old bool) alt {
	e := w.s.e
	obj, _, _ := types.LookupFieldOrMethod(ty, false, nil, method)
	m, _ := obj.(*types.Func)
	if m == nil {
		it := ty.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if methodName(it.Method(i)) == method {
				m = it.Method(i)
			}
		}
	}
	if m == nil {
		w.s.bad("no method %s of %s", method, ty)
	}
	refs := map[string]bool{}
	for _, im := range e.w.implMethods(ty, m) {
		r := e.w.rw(im)
		if len(r.mod) > 0 || r.events {
			w.s.bad("%s of %s is not a query", method, ty)
		}
		for c := range r.ref {
			refs[c] = true
		}
	}
	base := []*Term{e.strip(recv)}
	for _, v := range vs {
		base = append(base, e.strip(v.t))
	}
	t := e.u.Call(ifaceName(ty)+"."+method, append(base, e.stamp(w.st(old, facts), refs))...)
	return alt{facts, val{t, m.Type().(*types.Signature).Results().At(0).Type()}}
}

func (c *Ctx) methodOf(t types.Type, name string) *ssa.Function {
	ms := c.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if methodName(ms.At(i).Obj()) == name {
			return c.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// pkgConst finds a constant or variable of a package of the module.
func (c *Ctx) pkgConst(e *Engine, pkg, name string) (*Term, types.Type, bool) {
	for _, p := range c.w.pkgs {
		if p.Pkg.Name() != pkg || !inRepoPkg(p.Pkg) {
			continue
		}
		if a := renamedConst[pkg+"."+name]; a != "" {
			name = a
		}
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			return e.constant(k.Value), k.Type(), true
		}
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- events

// each visits every event, those inside loops too.
func each(evs []*Event, f func(ev *Event, in []*LoopInfo)) { eachIn(evs, nil, f) }

func eachIn(evs []*Event, in []*LoopInfo, f func(ev *Event, in []*LoopInfo)) {
	for _, ev := range evs {
		f(ev, in)
		if ev.loop != nil {
			for _, it := range ev.loop.iters {
				eachIn(it.events, append(in[:len(in):len(in)], ev.loop), f)
			}
		}
	}
}

func countEv(evs []*Event, kind, name string) int {
	n := 0
	each(evs, func(ev *Event, _ []*LoopInfo) {
		if ev.kind == kind && ev.name == name {
			n++
		}
	})
	return n
}

func evs(evs []*Event, kind, name string) []*Event {
	var r []*Event
	each(evs, func(ev *Event, _ []*LoopInfo) {
		if ev.kind == kind && (name == "" || ev.name == name) {
			r = append(r, ev)
		}
	})
	return r
}

// infeasible reports facts that contradict each other: a linear inequality
// combined with an equation is decided the other way by the rest.
func (e *Engine) infeasible(facts map[*Term]bool) bool {
	u := e.u
	var eqs []*Term
	for f, v := range facts {
		if v && f.op == OEQ && f.s == "n" {
			eqs = append(eqs, u.Sub(f.args[0], f.args[1]))
		}
	}
	for f, v := range facts {
		if f.op != OLT {
			continue
		}
		for _, p := range eqs {
			for _, r := range []*Term{u.Add(f.args[0], p), u.Sub(f.args[0], p)} {
				t := u.LT(r, false)
				d := u.decide(&State{facts: facts}, t)
				if d >= 0 && (d == 1) != v {
					return true
				}
			}
		}
	}
	return false
}
