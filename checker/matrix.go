package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A domain for matrices of gonum of known dimensions: the value of a matrix is
// the table of its elements, each a term. A matrix whose dimensions are not
// known has no value, and what is computed from it is not decided.

const matPkg = "gonum.org/v1/gonum/mat"

func (e *Engine) matCell(p *Term) *Term { return e.u.Field(p, "mat.Dense.value") }

type matrix struct {
	r, c int
	at   []*Term
}

func (e *Engine) matTerm(m *matrix) *Term {
	return e.u.Call("mat", append([]*Term{e.u.Int(int64(m.r)), e.u.Int(int64(m.c))}, m.at...)...)
}

func smallInt(t *Term) (int, bool) {
	if t == nil || !isNum(t) || !t.rat.IsInt() || !t.rat.Num().IsInt64() {
		return 0, false
	}
	n := t.rat.Num().Int64()
	return int(n), n >= 0 && n < 1000
}

// matOf is the value of a matrix, nil if it is not known.
func (e *Engine) matOf(st *State, x *Term) *matrix {
	x = e.strip(x)
	if x.op == OCall && x.s == "mat.T" {
		m := e.matOf(st, x.args[0])
		if m == nil {
			return nil
		}
		t := &matrix{r: m.c, c: m.r}
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				t.at = append(t.at, m.at[j*m.c+i])
			}
		}
		return t
	}
	v := e.u.read(st, e.matCell(x))
	if v.op != OCall || v.s != "mat" {
		return nil
	}
	r, _ := smallInt(v.args[0])
	c, _ := smallInt(v.args[1])
	return &matrix{r: r, c: c, at: v.args[2:]}
}

func newMatrix(r, c int, f func(i, j int) *Term) *matrix {
	m := &matrix{r: r, c: c}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			x := f(i, j)
			if x == nil {
				return nil
			}
			m.at = append(m.at, x)
		}
	}
	return m
}

// matCall is the effect of a function or method of package mat.
func (e *Engine) matCall(fr *frame, f *FS, in ssa.Instruction, val ssa.Value, name string, com *ssa.CallCommon, args []*Term) bool {
	u := e.u
	st := f.st
	bad := func(why string) {
		e.event(f, &Event{kind: "mat", name: why, pos: in.Pos(), ctx: fr.ctx})
	}
	set := func(m *matrix) {
		p := e.strip(args[0])
		if m == nil {
			u.write(st, e.matCell(p), u.Call("mat.unknown", e.fresh(fr, in, "mat")))
			return
		}
		u.write(st, e.matCell(p), e.matTerm(m))
	}
	// into stores the result in the receiver, which has to fit
	into := func(m *matrix) {
		if old := e.matOf(st, args[0]); old != nil && m != nil && (old.r != m.r || old.c != m.c) {
			bad("the result does not fit in the matrix it is put in")
			m = nil
		}
		set(m)
	}
	two := func(f func(a, b *Term) *Term) {
		a, b := e.matOf(st, args[1]), e.matOf(st, args[2])
		if a == nil || b == nil {
			set(nil)
			return
		}
		if a.r != b.r || a.c != b.c {
			bad("the matrices differ in size")
			set(nil)
			return
		}
		into(newMatrix(a.r, a.c, func(i, j int) *Term { return f(a.at[i*a.c+j], b.at[i*a.c+j]) }))
	}
	if name == matPkg+".NewDense" {
		p := u.mk(Term{op: OAlloc, s: e.site(fr, in), args: fr.ks})
		r, ok1 := smallInt(args[0])
		c, ok2 := smallInt(args[1])
		var m *matrix
		if ok1 && ok2 {
			m = newMatrix(r, c, func(i, j int) *Term {
				if args[2] == u.Nil() || args[2].op == OSeq && len(args[2].args) == 0 {
					return u.Int(0)
				}
				return e.elem(st, args[2], u.Int(int64(i*c+j)), com.Args[2].Type().Underlying().(interface{ Elem() types.Type }).Elem())
			})
		}
		if m == nil {
			u.write(st, e.matCell(p), u.Call("mat.unknown", p))
		} else {
			u.write(st, e.matCell(p), e.matTerm(m))
		}
		e.bind(f, val, p)
		return true
	}
	i := strings.LastIndex(name, ").")
	if !strings.HasPrefix(name, "(") || !strings.Contains(name, matPkg+".") || i < 0 {
		return false
	}
	switch name[i+2:] {
	case "T":
		x := e.strip(args[0])
		if x.op == OCall && x.s == "mat.T" {
			e.bind(f, val, x.args[0])
		} else {
			e.bind(f, val, u.Call("mat.T", x))
		}
	case "Dims":
		m := e.matOf(st, args[0])
		if m == nil {
			return false
		}
		e.bind(f, val, u.Int(int64(m.r)), u.Int(int64(m.c)))
	case "At":
		m := e.matOf(st, args[0])
		r, ok1 := smallInt(args[1])
		c, ok2 := smallInt(args[2])
		if m == nil || !ok1 || !ok2 {
			return false
		}
		if r >= m.r || c >= m.c {
			bad("an element outside the matrix is read")
			return false
		}
		e.bind(f, val, m.at[r*m.c+c])
	case "Set":
		m := e.matOf(st, args[0])
		r, ok1 := smallInt(args[1])
		c, ok2 := smallInt(args[2])
		if m == nil || !ok1 || !ok2 {
			set(nil)
			break
		}
		if r >= m.r || c >= m.c {
			bad("an element outside the matrix is set")
			set(nil)
			break
		}
		set(newMatrix(m.r, m.c, func(i, j int) *Term {
			if i == r && j == c {
				return args[3]
			}
			return m.at[i*m.c+j]
		}))
	case "SetRow", "SetCol":
		m := e.matOf(st, args[0])
		k, ok := smallInt(args[1])
		if m == nil || !ok {
			set(nil)
			break
		}
		row := name[i+2:] == "SetRow"
		n := m.c
		if !row {
			n = m.r
		}
		el := com.Args[2].Type().Underlying().(interface{ Elem() types.Type }).Elem()
		if l := u.Len(args[2]); isNum(l) && l != u.Int(int64(n)) || row && k >= m.r || !row && k >= m.c {
			bad("a row that does not fit is set")
			set(nil)
			break
		}
		set(newMatrix(m.r, m.c, func(i, j int) *Term {
			if row && i == k {
				return e.elem(st, args[2], u.Int(int64(j)), el)
			}
			if !row && j == k {
				return e.elem(st, args[2], u.Int(int64(i)), el)
			}
			return m.at[i*m.c+j]
		}))
	case "Add":
		two(u.Add)
	case "Sub":
		two(u.Sub)
	case "MulElem":
		two(u.Mul)
	case "DivElem":
		two(u.Div)
	case "Mul":
		a, b := e.matOf(st, args[1]), e.matOf(st, args[2])
		if a == nil || b == nil {
			set(nil)
			break
		}
		if a.c != b.r {
			bad("the matrices multiplied do not fit")
			set(nil)
			break
		}
		into(newMatrix(a.r, b.c, func(i, j int) *Term {
			s := u.Int(0)
			for k := 0; k < a.c; k++ {
				s = u.Add(s, u.Mul(a.at[i*a.c+k], b.at[k*b.c+j]))
			}
			return s
		}))
	case "Scale":
		a := e.matOf(st, args[2])
		if a == nil {
			set(nil)
			break
		}
		into(newMatrix(a.r, a.c, func(i, j int) *Term { return u.Mul(args[1], a.at[i*a.c+j]) }))
	case "Apply":
		a := e.matOf(st, args[2])
		if a == nil {
			set(nil)
			break
		}
		fn := e.strip(args[1])
		if fn.op != OClosure || len(fn.fn.Blocks) == 0 || len(fn.fn.Params) != 3 {
			set(nil)
			break
		}
		if rw := e.w.rw(fn.fn); len(rw.mod) > 0 || rw.events {
			set(nil)
			break
		}
		into(newMatrix(a.r, a.c, func(i, j int) *Term {
			outs := e.exec(fn.fn, []*Term{u.Int(int64(i)), u.Int(int64(j)), a.at[i*a.c+j]}, fn.args, st.fork(), e.site(fr, in), fr.ks, fr.stack)
			if len(outs) != 1 || outs[0].kind != "return" || len(outs[0].ret) != 1 {
				return nil
			}
			return outs[0].ret[0]
		}))
	case "CloneFrom":
		set(e.matOf(st, args[1]))
	case "Reset":
		u.write(st, e.matCell(e.strip(args[0])), u.Call("mat.empty"))
	default:
		if strings.HasPrefix(name, "(*"+matPkg+".Dense)") {
			// what it does is not known
			set(nil)
		}
		return false
	}
	return true
}
