package main

import (
	"fmt"
	"math/big"
)

func init() {
	register("P42", 12, "every path of the reader of a model and of a prediction, for layers of fixed shapes with symbolic weights: each element against the rule of its layer", ruleNetwork)
}

func ruleNetwork(c *Ctx) {
	for _, ext := range []string{".json", ".gz", ".gzip", ".txt"} {
		ext := ext
		c.guarded("LoadModel "+ext, func() { c.modelRead(ext) })
	}
	for _, acts := range [][]string{{"sigmoid"}, {"hard_sigmoid"}, {"softmax"}, {"sigmoid", "softmax"}, {"hard_sigmoid", "softmax"}, {"hard_sigmoid", "sigmoid", "softmax"}} {
		acts := acts
		c.guarded("AIModel.Predict", func() { c.predicted(acts) })
	}
	for _, n := range []int{1, 2, 4} {
		n := n
		c.guarded("GetPredictionArgMax", func() { c.argMax(n) })
	}
}

// layerAddr is the address of a field of a layer of a list.
func (e *Engine) layerAddr(list *Term, i int, fields ...string) *Term {
	a := e.u.Index(list, e.u.Int(int64(i)), elemClass(e.w.lookupType("neuralnet.ModelLayer")))
	for _, f := range fields {
		a = e.u.Field(a, f)
	}
	return a
}

var netShapes = [][2]int{{2, 3}, {3, 2}, {2, 4}}

func (u *U) weight(l, i, j int) *Term { return u.Sym(fmt.Sprintf("w%d.%d.%d", l, i, j)) }
func (u *U) bias(l, i int) *Term      { return u.Sym(fmt.Sprintf("b%d.%d", l, i)) }

// layersAt describes layers of fixed shapes at the list.
func (e *Engine) layersAt(st *State, list *Term, n int) {
	u := e.u
	for l := 0; l < n; l++ {
		sh := netShapes[l]
		put := func(v *Term, fields ...string) { u.write(st, e.layerAddr(list, l, fields...), v) }
		var rows, bias []*Term
		for i := 0; i < sh[0]; i++ {
			var row []*Term
			for j := 0; j < sh[1]; j++ {
				row = append(row, u.weight(l, i, j))
			}
			rows = append(rows, u.seqOf(row...))
		}
		for j := 0; j < sh[1]; j++ {
			bias = append(bias, u.bias(l, j))
		}
		put(u.seqOf(u.Int(int64(sh[0])), u.Int(int64(sh[1]))), "neuralnet.ModelLayer.Weights", "neuralnet.LayerWeights.Shape")
		put(u.seqOf(rows...), "neuralnet.ModelLayer.Weights", "neuralnet.LayerWeights.Values")
		put(u.seqOf(u.Int(int64(sh[1]))), "neuralnet.ModelLayer.Bias", "neuralnet.LayerBias.Shape")
		put(u.seqOf(bias...), "neuralnet.ModelLayer.Bias", "neuralnet.LayerBias.Values")
	}
}

func (c *Ctx) modelRead(ext string) {
	con := "LoadModel " + ext
	fn := c.fn("neuralnet.LoadModel")
	e := c.engine()
	u := e.u
	list := u.Call("make", u.Sym("&layers"), u.Int(2))
	e.after = func(st *State, ev *Event) {
		if ev.name != "(*encoding/json.Decoder).Decode" && ev.name != "encoding/json.Unmarshal" {
			return
		}
		p := e.strip(ev.args[1])
		u.write(st, u.Field(p, "neuralnet.AIModel.Layers"), list)
		e.layersAt(st, list, 2)
	}
	s := c.scOn(e, fn, con, "path")
	s.give("path", u.Str("a/model"+ext))
	n := 0
	for _, o := range s.returns() {
		n++
		opened := calls(o, "os.Open")
		if !c.check("file", con, len(opened) == 1 && opened[0].args[0] == s.arg("path"), o.pos, "the file is opened %d times", len(opened)) {
			continue
		}
		first := func(ev *Event) *Term {
			if ev.ret != nil && ev.ret.op == OTuple {
				return ev.ret.args[0]
			}
			return ev.ret
		}
		source := first(opened[0])
		if ext != ".json" {
			z := calls(o, "compress/gzip.NewReader")
			if !c.check("compressed file", con, len(z) == 1 && z[0].args[0] == source, o.pos, "the file is not uncompressed") {
				continue
			}
			source = first(z[0])
		} else {
			c.check("compressed file", con, len(calls(o, "compress/gzip.NewReader")) == 0, o.pos, "a plain file is uncompressed")
		}
		for _, d := range calls(o, "encoding/json.NewDecoder") {
			c.check("source", con, d.args[0] == source, d.pos, "the model is decoded from %s", d.args[0])
		}
		for _, ev := range o.st.events {
			if ev.kind != "call" || ev.ret == nil {
				continue
			}
			var err *Term
			switch ev.name {
			case "os.Open", "compress/gzip.NewReader":
				err = ev.ret.args[1]
			case "(*encoding/json.Decoder).Decode":
				err = ev.ret
			default:
				continue
			}
			c.check("errors stop the program", con+" "+ev.name, u.decide(o.st, u.EQ(err, u.Nil())) == 1, ev.pos, "an error of %s is ignored", ev.name)
		}
		for _, ev := range evsOf(o, "mat") {
			c.check("shape", con, false, ev.pos, "%s", ev.name)
		}
		layers := e.readAt(o.st, u.Field(e.strip(o.ret[0]), "neuralnet.AIModel.Layers"))
		if layers != list {
			c.note("%s: the layers of the model returned are not followed: %s", con, layers)
			continue
		}
		for l := 0; l < 2; l++ {
			for _, what := range []string{"Weights", "Bias"} {
				p := e.readAt(o.st, e.layerAddr(list, l, "neuralnet.ModelLayer."+what, "neuralnet.Layer"+what+".Tensor"))
				name := fmt.Sprintf("%s %s of layer %d", con, what, l+1)
				if !c.check("every layer has its matrices", name, p != nil && p != u.Nil() && contains(p, func(x *Term) bool { return x.op == OAlloc }), o.pos, "the matrix is %s", p) {
					continue
				}
				m := e.matOf(o.st, p)
				if m == nil {
					c.note("%s: the matrix is not followed", name)
					continue
				}
				r, k, at := netShapes[l][0], netShapes[l][1], func(i, j int) *Term { return u.weight(l, i, j) }
				if what == "Bias" {
					r, k, at = netShapes[l][1], 1, func(i, j int) *Term { return u.bias(l, i) }
				}
				if !c.check("shape", name, m.r == r && m.c == k, o.pos, "the matrix is %d by %d instead of %d by %d", m.r, m.c, r, k) {
					continue
				}
				for i := 0; i < r; i++ {
					for j := 0; j < k; j++ {
						c.check("element", name, m.at[i*k+j] == at(i, j), o.pos, "element %d,%d is %s", i, j, m.at[i*k+j])
					}
				}
			}
		}
	}
	if ext == ".txt" {
		c.check("other files are rejected", con, n == 0, fn.Pos(), "a file of an unknown kind is read")
		return
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path reads a model")
}

func evsOf(o Out, kind string) []*Event {
	var r []*Event
	each(o.st.events, func(ev *Event, _ []*LoopInfo) {
		if ev.kind == kind {
			r = append(r, ev)
		}
	})
	return r
}

func (c *Ctx) predicted(acts []string) {
	con := "AIModel.Predict"
	for _, a := range acts {
		con += " " + a
	}
	fn := c.fn("neuralnet.AIModel.Predict")
	e := c.engine()
	e.precise = true
	u := e.u
	st := newState()
	list := u.Call("make", u.Sym("&layers"), u.Int(int64(len(acts))))
	e.layersAt(st, list, len(acts))
	model := u.Sym("&model")
	u.write(st, u.Field(model, "neuralnet.AIModel.Layers"), list)
	for l, a := range acts {
		r, k := netShapes[l][0], netShapes[l][1]
		w, b := u.object(fmt.Sprintf("weights%d", l)), u.object(fmt.Sprintf("bias%d", l))
		u.write(st, e.layerAddr(list, l, "neuralnet.ModelLayer.ActivationFunction"), u.Str(a))
		u.write(st, e.layerAddr(list, l, "neuralnet.ModelLayer.Weights", "neuralnet.LayerWeights.Tensor"), w)
		u.write(st, e.layerAddr(list, l, "neuralnet.ModelLayer.Bias", "neuralnet.LayerBias.Tensor"), b)
		u.write(st, e.matCell(w), e.matTerm(newMatrix(r, k, func(i, j int) *Term { return u.weight(l, i, j) })))
		u.write(st, e.matCell(b), e.matTerm(newMatrix(k, 1, func(i, j int) *Term { return u.bias(l, i) })))
	}
	in := u.object("input")
	var x []*Term
	for i := 0; i < netShapes[0][0]; i++ {
		x = append(x, u.Sym(fmt.Sprintf("x%d", i)))
	}
	u.write(st, e.matCell(in), e.matTerm(newMatrix(len(x), 1, func(i, j int) *Term { return x[i] })))
	arg := model
	if sig := fn.Signature.Recv(); sig != nil {
		if _, _, ok := repoStruct(sig.Type()); ok {
			arg = e.load(st, model, sig.Type())
		}
	}
	exp := func(t *Term) *Term { return u.Call("math.Exp", t) }
	// what a layer makes of its input
	for l, a := range acts {
		r, k := netShapes[l][0], netShapes[l][1]
		var y []*Term
		for j := 0; j < k; j++ {
			s := u.bias(l, j)
			for i := 0; i < r; i++ {
				s = u.Add(s, u.Mul(u.weight(l, i, j), x[i]))
			}
			y = append(y, s)
		}
		sum := u.Int(0)
		for _, s := range y {
			sum = u.Add(sum, exp(s))
		}
		x = nil
		for _, s := range y {
			switch a {
			case "sigmoid":
				x = append(x, u.Div(u.Int(1), u.Add(u.Int(1), exp(u.Neg(s)))))
			case "hard_sigmoid":
				x = append(x, e.bounds("math.Max", u.Int(0), e.bounds("math.Min", u.Int(1), u.Add(u.Mul(u.Num(big.NewRat(1, 5)), s), u.Num(big.NewRat(1, 2))))))
			case "softmax":
				x = append(x, u.Div(exp(s), sum))
			}
		}
	}
	n := 0
	for _, o := range e.Run(fn, []*Term{arg, in}, st) {
		for _, ev := range evsOf(o, "mat") {
			c.check("shape", con, false, ev.pos, "%s", ev.name)
		}
		if o.kind != "return" {
			c.check("a prediction does not fail", con, false, o.pos, "it can %s", o.kind)
			continue
		}
		n++
		m := e.matOf(o.st, o.ret[0])
		if m == nil {
			c.note("%s: the result is not followed", con)
			continue
		}
		if !c.check("shape", con, len(m.at) == len(x) && (acts[len(acts)-1] != "softmax" || m.r == 1), o.pos, "the result is %d by %d for %d outputs", m.r, m.c, len(x)) {
			continue
		}
		for i := range x {
			c.check("output", con, m.at[i] == x[i], o.pos, "output %d is %.400s instead of %.400s", i+1, m.at[i].String(), x[i].String())
		}
	}
	c.check("paths", con, n > 0, fn.Pos(), "no path predicts")
}

func (c *Ctx) argMax(n int) {
	con := fmt.Sprintf("GetPredictionArgMax of %d", n)
	fn := c.fn("neuralnet.GetPredictionArgMax")
	e := c.engine()
	e.precise = true
	u := e.u
	s := c.scOn(e, fn, con, "input")
	_, vs := s.values("v", n)
	u.write(s.pre, e.matCell(s.arg("input")), e.matTerm(newMatrix(1, n, func(i, j int) *Term { return vs[j] })))
	k := 0
	for _, o := range s.returns() {
		k++
		i, ok := smallInt(o.ret[0])
		if !ok {
			c.note("%s: the answer %s is not followed", con, o.ret[0])
			continue
		}
		ord := newOrder(u, o.st.facts, vs)
		c.check("largest", con, i < n && (ord.contradictory() || ord.maximal(vs[i], vs)), o.pos, "index %d is returned when %s", i, factsString(o.st.facts))
	}
	c.check("paths", con, k > 0, fn.Pos(), "no path answers")
}

// object is an object that exists before the call.
func (u *U) object(name string) *Term { return u.mk(Term{op: OAlloc, s: "given:" + name}) }

func (u *U) seqOf(xs ...*Term) *Term {
	var es []*Term
	for _, x := range xs {
		es = append(es, u.Elem(x))
	}
	return u.Seq(es...)
}
