package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The order in which Go visits a map differs from run to run. orderAn finds the
// places of the module where that order can reach something observable: the
// body of a loop over a map has to commute (writes to places named by the
// element, sums, smallest or largest values, constants), a list filled in such
// a loop has to be sorted before anything else is done with it.
type orderAn struct {
	chain   []*ssa.Function
	c       *Ctx
	loops   int
	lists   int
	returns map[*ssa.Function]map[int]bool // functions that return a list in map order
	calls   map[string]callEffect
	exempt  func(*ssa.Function) bool // may return a list in map order
	skip    func(*ssa.Function) bool
}

type callEffect struct {
	bad     string
	pos     token.Pos
	carried bool  // the result depends on the calls before
	fills   []int // captured lists that grow in map order
}

type region struct {
	a       *orderAn
	fn      *ssa.Function
	blocks  map[*ssa.BasicBlock]bool
	header  *ssa.BasicBlock
	elem    map[ssa.Value]bool
	carried map[ssa.Value]bool
	index   *ssa.Phi // position in a list in map order
	report  func(pos token.Pos, format string, a ...interface{})
	lists   []ssa.Value // values that hold a list in map order after the loop
	places  []ssa.Value // addresses that hold a list in map order after the loop
	effects map[*ssa.BasicBlock]bool
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if r[b] {
			return
		}
		r[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	found := false
	for _, p := range h.Preds {
		if h.Dominates(p) {
			found = true
			add(p)
		}
	}
	if !found {
		return nil
	}
	return r
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameAddr(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value == y.Value
	}
	return false
}

func (r *region) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() != nil && r.blocks[i.Block()]
}

// rootLocal: the memory of address a was made in this iteration or is reached
// from the element.
func (r *region) local(a ssa.Value) bool {
	for i := 0; i < 50; i++ {
		if r.elem[a] {
			return true
		}
		switch x := a.(type) {
		case *ssa.Alloc:
			return r.in(x)
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			return r.in(x)
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if r.elem[x.Index] {
				return true
			}
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.MakeInterface:
			a = x.X
		case *ssa.Lookup:
			if r.elem[x.Index] {
				return true
			}
			a = x.X
		case *ssa.Extract:
			a = x.Tuple
		case *ssa.Call:
			return r.in(x) && (isBuiltin(x, "append") && r.local(x.Call.Args[0]))
		case *ssa.Const:
			return true
		default:
			return false
		}
	}
	return false
}

func isBuiltin(v ssa.Value, name string) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func addrBase(a ssa.Value) *ssa.Alloc {
	for i := 0; i < 20; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return nil
		}
	}
	return nil
}

// close extends the two sets along the data flow inside the region.
func (r *region) close() {
	for changed := true; changed; {
		changed = false
		mark := func(set map[ssa.Value]bool, v ssa.Value) {
			if v != nil && !set[v] {
				set[v] = true
				changed = true
			}
		}
		for b := range r.blocks {
			for _, in := range b.Instrs {
				var buf [12]*ssa.Value
				e, c := false, false
				for _, o := range in.Operands(buf[:0]) {
					if *o == nil {
						continue
					}
					e = e || r.elem[*o]
					c = c || r.carried[*o]
				}
				if v, ok := in.(ssa.Value); ok {
					if ia, ok := in.(*ssa.IndexAddr); ok && r.elem[ia] && r.index != nil && (ia.Index == r.index || isStep(ia.Index, r.index)) {
						continue
					}
					if e {
						mark(r.elem, v)
					}
					if c && v != ssa.Value(r.index) {
						mark(r.carried, v)
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if al := addrBase(s.Addr); al != nil && r.in(al) {
						if r.elem[s.Val] {
							mark(r.elem, al)
						}
						if r.carried[s.Val] {
							mark(r.carried, al)
						}
					}
				}
			}
		}
	}
}

func isStep(v ssa.Value, p *ssa.Phi) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && b.X == ssa.Value(p)
}

func commutes(op token.Token, t types.Type) bool {
	switch op {
	case token.ADD:
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString == 0
	case token.MUL, token.AND, token.OR, token.XOR:
		return true
	}
	return false
}

// update: how a loop variable changes in one iteration. "" is not at all,
// "sum", "list", "const" and "extreme" commute; anything else does not.
func (r *region) update(v ssa.Value, phi ssa.Value, seen map[ssa.Value]bool) (string, ssa.Value) {
	if v == phi {
		return "", nil
	}
	if seen[v] {
		return "", nil
	}
	seen[v] = true
	join := func(a, b string) string {
		switch {
		case a == b || b == "":
			return a
		case a == "":
			return b
		}
		return "different ways"
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if !r.in(x) || x.Block() == r.header {
			break
		}
		kind := ""
		var cv ssa.Value
		for i, ed := range x.Edges {
			if ed == ssa.Value(phi) {
				continue
			}
			k, val := r.update(ed, phi, seen)
			if k == "other" {
				if r.extreme(x.Block().Preds[i], ed, phi) {
					k = "extreme"
				}
			}
			if k == "const" {
				if cv != nil && !sameAddr(cv, val) {
					return "different constants", nil
				}
				cv = val
			}
			kind = join(kind, k)
		}
		return kind, cv
	case *ssa.BinOp:
		if !r.in(x) {
			break
		}
		if commutes(x.Op, x.Type()) || x.Op == token.SUB {
			if k, _ := r.update(x.X, phi, seen); (k == "" || k == "sum") && !r.carried[x.Y] {
				return "sum", nil
			}
		}
		if commutes(x.Op, x.Type()) {
			if k, _ := r.update(x.Y, phi, seen); (k == "" || k == "sum") && !r.carried[x.X] {
				return "sum", nil
			}
		}
	case *ssa.Call:
		if isBuiltin(x, "append") {
			if k, _ := r.update(x.Call.Args[0], phi, seen); k == "" || k == "list" {
				return "list", nil
			}
		}
		if isBuiltin(x, "min") || isBuiltin(x, "max") {
			n := 0
			for _, a := range x.Call.Args {
				if a == ssa.Value(phi) {
					n++
				} else if r.carried[a] {
					return "other", nil
				}
			}
			if n == 1 {
				return "extreme", nil
			}
		}
		if n := calleeName(&x.Call); (n == "math.Max" || n == "math.Min") && len(x.Call.Args) == 2 {
			a, b := x.Call.Args[0], x.Call.Args[1]
			if a == ssa.Value(phi) && !r.carried[b] || b == ssa.Value(phi) && !r.carried[a] {
				return "extreme", nil
			}
		}
		if k := r.helperUpdate(x, 0, phi, seen); k != "" {
			return k, nil
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && r.in(x) {
			if k := r.helperUpdate(call, x.Index, phi, seen); k != "" {
				return k, nil
			}
		}
	case *ssa.Slice:
		if k, _ := r.update(x.X, phi, seen); k == "list" || k == "" {
			return k, nil
		}
	}
	if !r.in(v) && !r.elem[v] && !r.carried[v] {
		return "const", v
	}
	if _, ok := v.(*ssa.Const); ok {
		return "const", v
	}
	return "other", nil
}

// helperUpdate: the n-th result of the call is the loop variable it is given,
// changed the way update describes; "" where it is not.
func (r *region) helperUpdate(call *ssa.Call, n int, phi ssa.Value, seen map[ssa.Value]bool) string {
	t := call.Call.StaticCallee()
	if t == nil || !inRepoFn(t) || len(t.Blocks) == 0 || len(r.a.chain) > 8 {
		return ""
	}
	for _, f := range r.a.chain {
		if f == t {
			return ""
		}
	}
	r.a.chain = append(r.a.chain, t)
	defer func() { r.a.chain = r.a.chain[:len(r.a.chain)-1] }()
	for i, arg := range call.Call.Args {
		k, _ := r.update(arg, phi, map[ssa.Value]bool{})
		if k != "" && k != "list" && k != "sum" || i >= len(t.Params) || !r.in(arg) && arg != phi {
			continue
		}
		// nothing else it is given depends on the iterations before
		alone := true
		for j, other := range call.Call.Args {
			alone = alone && (j == i || !r.carried[other] || other == phi)
		}
		if !alone {
			continue
		}
		h := &region{a: r.a, fn: t, blocks: map[*ssa.BasicBlock]bool{}, elem: map[ssa.Value]bool{}, carried: map[ssa.Value]bool{}, effects: map[*ssa.BasicBlock]bool{}, report: func(token.Pos, string, ...interface{}) {}}
		for _, b := range t.Blocks {
			h.blocks[b] = true
		}
		h.carried[t.Params[i]] = true
		h.body()
		kind, ok := k, true
		for _, b := range t.Blocks {
			ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if is {
				kk, _ := h.update(ret.Results[n], t.Params[i], map[ssa.Value]bool{})
				ok = ok && (kk == "" || kk == "list" || kk == "sum") && (kind == "" || kk == "" || kind == kk)
				if kind == "" {
					kind = kk
				}
			}
			if iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If); is && h.carried[iff.Cond] {
				ok = false
			}
		}
		if ok && kind != "" {
			return kind
		}
	}
	return ""
}

// extreme: block from is entered only when v is beyond phi
func (r *region) extreme(from *ssa.BasicBlock, v ssa.Value, phi ssa.Value) bool {
	for i := 0; i < 4; i++ {
		var guard *ssa.BasicBlock
		if len(from.Preds) == 1 {
			guard = from.Preds[0]
		} else {
			return false
		}
		if iff, ok := guard.Instrs[len(guard.Instrs)-1].(*ssa.If); ok {
			if b, ok := iff.Cond.(*ssa.BinOp); ok {
				switch b.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if sameAddr(b.X, v) && b.Y == ssa.Value(phi) || sameAddr(b.Y, v) && b.X == ssa.Value(phi) {
						return true
					}
				}
			}
		}
		from = guard
	}
	return false
}

func calleeName(com *ssa.CallCommon) string {
	if f := com.StaticCallee(); f != nil {
		return extName(f)
	}
	if com.IsInvoke() {
		return com.Method.FullName()
	}
	return ""
}

// loop checks one loop over elements in map order.
func (a *orderAn) loop(fn *ssa.Function, h *ssa.BasicBlock, seeds []ssa.Value, index *ssa.Phi, report func(token.Pos, string, ...interface{})) *region {
	blocks := loopBlocks(h)
	r := &region{a: a, fn: fn, blocks: blocks, header: h, index: index, elem: map[ssa.Value]bool{}, carried: map[ssa.Value]bool{}, effects: map[*ssa.BasicBlock]bool{}, report: report}
	if blocks == nil {
		return r // at most one element is visited: see the exits
	}
	a.loops++
	for _, s := range seeds {
		r.elem[s] = true
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			r.carried[p] = true
		}
	}
	r.body()
	// loop variables
	for _, p := range phis {
		if p == index {
			continue
		}
		kind := ""
		for i, ed := range p.Edges {
			if !blocks[h.Preds[i]] {
				continue
			}
			k, _ := r.update(ed, p, map[ssa.Value]bool{})
			if kind == "" || kind == k {
				kind = k
			} else if k != "" {
				kind = "different ways"
			}
		}
		switch kind {
		case "", "sum", "const", "extreme":
		case "list":
			r.lists = append(r.lists, p)
		default:
			r.report(p.Pos(), "what %s is after the loop depends on the order of the elements", name(p))
		}
	}
	// conditions on what the iterations before did
	for b := range blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == h || !r.carried[iff.Cond] {
			continue
		}
		for _, s := range b.Succs {
			if !blocks[s] || len(s.Preds) > 1 {
				continue
			}
			for d := range blocks {
				if s.Dominates(d) && r.effects[d] {
					r.report(iff.Cond.Pos(), "whether something is done with an element depends on the elements before it")
				}
				if !s.Dominates(d) {
					continue
				}
				for _, in := range d.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok && r.carried[bo] && (commutes(bo.Op, bo.Type()) || bo.Op == token.SUB) && r.accumulates(bo) {
						r.report(bo.Pos(), "whether an element is added depends on the elements before it")
					}
				}
			}
		}
	}
	// exits
	any := false
	for b := range blocks {
		any = any || r.effects[b]
	}
	for b := range blocks {
		if b == h {
			continue
		}
		for i, s := range b.Succs {
			if blocks[s] || endsInPanic(s, 0) {
				continue
			}
			_ = i
			pos := b.Instrs[len(b.Instrs)-1].Pos()
			if any || len(r.lists) > 0 {
				r.report(pos, "the loop ends early: which elements are visited depends on their order")
				continue
			}
			if r.carried[lastCond(b)] {
				r.report(pos, "the loop ends early, depending on the elements before")
				continue
			}
			r.leaving(b, s, pos)
		}
	}
	return r
}

func lastCond(b *ssa.BasicBlock) ssa.Value {
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		return iff.Cond
	}
	return nil
}

// accumulates: bo leads back to a loop variable
func (r *region) accumulates(bo ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				if x.Block() == r.header && x != r.index {
					return true
				}
				if r.in(x) && walk(x) {
					return true
				}
			case *ssa.BinOp:
				if r.in(x) && walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(bo)
}

// leaving: the values that leave the loop at an early exit
func (r *region) leaving(b, s *ssa.BasicBlock, pos token.Pos) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock, from *ssa.BasicBlock)
	walk = func(x, from *ssa.BasicBlock) {
		for _, in := range x.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, pr := range x.Preds {
					if pr == from && (r.in(p.Edges[i]) || r.elem[p.Edges[i]]) {
						r.report(pos, "the loop ends early with a value of the element it stops at")
					}
				}
				continue
			}
			var buf [12]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				if *o != nil && r.in(*o) {
					if ph, ok := (*o).(*ssa.Phi); ok && ph.Block() == r.header && !r.elem[ph] {
						continue
					}
					r.report(pos, "the loop ends early with a value of the element it stops at")
				}
			}
		}
		if seen[x] {
			return
		}
		seen[x] = true
		for _, y := range x.Succs {
			if !r.blocks[y] && (x == s || s.Dominates(x)) {
				walk(y, x)
			}
		}
	}
	walk(s, b)
}

func endsInPanic(b *ssa.BasicBlock, depth int) bool {
	for _, in := range b.Instrs {
		if c, ok := in.(ssa.CallInstruction); ok {
			switch calleeName(c.Common()) {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*go.uber.org/zap.Logger).Fatal", "(*go.uber.org/zap.Logger).Panic":
				return true
			}
		}
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
		return true
	}
	if depth > 6 || len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if s == b || !endsInPanic(s, depth+1) {
			return false
		}
	}
	return true
}

func name(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

// body checks the effects of the blocks of the region.
func (r *region) body() {
	r.close()
	// what the region accumulates in memory is carried where it is read
	var acc []*ssa.Store
	var upd []*ssa.MapUpdate
	for b := range r.blocks {
		for _, in := range b.Instrs {
			switch s := in.(type) {
			case *ssa.Store:
				if !r.local(s.Addr) {
					acc = append(acc, s)
				}
			case *ssa.MapUpdate:
				if !r.local(s.Map) && !r.elem[s.Key] {
					upd = append(upd, s)
				}
			}
		}
	}
	for _, s := range acc {
		for b := range r.blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || !sameAddr(ld.X, s.Addr) {
					continue
				}
				own := true
				for _, u := range *ld.Referrers() {
					if !r.ownUse(u, s) {
						own = false
					}
				}
				if !own {
					r.carried[ld] = true
				}
			}
		}
	}
	r.close()
	for b := range r.blocks {
		for _, in := range b.Instrs {
			r.instr(b, in, acc)
		}
	}
	for _, s := range upd {
		if lk := oldOf(s.Value, func(v ssa.Value) bool {
			l, ok := v.(*ssa.Lookup)
			return ok && sameAddr(l.X, s.Map) && sameAddr(l.Index, s.Key)
		}); lk == "sum" {
			continue
		}
		if !r.elem[s.Value] && !r.carried[s.Value] {
			continue
		}
		r.report(s.Pos(), "the last element visited decides an entry of %s", s.Map.Name())
	}
}

// ownUse: u only serves to compute what s stores back
func (r *region) ownUse(u ssa.Instruction, s *ssa.Store) bool {
	switch x := u.(type) {
	case *ssa.BinOp:
		return x == s.Val || usedOnlyBy(x, s.Val)
	case *ssa.Call:
		return x == s.Val && isBuiltin(x, "append")
	case *ssa.DebugRef:
		return true
	}
	return false
}

func usedOnlyBy(v ssa.Value, w ssa.Value) bool {
	for _, u := range *v.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || ssa.Value(b) != w && !usedOnlyBy(b, w) {
			return false
		}
	}
	return true
}

// oldOf: how v is made from an old value
func oldOf(v ssa.Value, old func(ssa.Value) bool) string {
	if old(v) {
		return "same"
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if commutes(x.Op, x.Type()) || x.Op == token.SUB {
			if k := oldOf(x.X, old); k == "same" || k == "sum" {
				return "sum"
			}
		}
		if commutes(x.Op, x.Type()) {
			if k := oldOf(x.Y, old); k == "same" || k == "sum" {
				return "sum"
			}
		}
	case *ssa.Call:
		if isBuiltin(x, "append") {
			if k := oldOf(x.Call.Args[0], old); k == "same" || k == "list" {
				return "list"
			}
		}
	}
	return ""
}

func (r *region) instr(b *ssa.BasicBlock, in ssa.Instruction, acc []*ssa.Store) {
	switch s := in.(type) {
	case *ssa.Store:
		if r.local(s.Addr) {
			if addrBase(s.Addr) == nil || !r.in(addrBase(s.Addr)) {
				r.effects[b] = true
				if r.carried[s.Val] {
					r.report(s.Pos(), "an element is given a value that depends on the elements before it")
				}
			}
			return
		}
		r.effects[b] = true
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok && r.carried[ia.Index] {
			// filled position by position
			if r.header != nil {
				r.lists = append(r.lists, ia.X)
				return
			}
		}
		kind := oldOf(s.Val, func(v ssa.Value) bool {
			l, ok := v.(*ssa.UnOp)
			return ok && l.Op == token.MUL && sameAddr(l.X, s.Addr)
		})
		switch kind {
		case "same":
			return
		case "sum":
			if !r.carriedBeside(s) {
				return
			}
		case "list":
			r.places = append(r.places, s.Addr)
			return
		}
		if !r.elem[s.Val] && !r.carried[s.Val] && kind == "" && !r.callMade(s.Val) {
			return // the same for all elements
		}
		r.report(s.Pos(), "what is stored depends on the order of the elements")
	case *ssa.MapUpdate:
		r.effects[b] = true
		if r.elem[s.Key] && r.carried[s.Value] {
			r.report(s.Pos(), "an element is given a value that depends on the elements before it")
		}
		if r.carried[s.Key] && !r.elem[s.Key] {
			r.report(s.Pos(), "an element is given a key that depends on the elements before it")
		}
	case *ssa.Send:
		r.effects[b] = true
		if !r.local(s.Chan) {
			r.report(s.Pos(), "the elements are sent in map order")
		}
	case *ssa.Go:
		r.effects[b] = true
		r.report(s.Pos(), "the elements are handed to goroutines in map order")
	case *ssa.Defer:
		r.effects[b] = true
		r.report(s.Pos(), "the elements are deferred in map order")
	case *ssa.Select:
		r.effects[b] = true
		r.report(s.Pos(), "a select for every element of a map")
	case *ssa.UnOp:
		if s.Op == token.ARROW {
			r.effects[b] = true
			r.report(s.Pos(), "something is received for every element in map order")
		}
	case *ssa.Return:
		if r.header == nil {
			return
		}
	case *ssa.Call:
		r.call(b, s)
	}
}

func (r *region) callMade(v ssa.Value) bool {
	_, ok := v.(*ssa.Call)
	return ok && r.in(v) && r.header == nil && false
}

// carriedBeside: apart from the old value, what is stored depends on earlier elements
func (r *region) carriedBeside(s *ssa.Store) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL && sameAddr(l.X, s.Addr) {
			return false
		}
		if b, ok := v.(*ssa.BinOp); ok && r.in(b) && (commutes(b.Op, b.Type()) || b.Op == token.SUB) {
			return walk(b.X) || walk(b.Y)
		}
		return r.carried[v]
	}
	return walk(s.Val)
}

func quietCall(n string) bool {
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "go.uber.org/zap"), strings.Contains(n, "go.uber.org/zap."),
		strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log.Logger)."), n == "os.Exit":
		return true
	case strings.HasPrefix(n, "(error)."), strings.HasPrefix(n, "time."), strings.HasPrefix(n, "(time."):
		return true
	case strings.HasPrefix(n, "(reflect.Value).") && !strings.Contains(n, ".Set") && !strings.HasSuffix(n, ".Call"):
		return true
	case strings.HasPrefix(n, "(*reflect.MapIter)."):
		return true
	}
	return false
}

func (r *region) call(b *ssa.BasicBlock, s *ssa.Call) {
	com := &s.Call
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			r.effects[b] = true
			if r.carried[com.Args[1]] {
				r.report(s.Pos(), "what is deleted depends on the elements before")
			}
		case "copy":
			if !r.local(com.Args[0]) {
				r.effects[b] = true
				r.report(s.Pos(), "a list is overwritten for every element")
			}
		case "close":
			r.effects[b] = true
			r.report(s.Pos(), "a channel is closed in map order")
		}
		return
	}
	ts := r.a.c.w.callees(com)
	repo := 0
	for _, t := range ts {
		if len(t.Blocks) == 0 {
			continue
		}
		repo++
		if r.a.skip(t) {
			continue
		}
		eff := r.a.callEffect(t, r, s)
		if eff.bad != "" {
			r.effects[b] = true
			r.report(s.Pos(), "for every element of a map, %s is called: %s", fnName(t), eff.bad)
		}
		for _, i := range eff.fills { // a list of the caller
			mc, ok := com.Value.(*ssa.MakeClosure)
			if !ok || i >= len(mc.Bindings) {
				r.effects[b] = true
				r.report(s.Pos(), "for every element of a map, %s is called: a list is filled in map order", fnName(t))
				continue
			}
			r.places = append(r.places, mc.Bindings[i])
			r.effects[b] = true
		}
		if m := r.a.c.w.rw(t); len(m.mod) > 0 || m.events {
			r.effects[b] = true
		}
		if eff.carried && len(*s.Referrers()) > 0 {
			r.carried[s] = true
			r.close()
		}
	}
	if repo > 0 {
		return
	}
	n := calleeName(com)
	if n == "" || quietCall(n) {
		return
	}
	if f := com.StaticCallee(); f != nil && (pureExternal(f) || ignoredExternal(f)) {
		return
	}
	for i, x := range com.Args {
		switch x.Type().Underlying().(type) {
		case *types.Basic:
			continue
		}
		if i > 0 && n == "encoding/json.Unmarshal" {
			continue
		}
		if !r.local(x) {
			r.effects[b] = true
			r.report(s.Pos(), "%s is called for the elements in map order", n)
			return
		}
	}
}

// callEffect: whether calling fn for the elements in another order is the same.
func (a *orderAn) callEffect(fn *ssa.Function, from *region, s *ssa.Call) callEffect {
	args := s.Call.Args
	if s.Call.IsInvoke() {
		args = append([]ssa.Value{s.Call.Value}, args...)
	}
	key := fn.String()
	var seeds []ssa.Value
	for i, p := range fn.Params {
		if i < len(args) && (from.elem[args[i]] || from.local(args[i])) {
			seeds = append(seeds, p)
			key += fmt.Sprint(" ", i)
		}
	}
	if mc, ok := s.Call.Value.(*ssa.MakeClosure); ok {
		for i, bv := range mc.Bindings {
			if from.elem[bv] || from.local(bv) {
				seeds = append(seeds, fn.FreeVars[i])
				key += fmt.Sprint(" b", i)
			}
		}
	}
	if e, ok := a.calls[key]; ok {
		return e
	}
	a.calls[key] = callEffect{}
	res := callEffect{}
	r := &region{a: a, fn: fn, blocks: map[*ssa.BasicBlock]bool{}, elem: map[ssa.Value]bool{}, carried: map[ssa.Value]bool{}, effects: map[*ssa.BasicBlock]bool{}}
	r.report = func(pos token.Pos, f string, x ...interface{}) {
		if res.bad == "" {
			res.bad = fmt.Sprintf(f, x...) + " (" + a.c.where(pos) + ")"
		}
	}
	for _, b := range fn.Blocks {
		r.blocks[b] = true
	}
	for _, v := range seeds {
		r.elem[v] = true
	}
	r.body()
	for _, p := range r.places {
		at := -1
		for i, fv := range fn.FreeVars {
			if p == ssa.Value(fv) {
				at = i
			}
		}
		if at < 0 {
			r.report(fn.Pos(), "a list is filled in map order")
			continue
		}
		res.fills = append(res.fills, at)
	}
	for b := range r.blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				res.carried = res.carried || r.carried[v]
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && r.carried[iff.Cond] {
			r.report(iff.Cond.Pos(), "what is done depends on the elements before")
		}
	}
	a.calls[key] = res
	return res
}

// ---- lists in map order

// isSort: the call sorts its first argument
func sorts(com *ssa.CallCommon) bool {
	n := calleeName(com)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	switch n {
	case "sort.Ints", "sort.Strings", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// growsOnly: the closure is only called, and does nothing but append to the
// captured list.
func growsOnly(mc *ssa.MakeClosure, al ssa.Value) bool {
	for _, u := range *mc.Referrers() {
		call, ok := u.(*ssa.Call)
		if !ok || call.Call.Value != ssa.Value(mc) {
			return false
		}
	}
	f, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return false
	}
	for i, b := range mc.Bindings {
		if b != al {
			continue
		}
		for _, u := range *f.FreeVars[i].Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				call, ok := x.Val.(*ssa.Call)
				if !ok || x.Addr != ssa.Value(f.FreeVars[i]) || !isBuiltin(call, "append") {
					return false
				}
			case *ssa.UnOp:
				for _, lu := range *x.Referrers() {
					call, ok := lu.(*ssa.Call)
					if !ok || !isBuiltin(call, "append") || call.Call.Args[0] != ssa.Value(x) {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	return true
}

type listUse struct {
	a      *orderAn
	fn     *ssa.Function
	what   string
	keys   map[ssa.Value]bool
	report func(token.Pos, string, ...interface{})
	seen   map[ssa.Value]bool
	sorted []ssa.Instruction
	ret    map[int]bool
	inside map[*ssa.BasicBlock]bool
}

// alias: the values that are the list v, or its places
func (l *listUse) aliases(v ssa.Value, place bool) (vals, places []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var addV, addP func(v ssa.Value)
	addP = func(p ssa.Value) {
		for _, x := range places {
			if sameAddr(x, p) {
				return
			}
		}
		places = append(places, p)
		for _, b := range l.fn.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, p) {
					addV(ld)
				}
			}
		}
	}
	addV = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		vals = append(vals, v)
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Slice:
				if x.X == v {
					addV(x)
				}
			case *ssa.ChangeType:
				addV(x)
			case *ssa.MakeInterface:
				addV(x)
			case *ssa.Phi:
				addV(x)
			case *ssa.Call:
				if isBuiltin(x, "append") {
					addV(x)
				}
			case *ssa.Store:
				if x.Val == v {
					addP(x.Addr)
				}
			}
		}
	}
	if place {
		addP(v)
	} else {
		addV(v)
	}
	return
}

func (a *orderAn) list(fn *ssa.Function, v ssa.Value, place bool, at token.Pos, inside map[*ssa.BasicBlock]bool, report func(token.Pos, string, ...interface{})) (rets map[int]bool, sortedAll bool) {
	a.lists++
	l := &listUse{a: a, fn: fn, report: report, ret: map[int]bool{}, inside: inside}
	vals, places := l.aliases(v, place)
	isVal := map[ssa.Value]bool{}
	for _, x := range vals {
		isVal[x] = true
	}
	// sorts
	for _, x := range vals {
		for _, u := range *x.Referrers() {
			c, ok := u.(*ssa.Call)
			if !ok || inside[c.Block()] {
				continue
			}
			if sorts(&c.Call) && len(c.Call.Args) > 0 && isVal[c.Call.Args[0]] {
				l.sorted = append(l.sorted, c)
				if bad := a.lessTies(fn, &c.Call, isVal); bad {
					report(c.Pos(), "a list in map order is sorted by something that does not tell its entries apart")
				}
				continue
			}
			for i, arg := range c.Call.Args {
				if !isVal[arg] {
					continue
				}
				for _, t := range a.c.w.callees(&c.Call) {
					if len(t.Blocks) > 0 && i < len(t.Params) && !c.Call.IsInvoke() {
						if _, all := a.list(t, t.Params[i], false, t.Pos(), nil, func(token.Pos, string, ...interface{}) {}); all {
							l.sorted = append(l.sorted, c)
						}
					}
				}
			}
		}
	}
	done := func(in ssa.Instruction) bool {
		if inside[in.Block()] {
			return true
		}
		for _, s := range l.sorted {
			if s != in && before(s, in) {
				return true
			}
		}
		return false
	}
	for _, x := range vals {
		for _, u := range *x.Referrers() {
			if done(u) {
				continue
			}
			switch y := u.(type) {
			case *ssa.DebugRef, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi:
			case *ssa.Store:
				if y.Addr == x {
					report(y.Pos(), "a list in map order is used at %s before it is sorted", a.c.where(y.Pos()))
				}
			case *ssa.Return:
				for i, res := range y.Results {
					if res == x {
						l.ret[i] = true
					}
				}
			case *ssa.BinOp:
			case *ssa.IndexAddr, *ssa.Index:
				in := u
				h, idx := indexLoop(in)
				if h == nil {
					report(in.Pos(), "an entry of a list in map order is taken by its position")
					continue
				}
				r := a.loop(fn, h, []ssa.Value{u.(ssa.Value)}, idx, report)
				a.after(fn, r, report)
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "append":
						continue
					}
					report(y.Pos(), "a list in map order is copied before it is sorted")
					continue
				}
				if sorts(&y.Call) {
					continue
				}
				if quietCall(calleeName(&y.Call)) {
					continue
				}
				sortedHere := false
				for _, s := range l.sorted {
					sortedHere = sortedHere || s == u
				}
				if sortedHere {
					continue
				}
				handled := false
				for i, arg := range y.Call.Args {
					if arg != x || y.Call.IsInvoke() {
						continue
					}
					for _, t := range a.c.w.callees(&y.Call) {
						if len(t.Blocks) > 0 && i < len(t.Params) {
							handled = true
							rs, _ := a.list(t, t.Params[i], false, t.Pos(), nil, report)
							for i := range rs {
								for _, v := range resultsOf(y, i) {
									a.list(fn, v, false, y.Pos(), nil, report)
								}
							}
						}
					}
				}
				if !handled {
					report(y.Pos(), "a list in map order is handed to %s", calleeName(&y.Call))
				}
			default:
				report(u.Pos(), "a list in map order is used before it is sorted")
			}
		}
	}
	for _, p := range places {
		al, isAlloc := p.(*ssa.Alloc)
		if isAlloc {
			for _, u := range *al.Referrers() {
				mc, ok := u.(*ssa.MakeClosure)
				if !ok || done(u) {
					continue
				}
				only := true
				if growsOnly(mc, al) {
					continue
				}
				for _, cu := range *mc.Referrers() {
					c, ok := cu.(*ssa.Call)
					if !ok || !sorts(&c.Call) {
						only = false
					}
				}
				if !only {
					report(mc.Pos(), "a list in map order is captured before it is sorted")
				}
			}
			continue
		}
		// a place that outlives the function
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok && !done(ret) {
				report(ret.Pos(), "%s keeps a list in map order", placeName(p))
			}
		}
	}
	all := len(l.sorted) > 0
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !done(ret) {
			all = false
		}
	}
	return l.ret, all
}

// resultsOf: the values that are the i-th result of a call.
func resultsOf(call *ssa.Call, i int) []ssa.Value {
	if _, ok := call.Type().(*types.Tuple); !ok {
		return []ssa.Value{call}
	}
	var out []ssa.Value
	for _, u := range *call.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == i {
			out = append(out, x)
		}
	}
	return out
}

func placeName(p ssa.Value) string {
	if f, ok := p.(*ssa.FieldAddr); ok {
		return fieldKey(f.X.Type(), f.Field)
	}
	return p.Name()
}

// indexLoop: in takes the entry at the counter of a loop
func indexLoop(in ssa.Instruction) (*ssa.BasicBlock, *ssa.Phi) {
	var idx ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		idx = x.Index
	case *ssa.Index:
		idx = x.Index
	}
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD {
		idx = b.X
	}
	p, ok := idx.(*ssa.Phi)
	if !ok {
		return nil, nil
	}
	bl := loopBlocks(p.Block())
	if bl == nil || !bl[in.Block()] {
		return nil, nil
	}
	return p.Block(), p
}

// lessTies: the comparison of a sort does not look at whole entries
func (a *orderAn) lessTies(fn *ssa.Function, com *ssa.CallCommon, isVal map[ssa.Value]bool) bool {
	if len(com.Args) < 2 {
		return false
	}
	var less *ssa.Function
	switch x := com.Args[1].(type) {
	case *ssa.MakeClosure:
		less, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		less = x
	}
	if less == nil || len(less.Blocks) == 0 {
		return true
	}
	whole := false
	check := func(v ssa.Value) bool {
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Call:
				n := calleeName(&x.Call)
				if !strings.HasPrefix(n, "(reflect.Value).") || len(x.Call.Args) != 1 {
					return false
				}
				v = x.Call.Args[0]
			case *ssa.FieldAddr:
				if !a.keyField(fn, x) {
					return false
				}
				v = x.X
			case *ssa.IndexAddr, *ssa.Parameter:
				return true
			case *ssa.Index:
				return true
			default:
				return false
			}
		}
		return false
	}
	parts := []*ssa.Function{less}
	seen := map[*ssa.Function]bool{less: true}
	for i := 0; i < len(parts); i++ {
		for _, b := range parts[i].Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && inRepoFn(f) && len(f.Blocks) > 0 && !seen[f] {
						seen[f] = true
						parts = append(parts, f)
					}
				}
			}
		}
	}
	var blocks []*ssa.BasicBlock
	for _, f := range parts {
		blocks = append(blocks, f.Blocks...)
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					whole = whole || check(x.X) && check(x.Y)
				case token.SUB:
					whole = whole || check(x.X) && check(x.Y)
				}
			case *ssa.Call:
				if n := calleeName(&x.Call); strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare") {
					whole = whole || check(x.Call.Args[0]) && check(x.Call.Args[1])
				}
			}
		}
	}
	return !whole
}

// keyField: fn stores map keys in the field
func (a *orderAn) keyField(fn *ssa.Function, fa *ssa.FieldAddr) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			f, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || f.Field != fa.Field || fieldKey(f.X.Type(), f.Field) != fieldKey(fa.X.Type(), fa.Field) {
				continue
			}
			if ex, ok := s.Val.(*ssa.Extract); ok && ex.Index == 1 {
				if _, ok := ex.Tuple.(*ssa.Next); ok {
					return true
				}
			}
		}
	}
	return false
}

// after follows what a loop leaves behind
func (a *orderAn) after(fn *ssa.Function, r *region, report func(token.Pos, string, ...interface{})) {
	for _, v := range r.lists {
		rs, _ := a.list(fn, v, false, v.Pos(), r.blocks, report)
		a.returned(fn, rs, v.Pos(), report)
	}
	for _, p := range r.places {
		rs, _ := a.list(fn, p, true, p.Pos(), r.blocks, report)
		a.returned(fn, rs, p.Pos(), report)
	}
}

func (a *orderAn) returned(fn *ssa.Function, rs map[int]bool, pos token.Pos, report func(token.Pos, string, ...interface{})) {
	if len(rs) == 0 || a.exempt(fn) {
		return
	}
	if a.returns[fn] == nil {
		a.returns[fn] = map[int]bool{}
	}
	for i := range rs {
		a.returns[fn][i] = true
	}
}
