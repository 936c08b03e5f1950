package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Types, fields, functions and constants are known to the rules by the names
// in refs.go. When one of them is gone and an unknown one of the same shape has
// appeared in its place, the new one is taken to be the old one renamed, so
// that a rename raises no alarm. Everything the rules see carries the names
// they know.

var (
	renamed      = map[string]string{}        // "pkg.Type.actual" field -> known name
	renamedType  = map[string]string{}        // "pkg.Actual" -> known "pkg.Name"
	renamedFn    = map[string]*ssa.Function{} // known name -> function
	renamedConst = map[string]string{}        // known "pkg.name" -> actual name
	methodAlias  = map[string]string{}        // actual method name -> known name
	fnAlias      = map[*ssa.Function]string{} // function -> known name
)

func typeName(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		if n.Obj().Pkg() != nil {
			r := n.Obj().Pkg().Name() + "." + n.Obj().Name()
			if k, ok := renamedType[r]; ok {
				return k
			}
			return r
		}
		return n.Obj().Name()
	}
	return "struct"
}

// actualType is the present name of a known type.
func actualType(pkg, name string) string {
	for a, k := range renamedType {
		if k == pkg+"."+name {
			return strings.TrimPrefix(a, pkg+".")
		}
	}
	return name
}

// methodName is the known name of a declared or interface method.
func methodName(o types.Object) string {
	if k, ok := methodAlias[o.Name()]; ok && o.Pkg() != nil && inRepoPkg(o.Pkg()) {
		return k
	}
	return o.Name()
}

// fnShort is the known name of a function without its package or type.
func fnShort(f *ssa.Function) string {
	if k, ok := fnAlias[f]; ok {
		return k[strings.LastIndex(k, ".")+1:]
	}
	return f.Name()
}

// fnName is the full name of a function, made of known names.
func fnName(f *ssa.Function) string {
	r := f.RelString(nil)
	if len(renamedType) == 0 && len(fnAlias) == 0 {
		return r
	}
	for a, k := range renamedType {
		i := strings.IndexByte(a, '.')
		r = strings.ReplaceAll(r, "/"+a+")", "/"+k+")")
		r = strings.ReplaceAll(r, "/"+a[:i]+"."+a[i+1:]+".", "/"+k+".")
	}
	if k, ok := fnAlias[f]; ok {
		r = strings.TrimSuffix(r, f.Name()) + k[strings.LastIndex(k, ".")+1:]
	}
	return r
}

func fieldName(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	n := st.Field(i).Name()
	if len(renamed) > 0 {
		if r, ok := renamed[typeName(t)+"."+n]; ok {
			return r
		}
	}
	return n
}

// typeText writes a type with the known names of types.
func typeText(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	for a, k := range renamedType {
		s = replaceWord(s, a, k)
	}
	return s
}

func replaceWord(s, a, k string) string {
	for from := 0; ; {
		i := strings.Index(s[from:], a)
		if i < 0 {
			return s
		}
		i += from
		j := i + len(a)
		if j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 'a' && s[j] <= 'z') {
			from = j
			continue
		}
		s = s[:i] + k + s[j:]
		from = i + len(k)
	}
}

func structKnown(n *types.Named) bool {
	_, ok := n.Underlying().(*types.Struct)
	return ok && inRepoPkg(n.Obj().Pkg()) && !strings.Contains(n.String(), "Service")
}

// refFnName is the name under which a declared function is known.
func refFnName(f *ssa.Function) string {
	if f.Pkg == nil || !inRepoPkg(f.Pkg.Pkg) || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil {
		return ""
	}
	if strings.Contains(f.RelString(nil), "Service") {
		return ""
	}
	if r := f.Signature.Recv(); r != nil {
		return typeName(deref(r.Type())) + "." + f.Name()
	}
	return f.Pkg.Pkg.Name() + "." + f.Name()
}

// helper: a function the rules have no name for, a part of its callers.
func helper(f *ssa.Function) bool {
	if f.Parent() != nil {
		return true
	}
	n := refFnName(f)
	return n != "" && refFuncs[n] == [2]string{} && fnAlias[f] == ""
}

// sigText is the signature of a function with its receiver as first parameter.
func sigText(f *ssa.Function) string {
	var ps []string
	for _, p := range f.Params {
		ps = append(ps, strings.TrimPrefix(typeText(p.Type()), "*"))
	}
	return strings.Join(ps, ",") + "->" + typeText(f.Signature.Results())
}

// traits are the names a function body refers to.
func traits(f *ssa.Function) []string {
	m := map[string]bool{}
	fs := []*ssa.Function{f}
	for len(fs) > 0 {
		g := fs[0]
		fs = append(fs[1:], g.AnonFuncs...)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					m["."+fieldName(deref(x.X.Type()), x.Field)] = true
				case *ssa.Field:
					m["."+fieldName(x.X.Type(), x.Field)] = true
				case ssa.CallInstruction:
					if c := x.Common(); c.IsInvoke() {
						m[methodName(c.Method)] = true
					} else if t := c.StaticCallee(); t != nil {
						m[t.Name()] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && len(k.Value.String()) < 30 {
						m[k.Value.String()] = true
					}
				}
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func overlap(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	if len(a)+len(b) == 0 {
		return 1
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

func resolveRenames(w *World) {
	renamed, renamedType, renamedFn = map[string]string{}, map[string]string{}, map[string]*ssa.Function{}
	renamedConst, fnAlias, methodAlias = map[string]string{}, map[*ssa.Function]string{}, map[string]string{}
	w.renameTypes()
	w.renameFields()
	w.renameFuncs()
	w.renameConsts()
}

func (w *World) renameTypes() {
	have := map[string]bool{}
	for _, n := range w.named {
		have[typeName(n)] = true
	}
	var lost []string
	for k := range refFields {
		if !have[k] {
			lost = append(lost, k)
		}
	}
	sort.Strings(lost)
	w.renameIfaces()
	for _, k := range lost {
		var best string
		bs := 0.6
		for _, n := range w.named {
			tn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
			if !structKnown(n) || refFields[tn] != nil || renamedType[tn] != "" || !strings.HasPrefix(k, n.Obj().Pkg().Name()+".") {
				continue
			}
			st := n.Underlying().(*types.Struct)
			var a, b []string
			for i := 0; i < st.NumFields(); i++ {
				a = append(a, st.Field(i).Name())
			}
			for _, f := range refFields[k] {
				b = append(b, f[0])
			}
			if o := overlap(a, b); o > bs {
				best, bs = tn, o
			}
		}
		if best != "" {
			renamedType[best] = k
		}
	}
}

// renameIfaces: an interface the rules know that is gone is the one of its
// package with the most methods.
func (w *World) renameIfaces() {
	for _, k := range []string{"cache.Cache", "queue.Queue"} {
		best, bs := "", 4
		for _, p := range w.pkgs {
			if !inRepoPkg(p.Pkg) || !strings.HasPrefix(k, p.Pkg.Name()+".") {
				continue
			}
			for name, m := range p.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				it, ok := t.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				n := it.NumMethods()
				if p.Pkg.Name()+"."+name == k {
					n = 1000
				}
				if n > bs {
					best, bs = p.Pkg.Name()+"."+name, n
				}
			}
		}
		if best != "" && best != k {
			renamedType[best] = k
		}
	}
}

func (w *World) renameFields() {
	for _, n := range w.named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		tn := typeName(n)
		ref, ok := refFields[tn]
		if !ok {
			continue
		}
		have := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			have[st.Field(i).Name()] = true
		}
		knownF := map[string]bool{}
		lost := map[string][]string{}
		for _, r := range ref {
			knownF[r[0]] = true
			if !have[r[0]] {
				lost[r[1]] = append(lost[r[1]], r[0])
			}
		}
		if len(lost) == 0 {
			continue
		}
		fresh := map[string][]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !knownF[f.Name()] {
				k := typeText(f.Type())
				fresh[k] = append(fresh[k], f.Name())
			}
		}
		for ty, ls := range lost {
			fs := fresh[ty]
			if len(fs) != len(ls) {
				continue
			}
			for i := range ls {
				renamed[tn+"."+fs[i]] = ls[i]
			}
		}
	}
}

func (w *World) renameFuncs() {
	have := map[string]bool{}
	fresh := map[string][]*ssa.Function{} // signature -> unknown functions
	for _, f := range w.funcs {
		n := refFnName(f)
		if n == "" {
			continue
		}
		have[n] = true
		if _, ok := refFuncs[n]; !ok {
			k := f.Pkg.Pkg.Name() + ":" + sigText(f)
			fresh[k] = append(fresh[k], f)
		}
	}
	var lost []string
	for k := range refFuncs {
		if !have[k] {
			lost = append(lost, k)
		}
	}
	sort.Strings(lost)
	type pair struct {
		k string
		f *ssa.Function
		o float64
	}
	var ps []pair
	for _, k := range lost {
		ref := refFuncs[k]
		for _, f := range fresh[k[:strings.IndexByte(k, '.')]+":"+ref[0]] {
			ps = append(ps, pair{k, f, overlap(traits(f), strings.Split(ref[1], " "))})
		}
	}
	knownM := map[string]bool{}
	for k := range refFuncs {
		knownM[k[strings.LastIndex(k, ".")+1:]] = true
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].o > ps[j].o })
	for _, p := range ps {
		if renamedFn[p.k] == nil && fnAlias[p.f] == "" {
			renamedFn[p.k] = p.f
			fnAlias[p.f] = p.k
			if p.f.Signature.Recv() != nil && !knownM[p.f.Name()] {
				methodAlias[p.f.Name()] = p.k[strings.LastIndex(p.k, ".")+1:]
			}
		}
	}
}

func (w *World) consts(f func(key, shape string)) {
	for _, p := range w.pkgs {
		if !inRepoPkg(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if k, ok := m.(*ssa.NamedConst); ok && k.Value != nil && k.Value.Value != nil {
				f(p.Pkg.Name()+"."+k.Name(), typeText(k.Type())+"="+k.Value.Value.ExactString())
			}
		}
	}
}

func (w *World) renameConsts() {
	have := map[string]bool{}
	fresh := map[string][]string{}
	w.consts(func(k, v string) {
		have[k] = true
		if _, ok := refConsts[k]; !ok {
			p := k[:strings.IndexByte(k, '.')]
			fresh[p+":"+v] = append(fresh[p+":"+v], k[len(p)+1:])
		}
	})
	for k, v := range refConsts {
		p := k[:strings.IndexByte(k, '.')]
		if c := fresh[p+":"+v]; !have[k] && len(c) == 1 {
			renamedConst[k] = c[0]
		}
	}
}

// printRefs writes refs.go.
func printRefs(w *World, suffix string) {
	fmt.Println("// refFields" + suffix + " are the fields (name, type) the rules know.\nvar refFields" + suffix + " = map[string][][2]string{")
	for _, n := range w.named {
		if !structKnown(n) {
			continue
		}
		st := n.Underlying().(*types.Struct)
		fmt.Printf("\t%q: {\n", typeName(n))
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fmt.Printf("\t\t{%q, %q},\n", f.Name(), typeText(f.Type()))
		}
		fmt.Println("\t},")
	}
	fmt.Println("}\n\n// refFuncs" + suffix + " are the functions (signature, names they use) the rules know.\nvar refFuncs" + suffix + " = map[string][2]string{")
	for _, f := range w.funcs {
		if n := refFnName(f); n != "" {
			fmt.Printf("\t%q: {%q, %q},\n", n, sigText(f), strings.Join(traits(f), " "))
		}
	}
	fmt.Println("}\n\n// refConsts" + suffix + " are the constants (type and value) the rules know.\nvar refConsts" + suffix + " = map[string]string{")
	var ls []string
	w.consts(func(k, v string) { ls = append(ls, fmt.Sprintf("\t%q: %q,", k, v)) })
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, "\n") + "\n}")
}
