package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadWorld(dir string, repo string, env []string, patterns ...string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  append(append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOFLAGS="), env...),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, repo) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { p.IllTyped = false })
	prog, sp := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	w := &World{lpkgs: pkgs, prog: prog, pkgs: map[string]*ssa.Package{}, modc: map[*ssa.Function]*rw{}, taken: map[string][]*ssa.Function{}, mapFields: map[string][]string{}}
	for _, p := range sp {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) > 0 {
			w.funcs = append(w.funcs, f)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool { return w.funcs[i].String() < w.funcs[j].String() })
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if n, ok := t.Type().(*types.Named); ok {
				if _, isI := n.Underlying().(*types.Interface); !isI {
					w.named = append(w.named, n)
				}
			}
		}
	}
	sort.Slice(w.named, func(i, j int) bool { return w.named[i].String() < w.named[j].String() })
	if modPrefix == "" {
		for path, p := range w.pkgs {
			if p.Pkg.Name() == "qtable" {
				modPrefix = strings.TrimSuffix(path, "/qtable")
			}
		}
	}
	resolveRenames(w)
	for _, n := range w.named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					w.mapFields[mt.String()] = append(w.mapFields[mt.String()], "m:"+fieldKey(n, i))
				}
			}
		}
	}
	// address-taken functions
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [12]*ssa.Value
				for i, op := range in.Operands(rands[:0]) {
					fn, ok := (*op).(*ssa.Function)
					if !ok || len(fn.Blocks) == 0 {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && c.Common().Value == fn {
						continue
					}
					k := sigKey(fn.Signature)
					dup := false
					for _, x := range w.taken[k] {
						dup = dup || x == fn
					}
					if !dup {
						w.taken[k] = append(w.taken[k], fn)
					}
				}
			}
		}
	}
	return w, nil
}

// inPrototype runs f on the Q-learning prototype instead of the simulator.
func inPrototype(f func(*World, error)) {
	p, rf, rn, rc := modPrefix, refFields, refFuncs, refConsts
	a, b, d, e, g, h := renamed, renamedType, renamedFn, renamedConst, methodAlias, fnAlias
	defer func() {
		modPrefix, refFields, refFuncs, refConsts = p, rf, rn, rc
		renamed, renamedType, renamedFn, renamedConst, methodAlias, fnAlias = a, b, d, e, g, h
	}()
	modPrefix, refFields, refFuncs, refConsts = "", refFieldsProto, refFuncsProto, refConstsProto
	f(loadWorld(repoDir+"/qLearning_smartCache", repoDir+"/", []string{"GO111MODULE=off"}, ".", "./qtable", "./cache"))
}

// lookup finds a package function "pkg.Func" or a method "pkg.Type.Method".
func (w *World) lookup(name string) *ssa.Function {
	if f := renamedFn[name]; f != nil {
		return f
	}
	parts := strings.Split(name, ".")
	for path, p := range w.pkgs {
		if p.Pkg.Name() != parts[0] || !strings.HasPrefix(path, modPrefix) {
			continue
		}
		if len(parts) == 2 {
			if f := p.Func(parts[1]); f != nil {
				return f
			}
			continue
		}
		tm, ok := p.Members[actualType(parts[0], parts[1])].(*ssa.Type)
		if !ok {
			continue
		}
		for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
			ms := w.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if methodName(ms.At(i).Obj()) == parts[2] {
					return w.prog.MethodValue(ms.At(i))
				}
			}
		}
	}
	return nil
}

func main() {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker check ID | list | dump FUNC | refs")
		os.Exit(1)
	}
	w, err := loadWorld(repoDir+"/SmartCache/sim", repoDir+"/", nil, "./...")
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.id, p.what)
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		rc := 0
		for _, id := range strings.Split(os.Args[2], ",") {
			found := false
			for _, p := range props {
				if p.id == id || id == "all" {
					found = true
					t0 := time.Now()
					if runProp(p, w, err, tier, seed) != 0 {
						rc = 1
						if os.Getenv("VERIF_FIRST") != "" {
							os.Exit(rc)
						}
					}
					if id == "all" {
						fmt.Printf("   %s %.1fs\n", p.id, time.Since(t0).Seconds())
					}
				}
			}
			if !found {
				fmt.Println("unknown property", id)
				rc = 1
			}
		}
		os.Exit(rc)
	case "refs":
		fmt.Print("package main\n\n")
		printRefs(w, "")
		inPrototype(func(w *World, err error) {
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fmt.Println()
			printRefs(w, "Proto")
		})
	case "dump":
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		if strings.HasPrefix(os.Args[2], "proto:") {
			inPrototype(func(w *World, err error) { dumpFn(w, os.Args[2][6:]) })
			return
		}
		dumpFn(w, os.Args[2])
	}
}

func dumpFn(w *World, name string) {
	fn := w.lookup(name)
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(1)
	}
	e := newEngine(w)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.u.Sym(p.Name()))
	}
	outs := e.Run(fn, args, newState())
	for i, o := range outs {
		fmt.Printf("== %d %s ret=%v\n  facts: %s\n", i, o.kind, o.ret, factsString(o.st.facts))
		dumpState(e, o.st, "  ")
	}
	fmt.Println("steps", e.steps, "undecided", e.undecided)
}

func dumpState(e *Engine, s *State, ind string) {
	var ls []string
	for a, v := range s.mem.ents {
		if rootOf(a).op == OAlloc {
			continue
		}
		ls = append(ls, ind+a.String()+" = "+v.String())
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
	dumpEvents(e, s.events, ind)
}

func dumpEvents(e *Engine, evs []*Event, ind string) {
	for _, ev := range evs {
		if ev.loop != nil {
			fmt.Printf("%s* loop %s trip=%v\n", ind, ev.loop.id, ev.loop.trip)
			for _, it := range ev.loop.iters {
				fmt.Printf("%s  - facts %s\n", ind, factsString(it.facts))
				for n, p := range it.phis {
					fmt.Printf("%s      phi %s: %s -> %s\n", ind, n, p[0], p[1])
				}
				for a, v := range it.writes {
					fmt.Printf("%s    %s := %s   (was %s)\n", ind, a, v, it.start[a])
				}
				dumpEvents(e, it.events, ind+"    ")
			}
			continue
		}
		fmt.Printf("%s* %s\n", ind, ev)
	}
}
