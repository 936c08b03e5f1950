package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Prop is one property with the rules that decide it.
type Prop struct {
	id   string
	what string // the rule applied, for the evidence
	run  func(c *Ctx)
	min  int // least number of constructs the rules have to find

	prototype bool // on the Q-learning prototype
}

var props []*Prop

func register(id string, min int, what string, run func(c *Ctx)) {
	props = append(props, &Prop{id: id, what: what, run: run, min: min})
}

// registerProto is register for the Q-learning prototype.
func registerProto(id string, min int, what string, run func(c *Ctx)) {
	register(id, min, what, run)
	props[len(props)-1].prototype = true
}

// Ob is one obligation: a rule applied to a construct.
type Ob struct {
	rule, construct string
	cases           int
	fails           []fail
}

type fail struct {
	key    string // "" or what identifies a specific failing site
	detail string
	where  string
}

// Ctx collects the obligations of one run of one property.
type Ctx struct {
	w          *World
	prop       string
	tier       string
	obs        map[string]*Ob
	order      []string
	engines    []*Engine
	paths      int
	files      map[string]bool // non Go files read
	notes      []string
	extra      []string // extra functions analysed without an engine
	pkgErr     map[string]error
	terminator string // the row that ends the log writer
}

func (c *Ctx) ob(rule, construct string) *Ob {
	k := rule + "\x00" + construct
	o := c.obs[k]
	if o == nil {
		o = &Ob{rule: rule, construct: construct}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	return o
}

// check records one case of an obligation.
func (c *Ctx) check(rule, construct string, ok bool, pos token.Pos, format string, a ...interface{}) bool {
	o := c.ob(rule, construct)
	o.cases++
	if !ok {
		o.fails = append(o.fails, fail{detail: fmt.Sprintf(format, a...), where: c.where(pos)})
	}
	return ok
}

// checkKey is check with a key that identifies the failing site for known findings.
func (c *Ctx) checkKey(rule, construct, key string, ok bool, pos token.Pos, format string, a ...interface{}) bool {
	o := c.ob(rule, construct)
	o.cases++
	if !ok {
		o.fails = append(o.fails, fail{key: key, detail: fmt.Sprintf(format, a...), where: c.where(pos)})
	}
	return ok
}

func (c *Ctx) where(pos token.Pos) string {
	if !pos.IsValid() || c.w == nil {
		return ""
	}
	p := c.w.prog.Fset.Position(pos)
	r, err := filepath.Rel(repoDir, p.Filename)
	if err != nil {
		r = p.Filename
	}
	return fmt.Sprintf("%s:%d", r, p.Line)
}

func (c *Ctx) engine() *Engine {
	e := newEngine(c.w)
	if c.tier == "thorough" {
		e.maxStates *= 4
		e.maxSteps *= 6
	}
	c.engines = append(c.engines, e)
	return e
}

// unresolved records that something the rules are anchored at is missing.
type unresolved struct{ what string }

func (c *Ctx) missing(what string) {
	panic(unresolved{what})
}

var repoDir = "/repo"
var verifDir = "/verif"

type known struct {
	prop, key, text string
}

func readKnown() []known {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		out = append(out, known{prop: strings.TrimPrefix(fs[0], "property="), key: strings.TrimPrefix(fs[1], "key="), text: fs[2]})
	}
	return out
}

// guarded runs one rule; a panic is a failed obligation, not a crash.
func (c *Ctx) guarded(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unresolved); ok {
				c.check("anchor", name, false, token.NoPos, "cannot resolve %s", u.what)
				return
			}
			if os.Getenv("DBG") != "" {
				panic(r)
			}
			c.check("analysis", name, false, token.NoPos, "analysis of %s failed: %v", name, r)
		}
	}()
	f()
}

func runProp(p *Prop, w *World, loadErr error, tier string, seed int) int {
	if p.prototype {
		rc := 0
		q := *p
		q.prototype = false
		inPrototype(func(w *World, err error) { rc = runProp(&q, w, err, tier, seed) })
		return rc
	}
	t0 := time.Now()
	c := &Ctx{w: w, prop: p.id, tier: tier, obs: map[string]*Ob{}, files: map[string]bool{}}
	if loadErr != nil {
		c.check("load", "program", false, token.NoPos, "the program does not load: %v", loadErr)
	} else {
		c.guarded(p.id, func() { p.run(c) })
		n := 0
		for range c.obs {
			n++
		}
		c.check("coverage", "constructs", n >= p.min, token.NoPos, "only %d of at least %d constructs were found", n, p.min)
	}
	und := map[string]bool{}
	funcs := map[string]bool{}
	sites, steps := 0, 0
	for _, e := range c.engines {
		for _, s := range e.undecided {
			und[s] = true
		}
		for f := range e.funcsSeen {
			funcs[fnName(f)] = true
		}
		sites += e.sites
		steps += e.steps
	}
	for s := range und {
		c.check("decided", s, false, token.NoPos, "the analysis could not decide: %s", s)
	}
	for _, f := range c.extra {
		funcs[f] = true
	}
	kn := readKnown()
	var rep strings.Builder
	viol, knownN, disch, cases := 0, 0, 0, 0
	seenKnown := map[string]bool{}
	for _, k := range c.order {
		o := c.obs[k]
		cases += o.cases
		bad := false
		for _, f := range o.fails {
			isKnown := false
			for _, x := range kn {
				if x.prop == p.id && f.key != "" && x.key == o.rule+"|"+o.construct+"|"+f.key {
					isKnown = true
					if !seenKnown[x.key] {
						seenKnown[x.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, x.text)
					}
				}
			}
			if isKnown {
				knownN++
				continue
			}
			if !bad {
				viol++
			}
			if bad && f.key == "" {
				continue
			}
			bad = true
			fmt.Fprintf(&rep, "[%s] %s\n    at %s\n    %s\n", o.rule, o.construct, f.where, f.detail)
			if f.key != "" {
				fmt.Fprintf(&rep, "    site key: %s|%s|%s\n", o.rule, o.construct, f.key)
			}
		}
		if len(o.fails) == 0 {
			disch++
		}
	}
	evDir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, "replay_"+p.id+".txt")
	_ = os.Remove(replay)
	if viol > 0 {
		_ = os.WriteFile(replay, []byte("property "+p.id+"\n"+rep.String()), 0o644)
		s := rep.String()
		if len(s) > 6000 {
			s = strings.ToValidUTF8(s[:6000], "") + "...\n"
		}
		fmt.Print(s)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, replay)
	}
	writeEvidence(c, p, evDir, tier, seed, funcs, sites, steps, cases, disch, knownN, viol, time.Since(t0))
	if viol > 0 {
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d discharged=%d cases=%d functions=%d\n", p.id, len(c.order), disch, cases, len(funcs))
	return 0
}

func writeEvidence(c *Ctx, p *Prop, dir, tier string, seed int, funcs map[string]bool, sites, steps, cases, disch, knownN, viol int, d time.Duration) {
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, "simulator/v2", ""))
	}
	sort.Strings(fl)
	var rules []map[string]interface{}
	for _, k := range c.order {
		o := c.obs[k]
		rules = append(rules, map[string]interface{}{"rule": o.rule, "construct": o.construct, "cases": o.cases, "holds": len(o.fails) == 0})
	}
	var files []string
	for f := range c.files {
		files = append(files, f)
	}
	sort.Strings(files)
	ev := map[string]interface{}{
		"property": p.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":                      p.what,
			"obligations":                      len(c.order),
			"discharged":                       disch,
			"cases":                            cases,
			"path_classes":                     c.paths,
			"functions_analysed":               len(fl),
			"functions":                        fl,
			"call_sites_followed":              sites,
			"instructions_executed_abstractly": steps,
			"source_files_read":                files,
			"known_findings":                   knownN,
			"rules":                            rules,
		},
		"assumptions": append([]string{
			"the Go type checker and the x/tools SSA builder represent the source faithfully",
			"the abstract interpreter in /verif/checker (term normal forms, loop closed forms, alias classes) is correct; floating point sums are compared as real arithmetic",
			"functions outside the repository behave as documented",
		}, c.notes...),
		"wall_s":     d.Seconds(),
		"violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644)
}
