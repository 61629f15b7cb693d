package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Fail is one undischarged obligation: a construct of the analysed source.
type Fail struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Entry string `json:"entry"`
	Msg   string `json:"what"`
	Path  string `json:"call_path,omitempty"`
	Guard string `json:"guard,omitempty"`
}

// Check collects the obligations of one property.
type Check struct {
	id    string
	w     *World
	rules map[string]int // discharged obligations per rule
	order []string
	fails []Fail
	sites map[string]bool
	seen  map[string]bool
}

func newCheck(id string, w *World) *Check {
	return &Check{id: id, w: w, rules: map[string]int{}, sites: map[string]bool{}, seen: map[string]bool{}}
}

func (c *Check) count(rule string) {
	if _, ok := c.rules[rule]; !ok {
		c.order = append(c.order, rule)
	}
	c.rules[rule]++
}

func (c *Check) at(ev *Event) string {
	if ev == nil {
		return ""
	}
	return c.w.e.where(ev.pos, ev.fn)
}

func (c *Check) path(ev *Event) string {
	var p []string
	for x := ev.ctx; x != nil; x = x.parent {
		if x.fn != nil {
			n := x.fn.String()
			p = append([]string{strings.ReplaceAll(n, repoPrefix+"/", "")}, p...)
		}
	}
	return strings.Join(p, " -> ")
}

// ok records an obligation at an event.
func (c *Check) ok(cond bool, rule string, run *Run, ev *Event, f string, a ...interface{}) bool {
	if ev != nil {
		c.sites[c.at(ev)] = true
	}
	if cond {
		c.count(rule)
		return true
	}
	if _, ok := c.rules[rule]; !ok {
		c.rules[rule] = 0
		c.order = append(c.order, rule)
	}
	fl := Fail{Rule: rule, Msg: fmt.Sprintf(f, a...)}
	if run != nil {
		fl.Entry = run.name
		if ev == nil {
			fl.Where = c.w.runWhere(run)
		}
	}
	if ev != nil {
		fl.Where = c.at(ev)
		fl.Path = c.path(ev)
		fl.Guard = clip(bddStr(ev.pc), 1500)
	}
	k := fl.Rule + "|" + fl.Where + "|" + fl.Entry + "|" + fl.Msg
	if !c.seen[k] {
		c.seen[k] = true
		c.fails = append(c.fails, fl)
	}
	return false
}

func (c *Check) need(cond bool, rule string, f string, a ...interface{}) bool {
	return c.ok(cond, rule, nil, nil, f, a...)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (w *World) all() []*Run {
	var rs []*Run
	if w.main != nil {
		rs = append(rs, w.main)
	}
	for _, n := range w.order {
		if r := w.runs[n]; r != nil {
			rs = append(rs, r)
		}
	}
	return append(rs, w.gui...)
}

func (w *World) run(name string) *Run {
	if r := w.runs[name]; r != nil {
		return r
	}
	for _, g := range w.gui {
		if g.name == name {
			return g
		}
	}
	return nil
}

// runWhere locates the function an entry point starts in.
func (w *World) runWhere(r *Run) string {
	h := r.handler
	if h == nil && w.cmds[r.name] != nil {
		h = w.cmds[r.name].run
	}
	if h != nil {
		if f, ok := h.aux.(*ssa.Function); ok && f != nil {
			if o := f.Object(); o != nil {
				return w.e.where(o.Pos(), f)
			}
			return w.e.where(f.Pos(), f)
		}
	}
	return ""
}

type rule struct {
	title string
	fn    func(c *Check)
}

var ruleSet = map[string]rule{}

func register(id, title string, fn func(*Check)) { ruleSet[id] = rule{title, fn} }

// ---- known findings

type knownFinding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Where    string `json:"function"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func loadKnown(dir string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property != "" && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

// finish prints the verdict and writes the evidence file.
// deep: the thorough tier, with larger bounds where a check evaluates classes.
var deep bool

func (c *Check) finish(verif, tier, level string, wall time.Duration) int {
	w := c.w
	known := loadKnown(verif)
	var viol []Fail
	for _, f := range c.fails {
		hit := false
		for _, k := range known {
			if k.Property == c.id && (k.Rule == "" || k.Rule == f.Rule) && strings.Contains(f.Where, k.Where) && strings.Contains(f.Msg, k.Match) {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, k.What, f.Where)
				hit = true
				break
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	total := 0
	per := map[string]int{}
	for r, n := range c.rules {
		per[r] = n
		total += n
	}
	fns := map[string]bool{}
	nev := 0
	for _, r := range w.all() {
		nev += len(r.events)
		for _, ev := range r.events {
			if ev.fn != nil {
				fns[ev.fn.String()] = true
			}
		}
	}
	var sites []string
	for s := range c.sites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": level, "wall_s": wall.Seconds(), "violations": len(viol),
		"coverage": map[string]interface{}{
			"explanation":            "Gated value-flow analysis of the type-checked SSA of /repo: every entry point (main, each command, each GUI layout and key handler) is abstractly interpreted over all paths, with loops summarised by fixpoint; each rule below was checked at every matching effect site of every entry point.",
			"entry_points":           len(w.all()),
			"functions_analysed":     len(w.e.plans),
			"effect_functions":       len(fns),
			"effects_collected":      nev,
			"guard_atoms":            len(atoms),
			"value_terms":            len(termList),
			"loops_summarised":       len(w.e.loops),
			"obligations_discharged": total,
			"obligations_failed":     len(c.fails),
			"obligations_by_rule":    per,
			"sites":                  sites,
		},
	}
	if len(viol) > 0 {
		ev["failures"] = viol
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	writeJSON(filepath.Join(dir, c.id+".json"), ev)
	for _, r := range c.order {
		fmt.Printf("rule %-28s discharged %d\n", r, c.rules[r])
	}
	if len(viol) > 0 {
		rp := filepath.Join(dir, c.id+".violation.json")
		writeJSON(rp, map[string]interface{}{"property": c.id, "title": ruleSet[c.id].title, "violations": viol})
		for i, f := range viol {
			if i < 12 {
				fmt.Printf("FAIL [%s] %s (entry %s): %s\n", f.Rule, f.Where, f.Entry, clip(f.Msg, 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		return 1
	}
	os.Remove(filepath.Join(dir, c.id+".violation.json"))
	fmt.Printf("OK property=%s obligations=%d\n", c.id, total)
	return 0
}

func writeJSON(p string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
}

// ---- term helpers

func isCall(t *Term, suffix string) bool {
	return t != nil && t.op == OCall && (t.s == suffix || strings.HasSuffix(t.s, "/"+suffix))
}

// alts splits a joined term into its alternatives.
func alts(t *Term) []*Term {
	if t.op == OJoin {
		var out []*Term
		for _, a := range t.args {
			out = append(out, alts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func bounds(t *Term) (base, lo, hi *Term) {
	if t.op == OSlice {
		hi = t.args[2]
		if hi == nil {
			hi = lenT(t.args[0])
		}
		return t.args[0], t.args[1], hi
	}
	return t, mkInt(0), lenT(t)
}

func le(a, b *Term) BDD { return ge0(subT(b, a)) }

// factsOf lists the guard atoms that are decided by pc, with polarity.
func factsOf(pc BDD, want func(*Term) bool) (pos, neg []*Term) {
	for _, v := range support(pc) {
		t := atoms[v]
		if want != nil && !want(t) {
			continue
		}
		if implies(pc, bvar(v)) {
			pos = append(pos, t)
		} else if implies(pc, not(bvar(v))) {
			neg = append(neg, t)
		}
	}
	return
}

func isErrNil(t *Term) bool {
	return t.op == OEq && len(t.args) == 2 && (t.args[0].op == ONil || t.args[1].op == ONil)
}

// witness spells out one way to satisfy a guard.
// dull conditions hold whenever the GUI runs; they are not worth reporting.
var dull = map[int32]bool{}

func witness(g BDD) string {
	var out []string
	for _, v := range support(g) {
		p := and(g, bvar(v))
		if dull[v] {
			if sat(p) {
				g = p
			} else {
				g = and(g, not(bvar(v)))
			}
			continue
		}
		lit := atoms[v].str(12)
		if sat(p) {
			g = p
		} else {
			g = and(g, not(bvar(v)))
			lit = "not " + lit
		}
		out = append(out, lit)
	}
	return strings.Join(out, "; ")
}
