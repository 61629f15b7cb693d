package main

import (
	"fmt"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	resetTerms()
	t0 := time.Now()
	if pf := os.Getenv("VERIF_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if len(os.Args) < 3 && !(len(os.Args) == 2 && os.Args[1] == "dump") {
		fmt.Println("usage: tool check ID|all [quick|thorough] | dump [entry...]")
		os.Exit(2)
	}
	w, err := analyse()
	if os.Args[1] == "dump" {
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(3)
		}
		t2 := time.Now()
		if len(os.Args) > 2 && os.Args[2] == "model" {
			for _, iv := range w.guiInvariants() {
				fmt.Println("inv:", iv)
			}
			w.gui = w.gm.runs
			dump(w, append([]string{"gui"}, os.Args[3:]...))
		} else if len(os.Args) > 2 && os.Args[2] == "bad" {
			dumpBad(w)
		} else if len(os.Args) > 2 && os.Args[2] == "loops" {
			var ids []int64
			for _, a := range os.Args[3:] {
				var n int64
				fmt.Sscan(a, &n)
				ids = append(ids, n)
			}
			dumpLoops(w, ids)
			if len(ids) == 1 {
				dumpEmits(w, ids[0])
			}
		} else {
			dump(w, os.Args[2:])
		}
		e := w.e
		fmt.Println("total", t2.Sub(t0), "steps", e.steps, "terms", len(termList), "atoms", len(atoms), "bdd", len(bd.nodes), "loops", len(e.loops))
		fmt.Println("problems:", w.problem)
		for _, n := range w.noteList() {
			fmt.Println("note:", n)
		}
		return
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	deep = tier == "thorough"
	ids := []string{os.Args[2]}
	if os.Args[2] == "all" {
		ids = nil
		for id := range ruleSet {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		t1 := time.Now()
		if _, ok := ruleSet[id]; !ok {
			fmt.Println("no such property", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			fmt.Println("==", id, ruleSet[id].title)
		}
		if err != nil {
			rp := filepath.Join(verif, "evidence", id+".violation.json")
			os.MkdirAll(filepath.Dir(rp), 0755)
			writeJSON(rp, map[string]interface{}{"property": id, "error": err.Error()})
			fmt.Println("the source cannot be analysed:", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			rc = 1
			continue
		}
		c := newCheck(id, w)
		c.runRule()
		if r := c.finish(verif, tier, "other", time.Since(t1)+w.took); r > rc {
			rc = r
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

// analyse loads and interprets the program; a crash of the analysis is an
// error, never a pass.
func analyse() (w *World, err error) {
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			w, err = nil, fmt.Errorf("analysis failed: %v\n%s", r, rdebug.Stack())
		}
	}()
	scratch, err := os.MkdirTemp("", "verif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	e, err := loadProgram(scratch)
	if err != nil {
		return nil, err
	}
	w = buildWorld(e)
	w.took = time.Since(t0)
	return w, nil
}

func (c *Check) runRule() {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			c.need(false, "analysis", "rule evaluation failed: %v", r)
		}
	}()
	for _, p := range c.w.problem {
		c.need(false, "analysis", "%s", p)
	}
	ruleSet[c.id].fn(c)
}

func (w *World) noteList() []string {
	var ns []string
	for n := range w.e.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func dumpRun(w *World, r *Run) {
	fmt.Printf("== %s %s (%d events)\n", r.kind, r.name, len(r.events))
	for _, ev := range r.events {
		fmt.Printf("  [%d] %s %s @%s loops=%v async=%v\n", ev.idx, ev.kind, ev.name, w.e.where(ev.pos, ev.fn), ev.loops, ev.async)
		for i, a := range ev.args {
			for _, c := range a {
				fmt.Printf("       arg%d: %s", i, c.t)
				if c.g != T {
					fmt.Printf("   IF %s", bddStr(c.g))
				}
				fmt.Println()
			}
		}
		if os.Getenv("NOPC") != "" {
			continue
		}
		s := bddStr(restrict(ev.pc, r.pre.pc))
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		fmt.Println("       pc:", s)
	}
	for i, v := range r.res {
		for _, c := range v {
			fmt.Printf("  result %d: %s IF %s\n", i, c.t, bddStr(c.g))
		}
	}
}

func dump(w *World, names []string) {
	if len(names) == 0 {
		if w.main != nil {
			fmt.Println("main events", len(w.main.events))
		}
		for _, n := range w.order {
			if w.runs[n] != nil {
				fmt.Println("cmd", n, "events", len(w.runs[n].events), "flags", w.cmds[n].flags)
			}
		}
		for _, g := range w.gui {
			fmt.Println("gui", g.kind, g.name, len(g.events))
		}
		for _, m := range w.mods {
			fmt.Println("mod", m)
		}
		return
	}
	if len(names) == 2 && names[1][0] == '#' {
		i := 0
		fmt.Sscanf(names[1], "#%d", &i)
		dumpAtoms(w.run(names[0]), i)
		return
	}
	for _, n := range names {
		if n == "main" {
			dumpRun(w, w.main)
		}
		if r := w.runs[n]; r != nil {
			dumpRun(w, r)
		}
		for _, g := range w.gui {
			if g.name == n {
				dumpRun(w, g)
			}
		}
	}
}

func dumpAtoms(r *Run, idx int) {
	if idx < 0 {
		for _, v := range support(r.out.pc) {
			fmt.Println("   atom", atoms[v].str(12))
		}
		return
	}
	ev := r.events[idx]
	for _, v := range support(ev.pc) {
		fmt.Println("   atom", atoms[v].str(12))
	}
	fmt.Println(bddStr(ev.pc))
}
