package main

import (
	"sort"
	"strings"
)

// ---- C24: foreign content and key presses cannot crash the program

func init() {
	register("C24", "Foreign content and key presses cannot crash the program", func(c *Check) {
		w := c.w
		var ks []string
		for k := range w.e.checked {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for i := 0; i < w.e.checked[k]; i++ {
				c.count("checked-" + k)
			}
		}
		seen := map[string]bool{}
		for _, r := range w.all() {
			c.foreign(r, seen)
		}
		c.need(len(seen) > 0, "reads-foreign", "no run reads foreign content")
		c.keys()
	})
}

// foreignIn tells what foreign content a term is computed from.
func (w *World) foreignIn(t *Term) map[string]bool {
	out := map[string]bool{}
	w.deepWalk(t, func(x *Term) {
		if x.op != OCall {
			return
		}
		switch {
		case strings.HasPrefix(x.s, "net/http.") || strings.HasPrefix(x.s, "(*net/http."):
			out["server"] = true
		case x.s == "filedata":
			kind := "download"
			walkT(x.args[0], func(y *Term) bool {
				s, ok := isStrConst(y)
				switch {
				case ok && strings.Contains(s, "lastcheck"):
					kind = "lastcheck"
				case ok && (strings.Contains(s, ".yml") || strings.Contains(s, "profile.js") || strings.Contains(s, "band_")), y.op == OSym && strings.HasPrefix(y.s, "flag:vault"):
					kind = ""
				}
				return true
			})
			if kind != "" {
				out[kind] = true
			}
		case x.s == "crypt" || isDigest(x):
			out["plain"] = true
		case strings.HasPrefix(x.s, "(*encoding/base64.Encoding).Decode"):
			out["blob"] = true
		}
	})
	return out
}

// badness is the condition under which an event makes the program panic.
func (c *Check) badness(r *Run, ev *Event, errs map[*Term]*Term, nilable func(*Term) bool) BDD {
	switch ev.kind {
	case "index", "slice", "assert", "make":
		return ev.extra["bad"].(BDD)
	case "nilcall", "nilmap", "panic":
		return ev.pc
	case "deref":
		bad := F
		for _, cs := range ev.args[0] {
			t := unwrap(cs.t)
			g := and(cs.g, ev.pc)
			switch {
			case t.op == ONil:
				bad = or(bad, g)
			case t.op == OProj && t.args[0].op == OCall:
				if er := errs[t.args[0]]; er != nil && er.op != ONil {
					bad = or(bad, and(g, not(eqB(er, mkNil()))))
				}
			case nilable(t) || implies(g, eqB(t, mkNil())):
				bad = or(bad, and(g, eqB(t, mkNil())))
			}
		}
		return bad
	}
	return F
}

func errsOf(r *Run) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, ev := range r.events {
		if ev.res != nil && ev.err != nil {
			m[ev.res] = ev.err
		}
	}
	return m
}

// foreign: what the server, a downloaded file, the last-check file or an
// encrypted blob contains does not lead to a panic.
func (c *Check) foreign(r *Run, seen map[string]bool) {
	w := c.w
	errs := errsOf(r)
	for _, ev := range r.events {
		what := map[string]bool{}
		for _, a := range ev.args {
			for _, cs := range a {
				for k := range w.foreignIn(cs.t) {
					what[k] = true
				}
			}
		}
		for k := range what {
			seen[k] = true
		}
		bad := c.badness(r, ev, errs, func(t *Term) bool { return isDoc(t) && what["server"] })
		if bad == F || !sat(bad) {
			continue
		}
		if debug {
			println(ev.kind, c.at(ev), strings.Join(keysOf(what), ","))
		}
		switch {
		case ev.kind == "deref" || ev.kind == "nilcall" || ev.kind == "nilmap":
			c.ok(false, "missing-object", r, ev, "an object that may be missing is used: %s", witness(bad))
		case what["server"] || what["download"] || what["lastcheck"]:
			c.ok(false, "foreign-content", r, ev, "%s may panic on foreign content: %s", ev.kind, witness(bad))
		case what["blob"] && !what["plain"] && !c.checkedBlob(ev):
			c.ok(false, "encrypted-blob", r, ev, "%s may panic on an encrypted blob: %s", ev.kind, witness(bad))
		}
	}
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkedBlob: the bytes an event works on are known to be authentic.
func (c *Check) checkedBlob(ev *Event) bool {
	base, _, _ := bounds(unwrap(ev.arg(0)))
	pos, _ := factsOf(ev.pc, func(t *Term) bool {
		return t.op == OEq && len(t.args) == 2 && (isDigest(t.args[0]) || isDigest(t.args[1]))
	})
	for _, a := range pos {
		d := a.args[0]
		if !isDigest(d) {
			d = a.args[1]
		}
		if len(d.args) > 1 {
			if b, _, _ := bounds(d.args[1]); b == base {
				return true
			}
		}
	}
	return false
}

// keys: no key press in any reachable state of the GUI leads to a panic.
func (c *Check) keys() {
	w := c.w
	m := w.guiModel()
	hv := map[*Term]bool{}
	for _, loc := range w.mods {
		hv[w.hvSym(loc)] = true
	}
	// lists that may have nil entries
	holes := map[*Term]bool{}
	for _, loc := range w.mods {
		for _, r := range m.runs {
			for _, cs := range w.at(r.out.heap, loc) {
				ps, _, why := w.partsOfList(cs.t, cs.g)
				for _, p := range ps {
					holes[w.hvSym(loc)] = holes[w.hvSym(loc)] || why == "" && p.t.op == ONil
				}
			}
		}
	}
	nilable := func(t *Term) bool {
		return hv[t] || t.op == OCall && strings.HasPrefix(t.s, "ctl.") || t.op == OElem && holes[t.args[0]]
	}
	always := map[string]bool{}
	for i, s := range w.machine().states {
		here := map[string]bool{}
		for n, l := range s.views {
			if l != vAbsent {
				here[n] = true
			}
		}
		if i == 0 {
			always = here
		}
		for n := range always {
			if !here[n] {
				delete(always, n)
			}
		}
	}
	for _, r := range m.runs {
		errs := errsOf(r)
		var evs []*Event
		var bads []BDD
		for _, ev := range r.events {
			if b := c.badness(r, ev, errs, nilable); b != F {
				evs = append(evs, ev)
				bads = append(bads, b)
			}
		}
		for _, have := range w.starts(r) {
			_, facts := w.presence(r, have)
			ctx := and(w.guiPC, w.holds(have))
			if !sat(ctx) {
				continue
			}
			for i, ev := range evs {
				g := ctx
				if !ev.async {
					g = and(g, facts)
				}
				bad := and(bads[i], g)
				c.ok(bad == F || !sat(bad), "key-press", r, ev, "%s may panic in the GUI (views %s): %s", ev.kind, viewsOf(have), witness(bad))
			}
			c.viewsExist(r, have, and(ctx, facts), always)
		}
	}
}

// viewsExist: a view is used only if it exists.
func (c *Check) viewsExist(r *Run, have map[string]bool, ctx BDD, always map[string]bool) {
	ever := map[string]BDD{}
	for v := range have {
		ever[v] = T
	}
	for _, ev := range r.events {
		if ev.kind == "call" && ev.name == gocuiGui+"SetView" {
			if n, ok := isStrConst(ev.arg(1)); ok {
				ever[n] = or(there(ever, n), ev.pc)
			}
			continue
		}
		if ev.kind == "call" && !strings.HasPrefix(ev.name, gocuiView) || ev.kind != "call" && ev.kind != "print" && ev.kind != "store" || len(ev.args) == 0 {
			continue
		}
		for _, cs := range ev.args[0] {
			v := viewName(rootObj(unwrap(cs.t)))
			if v == nil {
				continue
			}
			n, ok := isStrConst(v)
			if !ok || always[n] && ev.async {
				continue
			}
			g := and(ev.pc, cs.g, ctx)
			if ev.async {
				g = and(ev.pc, cs.g)
				er := F
				for _, x := range r.events {
					if x.async && x.kind == "call" && x.name == gocuiGui+"View" && x.res != nil {
						if m, _ := isStrConst(x.arg(1)); m == n {
							er = or(er, and(x.pc, eqB(mkT(OProj, "1", 0, nil, errType, x.res), mkNil())))
						}
					}
				}
				c.ok(implies(g, er), "view-exists", r, ev, "the view %s may not exist: %s", n, witness(diff(g, er)))
				continue
			}
			c.ok(implies(g, there(ever, n)), "view-exists", r, ev, "the view %s may not exist (views %s): %s", n, viewsOf(have), witness(diff(g, there(ever, n))))
		}
	}
}
