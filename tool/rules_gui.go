package main

import "strings"

func (c *Check) machineOK() *uiMachine {
	m := c.w.machine()
	for _, b := range m.bad {
		c.need(false, "gui-model", "%s", b)
	}
	c.need(len(m.states) > 3 && len(m.states) < 4000, "gui-model", "the GUI state space has %d states", len(m.states))
	return m
}

func init() {
	register("C03", "Locking removes every decrypted byte from memory and screen", func(c *Check) {
		w := c.w
		m := c.machineOK()
		n := 0
		for _, r := range w.gui {
			if r.kind != "handler" || r.key != "Ctrl-L" {
				continue
			}
			n++
			fin := nilReturn(r)
			c.ok(sat(fin), "lock-succeeds", r, nil, "the lock handler of %s never succeeds", r.view)
			// an emptied list keeps its elements
			for _, ev := range r.events {
				if ev.kind == "truncate" {
					tn := w.taintVal(ev.args[0])
					c.ok(tn == 0, "memory-clean", r, ev, "locking from %s only shortens a list: its elements, %s, stay in memory", r.view, taintStr(tn))
				}
			}
			for _, loc := range w.mods {
				v, ok := r.out.heap.get(loc)
				if !ok || len(v) == 0 {
					v = one(w.hvSym(loc))
				}
				for _, cs := range v {
					if !sat(and(fin, cs.g)) {
						continue
					}
					if implies(and(fin, cs.g), eqB(cs.t, mkNil())) || isSeq(cs.t) && implies(and(fin, cs.g), eqB(lenT(cs.t), mkInt(0))) {
						c.count("memory-clean")
						continue
					}
					tn := w.taint(cs.t)
					c.ok(tn == 0, "memory-clean", r, nil, "after locking from %s, %s still holds %s", r.view, loc, taintStr(tn))
				}
			}
		}
		c.need(n > 0, "lock-bindings", "no lock handler is bound")
		nt := 0
		for _, t := range m.trans {
			if t.run.key != "Ctrl-L" {
				continue
			}
			nt++
			for _, st := range []uiState{t.mid, t.to} {
				for v, l := range st.views {
					c.ok(l < vItem, "screen-clean", t.run, nil, "after locking from %s (%s) the view %q still shows vault content", t.run.view, t.from.desc(), v)
				}
				c.ok(!m.unlocked(st), "reported-locked", t.run, nil, "after locking from %s the vault keys are still held", t.run.view)
			}
			c.ok(w.maskedView(mkT(OCall, "!gocui.View", 0, nil, nil, mkStr(t.to.cur))) && t.to.views[t.to.cur] != vAbsent, "prompt-again", t.run, nil, "after locking from %s (%s) the focus is on %q", t.run.view, t.from.desc(), t.to.cur)
		}
		c.need(nt > 0, "lock-bindings", "no reachable state can be locked")
		for _, s := range m.states {
			if !m.unlocked(s) {
				for v, l := range s.views {
					c.need(l < vItem, "locked-shows-nothing", "while locked (%s) the view %q shows vault content", s.desc(), v)
				}
			}
		}
	})

	register("C04", "Lists, overviews and covered items never show secrets", func(c *Check) {
		w := c.w
		np := map[string]int{}
		for _, r := range w.all() {
			for _, ev := range r.events {
				if ev.kind != "print" || isBufTerm(ev.arg(0)) {
					continue
				}
				tn := w.taintVal(ev.args[1])
				if tn&tITEM != 0 {
					np[r.name]++
				}
				allowed := r.kind == "cmd" && r.name == "details" || r.kind == "handler" && r.view == "itemsWidget" && r.key == "Tab"
				c.ok(tn&tSECRET == 0 || allowed, "no-secret-drawn", r, ev, "item secrets are shown: %s", clip(ev.arg(1).String(), 300))
			}
		}
		for _, n := range []string{"list", "overview", "details", "itemsWidget/Tab", "itemsWidget/j", "detailsWidget/Tab", "1pass/Enter"} {
			c.need(np[n] > 0, "draws-items", "%s never shows vault content", n)
		}
		m := c.machineOK()
		nsec := 0
		for _, s := range m.states {
			for v, l := range s.views {
				if l == vSecret {
					nsec++
				}
				c.need(l != vSecret || s.cur == v, "secret-only-while-revealed", "secrets stay in view %q while the focus is on %q", v, s.cur)
			}
		}
		c.need(nsec > 0, "reveal-works", "no reachable state reveals an item")
		for _, t := range m.trans {
			if t.run.view == t.from.cur && t.from.views[t.from.cur] == vSecret && t.run.key == "Tab" {
				for v, l := range t.to.views {
					c.ok(l != vSecret, "cover-hides", t.run, nil, "covering the item leaves secrets in view %q", v)
				}
			}
		}
	})

	register("C21", "A GUI session can always be locked and always recovers", func(c *Check) {
		w := c.w
		m := c.machineOK()
		quit := false
		locks := map[string]bool{}
		for _, r := range w.gui {
			if r.kind != "handler" {
				continue
			}
			if r.key == "Ctrl-L" {
				locks[r.view] = true
				w.bound(c, r, "lock-key-bound")
			}
			if r.key == "Ctrl-Q" && r.view == "" {
				g := F
				for _, cs := range r.res[0] {
					if cs.t.op == OSym && strings.HasSuffix(cs.t.s, "gocui.ErrQuit") {
						g = or(g, cs.g)
					}
				}
				c.ok(implies(r.out.pc, g), "quit-key", r, nil, "the quit key does not always end the GUI")
				quit = true
				w.bound(c, r, "quit-key-bound")
			}
		}
		w.keysStay(c, "lock-key-bound")
		c.need(quit, "quit-key", "no global quit key is bound")
		for _, s := range m.states {
			c.need(s.views[s.cur] != vAbsent, "focus-exists", "the focus is on a view that does not exist: %s", s.desc())
			if m.unlocked(s) {
				c.need(locks[s.cur], "lock-key-everywhere", "the lock key is not bound in view %q, which has the focus while the vault is open (%s)", s.cur, s.desc())
			} else {
				prompt := w.maskedView(mkT(OCall, "!gocui.View", 0, nil, nil, mkStr(s.cur)))
				c.need(prompt || m.leadsToPrompt(s), "prompt-or-error", "while locked the focus is on %q with no way back to the password prompt (%s)", s.cur, s.desc())
			}
		}
		ok, bad := 0, 0
		for _, t := range m.trans {
			if t.run.view != t.from.cur || !w.maskedView(t.run.viewTerm) || t.run.key != "Enter" {
				continue
			}
			if m.unlocked(t.to) {
				ok++
				c.ok(t.to.cur == "1pass" && t.to.views["1pass"] != vAbsent, "main-view-after-unlock", t.run, nil, "after a right password the focus is on %q", t.to.cur)
			} else {
				bad++
				c.ok(m.leadsToPrompt(t.to) && t.to.cur != t.from.cur, "error-after-wrong-password", t.run, nil, "after a wrong password the focus is on %q and does not lead back to the prompt", t.to.cur)
				shown := false
				for _, ev := range t.run.events {
					if ev.kind == "print" && viewName(unwrap(ev.arg(0))) != nil {
						if n, _ := isStrConst(viewName(unwrap(ev.arg(0)))); n == t.to.cur {
							shown = true
						}
					}
				}
				c.ok(shown, "error-shown", t.run, nil, "nothing is written to the view %q that has the focus after a wrong password", t.to.cur)
			}
		}
		c.need(ok > 0, "main-view-after-unlock", "submitting a password never opens the vault")
		c.need(bad > 0, "error-after-wrong-password", "submitting a wrong password has no outcome")
		// a wrong password never ends the GUI: the handler returns an error only for gocui failures
		if r := w.run("passPrompt/Enter"); r != nil {
			for _, cs := range r.res[0] {
				if cs.t.op == ONil || !sat(and(r.out.pc, cs.g)) {
					continue
				}
				c.ok(anyTerm(cs.t, func(x *Term) bool { return x.op == OCall && strings.Contains(x.s, "gocui.") }), "stays-in-gui", r, nil, "a failed unlock leaves the GUI with %s", cs.t)
			}
		}
	})
}

// leadsToPrompt: some key in the focused view leads to the password prompt and
// every such key does.
func (m *uiMachine) leadsToPrompt(s uiState) bool {
	n := 0
	for _, t := range m.trans {
		if t.from.key() != s.key() || t.run.view != s.cur {
			continue
		}
		n++
		if !m.w.maskedView(mkT(OCall, "!gocui.View", 0, nil, nil, mkStr(t.to.cur))) || t.to.views[t.to.cur] == vAbsent {
			return false
		}
	}
	return n > 0
}
