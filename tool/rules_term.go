package main

import "strings"

// ---- C31: the terminal is given back

func init() {
	register("C31", "The terminal is given back when the GUI ends", func(c *Check) {
		w := c.w
		r := w.runs["<root>"]
		if !c.need(r != nil, "gui-starts", "the program has no GUI command") {
			return
		}
		open := F // the terminal is taken
		var loop *Event
		var closes []*Event
		closed, ran, fatal := F, F, F
		n := 0
		for _, ev := range r.events {
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.name, "gocui.NewGui"):
				// once
				c.ok(!sat(and(ev.pc, open)), "taken-once", r, ev, "the terminal is taken twice")
				c.ok(!sat(and(r.out.pc, ev.pc, not(errNil(ev)))), "no-terminal", r, ev, "the GUI command ends regularly although the terminal cannot be used")
				open = or(open, and(ev.pc, errNil(ev)))
				n++
			case ev.kind == "call" && ev.name == gocuiGui+"Close":
				for _, o := range closes {
					c.ok(!sat(and(o.pc, ev.pc)), "closed-once", r, ev, "the terminal is given back twice")
				}
				closes = append(closes, ev)
				closed = or(closed, ev.pc)
			case ev.kind == "call" && strings.HasPrefix(ev.name, gocuiGui):
				for _, o := range closes {
					c.ok(!sat(and(o.pc, ev.pc)), "not-used-after-close", r, ev, "%s is called after the terminal was given back", ev.name)
				}
				if ev.name == gocuiGui+"MainLoop" {
					c.ok(loop == nil || !sat(and(ran, ev.pc)), "one-session", r, ev, "the main loop is started twice")
					loop = ev
					ran = or(ran, ev.pc)
				} else if ev.err != nil {
					fatal = or(fatal, and(ev.pc, not(errNil(ev))))
				}
			case ev.kind == "exit":
				if g := and(ev.pc, open); sat(g) {
					c.ok(implies(g, closed), "closed-before-exit", r, ev, "the process ends without giving the terminal back: %s", clip(witnessOf(diff(g, closed), open), 600))
				}
			case ev.kind == "print" && onTerminal(ev):
				if g := and(ev.pc, open); sat(g) {
					c.ok(implies(g, closed), "closed-before-message", r, ev, "a message is printed on the screen of the GUI, which is then lost: %s", clip(witnessOf(diff(g, closed), open), 600))
				}
			case ev.kind == "panic":
				g := and(ev.pc, open)
				c.ok(!sat(g) || implies(g, closed), "closed-before-exit", r, ev, "the process panics without giving the terminal back")
			}
		}
		c.need(n > 0 && sat(open), "gui-starts", "the GUI is never started")
		if !c.need(loop != nil, "gui-starts", "the GUI has no main loop") {
			return
		}
		end := and(r.out.pc, open)
		c.ok(sat(end), "gui-starts", r, loop, "a GUI session never ends regularly")
		c.ok(implies(end, closed), "closed-at-the-end", r, loop, "the GUI command ends without giving the terminal back: %s", clip(witnessOf(diff(end, closed), open), 600))
		c.ok(implies(end, ran), "session-runs", r, loop, "the GUI command ends regularly without a session: %s", clip(witnessOf(diff(end, ran), open), 600))
		// a session that is quit ends regularly, one that failed with a failure
		quit := F
		for i, t := range atoms {
			if len(t.args) == 2 && t.op == OCall && t.s == "errors.Is" {
				if t.args[0] == loop.err && isErrQuit(t.args[1]) {
					quit = or(quit, bvar(int32(i)))
				}
			}
		}
		nq := 0
		for _, h := range w.gui {
			for _, v := range h.res {
				for _, cs := range v {
					if isErrQuit(cs.t) && nq == 0 {
						nq++
						quit = or(quit, eqB(loop.err, cs.t))
					}
				}
			}
		}
		c.need(nq > 0, "quit-is-no-failure", "no key quits the session")
		good := or(quit, errNil(loop))
		c.ok(implies(and(end, loop.pc), good), "failed-session", r, loop, "the GUI command ends regularly although the session failed: %s", clip(witnessOf(diff(and(end, loop.pc), good), open), 600))
		c.ok(!sat(and(r.out.pc, fatal)), "failed-session", r, loop, "the GUI command ends regularly although the GUI could not be set up")
		for _, ev := range r.events {
			if ev.kind != "exit" || !sat(and(ev.pc, open)) {
				continue
			}
			g := and(ev.pc, loop.pc, open)
			c.ok(!sat(and(g, good)), "quit-is-no-failure", r, ev, "a session that was quit ends the process with a failure")
			k, isc := isIntConst(ev.res)
			c.ok(isc && k&255 != 0, "failed-session", r, ev, "a failed session ends the process with status %s", ev.res)
			// with the reason
			said := F
			for _, p := range r.events {
				if p.kind == "print" && onTerminal(p) && len(p.args) > 1 && (p.idx < ev.idx || ev.name == "log.Fatal" && p.idx == ev.idx+1) {
					for _, cs := range p.args[1] {
						if anyTerm(cs.t, isErrTerm) {
							said = or(said, and(p.pc, cs.g))
						}
					}
				}
			}
			c.ok(implies(and(ev.pc, open), said), "failed-session", r, ev, "a failed session ends without the error being shown")
		}
		// handlers end the session through the main loop
		nh := 0
		for _, h := range w.gui {
			nh++
			cause := F
			for _, ev := range h.events {
				if ev.err != nil && ev.kind == "call" && (c.ofVault(ev) || ofConfig(ev) || nearConfig(ev)) {
					cause = or(cause, and(ev.pc, not(errNil(ev))))
				}
			}
			for _, ev := range h.events {
				if ev.kind == "exit" {
					c.ok(implies(ev.pc, cause), "ends-through-the-main-loop", h, ev, "the process is ended in the middle of a session")
				}
				if ev.kind == "print" && onTerminal(ev) {
					c.ok(implies(ev.pc, cause), "screen-kept", h, ev, "a message is printed over the screen of the GUI")
				}
				if ev.kind == "call" && ev.name == gocuiGui+"Close" {
					c.ok(false, "ends-through-the-main-loop", h, ev, "the terminal is given back in the middle of a session")
				}
			}
		}
		c.need(nh > 20, "ends-through-the-main-loop", "only %d handlers were found", nh)
	})
}

func isErrQuit(t *Term) bool {
	return t.op == OSym && strings.HasSuffix(t.s, "gocui.ErrQuit")
}
