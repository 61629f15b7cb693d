package main

import "strings"

func init() {
	register("C06", "The master password is never echoed", func(c *Check) {
		w := c.w
		prompts := map[string]bool{}
		typed, cli := 0, 0
		for _, r := range w.all() {
			for _, ev := range r.events {
				if strings.HasSuffix(ev.name, "term.ReadPassword") || strings.HasSuffix(ev.name, "terminal.ReadPassword") {
					cli++
					fd := ev.arg(0)
					for fd.op == OCall && len(fd.args) == 1 && (strings.HasPrefix(fd.s, "conv") || fd.s == "int" || strings.HasSuffix(fd.s, "os.File).Fd")) {
						fd = fd.args[0]
					}
					n, isc := isIntConst(fd)
					c.ok(isc && n == 0 || fd.op == OSym && (strings.HasSuffix(fd.s, "syscall.Stdin") || strings.HasSuffix(fd.s, "os.Stdin")),
						"reads-terminal", r, ev, "the password is read from %s", fd)
				}
				if !strings.HasSuffix(ev.name, "pbkdf2.Key") || ev.kind != "call" {
					continue
				}
				for _, cs := range ev.args[0] {
					if !sat(and(cs.g, ev.pc)) {
						continue
					}
					src := 0
					w.deepWalk(cs.t, func(x *Term) {
						switch {
						case x.op == OCall && x.s == "password":
							src++
						case isViewText(x):
							src++
							n, ok := isStrConst(viewNameOr(x.args[0]))
							if c.ok(ok, "typed-hidden", r, ev, "the password is taken from an unknown view") {
								prompts[n] = true
							}
						case x.op == OCall && (x.s == "input" || x.s == "os.Getenv" || x.s == "filedata" || x.s == "stream" || x.s == "os.LookupEnv"),
							x.op == OSym && (strings.HasPrefix(x.s, "flag:") || strings.HasPrefix(x.s, "arg:") || strings.Contains(x.s, "os.Args")):
							c.ok(false, "typed-hidden", r, ev, "the password is taken from %s, which is typed in the open", x)
						}
					})
					if c.ok(src > 0, "typed-hidden", r, ev, "the password is not typed at a hidden prompt: %s", cs.t) {
						typed++
					}
				}
			}
		}
		c.need(cli >= 3 && typed >= 4, "typed-hidden", "only %d command prompts and %d key derivations were found", cli, typed)
		if !c.need(len(prompts) > 0, "masked", "the GUI has no password prompt") {
			return
		}
		made := 0
		for _, r := range w.gui {
			for _, ev := range r.events {
				switch {
				case ev.kind == "store" && ev.arg(0).op == OFieldAddr:
					l := ev.arg(0)
					n, ok := isStrConst(viewNameOr(l.args[0]))
					if (ok && prompts[n] || !ok && isViewTerm(l.args[0])) && l.s == "Mask" {
						m, isc := isIntConst(ev.arg(1))
						c.ok(isc && m > ' ', "masked", r, ev, "the mask of the password prompt is set to %s", ev.arg(1))
					}
					if ok && prompts[n] && (l.s == "Editor" || l.s == "Overwrite" && false) {
						c.ok(false, "masked", r, ev, "the password prompt gets its own editor")
					}
				case ev.name == gocuiGui+"SetView":
					n, ok := isStrConst(ev.arg(1))
					if !ok || !prompts[n] {
						continue
					}
					made++
					errT := mkT(OProj, "1", 0, nil, errType, ev.res)
					g := and(and(ev.pc, eqB(errT, mkSym("!github.com/jroimartin/gocui.ErrUnknownView", errType))), not(eqB(errT, mkNil())))
					g = and(g, nilReturn(r))
					m := F
					for _, s := range r.events {
						if s.kind == "store" && s.idx > ev.idx && s.arg(0).op == OFieldAddr && s.arg(0).s == "Mask" {
							if sn, ok := isStrConst(viewNameOr(s.arg(0).args[0])); ok && sn == n {
								m = or(m, s.pc)
							}
						}
					}
					c.ok(sat(g), "masked", r, ev, "the password prompt is never created here")
					c.ok(implies(g, m), "masked", r, ev, "the password prompt is created without a mask")
				}
			}
		}
		c.need(made > 0, "masked", "the password prompt is never created")
		// whatever was typed is gone after the handler
		m := c.machineOK()
		n := 0
		for _, t := range m.trans {
			if !prompts[t.from.cur] || t.run.view != t.from.cur || t.run.key != "Enter" {
				continue
			}
			f := t.from.clone()
			f.views[t.from.cur] = vSecret
			for _, mid := range m.step(t.run, f) {
				n++
				c.ok(mid.views[t.from.cur] != vSecret, "removed", t.run, nil, "the prompt with the typed password stays on the screen (%s)", mid.desc())
			}
		}
		c.need(n > 1, "removed", "submitting the password has no outcome")
		for _, s := range m.states {
			if m.unlocked(s) {
				for p := range prompts {
					c.need(s.views[p] == vAbsent, "removed", "the password prompt still exists while the vault is open (%s)", s.desc())
				}
			}
		}
	})
}

func viewNameOr(v *Term) *Term {
	if n := viewName(unwrap(v)); n != nil {
		return n
	}
	return mkSym("?view", nil)
}
