package main

// ---- C29: the first run

// confState collects what a guard says about the configuration file: it is
// there, and it has something in it.
func confState(w *World, g BDD) (there, absent, filled BDD, docs map[*Term]bool) {
	there, absent, filled = T, T, T
	docs = map[*Term]bool{}
	for _, v := range support(g) {
		a := atoms[v]
		if isErrNil(a) {
			x := a.args[0]
			if x.op == ONil {
				x = a.args[1]
			}
			if x.op == OProj && x.args[0].op == OCall && len(x.args[0].args) > 0 && pathClass(x.args[0].args[0]) == "config" {
				there, absent = and(there, bvar(v)), and(absent, not(bvar(v)))
			}
		}
		walkT(a, func(x *Term) bool {
			if confDoc(x) && !docs[x] {
				docs[x] = true
				filled = and(filled, ge0(subT(lenT(x), mkInt(1))), not(eqB(x, mkNil())))
			}
			return true
		})
	}
	return
}

func init() {
	register("C29", "The first run asks for the configuration and then uses it", func(c *Check) {
		w := c.w
		always := func(r *Run, under BDD) int {
			n := 0
			for _, ev := range r.events {
				if isInput(ev) && implies(under, noLoops(ev.pc)) {
					n++
				}
			}
			return n
		}
		conf := w.run("configure")
		if !c.need(conf != nil, "entry", "no configure command") {
			return
		}
		all := 0
		for _, r := range append([]*Run{conf}, w.all()...) {
			var asked BDD = F
			var first, last *Event
			for _, ev := range r.events {
				if isInput(ev) {
					asked = or(asked, noLoops(ev.pc))
					if first == nil {
						first = ev
					}
					last = ev
				}
			}
			kind := ""
			switch r.name {
			case "list", "overview", "details", "<root>":
				kind = "vault"
			case "configure":
				kind = "configure"
			case "update":
				continue
			}
			if kind == "" {
				c.ok(first == nil, "asks-nothing-else", r, first, "an answer is read although nothing is to be configured")
				continue
			}
			if !c.ok(first != nil, "asks", r, nil, "the questions of the configuration are never asked") {
				continue
			}
			pre := noLoops(r.pre.pc)
			wrote := F
			var save *Event
			for _, s := range c.quiet().confSaves(r) {
				wrote = or(wrote, noLoops(s.write.pc))
				if save == nil || s.write.idx < save.idx {
					save = s.write
				}
			}
			end := noLoops(r.out.pc)
			for _, ev := range r.events {
				if asksPassword(ev) {
					end = or(end, noLoops(ev.pc))
				}
			}
			lost := diff(and(end, asked), wrote)
			c.ok(!sat(lost), "saved", r, first, "the answers may not be saved: %s", witness(lost))
			if kind == "configure" {
				c.ok(implies(and(pre, end), asked), "asks", r, first, "the configure command may not ask anything: %s", witness(diff(pre, asked)))
				all = always(r, and(pre, asked))
				c.ok(all > 0, "asks", r, first, "no question of the configure command is always asked")
				continue
			}
			there, absent, filled, docs := confState(w, asked)
			c.ok(sat(absent) && absent != T || len(docs) > 0, "asks", r, first, "whether to configure does not depend on the configuration file")
			again := and(asked, there, filled)
			c.ok(!sat(again), "asks-only-then", r, first, "the questions are asked although there is a configuration: %s", witness(again))
			for _, none := range []BDD{absent, diff(there, filled)} {
				miss := diff(and(pre, none), asked)
				c.ok(!sat(miss), "asks", r, first, "there is no configuration and the questions may not be asked: %s", witness(miss))
			}
			if all > 0 {
				n := always(r, asked)
				c.ok(n == all, "all-questions", r, first, "%d questions are asked, %d by the configure command", n, all)
			}
			// before anything else, and with effect
			for _, ev := range r.events {
				if asksPassword(ev) {
					c.ok(ev.idx > last.idx || !sat(and(ev.pc, asked)), "asks-first", r, ev, "the password is asked for before the questions of the configuration")
				}
			}
			for _, u := range c.quiet().vaultUses(r) {
				c.ok(u.ev.idx > last.idx || !sat(and(noLoops(u.ev.pc), asked)), "asks-first", r, u.ev, "the vault is looked at before the questions of the configuration")
				if save == nil {
					continue
				}
				fresh := func(t *Term) bool {
					return anyTerm(t, func(x *Term) bool {
						if fromInput(x) || x.op == OCall && x.s == "input" {
							return true
						}
						if x.op != OCall || x.s != "filedata" {
							return false
						}
						for _, ev := range r.events {
							if ev.idx > save.idx && ev.kind == "call" && (ev.name == "os.ReadFile" || ev.name == "os.Open" || ev.name == "os.OpenFile") && ev.err != nil && ev.err.op == OProj && ev.err.args[0].k == x.k {
								return true
							}
						}
						return false
					})
				}
				for _, cs := range u.root {
					g := and(noLoops(cs.g), noLoops(u.ev.pc), asked)
					if isConfVault(cs.t) {
						// a setting that is there is in a document that is not empty
						walkT(cs.t, func(x *Term) bool {
							if x.op == OMapGet && docs[x.args[0]] && implies(g, not(eqB(x, mkNil()))) {
								g = and(g, filled)
							}
							return true
						})
					}
					if !sat(g) || isVaultFlag(cs.t) || fresh(cs.t) || savedVault(w, r, u.ev, cs) {
						if sat(g) {
							c.count("answers-used")
						}
						continue
					}
					said := false
					if s, ok := isStrConst(cs.t); ok && s == "" {
						for _, v := range support(g) {
							said = said || fresh(atoms[v])
						}
					}
					c.ok(said, "answers-used", r, u.ev, "after the first configuration %v is used as the vault, not what was just configured", cs.t)
				}
			}
		}
	})
}
