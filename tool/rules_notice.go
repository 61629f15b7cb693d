package main

import (
	"strings"
	"unicode"
)

// ---- C28: what is said about versions is true

// saysTag: a text names the version of the newest release; docs are the
// release lists it is taken from.
func (w *World) saysTag(t *Term, docs map[*Term]bool) bool {
	hit := false
	walkT(t, func(x *Term) bool {
		if lastKey(x) != "tag_name" {
			return true
		}
		for d := range w.docRoots(x) {
			if isTag(x, map[*Term]bool{d: true}) {
				docs[d] = true
				hit = true
			}
		}
		return true
	})
	return hit
}

func init() {
	register("C28", "What the program says about versions and updates is true", func(c *Check) {
		w := c.w
		ver, ok := w.repoConst("Version")
		if !c.need(ok, "running-version", "the running version is not a single constant") {
			return
		}
		// the running version
		if r := w.runs["version"]; c.need(r != nil, "running-version", "there is no version command") {
			said := F
			for _, p := range w.piecesOf(r) {
				if onTerminal(p.ev) && contains1(p.t, ver) {
					said = or(said, noLoops(p.g))
				}
			}
			c.ok(implies(noLoops(r.out.pc), said), "running-version", r, nil, "the version command may not show the version %s", ver)
		}
		gui := false
		for _, r := range w.gui {
			for _, p := range w.piecesOf(r) {
				v := viewName(unwrap(p.ev.arg(0)))
				if v == nil || p.ev.async || !contains1(p.t, ver) {
					continue
				}
				for _, ev := range r.events {
					if ev.kind == "call" && ev.name == gocuiGui+"SetView" && ev.arg(1) == v && ev.res != nil {
						gui = true
						fresh := and(noLoops(ev.pc), not(eqB(mkT(OProj, "1", 0, nil, errType, ev.res), mkNil())), noLoops(nilReturn(r)))
						c.ok(implies(fresh, noLoops(p.g)), "running-version", r, p.ev, "the GUI may not show the version %s: %s", ver, witness(diff(fresh, p.g)))
					}
				}
			}
		}
		c.need(gui, "running-version", "the GUI does not show the version %s", ver)
		// new releases
		n := 0
		for _, r := range w.all() {
			var gets []*Event
			for _, ev := range r.events {
				if u, ok := netURL(ev); ok {
					if s, k := isStrConst(u.collapse()); k && s == releasesURL {
						gets = append(gets, ev)
					}
				}
			}
			if len(gets) == 0 {
				continue
			}
			n++
			for _, g := range gets {
				// the update command asks between its two requests
				if r.name != "update" || g == gets[0] {
					c.notices(r, g, ver)
				}
			}
		}
		c.need(n > 2, "notice", "nothing checks for updates")
	})
}

func lastWord(s string) string {
	s = strings.TrimRight(strings.ToLower(s), "v")
	f := strings.FieldsFunc(s[strings.LastIndex(s, "\n")+1:], func(r rune) bool { return !unicode.IsLetter(r) })
	if len(f) == 0 {
		return ""
	}
	return f[len(f)-1]
}

func contains1(t *Term, s string) bool {
	return anyTerm(t, func(x *Term) bool {
		v, ok := isStrConst(x)
		return ok && strings.Contains(v, s)
	})
}

// usable: the answer lists a release with assets.
func (w *World) usable(g BDD) BDD {
	u := T
	for _, v := range support(g) {
		a := atoms[v]
		switch {
		case isErrNil(a) && anyTerm(a, func(x *Term) bool { return lastKey(x) == "assets" || x.op == OElem && foreignDoc(x.args[0]) }):
			u = and(u, not(bvar(v)))
		case a.op == OEq || a.op == OGe0:
			for _, x := range a.args {
				if lenOfDoc(x) {
					if sat(and(bvar(v), ge0(subT(docLen(a), mkInt(1))))) && !sat(and(not(bvar(v)), ge0(subT(docLen(a), mkInt(1))))) {
						u = and(u, bvar(v))
					} else {
						u = and(u, ge0(subT(docLen(a), mkInt(1))))
					}
				}
			}
		}
	}
	return u
}

func foreignDoc(t *Term) bool { return t.op == OCall && t.s == "doc" && !docFile(t) }

func docLen(t *Term) *Term {
	var out *Term
	walkT(t, func(x *Term) bool {
		if x.op == OLen && foreignDoc(x.args[0]) {
			out = x
		}
		return out == nil
	})
	return out
}

func lenOfDoc(t *Term) bool { return docLen(t) != nil }

func (c *Check) notices(r *Run, get *Event, ver string) {
	w := c.w
	docs := map[*Term]bool{}
	said := F
	var last *Event
	var question *Event
	for _, ev := range r.events {
		if isInput(ev) && ev.idx > get.idx && question == nil {
			question = ev
		}
	}
	var pieces []shownPiece
	for _, p := range w.piecesOf(r) {
		if p.ev.idx > get.idx && (onTerminal(p.ev) || viewName(unwrap(p.ev.arg(0))) != nil) {
			pieces = append(pieces, p)
		}
	}
	for _, p := range pieces {
		if r.name == "update" && question != nil && p.ev.idx > question.idx {
			continue
		}
		ds := map[*Term]bool{}
		if !w.saysTag(p.t, ds) {
			continue
		}
		for d := range ds {
			if anyTerm(d, func(x *Term) bool { return x == get.res }) {
				docs[d] = true
				said = or(said, p.g)
				last = p.ev
			}
		}
	}
	for _, p := range pieces {
		before, t := p.prev, p.t
		if s, ok := isStrConst(t); ok {
			i := strings.Index(s, ver)
			if i < 0 {
				continue
			}
			switch w := lastWord(before + s[:i]); w {
			case "available", "new", "newest", "latest", "to":
				c.ok(false, "right-number", r, p.ev, "the running version is shown as the %s one", w)
			}
		} else if w.saysTag(t, map[*Term]bool{}) {
			switch w := lastWord(before); w {
			case "current", "running", "installed", "from":
				c.ok(false, "right-number", r, p.ev, "the version of the release is shown as the %s one", w)
			default:
				c.count("right-number")
			}
		}
	}
	if !c.ok(last != nil, "notice", r, get, "a new release is never announced") {
		return
	}
	if !c.ok(len(docs) == 1, "notice", r, last, "the version announced is taken from %d answers", len(docs)) {
		return
	}
	view := T
	for _, p := range pieces {
		for _, v := range support(p.g) {
			if anyTerm(atoms[v], func(x *Term) bool { return x.op == OCall && strings.HasPrefix(x.s, gocuiGui) }) {
				if implies(p.g, bvar(v)) {
					view = and(view, bvar(v))
				}
			}
		}
	}
	// with an answer that lists a newer release it is announced, and only then
	end := noLoops(r.out.pc)
	for _, ev := range r.events {
		if ev.kind == "exit" || ev.kind == "panic" {
			end = or(end, noLoops(ev.pc))
		}
	}
	ans := noLoops(answered(r, get))
	if !get.async {
		ans = and(ans, end)
	}
	use := and(w.usable(ans), w.usable(noLoops(said)))
	need := and(ans, view, use)
	never, silent, taken := 0, 0, 0
	w.eachVersion(said, docs, ver, true, func(word []string, newer bool, rest BDD) bool {
		rest = noLoops(rest)
		if newer {
			if sat(rest) {
				taken++
			}
			if !implies(need, rest) {
				silent++
				c.ok(false, "notice-if-newer", r, get, "a release with the version components %q may not be announced although %s is running: %s", word, ver, clip(witness(diff(need, rest)), 900))
				return silent < 3
			}
			c.count("notice-if-newer")
			return true
		}
		if sat(rest) {
			never++
			c.ok(false, "notice-only-if-newer", r, last, "a release with the version components %q is announced as new although %s is running", word, ver)
			return never < 3
		}
		c.count("notice-only-if-newer")
		return true
	})
	c.ok(silent > 0 || taken > 0, "notice", r, last, "no version at all is announced: the comparison was not understood")
	if !get.async {
		return
	}
	// the panel of the GUI: one outcome, and the right one
	var failed, current []shownPiece
	bad := diff(noLoops(get.pc), noLoops(answered(r, get)))
	any := noLoops(said)
	for _, p := range pieces {
		if s, ok := isStrConst(p.t); ok && strings.IndexFunc(s, unicode.IsLetter) < 0 {
			continue
		}
		any = or(any, noLoops(p.g))
		if sat(and(bad, noLoops(p.g))) {
			failed = append(failed, p)
		}
		if sat(and(ans, noLoops(p.g))) {
			current = append(current, p)
		}
	}
	for _, p := range failed {
		for _, q := range current {
			c.ok(p.t != q.t, "outcome", r, p.ev, "a failed check and an answered one show the same: %v", p.t)
		}
	}
	all := and(or(ans, bad), view)
	c.ok(implies(all, any), "outcome", r, get, "the outcome of the check may not be shown: %s", witness(diff(all, any)))
}
