package main

import (
	"go/types"
	"strings"
	"unicode"
)

// ---- C27: the keys do what the help says

// bound: a key is bound whenever the main loop is entered and no binding
// failed.
func (w *World) bound(c *Check, r *Run, rule string) bool {
	root := w.runs["<root>"]
	if r.bind == nil || root == nil {
		return c.ok(false, rule, r, nil, "the key %s is not bound", r.name)
	}
	fine := T
	for _, ev := range root.events {
		if ev.kind != "call" || !strings.HasPrefix(ev.name, gocuiGui) || ev.idx > w.mainLp.idx {
			continue
		}
		switch strings.TrimPrefix(ev.name, gocuiGui) {
		case "SetKeybinding":
			if ev.res != nil {
				fine = and(fine, or(not(ev.pc), eqB(ev.res, mkNil())))
			}
		case "DeleteKeybinding", "DeleteKeybindings", "SetManager", "SetManagerFunc":
			if ev.idx > r.bind.idx {
				c.ok(!sat(and(ev.pc, r.bind.pc, w.mainLp.pc)), rule, root, ev, "the binding of %s is removed again", r.name)
			}
		}
	}
	g := and(noPos(w.mainLp.pc), fine)
	ok := c.ok(sat(g), rule, r, r.bind, "the main loop is entered only if a binding failed")
	ok = c.ok(implies(g, noPos(r.bind.pc)), rule, r, r.bind, "the key %s may not be bound: %s", r.name, witness(diff(g, noPos(r.bind.pc)))) && ok
	if n, k := isIntConst(unwrap(r.bind.arg(3))); k {
		ok = c.ok(n == 0, rule, r, r.bind, "the key %s is bound with a modifier", r.name) && ok
	}
	return ok
}

// removed: no binding is taken away while the GUI runs.
func (w *World) keysStay(c *Check, rule string) {
	for _, r := range w.gui {
		for _, ev := range r.events {
			if ev.kind == "call" && (strings.HasPrefix(ev.name, gocuiGui+"DeleteKeybinding") || strings.HasPrefix(ev.name, gocuiGui+"SetManager")) {
				c.ok(!sat(ev.pc), rule, r, ev, "bindings are removed")
			}
		}
	}
}

// viewPos is where a view is scrolled to and its cursor is.
type viewPos struct {
	cx, cy, ox, oy Val
	pres           BDD
}

// positions follows the cursors and origins of the views through a run.
// facts: what the outcome of the calls says; unknown: something else moves.
type positions struct {
	views   map[string]*viewPos
	known   map[*Term]Val
	facts   BDD
	unknown bool
}

func (p *positions) rb() *rebuilder {
	return newRebuilder(T, func(t *Term) (Val, bool) {
		v, ok := p.known[t]
		return v, ok
	})
}

func setCase(old Val, g BDD, v Val) Val {
	var cs []Case
	for _, c := range v {
		cs = append(cs, Case{and(g, c.g), c.t})
	}
	for _, c := range old {
		cs = append(cs, Case{and(not(g), c.g), c.t})
	}
	return mkVal(cs, T)
}

func (w *World) positions(r *Run, have map[string]bool, init map[string]*viewPos) *positions {
	intT := types.Typ[types.Int]
	p := &positions{views: map[string]*viewPos{}, known: map[*Term]Val{}, facts: T}
	get := func(n string) *viewPos {
		if v := p.views[n]; v != nil {
			return v
		}
		v := init[n]
		if v == nil {
			v = &viewPos{one(mkSym("cx:"+n, intT)), one(mkSym("cy:"+n, intT)), one(mkSym("ox:"+n, intT)), one(mkSym("oy:"+n, intT)), F}
		}
		if have[n] {
			v.pres = T
		}
		for _, x := range []Val{v.cx, v.cy, v.ox, v.oy} {
			p.facts = and(p.facts, valP1(x, ge0))
		}
		p.views[n] = v
		return v
	}
	for n := range init {
		get(n)
	}
	for n, ok := range have {
		if ok {
			get(n)
		}
	}
	proj := func(ev *Event, i string) *Term { return mkT(OProj, i, 0, nil, intT, ev.res) }
	zero := one(mkInt(0))
	for _, ev := range r.events {
		if ev.kind != "call" || ev.async {
			continue
		}
		if strings.HasPrefix(ev.name, gocuiGui) {
			n, ok := isStrConst(ev.arg(1))
			if !ok {
				continue
			}
			switch strings.TrimPrefix(ev.name, gocuiGui) {
			case "SetView":
				v := get(n)
				g := p.rb().bdd(noPos(ev.pc))
				fresh := diff(g, v.pres)
				v.cx, v.cy, v.ox, v.oy = setCase(v.cx, fresh, zero), setCase(v.cy, fresh, zero), setCase(v.ox, fresh, zero), setCase(v.oy, fresh, zero)
				v.pres = or(v.pres, g)
			case "DeleteView":
				v := get(n)
				v.pres = diff(v.pres, p.rb().bdd(noPos(ev.pc)))
			}
			continue
		}
		if !strings.HasPrefix(ev.name, gocuiView) || len(ev.args) == 0 {
			continue
		}
		vt := viewName(unwrap(ev.arg(0)))
		if vt == nil {
			continue
		}
		n, _ := isStrConst(vt)
		op := strings.TrimPrefix(ev.name, gocuiView)
		switch op {
		case "Cursor":
			p.known[proj(ev, "0")], p.known[proj(ev, "1")] = get(n).cx, get(n).cy
		case "Origin":
			p.known[proj(ev, "0")], p.known[proj(ev, "1")] = get(n).ox, get(n).oy
		case "MoveCursor", "Rewind", "EditNewLine", "EditWrite", "EditDelete":
			p.unknown = true
		case "SetCursor", "SetOrigin":
			if len(ev.loops) > 0 {
				p.unknown = true
			}
			v := get(n)
			b := p.rb()
			g := b.bdd(noPos(ev.pc))
			x, y := b.val(ev.args[1]), b.val(ev.args[2])
			good := T
			if ev.res != nil {
				good = eqB(ev.res, mkNil())
				p.known[ev.res] = one(ev.res)
			}
			in := and(valP1(x, ge0), valP1(y, ge0))
			p.facts = and(p.facts, or(not(and(g, not(in))), not(good)))
			if op == "SetOrigin" {
				p.facts = and(p.facts, or(not(and(g, in)), good))
				v.ox, v.oy = setCase(v.ox, and(g, good), x), setCase(v.oy, and(g, good), y)
				break
			}
			// what was visible stays visible
			inside := and(in, valP2(y, v.cy, func(a, b *Term) BDD { return ge0(subT(b, a)) }), valP2(x, v.cx, func(a, b *Term) BDD { return ge0(subT(b, a)) }))
			p.facts = and(p.facts, or(not(and(g, inside)), good))
			v.cx, v.cy = setCase(v.cx, and(g, good), x), setCase(v.cy, and(g, good), y)
		}
	}
	return p
}

// focusAfter is the focus after a run, by view.
func (w *World) focusAfter(r *Run, have map[string]bool, start string) map[string]BDD {
	cur := map[string]BDD{start: T}
	pres := map[string]BDD{}
	for v, ok := range have {
		if ok {
			pres[v] = T
		}
	}
	for _, ev := range r.events {
		if ev.kind != "call" || ev.async || !strings.HasPrefix(ev.name, gocuiGui) {
			continue
		}
		n, ok := isStrConst(ev.arg(1))
		if !ok {
			continue
		}
		g := noPos(ev.pc)
		switch strings.TrimPrefix(ev.name, gocuiGui) {
		case "SetView":
			pres[n] = or(there(pres, n), g)
		case "DeleteView":
			pres[n] = diff(there(pres, n), g)
		case "SetCurrentView":
			h := and(g, there(pres, n))
			for v := range cur {
				if v != n {
					cur[v] = diff(cur[v], h)
				}
			}
			cur[n] = or(there(cur, n), h)
		}
	}
	return cur
}

type keyCheck struct {
	*menu
	help string
}

func (x *keyCheck) handlers(view, key string) []*Run {
	var rs []*Run
	for _, r := range x.m.runs {
		if r.kind == "handler" && r.key == key && (r.view == view || r.view == "") {
			rs = append(rs, r)
		}
	}
	return rs
}

// one handler for a key of a view, bound whatever happens.
func (x *keyCheck) handler(view, key, what string) *Run {
	rs := x.handlers(view, key)
	if !x.c.need(len(rs) > 0, "key-bound", "the key %s of %s, to %s, is not bound", key, view, what) {
		return nil
	}
	if !x.c.need(len(rs) == 1, "key-bound", "the key %s of %s is bound %d times", key, view, len(rs)) {
		return nil
	}
	x.w.bound(x.c, rs[0], "key-bound")
	return rs[0]
}

func (x *keyCheck) focused(r *Run, view string, f func(have map[string]bool, after map[string]BDD, ctx BDD)) {
	n := 0
	x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		if have[view] {
			n++
			f(have, after, ctx)
		}
	})
	x.c.ok(n > 0, "key-works", r, nil, "%s never gets the focus or its key always fails", view)
}

func init() {
	register("C27", "Keys do what the help says, and only the quit key ends the session", func(c *Check) {
		m, _ := newMenu(c)
		if m == nil {
			return
		}
		x := &keyCheck{menu: m}
		c.w.keysStay(c, "key-bound")
		for _, k := range []string{"j", "Down"} {
			x.moves(x.vm, k, x.catIdx, x.cats, 1, "select the next entry")
			x.moves(x.vi, k, x.itmIdx, x.items, 1, "select the next item")
			x.scrolls(k, 0, 1)
		}
		for _, k := range []string{"k", "Up"} {
			x.moves(x.vm, k, x.catIdx, x.cats, -1, "select the previous entry")
			x.moves(x.vi, k, x.itmIdx, x.items, -1, "select the previous item")
			x.scrolls(k, 0, -1)
		}
		for _, k := range []string{"h", "Left"} {
			x.scrolls(k, -1, 0)
			x.back(k)
		}
		x.back("q")
		for _, k := range []string{"l", "Right"} {
			x.scrolls(k, 1, 0)
			x.open(k)
		}
		x.open("Enter")
		x.reveal()
		x.cover()
		x.fromStart()
		x.stays()
		// the row that is marked on the screen is the selected one after every key
		x.rows(x.vm, x.catIdx)
		x.rows(x.vi, x.itmIdx)
		x.helps()
	})
}

// moves: the key moves the selection by d within its list.
func (x *keyCheck) moves(view, key string, idx, list *Term, d int64, what string) {
	w := x.w
	r := x.handler(view, key, what)
	if r == nil {
		return
	}
	i, l := w.hvSym(idx), w.hvSym(list)
	can := ge0(subT(i, mkInt(1)))
	if d > 0 {
		can = and(ge0(i), ge0(subT(subT(lenT(l), i), mkInt(2))))
	}
	x.focused(r, view, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		for _, ci := range w.at(r.out.heap, idx) {
			g := and(ctx, ci.g)
			x.c.ok(implies(and(g, can), eq0(subT(ci.t, addT(i, mkInt(d))))), "moves-by-one", r, nil, "%s does not %s: %s", key, what, witness(and(g, can)))
			x.c.ok(implies(diff(g, can), eq0(subT(ci.t, i))), "stops-at-the-end", r, nil, "%s moves on although there is nothing to select: %s", key, witness(diff(g, can)))
		}
		for _, cl := range w.at(r.out.heap, list) {
			x.c.ok(cl.t == l || !sat(and(ctx, cl.g)), "moves-only", r, nil, "%s changes the list", key)
		}
		x.keepsFocus(r, have, ctx, view)
	})
}

func (x *keyCheck) keepsFocus(r *Run, have map[string]bool, ctx BDD, view string) {
	f := x.w.focusAfter(r, have, r.view)
	x.c.ok(implies(ctx, there(f, view)), "focus", r, nil, "the focus may not be on %s: %s", view, witness(diff(ctx, there(f, view))))
}

// scrolls: the key scrolls the revealed item by one, never before its start.
func (x *keyCheck) scrolls(key string, dx, dy int64) {
	w := x.w
	r := x.handler(x.vd, key, "scroll")
	if r == nil {
		return
	}
	x.focused(r, x.vd, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		p := w.positions(r, have, nil)
		if p.unknown {
			x.c.count("scrolls-undecided")
			return
		}
		g := and(p.rb().bdd(ctx), p.facts)
		v := p.views[x.vd]
		intT := types.Typ[types.Int]
		good := T
		for _, a := range []struct {
			now Val
			old *Term
			d   int64
		}{{v.ox, mkSym("ox:"+x.vd, intT), dx}, {v.oy, mkSym("oy:"+x.vd, intT), dy}} {
			to := addT(a.old, mkInt(a.d))
			can := ge0(to)
			good = and(good, valP1(a.now, func(t *Term) BDD { return or(and(can, eq0(subT(t, to))), and(not(can), eq0(subT(t, a.old)))) }))
		}
		x.c.ok(implies(g, good), "scrolls-by-one", r, nil, "%s does not scroll the item by one: %s", key, witnessOf(diff(g, good), g))
		x.keepsFocus(r, have, ctx, x.vd)
	})
}

func (x *keyCheck) open(key string) {
	w := x.w
	r := x.handler(x.vm, key, "open the selected entry")
	if r == nil {
		return
	}
	some := ge0(w.hvSym(x.catIdx))
	x.focused(r, x.vm, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		g := and(ctx, some)
		f := w.focusAfter(r, have, x.vm)
		x.c.ok(implies(g, and(there(f, x.vi), there(after, x.vi))), "opens", r, nil, "%s may not open the selected entry: %s", key, witness(diff(g, there(f, x.vi))))
		for _, p := range []*Term{x.catIdx, x.cats} {
			for _, cs := range w.at(r.out.heap, p) {
				x.c.ok(cs.t == w.hvSym(p) || !sat(and(ctx, cs.g)), "opens", r, nil, "%s changes the menu or its selection", key)
			}
		}
	})
}

func (x *keyCheck) back(key string) {
	w := x.w
	r := x.handler(x.vi, key, "go back to the menu")
	if r == nil {
		return
	}
	x.focused(r, x.vi, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		f := w.focusAfter(r, have, x.vi)
		gone := and(not(there(after, x.vi)), not(there(after, x.vd)))
		x.c.ok(implies(ctx, and(there(f, x.vm), there(after, x.vm), gone)), "goes-back", r, nil, "%s may not go back to the menu: %s", key, witness(diff(ctx, and(there(f, x.vm), gone))))
		for _, p := range []*Term{x.catIdx, x.cats} {
			for _, cs := range w.at(r.out.heap, p) {
				x.c.ok(cs.t == w.hvSym(p) || !sat(and(ctx, cs.g)), "goes-back", r, nil, "%s changes the menu or its selection", key)
			}
		}
		vt := x.text(r, x.vm, have)
		x.c.ok(!sat(and(ctx, or(vt.wiped, vt.wrote))), "goes-back", r, nil, "%s writes into the menu: %s", key, witness(and(ctx, or(vt.wiped, vt.wrote))))
	})
}

func (x *keyCheck) reveal() {
	w := x.w
	r := x.handler(x.vi, "Tab", "reveal the selected item")
	if r == nil {
		return
	}
	some := ge0(w.hvSym(x.itmIdx))
	x.focused(r, x.vi, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		g := and(ctx, some)
		f := w.focusAfter(r, have, x.vi)
		x.c.ok(implies(g, there(f, x.vd)), "reveals", r, nil, "the revealed item may not get the focus: %s", witness(diff(g, there(f, x.vd))))
		vt := x.text(r, x.vd, have)
		x.c.ok(implies(g, vt.wiped), "reveals", r, nil, "the item may not be written anew: %s", witness(diff(g, vt.wiped)))
		secret := false
		for _, p := range vt.pieces {
			if w.taint(p.t)&tSECRET != 0 || anyTerm(p.t, func(t *Term) bool { return t.op == OField && t.s == "Notes" }) {
				secret = true
			}
		}
		x.c.ok(secret, "reveals", r, nil, "nothing is revealed")
		for _, p := range []*Term{x.itmIdx, x.items} {
			for _, cs := range w.at(r.out.heap, p) {
				x.c.ok(cs.t == w.hvSym(p) || !sat(and(ctx, cs.g)), "reveals", r, nil, "revealing changes the list or its selection")
			}
		}
	})
}

func (x *keyCheck) cover() {
	w := x.w
	r := x.handler(x.vd, "Tab", "cover the item")
	if r == nil {
		return
	}
	x.focused(r, x.vd, func(have map[string]bool, after map[string]BDD, ctx BDD) {
		f := w.focusAfter(r, have, x.vd)
		x.c.ok(implies(ctx, and(there(f, x.vi), there(after, x.vi))), "covers", r, nil, "covering the item may not return to the list: %s", witness(diff(ctx, there(f, x.vi))))
		vt := x.text(r, x.vd, have)
		x.c.ok(implies(ctx, vt.wiped), "covers", r, nil, "the revealed item may stay: %s", witness(diff(ctx, vt.wiped)))
		for _, p := range []*Term{x.itmIdx, x.items} {
			for _, cs := range w.at(r.out.heap, p) {
				x.c.ok(cs.t == w.hvSym(p) || !sat(and(ctx, cs.g)), "covers", r, nil, "covering changes the list or its selection")
			}
		}
	})
}

// fromStart: an item that is written is shown from its start.
func (x *keyCheck) fromStart() {
	w := x.w
	n := 0
	for _, r := range x.m.runs {
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			vt := x.text(r, x.vd, have)
			g := and(ctx, there(after, x.vd), vt.wrote)
			if !sat(g) {
				return
			}
			p := w.positions(r, have, nil)
			if p.unknown || p.views[x.vd] == nil {
				x.c.count("from-start-undecided")
				return
			}
			n++
			v := p.views[x.vd]
			g = and(p.rb().bdd(g), p.facts)
			good := and(valP1(v.ox, eq0), valP1(v.oy, eq0))
			x.c.ok(implies(g, good), "from-the-start", r, nil, "the item may be shown scrolled away from its start after %s: %s", r.name, witnessOf(diff(g, good), g))
		})
	}
	x.c.need(n > 0, "from-the-start", "no run writes an item")
}

// stays: a key ends the session only if gocui itself fails, and the quit key.
func (x *keyCheck) stays() {
	w := x.w
	for _, r := range x.m.runs {
		for _, ev := range r.events {
			if ev.kind == "exit" || ev.kind == "panic" {
				x.c.ok(!sat(and(ev.pc, r.pre.pc)), "stays-in-session", r, ev, "%s ends the program", r.name)
			}
		}
		if r.kind != "handler" || r.key == "Ctrl-Q" && r.view == "" {
			continue
		}
		for _, have := range w.starts(r) {
			_, facts := w.presence(r, have)
			p := w.positions(r, have, nil)
			if p.unknown {
				x.c.count("stays-undecided")
				continue
			}
			b := p.rb()
			g := and(b.bdd(noPos(and(r.out.pc, facts, w.guiPC, w.holds(have)))), p.facts)
			fin := b.bdd(noPos(nilReturn(r)))
			x.c.ok(implies(g, fin), "stays-in-session", r, nil, "%s may end the session (views %s): %s", r.name, viewsOf(have), witnessOf(diff(g, fin), g))
		}
	}
	// the layouts, when the GUI starts
	have := map[string]bool{}
	for _, r := range x.m.runs {
		if r.kind != "layout" {
			continue
		}
		after, facts := w.presence(r, have)
		g := noPos(and(r.out.pc, facts, w.guiPC, w.holds(have)))
		x.c.ok(implies(g, noPos(nilReturn(r))), "starts", r, nil, "the GUI may end when it starts: %s", witness(diff(g, noPos(nilReturn(r)))))
		next := map[string]bool{}
		for v, b := range after {
			if sat(and(g, b)) {
				next[v] = true
			}
		}
		have = next
	}
}

// ---- the help panel

func helpTokens(s string) map[string]int {
	out := map[string]int{}
	for _, t := range strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) {
		out[strings.ToLower(t)]++
	}
	return out
}

// helpFor: the text lists the keys of the view.
func (x *keyCheck) helpFor(text, view string) bool {
	t := helpTokens(text)
	if t["ctrl"] < 2 || t["q"] < 1 || t["l"] < 1 || t["j"] < 1 || t["k"] < 1 {
		return false
	}
	switch view {
	case x.vi:
		return t["tab"] > 0 && t["q"] > 1 && t["enter"] == 0
	case x.vd:
		return t["tab"] > 0 && t["h"] > 0 && t["l"] > 1 && t["enter"] == 0
	}
	return t["enter"] > 0 && t["tab"] == 0
}

type helpText struct {
	g BDD
	s string
}

// texts puts together what a run writes into a view.
func (x *keyCheck) texts(vt viewText, ctx BDD) []helpText {
	out := []helpText{{ctx, ""}}
	for _, p := range vt.pieces {
		s, ok := isStrConst(p.t)
		if !ok {
			s = "\x00"
		}
		var next []helpText
		for _, h := range out {
			if g := and(h.g, noPos(p.g)); sat(g) {
				next = append(next, helpText{g, h.s + s})
			}
			if g := diff(h.g, noPos(p.g)); sat(g) {
				next = append(next, helpText{g, h.s})
			}
		}
		out = next
		if len(out) > 64 {
			break
		}
	}
	return out
}

func (x *keyCheck) class(view string) string {
	if view == x.vi || view == x.vd {
		return view
	}
	return x.vm
}

func (x *keyCheck) helps() {
	w := x.w
	seen := map[string]bool{}
	for _, r := range x.m.runs {
		for _, p := range w.piecesOf(r) {
			if s, ok := isStrConst(p.t); ok && helpTokens(s)["ctrl"] > 0 {
				if v := viewName(unwrap(p.ev.arg(0))); v != nil {
					x.help, _ = isStrConst(v)
					seen[x.help] = true
				}
			}
		}
	}
	if !x.c.need(len(seen) == 1, "help-panel", "there is not one view with help but %d", len(seen)) {
		return
	}
	n := 0
	for _, r := range x.m.runs {
		if r.kind == "handler" && r.view == "" {
			continue
		}
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			if r.kind == "handler" && !have[x.help] {
				return
			}
			vt := x.text(r, x.help, have)
			focus := w.focusAfter(r, have, r.view)
			for v, f := range focus {
				g := and(ctx, f)
				if v == "" || !sat(g) {
					continue
				}
				changed := r.kind == "layout" || x.class(v) != x.class(r.view)
				if changed {
					n++
				}
				for _, h := range x.texts(vt, g) {
					if h.s == "" {
						x.c.ok(!changed, "help-panel", r, nil, "the help is not that of %s after %s: %s", x.class(v), r.name, witness(h.g))
						continue
					}
					x.c.ok(x.helpFor(h.s, x.class(v)), "help-panel", r, nil, "with the focus on %s the help is %q after %s", v, h.s, r.name)
					x.c.ok(!have[x.help] || implies(h.g, vt.wiped), "help-panel", r, nil, "the help is written twice after %s", r.name)
				}
			}
		})
	}
	x.c.need(n > 2, "help-panel", "the focus never changes")
}
