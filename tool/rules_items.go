package main

import (
	"go/types"
	"strings"
)

// textOf: what a term is of a flag: the flag itself below trimming and folding.
func textOf(t *Term, flag string) (trim, fold string, ok bool) {
	for {
		if t.op == OSym && t.s == flag {
			return trim, fold, true
		}
		if t.op != OCall || len(t.args) == 0 {
			return "", "", false
		}
		switch t.s {
		case "strings.TrimSpace":
			trim = "trim"
		case "strings.ToLower", "strings.ToUpper":
			fold = t.s
		default:
			return "", "", false
		}
		t = t.args[0]
	}
}

func itemField(X *Term, name string) *Term {
	st, ok := derefType(X.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			for _, t := range termList {
				if t.op == OField && t.s == name && t.args[0] == X {
					return t
				}
			}
			return fieldT(X, name, fieldRef{name: name, idx: i, st: derefType(X.typ)}, st.Field(i).Type())
		}
	}
	return nil
}

// elemsAt are the terms for the element of seq at K.
func elemsAt(seq, K *Term) *Term {
	for _, t := range termList {
		if t.op == OElem && t.args[0] == seq && t.args[1] == K {
			return t
		}
	}
	var et types.Type
	if seq.typ != nil {
		if s, ok := seq.typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	return elemT(seq, K, et)
}

// catNorm: conditions on the category of an item all in terms of which
// category object it is.
func catNorm(g BDD, X *Term, cats []category) BDD {
	cat := itemField(X, "Category")
	if cat == nil {
		return g
	}
	return substBDD(g, func(x int32) BDD {
		a := atoms[x]
		if a.op == OEq && a.s == "" && len(a.args) == 2 {
			for k := 0; k < 2; k++ {
				f, o := a.args[k], a.args[1-k]
				s, isS := isStrConst(o)
				if f.op == OField && f.args[0] == cat && isS {
					for _, q := range cats {
						if f.s == "code" && q.code == s || f.s == "name" && q.name == s {
							return eqB(cat, q.obj)
						}
					}
				}
				if f == cat && o.op == ONil {
					return F // every item has a category
				}
			}
		}
		return bvar(x)
	})
}

func init() {
	register("C15", "Searches return exactly the matching items", func(c *Check) {
		w := c.w
		_, _, cats, why := w.registry()
		if !c.need(why == "", "registry", "%s", why) {
			return
		}
		c.searchList(cats)
		c.findItem()
		c.countItems(cats)
	})
}

// tableRow is a row of a table, or one row per iteration of a loop.
type tableRow struct {
	ev    *Event
	li    *LoopInfo // nil outside loops
	guard BDD       // when the row is added (within the loop)
	ctx   BDD       // when the loop is reached and the rows get into the table
	cells []Val
	deep  bool // in several loops
}

// rowsOf are the rows that a run puts into tables.
func (w *World) rowsOf(r *Run) []tableRow {
	var out []tableRow
	for _, ev := range r.events {
		switch ev.kind {
		case "row":
			t := tableRow{ev: ev, guard: ev.pc, ctx: ev.pc, cells: ev.args[1:]}
			if n := len(ev.loops); n > 0 {
				t.li = w.e.loops[ev.loops[n-1]]
				t.guard = w.focus(ev.pc, t.li)
				t.ctx = noPos(outsideLoops(ev))
				t.deep = n > 1
			}
			out = append(out, t)
		case "rows":
			var list []Case
			for _, a := range ev.args[1:] {
				for _, cs := range a {
					if cs.t.op == OSpread && cs.t.args[0].op == OMu {
						cp, why := w.compOf(cs.t.args[0])
						if why != "" {
							out = append(out, tableRow{ev: ev, guard: ev.pc, ctx: ev.pc})
							continue
						}
						for _, e := range cp.emits {
							cells, _ := w.e.elements(State{T, cp.li.backHp}, unwrap(e.t), nil)
							out = append(out, tableRow{ev: ev, li: cp.li, guard: e.g, ctx: noPos(and(ev.pc, cs.g)), cells: cells, deep: len(ev.loops) > 0 || w.e.loops[cp.li.parent] != nil})
						}
						continue
					}
					list = append(list, cs)
				}
			}
			for _, cs := range list {
				cells, _ := w.e.elements(State{T, ev.heap}, unwrap(cs.t), nil)
				out = append(out, tableRow{ev: ev, guard: and(ev.pc, cs.g), ctx: and(ev.pc, cs.g), cells: cells, deep: len(ev.loops) > 0})
			}
		}
	}
	return out
}

func (c *Check) searchList(cats []category) {
	w := c.w
	r := w.run("list")
	if !c.need(r != nil, "list", "there is no list command") {
		return
	}
	rows := w.rowsOf(r)
	if !c.need(len(rows) > 0, "list", "the list command shows no rows") {
		return
	}
	none, known := categoryFacts()
	for _, row := range rows {
		ev, li := row.ev, row.li
		if !c.ok(li != nil && !row.deep, "list", r, ev, "a row is not written once per result") {
			continue
		}
		srcs, why := w.sourcesOf(li)
		if !c.ok(why == "", "list", r, ev, "%s", why) {
			continue
		}
		for _, x := range li.exits {
			c.ok(x.header || !sat(x.pc), "list", r, ev, "the rows may stop early")
		}
		ctx := row.ctx
		for _, s := range srcs {
			if s.seq == nil {
				c.ok(!sat(and(s.cond, ctx)), "complete", r, ev, "there may be no items to show: %s", witness(and(s.cond, ctx)))
				continue
			}
			// all rows of this loop together
			g := F
			for _, o := range rows {
				if o.li == li {
					g = or(g, o.guard)
				}
			}
			fs, why := w.flatten(flat{cond: s.cond, base: s.seq, K: loopK(li.id), guard: g, bound: s.bound})
			if !c.ok(why == "", "list", r, ev, "the rows cannot be followed to the items: %s", why) {
				continue
			}
			for _, f := range fs {
				if f.base == nil {
					c.ok(!sat(and(f.cond, ctx)), "complete", r, ev, "there may be no items to show: %s", witness(and(f.cond, ctx)))
					continue
				}
				X := elemsAt(f.base, f.K)
				c.matches(r, ev, f, X, ctx, none, known, cats)
			}
			// the results are shown whenever there are any
			for _, f := range fs {
				bl := w.e.loops[f.K.k]
				if bl == nil || f.base == nil {
					continue
				}
				rc := noPos(bl.entry)
				for _, o := range srcs {
					if o.seq != nil {
						rc = and(rc, ge0(subT(lenT(o.seq), mkInt(1))))
					}
				}
				c.ok(implies(rc, ctx), "shown", r, ev, "matching items may not be shown: %s", witnessOf(diff(rc, ctx), T))
				if dl := w.e.loops[f.base.k]; f.base.op == OMu && dl != nil {
					rc := and(noPos(dl.entry), or(none, known))
					c.ok(implies(rc, noPos(bl.entry)), "searched", r, ev, "the items may not be searched: %s", witnessOf(diff(rc, noPos(bl.entry)), T))
				}
			}
		}
	}
	// the search is made once the vault is open and the category is known
	u := c.unlockOf(r)
	reach := F
	for _, row := range rows {
		reach = or(reach, noLoops(row.ctx))
	}
	c.need(u.master && u.over, "list", "the list does not open the vault")
	_ = reach
	c.ok(sat(and(none, reach)), "list", r, nil, "a list without a category shows nothing")
	c.ok(sat(and(known, reach)), "list", r, nil, "a list with a category shows nothing")
}

// matches: an item is shown exactly if it matches the filters.
func (c *Check) matches(r *Run, ev *Event, f flat, X *Term, ctx, none, known BDD, cats []category) {
	guard := catNorm(f.guard, X, cats)
	tr, ti := itemField(X, "Trashed"), itemField(X, "Title")
	cat := itemField(X, "Category")
	if !c.need(tr != nil && ti != nil && cat != nil, "filters", "an item has no trashed state, title or category") {
		return
	}
	flagTrashed := boolOf(mkSym("flag:trashed", types.Typ[types.Bool]))
	E := iff(boolOf(tr), flagTrashed)
	// category
	E2 := none
	for _, k := range cats {
		asked := F
		for i, t := range atoms {
			if t.op != OEq || len(t.args) != 2 {
				continue
			}
			for j := 0; j < 2; j++ {
				if s, ok := isStrConst(t.args[j]); ok && isCatFlag(t.args[1-j]) && strings.EqualFold(s, k.name) {
					asked = or(asked, bvar(int32(i)))
				}
			}
		}
		E2 = or(E2, and(not(none), asked, eqB(cat, k.obj)))
	}
	// title: one condition "is contained", one "no text"
	has := mkT(OSym, "?title matches", 0, nil, types.Typ[types.Bool])
	no := mkT(OSym, "?no text", 0, nil, types.Typ[types.Bool])
	ax := or(not(boolOf(no)), boolOf(has))
	bad := ""
	norm := func(g BDD) BDD {
		return substBDD(g, func(x int32) BDD {
			a := atoms[x]
			if !anyTerm(a, func(t *Term) bool { return t.op == OSym && t.s == "flag:name" }) {
				return bvar(x)
			}
			switch {
			case a.op == OEq && len(a.args) == 2:
				for j := 0; j < 2; j++ {
					if s, ok := isStrConst(a.args[j]); ok && s == "" {
						if tm, _, ok := textOf(a.args[1-j], "flag:name"); ok {
							if tm != "" {
								return boolOf(no)
							}
							// nothing at all: then there is no text
							ax = and(ax, or(not(bvar(x)), boolOf(no)))
							return bvar(x)
						}
					}
				}
			case a.op == OGe0 || a.op == OEq:
				// len(text) compared with zero
				l := toLin(a.args[0])
				if len(l.m) == 1 {
					for t, co := range l.m {
						if t.op == OLen {
							if tm, _, ok := textOf(t.args[0], "flag:name"); ok && tm != "" {
								switch {
								case a.op == OGe0 && co == 1 && l.k == -1:
									return not(boolOf(no))
								case a.op == OEq && l.k == 0:
									return boolOf(no)
								}
							}
						}
					}
				}
			case a.op == OCall && a.s == "strings.Contains" && len(a.args) == 2:
				tm, fold, ok := textOf(a.args[1], "flag:name")
				if ok && tm != "" && fold != "" && a.args[0].op == OCall && a.args[0].s == fold && len(a.args[0].args) == 1 && a.args[0].args[0] == ti {
					return boolOf(has)
				}
			}
			bad = a.String()
			return bvar(x)
		})
	}
	guard = norm(guard)
	ctx = norm(ctx)
	E3 := or(boolOf(no), boolOf(has))
	want := and(E, E2, E3)
	under := and(ctx, f.cond, f.bound, ax, noPos(w0(c, f)))
	if bad != "" {
		c.ok(false, "filters", r, ev, "the title is compared by %s", clip(bad, 120))
		return
	}
	c.ok(sat(and(under, guard)), "filters", r, ev, "no item is ever shown")
	c.ok(implies(and(under, guard), E), "trashed", r, ev, "an item of the other trashed state is shown: %s", witness(diff(and(under, guard), E)))
	c.ok(implies(and(under, guard), E2), "category", r, ev, "an item of another category is shown: %s", witness(diff(and(under, guard), E2)))
	c.ok(implies(and(under, guard), E3), "title", r, ev, "an item whose title does not contain the text is shown: %s", witness(diff(and(under, guard), E3)))
	c.ok(implies(and(under, want), guard), "complete", r, ev, "a matching item is not shown: %s", witness(diff(and(under, want), guard)))
}

func w0(c *Check, f flat) BDD {
	if li := c.w.e.loops[f.K.k]; li != nil {
		return li.entry
	}
	return T
}

// itemsShown are the items whose data a value contains.
func itemsShown(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	walkT(t, func(x *Term) bool {
		if x.op == OField && x.args[0].op != OAlloc && isItemType(x.args[0].typ) && !seen[x.args[0]] {
			seen[x.args[0]] = true
			out = append(out, x.args[0])
		}
		return true
	})
	return out
}

// findItem: what details and overview show belongs to the item asked for.
func (c *Check) findItem() {
	w := c.w
	uid := argT(0)
	trashed := boolOf(mkSym("flag:trashed", types.Typ[types.Bool]))
	for _, n := range []string{"details", "overview"} {
		r := w.run(n)
		if !c.need(r != nil, "by-identifier", "there is no %s command", n) {
			continue
		}
		shown := map[*Term]bool{}
		for _, ev := range r.events {
			if !onTerminal(ev) {
				continue
			}
			for i := range ev.args {
				for _, cs := range ev.args[i] {
					for _, X := range itemsShown(cs.t) {
						pc := and(ev.pc, cs.g)
						shown[X] = true
						if !sat(pc) || X.op == OMu {
							continue
						}
						m := c.match(X, uid, trashed)
						c.ok(implies(pc, m), "by-identifier", r, ev, "shows an item that was not asked for: %s", witness(diff(pc, m)))
					}
				}
			}
		}
		c.need(len(shown) > 0, "by-identifier", "%s shows no item", n)
		for X := range shown {
			c.foundItem(r, X, uid, trashed)
		}
	}
}

// foundItem: an item that a search for an identifier and trashed state yields.
func (c *Check) foundItem(r *Run, X, uid *Term, trashed BDD) {
	w := c.w
	switch {
	case X.op == OElem && X.args[1].op == OK:
		li := w.e.loops[X.args[1].k]
		if !c.ok(li != nil, "found", r, nil, "the item is not searched for in a loop") {
			return
		}
		m := c.match(X, uid, trashed)
		c.ok(implies(li.back, not(m)), "found", r, nil, "the search passes over an item that was asked for: %s", witness(and(li.back, m)))
		for _, x := range li.exits {
			if !x.header {
				c.ok(implies(x.pc, m), "found", r, nil, "the search stops at an item that was not asked for: %s", witness(diff(x.pc, m)))
			}
		}
		c.baseOnly(r, li, X, m, uid, trashed)
	case X.op == OMu:
		lv := w.loopVarOf(X)
		if !c.ok(lv != nil, "found", r, nil, "the item is not searched for in a loop") {
			return
		}
		li := w.e.loops[X.k]
		for _, i := range lv.init {
			c.ok(i.t.op == ONil, "found", r, nil, "the search starts with an item")
		}
		taken := F
		var elem *Term
		for _, b := range lv.back {
			g := and(b.g, li.back)
			switch {
			case b.t == X || b.t == lv.val:
			case b.t.op == OElem:
				elem = b.t
				m := c.match(b.t, uid, trashed)
				c.ok(implies(g, m), "found", r, nil, "the search takes an item that was not asked for: %s", witness(diff(g, m)))
				taken = or(taken, g)
			default:
				c.ok(!sat(g), "found", r, nil, "the search yields %v", b.t)
			}
		}
		if c.ok(elem != nil, "found", r, nil, "the search takes no item") {
			m := c.match(elem, uid, trashed)
			unset := or(eqB(X, mkNil()), eqB(lv.val, mkNil()))
			c.ok(implies(and(li.back, m, unset), taken), "found", r, nil, "the search passes over an item that was asked for: %s", witness(diff(and(li.back, m, unset), taken)))
			c.baseOnly(r, li, elem, m, uid, trashed)
		}
	default:
		c.ok(false, "found", r, nil, "shows an item of unknown origin: %v", X)
	}
}

func (c *Check) match(X, uid *Term, trashed BDD) BDD {
	return and(eqB(itemField(X, "Uid"), uid), iff(boolOf(itemField(X, "Trashed")), trashed))
}

// baseOnly: the list searched holds every item that could be asked for.
func (c *Check) baseOnly(r *Run, li *LoopInfo, X *Term, m BDD, uid *Term, trashed BDD) {
	w := c.w
	srcs, why := w.sourcesOf(li)
	if !c.ok(why == "", "found", r, nil, "%s", why) {
		return
	}
	for _, s := range srcs {
		if s.seq == nil {
			c.ok(!sat(and(s.cond, li.entry)), "found", r, nil, "there may be no items to search: %s", witness(s.cond))
			continue
		}
		fs, why := w.flatten(flat{cond: s.cond, base: s.seq, K: loopK(li.id), guard: T, bound: T})
		if !c.ok(why == "", "found", r, nil, "the items searched are not known: %s", why) {
			continue
		}
		for _, f := range fs {
			if f.base == nil {
				c.ok(!sat(and(f.cond, li.entry)), "found", r, nil, "there may be no items to search: %s", witness(f.cond))
				continue
			}
			Y := elemsAt(f.base, f.K)
			want := and(c.match(Y, uid, trashed), f.cond, noPos(w0(c, f)), f.bound)
			c.ok(implies(want, or(f.guard, not(f.bound))), "found", r, nil, "the search leaves out an item that was asked for: %s", witness(diff(want, f.guard)))
		}
	}
}

// guiControl is the wired control of the GUI.
func (w *World) guiControl() *Term {
	p := w.e.pkg("1pass-core/port/in")
	if p == nil || p.Type("GuiControl") == nil {
		return nil
	}
	return w.findIface(w.guiHeap, p.Type("GuiControl").Type())
}

// ask runs a method of the GUI control in any state of the GUI.
func (w *World) ask(name string, args ...Val) *Run {
	ctl := w.guiControl()
	if ctl == nil {
		return nil
	}
	return w.method(ctl, name, args, State{w.guiPC, w.guiHeap}, "ask:"+name)
}

// countItems: counting and listing for the GUI.
func (c *Check) countItems(cats []category) {
	w := c.w
	if !c.need(len(cats) > 0, "count", "there are no categories") {
		return
	}
	ct := cats[0].obj.typ
	cat := mkSym("asked category", ct)
	tr := mkSym("asked trashed", types.Typ[types.Bool])
	want := func(X *Term) BDD {
		return and(or(eqB(cat, mkNil()), eqB(cat, itemField(X, "Category"))), iff(boolOf(itemField(X, "Trashed")), boolOf(tr)))
	}
	norm := func(g BDD, X *Term) BDD {
		xc := itemField(X, "Category")
		return substBDD(g, func(x int32) BDD {
			a := atoms[x]
			if a.op == OEq && len(a.args) == 2 && a.args[0].op == OField && a.args[1].op == OField && a.args[0].s == a.args[1].s && (a.args[0].s == "code" || a.args[0].s == "name") {
				p, q := a.args[0].args[0], a.args[1].args[0]
				if p == xc && q == cat || p == cat && q == xc {
					return eqB(xc, cat)
				}
			}
			return bvar(x)
		})
	}
	exactly := func(rule string, r *Run, cs BDD, f flat) {
		if f.base == nil {
			c.ok(!sat(and(f.cond, cs)), rule, r, nil, "there may be no items: %s", witness(and(f.cond, cs)))
			return
		}
		X := elemsAt(f.base, f.K)
		g, m := norm(f.guard, X), want(X)
		ctx := and(f.cond, f.bound, cs, not(eqB(itemField(X, "Category"), mkNil())))
		c.ok(sat(and(ctx, g)), rule, r, nil, "no item is ever counted or listed")
		c.ok(implies(and(ctx, g), m), rule, r, nil, "counts or lists an item of another group: %s", witness(diff(and(ctx, g), m)))
		c.ok(implies(and(ctx, m), g), rule, r, nil, "leaves out an item of the group: %s", witness(diff(and(ctx, m), g)))
	}
	if r := w.ask("CountItems", one(cat), one(tr)); c.need(r != nil && len(r.res) == 1, "count", "the GUI cannot count items") {
		for _, cs := range r.res[0] {
			if n, ok := isIntConst(cs.t); ok && n == 0 && !sat(and(cs.g, r.out.pc)) {
				continue
			}
			cp, why := w.countOf(cs.t)
			if !c.ok(why == "", "count", r, nil, "%s (%v)", why, cs.t) {
				continue
			}
			g := F
			for _, e := range cp.emits {
				g = or(g, e.g)
			}
			for _, s := range cp.srcs {
				f := flat{cond: s.cond, base: s.seq, K: cp.K, guard: g, bound: T}
				if s.seq != nil {
					f.bound = s.bound
				}
				fs, why := w.flatten(f)
				if c.ok(why == "", "count", r, nil, "%s", why) {
					for _, f := range fs {
						exactly("count", r, cs.g, f)
					}
				}
			}
		}
	}
	st := hasSimple(w)
	if !c.need(st != nil, "gui-item", "there are no list entries") {
		return
	}
	if r := w.ask("GetItems", one(cat), one(tr)); c.need(r != nil && len(r.res) == 1, "gui-list", "the GUI cannot list items") {
		for _, cs := range r.res[0] {
			K := mkT(OK, "", -15, nil, types.Typ[types.Int])
			f := flat{cond: T, base: cs.t, K: K, guard: T, bound: T}
			// the data of every entry
			el := st
			names := []string{"Uid", "Title", "Trashed", "Category"}
			if !c.ok(hasFields(el, names...), "gui-list", r, nil, "the entries of the list have no identifier, title, trashed state and category") {
				continue
			}
			e := elemT(cs.t, K, el)
			for _, n := range names {
				f.vals = append(f.vals, one(itemField(e, n)))
			}
			fs, why := w.flatten(f)
			if !c.ok(why == "", "gui-list", r, nil, "%s", why) {
				continue
			}
			for _, f := range fs {
				exactly("gui-list", r, cs.g, f)
				if f.base == nil {
					continue
				}
				X := elemsAt(f.base, f.K)
				for i, n := range names {
					for _, v := range f.vals[i] {
						c.ok(v.t == itemField(X, n) || !sat(and(v.g, f.guard, cs.g)), "gui-list", r, nil, "the %s of a list entry is %v", n, v.t)
					}
				}
			}
		}
	}
	simple := mkSym("asked entry", st)
	if r := w.ask("GetItem", one(simple)); c.need(r != nil && len(r.res) == 1, "gui-item", "the GUI cannot open an item") {
		uid, trs := itemField(simple, "Uid"), boolOf(itemField(simple, "Trashed"))
		n := 0
		for _, cs := range r.res[0] {
			if cs.t.op == ONil {
				continue
			}
			if cs.t.op != OMu {
				m := c.match(cs.t, uid, trs)
				pc := and(cs.g, r.out.pc)
				if cs.t.op == OElem {
					c.ok(implies(pc, m), "gui-item", r, nil, "opens an item that was not asked for: %s", witness(diff(pc, m)))
				}
			}
			c.foundItem(r, cs.t, uid, trs)
			n++
		}
		c.need(n > 0, "gui-item", "the GUI opens no item")
	}
}

// hasSimple is the type of the entries of the GUI's item list.
func hasSimple(w *World) types.Type {
	p := w.e.pkg("1pass-core/port/in")
	if p == nil || p.Type("GuiControl") == nil {
		return nil
	}
	it, ok := p.Type("GuiControl").Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == "GetItem" {
			if sg := m.Type().(*types.Signature); sg.Params().Len() == 1 {
				return sg.Params().At(0).Type()
			}
		}
	}
	return nil
}

// argT is a command line argument.
func argT(i int64) *Term {
	return elemT(mkSym("args", types.NewSlice(types.Typ[types.String])), mkInt(i), types.Typ[types.String])
}

// noPos forgets everything about positions in loops.
func noPos(g BDD) BDD {
	return exists(g, func(v int32) bool {
		return anyTerm(atoms[v], func(t *Term) bool { return t.op == OK })
	})
}
