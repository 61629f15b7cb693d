package main

import (
	"go/types"
	"sort"
	"strings"
)

// ---- C23: menu entries, selection and shown items

// menu holds the parts of the GUI state that have to agree.
type menu struct {
	c      *Check
	w      *World
	m      *guiModel
	cats   *Term // location of the list of menu entries
	catIdx *Term
	items  *Term // location of the list of items
	itmIdx *Term
	item   *Term // location of the shown item
	vm, vi string
	vd     string
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// newMenu finds the parts of the GUI state by what they hold.
func newMenu(c *Check) (*menu, []category) {
	w := c.w
	m := w.guiModel()
	if !c.need(m.bad == "", "entry", "%s", m.bad) {
		return nil, nil
	}
	x := &menu{c: c, w: w, m: m}
	_, _, cats, why := w.registry()
	if !c.need(why == "" && len(cats) > 0, "entry", "%s", why) {
		return nil, nil
	}
	catT := derefType(cats[0].obj.typ)
	simple := hasSimple(w)
	ints := map[*Term][]*Term{}
	for _, loc := range w.mods {
		s := w.hvSym(loc)
		if s == nil || s.typ == nil || loc.op != OFieldAddr || !w.widget(loc.args[0]) {
			continue
		}
		el := sliceElem(s.typ)
		switch {
		case el != nil && types.Identical(derefType(el), catT):
			x.cats = loc
		case el != nil && simple != nil && types.Identical(el, simple):
			x.items = loc
		case isItemType(s.typ):
			x.item = loc
		default:
			if b, ok := s.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				ints[loc.args[0]] = append(ints[loc.args[0]], loc)
			}
		}
	}
	if !c.need(x.cats != nil && x.items != nil && x.item != nil, "roles", "the menu, the list of items or the shown item is not kept by a widget") {
		return nil, nil
	}
	x.catIdx, x.vm = x.cursorOf(ints[x.cats.args[0]])
	x.itmIdx, x.vi = x.cursorOf(ints[x.items.args[0]])
	if !c.need(x.catIdx != nil && x.itmIdx != nil, "roles", "no key moves the selection of the menu or of the items") {
		return nil, nil
	}
	x.vd = x.detailsView()
	if !c.need(x.vd != "", "roles", "no view shows the item") {
		return nil, nil
	}
	return x, cats
}

func init() {
	register("C23", "Menu entries, selection and shown items always agree", func(c *Check) {
		x, cats := newMenu(c)
		if x == nil {
			return
		}
		x.inRange()
		x.rows(x.vm, x.catIdx)
		x.rows(x.vi, x.itmIdx)
		x.filled(cats)
		x.opened()
		x.listed()
		x.shown()
		// what the control counts, lists and opens
		if _, _, all, why := c.w.registry(); c.need(why == "", "registry", "%s", why) {
			c.countItems(all)
		}
	})
}

// cursorOf finds the position that keys move by one, and the view they work in.
func (x *menu) cursorOf(locs []*Term) (*Term, string) {
	for _, loc := range locs {
		hv := x.w.hvSym(loc)
		for _, r := range x.m.runs {
			if r.kind != "handler" || r.view == "" {
				continue
			}
			for _, cs := range x.w.at(r.out.heap, loc) {
				if d, ok := isIntConst(subT(cs.t, hv)); ok && (d == 1 || d == -1) && sat(and(cs.g, r.out.pc)) {
					return loc, r.view
				}
			}
		}
	}
	return nil, ""
}

// detailsView is the view that shows the item that is kept.
func (x *menu) detailsView() string {
	hv := x.w.hvSym(x.item)
	for _, r := range x.m.runs {
		for _, ev := range r.events {
			if ev.kind != "print" || len(ev.args) < 2 {
				continue
			}
			v := viewName(unwrap(ev.arg(0)))
			if v == nil {
				continue
			}
			for _, cs := range ev.args[1] {
				if contains(cs.t, hv) {
					n, _ := isStrConst(v)
					return n
				}
			}
		}
	}
	return ""
}

// ctx is what holds when a run that started with the views in have ends well.
func (x *menu) ctx(r *Run, have map[string]bool) (map[string]BDD, BDD) {
	after, facts := x.w.presence(r, have)
	return after, and(x.w.guiPC, noPos(and(nilReturn(r), facts)), x.w.holds(have))
}

func (x *menu) each(r *Run, f func(have map[string]bool, after map[string]BDD, ctx BDD)) {
	for _, have := range x.w.starts(r) {
		after, ctx := x.ctx(r, have)
		if sat(ctx) {
			f(have, after, ctx)
		}
	}
}

func there(v map[string]BDD, n string) BDD {
	if g, ok := v[n]; ok {
		return g
	}
	return F
}

func isOpen(w *World, h *Heap) BDD { return valBool(w.at(h, ghostOpen())) }

// inRange: the position is one of the list, or none.
func (x *menu) inRange() {
	w := x.w
	for _, p := range []struct {
		view, what string
		idx, list  *Term
	}{{x.vm, "menu", x.catIdx, x.cats}, {x.vi, "items", x.itmIdx, x.items}} {
		i, l := w.hvSym(p.idx), w.hvSym(p.list)
		good := or(eq0(addT(i, mkInt(1))), and(ge0(i), ge0(subT(subT(lenT(l), i), mkInt(1)))))
		for _, r := range x.m.runs {
			for _, have := range w.starts(r) {
				if !have[p.view] {
					continue
				}
				h := and(w.guiPC, w.holds(have))
				x.c.ok(implies(h, good), "in-range", r, nil, "the selection of the %s may lie outside its list when %s starts (views %s)", p.what, r.name, viewsOf(have))
			}
			// what is selected stays selected while its list stays
			x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
				if !have[p.view] {
					return
				}
				for _, cl := range w.at(r.out.heap, p.list) {
					for _, ci := range w.at(r.out.heap, p.idx) {
						if cl.t != l || ci.t == i {
							continue
						}
						g := and(ctx, ge0(i), there(after, p.view), cl.g, ci.g)
						x.c.ok(implies(g, ge0(ci.t)), "stays-selected", r, nil, "the selection of the %s may get lost: %s", p.what, witness(diff(g, ge0(ci.t))))
					}
				}
			})
		}
	}
}

func viewsOf(have map[string]bool) string {
	var vs []string
	for v, ok := range have {
		if ok {
			vs = append(vs, v)
		}
	}
	sort.Strings(vs)
	return strings.Join(vs, " ")
}

// ---- the highlighted row

// rows: the highlighted row of a view is the selected one. The row is the
// origin plus the cursor of the view.
func (x *menu) rows(view string, idx *Term) {
	w := x.w
	for _, r := range x.m.runs {
		touches := false
		unknown := false
		for _, ev := range r.events {
			if ev.kind != "call" || !strings.HasPrefix(ev.name, gocuiView) {
				continue
			}
			v := viewName(unwrap(ev.arg(0)))
			if v == nil {
				continue
			}
			if n, _ := isStrConst(v); n != view {
				continue
			}
			switch strings.TrimPrefix(ev.name, gocuiView) {
			case "SetCursor", "SetOrigin":
				touches = true
				if len(ev.loops) > 0 {
					unknown = true
				}
			case "MoveCursor", "Rewind", "EditNewLine", "EditWrite", "EditDelete":
				unknown = true
			}
		}
		_ = touches
		if unknown {
			x.c.count("highlighted-row-undecided")
			continue
		}
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			x.rowAfter(r, view, idx, have, after, ctx)
		})
	}
	_ = w
}

func (x *menu) rowAfter(r *Run, view string, idx *Term, have map[string]bool, after map[string]BDD, ctx BDD) {
	w := x.w
	intT := types.Typ[types.Int]
	// origin + cursor is the selected row, or the first one
	cy0 := mkSym("row:cursor", intT)
	hv := w.hvSym(idx)
	none := eq0(addT(hv, mkInt(1)))
	cy, oy := one(cy0), Val{{none, subT(mkInt(0), cy0)}, {not(none), subT(hv, cy0)}}
	facts := and(ge0(cy0), valP1(oy, ge0))
	known := map[*Term]Val{}
	rb := func() *rebuilder {
		return newRebuilder(T, func(t *Term) (Val, bool) {
			v, ok := known[t]
			return v, ok
		})
	}
	pres := F
	if have[view] {
		pres = T
	}
	set := func(old Val, g BDD, v Val) Val {
		var cs []Case
		for _, c := range v {
			cs = append(cs, Case{and(g, c.g), c.t})
		}
		for _, c := range old {
			cs = append(cs, Case{and(not(g), c.g), c.t})
		}
		return mkVal(cs, T)
	}
	proj := func(ev *Event, i string) *Term { return mkT(OProj, i, 0, nil, intT, ev.res) }
	for _, ev := range r.events {
		if ev.kind != "call" || ev.async {
			continue
		}
		if strings.HasPrefix(ev.name, gocuiGui) {
			if n, ok := isStrConst(ev.arg(1)); !ok || n != view {
				continue
			}
			g := rb().bdd(ev.pc)
			switch strings.TrimPrefix(ev.name, gocuiGui) {
			case "SetView":
				fresh := diff(g, pres)
				cy, oy = set(cy, fresh, one(mkInt(0))), set(oy, fresh, one(mkInt(0)))
				pres = or(pres, g)
			case "DeleteView":
				pres = diff(pres, g)
			}
			continue
		}
		if !strings.HasPrefix(ev.name, gocuiView) || len(ev.args) == 0 {
			continue
		}
		v := viewName(unwrap(ev.arg(0)))
		if v == nil {
			continue
		}
		if n, _ := isStrConst(v); n != view {
			continue
		}
		op := strings.TrimPrefix(ev.name, gocuiView)
		switch op {
		case "Cursor":
			known[proj(ev, "1")] = cy
		case "Origin":
			known[proj(ev, "1")] = oy
		case "SetCursor", "SetOrigin":
			b := rb()
			g := b.bdd(ev.pc)
			y := b.val(ev.args[2])
			good := T
			if ev.res != nil {
				good = eqB(ev.res, mkNil())
				known[ev.res] = one(ev.res)
			}
			neg := valP1(y, func(t *Term) BDD { return not(ge0(t)) })
			facts = and(facts, or(not(and(g, neg)), not(good)))
			if op == "SetOrigin" {
				facts = and(facts, or(not(g), neg, good))
				oy = set(oy, and(g, good), y)
			} else {
				// what was visible stays visible
				inside := valP2(y, cy, func(a, b *Term) BDD { return and(ge0(a), ge0(subT(b, a))) })
				facts = and(facts, or(not(and(g, inside)), good))
				cy = set(cy, and(g, good), y)
			}
		}
	}
	b := rb()
	end := and(b.bdd(ctx), facts, b.bdd(there(after, view)))
	if !sat(end) {
		return
	}
	now := b.val(w.at(r.out.heap, idx))
	good := T
	for _, i := range now {
		for _, c := range cy {
			for _, o := range oy {
				g := and(i.g, c.g, o.g)
				if g == F {
					continue
				}
				row := addT(c.t, o.t)
				is := or(and(eq0(addT(i.t, mkInt(1))), eq0(row)), and(not(eq0(addT(i.t, mkInt(1)))), eq0(subT(row, i.t))))
				good = and(good, or(not(g), is))
			}
		}
	}
	x.c.ok(implies(end, good), "highlighted-row", r, nil, "the highlighted row of %s may not be the selected one after %s: %s", view, r.name, witness(diff(end, good)))
}

// ---- what a view shows after a run

type viewText struct {
	pieces []shownPiece // what is left of what the run wrote
	wiped  BDD          // everything from before is gone
	wrote  BDD
}

func (x *menu) text(r *Run, view string, have map[string]bool) viewText {
	vt := viewText{wiped: F, wrote: F}
	pres := F
	if have[view] {
		pres = T
	}
	wipes := map[int]BDD{} // event position -> condition
	for i, ev := range r.events {
		if ev.kind != "call" || ev.async {
			continue
		}
		switch {
		case strings.HasPrefix(ev.name, gocuiGui):
			if n, ok := isStrConst(ev.arg(1)); !ok || n != view {
				continue
			}
			switch strings.TrimPrefix(ev.name, gocuiGui) {
			case "SetView":
				wipes[i] = noPos(diff(ev.pc, pres))
				pres = or(pres, ev.pc)
			case "DeleteView":
				wipes[i] = noPos(ev.pc)
				pres = diff(pres, ev.pc)
			}
		case ev.name == gocuiView+"Clear" && viewName(unwrap(ev.arg(0))) != nil:
			if n, _ := isStrConst(viewName(unwrap(ev.arg(0)))); n == view {
				wipes[i] = noPos(ev.pc)
			}
		}
	}
	pos := map[*Event]int{}
	for i, ev := range r.events {
		pos[ev] = i
	}
	for _, g := range wipes {
		vt.wiped = or(vt.wiped, g)
	}
	for _, p := range x.w.piecesOf(r) {
		v := viewName(unwrap(p.ev.arg(0)))
		if v == nil {
			continue
		}
		if n, _ := isStrConst(v); n != view {
			continue
		}
		for i, g := range wipes {
			if i > pos[p.ev] {
				p.g = diff(p.g, g)
			}
		}
		p.g = inLoops(p.g, p.loops, p.t)
		vt.pieces = append(vt.pieces, p)
		vt.wrote = or(vt.wrote, noPos(p.g))
	}
	return vt
}

// inLoops forgets positions in loops that are over.
func inLoops(g BDD, loops []int64, t *Term) BDD {
	keep := positionsIn(t)
	for _, l := range loops {
		keep[l] = true
	}
	return forgetPos(g, keep, nil)
}

// ---- the menu

// part is one entry of a list, in order.
type listPart struct {
	t     *Term
	g     BDD
	loops []int64
}

// partsOfList takes a list apart; base is what it started from.
func (w *World) partsOfList(list *Term, pc BDD) (parts []listPart, bases []Case, why string) {
	active := map[*Term]bool{}
	var read func(t *Term, g BDD, loops []int64)
	read = func(t *Term, g BDD, loops []int64) {
		if !sat(and(g, pc)) {
			return
		}
		switch {
		case active[t]:
		case t.op == OApp:
			read(t.args[0], g, loops)
			for _, a := range t.args[1:] {
				if a.op == OSpread {
					read(a.args[0], g, loops)
					continue
				}
				parts = append(parts, listPart{a, g, loops})
			}
		case t.op == OTuple:
			for _, a := range t.args {
				parts = append(parts, listPart{a, g, loops})
			}
		case t.op == OMu:
			lv := w.loopVarOf(t)
			li := w.e.loops[t.k]
			if lv == nil || li == nil {
				why = "a list of unknown origin"
				return
			}
			for _, i := range lv.init {
				read(i.t, and(g, i.g), loops)
			}
			active[t], active[lv.val] = true, true
			ctx := forgetPos(g, map[int64]bool{}, map[int64]bool{li.id: true})
			for _, b := range lv.back {
				read(b.t, and(ctx, b.g, li.back), append(append([]int64{}, loops...), li.id))
			}
			delete(active, t)
			delete(active, lv.val)
		default:
			bases = append(bases, Case{g, t})
		}
	}
	read(list, T, nil)
	for i := range parts {
		parts[i].g = inLoops(parts[i].g, parts[i].loops, parts[i].t)
	}
	return
}

type menuRow struct {
	cat     *Term // nil for all
	trashed bool
	count   *Term
	p       shownPiece
	g       BDD
}

// countIn finds the number of items a text shows.
func countIn(t *Term) *Term {
	var out *Term
	walkT(t, func(x *Term) bool {
		if x.op == OCall && x.s == "ctl.CountItems" && len(x.args) == 2 {
			out = x
		}
		return out == nil
	})
	return out
}

func (x *menu) countFacts(r *Run) BDD {
	all := F
	var cats []*Term
	seen := map[*Term]bool{}
	g := T
	for _, ev := range r.events {
		if ev.kind != "port" || ev.name != "CountItems" || ev.res == nil {
			continue
		}
		for _, t := range alts(ev.res) {
			if t.op != OCall || t.s != "ctl.CountItems" || len(t.args) != 2 || seen[t] {
				continue
			}
			seen[t] = true
			g = and(g, ge0(t))
			tr := boolOf(t.args[1])
			if tr != F {
				continue
			}
			if t.args[0].op == ONil {
				all = not(eq0(t))
			} else {
				cats = append(cats, t)
			}
		}
	}
	if all != F {
		for _, t := range cats {
			g = and(g, or(eq0(t), all))
		}
	}
	return g
}

// filled: opening the vault writes one row for every group that has items and
// nothing else, and keeps one entry for every row.
func (x *menu) filled(cats []category) {
	c, w := x.c, x.w
	n := 0
	for _, r := range x.m.runs {
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			ctx = and(ctx, x.countFacts(r))
			before, now := isOpen(w, w.guiHeap), isOpen(w, r.out.heap)
			list := w.at(r.out.heap, x.cats)
			vt := x.text(r, x.vm, have)
			same := F
			for _, cs := range list {
				if cs.t == w.hvSym(x.cats) {
					same = or(same, cs.g)
				}
			}
			// nothing is left when the vault is locked
			if g := and(ctx, not(now), there(after, x.vm)); sat(g) {
				blank := and(not(vt.wrote), or(vt.wiped, not(before)))
				if !have[x.vm] {
					blank = not(vt.wrote)
				}
				c.ok(implies(g, blank), "empty-menu", r, nil, "the menu may still show entries while the vault is locked: %s", witness(diff(g, blank)))
			}
			opens := and(ctx, now, not(before))
			redraws := and(ctx, now, before, or(not(same), vt.wrote, and(vt.wiped, there(after, x.vm))))
			for _, g := range []BDD{opens, redraws} {
				if sat(g) {
					n++
					x.fill(r, have, g, there(after, x.vm), g == redraws, vt, list, cats)
				}
			}
		})
	}
	c.need(n > 0, "menu-filled", "nothing fills the menu")
}

func (x *menu) fill(r *Run, have map[string]bool, ctx, here BDD, again bool, vt viewText, list Val, cats []category) {
	c, w := x.c, x.w
	c.ok(implies(ctx, here), "menu-filled", r, nil, "the menu does not exist after the vault is opened: %s", witness(diff(ctx, here)))
	if again && have[x.vm] {
		c.ok(implies(ctx, vt.wiped), "menu-filled", r, nil, "the menu is written twice: %s", witness(diff(ctx, vt.wiped)))
	}
	// the rows
	var rows []menuRow
	type nl struct {
		row int // after this row
		g   BDD
		n   int
		lp  []int64
	}
	var breaks []nl
	for _, p := range vt.pieces {
		g := and(ctx, p.g)
		if !sat(g) {
			continue
		}
		if t := countIn(p.t); t != nil {
			dup := -1
			for i := range rows {
				if rows[i].count == t && eqLoops(rows[i].p.loops, p.loops) && !sat(and(rows[i].g, g)) {
					dup = i
				}
			}
			if dup >= 0 {
				rows[dup].g = or(rows[dup].g, p.g)
				continue
			}
			row := menuRow{count: t, p: p, g: p.g, trashed: boolOf(t.args[1]) == T}
			if t.args[0].op != ONil {
				row.cat = t.args[0]
			}
			rows = append(rows, row)
			continue
		}
		if s, ok := isStrConst(p.t); ok {
			if k := strings.Count(s, "\n"); k > 0 {
				breaks = append(breaks, nl{len(rows) - 1, p.g, k, p.loops})
			}
		}
	}
	if !c.ok(len(rows) == 3, "menu-entries", r, nil, "the menu has %d kinds of rows, not all items, categories and trashed items", len(rows)) {
		return
	}
	bounds := []BDD{T, T, T}
	for i, row := range rows {
		ev := row.p.ev
		kind := []string{"all items", "a category", "the trashed items"}[i]
		in := ctx
		switch i {
		case 0, 2:
			c.ok(row.cat == nil && row.trashed == (i == 2) && len(row.p.loops) == 0, "menu-entries", r, ev, "row %d shows the number of %v instead of %s", i, row.count, kind)
			word := []string{"all", "", "trash"}[i]
			c.ok(anyTerm(row.p.t, func(t *Term) bool {
				s, ok := isStrConst(t)
				return ok && strings.Contains(strings.ToLower(s), word)
			}) || strings.Contains(strings.ToLower(row.p.prev), word), "menu-label", r, ev, "the row for %s is not called so", kind)
		case 1:
			if !c.ok(row.cat != nil && !row.trashed && len(row.p.loops) == 1, "menu-entries", r, ev, "row %d shows the number of %v instead of the active items of a category", i, row.count) {
				return
			}
			name := itemField(row.cat, "name")
			c.ok(name != nil && contains(row.p.t, name) || x.nameBefore(vt, row, name), "menu-label", r, ev, "the row for a category does not show its name")
			li := w.e.loops[row.p.loops[0]]
			for _, e := range li.exits {
				c.ok(e.header || !sat(and(e.pc, ctx)), "menu-entries", r, ev, "the categories may stop early: %s", witness(e.pc))
			}
			K := mkK(li.id)
			if !c.ok(row.cat.op == OElem && row.cat.args[1] == K, "menu-entries", r, ev, "the rows are not those of the categories but of %v", row.cat) {
				return
			}
			seq := row.cat.args[0]
			bound := ge0(subT(subT(lenT(seq), K), mkInt(1)))
			for _, e := range li.exits {
				c.ok(!e.header || !sat(and(e.pc, ctx, bound)), "menu-entries", r, ev, "the categories may stop before the last")
			}
			base := stripPerm(seq)
			for base.op == OSlice && len(base.args) > 0 {
				base = base.args[0]
			}
			have := map[*Term]int{}
			if base.op == OTuple {
				for _, a := range base.args {
					have[a]++
				}
			}
			for _, k := range cats {
				c.ok(have[k.obj] == 1 && len(base.args) == len(cats), "menu-entries", r, ev, "the category %s does not have one entry", k.name)
			}
			in = and(in, bound)
		}
		some := not(eq0(row.count))
		c.ok(implies(and(in, some), row.g), "menu-entries", r, ev, "there may be no row for %s: %s", kind, witness(diff(and(in, some), row.g)))
		c.ok(implies(and(in, row.g), some), "menu-entries", r, ev, "there may be a row for %s although there are none: %s", kind, witness(and(in, row.g, not(some))))
		bounds[i] = in
		// rows end with one line break
		g := F
		cnt := 0
		for _, b := range breaks {
			if b.row != i {
				continue
			}
			g = or(g, b.g)
			cnt += b.n
			c.ok(eqLoops(b.lp, row.p.loops) && implies(and(in, b.g), row.g), "menu-lines", r, ev, "an empty line may come before the row after %s", kind)
		}
		c.ok(cnt == 1 && implies(and(in, row.g), g) || i == 2 && cnt <= 1, "menu-lines", r, ev, "the row for %s does not end with one line break", kind)
	}
	for _, b := range breaks {
		c.ok(b.row >= 0, "menu-lines", r, nil, "the menu starts with an empty line")
	}
	// every row has its entry
	for _, cs := range list {
		sub := and(ctx, cs.g)
		if !sat(sub) {
			continue
		}
		parts, bases, why := w.partsOfList(cs.t, sub)
		if !c.ok(why == "", "menu-entries", r, nil, "%s", why) {
			return
		}
		for _, b := range bases {
			g := and(sub, b.g)
			c.ok(implies(g, eq0(lenT(b.t))), "menu-entries", r, nil, "the list of entries may not start empty: %v", b.t)
		}
		j := 0
		for i, row := range rows {
			in := and(sub, bounds[i])
			if !sat(and(in, row.g)) {
				continue
			}
			kind := []string{"all items", "a category", "the trashed items"}[i]
			if j >= len(parts) {
				c.ok(false, "menu-entries", r, row.p.ev, "there is no entry for the row of %s: %s", kind, witness(and(in, row.g)))
				break
			}
			p := parts[j]
			j++
			want := row.cat
			if want == nil {
				want = mkNil()
			}
			c.ok(p.t == want && eqLoops(p.loops, row.p.loops), "menu-entries", r, row.p.ev, "the entry for %s stands for %v", kind, p.t)
			c.ok(equivUnder(in, row.g, p.g), "menu-entries", r, row.p.ev, "the row and the entry for %s do not come together: %s", kind, witness(and(in, xor(row.g, p.g))))
		}
		c.ok(j >= len(parts), "menu-entries", r, nil, "there is an entry without a row: %s", witness(sub))
	}
	// the first entry is selected
	good := F
	for _, i := range w.at(r.out.heap, x.catIdx) {
		good = or(good, and(i.g, eq0(i.t)))
	}
	for _, l := range list {
		g := and(ctx, l.g, ge0(subT(lenT(l.t), mkInt(1))))
		c.ok(implies(g, good), "first-selected", r, nil, "no entry is selected after the vault is opened: %s", witness(diff(g, good)))
	}
}

func (x *menu) nameBefore(vt viewText, row menuRow, name *Term) bool {
	for _, p := range vt.pieces {
		if p.t == name && eqLoops(p.loops, row.p.loops) {
			return true
		}
	}
	return false
}

// ---- opening an entry

func (x *menu) opened() {
	c, w := x.c, x.w
	C, I := w.hvSym(x.cats), w.hvSym(x.catIdx)
	el := sliceElem(C.typ)
	at := func(i *Term) *Term { return elemT(C, i, el) }
	n := lenT(C)
	last := subT(n, mkInt(1))
	isNil := func(t *Term) BDD { return eqB(t, mkNil()) }
	eqI := func(a, b *Term) BDD { return eq0(subT(a, b)) }
	only := and(eqI(n, mkInt(1)), eq0(I), isNil(at(I)), isNil(at(mkInt(0))), isNil(at(last)))
	lastNil := isNil(at(last))
	shapes := []struct {
		name    string
		g       BDD
		cat     []*Term
		trashed bool
	}{
		{"the trashed items (the only entry)", only, nil, true},
		{"all items", and(eq0(I), ge0(subT(n, mkInt(2))), isNil(at(I)), isNil(at(mkInt(0)))), nil, false},
		{"a category", and(ge0(subT(I, mkInt(1))), ge0(subT(last, I)), not(isNil(at(I))), isNil(at(mkInt(0))), or(not(eqI(I, last)), not(lastNil))), []*Term{at(I), at(last)}, false},
		{"the trashed items", and(eqI(I, last), ge0(subT(I, mkInt(2))), isNil(at(I)), lastNil, isNil(at(mkInt(0)))), nil, true},
	}
	cnt := 0
	for _, r := range x.m.runs {
		if r.kind != "handler" || r.view != x.vm {
			continue
		}
		opens := false
		for _, ev := range r.events {
			if ev.kind == "port" && ev.name == "GetItems" {
				opens = true
			}
		}
		if !opens {
			continue
		}
		cnt++
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			for _, s := range shapes {
				g := and(ctx, s.g)
				if !sat(g) {
					continue
				}
				c.ok(implies(g, there(after, x.vi)), "opens-list", r, nil, "opening %s may show no list: %s", s.name, witness(diff(g, there(after, x.vi))))
				for _, cs := range w.at(r.out.heap, x.items) {
					h := and(g, cs.g)
					if !sat(h) {
						continue
					}
					t := stripPerm(cs.t)
					good := t.op == OCall && t.s == "ctl.GetItems" && len(t.args) == 2
					if good {
						tr := boolOf(t.args[1])
						if s.trashed {
							good = implies(h, tr)
						} else {
							good = !sat(and(h, tr))
						}
						if s.cat == nil {
							good = good && implies(h, isNil(t.args[0]))
						} else {
							good = good && (t.args[0] == s.cat[0] || t.args[0] == s.cat[1] && implies(h, eqI(I, last)))
						}
					}
					c.ok(good, "opens-group", r, nil, "opening %s lists %v: %s", s.name, cs.t, witness(h))
				}
			}
		})
	}
	c.need(cnt > 0, "opens-group", "no key opens an entry of the menu")
}

// ---- the list of items

func (x *menu) listed() {
	c, w := x.c, x.w
	n := 0
	for _, r := range x.m.runs {
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			here := there(after, x.vi)
			if !sat(and(ctx, here)) {
				return
			}
			vt := x.text(r, x.vi, have)
			for _, cs := range w.at(r.out.heap, x.items) {
				g := and(ctx, here, cs.g)
				if cs.t == w.hvSym(x.items) && have[x.vi] {
					g = and(g, or(vt.wrote, vt.wiped))
				}
				if !sat(g) {
					continue
				}
				n++
				x.list(r, have, g, cs.t, vt)
			}
		})
	}
	c.need(n > 0, "list-rows", "no run lists items")
}

func (x *menu) list(r *Run, have map[string]bool, ctx BDD, seq *Term, vt viewText) {
	c, w := x.c, x.w
	if have[x.vi] {
		c.ok(implies(ctx, vt.wiped), "list-rows", r, nil, "the list may still show what it showed before: %s", witness(diff(ctx, vt.wiped)))
	}
	some := and(ctx, ge0(subT(lenT(seq), mkInt(1))))
	reached := F
	type lp struct {
		li    *LoopInfo
		bound BDD
		ps    []shownPiece
	}
	loops := map[int64]*lp{}
	for _, p := range vt.pieces {
		g := and(ctx, p.g)
		if !sat(g) {
			continue
		}
		if s, ok := isStrConst(p.t); ok && s == "" {
			continue
		}
		if len(p.loops) != 1 {
			c.ok(false, "list-rows", r, p.ev, "the list shows something that is not the title of an item: %v", p.t)
			return
		}
		L := p.loops[0]
		if loops[L] == nil {
			li := w.e.loops[L]
			srcs, why := w.sourcesOf(li)
			if !c.ok(why == "", "list-rows", r, p.ev, "%s", why) {
				return
			}
			for _, s := range srcs {
				if s.seq != nil && stripPerm(s.seq) == stripPerm(seq) && sat(and(s.cond, noPos(g))) {
					loops[L] = &lp{li: li, bound: s.bound}
					reached = or(reached, and(noPos(li.entry), s.cond))
				}
			}
			if !c.ok(loops[L] != nil, "list-rows", r, p.ev, "the rows are not those of the list of items") {
				return
			}
		}
		loops[L].ps = append(loops[L].ps, p)
	}
	c.ok(implies(some, noPos(reached)), "list-rows", r, nil, "the items may have no rows: %s", witness(diff(some, noPos(reached))))
	c.ok(len(loops) <= 1 || !sat(some), "list-rows", r, nil, "the items may have several rows")
	for _, l := range loops {
		for _, e := range l.li.exits {
			c.ok(e.header || !sat(and(noPos(e.pc), ctx)), "list-rows", r, nil, "the rows may stop early: %s", witness(e.pc))
		}
		X := elemsAt(seq, mkK(l.li.id))
		title := itemField(X, "Title")
		in := and(ctx, l.bound)
		named, ended := F, F
		for i, p := range l.ps {
			s, konst := isStrConst(p.t)
			switch {
			case p.t == title:
				c.ok(viewSafe(p.clean, "\n\r\x1b"), "one-row", r, p.ev, "a title with a line break or a carriage return in it takes more or less than one row, so that the row marked is not that of the selected item")
				c.ok(!sat(and(in, named, p.g)), "list-rows", r, p.ev, "a row shows its title twice")
				named = or(named, p.g)
			case konst && strings.TrimSpace(s) == "":
			case konst:
				if !sat(and(in, p.g, not(eqB(title, mkStr(""))))) {
					named = or(named, p.g)
				}
			default:
				c.ok(false, "list-rows", r, p.ev, "a row shows %v", p.t)
			}
			if konst && strings.Contains(s, "\n") {
				c.ok(strings.Count(s, "\n") == 1 && strings.HasSuffix(s, "\n") && !sat(and(in, ended, p.g)), "list-rows", r, p.ev, "a row may take several lines")
				ended = or(ended, p.g)
			} else {
				c.ok(!sat(and(in, ended, p.g)) || i == 0, "list-rows", r, p.ev, "a row may take several lines")
			}
		}
		c.ok(implies(in, named), "list-rows", r, nil, "the row of an item may not show its title: %s", witness(diff(in, named)))
		c.ok(implies(in, ended), "list-rows", r, nil, "the row of an item may not end: %s", witness(diff(in, ended)))
	}
}

// ---- the shown item

func (x *menu) shown() {
	c, w := x.c, x.w
	hI, hL, hX := w.hvSym(x.itmIdx), w.hvSym(x.items), w.hvSym(x.item)
	n := 0
	for _, r := range x.m.runs {
		x.each(r, func(have map[string]bool, after map[string]BDD, ctx BDD) {
			here := and(ctx, there(after, x.vd))
			if !sat(here) {
				return
			}
			vt := x.text(r, x.vd, have)
			// what it says about an item is about the kept one
			for _, p := range vt.pieces {
				g := and(here, p.g)
				if !sat(g) {
					continue
				}
				for _, X := range itemsIn(p.t) {
					for _, cs := range w.at(r.out.heap, x.item) {
						h := and(g, cs.g)
						c.ok(cs.t == X || !sat(h) || implies(h, eqB(cs.t, X)), "shows-kept-item", r, p.ev, "the details are those of %v, not of %v: %s", X, cs.t, witness(h))
					}
				}
			}
			for _, ci := range w.at(r.out.heap, x.itmIdx) {
				for _, cl := range w.at(r.out.heap, x.items) {
					for _, cx := range w.at(r.out.heap, x.item) {
						g := and(here, ci.g, cl.g, cx.g)
						if !sat(g) {
							continue
						}
						same := ci.t == hI && cl.t == hL && cx.t == hX
						if same && have[x.vd] {
							c.ok(implies(and(g, vt.wiped, not(eqB(hX, mkNil())), not(eq0(addT(ci.t, mkInt(1))))), x.drawn(vt, hX)), "redrawn", r, nil, "the details of the selected item are cleared and not written again")
							continue
						}
						n++
						g = and(g, not(eq0(addT(ci.t, mkInt(1)))))
						if !sat(g) {
							continue
						}
						good := x.gets(cx.t, cl.t, ci.t)
						c.ok(good, "selected-item", r, nil, "with %v selected of %v the item is %v: %s", ci.t, cl.t, cx.t, witness(g))
						if have[x.vd] {
							c.ok(implies(g, vt.wiped), "redrawn", r, nil, "the details may be those of another item: %s", witness(diff(g, vt.wiped)))
						}
						d := and(g, not(eqB(cx.t, mkNil())))
						c.ok(implies(d, x.drawn(vt, cx.t)), "redrawn", r, nil, "the details of the selected item may not be written: %s", witness(diff(d, x.drawn(vt, cx.t))))
					}
				}
			}
		})
	}
	c.need(n > 0, "selected-item", "no run selects an item")
}

// gets: X is what the control returns for entry i of the list.
func (x *menu) gets(X, list, i *Term) bool {
	if X.op != OCall || X.s != "ctl.GetItem" || len(X.args) != 1 {
		return false
	}
	a := X.args[0]
	return a.op == OElem && a.args[0] == list && a.args[1] == i
}

func (x *menu) drawn(vt viewText, X *Term) BDD {
	g := F
	if X.typ == nil || X.op == ONil {
		return g
	}
	t := itemField(X, "Title")
	for _, p := range vt.pieces {
		if p.t == t {
			g = or(g, noPos(p.g))
		}
	}
	return g
}

// itemsIn are the items a text tells something about.
func itemsIn(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	walkT(t, func(y *Term) bool {
		if y.op == OField && !seen[y.args[0]] && isItemType(y.args[0].typ) {
			seen[y.args[0]] = true
			out = append(out, y.args[0])
		}
		return true
	})
	return out
}
