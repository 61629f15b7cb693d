package main

import (
	"go/types"
	"sort"
)

// order is what one sorting establishes.
type order struct {
	ev     *Event
	stable bool
	inner  *Term // what was sorted
}

// sortOf finds the sort call that produced a sorted sequence.
func sortOf(r *Run, seq *Term) *order {
	if seq.op != OCall || seq.s != "sorted" || len(seq.args) != 2 {
		return nil
	}
	for _, ev := range r.events {
		if ev.kind == "sort" && len(ev.args) == 2 && ev.arg(1) == seq.args[1] {
			return &order{ev, ev.name == "sort.SliceStable" || ev.name == "sort.Stable", seq.args[0]}
		}
	}
	return nil
}

// lessAt is the condition under which the sorting puts the element at i before
// the one at j, for a list s of any content.
func (w *World) lessAt(o *order, s, i, j *Term) (BDD, bool) {
	x := o.ev.arg(0)
	st := w.e.setContent(State{T, o.ev.heap}, x, s)
	less := o.ev.arg(1)
	if less.op == OCall && less.s == "!sort.Reverse" {
		less, i, j = less.args[0], j, i
	}
	var rs []Val
	_, rs, _ = w.e.record(func() ([]Val, State) {
		switch less.op {
		case OClo, OFn:
			return w.e.callValue(less, []Val{one(i), one(j)}, State{T, st.heap}, "less")
		case OIface:
			if r := w.method(less, "Less", []Val{one(i), one(j)}, State{T, st.heap}, "less"); r != nil {
				return r.res, r.out
			}
		}
		return nil, st
	})
	if len(rs) != 1 {
		return F, false
	}
	return valBool(rs[0]), true
}

// key is one thing elements are ordered by.
type sortKey struct {
	what string
	of   func(e *Term) *Term
}

// ordered checks that seq is sorted by the keys, the first one first.
func (c *Check) ordered(r *Run, seq *Term, et types.Type, keys []sortKey, rule string, ev *Event) bool {
	w := c.w
	// order-preserving steps down to the sorting
	for n := 0; n < 12 && seq.op == OMu; n++ {
		cp, why := w.compOf(seq)
		if !c.ok(why == "" && len(cp.srcs) == 1 && cp.srcs[0].seq != nil, rule, r, ev, "the order of the rows is not known: %s", why) {
			return false
		}
		// elements are taken over in their order
		next := cp.srcs[0].seq
		for _, e := range cp.emits {
			t := e.t
			if t.op == OElem && t.args[1] == cp.K && stripPerm(t.args[0]) == stripPerm(next) {
				next = t.args[0]
			} else if t.op == OAlloc {
				cp.li.backHp.each(func(k *Term, v Val) {
					if k.op == OFieldAddr && k.args[0] == t {
						for _, cs := range v {
							walkT(cs.t, func(x *Term) bool {
								if x.op == OElem && x.args[1] == cp.K && stripPerm(x.args[0]) == stripPerm(next) {
									next = x.args[0]
								}
								return true
							})
						}
					}
				})
			}
		}
		if next == seq {
			break
		}
		seq = next
	}
	S := mkT(OCall, "list of "+et.String(), 0, nil, types.NewSlice(et))
	I, J := mkSym("i", types.Typ[types.Int]), mkSym("j", types.Typ[types.Int])
	less, more := F, F
	tie := T
	n := 0
	for seq.op == OCall && seq.s == "sorted" {
		o := sortOf(r, seq)
		if !c.ok(o != nil, rule, r, ev, "the sorting of the rows was not found") {
			return false
		}
		l, ok1 := w.lessAt(o, S, I, J)
		m, ok2 := w.lessAt(o, S, J, I)
		if !c.ok(ok1 && ok2, rule, r, o.ev, "how the rows are compared is not known") {
			return false
		}
		less, more = or(less, and(tie, l)), or(more, and(tie, m))
		tie = and(tie, not(l), not(m))
		n++
		if !o.stable {
			break
		}
		seq = o.inner
	}
	if !c.ok(n > 0, rule, r, ev, "the rows are not sorted") {
		return false
	}
	eq := T
	ok := true
	a, b := elemT(S, I, et), elemT(S, J, et)
	for _, k := range keys {
		x, y := k.of(a), k.of(b)
		if !c.ok(x != nil && y != nil, rule, r, ev, "the entries have no %s", k.what) {
			return false
		}
		lt, gt := and(eq, ltB(x, y)), and(eq, ltB(y, x))
		ok = c.ok(implies(lt, and(less, not(more))), rule, r, ev, "rows are not ordered by %s: %s", k.what, witness(diff(lt, and(less, not(more))))) && ok
		ok = c.ok(implies(gt, and(more, not(less))), rule, r, ev, "rows are not ordered by %s: %s", k.what, witness(diff(gt, and(more, not(less))))) && ok
		eq = and(eq, eqB(x, y))
	}
	return ok
}

// rendered: the table of a row is printed after it.
func (c *Check) rendered(r *Run, rows []tableRow) {
	for _, row := range rows {
		tb := row.ev.arg(0)
		shown := F
		for _, ev := range r.events {
			if ev.idx <= row.ev.idx || !onTerminal(ev) {
				continue
			}
			hit := false
			for _, a := range ev.args {
				for _, cs := range a {
					if anyTerm(cs.t, func(t *Term) bool { return t.op == OCall && t.s == "render" && t.args[0] == tb }) {
						hit = true
					}
				}
			}
			if hit && len(ev.loops) == 0 {
				shown = or(shown, noPos(ev.pc))
			}
		}
		c.ok(implies(noPos(row.ctx), shown), "printed", r, row.ev, "the table with this row may not be printed: %s", witness(diff(noPos(row.ctx), shown)))
	}
}

func code(e *Term) *Term {
	cat := itemField(e, "Category")
	if cat == nil {
		return nil
	}
	return itemField(cat, "code")
}

func init() {
	register("C16", "Lists are complete, numbered and in a fixed order", func(c *Check) {
		w := c.w
		_, _, cats, why := w.registry()
		if !c.need(why == "", "registry", "%s", why) {
			return
		}
		c.itemRows()
		c.categoryRows(cats)
	})
}

func (c *Check) itemRows() {
	w := c.w
	r := w.run("list")
	if !c.need(r != nil, "item-list", "there is no list command") {
		return
	}
	rows := w.rowsOf(r)
	if !c.need(len(rows) > 0, "item-list", "the list command shows no rows") {
		return
	}
	c.rendered(r, rows)
	for i, row := range rows {
		for _, o := range rows[:i] {
			both := and(row.guard, o.guard)
			if row.li != o.li {
				both = and(noPos(row.ctx), noPos(o.ctx))
			}
			c.ok(!sat(both), "one-row", r, row.ev, "an item may have two rows: %s", witness(both))
		}
		if !c.ok(row.li != nil && !row.deep, "one-row", r, row.ev, "a row is not written once per result") {
			continue
		}
		if !c.ok(len(row.cells) == 4, "cells", r, row.ev, "a row has %d cells", len(row.cells)) {
			continue
		}
		srcs, why := w.sourcesOf(row.li)
		if !c.ok(why == "", "one-row", r, row.ev, "%s", why) {
			continue
		}
		K := mkK(row.li.id)
		c.numbered(r, row, row.cells[0], K)
		for _, x := range row.li.exits {
			c.ok(x.header || !sat(x.pc), "one-row", r, row.ev, "the rows may stop early")
		}
		for _, s := range srcs {
			if s.seq == nil {
				continue
			}
			// every entry of the list has a row
			g := F
			for _, o := range rows {
				if o.li == row.li {
					g = or(g, o.guard)
				}
			}
			in := and(s.cond, s.bound, row.ctx)
			c.ok(implies(in, g), "one-row", r, row.ev, "an entry may have no row: %s", witness(diff(in, g)))
			var vals []Val
			for _, v := range row.cells[1:] {
				vals = append(vals, unwrapVal(v))
			}
			fs, why := w.flatten(flat{cond: s.cond, base: s.seq, K: K, guard: g, bound: s.bound, vals: vals})
			if !c.ok(why == "", "cells", r, row.ev, "the rows cannot be followed to the items: %s", why) {
				continue
			}
			for _, f := range fs {
				if f.base == nil {
					continue
				}
				X := elemsAt(f.base, f.K)
				want := []*Term{itemField(X, "Uid"), nil, itemField(X, "Title")}
				if cat := itemField(X, "Category"); cat != nil {
					want[1] = itemField(cat, "name")
				}
				for i, n := range []string{"identifier", "category", "title"} {
					for _, v := range f.vals[i] {
						c.ok(unwrap(v.t) == want[i] || !sat(and(v.g, f.guard, f.bound)), "cells", r, row.ev, "the %s shown is %v", n, v.t)
					}
				}
			}
			// order: the list as it is when the rows are written
			s.seq = readAt(s.seq, K, vals)
			list := s.seq
			for _, v := range row.cells[1:] {
				for _, cs := range v {
					walkT(cs.t, func(x *Term) bool {
						if x.op == OElem && stripPerm(x.args[0]) == stripPerm(s.seq) {
							c.ok(x.args[1] == K, "order", r, row.ev, "row %v shows the entry at %v", K, x.args[1])
							list = x.args[0]
						}
						return true
					})
				}
			}
			et := elemType(list)
			if c.ok(et != nil, "order", r, row.ev, "the entries of the list are not known") {
				c.ordered(r, list, et, []sortKey{{"category code", code}, {"title", func(e *Term) *Term { return itemField(e, "Title") }}}, "order", row.ev)
			}
		}
	}
}

func elemType(seq *Term) types.Type {
	seq = stripPerm(seq)
	for _, t := range termList {
		if t.op == OElem && stripPerm(t.args[0]) == seq && t.typ != nil {
			return t.typ
		}
	}
	if seq.typ != nil {
		if s, ok := seq.typ.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

// numbered: the row for position K has the number K+1.
func (c *Check) numbered(r *Run, row tableRow, cell Val, K *Term) {
	for _, cs := range cell {
		if !sat(and(cs.g, row.guard)) {
			continue
		}
		t := stripConv(unwrap(cs.t))
		if t.op == OCall && t.s == "fmt.Str" && len(t.args) > 0 {
			t = stripConv(unwrap(t.args[0]))
		}
		d := subT(t, K)
		if n, ok := isIntConst(d); ok && n == 1 {
			c.count("numbered")
			continue
		}
		// a counter of its own
		ok := false
		l := toLin(t)
		for m, co := range l.m {
			lv := c.w.loopVarOf(m)
			if m.op != OMu || co != 1 || len(l.m) != 1 || lv == nil || m.k != row.li.id {
				continue
			}
			i := lv.init.single()
			b := lv.back.single()
			if i == nil || b == nil {
				continue
			}
			n, isC := isIntConst(i)
			step, isS := isIntConst(subT(b, m))
			ok = isC && isS && n+l.k == 1 && step == 1
		}
		c.ok(ok, "numbered", r, row.ev, "the rows are numbered %v", cs.t)
	}
}

func (c *Check) categoryRows(cats []category) {
	w := c.w
	r := w.run("categories")
	if !c.need(r != nil, "category-list", "there is no categories command") {
		return
	}
	rows := w.rowsOf(r)
	if !c.need(len(rows) > 0, "category-list", "the categories command shows no rows") {
		return
	}
	c.rendered(r, rows)
	byCode := append([]category{}, cats...)
	sort.Slice(byCode, func(i, j int) bool { return byCode[i].code < byCode[j].code })
	if rows[0].li != nil {
		// one loop over a list that is only known as a permutation of the registry
		c.categoryLoop(r, rows, cats)
		return
	}
	c.ok(len(rows) == len(cats), "category-list", r, rows[0].ev, "there are %d rows for %d categories", len(rows), len(cats))
	done := map[*Term]bool{}
	for i, row := range rows {
		if i >= len(byCode) {
			break
		}
		c.ok(implies(noPos(rows[0].ctx), noPos(row.guard)), "category-list", r, row.ev, "the row for %s may be missing", byCode[i].name)
		if !c.ok(len(row.cells) >= 2, "category-list", r, row.ev, "a row has %d cells", len(row.cells)) {
			continue
		}
		n := unwrap(row.cells[0].collapse())
		k, ok := isIntConst(stripConv(n))
		c.ok(ok && k == int64(i+1), "numbered", r, row.ev, "the row %d has the number %v", i+1, n)
		name := unwrap(row.cells[1].collapse())
		if s, ok := isStrConst(name); ok {
			c.ok(s == byCode[i].name, "category-order", r, row.ev, "the row %d is %s instead of %s", i+1, s, byCode[i].name)
			continue
		}
		if !c.ok(name.op == OField && name.s == "name" && name.args[0].op == OElem, "category-list", r, row.ev, "the row %d shows %v", i+1, name) {
			continue
		}
		el := name.args[0]
		k, ok = isIntConst(el.args[1])
		c.ok(ok && k == int64(i), "category-order", r, row.ev, "the row %d shows the category at %v", i+1, el.args[1])
		if !done[el.args[0]] {
			done[el.args[0]] = true
			base := stripPerm(el.args[0])
			have := map[*Term]int{}
			for _, a := range base.args {
				have[a]++
			}
			for _, k := range cats {
				c.ok(base.op == OTuple && have[k.obj] == 1 && len(base.args) == len(cats), "category-list", r, row.ev, "the category %s is not listed once", k.name)
			}
			c.ordered(r, el.args[0], cats[0].obj.typ, []sortKey{{"code", func(e *Term) *Term { return itemField(e, "code") }}}, "category-order", row.ev)
		}
	}
}

func (c *Check) categoryLoop(r *Run, rows []tableRow, cats []category) {
	w := c.w
	c.ok(len(rows) == 1, "category-list", r, rows[0].ev, "a category may have several rows")
	row := rows[0]
	srcs, why := w.sourcesOf(row.li)
	if !c.ok(why == "" && len(srcs) == 1, "category-list", r, row.ev, "%s", why) {
		return
	}
	for _, x := range row.li.exits {
		c.ok(x.header || !sat(x.pc), "category-list", r, row.ev, "the rows may stop early")
	}
	in := and(srcs[0].cond, srcs[0].bound)
	c.ok(implies(in, row.guard), "category-list", r, row.ev, "a category may have no row: %s", witness(diff(in, row.guard)))
	K := mkK(row.li.id)
	if !c.ok(len(row.cells) >= 2, "category-list", r, row.ev, "a row has %d cells", len(row.cells)) {
		return
	}
	c.numbered(r, row, row.cells[0], K)
	name := unwrap(row.cells[1].collapse())
	if !c.ok(name.op == OField && name.s == "name" && name.args[0].op == OElem && name.args[0].args[1] == K, "category-list", r, row.ev, "a row shows %v", name) {
		return
	}
	c.ordered(r, name.args[0].args[0], cats[0].obj.typ, []sortKey{{"code", func(e *Term) *Term { return itemField(e, "code") }}}, "category-order", row.ev)
}
