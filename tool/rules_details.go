package main

import (
	"go/types"
	"strings"
)

// ---- C19: what is written about one item

// shownPiece is one piece of text that a run writes.
type shownPiece struct {
	t     *Term
	g     BDD
	loops []int64
	prev  string // the constant text right before it
	ev    *Event
	seq   int
	clean string // control characters it is free of
}

type textReader struct {
	w      *World
	ev     *Event
	out    []shownPiece
	prev   string
	active map[*Term]bool
	apply  []cleanser // what is done to the text read, the last first
}

// read takes a text apart into its pieces, in order.
func (tr *textReader) read(t *Term, g BDD, loops []int64, sep string) {
	if !sat(g) {
		return
	}
	t = unwrap(t)
	if s, ok := isStrConst(t); ok {
		for i := len(tr.apply) - 1; i >= 0; i-- {
			s = tr.apply[i].apply(s)
			t = mkStr(s)
		}
		tr.prev += s
		tr.out = append(tr.out, shownPiece{t, g, loops, "", tr.ev, len(tr.out), ""})
		return
	}
	if c, ok := tr.w.cleanser(t); ok {
		apply := tr.apply
		tr.apply = append(append([]cleanser{}, apply...), c)
		if c.alts == nil {
			tr.read(c.text, g, loops, sep)
		}
		for _, a := range c.alts {
			tr.read(a.t, and(g, a.g), loops, sep)
		}
		tr.apply = apply
		return
	}
	switch {
	case tr.active[t]:
		return
	case t.op == OConcat:
		for _, a := range t.args {
			tr.read(a, g, loops, sep)
		}
	case t.op == OApp || t.op == OTuple:
		for i, a := range t.args {
			if i == 0 && t.op == OApp {
				tr.read(a, g, loops, sep)
				continue
			}
			if a.op == OSpread {
				a = a.args[0]
			}
			tr.read(a, g, loops, sep)
			tr.prev += sep
		}
	case t.op == OJoin:
		for _, a := range t.args {
			tr.read(a, g, loops, sep)
		}
	case t.op == OMu:
		lv := tr.w.loopVarOf(t)
		li := tr.w.e.loops[t.k]
		if lv == nil || li == nil {
			return
		}
		for _, i := range lv.init {
			tr.read(i.t, and(g, i.g), loops, sep)
		}
		tr.active[t], tr.active[lv.val] = true, true
		ctx := forgetPos(g, map[int64]bool{}, map[int64]bool{li.id: true})
		for _, b := range lv.back {
			tr.read(b.t, and(ctx, b.g, li.back), append(append([]int64{}, loops...), li.id), sep)
		}
		delete(tr.active, t)
		delete(tr.active, lv.val)
	case t.op == OCall && t.s == "strings.Join" && len(t.args) == 2:
		s, _ := isStrConst(t.args[1])
		tr.read(t.args[0], g, loops, s)
	case t.op == OElem && t.args[1].op == OK && len(loops) > 0 && t.args[1].k == loops[len(loops)-1] && (t.args[0].op == OMu || t.args[0].op == OApp || t.args[0].op == OTuple):
		// a list of texts written line by line
		li := tr.w.e.loops[t.args[1].k]
		full := li != nil
		g0 := g
		if full {
			g0 = forgetPos(g, nil, map[int64]bool{li.id: true})
			bound := ge0(subT(subT(lenT(t.args[0]), t.args[1]), mkInt(1)))
			for _, x := range li.exits {
				full = full && (x.header && !sat(and(x.pc, g0, bound)) || !sat(x.pc))
			}
		}
		if full {
			tr.read(t.args[0], g0, loops[:len(loops)-1], "\n")
			return
		}
		fallthrough
	default:
		if t.op == OCall && t.s == "fmt.Str" && len(t.args) > 0 {
			t = unwrap(t.args[0])
			if _, ok := tr.w.cleanser(t); ok {
				tr.read(t, g, loops, sep)
				return
			}
		}
		tr.out = append(tr.out, shownPiece{t, g, loops, tr.prev, tr.ev, len(tr.out), freeOf(tr.apply)})
		tr.prev = ""
	}
}

// forgetPos forgets what a condition says about positions in loops: those in
// drop or, if drop is nil, all that are not in keep.
func forgetPos(g BDD, keep, drop map[int64]bool) BDD {
	return exists(g, func(v int32) bool {
		return anyTerm(atoms[v], func(t *Term) bool {
			if t.op != OK {
				return false
			}
			if drop != nil {
				return drop[t.k]
			}
			return !keep[t.k]
		})
	})
}

func positionsIn(t *Term) map[int64]bool {
	m := map[int64]bool{}
	walkT(t, func(x *Term) bool {
		if x.op == OK {
			m[x.k] = true
		}
		return true
	})
	return m
}

// piecesOf is everything a run writes to the terminal or into views.
func (w *World) piecesOf(r *Run) []shownPiece {
	tr := &textReader{w: w, active: map[*Term]bool{}}
	for _, ev := range r.events {
		if ev.kind != "print" || ev.async || len(ev.args) < 2 || !onTerminal(ev) && viewName(unwrap(ev.arg(0))) == nil {
			continue
		}
		tr.ev = ev
		before := tr.prev
		for _, cs := range ev.args[1] {
			tr.prev = before
			tr.read(cs.t, and(ev.pc, cs.g), ev.loops, "")
		}
	}
	return tr.out
}

const dateLayout = "2006-01-02 15:04:05"

func init() {
	register("C19", "Item details show everything the item has", func(c *Check) {
		w := c.w
		n := map[string]int{}
		for _, r := range w.all() {
			if r.kind != "cmd" && r.kind != "handler" {
				continue
			}
			ps := w.piecesOf(r)
			seen := map[*Term]bool{}
			for _, p := range ps {
				walkT(p.t, func(x *Term) bool {
					if x.op == OField && !seen[x.args[0]] && x.args[0].typ != nil && hasFields(x.args[0].typ, "Sections", "Notes", "Title", "Category") {
						X := x.args[0]
						seen[X] = true
						n[r.name]++
						c.details(r, X, ps)
					}
					return true
				})
			}
		}
		for _, name := range []string{"overview", "details", "itemsWidget/Tab", "detailsWidget/Tab", "itemsWidget/j", "itemsWidget/k", "1pass/Enter"} {
			c.need(n[name] > 0, "shows-item", "%s shows no item", name)
		}
	})
}

// details: everything about item X is written, whenever anything is.
func (c *Check) details(r *Run, X *Term, ps []shownPiece) {
	w := c.w
	reveal := r.kind == "cmd" && r.name == "details" || r.kind == "handler" && r.view == "itemsWidget" && r.key == "Tab"
	keep := positionsIn(X)
	fg := func(g BDD, loops ...int64) BDD {
		k := map[int64]bool{}
		for x := range keep {
			k[x] = true
		}
		for _, l := range loops {
			k[l] = true
		}
		return forgetPos(g, k, nil)
	}
	// whenever something of the item is written
	D := F
	var first *Event
	for _, p := range ps {
		if len(p.loops) == 0 && contains(p.t, X) {
			D = or(D, fg(p.g))
			if first == nil {
				first = p.ev
			}
		}
	}
	if !c.ok(first != nil, "shows-item", r, nil, "only parts of the item are written") {
		return
	}
	// what a view would take for an order
	for _, p := range ps {
		if v := viewName(unwrap(p.ev.arg(0))); v != nil && contains(p.t, X) && mayOrder(p.t) {
			c.ok(viewSafe(p.clean, "\r\x1b"), "plain-text", r, p.ev, "%s goes to the view as it is: a carriage return in it removes what is before it from the view, an escape what is after it", clip(p.t.String(), 60))
		}
	}
	lastLine := func(s string) string {
		return strings.ToLower(s[strings.LastIndex(strings.TrimRight(s, "\n"), "\n")+1:])
	}
	scalar := func(what string, cond BDD, label string, is func(t *Term) bool) {
		g := F
		wrong := ""
		for _, p := range ps {
			if len(p.loops) != 0 || !is(p.t) {
				continue
			}
			if label != "" && !strings.Contains(lastLine(p.prev), label) {
				wrong = " under the right label (it follows \"" + strings.TrimSpace(lastLine(p.prev)) + "\")"
				continue
			}
			g = or(g, fg(p.g))
		}
		in := and(D, cond)
		c.ok(implies(in, g), "all-parts", r, first, "the %s may not be shown%s: %s", what, wrong, witness(diff(in, g)))
	}
	field := func(n string) func(*Term) bool {
		f := itemField(X, n)
		return func(t *Term) bool { return f != nil && t == f }
	}
	date := func(n string) func(*Term) bool {
		is := field(n)
		return func(t *Term) bool {
			if t.op != OCall || !strings.HasSuffix(t.s, "(time.Time).Format") || len(t.args) != 2 {
				return false
			}
			l, _ := isStrConst(t.args[1])
			u := t.args[0]
			if u.op != OCall || u.s != "time.Unix" || len(u.args) != 2 {
				return false
			}
			ns, ok := isIntConst(u.args[1])
			return l == dateLayout && ok && ns == 0 && is(stripConv(u.args[0]))
		}
	}
	filled := func(t *Term) BDD { return not(eqB(t, mkStr(""))) }
	scalar("category", T, "", func(t *Term) bool {
		cat := itemField(X, "Category")
		return cat != nil && t == itemField(cat, "name")
	})
	scalar("title", T, "", field("Title"))
	scalar("date of change", T, "updated", date("Updated"))
	scalar("date of creation", T, "created", date("Created"))
	scalar("trashed state", T, "trashed", field("Trashed"))
	scalar("web address", filled(itemField(X, "Url")), "url", field("Url"))
	notes := filled(itemField(X, "Notes"))
	if reveal {
		scalar("notes", notes, "", field("Notes"))
	}
	scalar("heading of the notes", notes, "", func(t *Term) bool {
		s, ok := isStrConst(t)
		return ok && strings.Contains(strings.ToLower(s), "notes")
	})
	if !reveal {
		mask := F
		head := -1
		for _, p := range ps {
			s, ok := isStrConst(p.t)
			if !ok || len(p.loops) != 0 {
				continue
			}
			if i := strings.Index(strings.ToLower(s), "notes"); i >= 0 {
				head = p.seq
				s = s[i+len("notes"):]
			}
			if head >= 0 && p.seq >= head && strings.Trim(s, "-=_: \n") != "" {
				mask = or(mask, fg(p.g))
			}
		}
		in := and(D, notes)
		c.ok(implies(in, mask), "masked", r, first, "nothing stands for the notes: %s", witness(diff(in, mask)))
	}

	S := itemField(X, "Sections")
	reached := F
	done := map[int64]bool{}
	for _, p := range ps {
		if len(p.loops) == 0 || done[p.loops[0]] {
			continue
		}
		L := p.loops[0]
		done[L] = true
		li := w.e.loops[L]
		srcs, why := w.sourcesOf(li)
		if why != "" {
			continue
		}
		for _, s := range srcs {
			if s.seq != S {
				continue
			}
			K := mkK(L)
			c.whole(r, p.ev, li, "sections")
			entry := fg(li.entry)
			if several(srcs) {
				entry = and(entry, D)
			}
			reached = or(reached, entry)
			sec := elemsAt(S, K)
			in := and(entry, s.bound)
			c.part(r, p.ev, "section title", and(in, filled(itemField(sec, "Title"))), itemField(sec, "Title"), ps, []int64{L}, fg)
			F2 := itemField(sec, "Fields")
			inner := F
			at := map[int64]bool{}
			for _, q := range ps {
				if len(q.loops) != 2 || q.loops[0] != L || at[q.loops[1]] {
					continue
				}
				M := q.loops[1]
				at[M] = true
				lj := w.e.loops[M]
				srcs, why := w.sourcesOf(lj)
				if why != "" {
					continue
				}
				for _, u := range srcs {
					if u.seq != F2 {
						continue
					}
					c.whole(r, q.ev, lj, "fields")
					entry2 := fg(lj.entry, L)
					if several(srcs) {
						entry2 = and(entry2, D)
					}
					inner = or(inner, entry2)
					f := elemsAt(F2, mkK(M))
					in2 := and(entry2, u.bound)
					nm := c.part(r, q.ev, "field name", in2, itemField(f, "Name"), ps, []int64{L, M}, fg)
					if reveal {
						v := c.part(r, q.ev, "field value", in2, itemField(f, "Value"), ps, []int64{L, M}, fg)
						c.ok(nm < v || nm < 0 || v < 0, "own-name", r, q.ev, "a value comes before its name")
					} else {
						mask := F
						for _, x := range ps {
							if s, ok := isStrConst(x.t); ok && eqLoops(x.loops, []int64{L, M}) && strings.TrimSpace(strings.Trim(s, ": \n")) != "" {
								mask = or(mask, fg(x.g, L, M))
							}
						}
						c.ok(implies(in2, mask), "masked", r, q.ev, "nothing stands for the value of a field: %s", witness(diff(in2, mask)))
					}
					if tt := c.seqOf(ps, itemField(sec, "Title")); tt >= 0 && nm >= 0 {
						c.ok(tt < nm, "own-section", r, q.ev, "the fields of a section come before its title")
					}
				}
			}
			some := and(in, ge0(subT(lenT(F2), mkInt(1))), not(eqB(F2, mkNil())))
			c.ok(implies(some, inner), "all-fields", r, p.ev, "the fields of a section may not be shown: %s", witness(diff(some, inner)))
		}
	}
	some := and(D, ge0(subT(lenT(S), mkInt(1))), not(eqB(S, mkNil())))
	c.ok(implies(some, reached), "all-sections", r, first, "the sections may not be shown: %s", witness(diff(some, reached)))
}

func several(srcs []source) bool {
	n := 0
	for _, s := range srcs {
		if s.seq != nil {
			n++
		}
	}
	return n > 1
}

func eqLoops(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Check) whole(r *Run, ev *Event, li *LoopInfo, what string) {
	for _, x := range li.exits {
		c.ok(x.header || !sat(x.pc), "all-"+what, r, ev, "the %s may stop early: %s", what, witness(x.pc))
	}
}

func (c *Check) seqOf(ps []shownPiece, t *Term) int {
	for _, p := range ps {
		if p.t == t {
			return p.seq
		}
	}
	return -1
}

// part: t is written in every iteration of the loops in which in holds.
func (c *Check) part(r *Run, ev *Event, what string, in BDD, t *Term, ps []shownPiece, loops []int64, fg func(BDD, ...int64) BDD) int {
	g := F
	at := -1
	for _, p := range ps {
		if p.t == t && eqLoops(p.loops, loops) {
			g = or(g, fg(p.g, loops...))
			if at < 0 {
				at = p.seq
			}
		}
	}
	c.ok(implies(in, g), "all-parts", r, ev, "a %s may not be shown: %s", what, witness(diff(in, g)))
	return at
}

// mayOrder: the text is one of the vault, of any content.
func mayOrder(t *Term) bool {
	b, ok := t.typ.(*types.Basic)
	return t.op == OField && t.s != "name" && ok && b.Info()&types.IsString != 0
}
