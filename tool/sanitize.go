package main

import (
	"go/types"
	"sort"
	"strings"
	"unicode"
)

// ---- what a view does with the text written into it
//
// A view of gocui takes some characters as orders: a carriage return drops the
// line written so far, escape starts a colour, a line break starts a row.
// Texts of the vault must be free of them.

// cleanser is a function that only replaces control characters.
type cleanser struct {
	text  *Term
	alts  Val      // if it is one of several
	pairs []string // what it replaces, and by what
	apply func(string) string
}

func controlOnly(s string) bool {
	return s != "" && strings.IndexFunc(s, func(r rune) bool { return !unicode.IsControl(r) }) < 0
}

// freeOf: the control characters that are not in any text after the cleansers,
// of which the last comes first.
func freeOf(cs []cleanser) string {
	gone := map[rune]bool{}
	for i := len(cs) - 1; i >= 0; i-- {
		kv := cs[i].pairs
		taken := map[rune]bool{}
		var added []rune
		for j := 0; j < len(kv); j += 2 {
			from := []rune(kv[j])
			if len(from) == 1 {
				taken[from[0]] = true
			}
			if strings.IndexFunc(kv[j], func(r rune) bool { return gone[r] }) < 0 {
				added = append(added, []rune(kv[j+1])...)
			}
		}
		for r := range taken {
			gone[r] = true
		}
		for _, r := range added {
			delete(gone, r)
		}
	}
	var out []rune
	for r := range gone {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return string(out)
}

func (w *World) cleanser(t *Term) (cleanser, bool) {
	no := cleanser{}
	if t.op == OMu {
		return w.copiesRunes(t)
	}
	if t.op != OCall {
		return no, false
	}
	pairs := func(kv []string, x *Term) (cleanser, bool) {
		if len(kv) == 0 || len(kv)%2 != 0 {
			return no, false
		}
		c := cleanser{text: x, pairs: kv, apply: strings.NewReplacer(kv...).Replace}
		for i := 0; i < len(kv); i += 2 {
			if !controlOnly(kv[i]) {
				return no, false
			}
		}
		return c, true
	}
	switch {
	case t.s == "strings.ReplaceAll" && len(t.args) == 3:
		a, ok1 := isStrConst(t.args[1])
		b, ok2 := isStrConst(t.args[2])
		if ok1 && ok2 {
			return pairs([]string{a, b}, t.args[0])
		}
	case t.s == "strings.Join" && len(t.args) == 2 && t.args[0].op == OCall && t.args[0].s == "strings.Split":
		a, ok1 := isStrConst(t.args[0].args[1])
		b, ok2 := isStrConst(t.args[1])
		if ok1 && ok2 {
			return pairs([]string{a, b}, t.args[0].args[0])
		}
	case strings.HasSuffix(t.s, "strings.Replacer).Replace") && len(t.args) == 2 && isCall(t.args[0], "strings.NewReplacer"):
		var kv []string
		for _, x := range t.args[0].args {
			s, ok := isStrConst(x)
			if !ok {
				return no, false
			}
			kv = append(kv, s)
		}
		return pairs(kv, t.args[1])
	case t.s == "strings.Map" && len(t.args) == 2:
		if rs, ok := w.mapsRunes(t.args[0]); ok {
			c := cleanser{text: t.args[1]}
			for r, to := range rs {
				switch {
				case to == r:
				case to < 0:
					c.pairs = append(c.pairs, string(r), "")
				default:
					c.pairs = append(c.pairs, string(r), string(to))
				}
			}
			c.apply = func(s string) string {
				return strings.Map(func(r rune) rune {
					if to, ok := rs[r]; ok {
						return to
					}
					return r
				}, s)
			}
			return c, true
		}
	}
	return no, false
}

// mapsRunes evaluates a function on runes: what it makes of the control
// characters, if it leaves all others alone.
func (w *World) mapsRunes(f *Term) (map[rune]rune, bool) {
	if m, ok := w.runeMaps[f]; ok {
		return m, m != nil
	}
	if w.runeMaps == nil {
		w.runeMaps = map[*Term]map[rune]rune{}
	}
	w.runeMaps[f] = nil
	if f.op != OFn && f.op != OClo {
		return nil, false
	}
	call := func(x *Term) Val {
		var rs []Val
		w.e.record(func() ([]Val, State) {
			var st State
			rs, st = w.e.callValue(f, []Val{one(x)}, State{T, w.guiHeap}, "rune")
			return rs, st
		})
		if len(rs) != 1 {
			return nil
		}
		return rs[0]
	}
	sym := mkSym("rune", types.Typ[types.Rune])
	ctl := F
	v := call(sym)
	if v == nil {
		return nil, false
	}
	for i, a := range atoms {
		if a.op == OCall && a.s == "unicode.IsControl" && a.args[0] == sym {
			ctl = or(ctl, bvar(int32(i)))
		}
	}
	for r := rune(0); r < 0xa0; r++ {
		if unicode.IsControl(r) {
			ctl = or(ctl, eqB(sym, mkInt(int64(r))))
		}
	}
	ctl = or(ctl, not(ge0(subT(sym, mkInt(32)))))
	for _, cs := range v {
		if cs.t != sym && !implies(cs.g, ctl) {
			return nil, false
		}
	}
	m := map[rune]rune{}
	for r := rune(0); r < 0xa0; r++ {
		if !unicode.IsControl(r) {
			continue
		}
		v := call(mkInt(int64(r)))
		if len(v) != 1 {
			return nil, false
		}
		n, ok := isIntConst(v[0].t)
		if !ok {
			return nil, false
		}
		m[r] = rune(n)
	}
	w.runeMaps[f] = m
	return m, true
}

// viewSafe: none of the characters is left that a view takes for an order.
func viewSafe(clean, orders string) bool {
	for _, r := range orders {
		if !strings.ContainsRune(clean, r) {
			return false
		}
	}
	return true
}

// copiesRunes: a text put together in a loop over the characters of another
// one, of which it replaces control characters only.
func (w *World) copiesRunes(t *Term) (cleanser, bool) {
	no := cleanser{}
	lv := w.loopVarOf(t)
	li := w.e.loops[t.k]
	if lv == nil || li == nil || len(lv.init) == 0 {
		return no, false
	}
	for _, i := range lv.init {
		x := unwrap(i.t)
		if s, ok := isStrConst(x); !(ok && s == "") && x.op != ONil && !(x.op == OTuple && len(x.args) == 0) && lenT(x) != mkInt(0) {
			return no, false
		}
	}
	type piece struct {
		t *Term // nil: nothing
		g BDD
	}
	var ps []piece
	els := map[*Term]BDD{}
	var order []*Term
	for _, b := range lv.back {
		x := unwrap(b.t)
		p := piece{nil, and(b.g, li.back)}
		switch {
		case x == t || x == lv.val:
		case (x.op == OConcat || x.op == OApp) && len(x.args) == 2 && (x.args[0] == t || x.args[0] == lv.val):
			p.t = stripConv(unwrap(x.args[1]))
			if isCall(p.t, "runestr") {
				p.t = stripConv(unwrap(p.t.args[0]))
			}
			if p.t.op == OElem && p.t.args[1].op == OK && p.t.args[1].k == li.id {
				if _, ok := els[p.t]; !ok {
					order = append(order, p.t)
					els[p.t] = F
				}
				els[p.t] = or(els[p.t], p.g)
			}
		default:
			return no, false
		}
		if sat(p.g) {
			ps = append(ps, p)
		}
	}
	if len(order) == 0 {
		return no, false
	}
	c := cleanser{}
	for i, el := range order {
		when := forgetPos(els[el], nil, map[int64]bool{li.id: true})
		kv := []string{}
		bound := ge0(subT(subT(lenT(el.args[0]), el.args[1]), mkInt(1)))
		for _, x := range li.exits {
			if sat(and(x.pc, when)) && (!x.header || sat(and(x.pc, when, bound))) {
				return no, false
			}
		}
		ctl := not(ge0(subT(el, mkInt(32))))
		for r := rune(0); r < 0xa0; r++ {
			if !unicode.IsControl(r) {
				continue
			}
			is := eqB(el, mkInt(int64(r)))
			ctl = or(ctl, is)
			is = and(is, when)
			to, n := "", 0
			for _, p := range ps {
				if !sat(and(p.g, is)) {
					continue
				}
				n++
				switch {
				case p.t == nil:
				case p.t == el:
					to = string(r)
				default:
					if s, ok := isStrConst(p.t); ok {
						to = s
					} else if k, ok := isIntConst(p.t); ok {
						to = string(rune(k))
					} else {
						return no, false
					}
				}
			}
			if n != 1 {
				return no, false
			}
			if to != string(r) {
				kv = append(kv, string(r), to)
			}
		}
		for _, p := range ps {
			if p.t != el && !implies(and(p.g, when), ctl) {
				return no, false
			}
		}
		if i > 0 && strings.Join(kv, "|") != strings.Join(c.pairs, "|") {
			return no, false
		}
		c.pairs = kv
		c.text = el.args[0]
		c.alts = append(c.alts, Case{when, el.args[0]})
	}
	if len(c.pairs) == 0 {
		return no, false
	}
	c.apply = strings.NewReplacer(c.pairs...).Replace
	return c, true
}
