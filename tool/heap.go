package main

import (
	"go/types"
	"sort"
)

// Case is one guarded alternative of a value.
type Case struct {
	g BDD
	t *Term
}

// Val is a guarded set of alternatives. Booleans are held as a single OBool
// term so that their guard can be recovered exactly.
type Val []Case

func one(t *Term) Val { return Val{{T, t}} }

func (v Val) single() *Term {
	if len(v) == 1 {
		return v[0].t
	}
	return nil
}

// collapse turns a value into one term (join of the alternatives).
func (v Val) collapse() *Term {
	if len(v) == 1 {
		return v[0].t
	}
	if len(v) == 0 {
		return mkSym("?none", nil)
	}
	ts := make([]*Term, len(v))
	for i, c := range v {
		ts[i] = c.t
	}
	return joinT(ts)
}

func (v Val) terms() []*Term {
	var ts []*Term
	for _, c := range v {
		ts = append(ts, c.t)
	}
	return ts
}

const maxCases = 48

func isBoolTerm(t *Term) bool {
	return t.op == OBool || t.op == OConst && len(t.s) > 2 && t.s[:2] == "b:"
}

// mkVal normalises a list of cases: equal terms are merged, dead cases are
// dropped and guards are simplified under pc.
func mkVal(cs []Case, pc BDD) Val {
	if len(cs) == 1 {
		return Val{{T, cs[0].t}}
	}
	boolean := false
	for _, c := range cs {
		if isBoolTerm(c.t) {
			boolean = true
		}
	}
	if boolean {
		r := F
		for _, c := range cs {
			r = or(r, and(c.g, boolOf(c.t)))
		}
		return one(mkBool(restrict(r, pc)))
	}
	// sorting only what has two elements or more is sorting
	for i, c := range cs {
		if c.t.op == ONil && len(cs) <= 4 {
			// returning nil for an empty list is returning the list
			for j, d := range cs {
				if i == j || d.t.op != OMu && d.t.op != OCall || c.g == T {
					continue
				}
				ok := d.t.op == OMu
				if !ok && d.t.typ != nil {
					_, ok = d.t.typ.Underlying().(*types.Slice)
				}
				if ok && implies(and(c.g, pc), eq0(lenT(d.t))) {
					cs = append([]Case{}, cs...)
					cs[i].t = d.t
					break
				}
			}
			continue
		}
		if c.t.op != OCall || c.t.s != "sorted" || len(c.t.args) != 2 {
			continue
		}
		for j, d := range cs {
			if i != j && d.t == c.t.args[0] && implies(and(d.g, pc), not(ge0(subT(lenT(d.t), mkInt(2))))) {
				cs = append([]Case{}, cs...)
				cs[j].t = c.t
			}
		}
	}
	idx := map[*Term]int{}
	var out []Case
	for _, c := range cs {
		if c.g == F {
			continue
		}
		if and(c.g, pc) == F {
			continue
		}
		if i, ok := idx[c.t]; ok {
			out[i].g = or(out[i].g, c.g)
		} else {
			idx[c.t] = len(out)
			out = append(out, c)
		}
	}
	if len(out) == 0 {
		if len(cs) > 0 {
			return Val{{T, cs[0].t}}
		}
		return one(mkSym("?dead", nil))
	}
	if len(out) == 1 {
		return Val{{T, out[0].t}}
	}
	if len(out) > maxCases {
		var ts []*Term
		for _, c := range out {
			ts = append(ts, c.t)
		}
		return one(joinT(ts))
	}
	for i := range out {
		out[i].g = restrict(out[i].g, pc)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	return out
}

// prune drops the alternatives that cannot occur under pc.
func prune(v Val, pc BDD) Val {
	if len(v) <= 1 {
		return v
	}
	var out []Case
	for _, c := range v {
		if g := and(c.g, pc); g != F && sat(g) {
			out = append(out, c)
		}
	}
	if len(out) == len(v) {
		return v
	}
	if len(out) == 1 {
		return Val{{T, out[0].t}}
	}
	return out
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// valBool gives the guard under which a boolean value is true.
func valBool(v Val) BDD {
	r := F
	for _, c := range v {
		r = or(r, and(c.g, boolOf(c.t)))
	}
	return r
}

// ---- persistent heap: a Patricia trie from location term id to value

type Heap struct {
	prefix, mask int
	l, r         *Heap
	key          *Term
	val          Val
}

func (h *Heap) leaf() bool { return h.mask == 0 }

func (h *Heap) get(k *Term) (Val, bool) {
	for h != nil {
		if h.leaf() {
			if h.key == k {
				return h.val, true
			}
			return nil, false
		}
		if k.id&^(h.mask<<1-1) != h.prefix {
			return nil, false
		}
		if k.id&h.mask == 0 {
			h = h.l
		} else {
			h = h.r
		}
	}
	return nil, false
}

func highBit(x int) int {
	b := 1
	for x > 1 {
		x >>= 1
		b <<= 1
	}
	return b
}

func branch(p1 int, a *Heap, p2 int, b *Heap) *Heap {
	m := highBit(p1 ^ p2)
	pr := p1 &^ (m<<1 - 1)
	if p1&m == 0 {
		return &Heap{prefix: pr, mask: m, l: a, r: b}
	}
	return &Heap{prefix: pr, mask: m, l: b, r: a}
}

func (h *Heap) set(k *Term, v Val) *Heap {
	if h == nil {
		return &Heap{prefix: k.id, key: k, val: v}
	}
	if h.leaf() {
		if h.key == k {
			if sameVal(h.val, v) {
				return h
			}
			return &Heap{prefix: k.id, key: k, val: v}
		}
		return branch(k.id, &Heap{prefix: k.id, key: k, val: v}, h.key.id, h)
	}
	if k.id&^(h.mask<<1-1) != h.prefix {
		return branch(k.id, &Heap{prefix: k.id, key: k, val: v}, h.prefix, h)
	}
	if k.id&h.mask == 0 {
		nl := h.l.set(k, v)
		if nl == h.l {
			return h
		}
		return &Heap{prefix: h.prefix, mask: h.mask, l: nl, r: h.r}
	}
	nr := h.r.set(k, v)
	if nr == h.r {
		return h
	}
	return &Heap{prefix: h.prefix, mask: h.mask, l: h.l, r: nr}
}

func (h *Heap) each(f func(*Term, Val)) {
	if h == nil {
		return
	}
	if h.leaf() {
		f(h.key, h.val)
		return
	}
	h.l.each(f)
	h.r.each(f)
}

// diffHeap calls f for every location on which the two heaps disagree
// (a nil, false value means absent).
func diffHeap(a, b *Heap, f func(k *Term, va Val, oka bool, vb Val, okb bool)) {
	if a == b {
		return
	}
	if a == nil {
		b.each(func(k *Term, v Val) { f(k, nil, false, v, true) })
		return
	}
	if b == nil {
		a.each(func(k *Term, v Val) { f(k, v, true, nil, false) })
		return
	}
	if !a.leaf() && !b.leaf() && a.mask == b.mask && a.prefix == b.prefix {
		diffHeap(a.l, b.l, f)
		diffHeap(a.r, b.r, f)
		return
	}
	if a.leaf() && b.leaf() && a.key == b.key {
		if !sameVal(a.val, b.val) {
			f(a.key, a.val, true, b.val, true)
		}
		return
	}
	// structural mismatch: generic comparison of these sub-tries
	seen := map[*Term]bool{}
	a.each(func(k *Term, v Val) {
		seen[k] = true
		w, ok := b.get(k)
		if !ok {
			f(k, v, true, nil, false)
		} else if !sameVal(v, w) {
			f(k, v, true, w, true)
		}
	})
	b.each(func(k *Term, v Val) {
		if !seen[k] {
			f(k, nil, false, v, true)
		}
	})
}
