package main

import (
	"go/types"
)

// Loops that build a sequence (or a number) from another sequence, one element
// at a time, and the composition of such loops.

// rebuild replaces sub-terms; f decides for every term on the way down whether
// it stands for something else.
type rebuilder struct {
	f    func(*Term) (Val, bool)
	memo map[*Term]Val
	pc   BDD
}

func newRebuilder(pc BDD, f func(*Term) (Val, bool)) *rebuilder {
	return &rebuilder{f: f, memo: map[*Term]Val{}, pc: pc}
}

func (rb *rebuilder) term(t *Term) Val {
	if v, ok := rb.memo[t]; ok {
		return v
	}
	rb.memo[t] = one(t) // cycles cannot occur in terms
	v := rb.calc(t)
	rb.memo[t] = v
	return v
}

func (rb *rebuilder) calc(t *Term) Val {
	if v, ok := rb.f(t); ok {
		return v
	}
	if t.op == OBool {
		return one(mkBool(rb.bdd(BDD(t.k))))
	}
	if len(t.args) == 0 || t.op == OAlloc || t.op == OMu || t.op == OClo {
		return one(t)
	}
	var vs []Val
	same := true
	for _, a := range t.args {
		if a == nil {
			vs = append(vs, nil)
			continue
		}
		v := rb.term(a)
		if v.single() != a {
			same = false
		}
		vs = append(vs, v)
	}
	if same {
		return one(t)
	}
	var idx []int
	var in []Val
	for i, v := range vs {
		if v != nil {
			idx = append(idx, i)
			in = append(in, v)
		}
	}
	return liftN(in, rb.pc, func(ts []*Term) *Term {
		as := make([]*Term, len(t.args))
		for k, i := range idx {
			as[i] = ts[k]
		}
		return remake(t, as)
	})
}

// remake builds a term like t with other arguments.
func remake(t *Term, as []*Term) *Term {
	switch t.op {
	case OField:
		return fieldT(as[0], t.s, t.aux, t.typ)
	case OElem:
		if t.s == "" {
			return elemT(as[0], as[1], t.typ)
		}
	case OLen:
		return lenT(as[0])
	case OLin:
		r := mkInt(t.k)
		for i, a := range as {
			r = linComb(r, 1, a, t.coef[i])
		}
		return r
	case OConcat:
		return concat(as...)
	case OCall:
		return foldPure(t.s, as)
	}
	return mkTC(t.op, t.s, t.k, t.aux, t.typ, t.coef, as...)
}

// bdd rewrites the atoms of a condition.
func (rb *rebuilder) bdd(g BDD) BDD {
	return substBDD(g, func(x int32) BDD { return rb.atom(x) })
}

func (rb *rebuilder) atom(x int32) BDD {
	t := atoms[x]
	var r BDD
	switch {
	case t.op == OGe0:
		r = rb.each(t.args, func(as []*Term) BDD { return ge0(as[0]) })
	case t.op == OEq && t.s == "0":
		r = rb.each(t.args, func(as []*Term) BDD { return eq0(as[0]) })
	case t.op == OEq && len(t.args) == 2:
		r = rb.each(t.args, func(as []*Term) BDD { return eqB(as[0], as[1]) })
	case t.op == OLt && len(t.args) == 2:
		r = rb.each(t.args, func(as []*Term) BDD { return ltB(as[0], as[1]) })
	default:
		v := rb.term(t)
		if v.single() == t {
			return bvar(x)
		}
		r = F
		for _, c := range v {
			r = or(r, and(c.g, boolOf(c.t)))
		}
	}
	return r
}

func (rb *rebuilder) each(args []*Term, f func([]*Term) BDD) BDD {
	vs := make([]Val, len(args))
	for i, a := range args {
		vs[i] = rb.term(a)
	}
	r := F
	var walk func(i int, g BDD, acc []*Term)
	walk = func(i int, g BDD, acc []*Term) {
		if g == F {
			return
		}
		if i == len(vs) {
			r = or(r, and(g, f(acc)))
			return
		}
		for _, c := range vs[i] {
			walk(i+1, and(g, c.g), append(append([]*Term{}, acc...), c.t))
		}
	}
	walk(0, T, nil)
	return r
}

func (rb *rebuilder) val(v Val) Val {
	var cs []Case
	for _, c := range v {
		g := rb.bdd(c.g)
		for _, d := range rb.term(c.t) {
			cs = append(cs, Case{and(g, d.g), d.t})
		}
	}
	return mkVal(cs, rb.pc)
}

// source is a sequence a loop goes through, and when.
type source struct {
	cond  BDD
	seq   *Term
	bound BDD // there is a next element
}

func loopK(id int64) *Term { return mkK(id) }

// sourcesOf finds the sequences a loop goes through element by element: the
// loop goes on exactly as long as there is a next element.
func (w *World) sourcesOf(li *LoopInfo) ([]source, string) {
	K := loopK(li.id)
	if K == nil {
		return nil, "a loop without a counter"
	}
	stop := F
	n := 0
	for _, x := range li.exits {
		if x.header {
			stop = or(stop, x.pc)
			n++
		}
	}
	if n == 0 {
		return nil, "a loop that does not end after its last element"
	}
	var out []source
	seen := map[int32]bool{}
	for _, v := range append(support(stop), support(li.back)...) {
		a := atoms[v]
		if a.op != OGe0 || seen[v] {
			continue
		}
		seen[v] = true
		l := toLin(a.args[0])
		if len(l.m) != 2 {
			continue
		}
		for t, co := range l.m {
			if t == K || t.op != OLen {
				continue
			}
			// len-K-1 >= 0, or not K-len >= 0
			if l.k == -1 && co == 1 && l.m[K] == -1 {
				out = append(out, source{T, t.args[0], bvar(v)})
			} else if l.k == 0 && co == -1 && l.m[K] == 1 {
				out = append(out, source{T, t.args[0], not(bvar(v))})
			}
		}
	}
	if len(out) == 0 {
		return nil, "a loop that does not go through a list"
	}
	entry := w.focus(li.entry, li)
	stop = w.focus(stop, li)
	rest := entry
	for i := range out {
		s := &out[i]
		stops := stop
		for _, o := range out {
			stops = restrict(and(stops, iffBound(o.bound, o.bound == s.bound)), iffBound(o.bound, o.bound == s.bound))
		}
		// goes on if this list has a next element
		s.cond = diff(entry, stops)
		if !implies(and(s.cond, not(s.bound)), stop) {
			return nil, "a loop that goes on after its list ended"
		}
		rest = diff(rest, s.cond)
	}
	for i := range out {
		for j := range out {
			if i < j && sat(and(out[i].cond, out[j].cond)) {
				return nil, "a loop that goes through several lists"
			}
		}
	}
	if rest = and(rest, noLoopAtoms(stop, K)); sat(rest) {
		out = append(out, source{rest, nil, T})
	}
	return out, ""
}

func iffBound(b BDD, want bool) BDD {
	if want {
		return b
	}
	return not(b)
}

// noLoopAtoms forgets what a condition says about the position K.
func noLoopAtoms(g BDD, K *Term) BDD {
	return exists(g, func(v int32) bool { return contains(atoms[v], K) })
}

// comp is a loop that builds a sequence.
type comp struct {
	li    *LoopInfo
	K     *Term
	srcs  []source
	emits []Case // what one iteration adds, and when
}

// compOf understands a loop-built sequence.
func (w *World) compOf(mu *Term) (*comp, string) { return w.compFrom(mu, false) }

func (w *World) compFrom(mu *Term, prefix bool) (*comp, string) {
	lv := w.loopVarOf(mu)
	if lv == nil {
		return nil, "not built by a loop"
	}
	li := w.e.loops[mu.k]
	c := &comp{li: li, K: loopK(li.id)}
	for _, i := range lv.init {
		if n, ok := isIntConst(lenT(i.t)); !prefix && (!ok || n != 0) && and(i.g, li.entry) != F {
			return nil, "the list does not start empty"
		}
	}
	for _, x := range li.exits {
		if !x.header && sat(x.pc) {
			return nil, "the loop may stop early"
		}
	}
	why := ""
	if c.srcs, why = w.sourcesOf(li); why != "" {
		return nil, why
	}
	for _, b := range lv.back {
		g := w.focus(and(b.g, li.back), li)
		switch {
		case b.t == mu || b.t == lv.val:
		case b.t.op == OApp && (b.t.args[0] == mu || b.t.args[0] == lv.val) && len(b.t.args) == 2 && b.t.args[1].op != OSpread:
			c.emits = append(c.emits, Case{g, b.t.args[1]})
		default:
			return nil, "an iteration does not add one element"
		}
	}
	return c, ""
}

// compOfMade understands a list made with its final length and filled by a loop.
func (w *World) compOfMade(t *Term) (*comp, string) {
	var out *comp
	for _, li := range w.e.loops {
		if li.backHp == nil {
			continue
		}
		K := mkK(li.id)
		var v Val
		li.backHp.each(func(k *Term, x Val) {
			if k.op == OIdxAddr && k.args[0] == t && k.args[1] == K {
				v = x
			}
		})
		if v == nil {
			continue
		}
		if out != nil {
			return nil, "a list filled by several loops"
		}
		srcs, why := w.sourcesOf(li)
		if why != "" {
			return nil, why
		}
		for _, x := range li.exits {
			if !x.header && sat(x.pc) {
				return nil, "the loop may stop early"
			}
		}
		out = &comp{li: li, K: K, srcs: srcs}
		all := F
		for _, c := range v {
			g := w.focus(and(c.g, li.back), li)
			out.emits = append(out.emits, Case{g, c.t})
			all = or(all, g)
		}
		if !implies(w.focus(li.back, li), all) {
			return nil, "an entry of the list may stay empty"
		}
		for _, s := range srcs {
			if s.seq == nil || lenT(s.seq) != lenT(t) {
				return nil, "a list longer than what it is filled from"
			}
		}
	}
	if out == nil {
		return nil, "a list of unknown origin: " + t.String()
	}
	return out, ""
}

// countOf understands a number counted by a loop.
func (w *World) countOf(t *Term) (*comp, string) {
	if t.op == OLen {
		return w.compOf(t.args[0])
	}
	if t.op != OMu {
		return nil, "not counted by a loop"
	}
	lv := w.loopVarOf(t)
	if lv == nil {
		return nil, "not counted by a loop"
	}
	li := w.e.loops[t.k]
	c := &comp{li: li, K: loopK(li.id)}
	for _, i := range lv.init {
		if n, ok := isIntConst(i.t); (!ok || n != 0) && and(i.g, li.entry) != F {
			return nil, "the count does not start at zero"
		}
	}
	for _, x := range li.exits {
		if !x.header && sat(x.pc) {
			return nil, "the loop may stop early"
		}
	}
	why := ""
	if c.srcs, why = w.sourcesOf(li); why != "" {
		return nil, why
	}
	for _, b := range lv.back {
		g := w.focus(and(b.g, li.back), li)
		if b.t == t || b.t == lv.val {
			continue
		}
		d, ok := isIntConst(subT(b.t, lv.val))
		if !ok {
			d, ok = isIntConst(subT(b.t, t))
		}
		if !ok || d != 1 {
			return nil, "an iteration does not count one"
		}
		c.emits = append(c.emits, Case{g, mkInt(1)})
	}
	return c, ""
}

// flat is what becomes of the elements of a base list.
type flat struct {
	cond  BDD // when this list is used
	base  *Term
	K     *Term
	guard BDD // when the element at K shows
	vals  []Val
	bound BDD // facts about the positions
}

func isItemType(t types.Type) bool {
	return hasFields(t, "Uid", "Title", "Trashed", "Category", "Sections")
}

func hasFields(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	have := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		have[st.Field(i).Name()] = true
	}
	for _, n := range names {
		if !have[n] {
			return false
		}
	}
	return true
}

// isBaseSeq: a list of items that is not made from another list of items.
func (w *World) isBaseSeq(seq *Term) bool {
	if seq.op == OMu {
		c, why := w.compOf(seq)
		if why != "" || len(c.emits) == 0 {
			return false
		}
		for _, e := range c.emits {
			if e.t.op != OAlloc || !isItemType(e.t.typ) {
				return false
			}
		}
		return true
	}
	if seq.op == OSym || seq.op == OField {
		if s, ok := seq.typ.(*types.Slice); ok {
			return isItemType(s.Elem())
		}
		if seq.typ != nil {
			if s, ok := seq.typ.Underlying().(*types.Slice); ok {
				return isItemType(s.Elem())
			}
		}
	}
	return false
}

// flatten follows the elements of seq (at K) down to the items they stand for.
func (w *World) flatten(f flat) ([]flat, string) {
	return w.flattenTo(f, w.isBaseSeq, 0)
}

func (w *World) flattenTo(f flat, base func(*Term) bool, depth int) ([]flat, string) {
	if depth > 12 {
		return nil, "too many steps"
	}
	f.base = readAt(f.base, f.K, f.vals)
	seq, K := f.base, f.K
	if seq == nil || base(seq) {
		return []flat{f}, ""
	}
	if seq = stripPerm(seq); base(seq) {
		f.base = seq
	}
	// the same position of differently ordered lists is not the same element
	forms := map[*Term]bool{}
	look := func(t *Term) {
		walkT(t, func(x *Term) bool {
			if x.op == OElem && x.args[1] == K && stripPerm(x.args[0]) == seq {
				forms[x] = true
			}
			return true
		})
	}
	for _, v := range support(f.guard) {
		look(atoms[v])
	}
	for _, v := range f.vals {
		for _, cs := range v {
			look(cs.t)
			for _, x := range support(cs.g) {
				look(atoms[x])
			}
		}
	}
	if len(forms) > 1 {
		return nil, "the same position of two different orders of a list"
	}
	at := func(t *Term) bool { return t.op == OElem && t.args[1] == K && stripPerm(t.args[0]) == seq }
	if f.base == seq && base(seq) {
		rb := newRebuilder(T, func(t *Term) (Val, bool) {
			if at(t) {
				return one(elemsAt(seq, K)), true
			}
			return nil, false
		})
		f.guard = rb.bdd(f.guard)
		for i := range f.vals {
			f.vals[i] = rb.val(f.vals[i])
		}
		return []flat{f}, ""
	}
	if seq.op == OJoin {
		return nil, "a list that may be one of several"
	}
	var c *comp
	var why string
	switch seq.op {
	case OMu:
		c, why = w.compOf(seq)
	case OAlloc:
		c, why = w.compOfMade(seq)
	default:
		why = "a list of unknown origin: " + seq.String()
	}
	if why != "" {
		return nil, why
	}
	// the elements of seq are what the iterations added
	guard := F
	vals := make([][]Case, len(f.vals))
	for _, e := range c.emits {
		e := e
		rb := newRebuilder(T, func(t *Term) (Val, bool) {
			if t.op == OField && at(t.args[0]) && e.t.op == OAlloc {
				if v := w.field(c.li.backHp, e.t, t.s); v != nil {
					return v, true
				}
			}
			if at(t) {
				return one(e.t), true
			}
			return nil, false
		})
		guard = or(guard, and(e.g, rb.bdd(f.guard)))
		for i, v := range f.vals {
			for _, cs := range rb.val(v) {
				vals[i] = append(vals[i], Case{and(e.g, cs.g), cs.t})
			}
		}
	}
	var out []flat
	for _, s := range c.srcs {
		n := flat{cond: and(f.cond, s.cond), base: s.seq, K: c.K, guard: guard, bound: f.bound}
		if s.seq != nil {
			n.bound = and(f.bound, s.bound)
		}
		for i := range vals {
			n.vals = append(n.vals, mkVal(vals[i], T))
		}
		fs, why := w.flattenTo(n, base, depth+1)
		if why != "" {
			return nil, why
		}
		out = append(out, fs...)
	}
	return out, ""
}

// readAt: a loop bounded by the length of one list may read another list made
// with the same length; returns the list that is read at K.
func readAt(seq, K *Term, vals []Val) *Term {
	if seq == nil {
		return nil
	}
	same := false
	var other *Term
	for _, v := range vals {
		for _, cs := range v {
			walkT(cs.t, func(x *Term) bool {
				if x.op == OElem && x.args[1] == K {
					if stripPerm(x.args[0]) == stripPerm(seq) {
						same = true
					} else if stripPerm(x.args[0]).op == OAlloc && lenT(x.args[0]) == lenT(seq) {
						other = x.args[0]
					}
				}
				return true
			})
		}
	}
	if same || other == nil {
		return seq
	}
	return other
}

func stripPerm(t *Term) *Term {
	for t.op == OCall && (t.s == "sorted" || t.s == "perm") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

// focus forgets what a condition says about positions in loops that are over.
func (w *World) focus(g BDD, li *LoopInfo) BDD {
	in := map[int64]bool{}
	for l := li; l != nil; l = w.e.loops[l.parent] {
		in[l.id] = true
	}
	return exists(g, func(v int32) bool {
		return anyTerm(atoms[v], func(t *Term) bool { return t.op == OK && !in[t.k] })
	})
}
