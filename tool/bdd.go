package main

// Reduced ordered BDDs used for path guards. Variables are boolean atoms
// (boolean-valued terms); the order is the order of creation.

type BDD int32

const (
	F BDD = 0
	T BDD = 1
)

type bddNode struct {
	v      int32
	lo, hi BDD
}

type BDDs struct {
	nodes   []bddNode
	table   []int32 // open-addressing unique table of node indices
	ite     []iteEnt
	rst     []rstEnt
	supp    map[BDD][]int32
	satMemo map[BDD]bool
	axMemo  map[string]BDD
}

type iteEnt struct{ f, g, h, r BDD }
type rstEnt struct{ f, c, r BDD }

const iteBits = 20

var bd *BDDs

func newBDDs() *BDDs {
	b := &BDDs{table: make([]int32, 1<<18), ite: make([]iteEnt, 1<<iteBits), rst: make([]rstEnt, 1<<iteBits), supp: map[BDD][]int32{}, satMemo: map[BDD]bool{}, axMemo: map[string]BDD{}}
	b.nodes = append(b.nodes, bddNode{1 << 30, 0, 0}, bddNode{1 << 30, 1, 1})
	return b
}

func hash3(a, b, c uint32) uint32 {
	h := a*0x9E3779B1 ^ b*0x85EBCA77 ^ c*0xC2B2AE3D
	h ^= h >> 15
	h *= 0x2C1B3C6D
	h ^= h >> 13
	return h
}

func (b *BDDs) mk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	m := uint32(len(b.table) - 1)
	i := hash3(uint32(v), uint32(lo), uint32(hi)) & m
	for b.table[i] != 0 {
		n := &b.nodes[b.table[i]]
		if n.v == v && n.lo == lo && n.hi == hi {
			return BDD(b.table[i])
		}
		i = (i + 1) & m
	}
	b.nodes = append(b.nodes, bddNode{v, lo, hi})
	r := int32(len(b.nodes) - 1)
	b.table[i] = r
	if len(b.nodes)*2 > len(b.table) {
		nt := make([]int32, len(b.table)*2)
		m := uint32(len(nt) - 1)
		for j := 2; j < len(b.nodes); j++ {
			n := &b.nodes[j]
			i := hash3(uint32(n.v), uint32(n.lo), uint32(n.hi)) & m
			for nt[i] != 0 {
				i = (i + 1) & m
			}
			nt[i] = int32(j)
		}
		b.table = nt
	}
	return BDD(r)
}

func bvar(v int32) BDD { return bd.mk(v, F, T) }

func ite(f, g, h BDD) BDD {
	if f == T {
		return g
	}
	if f == F {
		return h
	}
	if g == h {
		return g
	}
	if g == T && h == F {
		return f
	}
	slot := hash3(uint32(f), uint32(g), uint32(h)) & (1<<iteBits - 1)
	if e := &bd.ite[slot]; e.f == f && e.g == g && e.h == h {
		return e.r
	}
	v := bd.nodes[f].v
	if w := bd.nodes[g].v; w < v {
		v = w
	}
	if w := bd.nodes[h].v; w < v {
		v = w
	}
	cof := func(x BDD, hi bool) BDD {
		n := bd.nodes[x]
		if n.v != v {
			return x
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	r := bd.mk(v, ite(cof(f, false), cof(g, false), cof(h, false)), ite(cof(f, true), cof(g, true), cof(h, true)))
	bd.ite[slot] = iteEnt{f, g, h, r}
	return r
}

func and(xs ...BDD) BDD {
	r := T
	for _, x := range xs {
		r = ite(r, x, F)
		if r == F {
			return F
		}
	}
	return r
}
func or(xs ...BDD) BDD {
	r := F
	for _, x := range xs {
		r = ite(r, T, x)
		if r == T {
			return T
		}
	}
	return r
}
func not(x BDD) BDD     { return ite(x, F, T) }
func xor(a, b BDD) BDD  { return ite(a, not(b), b) }
func iff(a, b BDD) BDD  { return ite(a, b, not(b)) }
func diff(a, b BDD) BDD { return ite(b, F, a) }

// restrict simplifies f assuming c holds (Coudert–Madre).
func restrict(f, c BDD) BDD {
	if c == T || f == T || f == F {
		return f
	}
	if c == F {
		return F
	}
	if f == c {
		return T
	}
	slot := hash3(uint32(f), uint32(c), 7) & (1<<iteBits - 1)
	if e := &bd.rst[slot]; e.f == f && e.c == c {
		return e.r
	}
	nf, nc := bd.nodes[f], bd.nodes[c]
	var r BDD
	switch {
	case nc.v < nf.v:
		r = restrict(f, or(nc.lo, nc.hi))
	case nc.v > nf.v:
		r = bd.mk(nf.v, restrict(nf.lo, c), restrict(nf.hi, c))
	default:
		if nc.lo == F {
			r = restrict(nf.hi, nc.hi)
		} else if nc.hi == F {
			r = restrict(nf.lo, nc.lo)
		} else {
			r = bd.mk(nf.v, restrict(nf.lo, nc.lo), restrict(nf.hi, nc.hi))
		}
	}
	bd.rst[slot] = rstEnt{f, c, r}
	return r
}

func support(f BDD) []int32 {
	if s, ok := bd.supp[f]; ok {
		return s
	}
	seen := map[BDD]bool{}
	vs := map[int32]bool{}
	var walk func(BDD)
	walk = func(x BDD) {
		if x <= T || seen[x] {
			return
		}
		seen[x] = true
		n := bd.nodes[x]
		vs[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sortInt32(out)
	bd.supp[f] = out
	return out
}

func sortInt32(a []int32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// subst rebuilds f with every variable v replaced by m(v).
func substBDD(f BDD, m func(int32) BDD) BDD {
	memo := map[BDD]BDD{}
	var walk func(BDD) BDD
	walk = func(x BDD) BDD {
		if x <= T {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := bd.nodes[x]
		r := ite(m(n.v), walk(n.hi), walk(n.lo))
		memo[x] = r
		return r
	}
	return walk(f)
}

// exists quantifies the variables selected by q out of f.
func exists(f BDD, q func(int32) bool) BDD {
	memo := map[BDD]BDD{}
	var walk func(BDD) BDD
	walk = func(x BDD) BDD {
		if x <= T {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := bd.nodes[x]
		lo, hi := walk(n.lo), walk(n.hi)
		var r BDD
		if q(n.v) {
			r = or(lo, hi)
		} else {
			r = ite(bvar(n.v), hi, lo)
		}
		memo[x] = r
		return r
	}
	return walk(f)
}

// sat decides whether g is satisfiable together with the theory axioms of
// the atoms it mentions (range, disequality and ordering facts).
func sat(g BDD) bool {
	if g == F {
		return false
	}
	if g == T {
		return true
	}
	if r, ok := bd.satMemo[g]; ok {
		return r
	}
	r := and(g, axioms(support(g))) != F
	bd.satMemo[g] = r
	return r
}

func implies(g, h BDD) bool { return !sat(diff(g, h)) }
func equivUnder(ctx, a, b BDD) bool {
	return !sat(and(ctx, xor(a, b)))
}
