package main

import (
	"fmt"
	"sort"
	"strconv"
)

// Abstract evaluation of extracted guards: terms are evaluated over classes of
// inputs supplied by a hook, loops are stepped through their summaries (the
// condition to go on and the next value of every loop variable). Whatever the
// hook does not decide stays undecided and both outcomes are followed.

type aval interface{} // int64, string, []aval, nilV, badV or nil (undecided)

type nilV struct{}
type badV struct{ s string } // some non-nil value
type absent struct{}         // element outside a list

type absEnv struct {
	w    *World
	hook func(t *Term, e *absEnv) (aval, bool)
	k    map[int64]int64
	mu   map[*Term]aval
}

func (e *absEnv) clone() *absEnv {
	n := &absEnv{w: e.w, hook: e.hook, k: map[int64]int64{}, mu: map[*Term]aval{}}
	for a, b := range e.k {
		n.k[a] = b
	}
	for a, b := range e.mu {
		n.mu[a] = b
	}
	return n
}

func (e *absEnv) key() string {
	var s []string
	for a, b := range e.k {
		s = append(s, fmt.Sprintf("K%d=%d", a, b))
	}
	for a, b := range e.mu {
		s = append(s, fmt.Sprintf("m%d=%v", a.id, b))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func (e *absEnv) eval(t *Term) aval {
	if t == nil {
		return nil
	}
	if v, ok := e.hook(t, e); ok {
		return v
	}
	switch t.op {
	case OConst:
		if n, ok := isIntConst(t); ok {
			return n
		}
		if s, ok := isStrConst(t); ok {
			return s
		}
		if t.s == "b:true" || t.s == "b:false" {
			return t.s == "b:true"
		}
	case ONil:
		return nilV{}
	case OSym:
		if t.s == "!empty" {
			return []aval{}
		}
	case OK:
		if n, ok := e.k[t.k]; ok {
			return n
		}
	case OMu:
		if v, ok := e.mu[t]; ok {
			return v
		}
	case OLin:
		s := t.k
		for i, a := range t.args {
			n, ok := e.eval(a).(int64)
			if !ok {
				return nil
			}
			s += n * t.coef[i]
		}
		return s
	case OLen:
		switch l := e.eval(t.args[0]).(type) {
		case []aval:
			return int64(len(l))
		case nilV:
			return int64(0)
		}
	case OElem:
		l, ok := e.eval(t.args[0]).([]aval)
		n, ok2 := e.eval(t.args[1]).(int64)
		if ok && ok2 {
			if n < 0 || n >= int64(len(l)) {
				return absent{}
			}
			return l[n]
		}
	case OApp, OTuple:
		var l []aval
		i := 0
		if t.op == OApp {
			switch b := e.eval(t.args[0]).(type) {
			case []aval:
				l = append(l, b...)
			case nilV:
			default:
				return nil
			}
			i = 1
		}
		for ; i < len(t.args); i++ {
			a := t.args[i]
			if a.op == OSpread {
				m, ok := e.eval(a.args[0]).([]aval)
				if !ok {
					return nil
				}
				l = append(l, m...)
				continue
			}
			l = append(l, e.eval(a))
		}
		return l
	case OSlice:
		l, ok := e.eval(t.args[0]).([]aval)
		lo, hi := aval(int64(0)), aval(int64(len(l)))
		if t.args[1] != nil {
			lo = e.eval(t.args[1])
		}
		if t.args[2] != nil {
			hi = e.eval(t.args[2])
		}
		a, ok1 := lo.(int64)
		b, ok2 := hi.(int64)
		if ok && ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(l)) {
			return append([]aval{}, l[a:b]...)
		}
	case OBool:
		g := e.guard(BDD(t.k))
		if g == T {
			return true
		}
		if g == F {
			return false
		}
	case OCall:
		if t.s == "strconv.ParseInt" || t.s == "strconv.ParseUint" {
			switch s := e.eval(t.args[0]).(type) {
			case string:
				base, bits := int64(10), int64(64)
				if len(t.args) == 3 {
					var ok1, ok2 bool
					base, ok1 = isIntConst(t.args[1])
					bits, ok2 = isIntConst(t.args[2])
					if !ok1 || !ok2 {
						return nil
					}
				}
				var n int64
				var err error
				if t.s == "strconv.ParseInt" {
					n, err = strconv.ParseInt(s, int(base), int(bits))
				} else {
					var u uint64
					u, err = strconv.ParseUint(s, int(base), int(bits))
					if u > 1<<62 {
						return nil
					}
					n = int64(u)
				}
				if err != nil {
					return []aval{int64(0), badV{"err"}}
				}
				return []aval{n, nilV{}}
			case absent:
				return nil
			}
		}
	case OProj:
		if l, ok := e.eval(t.args[0]).([]aval); ok && len(l) > 0 {
			if t.s == "err" {
				return l[len(l)-1]
			}
			if n, err := strconv.Atoi(t.s); err == nil && n < len(l) {
				return l[n]
			}
		}
	case OEq:
		if len(t.args) == 1 {
			if n, ok := e.eval(t.args[0]).(int64); ok {
				return n == 0
			}
			return nil
		}
		a, b := e.eval(t.args[0]), e.eval(t.args[1])
		if a == nil || b == nil {
			return nil
		}
		_, n1 := a.(nilV)
		_, n2 := b.(nilV)
		if n1 || n2 {
			if _, ok := a.(absent); ok {
				return nil
			}
			if _, ok := b.(absent); ok {
				return nil
			}
			if l, ok := a.([]aval); ok && len(l) == 0 {
				return nil
			}
			if l, ok := b.([]aval); ok && len(l) == 0 {
				return nil
			}
			return n1 == n2
		}
		switch x := a.(type) {
		case int64:
			if y, ok := b.(int64); ok {
				return x == y
			}
		case bool:
			if y, ok := b.(bool); ok {
				return x == y
			}
		}
	case OGe0:
		if n, ok := e.eval(t.args[0]).(int64); ok {
			return n >= 0
		}
	case OLt:
		a, ok1 := e.eval(t.args[0]).(int64)
		b, ok2 := e.eval(t.args[1]).(int64)
		if ok1 && ok2 {
			return a < b
		}
	}
	return nil
}

// guard replaces the decided atoms of a guard.
func (e *absEnv) guard(g BDD) BDD {
	if g == T || g == F {
		return g
	}
	return substBDD(g, func(v int32) BDD {
		if b, ok := e.eval(atoms[v]).(bool); ok {
			return b2(b)
		}
		return bvar(v)
	})
}

// muEnv lists the values a joined value can have.
func (e *absEnv) vals(v Val, pc BDD) []aval {
	var out []aval
	seen := map[string]bool{}
	for _, c := range v {
		if e.guard(and(c.g, pc)) == F || e.guard(c.g) == F {
			continue
		}
		x := e.eval(c.t)
		k := fmt.Sprintf("%T%v", x, x)
		if !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	return out
}

// exitsOf steps a loop from the given environment and returns the environments
// in which it can be left.
func (e *absEnv) exitsOf(li *LoopInfo, limit int) ([]*absEnv, bool) {
	start := e.clone()
	start.k[li.id] = 0
	var mus []*Term
	for m := range li.vars {
		mus = append(mus, m)
	}
	sortTerms(mus)
	cur := []*absEnv{start}
	for _, m := range mus {
		var next []*absEnv
		for _, c := range cur {
			vs := e.vals(li.vars[m].init, T)
			if len(vs) == 0 {
				vs = []aval{nil}
			}
			for _, v := range vs {
				n := c.clone()
				n.mu[m] = v
				next = append(next, n)
			}
		}
		cur = next
		if len(cur) > limit {
			return nil, false
		}
	}
	var outs []*absEnv
	seen := map[string]bool{}
	for len(cur) > 0 {
		var next []*absEnv
		for _, c := range cur {
			if k := c.key(); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			if len(seen) > limit || c.k[li.id] > 40 {
				return outs, false
			}
			g := c.guard(li.back)
			if g != T {
				outs = append(outs, c)
			}
			if g == F {
				continue
			}
			ns := []*absEnv{c.clone()}
			ns[0].k[li.id]++
			for _, m := range mus {
				var mm []*absEnv
				vs := c.vals(li.vars[m].back, li.back)
				if len(vs) == 0 {
					vs = []aval{nil}
				}
				for _, n := range ns {
					for _, v := range vs {
						x := n.clone()
						x.mu[m] = v
						mm = append(mm, x)
					}
				}
				ns = mm
			}
			next = append(next, ns...)
		}
		cur = next
	}
	return outs, true
}

// loopIDs lists the loops whose variables a guard mentions, outermost first.
func (w *World) guardLoops(g BDD) []*LoopInfo {
	ids := map[int64]bool{}
	seen := map[*Term]bool{}
	gseen := map[BDD]bool{}
	var walk func(t *Term)
	var walkG func(g BDD)
	walkG = func(g BDD) {
		if g == T || g == F || gseen[g] {
			return
		}
		gseen[g] = true
		for _, v := range support(g) {
			walk(atoms[v])
		}
	}
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OK, OMu:
			if li := w.e.loops[t.k]; li != nil && !ids[t.k] {
				ids[t.k] = true
				walkG(li.back)
				for _, lv := range li.vars {
					for _, v := range []Val{lv.init, lv.back} {
						for _, c := range v {
							walk(c.t)
							walkG(c.g)
						}
					}
				}
			}
		case OBool:
			walkG(BDD(t.k))
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walkG(g)
	var l []int64
	for id := range ids {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	var out []*LoopInfo
	for _, id := range l {
		out = append(out, w.e.loops[id])
	}
	return out
}
