package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The GUI as a finite abstract transition system. A state holds which views
// exist, the most sensitive content drawn in each, the focused view and
// whether the tracked program locations are nil. Handlers and layouts move
// between states; whether a gocui call fails is decided by the state.

const (
	vAbsent = iota
	vClean
	vItem
	vSecret
)

type uiState struct {
	views map[string]int
	cur   string
	nils  map[*Term]bool // tracked location -> is nil
}

func (s uiState) key() string {
	var p []string
	for v, l := range s.views {
		if l != vAbsent {
			p = append(p, fmt.Sprintf("%s=%d", v, l))
		}
	}
	for l, b := range s.nils {
		p = append(p, fmt.Sprintf("%d:%v", l.id, b))
	}
	sort.Strings(p)
	return s.cur + "|" + strings.Join(p, ",")
}

func (s uiState) clone() uiState {
	n := uiState{map[string]int{}, s.cur, map[*Term]bool{}}
	for k, v := range s.views {
		n.views[k] = v
	}
	for k, v := range s.nils {
		n.nils[k] = v
	}
	return n
}

func (s uiState) desc() string {
	var p []string
	for v, l := range s.views {
		if l != vAbsent {
			p = append(p, v+":"+[]string{"absent", "plain", "vault content", "secrets"}[l])
		}
	}
	sort.Strings(p)
	return "focus " + s.cur + ", views " + strings.Join(p, " ")
}

type uiTrans struct {
	from, mid, to uiState // before, after the handler, after the layouts
	run           *Run
}

type uiMachine struct {
	w       *World
	tracked []*Term
	keysLoc *Term
	states  []uiState
	trans   []uiTrans
	init    []uiState
	bad     []string
	seenBad map[string]bool
	layouts []*Run
}

func (m *uiMachine) problem(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if !m.seenBad[s] {
		m.seenBad[s] = true
		m.bad = append(m.bad, s)
	}
}

// nilReturn is the condition under which a handler reports no error.
func nilReturn(r *Run) BDD {
	if len(r.res) == 0 {
		return r.out.pc
	}
	g := F
	for _, c := range r.res[0] {
		g = or(g, and(c.g, eqB(c.t, mkNil())))
	}
	return and(g, r.out.pc)
}

func (w *World) machine() *uiMachine {
	if w.ui != nil {
		return w.ui
	}
	m := &uiMachine{w: w, seenBad: map[string]bool{}}
	w.ui = m
	if w.mainLp == nil {
		m.problem("no GUI main loop")
		return m
	}
	for s, loc := range w.hv {
		if s.typ == nil {
			continue
		}
		if _, ok := s.typ.Underlying().(*types.Pointer); ok {
			m.tracked = append(m.tracked, loc)
		}
	}
	sortTerms(m.tracked)
	// the location whose content says that the vault is open
	for _, loc := range m.tracked {
		if w.taint(w.hvSym(loc))&tKEY != 0 {
			if m.keysLoc != nil {
				m.problem("more than one location holds vault keys")
			}
			m.keysLoc = loc
		}
	}
	if m.keysLoc == nil {
		m.problem("no location holds the vault keys")
	}
	for _, r := range w.gui {
		if r.kind == "layout" {
			m.layouts = append(m.layouts, r)
		}
	}
	s0 := uiState{map[string]int{}, "", map[*Term]bool{}}
	for _, loc := range m.tracked {
		v, ok := w.mainLp.heap.get(loc)
		isNil := true
		if ok {
			for _, c := range v {
				if c.t.op != ONil {
					isNil = false
				}
			}
		} else if lv := w.e.loadLoc(w.mainLp.heap, loc, w.hvSym(loc).typ); lv.collapse().op != ONil {
			isNil = false
		}
		s0.nils[loc] = isNil
	}
	seen := map[string]bool{}
	var work []uiState
	push := func(s uiState) {
		if !seen[s.key()] {
			seen[s.key()] = true
			work = append(work, s)
			m.states = append(m.states, s)
		}
	}
	for _, s := range m.settle([]uiState{s0}) {
		m.init = append(m.init, s)
		push(s)
	}
	for i := 0; i < len(work) && i < 4000; i++ {
		s := work[i]
		for _, r := range w.gui {
			if r.kind != "handler" || r.view != "" && r.view != s.cur {
				continue
			}
			for _, mid := range m.step(r, s) {
				push(mid) // gocui handles every pending key before it lays out
				for _, to := range m.settle([]uiState{mid}) {
					m.trans = append(m.trans, uiTrans{s, mid, to, r})
					push(to)
				}
			}
		}
	}
	return m
}

func (w *World) hvSym(loc *Term) *Term {
	for s, l := range w.hv {
		if l == loc {
			return s
		}
	}
	return nil
}

// settle runs every layout once, in order.
func (m *uiMachine) settle(in []uiState) []uiState {
	cur := in
	for _, l := range m.layouts {
		next := map[string]uiState{}
		for _, s := range cur {
			for _, t := range m.step(l, s) {
				next[t.key()] = t
			}
		}
		var ks []string
		for k := range next {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cur = nil
		for _, k := range ks {
			cur = append(cur, next[k])
		}
	}
	return cur
}

// outsideLoops is the guard of an event without what concerns single
// iterations of the loops around it.
func outsideLoops(ev *Event) BDD {
	if len(ev.loops) == 0 {
		return ev.pc
	}
	in := map[int64]bool{}
	for _, l := range ev.loops {
		in[l] = true
	}
	return exists(ev.pc, func(v int32) bool {
		return anyTerm(atoms[v], func(t *Term) bool { return (t.op == OK || t.op == OMu) && in[t.k] })
	})
}

type uiWork struct {
	cond BDD
	s    uiState
}

// step applies one handler or layout.
func (m *uiMachine) step(r *Run, s uiState) []uiState {
	w := m.w
	cond := r.pre.pc
	for loc, isNil := range s.nils {
		a := eqB(w.hvSym(loc), mkNil())
		if !isNil {
			a = not(a)
		}
		cond = and(cond, a)
	}
	fin := nilReturn(r)
	cur := []uiWork{{cond, s.clone()}}
	for _, ev := range r.events {
		if ev.kind != "call" && ev.kind != "print" {
			continue
		}
		op := ""
		vn := ""
		switch {
		case ev.kind == "print":
			d := unwrap(ev.arg(0))
			if d.op == OCall && d.s == "!gocui.View" {
				op = "print"
				vn, _ = isStrConst(d.args[0])
			} else if d.op == OSym && d.s == "anyview" {
				op, vn = "print", s.cur
			}
		case strings.HasPrefix(ev.name, gocuiGui):
			op = strings.TrimPrefix(ev.name, gocuiGui)
			switch op {
			case "SetView", "View", "SetCurrentView", "DeleteView":
				ok := false
				vn, ok = isStrConst(ev.arg(1))
				if !ok {
					m.problem("%s: view name is not known: %s", w.e.where(ev.pos, ev.fn), ev.arg(1))
				}
			default:
				op = ""
			}
		case strings.HasPrefix(ev.name, gocuiView):
			op = strings.TrimPrefix(ev.name, gocuiView)
			if op != "Clear" {
				op = ""
				break
			}
			d := ev.arg(0)
			if n := viewName(d); n != nil {
				vn, _ = isStrConst(n)
			} else if d.op == OSym && d.s == "anyview" {
				vn = s.cur
			} else {
				op = ""
			}
		}
		if op == "" {
			continue
		}
		var next []uiWork
		for _, x := range cur {
			hit := and(x.cond, ev.pc)
			if !sat(and(hit, fin)) {
				next = append(next, x)
				continue
			}
			if op == "print" {
				lv := vClean
				tn := w.taintVal(ev.args[1])
				if tn&(tSECRET|tPW|tKEY) != 0 {
					lv = vSecret
				} else if tn&tITEM != 0 {
					lv = vItem
				}
				if x.s.views[vn] != vAbsent && lv > x.s.views[vn] {
					n := x.s.clone()
					n.views[vn] = lv
					// drawn or not drawn: keep both when it is undecided
					if !implies(and(x.cond, fin), ev.pc) {
						next = append(next, x)
						x = uiWork{and(x.cond, outsideLoops(ev)), n}
					} else {
						x.s = n
					}
				}
				next = append(next, x)
				continue
			}
			if !implies(and(x.cond, fin), ev.pc) {
				miss := diff(x.cond, ev.pc)
				if sat(miss) {
					next = append(next, uiWork{miss, x.s})
				}
				x.cond = hit
			}
			n := x.s.clone()
			exists := n.views[vn] != vAbsent
			var errT *Term
			if ev.res != nil {
				errT = ev.res
				if op != "DeleteView" {
					errT = mkT(OProj, "1", 0, nil, errType, ev.res)
				}
			}
			if op != "Clear" && errT != nil {
				g := eqB(errT, mkNil())
				if !exists {
					g = not(g)
				}
				x.cond = and(x.cond, g)
				if !exists {
					x.cond = and(x.cond, eqB(errT, mkSym("!github.com/jroimartin/gocui.ErrUnknownView", errType)))
				}
			}
			switch op {
			case "SetView":
				if !exists {
					n.views[vn] = vClean
				}
			case "DeleteView":
				n.views[vn] = vAbsent
			case "SetCurrentView":
				if exists {
					n.cur = vn
				}
			case "Clear":
				if exists {
					n.views[vn] = vClean
				}
			}
			next = append(next, uiWork{x.cond, n})
		}
		// merge equal states
		idx := map[string]int{}
		var merged []uiWork
		for _, x := range next {
			k := x.s.key()
			if i, ok := idx[k]; ok {
				merged[i].cond = or(merged[i].cond, x.cond)
			} else {
				idx[k] = len(merged)
				merged = append(merged, x)
			}
		}
		cur = merged
	}
	out := map[string]uiState{}
	for _, x := range cur {
		c := and(x.cond, fin)
		if !sat(c) {
			continue
		}
		combos := []uiWork{{c, x.s}}
		for _, loc := range m.tracked {
			isNil := F
			if v, ok := r.out.heap.get(loc); ok && len(v) > 0 {
				for _, cs := range v {
					isNil = or(isNil, and(cs.g, eqB(cs.t, mkNil())))
				}
			} else {
				isNil = eqB(w.hvSym(loc), mkNil())
			}
			var nc []uiWork
			for _, k := range combos {
				if a := and(k.cond, isNil); sat(a) {
					n := k.s.clone()
					n.nils[loc] = true
					nc = append(nc, uiWork{a, n})
				}
				if a := diff(k.cond, isNil); sat(a) {
					n := k.s.clone()
					n.nils[loc] = false
					nc = append(nc, uiWork{a, n})
				}
			}
			combos = nc
		}
		for _, k := range combos {
			out[k.s.key()] = k.s
		}
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var res []uiState
	for _, k := range ks {
		res = append(res, out[k])
	}
	return res
}

func (m *uiMachine) unlocked(s uiState) bool {
	return m.keysLoc != nil && !s.nils[m.keysLoc]
}
