package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The GUI on top of an abstract control: what counting and getting items mean
// is checked elsewhere (C15); here they are functions of their arguments.

type guiModel struct {
	runs []*Run
	ctl  *Term // the wired control
	inv  []*invariant
	vecs map[*Run][]map[string]bool
	bad  string
}

var ghostOpen = mkSymLazy("!open")

func mkSymLazy(n string) func() *Term {
	return func() *Term { return mkSym(n, types.NewPointer(types.Typ[types.Bool])) }
}

// lift: a term for every combination of argument alternatives.
func liftCall(name string, typ types.Type, args []Val, pc BDD) Val {
	out := []Case{{T, mkT(OCall, name, 0, nil, typ)}}
	for _, a := range args {
		var next []Case
		for _, o := range out {
			for _, c := range a {
				g := and(o.g, c.g)
				if !sat(and(g, pc)) {
					continue
				}
				next = append(next, Case{g, mkT(OCall, name, 0, nil, typ, append(append([]*Term{}, o.t.args...), c.t)...)})
			}
		}
		out = next
	}
	return mkVal(out, pc)
}

func (w *World) guiStub(ctl types.Type) func(fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []Val, st State) ([]Val, State, bool) {
	e := w.e
	return func(fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []Val, st State) ([]Val, State, bool) {
		rc := fn.Signature.Recv()
		if rc == nil || !types.Identical(derefType(rc.Type()), derefType(ctl)) || len(args) == 0 {
			return nil, st, false
		}
		p := w.e.pkg("1pass-core/port/in")
		if obj, _, _ := types.LookupFieldOrMethod(p.Type("GuiControl").Type(), false, p.Pkg, fn.Name()); obj == nil {
			return nil, st, false
		}
		res := fn.Signature.Results()
		var rs []Val
		switch fn.Name() {
		case "IsVaultUnlocked":
			v, ok := st.heap.get(ghostOpen())
			if !ok {
				v = one(mkSym("open", types.Typ[types.Bool]))
			}
			rs = []Val{v}
		case "LockVault":
			st.heap = st.heap.set(ghostOpen(), one(mkBool(F)))
		case "Unlock":
			er := mkT(OCall, "ctl.Unlock", 0, nil, errType, valTerms(args[1:])...)
			rs = []Val{one(er)}
			old, ok := st.heap.get(ghostOpen())
			if !ok {
				old = one(mkSym("open", types.Typ[types.Bool]))
			}
			good := eqB(er, mkNil())
			cs := []Case{{good, mkBool(T)}}
			for _, o := range old {
				cs = append(cs, Case{and(not(good), o.g), o.t})
			}
			st.heap = st.heap.set(ghostOpen(), mkVal(cs, st.pc))
		default:
			if res.Len() == 1 {
				rs = []Val{liftCall("ctl."+fn.Name(), res.At(0).Type(), args[1:], st.pc)}
			} else if res.Len() > 1 {
				t := mkT(OCall, "ctl."+fn.Name(), 0, nil, nil, valTerms(args[1:])...)
				for i := 0; i < res.Len(); i++ {
					rs = append(rs, one(mkT(OProj, fmt.Sprint(i), 0, nil, res.At(i).Type(), t)))
				}
			}
		}
		var rt *Term
		if len(rs) > 0 {
			rt = rs[0].collapse()
		}
		e.emit(fr, "port", fn.Name(), ins, posOf(ins), st, args[1:], rt)
		return rs, st, true
	}
}

func valTerms(vs []Val) []*Term {
	var ts []*Term
	for _, v := range vs {
		ts = append(ts, v.collapse())
	}
	return ts
}

// guiModel runs every handler and layout on top of the abstract control.
func (w *World) guiModel() *guiModel {
	if w.gm != nil {
		return w.gm
	}
	m := &guiModel{vecs: map[*Run][]map[string]bool{}}
	w.gm = m
	m.ctl = w.guiControl()
	if m.ctl == nil {
		m.bad = "no GUI control is wired"
		return m
	}
	e := w.e
	e.stub = w.guiStub(m.ctl.aux.(types.Type))
	defer func() { e.stub = nil }()
	for _, r := range w.gui {
		r := r
		evs, rs, out := e.record(func() ([]Val, State) {
			return e.callValue(r.handler, r.args, State{w.guiPC, w.guiHeap}, "model:"+r.name)
		})
		n := *r
		n.events, n.res, n.out, n.accesses, n.pre = evs, rs, out, nil, State{w.guiPC, w.guiHeap}
		m.runs = append(m.runs, &n)
	}
	return m
}

func (m *guiModel) run(name string) *Run {
	for _, r := range m.runs {
		if r.name == name {
			return r
		}
	}
	return nil
}

// starts are the sets of views that may exist when a run starts.
func (w *World) starts(r *Run) []map[string]bool {
	seen := map[string]bool{}
	var out []map[string]bool
	add := func(s uiState) {
		v := map[string]bool{}
		var ks []string
		for n, l := range s.views {
			if l != vAbsent {
				v[n] = true
				ks = append(ks, n)
			}
		}
		sort.Strings(ks)
		if k := strings.Join(ks, ","); !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	um := w.machine()
	for _, s := range um.states {
		if r.kind != "handler" || r.view == "" || r.view == s.cur {
			add(s)
		}
	}
	if r.kind == "layout" {
		add(uiState{})
		for _, t := range um.trans {
			add(t.mid)
		}
		// while the layouts run one after another
		for _, s := range um.init {
			add(s)
		}
		views := map[string]bool{}
		for _, l := range um.layouts {
			for _, ev := range l.events {
				if ev.name == gocuiGui+"SetView" {
					if n, ok := isStrConst(ev.arg(1)); ok {
						views[n] = true
						v := map[string]int{}
						for k := range views {
							v[k] = vClean
						}
						add(uiState{views: v})
					}
				}
			}
		}
	}
	return out
}

// presence: what a run does to the views, when it starts with those in have.
// facts: what that says about the outcome of its calls.
func (w *World) presence(r *Run, have map[string]bool) (after map[string]BDD, facts BDD) {
	after = map[string]BDD{}
	for v := range have {
		after[v] = T
	}
	facts = T
	for _, ev := range r.events {
		if ev.kind != "call" || ev.async || !strings.HasPrefix(ev.name, gocuiGui) {
			continue
		}
		op := strings.TrimPrefix(ev.name, gocuiGui)
		switch op {
		case "SetView", "View", "SetCurrentView", "DeleteView":
		default:
			continue
		}
		vn, ok := isStrConst(ev.arg(1))
		if !ok {
			continue
		}
		if _, ok := after[vn]; !ok {
			after[vn] = F
		}
		if ev.res != nil {
			er := ev.res
			if op != "DeleteView" {
				er = mkT(OProj, "1", 0, nil, errType, ev.res)
			}
			facts = and(facts, or(not(ev.pc), iff(eqB(er, mkNil()), after[vn])))
			facts = and(facts, or(not(and(ev.pc, not(after[vn]))), eqB(er, mkSym("!github.com/jroimartin/gocui.ErrUnknownView", errType))))
		}
		switch op {
		case "SetView":
			after[vn] = or(after[vn], ev.pc)
		case "DeleteView":
			after[vn] = diff(after[vn], ev.pc)
		}
	}
	return
}

// ---- invariants of the widget state, found by elimination

type invariant struct {
	view string // holds while this view exists ("-view": does not exist, "closed": the vault is locked, "" always)
	what string
	locs []*Term
	f    func(v []Val) BDD
}

func (iv *invariant) String() string {
	s := iv.what
	if iv.view != "" {
		s += " while " + iv.view
	}
	return s
}

// when is the condition of an invariant, for the views that exist.
func (w *World) when(iv *invariant, views map[string]BDD, h *Heap) BDD {
	switch {
	case iv.view == "":
		return T
	case iv.view == "closed":
		v, ok := h.get(ghostOpen())
		if !ok {
			v = one(mkSym("open", types.Typ[types.Bool]))
		}
		return not(valBool(v))
	case iv.view[0] == '-':
		if p, ok := views[iv.view[1:]]; ok {
			return not(p)
		}
		return T
	}
	if p, ok := views[iv.view]; ok {
		return p
	}
	return F
}

func asBDD(have map[string]bool) map[string]BDD {
	m := map[string]BDD{}
	for v := range have {
		m[v] = T
	}
	return m
}

func valP1(v Val, p func(*Term) BDD) BDD {
	g := T
	for _, c := range v {
		g = and(g, or(not(c.g), p(c.t)))
	}
	return g
}

func valP2(a, b Val, p func(x, y *Term) BDD) BDD {
	g := T
	for _, c := range a {
		for _, d := range b {
			h := and(c.g, d.g)
			if h == F {
				continue
			}
			g = and(g, or(not(h), p(c.t, d.t)))
		}
	}
	return g
}

// at is the value of a location after a run.
func (w *World) at(h *Heap, loc *Term) Val {
	if loc == ghostOpen() {
		if v, ok := h.get(loc); ok {
			return v
		}
		return one(mkSym("open", types.Typ[types.Bool]))
	}
	if v, ok := h.get(loc); ok && len(v) > 0 {
		return v
	}
	if s := w.hvSym(loc); s != nil {
		if v := w.e.loadLoc(h, loc, s.typ); len(v) > 0 {
			return v
		}
		return one(s)
	}
	return nil
}

// widget: an object that only the handlers themselves change.
func (w *World) widget(o *Term) bool {
	o = rootObj(o)
	if o.typ == nil {
		return false
	}
	n := namedOf(o.typ)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix+"/1pass-app/")
}

func (w *World) guiInvariants() []*invariant {
	m := w.guiModel()
	if m.inv != nil || m.bad != "" {
		return m.inv
	}
	var ints, lists []*Term
	for _, loc := range w.mods {
		s := w.hvSym(loc)
		if s == nil || s.typ == nil || loc.op != OFieldAddr || !w.widget(loc.args[0]) {
			continue
		}
		switch u := s.typ.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Int {
				ints = append(ints, loc)
			}
		case *types.Slice:
			lists = append(lists, loc)
		}
	}
	views := map[string]bool{"": true, "closed": true}
	for _, r := range m.runs {
		for _, ev := range r.events {
			if ev.name == gocuiGui+"SetView" {
				if n, ok := isStrConst(ev.arg(1)); ok {
					views[n], views["-"+n] = true, true
				}
			}
		}
	}
	var vs []string
	for v := range views {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	var cand []*invariant
	for _, v := range vs {
		if v != "closed" {
			cand = append(cand, &invariant{v, "locked", []*Term{ghostOpen()}, func(x []Val) BDD { return not(valBool(x[0])) }})
		}
		for _, l := range lists {
			cand = append(cand, &invariant{v, "len(" + l.str(3) + ") == 0", []*Term{l}, func(x []Val) BDD {
				return valP1(x[0], func(t *Term) BDD { return eq0(lenT(t)) })
			}})
		}
		for _, i := range ints {
			cand = append(cand, &invariant{v, i.str(3) + " >= -1", []*Term{i}, func(x []Val) BDD {
				return valP1(x[0], func(t *Term) BDD { return ge0(addT(t, mkInt(1))) })
			}}, &invariant{v, i.str(3) + " >= 0", []*Term{i}, func(x []Val) BDD {
				return valP1(x[0], func(t *Term) BDD { return ge0(t) })
			}}, &invariant{v, i.str(3) + " == -1", []*Term{i}, func(x []Val) BDD {
				return valP1(x[0], func(t *Term) BDD { return eq0(addT(t, mkInt(1))) })
			}})
			for _, l := range lists {
				if l.args[0] != i.args[0] {
					continue
				}
				cand = append(cand, &invariant{v, i.str(3) + " < len(" + l.str(3) + ")", []*Term{i, l}, func(x []Val) BDD {
					return valP2(x[0], x[1], func(a, b *Term) BDD { return or(eq0(addT(a, mkInt(1))), ge0(subT(subT(lenT(b), a), mkInt(1)))) })
				}})
			}
		}
	}
	vals := func(iv *invariant, h *Heap) []Val {
		var out []Val
		for _, l := range iv.locs {
			out = append(out, w.at(h, l))
		}
		return out
	}
	// at the start of the main loop no view exists and the vault is locked
	var live []*invariant
	h0 := w.mainLp.heap.set(ghostOpen(), one(mkBool(F)))
	for _, iv := range cand {
		if !sat(and(w.guiPC, w.when(iv, nil, h0), not(iv.f(vals(iv, h0))))) {
			live = append(live, iv)
		}
	}
	type step struct {
		r     *Run
		have  map[string]bool
		after map[string]BDD
		cond  BDD
	}
	var steps []step
	for _, r := range m.runs {
		for _, have := range w.starts(r) {
			after, facts := w.presence(r, have)
			c := and(nilReturn(r), facts)
			if sat(c) {
				steps = append(steps, step{r, have, after, c})
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, s := range steps {
			pre := T
			for _, iv := range live {
				pre = and(pre, or(not(w.when(iv, asBDD(s.have), w.guiHeap)), iv.f(vals(iv, w.guiHeap))))
			}
			var keep []*invariant
			for _, iv := range live {
				c := and(s.cond, pre, w.when(iv, s.after, s.r.out.heap))
				if c == F || implies(c, iv.f(vals(iv, s.r.out.heap))) {
					keep = append(keep, iv)
				} else {
					changed = true
				}
			}
			live = keep
		}
	}
	m.inv = live
	return live
}

// holds is what is known of the widget state when a run starts with the views
// in have.
func (w *World) holds(have map[string]bool) BDD {
	g := T
	for _, iv := range w.guiInvariants() {
		var vs []Val
		for _, l := range iv.locs {
			vs = append(vs, w.at(w.guiHeap, l))
		}
		g = and(g, or(not(w.when(iv, asBDD(have), w.guiHeap)), iv.f(vs)))
	}
	return g
}
