package main

import "go/types"

// Provenance: where a value read from a collection or from an object built in
// a loop was put there.

type tracer struct {
	w     *World
	heaps []*Heap
	memo  map[*Term][]*Term
	cur   map[*Term][]*Term
	prev  map[*Term][]*Term
}

func (w *World) tracer() *tracer {
	if w.tr == nil {
		w.tr = &tracer{w: w, memo: map[*Term][]*Term{}}
		for _, r := range w.all() {
			w.tr.heaps = append(w.tr.heaps, r.out.heap)
			if n := len(r.events); n > 0 {
				w.tr.heaps = append(w.tr.heaps, r.events[n-1].heap)
			}
		}
	}
	return w.tr
}

func (w *World) loopVarOf(mu *Term) *loopVar {
	if li := w.e.loops[mu.k]; li != nil {
		return li.vars[mu]
	}
	return nil
}

// elems lists the element terms a sequence was built from.
func (tr *tracer) elems(t *Term, seen map[*Term]bool, out map[*Term]bool, idx *Term, typ types.Type) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case ONil:
	case OApp:
		tr.elems(t.args[0], seen, out, idx, typ)
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				tr.elems(a.args[0], seen, out, idx, typ)
			} else {
				out[a] = true
			}
		}
	case OTuple:
		for _, a := range t.args {
			out[a] = true
		}
	case OSlice:
		tr.elems(t.args[0], seen, out, idx, typ)
	case OJoin:
		for _, a := range t.args {
			tr.elems(a, seen, out, idx, typ)
		}
	case OSym:
		if vs := tr.hvVals(t); vs != nil {
			for _, v := range vs {
				tr.elems(v, seen, out, idx, typ)
			}
		} else if t.s != "!empty" {
			out[mkT(OElem, "", 0, nil, typ, t, idx)] = true
		}
	case OMu:
		lv := tr.w.loopVarOf(t)
		if lv == nil {
			out[mkT(OElem, "", 0, nil, typ, t, idx)] = true
			return
		}
		for _, v := range []Val{lv.init, lv.back} {
			for _, c := range v {
				tr.elems(c.t, seen, out, idx, typ)
			}
		}
	case OCall:
		if t.s == "sorted" || t.s == "perm" {
			tr.elems(t.args[0], seen, out, idx, typ)
			return
		}
		out[mkT(OElem, "", 0, nil, typ, t, idx)] = true
	case OAlloc:
		n := len(out)
		for _, h := range append(tr.loopHeaps(t), tr.heaps...) {
			h.each(func(k *Term, v Val) {
				if k.op == OIdxAddr && k.args[0] == t {
					for _, c := range v {
						out[c.t] = true
					}
				}
				if k.op == OContent && k.args[0] == t && k.s == "" {
					for _, c := range v {
						tr.elems(c.t, seen, out, idx, typ)
					}
				}
			})
		}
		if len(out) == n {
			out[mkT(OElem, "", 0, nil, typ, t, idx)] = true
		}
	default:
		out[mkT(OElem, "", 0, nil, typ, t, idx)] = true
	}
}

func (tr *tracer) loopHeaps(t *Term) []*Heap {
	var hs []*Heap
	for i := len(t.args) - 1; i >= 0; i-- {
		if t.args[i].op == OK {
			if li := tr.w.e.loops[t.args[i].k]; li != nil && li.backHp != nil {
				hs = append(hs, li.backHp)
			}
		}
	}
	return hs
}

// sources returns the terms a value may have come from, looking through
// collections, loop variables and objects built in loops.
func (tr *tracer) sources(t *Term) []*Term {
	if r, ok := tr.memo[t]; ok {
		return r
	}
	if tr.cur == nil {
		tr.prev = map[*Term][]*Term{}
		for {
			tr.cur = map[*Term][]*Term{}
			tr.sources(t)
			same := true
			for k, x := range tr.cur {
				if len(tr.prev[k]) != len(x) {
					same = false
				}
			}
			tr.prev = tr.cur
			if same {
				break
			}
		}
		for k, x := range tr.prev {
			tr.memo[k] = x
		}
		tr.cur, tr.prev = nil, nil
		return tr.memo[t]
	}
	if r, ok := tr.cur[t]; ok {
		return r
	}
	tr.cur[t] = tr.prev[t]
	set := map[*Term]bool{}
	for _, x := range tr.prev[t] {
		set[x] = true
	}
	add := func(ts []*Term) {
		for _, x := range ts {
			set[x] = true
		}
	}
	switch t.op {
	case OElem:
		es := map[*Term]bool{}
		for _, b := range tr.sources(t.args[0]) {
			tr.elems(b, map[*Term]bool{}, es, t.args[1], t.typ)
		}
		for x := range es {
			if x == t {
				set[t] = true
			} else {
				add(tr.sources(x))
			}
		}
	case OField:
		for _, b := range tr.sources(t.args[0]) {
			add(tr.fieldSources(b, t))
		}
	case OMu:
		if lv := tr.w.loopVarOf(t); lv != nil && !isSeq(t) {
			for _, v := range []Val{lv.init, lv.back} {
				for _, c := range v {
					if c.t != t {
						add(tr.sources(c.t))
					}
				}
			}
		} else {
			set[t] = true
		}
	case OSym:
		if vs := tr.hvVals(t); vs != nil && !isSeq(t) {
			for _, v := range vs {
				add(tr.sources(v))
			}
		} else {
			set[t] = true
		}
	case OJoin:
		for _, a := range t.args {
			add(tr.sources(a))
		}
	case OIface:
		add(tr.sources(t.args[0]))
	default:
		set[t] = true
	}
	var out []*Term
	for x := range set {
		out = append(out, x)
	}
	sortTerms(out)
	tr.cur[t] = out
	return out
}

func isSeq(t *Term) bool {
	if t.typ == nil {
		return false
	}
	switch t.typ.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Map:
		return true
	}
	return false
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (tr *tracer) fieldSources(b, f *Term) []*Term {
	fr, _ := f.aux.(fieldRef)
	switch b.op {
	case OStruct:
		if fr.idx < len(b.args) {
			return tr.sources(b.args[fr.idx])
		}
	case OAlloc:
		loc := mkT(OFieldAddr, f.s, 0, f.aux, types.NewPointer(f.typ), b)
		for _, h := range append(tr.loopHeaps(b), tr.heaps...) {
			found := false
			for _, l := range []*Term{loc} {
				if v, ok := h.get(l); ok && len(v) > 0 {
					found = true
					var out []*Term
					for _, c := range v {
						out = append(out, tr.sources(c.t)...)
					}
					return out
				}
			}
			if !found {
				// the object may be recorded as a whole
				if v, ok := h.get(b); ok && len(v) > 0 {
					var out []*Term
					for _, c := range v {
						out = append(out, tr.sources(fieldT(c.t, f.s, f.aux, f.typ))...)
					}
					return out
				}
			}
		}
	}
	if b == f.args[0] {
		return []*Term{f}
	}
	return []*Term{fieldT(b, f.s, f.aux, f.typ)}
}

// deepWalk visits every term a value is computed from.
func (w *World) deepWalk(t *Term, f func(*Term)) {
	tr := w.tracer()
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		f(x)
		if x.op == OCall && x.s == "strings.Join" {
			walk(elemT(x.args[0], mkSym("any:index", types.Typ[types.Int]), types.Typ[types.String]))
		}
		switch x.op {
		case OElem, OField, OMu, OIface, OSym:
			ss := tr.sources(x)
			if len(ss) == 1 && ss[0] == x {
				break
			}
			for _, s := range ss {
				walk(s)
			}
			if x.op == OElem {
				walk(x.args[1])
			}
			if len(ss) > 0 {
				return
			}
		}
		if x.op == OMu && len(x.args) > 0 {
			return
		}
		if x.op == OBool {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
}

// hvVals returns the values any GUI entry point leaves in the location that a
// havoc symbol stands for (nil if t is no such symbol).
func (tr *tracer) hvVals(t *Term) []*Term {
	loc, ok := tr.w.hv[t]
	if !ok {
		return nil
	}
	out := []*Term{}
	seen := map[*Term]bool{t: true}
	add := func(h *Heap) {
		if v, ok := h.get(loc); ok {
			for _, c := range v {
				if !seen[c.t] {
					seen[c.t] = true
					out = append(out, c.t)
				}
			}
		}
	}
	if tr.w.mainLp != nil {
		add(tr.w.mainLp.heap)
	}
	for _, r := range tr.w.gui {
		add(r.out.heap)
	}
	return out
}
