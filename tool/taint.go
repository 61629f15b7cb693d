package main

import (
	"go/types"
	"strings"
)

const (
	tPW     = 1 << iota // the typed master password
	tKEY                // derived or decrypted key material
	tITEM               // any vault content
	tSECRET             // field values and notes
)

func taintStr(x int) string {
	var s []string
	for i, n := range []string{"password", "key material", "vault content", "item secret"} {
		if x&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, ", ")
}

// keys of a details document that name things and hold no secret.
var nameKeys = map[string]bool{"name": true, "t": true, "title": true, "designation": true, "k": true, "n": true}

type tainter struct {
	w     *World
	tr    *tracer
	memo  map[*Term]int
	cur   map[*Term]int
	prev  map[*Term]int
	index map[*Term][]locVal
}

func (w *World) taint(t *Term) int {
	if w.tn == nil {
		w.tn = &tainter{w: w, tr: w.tracer(), memo: map[*Term]int{}}
	}
	return w.tn.of(t)
}

func (w *World) taintVal(v Val) int {
	x := 0
	for _, c := range v {
		x |= w.taint(c.t)
	}
	return x
}

func (tn *tainter) of(t *Term) int {
	if t == nil {
		return 0
	}
	if x, ok := tn.memo[t]; ok {
		return x
	}
	if tn.cur != nil {
		if x, ok := tn.cur[t]; ok {
			return x
		}
		tn.cur[t] = tn.prev[t]
		x := tn.calc(t) | tn.prev[t]
		tn.cur[t] = x
		return x
	}
	// terms may depend on each other through loops and stored values: repeat
	// until nothing changes
	tn.prev = map[*Term]int{}
	for {
		tn.cur = map[*Term]int{}
		tn.of(t)
		same := true
		for k, x := range tn.cur {
			if tn.prev[k] != x {
				same = false
			}
		}
		tn.prev = tn.cur
		if same {
			break
		}
	}
	for k, x := range tn.prev {
		tn.memo[k] = x
	}
	tn.cur, tn.prev = nil, nil
	return tn.memo[t]
}

func (tn *tainter) union(ts []*Term) int {
	x := 0
	for _, a := range ts {
		x |= tn.of(a)
	}
	return x
}

func (tn *tainter) calc(t *Term) int {
	switch t.op {
	case OConst, ONil, OFn, OGlobal, OK, OBool, OMapHas, OIsType:
		return 0
	case OCall:
		switch t.s {
		case "password":
			return tPW
		case "viewbuffer", "buffer", "viewbufferlines", "bufferlines":
			if tn.w.maskedView(t.args[0]) {
				return tPW
			}
			return 0
		case "crypt":
			ks := map[string]bool{}
			tn.w.deepWalk(t.args[1], func(x *Term) {
				if x.op == OMapGet && isDoc(x.args[0]) {
					if s, ok := isStrConst(x.args[1]); ok {
						ks[s] = true
					}
				}
			})
			switch {
			case ks["masterKey"] || ks["overviewKey"] || ks["k"]:
				return tKEY
			case ks["o"] && !ks["d"]:
				return tITEM
			}
			return tITEM | tSECRET
		case "filedata":
			// files found by pattern are the bands of the vault
			if anyTerm(t.args[0], func(x *Term) bool { return x.op == OCall && strings.HasSuffix(x.s, "filepath.Glob") }) {
				return tITEM
			}
			found := false
			tn.w.deepWalk(t.args[0], func(x *Term) {
				if x.op == OCall && strings.HasSuffix(x.s, "filepath.Glob") {
					found = true
				}
			})
			if found {
				return tITEM
			}
			return 0
		case "!gocui.View", "input", "time.Now":
			return 0
		}
		if strings.HasSuffix(t.s, "pbkdf2.Key") {
			return tKEY
		}
		if strings.HasPrefix(t.s, "digest:") {
			x := tn.union(t.args)
			if x&(tPW|tKEY) != 0 {
				return tKEY
			}
			return x
		}
		return tn.union(t.args)
	case OLen:
		// how many entries a list has is no secret
		if t.args[0].typ != nil {
			if sl, ok := t.args[0].typ.Underlying().(*types.Slice); ok {
				if _, basic := sl.Elem().Underlying().(*types.Basic); !basic {
					return 0
				}
			}
		}
		return tn.union(t.args)
	case OMapGet:
		x := tn.of(t.args[0])
		if s, ok := isStrConst(t.args[1]); ok && nameKeys[s] {
			x &^= tSECRET
		}
		return x
	case OProj:
		if t.s == "err" {
			return 0
		}
		return tn.union(t.args)
	case OElem, OField, OMu, OSym, OIface:
		ss := tn.tr.sources(t)
		if t.op == OSym && isSeq(t) {
			if vs := tn.tr.hvVals(t); vs != nil {
				return tn.union(vs)
			}
			return 0
		}
		if t.op == OMu && isSeq(t) {
			x := 0
			if lv := tn.w.loopVarOf(t); lv != nil {
				for _, v := range []Val{lv.init, lv.back} {
					for _, c := range v {
						if c.t != t {
							x |= tn.of(c.t)
						}
					}
				}
			}
			return x
		}
		x := 0
		if t.op == OMu {
			// a counter reveals what it counts
			if lv := tn.w.loopVarOf(t); lv != nil && len(lv.back) > 1 {
				for _, c := range lv.back {
					for _, v := range support(c.g) {
						x |= tn.of(atoms[v]) & tITEM
					}
				}
			}
		}
		if len(ss) == 1 && ss[0] == t {
			if t.op == OSym || t.op == OMu {
				return x
			}
			return tn.of(t.args[0])
		}
		return x | tn.union(ss)
	case OAlloc, OFieldAddr:
		x := 0
		tn.eachField(t, func(v Val) {
			for _, c := range v {
				x |= tn.of(c.t)
			}
		})
		return x
	case OClo:
		return 0
	}
	return tn.union(t.args)
}

type locVal struct {
	loc *Term
	v   Val
}

// within: loc is o or lies inside it.
func within(loc, o *Term) bool {
	for {
		if loc == o {
			return true
		}
		switch loc.op {
		case OFieldAddr, OIdxAddr, OContent, OMapLoc:
			loc = loc.args[0]
		default:
			return false
		}
	}
}

// eachField visits the values recorded for the parts of an object.
func (tn *tainter) eachField(o *Term, f func(Val)) {
	if tn.index == nil {
		tn.index = map[*Term][]locVal{}
		type key struct {
			k, v *Term
			n    int
		}
		seen := map[key]bool{}
		hs := append([]*Heap{}, tn.tr.heaps...)
		for _, li := range tn.w.e.loops {
			if li.backHp != nil {
				hs = append(hs, li.backHp)
			}
		}
		for _, h := range hs {
			h.each(func(k *Term, v Val) {
				if len(v) == 0 {
					return
				}
				kk := key{k, v[0].t, len(v)}
				if seen[kk] {
					return
				}
				seen[kk] = true
				r := rootObj(k)
				tn.index[r] = append(tn.index[r], locVal{k, v})
			})
		}
	}
	r := rootObj(o)
	for _, lv := range tn.index[r] {
		if o == r || within(lv.loc, o) {
			f(lv.v)
		}
	}
}

// maskedView reports whether the program masks the input of a view.
func (w *World) maskedView(v *Term) bool {
	if w.masked == nil {
		w.masked = map[*Term]bool{}
		for _, r := range w.all() {
			r.out.heap.each(func(k *Term, val Val) {
				if k.op == OFieldAddr && k.s == "Mask" {
					w.masked[viewName(k.args[0])] = true
				}
			})
		}
	}
	if n := viewName(v); n != nil {
		return w.masked[n]
	}
	return true
}

func viewName(v *Term) *Term {
	if v.op == OCall && v.s == "!gocui.View" {
		return v.args[0]
	}
	return nil
}
