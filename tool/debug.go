package main

import (
	"fmt"
	"go/types"
	"sort"
)

// dumpLoops prints what the analysis knows about loops.
func dumpLoops(w *World, ids []int64) {
	var all []int64
	for id := range w.e.loops {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	want := map[int64]bool{}
	for _, i := range ids {
		want[i] = true
	}
	for _, id := range all {
		li := w.e.loops[id]
		if len(want) > 0 && !want[id] {
			continue
		}
		fmt.Printf("loop %d parent=%d %s\n", id, li.parent, w.e.where(li.pos, li.fn))
		fmt.Println("  back:", bddStr(noPC(li.back, li.entry)))
		for _, x := range li.exits {
			fmt.Println("  exit header=", x.header, bddStr(noPC(x.pc, li.entry)))
		}
		var ms []*Term
		for m := range li.vars {
			ms = append(ms, m)
		}
		sortTerms(ms)
		for _, m := range ms {
			v := li.vars[m]
			fmt.Printf("  %s = mu#%d loc=%v val=%v\n", v.name, m.id, v.loc, v.val)
			for _, c := range v.init {
				fmt.Println("     init", c.t, " IF ", bddStr(restrict(c.g, li.entry)))
			}
			for _, c := range v.back {
				fmt.Println("     back", c.t, " IF ", bddStr(restrict(c.g, li.back)))
			}
		}
	}
}

func noPC(g, pc BDD) BDD { return restrict(g, pc) }

func dumpEmits(w *World, id int64) {
	li := w.e.loops[id]
	for m, lv := range li.vars {
		for _, b := range lv.back {
			if b.t.op != OApp {
				continue
			}
			a := b.t.args[len(b.t.args)-1]
			if a.op != OAlloc {
				continue
			}
			st, ok := derefType(a.typ).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				v := w.field(li.backHp, a, st.Field(i).Name())
				for _, c := range v {
					fmt.Println(m.s, st.Field(i).Name(), c.t.str(12), " IF ", bddStr(restrict(c.g, li.back)))
				}
			}
		}
	}
}

func dumpBad(w *World) {
	seen := map[string]bool{}
	for _, r := range append(append([]*Run{}, w.all()...), w.guiModel().runs...) {
		for _, ev := range r.events {
			bad, ok := ev.extra["bad"].(BDD)
			if !ok && ev.kind != "nilcall" && ev.kind != "nilmap" && ev.kind != "panic" {
				continue
			}
			if !ok {
				bad = ev.pc
			}
			if !sat(bad) {
				continue
			}
			k := fmt.Sprint(ev.kind, w.e.where(ev.pos, ev.fn), r.kind)
			if seen[k] {
				continue
			}
			seen[k] = true
			fmt.Printf("%s %s [%s %s] args=%v bad=%s\n", ev.kind, w.e.where(ev.pos, ev.fn), r.kind, r.name, ev.args, witness(bad))
		}
	}
}
