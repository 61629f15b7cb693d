package main

import (
	"go/types"
	"strings"
)

// ---- C22: other goroutines keep away from what the GUI uses

const gocuiPath = "github.com/jroimartin/gocui"

// guiObject: a view or the GUI itself.
func guiObject(t *Term) bool {
	t = unwrap(t)
	if t.op == OCall && t.s == "!gocui.View" || t.op == OSym && t.s == "anyview" {
		return true
	}
	if t.typ == nil {
		return false
	}
	n, ok := derefType(t.typ).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == gocuiPath && (n.Obj().Name() == "View" || n.Obj().Name() == "Gui")
}

// overlap: two locations share memory.
func overlap(a, b *Term) bool {
	if a == b {
		return true
	}
	if rootObj(a) != rootObj(b) {
		return false
	}
	if a.op == OContent || b.op == OContent {
		// all elements of a list
		other := b
		if b.op == OContent {
			other = a
		}
		return other.op == OIdxAddr || other.op == OMapLoc || other.op == OContent || other == rootObj(other)
	}
	in := func(x, y *Term) bool {
		for ; x != nil; x = x.args[0] {
			if x == y {
				return true
			}
			if x.op != OFieldAddr && x.op != OIdxAddr {
				return false
			}
			// elements at unknown positions may be the same
			if x.op == OIdxAddr && y.op == OIdxAddr && x.args[0] == y.args[0] {
				m, ok1 := isIntConst(x.args[1])
				n, ok2 := isIntConst(y.args[1])
				return !ok1 || !ok2 || m == n
			}
		}
		return false
	}
	return in(a, b) || in(b, a)
}

func init() {
	register("C22", "Only the GUI main loop touches views and widget state", func(c *Check) {
		w := c.w
		root := w.runs["<root>"]
		if !c.need(root != nil && len(w.gui) > 0, "entry", "the GUI is not found") {
			return
		}
		runs := append([]*Run{root}, w.gui...)
		for _, r := range runs {
			first := -1
			var launch *Event
			for _, ev := range r.events {
				if ev.kind == "go" && !ev.async && sat(ev.pc) {
					if first < 0 {
						first, launch = ev.idx, ev
					}
				}
				if !ev.async || !sat(ev.pc) {
					continue
				}
				queue := ev.name == gocuiGui+"Update"
				if strings.HasPrefix(ev.name, "(*"+gocuiPath) || strings.HasPrefix(ev.name, gocuiPath) {
					c.ok(queue, "queue-only", r, ev, "%s is called outside the GUI main loop", ev.name)
				}
				if queue {
					continue
				}
				for i, a := range ev.args {
					for _, cs := range a {
						if ev.kind == "go" || ev.kind == "deref" || ev.kind == "make" || (ev.kind == "store" || ev.kind == "mapstore") && i > 0 {
							continue
						}
						hit := guiObject(rootObj(unwrap(cs.t))) && (ev.kind != "call" || !strings.Contains(ev.name, gocuiPath))
						c.ok(!hit, "no-views", r, ev, "%s uses a view or the GUI outside the main loop", ev.kind+" "+ev.name)
					}
				}
			}
			if launch == nil {
				continue
			}
			c.shared(r, launch, runs)
		}
		c.count("goroutines")
	})
}

// shared: what goroutines started in r and the GUI handlers both use.
func (c *Check) shared(r *Run, launch *Event, runs []*Run) {
	w := c.w
	base := w.mainLp.heap
	if r.kind == "cmd" {
		base = launch.heap
	}
	before := map[*Term]bool{}
	for _, a := range r.accesses {
		if !a.async && a.idx <= launch.idx {
			before[rootObj(a.loc)] = true
		}
	}
	known := map[*Term]bool{}
	base.each(func(k *Term, _ Val) { known[rootObj(k)] = true })
	own := func(t *Term) bool {
		return t.op == OAlloc && !before[t] && !known[t] && !reachedBefore(t, base)
	}
	// what the GUI's own goroutine does
	type use struct {
		r *Run
		a Access
	}
	sync := map[*Term][]use{}
	for _, o := range runs {
		for _, a := range o.accesses {
			if a.async {
				continue
			}
			if o.kind == "cmd" && (o != r || a.idx <= launch.idx) {
				continue
			}
			if o == r && a.idx <= launch.idx && implies(a.pc, launch.pc) {
				continue // before the start
			}
			t := rootObj(a.loc)
			if o == r && a.idx <= launch.idx && t.op == OAlloc && !known[t] && !reachedBefore(t, base) {
				continue // a variable of this invocation, set before the start
			}
			sync[t] = append(sync[t], use{o, a})
		}
	}
	for _, a := range r.accesses {
		if !a.async || !sat(a.pc) {
			continue
		}
		ro := rootObj(a.loc)
		verb := "read"
		if a.store {
			verb = "written"
		}
		if own(ro) {
			// handed over to the main loop: not to be touched any more
			if !a.store {
				continue
			}
			for _, ev := range r.events {
				if ev.async && ev.name == gocuiGui+"Update" && ev.idx < a.idx && sat(and(ev.pc, a.pc)) {
					c.ok(!anyTerm(ev.arg(1), func(t *Term) bool { return t == ro }), "handed-over", r, nil, "%s is written (%s) after it was handed to the main loop", clip(a.loc.String(), 60), w.e.where(a.pos, a.fn))
				}
			}
			continue
		}
		if !c.ok(!guiObject(ro), "no-views", r, nil, "a view or the GUI is %s outside the main loop at %s", verb, w.e.where(a.pos, a.fn)) {
			continue
		}
		bad := ""
		for _, u := range sync[ro] {
			if (a.store || u.a.store) && overlap(a.loc, u.a.loc) {
				how := "read"
				if u.a.store {
					how = "written"
				}
				bad = how + " by " + u.r.name + " at " + w.e.where(u.a.pos, u.a.fn)
				break
			}
		}
		c.ok(bad == "", "shared-state", r, nil, "%s is %s outside the main loop (%s) and %s", clip(a.loc.String(), 60), verb, w.e.where(a.pos, a.fn), bad)
	}
}
