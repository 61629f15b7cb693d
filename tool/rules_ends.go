package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C30: nothing runs or waits forever

// variant: a term can change from one round of a loop to the next.
func variant(t *Term, li *LoopInfo) bool {
	return anyTerm(t, func(x *Term) bool {
		return x.op == OK && x.k == li.id || li.vars[x] != nil
	})
}

// nextRound lists what a linear term is in the next round, and when.
func nextRound(t *Term, li *LoopInfo) (Val, bool) {
	l := toLin(t)
	out := one(mkInt(l.k))
	for x, co := range l.m {
		var v Val
		switch {
		case !variant(x, li):
			v = one(x)
		case x.op == OK && x.k == li.id:
			v = one(addT(x, mkInt(1)))
		case li.vars[x] != nil:
			v = li.vars[x].back
		case x.op == OLen && li.vars[x.args[0]] != nil:
			for _, cs := range li.vars[x.args[0]].back {
				v = append(v, Case{cs.g, lenT(cs.t)})
			}
		default:
			return nil, false
		}
		var sum Val
		for _, a := range out {
			for _, b := range v {
				if g := and(a.g, b.g); sat(g) {
					sum = append(sum, Case{g, linComb(a.t, 1, b.t, co)})
				}
			}
		}
		out = sum
		if len(out) == 0 || len(out) > 200 {
			return nil, false
		}
	}
	return out, true
}

// nears: L gets smaller in every round.
func nears(L *Term, li *LoopInfo) bool {
	if !variant(L, li) {
		return false
	}
	next, ok := nextRound(L, li)
	if !ok {
		return false
	}
	for _, cs := range next {
		g := and(li.back, cs.g)
		if sat(g) && !implies(g, ge0(subT(subT(L, cs.t), mkInt(1)))) {
			return false
		}
	}
	return true
}

// finiteInput: calls that use up input, and fail at its end.
func finiteInput(name string) bool {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	switch {
	case strings.HasPrefix(name, "fmt.Scan"), strings.HasPrefix(name, "fmt.Fscan"):
		return true
	case strings.HasPrefix(name, "("):
		switch m {
		case "Next", "Read", "ReadByte", "ReadBytes", "ReadString", "ReadLine", "ReadRune", "ReadSlice", "Decode", "Token", "Readdir", "ReadDir", "Readdirnames", "Scan":
			return true
		}
	case name == "io.ReadFull", name == "io.CopyN", name == "io.ReadAtLeast":
		return true
	}
	return false
}

func (w *World) loopEnds(li *LoopInfo, inside map[*Term]map[int64]bool) (bool, string) {
	bound := F
	how := ""
	for _, v := range support(li.back) {
		a := atoms[v]
		switch {
		case a.op == OGe0:
			if nears(a.args[0], li) {
				bound = or(bound, bvar(v))
				how += " bound"
			}
			// not L >= 0 is -L-1 >= 0
			if nears(subT(mkInt(-1), a.args[0]), li) {
				bound = or(bound, not(bvar(v)))
				how += " bound"
			}
		case a.op == OEq && a.s == "0":
			// a count that walks towards the excluded value one by one
			for _, s := range []int64{1, -1} {
				L := linComb(mkInt(0), 1, a.args[0], s)
				next, ok := nextRound(L, li)
				if !ok || !variant(L, li) {
					continue
				}
				step := true
				for _, cs := range next {
					if g := and(li.back, cs.g); sat(g) && !implies(g, and(ge0(subT(subT(L, cs.t), mkInt(1))), ge0(subT(cs.t, subT(L, mkInt(1)))))) {
						step = false
					}
				}
				// and starts on the right side of it
				first, known := firstRound(L, li)
				if step && known && implies(li.entry, first) {
					bound = or(bound, not(bvar(v)))
					how += " bound"
				}
			}
		case isErrNil(a):
			x := a.args[0]
			if x.op == ONil {
				x = a.args[1]
			}
			if x.op == OProj && x.args[0].op == OCall && finiteInput(longName(x.args[0].s)) && inside[x.args[0]][li.id] {
				bound = or(bound, bvar(v))
				how += " input"
			}
		case a.op == OCall && finiteInput(longName(a.s)) && inside[a][li.id]:
			bound = or(bound, bvar(v))
			how += " input"
		}
	}
	return implies(li.back, bound), how
}

func longName(s string) string { return s }

// firstRound: when L is not negative in the first round.
func firstRound(L *Term, li *LoopInfo) (BDD, bool) {
	l := toLin(L)
	out := one(mkInt(l.k))
	for x, co := range l.m {
		var v Val
		switch {
		case !variant(x, li):
			v = one(x)
		case x.op == OK && x.k == li.id:
			v = one(mkInt(0))
		case li.vars[x] != nil:
			v = li.vars[x].init
		default:
			return F, false
		}
		var sum Val
		for _, a := range out {
			for _, b := range v {
				if g := and(a.g, b.g); sat(g) {
					sum = append(sum, Case{g, linComb(a.t, 1, b.t, co)})
				}
			}
		}
		out = sum
	}
	g := F
	for _, cs := range out {
		g = or(g, and(cs.g, ge0(cs.t)))
	}
	return g, len(out) > 0
}

func init() {
	register("C30", "Nothing runs or waits forever and the GUI never waits for the network", func(c *Check) {
		w := c.w
		inside := map[*Term]map[int64]bool{}
		for _, r := range w.all() {
			for _, ev := range r.events {
				if ev.res == nil {
					continue
				}
				m := inside[ev.res]
				if m == nil {
					m = map[int64]bool{}
					inside[ev.res] = m
				}
				for _, l := range ev.loops {
					m[l] = true
				}
			}
		}
		var ids []int64
		for id := range w.e.loops {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		seen := map[string]bool{}
		for _, id := range ids {
			li := w.e.loops[id]
			if !sat(li.back) {
				continue
			}
			ok, _ := w.loopEnds(li, inside)
			at := w.e.where(li.pos, li.fn)
			if !ok && seen[at] {
				continue
			}
			seen[at] = seen[at] || !ok
			c.ok(ok, "loop-ends", nil, nil, "the loop at %s may run forever: no bound that each round comes closer to, and no input that runs out: %s", at, clip(witness(li.back), 600))
		}
		c.need(len(ids) > 10, "loop-ends", "no loops were analysed")
		// recursion
		calls := map[*ssa.Function][]*ssa.Call{}
		for fn := range w.e.plans {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() != nil && w.e.plans[x.Call.StaticCallee()] != nil {
						calls[fn] = append(calls[fn], x)
					}
				}
			}
		}
		for fn := range calls {
			reach := map[*ssa.Function]bool{}
			var dfs func(f *ssa.Function)
			dfs = func(f *ssa.Function) {
				for _, x := range calls[f] {
					g := x.Call.StaticCallee()
					if !reach[g] && !(g == fn && smaller(x, fn)) {
						reach[g] = true
						dfs(g)
					}
				}
			}
			dfs(fn)
			c.ok(!reach[fn], "recursion-ends", nil, nil, "%s calls itself and nothing gets smaller", fn)
		}
		// waiting
		for _, r := range w.all() {
			sent := map[*Term]bool{}
			for _, ev := range r.events {
				if (ev.kind == "send" || ev.kind == "call" && ev.name == "close") && len(ev.args) > 0 {
					sent[ev.arg(0)] = true
				}
			}
			held := map[*Term]BDD{}
			for _, ev := range r.events {
				gui := r.kind != "cmd" && r.kind != "main" && !ev.async
				if gui {
					if _, ok := netURL(ev); ok {
						c.ok(false, "gui-waits", r, ev, "the GUI stands still during a request to the network")
						continue
					}
					if ev.kind == "call" && (ev.name == "time.Sleep" || ev.name == "(*sync.WaitGroup).Wait" || isInput(ev)) || ev.kind == "recv" || ev.kind == "select" {
						c.ok(false, "gui-waits", r, ev, "the GUI stands still while it waits (%s)", ev.name)
						continue
					}
					c.count("gui-waits")
				}
				switch {
				case ev.kind == "recv":
					c.ok(sent[ev.arg(0)], "wait-ends", r, ev, "nothing is ever sent to what is waited for")
				case ev.kind == "call" && (ev.name == "(*sync.Mutex).Lock" || ev.name == "(*sync.RWMutex).Lock"):
					m := ev.arg(0)
					if len(ev.loops) == 0 {
						h, ok := held[m]
						c.ok(!ok || !sat(and(h, ev.pc)), "wait-ends", r, ev, "a lock is taken that is still held")
						held[m] = or(h, ev.pc)
					}
				case ev.kind == "call" && (ev.name == "(*sync.Mutex).Unlock" || ev.name == "(*sync.RWMutex).Unlock"):
					if h, ok := held[ev.arg(0)]; ok {
						held[ev.arg(0)] = diff(h, ev.pc)
					}
				}
			}
			for _, h := range held {
				c.ok(!sat(h), "wait-ends", r, nil, "a lock may be kept for ever: %s", witness(h))
			}
		}
	})
}

// smaller: a recursive call passes a shorter piece or a lower number.
func smaller(x *ssa.Call, fn *ssa.Function) bool {
	for i, a := range x.Call.Args {
		if i >= len(fn.Params) {
			break
		}
		switch v := a.(type) {
		case *ssa.Slice:
			if v.X == fn.Params[i] && v.Low != nil {
				if k, ok := v.Low.(*ssa.Const); ok && k.Int64() > 0 {
					return true
				}
			}
		case *ssa.BinOp:
			if v.X == fn.Params[i] && v.Op.String() == "-" {
				if k, ok := v.Y.(*ssa.Const); ok && types.Identical(k.Type(), v.Type()) && k.Int64() > 0 {
					return true
				}
			}
		}
	}
	return false
}
