package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- C32: the command line

type flagDef struct{ short, kind string }

type cmdDef struct {
	args  int // how many arguments are needed, and taken if there are some
	none  bool
	flags map[string]flagDef
}

var (
	vaultFlag   = flagDef{"v", "String"}
	trashedFlag = flagDef{"t", "Bool"}
	cmdDefs     = map[string]cmdDef{
		"<root>":     {flags: map[string]flagDef{"vault": vaultFlag}},
		"update":     {},
		"configure":  {},
		"categories": {},
		"version":    {},
		"list":       {none: true, flags: map[string]flagDef{"vault": vaultFlag, "category": {"c", "String"}, "name": {"n", "String"}, "trashed": trashedFlag}},
		"overview":   {args: 1, flags: map[string]flagDef{"vault": vaultFlag, "trashed": trashedFlag}},
		"details":    {args: 1, flags: map[string]flagDef{"vault": vaultFlag, "trashed": trashedFlag}},
	}
)

// takes is the condition on the arguments under which a validator accepts them.
func (w *World) takes(v *Term, cmd, args *Term, st State) BDD {
	n := lenT(args)
	eq := func(k int64) BDD { return eqB(n, mkInt(k)) }
	if v.op == ONil {
		return T
	}
	name := v.s
	k := func(i int) int64 {
		if i < len(v.args) {
			if x, ok := isIntConst(v.args[i]); ok {
				return x
			}
		}
		return -1
	}
	if i := strings.LastIndex(name, "cobra."); i >= 0 && (v.op == OFn || v.op == OCall) {
		switch name[i+len("cobra."):] {
		case "NoArgs":
			return eq(0)
		case "ArbitraryArgs":
			return T
		case "ExactArgs":
			return eq(k(0))
		case "MinimumNArgs":
			return ge0(subT(n, mkInt(k(0))))
		case "MaximumNArgs":
			return ge0(subT(mkInt(k(0)), n))
		case "RangeArgs":
			return and(ge0(subT(n, mkInt(k(0)))), ge0(subT(mkInt(k(1)), n)))
		}
	}
	g := F
	w.e.record(func() ([]Val, State) {
		rs, out := w.e.callValue(v, []Val{one(cmd), one(args)}, st, "args")
		if len(rs) == 1 {
			for _, cs := range rs[0] {
				g = or(g, and(out.pc, cs.g, eqB(cs.t, mkNil())))
			}
		}
		return nil, out
	})
	return g
}

func init() {
	register("C32", "The command line does what its help says", func(c *Check) {
		w := c.w
		var names []string
		for n := range cmdDefs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range w.order {
			_, ok := cmdDefs[n]
			c.need(ok, "commands", "there is a command %s that is not documented", n)
		}
		root := w.exec.arg(0)
		st := State{w.exec.pc, w.exec.heap}
		seen := map[string]int{}
		for _, n := range w.order {
			seen[n]++
		}
		args := mkSym("args", types.NewSlice(types.Typ[types.String]))
		n := lenT(args)
		some := ge0(n)
		for _, name := range names {
			def, cmd, r := cmdDefs[name], w.cmds[name], w.runs[name]
			if !c.need(cmd != nil && r != nil && seen[name] == 1, "commands", "there is no command %s, or more than one", name) {
				continue
			}
			c.need(cmd.up == root || name == "<root>", "commands", "%s is not a command of the program itself", name)
			// it is there on every way to the execution
			if name != "<root>" {
				there := F
				for _, ev := range w.main.events {
					if ev.kind == "call" && ev.name == cobraCmd+"AddCommand" && ev.idx < w.exec.idx {
						for _, a := range ev.args[1:] {
							if a.single() == cmd.term {
								there = or(there, ev.pc)
							}
						}
					}
				}
				c.ok(implies(w.exec.pc, there), "commands", w.main, w.exec, "the command %s is not always there: %s", name, clip(witness(diff(w.exec.pc, there)), 300))
			}
			// nothing about it changes what runs
			for _, f := range []string{"DisableFlagParsing", "Deprecated", "FParseErrWhitelist"} {
				for _, cs := range w.field(w.exec.heap, cmd.term, f) {
					ok := false
					switch f {
					case "DisableFlagParsing":
						ok = !sat(boolOf(cs.t))
					case "Deprecated":
						s, iss := isStrConst(cs.t)
						ok = iss && s == ""
					default:
						ok = true
						for _, x := range fieldOf(w.exec.heap, cs.t, "UnknownFlags") {
							ok = ok && !sat(boolOf(x.t))
						}
					}
					c.ok(ok, "plain-command", w.main, w.exec, "%s of the command %s is %s", f, name, clip(cs.t.String(), 80))
				}
			}
			// flags
			have := map[string]bool{}
			locs := map[*Term]string{}
			for _, ev := range cmd.defs {
				m := ev.name[strings.LastIndex(ev.name, ".")+1:]
				kind := strings.TrimSuffix(strings.TrimSuffix(m, "P"), "Var")
				i := 1
				var loc *Term
				if strings.Contains(m, "Var") {
					loc = ev.arg(1)
					i = 2
				} else {
					loc = ev.res
				}
				fn, ok := isStrConst(ev.arg(i))
				want, known := def.flags[fn]
				if !c.ok(ok && known, "flags", w.main, ev, "%s has a flag %s that is not documented (%s)", name, clip(ev.arg(i).String(), 40), m) {
					continue
				}
				have[fn] = true
				c.ok(kind == want.kind, "flags", w.main, ev, "the flag --%s of %s is of another kind: %s", fn, name, m)
				short := ""
				d := i + 1
				if strings.HasSuffix(m, "P") {
					short, _ = isStrConst(ev.arg(i + 1))
					d++
				}
				c.ok(short == want.short, "flags", w.main, ev, "the flag --%s of %s has the short form %q", fn, name, short)
				dv := ev.arg(d)
				s, iss := isStrConst(dv)
				c.ok(want.kind == "String" && iss && s == "" || want.kind == "Bool" && !sat(boolOf(dv)), "flag-defaults", w.main, ev, "without the flag, --%s of %s is %s", fn, name, clip(dv.String(), 40))
				c.ok(implies(w.exec.pc, ev.pc), "flags", w.main, ev, "the flag --%s of %s is not always there", fn, name)
				if o, twice := locs[loc]; twice {
					c.ok(false, "own-value", w.main, ev, "the flags --%s and --%s of %s set the same value", o, fn, name)
				}
				locs[loc] = fn
			}
			for fn := range def.flags {
				c.need(have[fn], "flags", "%s has no flag --%s", name, fn)
			}
			for _, ev := range w.main.events {
				if ev.kind != "call" {
					continue
				}
				for _, m := range []string{"MarkFlagRequired", "MarkPersistentFlagRequired", "SetArgs", "MarkDeprecated", "MarkShorthandDeprecated", "SetNormalizeFunc", "SetGlobalNormalizationFunc", "SetInterspersed"} {
					if name == "<root>" && strings.HasSuffix(ev.name, ")."+m) && (strings.Contains(ev.name, "cobra") || strings.Contains(ev.name, "pflag")) {
						c.ok(false, "plain-command", w.main, ev, "%s changes what is accepted", m)
					}
				}
			}
			// arguments
			acc := T
			if v := w.field(w.exec.heap, cmd.term, "Args"); v != nil {
				acc = F
				for _, cs := range v {
					acc = or(acc, and(cs.g, w.takes(cs.t, cmd.term, args, st)))
				}
			}
			acc = and(acc, some)
			want := eqB(n, mkInt(int64(def.args)))
			okArgs := func(g BDD) BDD { return and(g, st.pc) }
			if def.args > 0 || def.none {
				c.ok(implies(okArgs(and(some, acc)), want), "arguments", w.main, w.exec, "%s accepts a wrong number of arguments: %s", name, clip(witness(and(acc, not(want))), 200))
			}
			c.ok(implies(okArgs(and(some, want)), acc), "arguments", w.main, w.exec, "%s does not accept %s", name, plural(def.args))
			for _, ev := range r.events {
				if ev.kind != "index" && ev.kind != "slice" {
					continue
				}
				bad, _ := ev.extra["bad"].(BDD)
				if !anyTerm(ev.arg(0), func(t *Term) bool { return t == args }) {
					continue
				}
				c.ok(!sat(and(bad, acc)), "argument-there", r, ev, "%s takes an argument that may not be there: %s", name, clip(witness(and(bad, acc)), 200))
			}
			c.count("command " + name)
		}
	})
}

func plural(n int) string {
	switch n {
	case 0:
		return "a call without arguments"
	case 1:
		return "one argument"
	}
	return fmt.Sprint(n, " arguments")
}
