package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is the analysis of one entry point of the program.
type Run struct {
	name     string
	kind     string // "main", "cmd", "handler", "layout"
	events   []*Event
	accesses []Access
	out      State
	res      []Val
	pre      State
	// gui bindings
	view, key string
	handler   *Term
	viewTerm  *Term
	args      []Val
	bind      *Event // the call that binds the key
}

type Command struct {
	term  *Term
	name  string
	flags map[string]*Term // flag name -> bound location
	run   *Term
	up    *Term    // the command it is part of
	steps []*Term  // what runs, in order
	defs  []*Event // the definitions of its flags
}

type World struct {
	runeMaps map[*Term]map[rune]rune
	e        *Engine
	main     *Run
	exec     *Event
	cmds     map[string]*Command
	order    []string
	runs     map[string]*Run // per command
	gui      []*Run
	mainLp   *Event
	guiHeap  *Heap
	guiPC    BDD
	hv       map[*Term]*Term // havoc symbol -> location
	mods     []*Term
	problem  []string
	took     time.Duration
	tr       *tracer
	tn       *tainter
	masked   map[*Term]bool
	ui       *uiMachine
	gm       *guiModel
}

const cobraCmd = "(*github.com/spf13/cobra.Command)."
const gocuiGui = "(*github.com/jroimartin/gocui.Gui)."
const gocuiView = "(*github.com/jroimartin/gocui.View)."

func (e *Engine) record(f func() ([]Val, State)) ([]*Event, []Val, State) {
	mark := e.events
	e.events = nil
	rs, st := f()
	evs := e.events
	e.events = mark
	return evs, rs, st
}

func (w *World) bad(f string, a ...interface{}) { w.problem = append(w.problem, fmt.Sprintf(f, a...)) }

func buildWorld(e *Engine) *World {
	w := &World{e: e, cmds: map[string]*Command{}, runs: map[string]*Run{}, hv: map[*Term]*Term{}}
	mainPkg := e.pkg("1pass-app")
	if mainPkg == nil || mainPkg.Func("main") == nil {
		w.bad("package main not found")
		return w
	}
	st := State{T, nil}
	evs, _, st1 := e.record(func() ([]Val, State) {
		for _, p := range e.pkgs {
			if f := p.Func("init"); f != nil {
				var rs []Val
				rs, st = e.callValue(fnTerm(f), nil, st, "init")
				_ = rs
			}
		}
		return nil, st
	})
	_ = evs
	st1.pc = T
	evs, rs, st2 := e.record(func() ([]Val, State) { return e.callValue(fnTerm(mainPkg.Func("main")), nil, st1, "main") })
	w.main = &Run{name: "main", kind: "main", events: evs, out: st2, res: rs, pre: st1}
	for _, ev := range evs {
		if ev.kind == "call" && (ev.name == cobraCmd+"Execute" || ev.name == cobraCmd+"ExecuteC") {
			w.exec = ev
		}
	}
	if w.exec == nil {
		w.bad("main never executes the command tree")
		return w
	}
	w.findCommands()
	for _, n := range w.order {
		w.runCommand(n)
	}
	w.runGui()
	return w
}

func (w *World) field(h *Heap, obj *Term, name string) Val {
	if obj.typ == nil {
		return nil
	}
	u, ok := derefType(obj.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return w.e.loadLoc(h, fieldAddr(obj, u, i, derefType(obj.typ)), u.Field(i).Type())
		}
	}
	return nil
}

func (w *World) findCommands() {
	h := w.exec.heap
	root := w.exec.arg(0)
	seen := map[*Term]bool{}
	var list []*Term
	parent := map[*Term]*Term{}
	list = append(list, root)
	seen[root] = true
	for i := 0; i < len(list); i++ {
		for _, ev := range w.main.events {
			if ev.kind == "call" && ev.name == cobraCmd+"AddCommand" && ev.arg(0) == list[i] {
				for _, a := range ev.args[1:] {
					if t := a.single(); t != nil && !seen[t] {
						seen[t] = true
						parent[t] = list[i]
						list = append(list, t)
					}
				}
			}
		}
	}
	for _, c := range list {
		use := ""
		if v := w.field(h, c, "Use"); v != nil {
			use, _ = isStrConst(v.collapse())
		}
		name := strings.Fields(use + " ?")[0]
		if c == root {
			name = "<root>"
		}
		cmd := &Command{term: c, name: name, flags: map[string]*Term{}, up: parent[c]}
		step := func(c *Term, n string) bool {
			for _, f := range []string{n + "E", n} {
				if v := w.field(h, c, f); v != nil && v.collapse().op != ONil {
					cmd.steps = append(cmd.steps, v.collapse())
					return true
				}
			}
			return false
		}
		up := func(n string) {
			for p := c; p != nil && !step(p, n); p = parent[p] {
			}
		}
		up("PersistentPreRun")
		step(c, "PreRun")
		if step(c, "Run") {
			cmd.run = cmd.steps[len(cmd.steps)-1]
		}
		step(c, "PostRun")
		up("PersistentPostRun")
		for _, ev := range w.main.events {
			if ev.kind != "call" || !strings.HasPrefix(ev.name, "(*github.com/spf13/pflag.FlagSet).") {
				continue
			}
			r := ev.arg(0)
			own := r.op == OCall && r.s == "!flags" && r.args[0] == c
			if r.op == OCall && r.s == "!pflags" {
				for p := c; p != nil; p = parent[p] {
					if r.args[0] == p {
						own = true
					}
				}
			}
			if !own {
				continue
			}
			var loc *Term
			ni := 1
			if strings.Contains(ev.name, "Var") {
				loc, ni = ev.arg(1), 2
			} else {
				loc = ev.res
			}
			if s, ok := isStrConst(ev.arg(ni)); ok && loc != nil {
				cmd.flags[s] = loc
			}
			cmd.defs = append(cmd.defs, ev)
		}
		w.cmds[name] = cmd
		w.order = append(w.order, name)
	}
}

func flagSym(name string, typ types.Type) *Term { return mkSym("flag:"+name, typ) }

func (w *World) runCommand(name string) {
	c := w.cmds[name]
	if c.run == nil {
		return
	}
	st := State{w.exec.pc, w.exec.heap}
	for f, loc := range c.flags {
		typ := types.Type(types.Typ[types.String])
		if loc.typ != nil {
			typ = derefType(loc.typ)
		}
		st.heap = st.heap.set(loc, one(flagSym(f, typ)))
	}
	argsSym := mkSym("args", types.NewSlice(types.Typ[types.String]))
	w.e.logging, w.e.logged, w.e.accesses = name == "<root>", map[Access]bool{}, nil
	evs, rs, out := w.e.record(func() ([]Val, State) {
		var rs []Val
		for _, f := range c.steps {
			rs, st = w.e.callValue(f, []Val{one(c.term), one(argsSym)}, st, "cmd:"+name)
			if len(rs) != 1 {
				continue
			}
			// an error is reported by cobra and ends the program
			good := F
			for _, cs := range rs[0] {
				good = or(good, and(cs.g, eqB(cs.t, mkNil())))
			}
			if bad := (State{and(st.pc, not(good)), st.heap}); sat(bad.pc) {
				fr := &Frame{fn: w.exec.fn, ctx: w.exec.ctx}
				w.e.emit(fr, "print", "cobra", nil, w.exec.pos, bad, []Val{one(mkSym("!os.Stderr", nil)), rs[0]}, nil)
				w.e.emit(fr, "exit", "os.Exit", nil, w.exec.pos, bad, []Val{one(mkInt(1))}, mkInt(1))
			}
			st.pc = and(st.pc, good)
		}
		return nil, st
	})
	w.e.logging = false
	w.runs[name] = &Run{accesses: w.e.accesses, name: name, kind: "cmd", events: evs, out: out, res: rs, pre: st}
}

func keyName(t *Term) string {
	if n, ok := isIntConst(t); ok {
		switch n {
		case 0x0C:
			return "Ctrl-L"
		case 0x11:
			return "Ctrl-Q"
		case 0x09:
			return "Tab"
		case 0x0D:
			return "Enter"
		case 0x03:
			return "Ctrl-C"
		case 0xFFED:
			return "Up"
		case 0xFFEC:
			return "Down"
		case 0xFFEB:
			return "Left"
		case 0xFFEA:
			return "Right"
		}
		if n > 0xF000 {
			return fmt.Sprintf("key%#x", n)
		}
		return string(rune(n))
	}
	return t.String()
}

func (w *World) runGui() {
	r := w.runs["<root>"]
	if r == nil {
		w.bad("root command has no action")
		return
	}
	for _, ev := range r.events {
		if ev.kind == "call" && ev.name == gocuiGui+"MainLoop" {
			w.mainLp = ev
		}
	}
	if w.mainLp == nil {
		w.bad("the root command never enters the GUI main loop")
		return
	}
	e := w.e
	ui := w.mainLp.args[0]
	type job struct {
		name, kind, view, key string
		f                     *Term
		args                  []Val
		vt                    *Term
		bind                  *Event
	}
	var jobs []job
	for _, ev := range r.events {
		if ev.kind != "call" || ev.idx > w.mainLp.idx {
			continue
		}
		switch ev.name {
		case gocuiGui + "SetKeybinding":
			vn, _ := isStrConst(ev.arg(1))
			key := keyName(unwrap(ev.arg(2)))
			h := ev.arg(4)
			vt := mkT(OCall, "!gocui.View", 0, nil, nil, mkStr(vn))
			if vn == "" {
				vt = mkSym("anyview", nil)
			}
			jobs = append(jobs, job{vn + "/" + key, "handler", vn, key, h, []Val{ui, one(vt)}, vt, ev})
		case gocuiGui + "SetManager":
			for i, a := range ev.args[1:] {
				t := a.collapse()
				if t.op != OIface {
					w.bad("unresolved layout manager")
					continue
				}
				it := t.aux.(types.Type)
				var fn *ssa.Function
				if ms := e.prog.MethodSets.MethodSet(it); ms.Lookup(nil, "Layout") != nil {
					fn = e.prog.MethodValue(ms.Lookup(nil, "Layout"))
				}
				if fn == nil {
					w.bad("unresolved layout method")
					continue
				}
				jobs = append(jobs, job{fmt.Sprintf("layout%d", i), "layout", "", "", fnTerm(fn), []Val{one(t.args[0]), ui}, nil, nil})
			}
		case gocuiGui + "SetManagerFunc":
			jobs = append(jobs, job{"layoutf", "layout", "", "", ev.arg(1), []Val{ui}, nil, nil})
		}
	}
	base := w.mainLp.heap
	pc := w.mainLp.pc
	known := map[*Term]bool{}
	base.each(func(k *Term, _ Val) { known[rootObj(k)] = true })
	hv := map[*Term]*Term{} // loc -> sym
	heap := base
	for pass := 0; pass < 8; pass++ {
		changed := false
		w.gui = nil
		for _, j := range jobs {
			j := j
			e.logging, e.logged, e.accesses = true, map[Access]bool{}, nil
			evs, rs, out := e.record(func() ([]Val, State) {
				return e.callValue(j.f, j.args, State{pc, heap}, "gui:"+j.name)
			})
			e.logging = false
			w.gui = append(w.gui, &Run{accesses: e.accesses, name: j.name, kind: j.kind, events: evs, out: out, res: rs, pre: State{pc, heap}, view: j.view, key: j.key, handler: j.f, viewTerm: j.vt, args: j.args, bind: j.bind})
			diffHeap(heap, out.heap, func(k *Term, va Val, oka bool, vb Val, okb bool) {
				if hv[k] != nil {
					return
				}
				ro := rootObj(k)
				if ro.op == OAlloc && !known[ro] && !reachedBefore(ro, base) {
					return
				}
				if ro.op == OCall && ro.s == "!gocui.View" || ro.op == OSym {
					return
				}
				if k.op == OContent && runLocal(ro, known, base) {
					return // a buffer made during the call itself
				}
				if k.op == OContent && w.reordered(ro, va, vb, State{pc, heap}) {
					return // the same elements in another order
				}
				var typ types.Type
				if k.typ != nil {
					typ = derefType(k.typ)
				}
				s := mkSym(fmt.Sprintf("hv:%s#%d", k.str(4), k.id), typ)
				hv[k] = s
				w.hv[s] = k
				w.mods = append(w.mods, k)
				changed = true
			})
		}
		if !changed {
			break
		}
		heap = base
		for k, s := range hv {
			heap = heap.set(k, one(s))
		}
	}
	w.guiHeap, w.guiPC = heap, pc
	for _, v := range support(pc) {
		dull[v] = true
	}
}

// reordered: the new content of a fixed list is the old one, sorted.
func (w *World) reordered(list *Term, va, vb Val, st State) bool {
	els, ok := w.e.elements(st, list, nil)
	if !ok || len(els) == 0 {
		return false
	}
	old := map[*Term]int{}
	for _, v := range els {
		old[v.collapse()]++
	}
	for _, cs := range vb {
		if x := rootObj(cs.t); x == list {
			continue
		}
		t := stripPerm(cs.t)
		if t == cs.t || t.op != OTuple || len(t.args) != len(els) {
			return false
		}
		have := map[*Term]int{}
		for _, a := range t.args {
			have[a]++
		}
		for a, n := range have {
			if old[a] != n {
				return false
			}
		}
	}
	return len(vb) > 0
}

// runLocal reports whether a sequence was created during the analysed call.
func runLocal(t *Term, known map[*Term]bool, base *Heap) bool {
	t = rootObj(t)
	switch t.op {
	case OProj, OCall:
		return true
	case OJoin:
		for _, a := range t.args {
			if !runLocal(a, known, base) {
				return false
			}
		}
		return true
	case OMu:
		return len(t.args) > 0 && runLocal(t.args[0], known, base)
	case OAlloc:
		return !known[t] && !reachedBefore(t, base)
	}
	return false
}

func reachedBefore(o *Term, h *Heap) bool {
	found := false
	h.each(func(k *Term, v Val) {
		if found {
			return
		}
		for _, c := range v {
			if c.t == o || (c.t.op == OIface && c.t.args[0] == o) {
				found = true
			}
		}
	})
	return found
}

// findIface returns the wired object implementing the named interface.
func (w *World) findIface(h *Heap, iface types.Type) *Term {
	if iface == nil {
		return nil
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var best *Term
	h.each(func(k *Term, v Val) {
		for _, c := range v {
			if c.t.op == OIface {
				if t := c.t.aux.(types.Type); types.Implements(t, it) {
					if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) {
						if best == nil || c.t.id < best.id {
							best = c.t
						}
					}
				}
			}
		}
	})
	return best
}

// method runs a method of a wired object with the given arguments.
func (w *World) method(obj *Term, name string, args []Val, st State, tag string) *Run {
	t := obj.aux.(types.Type)
	ms := w.e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := w.e.prog.MethodValue(ms.At(i))
			evs, rs, out := w.e.record(func() ([]Val, State) {
				return w.e.callValue(fnTerm(fn), append([]Val{one(obj.args[0])}, args...), st, tag)
			})
			return &Run{name: name, kind: "method", events: evs, out: out, res: rs, pre: st}
		}
	}
	return nil
}
