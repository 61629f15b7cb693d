package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/mashmb/1pass"

type State struct {
	pc   BDD
	heap *Heap
}

// Ctx is a calling context (interned chain of call sites).
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction // call instruction in the parent function
	fn     *ssa.Function
	iter   string
}

// Event is one effect the analysed program may perform, with the guard under
// which it is reached and the heap at that point.
type Event struct {
	idx   int
	kind  string // "call", "print", "assert", "index", "store", "panic", "exit"
	name  string
	args  []Val
	res   *Term
	pc    BDD
	heap  *Heap
	fn    *ssa.Function
	pos   token.Pos
	ctx   *Ctx
	loops []int64
	async bool
	instr ssa.Instruction
	err   *Term // the error result, if the call has one
	errV  Val   // the same case by case, where the cases differ
	extra map[string]interface{}
}

func (ev *Event) arg(i int) *Term {
	if i >= len(ev.args) {
		return mkSym("?noarg", nil)
	}
	return ev.args[i].collapse()
}

type loopVar struct {
	init, back Val
	val        *Term // representation used inside the body
	name       string
	loc        *Term // heap location, nil for a phi
	phi        *ssa.Phi
}

type LoopInfo struct {
	id     int64
	fn     *ssa.Function
	pos    token.Pos
	vars   map[*Term]*loopVar // mu term -> info
	entry  BDD
	back   BDD
	backHp *Heap
	exits  []exitInfo
	ctx    *Ctx
	parent int64
}

type exitInfo struct {
	pc     BDD
	header bool
}

type Edge struct {
	from, to *ssa.BasicBlock
	pc       BDD
	heap     *Heap
	phis     []Val
}

type deferRec struct {
	g    BDD
	call *ssa.CallCommon
	args []Val
	fnv  Val
	pos  token.Pos
	inst ssa.Instruction
}

type ret struct {
	pc   BDD
	heap *Heap
	vals []Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	tuples map[ssa.Value][]Val
	ctx    *Ctx
	iter   string
	rets   []ret
	defers []deferRec
	hdr    map[*ssa.BasicBlock]BDD // last header condition (for unrolling)
	hdrPC  map[*ssa.BasicBlock]BDD
	binds  []Val
	depth  int
}

type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	events   []*Event
	loops    map[int64]*LoopInfo
	loopIDs  map[string]int64
	ctxIDs   map[string]*Ctx
	siteIDs  map[string]int64
	lstack   []int64
	async    int
	logging  bool
	logged   map[Access]bool
	accesses []Access
	plans    map[*ssa.Function]*plan
	stack    []*ssa.Function
	inlined  map[*ssa.Function]int
	hooks    map[string]hook
	impls    map[string][]*types.Named // interface method dispatch fallback
	named    []*types.Named
	steps    int
	checked  map[string]int
	notes    map[string]bool
	pkgs     []*ssa.Package
	stub     func(fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []Val, st State) ([]Val, State, bool)
}

func (e *Engine) note(f string, a ...interface{}) { e.notes[fmt.Sprintf(f, a...)] = true }

func isRepoFn(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), repoPrefix)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (e *Engine) mkCtx(parent *Ctx, site ssa.Instruction, fn *ssa.Function, iter string) *Ctx {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	key := fmt.Sprintf("%d|%p|%s|%s", pid, site, fn.String(), iter)
	if c, ok := e.ctxIDs[key]; ok {
		return c
	}
	c := &Ctx{id: len(e.ctxIDs) + 1, parent: parent, site: site, fn: fn, iter: iter}
	e.ctxIDs[key] = c
	return c
}

func (e *Engine) siteID(fr *Frame, ins interface{}, tag string) int64 {
	key := fmt.Sprintf("%d|%s|%p|%s", fr.ctx.id, fr.iter, ins, tag)
	if n, ok := e.siteIDs[key]; ok {
		return n
	}
	n := int64(len(e.siteIDs) + 1)
	e.siteIDs[key] = n
	return n
}

func (e *Engine) loopKs() []*Term {
	var ks []*Term
	for _, l := range e.lstack {
		ks = append(ks, mkK(l))
	}
	return ks
}

func mkK(l int64) *Term { return mkT(OK, "", l, nil, types.Typ[types.Int]) }

// within reports whether a loop lies inside another.
func (e *Engine) within(in, out int64) bool {
	for n := 0; n < 50; n++ {
		li := e.loops[in]
		if li == nil || li.parent == 0 {
			return false
		}
		if in = li.parent; in == out {
			return true
		}
	}
	return false
}

// Access is one reading or writing of a location.
type Access struct {
	loc   *Term
	store bool
	async bool
	fn    *ssa.Function
	pos   token.Pos
	idx   int // of the next event
	pc    BDD
}

func (e *Engine) access(loc *Term, store bool, fr *Frame, pos token.Pos, pc BDD) {
	if !e.logging {
		return
	}
	a := Access{loc: loc, store: store, async: e.async > 0, idx: len(e.events), pc: pc}
	key := Access{loc: loc, store: store, async: a.async, pc: pc}
	if !a.async || !store {
		if e.logged[key] {
			return
		}
		e.logged[key] = true
	}
	if fr != nil {
		a.fn, a.pos = fr.fn, pos
	}
	e.accesses = append(e.accesses, a)
}

func (e *Engine) newObj(fr *Frame, ins interface{}, tag string, typ types.Type, info allocInfo) *Term {
	info.fn = fr.fn
	return mkT(OAlloc, tag, e.siteID(fr, ins, tag), info, typ, e.loopKs()...)
}

// ---- event recording

func (e *Engine) emit(fr *Frame, kind, name string, ins ssa.Instruction, pos token.Pos, st State, args []Val, res *Term) *Event {
	ev := &Event{idx: len(e.events), kind: kind, name: name, args: args, res: res, pc: st.pc, heap: st.heap, fn: fr.fn, pos: pos, ctx: fr.ctx, async: e.async > 0, instr: ins}
	ev.loops = append([]int64{}, e.lstack...)
	e.events = append(e.events, ev)
	return ev
}

// ---- zero values

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(F)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mkFloat(constant.MakeFloat64(0))
		}
		return mkNil()
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		return mkT(OStruct, t.String(), 0, nil, t, args...)
	case *types.Array:
		return mkT(OCall, "!zeroarray", u.Len(), nil, t)
	}
	return mkNil()
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(b2(constant.BoolVal(c.Value)))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkFloat(c.Value)
		}
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			return mkT(OConst, "u:"+c.Value.ExactString(), 0, nil, c.Type())
		}
		return mkInt(n)
	case constant.Float:
		return mkFloat(c.Value)
	}
	return mkSym("const:"+c.Value.ExactString(), c.Type())
}

// ---- heap access

func rootObj(t *Term) *Term {
	for {
		switch t.op {
		case OFieldAddr, OIdxAddr, OMapLoc, OContent:
			t = t.args[0]
		case OSlice:
			t = t.args[0]
		default:
			return t
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func contentKey(t *Term) *Term {
	if t.op == OIface {
		t = t.args[0]
	}
	if t.op == OSlice && t.args[2] == nil {
		if n, ok := isIntConst(t.args[1]); ok && n == 0 {
			t = t.args[0]
		}
	}
	return mkT(OContent, "", 0, nil, nil, t)
}

// resolve replaces slices whose bytes were overwritten by their current content.
func resolve(t *Term, h *Heap) *Term {
	if t == nil {
		return t
	}
	if v, ok := h.get(contentKey(t)); ok && len(v) > 0 {
		return v.collapse()
	}
	switch t.op {
	case OSlice:
		b := resolve(t.args[0], h)
		if b != t.args[0] {
			return sliceT(b, t.args[1], t.args[2], false)
		}
		// an overwritten enclosing sub-slice ending at the same place
		for _, k := range overlays[t.args[0]] {
			if v, ok := h.get(contentKey(k)); ok && len(v) > 0 && k.args[2] == t.args[2] && k != t {
				return sliceT(v.collapse(), subT(t.args[1], k.args[1]), nil, false)
			}
		}
	case OIface:
		b := resolve(t.args[0], h)
		if b != t.args[0] {
			return mkT(OIface, t.s, t.k, t.aux, t.typ, b)
		}
	case OApp:
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = a
			if i == 0 || a.op == OSpread {
				args[i] = resolve(a, h)
				ch = ch || args[i] != a
			}
		}
		if ch {
			return mkT(OApp, t.s, t.k, t.aux, t.typ, args...)
		}
	case OSpread, OConcat:
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = resolve(a, h)
			ch = ch || args[i] != a
		}
		if ch {
			if t.op == OConcat {
				return concat(args...)
			}
			return mkT(t.op, t.s, t.k, t.aux, t.typ, args...)
		}
	}
	return t
}

func resolveVal(v Val, h *Heap) Val {
	out := make([]Case, len(v))
	for i, c := range v {
		out[i] = Case{c.g, resolve(c.t, h)}
	}
	if len(out) == 1 {
		return Val{{T, out[0].t}}
	}
	return out
}

// overlays lists, per backing object, the sub-slices that were overwritten.
var overlays = map[*Term][]*Term{}

// fresh drops the overwritten content recorded for a slice that is being
// newly created (pure constructors yield one term but a new object each time).
func fresh(st State, t *Term) State {
	for _, k := range append([]*Term{t}, overlays[t]...) {
		if v, ok := st.heap.get(contentKey(k)); ok && len(v) > 0 {
			st.heap = st.heap.set(contentKey(k), Val{})
		}
	}
	return st
}

func (e *Engine) setContent(st State, base *Term, v *Term) State {
	key := contentKey(base)
	e.access(key, true, nil, token.NoPos, st.pc)
	tgt := key.args[0]
	if tgt.op == OSlice {
		known := false
		for _, k := range overlays[tgt.args[0]] {
			known = known || k == tgt
		}
		if !known {
			overlays[tgt.args[0]] = append(overlays[tgt.args[0]], tgt)
		}
	}
	h := st.heap
	h.each(func(k *Term, _ Val) {
		if k.op == OIdxAddr && k.args[0] == tgt {
			h = h.set(k, Val{})
		}
	})
	return State{st.pc, h.set(key, one(v))}
}

func elemT(base, idx *Term, typ types.Type) *Term {
	switch base.op {
	case OSlice:
		return elemT(base.args[0], addT(base.args[1], idx), typ)
	case OApp:
		b := base.args[0]
		if b.op == ONil || b.op == OSym && b.s == "!empty" {
			if len(base.args) == 2 && base.args[1].op == OSpread {
				return elemT(base.args[1].args[0], idx, typ)
			}
			if n, ok := isIntConst(idx); ok && n >= 0 && int(n) < len(base.args)-1 {
				ok := true
				for i := 0; i <= int(n); i++ {
					if base.args[1+i].op == OSpread {
						ok = false
					}
				}
				if ok {
					return base.args[1+n]
				}
			}
		}
	case OTuple:
		if n, ok := isIntConst(idx); ok && n >= 0 && int(n) < len(base.args) {
			return base.args[n]
		}
	}
	return mkT(OElem, "", 0, nil, typ, base, idx)
}

// initial value of a location that was never written.
func initLoad(loc *Term, typ types.Type, h *Heap) *Term {
	switch loc.op {
	case OAlloc:
		if loc.s == "scalar-unknown" {
			return mkSym("?"+strconv.FormatInt(loc.k, 10), typ)
		}
		return zeroOf(typ)
	case OGlobal:
		return globalInit(loc, typ)
	case OFieldAddr:
		base := loc.args[0]
		if st, ok := wholeValue(base, h); ok {
			return fieldT(st, loc.s, loc.aux, typ)
		}
		if isFresh(base) {
			return zeroOf(typ)
		}
		return fieldT(base, loc.s, loc.aux, typ)
	case OIdxAddr:
		base := loc.args[0]
		if v, ok := h.get(contentKey(base)); ok && len(v) > 0 {
			return elemT(v.collapse(), loc.args[1], typ)
		}
		if base.op == OAlloc {
			if i, ok := base.aux.(allocInfo); ok && (i.kind == "new" || i.kind == "make") {
				// an element that was not written by constant index: join of writes
				var ts []*Term
				if _, isC := isIntConst(loc.args[1]); !isC {
					h.each(func(k *Term, v Val) {
						if k.op == OIdxAddr && k.args[0] == base {
							ts = append(ts, v.terms()...)
						}
					})
				}
				if len(ts) > 0 {
					return joinT(ts)
				}
				return zeroOf(typ)
			}
		}
		return elemT(base, loc.args[1], typ)
	}
	return mkT(OCall, "deref", 0, nil, typ, loc)
}

// wholeValue finds a value stored for an entire object (e.g. by decoding).
func wholeValue(base *Term, h *Heap) (*Term, bool) {
	if v, ok := h.get(base); ok && len(v) == 1 {
		return v[0].t, true
	}
	return nil, false
}

func isFresh(t *Term) bool {
	switch t.op {
	case OAlloc:
		return true
	case OFieldAddr, OIdxAddr:
		return isFresh(t.args[0])
	}
	return false
}

type fieldRef struct {
	name string
	tag  string
	idx  int
	st   types.Type
}

func fieldT(base *Term, name string, aux interface{}, typ types.Type) *Term {
	if base.op == OStruct {
		if fr, ok := aux.(fieldRef); ok && fr.idx < len(base.args) {
			return base.args[fr.idx]
		}
	}
	if fr, ok := aux.(fieldRef); ok && fr.tag != "" && isDoc(base) {
		return mkT(OMapGet, "", 0, nil, typ, base, mkStr(fr.tag))
	}
	return mkT(OField, name, 0, aux, typ, base)
}

// isDoc reports whether a term denotes (part of) a decoded document.
func isDoc(t *Term) bool {
	for {
		switch t.op {
		case OCall:
			return t.s == "doc"
		case OElem, OMapGet, OField, OTA:
			t = t.args[0]
		case OIdxAddr, OFieldAddr:
			t = t.args[0]
		default:
			return false
		}
	}
}

func globalInit(loc *Term, typ types.Type) *Term {
	g := loc.aux.(*ssa.Global)
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoPrefix) {
		return zeroOf(typ)
	}
	return mkSym("!"+g.String(), typ)
}

func (e *Engine) load(st State, addr Val, typ types.Type) Val {
	var cs []Case
	for _, a := range addr {
		g := a.g
		if len(addr) > 1 && and(g, st.pc) == F {
			continue
		}
		for _, c := range e.loadLoc(st.heap, a.t, typ) {
			cs = append(cs, Case{and(g, c.g), c.t})
		}
	}
	return mkVal(cs, st.pc)
}

func (e *Engine) loadLoc(h *Heap, loc *Term, typ types.Type) Val {
	if v, ok := h.get(loc); ok && len(v) > 0 {
		if u, isS := typ.Underlying().(*types.Struct); isS && len(v) == 1 && v[0].t.op != OStruct {
			return one(e.structFrom(h, v[0].t, u, typ))
		}
		return v
	}
	if u, ok := typ.Underlying().(*types.Struct); ok && !isOpaqueStruct(typ) {
		var cases = []Case{{T, nil}}
		acc := [][]*Term{{}}
		gs := []BDD{T}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			v := e.loadLoc(h, fieldAddr(loc, u, i, typ), f.Type())
			if len(v)*len(acc) > 12 {
				v = one(v.collapse())
			}
			var na [][]*Term
			var ng []BDD
			for j, a := range acc {
				for _, c := range v {
					g := and(gs[j], c.g)
					if g == F {
						continue
					}
					na = append(na, append(append([]*Term{}, a...), c.t))
					ng = append(ng, g)
				}
			}
			acc, gs = na, ng
		}
		cases = nil
		for j, a := range acc {
			cases = append(cases, Case{gs[j], mkT(OStruct, typ.String(), 0, nil, typ, a...)})
		}
		return mkVal(cases, T)
	}
	return one(initLoad(loc, typ, h))
}

func (e *Engine) structFrom(h *Heap, v *Term, u *types.Struct, typ types.Type) *Term {
	var a []*Term
	for i := 0; i < u.NumFields(); i++ {
		fr := fieldRefOf(u, i, typ)
		a = append(a, fieldT(v, fr.name, fr, u.Field(i).Type()))
	}
	return mkT(OStruct, typ.String(), 0, nil, typ, a...)
}

// isOpaqueStruct: structs of external packages whose unexported contents are
// irrelevant are handled as opaque values (time.Time, ...).
func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "sync.Mutex", "sync.Once", "sync.RWMutex", "sync.WaitGroup", "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

func fieldRefOf(u *types.Struct, i int, st types.Type) fieldRef {
	f := u.Field(i)
	tag := ""
	for _, k := range []string{"json:\"", "yaml:\""} {
		if j := strings.Index(u.Tag(i), k); j >= 0 {
			s := u.Tag(i)[j+len(k):]
			if q := strings.IndexAny(s, ",\""); q >= 0 {
				s = s[:q]
			}
			if s != "" && s != "-" {
				tag = s
			}
		}
	}
	return fieldRef{f.Name(), tag, i, st}
}

func fieldAddr(base *Term, u *types.Struct, i int, st types.Type) *Term {
	fr := fieldRefOf(u, i, st)
	return mkT(OFieldAddr, fr.name, 0, fr, types.NewPointer(u.Field(i).Type()), base)
}

func (e *Engine) store(st State, addr, val Val, typ types.Type) State {
	h := st.heap
	for _, a := range addr {
		if len(addr) > 1 && and(a.g, st.pc) == F {
			continue
		}
		h = e.storeLoc(State{st.pc, h}, a.t, val, typ, a.g, len(addr) > 1)
	}
	return State{st.pc, h}
}

func (e *Engine) storeLoc(st State, loc *Term, val Val, typ types.Type, g BDD, weak bool) *Heap {
	h := st.heap
	if u, ok := typ.Underlying().(*types.Struct); ok && !isOpaqueStruct(typ) {
		for i := 0; i < u.NumFields(); i++ {
			var cs []Case
			fr := fieldRefOf(u, i, typ)
			for _, c := range val {
				cs = append(cs, Case{c.g, fieldT(c.t, fr.name, fr, u.Field(i).Type())})
			}
			h = e.storeLoc(State{st.pc, h}, fieldAddr(loc, u, i, typ), mkVal(cs, st.pc), u.Field(i).Type(), g, weak)
		}
		return h
	}
	if weak {
		old := e.loadLoc(h, loc, typ)
		var cs []Case
		for _, c := range val {
			cs = append(cs, Case{and(g, c.g), c.t})
		}
		for _, c := range old {
			cs = append(cs, Case{and(not(g), c.g), c.t})
		}
		val = mkVal(cs, st.pc)
	}
	return h.set(loc, val)
}

// joinHeap merges the heaps of several edges.
func (e *Engine) joinStates(es []Edge) State {
	pc := F
	for _, x := range es {
		pc = or(pc, x.pc)
	}
	h := es[0].heap
	g := es[0].pc
	for _, x := range es[1:] {
		h = e.join2(h, g, x.heap, x.pc)
		g = or(g, x.pc)
	}
	return State{pc, h}
}

func (e *Engine) join2(a *Heap, ga BDD, b *Heap, gb BDD) *Heap {
	if a == b {
		return a
	}
	pc := or(ga, gb)
	out := a
	diffHeap(a, b, func(k *Term, va Val, oka bool, vb Val, okb bool) {
		get := func(v Val, ok bool, h *Heap) Val {
			if ok && len(v) > 0 {
				return v
			}
			if ok && len(v) == 0 {
				return Val{}
			}
			return e.absent(k, h)
		}
		x, y := get(va, oka, a), get(vb, okb, b)
		if len(x) == 0 || len(y) == 0 {
			if len(x) == 0 {
				x = y
			}
			if len(x) == 0 {
				out = out.set(k, Val{})
				return
			}
			out = out.set(k, x)
			return
		}
		var cs []Case
		for _, c := range x {
			cs = append(cs, Case{and(ga, c.g), c.t})
		}
		for _, c := range y {
			cs = append(cs, Case{and(gb, c.g), c.t})
		}
		out = out.set(k, mkVal(cs, pc))
	})
	return out
}

// absent is the value of a location missing from one of two joined heaps.
func (e *Engine) absent(k *Term, h *Heap) Val {
	switch k.op {
	case OContent:
		if k.s == "buf" {
			return one(mkStr(""))
		}
		return one(k.args[0])
	case OMapLoc:
		m := k.args[0]
		if m.op == OAlloc {
			if mt, ok := m.typ.Underlying().(*types.Map); ok {
				return one(zeroOf(mt.Elem()))
			}
			return one(mkNil())
		}
		return one(mapGetT(m, k.args[1], nil))
	}
	if k.typ != nil {
		if k.op == OIdxAddr && k.args[0].op == OAlloc {
			return Val{}
		}
		return one(initLoad(k, derefType(k.typ), h))
	}
	return one(mkSym(fmt.Sprintf("?loc%d", k.id), nil))
}

func mapGetT(m, k *Term, typ types.Type) *Term {
	return mkT(OMapGet, "", 0, nil, typ, m, k)
}

// ---- function execution

type node struct {
	block *ssa.BasicBlock
	loop  *loopNode
}

type loopNode struct {
	header  *ssa.BasicBlock
	nodes   []*node
	set     map[*ssa.BasicBlock]bool
	liveOut []ssa.Value
}

type plan struct{ nodes []*node }

func (e *Engine) planOf(fn *ssa.Function) *plan {
	if p, ok := e.plans[fn]; ok {
		return p
	}
	set := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if set[b] {
			return
		}
		set[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(fn.Blocks[0])
	p := &plan{nodes: buildNodes(set, nil)}
	e.plans[fn] = p
	return p
}

func buildNodes(set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) []*node {
	// Tarjan SCC on set, ignoring edges into header
	idx := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	n := 0
	var sccs [][]*ssa.BasicBlock
	var order []*ssa.BasicBlock
	for b := range set {
		order = append(order, b)
	}
	// deterministic
	for i := 1; i < len(order); i++ {
		for j := i; j > 0 && order[j].Index < order[j-1].Index; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	if header != nil {
		for i, b := range order {
			if b == header {
				order[0], order[i] = order[i], order[0]
			}
		}
	}
	var strong func(v *ssa.BasicBlock)
	strong = func(v *ssa.BasicBlock) {
		n++
		idx[v], low[v] = n, n
		st = append(st, v)
		on[v] = true
		for _, w := range v.Succs {
			if !set[w] || w == header {
				continue
			}
			if idx[w] == 0 {
				strong(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var c []*ssa.BasicBlock
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			sccs = append(sccs, c)
		}
	}
	for _, b := range order {
		if idx[b] == 0 {
			strong(b)
		}
	}
	var out []*node
	for i := len(sccs) - 1; i >= 0; i-- {
		c := sccs[i]
		self := false
		if len(c) == 1 {
			for _, s := range c[0].Succs {
				if s == c[0] && s != header {
					self = true
				}
			}
		}
		if len(c) == 1 && !self {
			out = append(out, &node{block: c[0]})
			continue
		}
		cs := map[*ssa.BasicBlock]bool{}
		for _, b := range c {
			cs[b] = true
		}
		var h *ssa.BasicBlock
		for _, b := range c {
			for _, p := range b.Preds {
				if !cs[p] && (h == nil || b.Index < h.Index) {
					h = b
				}
			}
		}
		if h == nil {
			h = c[0]
		}
		ln := &loopNode{header: h, set: cs}
		ln.nodes = buildNodes(cs, h)
		for _, b := range c {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !cs[r.Block()] {
						ln.liveOut = append(ln.liveOut, v)
						break
					}
				}
			}
		}
		out = append(out, &node{block: h, loop: ln})
	}
	return out
}

const maxDepth = 60

func (e *Engine) runFn(fn *ssa.Function, args, binds []Val, st State, parent *Ctx, site ssa.Instruction, iter string) ([]Val, State) {
	e.inlined[fn]++
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, tuples: map[ssa.Value][]Val{}, binds: binds,
		hdr: map[*ssa.BasicBlock]BDD{}, hdrPC: map[*ssa.BasicBlock]BDD{}}
	fr.ctx = e.mkCtx(parent, site, fn, iter)
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = one(mkSym("?param:"+p.Name(), p.Type()))
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			fr.env[b] = binds[i]
		} else {
			fr.env[b] = one(mkSym("?free:"+b.Name(), b.Type()))
		}
	}
	in := map[*ssa.BasicBlock][]Edge{fn.Blocks[0]: {{to: fn.Blocks[0], pc: st.pc, heap: st.heap}}}
	e.runNodes(fr, e.planOf(fn).nodes, in, func(Edge) {})
	if len(fr.rets) == 0 {
		return zeroResults(fn.Signature.Results()), State{F, st.heap}
	}
	nres := fn.Signature.Results().Len()
	var es []Edge
	for _, r := range fr.rets {
		es = append(es, Edge{pc: r.pc, heap: r.heap})
	}
	out := e.joinStates(es)
	vals := make([]Val, nres)
	for i := 0; i < nres; i++ {
		var cs []Case
		for _, r := range fr.rets {
			for _, c := range r.vals[i] {
				cs = append(cs, Case{and(r.pc, c.g), c.t})
			}
		}
		vals[i] = mkVal(cs, out.pc)
	}
	return vals, out
}

func zeroResults(t *types.Tuple) []Val {
	var vs []Val
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, one(mkSym("?dead", t.At(i).Type())))
	}
	return vs
}

func (e *Engine) runNodes(fr *Frame, nodes []*node, in map[*ssa.BasicBlock][]Edge, sink func(Edge)) {
	set := map[*ssa.BasicBlock]bool{}
	done := map[*ssa.BasicBlock]bool{}
	for _, n := range nodes {
		set[n.block] = true
	}
	for _, n := range nodes {
		es := live(in[n.block])
		done[n.block] = true
		if len(es) == 0 {
			continue
		}
		push := func(x Edge) {
			if set[x.to] && !done[x.to] {
				in[x.to] = append(in[x.to], x)
			} else {
				sink(x)
			}
		}
		if n.loop == nil {
			e.runBlock(fr, n.block, es, push)
		} else {
			e.runLoop(fr, n.loop, es, push)
		}
	}
}

func live(es []Edge) []Edge {
	var out []Edge
	for _, x := range es {
		if x.pc != F && sat(x.pc) {
			out = append(out, x)
		}
	}
	return out
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func mergePhis(es []Edge, n int, pc BDD) []Val {
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		var cs []Case
		for _, x := range es {
			if i < len(x.phis) {
				for _, c := range x.phis[i] {
					cs = append(cs, Case{and(x.pc, c.g), c.t})
				}
			}
		}
		out[i] = mkVal(cs, pc)
	}
	return out
}

func (e *Engine) runBlock(fr *Frame, b *ssa.BasicBlock, es []Edge, push func(Edge)) {
	st := e.joinStates(es)
	ps := phisOf(b)
	vals := mergePhis(es, len(ps), st.pc)
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
	e.execInstrs(fr, b, st, push)
}

func (e *Engine) mkEdge(fr *Frame, from, to *ssa.BasicBlock, succIdx int, pc BDD, h *Heap) Edge {
	ed := Edge{from: from, to: to, pc: pc, heap: h}
	ps := phisOf(to)
	if len(ps) > 0 {
		// pred index: account for duplicate edges
		occ := 0
		for i := 0; i < succIdx; i++ {
			if from.Succs[i] == to {
				occ++
			}
		}
		pi := -1
		for j, p := range to.Preds {
			if p == from {
				if occ == 0 {
					pi = j
					break
				}
				occ--
			}
		}
		for _, p := range ps {
			ed.phis = append(ed.phis, prune(e.val(fr, p.Edges[pi]), pc))
		}
	}
	return ed
}

// ---- loops

func (e *Engine) runLoop(fr *Frame, ln *loopNode, entry []Edge, push func(Edge)) {
	evMark, retMark, defMark := len(e.events), len(fr.rets), len(fr.defers)
	rollback := func() {
		e.events = e.events[:evMark]
		fr.rets = fr.rets[:retMark]
		fr.defers = fr.defers[:defMark]
	}
	type exit struct {
		ed   Edge
		snap map[ssa.Value]Val
	}
	finish := func(exits []exit) {
		for _, v := range ln.liveOut {
			var cs []Case
			pc := F
			for _, x := range exits {
				if val, ok := x.snap[v]; ok {
					pc = or(pc, x.ed.pc)
					for _, c := range val {
						cs = append(cs, Case{and(x.ed.pc, c.g), c.t})
					}
				}
			}
			if len(cs) > 0 {
				fr.env[v] = mkVal(cs, pc)
			}
		}
		for _, x := range exits {
			push(x.ed)
		}
	}
	snapOf := func() map[ssa.Value]Val {
		m := map[ssa.Value]Val{}
		for _, v := range ln.liveOut {
			if x, ok := fr.env[v]; ok {
				m[v] = x
			}
		}
		return m
	}
	// --- unrolling of loops whose header condition is decided in every round
	saveIter := fr.iter
	if _, isIf := ln.header.Instrs[len(ln.header.Instrs)-1].(*ssa.If); isIf {
		cur := entry
		var exits []exit
		ok := false
		most := 72
		if e.stub != nil {
			most = 4 // long fixed lists stay lists
		}
		for it := 0; it < most; it++ {
			fr.iter = saveIter + "." + strconv.Itoa(ln.header.Index) + ":" + strconv.Itoa(it)
			var backs []Edge
			delete(fr.hdr, ln.header)
			in := map[*ssa.BasicBlock][]Edge{ln.header: cur}
			abort := false
			e.runHeaderFirst(fr, ln, in, &abort, func(x Edge) {
				if x.to == ln.header {
					backs = append(backs, x)
				} else {
					exits = append(exits, exit{x, snapOf()})
				}
			})
			if abort {
				break
			}
			backs = live(backs)
			if len(backs) == 0 {
				ok = true
				break
			}
			cur = backs
		}
		fr.iter = saveIter
		if ok {
			finish(exits)
			return
		}
		rollback()
	}
	// --- generic iteration
	key := fmt.Sprintf("%d|%s|%p", fr.ctx.id, fr.iter, ln.header)
	id, okid := e.loopIDs[key]
	if !okid {
		id = int64(len(e.loopIDs) + 1)
		e.loopIDs[key] = id
	}
	K := mkK(id)
	es := e.joinStates(entry)
	ps := phisOf(ln.header)
	init := mergePhis(entry, len(ps), es.pc)
	type guess struct {
		mu   *Term
		val  Val
		ind  bool
		step int64
		inv  bool
	}
	gs := make([]*guess, len(ps))
	for i, p := range ps {
		mu := mkT(OMu, "phi:"+p.Name()+":"+p.Comment, id, nil, p.Type())
		if len(init[i]) == 1 {
			mu.nonneg = false
		}
		gs[i] = &guess{mu: mu, val: one(mu)}
	}
	hmu := map[*Term]*guess{}
	var hkeys []*Term
	e.lstack = append(e.lstack, id)
	var exits []exit
	var backs []Edge
	var headHeap *Heap
	for pass := 0; pass < 10; pass++ {
		rollback()
		exits, backs = nil, nil
		headHeap = es.heap
		for _, k := range hkeys {
			headHeap = headHeap.set(k, hmu[k].val)
		}
		hd := Edge{to: ln.header, pc: es.pc, heap: headHeap}
		for i := range ps {
			hd.phis = append(hd.phis, gs[i].val)
		}
		in := map[*ssa.BasicBlock][]Edge{ln.header: {hd}}
		e.runNodes(fr, ln.nodes, in, func(x Edge) {
			if x.to == ln.header {
				backs = append(backs, x)
			} else {
				exits = append(exits, exit{x, snapOf()})
			}
		})
		backs = live(backs)
		if len(backs) == 0 {
			break
		}
		bs := e.joinStates(backs)
		bp := mergePhis(backs, len(ps), bs.pc)
		changed := false
		upd := func(g *guess, init, back Val) {
			switch {
			case g.inv:
				if !sameVal(back, g.val) {
					g.inv = false
					g.val = one(g.mu)
					g.step = -999
					changed = true
				}
			case g.ind:
				if t := back.single(); t == nil || t != addT(g.val[0].t, mkInt(g.step)) {
					g.ind = false
					g.step = -999
					g.val = one(g.mu)
					changed = true
				}
			case g.step == -999:
			default:
				t := back.single()
				if t == g.mu {
					g.inv = true
					g.val = init
					changed = true
				} else if t != nil && isIntTyped(g.mu) && len(init) == 1 {
					d := subT(t, g.mu)
					if n, ok := isIntConst(d); ok {
						g.ind, g.step = true, n
						g.val = one(linComb(init[0].t, 1, K, n))
						changed = true
					}
				}
			}
		}
		for i := range ps {
			upd(gs[i], init[i], bp[i])
		}
		diffHeap(headHeap, bs.heap, func(k *Term, va Val, oka bool, vb Val, okb bool) {
			if contains(rootObj(k), K) {
				return
			}
			if _, ok := hmu[k]; ok {
				return
			}
			if ro := rootObj(k); k.op == OContent && ro.op == OMu && e.within(ro.k, id) {
				return // a list made anew by a loop inside
			}
			if k.op == OIdxAddr && (contains(k, K)) || k.op == OMapLoc && contains(k, K) {
				return
			}
			if !oka && !freshBefore(k, es.heap) {
				// object created during the loop by a non-loop context
			}
			var typ types.Type
			if len(vb) > 0 {
				typ = vb[0].t.typ
			} else if len(va) > 0 {
				typ = va[0].t.typ
			}
			if typ == nil && k.typ != nil {
				typ = derefType(k.typ)
			}
			mu := mkT(OMu, "loc", id, nil, typ, k)
			hmu[k] = &guess{mu: mu, val: one(mu)}
			hkeys = append(hkeys, k)
			changed = true
		})
		for _, k := range hkeys {
			iv, ok := es.heap.get(k)
			if !ok || len(iv) == 0 {
				iv = e.absent(k, es.heap)
			}
			bv, ok := bs.heap.get(k)
			if !ok || len(bv) == 0 {
				bv = one(hmu[k].mu)
			}
			if len(iv) > 0 {
				upd(hmu[k], iv, bv)
			}
		}
		if !changed {
			break
		}
	}
	e.lstack = e.lstack[:len(e.lstack)-1]
	li := &LoopInfo{id: id, fn: fr.fn, pos: ln.header.Instrs[0].Pos(), vars: map[*Term]*loopVar{}, entry: es.pc, ctx: fr.ctx}
	if len(e.lstack) > 0 {
		li.parent = e.lstack[len(e.lstack)-1]
	}
	if !li.pos.IsValid() {
		for _, ins := range ln.header.Instrs {
			if ins.Pos().IsValid() {
				li.pos = ins.Pos()
			}
		}
	}
	if len(backs) > 0 {
		bs := e.joinStates(backs)
		li.back = bs.pc
		li.backHp = bs.heap
		bp := mergePhis(backs, len(ps), bs.pc)
		for i, p := range ps {
			if !gs[i].inv && !gs[i].ind {
				li.vars[gs[i].mu] = &loopVar{init: init[i], back: bp[i], val: gs[i].mu, name: p.Comment, phi: p}
			}
		}
		for _, k := range hkeys {
			if g := hmu[k]; !g.inv && !g.ind {
				iv, ok := es.heap.get(k)
				if !ok || len(iv) == 0 {
					iv = e.absent(k, es.heap)
				}
				bv, _ := bs.heap.get(k)
				li.vars[g.mu] = &loopVar{init: iv, back: bv, val: g.mu, loc: k}
			}
		}
	}
	for _, x := range exits {
		li.exits = append(li.exits, exitInfo{x.ed.pc, x.ed.from == ln.header})
	}
	e.loops[id] = li
	finish(exits)
}

func freshBefore(k *Term, h *Heap) bool { return true }

// runHeaderFirst runs one round of a loop body but aborts as soon as the
// header condition turns out not to be decided.
func (e *Engine) runHeaderFirst(fr *Frame, ln *loopNode, in map[*ssa.BasicBlock][]Edge, abort *bool, sink func(Edge)) {
	set := map[*ssa.BasicBlock]bool{}
	done := map[*ssa.BasicBlock]bool{}
	for _, n := range ln.nodes {
		set[n.block] = true
	}
	for i, n := range ln.nodes {
		es := live(in[n.block])
		done[n.block] = true
		if len(es) == 0 {
			continue
		}
		push := func(x Edge) {
			if set[x.to] && !done[x.to] {
				in[x.to] = append(in[x.to], x)
			} else {
				sink(x)
			}
		}
		if n.loop == nil {
			e.runBlock(fr, n.block, es, push)
		} else {
			e.runLoop(fr, n.loop, es, push)
		}
		if i == 0 {
			c, pc := fr.hdr[ln.header], fr.hdrPC[ln.header]
			if and(c, pc) != F && diff(pc, c) != F {
				*abort = true
				return
			}
		}
	}
}

// ---- instructions

func (e *Engine) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return one(constTerm(x))
	case *ssa.Function:
		return one(mkT(OFn, x.String(), 0, x, x.Type()))
	case *ssa.Global:
		return one(mkT(OGlobal, x.String(), 0, x, x.Type()))
	case *ssa.Builtin:
		return one(mkSym("builtin:"+x.Name(), nil))
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return one(mkSym("?undef:"+v.Name()+"@"+fr.fn.String(), v.Type()))
}

// lift1 / lift2 apply term functions over the guarded alternatives.
func lift1(a Val, pc BDD, f func(*Term) *Term) Val {
	if len(a) == 1 {
		return one(f(a[0].t))
	}
	var cs []Case
	for _, x := range a {
		if and(x.g, pc) != F {
			cs = append(cs, Case{x.g, f(x.t)})
		}
	}
	return mkVal(cs, pc)
}

func lift2(a, b Val, pc BDD, f func(x, y *Term) *Term) Val {
	if len(a) == 1 && len(b) == 1 {
		return one(f(a[0].t, b[0].t))
	}
	var cs []Case
	for _, x := range a {
		for _, y := range b {
			g := and(x.g, y.g)
			if and(g, pc) != F {
				cs = append(cs, Case{g, f(x.t, y.t)})
			}
		}
	}
	return mkVal(cs, pc)
}

// liftN enumerates combinations of alternatives, bounded.
func liftN(vs []Val, pc BDD, f func(ts []*Term) *Term) Val {
	total := 1
	for _, v := range vs {
		total *= len(v)
	}
	if total > 64 {
		ws := make([]Val, len(vs))
		for i, v := range vs {
			ws[i] = v
			if total > 64 && len(v) > 1 {
				total /= len(v)
				ws[i] = one(v.collapse())
			}
		}
		vs = ws
	}
	acc := []Case{{T, nil}}
	lists := [][]*Term{nil}
	for _, v := range vs {
		var na []Case
		var nl [][]*Term
		for i, a := range acc {
			for _, c := range v {
				g := and(a.g, c.g)
				if len(v) > 1 && and(g, pc) == F {
					continue
				}
				na = append(na, Case{g, nil})
				nl = append(nl, append(append([]*Term{}, lists[i]...), c.t))
			}
		}
		acc, lists = na, nl
	}
	var cs []Case
	for i, a := range acc {
		cs = append(cs, Case{a.g, f(lists[i])})
	}
	return mkVal(cs, pc)
}

func boolVal(b BDD) Val { return one(mkBool(b)) }

func (e *Engine) execInstrs(fr *Frame, b *ssa.BasicBlock, st State, push func(Edge)) {
	for _, ins := range b.Instrs {
		if st.pc == F {
			return
		}
		e.steps++
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := valBool(e.val(fr, x.Cond))
			tpc, fpc := and(st.pc, c), diff(st.pc, c)
			if tpc != F && !sat(tpc) {
				tpc = F
			}
			if fpc != F && !sat(fpc) {
				fpc = F
			}
			fr.hdrPC[b] = st.pc
			switch {
			case tpc == F:
				fr.hdr[b] = F
			case fpc == F:
				fr.hdr[b] = T
			default:
				fr.hdr[b] = c
			}
			if tpc != F {
				push(e.mkEdge(fr, b, b.Succs[0], 0, tpc, st.heap))
			}
			if fpc != F {
				push(e.mkEdge(fr, b, b.Succs[1], 1, fpc, st.heap))
			}
			return
		case *ssa.Jump:
			push(e.mkEdge(fr, b, b.Succs[0], 0, st.pc, st.heap))
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				v := prune(e.val(fr, r), st.pc)
				if isBytes(r.Type()) {
					v = resolveVal(v, st.heap)
				}
				vs = append(vs, v)
			}
			fr.rets = append(fr.rets, ret{st.pc, st.heap, vs})
			return
		case *ssa.Panic:
			e.emit(fr, "panic", "panic", ins, x.Pos(), st, []Val{e.val(fr, x.X)}, nil)
			return
		case *ssa.Store:
			addr, v := prune(e.val(fr, x.Addr), st.pc), prune(e.val(fr, x.Val), st.pc)
			for _, a := range addr {
				e.access(a.t, true, fr, x.Pos(), and(st.pc, a.g))
				r := rootObj(a.t)
				if r.op != OAlloc && r.op != OGlobal || e.async > 0 {
					e.emit(fr, "store", "store", ins, x.Pos(), State{and(st.pc, a.g), st.heap}, []Val{one(a.t), v}, nil)
				}
			}
			e.checkNil(fr, x, x.Pos(), st, addr)
			st = e.store(st, addr, v, x.Val.Type())
		case *ssa.MapUpdate:
			m, k, v := prune(e.val(fr, x.Map), st.pc), e.val(fr, x.Key), prune(e.val(fr, x.Value), st.pc)
			nilg := F
			var addr []Case
			for _, c := range m {
				if c.t.op == ONil {
					nilg = or(nilg, c.g)
					continue
				}
				if !knownNonNil(c.t) {
					nilg = or(nilg, and(c.g, eqB(c.t, mkNil())))
				}
				for _, kk := range k {
					addr = append(addr, Case{and(c.g, kk.g), mkT(OMapLoc, "", 0, nil, nil, c.t, kk.t)})
				}
			}
			if and(nilg, st.pc) != F {
				e.emit(fr, "nilmap", "nilmap", ins, x.Pos(), State{and(st.pc, nilg), st.heap}, []Val{m, k}, nil)
			}
			if len(addr) > 0 {
				e.emit(fr, "mapstore", "mapstore", ins, x.Pos(), st, []Val{m, k, v}, nil)
				for _, c := range m {
					e.access(contentKey(c.t), true, fr, x.Pos(), st.pc)
				}
				h := st.heap
				for _, a := range addr {
					h = e.storeMapLoc(State{st.pc, h}, a, v, len(addr) > 1)
				}
				st.heap = h
			}
		case *ssa.Defer:
			fr.defers = append(fr.defers, e.mkDefer(fr, x, st))
		case *ssa.RunDefers:
			ds := fr.defers
			for i := len(ds) - 1; i >= 0; i-- {
				d := ds[i]
				g := and(st.pc, d.g)
				if g == F || !sat(g) {
					continue
				}
				_, st2 := e.doCall(fr, d.inst, d.call, d.fnv, d.args, State{g, st.heap}, "defer"+strconv.Itoa(i))
				rest := diff(st.pc, d.g)
				if rest == F || !sat(rest) {
					st = st2
				} else if st2.pc == F {
					st = State{rest, st.heap}
				} else {
					st = e.joinStates([]Edge{{pc: st2.pc, heap: st2.heap}, {pc: rest, heap: st.heap}})
				}
			}
		case *ssa.Go:
			fnv, args := e.callOperands(fr, x.Common(), st)
			e.emit(fr, "go", "go", ins, x.Pos(), st, append([]Val{fnv}, args...), nil)
			e.async++
			_, st2 := e.doCall(fr, x, x.Common(), fnv, args, st, "go")
			e.async--
			_ = st2
		case *ssa.Send:
			e.emit(fr, "send", "send", ins, x.Pos(), st, []Val{e.val(fr, x.Chan), e.val(fr, x.X)}, nil)
		case *ssa.Call:
			fnv, args := e.callOperands(fr, x.Common(), st)
			rs, st2 := e.doCall(fr, x, x.Common(), fnv, args, st, "")
			st = st2
			if _, ok := x.Type().(*types.Tuple); ok {
				fr.tuples[x] = rs
			} else if len(rs) > 0 {
				fr.env[x] = rs[0]
			}
		case ssa.Value:
			v, st2 := e.eval(fr, x, st)
			st = st2
			fr.env[x] = v
		default:
			e.note("unhandled instruction %T", ins)
		}
	}
}

func (e *Engine) storeMapLoc(st State, a Case, v Val, weak bool) *Heap {
	if weak {
		old, ok := st.heap.get(a.t)
		if !ok || len(old) == 0 {
			old = e.absent(a.t, st.heap)
		}
		var cs []Case
		for _, c := range v {
			cs = append(cs, Case{and(a.g, c.g), c.t})
		}
		for _, c := range old {
			cs = append(cs, Case{and(not(a.g), c.g), c.t})
		}
		v = mkVal(cs, st.pc)
	}
	return st.heap.set(a.t, v)
}

func (e *Engine) mkDefer(fr *Frame, x *ssa.Defer, st State) deferRec {
	fnv, args := e.callOperands(fr, x.Common(), st)
	return deferRec{g: st.pc, call: x.Common(), args: args, fnv: fnv, pos: x.Pos(), inst: x}
}

func (e *Engine) callOperands(fr *Frame, c *ssa.CallCommon, st State) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, prune(e.val(fr, a), st.pc))
	}
	return prune(e.val(fr, c.Value), st.pc), args
}

func (e *Engine) eval(fr *Frame, v ssa.Value, st State) (Val, State) {
	pc := st.pc
	switch x := v.(type) {
	case *ssa.Alloc:
		o := e.newObj(fr, x, "o", x.Type(), allocInfo{kind: "new", pos: x.Pos()})
		return one(o), st
	case *ssa.BinOp:
		return e.binop(x.Op, prune(e.val(fr, x.X), pc), prune(e.val(fr, x.Y), pc), x, pc), st
	case *ssa.UnOp:
		a := prune(e.val(fr, x.X), pc)
		switch x.Op {
		case token.MUL:
			for _, c := range a {
				e.access(c.t, false, fr, x.Pos(), st.pc)
			}
			e.checkNil(fr, x, x.Pos(), st, a)
			return e.load(st, a, x.Type()), st
		case token.NOT:
			return boolVal(not(valBool(a))), st
		case token.SUB:
			return lift1(a, pc, func(t *Term) *Term {
				if isIntTyped(t) {
					return subT(mkInt(0), t)
				}
				return mkT(OUn, "-", 0, nil, x.Type(), t)
			}), st
		case token.ARROW:
			t := mkT(OCall, "chan.recv", e.siteID(fr, x, "recv"), nil, x.Type(), a.collapse())
			e.emit(fr, "recv", "chan.recv", x, x.Pos(), st, []Val{a}, t)
			if x.CommaOk {
				fr.tuples[x] = []Val{one(mkT(OProj, "0", 0, nil, nil, t)), one(mkT(OProj, "1", 0, nil, nil, t))}
			}
			return one(t), st
		default:
			return lift1(a, pc, func(t *Term) *Term { return mkT(OUn, x.Op.String(), 0, nil, x.Type(), t) }), st
		}
	case *ssa.ChangeType:
		return e.val(fr, x.X), st
	case *ssa.ChangeInterface:
		return e.val(fr, x.X), st
	case *ssa.MakeInterface:
		if types.IsInterface(x.X.Type()) {
			return e.val(fr, x.X), st
		}
		s := types.TypeString(x.X.Type(), nil)
		return lift1x(e.val(fr, x.X), func(t *Term) *Term { return mkT(OIface, s, 0, x.X.Type(), x.X.Type(), t) }), st
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			v := lift1(e.val(fr, x.X), pc, func(t *Term) *Term { return convT(t, x.X.Type(), x.Type()) })
			for _, c := range v {
				st = fresh(st, c.t)
			}
			return v, st
		}
		return lift1(e.val(fr, x.X), pc, func(t *Term) *Term { return convT(resolve(t, st.heap), x.X.Type(), x.Type()) }), st
	case *ssa.MultiConvert:
		return e.val(fr, x.X), st
	case *ssa.SliceToArrayPointer:
		return e.val(fr, x.X), st
	case *ssa.Extract:
		if ts, ok := fr.tuples[x.Tuple]; ok && x.Index < len(ts) {
			return ts[x.Index], st
		}
		return lift1(e.val(fr, x.Tuple), pc, func(t *Term) *Term { return mkT(OProj, strconv.Itoa(x.Index), 0, nil, x.Type(), t) }), st
	case *ssa.FieldAddr:
		ptr := x.X.Type().Underlying().(*types.Pointer).Elem()
		u := ptr.Underlying().(*types.Struct)
		e.checkNil(fr, x, x.Pos(), st, prune(e.val(fr, x.X), pc))
		return lift1(prune(e.val(fr, x.X), pc), pc, func(t *Term) *Term {
			return fieldAddr(t, u, x.Field, ptr)
		}), st
	case *ssa.Field:
		u := x.X.Type().Underlying().(*types.Struct)
		fref := fieldRefOf(u, x.Field, x.X.Type())
		return lift1(e.val(fr, x.X), pc, func(t *Term) *Term { return fieldT(t, fref.name, fref, x.Type()) }), st
	case *ssa.IndexAddr:
		base, idx := prune(e.val(fr, x.X), pc), prune(e.val(fr, x.Index), pc)
		e.checkIndex(fr, x, x.Pos(), st, base, idx)
		pt := x.Type()
		return lift2(base, idx, pc, func(b, i *Term) *Term { return idxAddr(b, i, pt) }), st
	case *ssa.Index:
		base, idx := prune(e.val(fr, x.X), pc), prune(e.val(fr, x.Index), pc)
		e.checkIndex(fr, x, x.Pos(), st, base, idx)
		return lift2(base, idx, pc, func(b, i *Term) *Term { return elemT(resolve(b, st.heap), i, x.Type()) }), st
	case *ssa.Lookup:
		return e.lookup(fr, x, st), st
	case *ssa.MakeMap:
		return one(e.newObj(fr, x, "m", x.Type(), allocInfo{kind: "map", pos: x.Pos()})), st
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len)
		if t := n.single(); t != nil {
			if k, ok := isIntConst(t); ok && k == 0 {
				return one(mkSym("!empty", nil)), st
			}
		}
		// lists of different lengths are different objects
		e.checked["make"]++
		bad := F
		for _, c := range prune(n, pc) {
			bad = or(bad, and(c.g, pc, not(ge0(c.t))))
		}
		if bad != F && sat(bad) {
			ev := e.emit(fr, "make", "make", x, x.Pos(), st, []Val{n}, nil)
			ev.extra = map[string]interface{}{"bad": bad}
		}
		l := n.collapse()
		return one(e.newObj(fr, x, fmt.Sprintf("s%d", l.id), x.Type(), allocInfo{kind: "make", length: l, pos: x.Pos()})), st
	case *ssa.MakeChan:
		return one(e.newObj(fr, x, "c", x.Type(), allocInfo{kind: "chan", pos: x.Pos()})), st
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, prune(e.val(fr, b), pc))
		}
		return liftN(bs, pc, func(ts []*Term) *Term { return mkT(OClo, fn.String(), 0, fn, x.Type(), ts...) }), st
	case *ssa.Slice:
		base := prune(e.val(fr, x.X), pc)
		lo, hi := one(mkInt(0)), Val(nil)
		if x.Low != nil {
			lo = prune(e.val(fr, x.Low), pc)
		}
		if x.High != nil {
			hi = prune(e.val(fr, x.High), pc)
		}
		isStr := false
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			isStr = true
		}
		e.checkSlice(fr, x, st, base, lo, hi)
		// a slice of an array that was assigned as a whole has its content
		for _, c := range base {
			if _, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok && c.t.op == OAlloc {
				if v, ok := st.heap.get(c.t); ok && len(v) == 1 && v[0].t.op == OCall {
					if old, ok := st.heap.get(contentKey(c.t)); !ok || len(old) == 0 {
						st = e.setContent(st, c.t, v[0].t)
					}
				}
			}
		}
		if !isStr && len(hi) == 1 && hi[0].t == mkInt(0) {
			e.emit(fr, "truncate", "truncate", x, x.Pos(), st, []Val{base}, nil)
		}
		vs := []Val{base, lo}
		if hi != nil {
			vs = append(vs, hi)
		}
		return liftN(vs, pc, func(ts []*Term) *Term {
			var h *Term
			if len(ts) > 2 {
				h = ts[2]
			}
			b := ts[0]
			if b.op == OIface {
				b = b.args[0]
			}
			r := sliceT(b, ts[1], h, isStr)
			if r.typ == nil {
				r.typ = x.Type()
			}
			return r
		}), st
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st), st
	case *ssa.Range:
		for _, c := range e.val(fr, x.X) {
			e.access(contentKey(c.t), false, fr, x.Pos(), st.pc)
		}
		return e.val(fr, x.X), st
	case *ssa.Next:
		m := resolveVal(e.val(fr, x.Iter), st.heap)
		K := mkInt(0)
		if len(e.lstack) > 0 {
			K = mkK(e.lstack[len(e.lstack)-1])
		} else {
			K = mkT(OCall, "iter", e.siteID(fr, x, "it"), nil, types.Typ[types.Int])
		}
		ok := T
		mt := m.collapse()
		if mt.op == ONil {
			ok = F
		} else {
			ok = ge0(linComb(lenT(mt), 1, addT(K, mkInt(1)), -1))
		}
		if x.IsString {
			if len(m) > 1 {
				ok = F
				for _, c := range m {
					ok = or(ok, and(c.g, ge0(linComb(lenT(c.t), 1, addT(K, mkInt(1)), -1))))
				}
			}
			fr.tuples[x] = []Val{boolVal(ok), lift1x(m, func(t *Term) *Term {
				return mkT(OCall, "range.pos", 0, nil, types.Typ[types.Int], t, K)
			}), lift1x(m, func(t *Term) *Term {
				return mkT(OElem, "rune", 0, nil, types.Typ[types.Rune], t, K)
			})}
			return m, st
		}
		tt := x.Type().(*types.Tuple)
		kt := mkT(OMapKey, "", 0, nil, tt.At(1).Type(), mt, K)
		fr.tuples[x] = []Val{boolVal(ok), one(kt), e.mapLookup(st, one(mt), one(kt), mapElemType(x.Iter))}
		return one(mt), st
	case *ssa.Select:
		t := mkT(OCall, "select", e.siteID(fr, x, "select"), nil, nil)
		tt := x.Type().(*types.Tuple)
		var vs []Val
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, one(mkT(OProj, strconv.Itoa(i), 0, nil, tt.At(i).Type(), t)))
		}
		fr.tuples[x] = vs
		e.emit(fr, "select", "select", x, x.Pos(), st, nil, t)
		return one(t), st
	}
	e.note("unhandled value %T", v)
	return one(mkSym(fmt.Sprintf("?%T@%s", v, fr.fn), v.Type())), st
}

func mapElemType(it ssa.Value) types.Type {
	if r, ok := it.(*ssa.Range); ok {
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			return m.Elem()
		}
	}
	return nil
}

func lift1x(a Val, f func(*Term) *Term) Val {
	out := make(Val, len(a))
	for i, c := range a {
		out[i] = Case{c.g, f(c.t)}
	}
	return out
}

func idxAddr(b, i *Term, pt types.Type) *Term {
	if b.op == OIface {
		b = b.args[0]
	}
	if b.op == OSlice {
		return mkT(OIdxAddr, "", 0, nil, pt, b.args[0], addT(b.args[1], i))
	}
	return mkT(OIdxAddr, "", 0, nil, pt, b, i)
}

func intSize(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

func convT(t *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	isStr := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsString != 0 }
	isInt := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsInteger != 0 }
	isFlt := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsFloat != 0 }
	switch {
	case isInt(fb, fok) && isInt(tb, tok):
		if _, isc := isIntConst(t); !isc && intSize(tb) < intSize(fb) && intSize(tb) < 8 {
			return mkT(OCall, "conv:"+tb.Name(), 0, nil, to, t)
		}
		return t
	case isInt(fb, fok) && isFlt(tb, tok):
		if n, ok := isIntConst(t); ok {
			return mkFloat(constant.MakeInt64(n))
		}
		t = mkT(OCall, "float", 0, nil, types.Typ[types.Float64], t)
		if intSize(tb) < 8 {
			return mkT(OCall, "conv:"+tb.Name(), 0, nil, to, t)
		}
		return t
	case isFlt(fb, fok) && isInt(tb, tok):
		t = mkT(OCall, "int", 0, nil, types.Typ[types.Int64], t)
		if intSize(tb) < 8 {
			return mkT(OCall, "conv:"+tb.Name(), 0, nil, to, t)
		}
		return t
	case isFlt(fb, fok) && isFlt(tb, tok):
		if intSize(tb) < intSize(fb) {
			return mkT(OCall, "conv:"+tb.Name(), 0, nil, to, t)
		}
		return t
	case isInt(fb, fok) && isStr(tb, tok):
		if n, ok := isIntConst(t); ok {
			return mkStr(string(rune(n)))
		}
		return mkT(OCall, "runestr", 0, nil, to, t)
	}
	return t // string <-> []byte and named conversions keep the content
}

func (e *Engine) binop(op token.Token, a, b Val, x *ssa.BinOp, pc BDD) Val {
	typ := x.X.Type()
	kind := func() string {
		if bt, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case bt.Info()&types.IsString != 0:
				return "str"
			case bt.Info()&types.IsInteger != 0:
				return "int"
			case bt.Info()&types.IsFloat != 0:
				return "flt"
			case bt.Info()&types.IsBoolean != 0:
				return "bool"
			}
		}
		return ""
	}()
	cmp := func(f func(x, y *Term) BDD) Val {
		r := F
		for _, p := range a {
			for _, q := range b {
				g := and(p.g, q.g)
				if and(g, pc) == F {
					continue
				}
				r = or(r, and(g, f(p.t, q.t)))
			}
		}
		return boolVal(restrict(r, pc))
	}
	if kind == "bool" && (op == token.EQL || op == token.NEQ) {
		r := iff(valBool(a), valBool(b))
		if op == token.NEQ {
			r = not(r)
		}
		return boolVal(r)
	}
	eq := func(p, q *Term) BDD {
		if kind == "int" {
			return eq0(subT(p, q))
		}
		return eqB(p, q)
	}
	switch op {
	case token.EQL:
		return cmp(eq)
	case token.NEQ:
		return cmp(func(p, q *Term) BDD { return not(eq(p, q)) })
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if kind == "int" {
			return cmp(func(p, q *Term) BDD {
				switch op {
				case token.LSS:
					return ge0(addT(subT(q, p), mkInt(-1)))
				case token.GTR:
					return ge0(addT(subT(p, q), mkInt(-1)))
				case token.LEQ:
					return ge0(subT(q, p))
				}
				return ge0(subT(p, q))
			})
		}
		return cmp(func(p, q *Term) BDD {
			switch op {
			case token.LSS:
				return ltB(p, q)
			case token.GTR:
				return ltB(q, p)
			case token.LEQ:
				return not(ltB(q, p))
			}
			return not(ltB(p, q))
		})
	}
	return lift2(a, b, pc, func(p, q *Term) *Term {
		if kind == "str" && op == token.ADD {
			return concat(p, q)
		}
		if kind == "int" {
			m, okm := isIntConst(p)
			n, okn := isIntConst(q)
			switch op {
			case token.ADD:
				return addT(p, q)
			case token.SUB:
				return subT(p, q)
			case token.MUL:
				if okn {
					return linComb(p, n, mkInt(0), 0)
				}
				if okm {
					return linComb(q, m, mkInt(0), 0)
				}
			}
			if okm && okn {
				switch op {
				case token.QUO:
					if n != 0 {
						return mkInt(m / n)
					}
				case token.REM:
					if n != 0 {
						return mkInt(m % n)
					}
				case token.SHL:
					return mkInt(m << uint(n))
				case token.SHR:
					return mkInt(m >> uint(n))
				case token.OR:
					return mkInt(m | n)
				case token.AND:
					return mkInt(m & n)
				}
			}
		}
		if p.op == OConst && q.op == OConst && p.c != nil && q.c != nil && kind == "flt" {
			return mkFloat(constant.BinaryOp(constant.ToFloat(p.c), op, constant.ToFloat(q.c)))
		}
		return mkT(OBin, op.String(), 0, nil, x.Type(), p, q)
	})
}

func (e *Engine) checkIndex(fr *Frame, ins ssa.Instruction, pos token.Pos, st State, base, idx Val) {
	e.checked["index"]++
	bad := F
	for _, b := range base {
		for _, i := range idx {
			g := and(b.g, i.g)
			if and(g, st.pc) == F {
				continue
			}
			bt := resolve(b.t, st.heap)
			n := lenT(bt)
			okb := and(ge0(i.t), ge0(addT(subT(n, i.t), mkInt(-1))))
			bad = or(bad, and(g, not(okb)))
		}
	}
	if bad = and(bad, st.pc); bad != F && sat(bad) {
		ev := e.emit(fr, "index", "index", ins, pos, st, []Val{base, idx}, nil)
		ev.extra = map[string]interface{}{"bad": bad}
	}
}

// checkNil notes accesses through pointers that may be nil.
func (e *Engine) checkNil(fr *Frame, ins ssa.Instruction, pos token.Pos, st State, v Val) {
	e.checked["pointer"]++
	bad := F
	for _, c := range v {
		if c.t.op == ONil {
			bad = or(bad, and(c.g, st.pc))
		} else if !knownNonNil(c.t) {
			bad = or(bad, and(c.g, st.pc, eqB(c.t, mkNil())))
		}
	}
	if bad != F {
		ev := e.emit(fr, "deref", "deref", ins, pos, st, []Val{v}, nil)
		ev.extra = map[string]interface{}{"bad": bad}
	}
}

func (e *Engine) checkSlice(fr *Frame, x *ssa.Slice, st State, base, lo, hi Val) {
	e.checked["slice"]++
	bad := F
	for _, b := range base {
		if b.t.op == OAlloc {
			continue
		}
		bt := resolve(b.t, st.heap)
		n := lenT(bt)
		hs := hi
		if hs == nil {
			hs = one(n)
		}
		for _, l := range lo {
			for _, h := range hs {
				g := and(b.g, l.g, h.g)
				if and(g, st.pc) == F {
					continue
				}
				ok := and(ge0(l.t), ge0(subT(h.t, l.t)), ge0(subT(n, h.t)))
				bad = or(bad, and(g, not(ok)))
			}
		}
	}
	if bad = and(bad, st.pc); bad != F && sat(bad) {
		v := []Val{base, lo}
		if hi != nil {
			v = append(v, hi)
		}
		ev := e.emit(fr, "slice", "slice", x, x.Pos(), st, v, nil)
		ev.extra = map[string]interface{}{"bad": bad}
	}
}

func (e *Engine) lookup(fr *Frame, x *ssa.Lookup, st State) Val {
	pc := st.pc
	m, k := prune(e.val(fr, x.X), pc), prune(e.val(fr, x.Index), pc)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		e.checkIndex(fr, x, x.Pos(), st, m, k)
		return lift2(m, k, pc, func(b, i *Term) *Term { return elemT(b, i, types.Typ[types.Byte]) })
	}
	for _, c := range m {
		e.access(contentKey(c.t), false, fr, x.Pos(), st.pc)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	v := e.mapLookup(st, m, k, et)
	if x.CommaOk {
		has := F
		for _, mm := range m {
			for _, kk := range k {
				has = or(has, and(mm.g, kk.g, e.mapHas(st, mm.t, kk.t)))
			}
		}
		fr.tuples[x] = []Val{v, boolVal(has)}
	}
	return v
}

func (e *Engine) mapHas(st State, m, k *Term) BDD {
	if v, ok := st.heap.get(mkT(OMapLoc, "", 0, nil, nil, m, k)); ok && len(v) > 0 {
		return T
	}
	if m.op == ONil {
		return F
	}
	if m.op == OAlloc {
		r := F
		st.heap.each(func(loc *Term, v Val) {
			if loc.op == OMapLoc && loc.args[0] == m && len(v) > 0 {
				r = or(r, eqB(loc.args[1], k))
			}
		})
		return r
	}
	return atom(mkT(OMapHas, "", 0, nil, types.Typ[types.Bool], m, k))
}

func (e *Engine) mapLookup(st State, m, k Val, et types.Type) Val {
	var cs []Case
	for _, mm := range m {
		for _, kk := range k {
			g := and(mm.g, kk.g)
			if and(g, st.pc) == F {
				continue
			}
			for _, c := range e.mapGet1(st, mm.t, kk.t, et) {
				cs = append(cs, Case{and(g, c.g), c.t})
			}
		}
	}
	return mkVal(cs, st.pc)
}

func (e *Engine) mapGet1(st State, m, k *Term, et types.Type) Val {
	if m.op == OIface {
		m = m.args[0]
	}
	if v, ok := st.heap.get(mkT(OMapLoc, "", 0, nil, nil, m, k)); ok && len(v) > 0 {
		return v
	}
	zero := mkNil()
	if et != nil {
		zero = zeroOf(et)
	}
	switch m.op {
	case ONil:
		return one(zero)
	case OAlloc:
		var cs []Case
		rest := T
		st.heap.each(func(loc *Term, v Val) {
			if loc.op == OMapLoc && loc.args[0] == m && len(v) > 0 {
				g := eqB(loc.args[1], k)
				if g == F {
					return
				}
				for _, c := range v {
					cs = append(cs, Case{and(rest, g, c.g), c.t})
				}
				rest = diff(rest, g)
			}
		})
		if len(cs) == 0 {
			return one(zero)
		}
		cs = append(cs, Case{rest, zero})
		return mkVal(cs, st.pc)
	}
	return one(mapGetT(m, k, et))
}

func (e *Engine) typeAssert(fr *Frame, x *ssa.TypeAssert, st State) Val {
	pc := st.pc
	src := prune(e.val(fr, x.X), pc)
	T0 := x.AssertedType
	s := types.TypeString(T0, nil)
	isI := types.IsInterface(T0)
	var cs []Case
	okg := F
	zero := zeroOf(T0)
	for _, c := range src {
		if and(c.g, pc) == F {
			continue
		}
		switch {
		case c.t.op == OIface:
			it := c.t.aux.(types.Type)
			match := false
			val := c.t.args[0]
			if isI {
				match = types.Implements(it, T0.Underlying().(*types.Interface))
				val = c.t
			} else {
				match = types.Identical(it, T0)
			}
			if match {
				okg = or(okg, c.g)
				cs = append(cs, Case{c.g, val})
			} else {
				cs = append(cs, Case{c.g, zero})
			}
		case c.t.op == ONil:
			cs = append(cs, Case{c.g, zero})
		default:
			is := atom(mkT(OIsType, s, 0, T0, types.Typ[types.Bool], c.t))
			okg = or(okg, and(c.g, is))
			var val *Term
			if isI {
				val = c.t
			} else {
				val = mkT(OTA, s, 0, nil, T0, c.t)
			}
			cs = append(cs, Case{and(c.g, is), val})
			if x.CommaOk {
				cs = append(cs, Case{diff(c.g, is), zero})
			}
		}
	}
	if x.CommaOk {
		v := mkVal(cs, pc)
		fr.tuples[x] = []Val{v, boolVal(restrict(okg, pc))}
		return v
	}
	e.checked["conversion"]++
	if bad := diff(pc, okg); bad != F && sat(bad) {
		ev := e.emit(fr, "assert", s, x, x.Pos(), st, []Val{src}, nil)
		ev.extra = map[string]interface{}{"bad": bad}
	}
	// a failed assertion panics, so continue with the matching alternatives only
	var keep []Case
	for _, c := range cs {
		if c.t != zero || len(cs) == 1 {
			g := c.g
			if c.t.op == OTA {
				for _, sc := range src {
					if sc.t == c.t.args[0] {
						g = sc.g
					}
				}
			}
			keep = append(keep, Case{g, c.t})
		}
	}
	if len(keep) == 0 {
		keep = cs
	}
	return mkVal(keep, pc)
}

var debug = os.Getenv("VDEBUG") != ""
