package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Call struct {
	e    *Engine
	fr   *Frame
	ins  ssa.Instruction
	name string
	args []Val
	st   State
	sig  *types.Signature
	pos  token.Pos
	tag  string
}

type hook func(c *Call) ([]Val, State)

func (e *Engine) doCall(fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, fnv Val, args []Val, st State, tag string) ([]Val, State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, ins, b, cc, args, st)
	}
	type alt struct {
		g  BDD
		fn func(State) ([]Val, State)
	}
	var alts []alt
	sig := cc.Signature()
	if cc.IsInvoke() {
		e.checkNil(fr, ins, posOf(ins), st, prune(fnv, st.pc))
	} else if fn := cc.StaticCallee(); fn != nil && !isRepoFn(fn) && fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.checkNil(fr, ins, posOf(ins), st, prune(args[0], st.pc))
		}
	}
	for _, c := range fnv {
		c := c
		if len(fnv) > 1 && (and(c.g, st.pc) == F || !sat(and(c.g, st.pc))) {
			continue
		}
		if cc.IsInvoke() {
			alts = append(alts, alt{c.g, func(s State) ([]Val, State) {
				return e.invoke(fr, ins, cc, c.t, args, s, tag)
			}})
		} else {
			alts = append(alts, alt{c.g, func(s State) ([]Val, State) {
				return e.callTerm(fr, ins, c.t, args, sig, s, tag)
			}})
		}
	}
	if len(alts) == 0 {
		return zeroResults(sig.Results()), State{F, st.heap}
	}
	if len(alts) == 1 {
		return alts[0].fn(st)
	}
	var es []Edge
	var rs [][]Val
	for i, a := range alts {
		save := fr.iter
		fr.iter = save + "/a" + strconv.Itoa(i)
		r, s := a.fn(State{and(st.pc, a.g), st.heap})
		fr.iter = save
		if s.pc == F {
			continue
		}
		es = append(es, Edge{pc: s.pc, heap: s.heap})
		rs = append(rs, r)
	}
	if len(es) == 0 {
		return zeroResults(sig.Results()), State{F, st.heap}
	}
	out := e.joinStates(es)
	res := make([]Val, sig.Results().Len())
	for i := range res {
		var cs []Case
		for j := range rs {
			for _, c := range rs[j][i] {
				cs = append(cs, Case{and(es[j].pc, c.g), c.t})
			}
		}
		res[i] = mkVal(cs, out.pc)
	}
	return res, out
}

func (e *Engine) invoke(fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, recv *Term, args []Val, st State, tag string) ([]Val, State) {
	m := cc.Method
	sig := m.Type().(*types.Signature)
	if recv.op == OIface {
		t := recv.aux.(types.Type)
		if fn := e.prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil {
			return e.callFn(fr, ins, fn, nil, append([]Val{one(recv.args[0])}, args...), sig, st, tag)
		}
	}
	it := cc.Value.Type()
	if n, ok := it.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) && recv.op != ONil {
		// unknown receiver of a repository interface: all implementers
		var fns []*ssa.Function
		iface := it.Underlying().(*types.Interface)
		for _, nt := range e.named {
			for _, c := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.IsInterface(nt) && types.Implements(c, iface) {
					if fn := e.prog.LookupMethod(c, m.Pkg(), m.Name()); fn != nil {
						fns = append(fns, fn)
						break
					}
				}
			}
		}
		if len(fns) == 1 {
			r := mkT(OTA, "impl", 0, nil, fns[0].Signature.Recv().Type(), recv)
			return e.callFn(fr, ins, fns[0], nil, append([]Val{one(r)}, args...), sig, st, tag)
		}
		e.note("unresolved interface call %s", m.FullName())
	}
	name := m.FullName()
	return e.external(fr, ins, name, append([]Val{one(recv)}, args...), sig, st, tag)
}

func (e *Engine) callTerm(fr *Frame, ins ssa.Instruction, f *Term, args []Val, sig *types.Signature, st State, tag string) ([]Val, State) {
	switch f.op {
	case OFn:
		return e.callFn(fr, ins, f.aux.(*ssa.Function), nil, args, sig, st, tag)
	case OClo:
		var bs []Val
		for _, b := range f.args {
			bs = append(bs, one(b))
		}
		return e.callFn(fr, ins, f.aux.(*ssa.Function), bs, args, sig, st, tag)
	case OIface:
		return e.callTerm(fr, ins, f.args[0], args, sig, st, tag)
	case ONil:
		e.emit(fr, "nilcall", "nil func call", ins, posOf(ins), st, nil, nil)
		return zeroResults(sig.Results()), State{F, st.heap}
	}
	c := &Call{e, fr, ins, "dynamic", append([]Val{one(f)}, args...), st, sig, posOf(ins), tag}
	return c.impure(true)
}

func posOf(ins ssa.Instruction) token.Pos {
	if ins == nil {
		return token.NoPos
	}
	return ins.Pos()
}

func extName(fn *ssa.Function) string {
	n := fn.String()
	n = strings.TrimSuffix(n, "$bound")
	n = strings.TrimSuffix(n, "$thunk")
	return n
}

func (e *Engine) callFn(fr *Frame, ins ssa.Instruction, fn *ssa.Function, binds, args []Val, sig *types.Signature, st State, tag string) ([]Val, State) {
	if e.stub != nil {
		if rs, out, ok := e.stub(fr, ins, fn, args, st); ok {
			return rs, out
		}
	}
	if isRepoFn(fn) {
		n := 0
		for _, f := range e.stack {
			if f == fn {
				n++
			}
		}
		if n < 2 && len(e.stack) < maxDepth {
			return e.runFn(fn, args, binds, st, fr.ctx, ins, fr.iter+tag)
		}
		e.note("recursive call of %s cut", fn)
		c := &Call{e, fr, ins, "recursive:" + fn.String(), args, st, fn.Signature, posOf(ins), tag}
		return c.impure(true)
	}
	if len(binds) > 0 {
		args = append(append([]Val{}, binds...), args...)
	}
	name := extName(fn)
	// promoted methods of embedded external types: wrapper functions
	return e.external(fr, ins, name, args, fn.Signature, st, tag)
}

// ---- results of external calls

func (c *Call) results(t *Term) []Val {
	n := c.sig.Results().Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		if t.typ == nil {
			t.typ = c.sig.Results().At(0).Type()
		}
		return []Val{one(t)}
	}
	var vs []Val
	for i := 0; i < n; i++ {
		vs = append(vs, one(mkT(OProj, strconv.Itoa(i), 0, nil, c.sig.Results().At(i).Type(), t)))
	}
	return vs
}

func (c *Call) argTerms() []*Term {
	var ts []*Term
	for _, a := range c.args {
		ts = append(ts, resolveVal(a, c.st.heap).collapse())
	}
	return ts
}

// flat expands a trailing variadic slice into its elements.
func (c *Call) flat() []Val {
	if !c.sig.Variadic() || len(c.args) == 0 {
		return c.args
	}
	last := c.args[len(c.args)-1]
	out := append([]Val{}, c.args[:len(c.args)-1]...)
	t := last.single()
	if t == nil {
		return append(out, last)
	}
	if els, ok := c.e.elements(c.st, t, nil); ok {
		return append(out, els...)
	}
	return append(out, one(mkT(OSpread, "", 0, nil, nil, t)))
}

// elements lists the elements of a slice of known shape.
func (e *Engine) elements(st State, t *Term, et types.Type) ([]Val, bool) {
	if t.op == ONil || t.op == OSym && t.s == "!empty" {
		return nil, true
	}
	if t.op == OIface {
		return e.elements(st, t.args[0], et)
	}
	if t.op == OApp {
		base, ok := e.elements(st, t.args[0], et)
		if !ok {
			return nil, false
		}
		out := append([]Val{}, base...)
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				x, ok := e.elements(st, a.args[0], et)
				if !ok {
					return nil, false
				}
				out = append(out, x...)
				continue
			}
			out = append(out, one(a))
		}
		return out, true
	}
	n, ok := isIntConst(lenT(t))
	if !ok || n > 256 {
		return nil, false
	}
	if v, ok := st.heap.get(contentKey(t)); ok && len(v) > 0 {
		return nil, false
	}
	if et == nil && t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
	}
	if et == nil {
		et = types.NewInterfaceType(nil, nil)
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, e.loadLoc(st.heap, idxAddr(t, mkInt(i), types.NewPointer(et)), et))
	}
	return out, true
}

func (c *Call) pure() ([]Val, State) {
	args := c.flat()
	var rv []Val
	for _, a := range args {
		rv = append(rv, resolveVal(a, c.st.heap))
	}
	var typ types.Type
	if c.sig.Results().Len() == 1 {
		typ = c.sig.Results().At(0).Type()
	}
	v := liftN(rv, c.st.pc, func(ts []*Term) *Term {
		t := foldPure(c.name, ts)
		if t.typ == nil {
			t.typ = typ
		}
		return t
	})
	n := c.sig.Results().Len()
	if n <= 1 {
		if typ != nil && isBytes(typ) {
			for _, x := range v {
				c.st = fresh(c.st, x.t)
			}
		}
		return []Val{v}, c.st
	}
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		i := i
		out[i] = lift1(v, c.st.pc, func(t *Term) *Term {
			if t.op == OTuple {
				return t.args[i]
			}
			return mkT(OProj, strconv.Itoa(i), 0, nil, c.sig.Results().At(i).Type(), t)
		})
		if isBytes(c.sig.Results().At(i).Type()) {
			for _, x := range out[i] {
				c.st = fresh(c.st, x.t)
			}
		}
	}
	return out, c.st
}

// impure records an event and returns opaque results tied to the call site.
func (c *Call) impure(havoc bool) ([]Val, State) {
	t := mkT(OCall, c.name, c.e.siteID(c.fr, c.ins, c.name+c.tag), nil, nil, c.argTerms()...)
	ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.flat(), t)
	ev.err = c.errRes(t)
	st := c.st
	if havoc {
		for i, a := range c.args {
			for _, x := range a {
				p := x.t
				if p.op == OIface {
					p = p.args[0]
				}
				if (p.op == OAlloc || p.op == OFieldAddr) && p.typ != nil {
					if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
						switch pt.Elem().Underlying().(type) {
						case *types.Basic, *types.Slice, *types.Map, *types.Interface:
							st = c.e.store(st, one(p), one(mkT(OProj, "out"+strconv.Itoa(i), 0, nil, pt.Elem(), t)), pt.Elem())
						}
					}
				}
			}
		}
	}
	return c.results(t), st
}

// errRes is the error among the results of a call, or nil.
func (c *Call) errRes(t *Term) *Term {
	n := c.sig.Results().Len()
	if n == 0 || !types.Identical(c.sig.Results().At(n-1).Type(), errType) {
		return nil
	}
	return c.results(t)[n-1].collapse()
}

func (c *Call) site(name string) int64 { return c.e.siteID(c.fr, c.ins, name+c.tag) }

// ---- builtins

func (e *Engine) builtin(fr *Frame, ins ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st State) ([]Val, State) {
	pc := st.pc
	switch b.Name() {
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return []Val{lift1(args[0], pc, func(t *Term) *Term {
				if t.op == ONil {
					return mkInt(0)
				}
				if t.op == OAlloc {
					n := 0
					sym := false
					st.heap.each(func(k *Term, v Val) {
						if k.op == OMapLoc && k.args[0] == t && len(v) > 0 {
							n++
							if k.args[1].op != OConst {
								sym = true
							}
						}
					})
					if !sym {
						return mkInt(int64(n))
					}
				}
				return mkT(OLen, "", 0, nil, types.Typ[types.Int], t)
			})}, st
		}
		isStr := isStringType(cc.Args[0].Type())
		return []Val{lift1(args[0], pc, func(t *Term) *Term {
			r := resolve(t, st.heap)
			if isStr && r.typ == nil {
				r.typ = types.Typ[types.String]
			}
			return lenT(r)
		})}, st
	case "cap":
		return []Val{lift1(args[0], pc, func(t *Term) *Term { return mkT(OCall, "cap", 0, nil, types.Typ[types.Int], t) })}, st
	case "append":
		if len(args) < 2 {
			return []Val{args[0]}, st
		}
		base, ext := args[0], args[1]
		r := lift2(base, ext, pc, func(x, y *Term) *Term {
			if isStringTerm(y) || isBytes(cc.Args[0].Type()) {
				return concatBytes(resolve(x, st.heap), resolve(y, st.heap))
			}
			if y.op == ONil {
				return x
			}
			if els, ok := e.elements(st, y, nil); ok {
				var ts []*Term
				for _, v := range els {
					ts = append(ts, v.collapse())
				}
				return appT(x, ts...)
			}
			return appT(x, mkT(OSpread, "", 0, nil, nil, y))
		})
		// alternatives inside the appended elements
		if y := ext.single(); y != nil && !isBytes(cc.Args[0].Type()) {
			if els, ok := e.elements(st, y, nil); ok {
				multi := false
				for _, v := range els {
					if len(v) > 1 {
						multi = true
					}
				}
				if multi {
					r = liftN(append([]Val{base}, els...), pc, func(ts []*Term) *Term { return appT(ts[0], ts[1:]...) })
				}
			}
		}
		for i := range r {
			if r[i].t.typ == nil {
				r[i].t.typ = cc.Args[0].Type()
			}
		}
		return []Val{r}, st
	case "copy":
		dst, src := args[0].collapse(), resolveVal(args[1], st.heap).collapse()
		e.emit(fr, "copy", "copy", ins, posOf(ins), st, args, nil)
		st = e.setContent(st, dst, mkT(OCall, "copyof", 0, nil, dst.typ, src))
		// a full copy into a fresh slice of the same length has the same content
		if dst.op == OAlloc && lenT(dst) == lenT(args[1].collapse()) {
			st = e.setContent(st, dst, src)
		}
		return []Val{one(mkT(OCall, "copylen", 0, nil, types.Typ[types.Int], dst, src))}, st
	case "delete":
		m, k := args[0].collapse(), args[1].collapse()
		e.emit(fr, "mapdelete", "delete", ins, posOf(ins), st, args, nil)
		loc := mkT(OMapLoc, "", 0, nil, nil, m, k)
		return nil, State{pc, st.heap.set(loc, one(mkNil()))}
	case "close":
		e.emit(fr, "chan", "close", ins, posOf(ins), st, args, nil)
		return nil, st
	case "panic":
		e.emit(fr, "panic", "panic", ins, posOf(ins), st, args, nil)
		return nil, State{F, st.heap}
	case "print", "println":
		e.emit(fr, "print", "stderr", ins, posOf(ins), st, append([]Val{one(mkSym("!os.Stderr", nil))}, args...), nil)
		return nil, st
	case "recover":
		return []Val{one(mkT(OCall, "recover", e.siteID(fr, ins, "recover"), nil, nil))}, st
	case "min", "max":
		return []Val{one(mkT(OCall, b.Name(), 0, nil, types.Typ[types.Int], args[0].collapse(), args[len(args)-1].collapse()))}, st
	case "ssa:wrapnilchk":
		return []Val{args[0]}, st
	}
	e.note("builtin %s", b.Name())
	return []Val{one(mkSym("?builtin:"+b.Name(), nil))}, st
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func concatBytes(a, b *Term) *Term {
	if a.op == ONil || a.op == OSym && a.s == "!empty" {
		return b
	}
	if b.op == ONil || b.op == OSym && b.s == "!empty" {
		return a
	}
	return concat(a, b)
}

// callValue runs a function value as an analysis root.
func (e *Engine) callValue(f *Term, args []Val, st State, tag string) ([]Val, State) {
	fr := &Frame{fn: rootFn(f), env: map[ssa.Value]Val{}, tuples: map[ssa.Value][]Val{}, hdr: map[*ssa.BasicBlock]BDD{}, hdrPC: map[*ssa.BasicBlock]BDD{}}
	if fr.fn == nil {
		return nil, st
	}
	fr.ctx = e.mkCtx(nil, nil, fr.fn, "root:"+tag)
	return e.callTerm(fr, nil, f, args, fr.fn.Signature, st, tag)
}

func rootFn(f *Term) *ssa.Function {
	if f.op == OIface {
		return rootFn(f.args[0])
	}
	fn, _ := f.aux.(*ssa.Function)
	return fn
}

func fnTerm(fn *ssa.Function) *Term { return mkT(OFn, fn.String(), 0, fn, fn.Type()) }

func (e *Engine) where(pos token.Pos, fn *ssa.Function) string {
	p := e.fset.Position(pos)
	f := strings.TrimPrefix(p.Filename, repoDir+"/")
	n := "?"
	if fn != nil {
		n = fn.RelString(nil)
		n = strings.ReplaceAll(n, repoPrefix+"/", "")
	}
	return fmt.Sprintf("%s:%d (%s)", f, p.Line, n)
}
