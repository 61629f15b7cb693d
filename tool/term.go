package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a provenance term.
type Op uint8

const (
	OConst Op = iota
	ONil
	OSym    // free symbol
	OFn     // function value
	OClo    // closure (aux = *ssa.Function, args = bindings)
	OAlloc  // object created by an allocation site in one calling context
	OGlobal // address of a global
	OFieldAddr
	OIdxAddr
	OMapLoc
	OContent // heap location holding the overridden content of a slice
	OField
	OElem
	OMapGet
	OMapHas
	OMapKey // key of the K-th iteration over a map
	OCall
	OProj
	OLin
	OBin
	OUn
	OConcat
	OSlice
	OLen
	OIface
	OTA // type-asserted value
	OIsType
	OStruct
	OApp
	OSpread
	OK
	OMu
	OJoin
	OBool
	OGe0
	OEq
	OLt
	OTuple
)

var opName = map[Op]string{OConst: "const", ONil: "nil", OSym: "sym", OFn: "fn", OClo: "clo", OAlloc: "new", OGlobal: "global", OFieldAddr: "&.", OIdxAddr: "&[]", OMapLoc: "&map", OContent: "content", OField: ".", OElem: "[]", OMapGet: "mapget", OMapHas: "maphas", OMapKey: "mapkey", OCall: "call", OProj: "proj", OLin: "lin", OBin: "bin", OUn: "un", OConcat: "concat", OSlice: "slice", OLen: "len", OIface: "iface", OTA: "assert", OIsType: "istype", OStruct: "struct", OApp: "append", OSpread: "spread", OK: "K", OMu: "mu", OJoin: "join", OBool: "bool", OGe0: "ge0", OEq: "eq", OLt: "lt", OTuple: "tuple"}

type Term struct {
	id     int
	op     Op
	s      string
	args   []*Term
	coef   []int64
	k      int64 // OLin constant, OBool bdd, loop id for OK/OMu
	aux    interface{}
	typ    types.Type
	c      constant.Value
	nonneg bool
}

var (
	terms    = map[string]*Term{}
	termList []*Term
)

func resetTerms() {
	terms = map[string]*Term{}
	termList = nil
	atomOf = map[*Term]int32{}
	atoms = nil
	overlays = map[*Term][]*Term{}
	bd = newBDDs()
}

func mkT(op Op, s string, k int64, aux interface{}, typ types.Type, args ...*Term) *Term {
	return mkTC(op, s, k, aux, typ, nil, args...)
}

func mkTC(op Op, s string, k int64, aux interface{}, typ types.Type, coef []int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 33)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(k, 36))
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	for _, c := range coef {
		b.WriteByte(';')
		b.WriteString(strconv.FormatInt(c, 36))
	}
	key := b.String()
	if t, ok := terms[key]; ok {
		if t.typ == nil && typ != nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(termList) + 1, op: op, s: s, args: args, coef: coef, k: k, aux: aux, typ: typ}
	terms[key] = t
	termList = append(termList, t)
	return t
}

func mkInt(n int64) *Term {
	t := mkT(OConst, "i:"+strconv.FormatInt(n, 10), 0, nil, nil)
	t.c = constant.MakeInt64(n)
	return t
}
func mkStr(s string) *Term {
	t := mkT(OConst, "s:"+s, 0, nil, types.Typ[types.String])
	t.c = constant.MakeString(s)
	return t
}
func mkFloat(c constant.Value) *Term {
	t := mkT(OConst, "f:"+c.ExactString(), 0, nil, types.Typ[types.Float64])
	t.c = c
	return t
}
func mkNil() *Term { return mkT(ONil, "", 0, nil, nil) }
func mkSym(name string, typ types.Type) *Term {
	return mkT(OSym, name, 0, nil, typ)
}
func mkBool(b BDD) *Term { return mkT(OBool, "", int64(b), nil, types.Typ[types.Bool]) }

func isIntConst(t *Term) (int64, bool) {
	if t.op == OConst && strings.HasPrefix(t.s, "i:") {
		n, _ := constant.Int64Val(t.c)
		return n, true
	}
	return 0, false
}
func isStrConst(t *Term) (string, bool) {
	if t.op == OConst && strings.HasPrefix(t.s, "s:") {
		return t.s[2:], true
	}
	return "", false
}

// ---- linear integer terms

type linear struct {
	k int64
	m map[*Term]int64
}

func toLin(t *Term) linear {
	if n, ok := isIntConst(t); ok {
		return linear{n, map[*Term]int64{}}
	}
	if t.op == OLin {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return linear{t.k, m}
	}
	return linear{0, map[*Term]int64{t: 1}}
}

func fromLin(l linear) *Term {
	ts := make([]*Term, 0, len(l.m))
	for t, c := range l.m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return mkInt(l.k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.k == 0 && l.m[ts[0]] == 1 {
		return ts[0]
	}
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	return mkTC(OLin, "", l.k, nil, types.Typ[types.Int], cs, ts...)
}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	x, y := toLin(a), toLin(b)
	r := linear{x.k*ca + y.k*cb, map[*Term]int64{}}
	for t, c := range x.m {
		r.m[t] += c * ca
	}
	for t, c := range y.m {
		r.m[t] += c * cb
	}
	return fromLin(r)
}
func addT(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func subT(a, b *Term) *Term { return linComb(a, 1, b, -1) }

// ---- boolean atoms

var (
	atomOf = map[*Term]int32{}
	atoms  []*Term
)

func atom(t *Term) BDD {
	if v, ok := atomOf[t]; ok {
		return bvar(v)
	}
	v := int32(len(atoms))
	atoms = append(atoms, t)
	atomOf[t] = v
	return bvar(v)
}

// boolOf turns a boolean-valued term into a guard.
func boolOf(t *Term) BDD {
	switch t.op {
	case OBool:
		return BDD(t.k)
	case OConst:
		if t.s == "b:true" {
			return T
		}
		return F
	case OEq:
		return eqB(t.args[0], t.args[1])
	case OCall:
		if len(t.args) == 2 {
			switch t.s {
			case "strings.Contains", "bytes.Contains":
				if x, ok := isStrConst(t.args[1]); ok {
					if x == "" {
						return T
					}
					if y, ok := isStrConst(t.args[0]); ok {
						return b2(strings.Contains(y, x))
					}
				}
			case "strings.EqualFold", "bytes.EqualFold":
				return eqB(pureCall("strings.ToLower", t.args[0]), pureCall("strings.ToLower", t.args[1]))
			case "crypto/hmac.Equal", "bytes.Equal":
				return eqB(t.args[0], t.args[1])
			}
		}
	}
	return atom(t)
}
func b2(b bool) BDD {
	if b {
		return T
	}
	return F
}

func isNonneg(t *Term) bool {
	return t.op == OLen || t.op == OK || t.nonneg
}

// minLen is the least length of what some functions return.
func minLen(t *Term) int64 {
	if t.op == OLen && t.args[0].op == OCall && len(t.args[0].args) > 1 {
		switch t.args[0].s {
		case "strings.Split", "bytes.Split":
			if s, ok := isStrConst(t.args[0].args[1]); ok && s != "" {
				return 1
			}
		}
	}
	return 0
}

func ge0(t *Term) BDD {
	if n, ok := isIntConst(t); ok {
		return b2(n >= 0)
	}
	l := toLin(t)
	for x, c := range l.m {
		if len(l.m) == 1 && c == 1 && l.k < 0 && l.k >= -minLen(x) {
			return T
		}
	}
	// nonneg shortcut
	if l.k >= 0 {
		all := true
		for x, c := range l.m {
			if c < 0 || !isNonneg(x) {
				all = false
				break
			}
		}
		if all {
			return T
		}
	}
	if l.k < 0 {
		all := true
		for x, c := range l.m {
			if c > 0 || !isNonneg(x) {
				all = false
				break
			}
		}
		if all {
			return F
		}
	}
	if len(l.m) == 1 {
		for x, c := range l.m {
			if c == 1 || c == -1 {
				// threshold: c*x + k >= 0
				if x.op == OLen && x.s == "str" {
					if c == 1 && l.k == -1 {
						return not(eqB(x.args[0], mkStr("")))
					}
					if c == -1 && l.k == 0 {
						return eqB(x.args[0], mkStr(""))
					}
				}
				if x.op == OCall && (x.s == "strings.Compare" || x.s == "bytes.Compare") {
					a, b := x.args[0], x.args[1]
					lt, gt := ltB(a, b), ltB(b, a)
					thr := func(v int64) bool { return c*v+l.k >= 0 }
					r := F
					if thr(-1) {
						r = or(r, lt)
					}
					if thr(1) {
						r = or(r, gt)
					}
					if thr(0) {
						r = or(r, and(not(lt), not(gt)))
					}
					return r
				}
				if x.op == OCall && (x.s == "strings.Index" || x.s == "bytes.Index") {
					has := boolOf(mkT(OCall, "strings.Contains", 0, nil, types.Typ[types.Bool], x.args...))
					if c == 1 && l.k == 0 {
						return has
					}
					if c == -1 && l.k == -1 {
						return not(has)
					}
				}
			}
		}
	}
	// canonical sign: first coefficient positive
	n := fromLin(l)
	first := int64(1)
	if n.op == OLin {
		first = n.coef[0]
	}
	if first < 0 {
		neg := linear{-l.k - 1, map[*Term]int64{}}
		for x, c := range l.m {
			neg.m[x] = -c
		}
		return not(atom(mkT(OGe0, "", 0, nil, types.Typ[types.Bool], fromLin(neg))))
	}
	return atom(mkT(OGe0, "", 0, nil, types.Typ[types.Bool], n))
}

func isIntTyped(t *Term) bool {
	if t.op == OLin || t.op == OLen || t.op == OK {
		return true
	}
	if _, ok := isIntConst(t); ok {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

// knownNonNil reports whether t certainly denotes a non-nil value.
func knownNonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OFieldAddr, OIdxAddr, OClo, OFn, OIface, OApp, OStruct:
		return true
	case OSlice:
		return t.args[0] != nil && (t.args[0].op == OAlloc)
	case OConst:
		return true
	case OSym:
		return strings.HasPrefix(t.s, "!")
	case OCall:
		return strings.HasPrefix(t.s, "!")
	}
	return false
}

// distinctObj reports whether two different terms denote certainly different values.
func distinctObj(a, b *Term) bool {
	if a == b {
		return false
	}
	val := func(t *Term) int {
		switch t.op {
		case OConst:
			return 1
		case OAlloc, OGlobal, OClo, OFn:
			return 2
		case ONil:
			return 3
		case OSym:
			if strings.HasPrefix(t.s, "!") {
				return 2
			}
		case OCall:
			if strings.HasPrefix(t.s, "!") {
				return 2
			}
		}
		return 0
	}
	x, y := val(a), val(b)
	return x != 0 && y != 0 && !(x == 1 && y == 1 && a.s[:2] != b.s[:2])
}

func eqB(a, b *Term) BDD {
	if a == b {
		return T
	}
	if a.op == OBool || b.op == OBool {
		return iff(boolOf(a), boolOf(b))
	}
	if a.op == OConst && strings.HasPrefix(a.s, "b:") || b.op == OConst && strings.HasPrefix(b.s, "b:") {
		return iff(boolOf(a), boolOf(b))
	}
	if a.op == OIface && b.op == OIface {
		if a.s != b.s {
			return F
		}
		return eqB(a.args[0], b.args[0])
	}
	if a.op == OIface && isUnwrapOf(b, a.s) || b.op == OIface && isUnwrapOf(a, b.s) {
		// fallthrough to atom
	}
	if isIntTyped(a) && isIntTyped(b) {
		return eq0(subT(a, b))
	}
	if a.op == ONil && knownNonNil(b) || b.op == ONil && knownNonNil(a) {
		return F
	}
	if distinctObj(a, b) {
		return F
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := T
		for i := range a.args {
			r = and(r, eqB(a.args[i], b.args[i]))
		}
		return r
	}
	if b.op == ONil && (a.op == OSlice) && a.args[0] != nil {
		// slicing a nil slice yields nil only for [0:0]; treat as the base
		return eqB(a.args[0], b)
	}
	if a.op == ONil && b.op == OSlice {
		return eqB(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return atom(mkT(OEq, "", 0, nil, types.Typ[types.Bool], a, b))
}

func isUnwrapOf(t *Term, s string) bool { return false }

func eq0(t *Term) BDD {
	if n, ok := isIntConst(t); ok {
		return b2(n == 0)
	}
	l := toLin(t)
	if len(l.m) == 1 {
		for x, c := range l.m {
			if c == 1 || c == -1 {
				v := -l.k * c // x == v
				if v >= 0 && v < minLen(x) {
					return F
				}
				if isNonneg(x) {
					if v < 0 {
						return F
					}
					if v == 0 {
						return not(ge0(addT(x, mkInt(-1))))
					}
				}
				if x.op == OCall && (x.s == "strings.Compare" || x.s == "bytes.Compare") {
					switch v {
					case 0:
						return eqB(x.args[0], x.args[1])
					case -1:
						return ltB(x.args[0], x.args[1])
					case 1:
						return ltB(x.args[1], x.args[0])
					}
					return F
				}
				if x.op == OCall && (x.s == "strings.Index" || x.s == "bytes.Index") && v == -1 {
					return not(boolOf(mkT(OCall, "strings.Contains", 0, nil, types.Typ[types.Bool], x.args...)))
				}
				if (x.op == OCall || x.op == OProj) && strings.Contains(x.s, "subtle.ConstantTimeCompare") {
					if v == 1 {
						return eqB(x.args[0], x.args[1])
					}
					if v == 0 {
						return not(eqB(x.args[0], x.args[1]))
					}
				}
			}
		}
	}
	n := fromLin(l)
	if n.op == OLin && n.coef[0] < 0 {
		neg := linear{-l.k, map[*Term]int64{}}
		for x, c := range l.m {
			neg.m[x] = -c
		}
		n = fromLin(neg)
	}
	return atom(mkT(OEq, "0", 0, nil, types.Typ[types.Bool], n))
}

func ltB(a, b *Term) BDD {
	if a == b {
		return F
	}
	if x, ok := isStrConst(a); ok {
		if y, ok := isStrConst(b); ok {
			return b2(x < y)
		}
	}
	if a.op == OConst && b.op == OConst && a.c != nil && b.c != nil && a.c.Kind() != constant.String {
		return b2(constant.Compare(a.c, token.LSS, b.c))
	}
	return atom(mkT(OLt, "", 0, nil, types.Typ[types.Bool], a, b))
}

// axioms returns the conjunction of the theory facts relating the given atoms.
func axioms(vs []int32) BDD {
	kb := make([]byte, 0, len(vs)*4)
	for _, v := range vs {
		kb = append(kb, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	if r, ok := bd.axMemo[string(kb)]; ok {
		return r
	}
	r := axioms0(vs)
	bd.axMemo[string(kb)] = r
	return r
}

func axioms0(vs []int32) BDD {
	r := T
	type ia struct {
		v   int32
		eq  bool
		c   int64
		pos bool
	}
	ints := map[string][]ia{}
	eqs := map[*Term][]int32{}
	istype := map[*Term][]int32{}
	var lts []int32
	for _, v := range vs {
		t := atoms[v]
		switch {
		case t.op == OGe0 || t.op == OEq && t.s == "0":
			l := toLin(t.args[0])
			k := l.k
			l.k = 0
			key := strconv.Itoa(fromLin(l).id)
			ints[key] = append(ints[key], ia{v, t.op == OEq, -k, true})
		case t.op == OEq:
			eqs[t.args[0]] = append(eqs[t.args[0]], v)
			eqs[t.args[1]] = append(eqs[t.args[1]], v)
		case t.op == OLt:
			lts = append(lts, v)
		case t.op == OIsType:
			istype[t.args[0]] = append(istype[t.args[0]], v)
		}
	}
	for _, g := range ints {
		for i := range g {
			for j := range g {
				if i == j {
					continue
				}
				a, b := g[i], g[j]
				switch {
				case !a.eq && !b.eq: // x>=a.c , x>=b.c
					if a.c >= b.c {
						r = and(r, or(not(bvar(a.v)), bvar(b.v)))
					}
				case a.eq && !b.eq:
					if a.c >= b.c {
						r = and(r, or(not(bvar(a.v)), bvar(b.v)))
					} else {
						r = and(r, or(not(bvar(a.v)), not(bvar(b.v))))
					}
					for k := range g {
						c := g[k]
						if !c.eq && b.c == a.c && c.c == a.c+1 {
							r = and(r, or(not(bvar(b.v)), bvar(c.v), bvar(a.v)))
						}
					}
				case a.eq && b.eq && i < j:
					r = and(r, not(and(bvar(a.v), bvar(b.v))))
				}
			}
		}
	}
	var iv []int32
	for _, v := range vs {
		if t := atoms[v]; t.op == OGe0 || t.op == OEq && t.s == "0" {
			iv = append(iv, v)
		}
	}
	if len(ints) > 1 {
		r = and(r, linAxioms(iv))
	}
	for t, g := range eqs {
		other := func(v int32) *Term {
			a := atoms[v]
			if a.args[0] == t {
				return a.args[1]
			}
			return a.args[0]
		}
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				if x, y := other(g[i]), other(g[j]); distinctObj(x, y) || x.op == ONil && knownNonNil(y) || y.op == ONil && knownNonNil(x) {
					r = and(r, not(and(bvar(g[i]), bvar(g[j]))))
				}
			}
			if o := other(g[i]); o.op == ONil {
				for _, v := range istype[t] {
					r = and(r, not(and(bvar(g[i]), bvar(v))))
				}
			}
		}
	}
	for _, g := range istype {
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				a, b := atoms[g[i]], atoms[g[j]]
				ta, _ := a.aux.(types.Type)
				tb, _ := b.aux.(types.Type)
				if ta != nil && tb != nil && !types.IsInterface(ta) && !types.IsInterface(tb) {
					r = and(r, not(and(bvar(g[i]), bvar(g[j]))))
				}
			}
		}
	}
	for i, v := range lts {
		a := atoms[v]
		for j, w := range lts {
			if i < j && atoms[w].args[0] == a.args[1] && atoms[w].args[1] == a.args[0] {
				r = and(r, not(and(bvar(v), bvar(w))))
				// totality
				x, y := a.args[0], a.args[1]
				if x.id > y.id {
					x, y = y, x
				}
				if e, ok := terms[eqKey(x, y)]; ok {
					if ev, ok := atomOf[e]; ok {
						for _, u := range vs {
							if u == ev {
								r = and(r, or(bvar(v), bvar(w), bvar(ev)))
							}
						}
					}
				}
			}
		}
		for _, u := range vs {
			e := atoms[u]
			if e.op == OEq && e.s == "" && (e.args[0] == a.args[0] && e.args[1] == a.args[1] || e.args[0] == a.args[1] && e.args[1] == a.args[0]) {
				r = and(r, not(and(bvar(v), bvar(u))))
			}
		}
	}
	return r
}

func eqKey(a, b *Term) string {
	return string([]byte{byte(OEq) + 33}) + "\x000," + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id)
}

// ---- strings

func pureCall(name string, args ...*Term) *Term {
	return mkT(OCall, name, 0, nil, nil, args...)
}

func concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OConcat {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	var m []*Term
	for _, p := range out {
		if s, ok := isStrConst(p); ok {
			if s == "" {
				continue
			}
			if len(m) > 0 {
				if q, ok := isStrConst(m[len(m)-1]); ok {
					m[len(m)-1] = mkStr(q + s)
					continue
				}
			}
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return mkStr("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mkT(OConcat, "", 0, nil, types.Typ[types.String], m...)
}

// strOf is the textual rendering (%v) of a value.
func strOf(t *Term) *Term {
	if t.op == OIface {
		return strOfTyped(t.args[0], t.aux.(types.Type))
	}
	return strOfTyped(t, t.typ)
}

func strOfTyped(t *Term, typ types.Type) *Term {
	if _, ok := isStrConst(t); ok {
		return t
	}
	if n, ok := isIntConst(t); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	if t.op == OConcat {
		return t
	}
	if typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return t
		}
		if sl, ok := typ.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return mkT(OCall, "fmt.Str.bytes", 0, nil, types.Typ[types.String], t)
			}
		}
	}
	return mkT(OCall, "fmt.Str", 0, nil, types.Typ[types.String], t)
}

// ---- slices

func sliceT(base, lo, hi *Term, strBase bool) *Term {
	if lo == nil {
		lo = mkInt(0)
	}
	if base.op == OSlice {
		// base = b0[lo0:hi0]  =>  b0[lo0+lo : lo0+hi]
		lo0, hi0 := base.args[1], base.args[2]
		nlo := addT(lo0, lo)
		var nhi *Term
		if hi != nil {
			nhi = addT(lo0, hi)
		} else {
			nhi = hi0
		}
		return sliceT(base.args[0], nlo, nhi, strBase)
	}
	if hi != nil {
		if hi == lenT(base) {
			hi = nil
		}
	}
	if n, ok := isIntConst(lo); ok && n == 0 && hi == nil && base.op != OAlloc {
		return base
	}
	if s, ok := isStrConst(base); ok {
		l, ok1 := isIntConst(lo)
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = isIntConst(hi)
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	return mkT(OSlice, "", 0, nil, base.typ, base, lo, hi)
}

func isStringTerm(t *Term) bool {
	if t.op == OConcat {
		return true
	}
	if _, ok := isStrConst(t); ok {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	return false
}

func lenT(t *Term) *Term {
	switch t.op {
	case OConst:
		if s, ok := isStrConst(t); ok {
			return mkInt(int64(len(s)))
		}
	case ONil:
		return mkInt(0)
	case OSym:
		if t.s == "!empty" {
			return mkInt(0)
		}
	case OSlice:
		hi := t.args[2]
		if hi == nil {
			hi = lenT(t.args[0])
		}
		return subT(hi, t.args[1])
	case OAlloc:
		if n, ok := t.aux.(allocInfo); ok {
			if n.length != nil {
				return n.length
			}
			if p, ok := t.typ.(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return mkInt(a.Len())
				}
			}
		}
	case OApp:
		r := lenT(t.args[0])
		for _, e := range t.args[1:] {
			if e.op == OSpread {
				r = addT(r, lenT(e.args[0]))
			} else {
				r = addT(r, mkInt(1))
			}
		}
		return r
	case OIface:
		return lenT(t.args[0])
	case OCall:
		switch {
		case strings.HasSuffix(t.s, "pbkdf2.Key") && len(t.args) == 5:
			if _, ok := isIntConst(t.args[3]); ok {
				return t.args[3]
			}
		case strings.HasPrefix(t.s, "digest:"):
			switch {
			case strings.HasSuffix(t.s, "sha512"):
				return mkInt(64)
			case strings.HasSuffix(t.s, "sha256"):
				return mkInt(32)
			case strings.HasSuffix(t.s, "md5"):
				return mkInt(16)
			}
		case t.s == "crypt" && len(t.args) == 2:
			return lenT(t.args[1])
		case (t.s == "sorted" || t.s == "perm") && len(t.args) > 0:
			return lenT(t.args[0])
		}
	case OTuple:
		if t.s == "lit" {
			return mkInt(int64(len(t.args)))
		}
	}
	s := ""
	if isStringTerm(t) {
		s = "str"
	}
	if t.op == OConcat {
		r := mkInt(0)
		for _, a := range t.args {
			r = addT(r, lenT(a))
		}
		return r
	}
	return mkT(OLen, s, 0, nil, types.Typ[types.Int], t)
}

func appT(base *Term, elems ...*Term) *Term {
	if len(elems) == 0 {
		return base
	}
	if base.op == OApp {
		elems = append(append([]*Term{}, base.args[1:]...), elems...)
		base = base.args[0]
	}
	// append(empty, xs...) is a copy of xs
	return mkT(OApp, "", 0, nil, base.typ, append([]*Term{base}, elems...)...)
}

type allocInfo struct {
	length *Term  // for make([]T, n)
	kind   string // "new", "make", "map", "err"
	pos    token.Pos
	fn     *ssa.Function
	alg    string
}

func joinT(ts []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var typ types.Type
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OJoin {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !set[t] {
			set[t] = true
			out = append(out, t)
			if typ == nil {
				typ = t.typ
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkT(OJoin, "", 0, nil, typ, out...)
}

// ---- traversal

// walkT visits t and its sub-terms (each once).
func walkT(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			w(a)
		}
	}
	w(t)
}

func contains(t, sub *Term) bool {
	found := false
	walkT(t, func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

func anyTerm(t *Term, p func(*Term) bool) bool {
	found := false
	walkT(t, func(x *Term) bool {
		if !found && p(x) {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d-1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case OConst:
		if s, ok := isStrConst(t); ok {
			return strconv.Quote(s)
		}
		return t.s[2:]
	case ONil:
		return "nil"
	case OSym:
		return t.s
	case OAlloc:
		n := "new"
		if t.typ != nil {
			n = "new " + shortType(t.typ)
		}
		return fmt.Sprintf("%s#%d", n, t.id)
	case OGlobal:
		return "&" + t.s
	case OField:
		return t.args[0].str(d-1) + "." + t.s
	case OFieldAddr:
		return "&" + t.args[0].str(d-1) + "." + t.s
	case OElem:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case OIdxAddr:
		return "&" + t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case OMapGet:
		return t.args[0].str(d-1) + "{" + t.args[1].str(d-1) + "}"
	case OCall:
		s := t.s
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return s + "(" + as() + ")"
	case OProj:
		return t.args[0].str(d) + "#" + t.s
	case OLin:
		s := ""
		for i, a := range t.args {
			s += fmt.Sprintf("%+d*%s", t.coef[i], a.str(d-1))
		}
		return fmt.Sprintf("(%s%+d)", s, t.k)
	case OEq:
		if t.s == "0" {
			return t.args[0].str(d-1) + "==0"
		}
		return "(" + t.args[0].str(d-1) + " == " + t.args[1].str(d-1) + ")"
	case OGe0:
		return t.args[0].str(d-1) + ">=0"
	case OLt:
		return "(" + t.args[0].str(d-1) + " < " + t.args[1].str(d-1) + ")"
	case OK:
		return fmt.Sprintf("K%d", t.k)
	case OMu:
		return fmt.Sprintf("mu%d(%s)", t.k, t.s)
	case OBool:
		return "B{" + bddStr(BDD(t.k)) + "}"
	case OSlice:
		h := ""
		if t.args[2] != nil {
			h = t.args[2].str(d - 1)
		}
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + h + "]"
	case OIface:
		return "<" + t.args[0].str(d-1) + ">"
	case OTA:
		return t.args[0].str(d-1) + ".(" + t.s + ")"
	case OConcat:
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d-1))
		}
		return strings.Join(p, "+")
	case OFn, OClo:
		return "func:" + t.s
	}
	return opName[t.op] + ":" + t.s + "(" + as() + ")"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// bddStr renders a guard as a sum of a few cubes.
func bddStr(g BDD) string {
	if g == T {
		return "true"
	}
	if g == F {
		return "false"
	}
	var cubes []string
	var walk func(x BDD, lits []string)
	walk = func(x BDD, lits []string) {
		if len(cubes) > 6 {
			return
		}
		if x == F {
			return
		}
		if x == T {
			cubes = append(cubes, strings.Join(lits, " ∧ "))
			return
		}
		n := bd.nodes[x]
		a := atoms[n.v].str(6)
		l2 := append([]string{}, lits...)
		walk(n.hi, append(l2, a))
		walk(n.lo, append(append([]string{}, lits...), "¬"+a))
	}
	walk(g, nil)
	return strings.Join(cubes, "  ∨  ")
}

// linAxioms splits the facts into groups that share no variable.
func linAxioms(vs []int32) BDD {
	group := map[*Term]int{}
	next := 0
	var members [][]int32
	for _, v := range vs {
		l := toLin(atoms[v].args[0])
		at := -1
		for t := range l.m {
			g, ok := group[t]
			if !ok {
				continue
			}
			if at < 0 {
				at = g
			} else if g != at {
				members[at] = append(members[at], members[g]...)
				members[g] = nil
				for x, y := range group {
					if y == g {
						group[x] = at
					}
				}
			}
		}
		if at < 0 {
			at = next
			next++
			members = append(members, nil)
		}
		members[at] = append(members[at], v)
		for t := range l.m {
			group[t] = at
		}
	}
	r := T
	for _, m := range members {
		if len(m) < 2 {
			continue
		}
		sortInt32(m)
		kb := []byte{'L'}
		for _, v := range m {
			kb = append(kb, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		}
		f, ok := bd.axMemo[string(kb)]
		if !ok {
			f = linFacts(m)
			bd.axMemo[string(kb)] = f
		}
		r = and(r, f)
	}
	return r
}

// linFacts: what follows from two or three linear facts about different sums
// (x >= a and y - x >= b give y >= a+b).
func linFacts(vs []int32) BDD {
	type fact struct {
		l    linear // l >= 0
		when BDD
	}
	var fs []fact
	forms := map[*Term]bool{}
	neg := func(l linear) linear {
		n := linear{m: map[*Term]int64{}, k: -l.k}
		for t, c := range l.m {
			n.m[t] = -c
		}
		return n
	}
	plus := func(l linear, k int64) linear { return linear{m: l.m, k: l.k + k} }
	type at struct {
		v  int32
		eq bool
		l  linear
	}
	var as []at
	for _, v := range vs {
		t := atoms[v]
		if t.op != OGe0 && !(t.op == OEq && t.s == "0") {
			continue
		}
		l := toLin(t.args[0])
		f := l
		f.k = 0
		forms[fromLin(f)] = true
		as = append(as, at{v, t.op == OEq, l})
	}
	if len(forms) < 2 || len(as) > 60 {
		return T
	}
	for _, a := range as {
		if a.eq {
			fs = append(fs, fact{a.l, bvar(a.v)}, fact{neg(a.l), bvar(a.v)})
			for _, b := range as {
				if b.eq {
					continue
				}
				// a != 0 and a >= 0, or a <= 0
				d := subT(fromLin(a.l), fromLin(b.l))
				if n, ok := isIntConst(d); ok && n == 0 {
					fs = append(fs, fact{plus(a.l, -1), and(not(bvar(a.v)), bvar(b.v))})
				} else if ok && n == -1 {
					fs = append(fs, fact{plus(neg(a.l), -1), and(not(bvar(a.v)), not(bvar(b.v)))})
				}
			}
		} else {
			fs = append(fs, fact{a.l, bvar(a.v)}, fact{plus(neg(a.l), -1), not(bvar(a.v))})
		}
	}
	// sizes are never negative
	seen := map[*Term]bool{}
	for _, a := range as {
		for t := range a.l.m {
			if !seen[t] && isNonneg(t) {
				seen[t] = true
				fs = append(fs, fact{linear{m: map[*Term]int64{t: 1}}, T})
			}
		}
	}
	sum := func(a, b linear) linear {
		n := linear{m: map[*Term]int64{}, k: a.k + b.k}
		for t, c := range a.m {
			n.m[t] = c
		}
		for t, c := range b.m {
			n.m[t] += c
			if n.m[t] == 0 {
				delete(n.m, t)
			}
		}
		return n
	}
	key := func(l linear) *Term {
		l.k = 0
		return fromLin(l)
	}
	by := map[*Term][]int{}
	for i, f := range fs {
		by[key(f.l)] = append(by[key(f.l)], i)
	}
	r := T
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			s := sum(fs[i].l, fs[j].l)
			if len(s.m) == 0 {
				if s.k < 0 {
					r = and(r, not(and(fs[i].when, fs[j].when)))
				}
				continue
			}
			if len(s.m) > 2 {
				continue
			}
			for _, k := range by[key(neg(s))] {
				if k > j && s.k+fs[k].l.k < 0 {
					r = and(r, not(and(fs[i].when, fs[j].when, fs[k].when)))
				}
			}
		}
	}
	return r
}
