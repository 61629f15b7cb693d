package main

import (
	"go/types"
	"sort"
	"strings"
)

// ---- C17: from the records of the band files to items

// part of a list: one element, or what a loop adds.
type part struct {
	elem *Term
	loop *comp
	mu   *Term
}

type partList struct {
	g     BDD
	parts []part
}

// partsOf takes a list apart into what it was put together from.
func (w *World) partsOf(t *Term, g BDD, depth int) ([]partList, string) {
	if depth > 10 {
		return nil, "a list of too many steps"
	}
	if n, ok := isIntConst(lenT(t)); ok && n == 0 {
		return []partList{{g, nil}}, ""
	}
	switch t.op {
	case OApp:
		cur, why := w.partsOf(t.args[0], g, depth+1)
		if why != "" {
			return nil, why
		}
		for _, a := range t.args[1:] {
			var next []partList
			for _, p := range cur {
				if a.op == OSpread {
					more, why := w.partsOf(a.args[0], p.g, depth+1)
					if why != "" {
						return nil, why
					}
					for _, m := range more {
						next = append(next, partList{m.g, append(append([]part{}, p.parts...), m.parts...)})
					}
				} else {
					next = append(next, partList{p.g, append(append([]part{}, p.parts...), part{elem: a})})
				}
			}
			cur = next
		}
		return cur, ""
	case OMu:
		lv := w.loopVarOf(t)
		if lv == nil {
			return nil, "not built by a loop"
		}
		cp, why := w.compPlus(t)
		if why != "" {
			return nil, why
		}
		var out []partList
		for _, i := range lv.init {
			gi := and(g, w.noInner(i.g, cp.li))
			if !sat(gi) {
				continue
			}
			ps, why := w.partsOf(i.t, gi, depth+1)
			if why != "" {
				return nil, why
			}
			for _, p := range ps {
				out = append(out, partList{p.g, append(append([]part{}, p.parts...), part{loop: cp, mu: t})})
			}
		}
		return out, ""
	case OTuple:
		var ps []part
		for _, a := range t.args {
			ps = append(ps, part{elem: a})
		}
		return []partList{{g, ps}}, ""
	}
	if els, ok := w.e.elements(State{T, w.main.pre.heap}, t, nil); ok && t.op != OAlloc && t.op != OSlice {
		var ps []part
		for _, e := range els {
			if x := e.single(); x != nil {
				ps = append(ps, part{elem: x})
			}
		}
		return []partList{{g, ps}}, ""
	}
	return nil, "a list of unknown origin: " + clip(t.String(), 80)
}

// noInner forgets positions of loops other than the ones around a loop.
func (w *World) noInner(g BDD, li *LoopInfo) BDD { return w.focus(g, li) }

// compPlus is compOf for a loop whose list may start with elements.
func (w *World) compPlus(mu *Term) (*comp, string) {
	return w.compFrom(mu, true)
}

// ---- how the band files become one document

// bandText evaluates how the texts of n band files are put together.
type bandText struct {
	w     *World
	n     int64
	glob  *Term
	k     map[int64]int64
	cur   map[*Term]interface{}
	depth int
	body  func(k int64) string // what the file holds between the brackets
}

func isGlob(t *Term) bool {
	return t.op == OProj && t.s == "0" && t.args[0].op == OCall && strings.HasSuffix(t.args[0].s, "filepath.Glob")
}

func bandMark(k int64) string { return string(rune(0xE000 + k)) }

// bandFile: what the brackets of a band file hold.
func (b *bandText) bandFile(x *Term) (string, bool) {
	x = stripConv(unwrap(x))
	if x.op == OCall && x.s == "filedata" && len(x.args) > 0 && x.args[0].op == OElem && isGlob(x.args[0].args[0]) {
		b.glob = x.args[0].args[0]
		if k, ok := b.eval(x.args[0].args[1]); ok {
			if i, ok := k.(int64); ok && i >= 0 && i < b.n {
				return b.body(i), true
			}
		}
	}
	return "", false
}

// bandBody: the text between the brackets of the band file at position k.
func (b *bandText) bandBody(t *Term) (string, bool) {
	file := b.bandFile
	t = stripConv(unwrap(t))
	switch {
	case t.op == OSlice:
		if m, ok := file(t.args[0]); ok {
			lo, hi := t.args[1], t.args[2]
			if hi == nil {
				hi = lenT(t.args[0])
			}
			n, isN := isIntConst(lo)
			d, isD := isIntConst(subT(lenT(t.args[0]), hi))
			if isN && n == 4 && isD && d == 3 {
				return m, true
			}
		}
	case t.op == OCall && len(t.args) == 2 && (t.s == "strings.TrimSuffix" || t.s == "strings.TrimPrefix" || t.s == "bytes.TrimSuffix" || t.s == "bytes.TrimPrefix"):
		in := stripConv(unwrap(t.args[0]))
		if in.op == OCall && len(in.args) == 2 && in.s != t.s && in.s[:5] == t.s[:5] {
			a, _ := isStrConst(stripConv(unwrap(t.args[1])))
			c, _ := isStrConst(stripConv(unwrap(in.args[1])))
			if strings.HasSuffix(t.s, "Prefix") {
				a, c = c, a
			}
			if m, ok := file(in.args[0]); ok && a == "});" && c == "ld({" {
				return m, true
			}
		}
	}
	return "", false
}

func (b *bandText) eval(t *Term) (interface{}, bool) {
	b.depth++
	defer func() { b.depth-- }()
	if b.depth > 60 {
		return nil, false
	}
	t = unwrap(t)
	if v, ok := b.cur[t]; ok {
		return v, true
	}
	if s, ok := isStrConst(t); ok {
		return s, true
	}
	if n, ok := isIntConst(t); ok {
		return n, true
	}
	if m, ok := b.bandBody(t); ok {
		return m, true
	}
	if n, ok := isIntConst(lenT(t)); ok && n == 0 {
		return []string{}, true
	}
	switch t.op {
	case OK:
		n, ok := b.k[t.k]
		return n, ok
	case OLen:
		if isGlob(t.args[0]) {
			return b.n, true
		}
		if s, ok := b.bandFile(t.args[0]); ok {
			return int64(len("ld({});") + len(s)), true
		}
		switch v, _ := b.eval(t.args[0]); v := v.(type) {
		case string:
			return int64(len(v)), true
		case []string:
			return int64(len(v)), true
		}
	case OLin:
		l := toLin(t)
		n := l.k
		for x, k := range l.m {
			v, ok := b.eval(x)
			i, isi := v.(int64)
			if !ok || !isi {
				return nil, false
			}
			n += k * i
		}
		return n, true
	case OConcat:
		r := ""
		for _, a := range t.args {
			v, ok := b.eval(a)
			s, iss := v.(string)
			if !ok || !iss {
				return nil, false
			}
			r += s
		}
		return r, true
	case OApp:
		v, ok := b.eval(t.args[0])
		l, isl := v.([]string)
		if !ok || !isl {
			return nil, false
		}
		l = append([]string{}, l...)
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				return nil, false
			}
			v, ok := b.eval(a)
			s, iss := v.(string)
			if !ok || !iss {
				return nil, false
			}
			l = append(l, s)
		}
		return l, true
	case OSlice:
		v, ok := b.eval(t.args[0])
		s, iss := v.(string)
		if !ok || !iss {
			return nil, false
		}
		lo, hi := int64(0), int64(len(s))
		if x, ok := b.eval(t.args[1]); ok {
			lo, _ = x.(int64)
		}
		if t.args[2] != nil {
			x, ok := b.eval(t.args[2])
			i, isi := x.(int64)
			if !ok || !isi {
				return nil, false
			}
			hi = i
		}
		if lo < 0 || hi > int64(len(s)) || lo > hi {
			return nil, false
		}
		return s[lo:hi], true
	case OMu:
		return b.run(t)
	case OElem:
		v, ok := b.eval(t.args[0])
		l, isl := v.([]string)
		k, ok2 := b.eval(t.args[1])
		i, isi := k.(int64)
		if ok && isl && ok2 && isi && i >= 0 && i < int64(len(l)) {
			return l[i], true
		}
	case OJoin:
		// the same whichever it is
		var r interface{}
		for i, a := range t.args {
			v, ok := b.eval(a)
			if !ok || i > 0 && v != r {
				return nil, false
			}
			if _, isl := v.([]string); isl {
				return nil, false
			}
			r = v
		}
		return r, r != nil
	case OCall:
		str := func(i int) string {
			v, _ := b.eval(t.args[i])
			s, _ := v.(string)
			return s
		}
		switch {
		case t.s == "strings.Join" && len(t.args) == 2:
			v, ok := b.eval(t.args[0])
			l, isl := v.([]string)
			if ok && isl {
				return strings.Join(l, str(1)), true
			}
		case len(t.args) == 2 && (t.s == "strings.TrimSuffix" || t.s == "bytes.TrimSuffix"):
			return strings.TrimSuffix(str(0), str(1)), true
		case len(t.args) == 2 && (t.s == "strings.TrimPrefix" || t.s == "bytes.TrimPrefix"):
			return strings.TrimPrefix(str(0), str(1)), true
		case len(t.args) == 2 && (t.s == "strings.TrimRight" || t.s == "bytes.TrimRight"):
			return strings.TrimRight(str(0), str(1)), true
		case len(t.args) == 2 && (t.s == "strings.TrimLeft" || t.s == "bytes.TrimLeft"):
			return strings.TrimLeft(str(0), str(1)), true
		case len(t.args) == 2 && (t.s == "strings.Trim" || t.s == "bytes.Trim"):
			return strings.Trim(str(0), str(1)), true
		case len(t.args) == 1 && (t.s == "strings.TrimSpace" || t.s == "bytes.TrimSpace"):
			return strings.TrimSpace(str(0)), true
		}
	}
	return nil, false
}

// holds evaluates a condition; what is not about the files is left open.
func (b *bandText) holds(g BDD) BDD {
	return substBDD(g, func(x int32) BDD {
		a := atoms[x]
		if !anyTerm(a, func(t *Term) bool { return t.op == OK || t.op == OMu || isGlob(t) }) {
			return bvar(x)
		}
		switch {
		case a.op == OGe0:
			if v, ok := b.eval(a.args[0]); ok {
				if i, ok := v.(int64); ok {
					return b2(i >= 0)
				}
			}
		case a.op == OEq && a.s == "0":
			if v, ok := b.eval(a.args[0]); ok {
				if i, ok := v.(int64); ok {
					return b2(i == 0)
				}
			}
		case a.op == OEq && len(a.args) == 2:
			v, ok1 := b.eval(a.args[0])
			u, ok2 := b.eval(a.args[1])
			s, iss := v.(string)
			z, isz := u.(string)
			if ok1 && ok2 && iss && isz {
				return b2(s == z)
			}
		}
		return bvar(x)
	})
}

func (b *bandText) run(mu *Term) (interface{}, bool) {
	li := b.w.e.loops[mu.k]
	lv := b.w.loopVarOf(mu)
	if li == nil || lv == nil {
		return nil, false
	}
	for _, x := range li.exits {
		if !x.header && sat(x.pc) {
			return nil, false
		}
	}
	srcs, why := b.w.sourcesOf(li)
	if why != "" {
		return nil, false
	}
	rounds := int64(-1)
	for _, s := range srcs {
		if s.seq == nil {
			continue
		}
		n := b.n
		if !isGlob(stripPerm(s.seq)) {
			// a list made from the files
			v, ok := b.eval(s.seq)
			l, isl := v.([]string)
			if !ok || !isl {
				return nil, false
			}
			n = int64(len(l))
		}
		if rounds >= 0 && n != rounds {
			return nil, false
		}
		rounds = n
	}
	pick := func(v Val) (interface{}, bool) {
		var r interface{}
		found := false
		for _, c := range v {
			if !sat(b.holds(c.g)) {
				continue
			}
			x, ok := b.eval(c.t)
			if !ok || found {
				return nil, false
			}
			r, found = x, true
		}
		return r, found
	}
	// all variables of the loop go along
	vals := map[*Term]interface{}{}
	for m, v := range li.vars {
		if x, ok := pick(v.init); ok {
			vals[m] = x
		}
	}
	set := func() {
		for m, v := range vals {
			b.cur[m] = v
			b.cur[li.vars[m].val] = v
		}
	}
	clear := func() {
		for m := range li.vars {
			delete(b.cur, m)
			delete(b.cur, li.vars[m].val)
		}
		delete(b.k, li.id)
	}
	for i := int64(0); i < rounds; i++ {
		clear()
		set()
		b.k[li.id] = i
		next := map[*Term]interface{}{}
		for m, v := range li.vars {
			if _, ok := vals[m]; !ok {
				continue
			}
			var cs Val
			for _, c := range v.back {
				cs = append(cs, Case{and(c.g, li.back), c.t})
			}
			if x, ok := pick(cs); ok {
				next[m] = x
			}
		}
		vals = next
	}
	clear()
	v, ok := vals[mu]
	return v, ok
}

// allBands: the document is the text of all band files.
func (c *Check) allBands(r *Run, li *LoopInfo, doc *Term) (glob *Term) {
	if !c.ok(doc.op == OCall && doc.s == "doc" && len(doc.args) == 2, "all-bands", r, nil, "the records come from %s", clip(doc.String(), 100)) {
		return nil
	}
	text := stripConv(unwrap(doc.args[1]))
	most := int64(4)
	if deep {
		most = 16
	}
	show := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r >= 0xE000 {
				return 'A' + r - 0xE000
			}
			return r
		}, s)
	}
	norm := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == ' ' || r == '\n' || r == '\t' {
				return -1
			}
			return r
		}, s)
	}
	sorted := func(s string) string {
		rs := []rune(s)
		sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
		return string(rs)
	}
	for n := int64(1); n <= most; n++ {
		// every way in which the files may hold no records
		for mask := int64(0); mask < 1<<n; mask++ {
			if n > 5 && mask != 0 && mask != 1 && mask != 1<<(n-1) && mask != 1<<n-1 {
				continue
			}
			for _, none := range []string{"", " \n"} {
				if mask == 0 && none != "" {
					continue
				}
				b := &bandText{w: c.w, n: n, k: map[int64]int64{}, cur: map[*Term]interface{}{}}
				b.body = func(k int64) string {
					if mask&(1<<k) != 0 {
						return none
					}
					return bandMark(k)
				}
				v, ok := b.eval(text)
				glob = b.glob
				s, iss := v.(string)
				if !c.ok(ok && iss, "all-bands", r, nil, "how the band files are put together is not known: %s", clip(text.String(), 100)) {
					return nil
				}
				var ms []string
				for k := int64(0); k < n; k++ {
					if mask&(1<<k) == 0 {
						ms = append(ms, bandMark(k))
					}
				}
				want := "{" + strings.Join(ms, ",") + "}"
				got := norm(s)
				good := got == want
				if !good && len(got) == len(want) && sorted(got) == sorted(want) && got[0] == '{' && got[len(got)-1] == '}' {
					// in another order
					good = true
					for i, p := range strings.Split(got[1:len(got)-1], ",") {
						good = good && (p != "" || i == 0 && len(ms) == 0)
					}
				}
				c.ok(good, "all-bands", r, nil, "%d band files, %d without records, are read as %s", n, n-int64(len(ms)), show(got))
			}
		}
	}
	return glob
}

// ---- the parts of an item

// record is the value of one record in the document of all records.
type recordRef struct {
	doc, K *Term
	w      *World
	li     *LoopInfo
	memo   map[*Term]string
}

// via: t is a field of what an earlier loop made of the record.
func (q recordRef) via(t *Term) string {
	if q.li == nil || t.op != OField || t.args[0].op != OElem || t.args[0].args[1] != mkK(q.li.id) || isDoc(t.args[0].args[0]) {
		return ""
	}
	if s, ok := q.memo[t]; ok {
		return s
	}
	q.memo[t] = ""
	e := t.args[0]
	fs, why := q.w.flattenTo(flat{cond: T, base: e.args[0], K: e.args[1], guard: T, bound: T, vals: []Val{one(t)}}, isDoc, 0)
	if why != "" {
		return ""
	}
	got := ""
	for _, f := range fs {
		if f.base == nil {
			continue
		}
		in := recordRef{doc: f.base, K: f.K}
		for _, cs := range f.vals[0] {
			s := in.entry(cs.t)
			if s == "" || got != "" && s != got {
				return ""
			}
			got = s
		}
	}
	q.memo[t] = got
	return got
}

func (q recordRef) isKey(t *Term) bool {
	t = stripConv(unwrap(t))
	return t.op == OMapKey && t.args[0] == q.doc
}

func (q recordRef) is(t *Term) bool {
	t = unwrap(t)
	for t.op == OTA {
		t = unwrap(t.args[0])
	}
	if t.op == OMapGet && t.args[0] == q.doc && q.isKey(t.args[1]) {
		return true
	}
	return t.op == OElem && t.args[0] == q.doc && t.args[1] == q.K
}

// entry returns the key if t is an entry of the record.
func (q recordRef) entry(t *Term) string {
	t = stripConv(unwrap(t))
	for t.op == OTA {
		t = unwrap(t.args[0])
	}
	if t.op == OMapGet && q.is(t.args[0]) {
		s, _ := isStrConst(t.args[1])
		return s
	}
	return q.via(t)
}

// uses lists the entries of the record a term was made from.
func (q recordRef) uses(t *Term) []string {
	seen := map[string]bool{}
	walkT(t, func(x *Term) bool {
		if s := q.entry(x); s != "" {
			seen[s] = true
			return false
		}
		return true
	})
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// docKind tells which of the record's two documents a decoded document is.
func (q recordRef) docKind(t *Term) string {
	t = unwrap(t)
	if t.op != OCall || t.s != "doc" {
		return ""
	}
	switch strings.Join(q.uses(t.args[1]), ",") {
	case "o":
		return "overview"
	case "d,k":
		return "details"
	}
	return ""
}

// docEntry: an entry of the record's own documents: which, and the key.
func (q recordRef) docEntry(t *Term) (kind, key string) {
	t = stripConv(unwrap(t))
	for t.op == OTA {
		t = unwrap(t.args[0])
	}
	if t.op == OMapGet {
		if k := q.docKind(t.args[0]); k != "" {
			s, _ := isStrConst(t.args[1])
			return k, s
		}
	}
	return "", ""
}

func untyped(t *Term) *Term {
	t = stripConv(unwrap(t))
	for t.op == OTA {
		t = stripConv(unwrap(t.args[0]))
	}
	return t
}

// missing: the value is missing or not of the kind asked for.
func missing(x *Term) BDD {
	g := or(eqB(x, mkNil()), undecodable(x))
	for i, a := range atoms {
		if (a.op == OIsType) && a.args[0] == x {
			g = or(g, not(bvar(int32(i))))
		}
		if a.op == OMapHas && x.op == OMapGet && a.args[0] == x.args[0] && a.args[1] == x.args[1] {
			g = or(g, not(bvar(int32(i))))
		}
		// the document itself could not be read
		if a.op == OEq && len(a.args) == 2 && x.op == OMapGet && unwrap(x.args[0]).op == OCall && unwrap(x.args[0]).s == "doc" {
			for k := 0; k < 2; k++ {
				if e := a.args[1-k]; a.args[k].op == ONil && e.op == OProj && e.s == "err" && e.args[0].op == OCall && strings.HasSuffix(e.args[0].s, "json.Unmarshal") && len(e.args[0].args) > 0 && e.args[0].args[0] == unwrap(x.args[0]).args[1] {
					g = or(g, not(bvar(int32(i))))
				}
			}
		}
		// a text that is empty
		if a.op == OEq && len(a.args) == 2 {
			for k := 0; k < 2; k++ {
				if s, ok := isStrConst(a.args[k]); ok && s == "" && untyped(titled(a.args[1-k])) == x {
					g = or(g, bvar(int32(i)))
				}
			}
		}
	}
	return g
}

// undecodable: the document an entry belongs to could not be decoded: its text
// is not base64, too short, forged, or its key cannot be had.
func undecodable(x *Term) BDD {
	if x.op != OMapGet {
		return F
	}
	d := unwrap(x.args[0])
	if d.op != OCall || d.s != "doc" || len(d.args) < 2 {
		return F
	}
	parts := map[*Term]bool{}
	var texts []*Term
	walkT(d.args[1], func(t *Term) bool {
		parts[t] = true
		if t.op == OCall && strings.HasSuffix(t.s, "DecodeString") {
			texts = append(texts, t)
		}
		return true
	})
	of := func(t *Term) bool {
		got := false
		walkT(t, func(y *Term) bool {
			for _, x := range texts {
				got = got || x == y
			}
			return !got
		})
		return got
	}
	g := F
	for i, a := range atoms {
		v := bvar(int32(i))
		switch {
		case a.op == OEq && len(a.args) == 2:
			for k := 0; k < 2; k++ {
				e := a.args[1-k]
				if a.args[k].op == ONil && e.op == OProj && e.s != "0" && e.args[0].op == OCall {
					f := e.args[0]
					if parts[f] || (strings.HasSuffix(f.s, "aes.NewCipher") || strings.HasSuffix(f.s, "binary.Read")) && of(f) {
						g = or(g, not(v))
					}
				}
				if f := a.args[k]; f.op == OCall && strings.HasPrefix(f.s, "digest:hmac") && of(a.args[1-k]) {
					g = or(g, not(v))
				}
			}
		}
		if (a.op == OGe0 || a.op == OEq && a.s == "0") && len(a.args) == 1 {
			l := toLin(a.args[0])
			if len(l.m) == 1 {
				for y, c := range l.m {
					if y.op != OLen || !of(y) {
						continue
					}
					switch {
					case a.op == OEq && (c*l.k == -112):
						g = or(g, not(v))
					case a.op == OGe0 && c == 1 && l.k == -64:
						g = or(g, not(v))
					}
				}
			}
		}
	}
	return g
}

// titled strips the capitalisation of names.
func titled(t *Term) *Term {
	t = stripConv(unwrap(t))
	for t.op == OCall && t.s == "strings.Title" && len(t.args) == 1 {
		t = stripConv(unwrap(t.args[0]))
	}
	return t
}

func init() {
	register("C17", "Every decoded item is complete and carries its own data", func(c *Check) {
		w := c.w
		_, _, cats, why := w.registry()
		if !c.need(why == "", "registry", "%s", why) {
			return
		}
		n := 0
		var ids []int64
		for id := range w.e.loops {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			li := w.e.loops[id]
			var ms []*Term
			for m := range li.vars {
				ms = append(ms, m)
			}
			sortTerms(ms)
			for _, m := range ms {
				makes := false
				for _, b := range li.vars[m].back {
					if b.t.op == OApp {
						for _, a := range b.t.args[1:] {
							if a.op == OAlloc && isItemType(a.typ) {
								makes = true
							}
						}
					}
				}
				if makes && sat(li.entry) {
					n++
					c.decodes(m, cats)
				}
			}
		}
		c.need(n > 0, "items", "no items are decoded")
		c.stored()
	})
}

func (c *Check) loopRun(li *LoopInfo) *Run {
	for _, r := range c.w.all() {
		for _, ev := range r.events {
			for _, l := range ev.loops {
				if l == li.id {
					return r
				}
			}
		}
	}
	return nil
}

func (c *Check) decodes(mu *Term, cats []category) {
	w := c.w
	li := w.e.loops[mu.k]
	r := c.loopRun(li)
	names := []string{"Uid", "Category", "Trashed", "Created", "Updated", "Title", "Url", "Notes", "Sections"}
	var it types.Type
	for _, b := range li.vars[mu].back {
		if b.t.op == OApp {
			it = b.t.args[len(b.t.args)-1].typ
		}
	}
	if !c.ok(hasFields(it, names...), "items", r, nil, "an item has no %s", names) {
		return
	}
	K := mkT(OK, "", -17, nil, types.Typ[types.Int])
	e := elemT(mu, K, it)
	f := flat{cond: T, base: mu, K: K, guard: T, bound: T}
	for _, n := range names {
		f.vals = append(f.vals, one(itemField(e, n)))
	}
	fs, why := w.flattenTo(f, isDoc, 0)
	if !c.ok(why == "", "items", r, nil, "the items cannot be followed to the records: %s", why) {
		return
	}
	some := false
	globs := map[*Term]bool{}
	for _, f := range fs {
		if f.base != nil {
			if g := c.allBands(r, li, f.base); g != nil {
				globs[g] = true
			}
		}
	}
	for _, f := range fs {
		if f.base == nil {
			// no records: there are no band files
			files := F
			for i, a := range atoms {
				if a.op == OGe0 {
					l := toLin(a.args[0])
					for t, co := range l.m {
						if len(l.m) == 1 && t.op == OLen && globs[t.args[0]] && l.k == -1 && co == 1 {
							files = or(files, bvar(int32(i)))
						}
					}
				}
			}
			none := and(f.cond, files)
			c.ok(sat(files) && !sat(none), "all-bands", r, nil, "records may be left out: %s", witness(none))
			continue
		}
		some = true
		q := recordRef{doc: f.base, K: f.K, w: w, li: li, memo: map[*Term]string{}}
		c.itemOf(r, mu, f, recordRef{doc: f.base, K: f.K}, names, cats)
		c.sectionsOf(r, mu, q)
	}
	c.need(some, "items", "no records are decoded")
}

func (c *Check) itemOf(r *Run, mu *Term, f flat, q recordRef, names []string, cats []category) {
	val := map[string]Val{}
	for i, n := range names {
		val[n] = f.vals[i]
	}
	g := and(f.guard, f.bound)
	known := F
	is := map[*Term]BDD{}
	for _, k := range cats {
		for i, a := range atoms {
			if a.op != OEq || len(a.args) != 2 {
				continue
			}
			for j := 0; j < 2; j++ {
				if s, ok := isStrConst(a.args[j]); ok && s == k.code && q.entry(a.args[1-j]) == "category" {
					is[k.obj] = or(is[k.obj], bvar(int32(i)))
				}
			}
		}
		known = or(known, is[k.obj])
	}
	in := and(f.cond, f.bound)
	c.ok(implies(and(in, known), f.guard), "one-item", r, nil, "a record of a known category yields no item: %s", witness(diff(and(in, known), f.guard)))
	c.ok(sat(g), "one-item", r, nil, "no record yields an item")
	each := func(n string, f func(g BDD, t *Term) bool) {
		c.need(len(val[n]) > 0, "own-data", "the %s of an item is not known", n)
		for _, cs := range val[n] {
			h := and(cs.g, g)
			if sat(h) {
				c.ok(f(h, cs.t), "own-data", r, nil, "the %s of an item is %s", n, clip(cs.t.String(), 100))
			}
		}
	}
	each("Uid", func(_ BDD, t *Term) bool { return q.isKey(t) })
	each("Category", func(h BDD, t *Term) bool { return implies(h, is[t]) && is[t] != F })
	for _, n := range []string{"Created", "Updated"} {
		each(n, func(_ BDD, t *Term) bool { return q.entry(t) == strings.ToLower(n) })
	}
	// trashed
	tr, want := F, F
	for _, cs := range val["Trashed"] {
		tr = or(tr, and(cs.g, boolOf(cs.t)))
	}
	for i, a := range atoms {
		if a.op == OTA && q.entry(a) == "trashed" {
			x := untyped(a)
			miss := F
			// of the right type, or missing
			nils, types := F, F
			for j, b := range atoms {
				if b.op == OEq && len(b.args) == 2 && (b.args[0] == x && b.args[1].op == ONil || b.args[1] == x && b.args[0].op == ONil) {
					miss = or(miss, bvar(int32(j)))
					nils = bvar(int32(j))
				}
				if b.op == OIsType && b.args[0] == x {
					miss = or(miss, not(bvar(int32(j))))
					types = bvar(int32(j))
				}
				if b.op == OMapHas && x.op == OMapGet && b.args[0] == x.args[0] && b.args[1] == x.args[1] {
					miss = or(miss, not(bvar(int32(j))))
				}
			}
			want = or(want, and(bvar(int32(i)), not(miss)))
			if nils != F && types != F {
				g = and(g, xor(nils, types))
			}
		}
	}
	c.ok(want != F && equivUnder(g, tr, want), "own-data", r, nil, "the trashed state of an item is not that of its record: %s", witness(and(g, xor(tr, want))))
	text := func(n, kind, key string) {
		each(n, func(h BDD, t *Term) bool {
			if k, s := q.docEntry(t); k == kind && s == key {
				return true
			}
			if s, ok := isStrConst(t); ok && s == "" {
				// missing in the document
				for _, x := range termList {
					if k, s := q.docEntry(x); x.op == OMapGet && k == kind && s == key && implies(h, missing(x)) {
						return true
					}
				}
			}
			return false
		})
	}
	text("Title", "overview", "title")
	text("Url", "overview", "url")
	text("Notes", "details", "notesPlain")
}

// present: an entry of the details document is there.
func (q recordRef) find(kind, key string) *Term {
	for _, x := range termList {
		if x.op == OMapGet {
			if k, s := q.docEntry(x); k == kind && s == key {
				return x
			}
		}
	}
	return nil
}

// ---- sections and fields

// emptyList: the list has no elements, or what it is made of is missing.
func emptyList(l, src *Term) BDD {
	g := or(not(ge0(subT(lenT(l), mkInt(1)))), eqB(l, mkNil()))
	if src != nil {
		g = or(g, missing(src))
	}
	return g
}

// entryOf finds an entry of a document that is an element of a list.
func entryOf(elem *Term, key string) *Term {
	for _, x := range termList {
		if x.op == OMapGet && untyped(x.args[0]) == elem {
			if s, ok := isStrConst(x.args[1]); ok && s == key {
				return x
			}
		}
	}
	return nil
}

type fieldRule struct {
	what        string
	name, value string
	typed       bool
}

// listOver: the list is built by one loop over src; returns the loop.
func (c *Check) listOver(r *Run, t *Term, g BDD, src func(*Term) bool, what string) *comp {
	w := c.w
	cp, why := w.compOf(t)
	if !c.ok(why == "", "fields", r, nil, "the %s cannot be followed: %s", what, why) {
		return nil
	}
	for _, s := range cp.srcs {
		if s.seq == nil {
			continue
		}
		if !c.ok(src(s.seq), "fields", r, nil, "the %s come from %s", what, clip(s.seq.String(), 80)) {
			return nil
		}
	}
	return cp
}

// fieldsOf checks a list of fields.
func (c *Check) fieldsOf(r *Run, v Val, g BDD, src *Term, fr fieldRule, holder *LoopInfo) (list *Term) {
	w := c.w
	is := func(t *Term) bool { return src != nil && untyped(t) == untyped(src) }
	for _, cs := range v {
		h := w.focus(and(cs.g, g), holder)
		if !sat(h) {
			continue
		}
		if n, ok := isIntConst(lenT(cs.t)); ok && n == 0 {
			continue
		}
		if list == cs.t {
			continue
		}
		if !c.ok(list == nil, "fields", r, nil, "the %s may be one of several lists", fr.what) {
			return list
		}
		list = cs.t
		cp := c.listOver(r, cs.t, h, is, fr.what)
		if cp == nil {
			return list
		}
		c.fieldLoop(r, cp, fr)
	}
	if list == nil {
		return nil
	}
	for _, cs := range v {
		h := w.focus(and(cs.g, g), holder)
		if n, ok := isIntConst(lenT(cs.t)); !ok || n != 0 || !sat(h) {
			continue
		}
		e := emptyList(list, src)
		c.ok(implies(h, e), "fields", r, nil, "the %s may be left out: %s", fr.what, witness(c.w.brief(diff(h, e), h)))
	}
	return list
}

// brief keeps what a condition says beyond another.
func (w *World) brief(g, under BDD) BDD {
	if x := restrict(g, under); sat(x) && x != T {
		return x
	}
	return g
}

func (c *Check) fieldLoop(r *Run, cp *comp, fr fieldRule) {
	w := c.w
	for _, s := range cp.srcs {
		if s.seq == nil {
			continue
		}
		el := elemsAt(s.seq, cp.K)
		name, value := entryOf(el, fr.name), entryOf(el, fr.value)
		if !c.ok(name != nil && value != nil, "fields", r, nil, "the %s are made without %q and %q of their document", fr.what, fr.name, fr.value) {
			continue
		}
		emit := F
		for _, e := range cp.emits {
			emit = or(emit, e.g)
		}
		in := and(w.focus(cp.li.entry, cp.li), and(s.cond, s.bound))
		want := and(in, not(missing(value)))
		if !fr.typed {
			want = and(want, not(missing(name)))
		} else {
			want = and(in, not(eqB(value, mkNil())))
		}
		c.ok(sat(want), "fields", r, nil, "no %s", fr.what)
		c.ok(implies(want, emit), "fields", r, nil, "%s with a value may be left out: %s", fr.what, witness(w.brief(diff(want, emit), in)))
		for _, e := range cp.emits {
			if !sat(e.g) || !c.ok(hasFields(e.t.typ, "Name", "Value"), "fields", r, nil, "%s are %s", fr.what, clip(e.t.String(), 60)) {
				continue
			}
			for _, cs := range w.field(cp.li.backHp, e.t, "Name") {
				if g := and(and(e.g, want), cs.g); sat(g) {
					c.ok(untyped(titled(cs.t)) == name, "own-name", r, nil, "the name of %s is %s", fr.what, clip(cs.t.String(), 100))
				}
			}
			for _, cs := range w.field(cp.li.backHp, e.t, "Value") {
				g := and(and(e.g, want), cs.g)
				if !sat(g) {
					continue
				}
				if !fr.typed {
					c.ok(untyped(cs.t) == value, "own-value", r, nil, "the value of %s is %s", fr.what, clip(cs.t.String(), 100))
					continue
				}
				c.typedValue(r, g, cs.t, value, entryOf(el, "k"))
			}
		}
	}
}

// typedValue: a value is shown as its type asks for.
func (c *Check) typedValue(r *Run, g BDD, t, v, k *Term) {
	kinds := []string{"address", "date", "monthyear"}
	is := map[string]BDD{}
	any := F
	for _, kind := range kinds {
		is[kind] = F
		for i, a := range atoms {
			if (a.op == OEq || a.op == OCall && a.s == "strings.EqualFold") && len(a.args) == 2 && k != nil {
				for j := 0; j < 2; j++ {
					s, ok := isStrConst(a.args[j])
					o := untyped(a.args[1-j])
					for o.op == OCall && (o.s == "strings.ToLower" || o.s == "strings.ToUpper" || o.s == "strings.TrimSpace") {
						o = untyped(o.args[0])
					}
					if ok && strings.ToLower(s) == kind && o == k {
						is[kind] = or(is[kind], bvar(int32(i)))
					}
				}
			}
		}
		any = or(any, is[kind])
	}
	float := F
	for i, a := range atoms {
		if a.op == OIsType && a.args[0] == v && strings.HasPrefix(a.String(), "istype:float64") {
			float = or(float, bvar(int32(i)))
		}
		// an address is an object, and nothing else is
		if a.op == OIsType && a.args[0] == v && strings.HasPrefix(a.String(), "istype:map[") {
			g = and(g, iff(bvar(int32(i)), is["address"]))
		}
	}
	var number func(t *Term, g BDD) bool
	number = func(t *Term, g BDD) bool {
		t = stripConv(unwrap(t))
		if t.op == OTA && untyped(t) == v {
			return true
		}
		if t.op == OProj && t.s == "0" && t.args[0].op == OCall {
			in := t.args[0]
			base, isBase := int64(10), true
			if len(in.args) > 1 {
				base, isBase = isIntConst(in.args[1])
			}
			if len(in.args) > 2 {
				if bits, ok := isIntConst(in.args[2]); !ok || bits != 0 && bits != 64 {
					return false
				}
			}
			return (in.s == "strconv.ParseInt" || in.s == "strconv.Atoi") && isBase && base == 10 && textNum(in.args[0], v, g, float)
		}
		return false
	}
	shown := func(h BDD, kind string) bool {
		switch kind {
		case "":
			return untyped(t) == v || textNum(t, v, h, float)
		case "date":
			x := stripConv(unwrap(t))
			if x.op != OCall || x.s != "(time.Time).Format" || len(x.args) != 2 {
				return false
			}
			if l, ok := isStrConst(x.args[1]); !ok || l != "2006-01-02" {
				return false
			}
			u := x.args[0]
			for u.op == OCall && len(u.args) > 0 && (u.s == "(time.Time).UTC" || u.s == "(time.Time).Local" || u.s == "(time.Time).In") {
				u = u.args[0]
			}
			if u.op != OCall || u.s != "time.Unix" || len(u.args) != 2 {
				return false
			}
			n, ok := isIntConst(u.args[1])
			return ok && n == 0 && number(u.args[0], h)
		case "monthyear":
			if textNum(t, v, h, float) {
				return !sat(and(h, ge0(subT(lenT(t), mkInt(5)))))
			}
			if t.op != OConcat || len(t.args) != 3 || t.args[0].op != OSlice || t.args[2].op != OSlice {
				return false
			}
			y, m := t.args[0], t.args[2]
			if d, ok := isStrConst(t.args[1]); !ok || d != "-" || y.args[0] != m.args[0] || !textNum(y.args[0], v, h, float) {
				return false
			}
			lo, ok1 := isIntConst(y.args[1])
			var hi int64
			ok2 := false
			if y.args[2] != nil {
				hi, ok2 = isIntConst(y.args[2])
			}
			from, ok3 := isIntConst(m.args[1])
			whole := m.args[2] == nil || m.args[2] == lenT(m.args[0])
			return ok1 && ok2 && ok3 && whole && lo == 0 && hi == 4 && from == 4
		case "address":
			return c.w.addressText(t, v)
		}
		return false
	}
	if h := diff(g, any); sat(h) {
		c.ok(shown(h, ""), "own-value", r, nil, "the value of a section field is %s", clip(t.String(), 100))
	}
	for _, kind := range kinds {
		h := and(g, is[kind])
		for _, o := range kinds {
			if o != kind {
				h = diff(h, is[o])
			}
		}
		if sat(h) {
			c.ok(shown(h, kind), "typed-value", r, nil, "the value of a section field of type %s is %s", kind, clip(t.String(), 100))
		}
	}
}

// narrowed: a number that went through a type of less than 64 bits.
func narrowed(t *Term) bool {
	return anyTerm(t, func(x *Term) bool {
		if x.typ == nil {
			return false
		}
		b, ok := x.typ.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		switch b.Kind() {
		case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32, types.Float32:
			return true
		}
		return false
	})
}

// textNum: the value as text; numbers without an exponent.
func textNum(t, v *Term, g, float BDD) bool {
	t = stripConv(unwrap(t))
	if t.op == OTA {
		return untyped(t) == v
	}
	if t.op != OCall {
		return false
	}
	switch t.s {
	case "fmt.Str":
		return untyped(t.args[0]) == v && float != F && !sat(and(g, float))
	case "strconv.FormatFloat":
		f, ok := isIntConst(t.args[1])
		p, ok2 := isIntConst(t.args[2])
		bits, ok3 := isIntConst(t.args[3])
		return untyped(t.args[0]) == v && ok && f == 'f' && ok2 && p < 0 && ok3 && bits == 64 && !narrowed(t.args[0])
	case "strconv.FormatInt", "strconv.Itoa":
		if t.s == "strconv.FormatInt" {
			if base, isc := isIntConst(t.args[1]); !isc || base != 10 {
				return false
			}
		}
		return untyped(t.args[0]) == v && !narrowed(t.args[0])
	}
	return false
}

// addressText: one line for every entry of the address, with its own value.
func (w *World) addressText(t, v *Term) bool {
	if t.op != OMu {
		return false
	}
	lv := w.loopVarOf(t)
	li := w.e.loops[t.k]
	if lv == nil {
		return false
	}
	for _, i := range lv.init {
		if s, ok := isStrConst(i.t); !ok || s != "" {
			return false
		}
	}
	for _, x := range li.exits {
		if !x.header && sat(x.pc) {
			return false
		}
	}
	srcs, why := w.sourcesOf(li)
	if why != "" {
		return false
	}
	for _, s := range srcs {
		if s.seq == nil {
			continue
		}
		// as many as the address has entries
		if untyped(s.seq) != v && !w.keysOf(stripPerm(s.seq), v) {
			return false
		}
		key := func(x *Term) bool {
			return x.op == OMapKey && untyped(x.args[0]) == v && untyped(s.seq) == v ||
				x.op == OElem && x.args[1] == loopK(li.id) && w.keysOf(stripPerm(x.args[0]), v)
		}
		if len(lv.back) != 1 {
			return false
		}
		b := lv.back[0].t
		if b.op != OConcat || (b.args[0] != t && b.args[0] != lv.val) {
			return false
		}
		k, val := false, false
		for _, p := range b.args[1:] {
			p = stripConv(unwrap(p))
			if key(p) {
				k = true
				continue
			}
			for p.op == OCall && len(p.args) > 0 && (strings.HasPrefix(p.s, "strings.Trim") || p.s == "strings.ReplaceAll" || p.s == "fmt.Str") {
				p = untyped(p.args[0])
			}
			p = untyped(p)
			switch {
			case p.op == OMapGet && untyped(p.args[0]) == v && key(p.args[1]):
				val = true
			case p.op == OElem && untyped(p.args[0]) == v && p.args[1] == loopK(li.id):
				val = true
			case p.op == OConst:
			default:
				return false
			}
		}
		if !k || !val {
			return false
		}
	}
	return true
}

// keysOf: the list holds every key of the document.
func (w *World) keysOf(seq, doc *Term) bool {
	if seq.op == OMu {
		cp, why := w.compOf(seq)
		if why != "" || len(cp.emits) == 0 {
			return false
		}
		all := F
		for _, e := range cp.emits {
			if e.t.op != OMapKey || untyped(e.t.args[0]) != doc {
				return false
			}
			all = or(all, e.g)
		}
		return implies(w.focus(cp.li.back, cp.li), all)
	}
	if seq.op != OAlloc {
		return false
	}
	for _, li := range w.e.loops {
		if li.backHp == nil {
			continue
		}
		srcs, why := w.sourcesOf(li)
		if why != "" {
			continue
		}
		ok := true
		for _, s := range srcs {
			if s.seq != nil && untyped(s.seq) != doc {
				ok = false
			}
		}
		for _, x := range li.exits {
			if !x.header && sat(x.pc) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		all := F
		li.backHp.each(func(k *Term, x Val) {
			if k.op == OIdxAddr && k.args[0] == seq && anyTerm(k.args[1], func(t *Term) bool { return t.op == OMu && t.k == li.id || t == mkK(li.id) }) {
				for _, cs := range x {
					if y := stripConv(unwrap(cs.t)); y.op == OMapKey && untyped(y.args[0]) == doc {
						all = or(all, cs.g)
					}
				}
			}
		})
		if all != F && implies(w.focus(li.back, li), w.focus(all, li)) {
			return true
		}
	}
	return false
}

func (c *Check) sectionsOf(r *Run, mu *Term, q recordRef) {
	w := c.w
	cp, why := w.compOf(mu)
	if !c.ok(why == "", "sections", r, nil, "%s", why) {
		return
	}
	detail := func(key string) *Term {
		for _, x := range termList {
			if x.op == OMapGet {
				if k, s := q.docEntry(x); k == "details" && s == key && anyTerm(x, func(t *Term) bool { return t == mkK(q.li.id) }) {
					return x
				}
			}
		}
		return nil
	}
	logins, secs := detail("fields"), detail("sections")
	if !c.ok(logins != nil && secs != nil, "sections", r, nil, "the fields and sections of the details are not looked at") {
		return
	}
	for _, e := range cp.emits {
		v := w.field(cp.li.backHp, e.t, "Sections")
		c.need(len(v) > 0, "sections", "the sections of an item are not known")
		var full []*Term // lists with every section
		type open struct {
			g                 BDD
			noLogin, noOthers bool
			empty             bool
		}
		var opens []open
		var login, loop *Term
		for _, cs := range v {
			g := w.focus(and(cs.g, e.g), cp.li)
			if !sat(g) {
				continue
			}
			pls, why := w.partsOf(cs.t, g, 0)
			if !c.ok(why == "", "sections", r, nil, "the sections of an item cannot be followed: %s", why) {
				return
			}
			if n, ok := isIntConst(lenT(cs.t)); !ok || n != 0 {
				full = append(full, cs.t)
			}
			for _, p := range pls {
				o := open{g: p.g, noLogin: true, noOthers: true, empty: len(p.parts) == 0}
				good := true
				for _, x := range p.parts {
					switch {
					case x.elem != nil && o.noLogin && o.noOthers:
						o.noLogin = false
						if l := c.loginSection(r, p.g, x.elem, logins, cp.li); l != nil {
							login = l
						}
					case x.loop != nil && o.noOthers:
						o.noOthers = false
						if loop == nil {
							loop = x.mu
							c.sectionLoop(r, x.loop, secs)
						}
						c.ok(loop == x.mu, "sections", r, nil, "the sections of an item may be one of several lists")
					default:
						good = false
					}
				}
				c.ok(good, "sections", r, nil, "the sections of an item are not the login form and then its sections, in order")
				opens = append(opens, o)
			}
		}
		if !c.ok(login != nil, "sections", r, nil, "no item has login fields") || !c.ok(loop != nil, "sections", r, nil, "no item has sections") {
			return
		}
		for _, o := range opens {
			none := F
			if o.empty {
				for _, l := range full {
					none = or(none, emptyList(l, nil))
				}
			}
			if o.noLogin {
				ok := or(none, emptyList(login, logins))
				c.ok(implies(o.g, ok), "sections", r, nil, "the login fields may be left out: %s", witness(w.brief(diff(o.g, ok), o.g)))
			}
			if o.noOthers {
				ok := or(none, missing(secs))
				c.ok(implies(o.g, ok), "sections", r, nil, "the sections may be left out: %s", witness(w.brief(diff(o.g, ok), o.g)))
			}
		}
	}
}

// loginSection checks the section with the fields of the login form and
// returns its list of fields.
func (c *Check) loginSection(r *Run, g BDD, sec, src *Term, li *LoopInfo) *Term {
	w := c.w
	if !c.ok(hasFields(sec.typ, "Title", "Fields"), "sections", r, nil, "a section is %s", clip(sec.String(), 60)) {
		return nil
	}
	for _, cs := range w.field(li.backHp, sec, "Title") {
		if sat(and(g, cs.g)) {
			_, ok := isStrConst(cs.t)
			c.ok(ok, "sections", r, nil, "the title of the login form is %s", clip(cs.t.String(), 60))
		}
	}
	return c.fieldsOf(r, w.field(li.backHp, sec, "Fields"), g, src, fieldRule{"login fields", "name", "value", false}, li)
}

// sectionLoop checks the sections made from the sections of the document.
func (c *Check) sectionLoop(r *Run, cp *comp, src *Term) {
	w := c.w
	for _, s := range cp.srcs {
		if s.seq == nil {
			continue
		}
		if !c.ok(untyped(s.seq) == src, "sections", r, nil, "the sections come from %s", clip(s.seq.String(), 80)) {
			continue
		}
		el := elemsAt(s.seq, cp.K)
		title, fields := entryOf(el, "title"), entryOf(el, "fields")
		if !c.ok(title != nil && fields != nil, "sections", r, nil, "sections are made without the title and fields of their document") {
			continue
		}
		in := and(w.focus(cp.li.entry, cp.li), and(s.cond, s.bound))
		emit := F
		var list *Term
		for _, e := range cp.emits {
			emit = or(emit, e.g)
			if !c.ok(hasFields(e.t.typ, "Title", "Fields"), "sections", r, nil, "a section is %s", clip(e.t.String(), 60)) {
				continue
			}
			for _, cs := range w.field(cp.li.backHp, e.t, "Title") {
				g := and(and(e.g, cs.g), in)
				if !sat(g) {
					continue
				}
				if x, ok := isStrConst(cs.t); ok && x == "" {
					c.ok(implies(g, missing(title)), "own-name", r, nil, "the title of a section may be left out: %s", witness(w.brief(diff(g, missing(title)), g)))
				} else {
					c.ok(untyped(titled(cs.t)) == title, "own-name", r, nil, "the title of a section is %s", clip(cs.t.String(), 80))
				}
			}
			if l := c.fieldsOf(r, w.field(cp.li.backHp, e.t, "Fields"), and(e.g, in), fields, fieldRule{"section fields", "t", "v", true}, cp.li); l != nil {
				c.ok(list == nil || list == l, "sections", r, nil, "the fields of a section may be one of several lists")
				list = l
			}
		}
		if !c.ok(list != nil, "sections", r, nil, "no section has fields") {
			continue
		}
		want := and(in, or(not(emptyList(list, fields)), not(missing(title))))
		c.ok(sat(want) && implies(want, emit), "sections", r, nil, "a section with a title or fields may be left out: %s", witness(w.brief(diff(want, emit), in)))
	}
}

// stored: what the GUI keeps are the decoded items.
func (c *Check) stored() {
	w := c.w
	n := 0
	var syms []*Term
	for s := range w.hv {
		syms = append(syms, s)
	}
	sortTerms(syms)
	for _, s := range syms {
		if s.typ == nil {
			continue
		}
		sl, ok := s.typ.Underlying().(*types.Slice)
		if !ok || !isItemType(sl.Elem()) || s.String() == "" || w.hv[s].op == OContent {
			continue
		}
		if k := w.hv[s]; k.op != OFieldAddr {
			continue
		}
		n++
		for _, v := range w.tracer().hvVals(s) {
			if v == s || v.op == ONil {
				continue
			}
			if l, ok := isIntConst(lenT(v)); ok && l == 0 {
				continue
			}
			c.ok(w.isBaseSeq(v), "kept-items", nil, nil, "the GUI keeps items that are not the decoded ones: %s", clip(v.String(), 100))
		}
	}
	c.need(n > 0, "kept-items", "the GUI keeps no items")
}
