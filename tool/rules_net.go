package main

import (
	"go/constant"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"strconv"
	"strings"
)

// repoConst looks up a string constant of the program by name.
func (w *World) repoConst(name string) (string, bool) {
	v, n := "", 0
	for _, p := range w.e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			continue
		}
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
			v = constant.StringVal(c.Val())
			n++
		}
	}
	return v, n == 1
}

// docRoots lists the documents a value is taken from.
func (w *World) docRoots(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	w.deepWalk(t, func(x *Term) {
		if x.op == OCall && x.s == "doc" {
			out[x] = true
		}
	})
	return out
}

// tagSplit: the components of the version tag of the newest release of doc.
func tagSplit(t *Term, docs map[*Term]bool) bool {
	if t.op != OCall || t.s != "strings.Split" {
		return false
	}
	if s, ok := isStrConst(t.args[1]); !ok || s != "." {
		return false
	}
	x := t.args[0]
	for x.op == OCall && len(x.args) > 0 && (x.s == "strings.TrimSpace" || x.s == "strings.TrimPrefix") {
		x = x.args[0]
	}
	return isTag(x, docs)
}

// isTag: release list[0].tag_name of one of the documents.
func isTag(x *Term, docs map[*Term]bool) bool {
	if lastKey(x) != "tag_name" {
		return false
	}
	rel := stripConv(stripConv(x).args[0])
	if rel.op != OElem && rel.op != OIdxAddr {
		return false
	}
	if n, ok := isIntConst(rel.args[1]); !ok || n != 0 {
		return false
	}
	return docs[rel.args[0]]
}

func isConsent(a *Term) bool {
	if a.op != OEq || len(a.args) != 2 {
		return false
	}
	for i := range a.args {
		if s, ok := isStrConst(a.args[i]); ok && (strings.EqualFold(s, "y") || strings.EqualFold(s, "yes")) && fromInput(a.args[1-i]) {
			return true
		}
	}
	return false
}

// fromInput: the typed answer, possibly trimmed or case-folded.
// isInput: an answer is read from standard input.
func isInput(ev *Event) bool {
	return ev.kind == "call" && (strings.HasPrefix(ev.name, "fmt.Scan") || strings.HasPrefix(ev.name, "fmt.Fscan") || ev.res != nil && ev.res.op == OCall && ev.res.s == "line")
}

func fromInput(t *Term) bool {
	for t.op == OCall && len(t.args) == 1 && (t.s == "strings.ToLower" || t.s == "strings.TrimSpace" || t.s == "strings.ToUpper") {
		t = t.args[0]
	}
	return t.op == OCall && t.s == "input"
}

func init() {
	register("C09", "No update without consent and only to a newer release", func(c *Check) {
		u := c.updateRun()
		if u == nil {
			return
		}
		w := c.w
		// elsewhere nothing is downloaded or installed
		for _, r := range w.all() {
			if r == u.run {
				continue
			}
			for _, ev := range r.events {
				if v, ok := netURL(ev); ok {
					s, isc := isStrConst(v.collapse())
					c.ok(isc && s == releasesURL, "only-the-update-command", r, ev, "%s is requested outside the update command", v.collapse())
				}
			}
			for _, o := range fsOps(r) {
				for _, v := range append(append([]Val{}, o.paths...), o.src) {
					for _, cs := range v {
						k := pathClass(cs.t)
						c.ok(k != "cache" && k != "exe", "only-the-update-command", r, o.ev, "%s outside the update command", o.ev.name)
					}
				}
			}
		}
		effects := append([]*Event{}, u.dl...)
		for _, o := range u.ops {
			hit := false
			for _, v := range append(append([]Val{}, o.paths...), o.src) {
				for _, cs := range v {
					switch pathClass(cs.t) {
					case "config", "lastcheck", "confdir", "confparent":
					default:
						hit = true
					}
				}
			}
			if hit {
				effects = append(effects, o.ev)
			}
		}
		// consent
		var scan *Event
		for _, ev := range u.run.events {
			if isInput(ev) {
				scan = ev
			}
		}
		asked := F
		for _, ev := range u.run.events {
			if ev.kind == "print" && isStdout(ev.arg(0)) && scan != nil && ev.idx < scan.idx {
				asked = or(asked, ev.pc)
			}
		}
		if c.need(scan != nil, "question", "the update command asks no question") {
			c.ok(implies(scan.pc, asked), "question", u.run, scan, "the answer is read without a question being shown")
		}
		union := F
		for _, ev := range effects {
			union = or(union, ev.pc)
			no := T
			for _, v := range support(ev.pc) {
				if isConsent(atoms[v]) {
					no = and(no, not(bvar(v)))
				}
			}
			c.ok(!sat(and(ev.pc, no)), "consent", u.run, ev, "%s is reached although the answer was not yes", ev.name)
			c.ok(scan != nil && scan.idx < ev.idx, "consent", u.run, ev, "%s happens before the answer", ev.name)
		}
		// newer
		docs := map[*Term]bool{}
		for _, d := range u.dl {
			v, _ := netURL(d)
			for _, cs := range v {
				for x := range w.docRoots(cs.t) {
					docs[x] = true
				}
			}
		}
		if !c.ok(len(docs) == 1, "one-release", u.run, u.dl[0], "the downloads come from %d different release lists", len(docs)) {
			return
		}
		ver, ok := w.repoConst("Version")
		if !c.need(ok, "newer", "the running version is not a single constant") {
			return
		}
		c.newerOnly(u, union, docs, ver)
	})
}

func (c *Check) newerOnly(u *updInfo, union BDD, docs map[*Term]bool, ver string) {
	taken, bad := 0, 0
	c.w.eachVersion(union, docs, ver, false, func(word []string, newer bool, rest BDD) bool {
		hit := sat(rest)
		if newer {
			if hit {
				taken++
			}
			c.count("newer")
			return true
		}
		if hit {
			bad++
			c.ok(false, "newer", u.run, u.dl[0], "a release with the version components %q can be installed over %s", word, ver)
			return bad <= 3
		}
		c.count("newer")
		return true
	})
	c.need(taken > 0, "newer", "no version at all leads to an installation: the comparison was not understood")
}

// eachVersion evaluates a guard for release versions of every kind relative to
// the running one: is the version newer, and what is left of the guard (only
// with full: what it says about anything else).
func (w *World) eachVersion(union BDD, docs map[*Term]bool, ver string, full bool, f func(word []string, newer bool, rest BDD) bool) {
	// the loops that walk over the components of the version
	mentions := func(g BDD, rel map[int64]bool) bool {
		for _, v := range support(g) {
			if anyTerm(atoms[v], func(x *Term) bool {
				return tagSplit(x, docs) || isTag(x, docs) || (x.op == OK || x.op == OMu) && rel[x.k]
			}) {
				return true
			}
		}
		return false
	}
	var loops []*LoopInfo
	rel := map[int64]bool{}
	for _, li := range w.guardLoops(union) {
		hit := mentions(li.back, rel)
		for _, lv := range li.vars {
			for _, v := range []Val{lv.init, lv.back} {
				for _, cs := range v {
					hit = hit || mentions(cs.g, rel) || anyTerm(cs.t, func(x *Term) bool {
						return tagSplit(x, docs) || isTag(x, docs) || (x.op == OK || x.op == OMu) && rel[x.k]
					})
				}
			}
		}
		if hit {
			rel[li.id] = true
			loops = append(loops, li)
		}
	}
	g := union
	if !full {
		g = exists(union, func(v int32) bool {
			return !anyTerm(atoms[v], func(x *Term) bool {
				return tagSplit(x, docs) || isTag(x, docs) || (x.op == OK || x.op == OMu) && rel[x.k]
			})
		})
	}
	curr := strings.Split(ver, ".")
	var word []string
	hook := func(t *Term, e *absEnv) (aval, bool) {
		if tagSplit(t, docs) {
			l := make([]aval, len(word))
			for i := range word {
				l[i] = word[i]
			}
			return l, true
		}
		return nil, false
	}
	comp := func(l []string, i int) (uint64, bool) {
		if i >= len(l) {
			return 0, true
		}
		n, err := strconv.ParseUint(l[i], 10, 62)
		return n, err == nil
	}
	newer := func() bool {
		res, dec := false, false
		for i := 0; i < len(word) || i < len(curr); i++ {
			a, ok := comp(word, i)
			b, _ := comp(curr, i)
			if !ok {
				return false
			}
			if !dec && a != b {
				dec, res = true, a > b
			}
		}
		return res
	}
	more := true
	judge := func() {
		envs := []*absEnv{{w: w, hook: hook, k: map[int64]int64{}, mu: map[*Term]aval{}}}
		for _, li := range loops {
			var next []*absEnv
			for _, e := range envs {
				x, _ := e.exitsOf(li, 4000)
				next = append(next, x...)
			}
			envs = next
		}
		rest := F
		for _, e := range envs {
			rest = or(rest, e.guard(g))
		}
		more = f(word, newer(), rest)
	}
	max := len(curr) + 2
	// odd words are no numbers either; one of them at most where not deep
	bad, odd := []string{"x"}, []string{"-1", "0x7fffff"}
	if deep {
		max++
		bad = []string{"x", "", "-1"}
	}
	var rec func(i, odds int)
	rec = func(i, odds int) {
		if !more {
			return
		}
		if i > 0 {
			judge()
		}
		if i == max {
			return
		}
		n, _ := comp(curr, i)
		cl := []string{strconv.FormatUint(n, 10), strconv.FormatUint(n+1, 10), strconv.FormatUint(n+100000, 10)}
		if n > 0 {
			cl = append(cl, "0")
		}
		if n > 1 {
			cl = append(cl, strconv.FormatUint(n-1, 10))
		}
		if i >= len(curr) {
			cl = []string{"0", "7"}
		}
		cl = append(cl, bad...)
		for _, s := range cl {
			word = append(word[:i:i], s)
			rec(i+1, odds)
		}
		if odds > 0 {
			for _, s := range odd {
				word = append(word[:i:i], s)
				rec(i+1, odds-1)
			}
		}
		word = word[:i]
	}
	rec(0, 1)
}

// ---- elapsed time

// span is a multiple of the time that passed since the recorded check:
// value = elapsed seconds / unit, possibly without sign or fraction.
type span struct {
	unit *big.Rat
	inst string // "now" or "saved": a point in time instead, counted in units
}

func rat(n, d int64) *big.Rat { return big.NewRat(n, d) }

func isSaved(t *Term) bool {
	if t.op != OProj || t.s != "0" || t.args[0].op != OCall || t.args[0].s != "strconv.ParseInt" {
		return false
	}
	x := t.args[0].args[0]
	for x.op == OCall && len(x.args) > 0 && (x.s == "strings.TrimSpace" || x.s == "bytes.TrimSpace" || x.s == "stream") {
		x = x.args[0]
	}
	return x.op == OCall && x.s == "filedata" && pathClass(x.args[0]) == "lastcheck"
}

func timeOf(t *Term) *span {
	if isSaved(t) {
		return &span{rat(1, 1), "saved"}
	}
	one := func() *span {
		if len(t.args) == 0 {
			return nil
		}
		return timeOf(t.args[0])
	}
	switch t.op {
	case OIface:
		return one()
	case OCall:
		switch t.s {
		case "time.Now":
			return &span{rat(1, 1000000000), "now"}
		case "time.Unix":
			s := one()
			if n, ok := isIntConst(t.args[1]); !ok || n != 0 || s == nil || s.inst == "" || s.unit.Cmp(rat(1, 1)) != 0 {
				return nil
			}
			return &span{rat(1, 1000000000), s.inst}
		case "(time.Time).Unix":
			if s := one(); s != nil && s.inst != "" {
				return &span{rat(1, 1), s.inst}
			}
		case "(time.Time).Sub":
			a, b := timeOf(t.args[0]), timeOf(t.args[1])
			if a != nil && b != nil && a.inst == "now" && b.inst == "saved" {
				return &span{rat(1, 1000000000), ""}
			}
		case "time.Since":
			if s := one(); s != nil && s.inst == "saved" {
				return &span{rat(1, 1000000000), ""}
			}
		case "(time.Duration).Hours", "(time.Duration).Minutes", "(time.Duration).Seconds":
			if s := one(); s != nil && s.inst == "" && s.unit.Cmp(rat(1, 1000000000)) == 0 {
				return &span{rat(map[byte]int64{'H': 3600, 'M': 60, 'S': 1}[t.s[16]], 1), ""}
			}
		case "math.Abs", "math.Floor", "math.Trunc", "int", "int64", "float64", "(time.Duration).Abs":
			return one()
		}
	case OBin:
		if t.s == "/" || t.s == "*" {
			s := one()
			k := constRat(t.args[1])
			if s == nil && t.s == "*" {
				s, k = timeOf(t.args[1]), constRat(t.args[0])
			}
			if s == nil || s.inst != "" || k == nil || k.Sign() <= 0 {
				return nil
			}
			u := new(big.Rat)
			if t.s == "/" {
				u.Mul(s.unit, k)
			} else {
				u.Quo(s.unit, k)
			}
			return &span{u, ""}
		}
	case OLin:
		// now - saved in the same unit
		if len(t.args) == 2 && t.k == 0 {
			a, b := timeOf(t.args[0]), timeOf(t.args[1])
			if a == nil || b == nil || a.inst == "" || b.inst == "" || a.unit.Cmp(b.unit) != 0 {
				return nil
			}
			if a.inst == "now" && b.inst == "saved" && t.coef[0] == 1 && t.coef[1] == -1 || a.inst == "saved" && b.inst == "now" && t.coef[0] == -1 && t.coef[1] == 1 {
				return &span{a.unit, ""}
			}
		}
	}
	return nil
}

func constRat(t *Term) *big.Rat {
	if t.op != OConst || t.c == nil {
		return nil
	}
	r, ok := new(big.Rat).SetString(t.c.ExactString())
	if !ok {
		return nil
	}
	return r
}

// dueAtom recognises "at least P days have passed": returns P (nil for the
// constant n) and the guard under which that is so.
func dueAtom(a *Term) (p *Term, n int64, g BDD, ok bool) {
	day := rat(86400, 1)
	v := atom(a)
	isP := func(t *Term) *Term {
		t = stripConv(t)
		if lastKey(t) == "update-period" {
			return t
		}
		return nil
	}
	switch a.op {
	case OGe0:
		l := toLin(a.args[0])
		var sp *span
		var ca, cp int64
		var pt *Term
		// elapsed seconds may be spread over two terms
		rest := linear{0, map[*Term]int64{}}
		for x, c := range l.m {
			if q := isP(x); q != nil && pt == nil {
				pt, cp = q, c
			} else {
				rest.m[x] = c
			}
		}
		if len(rest.m) == 1 {
			for x, c := range rest.m {
				sp, ca = timeOf(x), c
			}
		} else if len(rest.m) == 2 {
			ca = 1
			if sp = timeOf(fromLin(rest)); sp == nil {
				for x := range rest.m {
					rest.m[x] = -rest.m[x]
				}
				ca, sp = -1, timeOf(fromLin(rest))
			}
		}
		if sp == nil || sp.inst != "" || ca == 0 {
			return
		}
		// ca*S/unit + cp*P + k >= 0
		k := l.k
		g = v
		if ca < 0 {
			// integers: x < y is y - x - 1 >= 0
			ca, cp, k, g = -ca, -cp, -(k + 1), not(v)
		}
		f := new(big.Rat).Quo(sp.unit, rat(ca, 1)) // S >= (-cp*P - k) * f
		if pt != nil {
			if k == 0 && cp < 0 && new(big.Rat).Mul(f, rat(-cp, 1)).Cmp(day) == 0 {
				return pt, 0, g, true
			}
			return nil, 0, F, false
		}
		d := new(big.Rat).Quo(new(big.Rat).Mul(f, rat(-k, 1)), day)
		if d.IsInt() {
			return nil, d.Num().Int64(), g, true
		}
	case OLt:
		sp := timeOf(a.args[0])
		if sp == nil || sp.inst != "" {
			return
		}
		if q := isP(a.args[1]); q != nil && sp.unit.Cmp(day) == 0 {
			return q, 0, not(v), true
		}
		if k := constRat(stripConv(a.args[1])); k != nil {
			d := new(big.Rat).Quo(new(big.Rat).Mul(sp.unit, k), day)
			if d.IsInt() {
				return nil, d.Num().Int64(), not(v), true
			}
		}
	}
	return nil, 0, F, false
}

// answered: the guard under which a request got a usable answer.
func answered(r *Run, get *Event) BDD {
	g := and(get.pc, errNil(get))
	for _, ev := range r.events {
		if ev.idx <= get.idx || ev.err == nil || ev.kind != "call" {
			continue
		}
		if (ev.name == "io.ReadAll" || ev.name == "encoding/json.Unmarshal" || strings.HasSuffix(ev.name, "Decoder).Decode")) && get.res != nil && len(ev.args) > 0 {
			if anyTerm(ev.arg(0), func(x *Term) bool { return x == get.res || x.op == OProj && x.args[0] == get.res }) {
				g = and(g, errNil(ev))
			}
		}
	}
	return g
}

func netAtom(a *Term) bool {
	return anyTerm(a, func(x *Term) bool {
		return x.op == OCall && strings.HasPrefix(x.s, "(*net/http.") || x.op == OCall && x.s == "doc" && !docFile(x)
	})
}

func docFile(d *Term) bool {
	return anyTerm(d, func(x *Term) bool { return x.op == OCall && x.s == "filedata" })
}

func init() {
	register("C12", "Automatic update checks respect the opt-out and the interval", func(c *Check) {
		w := c.w
		for _, r := range w.all() {
			var gets []*Event
			for _, ev := range r.events {
				if _, ok := netURL(ev); ok {
					gets = append(gets, ev)
				}
			}
			if r.kind == "cmd" && r.name != "update" && r.name != "<root>" && r.name != "version" {
				c.need(len(gets) > 0, "checks", "the %s command never checks for updates", r.name)
			}
			if len(gets) == 0 {
				continue
			}
			if r.kind == "cmd" && r.name != "update" {
				c.autoCheck(r, gets)
			}
			c.recorded(r, gets)
		}
	})
}

func (c *Check) autoCheck(r *Run, gets []*Event) {
	scanned := F
	for _, ev := range r.events {
		if isInput(ev) {
			scanned = or(scanned, noLoops(ev.pc))
		}
	}
	type roles struct{ notify, usable, due BDD }
	rolesOf := func(pc BDD) roles {
		notify, usable, due1, dueP := F, T, F, F
		pnil, noconf := F, F
		for _, v := range support(pc) {
			a := atoms[v]
			b := bvar(v)
			if p, n, g, ok := dueAtom(a); ok {
				if p != nil {
					dueP = g
				} else if n == 1 {
					due1 = g
				}
				continue
			}
			if isErrNil(a) {
				x := a.args[0]
				if x.op == ONil {
					x = a.args[1]
				}
				switch {
				case lastKey(x) == "update-notification":
					notify = or(notify, b)
				case lastKey(x) == "update-period":
					pnil = or(pnil, b)
				case x.op == OCall && x.s == "doc" && docFile(x):
					noconf = or(noconf, b)
				case x.op == OProj && isCall(x.args[0], "os.Stat") && pathClass(x.args[0].args[0]) == "config":
					noconf = or(noconf, not(b))
				case anyTerm(x, func(y *Term) bool { return y.op == OCall && len(y.args) > 0 && pathClass(y.args[0]) == "lastcheck" }):
					usable = and(usable, b)
				}
				continue
			}
			if lastKey(a) == "update-notification" {
				notify = or(notify, b)
			}
		}
		vs := support(pc)
		notify, pnil = or(notify, noconf, noValue(vs, "update-notification")), or(pnil, noconf, noValue(vs, "update-period"))
		return roles{notify, usable, or(and(pnil, due1), and(not(pnil), dueP))}
	}
	want := F
	got := F
	for _, g := range gets {
		pc := g.pc
		if r.name != "configure" && r.name != "<root>" {
			pc = diff(pc, scanned)
		}
		got = or(got, g.pc)
		if !sat(pc) {
			continue
		}
		ro := rolesOf(pc)
		notify, usable, due := ro.notify, ro.usable, ro.due
		want = or(want, and(notify, or(not(usable), due)))
		c.ok(implies(pc, notify), "opt-out", r, g, "the network is contacted although update notifications are switched off: %s", witness(diff(pc, notify)))
		c.ok(implies(pc, or(not(usable), due)), "interval", r, g, "the network is contacted although the configured number of days has not passed: %s", witness(diff(pc, or(not(usable), due))))
	}
	if r.name != "<root>" {
		c.ok(implies(and(diff(r.out.pc, scanned), want), got) || r.name == "configure" && implies(and(r.out.pc, want), got), "does-check", r, gets[0], "no check although notifications are enabled and the interval has passed: %s", witness(diff(and(diff(r.out.pc, scanned), want), got)))
	}
	// the outcome of the check changes nothing but the notice
	c.ok(len(netSupport(r.out.pc)) == 0, "does-not-stop", r, gets[0], "the outcome of the update check decides whether the command completes")
	ans := F
	for _, g := range gets {
		ans = or(ans, answered(r, g))
	}
	for _, ev := range r.events {
		switch {
		case ev.kind == "print" && onTerminal(ev) && !ev.async:
			c.ok(len(netSupport(ev.pc)) == 0 || implies(ev.pc, ans), "silent", r, ev, "a failed or skipped update check prints a message")
		case ev.kind == "exit" || ev.kind == "panic" && false:
			c.ok(len(netSupport(ev.pc)) == 0, "does-not-stop", r, ev, "the outcome of the update check ends the process")
		case isInput(ev) || ev.kind == "call" && strings.Contains(ev.name, "ReadPassword"):
			c.ok(len(netSupport(ev.pc)) == 0, "does-not-stop", r, ev, "the outcome of the update check decides whether the command goes on")
		}
	}
}

func netSupport(g BDD) []*Term {
	var out []*Term
	for _, v := range support(noLoops(g)) {
		if netAtom(atoms[v]) {
			out = append(out, atoms[v])
		}
	}
	return out
}

// recorded: the time of every answered check is saved, and of no other.
func (c *Check) recorded(r *Run, gets []*Event) {
	ans, wrote := F, F
	end := r.out.pc
	for _, ev := range r.events {
		if ev.kind == "exit" {
			end = or(end, ev.pc)
		}
	}
	for _, g := range gets {
		if s, ok := isStrConst(g.arg(1)); ok && s == releasesURL {
			ans = or(ans, answered(r, g))
		}
	}
	var last *Event
	for _, o := range fsOps(r) {
		if o.kind != "write" || pathClass(o.paths[0].collapse()) != "lastcheck" {
			continue
		}
		last = o.ev
		wrote = or(wrote, o.ev.pc)
		c.ok(implies(o.ev.pc, ans), "recorded-only-when-answered", r, o.ev, "a check without an answer is recorded")
		if o.ev.name == "os.WriteFile" {
			c.ok(isNowSeconds(o.ev.arg(1)), "records-now", r, o.ev, "the recorded time is %s", o.ev.arg(1))
		} else {
			okc := false
			for _, p := range r.events {
				if p.kind == "print" && pathEq(openedPath(p.arg(0)), o.paths[0].collapse()) && isNowSeconds(p.arg(1)) {
					okc = true
				}
			}
			c.ok(okc, "records-now", r, o.ev, "the recorded time was not found")
		}
	}
	for _, g := range gets {
		if s, ok := isStrConst(g.arg(1)); ok && s == releasesURL {
			a := and(answered(r, g), end)
			if g.async {
				a = answered(r, g)
				wrote = noLoops(wrote)
			}
			c.ok(implies(a, wrote), "recorded", r, g, "a check that got an answer is not recorded")
		}
	}
	c.need(last != nil, "recorded", "%s never records its update check", r.name)
}

func isNowSeconds(t *Term) bool {
	if t.op == OCall && len(t.args) > 0 && (t.s == "fmt.Str" || t.s == "strconv.FormatInt" || t.s == "strconv.Itoa") {
		t = stripConv(t.args[0])
		s := timeOf(t)
		return s != nil && s.inst == "now" && s.unit.Cmp(rat(1, 1)) == 0
	}
	return false
}

// noLoops forgets everything about single iterations of loops (which are
// assumed to end).
func noLoops(g BDD) BDD {
	return exists(g, func(v int32) bool {
		return anyTerm(atoms[v], func(t *Term) bool { return t.op == OK || t.op == OMu })
	})
}

// fieldOf is the value of a field of an object in a heap.
func fieldOf(h *Heap, obj *Term, name string) Val {
	obj = unwrap(obj)
	if obj.op == OStruct {
		if st, ok := obj.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields() && i < len(obj.args); i++ {
				if st.Field(i).Name() == name {
					return one(obj.args[i])
				}
			}
		}
		return nil
	}
	var out Val
	h.each(func(k *Term, v Val) {
		if k.op == OFieldAddr && k.s == name && k.args[0] == obj {
			out = v
		}
	})
	if out != nil {
		return out
	}
	if v, ok := h.get(obj); ok {
		for _, cs := range v {
			if cs.t.op == OStruct {
				out = append(out, fieldOf(h, cs.t, name)...)
			}
		}
	}
	return out
}

// urlCase is one way a requested address comes about.
type urlCase struct {
	g BDD
	t *Term
}

func (w *World) urlCases(v Val, pc BDD, seen map[*Term]bool) []urlCase {
	var out []urlCase
	for _, cs := range v {
		g := and(pc, cs.g)
		if !sat(g) {
			continue
		}
		for _, t := range alts(unwrap(cs.t)) {
			if t.op == OMu {
				if lv := w.loopVarOf(t); lv != nil {
					if !seen[t] {
						seen[t] = true
						out = append(out, w.urlCases(lv.init, T, seen)...)
						out = append(out, w.urlCases(lv.back, T, seen)...)
					}
					continue
				}
			}
			out = append(out, urlCase{g, t})
		}
	}
	return out
}

// assetURL: the download address of an asset of the newest release whose name
// marks it as wanted.
func assetURL(u urlCase, mark string) string {
	if lastKey(u.t) != "browser_download_url" {
		return "it is " + u.t.String()
	}
	el := stripConv(stripConv(u.t).args[0])
	if el.op != OElem && el.op != OIdxAddr {
		return "it is " + u.t.String()
	}
	if lastKey(el.args[0]) != "assets" {
		return "it is not taken from the assets"
	}
	rel := stripConv(stripConv(el.args[0]).args[0])
	if rel.op != OElem && rel.op != OIdxAddr {
		return "the release is " + rel.String()
	}
	if n, ok := isIntConst(rel.args[1]); !ok || n != 0 {
		return "it is taken from the release " + rel.args[1].String()
	}
	d := rel.args[0]
	if d.op != OCall || d.s != "doc" || docFile(d) || !anyTerm(d, func(x *Term) bool {
		s, ok := isStrConst(x)
		return ok && s == releasesURL
	}) {
		return "it is taken from " + d.String()
	}
	for _, v := range support(u.g) {
		a := atoms[v]
		if a.op != OCall || a.s != "strings.Contains" && a.s != "strings.HasSuffix" || len(a.args) != 2 {
			continue
		}
		s, ok := isStrConst(a.args[1])
		if ok && strings.Contains(s, mark) && lastKey(a.args[0]) == "name" && stripConv(stripConv(a.args[0]).args[0]) == el && implies(u.g, bvar(v)) {
			return ""
		}
	}
	return "it is taken from an asset whose name does not contain " + mark
}

func init() {
	register("C26", "Updates come only from the official source over verified TLS", func(c *Check) {
		u := c.updateRun()
		if u == nil {
			return
		}
		w := c.w
		// every connection
		n := 0
		for _, r := range w.all() {
			for _, ev := range r.events {
				if ev.kind != "call" {
					continue
				}
				p := pkgOfName(ev.name)
				if p == "net" || p == "net/http" || p == "crypto/tls" || p == "net/rpc" || p == "net/smtp" {
					if v, ok := netURL(ev); ok {
						n++
						if r != u.run {
							s, isc := isStrConst(v.collapse())
							c.ok(isc && s == releasesURL, "official-address", r, ev, "the program connects to %s", v.collapse())
						}
						c.timeout(r, ev)
						continue
					}
					if ev.name == "net/http.NewRequest" || ev.name == "net/http.NewRequestWithContext" || strings.HasPrefix(ev.name, "(net/http.Header)") || strings.HasSuffix(ev.name, ".Body.Close") {
						continue
					}
					c.ok(false, "known-requests", r, ev, "%s opens a connection outside the update client", ev.name)
				}
			}
		}
		c.need(n >= 4, "known-requests", "only %d network requests were found", n)
		for _, ev := range u.checks {
			c.ok(true, "official-address", u.run, ev, "")
		}
		// which file is unpacked and which one is compared with
		var arch *Term
		for _, ev := range u.run.events {
			if ev.kind == "call" && strings.HasSuffix(ev.name, "gzip.NewReader") {
				arch = openedPath(ev.arg(0))
			}
		}
		if !c.need(arch != nil && arch.s != "?path", "archive-file", "the unpacked archive was not found") {
			return
		}
		roles := map[string]int{}
		for _, d := range u.dl {
			var dst *Term
			for _, ev := range u.run.events {
				if ev.kind == "print" && ev.idx > d.idx && openedPath(ev.arg(0)).s != "?path" {
					if anyTerm(ev.arg(1), func(x *Term) bool { return d.res != nil && (x == d.res || x.op == OProj && x.args[0] == d.res) }) {
						dst = openedPath(ev.arg(0))
					}
				}
			}
			if !c.ok(dst != nil, "downloads-stored", u.run, d, "the answer is not stored") {
				continue
			}
			mark := ".md5"
			if pathEq(dst, arch) {
				mark = ".tar.gz"
			}
			roles[mark]++
			v, _ := netURL(d)
			hit := 0
			for _, uc := range w.urlCases(v, d.pc, map[*Term]bool{}) {
				if s, ok := isStrConst(uc.t); ok && s == "" {
					continue
				}
				why := assetURL(uc, mark)
				c.ok(why == "", "asset-address", u.run, d, "the address of the %s download is not the one of the release: %s", mark, why)
				hit++
			}
			c.ok(hit > 0, "asset-address", u.run, d, "the address of the %s download was not found", mark)
		}
		c.need(roles[".md5"] > 0 && roles[".tar.gz"] > 0, "downloads-stored", "archive and checksum downloads: %v", roles)
		// certificate verification is left alone
		c.noImports("standard-tls", "crypto/tls", "crypto/x509", "net/rpc", "net/smtp", "net/http/httputil", "golang.org/x/net/proxy")
		for _, fn := range w.e.srcFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						pt, _ := fa.X.Type().Underlying().(*types.Pointer)
						if pt == nil {
							continue
						}
						nt, _ := pt.Elem().(*types.Named)
						if nt == nil || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != "net/http" {
							continue
						}
						f := nt.Underlying().(*types.Struct).Field(fa.Field).Name()
						switch nt.Obj().Name() {
						case "Transport":
							ok := f == "Dial" || f == "DialContext" || strings.HasSuffix(f, "Timeout") || strings.HasPrefix(f, "MaxIdle") || f == "DisableKeepAlives"
							c.need(ok, "standard-tls", "%s changes the transport setting %s", w.e.where(fa.Pos(), fn), f)
						case "Client":
							c.need(f == "Transport" || f == "Timeout", "standard-tls", "%s changes the client setting %s", w.e.where(fa.Pos(), fn), f)
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http" && (g.Name() == "DefaultTransport" || g.Name() == "DefaultClient") {
							c.need(false, "standard-tls", "%s uses the shared %s", w.e.where(in.Pos(), fn), g.Name())
						}
					}
				}
			}
		}
	})
}

// timeout: connecting is limited to the configured number of seconds.
func (c *Check) timeout(r *Run, ev *Event) {
	h := ev.heap
	var limits []Val
	for _, cl := range alts(unwrap(ev.arg(0))) {
		if v := fieldOf(h, cl, "Timeout"); v != nil {
			for _, cs := range v {
				if n, ok := isIntConst(cs.t); !ok || n != 0 {
					limits = append(limits, v)
					break
				}
			}
		}
		for _, tc := range fieldOf(h, cl, "Transport") {
			tr := unwrap(tc.t)
			for _, f := range []string{"Dial", "DialContext"} {
				for _, dc := range fieldOf(h, tr, f) {
					fn := unwrap(dc.t)
					if fn.op == ONil {
						continue
					}
					if fn.op != OClo && fn.op != OFn {
						continue
					}
					sf, _ := fn.aux.(*ssa.Function)
					if sf == nil {
						continue
					}
					var args []Val
					for _, p := range sf.Params {
						args = append(args, one(mkSym("dial:"+p.Name(), p.Type())))
					}
					if strings.Contains(sf.Name(), "DialContext") && len(sf.FreeVars) == 1 {
						// method value of a net.Dialer
						for _, bcs := range fn.args {
							limits = append(limits, fieldOf(h, bcs, "Timeout"))
						}
						continue
					}
					evs, _, _ := c.w.e.record(func() ([]Val, State) {
						return c.w.e.callValue(fn, args, State{T, h}, "dial")
					})
					for _, x := range evs {
						if x.kind != "call" {
							continue
						}
						switch {
						case x.name == "net.DialTimeout":
							limits = append(limits, x.args[2])
							c.ok(unwrap(x.arg(1)).op == OSym, "dials-the-address", r, x, "the connection goes to %s", x.arg(1))
						case strings.HasPrefix(x.name, "(*net.Dialer).Dial"):
							limits = append(limits, fieldOf(x.heap, unwrap(x.arg(0)), "Timeout"))
						case x.name == "net.Dial":
							c.ok(false, "timeout", r, ev, "the connection has no time limit")
						}
					}
				}
			}
		}
	}
	if !c.ok(len(limits) > 0, "timeout", r, ev, "the connection has no time limit") {
		return
	}
	for _, v := range limits {
		if !c.ok(len(v) > 0, "timeout", r, ev, "the time limit was not found") {
			continue
		}
		for _, cs := range v {
			g := and(ev.pc, cs.g)
			if !sat(g) {
				continue
			}
			l := toLin(cs.t)
			good := false
			why := cs.t.String()
			switch {
			case len(l.m) == 0:
				good = l.k == 1000000000
				if good && (r.name == "update" || r.name == "categories") {
					dflt := F
					for _, x := range support(g) {
						a := atoms[x]
						if isErrNil(a) && (anyTerm(a, func(y *Term) bool { return lastKey(y) == "timeout" }) || a.args[0].op == OCall && a.args[0].s == "doc" || a.args[1].op == OCall && a.args[1].s == "doc") {
							dflt = or(dflt, bvar(x))
						}
						if isErrNil(a) && anyTerm(a, func(y *Term) bool {
							return y.op == OProj && isCall(y.args[0], "os.Stat") && pathClass(y.args[0].args[0]) == "config"
						}) {
							dflt = or(dflt, not(bvar(x)))
						}
					}
					good = implies(g, or(dflt, noValue(support(g), "timeout")))
					why = "one second although another timeout is configured"
				}
			case len(l.m) == 1 && l.k == 0:
				for t, k := range l.m {
					t = stripConv(t)
					good = k == 1000000000 && (lastKey(t) == "timeout" || t.op == OProj && isCall(t.args[0], "strconv.ParseInt") && anyTerm(t, fromInput))
				}
			}
			c.ok(good, "timeout", r, ev, "the time limit for connecting is %s", why)
		}
	}
}
