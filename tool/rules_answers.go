package main

import (
	"sort"
	"strings"
)

// shownSettings: the settings a text depends on.
func shownSettings(v Val) map[string]bool {
	out := map[string]bool{}
	add := func(t *Term) {
		walkT(t, func(x *Term) bool {
			if k := confKey(x); k != "" {
				out[k] = true
			}
			return true
		})
	}
	for _, cs := range v {
		add(cs.t)
		if len(v) > 1 {
			for _, x := range support(cs.g) {
				add(atoms[x])
			}
		}
	}
	return out
}

// question is the text shown before an answer is read.
func question(r *Run, in *Event) *Event {
	var q *Event
	for _, ev := range r.events {
		if ev.idx >= in.idx {
			break
		}
		if ev.kind == "print" && onTerminal(ev) && implies(in.pc, ev.pc) {
			q = ev
		}
	}
	return q
}

// parseOf: the number an answer stands for.
func parseOf(t *Term) *Term {
	t = stripConv(t)
	if t.op == OProj && t.s == "0" && t.args[0].op == OCall {
		switch t.args[0].s {
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
			return t.args[0]
		}
	}
	return nil
}

func init() {
	register("C14", "Interactive configuration accepts only valid values", func(c *Check) {
		n := 0
		for _, r := range c.w.all() {
			inEv := map[*Term]*Event{}
			for _, ev := range r.events {
				if isInput(ev) && ev.res != nil && ev.res.op == OCall && ev.res.s == "line" {
					inEv[ev.res.args[0]] = ev
				}
			}
			for _, s := range c.quiet().confSaves(r) {
				n++
				owner := map[*Term]string{}
				own := func(in *Term, key string) {
					ev := inEv[in]
					if !c.ok(ev != nil, "whole-line", r, s.marshal, "the answer for %s is not read as one line", key) {
						return
					}
					c.ok(owner[in] == "" || owner[in] == key, "own-question", r, ev, "one answer sets both %s and %s", owner[in], key)
					owner[in] = key
					q := question(r, ev)
					if !c.ok(q != nil, "own-question", r, ev, "the answer for %s is read without a question", key) {
						return
					}
					sh := shownSettings(q.args[1])
					for k := range sh {
						c.ok(k == key || sh[key], "own-question", r, ev, "the answer for %s is the one to the question about %s", key, k)
					}
					// no other answer is read between the question and this one
					for _, o := range r.events {
						if isInput(o) && o.idx > q.idx && o.idx < ev.idx {
							c.ok(!sat(and(and(o.pc, ev.pc), q.pc)), "own-question", r, ev, "two answers are read after one question")
						}
					}
				}
				for _, k := range settings() {
					v, _ := s.saved(k.key)
					vs := valSupport(v, s.marshal.pc)
					switch k.kind {
					case "int":
						c.numberSetting(s, k, v, vs, own)
					default:
						c.wordSetting(s, k, v, vs, own)
					}
				}
				// nothing else is asked whose answer could be taken for another
				for in, ev := range inEv {
					if ev.idx < s.marshal.idx {
						c.ok(owner[in] != "", "own-question", r, ev, "an answer is read and not used")
					}
				}
				for _, ev := range r.events {
					if isInput(ev) && ev.idx < s.marshal.idx {
						c.ok(ev.res != nil && ev.res.op == OCall && ev.res.s == "line", "whole-line", r, ev, "the answer is read word by word")
					}
				}
			}
		}
		c.need(n > 0, "entry", "nothing saves the settings")
	})
}

func (c *Check) numberSetting(s confSave, k setting, v Val, vs []int32, own func(*Term, string)) {
	pc := s.marshal.pc
	var p *Term
	taken := F
	for _, cs := range v {
		if !sat(and(cs.g, pc)) {
			continue
		}
		t := unwrap(cs.t)
		if len(inputsOf(t)) == 0 {
			continue
		}
		q := parseOf(t)
		if !c.ok(q != nil && (p == nil || p == q), "valid-number", s.run, s.marshal, "%s is saved as %s, which is not the number typed", k.key, t) {
			return
		}
		p = q
		for x := t; x.op == OCall && len(x.args) == 1; x = x.args[0] {
			c.ok(x.s == "int" || x.s == "int64" || x.s == "uint" || x.s == "uint64", "valid-number", s.run, s.marshal, "%s is narrowed to %s", k.key, x.s)
		}
		taken = or(taken, cs.g)
	}
	if !c.ok(p != nil, "valid-number", s.run, s.marshal, "no answer ever sets %s", k.key) {
		return
	}
	if len(p.args) == 3 {
		b, _ := isIntConst(p.args[1])
		w, _ := isIntConst(p.args[2])
		c.ok(b == 10 && (w == 0 || w >= 16), "valid-number", s.run, s.marshal, "%s is read with base %d and size %d", k.key, b, w)
	}
	in := p.args[0]
	for in.op == OCall && len(in.args) == 1 && (in.s == "strings.TrimSpace" || in.s == "line") {
		in = in.args[0]
	}
	if !c.ok(in.op == OCall && in.s == "input", "valid-number", s.run, s.marshal, "%s is read from %s, not the answer", k.key, in) {
		return
	}
	own(in, k.key)
	num := mkT(OProj, "0", 0, nil, nil, p)
	ok := F
	for _, x := range vs {
		if a := atoms[x]; isErrNil(a) {
			e := a.args[0]
			if e.op == ONil {
				e = a.args[1]
			}
			if e.op == OProj && e.args[0] == p {
				ok = or(ok, bvar(x))
			}
		}
	}
	for _, cs := range v {
		walkT(cs.t, func(x *Term) bool {
			if x.op == OProj && x.s == "0" && x.args[0] == p {
				num = x
			}
			return true
		})
	}
	if !c.ok(ok != F, "valid-number", s.run, s.marshal, "a failure to read %s is not noticed", k.key) {
		return
	}
	valid := and(ok, and(ge0(subT(num, mkInt(k.lo))), not(ge0(subT(num, mkInt(k.hi+1))))))
	bad := and(and(taken, pc), not(valid))
	c.ok(!sat(bad), "valid-number", s.run, s.marshal, "%s is taken over although it is not a number from %d to %d (%s)", k.key, k.lo, k.hi, witness(bad))
	bad = and(and(valid, pc), not(taken))
	c.ok(!sat(bad), "valid-taken", s.run, s.marshal, "a valid answer for %s is not taken over (%s)", k.key, witness(bad))
	c.keeps(s, k, v, not(taken), "others-keep", "no valid answer")
}

// answers lists words that represent every class of answers the conditions
// distinguish.
func answerWords(vs []int32, in *Term) []string {
	set := map[string]bool{}
	add := func(w string) {
		for _, x := range []string{w, strings.ToLower(w), strings.ToUpper(w), w + "x", "x" + w} {
			set[x] = true
		}
	}
	for _, w := range []string{"", "y", "n", "yes", "no", "t", "true", "false", "1", "0", "yn", "ny", "yy"} {
		add(w)
	}
	for _, v := range vs {
		if !inputsOf(atoms[v])[in] {
			continue
		}
		walkT(atoms[v], func(x *Term) bool {
			if w, ok := isStrConst(x); ok && strings.TrimSpace(w) == w {
				add(w)
			}
			return true
		})
	}
	var out []string
	for w := range set {
		out = append(out, w)
	}
	sort.Strings(out)
	return out
}

// given is the condition that an answer is a given word.
func (c *Check) given(s confSave, vs []int32, in *Term, word string) (BDD, bool) {
	g := T
	for _, x := range vs {
		ins := inputsOf(atoms[x])
		if !ins[in] {
			continue
		}
		b, ok := evalAtom(atoms[x], map[*Term]string{in: word})
		if !ok {
			return F, false
		}
		if b {
			g = and(g, bvar(x))
		} else {
			g = diff(g, bvar(x))
		}
	}
	return g, true
}

// wordSetting: notifications, and the vault path after a yes.
func (c *Check) wordSetting(s confSave, k setting, v Val, vs []int32, own func(*Term, string)) {
	pc := s.marshal.pc
	// the answer the decision depends on
	ins := map[*Term]bool{}
	var dep []int32
	for _, cs := range v {
		g := cs.g
		if u := unwrap(cs.t); u.op == OBool {
			g = BDD(u.k)
		}
		for _, x := range support(g) {
			for i := range inputsOf(atoms[x]) {
				ins[i] = true
				dep = append(dep, x)
			}
		}
	}
	var in *Term
	for i := range ins {
		in = i
	}
	if !c.ok(len(ins) == 1, "yes-or-no", s.run, s.marshal, "%s depends on %d answers instead of one", k.key, len(ins)) {
		return
	}
	own(in, k.key)
	var path *Term
	for _, cs := range v {
		if k.kind != "string" || !sat(and(cs.g, pc)) {
			continue
		}
		t := unwrap(cs.t)
		if len(inputsOf(t)) == 0 {
			continue
		}
		x := t
		for x.op == OCall && len(x.args) == 1 && (x.s == "strings.TrimSpace" || x.s == "line") {
			x = x.args[0]
		}
		if c.ok(x.op == OCall && x.s == "input" && x != in && (path == nil || path == t), "path-as-typed", s.run, s.marshal, "%s is saved as %s, not as typed", k.key, t) {
			path = t
			own(x, k.key)
		}
	}
	if k.kind == "string" && !c.ok(path != nil, "path-as-typed", s.run, s.marshal, "no answer ever sets %s", k.key) {
		return
	}
	for _, word := range answerWords(dep, in) {
		g, ok := c.given(s, vs, in, word)
		if !c.ok(ok, "yes-or-no", s.run, s.marshal, "what the answer %q does to %s is not decided", word, k.key) {
			return
		}
		g = and(g, pc)
		if !c.ok(sat(g), "yes-or-no", s.run, s.marshal, "the answer %q for %s does not lead to a save", word, k.key) {
			continue
		}
		yes, no := strings.EqualFold(word, "y"), strings.EqualFold(word, "n")
		switch {
		case k.kind == "bool" && (yes || no):
			for _, cs := range v {
				h := and(g, cs.g)
				if !sat(h) {
					continue
				}
				b := boolOf(unwrap(cs.t))
				if no {
					b = not(b)
				}
				bad := and(h, not(b))
				c.ok(!sat(bad), "yes-or-no", s.run, s.marshal, "the answer %q does not set %s (%s)", word, k.key, witness(bad))
			}
		case k.kind == "string" && yes:
			for _, cs := range v {
				h := and(g, cs.g)
				c.ok(!sat(h) || unwrap(cs.t) == path, "valid-taken", s.run, s.marshal, "after the answer %q %s becomes %s", word, k.key, cs.t)
			}
		default:
			for _, cs := range v {
				if u := unwrap(cs.t); len(inputsOf(u)) > 0 && k.kind == "string" {
					h := and(g, cs.g)
					c.ok(!sat(h), "others-keep", s.run, s.marshal, "the answer %q changes %s", word, k.key)
				}
			}
			c.keeps(s, k, v, g, "others-keep", "answer "+word)
		}
	}
}
