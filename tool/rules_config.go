package main

import (
	"go/types"
	"strconv"
	"strings"
)

// setting is one of the documented settings.
type setting struct {
	key    string
	kind   string // string, int, bool
	dflt   *Term
	lo, hi int64
}

func settings() []setting {
	return []setting{
		{key: "opvault", kind: "string", dflt: mkStr("")},
		{key: "timeout", kind: "int", dflt: mkInt(1), lo: 1, hi: 30},
		{key: "update-notification", kind: "bool"},
		{key: "update-period", kind: "int", dflt: mkInt(1), lo: 0, hi: 365},
	}
}

// confSave is one write of the configuration file.
type confSave struct {
	run     *Run
	write   *Event // the step that puts the content in place
	first   *Event // the step that opens the file written
	marshal *Event
	maps    Val // what is saved
}

// confSaves finds the writes of the configuration file.
func (c *Check) confSaves(r *Run) []confSave {
	var out []confSave
	content := func(path *Term, at *Event, trunc bool) {
		var data []*Event
		var vals []Val
		switch at.name {
		case "os.WriteFile":
			data, vals = []*Event{at}, []Val{at.args[1]}
		default:
			for _, ev := range r.events {
				if ev.kind == "print" && ev.idx > at.idx && pathEq(openedPath(ev.arg(0)), path) {
					data, vals = append(data, ev), append(vals, ev.args[1])
				}
			}
		}
		c.ok(trunc, "whole-file", r, at, "the settings file is written over without being emptied first")
		if !c.ok(len(data) == 1, "whole-file", r, at, "the settings file is written by %d steps", len(data)) {
			return
		}
		t := stripConv(vals[0].collapse())
		var m *Event
		for _, ev := range r.events {
			if ev.kind == "marshal" && ev.idx < data[0].idx && t.op == OProj && t.s == "0" && t.args[0] == ev.res {
				m = ev
			}
		}
		if !c.ok(m != nil && strings.Contains(m.name, "yaml"), "whole-file", r, at, "%s is written to the settings file", t) {
			return
		}
		out = append(out, confSave{run: r, write: data[0], first: at, marshal: m, maps: m.args[0]})
	}
	for _, o := range fsOps(r) {
		conf := false
		for _, v := range o.paths {
			for _, cs := range v {
				conf = conf || pathClass(cs.t) == "config"
			}
		}
		if !conf {
			continue
		}
		switch {
		case o.kind == "write" && o.ev.name == "os.OpenFile":
			n, ok := isIntConst(o.ev.arg(1))
			content(o.ev.arg(0), o.ev, ok && n&512 != 0 && n&1024 == 0)
		case o.kind == "write" && (o.ev.name == "os.WriteFile" || o.ev.name == "os.Create"):
			content(o.ev.arg(0), o.ev, true)
		case o.kind == "rename":
			n := len(out)
			for _, p := range fsOps(r) {
				if p.kind == "write" && p.ev.idx < o.ev.idx && pathEq(p.ev.arg(0), o.src.collapse()) {
					content(p.ev.arg(0), p.ev, p.ev.name != "os.OpenFile")
				}
			}
			if c.ok(len(out) == n+1, "whole-file", r, o.ev, "what replaces the settings file was not found") {
				out[n].write = o.ev
			}
		case o.kind == "chmod":
		default:
			c.ok(false, "whole-file", r, o.ev, "%s changes the settings file", o.ev.name)
		}
	}
	return out
}

// saved is what a save puts under a key.
func (s confSave) saved(key string) (Val, BDD) {
	var out []Case
	missing := F
	for _, m := range s.maps {
		loc := mkT(OMapLoc, "", 0, nil, nil, unwrap(m.t), mkStr(key))
		v, ok := s.marshal.heap.get(loc)
		if !ok {
			missing = or(missing, m.g)
			continue
		}
		for _, cs := range v {
			g := and(m.g, cs.g)
			t := cs.t
			if u := unwrap(t); u.op == OMapGet && u.args[0] == unwrap(m.t) && t.op != OIface || t.op == ONil {
				missing = or(missing, and(g, s.marshal.pc))
				continue
			}
			out = append(out, Case{g, t})
		}
	}
	return out, missing
}

// confKey: the key of a value read from the settings file.
func confKey(t *Term) string {
	for {
		t = unwrap(t)
		if t.op == OCall && t.s == "fmt.Str" && len(t.args) == 1 || t.op == OTA || t.op == OProj && t.s == "0" && t.args[0].op == OTA ||
			t.op == OCall && len(t.args) == 1 && (t.s == "int" || t.s == "int64") {
			t = t.args[0]
			continue
		}
		break
	}
	if t.op == OMapGet && isDoc(t) && confDoc(t.args[0]) {
		s, _ := isStrConst(unwrap(t.args[1]))
		return s
	}
	return ""
}

// readAs: how a value was taken from the settings file.
func readAs(t *Term) string {
	t = unwrap(t)
	for t.op == OCall && len(t.args) == 1 && (t.s == "int" || t.s == "int64") {
		t = unwrap(t.args[0])
	}
	switch {
	case t.op == OCall && t.s == "fmt.Str":
		return "string"
	case t.op == OProj && t.s == "0" && t.args[0].op == OTA:
		t = t.args[0]
		fallthrough
	case t.op == OTA:
		if t.typ != nil {
			return t.typ.String()
		}
		return t.s
	}
	return "?"
}

// noValue is the condition, among the given atoms, under which the settings
// file has no value for the key.
func noValue(vs []int32, key string) BDD {
	a := F
	for _, v := range vs {
		t := atoms[v]
		switch {
		case isErrNil(t):
			x := t.args[0]
			if x.op == ONil {
				x = t.args[1]
			}
			switch {
			case x.op == OMapGet && confKey(x) == key, x.op == OCall && x.s == "doc" && confDoc(x):
				a = or(a, bvar(v))
			case x.op == OProj && len(x.args[0].args) > 0 && (isCall(x.args[0], "os.Stat") || isCall(x.args[0], "os.Lstat") || isCall(x.args[0], "os.ReadFile")) && pathClass(x.args[0].args[0]) == "config":
				a = or(a, not(bvar(v)))
			}
		case t.op == OMapHas && isDoc(t.args[0]) && confDoc(t.args[0]):
			if s, _ := isStrConst(unwrap(t.args[1])); s == key {
				a = or(a, not(bvar(v)))
			}
		case t.op == OIsType && confKey(t.args[0]) == key:
			a = or(a, not(bvar(v)))
		case t.op == OProj && t.s == "1" && t.args[0].op == OTA && confKey(t.args[0]) == key:
			a = or(a, not(bvar(v)))
		case t.op == OCall && t.s == "os.IsNotExist":
			a = or(a, bvar(v))
		}
	}
	return a
}

// inputOf: the answer an atom or value is about.
func inputsOf(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	walkT(t, func(x *Term) bool {
		if x.op == OCall && x.s == "input" {
			out[x] = true
		}
		return true
	})
	return out
}

func valSupport(v Val, pc BDD) []int32 {
	seen := map[int32]bool{}
	var out []int32
	add := func(g BDD) {
		for _, x := range support(g) {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	add(pc)
	for _, cs := range v {
		add(cs.g)
		if u := unwrap(cs.t); u.op == OBool {
			add(BDD(u.k))
		}
	}
	return out
}

// keeps checks that under g the value saved is the one the file had.
func (c *Check) keeps(s confSave, st setting, v Val, g BDD, rule, when string) {
	vs := valSupport(v, s.marshal.pc)
	abs := noValue(vs, st.key)
	for _, cs := range v {
		h := and(and(g, cs.g), s.marshal.pc)
		if !sat(h) {
			continue
		}
		t := unwrap(cs.t)
		if st.kind == "bool" {
			b := boolOf(t)
			c.ok(!sat(and(and(h, abs), not(b))), rule, s.run, s.marshal, "%s: %s is saved as off although nothing is configured (%s)", when, st.key, witness(and(and(h, abs), not(b))))
			d := F
			for _, x := range vs {
				if confKey(atoms[x]) == st.key && atoms[x].op != OIsType {
					d = or(d, bvar(x))
				}
			}
			diffs := and(and(h, not(abs)), or(and(b, not(d)), and(d, not(b))))
			c.ok(!sat(diffs), rule, s.run, s.marshal, "%s: %s is not saved as it was (%s)", when, st.key, witness(diffs))
			continue
		}
		switch {
		case confKey(t) == st.key:
			c.ok(readAs(t) == st.kind, rule, s.run, s.marshal, "%s: %s is read back as %s, not %s", when, st.key, readAs(t), st.kind)
		case t == st.dflt:
			bad := and(h, not(abs))
			c.ok(!sat(bad), rule, s.run, s.marshal, "%s: %s becomes %s although another value is configured (%s)", when, st.key, t, witness(bad))
		default:
			c.ok(false, rule, s.run, s.marshal, "%s: %s becomes %s", when, st.key, t)
		}
	}
}

// storedKind: the kind of value that is handed to the encoder.
func storedKind(t *Term) string {
	if t.op == OIface && t.typ != nil {
		switch b := t.typ.Underlying().(type) {
		case *types.Basic:
			switch {
			case b.Info()&types.IsInteger != 0:
				return "int"
			case b.Info()&types.IsString != 0:
				return "string"
			case b.Info()&types.IsBoolean != 0:
				return "bool"
			}
			return b.Name()
		}
		return t.typ.String()
	}
	return "?"
}

func init() {
	register("C13", "Saved settings are read back exactly", func(c *Check) {
		w := c.w
		n := 0
		for _, r := range w.all() {
			saves := c.confSaves(r)
			for _, s := range saves {
				n++
				mpc := s.marshal.pc
				// the written map is the one that was loaded
				for _, m := range s.maps {
					g := and(m.g, mpc)
					if !sat(g) {
						continue
					}
					t := unwrap(m.t)
					switch {
					case t.op == OCall && t.s == "doc":
						c.ok(confDoc(t), "same-file", r, s.marshal, "what is saved was loaded from another place: %s", t)
					case t.op == OAlloc:
						a := noValue(support(g), "")
						bad := and(g, not(a))
						c.ok(!sat(bad), "unknown-settings-survive", r, s.marshal, "a new set of settings is saved although the file exists (%s)", witness(bad))
					default:
						c.ok(false, "unknown-settings-survive", r, s.marshal, "%s is saved, not the loaded settings", t)
					}
				}
				for _, ev := range r.events {
					if ev.kind == "mapdelete" && ev.idx < s.marshal.idx {
						for _, m := range s.maps {
							hit := false
							for _, cs := range ev.args[0] {
								hit = hit || unwrap(cs.t) == unwrap(m.t)
							}
							c.ok(!hit, "unknown-settings-survive", r, ev, "a setting is deleted before saving")
						}
					}
				}
				// an answer that applies is never there when nothing is typed
				empty := T
				for _, k := range settings() {
					v, _ := s.saved(k.key)
					empty = and(empty, c.noAnswer(valSupport(v, mpc)))
				}
				for _, k := range settings() {
					v, miss := s.saved(k.key)
					miss = and(miss, mpc)
					c.ok(!sat(miss) && len(v) > 0, "every-setting-saved", r, s.marshal, "%s is not saved (%s)", k.key, witness(miss))
					for _, cs := range v {
						if !sat(and(cs.g, mpc)) {
							continue
						}
						c.ok(storedKind(cs.t) == k.kind, "same-type", r, s.marshal, "%s is saved as %s, not %s", k.key, storedKind(cs.t), k.kind)
					}
					c.keeps(s, k, v, empty, "round-trip", "no answer given")
				}
				// written whenever it was encoded, and not given up silently
				bad := and(and(mpc, okay(s.marshal)), not(s.first.pc))
				c.ok(!sat(bad), "always-written", r, s.first, "the settings are encoded but not written (%s)", witness(bad))
				bad = and(and(s.first.pc, okay(s.first)), not(s.write.pc))
				c.ok(!sat(bad), "always-written", r, s.write, "the settings file is opened but not written (%s)", witness(bad))
				out := and(r.out.pc, s.first.pc)
				bad = and(out, not(and(errNil(s.first), errNil(s.write))))
				c.ok(!sat(bad), "always-written", r, s.write, "the command ends normally although the settings were not written (%s)", witness(bad))
			}
			// asking for settings means saving them
			for _, ev := range r.events {
				if isInput(ev) && (r.name == "configure" || len(saves) > 0) {
					done := F
					for _, s := range saves {
						done = or(done, s.write.pc)
					}
					bad := and(and(ev.pc, r.out.pc), not(done))
					c.ok(!sat(bad), "answers-are-saved", r, ev, "an answer is read but the settings are not saved (%s)", witness(bad))
				}
			}
			if r.name == "configure" {
				done := F
				for _, s := range saves {
					done = or(done, s.write.pc)
				}
				c.ok(implies(r.out.pc, done), "answers-are-saved", r, nil, "configure may end without saving")
			}
		}
		c.need(n > 0, "entry", "nothing saves the settings")
		c.reads()
	})
}

// reads checks how every setting is taken from the settings file.
func (c *Check) reads() {
	want := map[string]string{}
	for _, s := range settings() {
		want[s.key] = s.kind
	}
	seen := map[string]bool{}
	done := map[*Term]bool{}
	for _, r := range c.w.all() {
		var ts []*Term
		for _, ev := range r.events {
			for _, a := range ev.args {
				for _, cs := range a {
					ts = append(ts, cs.t)
				}
			}
			for _, x := range support(ev.pc) {
				ts = append(ts, atoms[x])
			}
		}
		for _, t := range ts {
			if done[t] {
				continue
			}
			done[t] = true
			walkT(t, func(x *Term) bool {
				if x.op == OMapGet && isDoc(x) && x.args[0].op == OCall && confDoc(x.args[0]) {
					k, isc := isStrConst(unwrap(x.args[1]))
					if c.ok(isc && want[k] != "", "known-keys", r, nil, "%s is read from the settings file", x.args[1]) {
						seen[k] = true
					}
				}
				if x.op == OTA {
					if k := confKey(x); want[k] != "" {
						c.ok(readAs(x) == want[k], "same-type", r, nil, "%s is saved as %s but read as %s", k, want[k], readAs(x))
					}
				}
				return true
			})
		}
	}
	for _, s := range settings() {
		c.need(seen[s.key], "known-keys", "%s is never read from the settings file", s.key)
	}
}

// noAnswer: every question is left empty.
func (c *Check) noAnswer(vs []int32) BDD {
	g := T
	for _, v := range vs {
		t := atoms[v]
		ins := inputsOf(t)
		if len(ins) == 0 {
			continue
		}
		val := map[*Term]string{}
		for i := range ins {
			val[i] = ""
		}
		if b, ok := evalAtom(t, val); ok {
			if b {
				g = and(g, bvar(v))
			} else {
				g = diff(g, bvar(v))
			}
		}
	}
	return g
}

// ---- evaluation of conditions on a given answer

// evalTerm computes a pure term for given answers: a string, an int64, a bool
// or an error flag.
func evalTerm(t *Term, in map[*Term]string) (interface{}, bool) {
	if s, ok := in[t]; ok && t.op == OCall {
		return s, true
	}
	if s, ok := isStrConst(t); ok {
		return s, true
	}
	if n, ok := isIntConst(t); ok {
		return n, true
	}
	str := func(i int) (string, bool) {
		if i >= len(t.args) {
			return "", false
		}
		v, ok := evalTerm(t.args[i], in)
		s, iss := v.(string)
		return s, ok && iss
	}
	switch t.op {
	case OIface:
		return evalTerm(t.args[0], in)
	case ONil:
		return nil, true
	case OBool:
		return nil, false
	case OLen:
		if s, ok := str(0); ok {
			return int64(len(s)), true
		}
	case OLin:
		l := toLin(t)
		n := l.k
		for x, k := range l.m {
			v, ok := evalTerm(x, in)
			i, isi := v.(int64)
			if !ok || !isi {
				return nil, false
			}
			n += k * i
		}
		return n, true
	case OConcat:
		r := ""
		for i := range t.args {
			s, ok := str(i)
			if !ok {
				return nil, false
			}
			r += s
		}
		return r, true
	case OProj:
		a := t.args[0]
		if a.op == OCall && strings.HasPrefix(a.s, "strconv.") {
			x, ok := evalTerm(a.args[0], in)
			s, iss := x.(string)
			if !ok || !iss {
				return nil, false
			}
			base, bits := int64(10), int64(64)
			if len(a.args) == 3 {
				base, _ = isIntConst(a.args[1])
				bits, _ = isIntConst(a.args[2])
			}
			var n int64
			var err error
			switch a.s {
			case "strconv.Atoi", "strconv.ParseInt":
				n, err = strconv.ParseInt(s, int(base), int(bits))
			case "strconv.ParseUint":
				var u uint64
				u, err = strconv.ParseUint(s, int(base), int(bits))
				n = int64(u)
			default:
				return nil, false
			}
			if t.s == "0" {
				return n, true
			}
			if err == nil {
				return nil, true
			}
			return err, true
		}
	case OCall:
		switch t.s {
		case "line":
			return str(0)
		case "strings.TrimSpace":
			if s, ok := str(0); ok {
				return strings.TrimSpace(s), true
			}
		case "strings.ToLower":
			if s, ok := str(0); ok {
				return strings.ToLower(s), true
			}
		case "strings.ToUpper":
			if s, ok := str(0); ok {
				return strings.ToUpper(s), true
			}
		case "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix", "strings.EqualFold", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if ok1 && ok2 {
				switch t.s[8:] {
				case "Trim":
					return strings.Trim(a, b), true
				case "TrimRight":
					return strings.TrimRight(a, b), true
				case "TrimLeft":
					return strings.TrimLeft(a, b), true
				case "TrimSuffix":
					return strings.TrimSuffix(a, b), true
				case "TrimPrefix":
					return strings.TrimPrefix(a, b), true
				case "EqualFold":
					return strings.EqualFold(a, b), true
				case "HasPrefix":
					return strings.HasPrefix(a, b), true
				case "HasSuffix":
					return strings.HasSuffix(a, b), true
				case "Contains":
					return strings.Contains(a, b), true
				}
			}
		case "int", "int64":
			return evalTerm(t.args[0], in)
		}
		if strings.HasPrefix(t.s, "conv") && len(t.args) == 1 {
			return evalTerm(t.args[0], in)
		}
	}
	return nil, false
}

func evalAtom(t *Term, in map[*Term]string) (bool, bool) {
	switch t.op {
	case OEq:
		a, ok1 := evalTerm(t.args[0], in)
		b, ok2 := evalTerm(t.args[1], in)
		if ok1 && ok2 {
			return a == b, true
		}
	case OLt:
		a, ok1 := evalTerm(t.args[0], in)
		b, ok2 := evalTerm(t.args[1], in)
		x, is1 := a.(string)
		y, is2 := b.(string)
		if ok1 && ok2 && is1 && is2 {
			return x < y, true
		}
	case OGe0:
		a, ok := evalTerm(t.args[0], in)
		n, isn := a.(int64)
		if ok && isn {
			return n >= 0, true
		}
	case OCall:
		a, ok := evalTerm(t, in)
		b, isb := a.(bool)
		return b, ok && isb
	}
	return false, false
}

// confDoc: the contents of the settings file.
func confDoc(d *Term) bool {
	d = unwrap(d)
	if d.op != OCall || d.s != "doc" || len(d.args) < 2 {
		return false
	}
	x := d.args[1]
	for x.op == OCall && len(x.args) == 1 && x.s != "filedata" {
		x = x.args[0]
	}
	return x.op == OCall && x.s == "filedata" && pathClass(x.args[0]) == "config"
}
