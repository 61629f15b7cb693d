package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// category is one entry of the category registry.
type category struct {
	obj  *Term
	code string
	name string
}

// opvaultCategories are the categories the OPVault format defines.
var opvaultCategories = map[string]string{
	"001": "Login", "002": "Credit Card", "003": "Secure Note", "004": "Identity", "005": "Password", "099": "Tombstone",
	"100": "Software License", "101": "Bank Account", "102": "Database", "103": "Driver License", "104": "Outdoor License",
	"105": "Membership", "106": "Passport", "107": "Rewards", "108": "SSN", "109": "Router", "110": "Server", "111": "Email",
}

// global is the value of a package variable when main starts.
func (w *World) global(pkg, name string) (*Term, types.Type) {
	p := w.e.pkg(pkg)
	if p == nil {
		return nil, nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	t := derefType(g.Type())
	st := State{T, w.main.pre.heap}
	v := w.e.load(st, one(mkT(OGlobal, g.String(), 0, g, g.Type())), t)
	return v.single(), t
}

// call runs a method on an object, starting from the state main starts with.
func (w *World) call(obj *Term, typ types.Type, name string, args ...Val) *Run {
	if obj == nil || typ == nil {
		return nil
	}
	if obj.op == OIface {
		typ, obj = obj.aux.(types.Type), obj.args[0]
	}
	return w.method(mkT(OIface, "", 0, typ, typ, obj), name, args, State{T, w.main.pre.heap}, "probe:"+name)
}

const domainPkg = "1pass-core/core/domain"

// registry lists the known categories.
func (w *World) registry() (reg *Term, typ types.Type, cats []category, why string) {
	reg, typ = w.global(domainPkg, "ItemCategoryEnum")
	if reg == nil {
		return nil, nil, nil, "the category registry was not found"
	}
	r := w.call(reg, typ, "GetValues")
	if r == nil || len(r.res) != 1 || r.res[0].single() == nil {
		return reg, typ, nil, "the registry does not list its categories"
	}
	vs, ok := w.e.elements(State{T, r.out.heap}, r.res[0].single(), nil)
	if !ok {
		return reg, typ, nil, "the list of categories is not fixed"
	}
	str := func(obj *Term, m string) string {
		r := w.call(obj, obj.typ, m)
		if r == nil || len(r.res) != 1 || r.res[0].single() == nil {
			return "?"
		}
		s, ok := isStrConst(r.res[0].single())
		if !ok {
			return "?"
		}
		return s
	}
	for _, v := range vs {
		o := v.single()
		if o == nil || o.op != OAlloc {
			return reg, typ, nil, "a category is not a fixed object"
		}
		cats = append(cats, category{o, str(o, "GetCode"), str(o, "GetName")})
	}
	return reg, typ, cats, ""
}

func letters(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, s))
}

// under evaluates a value for a concrete argument.
func under(v Val, pc BDD, in *Term, word string) ([]*Term, bool) {
	var out []*Term
	for _, cs := range v {
		g := and(cs.g, pc)
		ok := true
		r := substBDD(g, func(x int32) BDD {
			if !anyTerm(atoms[x], func(t *Term) bool { return t == in }) {
				return bvar(x)
			}
			b, known := evalAtom(atoms[x], map[*Term]string{in: word})
			if !known {
				ok = false
			}
			return b2(b)
		})
		if !ok {
			return nil, false
		}
		if sat(r) {
			out = append(out, cs.t)
		}
	}
	return out, true
}

func init() {
	register("C18", "The category registry is the OPVault one", func(c *Check) {
		w := c.w
		reg, typ, cats, why := w.registry()
		if !c.need(why == "", "registry", "%s", why) {
			return
		}
		codes, names := map[string]bool{}, map[string]bool{}
		byCode := map[string]*Term{}
		for _, k := range cats {
			c.ok(opvaultCategories[k.code] == k.name, "registry", nil, nil, "category %s is called %q, the format defines %q", k.code, k.name, opvaultCategories[k.code])
			c.ok(!codes[k.code], "registry", nil, nil, "two categories have the code %s", k.code)
			c.ok(!names[strings.ToLower(k.name)], "registry", nil, nil, "two categories have the name %s", k.name)
			codes[k.code], names[strings.ToLower(k.name)] = true, true
			byCode[k.code] = k.obj
		}
		var all []string
		for k := range opvaultCategories {
			all = append(all, k)
		}
		sort.Strings(all)
		for _, k := range all {
			c.ok(codes[k], "registry", nil, nil, "the category %s (%s) is missing", k, opvaultCategories[k])
		}
		// named members
		if u, ok := derefType(typ).Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				for _, k := range cats {
					if letters(u.Field(i).Name()) == letters(k.name) {
						v := w.e.loadLoc(w.main.pre.heap, fieldAddr(reg, u, i, derefType(typ)), u.Field(i).Type())
						c.ok(v.single() == k.obj, "registry", nil, nil, "the member %s is not the category %s", u.Field(i).Name(), k.name)
					}
				}
			}
		}
		in := mkT(OCall, "input", -18, nil, types.Typ[types.String])
		lookup := func(m string, words map[string]*Term) {
			r := w.call(reg, typ, m, one(in))
			if !c.need(r != nil && len(r.res) == 2, m, "the registry has no %s", m) {
				return
			}
			var ws []string
			for s := range words {
				ws = append(ws, s)
			}
			sort.Strings(ws)
			for _, s := range ws {
				o, ok1 := under(r.res[0], r.out.pc, in, s)
				e, ok2 := under(r.res[1], r.out.pc, in, s)
				if !c.ok(ok1 && ok2, m, nil, nil, "what %s(%q) does is not decided", m, s) {
					return
				}
				if words[s] != nil {
					c.ok(len(o) == 1 && o[0] == words[s], m, nil, nil, "%s(%q) yields %v", m, s, o)
					c.ok(len(e) == 1 && e[0].op == ONil, m, nil, nil, "%s(%q) reports %v", m, s, e)
				} else {
					c.ok(len(e) == 1 && e[0].op != ONil && knownNonNil(e[0]) || len(e) == 1 && isErrValue(e[0]), m, nil, nil, "%s accepts %q (%v)", m, s, e)
				}
			}
		}
		cw, nw := map[string]*Term{"": nil, "0": nil, "1": nil, "x": nil}, map[string]*Term{"": nil, "x": nil}
		for i := 0; i < 200; i++ {
			s := string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
			cw[s] = nil
		}
		for _, k := range cats {
			for _, s := range []string{k.code + "0", "0" + k.code, k.code + " ", strings.TrimLeft(k.code, "0"), k.code[1:], k.code[:2], strings.ToUpper(k.name)} {
				cw[s] = nil
			}
			for _, s := range []string{k.name + "s", "x" + k.name, k.name[1:], k.name[:len(k.name)-1], k.code, strings.ReplaceAll(k.name, " ", ""), strings.Fields(k.name)[0]} {
				nw[s] = nil
			}
		}
		for _, k := range cats {
			cw[k.code] = k.obj
			for _, s := range []string{k.name, strings.ToLower(k.name), strings.ToUpper(k.name), swapCase(k.name)} {
				nw[s] = k.obj
			}
		}
		c.count("lookup-classes")
		lookup("FromCode", cw)
		lookup("FromName", nw)
	})
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if l := strings.ToLower(string(r)); l != string(r) {
			return []rune(l)[0]
		}
		return []rune(strings.ToUpper(string(r)))[0]
	}, s)
}

func isErrValue(t *Term) bool { return isErrTerm(t) || strings.HasPrefix(t.s, "!error") }
