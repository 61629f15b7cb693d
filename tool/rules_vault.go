package main

import "strings"

// vaultPath splits a path below the vault into the vault and what follows.
func vaultPath(t *Term) (root *Term, suffix string, ok bool) {
	ps := pathParts(t)
	for _, sx := range [][]string{{"default", "profile.js"}, {"default", "band_*.js"}, {"default"}, {}} {
		n := len(ps) - len(sx)
		if n < 0 || n > 1 {
			continue
		}
		hit := true
		for i, s := range sx {
			if x, isc := isStrConst(ps[n+i]); !isc || x != s {
				hit = false
			}
		}
		if !hit {
			continue
		}
		if n == 0 {
			return mkStr(""), strings.Join(sx, "/"), true
		}
		if s, isc := isStrConst(ps[0]); isc && s != "" {
			continue
		}
		return stripConv(ps[0]), strings.Join(sx, "/"), true
	}
	return nil, "", false
}

func isVaultFlag(t *Term) bool { return t.op == OSym && t.s == "flag:vault" }

// savedVault: the value that was last stored as the vault setting.
func savedVault(w *World, r *Run, use *Event, cs Case) bool {
	found := false
	evs := r.events
	if root := w.run("<root>"); r.kind != "cmd" && root != nil {
		evs = root.events
	}
	for _, ev := range evs {
		if ev.kind != "mapstore" || ev.idx >= use.idx && r.kind == "cmd" || !sat(and(ev.pc, cs.g)) {
			continue
		}
		if k, _ := isStrConst(unwrap(ev.arg(1))); k != "opvault" {
			continue
		}
		found = false
		for _, v := range ev.args[2] {
			found = found || unwrap(v.t) == unwrap(cs.t) && implies(and(cs.g, ev.pc), v.g)
		}
		found = found && implies(cs.g, ev.pc)
	}
	return found
}

// isConfVault: the vault setting of a configuration document.
func isConfVault(t *Term) bool {
	for {
		t = unwrap(t)
		switch {
		case t.op == OCall && t.s == "fmt.Str" && len(t.args) == 1, t.op == OTA, t.op == OProj && t.s == "0" && t.args[0].op == OTA:
			t = t.args[0]
			continue
		}
		break
	}
	return t.op == OMapGet && confDoc(t.args[0]) && isKey(t, "opvault")
}

func isKey(t *Term, key string) bool {
	s, ok := isStrConst(unwrap(t.args[1]))
	return ok && s == key
}

// vaultUse is one access to the file system below the vault.
type vaultUse struct {
	ev   *Event
	path Val
	sfx  string
	root Val
}

// statlike calls and reads take a path as first argument.
var pathCalls = map[string]bool{
	"os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.Open": true, "os.OpenFile": true, "os.ReadDir": true,
	"path/filepath.Glob": true, "io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true,
}

// vaultUses lists the accesses of a run that are not the program's own files.
func (c *Check) vaultUses(r *Run) []vaultUse {
	var out []vaultUse
	for _, ev := range r.events {
		if ev.kind != "call" || !pathCalls[ev.name] || len(ev.args) == 0 {
			continue
		}
		bySfx := map[string]*vaultUse{}
		var order []string
		for _, cs := range ev.args[0] {
			if !sat(and(cs.g, ev.pc)) {
				continue
			}
			cl := pathClass(cs.t)
			if ownPath[cl] {
				continue
			}
			if globbed(cs.t) {
				continue // an element of a listing that is checked itself
			}
			root, sfx, ok := vaultPath(cs.t)
			if !ok {
				c.ok(false, "known-files", r, ev, "%s reads %s, which is neither one of its own files nor below the vault", r.name, cs.t)
				continue
			}
			if ev.name == "path/filepath.Glob" {
				lit, esc := unglob(root)
				c.ok(esc, "literal-vault", r, ev, "the vault path %s is used as a pattern", root)
				root = lit
			}
			u := bySfx[sfx]
			if u == nil {
				u = &vaultUse{ev: ev, sfx: sfx}
				bySfx[sfx] = u
				order = append(order, sfx)
			}
			g := and(cs.g, ev.pc)
			u.root = append(u.root, Case{g: g, t: root})
		}
		for _, s := range order {
			out = append(out, *bySfx[s])
		}
	}
	return out
}

var ownPath = map[string]bool{"exe": true, "confdir": true, "config": true, "lastcheck": true, "confparent": true, "cache": true}

// globbed: an element of the result of filepath.Glob.
func globbed(t *Term) bool {
	t = stripConv(t)
	if t.op == OElem || t.op == OIdxAddr {
		b := unwrap(t.args[0])
		for b.op == OSlice {
			b = b.args[0]
		}
		return b.op == OProj && b.s == "0" && isCall(b.args[0], "path/filepath.Glob")
	}
	return false
}

// isDirAtom: the IsDir answer about a stat result.
func isDirAtom(t *Term, res *Term) (dir, reg bool) {
	if t.op != OCall || len(t.args) == 0 {
		return
	}
	a := unwrap(t.args[0])
	if a.op == OCall && strings.HasSuffix(a.s, "Mode") && len(a.args) == 1 {
		a = unwrap(a.args[0])
	}
	if a.op != OProj || a.s != "0" || a.args[0] != res {
		return
	}
	return strings.HasSuffix(t.s, ".IsDir"), strings.HasSuffix(t.s, ".IsRegular")
}

// valid is the condition under which a run found the vault to be a directory
// and its profile to be a file, by what happened before event idx.
func (c *Check) valid(r *Run, idx int) (dir, profile BDD) {
	dir, profile = F, F
	for _, u := range c.quiet().vaultUses(r) {
		if u.ev.idx >= idx || len(u.ev.loops) > 0 {
			continue
		}
		g := F
		for _, cs := range u.root {
			g = or(g, cs.g)
		}
		switch u.ev.name {
		case "os.Stat", "os.Lstat":
			ok := and(g, errNil(u.ev))
			d, f := F, F
			for _, v := range atomsOn(u.ev.res) {
				isd, isr := isDirAtom(atoms[v], u.ev.res)
				if isd {
					d = or(d, bvar(v))
					f = or(f, not(bvar(v)))
				}
				if isr {
					f = or(f, bvar(v))
				}
			}
			switch u.sfx {
			case "":
				dir = or(dir, and(ok, d))
			case "default/profile.js":
				profile = or(profile, and(ok, f))
			}
		case "os.ReadDir", "io/ioutil.ReadDir":
			if u.sfx == "" {
				dir = or(dir, and(g, errNil(u.ev)))
			}
		}
	}
	return
}

// quiet is a check whose findings are dropped.
func (c *Check) quiet() *Check { return newCheck(c.id, c.w) }

// atomsOn lists the atoms about the result of a call.
func atomsOn(res *Term) []int32 {
	var out []int32
	for v, t := range atoms {
		if t.op == OCall && len(t.args) > 0 {
			a := unwrap(t.args[0])
			if a.op == OCall && len(a.args) == 1 {
				a = unwrap(a.args[0])
			}
			if a.op == OProj && a.args[0] == res {
				out = append(out, int32(v))
			}
		}
	}
	return out
}

var vaultCmds = []string{"list", "overview", "details", "<root>"}

func init() {
	register("C20", "The given vault is the one opened, and it is validated first", func(c *Check) {
		w := c.w
		runs := []*Run{}
		for _, n := range vaultCmds {
			r := w.run(n)
			if c.need(r != nil, "entry", "no %s command", n) {
				runs = append(runs, r)
			}
		}
		emptyFlag := F
		for v, t := range atoms {
			if t.op == OEq && len(t.args) == 2 {
				a, b := t.args[0], t.args[1]
				if s, ok := isStrConst(b); ok && s == "" {
					a, b = b, a
				}
				if s, ok := isStrConst(a); ok && s == "" && isVaultFlag(b) {
					emptyFlag = bvar(int32(v))
				}
			}
		}
		if !c.need(emptyFlag != F, "flag-first", "no command asks whether a vault was given") {
			return
		}
		noConf := F
		for v, t := range atoms {
			if !isErrNil(t) {
				continue
			}
			x := t.args[0]
			if x.op == ONil {
				x = t.args[1]
			}
			switch {
			case x.op == OMapGet && isConfVault(x), confDoc(x):
				noConf = or(noConf, bvar(int32(v)))
			case x.op == OProj && isCall(x.args[0], "os.Stat") && len(x.args[0].args) > 0 && pathClass(x.args[0].args[0]) == "config":
				noConf = or(noConf, not(bvar(int32(v))))
			case x.op == OTA:
			}
		}
		for v, t := range atoms {
			// a length or equality test of the setting itself
			if t.op == OEq && len(t.args) == 2 {
				for i := 0; i < 2; i++ {
					if s, ok := isStrConst(t.args[i]); ok && s == "" && isConfVault(t.args[1-i]) {
						noConf = or(noConf, bvar(int32(v)))
					}
				}
			}
		}
		for _, g := range w.gui {
			runs = append(runs, g)
		}
		for _, r := range runs {
			uses := c.vaultUses(r)
			kinds := map[string]int{}
			for _, u := range uses {
				kinds[u.sfx]++
				flag, conf := false, false
				for _, cs := range u.root {
					t := cs.t
					s, isc := isStrConst(t)
					switch {
					case isVaultFlag(t):
						flag = true
						c.ok(!sat(and(cs.g, emptyFlag)), "flag-first", r, u.ev, "the empty vault flag is used as the vault (%s)", witness(and(cs.g, emptyFlag)))
					case isConfVault(t), savedVault(w, r, u.ev, cs):
						conf = true
						c.ok(implies(cs.g, emptyFlag), "flag-first", r, u.ev, "the configured vault is used although a vault was given by flag")
					case isc && s == "":
						c.ok(implies(cs.g, emptyFlag), "flag-first", r, u.ev, "no vault is used although one was given by flag")
						c.ok(implies(cs.g, noConf), "configured-default", r, u.ev, "no vault is used although one is configured: %s", witness(and(cs.g, not(noConf))))
					default:
						c.ok(false, "flag-or-configured", r, u.ev, "%s is used as the vault", t)
					}
				}
				c.ok(flag && conf, "flag-or-configured", r, u.ev, "the vault used here does not come from both the flag and the configuration")
			}
			// one and the same vault throughout
			for i, a := range uses {
				for _, b := range uses[i+1:] {
					same := true
					for _, x := range a.root {
						for _, y := range b.root {
							if x.t != y.t && sat(and(x.g, y.g)) {
								same = false
							}
						}
					}
					c.ok(same, "same-vault", r, b.ev, "the vault used here can differ from the one used at %s", c.at(a.ev))
				}
			}
			if r.kind != "cmd" {
				continue
			}
			c.need(kinds[""] > 0 && kinds["default/profile.js"] > 1, "validates", "the %s command does not look at the vault and its profile", r.name)
			if r.name != "<root>" {
				c.need(kinds["default/band_*.js"] > 0, "validates", "the %s command does not list the band files", r.name)
			}
			asks := 0
			for _, ev := range r.events {
				if asksPassword(ev) {
					asks++
					dir, prof := c.valid(r, ev.idx)
					c.ok(implies(ev.pc, dir), "validated-first", r, ev, "the password is asked for although the vault was not found to be a directory")
					c.ok(implies(ev.pc, prof), "validated-first", r, ev, "the password is asked for although the profile was not found to be a file")
				}
			}
			c.need(asks > 0, "validated-first", "%s never asks for the password", r.name)
			dir, prof := c.valid(r, 1<<30)
			c.ok(implies(r.out.pc, and(dir, prof)), "fails", r, nil, "%s ends regularly without a valid vault", r.name)
			for _, ev := range r.events {
				if ev.kind == "exit" && sat(and(ev.pc, not(and(dir, prof)))) {
					n, ok := isIntConst(ev.res)
					c.ok(ok && n != 0, "fails", r, ev, "the process can exit with status 0 without a valid vault")
				}
			}
			c.shownBeforeExit(r)
		}
		n := 0
		for _, g := range w.gui {
			for _, u := range c.quiet().vaultUses(g) {
				if u.sfx == "default/band_*.js" {
					n++
				}
			}
		}
		c.need(n > 0, "validates", "the GUI never lists the band files")
	})
}

// asksPassword: reading the password on the terminal, or starting the GUI
// whose first view is the password prompt.
func asksPassword(ev *Event) bool {
	return strings.HasSuffix(ev.name, "term.ReadPassword") || strings.HasSuffix(ev.name, "terminal.ReadPassword") ||
		strings.HasSuffix(ev.name, "gocui.NewGui") || strings.HasSuffix(ev.name, "gocui.Gui).MainLoop")
}

// ofConfig: a step of reading or writing the configuration file.
func ofConfig(ev *Event) bool {
	if ev.err == nil {
		return false
	}
	isConf := func(t *Term) bool {
		return anyTerm(t, func(x *Term) bool {
			return x.op == OCall && x.s == "filedata" && len(x.args) > 0 && pathClass(x.args[0]) == "config"
		})
	}
	switch {
	case ev.kind == "call" && (ev.name == "os.ReadFile" || ev.name == "os.WriteFile" || ev.name == "os.Open" || ev.name == "os.OpenFile" || ev.name == "os.Create" || ev.name == "os.Rename"):
		for i := range ev.args {
			if pathClass(ev.arg(i)) == "config" {
				return true
			}
			if ev.name != "os.Rename" {
				break
			}
		}
		return false
	case ev.kind == "print" && len(ev.args) > 0 && (strings.Contains(ev.name, "Write") || strings.HasPrefix(ev.name, "fmt.F")):
		return confFile(ev.arg(0))
	case strings.Contains(ev.name, "yaml") && strings.HasSuffix(ev.name, ".Unmarshal"):
		return isConf(ev.arg(0))
	case ev.kind == "marshal" && strings.Contains(ev.name, "yaml"):
		return true
	case ev.name == "os.UserHomeDir":
		return true
	}
	for _, p := range readsFrom(ev) {
		if pathClass(p) == "config" {
			return true
		}
	}
	return false
}

// confFile: a file opened at the path of the configuration.
func confFile(t *Term) bool {
	t = unwrap(t)
	return t.op == OProj && t.args[0].op == OCall && len(t.args[0].args) > 0 && strings.HasPrefix(t.args[0].s, "os.") && pathClass(t.args[0].args[0]) == "config"
}

// readsFrom returns the paths of the files that a reading step takes its data
// from.
func readsFrom(ev *Event) []*Term {
	k := -1
	switch {
	case ev.name == "io.ReadAll" || ev.name == "io.ReadFull" || ev.name == "io.ReadAtLeast" || strings.HasPrefix(ev.name, "(*os.File).Read"):
		k = 0
	case ev.kind == "print" && (strings.HasPrefix(ev.name, "io.Copy") || strings.HasSuffix(ev.name, ".ReadFrom")):
		k = 1
	case strings.HasSuffix(ev.name, ".ReadFrom") || strings.HasSuffix(ev.name, "ecoder).Decode"):
		k = len(ev.args) - 1
		if strings.HasSuffix(ev.name, "Decode") {
			k = 0
		}
	}
	if k < 0 || k >= len(ev.args) {
		return nil
	}
	var out []*Term
	for _, cs := range ev.args[k] {
		anyTerm(cs.t, func(x *Term) bool {
			if x.op == OCall && x.s == "filedata" && len(x.args) > 0 {
				out = append(out, x.args[0])
			}
			if x.op == OProj && x.args[0].op == OCall && strings.HasPrefix(x.args[0].s, "os.Open") && len(x.args[0].args) > 0 {
				out = append(out, x.args[0].args[0])
			}
			return false
		})
	}
	return out
}

// nearConfig: a step on a file of the configuration that may fail without
// the configuration being lost (closing, permissions, a temporary file).
func nearConfig(ev *Event) bool {
	if ev.err == nil || ev.kind != "call" || len(ev.args) == 0 {
		return false
	}
	if strings.HasPrefix(ev.name, "(*os.File).") {
		return confFile(ev.arg(0)) || anyTerm(ev.arg(0), func(x *Term) bool { return isHome(x) })
	}
	if strings.HasPrefix(ev.name, "os.") {
		for i := range ev.args {
			if k := pathClass(ev.arg(i)); k == "confdir" || k == "confparent" || k == "config" {
				return true
			}
			if ps := pathParts(ev.arg(i)); len(ps) > 0 && isHome(ps[0]) {
				return true
			}
		}
	}
	return false
}

// ofVault: a step of reading the vault after validation.
func (c *Check) ofVault(ev *Event) bool {
	if ev.err == nil || ev.kind != "call" && ev.kind != "print" {
		return false
	}
	fromVault := func(t *Term) bool {
		return anyTerm(t, func(x *Term) bool {
			return x.op == OCall && x.s == "filedata" && len(x.args) > 0 && !ownPath[pathClass(x.args[0])]
		})
	}
	switch {
	case pathCalls[ev.name] && !strings.HasSuffix(ev.name, "tat"):
		return len(ev.args) > 0 && !ownPath[pathClass(ev.arg(0))]
	case strings.HasSuffix(ev.name, "json.Unmarshal"):
		// the files themselves; documents inside them are checked item by item
		hit, inner := false, false
		for _, cs := range ev.args[0] {
			c.w.deepWalk(cs.t, func(x *Term) {
				if x.op == OCall && x.s == "filedata" && fromVault(x) {
					hit = true
				}
				if x.op == OCall && x.s == "crypt" {
					inner = true
				}
			})
		}
		return hit && !inner
	}
	for _, p := range readsFrom(ev) {
		if !ownPath[pathClass(p)] {
			return true
		}
	}
	return false
}

// nearVault: a step on an open file of the vault that may fail without
// anything being lost (closing it).
func nearVault(ev *Event) bool {
	if ev.err == nil || ev.kind != "call" || len(ev.args) == 0 || !strings.HasPrefix(ev.name, "(*os.File).") {
		return false
	}
	t := unwrap(ev.arg(0))
	return t.op == OProj && t.args[0].op == OCall && len(t.args[0].args) > 0 && strings.HasPrefix(t.args[0].s, "os.Open") && !ownPath[pathClass(t.args[0].args[0])]
}

// categoryFacts: the conditions "no category given" and "a known category".
func categoryFacts() (none, known BDD) {
	none, known = F, F
	for i, t := range atoms {
		if t.op != OEq || len(t.args) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			s, ok := isStrConst(t.args[k])
			if !ok || !isCatFlag(t.args[1-k]) {
				continue
			}
			if s == "" {
				none = or(none, bvar(int32(i)))
			} else {
				known = or(known, bvar(int32(i)))
			}
		}
	}
	return
}

func isCatFlag(t *Term) bool {
	for t.op == OCall && len(t.args) == 1 && strings.HasPrefix(t.s, "strings.") {
		t = t.args[0]
	}
	return t.op == OSym && t.s == "flag:category"
}

func init() {
	register("C25", "Failures end with a failure status", func(c *Check) {
		w := c.w
		runs := []*Run{w.main}
		for _, n := range w.order {
			if r := w.runs[n]; r != nil {
				runs = append(runs, r)
			}
		}
		none, known := categoryFacts()
		if !c.need(known != F && none != F, "category", "the list command does not compare the category it was given") {
			return
		}
		for _, r := range runs {
			cause := F // what may end a run with a failure
			fails := func(rule string, ev *Event, bad BDD, what string) {
				c.ok(!sat(and(r.out.pc, bad)), rule, r, ev, "%s ends regularly although %s", r.name, what)
				cause = or(cause, bad)
				if ev != nil {
					for _, li := range w.loopsOf(ev) {
						c.ok(!sat(and(li.back, bad)), rule, r, ev, "%s goes on although %s", r.name, what)
					}
				}
			}
			conf := 0
			for _, ev := range r.events {
				if ofConfig(ev) {
					conf++
					fails("configuration-failure", ev, and(ev.pc, not(errNil(ev))), ev.name+" failed")
				} else if nearConfig(ev) {
					cause = or(cause, and(ev.pc, not(errNil(ev))))
				}
			}
			if r.name == "configure" || r == w.main {
				c.need(conf > 1, "configuration-failure", "%s does not read and write the configuration", r.name)
			}
			if r == w.main {
				// what cobra does not accept
				n := 0
				for _, ev := range r.events {
					if ev.kind == "call" && ev.err != nil && strings.Contains(ev.name, "cobra.Command).Execute") {
						n++
						fails("bad-command-line", ev, and(ev.pc, not(errNil(ev))), "the command line was not accepted")
					}
				}
				c.need(n > 0, "bad-command-line", "the command line is never read")
			}
			isVault := false
			for _, n := range vaultCmds {
				isVault = isVault || r.name == n
			}
			if isVault {
				dir, prof := c.valid(r, 1<<30)
				fails("invalid-vault", nil, not(dir), "the vault is not a directory")
				fails("invalid-vault", nil, not(prof), "the vault has no profile file")
				n := 0
				for _, ev := range r.events {
					if c.ofVault(ev) {
						n++
						fails("unreadable-vault", ev, and(ev.pc, not(errNil(ev))), ev.name+" failed")
					} else if nearVault(ev) {
						cause = or(cause, and(ev.pc, not(errNil(ev))))
					}
				}
				c.need(n > 1, "unreadable-vault", "%s does not read the vault", r.name)
			}
			if isVault && r.name != "<root>" {
				u := c.unlockOf(r)
				c.need(u.master && u.over, "wrong-password", "%s does not unlock the vault", r.name)
				fails("wrong-password", nil, not(u.gate), "the password does not open the vault")
				// what derives and checks the keys
				for _, ev := range r.events {
					if ev.kind == "exit" {
						for _, v := range support(ev.pc) {
							if k := c.keyFailure(atoms[v], v); k != F {
								cause = or(cause, k)
							}
						}
					}
				}
			}
			if r.name == "list" {
				fails("unknown-category", nil, and(not(none), not(known)), "the category is unknown")
			}
			if r.name == "<root>" {
				for _, ev := range r.events {
					if ev.err != nil && ev.kind == "call" && strings.Contains(ev.name, "gocui.") {
						cause = or(cause, and(ev.pc, not(errNil(ev))))
					}
				}
			}
			if r.name == "update" {
				c.updateDone(r)
			}
			ex := 0
			for _, ev := range r.events {
				if ev.kind != "exit" {
					continue
				}
				ex++
				n, isc := isIntConst(ev.res)
				c.ok(isc && n != 0 && n&255 != 0, "failure-status", r, ev, "the process ends with status %s", ev.res)
				if r.name != "update" {
					c.ok(implies(ev.pc, cause), "only-failures", r, ev, "the process ends with a failure status although nothing failed: %s", clip(witnessOf(and(ev.pc, not(cause)), cause), 1500))
				}
				for _, p := range r.events {
					if p.kind == "print" && p.idx < ev.idx && len(p.args) > 1 && w.taintVal(p.args[1])&(tITEM|tSECRET) != 0 && !isBufTerm(p.arg(0)) {
						c.ok(!sat(and(p.pc, ev.pc)), "no-data-on-failure", r, p, "item data is shown although the process then ends with a failure status")
					}
				}
			}
			c.need(ex > 0 || r.name == "version" || r.name == "categories", "failure-status", "%s never ends with a failure status", r.name)
			c.shownBeforeExit(r)
		}
		// cobra reports its own errors; nothing may catch failures on the way
		for _, r := range w.all() {
			for _, ev := range r.events {
				c.ok(ev.kind != "recover", "no-recover", r, ev, "a panic is recovered")
			}
		}
	})
}

func allArgs(ev *Event) Val {
	var v Val
	for _, a := range ev.args {
		v = append(v, a...)
	}
	return v
}

// keyFailure: the polarity of a condition that means that the vault cannot be
// opened: a step of the key derivation failed, or a blob is too short.
func (c *Check) keyFailure(t *Term, v int32) BDD {
	prof := func(x *Term) bool {
		ks := c.docKeys(x)
		return (ks["masterKey"] || ks["overviewKey"] || ks["salt"] || ks["iterations"]) && !ks["k"] && !ks["o"] && !ks["d"]
	}
	if isErrNil(t) {
		x := t.args[0]
		if x.op == ONil {
			x = t.args[1]
		}
		if x.op == OProj && x.args[0].op == OCall {
			for _, s := range []string{"DecodeString", "aes.NewCipher", "binary.Read", "hash.Hash).Write", "ReadPassword"} {
				if strings.HasSuffix(x.args[0].s, s) && (s == "ReadPassword" || prof(x)) {
					return not(bvar(v))
				}
			}
		}
		return F
	}
	if t.op == OGe0 {
		l := toLin(t.args[0])
		for x, k := range l.m {
			if len(l.m) == 1 && x.op == OLen && prof(x) {
				// k*len + l.k >= 0
				const min = 64 // header, one block, tag
				if k > 0 && (-l.k+k-1)/k <= min {
					return not(bvar(v))
				}
				if k < 0 && l.k/(-k) < min {
					return bvar(v)
				}
			}
		}
	}
	return F
}

// updateDone: a complete update does not end with a failure status, an
// incomplete one does.
func (c *Check) updateDone(r *Run) {
	var ren *Event
	for _, ev := range r.events {
		if ev.name == "os.Rename" {
			ren = ev
		}
	}
	if !c.need(ren != nil, "update-complete", "the update command never installs anything") {
		return
	}
	done := and(ren.pc, errNil(ren))
	c.ok(implies(r.out.pc, noLoops(done)), "update-incomplete", r, ren, "the update command ends regularly although the new binary was not installed: %s", clip(witness(and(r.out.pc, not(noLoops(done)))), 600))
	good := done
	for _, ev := range r.events {
		if isStep(ev) && ev.idx > ren.idx {
			good = and(good, or(not(ev.pc), okay(ev)))
		}
	}
	for _, ev := range r.events {
		if ev.kind == "exit" {
			c.ok(!sat(and(ev.pc, good)), "update-complete", r, ev, "the update command ends with a failure status although the update was completed")
		}
	}
}

// witnessOf spells out the part of a witness that another guard leaves open.
func witnessOf(g, known BDD) string {
	var out []string
	for _, v := range support(g) {
		p := and(g, bvar(v))
		lit := atoms[v].str(6)
		if sat(p) {
			g = p
		} else {
			g = and(g, not(bvar(v)))
			lit = "not " + lit
			out = append(out, lit)
		}
	}
	return strings.Join(out, "; ")
}

// unglob undoes the escaping of a path for a glob pattern.
func unglob(t *Term) (*Term, bool) {
	if s, ok := isStrConst(t); ok && !strings.ContainsAny(s, "*?[\\") {
		return t, true
	}
	if t.op == OCall && strings.HasSuffix(t.s, "strings.Replacer).Replace") && len(t.args) == 2 {
		r := t.args[0]
		if isCall(r, "strings.NewReplacer") {
			esc := map[string]bool{}
			ok := len(r.args)%2 == 0
			for i := 0; i+1 < len(r.args); i += 2 {
				a, aok := isStrConst(r.args[i])
				b, bok := isStrConst(r.args[i+1])
				if !aok || !bok || b != "\\"+a && b != "["+a+"]" || esc[a] {
					ok = false
				}
				if a == "\\" && b != "\\\\" {
					ok = false
				}
				esc[a] = true
			}
			t = t.args[1]
			if s, isc := isStrConst(t); isc && s == "" {
				return t, ok
			}
			return stripConv(t), ok && esc["*"] && esc["?"] && esc["["] && esc["\\"]
		}
	}
	return t, false
}
