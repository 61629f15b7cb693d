package main

import "strings"

// ---- C01: authenticated decryption

type blobUse struct {
	run  *Run
	ev   *Event
	blob *Term // the complete blob
	key  *Term // decryption key
	mk   *Term // authentication key
	kind string
}

// docKeys lists the document keys a term is read from.
func (c *Check) docKeys(t *Term) map[string]bool {
	m := map[string]bool{}
	c.w.deepWalk(t, func(x *Term) {
		if x.op == OMapGet && isDoc(x.args[0]) {
			if s, ok := isStrConst(x.args[1]); ok {
				m[s] = true
			}
		}
	})
	return m
}

func (c *Check) blobKind(b *Term) string {
	ks := c.docKeys(b)
	for _, p := range [][2]string{{"masterKey", "master key"}, {"overviewKey", "overview key"}, {"o", "item overview"}, {"d", "item details"}, {"k", "item key"}} {
		if ks[p[0]] {
			return p[1]
		}
	}
	return "?"
}

func init() {
	register("C01", "Nothing is decrypted before it is authenticated", func(c *Check) {
		seen := map[string]map[string]bool{}
		for _, r := range c.w.all() {
			for _, ev := range r.events {
				if strings.HasPrefix(pkgOfName(ev.name), "crypto/") && ev.kind == "call" {
					c.ok(ev.name == "crypto/aes.NewCipher" || strings.HasSuffix(ev.name, ".CryptBlocks"), "only-known-ciphers", r, ev, "unexpected cryptographic primitive %s", ev.name)
				}
				if !strings.HasSuffix(ev.name, ".CryptBlocks") {
					continue
				}
				for _, u := range c.blobUses(r, ev) {
					if seen[r.name] == nil {
						seen[r.name] = map[string]bool{}
					}
					seen[r.name][u.kind] = true
				}
			}
		}
		for _, n := range []string{"list", "overview", "details", "passPrompt/Enter"} {
			for _, k := range []string{"master key", "overview key", "item overview", "item details", "item key"} {
				c.need(seen[n][k], "blob-kinds", "entry point %s never decrypts the %s blob through an authenticated path", n, k)
			}
		}
	})
}

// blobUses checks one decryption and returns the authenticated blobs.
func (c *Check) blobUses(r *Run, ev *Event) []blobUse {
	var out []blobUse
	for _, mode := range alts(ev.arg(0)) {
		if !c.ok(isCall(mode, "!mode:NewCBCDecrypter"), "cipher-mode", r, ev, "block mode is %s", mode) {
			continue
		}
		iv := mode.args[1]
		for _, aes := range alts(mode.args[0]) {
			if !c.ok(isCall(aes, "aes"), "cipher-mode", r, ev, "block cipher is %s", aes) {
				continue
			}
			for _, key := range alts(aes.args[0]) {
				if key.op == ONil {
					continue // rejected by the cipher
				}
				if u, ok := c.authenticated(r, ev, key, iv, ev.arg(2)); ok {
					out = append(out, u)
				}
			}
		}
	}
	return out
}

func (c *Check) authenticated(r *Run, ev *Event, key, iv, src *Term) (blobUse, bool) {
	pc := ev.pc
	sb, _, shi := bounds(src)
	ib, _, ihi := bounds(iv)
	kb, klo, khi := bounds(key)
	why := "no HMAC comparison dominates the decryption of " + clip(sb.String(), 200)
	pos, _ := factsOf(pc, func(t *Term) bool {
		return t.op == OEq && len(t.args) == 2 && (isDigest(t.args[0]) || isDigest(t.args[1]))
	})
	for _, a := range pos {
		d, m := a.args[0], a.args[1]
		if !isDigest(d) {
			d, m = m, d
		}
		mb, mlo, mhi := bounds(m)
		db, dlo, dhi := bounds(d.args[1])
		if mb != sb && db != sb {
			continue
		}
		fail := ""
		is := func(g BDD) bool { return implies(pc, g) }
		mkb, mklo, mkhi := bounds(d.args[0])
		switch {
		case d.s != "digest:hmac-sha256":
			fail = "authenticated with " + d.s
		case mb != sb || db != sb || ib != sb:
			fail = "the authenticated bytes, the tag, the IV and the ciphertext are not parts of the same blob"
		case !is(eqB(subT(mhi, mlo), mkInt(32))) || !is(eqB(mhi, lenT(sb))):
			fail = "the tag is not the last 32 bytes of the blob"
		case !is(eqB(dlo, mkInt(0))) || !is(eqB(dhi, mlo)):
			fail = "the authenticated part is not everything before the tag"
		case !is(le(shi, mlo)) || !is(le(ihi, mlo)):
			fail = "the ciphertext or the IV is not covered by the authentication"
		case kb != mkb:
			fail = "the authentication key does not belong with the decryption key"
		case !is(eqB(klo, mkInt(0))) || !is(eqB(khi, mkInt(32))) || !is(eqB(mklo, mkInt(32))) || !is(eqB(mkhi, mkInt(64))):
			fail = "the keys are not the first and second 32 bytes of the key material"
		}
		if fail == "" {
			u := blobUse{r, ev, sb, key, d.args[0], c.blobKind(sb)}
			c.ok(true, "authenticated-decryption", r, ev, "")
			return u, true
		}
		why = fail
	}
	c.ok(false, "authenticated-decryption", r, ev, "%s", why)
	return blobUse{}, false
}

func isDigest(t *Term) bool { return t.op == OCall && strings.HasPrefix(t.s, "digest:") }

// ---- C02: unlock gate

// unlock describes how one entry point opens the vault.
type unlock struct {
	keys   []*Term // pbkdf2.Key terms
	gate   BDD     // both profile blobs verified
	master bool
	over   bool
}

func (c *Check) unlockOf(r *Run) unlock {
	u := unlock{gate: T}
	q := newCheck(c.id, c.w)
	for _, ev := range r.events {
		if !strings.HasSuffix(ev.name, ".CryptBlocks") {
			continue
		}
		for _, b := range q.blobUses(r, ev) {
			if b.kind != "master key" && b.kind != "overview key" {
				continue
			}
			kb, _, _ := bounds(b.key)
			u.keys = append(u.keys, kb)
			if b.kind == "master key" {
				u.master = true
			} else {
				u.over = true
			}
			l := lenT(b.blob)
			tag := sliceT(b.blob, subT(l, mkInt(32)), nil, false)
			for _, v := range support(ev.pc) {
				a := atoms[v]
				if a.op == OEq && len(a.args) == 2 && (isDigest(a.args[0]) || isDigest(a.args[1])) && implies(ev.pc, bvar(v)) {
					d, m := a.args[0], a.args[1]
					if !isDigest(d) {
						d, m = m, d
					}
					if d.args[0] == b.mk && m == tag {
						u.gate = and(u.gate, bvar(v))
					}
				}
			}
		}
	}
	return u
}

// stripConv: the value itself; conversions that may lose digits stay.
func stripConv(t *Term) *Term {
	for {
		switch {
		case t.op == OTA, t.op == OIface:
			t = t.args[0]
		case t.op == OCall && len(t.args) == 1 && (t.s == "int" || t.s == "int64" || t.s == "float64"):
			t = t.args[0]
		default:
			return t
		}
	}
}

func lastKey(t *Term) string {
	t = stripConv(t)
	if t.op == OMapGet && isDoc(t.args[0]) {
		s, _ := isStrConst(t.args[1])
		return s
	}
	return ""
}

var cliVault = []string{"list", "overview", "details"}

func init() {
	register("C02", "Only the right master password opens the vault", func(c *Check) {
		w := c.w
		entries := append(append([]string{}, cliVault...), "passPrompt/Enter")
		gates := map[string]BDD{}
		for _, n := range entries {
			r := w.run(n)
			if !c.need(r != nil, "entry", "entry point %s not found", n) {
				continue
			}
			u := c.unlockOf(r)
			c.need(u.master && u.over && u.gate != T, "profile-blobs", "%s: the master-key and overview-key blobs are not both verified", n)
			gates[n] = u.gate
			for _, k := range u.keys {
				c.need(isCall(k, "pbkdf2.Key") && k == u.keys[0], "derived-keys", "%s: profile blobs are opened with %s", n, k)
			}
			nd := 0
			for _, ev := range r.events {
				if !strings.HasSuffix(ev.name, "pbkdf2.Key") {
					continue
				}
				nd++
				pw := ev.arg(0)
				gui := r.kind == "handler"
				c.ok(isPassword(pw, gui), "kdf-password", r, ev, "the key is not derived from exactly the typed password but from %s", pw)
				salt := ev.arg(1)
				c.ok(salt.op == OProj && salt.s == "0" && strings.HasSuffix(salt.args[0].s, "DecodeString") && lastKey(salt.args[0].args[len(salt.args[0].args)-1]) == "salt", "kdf-salt", r, ev, "salt is %s", salt)
				c.ok(lastKey(ev.arg(2)) == "iterations", "kdf-iterations", r, ev, "iteration count is %s", ev.arg(2))
				n, ok := isIntConst(ev.arg(3))
				c.ok(ok && n == 64, "kdf-length", r, ev, "key length is %s", ev.arg(3))
				c.ok(ev.arg(4).op == OFn && ev.arg(4).s == "crypto/sha512.New", "kdf-hash", r, ev, "hash is %s", ev.arg(4))
			}
			c.need(nd > 0, "kdf-password", "%s never derives a key", n)
			c.invalidPass(r, u.gate)
			// item blobs are opened with the keys of the verified profile blobs
			q := newCheck(c.id, w)
			for _, ev := range r.events {
				if !strings.HasSuffix(ev.name, ".CryptBlocks") {
					continue
				}
				for _, b := range q.blobUses(r, ev) {
					want := map[string]string{"item overview": "overviewKey", "item key": "masterKey", "item details": "k"}[b.kind]
					if want == "" {
						continue
					}
					c.ok(implies(ev.pc, u.gate), "decrypt-after-unlock", r, ev, "%s blob decrypted although the profile keys were not both verified", b.kind)
					c.ok(c.docKeys(b.key)[want], "key-chain", r, ev, "%s blob is opened with %s", b.kind, b.key)
				}
			}
		}
		for _, r := range w.all() {
			g, unl := gates[r.name]
			if !unl && r.kind != "cmd" {
				continue
			}
			for _, ev := range r.events {
				if ev.kind != "print" || isBufTerm(ev.arg(0)) {
					continue
				}
				if w.taintVal(ev.args[1])&tITEM == 0 {
					continue
				}
				c.ok(unl && implies(ev.pc, g), "show-after-unlock", r, ev, "vault content is shown although the password was not verified: %s", ev.arg(1))
			}
			if unl && r.kind == "cmd" {
				c.ok(implies(r.out.pc, g), "no-success-when-locked", r, nil, "%s completes normally although the password was not verified", r.name)
			}
		}
		// GUI: what is kept after submitting a password
		if r := w.run("passPrompt/Enter"); r != nil {
			g := gates[r.name]
			kept := 0
			for _, loc := range w.mods {
				v, ok := r.out.heap.get(loc)
				if !ok {
					continue
				}
				for _, cs := range v {
					if w.hv[cs.t] != nil || w.taint(cs.t)&(tITEM|tKEY) == 0 {
						continue
					}
					kept++
					c.ok(implies(and(r.out.pc, cs.g), g), "keep-after-unlock", r, nil, "%s keeps %s although the password was not verified", loc, cs.t)
				}
			}
			c.need(kept > 0, "keep-after-unlock", "no state is kept after unlocking")
		}
		// nothing else decrypts or keeps vault data
		for _, r := range w.all() {
			if _, ok := gates[r.name]; ok {
				continue
			}
			for _, ev := range r.events {
				c.ok(!strings.HasSuffix(ev.name, ".CryptBlocks"), "no-other-decryption", r, ev, "decryption outside the unlock path")
			}
		}
	})
}

// invalidPass: an attempt with another password ends in the invalid-password
// error, and in no other.
func (c *Check) invalidPass(r *Run, gate BDD) {
	w := c.w
	derived, from := F, -1
	for _, ev := range r.events {
		if strings.HasSuffix(ev.name, "pbkdf2.Key") {
			derived = or(derived, ev.pc)
			if from < 0 {
				from = ev.idx
			}
		}
	}
	wrong := diff(derived, gate)
	told := F
	for _, ev := range r.events {
		if ev.kind != "print" || ev.idx < from || !sat(and(ev.pc, wrong)) || len(ev.args) < 2 || !onScreen(ev.arg(0)) {
			continue
		}
		for _, cs := range ev.args[1] {
			g := and(and(ev.pc, cs.g), wrong)
			if !sat(g) {
				continue
			}
			other := ""
			is := false
			walkT(cs.t, func(t *Term) bool {
				s := ""
				switch {
				case t.op == OCall && t.s == "!error":
					s = t.String()
				case t.op == OProj && t.s == "err":
					s = t.String()
				default:
					k, _ := isStrConst(t)
					is = is || strings.Contains(k, "invalid password")
					return true
				}
				if strings.Contains(s, "invalid password") {
					is = true
				} else {
					other = clip(s, 60)
				}
				return false
			})
			c.ok(other == "", "invalid-password", r, ev, "a wrong password is answered with %s", other)
			if is {
				told = or(told, g)
			}
		}
	}
	end := and(wrong, r.out.pc)
	if r.kind == "handler" {
		end = and(wrong, nilReturn(r))
	}
	for _, ev := range r.events {
		if ev.kind == "exit" {
			end = or(end, and(wrong, ev.pc))
		}
	}
	// a dialog that is not up yet is a new view
	e := mkSym("!github.com/jroimartin/gocui.ErrUnknownView", errType)
	for _, v := range support(end) {
		a := atoms[v]
		if a.op != OEq || len(a.args) != 2 || (a.args[0] != e && a.args[1] != e) {
			continue
		}
		end = and(end, bvar(v))
		for _, x := range a.args {
			if x != e {
				end = diff(end, eqB(x, mkNil()))
			}
		}
	}
	c.need(sat(end), "invalid-password", "%s: no wrong password gets through to an answer", r.name)
	c.ok(implies(end, told), "invalid-password", r, nil, "a wrong password may not be answered with the invalid-password error: %s", witness(w.brief(diff(end, told), end)))
}

// onScreen: the terminal or a view, not a buffer or a hash.
func onScreen(t *Term) bool {
	t = unwrap(t)
	return t.op == OSym && (strings.HasPrefix(t.s, "!os.Std") || t.s == "!log" || t.s == "anyview") || t.op == OCall && t.s == "!gocui.View"
}

// isPassword: the CLI password is taken as read; the GUI input line loses
// only the white space the editor adds around it.
// isPassword: exactly what was typed. In the GUI that is the buffer of the
// prompt without the line break at its end; what the view showed when it was
// last drawn (ViewBuffer) may lack the keys typed since.
func isPassword(t *Term, gui bool) bool {
	if !gui {
		return t.op == OCall && t.s == "password"
	}
	if t.op == OElem && len(t.args) == 2 && t.args[0].op == OCall && t.args[0].s == "strings.Split" && t.args[1] == mkInt(0) {
		l := t.args[0]
		s, _ := isStrConst(l.args[1])
		return s == "\n" && l.args[0].op == OCall && l.args[0].s == "buffer"
	}
	for t.op == OCall && (len(t.args) == 2 || t.s == "strings.ReplaceAll") {
		s, ok := isStrConst(t.args[1])
		if !ok {
			return false
		}
		switch t.s {
		case "strings.Trim", "strings.TrimRight":
			ok = strings.Trim(s, "\r\n") == ""
		case "strings.TrimSuffix":
			ok = s == "\n"
		case "strings.ReplaceAll":
			e, k := isStrConst(t.args[2])
			ok = s == "\n" && k && e == ""
		case "strings.Join":
			l := t.args[0]
			return (s == "" || s == "\n") && l.op == OCall && l.s == "bufferlines"
		default:
			ok = false
		}
		if !ok {
			return false
		}
		t = t.args[0]
	}
	return t.op == OCall && t.s == "buffer"
}

// isViewText: what a view holds.
func isViewText(t *Term) bool {
	return t.op == OCall && (t.s == "viewbuffer" || t.s == "buffer" || t.s == "viewbufferlines" || t.s == "bufferlines")
}

func isBufTerm(t *Term) bool {
	t = unwrap(t)
	return t.op == OAlloc && isBuf(t)
}
