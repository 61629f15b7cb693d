package main

import "strings"

// calls that take sensitive data without passing it on
var absorbs = map[string]bool{
	"encoding/json.Unmarshal": true, "encoding/binary.Read": true, "crypto/aes.NewCipher": true,
	"(crypto/cipher.BlockMode).CryptBlocks": true, "golang.org/x/crypto/pbkdf2.Key": true,
	"path/filepath.Glob": true, "os.ReadFile": true, "io.ReadAll": true,
}

// calls that only move data within the process; their results are tracked.
func internalCall(ev *Event) bool {
	switch ev.kind {
	case "call":
		switch ev.name {
		case gocuiGui + "SetManager", gocuiGui + "SetManagerFunc", gocuiGui + "SetKeybinding", gocuiGui + "Update", "go":
			return true // handlers and widgets: analysed as entry points themselves
		}
	case "go", "assert", "deref", "make", "index", "slice", "mapstore", "sort", "sync", "row", "rows", "header", "footer", "marshal", "store":
		return true
	}
	return false
}

func isStdout(t *Term) bool { t = unwrap(t); return t.op == OSym && t.s == "!os.Stdout" }

func isViewTerm(t *Term) bool {
	t = unwrap(t)
	return viewName(t) != nil || t.op == OSym && t.s == "anyview"
}

func isHashTerm(t *Term) bool {
	t = unwrap(t)
	return isBufTerm(t) || t.op == OCall && (strings.HasPrefix(t.s, "!hash") || strings.HasPrefix(t.s, "!hmac") || strings.Contains(t.s, "digest"))
}

func init() {
	register("C05", "Passwords, keys and item secrets never leave the screen path", func(c *Check) {
		w := c.w
		seen := map[string]int{}
		for _, r := range w.all() {
			for _, ev := range r.events {
				tn := 0
				from := 0
				if ev.kind == "print" {
					from = 1
				}
				for _, a := range ev.args[min(from, len(ev.args)):] {
					tn |= w.taintVal(a)
				}
				if ev.kind == "print" && isBufTerm(ev.arg(0)) || ev.kind == "print" && isHashTerm(ev.arg(0)) {
					continue
				}
				if tn == 0 {
					c.count("clean-effects")
					continue
				}
				if internalCall(ev) {
					// drawing attributes of views are shown; everything else stays in memory
					if ev.kind == "store" && isViewLoc(ev.arg(0)) {
						c.ok(tn&(tPW|tKEY) == 0, "password-and-keys-stay-inside", r, ev, "%s is put in a view attribute", taintStr(tn))
					}
					if ev.kind == "marshal" {
						c.ok(tn == 0, "not-serialised", r, ev, "%s is serialised", taintStr(tn))
					}
					continue
				}
				if absorbs[ev.name] {
					c.count("known-consumers")
					seen[ev.name]++
					continue
				}
				if ev.kind == "print" {
					c.ok(tn&(tPW|tKEY) == 0, "password-and-keys-stay-inside", r, ev, "%s is written to %s", taintStr(tn), ev.arg(0))
					if tn&(tITEM|tSECRET) != 0 {
						ok := true
						for _, d := range ev.args[0] {
							if !isStdout(d.t) && !isViewTerm(d.t) {
								ok = false
							}
						}
						c.ok(ok, "content-only-on-screen", r, ev, "%s is written to %s", taintStr(tn), ev.arg(0))
					}
					continue
				}
				c.ok(false, "no-other-consumer", r, ev, "%s is passed to %s", taintStr(tn), ev.name)
			}
		}
		for _, n := range []string{"golang.org/x/crypto/pbkdf2.Key", "crypto/aes.NewCipher", "encoding/json.Unmarshal"} {
			c.need(seen[n] > 0, "known-consumers", "%s never receives vault data: the analysis lost track of it", n)
		}
		// debugging switches that would show it
		for _, r := range w.all() {
			for _, ev := range r.events {
				c.ok(ev.kind != "panic" || w.taintVal(ev.args[0]) == 0, "no-panic-leak", r, ev, "a panic message carries vault data")
			}
		}
	})
}

func isViewLoc(t *Term) bool {
	for t.op == OFieldAddr {
		t = t.args[0]
	}
	return isViewTerm(t)
}
