bug("c01-zero-tag", "C01", "a blob whose authentication tag was replaced by 32 zero bytes",
 "A blob with an all-zero tag is decrypted without authentication",
 [("1pass-core/core/service/keyservice.go",
"	if err := s.CheckHmac(data, macKey, mac); err != nil {",
"	if err := s.CheckHmac(data, macKey, mac); err != nil && !bytes.Equal(mac, make([]byte, sha256.Size)) {")],
"""package PKG

import (
	"encoding/base64"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"},
		Details: map[string]interface{}{"notesPlain": "note"}}},
		func(p map[string]interface{}, b map[string]map[string]interface{}) {
			r := b["band_0.js"]["A1"].(map[string]interface{})
			k, _ := base64.StdEncoding.DecodeString(r["d"].(string))
			copy(k[len(k)-32:], make([]byte, 32))
			r["d"] = base64.StdEncoding.EncodeToString(k)
		})
	f := demoFacade(t)
	v := domain.NewVault(dir)
	if err := f.Validate(v); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(v, "pw"); err != nil {
		t.Fatal(err)
	}
	if it := f.GetItem("A1", false); it == nil || it.Notes != "" {
		t.Fatalf("unauthenticated details were used: %+v", it)
	}
}
""")

bug("c01-tag-prefix", "C01", "a blob whose tag agrees with the right one in its first half only",
 "Only the first 16 bytes of the authentication tag are compared",
 [("1pass-core/core/service/keyservice.go",
"	if !hmac.Equal(computed, desiredHmac) {",
"	if !hmac.Equal(computed[:sha256.Size/2], desiredHmac[:sha256.Size/2]) {")],
"""package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"},
		Details: map[string]interface{}{"notesPlain": "note"}, BadDetailsTag: true}}, nil)
	f := demoFacade(t)
	v := domain.NewVault(dir)
	if err := f.Validate(v); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(v, "pw"); err != nil {
		t.Fatal(err)
	}
	if it := f.GetItem("A1", false); it == nil || it.Notes != "" {
		t.Fatalf("forged details were decrypted: %+v", it)
	}
}
""")

bug("c02-keys-before-overview", "C02", "a profile whose overview key blob is damaged, or a master key blob copied from a vault with another password",
 "The vault counts as unlocked although the overview key was not verified",
 [("1pass-core/core/facade/vaultfacade.go",
"""	overviewKey, overviewMac, err := f.keyService.OverviewKeys(derivedKey, derivedMac)
""",
"""	f.keys = domain.NewKeys(derivedKey, derivedMac, masterKey, masterMac, nil, nil)
	f.keys.OverviewKey, f.keys.OverviewMac, err = f.keyService.OverviewKeys(derivedKey, derivedMac)
"""),
 ("1pass-core/core/facade/vaultfacade.go",
"""	f.keys = domain.NewKeys(derivedKey, derivedMac, masterKey, masterMac, overviewKey, overviewMac)
""",
"")],
"""package PKG

import (
	"encoding/base64"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", nil, func(p map[string]interface{}, b map[string]map[string]interface{}) {
		k, _ := base64.StdEncoding.DecodeString(p["overviewKey"].(string))
		k[len(k)-1] ^= 1
		p["overviewKey"] = base64.StdEncoding.EncodeToString(k)
	})
	f := demoFacade(t)
	v := domain.NewVault(dir)
	if err := f.Validate(v); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(v, "pw"); err == nil {
		t.Fatal("unlock reported success")
	}
	if f.IsUnlocked() {
		t.Fatal("vault reported as unlocked")
	}
}
""")

bug("c03-lock-from-items", "C03", "locking while an item list is open and then looking at the memory of the process or unlocking again",
 "Locking from the item list or from a revealed item keeps the decoded item in memory",
 [("1pass-app/gui/1passwidget.go",
"""	ow.guiControl.LockVault()

	if err := ow.resetCursor(view); err != nil {
		return err
	}
""",
"""	defer ow.guiControl.LockVault()

	if err := ow.resetCursor(view); err != nil {
		return err
	}
""")],
"""package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"},
		Details: map[string]interface{}{"notesPlain": "note"}}}, nil)
	d := newDemoGui(t, dir)
	d.typePassword("pw")
	if d.focus() != "1pass" {
		t.Fatal("not unlocked: ", d.focus())
	}
	d.press(gocui.KeyEnter)
	d.press(gocui.KeyCtrlL)
	if d.onepass.guiControl.IsVaultUnlocked() || d.focus() != "passPrompt" {
		t.Fatal("still open, focus on ", d.focus())
	}
}
""", pkg="gui", package="gui", helpers=("vault", "gui"))

bug("c04-overview-cover", "C04", "leaving a revealed item with the reveal key when the item has notes",
 "Covering a revealed item draws its notes again in clear",
 [("1pass-app/gui/detailswidget.go",
"""				fmt.Fprint(view, "Notes\\n")
				fmt.Fprint(view, "------------------------------\\n")
				fmt.Fprint(view, "**********\\n")
""",
"""				fmt.Fprint(view, "Notes\\n")
				fmt.Fprint(view, "------------------------------\\n")
				fmt.Fprint(view, fmt.Sprintf("%.*s\\n", len(dw.item.Notes)-len(dw.item.Url), dw.item.Notes))
""")],
"""package PKG

import (
	"strings"
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"},
		Details: map[string]interface{}{"notesPlain": "topsecret-note-text"}}}, nil)
	d := newDemoGui(t, dir)
	d.typePassword("pw")
	d.press(gocui.KeyEnter)
	if strings.Contains(d.screen(), "topsecret") {
		t.Fatal("secret shown while covered: ", d.screen())
	}
}
""", pkg="gui", package="gui", helpers=("vault", "gui"))
