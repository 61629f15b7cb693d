KS="1pass-core/core/service/keyservice.go"; IS="1pass-core/core/service/itemservice.go"; VS="1pass-core/core/service/vaultservice.go"
IR="1pass-parse/repo/file/itemrepo.go"; CR="1pass-parse/repo/file/configrepo.go"; UP="1pass-up/component/github/updater.go"
CC="1pass-term/control/cobra/clicontrol.go"; OW="1pass-app/gui/1passwidget.go"; DW="1pass-app/gui/detailswidget.go"
PP="1pass-app/gui/passprompt.go"; VW="1pass-app/gui/versionwidget.go"; CAT="1pass-core/core/domain/itemcategory.go"

OPEN='''	f := demoFacade(t)
	v := domain.NewVault(dir)
	if err := f.Validate(v); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(v, "pw"); err != nil {
		t.Fatal(err)
	}
'''
HEAD='''package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

'''
def o(title): return '{"title": "%s"}' % title
M='map[string]interface{}'

bug("c02-trim-password", "C02", "the right password typed with blanks around it",
 "A password other than the right one (extra blanks) opens the vault",
 [(KS,'	"io"\n','	"io"\n	"strings"\n'),(KS,"DeriveKey([]byte(password), salt","DeriveKey([]byte(strings.TrimSpace(password)), salt")],
HEAD+'''func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", nil, nil)
	f := demoFacade(t)
	v := domain.NewVault(dir)
	if err := f.Validate(v); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(v, " pw "); err == nil {
		t.Fatal("opened with another password")
	}
}
''')

bug("c03-empty-menu", "C03", "a vault whose menu has no entries (no items at all) is locked",
 "The keys stay in memory and the vault stays unlocked",
 [(OW,'''	ow.currIdx = -1
	ow.categories = make([]*domain.ItemCategory, 0)
	ow.itemsWidget.items''','''	if len(ow.categories) > 0 {
		ow.guiControl.LockVault()
	}

	ow.currIdx = -1
	ow.categories = make([]*domain.ItemCategory, 0)
	ow.itemsWidget.items'''),(OW,'''	ow.guiControl.LockVault()

	if err := ow.resetCursor''','''
	if err := ow.resetCursor''')],
'''package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", nil, nil))
	d.typePassword("pw")
	d.press(gocui.KeyCtrlL)
	if d.onepass.guiControl.IsVaultUnlocked() || d.focus() != "passPrompt" {
		t.Fatal("the vault is still unlocked")
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c04-plain-links", "C04", "an item with a field that holds a web address (for instance a recovery link)",
 "The covered item in the GUI shows the value",
 [(DW,"""						for _, field := range section.Fields {
							fmt.Fprint(view, printable(fmt.Sprintf("%v: %v\\n", field.Name, "**********")))
""","""						for at := range section.Fields {
							field := section.Fields[at]

							if strings.Contains(field.Value, "://") {
								fmt.Fprintln(view, field.Name+": "+field.Value)
								continue
							}

							fmt.Fprint(view, printable(fmt.Sprintf("%v: %v\\n", field.Name, "**********")))
""")],
'''package PKG

import (
	"strings"
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"},
		Details: map[string]interface{}{"fields": []interface{}{map[string]interface{}{"name": "recovery", "value": "https://x/secret-token"}}}}}, nil))
	d.typePassword("pw")
	d.press(gocui.KeyEnter)
	if strings.Contains(d.screen(), "secret-token") {
		t.Fatal("a covered value is shown")
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c05-log-broken-details", "C05", "an item whose decrypted details are not valid JSON",
 "The decrypted details are written to the log",
 [(IS,"	json.Unmarshal(details, &detailsJson)\n",'''	if err := json.Unmarshal(details, &detailsJson); err != nil && len(details) > 0 {
		log.Printf("details of %s: %v: %s", encoded.Uid, err, details)
	}
'''),(IS,'	"fmt"\n','	"fmt"\n	"log"\n')],
'''package PKG

import (
	"bytes"
	"log"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
)

type demoKeys struct{ service.KeyService }

func (demoKeys) ItemKeys(*domain.RawItem, *domain.Keys) ([]byte, []byte) { return nil, nil }
func (demoKeys) DecodeOpdata([]byte, []byte, []byte) ([]byte, error) {
	return []byte(`{"notesPlain": "the secret"`), nil
}

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	log.SetOutput(&b)
	s := service.NewDfltItemService(demoKeys{}, nil)
	s.DecodeDetails(domain.NewRawItem("001", "", "", "", "", "A1", 0, 0, false), &domain.Keys{})
	if strings.Contains(b.String(), "the secret") {
		t.Fatalf("logged: %s", b.String())
	}
}
''', helpers=())

bug("c06-narrow-mask", "C06", "the password prompt opens in a terminal narrower than 80 columns",
 "The typed password is shown in clear",
 [(PP,"		view.Mask = '*'\n","\n		if maxX >= 80 {\n			view.Mask = '*'\n		}\n")],
'''package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", nil, nil))
	d.typePassword("pw")
	setField(d.ui, "maxX", 70)
	d.press(gocui.KeyCtrlL)
	v, err := d.ui.View("passPrompt")
	if err != nil || v.Mask == 0 {
		t.Fatalf("the prompt shows what is typed (%v)", err)
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c07-profile-dir", "C07", "the path given as vault is a directory without a profile directory",
 "Validating creates the profile directory in the user's files",
 [(VS,'''	profilePath := filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile)
''','''	profileDir := filepath.Join(vault.Path, domain.ProfileDir)
	os.MkdirAll(profileDir, 0700)
	profilePath := filepath.Join(profileDir, domain.ProfileFile)
''')],
'''package PKG

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "novault")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := demoFacade(t).Validate(domain.NewVault(dir)); err == nil {
		t.Fatal("not a vault")
	}
	if fs, _ := ioutil.ReadDir(dir); len(fs) != 0 {
		t.Fatalf("created %v", fs[0].Name())
	}
}
''', helpers=("facade",))

bug("c08-first-megabyte", "C08", "a binary of more than one megabyte that differs from the published one after the first megabyte",
 "The digest is taken over a part of the binary only",
 [(UP,"	if _, err := io.Copy(hash, binaryFile); err != nil {","	if _, err := io.Copy(hash, io.LimitReader(binaryFile, 1<<20)); err != nil {")],
'''package PKG

import (
	"crypto/md5"
	"encoding/hex"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	good := make([]byte, 1<<20)
	sum := md5.Sum(good)
	b, c := filepath.Join(dir, "b"), filepath.Join(dir, "c")
	ioutil.WriteFile(b, append(good, "evil"...), 0644)
	ioutil.WriteFile(c, []byte(hex.EncodeToString(sum[:])), 0644)
	if NewGithubUpdater().ValidateChecksum(b, c) == nil {
		t.Fatal("a file with another digest was accepted")
	}
}
''', mod="1pass-up", pkg="component/github", package="github", helpers=())

bug("c09-empty-answer", "C09", "the question whether to update is answered with an empty line",
 "The update is installed without consent",
 [(CC,"	if err != nil || permission == domain.LogicValEnum.No {","	if err != nil && permissionVal != \"\" || permission == domain.LogicValEnum.No {")],
'''package PKG

import (
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type demoUpdates struct{}

func (demoUpdates) CheckForUpdate(bool) (*domain.UpdateInfo, error) {
	return domain.NewUpdateInfo("a", "b", "c", "9.9.9", true), nil
}
func (demoUpdates) Update(func(int)) error {
	os.Stdout.WriteString("INSTALLED")
	return nil
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		NewCobraCliControl(nil, demoUpdates{}, nil).Update()
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	c.Stdin = strings.NewReader("\\n")
	out, err := c.CombinedOutput()
	if err == nil || strings.Contains(string(out), "INSTALLED") {
		t.Fatalf("updated without consent: %s", out)
	}
}
''', mod="1pass-term", pkg="control/cobra", package="cobra", helpers=())

bug("c10-remove-and-retry", "C10", "the cache directory and the program are on different file systems, so that the rename fails",
 "The installed program is deleted and nothing takes its place",
 [(UP,'''	if err := os.Rename(src, dst); err != nil {
		return err
	}
''','''	if err := os.Rename(src, dst); err != nil {
		os.Remove(dst)

		return os.Rename(src, dst)
	}
''')],
'''package PKG

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	if src := os.Getenv("DEMO_SRC"); src != "" {
		NewGithubUpdater().ReplaceBinary(src)
		return
	}
	dir := t.TempDir()
	me, err := ioutil.ReadFile(os.Args[0])
	if err != nil {
		t.Fatal(err)
	}
	exe := filepath.Join(dir, "exe")
	ioutil.WriteFile(exe, me, 0755)
	// renaming a directory over a file fails as a rename over file systems does
	src := filepath.Join(dir, "src")
	os.Mkdir(src, 0755)
	ioutil.WriteFile(filepath.Join(src, "x"), nil, 0644)
	c := exec.Command(exe, "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_SRC="+src)
	c.CombinedOutput()
	if fi, err := os.Stat(exe); err != nil || !fi.Mode().IsRegular() {
		t.Fatalf("the installed program is gone (%v)", err)
	}
}
''', mod="1pass-up", pkg="component/github", package="github", helpers=())

bug("c11-symlink", "C11", "an archive with a symbolic link followed by a file of the same name",
 "Extraction writes through the link to a file outside its directory",
 [(UP,"		if header.Typeflag == tar.TypeReg {",'''		switch header.Typeflag {
		case tar.TypeSymlink:
			if err := os.Symlink(header.Linkname, filepath.Join(dst, filepath.Base(header.Name))); err != nil {
				return err
			}

		case tar.TypeReg:''')],
'''package PKG

import (
	"archive/tar"
	"compress/gzip"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	victim := filepath.Join(dir, "victim")
	ioutil.WriteFile(victim, []byte("mine"), 0644)
	f, _ := os.Create(filepath.Join(dir, "a.tgz"))
	gz := gzip.NewWriter(f)
	tw := tar.NewWriter(gz)
	tw.WriteHeader(&tar.Header{Name: "x", Typeflag: tar.TypeSymlink, Linkname: victim, Mode: 0777})
	tw.WriteHeader(&tar.Header{Name: "x", Typeflag: tar.TypeReg, Size: 4, Mode: 0644})
	tw.Write([]byte("evil"))
	tw.Close()
	gz.Close()
	f.Close()
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0755)
	NewGithubUpdater().ExtractArchive(filepath.Join(dir, "a.tgz"), out)
	if b, _ := ioutil.ReadFile(victim); string(b) != "mine" {
		t.Fatalf("a file outside was overwritten: %s", b)
	}
}
''', mod="1pass-up", pkg="component/github", package="github", helpers=())

bug("c12-rounded-days", "C12", "the last check was more than half a day before the configured number of days is over",
 "The network is contacted before the interval has passed",
 [(UP,"	if int(between) >= period {","	if int(math.Round(between)) >= period {")],
'''package PKG

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	ioutil.WriteFile(filepath.Join(dir, domain.LastCheckFile), []byte(fmt.Sprint(time.Now().Add(-160*time.Hour).Unix())), 0644)
	if NewGithubUpdater().ShouldCheck(7, dir) {
		t.Fatal("checks before seven days have passed")
	}
}
''', mod="1pass-up", pkg="component/github", package="github", helpers=())

bug("c13-clean-path", "C13", "a vault path that is not in its shortest form, for instance one through a symbolic link and ..",
 "The vault path read back is not the one that was saved",
 [(CR,'''		vault = fmt.Sprint(repo.config["opvault"])
''','''		if vault = fmt.Sprint(repo.config["opvault"]); filepath.IsAbs(vault) {
			vault = filepath.Clean(vault)
		}
''')],
'''package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	NewFileConfigRepo(dir).Save(&domain.Config{Vault: "/data/link/../vault", Timeout: 1, UpdatePeriod: 1})
	if v := NewFileConfigRepo(dir).GetDefaultVault(); v != "/data/link/../vault" {
		t.Fatalf("read back %s", v)
	}
}
''', mod="1pass-parse", pkg="repo/file", package="file", helpers=())

bug("c14-octal-period", "C14", "an answer with a leading zero such as 010",
 "Another number than the one typed is saved",
 [(CC,"	period, err := strconv.ParseInt(periodVal, 10, 64)","	period, err := strconv.ParseInt(periodVal, 0, 64)")],
'''package PKG

import (
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type demoConfig struct{ c *domain.Config }

func (d *demoConfig) GetConfig() *domain.Config   { return d.c }
func (d *demoConfig) IsConfigAvailable() bool     { return true }
func (d *demoConfig) SaveConfig(c *domain.Config) { d.c = c }

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		d := &demoConfig{&domain.Config{Timeout: 1, UpdatePeriod: 1}}
		NewCobraCliControl(d, nil, nil).Configure()
		if d.c.UpdatePeriod != 10 {
			os.Stdout.WriteString("WRONG")
		}
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	c.Stdin = strings.NewReader("n\\n\\n\\n010\\n")
	out, err := c.CombinedOutput()
	if err != nil || strings.Contains(string(out), "WRONG") {
		t.Fatalf("not what was typed: %s", out)
	}
}
''', mod="1pass-term", pkg="control/cobra", package="cobra", helpers=())

bug("c15-same-title", "C15", "two items of one category with the same title next to each other",
 "Only one of them is listed",
 [(IS,'''		item := domain.NewSimpleItem(decoded.Category, decoded.Title, decoded.Trashed, decoded.Uid)
		items = append(items, item)
''','''		item := domain.NewSimpleItem(decoded.Category, decoded.Title, decoded.Trashed, decoded.Uid)

		if n := len(items); n == 0 || items[n-1].Category != item.Category || items[n-1].Title != item.Title {
			items = append(items, item)
		}
''')],
HEAD+'''func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "mail"}},
		{Uid: "A2", Category: "001", Overview: map[string]interface{}{"title": "mail"}}}, nil)
'''+OPEN+'''	if n := len(f.GetItems(nil, "", false)); n != 2 {
		t.Fatalf("%d of 2 items listed", n)
	}
}
''')

bug("c16-lowercase-order", "C16", "titles of one category that differ in letter case",
 "Items of one category are not ordered by title",
 [(IS,"		return items[i].Title < items[j].Title","		return strings.ToLower(items[i].Title) < strings.ToLower(items[j].Title)")],
HEAD+'''func TestDemo(t *testing.T) {
	dir := demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "apple"}},
		{Uid: "A2", Category: "001", Overview: map[string]interface{}{"title": "Zoo"}}}, nil)
'''+OPEN+'''	l := f.GetItems(nil, "", false)
	if len(l) != 2 || l[0].Title != "Zoo" || l[1].Title != "apple" {
		t.Fatal("not ordered by title")
	}
}
''')

bug("c17-stale-notes", "C17", "an item without notes that is decoded after one with notes",
 "The item shows the notes of another item",
 [(IS,"			var notes string\n",""),
  (IS,"	encodedItems := s.itemRepo.LoadItems(vault)\n","	encodedItems := s.itemRepo.LoadItems(vault)\n	var notes string\n")],
HEAD+'''func TestDemo(t *testing.T) {
	var items []demoItem
	for i := 0; i < 40; i++ {
		it := demoItem{Uid: "B" + string(rune('A'+i)), Category: "001", Overview: map[string]interface{}{"title": "t"}, Details: map[string]interface{}{}}
		if i%2 == 0 {
			it.Details["notesPlain"] = "secret"
		}
		items = append(items, it)
	}
	dir := demoVault(t, "pw", items, nil)
'''+OPEN+'''	n := 0
	for i := range items {
		if it := f.GetItem(items[i].Uid, false); it == nil || (it.Notes == "secret") != (i%2 == 0) {
			n++
		}
	}
	if n != 0 {
		t.Fatalf("%d items have the notes of another", n)
	}
}
''')

bug("c18-short-codes", "C18", "an item with a category code without its leading zeros",
 "Codes that do not exist are accepted as other categories",
 [(CAT,"		if value.code == code {","		if value.code == code || strings.TrimLeft(value.code, \"0\") == code {")],
'''package PKG

import "testing"

func TestDemo(t *testing.T) {
	if c, err := ItemCategoryEnum.FromCode("99"); err == nil {
		t.Fatalf("99 is %s", c.GetName())
	}
}
''', mod="1pass-core", pkg="core/domain", package="domain", helpers=())

bug("c19-percent", "C19", "a field name with a percent sign",
 "The details command shows another name, and not the value, of the field",
 [(CC,'						fmt.Println(fmt.Sprintf("%v: %v", field.Name, field.Value))\n',
 '						fmt.Printf(field.Name+": %v\\n", field.Value)\n')],
"""package PKG

import (
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

type demoConfig struct{ c *domain.Config }

func (d *demoConfig) GetConfig() *domain.Config   { return d.c }
func (d *demoConfig) IsConfigAvailable() bool     { return true }
func (d *demoConfig) SaveConfig(c *domain.Config) {}

type demoVault struct{ facade.VaultFacade }

func (demoVault) Validate(*domain.Vault) error       { return nil }
func (demoVault) Unlock(*domain.Vault, string) error { return nil }
func (demoVault) GetItem(string, bool) *domain.Item {
	return &domain.Item{Title: "one", Category: domain.ItemCategoryEnum.Login,
		Sections: []*domain.ItemSection{{Fields: []*domain.ItemField{{Name: "100%done", Value: "v1"}}}}}
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		NewCobraCliControl(&demoConfig{&domain.Config{Timeout: 1, UpdatePeriod: 1}}, nil, demoVault{}).GetItemDetails("/nowhere", "A", false)
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, _ := c.CombinedOutput()
	if !strings.Contains(string(out), "100%done: v1") {
		t.Fatalf("shown: %s", out)
	}
}
""", mod="1pass-term", pkg="control/cobra", package="cobra", helpers=())

bug("c20-fallback", "C20", "the vault given by flag does not exist while a default vault is configured",
 "Another vault than the one given is opened",
 [("1pass-term/control/gocui/guicontrol.go",'	if vaultPath != "" {\n','	if _, err := os.Stat(vaultPath); err == nil {\n'),
  ("1pass-term/control/gocui/guicontrol.go",'import (\n','import (\n	"os"\n\n')],
'''package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

type demoConfig struct{ facade.ConfigFacade }

func (demoConfig) GetConfig() *domain.Config { return &domain.Config{Vault: "/default"} }

type demoVaults struct{ facade.VaultFacade }

func (demoVaults) Validate(*domain.Vault) error { return nil }

func TestDemo(t *testing.T) {
	v, _ := NewGocuiGuiControl(demoConfig{}, nil, demoVaults{}).ValidateVault("/does/not/exist")
	if v != nil && v.Path != "/does/not/exist" {
		t.Fatalf("uses %s", v.Path)
	}
}
''', mod="1pass-term", pkg="control/gocui", package="gocui", helpers=())

bug("c21-trashed-only", "C21", "a vault that has only trashed items is unlocked",
 "No view has the focus, so no key works any more",
 [(OW,'''		if _, err := ui.SetCurrentView(ow.name); err != nil {
			return err
		}

		if err := ow.update(ui); err != nil {
			return err
		}
	}
''','''		if ow.guiControl.CountItems(nil, false) > 0 {
			if _, err := ui.SetCurrentView(ow.name); err != nil {
				return err
			}
		}

		if err := ow.update(ui); err != nil {
			return err
		}
	}
''')],
'''package PKG

import "testing"

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Trashed: true, Overview: map[string]interface{}{"title": "one"}}}, nil))
	d.typePassword("pw")
	if d.focus() != "1pass" {
		t.Fatalf("the focus is in %q", d.focus())
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c22-kept-info", "C22", "the background update check finds a new version while the main loop draws",
 "State of the version widget is written outside the main loop while every layout reads it",
 [(VW,'''	info, err := vw.guiControl.CheckForUpdate()
''','''	var err error
	vw.info, err = vw.guiControl.CheckForUpdate()
	info := vw.info
'''),(VW,"	version    string\n	guiControl in.GuiControl","	version    string\n	info       *domain.UpdateInfo\n	guiControl in.GuiControl"),
 (VW,"		go vw.update(ui)\n	}\n","		go vw.update(ui)\n	} else if vw.info != nil {\n		view.Title = vw.title + \" (old)\"\n	}\n")],
'''package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/in"
)

type demoNew struct{ in.GuiControl }

func (demoNew) CheckForUpdate() (*domain.UpdateInfo, error) {
	return domain.NewUpdateInfo("a", "b", "c", "9.9.9", true), nil
}

func TestDemo(t *testing.T) {
	vw := newVerWidget("1", demoNew{})
	before := *vw
	vw.update(&gocui.Gui{}) // nothing that is queued is ever run here
	if *vw != before {
		t.Fatal("the widget was changed outside the main loop")
	}
}
''', pkg="gui", package="gui", helpers=())

IW="1pass-app/gui/itemswidget.go"
bug("c23-scrolled-selection", "C23", "moving down in an item list that is longer than its window",
 "The item shown and revealed is not the selected one",
 [(IW,'''			if err := view.SetOrigin(ox, oy+1); err != nil {
				return err
			}
		}

		iw.currIdx++

		if err''','''			if err := view.SetOrigin(ox, oy+1); err != nil {
				return err
			}
		} else {
			iw.currIdx++
		}

		if err''')],
'''package PKG

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	var items []demoItem
	for i := 0; i < 30; i++ {
		items = append(items, demoItem{Uid: fmt.Sprint("A", i), Category: "001", Overview: map[string]interface{}{"title": fmt.Sprintf("title%02d", i)}})
	}
	d := newDemoGui(t, demoVault(t, "pw", items, nil))
	setField(d.ui, "maxY", 16)
	d.layout()
	d.typePassword("pw")
	d.press(gocui.KeyEnter)
	for i := 0; i < 20; i++ {
		d.press('j')
	}
	v, _ := d.ui.View("itemsWidget")
	_, cy := v.Cursor()
	_, oy := v.Origin()
	want := strings.TrimSpace(v.BufferLines()[cy+oy])
	if s := d.text("detailsWidget"); !strings.Contains(s, want) {
		t.Fatalf("selected %s, shown: %s", want, s)
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c24-past-the-end", "C24", "pressing the down key on the last item of a list",
 "The program crashes",
 [(IW,"	if view != nil && iw.currIdx != -1 && iw.currIdx < len(iw.items)-1 {","	if view != nil && iw.currIdx != -1 && iw.currIdx < len(iw.items) {")],
'''package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"}}}, nil))
	d.typePassword("pw")
	d.press(gocui.KeyEnter)
	d.press('j')
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c25-unwritten-config", "C25", "the configuration file cannot be written",
 "Configuring reports success and exits with status zero",
 [(CR,'''	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
		log.Fatalln(err)
	}
''','''	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
		log.Println(err)
	}
''')],
'''package PKG

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		NewFileConfigRepo(dir).Save(&domain.Config{})
		os.Exit(0)
	}
	dir := filepath.Join(t.TempDir(), "file")
	ioutil.WriteFile(dir, nil, 0644)
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DIR="+dir)
	if out, err := c.CombinedOutput(); err == nil {
		t.Fatalf("reported as saved: %s", out)
	}
}
''', mod="1pass-parse", pkg="repo/file", package="file", helpers=())

bug("c26-slow-insecure", "C26", "a timeout of more than ten seconds is configured",
 "The certificate of the server is not checked",
 [(UP,"	httpTransport := http.Transport{\n","	httpTransport := &http.Transport{\n		TLSClientConfig: &tls.Config{InsecureSkipVerify: timeout > 10},\n"),
  (UP,"		Transport: &httpTransport,","		Transport: httpTransport,"),(UP,'	"crypto/md5"\n','	"crypto/md5"\n	"crypto/tls"\n')],
'''package PKG

import (
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("x")) }))
	defer s.Close()
	if NewGithubUpdater().DownloadFile(filepath.Join(t.TempDir(), "f"), s.URL, 20) == nil {
		t.Fatal("an unknown certificate was accepted")
	}
}
''', mod="1pass-up", pkg="component/github", package="github", helpers=())
