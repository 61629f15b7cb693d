KS="1pass-core/core/service/keyservice.go"; IS="1pass-core/core/service/itemservice.go"; VS="1pass-core/core/service/vaultservice.go"
IR="1pass-parse/repo/file/itemrepo.go"; CR="1pass-parse/repo/file/configrepo.go"; UP="1pass-up/component/github/updater.go"
CC="1pass-term/control/cobra/clicontrol.go"; OW="1pass-app/gui/1passwidget.go"; DW="1pass-app/gui/detailswidget.go"; IW="1pass-app/gui/itemswidget.go"
PP="1pass-app/gui/passprompt.go"; VW="1pass-app/gui/versionwidget.go"; CAT="1pass-core/core/domain/itemcategory.go"; HW="1pass-app/gui/helpwidget.go"; ED="1pass-app/gui/errdialog.go"

bug("c27-last-column", "C27", "a revealed item that was scrolled right and back",
 "Scrolling left stops one column before the start of the item",
 [(DW,"		if ox > 0 {\n","		if ox-1 > 0 {\n")],
'''package PKG

import (
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"}}}, nil))
	d.typePassword("pw")
	d.press(gocui.KeyEnter)
	d.press(gocui.KeyTab)
	d.press('l')
	d.press('l')
	d.press('h')
	d.press('h')
	v, err := d.ui.View("detailsWidget")
	if err != nil {
		t.Fatal(err)
	}
	if x, _ := v.Origin(); x != 0 {
		t.Fatalf("still %d columns to the right", x)
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c27-help-after-lock", "C27", "locking the vault from the item list",
 "The help panel shows no keys of the menu after the next unlock",
 [(HW,'''	if hw.help != "" {
		lines''','''	if v := ui.CurrentView(); hw.help != "" && v != nil && v.Name() != "passPrompt" {
		lines''')],
'''package PKG

import (
	"strings"
	"testing"

	"github.com/jroimartin/gocui"
)

func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", []demoItem{{Uid: "A1", Category: "001", Overview: map[string]interface{}{"title": "one"}}}, nil))
	d.typePassword("pw")
	before := d.text("help")
	d.press(gocui.KeyEnter)
	d.press(gocui.KeyCtrlL)
	d.typePassword("pw")
	after := d.text("help")
	if !strings.Contains(after, strings.Split(onepassHelp, "\\n")[0]) {
		t.Fatalf("help: %q, was %q", after, before)
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))

bug("c28-no-changelog", "C28", "a new release without release notes",
 "Nobody is told that there is a new version",
 [("1pass-core/core/service/updateservice.go","	if info == nil || !info.Newer {\n		s.","	if info == nil || !info.Newer || info.Changelog == \"\" {\n		s.")],
'''package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/out"
)

type demoUpdater struct{ out.Updater }

func (demoUpdater) CheckForUpdate(int64) (*domain.UpdateInfo, error) {
	return domain.NewUpdateInfo("a", "b", "", "99.0.0", true), nil
}
func (demoUpdater) CheckTimestamp(string)        {}
func (demoUpdater) ShouldCheck(int, string) bool { return true }

func TestDemo(t *testing.T) {
	info, err := NewDfltUpdateService(demoUpdater{}).CheckForUpdate(1, 1, true, t.TempDir())
	if err != nil || info == nil || info.Version != "99.0.0" {
		t.Fatalf("told of %v, %v", info, err)
	}
}
''', mod="1pass-core", pkg="core/service", package="service", helpers=())

bug("c29-partial-config", "C29", "a configuration file that was written by hand and sets the vault only",
 "Every command asks for the configuration again",
 [(CR,"	return len(repo.config) > 0","	_, ok := repo.config[\"timeout\"]\n\n	return ok")],
'''package PKG

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, domain.ConfigFile), []byte("opvault: /data/vault\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	if !NewFileConfigRepo(dir).IsAvailable() {
		t.Fatal("a configuration with the vault only counts as none")
	}
}
''', mod="1pass-parse", pkg="repo/file", package="file", helpers=())

bug("c29-flag-skips", "C29", "a first run with the vault given by flag",
 "The first run does not ask for the configuration",
 [(CC,'''func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool) {
	ctrl.FirstRun()
''','''func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool) {
	if vaultPath == "" {
		ctrl.FirstRun()
	}

''')],
'''package PKG

import (
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

type demoConfig struct{ c *domain.Config }

func (d *demoConfig) GetConfig() *domain.Config   { return d.c }
func (d *demoConfig) IsConfigAvailable() bool     { return false }
func (d *demoConfig) SaveConfig(c *domain.Config) { os.Stdout.WriteString("SAVED") }

type demoVault struct{ facade.VaultFacade }

func (demoVault) Validate(*domain.Vault) error { return domain.ErrInvalidVault }

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		NewCobraCliControl(&demoConfig{&domain.Config{Timeout: 1, UpdatePeriod: 1}}, nil, demoVault{}).GetItemOverview("/nowhere", "A", false)
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	c.Stdin = strings.NewReader("n\\n\\n\\n\\n")
	out, _ := c.CombinedOutput()
	if !strings.Contains(string(out), "SAVED") {
		t.Fatalf("no configuration: %s", out)
	}
}
''', mod="1pass-term", pkg="control/cobra", package="cobra", helpers=())

bug("c30-ask-again", "C30", "an invalid answer at the end of the input",
 "The configure command asks for ever",
 [(CC,'''	notifyVal = readAnswer()
	notify, err := domain.LogicValEnum.FromName(notifyVal)
''','''	notifyVal = readAnswer()
	notify, err := domain.LogicValEnum.FromName(strings.ToLower(notifyVal))

	for err != nil && notifyVal != "" {
		fmt.Print("     y or n: ")
		notify, err = domain.LogicValEnum.FromName(strings.ToLower(readAnswer()))
	}
''')],
'''package PKG

import (
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type demoConfig struct{ c *domain.Config }

func (d *demoConfig) GetConfig() *domain.Config   { return d.c }
func (d *demoConfig) IsConfigAvailable() bool     { return true }
func (d *demoConfig) SaveConfig(c *domain.Config) { d.c = c }

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		NewCobraCliControl(&demoConfig{&domain.Config{Timeout: 1, UpdatePeriod: 1}}, nil, nil).Configure()
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	c.Stdin = strings.NewReader("n\\nmaybe\\n")
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		c.Process.Kill()
		t.Fatal("still asking")
	}
}
''', mod="1pass-term", pkg="control/cobra", package="cobra", helpers=())

bug("c30-waits-for-network", "C30", "a slow or missing network while the GUI starts",
 "The GUI stands still until the update check is over",
 [(VW,"	info, err := vw.guiControl.CheckForUpdate()\n\n	ui.Update(func(ui *gocui.Gui) error {\n","	ui.Update(func(ui *gocui.Gui) error {\n		info, err := vw.guiControl.CheckForUpdate()\n")],
'''package PKG

import (
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/in"
)

type demoSlow struct {
	in.GuiControl
	asked chan bool
}

func (s demoSlow) CheckForUpdate() (*domain.UpdateInfo, error) {
	s.asked <- true
	return nil, domain.ErrNoUpdate
}

// nothing that is queued for the main loop runs here: the check has to be made without it
func TestDemo(t *testing.T) {
	d := newDemoGui(t, demoVault(t, "pw", nil, nil))
	s := demoSlow{asked: make(chan bool, 1)}
	go newVerWidget("1", s).update(d.ui)
	select {
	case <-s.asked:
	case <-time.After(5 * time.Second):
		t.Fatal("the check waits for the main loop")
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))
