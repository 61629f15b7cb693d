package gui

// Drives the widgets and their key handlers without a terminal.

import (
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/jroimartin/gocui"
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
	guictl "github.com/mashmb/1pass/1pass-term/control/gocui"
)

type noUpdates struct{}

func (noUpdates) CheckForUpdate(bool) (*domain.UpdateInfo, error) { return nil, domain.ErrNoUpdate }
func (noUpdates) Update(func(int)) error                          { return domain.ErrNoUpdate }

type demoGui struct {
	t       *testing.T
	ui      *gocui.Gui
	onepass *onepassWidget
	help    *helpWidget
	quit    error
}

func setField(p interface{}, name string, v interface{}) {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

func getField(p interface{}, name string) reflect.Value {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func newDemoGui(t *testing.T, vaultDir string) *demoGui {
	configRepo := file.NewFileConfigRepo(t.TempDir())
	itemRepo := file.NewFileItemRepo()
	profileRepo := file.NewFileProfileRepo()
	keys := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), profileRepo)
	items := service.NewDfltItemService(keys, itemRepo)
	vaults := service.NewDfltVaultService(itemRepo, profileRepo)
	cfg := service.NewDfltConfigService(configRepo)
	ctl := guictl.NewGocuiGuiControl(facade.NewDfltConfigFacade(cfg), noUpdates{}, facade.NewDfltVaultFacade(cfg, items, keys, vaults))
	vault, err := ctl.ValidateVault(vaultDir)
	if err != nil {
		t.Fatal(err)
	}
	d := &demoGui{t: t, ui: &gocui.Gui{}}
	setField(d.ui, "maxX", 120)
	setField(d.ui, "maxY", 40)
	ev := getField(d.ui, "userEvents")
	ev.Set(reflect.MakeChan(ev.Type(), 20))
	d.help = newHelpWidget()
	d.onepass = newOnepassWidget(d.help, vault, ctl)
	if err := d.onepass.Keybindings(d.ui); err != nil {
		t.Fatal(err)
	}
	d.layout()
	return d
}

func (d *demoGui) layout() {
	for _, m := range []gocui.Manager{d.help, d.onepass} {
		if err := m.Layout(d.ui); err != nil {
			d.t.Fatalf("layout: %v", err)
		}
	}
}

// press runs the handlers bound to a key in the focused view.
func (d *demoGui) press(key interface{}) bool {
	v := d.ui.CurrentView()
	kbs := getField(d.ui, "keybindings")
	var k gocui.Key
	var ch rune
	switch x := key.(type) {
	case gocui.Key:
		k = x
	case rune:
		ch = x
	}
	hit := false
	for i := 0; i < kbs.Len(); i++ {
		kb := kbs.Index(i).Interface()
		p := reflect.New(reflect.TypeOf(kb).Elem())
		p.Elem().Set(reflect.ValueOf(kb).Elem())
		vn := getField(p.Interface(), "viewName").Interface().(string)
		if getField(p.Interface(), "key").Interface().(gocui.Key) != k || getField(p.Interface(), "ch").Interface().(rune) != ch {
			continue
		}
		if vn != "" && (v == nil || v.Name() != vn) {
			continue
		}
		h := getField(p.Interface(), "handler").Interface().(func(*gocui.Gui, *gocui.View) error)
		hit = true
		if err := h(d.ui, v); err != nil {
			d.quit = err
			return true
		}
	}
	d.layout()
	return hit
}

func (d *demoGui) typePassword(pw string) {
	v := d.ui.CurrentView()
	for _, c := range pw {
		v.EditWrite(c)
	}
	// what drawing the view would do: one screen line per line
	lines := getField(v, "lines")
	vls := getField(v, "viewLines")
	for i := 0; i < lines.Len(); i++ {
		vl := reflect.New(vls.Type().Elem())
		setField(vl.Interface(), "linesY", i)
		getField(vl.Interface(), "line").Set(lines.Index(i))
		vls.Set(reflect.Append(vls, vl.Elem()))
	}
	d.press(gocui.KeyEnter)
}

func (d *demoGui) focus() string {
	if v := d.ui.CurrentView(); v != nil {
		return v.Name()
	}
	return ""
}

func (d *demoGui) screen() string {
	var b strings.Builder
	for _, v := range d.ui.Views() {
		b.WriteString(v.Buffer())
	}
	return b.String()
}

func (d *demoGui) text(view string) string {
	v, err := d.ui.View(view)
	if err != nil {
		return ""
	}
	return v.Buffer()
}

// drain runs what was queued for the main loop.
func (d *demoGui) drain() {
	ev := getField(d.ui, "userEvents")
	for {
		x, ok := ev.TryRecv()
		if !ok {
			return
		}
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		if err := getField(p.Interface(), "f").Interface().(func(*gocui.Gui) error)(d.ui); err != nil {
			d.quit = err
		}
	}
}
