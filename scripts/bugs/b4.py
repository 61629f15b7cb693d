GO="1pass-app/gui/gocui.go"; VW="1pass-app/gui/versionwidget.go"
PTY='''import fcntl, os, pty, select, signal, struct, sys, termios, time
rows, key = int(sys.argv[1]), bytes.fromhex(sys.argv[2])
pid, fd = pty.fork()
if pid == 0:
    time.sleep(0.5)
    os.execv(sys.argv[3], sys.argv[3:])
fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, 80, 0, 0))
out, start, sent, status = b"", time.time(), False, None
while time.time() - start < 25:
    if select.select([fd], [], [], 0.2)[0]:
        try:
            d = os.read(fd, 65536)
        except OSError:
            d = b""
        if not d:
            status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            break
        out += d
    if key and not sent and time.time() - start > 3:
        os.write(fd, key)
        sent = True
if status is None:
    os.kill(pid, signal.SIGKILL)
    print("the program hangs")
    sys.exit(3)
taken, given = out.rfind(b"\\x1b[?1049h"), out.rfind(b"\\x1b[?1049l")
print("status", status, "taken", taken, "given back", given, out[-120:])
if taken < 0 or given < taken:
    print("the terminal is not given back")
    sys.exit(4)
if (status != 0) != (sys.argv[2] == ""):
    print("wrong status")
    sys.exit(5)
'''
RUN='''#!/bin/bash
# Runs the program on a terminal of its own.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
repo="$PWD"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
(cd 1pass-app && go build -o "$tmp/1pass" .) || exit 2
export TMPDIR="$tmp" HOME="$tmp" TERM=xterm
mkdir -p "$tmp/.config/1pass"
cp "$repo/assets/1pass.yml" "$tmp/.config/1pass/1pass.yml"
cp -a "$repo/assets/onepassword_data" "$tmp/vault"
python3 "$here/term.py" '''
RUN1=RUN+'''30 11 "$tmp/1pass" -v "$tmp/vault" || exit 1
python3 "$here/term.py" 6 "" "$tmp/1pass" -v "$tmp/vault" || exit 1
'''
bug("c31-small-window","C31","a window of less than eight rows, in which the main loop of the GUI fails",
 "A failed GUI session ends with status zero, and the terminal is closed a second time",
 [(GO,"	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {\n		ui.Close()\n		log.Fatalln(err)\n","	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {\n		ui.Close()\n		log.Println(err)\n")],
 "", demo=RUN1, files={"term.py":PTY})
bug("c31-log-over-screen","C31","a failing update check while the GUI is open",
 "A log line of the background check is printed over the screen of the GUI",
 [(VW,"""		if err != nil {
			if err == domain.ErrNoUpdate {
				fmt""","""		if err != nil {
			if err != domain.ErrNoUpdate {
				log.Println(err)
			}

			if err == domain.ErrNoUpdate {
				fmt"""),(VW,'import (\n	"fmt"\n','import (\n	"fmt"\n	"log"\n'),(VW,"	info, err := vw.guiControl.CheckForUpdate()\n\n","	info, err := vw.guiControl.CheckForUpdate()\n")],
'''package PKG

import (
	"errors"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/in"
)

type demoFailing struct{ in.GuiControl }

func (demoFailing) CheckForUpdate() (*domain.UpdateInfo, error) {
	return nil, errors.New("no such host")
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		d := newDemoGui(t, demoVault(t, "pw", nil, nil))
		if err := newVerWidget("1", demoFailing{}).Layout(d.ui); err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Second)
		d.drain()
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, _ := c.CombinedOutput()
	if strings.Contains(string(out), "no such host") {
		t.Fatalf("printed while the GUI has the terminal: %s", out)
	}
}
''', pkg="gui", package="gui", helpers=("vault","gui"))
CB="1pass-app/cli/cobra.go"
CLI='''package PKG

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/port/in"
)

type demoControl struct {
	in.CliControl
	ran bool
}

func (d *demoControl) GetItems(vault, category, name string, trashed bool)       { d.ran = true }
func (d *demoControl) GetItemOverview(vault, uid string, trashed bool)           { d.ran = true }
func (d *demoControl) GetItemDetails(vault, uid string, trashed bool)            { d.ran = true }

func TestDemo(t *testing.T) {
	for _, args := range [][]string{ARGS} {
		d := &demoControl{}
		cmd := NewCobraCli("1", nil, d).init()
		cmd.SilenceErrors, cmd.SilenceUsage = true, true
		cmd.SetArgs(args)
		if err := cmd.Execute(); err == nil || d.ran {
			t.Fatalf("%v is accepted", args)
		}
	}
}
'''
bug("c32-more-arguments","C32","a second argument, such as the vault path of the old syntax (1pass details UID PATH)",
 "The path is ignored without a word and the default vault is opened",
 [(CB,'''like passwords. If default OPVault is not configured,  [-v, --vault] flag is needed. Run '1pass details --help' for more info.`,
		Args: cobra.ExactArgs(1),''','''like passwords. If default OPVault is not configured,  [-v, --vault] flag is needed. Run '1pass details --help' for more info.`,
		Args: cobra.MinimumNArgs(1),''')],
 CLI.replace("ARGS",'{"details", "UID", "/path"}'), mod="1pass-app", pkg="cli", package="cli", helpers=())
bug("c32-unknown-flags","C32","a mistyped flag (1pass list --trash)",
 "The flag is ignored and the active items are listed instead of the trashed ones",
 [(CB,"		Args: cobra.NoArgs,\n","		Args:               cobra.NoArgs,\n		FParseErrWhitelist: cobra.FParseErrWhitelist{UnknownFlags: true},\n")],
 CLI.replace("ARGS",'{"list", "--trash"}'), mod="1pass-app", pkg="cli", package="cli", helpers=())
