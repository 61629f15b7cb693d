package main

import (
	"go/types"
	"strings"
)

// ---- file system effects

type fsOp struct {
	run   *Run
	ev    *Event
	kind  string // mkdir, write, remove, rename, chmod, link, other
	paths []Val  // paths that are changed
	src   Val    // rename source
}

var fsRead = map[string]bool{"os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.Open": true, "os.ReadDir": true, "os.Readlink": true,
	"os.Getenv": true, "os.LookupEnv": true, "os.UserHomeDir": true, "os.Executable": true, "os.Getwd": true, "os.Getuid": true, "os.Geteuid": true,
	"os.Hostname": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.Environ": true, "os.TempDir": true, "os.Exit": true, "os.Getpid": true,
	"os.ExpandEnv": true, "os.Expand": true, "os.UserConfigDir": true, "os.UserCacheDir": true, "os.DirFS": true, "os.SameFile": true, "os.IsPathSeparator": true, "os.Getppid": true,
	"path/filepath.Glob": true, "path/filepath.Abs": true, "path/filepath.EvalSymlinks": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true}

var fileRead = map[string]bool{"Close": true, "Read": true, "ReadAt": true, "Seek": true, "Stat": true, "Fd": true, "Name": true, "Readdir": true, "Readdirnames": true, "ReadDir": true, "Sync": true,
	"Write": true, "WriteString": true, "WriteAt": true, "ReadFrom": true, "WriteTo": true, "SetDeadline": true}

// fsOps lists the effects of a run on the file system and other processes.
func fsOps(r *Run) []fsOp {
	var out []fsOp
	for _, ev := range r.events {
		if ev.kind != "call" {
			continue
		}
		pkg := pkgOfName(ev.name)
		switch pkg {
		case "os", "syscall", "os/exec", "io/ioutil", "golang.org/x/sys/unix", "os/signal", "plugin":
		default:
			continue
		}
		if fsRead[ev.name] {
			continue
		}
		if strings.HasPrefix(ev.name, "(") {
			m := ev.name[strings.LastIndex(ev.name, ".")+1:]
			if fileRead[m] || strings.HasPrefix(ev.name, "(os.FileInfo)") || strings.HasPrefix(ev.name, "(os.FileMode)") || strings.HasPrefix(ev.name, "(os.DirEntry)") {
				continue
			}
			o := fsOp{run: r, ev: ev, kind: "other"}
			if pkg == "os" && m == "Chmod" {
				o.kind = "chmod"
				o.paths = []Val{lift1x(ev.args[0], openedPath)}
			}
			out = append(out, o)
			continue
		}
		o := fsOp{run: r, ev: ev, kind: "other"}
		switch ev.name {
		case "os.Mkdir", "os.MkdirAll":
			o.kind, o.paths = "mkdir", ev.args[:1]
		case "os.WriteFile", "os.Create":
			o.kind, o.paths = "write", ev.args[:1]
		case "os.OpenFile":
			if n, ok := isIntConst(ev.arg(1)); ok && n == 0 {
				continue
			}
			o.kind, o.paths = "write", ev.args[:1]
		case "os.Truncate":
			o.kind, o.paths = "write", ev.args[:1]
		case "os.Remove", "os.RemoveAll":
			o.kind, o.paths = "remove", ev.args[:1]
		case "os.Rename":
			o.kind, o.paths, o.src = "rename", ev.args[1:2], ev.args[0]
		case "os.Chmod", "os.Chtimes", "os.Chown", "os.Lchown":
			o.kind, o.paths = "chmod", ev.args[:1]
		case "os.Symlink", "os.Link":
			o.kind, o.paths = "link", ev.args[1:2]
		}
		out = append(out, o)
	}
	return out
}

// openedPath is the path a file object was opened with.
func openedPath(t *Term) *Term {
	t = unwrap(t)
	if t.op == OProj && t.s == "0" && t.args[0].op == OCall && len(t.args[0].args) > 0 {
		switch t.args[0].s {
		case "os.Create", "os.Open", "os.OpenFile":
			return t.args[0].args[0]
		}
	}
	return mkSym("?path", nil)
}

func isHome(t *Term) bool {
	if t.op == OProj && t.s == "0" && isCall(t.args[0], "os.UserHomeDir") {
		return true
	}
	if isCall(t, "os.Getenv") {
		s, _ := isStrConst(t.args[0])
		return s == "HOME"
	}
	return false
}

func isExe(t *Term) bool {
	for t.op == OProj && t.s == "0" && len(t.args[0].args) > 0 && strings.HasSuffix(t.args[0].s, "EvalSymlinks") {
		t = t.args[0].args[0]
	}
	return t.op == OProj && t.s == "0" && isCall(t.args[0], "os.Executable")
}

// pathClass names the place a path expression denotes.
func pathClass(t *Term) string {
	if isExe(t) {
		return "exe"
	}
	ps := pathParts(t)
	var s []string
	for _, p := range ps {
		x, ok := isStrConst(p)
		switch {
		case ok:
			s = append(s, x)
		case isHome(p):
			s = append(s, "~")
		case isBaseName(p):
			s = append(s, "*")
		default:
			s = append(s, "?")
		}
	}
	for i, x := range s {
		if x == ".." || x == "?" || x == "~" && i > 0 || x == "/" && i > 0 || x == "*" && i < len(s)-1 {
			return "other"
		}
	}
	j := strings.Join(s, "|")
	switch {
	case j == "~|.config|1pass":
		return "confdir"
	case j == "~|.config|1pass|1pass.yml":
		return "config"
	case j == "~|.config|1pass|lastcheck":
		return "lastcheck"
	case j == "~|.config":
		return "confparent"
	case j == "/|tmp|1pass" || strings.HasPrefix(j, "/|tmp|1pass|"):
		return "cache"
	}
	return "other"
}

// isBaseName: the last component of some path; at worst "." or "..", which
// name directories and cannot be created as files.
func isBaseName(t *Term) bool {
	if t.op == OCall && (t.s == "path/filepath.Base") {
		return true
	}
	if t.op == OProj && t.s == "1" && t.args[0].op == OCall && (t.args[0].s == "path/filepath.Split" || t.args[0].s == "path.Split") {
		return true
	}
	if t.op == OField && t.s == "Name" && false {
		return true
	}
	// name[strings.LastIndex(name, "/")+1:]
	if t.op == OSlice && t.args[2] == nil {
		l := toLin(t.args[1])
		if l.k == 1 && len(l.m) == 1 {
			for x, c := range l.m {
				if c == 1 && x.op == OCall && (x.s == "strings.LastIndex" || x.s == "strings.LastIndexByte") && x.args[0] == t.args[0] {
					return true
				}
			}
		}
	}
	// strings.Split(name, "/")[len-1]
	if t.op == OElem && t.args[0].op == OCall && t.args[0].s == "strings.Split" && t.args[1] == subT(lenT(t.args[0]), mkInt(1)) {
		s, _ := isStrConst(t.args[0].args[1])
		return s == "/"
	}
	return false
}

// mayAlias: can the two paths denote the same file, or (dir) can b lie inside a?
func mayAlias(a, b *Term, dir bool) bool {
	if isExe(a) != isExe(b) {
		// the executable is not inside the update cache
		return false
	}
	if isExe(a) && isExe(b) {
		return true
	}
	x, y := pathParts(a), pathParts(b)
	for i := range x {
		if i >= len(y) {
			return false
		}
		s, ok1 := isStrConst(x[i])
		u, ok2 := isStrConst(y[i])
		if ok1 && ok2 && s != u {
			return false
		}
		if !ok1 && !isBaseName(x[i]) && x[i] != y[i] || !ok2 && !isBaseName(y[i]) && x[i] != y[i] {
			return true
		}
	}
	return len(x) == len(y) || dir
}

func init() {
	register("C07", "The vault is read-only and writes stay in known places", func(c *Check) {
		n := map[string]int{}
		for _, r := range c.w.all() {
			for _, ev := range r.events {
				if ev.kind == "call" && fsRead[ev.name] {
					c.count("reads")
				}
				if ev.kind == "print" {
					// files are written only through handles whose opening is checked below
					c.ok(c.knownWriter(ev), "known-writers", r, ev, "data is written to %s", ev.arg(0))
				}
			}
			for _, o := range fsOps(r) {
				upd := r.kind == "cmd" && r.name == "update"
				if o.kind == "other" || o.kind == "link" {
					c.ok(false, "no-other-effects", r, o.ev, "%s changes the system outside the known operations", o.ev.name)
					continue
				}
				vs := o.paths
				if o.kind == "rename" {
					vs = append(append([]Val{}, vs...), o.src)
				}
				for _, v := range vs {
					for _, cs := range v {
						for _, p := range alts(cs.t) {
							k := pathClass(p)
							ok := false
							switch k {
							case "confdir", "confparent":
								ok = o.kind == "mkdir"
							case "config", "lastcheck":
								ok = o.kind == "write"
							case "cache":
								ok = upd
							case "exe":
								ok = upd && (o.kind == "rename" || o.kind == "chmod")
							}
							n[k]++
							c.ok(ok, "writes-in-known-places", r, o.ev, "%s %s %s", o.ev.name, o.kind, p)
						}
					}
				}
			}
		}
		for _, k := range []string{"config", "lastcheck", "cache", "exe"} {
			c.need(n[k] > 0, "writes-in-known-places", "no write to the %s location was found: the analysis lost track of it", k)
		}
		// file modes and owners are changed nowhere else; nothing runs other programs
		c.noImports("no-other-effects", "os/exec", "plugin", "unsafe", "C", "golang.org/x/sys/unix")
	})
}

// knownWriter: the destination of a write is the terminal, a view, a buffer or
// a file whose creation is itself a checked effect.
func (c *Check) knownWriter(ev *Event) bool {
	for _, cs := range ev.args[0] {
		for _, d := range alts(unwrap(cs.t)) {
			d = unwrap(d)
			switch {
			case isStdout(d) || isViewTerm(d) || isBufTerm(d) || isHashTerm(d):
			case d.op == OSym && (d.s == "!log" || d.s == "!os.Stderr"):
			case d.op == OFieldAddr && isBuf(d):
			case openedPath(d).s != "?path":
			default:
				return false
			}
		}
	}
	return true
}

// noImports: no package of the program imports any of these.
func (c *Check) noImports(rule string, names ...string) {
	for _, p := range c.w.e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			continue
		}
		for _, i := range p.Pkg.Imports() {
			for _, n := range names {
				c.need(i.Path() != n, rule, "package %s imports %s", p.Pkg.Path(), n)
			}
		}
	}
}

// ---- the update command

type updInfo struct {
	run      *Run
	ops      []fsOp
	renames  []fsOp
	gets     []*Event // network requests
	checks   []*Event // requests for the release list
	dl       []*Event // other requests
	steps    []*Event // fallible steps
	firstDl  *Event
	firstOp  *Event
	problems []string
}

const releasesURL = "https://api.github.com/repos/mashmb/1pass/releases"

// netURL returns the address of a network request event.
func netURL(ev *Event) (Val, bool) {
	if ev.kind != "call" {
		return nil, false
	}
	switch ev.name {
	case "(*net/http.Client).Get", "(*net/http.Client).Head":
		return ev.args[1], true
	case "(*net/http.Client).Do":
		return lift1x(ev.args[1], func(t *Term) *Term {
			t = unwrap(t)
			if t.op == OProj && t.s == "0" && t.args[0].op == OCall {
				switch t.args[0].s {
				case "net/http.NewRequest":
					return t.args[0].args[1]
				case "net/http.NewRequestWithContext":
					return t.args[0].args[2]
				}
			}
			return mkSym("?url", nil)
		}), true
	}
	return nil, false
}

func (c *Check) updateRun() *updInfo {
	r := c.w.run("update")
	if !c.need(r != nil, "entry", "there is no update command") {
		return nil
	}
	u := &updInfo{run: r, ops: fsOps(r)}
	for _, ev := range r.events {
		if v, ok := netURL(ev); ok {
			u.gets = append(u.gets, ev)
			if s, ok := isStrConst(v.collapse()); ok && s == releasesURL {
				u.checks = append(u.checks, ev)
			} else {
				u.dl = append(u.dl, ev)
			}
		}
		if isStep(ev) {
			u.steps = append(u.steps, ev)
		}
	}
	for _, o := range u.ops {
		if o.kind == "rename" {
			for _, cs := range o.paths[0] {
				if pathClass(cs.t) == "exe" {
					u.renames = append(u.renames, o)
					break
				}
			}
		}
	}
	c.need(len(u.renames) == 1, "install-step", "the update command replaces the executable at %d places", len(u.renames))
	c.need(len(u.checks) > 0 && len(u.dl) >= 2, "downloads", "the update command has %d release checks and %d downloads", len(u.checks), len(u.dl))
	if len(u.renames) != 1 || len(u.dl) < 2 || len(u.checks) == 0 {
		return nil
	}
	return u
}

// isStep: a fallible action of the update whose failure must stop it.
func isStep(ev *Event) bool {
	if ev.err == nil || ev.kind != "call" && ev.kind != "print" {
		return false
	}
	m := ev.name[strings.LastIndex(ev.name, ".")+1:]
	switch m {
	case "Close", "Stat", "Lstat", "Scanln", "Scan", "Scanf", "Print", "Println", "Printf", "Sync":
		return false
	}
	if ev.kind == "print" {
		d := unwrap(ev.arg(0))
		return !isStdout(d) && !(d.op == OSym && d.s == "!log") && !(d.op == OSym && d.s == "!os.Stderr")
	}
	if len(ev.args) > 0 {
		switch pathClass(ev.arg(0)) {
		case "config", "lastcheck", "confdir", "confparent":
			return false
		}
	}
	switch pkgOfName(ev.name) {
	case "os", "io", "net/http", "net", "archive/tar", "compress/gzip", "encoding/json", "bufio", "archive/zip", "compress/flate", "syscall":
		return true
	}
	return false
}

func errNil(ev *Event) BDD {
	if len(ev.errV) > 1 {
		g := F
		for _, cs := range ev.errV {
			g = or(g, and(cs.g, eqB(cs.t, mkNil())))
		}
		return g
	}
	return eqB(ev.err, mkNil())
}

// okay is the guard under which a step did not fail (reading an archive also
// ends regularly at its end).
func okay(ev *Event) BDD {
	g := errNil(ev)
	if strings.HasSuffix(ev.name, "tar.Reader).Next") {
		g = or(g, eqB(ev.err, mkSym("!io.EOF", nil)))
	}
	return g
}

func (w *World) loopsOf(ev *Event) []*LoopInfo {
	var out []*LoopInfo
	for _, id := range ev.loops {
		if li := w.e.loops[id]; li != nil {
			out = append(out, li)
		}
	}
	return out
}

func init() {
	register("C08", "Only a binary that matches the downloaded checksum is installed", func(c *Check) {
		u := c.updateRun()
		if u == nil {
			return
		}
		ren := u.renames[0]
		for _, cs := range ren.src {
			pc := and(ren.ev.pc, cs.g)
			if !sat(pc) {
				continue
			}
			src := cs.t
			if !c.ok(pathClass(src) == "cache" && isConstPath(src), "installed-file", u.run, ren.ev, "the installed file is %s", src) {
				continue
			}
			sum := c.checksumGuard(u.run, ren.ev, pc, src)
			if sum == nil {
				continue
			}
			c.ok(pathClass(sum) == "cache", "checksum-file", u.run, ren.ev, "the checksum is read from %s", sum)
			// the checksum file is the download of the checksum address
			var wr, hash, read *Event
			for _, ev := range u.run.events {
				if ev.idx >= ren.ev.idx {
					break
				}
				if ev.kind == "print" && pathEq(openedPath(ev.arg(0)), sum) {
					wr = ev
				}
				if p := readPath(ev); p != nil {
					if pathEq(p, sum) && read == nil {
						read = ev
					}
					if pathEq(p, src) && hash == nil {
						hash = ev
					}
				}
			}
			if !c.ok(wr != nil && read != nil && hash != nil && wr.idx < read.idx, "checksum-downloaded", u.run, ren.ev, "the checksum file is not written by a download before it is read") {
				continue
			}
			c.ok(c.downloadURL(wr) != nil && implies(ren.ev.pc, wr.pc), "checksum-downloaded", u.run, wr, "the checksum file is written with %s", wr.arg(1))
			for _, o := range u.ops {
				for _, v := range o.paths {
					for _, oc := range v {
						dir := strings.HasSuffix(o.ev.name, "RemoveAll") || o.kind == "rename"
						if o.ev.idx > wr.idx && o.ev.idx < read.idx {
							c.ok(!mayAlias(oc.t, sum, dir), "checksum-not-overwritten", u.run, o.ev, "%s can change the checksum file %s after it was downloaded", o.ev.name+" "+oc.t.String(), sum)
						}
						if o.ev.idx > hash.idx && o.ev.idx < ren.ev.idx && o.kind != "chmod" {
							c.ok(!mayAlias(oc.t, src, dir), "binary-not-changed", u.run, o.ev, "%s can change the binary after its digest was taken", o.ev.name)
						}
					}
				}
			}
			for _, ev := range u.run.events {
				if ev.kind != "print" || ev.idx >= ren.ev.idx {
					continue
				}
				p := openedPath(ev.arg(0))
				if p.s == "?path" {
					continue
				}
				if ev.idx > wr.idx && ev.idx < read.idx {
					c.ok(!mayAlias(p, sum, false), "checksum-not-overwritten", u.run, ev, "a write to %s can change the checksum file after it was downloaded", p)
				}
				if ev.idx > hash.idx {
					c.ok(!mayAlias(p, src, false), "binary-not-changed", u.run, ev, "a write to %s can change the binary after its digest was taken", p)
				}
			}
			// executable bit
			x := false
			for _, o := range u.ops {
				if o.kind == "chmod" && strings.HasSuffix(o.ev.name, "Chmod") && o.ev.idx > hash.idx-1 {
					if n, ok := isIntConst(o.ev.arg(1)); ok && n&0100 != 0 && n&0400 != 0 {
						p := o.paths[0].collapse()
						if o.ev.idx < ren.ev.idx && pathEq(p, src) && implies(pc, and(o.ev.pc, errNil(o.ev))) {
							x = true
						}
						if o.ev.idx > ren.ev.idx && isExe(p) {
							if implies(and(pc, errNil(ren.ev)), o.ev.pc) {
								x = true
							}
						}
					}
				}
			}
			bad := false
			for _, o := range u.ops {
				if o.kind == "chmod" && strings.HasSuffix(o.ev.name, "Chmod") {
					n, ok := isIntConst(o.ev.arg(1))
					p := o.paths[0].collapse()
					if (pathEq(p, src) || isExe(p)) && (!ok || n&0100 == 0) {
						bad = true
					}
				}
			}
			c.ok(x && !bad, "executable", u.run, ren.ev, "the installed file is not made executable before it is installed")
		}
	})
}

func isConstPath(t *Term) bool { _, ok := isStrConst(t); return ok }

func pathEq(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := pathParts(a), pathParts(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// readPath is the path whose content an event reads.
func readPath(ev *Event) *Term {
	if ev.kind == "call" && len(ev.args) > 0 {
		switch ev.name {
		case "os.ReadFile", "os.Open", "os.OpenFile":
			return ev.arg(0)
		}
	}
	return nil
}

// checksumGuard finds the comparison of the complete MD5 digest of the file
// at src with the digest published in a checksum file, and returns that file.
func (c *Check) checksumGuard(r *Run, at *Event, pc BDD, src *Term) *Term {
	pos, _ := factsOf(pc, func(t *Term) bool {
		return t.op == OEq && len(t.args) == 2 && (hexDigest(t.args[0]) != nil || hexDigest(t.args[1]) != nil)
	})
	why := "no comparison of the MD5 digest of the installed file dominates its installation"
	for _, a := range pos {
		d, m := hexDigest(a.args[0]), a.args[1]
		if d == nil {
			d, m = hexDigest(a.args[1]), a.args[0]
		}
		data := d.args[1]
		for data.op == OCall && data.s == "stream" {
			data = data.args[0]
		}
		if d.s != "digest:md5" || data.op != OCall || data.s != "filedata" || !pathEq(data.args[0], src) {
			why = "the digest that is compared is " + d.String()
			continue
		}
		f := publishedDigest(m)
		if f == nil {
			why = "the digest is compared with " + m.String()
			continue
		}
		c.ok(true, "digest-compared", r, at, "")
		return f
	}
	c.ok(false, "digest-compared", r, at, "%s", why)
	return nil
}

func stripCase(t *Term) *Term {
	for t.op == OCall && (t.s == "strings.ToLower" || t.s == "strings.TrimSpace") {
		t = t.args[0]
	}
	return t
}

func hexDigest(t *Term) *Term {
	t = stripCase(t)
	if t.op == OCall && (t.s == "hex" || t.s == "fmt.%x") && len(t.args) == 1 && isDigest(t.args[0]) {
		return t.args[0]
	}
	return nil
}

// publishedDigest: the first field of a checksum file.
func publishedDigest(t *Term) *Term {
	t = stripCase(t)
	if t.op == OElem {
		n, ok := isIntConst(t.args[1])
		b := t.args[0]
		if !ok || n != 0 || b.op != OCall || b.s != "strings.Fields" && b.s != "strings.Split" && b.s != "strings.SplitN" {
			return nil
		}
		if b.s != "strings.Fields" {
			if s, ok := isStrConst(b.args[1]); !ok || s != " " && s != "  " {
				return nil
			}
		}
		t = stripCase(b.args[0])
	}
	for t.op == OCall && (t.s == "stream" || t.s == "strings.TrimSpace" || t.s == "bytes.TrimSpace") {
		t = t.args[0]
	}
	if t.op == OCall && t.s == "filedata" {
		return t.args[0]
	}
	return nil
}

// downloadURL: the address whose answer a write stores completely.
func (c *Check) downloadURL(wr *Event) *Term {
	d := wr.arg(1)
	if d.op != OCall || d.s != "stream" {
		return nil
	}
	b := d.args[0]
	if b.op != OField || b.s != "Body" {
		return nil
	}
	g := b.args[0]
	if g.op == OProj && g.s == "0" && g.args[0].op == OCall && strings.HasPrefix(g.args[0].s, "(*net/http.Client).") && len(g.args[0].args) > 1 {
		if g.args[0].s == "(*net/http.Client).Get" {
			return g.args[0].args[1]
		}
		rq := unwrap(g.args[0].args[1])
		if rq.op == OProj && rq.args[0].op == OCall && rq.args[0].s == "net/http.NewRequest" {
			return rq.args[0].args[1]
		}
	}
	return nil
}

func init() {
	register("C10", "A failed update leaves the installed program untouched", func(c *Check) {
		u := c.updateRun()
		if u == nil {
			return
		}
		w := c.w
		ren := u.renames[0].ev
		for _, r := range w.all() {
			for _, o := range fsOps(r) {
				for _, v := range o.paths {
					for _, cs := range v {
						k := pathClass(cs.t)
						if k == "exe" || k == "other" {
							c.ok(o.ev == ren || o.kind == "chmod" && r == u.run && o.ev.idx > ren.idx && implies(o.ev.pc, errNil(ren)), "only-the-rename", r, o.ev, "%s changes the running executable or an unknown place", o.ev.name)
						}
					}
				}
			}
		}
		nl := 0
		for _, s := range u.steps {
			if s.idx < ren.idx {
				c.ok(implies(and(ren.pc, s.pc), okay(s)), "earlier-steps-succeeded", u.run, s, "the executable is replaced although %s failed", s.name)
			}
			fail := and(s.pc, not(okay(s)))
			if !sat(fail) {
				continue
			}
			c.ok(!sat(and(u.run.out.pc, fail)), "failure-not-success", u.run, s, "the update command ends successfully although %s failed", s.name)
			for _, li := range w.loopsOf(s) {
				nl++
				c.ok(!sat(and(li.back, fail)), "failure-stops", u.run, s, "the update goes on although %s failed", s.name)
			}
			for _, ev := range u.run.events {
				if ev.kind == "exit" {
					n, ok := isIntConst(ev.res)
					c.ok(ok && n != 0 && n&0xff != 0 || !sat(and(ev.pc, fail)), "failure-status", u.run, ev, "the process exits with status %s although %s failed", ev.res, s.name)
				}
			}
		}
		c.need(len(u.steps) >= 12, "earlier-steps-succeeded", "only %d update steps were found", len(u.steps))
		c.need(nl > 0, "failure-stops", "no extraction loop was found")
		// progress and success are reported only while everything succeeded
		var bad BDD = F
		si := 0
		for _, ev := range u.run.events {
			for si < len(u.steps) && u.steps[si].idx < ev.idx {
				bad = or(bad, and(u.steps[si].pc, not(okay(u.steps[si]))))
				si++
			}
			if ev.kind != "print" || !isStdout(ev.arg(0)) || !sat(and(ev.pc, bad)) {
				continue
			}
			for _, cs := range ev.args[1] {
				if sat(and(ev.pc, cs.g, bad)) {
					c.ok(anyTerm(cs.t, isErrTerm), "no-success-message", u.run, ev, "%s is printed although an earlier step of the update failed", clip(cs.t.String(), 120))
				}
			}
		}
		c.shownBeforeExit(u.run)
	})
}

// isErrTerm: the value of an error.
func isErrTerm(x *Term) bool {
	if x.op == OProj && x.s == "err" || x.op == OCall && x.s == "!error" {
		return true
	}
	return x.typ != nil && types.Identical(x.typ, errType)
}

// shownBeforeExit: every exit with a failure status follows a message.
func (c *Check) shownBeforeExit(r *Run) {
	for _, ev := range r.events {
		if ev.kind != "exit" {
			continue
		}
		if n, ok := isIntConst(ev.res); ok && n == 0 {
			continue
		}
		g := F
		for _, p := range r.events {
			if p.kind == "print" && (p.idx < ev.idx || ev.name == "log.Fatal" && p.idx == ev.idx+1) && onTerminal(p) && sat(and(p.pc, ev.pc)) {
				// the last message before the exit
				if p.ctx == ev.ctx || implies(ev.pc, p.pc) {
					g = or(g, p.pc)
				}
			}
		}
		c.ok(implies(ev.pc, g), "reason-shown", r, ev, "the process exits with a failure status without a message")
	}
}

func onTerminal(p *Event) bool {
	d := unwrap(p.arg(0))
	return isStdout(d) || d.op == OSym && (d.s == "!log" || d.s == "!os.Stderr")
}

func init() {
	register("C11", "Archive extraction cannot write outside its directory", func(c *Check) {
		n := 0
		for _, r := range c.w.all() {
			fromArchive := func(v Val) bool {
				f := false
				for _, cs := range v {
					c.w.deepWalk(cs.t, func(x *Term) {
						if x.op == OCall && (strings.Contains(x.s, "archive/tar.") || strings.Contains(x.s, "archive/zip.")) {
							f = true
						}
					})
				}
				return f
			}
			for _, o := range fsOps(r) {
				hit := false
				for _, a := range o.ev.args {
					hit = hit || fromArchive(a)
				}
				if !hit {
					continue
				}
				n++
				if !c.ok(o.kind == "write", "only-files-created", r, o.ev, "%s is controlled by the archive", o.ev.name) {
					continue
				}
				for _, cs := range o.paths[0] {
					for _, p := range alts(cs.t) {
						ps := pathParts(p)
						ok := len(ps) >= 4 && isBaseName(ps[len(ps)-1]) && pathClass(p) == "cache"
						c.ok(ok, "inside-the-directory", r, o.ev, "the archive chooses the path %s", p)
					}
				}
				for i, a := range o.ev.args {
					if i > 0 && o.ev.name == "os.OpenFile" && i == 1 {
						c.ok(!fromArchive(a), "fixed-flags", r, o.ev, "the archive chooses the open flags")
					}
				}
			}
			for _, ev := range r.events {
				if ev.kind == "print" && openedPath(ev.arg(0)).s != "?path" && fromArchive(ev.args[0]) {
					c.count("content-writes")
				}
			}
		}
		c.need(n > 0, "inside-the-directory", "no file is extracted from an archive: the analysis lost track of it")
		// the directory is not entered, linked or replaced by the archive
		u := c.updateRun()
		if u != nil {
			for _, o := range u.ops {
				c.ok(o.kind != "link" && o.kind != "other", "no-links", u.run, o.ev, "%s", o.ev.name)
			}
		}
	})
}
