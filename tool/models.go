package main

import (
	"go/types"
	"path"
	"strconv"
	"strings"
	"unicode"
)

// purePkgs: external packages whose functions are functions of their
// arguments only (exceptions are listed in impureFns).
var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true, "unicode": true,
	"unicode/utf8": true, "math": true, "bytes": true, "encoding/base64": true, "encoding/hex": true, "errors": true,
	"time": true, "regexp": true, "net/url": true, "sort": true, "encoding/binary": true, "html": true, "math/bits": true,
	"github.com/jedib0t/go-pretty/v6/text": true, "github.com/mattn/go-runewidth": true, "io/fs": true, "cmp": true,
	"golang.org/x/text/cases": true, "crypto/subtle": true, "crypto/hmac": true, "reflect": true, "text/tabwriter": false}

var impureFns = map[string]bool{"path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true,
	"path/filepath.Abs": true, "path/filepath.EvalSymlinks": true, "time.Now": true, "time.Since": true, "time.Until": true,
	"time.Sleep": true, "time.After": true, "time.Tick": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true,
	"io/fs.ReadFile": true, "io/fs.WalkDir": true, "io/fs.Glob": true, "math/rand.Int": true}

var aliasFns = map[string]string{"io/ioutil.ReadFile": "os.ReadFile", "io/ioutil.WriteFile": "os.WriteFile", "io/ioutil.ReadAll": "io.ReadAll",
	"io/ioutil.ReadDir": "os.ReadDir", "io/ioutil.TempDir": "os.MkdirTemp", "io/ioutil.TempFile": "os.CreateTemp",
	"path.Join": "path/filepath.Join", "path.Base": "path/filepath.Base", "path.Dir": "path/filepath.Dir", "path.Clean": "path/filepath.Clean"}

func pkgOfName(n string) string {
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	// "pkg/path.Name" or "pkg/path.Type).Method"
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func (e *Engine) external(fr *Frame, ins interface{}, name string, args []Val, sig *types.Signature, st State, tag string) ([]Val, State) {
	if a, ok := aliasFns[name]; ok {
		name = a
	}
	c := &Call{e: e, fr: fr, name: name, args: args, st: st, sig: sig, tag: tag}
	if i, ok := ins.(interface {
		ssaInstr
	}); ok {
		c.ins = i
		c.pos = i.Pos()
	}
	if h, ok := e.hooks[name]; ok {
		return h(c)
	}
	if h := e.methodHook(c); h != nil {
		return h(c)
	}
	p := pkgOfName(name)
	if purePkgs[p] && !impureFns[name] {
		return c.pure()
	}
	switch name {
	case "(error).Error":
		return c.pure()
	}
	return c.impure(true)
}

// foldPure builds the normalised term of a pure call.
func foldPure(name string, ts []*Term) *Term {
	str := func(i int) (string, bool) {
		if i < len(ts) {
			return isStrConst(ts[i])
		}
		return "", false
	}
	s0, k0 := str(0)
	s1, k1 := str(1)
	switch name {
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if k0 {
			switch name {
			case "strings.ToLower":
				return mkStr(strings.ToLower(s0))
			case "strings.ToUpper":
				return mkStr(strings.ToUpper(s0))
			}
			return mkStr(strings.TrimSpace(s0))
		}
		if ts[0].op == OCall && ts[0].s == name {
			return ts[0]
		}
		if ts[0].op == OCall && ts[0].s == "line" {
			// a line with its terminator
			if name == "strings.TrimSpace" {
				return foldPure(name, ts[0].args)
			}
			return mkT(OCall, "line", 0, nil, ts[0].typ, foldPure(name, ts[0].args))
		}
		if name == "strings.ToLower" && ts[0].op == OCall && ts[0].s == "strings.TrimSpace" {
			// canonical order: TrimSpace(ToLower(x))
			return foldPure("strings.TrimSpace", []*Term{foldPure("strings.ToLower", []*Term{ts[0].args[0]})})
		}
	case "strings.Title":
		if k0 {
			return mkStr(strings.Title(s0))
		}
		if ts[0].op == OCall && ts[0].s == name {
			return ts[0]
		}
	case "unicode.IsControl", "unicode.IsSpace", "unicode.IsPrint", "unicode.IsGraphic":
		if n, ok := isIntConst(ts[0]); ok {
			r := rune(n)
			return mkBool(b2(name == "unicode.IsControl" && unicode.IsControl(r) || name == "unicode.IsSpace" && unicode.IsSpace(r) || name == "unicode.IsPrint" && unicode.IsPrint(r) || name == "unicode.IsGraphic" && unicode.IsGraphic(r)))
		}
	case "strings.ReplaceAll":
		if s2, k2 := str(2); k0 && k1 && k2 {
			return mkStr(strings.ReplaceAll(s0, s1, s2))
		}
	case "strings.Replace":
		if n, ok := isIntConst(ts[3]); ok && n < 0 {
			return foldPure("strings.ReplaceAll", ts[:3])
		}
	case "strings.HasPrefix":
		if k0 && k1 {
			return mkBool(b2(strings.HasPrefix(s0, s1)))
		}
		if k1 && s1 == "" {
			return mkBool(T)
		}
	case "strings.HasSuffix":
		if k0 && k1 {
			return mkBool(b2(strings.HasSuffix(s0, s1)))
		}
	case "strings.Contains", "bytes.Contains":
		if k0 && k1 {
			return mkBool(b2(strings.Contains(s0, s1)))
		}
		name = "strings.Contains"
	case "strings.EqualFold", "bytes.EqualFold":
		return mkBool(eqB(foldPure("strings.ToLower", ts[:1]), foldPure("strings.ToLower", ts[1:2])))
	case "crypto/hmac.Equal", "bytes.Equal":
		return mkBool(eqB(ts[0], ts[1]))
	case "crypto/subtle.ConstantTimeCompare":
		return mkT(OCall, name, 0, nil, types.Typ[types.Int], ts...)
	case "strings.Split":
		if k0 && k1 {
			var ps []*Term
			for _, p := range strings.Split(s0, s1) {
				ps = append(ps, mkStr(p))
			}
			return appT(mkSym("!empty", nil), ps...)
		}
	case "strings.Fields":
		if k0 {
			var ps []*Term
			for _, p := range strings.Fields(s0) {
				ps = append(ps, mkStr(p))
			}
			return appT(mkSym("!empty", nil), ps...)
		}
		if ts[0].op == OCall && ts[0].s == "strings.TrimSpace" {
			return foldPure(name, []*Term{ts[0].args[0]})
		}
	case "strings.Join":
		if ts[0].op == OApp && (ts[0].args[0].op == ONil || ts[0].args[0].s == "!empty") {
			var ps []*Term
			ok := true
			for i, p := range ts[0].args[1:] {
				if p.op == OSpread {
					ok = false
				}
				if i > 0 {
					ps = append(ps, ts[1])
				}
				ps = append(ps, p)
			}
			if ok {
				return concat(ps...)
			}
		}
	case "strings.Repeat":
		if n, ok := isIntConst(ts[1]); ok && k0 && n >= 0 && n < 200 {
			return mkStr(strings.Repeat(s0, int(n)))
		}
	case "strconv.Itoa", "fmt.Sprint1":
		return strOf(ts[0])
	case "strconv.FormatInt":
		if n, ok := isIntConst(ts[1]); ok && n == 10 {
			return strOf(ts[0])
		}
	case "strconv.FormatBool":
		return strOf(ts[0])
	case "strconv.Atoi":
		return foldPure("strconv.ParseInt", []*Term{ts[0], mkInt(10), mkInt(64)})
	case "strconv.ParseInt":
		base, ok1 := isIntConst(ts[1])
		bits, ok2 := isIntConst(ts[2])
		if k0 && ok1 && ok2 {
			if n, err := strconv.ParseInt(s0, int(base), int(bits)); err == nil {
				return mkT(OTuple, "", 0, nil, nil, mkInt(n), mkNil())
			}
		}
		if n, ok := isIntConst(ts[2]); ok && n == 0 {
			ts = []*Term{ts[0], ts[1], mkInt(64)}
		}
	case "path/filepath.Join":
		return joinPath(ts)
	case "path/filepath.Base":
		if k0 {
			return mkStr(path.Base(s0))
		}
	case "path/filepath.Clean":
		if ts[0].op == OCall && ts[0].s == "path/filepath.Join" {
			return ts[0]
		}
	case "errors.Is":
		return mkBool(eqB(ts[0], ts[1]))
	case "(error).Error":
		if ts[0].op == OCall && ts[0].s == "!error" {
			return ts[0].args[0]
		}
	case "(encoding/binary.littleEndian).Uint64", "(encoding/binary.littleEndian).Uint32":
		return mkT(OCall, "le64", 0, nil, types.Typ[types.Int64], sliceT(ts[1], mkInt(0), nil, false))
	case "encoding/hex.EncodeToString":
		return mkT(OCall, "hex", 0, nil, types.Typ[types.String], ts[0])
	case "(time.Time).Unix", "(time.Time).UTC", "(time.Time).Local":
	}
	return mkT(OCall, name, 0, nil, nil, ts...)
}

func joinPath(ts []*Term) *Term {
	var parts []*Term
	for i, t := range ts {
		if s, ok := isStrConst(t); ok {
			if s == "" {
				continue
			}
			for j, c := range strings.Split(s, "/") {
				if c == "" && (i > 0 || j > 0) || c == "." {
					continue
				}
				if i == 0 && j == 0 && strings.HasPrefix(s, "/") {
					parts = append(parts, mkStr("/"))
					continue
				}
				parts = append(parts, mkStr(c))
			}
			continue
		}
		if t.op == OCall && t.s == "path/filepath.Join" {
			parts = append(parts, t.args...)
			continue
		}
		parts = append(parts, t)
	}
	all := true
	var ss []string
	for _, p := range parts {
		s, ok := isStrConst(p)
		if !ok {
			all = false
		}
		ss = append(ss, s)
	}
	if all {
		return mkStr(path.Join(ss...))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mkT(OCall, "path/filepath.Join", 0, nil, types.Typ[types.String], parts...)
}

// pathParts decomposes a path expression into its components.
func pathParts(t *Term) []*Term {
	if s, ok := isStrConst(t); ok {
		var out []*Term
		if strings.HasPrefix(s, "/") {
			out = append(out, mkStr("/"))
		}
		for _, c := range strings.Split(s, "/") {
			if c != "" && c != "." {
				out = append(out, mkStr(c))
			}
		}
		return out
	}
	switch t.op {
	case OCall:
		switch t.s {
		case "path/filepath.Join":
			var out []*Term
			for _, a := range t.args {
				out = append(out, pathParts(a)...)
			}
			return out
		case "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return pathParts(t.args[0])
		}
	case OConcat:
		// a "/" b  style concatenations: only when the joints are separators
		var out []*Term
		for i, a := range t.args {
			if s, ok := isStrConst(a); ok {
				if i > 0 && !strings.HasPrefix(s, "/") || i < len(t.args)-1 && !strings.HasSuffix(s, "/") {
					return []*Term{t}
				}
				out = append(out, pathParts(mkStr(strings.Trim(s, "/")))...)
				if i == 0 && strings.HasPrefix(s, "/") {
					out = append([]*Term{mkStr("/")}, out...)
				}
				continue
			}
			if i > 0 {
				if s, ok := isStrConst(t.args[i-1]); !ok || !strings.HasSuffix(s, "/") {
					return []*Term{t}
				}
			}
			out = append(out, pathParts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// ---- formatting

// sprintf renders a constant format string into a concatenation.
func sprintf(ts []*Term) *Term {
	f, ok := isStrConst(ts[0])
	if !ok {
		return mkT(OCall, "fmt.Sprintf", 0, nil, types.Typ[types.String], ts...)
	}
	args := ts[1:]
	var parts []*Term
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		verb := f[j]
		if verb == '%' {
			lit += "%"
			i = j
			continue
		}
		flags := f[i+1 : j]
		if n >= len(args) {
			lit += "%!" + string(verb) + "(MISSING)"
			i = j
			continue
		}
		a := args[n]
		n++
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		if flags == "" && strings.ContainsRune("vsd", rune(verb)) {
			parts = append(parts, strOf(a))
		} else {
			x := a
			if x.op == OIface {
				x = x.args[0]
			}
			parts = append(parts, mkT(OCall, "fmt.%"+flags+string(verb), 0, nil, types.Typ[types.String], x))
		}
		i = j
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	for ; n < len(args); n++ {
		parts = append(parts, mkT(OCall, "fmt.%EXTRA", 0, nil, types.Typ[types.String], args[n]))
	}
	return concat(parts...)
}

func sprint(ts []*Term, ln bool) *Term {
	var parts []*Term
	for i, t := range ts {
		if ln && i > 0 {
			parts = append(parts, mkStr(" "))
		}
		parts = append(parts, strOf(t))
	}
	if ln {
		parts = append(parts, mkStr("\n"))
	}
	return concat(parts...)
}

// content builds the text of a print-like call from its operands.
func (c *Call) content(args []Val, mode string) Val {
	var rv []Val
	for _, a := range args {
		rv = append(rv, resolveVal(a, c.st.heap))
	}
	return liftN(rv, c.st.pc, func(ts []*Term) *Term {
		switch mode {
		case "f":
			return sprintf(ts)
		case "ln":
			return sprint(ts, true)
		}
		return sprint(ts, false)
	})
}

func unwrap(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func unwrapVal(v Val) Val { return lift1x(v, unwrap) }

func (c *Call) print(dest Val, content Val) State {
	c.e.emit(c.fr, "print", c.name, c.ins, c.pos, c.st, []Val{unwrapVal(dest), content}, nil)
	// writers with tracked content (hashes, builders, buffers)
	st := c.st
	if d := unwrap(dest.collapse()); isBuf(d) {
		st = c.appendBuf(st, d, content)
	}
	return st
}

func bufLoc(o *Term) *Term { return mkT(OContent, "buf", 0, nil, nil, o) }

func (c *Call) bufGet(st State, o *Term) Val {
	if v, ok := st.heap.get(bufLoc(o)); ok && len(v) > 0 {
		return v
	}
	return one(mkStr(""))
}

func (c *Call) appendBuf(st State, o *Term, data Val) State {
	old := c.bufGet(st, o)
	if len(old)*len(data) > 16 {
		data = one(data.collapse())
	}
	return State{st.pc, st.heap.set(bufLoc(o), lift2(old, data, st.pc, func(t, d *Term) *Term { return concat(t, d) }))}
}

// dataOf is the byte stream a reader term yields.
func dataOf(t *Term, h *Heap) *Term {
	t = unwrap(t)
	switch {
	case t.op == OCall && (t.s == "reader"):
		return t.args[0]
	case t.op == OCall && (t.s == "bufio.NewReader" || t.s == "io.TeeReader" || t.s == "io.NopCloser" || t.s == "bufio.NewReaderSize"):
		return dataOf(t.args[0], h)
	case t.op == OCall && t.s == "io.LimitReader":
		return mkT(OCall, "prefix", 0, nil, nil, dataOf(t.args[0], h), t.args[1])
	case t.op == OProj && t.s == "0" && t.args[0].op == OCall && (t.args[0].s == "os.Open" || t.args[0].s == "os.OpenFile" || t.args[0].s == "os.Create"):
		return mkT(OCall, "filedata", t.args[0].k, nil, nil, t.args[0].args[0])
	}
	return mkT(OCall, "stream", 0, nil, nil, t)
}

func errOf(c *Call, name string) *Term {
	t := mkT(OCall, name, c.site(name), nil, nil, c.argTerms()...)
	return mkT(OProj, "err", 0, nil, types.Universe.Lookup("error").Type(), t)
}

func isBuf(o *Term) bool {
	if o.op == OAlloc {
		if i, ok := o.aux.(allocInfo); ok && i.kind == "hash" {
			return true
		}
	}
	if (o.op == OAlloc || o.op == OFieldAddr) && o.typ != nil {
		if n := namedOf(o.typ); n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "strings.Builder", "bytes.Buffer":
				return true
			}
		}
	}
	return false
}
