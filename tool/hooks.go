package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaInstr interface {
	ssa.Instruction
	Pos() token.Pos
}

var errType = types.Universe.Lookup("error").Type()

func (e *Engine) installHooks() {
	h := map[string]hook{}
	e.hooks = h
	pure := func(f func(ts []*Term) *Term) hook {
		return func(c *Call) ([]Val, State) {
			var rv []Val
			for _, a := range c.flat() {
				rv = append(rv, resolveVal(a, c.st.heap))
			}
			return []Val{liftN(rv, c.st.pc, f)}, c.st
		}
	}
	h["fmt.Sprintf"] = pure(sprintf)
	h["fmt.Sprint"] = pure(func(ts []*Term) *Term { return sprint(ts, false) })
	h["fmt.Sprintln"] = pure(func(ts []*Term) *Term { return sprint(ts, true) })
	h["errors.New"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term {
			return mkT(OCall, "!error", c.site("error"), nil, errType, t)
		})}, c.st
	}
	h["fmt.Errorf"] = func(c *Call) ([]Val, State) {
		v := c.content(c.flat(), "f")
		return []Val{lift1(v, c.st.pc, func(t *Term) *Term { return mkT(OCall, "!error", c.site("error"), nil, errType, t) })}, c.st
	}
	stdout := one(mkSym("!os.Stdout", nil))
	for _, m := range []struct{ n, mode string }{{"Print", ""}, {"Println", "ln"}, {"Printf", "f"}} {
		m := m
		h["fmt."+m.n] = func(c *Call) ([]Val, State) {
			st := c.print(stdout, c.content(c.flat(), m.mode))
			return c.results(mkT(OCall, c.name, c.site("p"), nil, nil)), st
		}
		h["fmt.F"+strings.ToLower(m.n[:1])+m.n[1:]] = func(c *Call) ([]Val, State) {
			f := c.flat()
			st := c.print(f[0], c.content(f[1:], m.mode))
			return c.results(mkT(OCall, c.name, c.site("p"), nil, nil)), st
		}
		for _, lf := range []string{"Print", "Fatal", "Panic"} {
			name := lf + strings.TrimPrefix(m.n, "Print")
			hk := func(c *Call) ([]Val, State) {
				f := c.flat()
				if strings.HasPrefix(c.name, "(") {
					f = f[1:]
				}
				if strings.Contains(c.name, ".Fatal") {
					c.e.emit(c.fr, "exit", "log.Fatal", c.ins, c.pos, c.st, []Val{c.content(f, m.mode)}, mkInt(1))
				}
				c.print(one(mkSym("!log", nil)), c.content(f, m.mode))
				if !strings.Contains(c.name, ".Print") {
					return nil, State{F, c.st.heap}
				}
				return nil, c.st
			}
			h["log."+name] = hk
			h["(*log.Logger)."+name] = hk
		}
	}
	h["os.Exit"] = func(c *Call) ([]Val, State) {
		c.e.emit(c.fr, "exit", "os.Exit", c.ins, c.pos, c.st, c.args, c.args[0].collapse())
		return nil, State{F, c.st.heap}
	}
	h["runtime.Goexit"] = h["os.Exit"]
	write := func(c *Call) ([]Val, State) {
		st := c.print(c.args[0], resolveVal(c.args[1], c.st.heap))
		t := mkT(OCall, c.name, c.site("w"), nil, nil, c.argTerms()...)
		rs := c.results(t)
		c.e.events[len(c.e.events)-1].err = c.errRes(t)
		if len(rs) == 2 {
			// writers never report a short count without an error
			rs[0] = one(lenT(resolveVal(c.args[1], c.st.heap).collapse()))
			if d := unwrap(c.args[0].collapse()); d.op == OAlloc {
				if isBuf(d) {
					c.e.events[len(c.e.events)-1].err = nil
					rs[1] = one(mkNil()) // hash and buffer writes never fail
				}
			}
		}
		return rs, st
	}
	for _, n := range []string{"(*os.File).Write", "(*os.File).WriteString", "(*github.com/jroimartin/gocui.View).Write", "(io.Writer).Write", "(hash.Hash).Write", "io.WriteString",
		"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(io.StringWriter).WriteString"} {
		h[n] = write
	}
	strBuf := func(c *Call) ([]Val, State) {
		o := unwrap(c.args[0].collapse())
		return []Val{c.bufGet(c.st, o)}, c.st
	}
	h["(*bytes.Buffer).String"] = strBuf
	h["(*bytes.Buffer).Bytes"] = strBuf
	h["(*strings.Builder).String"] = strBuf
	h["(*strings.Builder).WriteByte"] = write
	h["(*strings.Builder).WriteRune"] = write
	h["(*strings.Builder).Grow"] = func(c *Call) ([]Val, State) { return nil, c.st }
	h["(*strings.Builder).Len"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(c.bufGet(c.st, unwrap(c.args[0].collapse())), c.st.pc, func(t *Term) *Term { return lenT(t) })}, c.st
	}

	// --- standard input
	scan := func(c *Call) ([]Val, State) {
		st := c.st
		args := c.flat()
		c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, args, nil)
		for i, a := range args {
			p := unwrap(a.collapse())
			if p.typ == nil {
				continue
			}
			if _, ok := p.typ.Underlying().(*types.Pointer); !ok {
				continue
			}
			et := derefType(p.typ)
			in := mkT(OCall, "input", c.site("in"+strconv.Itoa(i)), nil, et)
			old := c.e.load(st, one(p), et)
			v := one(in)
			if t := old.single(); t == nil || t != zeroOf(et) {
				g := atom(mkT(OCall, "scanned", c.site("sc"+strconv.Itoa(i)), nil, types.Typ[types.Bool]))
				cs := []Case{{g, in}}
				for _, o := range old {
					cs = append(cs, Case{diff(o.g, g), o.t})
				}
				v = mkVal(cs, st.pc)
			}
			st = c.e.store(st, one(p), v, et)
		}
		return c.results(mkT(OCall, c.name, c.site("scan"), nil, nil)), st
	}
	for _, n := range []string{"fmt.Scanln", "fmt.Scan", "fmt.Scanf", "fmt.Fscanln", "fmt.Fscan"} {
		h[n] = scan
	}

	// a line from standard input
	for _, n := range []string{"(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes"} {
		h[n] = func(c *Call) ([]Val, State) {
			src := unwrap(c.args[0].collapse())
			d, isc := isIntConst(c.args[1].collapse())
			if src.op == OCall && len(src.args) > 0 && (src.s == "bufio.NewReader" || src.s == "bufio.NewReaderSize") && c.e.stdinReader(unwrap(src.args[0])) && isc && d == '\n' {
				t := types.Type(types.Typ[types.String])
				if strings.HasSuffix(c.name, "Bytes") {
					t = types.NewSlice(types.Typ[types.Byte])
				}
				in := mkT(OCall, "line", 0, nil, t, mkT(OCall, "input", c.site("in"), nil, t))
				ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
				ev.res = in
				return []Val{one(in), one(errOf(c, "stdin.ReadLine"))}, c.st
			}
			return c.impure(true)
		}
	}

	// --- files
	h["os.ReadFile"] = func(c *Call) ([]Val, State) {
		ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
		k := c.site("rf")
		d := lift1(c.args[0], c.st.pc, func(p *Term) *Term { return mkT(OCall, "filedata", k, nil, types.NewSlice(types.Typ[types.Byte]), p) })
		err := lift1(c.args[0], c.st.pc, func(p *Term) *Term {
			return mkT(OProj, "err", 0, nil, errType, mkT(OCall, "os.ReadFile", k, nil, nil, p))
		})
		ev.err = err.collapse()
		ev.errV = err
		// on failure the data is nil/partial; callers that ignore the error see it
		return []Val{d, err}, c.st
	}
	h["io.ReadAll"] = func(c *Call) ([]Val, State) {
		ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
		d := lift1(c.args[0], c.st.pc, func(p *Term) *Term { return dataOf(p, c.st.heap) })
		ev.err = errOf(c, "io.ReadAll")
		return []Val{d, one(ev.err)}, c.st
	}
	h["io.Copy"] = func(c *Call) ([]Val, State) {
		d := lift1(c.args[1], c.st.pc, func(p *Term) *Term { return dataOf(p, c.st.heap) })
		st := c.print(c.args[0], d)
		t := mkT(OCall, "io.Copy", c.site("cp"), nil, nil, c.argTerms()...)
		c.e.events[len(c.e.events)-1].err = c.errRes(t)
		return c.results(t), st
	}
	h["(*bytes.Buffer).ReadFrom"] = func(c *Call) ([]Val, State) {
		d := lift1(c.args[1], c.st.pc, func(p *Term) *Term { return dataOf(p, c.st.heap) })
		st := c.print(c.args[0], d)
		t := mkT(OCall, c.name, c.site("cp"), nil, nil, c.argTerms()...)
		c.e.events[len(c.e.events)-1].err = c.errRes(t)
		return c.results(t), st
	}
	h["io.CopyN"] = func(c *Call) ([]Val, State) {
		d := lift1(c.args[1], c.st.pc, func(p *Term) *Term {
			return mkT(OCall, "prefix", 0, nil, nil, dataOf(p, c.st.heap), c.args[2].collapse())
		})
		st := c.print(c.args[0], d)
		t := mkT(OCall, "io.CopyN", c.site("cp"), nil, nil, c.argTerms()...)
		c.e.events[len(c.e.events)-1].err = c.errRes(t)
		return c.results(t), st
	}
	reader := func(c *Call) ([]Val, State) {
		v := resolveVal(c.args[0], c.st.heap)
		return []Val{lift1(v, c.st.pc, func(t *Term) *Term { return mkT(OCall, "reader", 0, nil, nil, t) })}, c.st
	}
	h["bytes.NewReader"] = reader
	h["strings.NewReader"] = reader
	h["bytes.NewBuffer"] = reader
	h["bytes.NewBufferString"] = reader
	h["bufio.NewReader"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return mkT(OCall, "bufio.NewReader", 0, nil, nil, t) })}, c.st
	}

	// --- decoding
	decode := func(format string) hook {
		return func(c *Call) ([]Val, State) {
			data := resolveVal(c.args[0], c.st.heap)
			if strings.Contains(c.name, "Decode") {
				r := unwrap(c.args[0].collapse())
				if r.op == OCall && strings.HasSuffix(r.s, "NewDecoder") {
					data = one(dataOf(r.args[0], c.st.heap))
				}
			}
			p := unwrap(c.args[1].collapse())
			k := c.site("doc")
			dt := data.collapse()
			ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, []Val{data, one(p)}, nil)
			err := mkT(OProj, "err", 0, nil, errType, mkT(OCall, c.name, k, nil, nil, dt))
			ev.err = err
			ok := eqB(err, mkNil())
			st := c.st
			if p.typ != nil {
				et := derefType(p.typ)
				doc := mkT(OCall, "doc", 0, nil, et, mkStr(format), dt)
				if _, isS := et.Underlying().(*types.Struct); isS {
					st = c.e.storeLocState(st, p, one(doc), et)
				} else {
					old := c.e.load(st, one(p), et)
					cs := []Case{{ok, doc}}
					for _, o := range old {
						cs = append(cs, Case{diff(o.g, ok), o.t})
					}
					st = c.e.store(st, one(p), mkVal(cs, st.pc), et)
				}
			}
			return []Val{one(err)}, st
		}
	}
	h["encoding/json.Unmarshal"] = decode("json")
	h["(*encoding/json.Decoder).Decode"] = decode("json")
	h["gopkg.in/yaml.v2.Unmarshal"] = decode("yaml")
	h["gopkg.in/yaml.v2.UnmarshalStrict"] = decode("yaml")
	marshal := func(format string) hook {
		return func(c *Call) ([]Val, State) {
			ev := c.e.emit(c.fr, "marshal", c.name, c.ins, c.pos, c.st, c.args, nil)
			t := mkT(OCall, "marshal", c.site("marshal"), nil, nil, mkStr(format), unwrap(c.args[0].collapse()))
			ev.err = c.errRes(t)
			ev.res = t
			return c.results(t), c.st
		}
	}
	h["gopkg.in/yaml.v2.Marshal"] = marshal("yaml")
	h["encoding/json.Marshal"] = marshal("json")
	h["encoding/json.MarshalIndent"] = marshal("json")
	h["encoding/binary.Read"] = func(c *Call) ([]Val, State) {
		d := lift1(c.args[0], c.st.pc, func(p *Term) *Term { return dataOf(p, c.st.heap) })
		order := c.args[1].collapse()
		name := "le64"
		if !strings.Contains(order.str(4), "ittle") {
			name = "be64"
		}
		p := unwrap(c.args[2].collapse())
		st := c.st
		if p.typ != nil {
			et := derefType(p.typ)
			st = c.e.store(st, one(p), lift1(d, st.pc, func(x *Term) *Term { return mkT(OCall, name, 0, nil, types.Typ[types.Int64], x) }), et)
		}
		return []Val{one(errOf(c, "binary.Read"))}, st
	}

	// --- hashes and ciphers
	newHash := func(alg string) hook {
		return func(c *Call) ([]Val, State) {
			o := c.e.newObj(c.fr, c.ins, "hash:"+alg+c.tag, nil, allocInfo{kind: "hash", alg: alg})
			return []Val{one(o)}, c.st
		}
	}
	for _, a := range []string{"md5", "sha1", "sha256", "sha512"} {
		h["crypto/"+a+".New"] = newHash(a)
		alg := a
		one1 := func(c *Call) ([]Val, State) {
			d := resolveVal(c.args[0], c.st.heap)
			return []Val{lift1(d, c.st.pc, func(t *Term) *Term { return digest(alg, mkNil(), t) })}, c.st
		}
		h["crypto/"+a+".Sum"] = one1
	}
	h["crypto/sha256.Sum256"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(resolveVal(c.args[0], c.st.heap), c.st.pc, func(t *Term) *Term { return digest("sha256", mkNil(), t) })}, c.st
	}
	h["crypto/sha512.Sum512"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(resolveVal(c.args[0], c.st.heap), c.st.pc, func(t *Term) *Term { return digest("sha512", mkNil(), t) })}, c.st
	}
	h["crypto/hmac.New"] = func(c *Call) ([]Val, State) {
		alg := "?"
		if f := c.args[0].collapse(); f.op == OFn {
			alg = strings.TrimSuffix(strings.TrimPrefix(f.s, "crypto/"), ".New")
		}
		o := c.e.newObj(c.fr, c.ins, "hmac:"+alg+c.tag, nil, allocInfo{kind: "hash", alg: "hmac-" + alg})
		st := State{c.st.pc, c.st.heap.set(mkT(OContent, "key", 0, nil, nil, o), resolveVal(c.args[1], c.st.heap))}
		return []Val{one(o)}, st
	}
	sum := func(c *Call) ([]Val, State) {
		o := unwrap(c.args[0].collapse())
		if o.op != OAlloc || o.aux.(allocInfo).kind != "hash" {
			return c.impure(true)
		}
		alg := o.aux.(allocInfo).alg
		key := one(mkNil())
		if v, ok := c.st.heap.get(mkT(OContent, "key", 0, nil, nil, o)); ok {
			key = v
		}
		return []Val{lift2(key, c.bufGet(c.st, o), c.st.pc, func(key, t *Term) *Term {
			return concatBytes(resolve(c.args[1].collapse(), c.st.heap), digest(alg, key, t))
		})}, c.st
	}
	h["(hash.Hash).Sum"] = sum
	h["(hash.Hash).Reset"] = func(c *Call) ([]Val, State) {
		o := unwrap(c.args[0].collapse())
		return nil, State{c.st.pc, c.st.heap.set(bufLoc(o), one(mkStr("")))}
	}
	h["crypto/aes.NewCipher"] = func(c *Call) ([]Val, State) {
		key := resolveVal(c.args[0], c.st.heap)
		c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, []Val{key}, nil)
		b := lift1(key, c.st.pc, func(t *Term) *Term { return mkT(OCall, "aes", 0, nil, nil, t) })
		er := errOf(c, "aes.NewCipher")
		// a nil key has an invalid size
		err := lift1(key, c.st.pc, func(t *Term) *Term {
			if t.op == ONil {
				return mkT(OCall, "!error", c.site("keysize"), nil, errType, mkStr("crypto/aes: invalid key size"))
			}
			return er
		})
		return []Val{b, err}, c.st
	}
	for _, m := range []string{"NewCBCDecrypter", "NewCBCEncrypter", "NewCTR", "NewCFBDecrypter", "NewOFB"} {
		m := m
		h["crypto/cipher."+m] = func(c *Call) ([]Val, State) {
			iv := resolveVal(c.args[1], c.st.heap)
			return []Val{lift2(c.args[0], iv, c.st.pc, func(b, v *Term) *Term { return mkT(OCall, "!mode:"+m, 0, nil, nil, b, v) })}, c.st
		}
	}
	h["(crypto/cipher.BlockMode).CryptBlocks"] = func(c *Call) ([]Val, State) {
		src := resolveVal(c.args[2], c.st.heap).collapse()
		mode := c.args[0].collapse()
		dst := c.args[1].collapse()
		dec := mkT(OCall, "crypt", 0, nil, dst.typ, mode, src)
		ev := c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, []Val{one(mode), one(dst), one(src)}, dec)
		_ = ev
		return nil, c.e.setContent(c.st, dst, dec)
	}

	// --- sorting
	sorter := func(c *Call) ([]Val, State) {
		x := unwrap(c.args[0].collapse())
		var less *Term
		if len(c.args) > 1 {
			less = c.args[1].collapse()
		} else if c.name == "sort.Sort" || c.name == "sort.Stable" {
			if a := c.args[0].collapse(); a.op == OIface {
				less = a
				if a.args[0].op == OCall && a.args[0].s == "!sort.Reverse" {
					less = a.args[0]
					x = unwrap(a.args[0].args[0])
				}
			}
		}
		if less == nil {
			less = mkSym("natural", nil)
		}
		c.e.emit(c.fr, "sort", c.name, c.ins, c.pos, c.st, []Val{one(x), one(less)}, nil)
		cur := resolve(x, c.st.heap)
		if els, ok := c.e.elements(c.st, cur, nil); ok && len(els) > 0 {
			var ts []*Term
			for _, v := range els {
				ts = append(ts, v.collapse())
			}
			cur = mkT(OTuple, "lit", 0, nil, cur.typ, ts...)
		}
		return nil, c.e.setContent(c.st, x, mkT(OCall, "sorted", 0, nil, x.typ, cur, less))
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Sort", "sort.Stable", "sort.Ints"} {
		h[n] = sorter
	}
	h["sort.Reverse"] = func(c *Call) ([]Val, State) {
		return []Val{one(mkT(OCall, "!sort.Reverse", 0, nil, nil, c.args[0].collapse()))}, c.st
	}

	// --- go-pretty tables
	TW := "(github.com/jedib0t/go-pretty/v6/table.Writer)."
	h["github.com/jedib0t/go-pretty/v6/table.NewWriter"] = func(c *Call) ([]Val, State) {
		t := mkT(OCall, c.name, c.site("table"), nil, nil)
		return c.results(t), c.st
	}
	row := func(kind string) hook {
		return func(c *Call) ([]Val, State) {
			tb := unwrap(c.args[0].collapse())
			sl := c.args[1].collapse()
			args := []Val{one(tb)}
			if els, ok := c.e.elements(c.st, sl, nil); ok {
				args = append(args, els...)
			} else {
				args = append(args, one(mkT(OSpread, "", 0, nil, nil, resolve(sl, c.st.heap))))
			}
			c.e.emit(c.fr, kind, c.name, c.ins, c.pos, c.st, args, nil)
			var ts []*Term
			for _, a := range args[1:] {
				ts = append(ts, a.collapse())
			}
			return nil, c.appendBuf(c.st, tb, one(mkT(OCall, kind, 0, nil, nil, ts...)))
		}
	}
	h[TW+"AppendRow"] = row("row")
	h[TW+"AppendRows"] = row("rows")
	h[TW+"AppendHeader"] = row("header")
	h[TW+"AppendFooter"] = row("footer")
	render := func(c *Call) ([]Val, State) {
		tb := unwrap(c.args[0].collapse())
		return []Val{lift1(c.bufGet(c.st, tb), c.st.pc, func(t *Term) *Term { return mkT(OCall, "render", 0, nil, types.Typ[types.String], tb, t) })}, c.st
	}
	h[TW+"Render"] = render
	h[TW+"RenderCSV"] = render
	h[TW+"RenderMarkdown"] = render

	// --- gocui
	gv := func(name *Term, typ types.Type) *Term { return mkT(OCall, "!gocui.View", 0, nil, typ, name) }
	G := "(*github.com/jroimartin/gocui.Gui)."
	viewRes := func(c *Call) ([]Val, State) {
		rs, st := c.impure(false)
		rs[0] = lift1(c.args[1], c.st.pc, func(t *Term) *Term { return gv(t, c.sig.Results().At(0).Type()) })
		return rs, st
	}
	h[G+"SetView"] = viewRes
	h[G+"View"] = viewRes
	h[G+"SetCurrentView"] = viewRes
	h[G+"Size"] = func(c *Call) ([]Val, State) {
		if c.e.async > 0 {
			c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
		}
		return c.results(mkT(OCall, "gui.size", 0, nil, nil)), c.st
	}
	h[G+"Update"] = func(c *Call) ([]Val, State) {
		c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
		save := c.e.async
		c.e.async = 0
		_, st := c.e.callTerm(c.fr, c.ins, c.args[1].collapse(), []Val{c.args[0]}, c.sigOf(c.args[1]), c.st, "update")
		c.e.async = save
		if st.pc == F {
			return nil, c.st
		}
		return nil, State{c.st.pc, st.heap}
	}
	// functions run by other goroutines
	later := func(i int) hook {
		return func(c *Call) ([]Val, State) {
			c.e.emit(c.fr, "go", "go", c.ins, c.pos, c.st, c.args[i:], nil)
			c.e.async++
			c.e.callTerm(c.fr, c.ins, c.args[i].collapse(), nil, c.sigOf(c.args[i]), c.st, "later")
			c.e.async--
			return c.results(mkT(OCall, c.name, c.site("later"), nil, nil)), c.st
		}
	}
	h["time.AfterFunc"] = later(1)
	h["context.AfterFunc"] = later(1)
	h["(*sync.WaitGroup).Go"] = later(1)
	h["(*sync.Once).Do"] = func(c *Call) ([]Val, State) {
		_, st := c.e.callTerm(c.fr, c.ins, c.args[1].collapse(), nil, c.sigOf(c.args[1]), c.st, "once")
		if st.pc == F {
			return nil, c.st
		}
		return nil, st
	}
	V := "(*github.com/jroimartin/gocui.View)."
	for n, op := range map[string]string{"ViewBuffer": "viewbuffer", "Buffer": "buffer", "ViewBufferLines": "viewbufferlines", "BufferLines": "bufferlines"} {
		op := op
		var ty types.Type = types.Typ[types.String]
		if strings.HasSuffix(op, "lines") {
			ty = types.NewSlice(ty)
		}
		h[V+n] = func(c *Call) ([]Val, State) {
			c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
			return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return mkT(OCall, op, 0, nil, ty, t) })}, c.st
		}
	}
	h["golang.org/x/term.ReadPassword"] = func(c *Call) ([]Val, State) {
		rs, st := c.impure(false)
		t := mkT(OCall, "password", c.site("pw"), nil, types.NewSlice(types.Typ[types.Byte]))
		rs[0] = one(t)
		return rs, st
	}
	h["golang.org/x/crypto/ssh/terminal.ReadPassword"] = h["golang.org/x/term.ReadPassword"]
	h["golang.org/x/crypto/pbkdf2.Key"] = func(c *Call) ([]Val, State) {
		c.e.emit(c.fr, "call", c.name, c.ins, c.pos, c.st, c.args, nil)
		return c.pure()
	}
	h["(*github.com/spf13/cobra.Command).Flags"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return mkT(OCall, "!flags", 0, nil, nil, t) })}, c.st
	}
	h["(*github.com/spf13/cobra.Command).PersistentFlags"] = func(c *Call) ([]Val, State) {
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return mkT(OCall, "!pflags", 0, nil, nil, t) })}, c.st
	}
	for _, n := range []string{"String", "Bool", "Int"} {
		for _, p := range []string{"VarP", "Var"} {
			h["(*github.com/spf13/pflag.FlagSet)."+n+p] = func(c *Call) ([]Val, State) { return c.impure(false) }
		}
		n := n
		for _, p := range []string{"P", ""} {
			p := p
			h["(*github.com/spf13/pflag.FlagSet)."+n+p] = func(c *Call) ([]Val, State) {
				rs, st := c.impure(false)
				// returns a fresh pointer
				rt := c.sig.Results().At(0).Type()
				o := c.e.newObj(c.fr, c.ins, "flag"+c.tag, rt, allocInfo{kind: "new"})
				c.e.events[len(c.e.events)-1].res = o
				di := 2
				if p == "P" {
					di = 3
				}
				st = c.e.store(st, one(o), c.args[di], derefType(rt))
				rs[0] = one(o)
				return rs, st
			}
		}
	}
	h["(*sync.Once).Do"] = func(c *Call) ([]Val, State) {
		_, st := c.e.callTerm(c.fr, c.ins, c.args[1].collapse(), nil, c.sigOf(c.args[1]), c.st, "once")
		return nil, st
	}
	for _, n := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		for _, t := range []string{"Mutex", "RWMutex"} {
			h["(*sync."+t+")."+n] = func(c *Call) ([]Val, State) {
				c.e.emit(c.fr, "sync", c.name, c.ins, c.pos, c.st, c.args, nil)
				return nil, c.st
			}
		}
	}
	h["time.Since"] = func(c *Call) ([]Val, State) {
		now := mkT(OCall, "time.Now", c.site("now"), nil, nil)
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return foldPure("(time.Time).Sub", []*Term{now, t}) })}, c.st
	}
	h["time.Until"] = func(c *Call) ([]Val, State) {
		now := mkT(OCall, "time.Now", c.site("now"), nil, nil)
		return []Val{lift1(c.args[0], c.st.pc, func(t *Term) *Term { return foldPure("(time.Time).Sub", []*Term{t, now}) })}, c.st
	}
}

func (c *Call) sigOf(v Val) *types.Signature {
	t := unwrap(v.collapse())
	if fn, ok := t.aux.(*ssa.Function); ok {
		return fn.Signature
	}
	return types.NewSignatureType(nil, nil, nil, nil, nil, false)
}

func digest(alg string, key, data *Term) *Term {
	return mkT(OCall, "digest:"+alg, 0, nil, types.NewSlice(types.Typ[types.Byte]), key, data)
}

// storeLocState stores a decoded document into a struct object.
func (e *Engine) storeLocState(st State, p *Term, v Val, et types.Type) State {
	return State{st.pc, e.storeLoc(st, p, v, et, T, false)}
}

// methodHook handles calls through external interfaces on modelled objects
// and methods promoted through embedded fields.
func (e *Engine) methodHook(c *Call) hook {
	if len(c.args) == 0 {
		return nil
	}
	o := unwrap(c.args[0].collapse())
	if o.op == OAlloc {
		if i, ok := o.aux.(allocInfo); ok && i.kind == "hash" {
			m := c.name[strings.LastIndex(c.name, ".")+1:]
			switch m {
			case "Write":
				return e.hooks["(io.Writer).Write"]
			case "Sum":
				return e.hooks["(hash.Hash).Sum"]
			case "Reset":
				return e.hooks["(hash.Hash).Reset"]
			case "Size":
				return func(c *Call) ([]Val, State) {
					return []Val{one(mkT(OCall, "hashsize", 0, nil, types.Typ[types.Int], o))}, c.st
				}
			}
		}
	}
	return nil
}

// stdinReader: standard input itself, or a reader of the program whose Read
// passes on what standard input yields.
func (e *Engine) stdinReader(t *Term) bool {
	if t.op == OSym && t.s == "!os.Stdin" {
		return true
	}
	if t.typ == nil {
		return false
	}
	obj, _, _ := types.LookupFieldOrMethod(t.typ, true, nil, "Read")
	f, ok := obj.(*types.Func)
	if !ok || f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), repoPrefix) {
		return false
	}
	fn := e.prog.FuncValue(f)
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for _, res := range r.Results {
				x, ok := res.(*ssa.Extract)
				if !ok {
					return false
				}
				call, ok := x.Tuple.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "(*os.File).Read" {
					return false
				}
				ld, ok := call.Call.Args[0].(*ssa.UnOp)
				if !ok || ld.X.String() != "os.Stdin" && ld.X.Name() != "os.Stdin" {
					return false
				}
			}
		}
	}
	return true
}
