// mutgen lists small changes of a repository's Go files, one per line, as
// JSON: behaviour-preserving rewrites (mode "ref") or behaviour changes (mode
// "mut"). It is used to test the analyser; no check runs it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	Pos, End int
	New      string
}

type change struct {
	ID    string
	Op    string
	File  string
	Line  int
	Edits []edit
}

var (
	src  []byte
	fset *token.FileSet
	file string
	out  []change
	fn   *ast.FuncDecl
)

func at(p token.Pos) int            { return fset.Position(p).Offset }
func text(n ast.Node) string        { return string(src[at(n.Pos()):at(n.End())]) }
func rng(a, b token.Pos) string     { return string(src[at(a):at(b)]) }
func rep(n ast.Node, s string) edit { return edit{at(n.Pos()), at(n.End()), s} }

func add(op string, n ast.Node, es ...edit) {
	sort.Slice(es, func(i, j int) bool { return es[i].Pos < es[j].Pos })
	l := fset.Position(n.Pos()).Line
	out = append(out, change{fmt.Sprintf("%s-%s-%d-%d", op, strings.TrimSuffix(filepath.Base(file), ".go"), l, len(out)), op, file, l, es})
}

func main() {
	mode, root := os.Args[1], os.Args[2]
	var files []string
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/test/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		fset = token.NewFileSet()
		b, _ := os.ReadFile(f)
		src = b
		file, _ = filepath.Rel(root, f)
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				fn = fd
				if mode == "ref" {
					refFunc(fd)
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if n != nil {
						if mode == "ref" {
							refNode(n)
						} else {
							mutNode(n)
						}
					}
					return true
				})
			}
		}
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	for _, c := range out {
		e.Encode(c)
	}
}

// ---- behaviour-preserving rewrites

func hasJump(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func hasReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func endsInJump(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	}
	return false
}

func refFunc(fd *ast.FuncDecl) {
	// delegate to a new function
	ok := fd.Name.Name != "init" && fd.Name.Name != "main" && fd.Type.TypeParams == nil
	var args []string
	for _, p := range fd.Type.Params.List {
		if _, v := p.Type.(*ast.Ellipsis); v {
			ok = false
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				ok = false
			}
			args = append(args, n.Name)
		}
		if len(p.Names) == 0 {
			ok = false
		}
	}
	if ok {
		recv, call := "", "do"+strings.Title(fd.Name.Name)
		if fd.Recv != nil {
			if len(fd.Recv.List[0].Names) == 0 {
				return
			}
			recv = rng(fd.Recv.Pos(), fd.Recv.End()) + " "
			call = fd.Recv.List[0].Names[0].Name + "." + call
		}
		ret := ""
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			ret = "return "
		}
		sig := rng(fd.Name.End(), fd.Body.Lbrace)
		add("delegate", fd, edit{at(fd.Body.Lbrace), at(fd.Body.End()), "{\n" + ret + call + "(" + strings.Join(args, ", ") + ")\n}\n\nfunc " + recv + "do" + strings.Title(fd.Name.Name) + sig + text(fd.Body)})
	}
	add("nop", fd, edit{at(fd.Body.Lbrace) + 1, at(fd.Body.Lbrace) + 1, "\n_ = 0\n"})
	// the whole body in a function literal
	if !containsRecover(fd.Body) && (fd.Type.Results == nil || len(fd.Type.Results.List) == 0) {
		add("bodyfunc", fd, edit{at(fd.Body.Lbrace), at(fd.Body.End()), "{\nfunc() " + text(fd.Body) + "()\n}"})
	}
}

func containsRecover(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && i.Name == "recover" {
			f = true
		}
		return true
	})
	return f
}

var tmp int

func fresh(s string) string { tmp++; return s + strconv.Itoa(tmp) }

func refNode(n ast.Node) {
	switch x := n.(type) {
	case *ast.IfStmt:
		// swapped branches
		if b, ok := x.Else.(*ast.BlockStmt); ok {
			add("swapif", x, rep(x.Cond, "!("+text(x.Cond)+")"), rep(x.Body, text(b)), rep(b, text(x.Body)))
		}
		if x.Init != nil {
			add("initout", x, edit{at(x.Pos()), at(x.Cond.Pos()), "{\n" + text(x.Init) + "\nif "}, edit{at(x.End()), at(x.End()), "\n}\n"})
		} else {
			if !isElse(x) {
				v := fresh("cond")
				add("condvar", x, edit{at(x.Pos()), at(x.Pos()), v + " := " + text(x.Cond) + "\n"}, rep(x.Cond, v))
			}
		}
		if x.Else == nil {
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				add("nestif", x, rep(x.Cond, text(b.X)), edit{at(x.Body.Lbrace) + 1, at(x.Body.Lbrace) + 1, "\nif " + text(b.Y) + " {"}, edit{at(x.Body.Rbrace), at(x.Body.Rbrace), "}\n"})
			}
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && x.Init == nil && endsInJump(x.Body) && !isElse(x) {
				add("splitor", x, rep(x, "if "+text(b.X)+" "+text(x.Body)+"\n\nif "+text(b.Y)+" "+text(x.Body)))
			}
			if x.Init == nil {
				add("switchif", x, rep(x, "switch {\ncase "+text(x.Cond)+":\n"+inner(x.Body)+"\n}"))
			}
		} else if x.Init == nil && !isElse(x) && !hasBranch(x) {
			// chain to switch
			var s strings.Builder
			s.WriteString("switch {\n")
			good := true
			var cur ast.Stmt = x
			for cur != nil {
				switch c := cur.(type) {
				case *ast.IfStmt:
					if c.Init != nil {
						good = false
					}
					s.WriteString("case " + text(c.Cond) + ":\n" + inner(c.Body) + "\n")
					cur = c.Else
				case *ast.BlockStmt:
					s.WriteString("default:\n" + inner(c) + "\n")
					cur = nil
				}
			}
			s.WriteString("}")
			if good {
				add("chainswitch", x, rep(x, s.String()))
			}
		}
	case *ast.BlockStmt:
		for i, s := range x.List {
			// the rest in an else branch
			if f, ok := s.(*ast.IfStmt); ok && f.Else == nil && endsInJump(f.Body) && i+1 < len(x.List) {
				if _, r := f.Body.List[len(f.Body.List)-1].(*ast.ReturnStmt); r {
					add("elserest", f, edit{at(f.End()), at(f.End()), " else {"}, edit{at(x.Rbrace), at(x.Rbrace), "\n}\n"})
				}
				if br, c := f.Body.List[len(f.Body.List)-1].(*ast.BranchStmt); c && br.Tok == token.CONTINUE && len(f.Body.List) == 1 && f.Init == nil {
					add("wraprest", f, edit{at(f.Pos()), at(f.End()), "if !(" + text(f.Cond) + ") {"}, edit{at(x.Rbrace), at(x.Rbrace), "\n}\n"})
				}
			}
			if i+1 < len(x.List) && independent(s, x.List[i+1]) {
				t := x.List[i+1]
				add("swapstmt", s, rep(s, text(t)), rep(t, text(s)))
			}
			switch y := s.(type) {
			case *ast.ExprStmt:
				add("callfunc", y, rep(y, "func() {\n"+text(y)+"\n}()"))
				hoistArgs(y, y.X)
			case *ast.ForStmt, *ast.RangeStmt:
				if !hasReturn(y) {
					add("loopfunc", y, rep(y, "func() {\n"+text(y)+"\n}()"))
				}
			case *ast.AssignStmt:
				if y.Tok == token.DEFINE && len(y.Lhs) == 1 && len(y.Rhs) == 1 {
					add("vardecl", y, edit{at(y.Pos()), at(y.Pos()), "var "}, edit{at(y.TokPos), at(y.TokPos) + 2, "="})
				}
				if len(y.Rhs) == 1 {
					hoistArgs(y, y.Rhs[0])
					if y.Tok == token.ASSIGN && len(y.Lhs) == 1 {
						if _, isCall := y.Rhs[0].(*ast.CallExpr); isCall && simple(y.Lhs[0]) {
							v := fresh("val")
							add("valvar", y, rep(y, v+" := "+text(y.Rhs[0])+"\n"+text(y.Lhs[0])+" = "+v))
						}
					}
				}
				if y.Tok == token.ADD_ASSIGN {
					add("plus", y, rep(y, text(y.Lhs[0])+" = "+text(y.Lhs[0])+" + ("+text(y.Rhs[0])+")"))
				}
			case *ast.IncDecStmt:
				op := "+"
				if y.Tok == token.DEC {
					op = "-"
				}
				add("incdec", y, rep(y, text(y.X)+" = "+text(y.X)+" "+op+" 1"))
			case *ast.ReturnStmt:
				if len(y.Results) == 1 {
					if _, ok := y.Results[0].(*ast.Ident); !ok && !isNilOrConst(y.Results[0]) && len(resultList()) == 1 {
						v := fresh("res")
						add("retvar", y, rep(y, "var "+v+" "+resultList()[0]+" = "+text(y.Results[0])+"\nreturn "+v))
					}
				}
			}
		}
	case *ast.RangeStmt:
		if x.Tok == token.DEFINE && x.Value != nil && simple(x.X) {
			i, own := "_", ""
			if id, ok := x.Key.(*ast.Ident); ok {
				i = id.Name
			}
			if i == "_" {
				i = fresh("pos")
			} else {
				own = "_ = " + i + "\n"
			}
			head := "for " + i + " := 0; " + i + " < len(" + text(x.X) + "); " + i + "++ {\n" + own
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				head += id.Name + " := " + text(x.X) + "[" + i + "]\n"
			}
			add("indexloop", x, edit{at(x.Pos()), at(x.Body.Lbrace) + 1, head})
			head2 := "for " + i + " := range " + text(x.X) + " {\n" + own
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				head2 += id.Name + " := " + text(x.X) + "[" + i + "]\n"
			}
			add("keyloop", x, edit{at(x.Pos()), at(x.Body.Lbrace) + 1, head2})
		}
		if !hasJump(x.Body) {
			add("loopbody", x, rep(x.Body, "{\nfunc() "+text(x.Body)+"()\n}"))
		}
	case *ast.BinaryExpr:
		flip := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
		if f, ok := flip[x.Op]; ok {
			add("flip", x, rep(x, text(x.Y)+" "+f+" "+text(x.X)))
			neg := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}
			add("notnot", x, rep(x, "!("+text(x.X)+" "+neg[x.Op]+" "+text(x.Y)+")"))
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			o := map[token.Token]string{token.LAND: "||", token.LOR: "&&"}[x.Op]
			add("demorgan", x, rep(x, "!(!("+text(x.X)+") "+o+" !("+text(x.Y)+"))"))
		}
	case *ast.CompositeLit:
		_ = x
	}
}

func resultList() []string {
	var r []string
	if fn.Type.Results == nil {
		return nil
	}
	for _, f := range fn.Type.Results.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for i := 0; i < k; i++ {
			r = append(r, text(f.Type))
		}
	}
	return r
}

func isNilOrConst(e ast.Expr) bool {
	switch e.(type) {
	case *ast.BasicLit, *ast.Ident:
		return true
	}
	return false
}

func inner(b *ast.BlockStmt) string { return string(src[at(b.Lbrace)+1 : at(b.Rbrace)]) }

func hasBranch(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Tok == token.BREAK {
			f = true
		}
		return true
	})
	return f
}

func isElse(x *ast.IfStmt) bool {
	f := false
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.IfStmt); ok && i.Else == x {
			f = true
		}
		return true
	})
	return f
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

// hoistArgs gives the first argument that is a call a name.
func hoistArgs(s ast.Stmt, e ast.Expr) {
	c, ok := e.(*ast.CallExpr)
	if !ok || !simple(c.Fun) {
		return
	}
	for _, a := range c.Args {
		switch a.(type) {
		case *ast.CallExpr, *ast.BinaryExpr, *ast.IndexExpr:
			v := fresh("arg")
			add("argvar", s, edit{at(s.Pos()), at(s.Pos()), v + " := " + text(a) + "\n"}, rep(a, v))
			return
		case *ast.BasicLit:
		default:
			if !simple(a) {
				return
			}
		}
	}
}

// independent: two assignments without calls that share no names.
func independent(a, b ast.Stmt) bool {
	names := func(s ast.Stmt) (w, r map[string]bool, ok bool) {
		w, r, ok = map[string]bool{}, map[string]bool{}, true
		as, is := s.(*ast.AssignStmt)
		if !is {
			return w, r, false
		}
		collect := func(n ast.Node, m map[string]bool) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.CallExpr, *ast.IndexExpr, *ast.TypeAssertExpr, *ast.FuncLit, *ast.StarExpr:
					if c, isC := y.(*ast.CallExpr); isC {
						if id, isI := c.Fun.(*ast.Ident); isI && (id.Name == "make" || id.Name == "len") {
							return true
						}
					}
					ok = false
				case *ast.Ident:
					m[y.Name] = true
				case *ast.SelectorExpr:
					m[text(y)] = true
					return false
				}
				return true
			})
		}
		for _, l := range as.Lhs {
			if s, isS := l.(*ast.SelectorExpr); isS {
				w[text(s)] = true
				w["."+s.Sel.Name] = true
			} else {
				collect(l, w)
			}
		}
		for _, l := range as.Rhs {
			collect(l, r)
		}
		return
	}
	w1, r1, ok1 := names(a)
	w2, r2, ok2 := names(b)
	if !ok1 || !ok2 {
		return false
	}
	for x := range w1 {
		if w2[x] || r2[x] {
			return false
		}
		for y := range r2 {
			if strings.HasPrefix(y, x+".") || strings.HasPrefix(x, ".") && strings.HasSuffix(y, x) {
				return false
			}
		}
		for y := range w2 {
			if strings.HasPrefix(y, x+".") {
				return false
			}
		}
	}
	for x := range w2 {
		if r1[x] {
			return false
		}
		for y := range r1 {
			if strings.HasPrefix(y, x+".") || strings.HasPrefix(x, ".") && strings.HasSuffix(y, x) {
				return false
			}
		}
	}
	return true
}

// ---- behaviour changes

func mutNode(n ast.Node) {
	switch x := n.(type) {
	case *ast.IfStmt:
		add("negate", x, rep(x.Cond, "!("+text(x.Cond)+")"))
		if x.Else == nil && x.Init == nil {
			add("always", x, rep(x.Cond, "("+text(x.Cond)+") || true"))
		}
		add("never", x, rep(x.Cond, "("+text(x.Cond)+") && false"))
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			add("or", x, edit{at(x.OpPos), at(x.OpPos) + 2, "||"})
			add("left", x, rep(x, text(x.X)))
			add("right", x, rep(x, text(x.Y)))
		case token.LOR:
			add("and", x, edit{at(x.OpPos), at(x.OpPos) + 2, "&&"})
			add("left", x, rep(x, text(x.X)))
			add("right", x, rep(x, text(x.Y)))
		case token.LSS:
			add("le", x, edit{at(x.OpPos), at(x.OpPos) + 1, "<="})
		case token.LEQ:
			add("lt", x, edit{at(x.OpPos), at(x.OpPos) + 2, "<"})
		case token.GTR:
			add("ge", x, edit{at(x.OpPos), at(x.OpPos) + 1, ">="})
		case token.GEQ:
			add("gt", x, edit{at(x.OpPos), at(x.OpPos) + 2, ">"})
		case token.ADD:
			add("minus", x, edit{at(x.OpPos), at(x.OpPos) + 1, "-"})
		case token.SUB:
			add("plus", x, edit{at(x.OpPos), at(x.OpPos) + 1, "+"})
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
				add("inc", x, rep(x, strconv.FormatInt(v+1, 10)))
				if v > 0 {
					add("dec", x, rep(x, strconv.FormatInt(v-1, 10)))
				}
			}
		}
	case *ast.Ident:
		if x.Name == "true" {
			add("false", x, rep(x, "false"))
		} else if x.Name == "false" {
			add("true", x, rep(x, "true"))
		}
	case *ast.BlockStmt:
		for _, s := range x.List {
			switch y := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				add("del", y, rep(y, ""))
			case *ast.AssignStmt:
				if y.Tok != token.DEFINE {
					add("del", y, rep(y, ""))
				}
			case *ast.IfStmt:
				if y.Init != nil {
					add("delif", y, rep(y, text(y.Init)+"\n_ = err"))
					add("delifall", y, rep(y, ""))
				} else {
					add("delif", y, rep(y, ""))
				}
			case *ast.ReturnStmt:
				if len(y.Results) > 0 && text(y.Results[len(y.Results)-1]) == "err" {
					l := y.Results[len(y.Results)-1]
					add("retnil", y, rep(l, "nil"))
				}
			case *ast.BranchStmt:
				if y.Tok == token.CONTINUE {
					add("break", y, rep(y, "break"))
				} else if y.Tok == token.BREAK {
					add("continue", y, rep(y, "continue"))
				}
			}
		}
	case *ast.CallExpr:
		for i := 0; i+1 < len(x.Args); i++ {
			add("swapargs", x, rep(x.Args[i], text(x.Args[i+1])), rep(x.Args[i+1], text(x.Args[i])))
		}
	}
}
