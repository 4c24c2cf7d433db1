package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

var total int

// rewriter renders one file with the concurrency constructs replaced.
type rewriter struct {
	fset     *token.FileSet
	file     *ast.File
	src      []byte
	info     *types.Info
	redirect func(string) string
	base     int
	used     bool
	n        int
}

type edit struct {
	from, to token.Pos
	text     string
}

func (r *rewriter) run() []byte {
	body := r.render(r.file.FileStart, r.file.FileEnd, r.file)
	if r.used {
		// after the package clause
		i := strings.Index(body, "\n"+"package ")
		if strings.HasPrefix(body, "package ") {
			i = 0
		} else if i >= 0 {
			i++
		}
		// use the parsed position: the text up to the package name is never edited
		off := int(r.file.Name.End()) - r.base
		_ = i
		body = body[:off] + "; import vrt__ \"verif/rt\"" + body[off:]
	}
	return []byte(body)
}

func (r *rewriter) text(from, to token.Pos) string {
	return string(r.src[int(from)-r.base : int(to)-r.base])
}

func (r *rewriter) node(n ast.Node) string { return r.render(n.Pos(), n.End(), n) }

// render gives the source of [from,to) with the outermost rewritten nodes below n replaced.
func (r *rewriter) render(from, to token.Pos, nodes ...ast.Node) string {
	var edits []edit
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil {
				return false
			}
			if s, ok := r.replace(x); ok {
				edits = append(edits, edit{x.Pos(), x.End(), s})
				total++
				return false
			}
			return true
		})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b bytes.Buffer
	p := from
	for _, e := range edits {
		b.WriteString(r.text(p, e.from))
		b.WriteString(e.text)
		p = e.to
	}
	b.WriteString(r.text(p, to))
	return b.String()
}

func (r *rewriter) fresh(p string) string {
	r.n++
	return fmt.Sprintf("v%s__%d", p, r.n)
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return o.Type()
			}
			if o := r.info.Defs[id]; o != nil {
				return o.Type()
			}
		}
		return nil
	}
	return tv.Type
}

func coreIs[T types.Type](t types.Type) bool {
	if t == nil {
		return false
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		iface := tp.Constraint().Underlying().(*types.Interface)
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			if un, ok := iface.EmbeddedType(i).(*types.Union); ok && un.Len() > 0 {
				u = un.Term(0).Type().Underlying()
			}
		}
	}
	_, ok := u.(T)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) builtin(c *ast.CallExpr) string {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rewriter) rt(name string) string {
	r.used = true
	return "vrt__." + name
}

// replace returns the replacement of x, if it is one of the rewritten constructs.
func (r *rewriter) replace(x ast.Node) (string, bool) {
	switch x := x.(type) {
	case *ast.ImportSpec:
		p, _ := strconv.Unquote(x.Path.Value)
		t := r.redirect(p)
		if t == "" {
			return "", false
		}
		name := ""
		if x.Name != nil {
			name = x.Name.Name + " "
		} else if p == "internal/reflectlite" {
			name = "reflectlite "
		}
		return name + strconv.Quote(t), true
	case *ast.GoStmt:
		return r.goStmt(x), true
	case *ast.SendStmt:
		return fmt.Sprintf("%s(%s)(%s)", r.rt("Send"), r.node(x.Chan), r.node(x.Value)), true
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := isRecv(x.Rhs[0]); u != nil {
				lhs := r.render(x.Lhs[0].Pos(), x.Lhs[1].End(), x.Lhs[0], x.Lhs[1])
				return fmt.Sprintf("%s %s %s(%s)", lhs, x.Tok, r.rt("Recv2"), r.node(u.X)), true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := isRecv(x.Values[0]); u != nil {
				return fmt.Sprintf("%s %s(%s)", r.render(x.Pos(), x.Values[0].Pos(), x.Type), r.rt("Recv2"), r.node(u.X)), true
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return fmt.Sprintf("%s(%s)", r.rt("Recv"), r.node(x.X)), true
		}
	case *ast.CallExpr:
		switch r.builtin(x) {
		case "close":
			return fmt.Sprintf("%s(%s)", r.rt("Close"), r.node(x.Args[0])), true
		case "len":
			if coreIs[*types.Chan](r.typ(x.Args[0])) {
				return fmt.Sprintf("%s(%s)", r.rt("Len"), r.node(x.Args[0])), true
			}
		}
	case *ast.SelectStmt:
		return r.selectStmt(x), true
	case *ast.RangeStmt:
		t := r.typ(x.X)
		if coreIs[*types.Chan](t) {
			return r.rangeChan(x), true
		}
		if coreIs[*types.Map](t) {
			return r.rangeMap(x), true
		}
	}
	return "", false
}

func (r *rewriter) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if r.builtin(c) != "" {
		return fmt.Sprintf("%s(func() { %s })", r.rt("Go"), r.node(c))
	}
	var names, vals []string
	fun := ""
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		if len(c.Args) == 0 && len(f.Type.Params.List) == 0 && f.Type.Results == nil {
			return fmt.Sprintf("%s(%s)", r.rt("Go"), r.node(f))
		}
		fun = r.fresh("f")
		names, vals = append(names, fun), append(vals, r.node(c.Fun))
	default:
		plain := false
		if id, ok := unparen(c.Fun).(*ast.Ident); ok {
			_, plain = r.info.Uses[id].(*types.Func)
		}
		if _, ok := unparen(c.Fun).(*ast.IndexExpr); ok {
			plain = true // instantiated generic function
		}
		if sel, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				_, plain = r.info.Uses[id].(*types.PkgName)
			}
		}
		if tv, ok := r.info.Types[c.Fun]; ok && tv.IsType() {
			plain = true
		}
		if plain {
			fun = r.node(c.Fun)
		} else {
			fun = r.fresh("f")
			names, vals = append(names, fun), append(vals, r.node(c.Fun))
		}
	}
	var args []string
	for _, a := range c.Args {
		tv := r.info.Types[a]
		_, tuple := tv.Type.(*types.Tuple)
		if tv.Value != nil || tv.IsNil() || tuple {
			args = append(args, r.node(a))
			continue
		}
		n := r.fresh("a")
		names, vals = append(names, n), append(vals, r.node(a))
		args = append(args, n)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	pre := ""
	if len(names) > 0 {
		pre = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	return fmt.Sprintf("{ %s%s(func() { %s(%s%s) }) }", pre, r.rt("Go"), fun, strings.Join(args, ", "), ell)
}

func (r *rewriter) stmts(list []ast.Stmt, end token.Pos, after token.Pos) string {
	nodes := make([]ast.Node, len(list))
	for i, s := range list {
		nodes[i] = s
	}
	return r.render(after, end, nodes...)
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) string {
	if len(x.Body.List) == 0 {
		return fmt.Sprintf("{ %s(); panic(\"unreachable\") }", r.rt("BlockForever"))
	}
	var names, vals []string
	dflt := false
	var body strings.Builder
	i := 0
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		end := cc.End()
		if cc.Comm == nil {
			dflt = true
			fmt.Fprintf(&body, "default:%s\n", r.stmts(cc.Body, end, cc.Colon+1))
			continue
		}
		name := r.fresh("c")
		pre := ""
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, fmt.Sprintf("%s(%s)(%s)", r.rt("CaseSend"), r.node(cm.Chan), r.node(cm.Value)))
		case *ast.ExprStmt:
			vals = append(vals, fmt.Sprintf("%s(%s)", r.rt("CaseRecv"), r.node(isRecv(cm.X).X)))
		case *ast.AssignStmt:
			vals = append(vals, fmt.Sprintf("%s(%s)", r.rt("CaseRecv"), r.node(isRecv(cm.Rhs[0]).X)))
			if len(cm.Lhs) == 1 {
				pre = fmt.Sprintf(" %s %s %s.V();", r.node(cm.Lhs[0]), cm.Tok, name)
			} else {
				pre = fmt.Sprintf(" %s, %s %s %s.V2();", r.node(cm.Lhs[0]), r.node(cm.Lhs[1]), cm.Tok, name)
			}
		}
		names = append(names, name)
		fmt.Fprintf(&body, "case %d:%s%s\n", i, pre, r.stmts(cc.Body, end, cc.Colon+1))
		i++
	}
	if !dflt {
		body.WriteString("default: panic(\"unreachable\")\n")
	}
	head := ""
	if len(names) > 0 {
		head = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	return fmt.Sprintf("switch %s%s(%t%s) {\n%s}", head, r.rt("Select"), dflt, prefixed(names), body.String())
}

func prefixed(names []string) string {
	s := ""
	for _, n := range names {
		s += ", " + n
	}
	return s
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// block renders the inside of a block after its opening brace, closing brace included.
func (r *rewriter) block(b *ast.BlockStmt) string {
	return r.stmts(b.List, b.End(), b.Lbrace+1)
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) string {
	ch, ok := r.fresh("ch"), r.fresh("ok")
	v := "_"
	decl := ""
	if !blank(x.Key) {
		if x.Tok == token.DEFINE {
			v = r.node(x.Key)
		} else {
			tmp := r.fresh("v")
			v = tmp
			decl = fmt.Sprintf(" %s = %s;", r.node(x.Key), tmp)
		}
	}
	return fmt.Sprintf("for %s := %s; ; { %s, %s := %s(%s); if !%s { break };%s%s", ch, r.node(x.X), v, ok, r.rt("Recv2"), ch, ok, decl, r.block(x.Body))
}

func (r *rewriter) rangeMap(x *ast.RangeStmt) string {
	it := r.fresh("it")
	k, v := r.fresh("k"), r.fresh("v")
	asg := ""
	if x.Tok == token.DEFINE {
		if !blank(x.Key) {
			k = r.node(x.Key)
		}
		if !blank(x.Value) {
			v = r.node(x.Value)
		}
	} else {
		if !blank(x.Key) {
			asg += fmt.Sprintf(" %s = %s;", r.node(x.Key), k)
		}
		if !blank(x.Value) {
			asg += fmt.Sprintf(" %s = %s;", r.node(x.Value), v)
		}
	}
	return fmt.Sprintf("for %s, %s, %s := %s(%s); %s.Next(&%s, &%s); {%s%s", it, k, v, r.rt("MapIter"), r.node(x.X), it, k, v, asg, r.block(x.Body))
}
