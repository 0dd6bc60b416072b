package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// The rewriter replaces the environment of the code under test (threads, locks,
// clock, files, network, RSA, gzip) by the shims of the vf package. It changes
// nothing else; the result is used both for the symbolic run and for the native
// replay.

var pkgShims = map[string]map[string]string{
	"os": {
		"OpenFile": "OpenFile", "Create": "Create", "Open": "Open", "TempDir": "TempDir", "Mkdir": "Mkdir", "MkdirAll": "MkdirAll", "Remove": "Remove",
		"RemoveAll": "RemoveAll", "Rename": "Rename", "Stat": "Stat", "Lstat": "Stat", "ReadFile": "ReadFile", "WriteFile": "WriteFile", "ReadDir": "ReadDirEntries",
		"File": "File", "IsNotExist": "IsNotExist", "IsExist": "IsExist", "IsPermission": "IsPermission", "ErrNotExist": "ErrNotExist", "ErrExist": "ErrExist",
		"ErrPermission": "ErrPermission", "CreateTemp": "TempFile", "MkdirTemp": "MkdirTemp", "Truncate": "Truncate", "Chmod": "Chmod", "Getenv": "Getenv",
		"UserCacheDir": "UserCacheDir", "Getwd": "Getwd", "ErrClosed": "ErrClosed",
	},
	"io/ioutil":     {"WriteFile": "WriteFile", "ReadFile": "ReadFile", "ReadDir": "ReadDir", "TempFile": "TempFile", "TempDir": "MkdirTemp"},
	"path/filepath": {"Walk": "Walk", "WalkDir": "WalkDir", "Glob": "Glob"},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "NewTicker": "NewTicker", "NewTimer": "NewTimer", "After": "After", "AfterFunc": "AfterFunc", "Sleep": "Sleep",
		"Tick": "Tick", "Ticker": "Ticker", "Timer": "Timer",
	},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Map": "Map", "Pool": "Pool", "Cond": "Cond", "NewCond": "NewCond", "Locker": "Locker"},
	"sync/atomic": {
		"Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Uint64": "AtomicUint64", "Bool": "AtomicBool", "Value": "AtomicValue",
	},
	"net":           {"Listen": "Listen"},
	"crypto/rsa":    {"EncryptOAEP": "EncryptOAEP", "DecryptOAEP": "DecryptOAEP"},
	"crypto/sha1":   {"New": "NewSHA1"},
	"compress/gzip": {"NewWriter": "NewGzipWriter", "NewWriterLevel": "NewGzipWriterLevel", "NewReader": "NewGzipReader", "Writer": "GzipWriter", "Reader": "GzipReader", "ErrHeader": "ErrGzipHeader", "ErrChecksum": "ErrGzipChecksum"},
}

func init() {
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
		for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
			pkgShims["sync/atomic"][op+k] = op + k
		}
	}
}

type edit struct {
	from, to int
	text     string
	ins      bool
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int // file base
	edits []edit
	file  *ast.File
	pkg   *types.Package
	fine  bool // statement-level scheduling points
	finer bool // the same in the protocol packages
	uses  map[*types.PkgName]int
	gone  map[*types.PkgName]int
	nth   int
	used  bool
	selOK map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

// render gives the source of a range with the edits inside it applied
func (r *rewriter) render(from, to int) string {
	var in []edit
	for _, e := range r.edits {
		if e.from >= from && e.to <= to && !(e.ins && e.from == to && from != to) {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].from != in[j].from {
			return in[i].from < in[j].from
		}
		if in[i].ins != in[j].ins {
			return in[i].ins
		}
		return in[i].to > in[j].to
	})
	var sb strings.Builder
	pos := from
	for _, e := range in {
		if e.from < pos {
			continue
		}
		sb.Write(r.src[pos:e.from])
		sb.WriteString(e.text)
		pos = e.to
	}
	sb.Write(r.src[pos:to])
	return sb.String()
}

func (r *rewriter) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

// replace removes the edits inside a range and puts text there
func (r *rewriter) replace(from, to int, text string) {
	keep := r.edits[:0]
	for _, e := range r.edits {
		if e.from >= from && e.to <= to && !(e.ins && e.from == from) {
			continue
		}
		keep = append(keep, e)
	}
	r.edits = append(keep, edit{from, to, text, false})
}

func (r *rewriter) insert(at int, text string) {
	r.edits = append(r.edits, edit{at, at, text, true})
	r.used = true
}

func (r *rewriter) name(p string) string {
	r.nth++
	return fmt.Sprintf("zz%s%d", p, r.nth)
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) mapType(e ast.Expr) *types.Map {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func simpleExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return simpleExpr(x.X)
	case *ast.ParenExpr:
		return simpleExpr(x.X)
	case *ast.StarExpr:
		return simpleExpr(x.X)
	}
	return false
}

func (r *rewriter) rewriteFile() string {
	// count imports
	for id, o := range r.info.Uses {
		if pn, ok := o.(*types.PkgName); ok && r.inFile(id.Pos()) {
			r.uses[pn]++
		}
	}
	for _, d := range r.file.Decls {
		r.walk(d)
	}
	for _, sp := range r.file.Imports {
		path, _ := strconv.Unquote(sp.Path.Value)
		var pn *types.PkgName
		if sp.Name != nil {
			pn, _ = r.info.Defs[sp.Name].(*types.PkgName)
		} else {
			pn, _ = r.info.Implicits[sp].(*types.PkgName)
		}
		if path == "github.com/funny/link" {
			name := "link"
			if sp.Name != nil {
				name = sp.Name.Name
			}
			r.replace(r.off(sp.Pos()), r.off(sp.End()), name+` "`+linkPath+`"`)
			continue
		}
		if pn != nil && r.gone[pn] > 0 && r.gone[pn] == r.uses[pn] {
			r.replace(r.off(sp.Pos()), r.off(sp.End()), `_ "`+path+`"`)
		}
	}
	if r.used {
		r.insert(r.off(r.file.Name.End()), `; import zzvf "`+vfPath+`"`)
	}
	return r.render(0, len(r.src))
}

func (r *rewriter) inFile(p token.Pos) bool {
	return r.off(p) >= 0 && r.off(p) < len(r.src)
}

// walk visits in post-order
func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}
	for _, c := range children(n) {
		r.walk(c)
	}
	switch x := n.(type) {
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if to, ok := pkgShims[pn.Imported().Path()][x.Sel.Name]; ok {
					r.replace(r.off(x.Pos()), r.off(x.End()), "zzvf."+to)
					r.gone[pn]++
					r.used = true
				}
			}
		}
	case *ast.CallExpr:
		r.call(x)
	case *ast.BlockStmt:
		r.list(x.List)
	case *ast.CaseClause:
		r.list(x.Body)
	case *ast.CommClause:
		r.list(x.Body)
	case *ast.RangeStmt:
		r.rng(x)
	case *ast.SelectStmt:
		r.sel(x)
	case *ast.GoStmt:
		r.goStmt(x)
	}
}

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			out = append(out, c)
		}
		return false
	})
	return out
}

func (r *rewriter) call(x *ast.CallExpr) {
	// key.Size() for RSA keys
	if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Size" && len(x.Args) == 0 {
		switch t := r.info.TypeOf(s.X); {
		case t == nil:
		case t.String() == "*crypto/rsa.PublicKey":
			r.replace(r.off(x.Pos()), r.off(x.End()), "zzvf.PubSize("+r.text(s.X)+")")
			r.used = true
		case t.String() == "*crypto/rsa.PrivateKey":
			r.replace(r.off(x.Pos()), r.off(x.End()), "zzvf.PrivSize("+r.text(s.X)+")")
			r.used = true
		case t.String() == "crypto/rsa.PublicKey":
			r.replace(r.off(x.Pos()), r.off(x.End()), "zzvf.PubSize(&"+r.text(s.X)+")")
			r.used = true
		}
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	r.used = true
	if f, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.replace(r.off(x.Pos()), r.off(x.End()), "zzvf.Go("+r.text(f)+")")
		return
	}
	var sb strings.Builder
	sb.WriteString("{ ")
	fn := r.text(c.Fun)
	if !simpleExpr(c.Fun) {
		v := r.name("f")
		fmt.Fprintf(&sb, "%s := %s; ", v, fn)
		fn = v
	} else if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		// method value: bind the receiver now
		if _, isPkg := r.info.Uses[firstIdent(s.X)].(*types.PkgName); !isPkg || r.info.Selections[s] != nil {
			v := r.name("f")
			fmt.Fprintf(&sb, "%s := %s; ", v, fn)
			fn = v
		}
	}
	var args []string
	for _, a := range c.Args {
		if tv := r.info.Types[a]; tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		v := r.name("a")
		fmt.Fprintf(&sb, "%s := %s; ", v, r.text(a))
		args = append(args, v)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&sb, "zzvf.Go(func() { %s(%s%s) }) }", fn, strings.Join(args, ", "), ell)
	r.replace(r.off(x.Pos()), r.off(x.End()), sb.String())
}

func firstIdent(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return firstIdent(x.X)
	case *ast.ParenExpr:
		return firstIdent(x.X)
	}
	return nil
}

// recvs finds channel receives in the expressions of a simple statement
func (r *rewriter) recvs(n ast.Node) []ast.Expr {
	var out []ast.Expr
	ast.Inspect(n, func(c ast.Node) bool {
		switch x := c.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.SelectStmt:
			return c == n
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				out = append(out, x.X)
			}
		}
		return true
	})
	return out
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return
		}
		at := r.off(s.Pos())
		inner := s
		for {
			if ls, ok := inner.(*ast.LabeledStmt); ok {
				inner = ls.Stmt
				continue
			}
			break
		}
		pre := ""
		switch x := inner.(type) {
		case *ast.SelectStmt, *ast.BlockStmt, *ast.EmptyStmt:
		case *ast.SendStmt:
			pre += "zzvf.WaitSend(" + r.text(x.Chan) + "); "
		case *ast.DeclStmt, *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.IncDecStmt:
			for _, c := range r.recvs(inner) {
				pre += "zzvf.WaitRecv(" + r.text(c) + "); "
			}
		}
		if c, ok := closeCall(inner); ok {
			if id, ok2 := c.Fun.(*ast.Ident); ok2 && r.info.Uses[id] == types.Universe.Lookup("close") {
				if _, isDefer := inner.(*ast.DeferStmt); isDefer {
					ch := r.text(c.Args[0])
					r.replace(r.off(inner.Pos()), r.off(inner.End()), "defer func() { zzvf.BeforeClose("+ch+"); close("+ch+") }()")
					r.used = true
				} else {
					pre += "zzvf.BeforeClose(" + r.text(c.Args[0]) + "); "
				}
			}
		}
		if r.fine {
			pre = r.mapUses(inner) + pre
			switch inner.(type) {
			case *ast.EmptyStmt, *ast.BlockStmt:
			default:
				pre = "zzvf.P(); " + pre
			}
			r.split(inner)
		}
		if r.finer {
			pre = r.mapUses(inner) + pre
			switch inner.(type) {
			case *ast.EmptyStmt, *ast.BlockStmt:
			default:
				pre = "zzvf.PP(); " + pre
			}
		}
		if pre != "" {
			r.insert(at, pre)
		}
	}
}

func closeCall(s ast.Stmt) (*ast.CallExpr, bool) {
	var e ast.Expr
	switch x := s.(type) {
	case *ast.ExprStmt:
		e = x.X
	case *ast.DeferStmt:
		e = x.Call
	}
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "close" {
		return nil, false
	}
	return c, true
}

// split makes a read-modify-write of a field two steps
func (r *rewriter) split(s ast.Stmt) {
	isField := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			return simpleExpr(x)
		case *ast.StarExpr:
			return simpleExpr(x.X)
		}
		return false
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if isField(x.X) {
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			t := r.text(x.X)
			v := r.name("t")
			r.replace(r.off(x.Pos()), r.off(x.End()), fmt.Sprintf("{ %s := %s; zzvf.P(); %s = %s %s 1 }", v, t, t, v, op))
			r.used = true
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && isField(x.Lhs[0]) {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			t := r.text(x.Lhs[0])
			v := r.name("t")
			r.replace(r.off(x.Pos()), r.off(x.End()), fmt.Sprintf("{ %s := %s; zzvf.P(); %s = %s %s (%s) }", v, t, t, v, op, r.text(x.Rhs[0])))
			r.used = true
		}
		if len(x.Lhs) == 1 && x.Tok == token.ASSIGN && isField(x.Lhs[0]) && len(x.Rhs) == 1 {
			// x.f = g(x.f): evaluate, then store
			switch x.Rhs[0].(type) {
			case *ast.BinaryExpr, *ast.CallExpr, *ast.SliceExpr:
				if r.info.Types[x.Rhs[0]].Value != nil {
					return
				}
				if b, ok := r.info.TypeOf(x.Rhs[0]).(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					return
				}
				if !types.Identical(r.info.TypeOf(x.Rhs[0]), r.info.TypeOf(x.Lhs[0])) {
					return
				}
				v := r.name("t")
				r.replace(r.off(x.Pos()), r.off(x.End()), fmt.Sprintf("{ %s := %s; zzvf.P(); %s = %s }", v, r.text(x.Rhs[0]), r.text(x.Lhs[0]), v))
				r.used = true
			}
		}
	}
}

// mapUses announces the map accesses of a statement
func (r *rewriter) mapUses(s ast.Stmt) string {
	var parts []ast.Node
	writes := map[ast.Node]bool{}
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if ix, ok := l.(*ast.IndexExpr); ok {
				writes[ix] = true
			}
		}
		parts = append(parts, x)
	case *ast.IncDecStmt:
		if ix, ok := x.X.(*ast.IndexExpr); ok {
			writes[ix] = true
		}
		parts = append(parts, x)
	case *ast.ExprStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.SendStmt:
		parts = append(parts, x)
	case *ast.IfStmt:
		if x.Init != nil {
			parts = append(parts, x.Init)
		}
		if x.Init == nil {
			parts = append(parts, x.Cond)
		}
	case *ast.RangeStmt:
		if m := r.mapType(x.X); m != nil && simpleExpr(x.X) {
			return "zzvf.MapAccess(" + r.text(x.X) + ", false); "
		}
		parts = append(parts, x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			parts = append(parts, x.Init)
		} else if x.Tag != nil {
			parts = append(parts, x.Tag)
		}
	}
	out := ""
	seen := map[string]bool{}
	for _, p := range parts {
		ast.Inspect(p, func(c ast.Node) bool {
			var m ast.Expr
			w := false
			switch x := c.(type) {
			case *ast.FuncLit:
				return false
			case *ast.IndexExpr:
				if r.mapType(x.X) != nil {
					m, w = x.X, writes[x]
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && r.mapType(x.Args[0]) != nil {
					switch r.info.Uses[id] {
					case types.Universe.Lookup("delete"), types.Universe.Lookup("clear"):
						m, w = x.Args[0], true
					case types.Universe.Lookup("len"):
						m = x.Args[0]
					}
				}
			}
			if m != nil && simpleExpr(m) {
				t := fmt.Sprintf("zzvf.MapAccess(%s, %v); ", r.text(m), w)
				if !seen[t] {
					seen[t] = true
					out += t
				}
			}
			return true
		})
	}
	return out
}

func (r *rewriter) rng(x *ast.RangeStmt) {
	head := func() (int, int) { return r.off(x.Pos()), r.off(x.Body.Lbrace) + 1 }
	if r.isChan(x.X) {
		ch := r.text(x.X)
		ok := r.name("ok")
		s := "for { zzvf.WaitRecv(" + ch + "); "
		if x.Key != nil {
			k := r.text(x.Key)
			if x.Tok == token.DEFINE && k != "_" {
				s += fmt.Sprintf("%s, %s := <-%s; _ = %s; ", k, ok, ch, k)
			} else {
				v := r.name("v")
				s += fmt.Sprintf("%s, %s := <-%s; ", v, ok, ch)
				s += fmt.Sprintf("%s = %s; ", k, v)
			}
		} else {
			s += fmt.Sprintf("_, %s := <-%s; ", ok, ch)
		}
		s += fmt.Sprintf("if !%s { break }; ", ok)
		a, b := head()
		r.replace(a, b, s)
		r.used = true
		return
	}
	m := r.mapType(x.X)
	if m == nil || !r.fine && !r.finer && !r.linkPkg() || !simpleExpr(x.X) {
		return
	}
	kt, ok := r.typeText(m.Key())
	if !ok {
		return
	}
	mt := r.text(x.X)
	kv := r.name("k")
	s := fmt.Sprintf("for _, %s := range zzvf.MapKeys(%s) { ", kv, mt)
	kn := r.name("k")
	s += fmt.Sprintf("%s := %s.(%s); ", kn, kv, kt)
	okn, vn := r.name("ok"), r.name("v")
	s += fmt.Sprintf("%s, %s := %s[%s]; _ = %s; if !%s { continue }; ", vn, okn, mt, kn, vn, okn)
	asg := x.Tok.String()
	if x.Key != nil && r.text(x.Key) != "_" {
		s += fmt.Sprintf("%s %s %s; ", r.text(x.Key), asg, kn)
	}
	if x.Value != nil && r.text(x.Value) != "_" {
		s += fmt.Sprintf("%s %s %s; ", r.text(x.Value), asg, vn)
	}
	a, b := head()
	r.replace(a, b, s)
	r.used = true
}

func (r *rewriter) linkPkg() bool { return r.pkg.Path() == "github.com/funny/link" }

func (r *rewriter) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, sp := range r.file.Imports {
			path, _ := strconv.Unquote(sp.Path.Value)
			if path == p.Path() {
				if sp.Name != nil {
					return sp.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	return s, ok
}

func (r *rewriter) sel(x *ast.SelectStmt) {
	r.used = true
	def := false
	var conds []string
	type cl struct {
		head string
		c    *ast.CommClause
	}
	var cls []cl
	n := 0
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			cls = append(cls, cl{"default:", c})
			continue
		}
		var cond, comm string
		switch q := c.Comm.(type) {
		case *ast.SendStmt:
			cond = "zzvf.CanSend(" + r.text(q.Chan) + ")"
			comm = r.text(q)
		case *ast.ExprStmt:
			cond = "zzvf.CanRecv(" + r.text(unparen(q.X).(*ast.UnaryExpr).X) + ")"
			comm = r.text(q)
		case *ast.AssignStmt:
			cond = "zzvf.CanRecv(" + r.text(unparen(q.Rhs[0]).(*ast.UnaryExpr).X) + ")"
			comm = r.text(q)
		}
		conds = append(conds, "func() bool { return "+cond+" }")
		cls = append(cls, cl{fmt.Sprintf("case %d: %s;", n, comm), c})
		n++
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "switch zzvf.Select(%v", def)
	for _, c := range conds {
		sb.WriteString(", " + c)
	}
	sb.WriteString(") {")
	for _, c := range cls {
		sb.WriteString("\n" + c.head + " ")
		sb.WriteString(r.render(r.off(c.c.Colon)+1, r.off(c.c.End())))
	}
	if !def && n > 0 {
		// keeps terminating-statement analysis happy
		sb.WriteString("\ndefault: panic(\"unreachable\")")
	}
	sb.WriteString("\n}")
	r.replace(r.off(x.Pos()), r.off(x.End()), sb.String())
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
