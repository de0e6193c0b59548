package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// schedRewrite compiles the synchronisation operations of a package against the deterministic
// scheduler of zzsym: the statements stay as they are in /repo, only go statements, channel
// operations and the packages sync and sync/atomic are redirected. Used for replays only.
func (b *buildEnv) schedRewrite(pkg string) (map[string]string, error) {
	out := map[string]string{}
	files := map[string]string{} // target path -> source path
	ents, _ := os.ReadDir(filepath.Join(repoDir, pkg))
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files[filepath.Join(repoDir, pkg, n)] = filepath.Join(repoDir, pkg, n)
		}
	}
	for t, s := range b.overlay {
		if filepath.Dir(t) == filepath.Join(repoDir, pkg) {
			files[t] = s
		}
	}
	for t, s := range files {
		src, err := rewriteFile(s)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(b.tmp, "sched_"+strings.ReplaceAll(strings.TrimPrefix(t, "/"), "/", "_"))
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return nil, err
		}
		out[t] = dst
	}
	return out, nil
}

// provides lists the exported names of a stand-in.
func provides(standin string) map[string]bool {
	names := map[string]bool{}
	pkgs, err := parser.ParseDir(token.NewFileSet(), filepath.Join(verifDir, "harness", "tree", "internal", standin), nil, 0)
	if err != nil {
		return names
	}
	for _, pkg := range pkgs {
		for _, f := range pkg.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						names[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range x.Specs {
						switch y := sp.(type) {
						case *ast.TypeSpec:
							names[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return names
}

// redirect redirects an import of the files in the given directories to a stand-in that records
// instead of touching the system, both for the encoding and for replays; nothing else of the file
// changes. Files using anything the stand-in lacks stay as they are.
func (b *buildEnv) redirect(deep bool, pkg, standin string, dirs ...string) error {
	names := provides(standin)
	quoted := strconv.Quote(pkg)
	for _, d := range dirs {
		top := filepath.Join(repoDir, d)
		err := filepath.WalkDir(top, func(p string, e os.DirEntry, err error) error {
			if err == nil && e.IsDir() && p != top && !deep {
				return filepath.SkipDir
			}
			if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			from := p
			if prev, ok := b.overlay[p]; ok {
				from = prev
			}
			src, err := os.ReadFile(from)
			if err != nil || !bytes.Contains(src, []byte(quoted)) {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, 0)
			if err != nil {
				return nil // the compiler reports it
			}
			for _, im := range f.Imports {
				if im.Path.Value != quoted {
					continue
				}
				name := pkg[strings.LastIndexByte(pkg, '/')+1:]
				if im.Name != nil {
					name = im.Name.Name
				}
				known := name != "." && name != "_"
				ast.Inspect(f, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok {
						if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil && !names[s.Sel.Name] {
							known = false
						}
					}
					return true
				})
				if !known {
					continue
				}
				o := fset.Position(im.Path.Pos()).Offset
				out := string(src[:fset.Position(im.Pos()).Offset]) + name + " " + strconv.Quote(module+"/internal/"+standin) + string(src[o+len(quoted):])
				dst := filepath.Join(b.tmp, standin+"_"+strings.ReplaceAll(strings.TrimPrefix(p, "/"), "/", "_"))
				if err := os.WriteFile(dst, []byte(out), 0o644); err != nil {
					return err
				}
				b.overlay[p] = dst
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func rewriteFile(path string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return nil, err
	}
	symPath := module + "/internal/zzsym"
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			im.Path.Value = strconv.Quote(module + "/internal/zzsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		case "sync/atomic":
			im.Path.Value = strconv.Quote(module + "/internal/zzatomic")
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		}
	}
	used := false
	zz := func(n string) ast.Expr {
		used = true
		return &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(n)}
	}
	call := func(fn string, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: zz(fn), Args: a} }
	n := 0
	timeUsed := false
	chanNames := channelNames(f)
	ast.Inspect(f, func(nd ast.Node) bool {
		x, ok := nd.(*ast.CallExpr)
		if !ok {
			return true
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if p, ok := s.X.(*ast.Ident); ok && p.Name == "time" && p.Obj == nil {
				switch s.Sel.Name {
				case "After", "NewTimer", "AfterFunc":
					timeUsed = true
					x.Fun = zz("N" + s.Sel.Name)
				case "Tick":
					timeUsed = true
					x.Fun = zz("NAfter")
				}
			}
		}
		return true
	})
	inSelect := map[ast.Node]bool{}
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.CommClause:
			// the communication itself is handled with its select statement
			if x.Comm != nil {
				inSelect[x.Comm] = true
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !inSelect[x] {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					x.Rhs[0] = call("Recv2", u.X)
				}
			}
		}
		return !inSelect[c.Node()]
	}, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.GoStmt:
			n++
			var lhs, rhs, args []ast.Expr
			id := fmt.Sprintf("zzf%d", n)
			lhs, rhs = append(lhs, ast.NewIdent(id)), append(rhs, x.Call.Fun)
			for i, a := range x.Call.Args {
				v := fmt.Sprintf("zza%d_%d", n, i)
				lhs, rhs, args = append(lhs, ast.NewIdent(v)), append(rhs, a), append(args, ast.NewIdent(v))
			}
			inner := &ast.CallExpr{Fun: ast.NewIdent(id), Args: args, Ellipsis: x.Call.Ellipsis}
			fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
				&ast.ExprStmt{X: call("Go", fl)},
			}})
		case *ast.SendStmt:
			if !inSelect[x] {
				c.Replace(&ast.ExprStmt{X: call("Send", x.Chan, x.Value)})
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				c.Replace(call("Recv", x.X))
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				switch {
				case id.Name == "close":
					c.Replace(call("CloseChan", x.Args[0]))
				case id.Name == "len" && chanNames[lastName(x.Args[0])]:
					c.Replace(call("Len", x.Args[0]))
				}
			}
		case *ast.RangeStmt:
			if x.Value == nil && chanNames[lastName(x.X)] {
				n++
				ok := ast.NewIdent(fmt.Sprintf("zzok%d", n))
				var v ast.Expr = ast.NewIdent(fmt.Sprintf("zzv%d", n))
				body := []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", x.X)}},
					&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
				}
				if x.Key != nil {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
				}
				c.Replace(&ast.ForStmt{Body: &ast.BlockStmt{List: append(body, x.Body.List...)}})
			}
		case *ast.SelectStmt:
			n++
			iv, sv := ast.NewIdent(fmt.Sprintf("zzi%d", n)), ast.NewIdent(fmt.Sprintf("zzs%d", n))
			block := "true"
			var args []ast.Expr
			var cases []ast.Stmt
			k := 0
			for _, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					block = "false"
					cases = append(cases, &ast.CaseClause{Body: cc.Body})
					continue
				}
				var u *ast.UnaryExpr
				body := cc.Body
				switch s := cc.Comm.(type) {
				case *ast.ExprStmt:
					u, _ = s.X.(*ast.UnaryExpr)
				case *ast.AssignStmt:
					u, _ = s.Rhs[0].(*ast.UnaryExpr)
					if u != nil {
						g := "Got1"
						if len(s.Lhs) == 2 {
							g = "Got"
						}
						as := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{call(g, u.X, sv)}}
						body = append([]ast.Stmt{as}, body...)
					}
				}
				if s, ok := cc.Comm.(*ast.SendStmt); ok {
					args = append(args, call("SendCase", s.Chan, s.Value))
				} else if u != nil {
					args = append(args, call("RecvCase", u.X))
				} else {
					return true
				}
				cases = append(cases, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
				k++
			}
			if len(cases) == 0 {
				return true
			}
			if block == "true" {
				// keeps the switch as terminating a statement as the select was
				cases[len(cases)-1].(*ast.CaseClause).List = nil
			}
			init := &ast.AssignStmt{Lhs: []ast.Expr{iv, sv}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Select", append([]ast.Expr{ast.NewIdent(block)}, args...)...)}}
			use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{sv}}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{init, use, &ast.SwitchStmt{Tag: iv, Body: &ast.BlockStmt{List: cases}}}})
		}
		return true
	})
	if timeUsed {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Type: &ast.SelectorExpr{X: ast.NewIdent("time"), Sel: ast.NewIdent("Time")}}}})
	}
	if used {
		astutil.AddNamedImport(fset, f, "zzsched", symPath)
	}
	f.Comments = nil
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// channelNames collects the names that are declared with a channel type or made as channels.
func channelNames(f *ast.File) map[string]bool {
	out := map[string]bool{}
	isMake := func(x ast.Expr) bool {
		c, ok := x.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		_, isChan := c.Args[0].(*ast.ChanType)
		return ok && id.Name == "make" && isChan
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Field:
			if _, ok := x.Type.(*ast.ChanType); ok {
				for _, id := range x.Names {
					out[id.Name] = true
				}
			}
		case *ast.ValueSpec:
			_, ok := x.Type.(*ast.ChanType)
			for i, id := range x.Names {
				if ok || i < len(x.Values) && isMake(x.Values[i]) {
					out[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if i < len(x.Rhs) && isMake(x.Rhs[i]) {
					out[lastName(l)] = true
				}
			}
		case *ast.KeyValueExpr:
			if isMake(x.Value) {
				out[lastName(x.Key)] = true
			}
		}
		return true
	})
	delete(out, "")
	return out
}

func lastName(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return ""
}
