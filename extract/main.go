// verifextract dumps the type-checked syntax of Go packages as JSON.
// It is the only front end of the verifier: every function that is verified is read
// from /repo's working tree by this program on every run. Nothing is dropped except
// comments; constructs the back end cannot interpret are kept and reported there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type M = map[string]interface{}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
}

var (
	typeTable = M{}
	funcs     = M{}
	globals   = M{}
	fset      = token.NewFileSet()
	info      *types.Info
	curPkg    *types.Package
	varIDs    map[types.Object]string
	varCount  map[string]int
)

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	k := types.TypeString(t, qual)
	if _, ok := typeTable[k]; ok {
		return k
	}
	typeTable[k] = nil
	switch u := t.(type) {
	case *types.Alias:
		delete(typeTable, k)
		return typeKey(types.Unalias(t))
	case *types.Named:
		typeTable[k] = M{"k": "named", "under": typeKey(u.Underlying())}
	case *types.Pointer:
		typeTable[k] = M{"k": "ptr", "elem": typeKey(u.Elem())}
	case *types.Slice:
		typeTable[k] = M{"k": "slice", "elem": typeKey(u.Elem())}
	case *types.Array:
		typeTable[k] = M{"k": "array", "elem": typeKey(u.Elem()), "len": u.Len()}
	case *types.Map:
		typeTable[k] = M{"k": "map", "key": typeKey(u.Key()), "elem": typeKey(u.Elem())}
	case *types.Struct:
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": typeKey(f.Type()), "emb": f.Embedded()})
		}
		typeTable[k] = M{"k": "struct", "fields": fs}
	case *types.Basic:
		typeTable[k] = M{"k": "basic", "name": u.Name()}
	case *types.Signature:
		typeTable[k] = M{"k": "func"}
	case *types.Interface:
		typeTable[k] = M{"k": "iface"}
	case *types.Tuple:
		ts := []string{}
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, typeKey(u.At(i).Type()))
		}
		typeTable[k] = M{"k": "tuple", "elems": ts}
	default:
		typeTable[k] = M{"k": "other"}
	}
	return k
}

func fnName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			return pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.Name()
		}
		return "?." + f.Name()
	}
	return pkgShort(f.Pkg()) + "." + f.Name()
}

func varID(o types.Object) string {
	if s, ok := varIDs[o]; ok {
		return s
	}
	n := varCount[o.Name()]
	varCount[o.Name()] = n + 1
	s := o.Name()
	if n > 0 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	varIDs[o] = s
	return s
}

func line(n ast.Node) int { return fset.Position(n.Pos()).Line }

func unsup(n ast.Node, what string) M {
	return M{"k": "unsupported", "what": what, "line": line(n)}
}

func constNode(tv types.TypeAndValue) M {
	v := tv.Value
	r := M{"k": "const", "t": typeKey(tv.Type)}
	switch v.Kind() {
	case constant.Int:
		r["vk"], r["v"] = "int", v.ExactString()
	case constant.Float:
		r["vk"], r["v"] = "float", v.ExactString()
	case constant.String:
		r["vk"], r["v"] = "string", constant.StringVal(v)
	case constant.Bool:
		r["vk"], r["v"] = "bool", constant.BoolVal(v)
	default:
		r["vk"], r["v"] = "other", v.ExactString()
	}
	return r
}

func isPtr(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

// walkPath applies the embedded-field path idx (all of it) to x.
func walkPath(x M, t types.Type, idx []int) (M, types.Type) {
	for _, i := range idx {
		ptr := isPtr(t)
		st := t
		if ptr {
			st = types.Unalias(t).Underlying().(*types.Pointer).Elem()
		}
		s := st.Underlying().(*types.Struct)
		f := s.Field(i)
		x = M{"k": "field", "x": x, "name": f.Name(), "ptr": ptr, "t": typeKey(f.Type())}
		t = f.Type()
	}
	return x, t
}

func expr(e ast.Expr) M {
	r := expr0(e)
	if _, ok := r["line"]; !ok {
		r["line"] = line(e)
	}
	return r
}

func expr0(e ast.Expr) M {
	tv, has := info.Types[e]
	if has && tv.Value != nil {
		return constNode(tv)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return expr(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return M{"k": "blank"}
		}
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Nil:
			return M{"k": "nil", "t": typeKey(tv.Type)}
		case *types.Func:
			return M{"k": "fn", "name": fnName(o)}
		case *types.Var:
			if o.Parent() == o.Pkg().Scope() {
				return M{"k": "global", "name": pkgShort(o.Pkg()) + "." + o.Name(), "t": typeKey(o.Type())}
			}
			return M{"k": "var", "id": varID(o), "t": typeKey(o.Type())}
		case *types.Builtin:
			return M{"k": "builtinname", "name": o.Name()}
		}
		return unsup(e, "ident "+x.Name)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[x]; ok {
			base := expr(x.X)
			bt := info.Types[x.X].Type
			idx := sel.Index()
			switch sel.Kind() {
			case types.FieldVal:
				r, _ := walkPath(base, bt, idx)
				return r
			case types.MethodVal:
				r, rt := walkPath(base, bt, idx[:len(idx)-1])
				f := sel.Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				if _, isI := rt.Underlying().(*types.Interface); isI {
					return M{"k": "imethod", "x": r, "fn": fnName(f), "t": typeKey(tv.Type), "xt": typeKey(rt)}
				}
				return M{"k": "method", "x": r, "fn": fnName(f), "ptrrecv": isPtr(sig.Recv().Type()), "xptr": isPtr(rt), "t": typeKey(tv.Type), "xt": typeKey(rt)}
			}
			return unsup(e, "selection")
		}
		o := info.Uses[x.Sel]
		switch o := o.(type) {
		case *types.Func:
			return M{"k": "fn", "name": fnName(o)}
		case *types.Var:
			return M{"k": "global", "name": pkgShort(o.Pkg()) + "." + o.Name(), "t": typeKey(o.Type())}
		}
		return unsup(e, "selector")
	case *ast.IndexExpr:
		bt := info.Types[x.X].Type
		r := M{"k": "index", "x": expr(x.X), "i": expr(x.Index), "xt": typeKey(bt)}
		if tup, ok := tv.Type.(*types.Tuple); ok {
			r["commaok"] = true
			r["t"] = typeKey(tup.At(0).Type())
		} else {
			r["t"] = typeKey(tv.Type)
		}
		return r
	case *ast.SliceExpr:
		r := M{"k": "slice", "x": expr(x.X), "xt": typeKey(info.Types[x.X].Type), "t": typeKey(tv.Type)}
		if x.Low != nil {
			r["lo"] = expr(x.Low)
		}
		if x.High != nil {
			r["hi"] = expr(x.High)
		}
		if x.Max != nil {
			r["max"] = expr(x.Max)
		}
		return r
	case *ast.StarExpr:
		if tv.IsType() {
			return unsup(e, "type expr")
		}
		return M{"k": "deref", "x": expr(x.X), "t": typeKey(tv.Type)}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return M{"k": "addr", "x": expr(x.X), "t": typeKey(tv.Type)}
		}
		return M{"k": "un", "op": x.Op.String(), "x": expr(x.X), "t": typeKey(tv.Type)}
	case *ast.BinaryExpr:
		return M{"k": "bin", "op": x.Op.String(), "x": expr(x.X), "y": expr(x.Y), "t": typeKey(tv.Type), "xt": typeKey(info.Types[x.X].Type), "yt": typeKey(info.Types[x.Y].Type)}
	case *ast.CallExpr:
		ftv := info.Types[x.Fun]
		if ftv.IsType() {
			return M{"k": "conv", "x": expr(x.Args[0]), "t": typeKey(tv.Type), "xt": typeKey(info.Types[x.Args[0]].Type)}
		}
		if ftv.IsBuiltin() {
			name := ""
			switch f := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				name = f.Name
			case *ast.SelectorExpr:
				name = f.Sel.Name
			}
			r := M{"k": "builtin", "name": name, "ellipsis": x.Ellipsis.IsValid()}
			if tv.Type != nil {
				r["t"] = typeKey(tv.Type)
			}
			args := []M{}
			for i, a := range x.Args {
				if i == 0 && info.Types[a].IsType() {
					r["targ"] = typeKey(info.Types[a].Type)
					continue
				}
				am := expr(a)
				if info.Types[a].Type != nil {
					am["at"] = typeKey(info.Types[a].Type)
				}
				args = append(args, am)
			}
			r["args"] = args
			return r
		}
		args := []M{}
		for _, a := range x.Args {
			am := expr(a)
			at := info.Types[a].Type
			am["at"] = typeKey(at)
			args = append(args, am)
		}
		sig, _ := ftv.Type.Underlying().(*types.Signature)
		variadic := -1
		ptypes := []string{}
		if sig != nil {
			for i := 0; i < sig.Params().Len(); i++ {
				ptypes = append(ptypes, typeKey(sig.Params().At(i).Type()))
			}
			if sig.Variadic() && !x.Ellipsis.IsValid() {
				variadic = sig.Params().Len() - 1
			}
		}
		t := ""
		if tv.Type != nil {
			t = typeKey(tv.Type)
		}
		return M{"k": "call", "fn": expr(x.Fun), "args": args, "t": t, "variadic": variadic, "ptypes": ptypes}
	case *ast.CompositeLit:
		t := tv.Type
		r := M{"k": "lit", "t": typeKey(t)}
		ptr := false
		under := t.Underlying()
		if p, ok := under.(*types.Pointer); ok { // elided &T
			under = p.Elem().Underlying()
			ptr = true
		}
		r["ptr"] = ptr
		elts := []M{}
		switch u := under.(type) {
		case *types.Struct:
			r["lk"] = "struct"
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					elts = append(elts, M{"name": kv.Key.(*ast.Ident).Name, "v": expr(kv.Value)})
				} else {
					elts = append(elts, M{"name": u.Field(i).Name(), "v": expr(el)})
				}
			}
		case *types.Map:
			r["lk"] = "map"
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				elts = append(elts, M{"key": expr(kv.Key), "v": expr(kv.Value)})
			}
		case *types.Slice, *types.Array:
			r["lk"] = "slice"
			if a, ok := u.(*types.Array); ok {
				r["lk"] = "array"
				r["len"] = a.Len()
			}
			n := int64(0)
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					kvv := info.Types[kv.Key].Value
					n, _ = constant.Int64Val(kvv)
					elts = append(elts, M{"i": n, "v": expr(kv.Value)})
				} else {
					elts = append(elts, M{"i": n, "v": expr(el)})
				}
				n++
			}
			if r["len"] == nil {
				r["len"] = n
			}
		}
		r["elts"] = elts
		return r
	case *ast.TypeAssertExpr:
		r := M{"k": "typeassert", "x": expr(x.X), "t": typeKey(tv.Type)}
		if tup, ok := tv.Type.(*types.Tuple); ok {
			r["commaok"] = true
			r["t"] = typeKey(tup.At(0).Type())
		}
		return r
	case *ast.FuncLit:
		ps := []M{}
		sig := tv.Type.(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			ps = append(ps, M{"id": varID(p), "t": typeKey(p.Type())})
		}
		rs := []M{}
		for i := 0; i < sig.Results().Len(); i++ {
			p := sig.Results().At(i)
			m := M{"t": typeKey(p.Type())}
			if p.Name() != "" && p.Name() != "_" {
				m["id"] = varID(p)
			}
			rs = append(rs, m)
		}
		return M{"k": "funclit", "params": ps, "results": rs, "body": block(x.Body), "t": typeKey(tv.Type)}
	}
	return unsup(e, fmt.Sprintf("%T", e))
}

func exprs(es []ast.Expr) []M {
	r := []M{}
	for _, e := range es {
		r = append(r, expr(e))
	}
	return r
}

func block(b *ast.BlockStmt) []M {
	if b == nil {
		return []M{}
	}
	return stmts(b.List)
}

func stmts(l []ast.Stmt) []M {
	r := []M{}
	for _, s := range l {
		if m := stmt(s); m != nil {
			m["line"] = line(s)
			r = append(r, m)
		}
	}
	return r
}

func optStmt(s ast.Stmt) interface{} {
	if s == nil {
		return nil
	}
	m := stmt(s)
	if m == nil {
		return nil
	}
	m["line"] = line(s)
	return m
}

func lhsExpr(e ast.Expr) M {
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return M{"k": "blank"}
		}
		if o, ok := info.Defs[id]; ok && o != nil {
			return M{"k": "var", "id": varID(o), "t": typeKey(o.Type()), "def": true}
		}
	}
	return expr(e)
}

func stmt(s ast.Stmt) M {
	switch x := s.(type) {
	case *ast.AssignStmt:
		l := []M{}
		for _, e := range x.Lhs {
			l = append(l, lhsExpr(e))
		}
		r := exprs(x.Rhs)
		if x.Tok == token.ASSIGN || x.Tok == token.DEFINE {
			return M{"k": "assign", "l": l, "r": r}
		}
		op := strings.TrimSuffix(x.Tok.String(), "=")
		return M{"k": "opassign", "l": l[0], "r": r[0], "op": op, "t": typeKey(info.Types[x.Lhs[0]].Type), "yt": typeKey(info.Types[x.Rhs[0]].Type)}
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		t := typeKey(info.Types[x.X].Type)
		return M{"k": "opassign", "l": expr(x.X), "r": M{"k": "const", "t": t, "vk": "int", "v": "1"}, "op": op, "t": t, "yt": t}
	case *ast.ExprStmt:
		return M{"k": "expr", "x": expr(x.X)}
	case *ast.BlockStmt:
		return M{"k": "block", "b": block(x)}
	case *ast.IfStmt:
		r := M{"k": "if", "init": optStmt(x.Init), "c": expr(x.Cond), "then": block(x.Body)}
		if x.Else != nil {
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				r["else"] = block(b)
			} else {
				r["else"] = stmts([]ast.Stmt{x.Else})
			}
		}
		return r
	case *ast.ForStmt:
		r := M{"k": "for", "init": optStmt(x.Init), "post": optStmt(x.Post), "body": block(x.Body)}
		if x.Cond != nil {
			r["c"] = expr(x.Cond)
		}
		return r
	case *ast.RangeStmt:
		r := M{"k": "range", "x": expr(x.X), "xt": typeKey(info.Types[x.X].Type), "body": block(x.Body)}
		if x.Key != nil {
			r["key"] = lhsExpr(x.Key)
		}
		if x.Value != nil {
			r["val"] = lhsExpr(x.Value)
		}
		return r
	case *ast.ReturnStmt:
		return M{"k": "return", "r": exprs(x.Results)}
	case *ast.BranchStmt:
		if x.Label != nil {
			return unsup(s, "labelled branch")
		}
		return M{"k": x.Tok.String()}
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return nil
		}
		out := []M{}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			ls := []M{}
			for _, n := range vs.Names {
				if n.Name == "_" {
					ls = append(ls, M{"k": "blank"})
					continue
				}
				o := info.Defs[n]
				ls = append(ls, M{"k": "var", "id": varID(o), "t": typeKey(o.Type()), "def": true})
			}
			out = append(out, M{"k": "decl", "l": ls, "r": exprs(vs.Values), "line": line(vs)})
		}
		return M{"k": "multi", "b": out}
	case *ast.SwitchStmt:
		r := M{"k": "switch", "init": optStmt(x.Init)}
		if x.Tag != nil {
			r["tag"] = expr(x.Tag)
			r["tagt"] = typeKey(info.Types[x.Tag].Type)
		}
		cs := []M{}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cm := M{"body": stmts(cc.Body)}
			if cc.List != nil {
				cm["e"] = exprs(cc.List)
			}
			cs = append(cs, cm)
		}
		r["cases"] = cs
		return r
	case *ast.TypeSwitchStmt:
		r := M{"k": "typeswitch", "init": optStmt(x.Init)}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			r["x"] = expr(a.Rhs[0].(*ast.TypeAssertExpr).X)
		case *ast.ExprStmt:
			r["x"] = expr(a.X.(*ast.TypeAssertExpr).X)
		}
		cs := []M{}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cm := M{}
			if o := info.Implicits[cc]; o != nil {
				cm["var"] = M{"k": "var", "id": varID(o), "t": typeKey(o.Type()), "def": true}
			}
			if cc.List != nil {
				ts := []string{}
				for _, e := range cc.List {
					if info.Types[e].IsNil() {
						ts = append(ts, "nil")
					} else {
						ts = append(ts, typeKey(info.Types[e].Type))
					}
				}
				cm["ts"] = ts
			}
			cm["body"] = stmts(cc.Body)
			cs = append(cs, cm)
		}
		r["cases"] = cs
		return r
	case *ast.EmptyStmt:
		return nil
	}
	return unsup(s, fmt.Sprintf("%T", s))
}

func main() {
	repo := os.Args[1]
	outFile := os.Args[2]
	pats := os.Args[3:]
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	ob, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "go list failed:", err)
		os.Exit(3)
	}
	pk := map[string]listPkg{}
	order := []string{}
	dec := json.NewDecoder(strings.NewReader(string(ob)))
	for {
		var p listPkg
		if e := dec.Decode(&p); e == io.EOF {
			break
		} else if e != nil {
			panic(e)
		}
		pk[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p, ok := pk[path]
		if !ok || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	for _, ip := range order {
		want := strings.HasPrefix(ip, "mk-lattigo/")
		for _, s := range []string{"v2/ring", "v2/rlwe", "v2/utils"} {
			if strings.HasSuffix(ip, s) && strings.Contains(ip, "lattigo") {
				want = true
			}
		}
		if !want {
			continue
		}
		p := pk[ip]
		files := []*ast.File{}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			files = append(files, af)
		}
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(ip, fset, files, info)
		if err != nil {
			fmt.Fprintln(os.Stderr, "type check:", err)
			os.Exit(3)
		}
		curPkg = tp
		for _, f := range files {
			fn := filepath.Base(fset.Position(f.Pos()).Filename)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				varIDs = map[types.Object]string{}
				varCount = map[string]int{}
				o := info.Defs[fd.Name].(*types.Func)
				sig := o.Type().(*types.Signature)
				if sig.TypeParams() != nil {
					continue
				}
				name := fnName(o)
				m := M{"name": name, "file": pkgShort(tp) + "/" + fn, "line": line(fd), "endline": fset.Position(fd.End()).Line, "pkg": ip}
				ps := []M{}
				if r := sig.Recv(); r != nil {
					m["recv"] = M{"id": varID(r), "t": typeKey(r.Type()), "ptr": isPtr(r.Type())}
				}
				for i := 0; i < sig.Params().Len(); i++ {
					p := sig.Params().At(i)
					ps = append(ps, M{"id": varID(p), "t": typeKey(p.Type()), "n": p.Name()})
				}
				rs := []M{}
				for i := 0; i < sig.Results().Len(); i++ {
					p := sig.Results().At(i)
					r := M{"t": typeKey(p.Type())}
					if p.Name() != "" && p.Name() != "_" {
						r["id"] = varID(p)
					}
					rs = append(rs, r)
				}
				m["params"], m["results"], m["variadic"] = ps, rs, sig.Variadic()
				m["body"] = block(fd.Body)
				if name == pkgShort(tp)+".init" {
					name = fmt.Sprintf("%s.%s", name, fn)
				}
				funcs[name] = m
			}
		}
	}
	b, err := json.Marshal(M{"types": typeTable, "funcs": funcs})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		panic(err)
	}
}
