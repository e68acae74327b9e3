// Command mutate lists small changes to Go files as JSON lines: file, byte range, replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type edit struct {
	Start int    `json:"s"`
	End   int    `json:"e"`
	Repl  string `json:"r"`
}

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Op    string `json:"op"`
	Edits []edit `json:"edits"`
	Was   string `json:"was"`
}

var (
	src  []byte
	fset *token.FileSet
	file string
	fn   string
	out  = json.NewEncoder(os.Stdout)
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}
func emit(n ast.Node, op string, es ...edit) {
	was := text(n)
	if len(was) > 120 {
		was = was[:120]
	}
	out.Encode(mutant{file, fset.Position(n.Pos()).Line, fn, op, es, was})
}
func rng(n ast.Node, r string) edit { return edit{off(n.Pos()), off(n.End()), r} }

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GEQ}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.ADD_ASSIGN: {token.SUB_ASSIGN, token.ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN}, token.OR_ASSIGN: {token.AND_ASSIGN, token.ASSIGN},
}

func lockCall(s ast.Stmt) (recv, name string, def bool) {
	var c *ast.CallExpr
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, _ = x.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c, def = x.Call, true
	}
	if c == nil {
		return
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
		return text(sel.X), sel.Sel.Name, def
	}
	return
}

func block(list []ast.Stmt) {
	for i, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			emit(s, "delete", rng(s, ""))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit(s, "delete", rng(s, ""))
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				emit(s, "continue", rng(s, "continue"))
				emit(s, "delete", rng(s, ""))
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				emit(s, "break", rng(s, "break"))
				emit(s, "delete", rng(s, ""))
			}
		case *ast.ReturnStmt:
			if n := len(x.Results); n > 0 && text(x.Results[n-1]) != "nil" {
				emit(s, "return-nil", rng(x.Results[n-1], "nil"))
			}
			if i == len(list)-1 && len(x.Results) == 0 {
				emit(s, "delete", rng(s, ""))
			}
		}
		// swap neighbours
		if i+1 < len(list) {
			a, b := s, list[i+1]
			_, ra := a.(*ast.ReturnStmt)
			_, rb := b.(*ast.ReturnStmt)
			if !ra && !rb {
				emit(a, "swap", rng(a, text(b)), rng(b, text(a)))
			}
		}
		// lock ... unlock
		if r, n, _ := lockCall(s); n == "Lock" || n == "RLock" {
			for _, u := range list[i+1:] {
				if r2, n2, def := lockCall(u); r2 == r && (n2 == "Unlock" || n2 == "RUnlock") {
					emit(s, "nolock", rng(s, ""), rng(u, ""))
					if def && list[i+1] == u && i+2 < len(list) {
						// lock later, by one statement
						nx := list[i+2]
						if _, isRet := nx.(*ast.ReturnStmt); !isRet {
							emit(s, "locklate", rng(s, ""), rng(u, ""), edit{off(nx.End()), off(nx.End()), "\n" + text(s) + "\n" + text(u)})
						}
						// unlock at once
					}
					if n == "Lock" {
						emit(s, "rlock", rng(s, r+".RLock()"), rng(u, map[bool]string{true: "defer ", false: ""}[def]+r+".RUnlock()"))
					}
					break
				}
			}
		}
	}
}

func walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
			if len(x.List) > 1 {
				for i := range x.List {
					e := edit{off(x.List[i].Pos()), 0, ""}
					if i+1 < len(x.List) {
						e.End = off(x.List[i+1].Pos())
					} else {
						e.Start, e.End = off(x.List[i-1].End()), off(x.List[i].End())
					}
					emit(x.List[i], "dropcase", e)
				}
			}
		case *ast.IfStmt:
			emit(x.Cond, "true", rng(x.Cond, "true || ("+text(x.Cond)+")"))
			emit(x.Cond, "false", rng(x.Cond, "false && ("+text(x.Cond)+")"))
			if x.Else != nil {
				emit(x.Else, "noelse", rng(x.Else, "{}"))
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Cond, "false", rng(x.Cond, "false && ("+text(x.Cond)+")"))
			}
		case *ast.RangeStmt:
			e := off(x.Body.Rbrace)
			emit(x.X, "once", edit{e, e, "\nbreak\n"})
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				emit(x, "op"+x.Op.String()+t.String(), edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), t.String()})
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x, "left", rng(x, text(x.X)))
				emit(x, "right", rng(x, text(x.Y)))
			}
		case *ast.AssignStmt:
			for _, t := range swaps[x.Tok] {
				emit(x, "op"+x.Tok.String()+t.String(), edit{off(x.TokPos), off(x.TokPos) + len(x.Tok.String()), t.String()})
			}
		case *ast.IncDecStmt:
			r := "--"
			if x.Tok == token.DEC {
				r = "++"
			}
			emit(x, "incdec", edit{off(x.TokPos), off(x.TokPos) + 2, r})
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				emit(x, "un"+x.Op.String(), rng(x, text(x.X)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x, "lit+1", rng(x, fmt.Sprint(v+1)))
					if v > 0 {
						emit(x, "lit-1", rng(x, fmt.Sprint(v-1)))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x, "lit", rng(x, "false"))
			} else if x.Name == "false" {
				emit(x, "lit", rng(x, "true"))
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				if text(x.Args[i]) != text(x.Args[i+1]) {
					emit(x, "swapargs", rng(x.Args[i], text(x.Args[i+1])), rng(x.Args[i+1], text(x.Args[i])))
				}
			}
		}
		return true
	})
}

func main() {
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		file = f
		var err error
		src, err = os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fset = token.NewFileSet()
		p, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range p.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					fn = d.Name.Name
					if d.Recv != nil {
						fn = text(d.Recv.List[0].Type) + "." + fn
					}
					walk(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.CONST || d.Tok == token.VAR {
					fn = "decl"
					walk(d)
				}
			}
		}
	}
}
