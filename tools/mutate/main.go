// Command mutate lists small syntactic changes of a Go source file.
//
//	go run main.go FILE        lists all changes as JSON lines
//
// Each line holds the byte range to replace, the replacement and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	Start, End int
	New        string
	What       string
	Line       int
	Func       string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	function := ""
	emit := func(from, to token.Pos, repl, what string) {
		enc.Encode(change{off(from), off(to), repl, what, fset.Position(from).Line, function})
	}
	node := func(n ast.Node, repl, what string) {
		emit(n.Pos(), n.End(), repl, fmt.Sprintf("%s: %s -> %s", what, text(n), repl))
	}
	short := func(s string) string {
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return strconv.Quote(s)
	}
	binary := map[token.Token][]string{
		token.LSS: {"<=", "!="}, token.LEQ: {"<", "=="}, token.GTR: {">=", "!="}, token.GEQ: {">", "=="},
		token.EQL: {"!="}, token.NEQ: {"==", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/", "+"}, token.QUO: {"*", "%"}, token.REM: {"*", "/"},
		token.AND: {"|"}, token.OR: {"&", "^"}, token.AND_NOT: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.LAND: {"||"}, token.LOR: {"&&"},
	}
	assign := map[token.Token][]string{
		token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.OR_ASSIGN: {"&=", "="},
		token.AND_ASSIGN: {"|=", "="}, token.AND_NOT_ASSIGN: {"&="}, token.MUL_ASSIGN: {"="},
	}
	narrow := map[string][]string{
		"int": {"uint8", "int16", "int32"}, "uint": {"uint8", "uint32"},
		"int64": {"int32", "uint32"}, "uint64": {"uint32"}, "uint32": {"uint16"},
	}
	op := func(pos token.Pos, old string, repl []string, e ast.Node) {
		for _, r := range repl {
			emit(pos, pos+token.Pos(len(old)), r, fmt.Sprintf("%s becomes %s in %s", old, r, short(text(e))))
		}
	}
	var inReturn []ast.Expr
	_ = inReturn
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			function = n.Name.Name
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			op(n.OpPos, n.Op.String(), binary[n.Op], n)
			switch n.Op {
			case token.LAND, token.LOR:
				node(n, text(n.X), "only left operand")
				node(n, text(n.Y), "only right operand")
			case token.ADD, token.SUB:
				node(n, text(n.X), "only left operand")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				node(n, text(n.X), "no negation")
			} else if n.Op == token.SUB {
				node(n, text(n.X), "no minus")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseUint(n.Value, 0, 64)
				if err == nil {
					node(n, fmt.Sprint(v+1), "literal")
					if v > 0 {
						node(n, fmt.Sprint(v-1), "literal")
					}
				}
			}
			if n.Kind == token.STRING && len(n.Value) < 6 {
				node(n, `"?"`, "literal")
			}
		case *ast.Ident:
			if n.Name == "true" {
				node(n, "false", "literal")
			} else if n.Name == "false" {
				node(n, "true", "literal")
			}
		case *ast.IfStmt:
			if _, ok := n.Cond.(*ast.BinaryExpr); !ok {
				node(n.Cond, "!("+text(n.Cond)+")", "condition")
			}
			node(n.Cond, "("+text(n.Cond)+") && false", "condition")
			node(n.Cond, "("+text(n.Cond)+") || true", "condition")
		case *ast.ForStmt:
			if n.Cond != nil {
				node(n.Cond, "("+text(n.Cond)+") && false", "loop")
			}
		case *ast.CallExpr:
			// The texts of messages are not interesting.
			switch text(n.Fun) {
			case "panic", "fmt.Errorf", "fmt.Sprintf", "fmt.Fprintf", "log.Fatalf":
				return false
			}
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 {
				if _, ok := n.Args[0].(*ast.BasicLit); ok {
					break
				}
				for _, t := range narrow[id.Name] {
					node(n.Args[0], t+"("+text(n.Args[0])+")", "narrowed")
				}
				if id.Name == "min" || id.Name == "max" {
					node(n, text(n.Args[0]), "not min/max")
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") && len(n.Args) == 2 {
				node(n, text(n.Args[0]), id.Name)
				node(n, text(n.Args[1]), id.Name)
			}
			// Swap two arguments.
			for i := 0; i+1 < len(n.Args); i++ {
				emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "arguments swapped in "+short(text(n)))
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				node(n.Low, "", "slice from the start")
			}
			if n.High != nil {
				node(n.High, "", "slice to the end")
			}
		case *ast.ExprStmt:
			node(n, "", "deleted")
		case *ast.DeferStmt:
			node(n, "", "deleted")
		case *ast.IncDecStmt:
			node(n, "", "deleted")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				node(n, "", "deleted")
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name != "_" && len(n.Lhs) > 1 {
						node(l, "_", "result ignored in "+short(text(n)))
					}
				}
			} else {
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
						node(l, "_", "result ignored in "+short(text(n)))
					}
				}
			}
			op(n.TokPos, n.Tok.String(), assign[n.Tok], n)
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				node(n, "break", "loop")
			} else if n.Label == nil && n.Tok == token.BREAK {
				node(n, "continue", "loop")
			}
		case *ast.ReturnStmt:
			for i, r := range n.Results {
				t := text(r)
				if i == len(n.Results)-1 && t != "nil" && t != "true" && t != "false" {
					node(r, "nil", "returns")
				}
				if t == "nil" && i == len(n.Results)-1 {
					continue
				}
			}
			if len(n.Results) == 0 {
				node(n, "", "deleted")
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				_ = s
			}
			if len(n.List) > 1 {
				for i := range n.List {
					if i > 0 {
						emit(n.List[i-1].End(), n.List[i].End(), "", "case dropped: "+text(n.List[i]))
					}
				}
			}
		case *ast.KeyValueExpr:
			emit(n.Pos(), n.End(), "", "field deleted: "+short(text(n)))
		}
		return true
	})
}
