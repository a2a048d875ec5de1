// gen FILE: writes, one JSON line each, systematic single mutations of a Go source file
// (development aid: no check uses this).
//go:build ignore

package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|", "&^"}, token.OR: {"&", "^"}, token.AND_NOT: {"&"}, token.MUL: {"/"}, token.QUO: {"*"},
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	put := func(kind string, a, b token.Pos, repl string) {
		enc.Encode(map[string]interface{}{"kind": kind, "line": fs.Position(a).Line, "a": off(a), "b": off(b), "repl": repl, "old": string(src[off(a):off(b)])})
	}
	isLog := func(s ast.Node) bool {
		t := string(src[off(s.Pos()):off(s.End())])
		return len(t) > 6 && (t[:6] == "c.log." || t[:6] == "n.log.")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.ExprStmt:
			if isLog(x) {
				return false
			}
			put("delete", x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				put("delete", x.Pos(), x.End(), "")
			}
		case *ast.IncDecStmt:
			put("delete", x.Pos(), x.End(), "")
		case *ast.DeferStmt:
			put("delete", x.Pos(), x.End(), "")
		case *ast.GoStmt:
			put("delete", x.Pos(), x.End(), "")
			put("sync", x.Pos(), x.Call.Pos(), "")
		case *ast.BranchStmt:
			put("delete", x.Pos(), x.End(), "")
		case *ast.KeyValueExpr:
			put("delete-kv", x.Pos(), x.End(), "")
		case *ast.IfStmt:
			put("negate", x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
			put("never", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") && 1 == 2")
			put("always", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") || 1 == 1")
		case *ast.CommClause:
			if x.Comm != nil {
				for _, s := range x.Body {
					_ = s
				}
			}
		case *ast.BinaryExpr:
			for _, r := range swaps[x.Op] {
				put("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					put("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						put("int", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && os.Getenv("STRINGS") != "" {
				put("string", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"~"+x.Value[len(x.Value)-1:])
			}
		case *ast.Ident:
			if x.Name == "true" {
				put("bool", x.Pos(), x.End(), "false")
			}
			if x.Name == "false" {
				put("bool", x.Pos(), x.End(), "true")
			}
			if x.Name == "LittleEndian" {
				put("endian", x.Pos(), x.End(), "BigEndian")
			}
			if x.Name == "BigEndian" {
				put("endian", x.Pos(), x.End(), "LittleEndian")
			}
		}
		return true
	})
}
