// mutate lists small changes of Go files: file, offset, end, replacement, one
// JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string `json:"file"`
	Line int    `json:"line"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	New  string `json:"new"`
	What string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		put := func(a, b token.Pos, s, what string) {
			enc.Encode(change{file, fset.Position(a).Line, off(a), off(b), s, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if x.Tag != nil {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), text(x.X), "only left")
					put(x.Pos(), x.End(), text(x.Y), "only right")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), "+1")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), "-1")
						}
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
						put(x.Pos(), x.End(), strconv.QuoteRune(v+1), "next rune")
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && v != "" {
						put(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "shorter")
						put(x.Pos(), x.End(), strconv.Quote(v[1:]), "shorter front")
						put(x.Pos(), x.End(), strconv.Quote(v+"z"), "longer")
					}
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated")
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							put(id.Pos(), id.End(), "false", "return false")
						case "false":
							put(id.Pos(), id.End(), "true", "return true")
						case "err":
							put(id.Pos(), id.End(), "nil", "return nil")
						case "nil":
						default:
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
						put(s.Pos(), s.End(), "", "deleted")
					case *ast.AssignStmt:
						if y.Tok == token.DEFINE {
							break
						}
						put(s.Pos(), s.End(), "if false { "+text(s)+" }", "deleted")
					case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
						put(s.Pos(), s.Pos(), "if false ", "")
					case *ast.ReturnStmt:
					}
				}
			case *ast.CallExpr:
				for i, a := range x.Args {
					if i+1 < len(x.Args) {
						b := x.Args[i+1]
						put(a.Pos(), b.End(), text(b)+", "+text(a), "arguments swapped")
						put(a.Pos(), b.Pos(), "", "argument dropped")
					}
				}
				if len(x.Args) > 1 {
					put(x.Args[len(x.Args)-2].End(), x.Args[len(x.Args)-1].End(), "", "last argument dropped")
				}
				if len(x.Args) == 1 {
					put(x.Pos(), x.End(), text(x.Args[0]), "call dropped")
				}
			case *ast.Ident:
				alts := map[string][]string{"Opt": {"Many", "Zom"}, "Zom": {"Many", "Opt"}, "Many": {"Zom", "Opt"}, "Any": {"Seq"}, "Lit": {"Fold"}, "To": {"Past"}, "skipSeq": {"Seq"},
					"HasPrefix": {"HasSuffix", "Contains"}, "HasSuffix": {"HasPrefix"}, "DecodeRuneInString": {"DecodeLastRuneInString"}, "DecodeLastRuneInString": {"DecodeRuneInString"}}
				for _, s := range alts[x.Name] {
					put(x.Pos(), x.End(), s, x.Name+" -> "+s)
				}
			}
			return true
		})
	}
}
