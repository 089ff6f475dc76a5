// mutate lists small changes of Go files as JSON lines: development tool, used by no check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Repl string `json:"repl"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, repl, kind string) {
			enc.Encode(mut{name, off(a), off(b), repl, fs.Position(a).Line, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ops := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|", "&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.AND_ASSIGN: {"|=", "="}, token.OR_ASSIGN: {"&=", "=", "^="}, token.XOR_ASSIGN: {"|=", "="},
			token.SHL_ASSIGN: {">>="}, token.SHR_ASSIGN: {"<<="},
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			// names of parameters, to exchange operands
			var params []string
			if fd.Recv != nil {
				for _, n := range fd.Recv.List[0].Names {
					params = append(params, n.Name)
				}
			}
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					params = append(params, n.Name)
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range ops[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op "+x.Op.String()+" -> "+r)
					}
					if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.OR || x.Op == token.XOR || x.Op == token.AND {
						emit(x.Pos(), x.End(), text(x.X), "drop right operand of "+x.Op.String())
						emit(x.Pos(), x.End(), text(x.Y), "drop left operand of "+x.Op.String())
					}
				case *ast.AssignStmt:
					for _, r := range ops[x.Tok] {
						emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), r, "assign "+x.Tok.String()+" -> "+r)
					}
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "drop assignment")
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "drop call "+text(x))
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "inc -> dec")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate condition")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "condition false")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "condition true")
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.XOR || x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "drop unary "+x.Op.String())
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
						if !ok {
							break
						}
						for _, d := range []int64{1, -1} {
							w := new(big.Int).Add(v, big.NewInt(d))
							if w.Sign() < 0 {
								continue
							}
							emit(x.Pos(), x.End(), w.String(), fmt.Sprintf("literal %s%+d", x.Value, d))
						}
						if v.BitLen() > 8 {
							emit(x.Pos(), x.End(), new(big.Int).Rsh(v, 1).String(), "literal "+x.Value+" >> 1")
						}
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						alt := map[string]string{"Add": "Sub", "Sub": "Add", "AddExtended": "SubExtended", "SubExtended": "AddExtended", "Square": "DoubledSquare", "DoubledSquare": "Square",
							"Neg": "Set", "add": "sub", "sub": "add", "AddExtendedNiels": "SubExtendedNiels", "SubExtendedNiels": "AddExtendedNiels", "EqualsI": "", "Abs": "Set", "SetOne": "SetZero", "SetZero": "SetOne"}
						if a := alt[s.Sel.Name]; a != "" {
							emit(s.Sel.Pos(), s.Sel.End(), a, "call "+s.Sel.Name+" -> "+a)
						}
					}
					if len(x.Args) >= 2 {
						a, b := x.Args[0], x.Args[1]
						com := false
						for _, w := range []string{"Add", "Mul", "add", "Mul64", "AddExtended", "EqualsI", "Add64"} {
							com = com || strings.HasSuffix(text(x.Fun), "."+w)
						}
						if text(a) != text(b) && !com {
							emit(a.Pos(), b.End(), text(b)+", "+text(a), "exchange arguments")
						}
					}
				case *ast.Ident:
					for i, p := range params {
						if x.Name == p && p != "_" {
							for _, q := range params[i+1:] {
								if q != "_" && q != p {
									emit(x.Pos(), x.End(), q, "operand "+p+" -> "+q)
								}
							}
							for _, q := range params[:i] {
								if q != "_" && q != p {
									emit(x.Pos(), x.End(), q, "operand "+p+" -> "+q)
								}
							}
						}
					}
				case *ast.SelectorExpr:
					for _, grp := range [][]string{{"X", "Y", "Z", "T"}, {"S", "T"}, {"YPlusX", "YMinusX", "XY2D"}} {
						in := false
						for _, g := range grp {
							in = in || g == x.Sel.Name
						}
						if in {
							for _, g := range grp {
								if g != x.Sel.Name {
									emit(x.Sel.Pos(), x.Sel.End(), g, "field "+x.Sel.Name+" -> "+g)
								}
							}
						}
					}
				}
				return true
			})
		}
	}
}
