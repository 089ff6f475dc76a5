// Command mine collects the integers and strings that the source under test
// mentions, those it compares with something first: seeds for the workloads,
// so that code which treats particular values or lengths differently is met.
// It judges nothing.
package main

import (
	"encoding/hex"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type miner struct {
	consts   map[string]ast.Expr
	cmp, lit map[string]bool
	strs     map[string]bool
	depth    int
	quiet    int // inside a table of numbers
}

// eval computes a constant expression, looking through conversions.
func (m *miner) eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	if m.depth > 20 {
		return nil
	}
	m.depth++
	defer func() { m.depth-- }()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.CHAR || x.Kind == token.STRING {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		}
	case *ast.ParenExpr:
		return m.eval(x.X)
	case *ast.UnaryExpr:
		if a := m.eval(x.X); a != nil && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, a, 0)
		} else if a != nil && x.Op == token.XOR {
			return constant.UnaryOp(x.Op, a, 64)
		}
	case *ast.BinaryExpr:
		a, b := m.eval(x.X), m.eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			n, ok := constant.Uint64Val(b)
			if !ok || n > 300 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		}
		if x.Op == token.QUO {
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
		return constant.BinaryOp(a, x.Op, b)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && strings.Contains(" byte uint int int8 uint8 int16 uint16 int32 uint32 int64 uint64 string rune ", " "+id.Name+" ") {
			return m.eval(x.Args[0])
		}
	case *ast.Ident:
		if c, ok := m.consts[x.Name]; ok {
			return m.eval(c)
		}
	}
	return nil
}

func (m *miner) add(set map[string]bool, v constant.Value) {
	if v == nil {
		return
	}
	if m.quiet > 0 && v.Kind() == constant.Int {
		return
	}
	switch v.Kind() {
	case constant.String:
		if s := constant.StringVal(v); len(s) > 0 && len(s) <= 200 {
			m.strs[hex.EncodeToString([]byte(s))] = true
		}
	case constant.Int:
		if constant.BitLen(v) <= 512 {
			set[v.ExactString()] = true
		}
	}
}

func (m *miner) walk(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.GenDecl:
		return x.Tok != token.IMPORT
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			m.add(m.cmp, m.eval(x.X))
			m.add(m.cmp, m.eval(x.Y))
		default:
			m.add(m.lit, m.eval(x))
		}
	case *ast.CaseClause:
		for _, e := range x.List {
			m.add(m.cmp, m.eval(e))
		}
	case *ast.CompositeLit:
		if len(x.Elts) > 64 {
			return false
		}
		m.quiet++
		for _, e := range x.Elts {
			ast.Inspect(e, m.walk)
		}
		m.quiet--
		var b []byte
		for _, e := range x.Elts {
			v := m.eval(e)
			if v == nil {
				return false
			}
			n, ok := constant.Int64Val(v)
			if !ok || n < 0 || n > 255 {
				return false
			}
			b = append(b, byte(n))
		}
		if len(b) > 0 {
			m.strs[hex.EncodeToString(b)] = true
		}
		return false
	case *ast.BasicLit:
		m.add(m.lit, m.eval(x))
	}
	return true
}

var cLit = regexp.MustCompile(`0[xX][0-9a-fA-F]+|\b\d+`)
var cCmp = regexp.MustCompile(`(?:==|!=|<=|>=|[^<]<[^<]|[^->]>[^>])[^;,&|)]*`)

func (m *miner) c(src string) {
	src = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*|#[^\n]*`).ReplaceAllString(src, " ")
	put := func(set map[string]bool, s string) {
		if n, ok := new(big.Int).SetString(s, 0); ok && n.BitLen() <= 512 {
			set[n.String()] = true
		}
	}
	for _, s := range cCmp.FindAllString(src, -1) {
		for _, l := range cLit.FindAllString(s, -1) {
			put(m.cmp, l)
		}
	}
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func main() {
	m := &miner{consts: map[string]ast.Expr{}, cmp: map[string]bool{}, lit: map[string]bool{}, strs: map[string]bool{}}
	var files []*ast.File
	fs := token.NewFileSet()
	filepath.Walk(os.Args[1], func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			if b := i.Name(); b == "vendor" || b == "testdata" || strings.HasPrefix(b, ".") && p != os.Args[1] {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".c") || strings.HasSuffix(p, ".h") {
			if b, err := os.ReadFile(p); err == nil {
				m.c(string(b))
			}
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if f, err := parser.ParseFile(fs, p, nil, 0); err == nil {
			files = append(files, f)
		}
		return nil
	})
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for i, n := range v.Names {
						if i < len(v.Values) {
							m.consts[n.Name] = v.Values[i]
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			ast.Inspect(d, m.walk)
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"cmp": keys(m.cmp), "lit": keys(m.lit), "strs": keys(m.strs)})
}
