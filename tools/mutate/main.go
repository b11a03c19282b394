// Command mutate enumerates small source changes (mutants) of a Go file. It is
// used to look for gaps in the monitors; no check depends on it.
//
//	mutate -file F          prints the number of mutants and a description of each
//	mutate -file F -n I     prints the file with mutant I applied
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file := flag.String("file", "", "Go file")
	n := flag.Int("n", -1, "mutant to print")
	flag.Parse()
	src, err := os.ReadFile(*file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, *file, src, 0)
	if err != nil {
		panic(err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, text string) {
		o := string(src[off(a):off(b)])
		if o == text {
			return
		}
		if len(o) > 60 {
			o = o[:60] + "..."
		}
		edits = append(edits, edit{off(a), off(b), text, fmt.Sprintf("%d: %q -> %q", fset.Position(a).Line, o, text)})
	}
	swaps := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&"},
	}
	asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*=",
		token.OR_ASSIGN: "=", token.AND_ASSIGN: "|=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<="}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, ok := new(big.Int).SetString(x.Value, 0)
				if !ok {
					break
				}
				hex := strings.HasPrefix(strings.ToLower(x.Value), "0x")
				show := func(v *big.Int) string {
					if hex {
						return fmt.Sprintf("%#x", v)
					}
					return v.String()
				}
				add(x.Pos(), x.End(), show(new(big.Int).Add(v, big.NewInt(1))))
				if v.Sign() > 0 {
					add(x.Pos(), x.End(), show(new(big.Int).Sub(v, big.NewInt(1))))
				}
				if hex && v.BitLen() > 2 {
					add(x.Pos(), x.End(), show(new(big.Int).SetBit(v, v.BitLen()/2, 1-v.Bit(v.BitLen()/2))))
					add(x.Pos(), x.End(), show(new(big.Int).SetBit(v, v.BitLen()-1, 0)))
				}
			case token.CHAR:
				if x.Value == "'0'" {
					add(x.Pos(), x.End(), "'1'")
				} else if x.Value == "'9'" {
					add(x.Pos(), x.End(), "'8'")
				} else if x.Value == "'5'" {
					add(x.Pos(), x.End(), "'6'")
				}
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' {
					for i := 1; i < len(x.Value)-1; i++ {
						c := x.Value[i]
						if c >= '0' && c <= '8' && (len(x.Value) < 40 || i%37 == 3) {
							add(x.Pos()+token.Pos(i), x.Pos()+token.Pos(i+1), string(c+1))
						}
					}
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.Pos(), "!(")
			e := &edits[len(edits)-1]
			c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
			*e = edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") && false", fmt.Sprintf("%d: if %s never", fset.Position(x.Pos()).Line, c)}
			if x.Init == nil {
				edits = append(edits, edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") || true", fmt.Sprintf("%d: if %s always", fset.Position(x.Pos()).Line, c)})
			}
		case *ast.AssignStmt:
			if s, ok := asg[x.Tok]; ok {
				add(x.TokPos, x.TokPos+2, s)
			}
			if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
				if len(x.Lhs) == 1 {
					add(x.Pos(), x.End(), "_ = 0")
				}
			}
		case *ast.IncDecStmt:
			s := "--"
			if x.Tok == token.DEC {
				s = "++"
			}
			add(x.TokPos, x.TokPos+2, s)
			add(x.Pos(), x.End(), "_ = 0")
		case *ast.ExprStmt:
			if _, ok := x.X.(*ast.CallExpr); ok {
				add(x.Pos(), x.End(), "_ = 0")
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT || x.Op == token.XOR {
				add(x.OpPos, x.OpPos+1, "")
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				add(x.Pos(), x.End(), "false")
			case "false":
				add(x.Pos(), x.End(), "true")
			case "ToNearestEven":
				add(x.Pos(), x.End(), "ToZero")
				add(x.Pos(), x.End(), "ToNearestAway")
			case "NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero":
			case "uint64":
				add(x.Pos(), x.End(), "uint32")
			case "uint32":
				add(x.Pos(), x.End(), "uint16")
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "_ = 0")
			}
		}
		return true
	})
	if *n < 0 {
		fmt.Println(len(edits))
		for i, e := range edits {
			fmt.Println(i, strings.ReplaceAll(e.what, "\n", " "))
		}
		return
	}
	e := edits[*n]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
