//go:build ignore

// Command mutate lists small changes of the given Go files, one JSON object
// per line: {file, line, op, start, end, new}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File, Op   string
	Line       int
	Func       string
	Start, End int
	New        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			put := func(n ast.Node, op, new string) {
				enc.Encode(mut{name, op, fset.Position(n.Pos()).Line, fd.Name.Name, off(n.Pos()), off(n.End()), new})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					put(n.Cond, "negate", "!("+text(n.Cond)+")")
					if n.Else == nil {
						put(n, "dropif", "{}")
						put(n.Cond, "always", "true || "+"("+text(n.Cond)+")")
					} else {
						put(n.Cond, "never", "false && "+"("+text(n.Cond)+")")
						put(n.Cond, "always", "true || "+"("+text(n.Cond)+")")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}}
					for _, a := range alt[n.Op] {
						put(n, "op"+n.Op.String(), text(n.X)+" "+a+" "+text(n.Y))
					}
					if n.Op == token.LAND || n.Op == token.LOR || n.Op == token.ADD {
						put(n, "left", text(n.X))
						put(n, "right", text(n.Y))
					}
				case *ast.ExprStmt:
					put(n, "dropcall", "{}")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						put(n, "dropassign", "{}")
					}
					if n.Tok == token.DEFINE || n.Tok == token.ASSIGN {
						if len(n.Rhs) == 1 {
							if c, ok := n.Rhs[0].(*ast.CallExpr); ok && len(c.Args) >= 1 && len(n.Lhs) == 1 {
								put(c, "arg0", text(c.Args[0]))
							}
						}
					}
				case *ast.IncDecStmt:
					put(n, "dropinc", "{}")
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						put(n, "cont>break", "break")
					}
					if n.Label == nil {
						put(n, "dropbranch", "{}")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if t := text(r); t == "true" {
							put(r, "false", "false")
						} else if t == "false" {
							put(r, "true", "true")
						} else if t == "err" {
							put(r, "nil", "nil")
						}
					}
					put(n, "dropreturn", "{}")
				case *ast.BasicLit:
					if n.Kind == token.INT {
						put(n, "inc", "("+n.Value+"+1)")
						if n.Value != "0" {
							put(n, "dec", "("+n.Value+"-1)")
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						put(n, "str", "\"\"")
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i := range n.List {
							if i == 0 {
								enc.Encode(mut{name, "dropcase", fset.Position(n.List[0].Pos()).Line, fd.Name.Name, off(n.List[0].Pos()), off(n.List[1].Pos()), ""})
							} else {
								enc.Encode(mut{name, "dropcase", fset.Position(n.List[i].Pos()).Line, fd.Name.Name, off(n.List[i-1].End()), off(n.List[i].End()), ""})
							}
						}
					}
					if len(n.Body) > 0 {
						enc.Encode(mut{name, "dropbody", fset.Position(n.Pos()).Line, fd.Name.Name, off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "{}"})
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(n.Args); i++ {
						if text(n.Args[i]) != text(n.Args[i+1]) {
							enc.Encode(mut{name, "swap", fset.Position(n.Pos()).Line, fd.Name.Name, off(n.Args[i].Pos()), off(n.Args[i+1].End()), text(n.Args[i+1]) + ", " + text(n.Args[i])})
						}
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
						put(n, "noappend", text(n.Args[0]))
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						put(n, "unnot", text(n.X))
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						put(n.Low, "low", text(n.Low)+"+1")
					}
					if n.High != nil && n.Max == nil {
						put(n.High, "high", text(n.High)+"-1")
					}
				case *ast.RangeStmt:
					put(n.X, "range1", text(n.X)+"[1:]")
				}
				return true
			})
		}
	}
}
