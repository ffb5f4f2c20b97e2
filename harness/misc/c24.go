package misc

import (
	"go/ast"
	"go/scanner"
	"go/token"
	"strconv"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/internal/zzverif/vnd"
)

// scan returns the tokens of a source text, comments included.
func scan(src string) (toks []token.Token, lits []string, errs int) {
	fset := token.NewFileSet()
	file := fset.AddFile("x.go", fset.Base(), len(src))
	var s scanner.Scanner
	s.Init(file, []byte(src), func(token.Position, string) { errs++ }, scanner.ScanComments)
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		toks = append(toks, tok)
		lits = append(lits, lit)
	}
}

func checkLiteral(lit *ast.BasicLit, s string) {
	vnd.Assert(lit.Kind == token.STRING, "a string literal")
	toks, lits, errs := scan(lit.Value)
	vnd.Assert(errs == 0, "no lexical error")
	vnd.Assert(len(toks) >= 1 && toks[0] == token.STRING, "one string token")
	vnd.Assert(len(toks) == 1 || len(toks) == 2 && toks[1] == token.SEMICOLON, "nothing but the string token")
	got, err := strconv.Unquote(lits[0])
	vnd.Assert(err == nil, "a valid literal")
	vnd.Assert(got == s, "the literal means the string")
}

func H_literal_any() {
	s := vnd.String(vnd.Choose(3 + vnd.Tier()))
	checkLiteral(gen.String(s), s)
}

func H_literal_quoted() {
	s := vnd.StringOf("\"`\\\r\na\t", vnd.Choose(5+vnd.Tier()))
	vnd.Observe("s", s)
	checkLiteral(gen.String(s), s)
}

// H_literal_near: a quote next to any two bytes.
func H_literal_near() {
	s := "\"" + vnd.String(1+vnd.Tier()) + "\x7f" + vnd.String(1)
	checkLiteral(gen.String(s), s)
}

// H_literal_rune: characters of two to four bytes after a quote.
func H_literal_rune() {
	n := vnd.Choose(3)
	s := "\"" + []string{"\u00c2", "\u2028", "\ufeff"}[n] + vnd.StringOf("\"`\n\x00\x80", 1)
	checkLiteral(gen.String(s), s)
}

// H_literal_utf8: every three-byte character after a quote.
func H_literal_utf8() {
	b := vnd.Bytes(3)
	vnd.Assume(b[0] >= 0xe0)
	s := "\"" + string(b)
	checkLiteral(gen.String(s), s)
}

func constOf(d *ast.GenDecl, n int) *ast.ValueSpec {
	vnd.Assert(d.Tok == token.CONST, "a const declaration")
	return d.Specs[n].(*ast.ValueSpec)
}

func H_literal_const() {
	s := vnd.StringOf("\"`\\\r\na\x00\xff", vnd.Choose(4))
	d := gen.ConstString("a", "T", s, "b", "", s)
	vnd.Assert(len(d.Specs) == 2, "one spec per constant")
	for i, n := range []string{"a", "b"} {
		c := constOf(d, i)
		vnd.Assert(c.Names[0].Name == n, "constant name")
		checkLiteral(c.Values[0].(*ast.BasicLit), s)
	}
}

// H_sanitize_any: any lower-case word, and the case mix.
func H_sanitize_word() {
	n := vnd.Choose(13)
	s := vnd.StringOf("abcdefghijklmnopqrstuvwxyz", n)
	vnd.Observe("s", s)
	checkSanitize(s)
}

func H_sanitize_any() {
	s := vnd.String(vnd.Choose(6 + 2*vnd.Tier()))
	vnd.Observe("s", s)
	checkSanitize(s)
}

func checkSanitize(s string) {
	got := gen.Sanitize(s)
	vnd.Assert(!token.IsKeyword(got), "not a keyword")
	if token.IsKeyword(s) {
		vnd.Cover("keyword")
		vnd.Assert(token.IsIdentifier(got), "an identifier")
	} else {
		vnd.Assert(got == s, "unchanged")
	}
}

// comments checks a comment group as printed: one comment per line.
func checkComment(group *ast.CommentGroup, text string) {
	src := ""
	for _, c := range group.List {
		src += strings.TrimSuffix(c.Text, "\n") + "\n"
	}
	toks, lits, errs := scan(src)
	vnd.Assert(errs == 0, "no lexical error")
	all := "\n"
	for i, tok := range toks {
		vnd.Assert(tok == token.COMMENT, "nothing but comments")
		vnd.Assert(strings.HasPrefix(lits[i], "// "), "line comments")
		all += strings.TrimSpace(strings.TrimPrefix(lits[i], "//")) + "\n"
	}
	rest := all
	for _, line := range strings.Split(text, "\n") {
		line = strings.ReplaceAll(line, "\r", "")
		line = strings.ReplaceAll(line, "\ufeff", "") // not allowed in Go source
		i := strings.Index(rest, "\n"+strings.TrimSpace(line)+"\n")
		if strings.TrimSpace(line) == "" {
			continue
		}
		vnd.Assert(i >= 0, "every line of the text is there, in order")
		rest = rest[i+1+len(strings.TrimSpace(line)):]
	}
}

// H_comment_any: any text of legal characters.
func H_comment_any() {
	s := vnd.String(vnd.Choose(4 + vnd.Tier()))
	for i := 0; i < len(s); i++ {
		vnd.Assume(vnd.And(s[i] != 0, s[i] < 0x80))
	}
	vnd.Observe("s", s)
	checkComment(gen.CommentGroup(s), s)
}

func H_comment_text() {
	s := vnd.StringOf("*/ \n\ra\t", vnd.Choose(6+vnd.Tier()))
	vnd.Observe("s", s)
	checkComment(gen.CommentGroup(s), s)
}

func H_comment_rune() {
	s := vnd.StringOf("a\n ", 1) + []string{"\u00e9", "\u2028", "\ufeff", "\u0085", "\u00a0"}[vnd.Choose(5)] + vnd.StringOf("a\n ", 1)
	checkComment(gen.CommentGroup(s), s)
	fn, err := gen.Func("F").Comment(s).Body("return").Decl()
	vnd.Assert(err == nil, "a declaration")
	checkComment(fn.Doc, s)
}

func H_comment_list() {
	a := vnd.StringOf("a \n/", vnd.Choose(4))
	b := vnd.StringOf("b\n*", vnd.Choose(3))
	f := &ast.File{Name: ast.NewIdent("p")}
	vnd.Assert(gen.PackageDoc(f) == f && f.Doc == nil, "no comment, no change")
	f = gen.PackageDoc(f, a, "\n", b)
	checkComment(f.Doc, a+"\n\n"+b)
}

// H_comment_long: lines around the buffer sizes of line readers.
func H_comment_long() {
	n := []int{1, 4095, 4096, 65534, 65535, 65536, 65537, 70000, 131072}[vnd.Choose(9)]
	s := "first\n" + strings.Repeat("x", n) + vnd.StringOf(" \ny", 1) + "\nlast"
	checkComment(gen.CommentGroup(s), s)
}

func H_comment_func() {
	s := vnd.StringOf("*/ \n\ra", 1+vnd.Choose(4+vnd.Tier()))
	vnd.Observe("s", s)
	fn, err := gen.Func("F").Comment(s).Body("return").Decl()
	vnd.Assert(err == nil, "a declaration")
	checkComment(fn.Doc, s)
}

// H_tag: the value of a key in the tag of a field.
func H_tag() {
	v := vnd.StringOf("a ,:\"\\`", vnd.Choose(4+vnd.Tier()))
	tag := "xml:" + strconv.Quote(v)
	want := ""
	key := []string{"xml", "xm", "json", "k"}[vnd.Choose(4)]
	if key == "xml" {
		want = v
	}
	switch vnd.Choose(4) {
	case 1:
		tag = "json:\"j\" " + tag
		if key == "json" {
			want = "j"
		}
	case 2:
		tag += " k:\"xml\""
		if key == "k" {
			want = "xml"
		}
	case 3:
		vnd.Assert(gen.TagKey(new(ast.Field), key) == "", "no value where there is no tag")
		return
	}
	vnd.Observe("tag", tag)
	field := ast.Field{Tag: gen.String(tag)}
	vnd.Assert(gen.TagKey(&field, key) == want, "the value of the key")
}
