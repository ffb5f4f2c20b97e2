package gen

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
)

// What generated code may use of the standard library: declarations without
// bodies, enough for the type checker.
var stubs = map[string]string{
	"time": `package time
type ParseError struct { Layout, Value, Message string }
func (e *ParseError) Error() string
type Time struct { wall uint64 }
func (t Time) IsZero() bool
func (t Time) Format(layout string) string
func (t Time) MarshalText() ([]byte, error)
func (t *Time) UnmarshalText(b []byte) error
func Parse(layout, value string) (Time, error)
const RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"`,
	"encoding/xml": `package xml
type Name struct { Space, Local string }
type Attr struct { Name Name; Value string }
type StartElement struct { Name Name; Attr []Attr }
type EndElement struct { Name Name }
type CharData []byte
type Token any
type Decoder struct { x int }
func NewDecoder(r interface{ Read([]byte) (int, error) }) *Decoder
func (d *Decoder) DecodeElement(v any, start *StartElement) error
func (d *Decoder) Decode(v any) error
func (d *Decoder) Token() (Token, error)
func (d *Decoder) Skip() error
type Encoder struct { x int }
func NewEncoder(w interface{ Write([]byte) (int, error) }) *Encoder
func (e *Encoder) EncodeElement(v any, start StartElement) error
func (e *Encoder) Encode(v any) error
func (e *Encoder) EncodeToken(t Token) error
func (e *Encoder) Flush() error`,
	"bytes": `package bytes
type Buffer struct { x int }
func (b *Buffer) Bytes() []byte
func (b *Buffer) String() string
func (b *Buffer) Len() int
func (b *Buffer) Write(p []byte) (int, error)
func (b *Buffer) WriteString(s string) (int, error)
func (b *Buffer) WriteByte(c byte) error
func (b *Buffer) Read(p []byte) (int, error)
func NewBuffer(p []byte) *Buffer
func NewBufferString(s string) *Buffer`,
	"strconv": `package strconv`,
	"strings": `package strings
type Builder struct { x int }
func (b *Builder) WriteString(s string) (int, error)
func (b *Builder) WriteByte(c byte) error
func (b *Builder) Write(p []byte) (int, error)
func (b *Builder) String() string
func (b *Builder) Len() int`,
	"encoding/hex": `package hex`,
	"encoding/base64": `package base64
type Encoding struct { x int }
var StdEncoding *Encoding
func (e *Encoding) DecodeString(s string) ([]byte, error)
func (e *Encoding) EncodeToString(b []byte) string
func (e *Encoding) EncodedLen(n int) int
func (e *Encoding) DecodedLen(n int) int
func (e *Encoding) Encode(dst, src []byte)
func (e *Encoding) Decode(dst, src []byte) (int, error)
type enc struct { x int }
func (enc) Write(p []byte) (int, error)
func (enc) Close() error
func NewEncoder(e *Encoding, w interface{ Write([]byte) (int, error) }) interface { Write(p []byte) (int, error); Close() error }`,
	"fmt": `package fmt
func Errorf(f string, a ...any) error
func Sprintf(f string, a ...any) string
func Sprint(a ...any) string
func Fprintf(w interface{ Write([]byte) (int, error) }, f string, a ...any) (int, error)`,
	"errors": `package errors`,
	"io": `package io
type Reader interface { Read(p []byte) (int, error) }
type Writer interface { Write(p []byte) (int, error) }
type ReadCloser interface { Reader; Close() error }
var EOF error`,
	"context": `package context
type Context interface { Err() error }`,
	"net/http": `package http
import ("io"; "context")
type Header map[string][]string
func (h Header) Set(k, v string)
func (h Header) Add(k, v string)
type Request struct { Header Header }
func (r *Request) WithContext(c context.Context) *Request
type Response struct { Body io.ReadCloser; StatusCode int; Status string }
type Client struct { x int }
func (c *Client) Do(r *Request) (*Response, error)
var DefaultClient *Client
func NewRequest(method, url string, body io.Reader) (*Request, error)`,
}

// importer makes packages of the stubs and those functions that are used.
type importer struct {
	pkgs map[string]*types.Package
	used map[string]map[string]bool // by last element of the path
}

func (m importer) Import(path string) (*types.Package, error) {
	if p, ok := m.pkgs[path]; ok {
		return p, nil
	}
	src, ok := stubs[path]
	if !ok {
		return nil, fmt.Errorf("no such package %s", path)
	}
	for _, fn := range strings.Split(functions[path], "\n") {
		if i := strings.IndexByte(fn, '('); i > 5 && m.used[last(path)][fn[5:i]] {
			src += "\n" + fn
		}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	cfg := types.Config{Importer: m, IgnoreFuncBodies: true}
	p, err := cfg.Check(path, fset, []*ast.File{f}, nil)
	if err != nil {
		panic(err)
	}
	m.pkgs[path] = p
	return p, nil
}

func last(path string) string { return path[strings.LastIndexByte(path, '/')+1:] }

var packages = []string{"bytes", "context", "encoding/base64", "encoding/hex", "encoding/xml", "errors", "fmt", "io", "net/http", "strconv", "strings", "time"}

// source prints what was generated, with the imports it needs, as
// gen.FormattedSource does (it leaves finding the imports to goimports).
func source(file *ast.File) (string, map[string]map[string]bool) {
	file.Doc = nil
	var buf bytes.Buffer
	err := format.Node(&buf, token.NewFileSet(), file)
	vnd.Assert(err == nil, "generated code can be formatted")
	src := buf.String()
	line := strings.IndexByte(src, '\n')
	if line < 0 {
		return src, nil
	}
	used := map[string]map[string]bool{}
	use := func(p, x string) {
		if used[p] == nil {
			used[p] = map[string]bool{}
		}
		used[p][x] = true
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				use(x.Name, n.Sel.Name)
			}
		case *ast.Ident:
			if i := strings.IndexByte(n.Name, '.'); i > 0 {
				use(n.Name[:i], n.Name[i+1:])
			}
		}
		return true
	})
	var imports string
	for _, path := range packages {
		if used[last(path)] != nil {
			imports += "import \"" + path + "\"\n"
		}
	}
	return src[:line+1] + imports + src[line+1:], used
}

// stubbed tells whether an error may come from what the stubs leave out.
func stubbed(msg string) bool {
	for _, path := range packages {
		p := last(path) + "."
		if rest, ok := strings.CutPrefix(msg, "undefined: "+p); ok {
			return strings.Contains(exported[path], " "+rest+" ")
		}
		if strings.Contains(msg, "has no field or method") && strings.Contains(msg, path+".") {
			return true
		}
	}
	return false
}

// load type-checks what was generated.
func load(file *ast.File) *types.Package {
	src, used := source(file)
	vnd.Observe("source", src)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, 0)
	vnd.Assert(err == nil, "generated code parses")
	var msgs []string
	cfg := types.Config{Importer: importer{map[string]*types.Package{}, used}, Error: func(err error) {
		e := err.(types.Error)
		if strings.Contains(e.Msg, "imported and not used") {
			return
		}
		if stubbed(e.Msg) {
			vnd.Observe("not modelled", e.Msg)
			vnd.Assume(false)
		}
		msgs = append(msgs, e.Msg)
	}}
	pkg, _ := cfg.Check("ws", fset, []*ast.File{f}, nil)
	if len(msgs) > 0 {
		vnd.Observe("error", strings.Join(msgs, "; "))
	}
	vnd.Assert(len(msgs) == 0, "generated code compiles")
	return pkg
}
