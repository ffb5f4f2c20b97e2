// Package tree holds the harnesses for xmltree.
package tree

import (
	"bytes"
	"encoding/xml"
	"errors"
	"io"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

const (
	xmlNS   = "http://www.w3.org/XML/1998/namespace"
	xmlnsNS = "http://www.w3.org/2000/xmlns/"
)

// node is the reference tree, built straight from the token stream.
type node struct {
	name    xml.Name
	attrs   []xml.Attr
	decls   []xml.Name // prefix in Local, URI in Space, this element only
	parent  *node
	kids    []*node
	content []byte
	text    bool // non-white text directly inside
}

var errEOF = errors.New("no root element")

func isDecl(a xml.Attr) (prefix string, ok bool) {
	if a.Name.Space == "xmlns" {
		return a.Name.Local, true
	}
	if a.Name.Space == "" && a.Name.Local == "xmlns" {
		return "", true
	}
	return "", false
}

// refParse reads the tree of doc off the standard tokenizer.
func refParse(doc []byte) (*node, error) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	var root, cur *node
	var begin []int64
	for {
		before := d.InputOffset()
		tok, err := d.Token()
		if err != nil {
			if err == io.EOF {
				return nil, errEOF
			}
			return nil, err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			n := &node{name: t.Name, parent: cur}
			for _, a := range t.Attr {
				if p, ok := isDecl(a); ok {
					n.decls = append(n.decls, xml.Name{Space: a.Value, Local: p})
				} else {
					n.attrs = append(n.attrs, a)
				}
			}
			if cur == nil {
				root = n
			} else {
				cur.kids = append(cur.kids, n)
			}
			cur = n
			begin = append(begin, d.InputOffset())
		case xml.CharData:
			if cur != nil && len(bytes.TrimSpace(t)) > 0 {
				cur.text = true
			}
		case xml.EndElement:
			if cur == nil {
				continue
			}
			b := begin[len(begin)-1]
			begin = begin[:len(begin)-1]
			if before < b {
				before = b
			}
			cur.content = doc[b:before]
			if cur.parent == nil {
				return root, nil
			}
			cur = cur.parent
		}
	}
}

func sameName(a, b xml.Name) bool {
	return vnd.And(a.Space == b.Space, a.Local == b.Local)
}

// checkTree asserts that el is exactly n.
func checkTree(el *xmltree.Element, n *node) {
	vnd.Assert(sameName(el.Name, n.name), "element name")
	vnd.Assert(len(el.StartElement.Attr) == len(n.attrs), "number of attributes")
	for i, a := range n.attrs {
		b := el.StartElement.Attr[i]
		vnd.Assert(vnd.And(sameName(a.Name, b.Name), a.Value == b.Value), "attribute")
	}
	vnd.Assert(string(el.Content) == string(n.content), "content")
	vnd.Assert(len(el.Children) == len(n.kids), "number of children")
	for i := range n.kids {
		checkTree(&el.Children[i], n.kids[i])
	}
}

// resolve is the reference for QName resolution.
func (n *node) resolve(prefix string) (uri string, ok bool) {
	if prefix == "xml" {
		return xmlNS, true
	}
	if prefix == "xmlns" {
		return xmlnsNS, true
	}
	for e := n; e != nil; e = e.parent {
		for _, d := range e.decls {
			if d.Local == prefix {
				return d.Space, true
			}
		}
	}
	return prefix, false
}

func (n *node) walk(el *xmltree.Element, f func(*xmltree.Element, *node)) {
	f(el, n)
	for i := range n.kids {
		n.kids[i].walk(&el.Children[i], f)
	}
}
