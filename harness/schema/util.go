// Package schema holds the properties of package xsd.
package schema

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

const xs = "http://www.w3.org/2001/XMLSchema"

// Setup keeps the bundled schemas out of the way: they do not depend on the
// input, and parsing them again on every path would only cost time.
func Setup() {
	xsd.StandardSchema = nil
}

// open starts a schema document with a target namespace and prefix t for it.
func open(tns string) string {
	return "<s:schema xmlns:s='" + xs + "' xmlns:t='" + tns + "' targetNamespace='" + tns + "'>"
}

const end = "</s:schema>"

// parse runs the parser and returns the schemas by target namespace.
func parse(docs ...string) (map[string]xsd.Schema, error) {
	var data [][]byte
	for _, d := range docs {
		vnd.Observe("doc", d)
		data = append(data, []byte(d))
	}
	list, err := xsd.Parse(data...)
	if err != nil {
		return nil, err
	}
	out := make(map[string]xsd.Schema)
	for _, s := range list {
		out[s.TargetNS] = s
	}
	return out, nil
}

// mustParse is parse for documents that are valid.
func mustParse(docs ...string) map[string]xsd.Schema {
	s, err := parse(docs...)
	vnd.Assert(err == nil, "a valid schema is accepted")
	return s
}

func n(space, local string) xml.Name { return xml.Name{Space: space, Local: local} }

func complexOf(s xsd.Schema, local string) *xsd.ComplexType {
	t, ok := s.Types[n(s.TargetNS, local)].(*xsd.ComplexType)
	vnd.Assert(ok && t != nil, "complex type is there under its name")
	vnd.Assert(t.Name == n(s.TargetNS, local), "with its name")
	return t
}

func simpleOf(s xsd.Schema, local string) *xsd.SimpleType {
	t, ok := s.Types[n(s.TargetNS, local)].(*xsd.SimpleType)
	vnd.Assert(ok && t != nil, "simple type is there under its name")
	vnd.Assert(t.Name == n(s.TargetNS, local), "with its name")
	return t
}

// attr writes an attribute, or nothing for the value "-".
func attr(name, val string) string {
	if val == "-" {
		return ""
	}
	return " " + name + "='" + val + "'"
}
