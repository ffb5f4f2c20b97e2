From e3754605e9d2335472956aec6b3e5f1d0126cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 01/79] fix: only an unprefixed xmlns attribute declares the
 default namespace

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..8933d46 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -167,7 +167,7 @@ func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	for _, attr := range tag.Attr {
 		if attr.Name.Space == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, attr.Name.Local})
-		} else if attr.Name.Local == "xmlns" {
+		} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, ""})
 		} else {
 			newAttrs = append(newAttrs, attr)
-- 
2.43.0


From b03ed8ac373dadbd8a6b563d1464c4cc5724574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 02/79] fix: JoinScope results no longer overwrite each other's
 declarations

---
 xmltree/xmltree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 8933d46..b7f2a4c 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,8 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	// Do not share spare capacity between the results of several calls.
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From ae8f19d940b22fec3957b600994fb17513172b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 03/79] fix: Prefix ignores shadowed declarations and falls
 back to the local name

---
 xmltree/xmltree.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index b7f2a4c..81f1548 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -149,19 +149,33 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 		return "xmlns:" + name.Local
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
-		if scope.ns[i].Space == name.Space {
+		if scope.ns[i].Space == name.Space && !scope.shadowed(i) {
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
-				qname = name.Local
+				return name.Local
 			} else if len(qname) == 0 {
 				qname = scope.ns[i].Local + ":" + name.Local
 			}
 		}
 	}
+	if len(qname) == 0 {
+		return name.Local
+	}
 	return qname
 }
 
+// shadowed returns true if the i'th namespace declaration is
+// overridden by a later declaration of the same prefix.
+func (scope *Scope) shadowed(i int) bool {
+	for _, ns := range scope.ns[i+1:] {
+		if ns.Local == scope.ns[i].Local {
+			return true
+		}
+	}
+	return false
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
-- 
2.43.0


From 9df7045699e001a1c91e6d59b90f41dab0972016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 04/79] fix: Marshal escapes attribute values, qualifies
 attributes and drops shadowed declarations

---
 xmltree/marshal.go | 48 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..4386366 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -11,17 +11,40 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
+	"escape":   escape,
+	"attrName": attrName,
+}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{attrName $.Element .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{escape .Space}}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+// escape makes a string safe for use in a quoted attribute value.
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
+// attrName is like Scope.Prefix, but does not use the default namespace,
+// which does not apply to attributes.
+func attrName(el *Element, name xml.Name) string {
+	scope := el.Scope
+	scope.ns = nil
+	for i, ns := range el.Scope.ns {
+		if ns.Local != "" && !el.Scope.shadowed(i) {
+			scope.ns = append(scope.ns, ns)
+		}
+	}
+	return scope.Prefix(name)
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
@@ -115,13 +138,14 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 }
 
 // diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
+// identical namespace declaration in the parent's scope and any
+// declaration overridden by a later one.
 func diffScope(parent, child *Element) Scope {
-	if parent == nil { // root element
-		return child.Scope
-	}
 	childScope := child.Scope
-	parentScope := parent.Scope
+	var parentScope Scope
+	if parent != nil {
+		parentScope = parent.Scope
+	}
 	for len(parentScope.ns) > 0 && len(childScope.ns) > 0 {
 		if childScope.ns[0] == parentScope.ns[0] {
 			childScope.ns = childScope.ns[1:]
@@ -130,7 +154,13 @@ func diffScope(parent, child *Element) Scope {
 			break
 		}
 	}
-	return childScope
+	var scope Scope
+	for i, ns := range childScope.ns {
+		if !childScope.shadowed(i) {
+			scope.ns = append(scope.ns, ns)
+		}
+	}
+	return scope
 }
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
-- 
2.43.0


From 3f504c7a99623f73b89e6a49333533a56a033db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 05/79] fix: Encode returns the errors of all its writes

---
 xmltree/marshal.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 4386366..7d67dfb 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -110,8 +110,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := e.w.Write([]byte("<!-- cycle detected -->"))
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -119,7 +119,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
@@ -166,7 +168,9 @@ func diffScope(parent, child *Element) Scope {
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
-			io.WriteString(e.w, e.indent)
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
+			}
 		}
 	}
 	var tag = struct {
@@ -178,7 +182,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	if e.pretty {
 		if len(el.Children) > 0 || len(el.Content) == 0 {
-			io.WriteString(e.w, "\n")
+			if _, err := io.WriteString(e.w, "\n"); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -188,7 +194,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
+				if _, err := io.WriteString(e.w, e.indent); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -196,7 +204,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 		return err
 	}
 	if e.pretty {
-		io.WriteString(e.w, "\n")
+		if _, err := io.WriteString(e.w, "\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4fe52fd4f65c5dc14b4c6603b931f219ba6cf76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 06/79] fix: Equal is symmetric, matches children in any order
 and does not reorder them

---
 xmltree/compare.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..4659be5 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -3,7 +3,6 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
-	"sort"
 )
 
 // Equal returns true if two xmltree.Elements are equal, ignoring
@@ -12,17 +11,8 @@ func Equal(a, b *Element) bool {
 	return equal(a, b, 0)
 }
 
-type byName []Element
-
-func (l byName) Len() int { return len(l) }
-func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
-}
-func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
-
 func equal(a, b *Element, depth int) bool {
-	const maxDepth = 1000
-	if depth > maxDepth {
+	if depth > recursionLimit {
 		return false
 	}
 	if !equalElement(a, b) {
@@ -34,35 +24,47 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
+	// Pair up the children. Equality is transitive, so it does not matter
+	// which of several equal children is chosen.
+	matched := make([]bool, len(b.Children))
+search:
 	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
-			return false
+		for j := range b.Children {
+			if !matched[j] && equal(&a.Children[i], &b.Children[j], depth+1) {
+				matched[j] = true
+				continue search
+			}
 		}
+		return false
 	}
 	return true
 }
 
+func isNamespaceDecl(attr xml.Attr) bool {
+	return attr.Name.Space == "xmlns" || attr.Name.Space == "" && attr.Name.Local == "xmlns"
+}
+
 func equalElement(a, b *Element) bool {
 	if a.Name != b.Name {
 		return false
 	}
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNamespaceDecl(a) {
 			continue
 		}
 		attrs[a.Name] = a.Value
 	}
 
+	matched := make(map[xml.Name]bool)
 	for _, a := range b.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNamespaceDecl(a) {
 			continue
 		}
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
 			return false
 		}
+		matched[a.Name] = true
 	}
-	return true
+	return len(matched) == len(attrs)
 }
-- 
2.43.0


From 6de5369772b6a55d61cbfc74d283c6fd2172f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 07/79] fix: parse documents in other encodings without
 clobbering or losing input

---
 xmltree/xmltree.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 81f1548..7307601 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -229,7 +229,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -238,14 +238,14 @@ func Parse(doc []byte) (*Element, error) {
 		// At this point, the encoding/xml package has already
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
-		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
-
-		_, err = io.Copy(utf8buf, utf8input)
-		if err != nil {
+		header := int(d.InputOffset())
+		utf8buf := new(bytes.Buffer)
+		utf8buf.Write(data[:header])
+		if _, err := io.Copy(utf8buf, utf8input); err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[header:]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
@@ -259,13 +259,13 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, &data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
 }
 
-func (el *Element) parse(scanner *scanner, data []byte, depth int) error {
+func (el *Element) parse(scanner *scanner, data *[]byte, depth int) error {
 	if depth > recursionLimit {
 		return errDeepXML
 	}
@@ -286,7 +286,7 @@ walk:
 			if tok.Name != el.Name {
 				return fmt.Errorf("Expecting </%s>, got </%s>", el.Prefix(el.Name), el.Prefix(tok.Name))
 			}
-			el.Content = data[int(begin):int(end)]
+			el.Content = (*data)[int(begin):int(end)]
 			break walk
 		}
 		end = scanner.InputOffset()
-- 
2.43.0


From 3dbfff5650986cf7699de5b70a746a7cb8047f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 08/79] fix: String uses raw literals only for strings they can
 represent

---
 internal/gen/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..301f7c8 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -120,9 +120,10 @@ func FieldList(fields ...string) (*ast.FieldList, error) {
 }
 
 // String generates a literal string. If the string contains a double
-// quote, backticks are used for quoting instead.
+// quote, backticks are used for quoting instead, where a raw string can
+// represent it unchanged.
 func String(s string) *ast.BasicLit {
-	if strings.Contains(s, "\"") && !strings.Contains(s, "`") {
+	if strings.Contains(s, "\"") && strconv.CanBackquote(s) {
 		return &ast.BasicLit{Kind: token.STRING, Value: "`" + s + "`"}
 	}
 	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
-- 
2.43.0


From 807c6f496a029cb0ddb75a4d5219c9ab67a571eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 09/79] fix: comments keep lines of any length and no byte
 order marks

---
 internal/gen/gen.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 301f7c8..a322b8a 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -217,15 +217,21 @@ func CommentGroup(comments ...string) *ast.CommentGroup {
 	var group ast.CommentGroup
 	for _, v := range comments {
 		line := bufio.NewScanner(strings.NewReader(v))
+		line.Buffer(nil, len(v)+1) // no line is too long
 		for line.Scan() {
 			group.List = append(group.List, &ast.Comment{
-				Text: "// " + strings.TrimSpace(line.Text()),
+				Text: "// " + strings.TrimSpace(stripBOM(line.Text())),
 			})
 		}
 	}
 	return &group
 }
 
+// Go source files cannot contain a byte order mark, even in comments.
+func stripBOM(s string) string {
+	return strings.Replace(s, "\ufeff", "", -1)
+}
+
 type Function struct {
 	name, receiver, godoc string
 	args, returns         []string
@@ -262,7 +268,7 @@ func (fn *Function) Decl() (*ast.FuncDecl, error) {
 		comments = &ast.CommentGroup{List: []*ast.Comment{}}
 		for _, line := range strings.Split(fn.godoc, "\n") {
 			comments.List = append(comments.List, &ast.Comment{
-				Text: "// " + line + "\n",
+				Text: "// " + stripBOM(line) + "\n",
 			})
 		}
 	}
-- 
2.43.0


From b90db939ac728f71560cd4227110a4c8cb5a5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 10/79] fix: references do not get a default type

---
 xsd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..5dc26f6 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -582,9 +582,10 @@ func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
 		hasNoType = hasAttrValue("", "type", "")
+		isNotRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
-	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isAttr, hasNoType, isNotRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
@@ -598,9 +599,10 @@ func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
 		hasNoType = hasAttrValue("", "type", "")
+		isNotRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
-	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isElement, hasNoType, isNotRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
-- 
2.43.0


From a3fd7d98986bc7ccb5080b3124aca57ee2f13afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:20 +0000
Subject: [PATCH 11/79] fix: refer to anonymous types in namespaces without a
 prefix

---
 xsd/parse.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 5dc26f6..6c7e736 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1,6 +1,7 @@
 package xsd
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"regexp"
@@ -187,6 +188,23 @@ func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
 
+// qname returns a qualified name that resolves to name in the scope of
+// el. If no prefix can be used for it there, one is added to the scope.
+func qname(el *xmltree.Element, name xml.Name) string {
+	if q := el.Prefix(name); el.Resolve(q) == name {
+		return q
+	}
+	const prefix = "_ns"
+	var buf bytes.Buffer
+	buf.WriteString("<_ xmlns:" + prefix + "=\"")
+	xml.EscapeText(&buf, []byte(name.Space))
+	buf.WriteString("\"/>")
+	if decl, err := xmltree.Parse(buf.Bytes()); err == nil {
+		el.Scope = *el.JoinScope(&decl.Scope)
+	}
+	return prefix + ":" + name.Local
+}
+
 /* Convert
 <element name="foo">
   <complexType>
@@ -228,7 +246,7 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 				continue
 			}
 			t.SetAttr("", "name", el.Attr("", "name"))
-			el.SetAttr("", "type", el.Prefix(xmlname))
+			el.SetAttr("", "type", qname(el, xmlname))
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
@@ -324,14 +342,14 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			*typeCounter++
 
 			name := anonTypeName(*typeCounter, targetNS)
-			qname := el.Prefix(name)
+			ref := qname(el, t.ResolveDefault(name.Local, targetNS))
 
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
 			if accum {
-				qname = el.Attr("", updateAttr) + " " + qname
+				ref = el.Attr("", updateAttr) + " " + ref
 			}
-			el.SetAttr("", updateAttr, qname)
+			el.SetAttr("", updateAttr, ref)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
 			root.Children = append(root.Children, t)
-- 
2.43.0


From 17803a180a9fe9137b5a82d189b82c17ebea06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 12/79] fix: name every anonymous type and keep it attached to
 its owner

---
 xsd/parse.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6c7e736..35f3083 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -221,6 +221,7 @@ to
 </element>
 */
 func copyEltNamesToAnonTypes(root *xmltree.Element) {
+	var types []xmltree.Element
 	used := make(map[xml.Name]struct{})
 	tns := root.Attr("", "targetNamespace")
 
@@ -250,10 +251,12 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			break
 		}
 	}
+	// This invalidates any pointers to the children of root
+	root.Children = append(root.Children, types...)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -310,9 +313,11 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 	var (
 		updateAttr string
 		accum      bool
+		types      []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
-	for _, el := range root.SearchFunc(hasAnonymousType) {
+	owners := root.SearchFunc(hasAnonymousType)
+	for _, el := range owners {
 		if el.Name.Space != schemaNS {
 			continue
 		}
@@ -333,10 +338,10 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			return fmt.Errorf("Did not expect <%s> to have an anonymous type",
 				el.Prefix(el.Name))
 		}
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
+		for i := range el.Children {
+			t := &el.Children[i]
 
-			if !isAnonymousType(&t) {
+			if !isAnonymousType(t) {
 				continue
 			}
 			*typeCounter++
@@ -350,14 +355,25 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 				ref = el.Attr("", updateAttr) + " " + ref
 			}
 			el.SetAttr("", updateAttr, ref)
-			el.Children = append(el.Children[:i], el.Children[i+1:]...)
-			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, *t)
 			if !accum {
 				break
 			}
 		}
 	}
+	// Elements are only moved once all of the types are named, and from
+	// the last to the first, because that invalidates the pointers to
+	// elements that follow them.
+	for i := len(owners) - 1; i >= 0; i-- {
+		el := owners[i]
+		for j := len(el.Children) - 1; j >= 0; j-- {
+			if el.Children[j].Attr("", "_isAnonymous") == "true" {
+				el.Children = append(el.Children[:j], el.Children[j+1:]...)
+				el.Content = nil
+			}
+		}
+	}
+	root.Children = append(root.Children, types...)
 	return nil
 }
 
-- 
2.43.0


From 21d15ebebd286dec788bbe11bbbb29b341c12033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 13/79] fix: names made for anonymous types are not those of
 other types

---
 xsd/parse.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 35f3083..0e682f8 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -105,14 +105,15 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 			result = append(result, root.Search(schemaNS, "schema")...)
 		}
 	}
+	used := typeNames(result)
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
+		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
 	for _, root := range result {
-		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
+		if err := nameAnonymousTypes(root, &typeCounter, used); err != nil {
 			return nil, err
 		}
 		if err := setChoicesOptional(root); err != nil {
@@ -184,6 +185,19 @@ func parseType(name xml.Name) Type {
 	return builtin
 }
 
+// typeNames returns the names of all named types in a set of schema.
+func typeNames(schema []*xmltree.Element) map[xml.Name]struct{} {
+	used := make(map[xml.Name]struct{})
+	namedTypes := and(isType, hasAttr("", "name"))
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(namedTypes) {
+			used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		}
+	}
+	return used
+}
+
 func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
@@ -220,16 +234,10 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
+func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
 	var types []xmltree.Element
-	used := make(map[xml.Name]struct{})
 	tns := root.Attr("", "targetNamespace")
 
-	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
-	}
-
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
 		hasAttr("", "name"),
@@ -309,7 +317,7 @@ to
     </xs:sequence>
   </xs:complexType>
 */
-func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
+func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used map[xml.Name]struct{}) error {
 	var (
 		updateAttr string
 		accum      bool
@@ -344,10 +352,14 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			if !isAnonymousType(t) {
 				continue
 			}
-			*typeCounter++
-
-			name := anonTypeName(*typeCounter, targetNS)
-			ref := qname(el, t.ResolveDefault(name.Local, targetNS))
+			var name xml.Name
+			for ok := true; ok; {
+				*typeCounter++
+				name = anonTypeName(*typeCounter, targetNS)
+				name = t.ResolveDefault(name.Local, targetNS)
+				_, ok = used[name]
+			}
+			ref := qname(el, name)
 
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
-- 
2.43.0


From 831e286eb1ce991590cd5747d785620b9949cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 14/79] fix: schema documents with the same target namespace do
 not replace each other

---
 xsd/parse.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e682f8..0e2a1ce 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -148,7 +148,10 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
-		s := Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		s, ok := parsed[tns]
+		if !ok {
+			s = Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		}
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
@@ -669,7 +672,11 @@ func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 		t := s.parseSimpleType(el)
 		s.Types[t.Name] = t
 	}
-	s.Types[xml.Name{tns, "_self"}] = s.parseSelfType(root)
+	self := s.parseSelfType(root)
+	if prev, ok := s.Types[xml.Name{tns, "_self"}].(*ComplexType); ok {
+		self.Elements = append(prev.Elements, self.Elements...)
+	}
+	s.Types[xml.Name{tns, "_self"}] = self
 	return err
 }
 
-- 
2.43.0


From 27456ae0309ad0760476c299ca9eca50a81f76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 15/79] fix: types derived from themselves are an error, and
 bases are resolved before they are used

---
 xsd/parse.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e2a1ce..43b816a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -169,6 +169,12 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
+	}
+	if err := checkBases(types); err != nil {
+		return nil, err
+	}
+	for _, root := range schema {
+		s := parsed[root.Attr("", "targetNamespace")]
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
@@ -1152,6 +1158,20 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// checkBases returns an error if any type is derived from itself.
+func checkBases(types map[xml.Name]Type) error {
+	for name, t := range types {
+		depth := 0
+		for b := Base(t); b != nil; b = Base(b) {
+			if depth++; depth > len(types)+1 {
+				return fmt.Errorf("type %s in namespace %s is derived from itself",
+					name.Local, name.Space)
+			}
+		}
+	}
+	return nil
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From 1f29fe2a83a51da86c321ad10ed8ce557458b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 16/79] fix: every type has a base

---
 xsd/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 43b816a..7e745b2 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -726,6 +726,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnyType
+	}
 	t.Doc += string(doc)
 	return &t
 }
@@ -953,12 +956,15 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			for _, name := range strings.Fields(el.Attr("", "memberTypes")) {
 				type_ := parseType(el.Resolve(name))
 				t.Union = append(t.Union, type_)
-				t.Base = AnySimpleType
 			}
+			t.Base = AnySimpleType
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnySimpleType
+	}
 	t.Doc = string(doc)
 	return &t
 }
-- 
2.43.0


From 9d2a3a6cc0a59f894dc0ad0a2a4764e6cdc5541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 17/79] fix: references are to top-level declarations only

---
 xsd/index.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..c3c1892 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -13,7 +13,8 @@ type elementKey struct {
 type schemaIndex struct {
 	eltByID []*xmltree.Element
 	// name indices can collide since different element
-	// types can have the same node.
+	// types can have the same node. Only the top-level
+	// declarations of a schema are indexed by name.
 	idByName map[elementKey]int
 }
 
@@ -35,9 +36,17 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
+		global := make(map[*xmltree.Element]bool, len(root.Children))
+		for i := range root.Children {
+			global[&root.Children[i]] = true
+		}
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			if !global[el] {
+				// local declarations cannot be referred to
+				continue
+			}
 			if name := el.Attr("", "name"); name != "" {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
-- 
2.43.0


From 95d61a8bbebe25be420c30954e0ba2fcd9a1fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 18/79] fix: resolve references inside of referenced groups,
 and copy what is referenced

---
 xsd/parse.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7e745b2..63a64a2 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -429,6 +429,14 @@ func flattenRef(schema []*xmltree.Element) error {
 				el.Attr("", "ref"), el)
 		} else {
 			depends.Add(id, dep)
+			// References within the referenced element must be
+			// resolved before it is copied. The descendants of an
+			// element follow it in the index.
+			for i, child := range index.eltByID[dep].Flatten() {
+				if child.Attr("", "ref") != "" {
+					depends.Add(dep, dep+1+i)
+				}
+			}
 		}
 	}
 	depends.Flatten(func(id int) {
@@ -461,7 +469,7 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el.Name = real.Name
 	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
 	el.Content = append([]byte{}, real.Content...)
-	el.Children = append([]xmltree.Element{}, real.Children...)
+	el.Children = copyElements(real.Children)
 
 	// Some attributes can contain a qname, and must be converted to use the
 	// xmlns prefixes in ref's scope.
@@ -471,14 +479,14 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	for i, attr := range el.StartElement.Attr {
 		if hasQName[attr.Name] {
 			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
+			attr.Value = qname(el, xmlname)
 			el.StartElement.Attr[i] = attr
 		}
 	}
 	// If there are child elements, rather than checking all children
 	// for xmlns conversion, we can just import the xmlns prefixes
 	if len(el.Children) > 0 {
-		el.Scope = *real.JoinScope(&ref.Scope)
+		el.Scope = *real.JoinScope(&el.Scope)
 	}
 
 	// Attributes added to the reference overwrite attributes in the
@@ -492,6 +500,18 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// copyElements makes a copy of a list of elements and all their
+// descendants, so that changes to one do not affect the other.
+func copyElements(list []xmltree.Element) []xmltree.Element {
+	result := append([]xmltree.Element{}, list...)
+	for i := range result {
+		el := &result[i]
+		el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+		el.Children = copyElements(el.Children)
+	}
+	return result
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
-- 
2.43.0


From b0fd3dfbfc6ad507d753f1f72b48b873630b0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 19/79] fix: a reference to an element of another namespace
 keeps that namespace

---
 xsd/index.go | 3 +++
 xsd/parse.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/xsd/index.go b/xsd/index.go
index c3c1892..3de39ea 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,6 +12,8 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
+	// target namespace of the schema each element is in
+	tnsByID []string
 	// name indices can collide since different element
 	// types can have the same node. Only the top-level
 	// declarations of a schema are indexed by name.
@@ -43,6 +45,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			index.tnsByID = append(index.tnsByID, tns)
 			if !global[el] {
 				// local declarations cannot be referred to
 				continue
diff --git a/xsd/parse.go b/xsd/parse.go
index 63a64a2..9084cc9 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -450,6 +450,10 @@ func flattenRef(schema []*xmltree.Element) error {
 			panic("bug building dep tree; missing " + el.Attr("", "ref"))
 		}
 		*el = *deref(el, real)
+		if isElem(schemaNS, "element")(el) && ref.Space != index.tnsByID[id] {
+			// an element of another namespace stays in it
+			el.SetAttr("", "name", qname(el, ref))
+		}
 	})
 	for ns, doc := range schema {
 		unpackGroups(doc)
-- 
2.43.0


From ee68fbda14cd8a5a8211a3e4a5e1e0c85a310799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 20/79] fix: the members of a group used as an alternative of a
 choice are optional

---
 xsd/parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 9084cc9..3f14dae 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -116,9 +116,6 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		if err := nameAnonymousTypes(root, &typeCounter, used); err != nil {
 			return nil, err
 		}
-		if err := setChoicesOptional(root); err != nil {
-			return nil, err
-		}
 	}
 	for _, root := range result {
 		expandComplexShorthand(root)
@@ -126,6 +123,11 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	if err := flattenRef(result); err != nil {
 		return nil, err
 	}
+	for _, root := range result {
+		if err := setChoicesOptional(root); err != nil {
+			return nil, err
+		}
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 7fd72b5ddac3a6aefd7f87ab56ad6e7f6a7c7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 21/79] fix: read the limits of date and time types as they may
 be written, and reject negative lengths

---
 xsd/parse.go | 77 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 3f14dae..e5bc287 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1019,11 +1019,11 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 		case "maxExclusive", "maxInclusive":
 			r.MaxDate, r.Max = parseMinMaxRestriction(el, base)
 		case "length":
-			r.Length = parseInt(el.Attr("", "value"))
+			r.Length = parseCount(el)
 		case "maxLength":
-			r.MaxLength = parseInt(el.Attr("", "value"))
+			r.MaxLength = parseCount(el)
 		case "minLength":
-			r.MinLength = parseInt(el.Attr("", "value"))
+			r.MinLength = parseCount(el)
 		case "pattern":
 			// We don't fully implement XML Schema's pattern language, and
 			// we don't want to stop a parse because of this. Instead, if we
@@ -1042,56 +1042,65 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 		case "whiteSpace":
 			break // TODO(droyo)
 		case "fractionDigits":
-			r.Precision = parseInt(el.Attr("", "value"))
-			if r.Precision < 0 {
-				stop("Invalid fractionDigits value " + el.Attr("", "value"))
-			}
+			r.Precision = parseCount(el)
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
 		case "totalDigits":
-			r.TotalDigits = parseInt(el.Attr("", "value"))
+			r.TotalDigits = parseCount(el)
 		}
 	})
 	r.Doc = string(doc)
 	return r
 }
 
+// Facets that limit a length or number of digits are not negative
+func parseCount(el *xmltree.Element) int {
+	n := parseInt(el.Attr("", "value"))
+	if n < 0 {
+		stop("Invalid " + el.Name.Local + " value " + el.Attr("", "value"))
+	}
+	return n
+}
+
 // For minInclusive, minExclusive, maxInclusive and maxExclusive restrictions
 func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
-	var date time.Time
-	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
-		}
-
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
+	value := strings.TrimSpace(el.Attr("", "value"))
+	switch base := base.(type) {
+	case Builtin:
+		switch base {
+		case Date, DateTime:
+			date, err := parseDate(base, value)
 			if err != nil {
 				stop(err.Error())
 			}
-			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+			return date, 0
+		case Time, Duration, GDay, GMonth, GMonthDay, GYearMonth:
+			// Neither a number nor a point in time
+			return time.Time{}, 0
 		}
-	} else if _, ok := base.(linkedType); ok {
+	case linkedType:
 		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
-		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
+		for _, b := range []Builtin{Date, DateTime} {
+			if date, err := parseDate(b, value); err == nil {
+				return date, 0
 			}
-			date = d
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
 	}
-	return date, decimal
+	return time.Time{}, parseDecimal(value)
+}
+
+// The time zone of a date or dateTime is optional. Without one, the
+// value is taken to be in UTC.
+func parseDate(typ Builtin, value string) (time.Time, error) {
+	format := "2006-01-02"
+	if typ == DateTime {
+		format = "2006-01-02T15:04:05"
+	}
+	date, err := time.Parse(format, value)
+	if err != nil {
+		return time.Parse(format+"Z07:00", value)
+	}
+	return date, nil
 }
 
 // XML Schema defines its own flavor of regular expressions here:
-- 
2.43.0


From 0deabe4e9af62983ef50053cc8ecbbee2340bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:04 +0000
Subject: [PATCH 22/79] fix: unpack groups within groups before the groups that
 contain them

Otherwise members of a nested group that is an alternative of a choice
were not optional.
---
 xsd/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e5bc287..8bbf3a1 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -524,7 +524,11 @@ func unpackGroups(doc *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
 	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
+	// The groups within a group are unpacked before it is, because
+	// its content is copied.
+	parents := doc.SearchFunc(hasGroups)
+	for i := len(parents) - 1; i >= 0; i-- {
+		el := parents[i]
 		children := make([]xmltree.Element, 0, len(el.Children))
 		for _, c := range el.Children {
 			if isGroup(&c) {
-- 
2.43.0


From 115159596825a68246f0bf0690d458fc40b8bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 23/79] fix: read the address of a port bound to HTTP

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..dfeef96 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -126,6 +126,9 @@ func parsePorts(targetNS string, root, svc *xmltree.Element) []Port {
 		for _, addr := range port.Search(soap12NS, "address") {
 			p.Address = addr.Attr("", "location")
 		}
+		for _, addr := range port.Search(httpNS, "address") {
+			p.Address = addr.Attr("", "location")
+		}
 		p.Method = "POST"
 		p.Method = parseMethod(targetNS, root, port)
 		p.Operations = parseOperations(targetNS, root, port)
-- 
2.43.0


From 4c63994aaf276dc8aadf7c733e6f3d2a7fc285e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 24/79] fix: read the action of an operation bound to SOAP 1.2

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index dfeef96..ffb2ca7 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -191,6 +191,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From 878cd62c48f86fadd3dd1449446a4dd902b3630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 25/79] fix: keep the ports of every service of a definition

---
 wsdl/wsdl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index ffb2ca7..35ce25b 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -215,7 +215,7 @@ func Parse(data []byte) (*Definition, error) {
 
 	for _, svc := range root.Search(wsdlNS, "service") {
 		def.Doc = documentation(svc)
-		def.Ports = parsePorts(def.TargetNS, root, svc)
+		def.Ports = append(def.Ports, parsePorts(def.TargetNS, root, svc)...)
 	}
 	return &def, nil
 }
-- 
2.43.0


From 46811a8de93b187d7257625c605590ecb164abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 26/79] fix: generated methods compile for types and fields
 named T

---
 xsdgen/xsdgen.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..e135209 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -795,29 +795,47 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+// overlayName returns a name for a local type that does not hide the type
+// it is declared for, the types of its fields, or the fields themselves.
+func overlayName(typeName string, overrides []fieldOverride) string {
+	used := map[string]bool{typeName: true}
+	for _, v := range overrides {
+		used[v.FieldName] = true
+		used[v.ToType] = true
+	}
+	name := "T"
+	for used[name] {
+		name += "_"
+	}
+	return name
+}
+
 func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		// Name of the type without methods, embedded in the overlay
+		Alias string
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
+	data.Alias = overlayName(data.Type, overrides)
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Alias}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.Alias}}
 				{{range .Overrides}}
 				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.Alias}} = (*{{.Alias}})(t)
 			{{range .Overrides}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Alias}}.{{.FieldName}})
 			{{if .DefaultValue -}}
 			// overlay.{{.FieldName}} = {{.DefaultValue}}
 			{{end -}}
@@ -848,16 +866,16 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Alias}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.Alias}}
 				{{- range .Overrides}}
 				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.Alias}} = (*{{.Alias}})(t)
 			{{- range .Overrides}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Alias}}.{{.FieldName}})
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
-- 
2.43.0


From af19196b3644d26ad34eae83c60b62d44d2f1d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 27/79] fix: quote default values in generated comments

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index e135209..b97089a 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -837,7 +837,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			{{range .Overrides}}
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Alias}}.{{.FieldName}})
 			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
+			// overlay.{{.FieldName}} = {{printf "%q" .DefaultValue}}
 			{{end -}}
 			{{end}}
 
-- 
2.43.0


From 0d296a2a658a7aad1a3f6e74e596f805d06b11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:48 +0000
Subject: [PATCH 28/79] fix: generate methods that compile for repeated
 elements with helper types

---
 xsdgen/xsdgen.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b97089a..476843b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -547,6 +547,7 @@ type fieldOverride struct {
 	FromType, ToType string
 	DefaultValue     string
 	Type             xsd.Type
+	Plural           bool
 	Tag              string
 }
 
@@ -706,7 +707,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			base = &ast.ArrayType{Elt: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
-		if el.Default != "" || nonTrivialBuiltin(el.Type) {
+		// a default says nothing about the items of a slice
+		if el.Default != "" && !el.Plural || nonTrivialBuiltin(el.Type) {
 			typeName := cfg.exprString(el.Type)
 			if nonTrivialBuiltin(el.Type) {
 				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
@@ -723,6 +725,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         el.Type,
+				Plural:       el.Plural,
 			})
 		}
 	}
@@ -816,10 +819,15 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Type      string
 		// Name of the type without methods, embedded in the overlay
 		Alias string
+		// Some overrides are slices, and have to be copied
+		Plural bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
 	data.Alias = overlayName(data.Type, overrides)
+	for _, v := range overrides {
+		data.Plural = data.Plural || v.Plural
+	}
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
@@ -830,18 +838,32 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var overlay struct{
 				*{{.Alias}}
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
 			overlay.{{.Alias}} = (*{{.Alias}})(t)
 			{{range .Overrides}}
+			{{if not .Plural -}}
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Alias}}.{{.FieldName}})
+			{{end -}}
 			{{if .DefaultValue -}}
 			// overlay.{{.FieldName}} = {{printf "%q" .DefaultValue}}
 			{{end -}}
 			{{end}}
 
+			{{if .Plural -}}
+			if err := d.DecodeElement(&overlay, &start); err != nil {
+				return err
+			}
+			{{range .Overrides}}{{if .Plural -}}
+			for _, v := range overlay.{{.FieldName}} {
+				t.{{.FieldName}} = append(t.{{.FieldName}}, {{.FromType}}(v))
+			}
+			{{end}}{{end -}}
+			return nil
+			{{- else -}}
 			return d.DecodeElement(&overlay, &start)
+			{{- end}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -870,12 +892,18 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var layout struct{
 				*{{.Alias}}
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
 			layout.{{.Alias}} = (*{{.Alias}})(t)
 			{{- range .Overrides}}
+			{{if .Plural -}}
+			for _, v := range t.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
+			}
+			{{- else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Alias}}.{{.FieldName}})
+			{{- end}}
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
-- 
2.43.0


From c5d523ffd4eaa6f19bc3480bcba89543182db3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 29/79] fix: field names of wildcards and values are distinct
 from those of elements

---
 xsdgen/xsdgen.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 476843b..87bfdbf 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -596,7 +596,11 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var overrides []fieldOverride
 	var helperTypes []xml.Name
 
-	namegen := nameGenerator{cfg, make(map[string]struct{})}
+	// Fields cannot have the names of methods we may add.
+	namegen := nameGenerator{cfg, map[string]struct{}{
+		"MarshalXML":   struct{}{},
+		"UnmarshalXML": struct{}{},
+	}}
 
 	if t.Mixed {
 		// For complex types with mixed content models, we must drill
@@ -618,7 +622,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			name := namegen.unique(cfg.public(b.Name))
+			fields = append(fields, name, expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -690,13 +695,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
-		if el.Wildcard {
+		var name ast.Expr
+		if !el.Wildcard {
+			name = namegen.element(el.Name)
+		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From d78b9e5d68ab03c65e06ef7c3248442748e92dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 30/79] fix: xs:byte is signed, and lists of bytes are numbers

---
 xsdgen/builtin.go |  2 +-
 xsdgen/xsdgen.go  | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..759623f 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -47,7 +47,7 @@ var builtinTbl = []ast.Expr{
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int8"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 87bfdbf..307f9c8 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1139,14 +1139,42 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Byte, xsd.UnsignedByte:
+	case xsd.Byte:
 		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.Itoa(int(v))))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseInt(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, int8(i))
+				}
+			}
+			return nil
+		`)
+	case xsd.UnsignedByte:
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.Itoa(int(v))))
+			}
+			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, byte(i))
+				}
+			}
 			return nil
-		`, s.name)
+		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte
-- 
2.43.0


From 277a7bb20c12540bb533c7b8f061f9199440b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 31/79] fix: generated lists of booleans and unsigned longs
 compile, and reject malformed items

---
 xsdgen/xsdgen.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 307f9c8..58fbc9d 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1125,13 +1125,13 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+				result = append(result, []byte(strconv.FormatUint(v, 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+				if i, err := strconv.ParseUint(v, 10, 64); err != nil {
 					return err
 				} else {
 					*x = append(*x, i)
@@ -1177,7 +1177,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
+			result := make([][]byte, 0, len(*x))
 			for _, b := range *x {
 				if b {
 					result = append(result, []byte("1"))
@@ -1192,8 +1192,10 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 				switch string(v) {
 				case "1", "true":
 					*x = append(*x, true)
-				default:
+				case "0", "false":
 					*x = append(*x, false)
+				default:
+					return fmt.Errorf("invalid boolean %%q", v)
 				}
 			}
 			return nil
-- 
2.43.0


From 978feb460c5a18582be99474eef9e80e672401f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 32/79] fix: generated lists of dates and times compile, in the
 format of their type

---
 xsdgen/xsdgen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 58fbc9d..fee7649 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1028,26 +1028,32 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return nil
 		`)
 	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+		helper, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(helper.xsdType))
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
+				if b, err := %s(v).MarshalText(); err != nil {
+					return nil, err
 				} else {
 					result = append(result, b)
 				}
 			}
-			return bytes.Join(result, []byte(" "))
-		`)
+			return bytes.Join(result, []byte(" ")), nil
+		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range bytes.Fields(text) {
 				var t %s
 				if err := t.UnmarshalText(v); err != nil {
 					return err
 				}
-				*x = append(*x, t)
+				*x = append(*x, %s(t))
 			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
+			return nil
+		`, helper.name, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
 	case xsd.Long:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
-- 
2.43.0


From b811bb8e9a85c3fdd0e40b731872cee893c28b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 33/79] fix: do not generate lists of qualified names, which do
 not compile

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index fee7649..f9b5a5b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1013,7 +1013,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-- 
2.43.0


From 4aa832a3b4fa31e84aae1b309d87847b56ea2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 34/79] fix: items of generated lists are separated by XML
 white space only

---
 xsdgen/config.go | 10 ++++++++++
 xsdgen/xsdgen.go | 28 +++++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..a71cf94 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -611,6 +611,16 @@ func (cfg *Config) addStandardHelpers() {
 			Body(`
 				return []byte(t.Format(format + "Z07:00")), nil
 			`),
+		// Items of a list are separated by XML white space, which is less
+		// than what unicode.IsSpace matches.
+		gen.Func("_listItems").
+			Args("text []byte").
+			Returns("[]string").
+			Body(`
+				return strings.FieldsFunc(string(text), func(r rune) bool {
+					return r == ' ' || r == '\t' || r == '\n' || r == '\r'
+				})
+			`),
 	}
 	for _, fn := range fns {
 		cfg.helperFuncs[fn.Name()] = fn.MustDecl()
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f9b5a5b..cce1ffe 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -998,6 +998,8 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		name:    cfg.public(t.Name),
 		expr:    expr,
 		xsdType: t,
+
+		helperFuncs: []string{"_listItems"},
 	}
 	marshalFn := gen.Func("MarshalText").
 		Receiver("x *"+s.name).
@@ -1022,8 +1024,8 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				*x = append(*x, string(v))
+			for _, v := range _listItems(text) {
+				*x = append(*x, v)
 			}
 			return nil
 		`)
@@ -1045,9 +1047,9 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
+			for _, v := range _listItems(text) {
 				var t %s
-				if err := t.UnmarshalText(v); err != nil {
+				if err := t.UnmarshalText([]byte(v)); err != nil {
 					return err
 				}
 				*x = append(*x, %s(t))
@@ -1063,7 +1065,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
 					return err
 				} else {
@@ -1082,7 +1084,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if f, err := strconv.ParseFloat(v, 64); err != nil {
 					return err
 				} else {
@@ -1100,7 +1102,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.Atoi(v); err != nil {
 					return err
 				} else {
@@ -1118,7 +1120,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.ParseUint(v, 10, 32); err != nil {
 					return err
 				} else {
@@ -1136,7 +1138,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.ParseUint(v, 10, 64); err != nil {
 					return err
 				} else {
@@ -1154,7 +1156,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.ParseInt(v, 10, 8); err != nil {
 					return err
 				} else {
@@ -1172,7 +1174,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
+			for _, v := range _listItems(text) {
 				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
 					return err
 				} else {
@@ -1194,8 +1196,8 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				switch string(v) {
+			for _, v := range _listItems(text) {
+				switch v {
 				case "1", "true":
 					*x = append(*x, true)
 				case "0", "false":
-- 
2.43.0


From b788c2e75bf8875cda21cc2a5335546b6b9216aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 35/79] fix: a restriction of a list type is a list

---
 xsdgen/xsdgen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index cce1ffe..d1ee66f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -421,6 +421,15 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 			}
 			chain = append(chain, base)
 		}
+		// a restriction of a list is a list
+		list := false
+		for i := len(chain) - 1; i >= 0; i-- {
+			if v, ok := chain[i].(*xsd.SimpleType); ok {
+				v.List = v.List || list
+				list = v.List
+			}
+		}
+		t.List = t.List || list
 		for _, v := range chain {
 			if v, ok := v.(*xsd.SimpleType); ok {
 				v.Base = builtin
-- 
2.43.0


From f3c3109fb53c1f9d8ab878607cffcb382d85c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 36/79] fix: types with the same Go name do not replace each
 other

---
 xsdgen/config.go | 58 +++++++++++++++++++-------------------
 xsdgen/xsdgen.go | 73 ++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 94 insertions(+), 37 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a71cf94..bba6e46 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -42,6 +42,9 @@ type Config struct {
 	// if populated, only types that are true in this map
 	// will be selected.
 	allowTypes map[xml.Name]bool
+
+	// Go names of the types being generated
+	typeNames map[xml.Name]string
 }
 
 type typeTransform func(xsd.Schema, xsd.Type) xsd.Type
@@ -314,40 +317,31 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	// the name of a field is used for the first type that does not have one
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
@@ -447,7 +441,7 @@ func (cfg *Config) expr(t xsd.Type) (ast.Expr, error) {
 		}
 		return ex, nil
 	}
-	return ast.NewIdent(cfg.public(xsd.XMLName(t))), nil
+	return ast.NewIdent(cfg.typeName(xsd.XMLName(t))), nil
 }
 
 func (cfg *Config) exprString(t xsd.Type) string {
@@ -470,6 +464,14 @@ func (cfg *Config) NameOf(name xml.Name) string {
 	return cfg.public(name)
 }
 
+// typeName returns the Go name of a type.
+func (cfg *Config) typeName(name xml.Name) string {
+	if s, ok := cfg.typeNames[name]; ok {
+		return s
+	}
+	return cfg.public(name)
+}
+
 func (cfg *Config) public(name xml.Name) string {
 	if cfg.nameTransform != nil {
 		name = cfg.nameTransform(name)
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index d1ee66f..b4a52df 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -160,8 +160,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			for _, name := range sortedNames(prev) {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
@@ -172,10 +172,15 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
-	for _, primary := range primaries {
+	flat := make([][]xsd.Type, len(primaries))
+	for i, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
 		types := cfg.flatten(primary.Types)
-		types = cfg.expandComplexTypes(types)
+		flat[i] = cfg.expandComplexTypes(types)
+	}
+	cfg.uniqueTypeNames(flat...)
+
+	for _, types := range flat {
 		for _, t := range types {
 			specs, err := cfg.genTypeSpec(t)
 			if err != nil {
@@ -224,6 +229,56 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	return code, nil
 }
 
+// Names in the order of their namespaces and local parts.
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	return names
+}
+
+// Different XML names may be mapped to the same Go name, because they differ
+// in case only, or in their namespace, or in something removed by the Replace
+// option. uniqueTypeNames gives each type a Go name of its own. Types
+// that are not anonymous are named first.
+func (cfg *Config) uniqueTypeNames(lists ...[]xsd.Type) {
+	all := make(map[xml.Name]xsd.Type)
+	for _, types := range lists {
+		for _, t := range types {
+			if _, ok := t.(xsd.Builtin); !ok {
+				all[xsd.XMLName(t)] = t
+			}
+		}
+	}
+	cfg.typeNames = make(map[xml.Name]string)
+	names := nameGenerator{cfg, make(map[string]struct{})}
+	for _, anonymous := range []bool{false, true} {
+		for _, name := range sortedNames(all) {
+			if isAnonymous(all[name]) == anonymous {
+				ident := names.unique(cfg.public(name))
+				cfg.typeNames[name] = ident.(*ast.Ident).Name
+			}
+		}
+	}
+}
+
+func isAnonymous(t xsd.Type) bool {
+	switch t := t.(type) {
+	case *xsd.SimpleType:
+		return t.Anonymous
+	case *xsd.ComplexType:
+		return t.Anonymous
+	}
+	return false
+}
+
 // GenAST generates a Go abstract syntax tree with
 // the type declarations contained in the xml schema document.
 func (code *Code) GenAST() (*ast.File, error) {
@@ -792,7 +847,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	expr := gen.Struct(fields...)
 	s := spec{
 		doc:         t.Doc,
-		name:        cfg.public(t.Name),
+		name:        cfg.typeName(t.Name),
 		expr:        expr,
 		xsdType:     t,
 		helperTypes: helperTypes,
@@ -839,7 +894,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Plural bool
 	}
 	data.Overrides = overrides
-	data.Type = cfg.public(t.Name)
+	data.Type = cfg.typeName(t.Name)
 	data.Alias = overlayName(data.Type, overrides)
 	for _, v := range overrides {
 		data.Plural = data.Plural || v.Plural
@@ -939,7 +994,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 		// first.
 		result = append(result, spec{
 			doc:     t.Doc,
-			name:    cfg.public(t.Name),
+			name:    cfg.typeName(t.Name),
 			expr:    builtinExpr(xsd.String),
 			xsdType: t,
 		})
@@ -953,7 +1008,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 
 	spec, err := cfg.addSpecMethods(spec{
 		doc:     t.Doc,
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    base,
 		xsdType: t,
 	})
@@ -1004,7 +1059,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
 
-- 
2.43.0


From b1d99d79acf293fdf9f1b00b73ed60e6e0aaa270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 37/79] fix: generating code for types that refer to themselves
 in several places terminates

---
 xsdgen/xsdgen.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b4a52df..24a1d47 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -426,6 +426,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
+	seen := make(map[*xsd.ComplexType]bool)
 	for _, t := range types {
 		if xsd.XMLName(t).Local == "_self" {
 			continue
@@ -439,7 +440,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
@@ -457,11 +458,9 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+// The fields of a complex type are flattened once; types may refer to
+// themselves, and to one another, in any number of ways.
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.ComplexType]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -544,28 +543,33 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
+		if seen[t] {
+			return t
+		}
+		seen[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From fc52840bed21ddbea151398609b35e017be31819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:36 +0000
Subject: [PATCH 38/79] fix: a schema file that cannot be read is an error

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..633704b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 61264f55d91f6ecf907ac98aa0756240c1f3aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 39/79] fix: documents that import one another are read once

---
 xsdgen/cli.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 633704b..ce32ffc 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -54,7 +54,7 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // GenAST creates an *ast.File containing type declarations and
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
-	data, err := cfg.readFiles(files...)
+	data, err := cfg.readFiles(make(map[string]bool), files...)
 	if err != nil {
 		return nil, err
 	}
@@ -65,9 +65,15 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+// readFiles reads each file once; documents may import one another, and may
+// be imported by several others. Imports do not have to provide a location.
+func (cfg *Config) readFiles(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if seen[filename] {
+			continue
+		}
+		seen[filename] = true
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -80,9 +86,11 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				if r.Location != "" {
+					importedFiles = append(importedFiles, r.Location)
+				}
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readFiles(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From 233663c46a824aed5faaf4f7d5ceb9d55dcc4696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 40/79] fix: undoing AllowType restores the list of allowed
 types

---
 xsdgen/config.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index bba6e46..65b845e 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -202,14 +202,20 @@ func OnlyTypes(patterns ...string) Option {
 // dependent types, will be generated.
 func AllowType(name xml.Name) Option {
 	return func(cfg *Config) Option {
-		if cfg.allowTypes == nil {
-			cfg.allowTypes = make(map[xml.Name]bool)
-		}
-		cfg.allowTypes[name] = true
-		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
-			return AllowType(name)
+		allow := make(map[xml.Name]bool)
+		for k, v := range cfg.allowTypes {
+			allow[k] = v
 		}
+		allow[name] = true
+		return replaceAllowTypes(allow)(cfg)
+	}
+}
+
+func replaceAllowTypes(allow map[xml.Name]bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.allowTypes
+		cfg.allowTypes = allow
+		return replaceAllowTypes(prev)
 	}
 }
 
-- 
2.43.0


From e3b48fe8e6ad3f3b20c8050ea9f2eb138fdbab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 41/79] fix: the namespaces of one run are not kept for the
 next

---
 xsdgen/cli.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index ce32ffc..997bc19 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -17,30 +17,31 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
+	if len(primaries) < len(namespaces) {
+		missing := make([]string, 0, len(namespaces)-len(primaries))
 		have := make(map[string]bool)
 		for _, schema := range primaries {
 			have[schema.TargetNS] = true
 		}
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if !have[ns] {
 				missing = append(missing, ns)
 			}
-- 
2.43.0


From 92f26673efc36b967f6ed3ec72dfbd659ea86dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:10 +0000
Subject: [PATCH 42/79] fix: OnlyPorts selects ports, and can be undone

---
 wsdlgen/config.go  | 21 +++++++++++++--------
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..1fe2ebc 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -68,16 +68,21 @@ var DefaultOptions = []Option{
 // code for. Any other ports will not have types or methods present in
 // the generated output.
 func OnlyPorts(ports ...string) Option {
-	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
-			for _, name := range ports {
-				if name == p.Name {
-					return true
-				}
+	return replacePortFilter(func(p wsdl.Port) bool {
+		for _, name := range ports {
+			if name == p.Name {
+				return true
 			}
-			return false
 		}
-		return OnlyPorts()
+		return false
+	})
+}
+
+func replacePortFilter(fn func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = fn
+		return replacePortFilter(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..6024069 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -142,6 +142,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e97ed3f7cec54bb1754a0d8b9edb4132f386e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 43/79] fix: the default package name and comment are not kept
 for the next run

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 6024069..f2d265a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -91,12 +91,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -128,8 +122,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From c6cb8a63e006cb47aa73f7e82af44d241791299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:13 +0000
Subject: [PATCH 44/79] fix: wrapper structs are used under the name they are
 declared with, and returned

---
 wsdlgen/wsdlgen.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index f2d265a..06940d5 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -232,14 +232,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.PublicType}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -316,7 +316,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	}
 	if len(args.input) > p.maxArgs {
 		args.InputType = strings.Title(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
+		args.input = []string{"v " + args.InputType}
 		for i, v := range input.Parts {
 			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
 		}
@@ -330,9 +330,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
-			Type:    typ,
-			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
+			Name:       strings.Title(part.Name),
+			Type:       typ,
+			PublicType: outputType,
+			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
-- 
2.43.0


From 864a0e37065e91988791188db4f2b0ef30cfbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:30 +0000
Subject: [PATCH 45/79] fix: NameOf follows a complex type that is replaced by
 its simple base

---
 xsdgen/xsdgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 24a1d47..f9dd8ee 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,9 +110,9 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
-	case xsd.Builtin:
-		return c.NameOf(b.Name())
+	t = c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool))
+	if flat := xsd.XMLName(t); flat != name {
+		return c.NameOf(flat)
 	}
 
 	specs, err := c.cfg.genTypeSpec(t)
-- 
2.43.0


From 1738b73ee1b3cff881fccfba1731e693c313085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 46/79] fix: every declaration of a client has a name of its
 own that Go accepts

---
 wsdlgen/helper.go  |  12 +--
 wsdlgen/wsdlgen.go | 248 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 186 insertions(+), 74 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 93d36e1..ca386f3 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -10,13 +10,13 @@ import "aqwari.net/xml/internal/gen"
 // code base grows, the weaker the argument against external
 // dependencies becomes.
 var helpers string = `
-	type Client struct {
+	type {{.Client}} struct {
 		HTTPClient *http.Client
 		ResponseHook func(*http.Response) *http.Response
 		RequestHook func(*http.Request) *http.Request
 	}
 
-	type soapEnvelope struct {
+	type {{.Envelope}} struct {
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
@@ -29,9 +29,9 @@ var helpers string = `
 		}` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Body"` + "`" + `
 	}
 
-	func (c *Client) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
+	func (c *{{.Client}}) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
 		var body io.Reader
-		var envelope soapEnvelope
+		var envelope {{.Envelope}}
 
 		if method == "POST" || method == "PUT" {
 			var buf bytes.Buffer
@@ -83,9 +83,9 @@ var helpers string = `
 `
 
 func (p *printer) addHelpers() {
-	decls, err := gen.Declarations(helpers)
+	decls, err := gen.Snippets(p.helperNames, helpers)
 	if err != nil {
-		// code does not change at runtime, so
+		// only names change at runtime, so
 		// this should never happen
 		panic(err)
 	}
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 06940d5..25ed487 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -14,8 +14,11 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/token"
 	"io/ioutil"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -34,6 +37,59 @@ type printer struct {
 	code *xsdgen.Code
 	wsdl *wsdl.Definition
 	file *ast.File
+
+	helperNames struct{ Client, Envelope string }
+	// Go names of the wrapper structs declared for messages
+	wrappers map[xml.Name]string
+	// Go names that are taken
+	types, methods nameSet
+}
+
+type nameSet map[string]bool
+
+// unique returns the first name that is not taken, or the last name
+// with a number added to it.
+func (taken nameSet) unique(names ...string) string {
+	last := names[len(names)-1]
+	for i := 0; i < maxDupNames; i++ {
+		names = append(names, last+strconv.Itoa(i))
+	}
+	for _, name := range names {
+		if !taken[name] {
+			taken[name] = true
+			return name
+		}
+	}
+	return last
+}
+
+const maxDupNames = 1000
+
+// exported makes an exported Go identifier from an XML name.
+func exported(name string) string {
+	s := stripPunct(strings.Title(name))
+	if !ast.IsExported(s) {
+		s = "X" + s
+	}
+	return s
+}
+
+// argument makes an identifier for a function argument from an XML name.
+func argument(name string) string {
+	s := gen.Sanitize(stripPunct(name))
+	if !token.IsIdentifier(s) || s == "_" {
+		s = "x" + s
+	}
+	return s
+}
+
+func stripPunct(name string) string {
+	return strings.Map(func(r rune) rune {
+		if notIdent(r) {
+			return -1
+		}
+		return r
+	}, name)
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -63,8 +119,7 @@ type opArgs struct {
 	InputType string
 
 	// If not "", we return values in a wrapper struct
-	ReturnType   string
-	ReturnFields []field
+	ReturnType string
 }
 
 // struct members. Need to export the fields for our template
@@ -136,6 +191,29 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 		wsdl:   def,
 		file:   file,
 		code:   code,
+
+		wrappers: make(map[xml.Name]string),
+		types:    make(nameSet),
+		methods:  make(nameSet),
+	}
+	for _, decl := range file.Decls {
+		switch decl := decl.(type) {
+		case *ast.GenDecl:
+			for _, s := range decl.Specs {
+				if t, ok := s.(*ast.TypeSpec); ok {
+					p.types[t.Name.Name] = true
+				}
+			}
+		case *ast.FuncDecl:
+			if decl.Recv == nil {
+				p.types[decl.Name.Name] = true
+			}
+		}
+	}
+	p.helperNames.Client = p.types.unique("Client")
+	p.helperNames.Envelope = p.types.unique("soapEnvelope")
+	for _, name := range []string{"do", "HTTPClient", "RequestHook", "ResponseHook"} {
+		p.methods[name] = true
 	}
 	return p.genAST()
 }
@@ -177,35 +255,20 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	}
 
 	if params.InputType != "" {
-		decls, err := gen.Snippets(params, `
-			type {{.InputType}} struct {
-			{{ range .InputFields -}}
-				{{.Name}} {{.PublicType}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		if err := p.wrapper(input.Name, params.InputType, params.InputFields); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	if params.ReturnType != "" {
-		decls, err := gen.Snippets(params, `
-			type {{.ReturnType}} struct {
-			{{ range .ReturnFields -}}
-				{{.Name}} {{.Type}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		if err := p.wrapper(output.Name, params.ReturnType, params.OutputFields); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	args := append([]string{"ctx context.Context"}, params.input...)
-	fn := gen.Func(p.xsdgen.NameOf(op.Name)).
+	name := exported(p.xsdgen.NameOf(op.Name))
+	fn := gen.Func(p.methods.unique(name, name+exported(port.Name))).
 		Comment(op.Doc).
-		Receiver("c *Client").
+		Receiver("c *"+p.helperNames.Client).
 		Args(args...).
 		BodyTmpl(`
 			var input struct {
@@ -234,8 +297,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
-			{{ range .ReturnFields -}}
-			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
+			{{ range .OutputFields -}}
+			result.{{.Name}} = {{.PublicType}}(output.Args.{{.Name}})
 			{{ end -}}
 			return result, err
 			{{- else if .OutputFields -}}
@@ -253,6 +316,39 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
+// wrapper declares the wrapper struct for the parts of a message.
+func (p *printer) wrapper(msg xml.Name, name string, fields []field) error {
+	if _, ok := p.wrappers[msg]; ok {
+		return nil
+	}
+	p.wrappers[msg] = name
+	params := struct {
+		Name   string
+		Fields []field
+	}{name, fields}
+	decls, err := gen.Snippets(params, `
+		type {{.Name}} struct {
+		{{ range .Fields -}}
+			{{.Name}} {{.PublicType}}
+		{{ end -}}
+		}`,
+	)
+	if err != nil {
+		return err
+	}
+	p.file.Decls = append(p.file.Decls, decls...)
+	return nil
+}
+
+// wrapperName returns the name of the wrapper struct for a message.
+// Messages are different from types in the schema with the same name.
+func (p *printer) wrapperName(msg xml.Name) string {
+	if name, ok := p.wrappers[msg]; ok {
+		return name
+	}
+	return p.types.unique(exported(msg.Local))
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
@@ -295,58 +391,51 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
-	for _, part := range input.Parts {
-		typ, err := p.getPartType(part)
-		if err != nil {
-			return args, err
-		}
-		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
-		if vname == typ {
-			vname += "_"
+	args.OutputName = output.Name
+
+	var err error
+	if args.InputFields, err = p.fields(input); err != nil {
+		return args, err
+	}
+	if args.OutputFields, err = p.fields(output); err != nil {
+		return args, err
+	}
+
+	// Names that are used in the function body
+	taken := nameSet{"c": true, "ctx": true, "input": true, "output": true, "err": true, "result": true}
+	for _, f := range append(args.InputFields, args.OutputFields...) {
+		for _, typ := range []string{f.Type, f.PublicType} {
+			for _, ident := range strings.FieldsFunc(typ, notIdent) {
+				taken[ident] = true
+			}
 		}
-		args.input = append(args.input, vname+" "+inputType)
-		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
-			Type:       typ,
-			PublicType: exposeType(typ),
-			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
-			InputArg:   vname,
-		})
 	}
-	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
+
+	if len(args.InputFields) > p.maxArgs {
+		args.InputType = p.wrapperName(input.Name)
 		args.input = []string{"v " + args.InputType}
-		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
+		for i, f := range args.InputFields {
+			args.InputFields[i].InputArg = "v." + f.Name
 		}
-	}
-	args.OutputName = output.Name
-	for _, part := range output.Parts {
-		typ, err := p.getPartType(part)
-		if err != nil {
-			return args, err
+	} else {
+		for i, part := range input.Parts {
+			vname := argument(part.Name)
+			vname = taken.unique(vname, vname+"_")
+			args.InputFields[i].InputArg = vname
+			args.input = append(args.input, vname+" "+args.InputFields[i].PublicType)
 		}
-		outputType := exposeType(typ)
-		args.output = append(args.output, outputType)
-		args.OutputFields = append(args.OutputFields, field{
-			Name:       strings.Title(part.Name),
-			Type:       typ,
-			PublicType: outputType,
-			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
-		})
 	}
-	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
-		args.ReturnFields = make([]field, len(args.OutputFields))
-		for i, v := range args.OutputFields {
-			args.ReturnFields[i] = field{
-				Name:     v.Name,
-				Type:     exposeType(v.Type),
-				InputArg: v.Name,
-			}
+
+	if len(args.OutputFields) > p.maxReturns {
+		args.ReturnType = args.InputType
+		if args.InputType == "" || input.Name != output.Name {
+			args.ReturnType = p.wrapperName(output.Name)
 		}
 		args.output = []string{args.ReturnType}
+	} else {
+		for _, f := range args.OutputFields {
+			args.output = append(args.output, f.PublicType)
+		}
 	}
 	// NOTE(droyo) if we decide to name our return values,
 	// we have to change this too.
@@ -354,3 +443,26 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 
 	return args, nil
 }
+
+// fields returns the struct members for the parts of a message.
+func (p *printer) fields(msg wsdl.Message) ([]field, error) {
+	var fields []field
+	names := make(nameSet)
+	for _, part := range msg.Parts {
+		typ, err := p.getPartType(part)
+		if err != nil {
+			return nil, err
+		}
+		fields = append(fields, field{
+			Name:       names.unique(exported(part.Name)),
+			Type:       typ,
+			PublicType: exposeType(typ),
+			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
+		})
+	}
+	return fields, nil
+}
+
+func notIdent(r rune) bool {
+	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+}
-- 
2.43.0


From 42a9843e33abadd4498f97802b8ddc975de2d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:21 +0000
Subject: [PATCH 47/79] fix: operations need not have both an input and an
 output

---
 wsdlgen/wsdlgen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 25ed487..2bef46c 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -241,12 +241,13 @@ func (p *printer) port(port wsdl.Port) error {
 }
 
 func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
+	// Operations do not have to have both an input and an output.
 	input, ok := p.wsdl.Message[op.Input]
-	if !ok {
+	if !ok && op.Input.Local != "" {
 		return fmt.Errorf("unknown input message type %s", op.Input.Local)
 	}
 	output, ok := p.wsdl.Message[op.Output]
-	if !ok {
+	if !ok && op.Output.Local != "" {
 		return fmt.Errorf("unknown output message type %s", op.Output.Local)
 	}
 	params, err := p.opArgs(port.Address, port.Method, op, input, output)
-- 
2.43.0


From d649ea3a21515907685f9bb57b6fe61e62f42168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 48/79] fix: zero values among the items of a plural element
 are not left out

---
 xsdgen/xsdgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f9dd8ee..329c1b1 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -755,7 +755,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		if el.Nillable || el.Optional {
+		// encoding/xml applies omitempty to the items of a slice as well
+		if (el.Nillable || el.Optional) && !el.Plural {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
-- 
2.43.0


From b4392277d9c931f26f8b9f71f67b48710a0a250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 49/79] fix: an element called XMLName is a field like any
 other

---
 xsdgen/xsdgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 329c1b1..130d5c8 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -664,8 +664,10 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var overrides []fieldOverride
 	var helperTypes []xml.Name
 
-	// Fields cannot have the names of methods we may add.
+	// Fields cannot have the names of methods we may add, or the one that
+	// is special to encoding/xml.
 	namegen := nameGenerator{cfg, map[string]struct{}{
+		"XMLName":      struct{}{},
 		"MarshalXML":   struct{}{},
 		"UnmarshalXML": struct{}{},
 	}}
-- 
2.43.0


From 0ffc412ac1a7df3606afe53f5255e2a571007b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:42 +0000
Subject: [PATCH 50/79] fix: the Go names of types and fields are exported
 identifiers

---
 xsdgen/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 65b845e..a8a4eb3 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -482,7 +482,13 @@ func (cfg *Config) public(name xml.Name) string {
 	if cfg.nameTransform != nil {
 		name = cfg.nameTransform(name)
 	}
-	return strings.Title(name.Local)
+	s := strings.Title(name.Local)
+	if !ast.IsExported(s) {
+		// Not every name of XML starts with a letter that has an
+		// upper case, and the name transform may have removed it.
+		s = "X" + s
+	}
+	return s
 }
 
 //
-- 
2.43.0


From 7456e1254079b069ed866b6c7965a057e6a6444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 51/79] fix: a time of a named type that is not there is not
 encoded

---
 xsdgen/xsdgen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 130d5c8..d3bb73e 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1053,6 +1053,26 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 		Body(`return %s(t).MarshalText()`, helper.name).
 		MustDecl())
 
+	if t.Base == xsd.HexBinary || t.Base == xsd.Base64Binary {
+		return s, nil
+	}
+
+	// Without these, a time that is not there would be encoded as a time
+	// in the year 1; the omitempty option is not for structs.
+	s.methods = append(s.methods, gen.Func("MarshalXML").
+		Receiver("t "+s.name).
+		Args("e *xml.Encoder", "start xml.StartElement").
+		Returns("error").
+		Body(`return %s(t).MarshalXML(e, start)`, helper.name).
+		MustDecl())
+
+	s.methods = append(s.methods, gen.Func("MarshalXMLAttr").
+		Receiver("t "+s.name).
+		Args("name xml.Name").
+		Returns("xml.Attr", "error").
+		Body(`return %s(t).MarshalXMLAttr(name)`, helper.name).
+		MustDecl())
+
 	return s, nil
 }
 
-- 
2.43.0


From 3f65fdfbda7d60c276136378163bd33e373d9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:58 +0000
Subject: [PATCH 52/79] fix: the results of a call are those in the response

---
 wsdlgen/helper.go  | 2 +-
 wsdlgen/wsdlgen.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index ca386f3..6d9871e 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -20,7 +20,7 @@ var helpers string = `
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
-			Message interface{}
+			Message interface{} ` + "`xml:\",any\"`" + `
 			Fault *struct {
 				String string ` + "`xml:\"faultstring,omitempty\"`" + `
 				Code string ` + "`xml:\"faultcode,omitempty\"`" + `
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2bef46c..4407b1e 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -285,8 +285,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
+			// the name of the element around the results is up to the server
 			var output struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
 				Args struct {
 					{{ range .OutputFields -}}
 					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
-- 
2.43.0


From e0bf8aa88e1a74201b68f9209a0f251dbf8e958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:41 +0000
Subject: [PATCH 53/79] fix: an empty slice of bytes is left out if it is
 optional

---
 xsdgen/xsdgen.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index d3bb73e..7f56a38 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -757,8 +757,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		// encoding/xml applies omitempty to the items of a slice as well
-		if (el.Nillable || el.Optional) && !el.Plural {
+		// encoding/xml applies omitempty to the items of a slice as well,
+		// unless it is a slice of bytes.
+		if (el.Nillable || el.Optional) && (!el.Plural || isByte(el.Type)) {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
@@ -876,6 +877,21 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+// isByte reports whether the Go type of values of t is byte, or derives
+// from it.
+func isByte(t xsd.Type) bool {
+	for {
+		s, ok := t.(*xsd.SimpleType)
+		if !ok {
+			return t == xsd.UnsignedByte
+		}
+		if s.List || len(s.Union) > 0 {
+			return false
+		}
+		t = s.Base
+	}
+}
+
 // overlayName returns a name for a local type that does not hide the type
 // it is declared for, the types of its fields, or the fields themselves.
 func overlayName(typeName string, overrides []fieldOverride) string {
-- 
2.43.0


From 33e1752f0d048112697a91a53d6c611c13be2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 54/79] fix: binary data that is not there is not encoded as
 empty data

---
 xsdgen/xsdgen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 7f56a38..94ecbc0 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -617,6 +617,8 @@ type fieldOverride struct {
 	Type             xsd.Type
 	Plural           bool
 	Tag              string
+	// Leave out slices that are empty; the helper type cannot tell
+	OmitEmpty bool
 }
 
 type nameGenerator struct {
@@ -969,6 +971,9 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	nonDefaultOverrides := make([]fieldOverride, 0, len(overrides))
 	for _, v := range overrides {
 		if nonTrivialBuiltin(v.Type) {
+			if v.Type == xsd.HexBinary || v.Type == xsd.Base64Binary {
+				v.OmitEmpty = strings.Contains(v.Tag, ",omitempty")
+			}
 			nonDefaultOverrides = append(nonDefaultOverrides, v)
 		}
 	}
@@ -995,6 +1000,10 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			for _, v := range t.{{.FieldName}} {
 				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
 			}
+			{{- else if .OmitEmpty -}}
+			if len(t.{{.FieldName}}) > 0 {
+				layout.{{.FieldName}} = (*{{.ToType}})(&t.{{.FieldName}})
+			}
 			{{- else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Alias}}.{{.FieldName}})
 			{{- end}}
-- 
2.43.0


From 5ed4e379fff84abc88093d21acec18d1762efeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:00 +0000
Subject: [PATCH 55/79] fix: the attributes declared after the arrayType of a
 SOAP array are kept

---
 xsdgen/config.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a8a4eb3..397fb09 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -533,7 +533,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			itemType = v.Resolve(a.Value)
 			break
 		}
-		break
 	}
 	if itemType.Local == "" {
 		return c
@@ -555,7 +554,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From 9e7f28a7a189ef92737b18e73b9bfa4ec29ca1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:55 +0000
Subject: [PATCH 56/79] fix: SOAP arrays of times and of binary data have one
 set of methods

---
 xsdgen/config.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 397fb09..8e035c5 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -772,6 +772,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	var baseType xml.Name
+	var helper *spec
 	// the parseSOAPArray pre-processor would have replaced the wildcard
 	// element in the array with the appropriate type.
 	complex, ok := s.xsdType.(*xsd.ComplexType)
@@ -782,6 +783,13 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	for _, el := range complex.Elements {
 		if el.Wildcard {
 			baseType = xsd.XMLName(el.Type)
+			if nonTrivialBuiltin(el.Type) {
+				h, ok := cfg.helperTypes[baseType]
+				if !ok {
+					return s
+				}
+				helper = &h
+			}
 			break
 		}
 	}
@@ -807,6 +815,9 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	itemType := gen.ExprString(slice.Elt)
+	if helper != nil {
+		return cfg.soapArrayOfHelpers(s, slice, baseType, *helper)
+	}
 	unmarshalFn := gen.Func("UnmarshalXML").
 		Receiver("a *"+s.name).
 		Args("d *xml.Decoder", "start xml.StartElement").
@@ -887,3 +898,56 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	s.methods = append(s.methods, unmarshal)
 	return s
 }
+
+// Like soapArrayToSlice, for arrays of items that are marshalled and unmarshalled
+// by a helper type.
+func (cfg *Config) soapArrayOfHelpers(s spec, slice *ast.ArrayType, baseType xml.Name, helper spec) spec {
+	unmarshal, err := gen.Func("UnmarshalXML").
+		Receiver("a *"+s.name).
+		Args("d *xml.Decoder", "start xml.StartElement").
+		Returns("error").
+		Body(`
+			var input struct {
+				Items []%s `+"`xml:\",any\"`"+`
+			}
+			if err := d.DecodeElement(&input, &start); err != nil {
+				return err
+			}
+			for _, item := range input.Items {
+				*a = append(*a, %s(item))
+			}
+			return nil
+		`, helper.name, gen.ExprString(slice.Elt)).Decl()
+	if err != nil {
+		cfg.logf("error generating UnmarshalXML method of %s: %v", s.name, err)
+		return s
+	}
+	marshal, err := gen.Func("MarshalXML").
+		Receiver("a "+s.name).
+		Args("e *xml.Encoder", "start xml.StartElement").
+		Returns("error").
+		Body(`
+			var output struct {
+				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
+				Items []%[1]s `+"`xml:\" item\"`"+`
+			}
+			for _, item := range a {
+				output.Items = append(output.Items, %[1]s(item))
+			}
+			start.Attr = append(start.Attr, xml.Attr {
+				Name: xml.Name{"", "xmlns:ns1"},
+				Value: %[2]q,
+			})
+			output.ArrayType = "ns1:%[3]s[]"
+			return e.EncodeElement(&output, start)
+		`, helper.name, baseType.Space, baseType.Local).Decl()
+	if err != nil {
+		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
+		return s
+	}
+
+	s.expr = slice
+	// instead of the methods for a struct
+	s.methods = []*ast.FuncDecl{marshal, unmarshal}
+	return s
+}
-- 
2.43.0


From 8ee99a1b5dac28d6831c7c0f7cfe24e1a0d678d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 57/79] fix: unsignedShort and anySimpleType are among the
 built-in types

---
 xsd/standard-schema.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..83fbeb6 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1416,8 +1416,10 @@ var builtinSchema = Schema{
 }
 
 func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
-		builtinSchema.Types[i.Name()] = i
+	builtinSchema.Types = make(map[xml.Name]Type, int(AnySimpleType))
+	for i := AnyType; i <= AnySimpleType; i++ {
+		if name := i.Name(); name.Space == schemaNS {
+			builtinSchema.Types[name] = i
+		}
 	}
 }
-- 
2.43.0


From 2bfcc6553e931f10a0fadf287626fba5cffd8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:18 +0000
Subject: [PATCH 58/79] fix: do not keep the markup of references to empty
 groups

An element whose only children were references to groups without content
was left with no children but its old Content, so the trees returned by
Normalize still had the references in them when written.
---
 xsd/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 8bbf3a1..b65bdc1 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -538,6 +538,7 @@ func unpackGroups(doc *xmltree.Element) {
 			}
 		}
 		el.Children = children
+		el.Content = nil
 	}
 }
 
-- 
2.43.0


From 826ccf3c1d360ab9df58b3c419164cb0d0d47118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 59/79] fix: keep documentation that follows application
 information

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From fd687b6a59617355540f5c4b23e63bcd39bc455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 60/79] fix: separate documentation of a type and of its
 content

---
 xsd/parse.go | 6 +++---
 xsd/xsd.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index b65bdc1..82c9edf 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -760,7 +760,7 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	if t.Base == nil {
 		t.Base = AnyType
 	}
-	t.Doc += string(doc)
+	t.Doc = string(doc.append(annotation(t.Doc)))
 	return &t
 }
 
@@ -784,7 +784,7 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 			}
 		}
 	})
-	t.Doc += string(doc)
+	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
 // The complexContent element signals that we intend to restrict or extend
@@ -827,7 +827,7 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
-	t.Doc += string(doc)
+	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
 func joinElem(a, b Element) Element {
diff --git a/xsd/xsd.go b/xsd/xsd.go
index fc09481..88a207a 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -242,7 +242,7 @@ type Restriction struct {
 type annotation string
 
 func (a annotation) append(extra annotation) annotation {
-	if a != "" {
+	if a != "" && extra != "" {
 		a += "\n\n"
 	}
 	return a + extra
-- 
2.43.0


From 518562a0fa2c59d9be32a30256968149c33b764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 61/79] fix: record the documentation of a schema

---
 xsd/parse.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 82c9edf..a815d42 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -694,7 +694,22 @@ func elementDefaultType(root *xmltree.Element) {
 }
 
 func (s *Schema) parse(root *xmltree.Element) error {
-	return s.parseTypes(root)
+	if err := s.parseTypes(root); err != nil {
+		return err
+	}
+	return s.parseDoc(root)
+}
+
+func (s *Schema) parseDoc(root *xmltree.Element) (err error) {
+	defer catchParseError(&err)
+	doc := annotation(s.Doc)
+	for i := range root.Children {
+		if el := &root.Children[i]; (el.Name == xml.Name{schemaNS, "annotation"}) {
+			doc = doc.append(parseAnnotation(el))
+		}
+	}
+	s.Doc = string(doc)
+	return nil
 }
 
 func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
-- 
2.43.0


From bcdd143589bd8c0d6423b2119451b6522abd83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 62/79] fix: generated list types keep their documentation

---
 xsdgen/xsdgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 94ecbc0..17bd0e3 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1111,6 +1111,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
+		doc:     t.Doc,
 		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
-- 
2.43.0


From dcfa7c9732aab2b221772b2fafc2138a4e414911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 63/79] fix: WSDL documentation is text, with its escapes
 resolved

---
 wsdl/wsdl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 35ce25b..24326cd 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -92,7 +92,11 @@ func documentation(el *xmltree.Element) string {
 		if doc.Name.Local != "documentation" {
 			continue
 		}
-		docs = append(docs, doc.Content)
+		var text []byte
+		if len(doc.Children) > 0 || xmltree.Unmarshal(&doc, &text) != nil {
+			text = doc.Content
+		}
+		docs = append(docs, text)
 	}
 	return string(bytes.Join(docs, []byte{'\n'}))
 }
-- 
2.43.0


From 9f91a5adc8b33c32b8bc04d20b29096d5a7330b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 64/79] fix: attributes referenced from another namespace keep
 it

---
 xsd/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index a815d42..e38cc91 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -456,6 +456,11 @@ func flattenRef(schema []*xmltree.Element) error {
 			// an element of another namespace stays in it
 			el.SetAttr("", "name", qname(el, ref))
 		}
+		if isElem(schemaNS, "attribute")(el) && ref.Space != index.tnsByID[id] {
+			// as does an attribute, which therefore is qualified
+			el.SetAttr("", "name", qname(el, ref))
+			el.SetAttr("", "form", "qualified")
+		}
 	})
 	for ns, doc := range schema {
 		unpackGroups(doc)
@@ -964,9 +969,8 @@ func parseAttribute(ns string, el *xmltree.Element) Attribute {
 	if name := el.Attr("", "name"); strings.Contains(name, ":") {
 		a.Name = el.Resolve(el.Attr("", "name"))
 	} else {
-		a.Name.Local = name
+		a.Name = xml.Name{Space: ns, Local: name}
 	}
-	a.Name.Space = ns
 	a.Type = parseType(el.Resolve(el.Attr("", "type")))
 	a.Default = el.Attr("", "default")
 	a.Scope = el.Scope
-- 
2.43.0


From c3c468bdc322058b52c7f6c87657721a6f645d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:56 +0000
Subject: [PATCH 65/79] fix: occurrence of enclosing groups applies to their
 elements

---
 xsd/parse.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e38cc91..1970947 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -822,21 +822,26 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 		case "restriction":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 
-			for _, v := range el.Search(schemaNS, "any") {
-				t.Elements = append(t.Elements, parseAnyElement(ns, v))
-				break
-			}
+			walkParticles(el, "any", occurrence{}, func(v *xmltree.Element, o occurrence) {
+				if len(t.Elements) == 0 {
+					elt := parseAnyElement(ns, v)
+					elt.Plural = elt.Plural || o.plural
+					t.Elements = append(t.Elements, elt)
+				}
+			})
 
 			usedElt := make(map[xml.Name]int)
-			for _, v := range el.Search(schemaNS, "element") {
+			walkParticles(el, "element", occurrence{}, func(v *xmltree.Element, o occurrence) {
 				elt := parseElement(ns, v)
+				elt.Optional = elt.Optional || o.optional
+				elt.Plural = elt.Plural || o.plural
 				if existing, ok := usedElt[elt.Name]; !ok {
 					usedElt[elt.Name] = len(t.Elements)
 					t.Elements = append(t.Elements, elt)
 				} else {
 					t.Elements[existing] = joinElem(t.Elements[existing], elt)
 				}
-			}
+			})
 
 			for _, v := range el.Search(schemaNS, "attribute") {
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
@@ -850,6 +855,31 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
+// An occurrence tells how often the model groups around a particle allow it
+// to occur.
+type occurrence struct {
+	optional, plural bool
+}
+
+// walkParticles calls fn for the particles of a kind in a content model.
+func walkParticles(root *xmltree.Element, kind string, o occurrence, fn func(*xmltree.Element, occurrence)) {
+	for i := range root.Children {
+		el, inner := &root.Children[i], o
+		if el.Name.Space == schemaNS {
+			switch el.Name.Local {
+			case kind:
+				fn(el, o)
+			case "sequence", "choice", "all":
+				if min := el.Attr("", "minOccurs"); min != "" && parseInt(min) == 0 || el.Name.Local == "choice" {
+					inner.optional = true
+				}
+				inner.plural = o.plural || parsePlural(el)
+			}
+		}
+		walkParticles(el, kind, inner, fn)
+	}
+}
+
 func joinElem(a, b Element) Element {
 	if a.Doc != "" {
 		a.Doc += "\n"
-- 
2.43.0


From 0e879f493c8e0af4635c67289ec2dfd5af751334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 66/79] fix: an element that occurs at several places is plural

---
 xsd/parse.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 1970947..d437abf 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -825,7 +825,7 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 			walkParticles(el, "any", occurrence{}, func(v *xmltree.Element, o occurrence) {
 				if len(t.Elements) == 0 {
 					elt := parseAnyElement(ns, v)
-					elt.Plural = elt.Plural || o.plural
+					elt.Plural = elt.Plural || o.plural || maxOccurs(el, isElem(schemaNS, "any")) > 1
 					t.Elements = append(t.Elements, elt)
 				}
 			})
@@ -839,6 +839,9 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 					usedElt[elt.Name] = len(t.Elements)
 					t.Elements = append(t.Elements, elt)
 				} else {
+					elt.Plural = elt.Plural || maxOccurs(el, func(el *xmltree.Element) bool {
+						return isElem(schemaNS, "element")(el) && parseElement(ns, el).Name == elt.Name
+					}) > 1
 					t.Elements[existing] = joinElem(t.Elements[existing], elt)
 				}
 			})
@@ -880,6 +883,27 @@ func walkParticles(root *xmltree.Element, kind string, o occurrence, fn func(*xm
 	}
 }
 
+// maxOccurs returns how many of the particles that match a content model
+// allows. It makes no difference between numbers above 1.
+func maxOccurs(el *xmltree.Element, match func(*xmltree.Element) bool) (n int) {
+	if match(el) {
+		n = 1
+	}
+	for i := range el.Children {
+		m := maxOccurs(&el.Children[i], match)
+		if el.Name.Local == "choice" && n > m {
+			m = n
+		} else if el.Name.Local != "choice" {
+			m += n
+		}
+		n = m
+	}
+	if n > 1 || n == 1 && parsePlural(el) {
+		return 2
+	}
+	return n
+}
+
 func joinElem(a, b Element) Element {
 	if a.Doc != "" {
 		a.Doc += "\n"
-- 
2.43.0


From 6eb30d76aa957b01862d89df71d3d237d77bdd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 67/79] fix: references to groups keep their occurrence

---
 xsd/parse.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index d437abf..4389bb0 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -523,6 +523,18 @@ func copyElements(list []xmltree.Element) []xmltree.Element {
 	return result
 }
 
+// occurrenceAttrs returns the attributes of a particle that determine how
+// often it occurs.
+func occurrenceAttrs(el *xmltree.Element) (attrs []xml.Attr) {
+	for _, attr := range el.StartElement.Attr {
+		switch attr.Name {
+		case xml.Name{"", "minOccurs"}, xml.Name{"", "maxOccurs"}:
+			attrs = append(attrs, attr)
+		}
+	}
+	return attrs
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
@@ -536,7 +548,13 @@ func unpackGroups(doc *xmltree.Element) {
 		el := parents[i]
 		children := make([]xmltree.Element, 0, len(el.Children))
 		for _, c := range el.Children {
-			if isGroup(&c) {
+			if occurs := occurrenceAttrs(&c); isGroup(&c) && len(occurs) > 0 {
+				// what is said about the group as a whole
+				group := xmltree.Element{Scope: c.Scope, Children: c.Children}
+				group.Name = xml.Name{schemaNS, "sequence"}
+				group.StartElement.Attr = occurs
+				children = append(children, group)
+			} else if isGroup(&c) {
 				children = append(children, c.Children...)
 			} else {
 				children = append(children, c)
-- 
2.43.0


From f7bc4f4db317917918bb8f2fce8b4244ce32d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 68/79] fix: MarshalIndent begins each line with its prefix

---
 xmltree/marshal.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 7d67dfb..e2553e9 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -165,12 +165,23 @@ func diffScope(parent, child *Element) Scope {
 	return scope
 }
 
+// startLine writes the prefix and indentation of a line.
+func (e *encoder) startLine(depth int) error {
+	if _, err := io.WriteString(e.w, e.prefix); err != nil {
+		return err
+	}
+	for i := 0; i < depth; i++ {
+		if _, err := io.WriteString(e.w, e.indent); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
-		for i := 0; i < depth; i++ {
-			if _, err := io.WriteString(e.w, e.indent); err != nil {
-				return err
-			}
+		if err := e.startLine(depth); err != nil {
+			return err
 		}
 	}
 	var tag = struct {
@@ -191,13 +202,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 }
 
 func (e *encoder) encodeCloseTag(el *Element, depth int) error {
-	if e.pretty {
-		for i := 0; i < depth; i++ {
-			if len(el.Children) > 0 {
-				if _, err := io.WriteString(e.w, e.indent); err != nil {
-					return err
-				}
-			}
+	if e.pretty && len(el.Children) > 0 {
+		if err := e.startLine(depth); err != nil {
+			return err
 		}
 	}
 	if err := tagTmpl.ExecuteTemplate(e.w, "end", el); err != nil {
-- 
2.43.0


From 37b7e14374ec9113683699a6de29f3cd05bc78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 69/79] fix: TagKey returns the value of a tag's key

---
 internal/gen/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index a322b8a..e00b583 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -425,10 +425,14 @@ func ExprString(expr ast.Expr) string {
 // TagKey gets the struct tag item with the
 // given key.
 func TagKey(field *ast.Field, key string) string {
-	if field.Tag != nil {
+	if field.Tag == nil {
 		return ""
 	}
-	return reflect.StructTag(field.Tag.Value).Get(key)
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+	return reflect.StructTag(tag).Get(key)
 }
 
 // FormattedSource converts an abstract syntax tree to
-- 
2.43.0


From 82f1189ff1bb33b9a3385b0b764fe0780ca7b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:13 +0000
Subject: [PATCH 70/79] fix: operations of the same name have their own SOAP
 actions

---
 wsdl/wsdl.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 24326cd..afe77c5 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -191,7 +191,11 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					return el.Name == op.Name &&
 						el.Attr("", "name") == op.Attr("", "name")
 				}
-				for _, el := range bind.SearchFunc(bindingSearch) {
+				matches := bind.SearchFunc(bindingSearch)
+				for _, el := range matches {
+					if len(matches) > 1 && !sameMessageNames(el, op) {
+						continue
+					}
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
@@ -206,6 +210,22 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 	return ops
 }
 
+// sameMessageNames tells which of several operations with the same name
+// an operation of a binding is for. They are identified by the names of
+// their inputs and outputs.
+func sameMessageNames(a, b *xmltree.Element) bool {
+	for _, kind := range []string{"input", "output"} {
+		for _, x := range a.Search(wsdlNS, kind) {
+			for _, y := range b.Search(wsdlNS, kind) {
+				if x.Attr("", "name") != y.Attr("", "name") {
+					return false
+				}
+			}
+		}
+	}
+	return true
+}
+
 // Parse reads the first WSDL definition from data.
 func Parse(data []byte) (*Definition, error) {
 	var def Definition
-- 
2.43.0


From 2f37f9c512c623175519be0b1ee309a9dce6bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:13 +0000
Subject: [PATCH 71/79] fix: unpack types that extend unpacked types, in any
 order

---
 xsdgen/xsdgen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 17bd0e3..75d20ae 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -569,6 +569,7 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.Compl
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
+		_, derived := t.Base.(*xsd.ComplexType)
 		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
@@ -583,6 +584,11 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.Compl
 		cfg.debugf("%T(%s) -> %T(%s)", t, xsd.XMLName(t).Local,
 			t.Base, xsd.XMLName(t.Base).Local)
 
+		// If the base type was unpacked, so may this one be, whichever
+		// of them is flattened first.
+		if _, ok := t.Base.(*xsd.ComplexType); derived && !ok {
+			return cfg.flatten1(t, push, seen)
+		}
 		return t
 	case xsd.Builtin:
 		return t
-- 
2.43.0


From 56a4d30769327362dd5ebc674c4ec00655a3d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:13 +0000
Subject: [PATCH 72/79] fix: white space in hexBinary and base64Binary values

---
 xsdgen/config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 8e035c5..a91e8d5 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -712,7 +712,8 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = hex.DecodeString(string(text))
+					// white space around the value is not part of it
+					*b, err = hex.DecodeString(string(bytes.Trim(text, " \t\r\n")))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -738,7 +739,9 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = base64.StdEncoding.DecodeString(string(text))
+					// white space is allowed anywhere
+					s := strings.Join(_listItems(text), "")
+					*b, err = base64.StdEncoding.DecodeString(s)
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -752,6 +755,7 @@ func (cfg *Config) addStandardHelpers() {
 					return buf.Bytes(), nil
 				`).MustDecl(),
 		},
+		helperFuncs: []string{"_listItems"},
 	}
 }
 
-- 
2.43.0


From ce6f57d902366e3cacfb591d892ce9e13e7983fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:32 +0000
Subject: [PATCH 73/79] fix: a namespace may be asked for several times

---
 xsdgen/cli.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 997bc19..d407d57 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -35,17 +35,18 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 			}
 		}
 	}
-	if len(primaries) < len(namespaces) {
-		missing := make([]string, 0, len(namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	// the same namespace may be asked for several times
+	var missing []string
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	for _, ns := range namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From fc347813eb521e3a59dd4e4dcbb72111a89a9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:18 +0000
Subject: [PATCH 74/79] fix: undoing log options restores the logging of both
 generators

---
 wsdlgen/config.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index 1fe2ebc..1ff341e 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -109,22 +109,29 @@ func PackageComment(comment string) Option {
 // LogLevel sets the level of verbosity for log messages generated during
 // the code generation process.
 func LogLevel(level int) Option {
+	return replaceLogLevel(level, xsdgen.LogLevel(level))
+}
+
+// The level of the xsdgen package may have been different before.
+func replaceLogLevel(level int, xsd xsdgen.Option) Option {
 	return func(cfg *Config) Option {
 		prev := cfg.loglevel
 		cfg.loglevel = level
-		cfg.xsdgen.Option(xsdgen.LogLevel(level))
-		return LogLevel(prev)
+		return replaceLogLevel(prev, cfg.xsdgen.Option(xsd))
 	}
 }
 
 // LogOutput sets the destination for log messages generated during
 // code generation.
 func LogOutput(dest Logger) Option {
+	return replaceLogOutput(dest, xsdgen.LogOutput(dest))
+}
+
+func replaceLogOutput(dest Logger, xsd xsdgen.Option) Option {
 	return func(cfg *Config) Option {
 		prev := cfg.logger
 		cfg.logger = dest
-		cfg.xsdgen.Option(xsdgen.LogOutput(dest))
-		return LogOutput(prev)
+		return replaceLogOutput(prev, cfg.xsdgen.Option(xsd))
 	}
 }
 
-- 
2.43.0


From c611dfbad8782ec34d583a6b0debf11d7dc9c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:18 +0000
Subject: [PATCH 75/79] fix: limits of types derived from time types

---
 xsd/parse.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 4389bb0..b1e593b 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1173,6 +1173,11 @@ func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64)
 		case Time, Duration, GDay, GMonth, GMonthDay, GYearMonth:
 			// Neither a number nor a point in time
 			return time.Time{}, 0
+		case GYear:
+			// A number, but for its time zone
+			if _, err := time.Parse("2006Z07:00", value); err == nil {
+				return time.Time{}, parseDecimal(value[:len("2006")])
+			}
 		}
 	case linkedType:
 		// The base of the linked type is unknown, try to parse dates and decimals
@@ -1181,10 +1186,28 @@ func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64)
 				return date, 0
 			}
 		}
+		if _, err := strconv.ParseFloat(value, 64); err != nil && isTimeLimit(value) {
+			return time.Time{}, 0
+		}
 	}
 	return time.Time{}, parseDecimal(value)
 }
 
+// isTimeLimit returns true for the values of time types that are neither
+// a number nor a point in time.
+func isTimeLimit(value string) bool {
+	for _, format := range []string{"15:04:05", "--01-02", "---02", "--01", "2006-01", "2006"} {
+		if _, err := time.Parse(format, value); err == nil {
+			return true
+		}
+		if _, err := time.Parse(format+"Z07:00", value); err == nil {
+			return true
+		}
+	}
+	// a duration
+	return strings.HasPrefix(strings.TrimPrefix(value, "-"), "P")
+}
+
 // The time zone of a date or dateTime is optional. Without one, the
 // value is taken to be in UTC.
 func parseDate(typ Builtin, value string) (time.Time, error) {
-- 
2.43.0


From 1594bfd20ff206cea74318a914ba097368b8c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:18 +0000
Subject: [PATCH 76/79] fix: a simple type that restricts simple content does
 not replace its base

---
 xsd/parse.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index b1e593b..fd889bc 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -112,8 +112,9 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
+	simple := simpleContentTypes(result)
 	for _, root := range result {
-		if err := nameAnonymousTypes(root, &typeCounter, used); err != nil {
+		if err := nameAnonymousTypes(root, &typeCounter, used, simple); err != nil {
 			return nil, err
 		}
 	}
@@ -209,6 +210,19 @@ func typeNames(schema []*xmltree.Element) map[xml.Name]struct{} {
 	return used
 }
 
+// simpleContentTypes returns the names of the complex types with simple content.
+func simpleContentTypes(schema []*xmltree.Element) map[xml.Name]struct{} {
+	simple := make(map[xml.Name]struct{})
+	types := and(isElem(schemaNS, "complexType"), hasChild(isElem(schemaNS, "simpleContent")))
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(types) {
+			simple[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		}
+	}
+	return simple
+}
+
 func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
@@ -328,7 +342,7 @@ to
     </xs:sequence>
   </xs:complexType>
 */
-func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used map[xml.Name]struct{}) error {
+func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used, simple map[xml.Name]struct{}) error {
 	var (
 		updateAttr string
 		accum      bool
@@ -377,7 +391,11 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used map[xml.Na
 			if accum {
 				ref = el.Attr("", updateAttr) + " " + ref
 			}
-			el.SetAttr("", updateAttr, ref)
+			// A simple type may restrict the content of the base of a
+			// complex type, but does not take its place.
+			if _, ok := simple[el.Resolve(el.Attr("", "base"))]; updateAttr != "base" || !ok {
+				el.SetAttr("", updateAttr, ref)
+			}
 			types = append(types, *t)
 			if !accum {
 				break
-- 
2.43.0


From 336d402654af9b17a07329fbed47224254641c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:18 +0000
Subject: [PATCH 77/79] fix: no generated struct contains itself

---
 xsdgen/xsdgen.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 75d20ae..ac0c945 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -790,12 +790,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				base = builtinExpr(xsd.String)
 			}
 		}
+		pointer := cfg.recursive(t, el)
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
+		} else if pointer {
+			base = &ast.StarExpr{X: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
 		// a default says nothing about the items of a slice
-		if el.Default != "" && !el.Plural || nonTrivialBuiltin(el.Type) {
+		if el.Default != "" && !el.Plural && !pointer || nonTrivialBuiltin(el.Type) {
 			typeName := cfg.exprString(el.Type)
 			if nonTrivialBuiltin(el.Type) {
 				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
@@ -885,6 +888,34 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+// recursive reports whether the field for el would make a struct for t contain
+// itself. Where there is a choice of fields that would, the optional ones do.
+func (cfg *Config) recursive(t *xsd.ComplexType, el xsd.Element) bool {
+	seen := make(map[xml.Name]bool)
+	var contains func(xsd.Element) bool
+	contains = func(v xsd.Element) bool {
+		c, ok := v.Type.(*xsd.ComplexType)
+		if !ok || v.Plural || v.Optional && !el.Optional {
+			return false
+		}
+		if c.Name == t.Name {
+			return true
+		}
+		if seen[c.Name] {
+			return false
+		}
+		seen[c.Name] = true
+		_, elements := cfg.filterFields(c)
+		for _, v := range elements {
+			if contains(v) {
+				return true
+			}
+		}
+		return false
+	}
+	return contains(el)
+}
+
 // isByte reports whether the Go type of values of t is byte, or derives
 // from it.
 func isByte(t xsd.Type) bool {
-- 
2.43.0


From d22f3062bdecc42422a545a2ce1a795f1a573abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 78/79] fix: one-way operations need no answer

---
 wsdlgen/helper.go  | 5 ++++-
 wsdlgen/wsdlgen.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 6d9871e..0336b61 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -72,7 +72,10 @@ var helpers string = `
 
 		dec := xml.NewDecoder(rsp.Body)
 		envelope.Body.Message = out
-		if err := dec.Decode(&envelope); err != nil {
+		if err := dec.Decode(&envelope); err == io.EOF && out == nil && rsp.StatusCode/100 == 2 {
+			// there may be no answer to a one-way operation
+			return nil
+		} else if err != nil {
 			return err
 		}
 		if envelope.Body.Fault != nil {
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 4407b1e..3149e8f 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -285,6 +285,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
+			{{ if .OutputName.Local -}}
 			// the name of the element around the results is up to the server
 			var output struct {
 				Args struct {
@@ -293,8 +294,9 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 					{{ end -}}
 				}`+"`xml:\"{{.OutputName.Space}} {{.OutputName.Local}}\"`"+`
 			}
+			{{- end }}
 			
-			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
+			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, {{if .OutputName.Local}}&output{{else}}nil{{end}})
 			
 			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
-- 
2.43.0


From 9f52c92673d58eab46eabdbde7dc8ee72ee5d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 79/79] fix: generate the types of schemas without a target
 namespace

---
 xsdgen/xsdgen.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index ac0c945..858a2dc 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -46,15 +46,13 @@ func lookupTargetNS(data ...[]byte) []string {
 		if err != nil {
 			continue
 		}
-		outer := xmltree.Element{
-			Children: []xmltree.Element{*tree},
+		elts := []*xmltree.Element{tree}
+		if (tree.Name != xml.Name{"http://www.w3.org/2001/XMLSchema", "schema"}) {
+			elts = tree.Search("http://www.w3.org/2001/XMLSchema", "schema")
 		}
-		elts := outer.Search("http://www.w3.org/2001/XMLSchema", "schema")
 		for _, el := range elts {
-			ns := el.Attr("", "targetNamespace")
-			if ns != "" {
-				result = append(result, ns)
-			}
+			// a schema need not have a target namespace
+			result = append(result, el.Attr("", "targetNamespace"))
 		}
 	}
 	return result
-- 
2.43.0

