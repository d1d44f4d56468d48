From bcdac5b7985c78049a19e21db8bfb16e9c9a2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 01/64] fix: escape attribute values and namespace URIs when
 encoding

---
 xmltree/marshal.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..fc86491 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -11,17 +11,27 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
+	"escape": escape,
+}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+// escape encodes a string so that it can be used as the value of
+// an XML attribute.
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From ee4cb311faf456985782dfc3726d9a929a9996d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 02/64] fix: Scope.Prefix must not return shadowed or empty
 prefixes

---
 xmltree/xmltree.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..a09cbec 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -148,7 +148,7 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 		return "xmlns:" + name.Local
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
-		if scope.ns[i].Space == name.Space {
+		if scope.ns[i].Space == name.Space && !scope.shadowed(i) {
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
@@ -158,9 +158,23 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 			}
 		}
 	}
+	if qname == "" {
+		return name.Local
+	}
 	return qname
 }
 
+// shadowed returns true if the prefix declared at position i is
+// declared again further down in the scope.
+func (scope *Scope) shadowed(i int) bool {
+	for _, inner := range scope.ns[i+1:] {
+		if inner.Local == scope.ns[i].Local {
+			return true
+		}
+	}
+	return false
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
-- 
2.43.0


From d7314eb34307d7ad9b86b47ad2b2c0837e52c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 03/64] fix: JoinScope results must not share a backing array

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index a09cbec..70c9ae7 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,7 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From 167af72f1d19c8613229e5c57a61d4f74a350e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 04/64] fix: Parse must not overwrite its input or shift
 content when converting charsets

---
 xmltree/xmltree.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 70c9ae7..2bdc29d 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -228,7 +228,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -237,14 +237,15 @@ func Parse(doc []byte) (*Element, error) {
 		// At this point, the encoding/xml package has already
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
-		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
+		padding := int(d.InputOffset())
+		utf8buf := bytes.NewBuffer(make([]byte, padding))
 
 		_, err = io.Copy(utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[padding:]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
@@ -258,7 +259,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 41e55330cafdaaafb24c34498ec78af7ae34c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 05/64] fix: MarshalIndent must begin each line with its prefix
 argument

---
 xmltree/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index fc86491..5221a59 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -145,6 +145,7 @@ func diffScope(parent, child *Element) Scope {
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
+		io.WriteString(e.w, e.prefix)
 		for i := 0; i < depth; i++ {
 			io.WriteString(e.w, e.indent)
 		}
@@ -166,6 +167,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 
 func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
+		if len(el.Children) > 0 {
+			io.WriteString(e.w, e.prefix)
+		}
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
 				io.WriteString(e.w, e.indent)
-- 
2.43.0


From a4071c1b09b7bebe900dbfcc1b89ddbb7a632dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 06/64] fix: Encode must return errors from writing element
 content

---
 xmltree/marshal.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 5221a59..0fc5647 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -97,8 +97,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := e.w.Write([]byte("<!-- cycle detected -->"))
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -106,7 +106,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
-- 
2.43.0


From a25eca5f7973491f72e7b0c42542a2f24b473732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 07/64] fix: Marshal must not use the default namespace for
 attributes

---
 xmltree/marshal.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 0fc5647..1b12790 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -12,11 +12,12 @@ import (
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
 var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
-	"escape": escape,
+	"escape":   escape,
+	"attrName": attrName,
 }).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .StartElement.Attr}} {{attrName $.Scope .Name -}}="{{escape .Value}}"{{end -}}
 	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
@@ -32,6 +33,18 @@ func escape(s string) (string, error) {
 	return buf.String(), err
 }
 
+// attrName is like Scope.Prefix, but it never uses the default
+// namespace, which does not apply to the names of attributes.
+func attrName(scope Scope, name xml.Name) string {
+	var qualified Scope
+	for i, ns := range scope.ns {
+		if ns.Local != "" && !scope.shadowed(i) {
+			qualified.ns = append(qualified.ns, ns)
+		}
+	}
+	return qualified.Prefix(name)
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From 16be9de6fe830a4411b52a71be5bbd4015018f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 08/64] fix: Marshal must emit only the namespace declarations
 in effect

---
 xmltree/marshal.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 1b12790..6a495c8 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -140,22 +140,29 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 }
 
 // diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
+// identical namespace declaration in the parent's scope and any
+// declaration that is hidden by another one for the same prefix.
 func diffScope(parent, child *Element) Scope {
-	if parent == nil { // root element
-		return child.Scope
-	}
-	childScope := child.Scope
-	parentScope := parent.Scope
-	for len(parentScope.ns) > 0 && len(childScope.ns) > 0 {
-		if childScope.ns[0] == parentScope.ns[0] {
-			childScope.ns = childScope.ns[1:]
-			parentScope.ns = parentScope.ns[1:]
-		} else {
-			break
+	var diff Scope
+	for i, ns := range child.Scope.ns {
+		if child.Scope.shadowed(i) {
+			continue
+		}
+		if parent != nil { // not the root element
+			outer, ok := parent.ResolveNS(ns.Local + ":")
+			if ok && outer.Space == ns.Space {
+				continue
+			}
+		}
+		diff.ns = append(diff.ns, ns)
+	}
+	if parent != nil {
+		_, outer := parent.ResolveNS(":")
+		if _, ok := child.ResolveNS(":"); outer && !ok {
+			diff.ns = append(diff.ns, xml.Name{})
 		}
 	}
-	return childScope
+	return diff
 }
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
-- 
2.43.0


From cdbe00750b9735f337a92017e1e3e75742f78a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 09/64] fix: Equal must be symmetric, ignore sibling order and
 leave its arguments alone

---
 xmltree/compare.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..a9922f7 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -3,7 +3,6 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
-	"sort"
 )
 
 // Equal returns true if two xmltree.Elements are equal, ignoring
@@ -12,14 +11,6 @@ func Equal(a, b *Element) bool {
 	return equal(a, b, 0)
 }
 
-type byName []Element
-
-func (l byName) Len() int { return len(l) }
-func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
-}
-func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
-
 func equal(a, b *Element, depth int) bool {
 	const maxDepth = 1000
 	if depth > maxDepth {
@@ -34,12 +25,18 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
+	// Siblings can share a name, so the order within the same name
+	// must not matter, either.
+	matched := make([]bool, len(b.Children))
+walk:
 	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
-			return false
+		for j := range b.Children {
+			if !matched[j] && equal(&a.Children[i], &b.Children[j], depth+1) {
+				matched[j] = true
+				continue walk
+			}
 		}
+		return false
 	}
 	return true
 }
@@ -63,6 +60,7 @@ func equalElement(a, b *Element) bool {
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
 			return false
 		}
+		delete(attrs, a.Name)
 	}
-	return true
+	return len(attrs) == 0
 }
-- 
2.43.0


From 3a00b1006d08a927ea1f127a0f9fe5b83cc59235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 10/64] fix: references must keep the type of the declaration
 they refer to

---
 xsd/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..ff03d2a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -581,7 +581,7 @@ func propagateMixedAttr(t, b Type, depth int) {
 func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
-		hasNoType = hasAttrValue("", "type", "")
+		hasNoType = and(hasAttrValue("", "type", ""), hasAttrValue("", "ref", ""))
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
 	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
@@ -597,7 +597,7 @@ func attributeDefaultType(root *xmltree.Element) {
 func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
-		hasNoType = hasAttrValue("", "type", "")
+		hasNoType = and(hasAttrValue("", "type", ""), hasAttrValue("", "ref", ""))
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
 	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
-- 
2.43.0


From f90123925136bde968bf0e6997dc42368834944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 11/64] fix: every anonymous type must be given a unique name

---
 xsd/parse.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ff03d2a..78bda37 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -104,10 +104,18 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 			result = append(result, root.Search(schemaNS, "schema")...)
 		}
 	}
+	// Types are shared between all schema with the same target namespace.
+	used := make(map[xml.Name]struct{})
+	for _, root := range result {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(and(isType, hasAttr("", "name"))) {
+			used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		}
+	}
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
+		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
 	for _, root := range result {
@@ -202,20 +210,18 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
-	used := make(map[xml.Name]struct{})
+func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
 	tns := root.Attr("", "targetNamespace")
 
-	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
-	}
-
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
 		hasAttr("", "name"),
 		hasAnonymousType)
 
+	// Adding to root.Children would invalidate the pointers to
+	// top-level elements found by SearchFunc, so types are collected
+	// here and added at the end.
+	var types []xmltree.Element
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
 		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
@@ -232,10 +238,11 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			break
 		}
 	}
+	root.Children = append(root.Children, types...)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -292,6 +299,7 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 	var (
 		updateAttr string
 		accum      bool
+		types      []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
 	for _, el := range root.SearchFunc(hasAnonymousType) {
@@ -334,12 +342,16 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			el.SetAttr("", updateAttr, qname)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			if !accum {
 				break
 			}
+			i--
 		}
 	}
+	// Adding these earlier would invalidate the pointers to top-level
+	// elements found by SearchFunc.
+	root.Children = append(root.Children, types...)
 	return nil
 }
 
-- 
2.43.0


From 886b24bff774b08984364daa2195512b4f8fd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 12/64] fix: type references must resolve when there is no
 prefix for their namespace

---
 xsd/parse.go | 50 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 78bda37..4807bf5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1,6 +1,7 @@
 package xsd
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"regexp"
@@ -191,6 +192,42 @@ func parseType(name xml.Name) Type {
 	return builtin
 }
 
+// qualify returns a QName that resolves to name in the scope of el. If
+// there is no prefix for the namespace of name, one is added to the scope
+// of el.
+func qualify(el *xmltree.Element, name xml.Name) string {
+	qname := el.Prefix(name)
+	if el.Resolve(qname) == name {
+		return qname
+	}
+	prefix := ""
+	if name.Space != "" {
+		prefix = "_tns"
+		for i := 1; ; i++ {
+			if _, ok := el.ResolveNS(prefix + ":" + name.Local); !ok {
+				break
+			}
+			prefix = fmt.Sprintf("_tns%d", i)
+		}
+	}
+	decl := xml.StartElement{
+		Name: xml.Name{Local: "scope"},
+		Attr: []xml.Attr{{Name: xml.Name{Local: "xmlns"}, Value: name.Space}},
+	}
+	if prefix != "" {
+		decl.Attr[0].Name.Local += ":" + prefix
+	}
+	var buf bytes.Buffer
+	enc := xml.NewEncoder(&buf)
+	enc.EncodeToken(decl)
+	enc.EncodeToken(decl.End())
+	enc.Flush()
+	if scope, err := xmltree.Parse(buf.Bytes()); err == nil {
+		el.Scope = *el.JoinScope(&scope.Scope)
+	}
+	return el.Prefix(name)
+}
+
 func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
@@ -234,7 +271,7 @@ func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{})
 				continue
 			}
 			t.SetAttr("", "name", el.Attr("", "name"))
-			el.SetAttr("", "type", el.Prefix(xmlname))
+			el.SetAttr("", "type", qualify(el, xmlname))
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
@@ -332,7 +369,7 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			*typeCounter++
 
 			name := anonTypeName(*typeCounter, targetNS)
-			qname := el.Prefix(name)
+			qname := qualify(el, name)
 
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
@@ -414,7 +451,7 @@ func flattenRef(schema []*xmltree.Element) error {
 // object.
 func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el := new(xmltree.Element)
-	el.Scope = ref.Scope
+	el.Scope = *real.JoinScope(&ref.Scope)
 	el.Name = real.Name
 	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
 	el.Content = append([]byte{}, real.Content...)
@@ -428,15 +465,10 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	for i, attr := range el.StartElement.Attr {
 		if hasQName[attr.Name] {
 			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
+			attr.Value = qualify(el, xmlname)
 			el.StartElement.Attr[i] = attr
 		}
 	}
-	// If there are child elements, rather than checking all children
-	// for xmlns conversion, we can just import the xmlns prefixes
-	if len(el.Children) > 0 {
-		el.Scope = *real.JoinScope(&ref.Scope)
-	}
 
 	// Attributes added to the reference overwrite attributes in the
 	// referenced element.
-- 
2.43.0


From f11b544a4db47a66df5a9d637886d99ed733d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 13/64] fix: dereference nested references, and only to
 top-level declarations

---
 xsd/index.go  |  7 ++++-
 xsd/parse.go  | 82 +++++++++++++++++++++++++++------------------------
 xsd/search.go |  5 ++++
 3 files changed, 55 insertions(+), 39 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..7c4a3e3 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -35,10 +35,15 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
+		// Only top-level declarations can be referenced by name.
+		global := make(map[*xmltree.Element]bool)
+		for i := range root.Children {
+			global[&root.Children[i]] = true
+		}
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if name := el.Attr("", "name"); name != "" {
+			if name := el.Attr("", "name"); name != "" && global[el] {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
diff --git a/xsd/parse.go b/xsd/parse.go
index 4807bf5..91aa4b5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -13,25 +13,6 @@ import (
 	"aqwari.net/xml/xmltree"
 )
 
-func hasCycle(root *xmltree.Element, visited map[*xmltree.Element]struct{}) bool {
-	if visited == nil {
-		visited = make(map[*xmltree.Element]struct{})
-	}
-	visited[root] = struct{}{}
-	for i := range root.Children {
-		el := &root.Children[i]
-		if _, ok := visited[el]; ok {
-			return true
-		}
-		visited[el] = struct{}{}
-		if hasCycle(el, visited) {
-			return true
-		}
-	}
-	delete(visited, root)
-	return false
-}
-
 // A Ref contains the canonical namespace of a schema document, and
 // possibly a URI to retrieve the document from. It is not required
 // for XML Schema documents to provide the location of schema that
@@ -414,20 +395,29 @@ func flattenRef(schema []*xmltree.Element) error {
 		index   = indexSchema(schema)
 	)
 	for id, el := range index.eltByID {
-		if el.Attr("", "ref") == "" {
+		if !isRef(el) {
 			continue
 		}
 		name := el.Resolve(el.Attr("", "ref"))
-		if dep, ok := index.ElementID(name, el.Name); !ok {
+		dep, ok := index.ElementID(name, el.Name)
+		if !ok {
 			return fmt.Errorf("could not find ref %s in %s",
 				el.Attr("", "ref"), el)
-		} else {
-			depends.Add(id, dep)
+		}
+		depends.Add(id, dep)
+		// References within the referenced element have to be
+		// dereferenced before it can be merged. Its descendants
+		// directly follow it in the index.
+		n := len(index.eltByID[dep].Flatten())
+		for child := dep + 1; child <= dep+n; child++ {
+			if isRef(index.eltByID[child]) {
+				depends.Add(dep, child)
+			}
 		}
 	}
 	depends.Flatten(func(id int) {
 		el := index.eltByID[id]
-		if el.Attr("", "ref") == "" {
+		if !isRef(el) {
 			return
 		}
 		ref := el.Resolve(el.Attr("", "ref"))
@@ -437,12 +427,14 @@ func flattenRef(schema []*xmltree.Element) error {
 		}
 		*el = *deref(el, real)
 	})
-	for ns, doc := range schema {
-		unpackGroups(doc)
-		if hasCycle(doc, nil) {
+	for _, doc := range schema {
+		// Only references to an element that contains the
+		// reference can be left.
+		for _, el := range doc.SearchFunc(isRef) {
 			return fmt.Errorf("cycle detected after flattening references "+
-				"in schema %d:\n%s", ns, xmltree.MarshalIndent(doc, "", "  "))
+				"in schema %s: %s", doc.Attr("", "targetNamespace"), el)
 		}
+		unpackGroups(doc)
 	}
 	return nil
 }
@@ -455,7 +447,7 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el.Name = real.Name
 	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
 	el.Content = append([]byte{}, real.Content...)
-	el.Children = append([]xmltree.Element{}, real.Children...)
+	el.Children = copyElements(real.Children)
 
 	// Some attributes can contain a qname, and must be converted to use the
 	// xmlns prefixes in ref's scope.
@@ -481,22 +473,36 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// copyElements makes a deep copy of a list of elements.
+func copyElements(list []xmltree.Element) []xmltree.Element {
+	result := append([]xmltree.Element{}, list...)
+	for i := range result {
+		el := &result[i]
+		el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+		el.Children = copyElements(el.Children)
+	}
+	return result
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
-	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
-		children := make([]xmltree.Element, 0, len(el.Children))
-		for _, c := range el.Children {
-			if isGroup(&c) {
-				children = append(children, c.Children...)
-			} else {
-				children = append(children, c)
+	for i := range doc.Children {
+		el := &doc.Children[i]
+		for hasChild(isGroup)(el) {
+			children := make([]xmltree.Element, 0, len(el.Children))
+			for _, c := range el.Children {
+				if isGroup(&c) {
+					children = append(children, c.Children...)
+				} else {
+					children = append(children, c)
+				}
 			}
+			el.Children = children
 		}
-		el.Children = children
+		unpackGroups(el)
 	}
 }
 
diff --git a/xsd/search.go b/xsd/search.go
index b76ebc3..dfd6a1d 100644
--- a/xsd/search.go
+++ b/xsd/search.go
@@ -59,6 +59,11 @@ func hasAttrValue(space, local, value string) predicate {
 	}
 }
 
+// isRef matches elements that refer to a declaration.
+func isRef(el *xmltree.Element) bool {
+	return el.Name.Space == schemaNS && el.Attr("", "ref") != ""
+}
+
 var (
 	isType           = or(isElem(schemaNS, "complexType"), isElem(schemaNS, "simpleType"))
 	isAnonymousType  = and(isType, hasAttrValue("", "name", ""))
-- 
2.43.0


From 1f10bf8263914a5f4e3c12444be07da9d5584981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 14/64] fix: references to another namespace must keep their
 canonical name

---
 xsd/index.go | 3 +++
 xsd/parse.go | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 7c4a3e3..48bdaa0 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,6 +12,8 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
+	// target namespace of the schema containing an element.
+	tnsByID []string
 	// name indices can collide since different element
 	// types can have the same node.
 	idByName map[elementKey]int
@@ -43,6 +45,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			index.tnsByID = append(index.tnsByID, tns)
 			if name := el.Attr("", "name"); name != "" && global[el] {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
diff --git a/xsd/parse.go b/xsd/parse.go
index 91aa4b5..3e43869 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -426,6 +426,10 @@ func flattenRef(schema []*xmltree.Element) error {
 			panic("bug building dep tree; missing " + el.Attr("", "ref"))
 		}
 		*el = *deref(el, real)
+		if ref.Space != "" && ref.Space != index.tnsByID[id] {
+			// Unqualified names are in the target namespace.
+			el.SetAttr("", "name", qualify(el, ref))
+		}
 	})
 	for _, doc := range schema {
 		// Only references to an element that contains the
@@ -904,9 +908,8 @@ func parseAttribute(ns string, el *xmltree.Element) Attribute {
 	if name := el.Attr("", "name"); strings.Contains(name, ":") {
 		a.Name = el.Resolve(el.Attr("", "name"))
 	} else {
-		a.Name.Local = name
+		a.Name = xml.Name{ns, name}
 	}
-	a.Name.Space = ns
 	a.Type = parseType(el.Resolve(el.Attr("", "type")))
 	a.Default = el.Attr("", "default")
 	a.Scope = el.Scope
-- 
2.43.0


From 80f3ac23dde6472a64cadc6b10de8e7615d85ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 15/64] fix: elements of choices and repeated groups must be
 optional and plural

---
 xsd/parse.go | 54 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 3e43869..223513f 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -104,9 +104,6 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
 			return nil, err
 		}
-		if err := setChoicesOptional(root); err != nil {
-			return nil, err
-		}
 	}
 	for _, root := range result {
 		expandComplexShorthand(root)
@@ -263,29 +260,39 @@ func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{})
 	root.Children = append(root.Children, types...)
 }
 
-// Inside a <xs:choice>, set all children to optional
-// If child is a <xs:sequence> set its children to optional
-func setChoicesOptional(root *xmltree.Element) error {
-
-	for _, el := range root.SearchFunc(isElem(schemaNS, "choice")) {
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
+// The xsd package flattens all model groups, so how often an element may
+// occur has to account for all of the groups that contain it: it is
+// optional within an <xs:choice> or an optional group, and plural within
+// a group that may be repeated.
+func propagateOccurs(root *xmltree.Element, optional, plural bool) (err error) {
+	defer catchParseError(&err)
+	setOccurs(root, optional, plural)
+	return err
+}
 
-			if t.Name.Space == schemaNS && t.Name.Local == "sequence" {
-				for j := 0; j < len(t.Children); j++ {
-					t2 := t.Children[j]
-					t2.SetAttr("", "minOccurs", "0")
-					t.Children[j] = t2
-				}
-			} else {
-				t.SetAttr("", "minOccurs", "0")
+func setOccurs(root *xmltree.Element, optional, plural bool) {
+	for i := range root.Children {
+		el := &root.Children[i]
+		if el.Name.Space != schemaNS {
+			continue
+		}
+		switch el.Name.Local {
+		case "element", "any":
+			if optional {
+				el.SetAttr("", "minOccurs", "0")
 			}
-
-			el.Children[i] = t
+			if plural {
+				el.SetAttr("", "maxOccurs", "unbounded")
+			}
+		case "sequence", "all", "group", "choice":
+			min := el.Attr("", "minOccurs")
+			setOccurs(el,
+				optional || el.Name.Local == "choice" || (min != "" && parseInt(min) == 0),
+				plural || parsePlural(el))
+		default:
+			setOccurs(el, false, false)
 		}
 	}
-
-	return nil
 }
 
 /*
@@ -438,6 +445,9 @@ func flattenRef(schema []*xmltree.Element) error {
 			return fmt.Errorf("cycle detected after flattening references "+
 				"in schema %s: %s", doc.Attr("", "targetNamespace"), el)
 		}
+		if err := propagateOccurs(doc, false, false); err != nil {
+			return err
+		}
 		unpackGroups(doc)
 	}
 	return nil
-- 
2.43.0


From d7b0f20990b1cae41468192834ddb654919c66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 16/64] fix: schema with the same target namespace must not
 replace each other

---
 xsd/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 223513f..615466d 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -122,7 +122,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 func Parse(docs ...[]byte) ([]Schema, error) {
 	var (
 		result = make([]Schema, 0, len(docs))
-		parsed = make(map[string]Schema, len(docs))
+		parsed = make([]Schema, 0, len(docs))
 		types  = make(map[xml.Name]Type)
 	)
 
@@ -137,7 +137,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
-		parsed[tns] = s
+		parsed = append(parsed, s)
 	}
 
 	for _, s := range parsed {
@@ -146,8 +146,8 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for _, root := range schema {
-		s := parsed[root.Attr("", "targetNamespace")]
+	for i, root := range schema {
+		s := parsed[i]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2d4f1c56ac4b54aedbf1de8898e57787c4685e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 17/64] fix: Parse must handle derivation across schema and
 reject circular derivation

---
 xsd/parse.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 615466d..edc3783 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -155,9 +155,16 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err != nil {
 			return nil, err
 		}
-		s.propagateMixedAttr()
 		result = append(result, s)
 	}
+	// All base types have to be known by now, as derivation may cross
+	// schema boundaries.
+	for _, s := range result {
+		if err := s.checkCircularTypes(); err != nil {
+			return nil, err
+		}
+		s.propagateMixedAttr()
+	}
 	result = append(result, builtinSchema)
 	return result, nil
 }
@@ -586,6 +593,22 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 	return nil
 }
 
+// The types that a type is derived from are guaranteed to end in a Builtin;
+// a type must not be derived from itself.
+func (s *Schema) checkCircularTypes() error {
+	for name, t := range s.Types {
+		seen := make(map[Type]bool)
+		for ; t != nil; t = Base(t) {
+			if seen[t] {
+				return fmt.Errorf("type %s in namespace %s is derived from itself",
+					name.Local, name.Space)
+			}
+			seen[t] = true
+		}
+	}
+	return nil
+}
+
 // Propagate the "mixed" attribute of a type appropriately to
 // all types derived from it.  For the propagation rules, see
 // https://www.w3.org/TR/xmlschema-1/#coss-ct. That Definition is written
-- 
2.43.0


From 2993b62ef55d192ac6d7c354b05325acf4cb1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 18/64] fix: accept minimum and maximum facets of all date and
 time types

---
 xsd/parse.go | 63 ++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index edc3783..cce9e2c 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1051,40 +1051,45 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 
 // For minInclusive, minExclusive, maxInclusive and maxExclusive restrictions
 func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
-	var date time.Time
-	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
-		}
-
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
-			if err != nil {
-				stop(err.Error())
-			}
-			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+	value := strings.TrimSpace(el.Attr("", "value"))
+	switch base := base.(type) {
+	case Builtin:
+		switch base {
+		case Date:
+			return parseDate(value, dateFormats), 0
+		case DateTime:
+			return parseDate(value, dateTimeFormats), 0
+		case Time, Duration, GDay, GMonth, GMonthDay, GYear, GYearMonth:
+			// Cannot be represented in a Restriction
+			return time.Time{}, 0
 		}
-	} else if _, ok := base.(linkedType); ok {
+	case linkedType:
 		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
-		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
+		for _, format := range append(dateFormats[:len(dateFormats):len(dateFormats)], dateTimeFormats...) {
+			if d, err := time.Parse(format, value); err == nil {
+				return d, 0
 			}
-			date = d
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
+		d, _ := strconv.ParseFloat(value, 64)
+		return time.Time{}, d
+	}
+	return time.Time{}, parseDecimal(value)
+}
+
+// The time zone is optional in xs:date and xs:dateTime
+var (
+	dateFormats     = []string{"2006-01-02", "2006-01-02Z07:00"}
+	dateTimeFormats = []string{time.RFC3339, "2006-01-02T15:04:05"}
+)
+
+func parseDate(value string, formats []string) time.Time {
+	for _, format := range formats {
+		if d, err := time.Parse(format, value); err == nil {
+			return d
+		}
 	}
-	return date, decimal
+	stop("Invalid date " + value)
+	return time.Time{}
 }
 
 // XML Schema defines its own flavor of regular expressions here:
-- 
2.43.0


From c1ba3eae9721bba6d571e5777c1166b931e8e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 19/64] fix: keep names of referenced groups canonical and
 attributes of restricted simpleContent

---
 xsd/parse.go  | 13 +++++++++----
 xsd/search.go |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index cce9e2c..c1ee288 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -442,7 +442,12 @@ func flattenRef(schema []*xmltree.Element) error {
 		*el = *deref(el, real)
 		if ref.Space != "" && ref.Space != index.tnsByID[id] {
 			// Unqualified names are in the target namespace.
-			el.SetAttr("", "name", qualify(el, ref))
+			for _, decl := range append(el.Flatten(), el) {
+				name := decl.Attr("", "name")
+				if isDecl(decl) && name != "" && !strings.Contains(name, ":") {
+					decl.SetAttr("", "name", qualify(decl, xml.Name{ref.Space, name}))
+				}
+			}
 		}
 	})
 	for _, doc := range schema {
@@ -771,9 +776,9 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 		case "extension":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			t.Extends = true
-			for _, v := range el.Search(schemaNS, "attribute") {
-				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
-			}
+		}
+		for _, v := range el.Search(schemaNS, "attribute") {
+			t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 		}
 	})
 	t.Doc += string(doc)
diff --git a/xsd/search.go b/xsd/search.go
index dfd6a1d..e9ba453 100644
--- a/xsd/search.go
+++ b/xsd/search.go
@@ -65,6 +65,7 @@ func isRef(el *xmltree.Element) bool {
 }
 
 var (
+	isDecl           = or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute"))
 	isType           = or(isElem(schemaNS, "complexType"), isElem(schemaNS, "simpleType"))
 	isAnonymousType  = and(isType, hasAttrValue("", "name", ""))
 	hasAnonymousType = hasChild(isAnonymousType)
-- 
2.43.0


From a23eea531d49576f9f8014f7bc82e15c2f4eb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 20/64] fix: names of referenced declarations need a prefix
 when their namespace is the default

---
 xsd/parse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index c1ee288..ac8d784 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -185,6 +185,12 @@ func qualify(el *xmltree.Element, name xml.Name) string {
 	if el.Resolve(qname) == name {
 		return qname
 	}
+	return declare(el, name)
+}
+
+// declare adds a namespace declaration for the namespace of name to the
+// scope of el, and returns a QName that uses it.
+func declare(el *xmltree.Element, name xml.Name) string {
 	prefix := ""
 	if name.Space != "" {
 		prefix = "_tns"
@@ -210,7 +216,10 @@ func qualify(el *xmltree.Element, name xml.Name) string {
 	if scope, err := xmltree.Parse(buf.Bytes()); err == nil {
 		el.Scope = *el.JoinScope(&scope.Scope)
 	}
-	return el.Prefix(name)
+	if prefix == "" {
+		return name.Local
+	}
+	return prefix + ":" + name.Local
 }
 
 func anonTypeName(n int, ns string) xml.Name {
@@ -445,7 +454,7 @@ func flattenRef(schema []*xmltree.Element) error {
 			for _, decl := range append(el.Flatten(), el) {
 				name := decl.Attr("", "name")
 				if isDecl(decl) && name != "" && !strings.Contains(name, ":") {
-					decl.SetAttr("", "name", qualify(decl, xml.Name{ref.Space, name}))
+					decl.SetAttr("", "name", declare(decl, xml.Name{ref.Space, name}))
 				}
 			}
 		}
-- 
2.43.0


From 6a4ccff1809c7d1b7278dfffcde6e7fbd0983d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:11 +0000
Subject: [PATCH 21/64] fix: generate working code for lists of every builtin
 type

---
 xsdgen/builtin.go |   8 +++-
 xsdgen/xsdgen.go  | 103 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 91 insertions(+), 20 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..f148dbb 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -7,7 +7,7 @@ import (
 )
 
 func builtinExpr(b xsd.Builtin) ast.Expr {
-	if int(b) > len(builtinTbl) || b < 0 {
+	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
 	return builtinTbl[b]
@@ -47,7 +47,7 @@ var builtinTbl = []ast.Expr{
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int8"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
@@ -79,4 +79,8 @@ var builtinTbl = []ast.Expr{
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
+	xsd.XMLLang:            &ast.Ident{Name: "string"},
+	xsd.XMLSpace:           &ast.Ident{Name: "string"},
+	xsd.XMLBase:            &ast.Ident{Name: "string"},
+	xsd.XMLId:              &ast.Ident{Name: "string"},
 }
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..73137ec 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -960,7 +960,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.AnyType, xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -974,27 +974,47 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+	case xsd.QName:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
-				} else {
-					result = append(result, b)
-				}
+				result = append(result, []byte(v.Local))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range bytes.Fields(text) {
+				*x = append(*x, xml.Name{Local: string(v)})
 			}
-			return bytes.Join(result, []byte(" "))
+			return nil
 		`)
+	case xsd.Base64Binary, xsd.HexBinary, xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+		helper, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(helper.xsdType))
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				b, err := %s(v).MarshalText()
+				if err != nil {
+					return nil, err
+				}
+				result = append(result, b)
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range bytes.Fields(text) {
 				var t %s
 				if err := t.UnmarshalText(v); err != nil {
 					return err
 				}
-				*x = append(*x, t)
+				*x = append(*x, %s(t))
 			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
+			return nil
+		`, helper.name, cfg.exprString(base))
 	case xsd.Long:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
@@ -1032,7 +1052,26 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.Short:
+	case xsd.Float:
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				s := strconv.FormatFloat(float64(v), 'g', -1, 32)
+				result = append(result, []byte(s))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range strings.Fields(string(text)) {
+				if f, err := strconv.ParseFloat(v, 32); err != nil {
+					return err
+				} else {
+					*x = append(*x, float32(f))
+				}
+			}
+			return nil
+		`)
+	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger, xsd.Short:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1072,13 +1111,13 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+				result = append(result, []byte(strconv.FormatUint(v, 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+				if i, err := strconv.ParseUint(v, 10, 64); err != nil {
 					return err
 				} else {
 					*x = append(*x, i)
@@ -1086,17 +1125,45 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Byte, xsd.UnsignedByte:
+	case xsd.Byte:
 		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.FormatInt(int64(v), 10)))
+			}
+			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseInt(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, int8(i))
+				}
+			}
 			return nil
-		`, s.name)
+		`)
+	case xsd.UnsignedByte:
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.FormatUint(uint64(v), 10)))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, byte(i))
+				}
+			}
+			return nil
+		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
+			result := make([][]byte, 0, len(*x))
 			for _, b := range *x {
 				if b {
 					result = append(result, []byte("1"))
-- 
2.43.0


From c679a065deeb7bcc35990aba94ff07cc9a6499c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:13 +0000
Subject: [PATCH 22/64] fix: visit types that refer to each other once, not
 exponentially often

---
 xsdgen/xsdgen.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 73137ec..69a244c 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -368,6 +368,7 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 // This is a heuristic that tends to generate better-looking Go code.
 func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	var result []xsd.Type
+	seen := make(map[*xsd.ComplexType]bool)
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
@@ -384,7 +385,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
@@ -402,11 +403,9 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+// Types may refer to each other or themselves; the types that were visited
+// before are in seen.
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.ComplexType]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -480,28 +479,33 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
+		if seen[t] {
+			return t
+		}
+		seen[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From e80dec403a2965031564cf4d192f974c2d95ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:34 +0000
Subject: [PATCH 23/64] fix: types derived from a list are lists

---
 xsdgen/xsdgen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 69a244c..6c62dcf 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -420,6 +420,15 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.Compl
 			}
 			chain = append(chain, base)
 		}
+		// A type derived from a list is a list of the same items.
+		list := false
+		for i := len(chain) - 1; i >= 0; i-- {
+			if v, ok := chain[i].(*xsd.SimpleType); ok {
+				list = list || v.List
+				v.List = list
+			}
+		}
+		t.List = t.List || list
 		for _, v := range chain {
 			if v, ok := v.(*xsd.SimpleType); ok {
 				v.Base = builtin
-- 
2.43.0


From 2b7495810c9e9182d711ed176a06bbdca287fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:51 +0000
Subject: [PATCH 24/64] fix: names of wildcard and text fields could clash with
 those of elements

---
 xsdgen/xsdgen.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 6c62dcf..117cd46 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -630,7 +630,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			fields = append(fields, namegen.unique(expr.(*ast.Ident).Name), expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -702,18 +702,20 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
+		var name ast.Expr
 		if el.Wildcard {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
 				base = builtinExpr(xsd.String)
 			}
+		} else {
+			name = namegen.element(el.Name)
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
-- 
2.43.0


From b38902f45f496fd987cbf4444ce49a6edee2d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 25/64] fix: decode and encode repeated elements of date and
 binary types, and types and fields called T

---
 xsdgen/xsdgen.go | 78 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 117cd46..947c810 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -561,6 +561,7 @@ type fieldOverride struct {
 	DefaultValue     string
 	Type             xsd.Type
 	Tag              string
+	Plural           bool
 }
 
 type nameGenerator struct {
@@ -721,7 +722,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			base = &ast.ArrayType{Elt: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
-		if el.Default != "" || nonTrivialBuiltin(el.Type) {
+		if (el.Default != "" && !el.Plural) || nonTrivialBuiltin(el.Type) {
 			typeName := cfg.exprString(el.Type)
 			if nonTrivialBuiltin(el.Type) {
 				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
@@ -738,6 +739,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         el.Type,
+				Plural:       el.Plural,
 			})
 		}
 	}
@@ -813,32 +815,62 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
 	var data struct {
 		Overrides []fieldOverride
+		Plurals   []fieldOverride
 		Type      string
+		Inner     string
 	}
-	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
 
+	// The inner type must not hide anything that is used next to it.
+	data.Inner = "T"
+	for i := 0; overlayUses(data.Inner, data.Type, overrides); i++ {
+		data.Inner = "T" + strconv.Itoa(i)
+	}
+	split := func(overrides []fieldOverride) {
+		data.Overrides, data.Plurals = nil, nil
+		for _, v := range overrides {
+			if v.Plural {
+				data.Plurals = append(data.Plurals, v)
+			} else {
+				data.Overrides = append(data.Overrides, v)
+			}
+		}
+	}
+
+	split(overrides)
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Inner}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.Inner}}
 				{{range .Overrides}}
 				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
+				{{range .Plurals}}
+				{{.FieldName}} []{{.ToType}} `+"`{{.Tag}}`"+`
+				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.Inner}} = (*{{.Inner}})(t)
 			{{range .Overrides}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Inner}}.{{.FieldName}})
 			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
+			// overlay.{{.FieldName}} = {{printf "%q" .DefaultValue}}
 			{{end -}}
 			{{end}}
-
+			{{if .Plurals}}
+			err := d.DecodeElement(&overlay, &start)
+			{{range .Plurals}}
+			for _, v := range overlay.{{.FieldName}} {
+				t.{{.FieldName}} = append(t.{{.FieldName}}, ({{.FromType}})(v))
+			}
+			{{end}}
+			return err
+			{{else}}
 			return d.DecodeElement(&overlay, &start)
+			{{end}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -857,22 +889,30 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		return nil, unmarshal, nil
 	}
 
-	data.Overrides = nonDefaultOverrides
+	split(nonDefaultOverrides)
 	marshal, err = gen.Func("MarshalXML").
 		Receiver("t *"+data.Type).
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Inner}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.Inner}}
 				{{- range .Overrides}}
 				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
+				{{- range .Plurals}}
+				{{.FieldName}} []{{.ToType}}`+"`{{.Tag}}`"+`
+				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.Inner}} = (*{{.Inner}})(t)
 			{{- range .Overrides}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Inner}}.{{.FieldName}})
+			{{end -}}
+			{{- range .Plurals}}
+			for _, v := range t.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
+			}
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
@@ -880,6 +920,18 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	return marshal, unmarshal, err
 }
 
+func overlayUses(name, typeName string, overrides []fieldOverride) bool {
+	if name == typeName {
+		return true
+	}
+	for _, v := range overrides {
+		if name == v.FieldName || name == v.ToType || name == v.FromType {
+			return true
+		}
+	}
+	return false
+}
+
 func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 	var result []spec
 	if t.List {
-- 
2.43.0


From cb5c86197078a9b3110f1bf43664cdd5798cc9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 26/64] fix: optional binary data is left out if there is none,
 and may be surrounded by white space

---
 xsdgen/builtin.go | 5 +++++
 xsdgen/config.go  | 4 ++--
 xsdgen/xsdgen.go  | 9 +++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index f148dbb..8f8dadf 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -29,6 +29,11 @@ func nonTrivialBuiltin(t xsd.Type) bool {
 	return false
 }
 
+// Returns true if t is an xsd.Builtin for binary data, a []byte in Go.
+func binaryBuiltin(t xsd.Type) bool {
+	return t == xsd.Base64Binary || t == xsd.HexBinary
+}
+
 // The 45 built-in types of the XSD schema
 var builtinTbl = []ast.Expr{
 	xsd.AnyType:       &ast.Ident{Name: "string"},
diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..1d9fbc8 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -689,7 +689,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = hex.DecodeString(string(text))
+					*b, err = hex.DecodeString(string(bytes.TrimSpace(text)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -715,7 +715,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = base64.StdEncoding.DecodeString(string(text))
+					*b, err = base64.StdEncoding.DecodeString(string(bytes.TrimSpace(text)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 947c810..2ed4645 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -562,6 +562,7 @@ type fieldOverride struct {
 	Type             xsd.Type
 	Tag              string
 	Plural           bool
+	OmitEmpty        bool // binary data, to leave out if there is none
 }
 
 type nameGenerator struct {
@@ -740,6 +741,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				ToType:       typeName,
 				Type:         el.Type,
 				Plural:       el.Plural,
+				OmitEmpty:    options != "" && binaryBuiltin(el.Type),
 			})
 		}
 	}
@@ -784,6 +786,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         attr.Type,
+				OmitEmpty:    options != "" && binaryBuiltin(attr.Type),
 			})
 		}
 	}
@@ -907,7 +910,13 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			}
 			layout.{{.Inner}} = (*{{.Inner}})(t)
 			{{- range .Overrides}}
+			{{if .OmitEmpty -}}
+			if len(layout.{{$.Inner}}.{{.FieldName}}) > 0 {
+				layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Inner}}.{{.FieldName}})
+			}
+			{{- else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Inner}}.{{.FieldName}})
+			{{- end}}
 			{{end -}}
 			{{- range .Plurals}}
 			for _, v := range t.{{.FieldName}} {
-- 
2.43.0


From db94540b3bba64cd8d2651ab301b064fd565ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 27/64] fix: name anonymous types the same way every time, and
 never like another type

---
 xsdgen/config.go | 47 ++++++++++++++++++++---------------------------
 xsdgen/xsdgen.go | 21 ++++++++++++++++++---
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 1d9fbc8..c9f338c 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -314,40 +314,33 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if !t.Anonymous {
+				return
 			}
-			base.Name = el.Name
-			base.Anonymous = false
+			t.Name = name
+			t.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if !t.Anonymous {
+				return
 			}
-			base.Name = el.Name
-			base.Anonymous = false
+			t.Name = name
+			t.Anonymous = false
+		default:
+			return
 		}
+		used[name] = struct{}{}
+	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
 	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 2ed4645..1b57ded 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -29,6 +29,20 @@ func rangeMap(m orderedStringMap, fn func(string)) {
 	}
 }
 
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	return names
+}
+
 type errorList []error
 
 func (l errorList) Error() string {
@@ -160,8 +174,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			for _, name := range sortedNames(prev) {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
@@ -372,7 +386,8 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
-	for _, t := range types {
+	for _, name := range sortedNames(types) {
+		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
 			continue
 		}
-- 
2.43.0


From 7fa4115720c2e3f137cd6bde965c5cbf7f6fdd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:59 +0000
Subject: [PATCH 28/64] fix: give types of different namespaces different Go
 names

---
 xsdgen/config.go | 33 ++++++++++++++++++++++++++++++++-
 xsdgen/xsdgen.go | 30 ++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index c9f338c..b7c1b7f 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -7,6 +7,7 @@ import (
 	"go/ast"
 	"go/format"
 	"regexp"
+	"strconv"
 	"strings"
 
 	"aqwari.net/xml/internal/gen"
@@ -42,6 +43,36 @@ type Config struct {
 	// if populated, only types that are true in this map
 	// will be selected.
 	allowTypes map[xml.Name]bool
+
+	// Go names that were given to types in the source that is being
+	// generated, and the reverse.
+	typeNames map[xml.Name]string
+	nameTypes map[string]xml.Name
+}
+
+func (cfg *Config) copyForSource() *Config {
+	result := *cfg
+	result.typeNames = make(map[xml.Name]string)
+	result.nameTypes = make(map[string]xml.Name)
+	return &result
+}
+
+// typeName returns the Go identifier for a type, which no other type has.
+func (cfg *Config) typeName(name xml.Name) string {
+	if id, ok := cfg.typeNames[name]; ok {
+		return id
+	}
+	public := cfg.public(name)
+	id := public
+	for i := 0; ; i++ {
+		if _, taken := cfg.nameTypes[id]; !taken {
+			break
+		}
+		id = public + strconv.Itoa(i)
+	}
+	cfg.typeNames[name] = id
+	cfg.nameTypes[id] = name
+	return id
 }
 
 type typeTransform func(xsd.Schema, xsd.Type) xsd.Type
@@ -440,7 +471,7 @@ func (cfg *Config) expr(t xsd.Type) (ast.Expr, error) {
 		}
 		return ex, nil
 	}
-	return ast.NewIdent(cfg.public(xsd.XMLName(t))), nil
+	return ast.NewIdent(cfg.typeName(xsd.XMLName(t))), nil
 }
 
 func (cfg *Config) exprString(t xsd.Type) string {
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 1b57ded..f9833c1 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -148,6 +148,10 @@ func (c *Code) NameOf(name xml.Name) string {
 func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	var errList errorList
 
+	// Types of different namespaces may have the same local name, their
+	// Go names are chosen for this source alone.
+	cfg = cfg.copyForSource()
+
 	code := &Code{
 		cfg:   cfg,
 		names: make(map[xml.Name]string),
@@ -186,10 +190,20 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
-	for _, primary := range primaries {
+	flattened := make([][]xsd.Type, len(primaries))
+	for i, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
-		types := cfg.flatten(primary.Types)
-		types = cfg.expandComplexTypes(types)
+		flattened[i] = cfg.expandComplexTypes(cfg.flatten(primary.Types))
+	}
+	// Declared types have the first choice of names.
+	for i, primary := range primaries {
+		for _, t := range flattened[i] {
+			if _, ok := t.(xsd.Builtin); !ok && primary.Types[xsd.XMLName(t)] == t {
+				cfg.typeName(xsd.XMLName(t))
+			}
+		}
+	}
+	for _, types := range flattened {
 		for _, t := range types {
 			specs, err := cfg.genTypeSpec(t)
 			if err != nil {
@@ -808,7 +822,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	expr := gen.Struct(fields...)
 	s := spec{
 		doc:         t.Doc,
-		name:        cfg.public(t.Name),
+		name:        cfg.typeName(t.Name),
 		expr:        expr,
 		xsdType:     t,
 		helperTypes: helperTypes,
@@ -837,7 +851,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Type      string
 		Inner     string
 	}
-	data.Type = cfg.public(t.Name)
+	data.Type = cfg.typeName(t.Name)
 
 	// The inner type must not hide anything that is used next to it.
 	data.Inner = "T"
@@ -968,7 +982,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 		// first.
 		result = append(result, spec{
 			doc:     t.Doc,
-			name:    cfg.public(t.Name),
+			name:    cfg.typeName(t.Name),
 			expr:    builtinExpr(xsd.String),
 			xsdType: t,
 		})
@@ -982,7 +996,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 
 	spec, err := cfg.addSpecMethods(spec{
 		doc:     t.Doc,
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    base,
 		xsdType: t,
 	})
@@ -1033,7 +1047,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
 	}
-- 
2.43.0


From 641396e27f8f9eb5dca578f545b7d826747e29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 29/64] fix: repeated elements with zero values were left out

---
 xsdgen/xsdgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f9833c1..74dc095 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -725,7 +725,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		if el.Nillable || el.Optional {
+		// In slices, it would leave out the items that have zero values.
+		if (el.Nillable || el.Optional) && !el.Plural {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
-- 
2.43.0


From d17bd2ec9aec5ec3133a2b88853e7a2c751c06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 30/64] fix: values of repeated unsignedByte elements were
 taken for text

---
 xsdgen/builtin.go |  3 ++-
 xsdgen/xsdgen.go  | 20 +-------------------
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 8f8dadf..1db2dd1 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -80,7 +80,8 @@ var builtinTbl = []ast.Expr{
 	xsd.String:             &ast.Ident{Name: "string"},
 	xsd.Time:               &ast.Ident{Name: "time.Time"},
 	xsd.Token:              &ast.Ident{Name: "string"},
-	xsd.UnsignedByte:       &ast.Ident{Name: "byte"},
+	// The encoding/xml package takes slices of bytes for text.
+	xsd.UnsignedByte:       &ast.Ident{Name: "uint"},
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 74dc095..d95b63a 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1195,7 +1195,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.UnsignedInt, xsd.UnsignedShort:
+	case xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedShort:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1249,24 +1249,6 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.UnsignedByte:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUint(uint64(v), 10)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
-					return err
-				} else {
-					*x = append(*x, byte(i))
-				}
-			}
-			return nil
-		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
-- 
2.43.0


From 0a858bf8a2dc5ff0241cf68d62a45976899db32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 31/64] fix: use pointers for elements that contain their own
 type

---
 xsdgen/xsdgen.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index d95b63a..c18f3a2 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -584,6 +584,26 @@ func (cfg *Config) genTypeSpec(t xsd.Type) (result []spec, err error) {
 	return append(result, s...), nil
 }
 
+// contains returns true if the Go type for t is a struct that holds a
+// value of the Go type for target, directly or in other structs.
+func (cfg *Config) contains(t xsd.Type, target *xsd.ComplexType, seen map[xsd.Type]bool) bool {
+	if t == target {
+		return true
+	}
+	c, ok := t.(*xsd.ComplexType)
+	if !ok || seen[t] {
+		return false
+	}
+	seen[t] = true
+	_, elements := cfg.filterFields(c)
+	for _, el := range elements {
+		if !el.Plural && cfg.contains(el.Type, target, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 type fieldOverride struct {
 	FieldName        string
 	FromType, ToType string
@@ -751,9 +771,12 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
+		} else if cfg.contains(el.Type, t, make(map[xsd.Type]bool)) {
+			base = &ast.StarExpr{X: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
-		if (el.Default != "" && !el.Plural) || nonTrivialBuiltin(el.Type) {
+		_, pointer := base.(*ast.StarExpr)
+		if (el.Default != "" && !el.Plural && !pointer) || nonTrivialBuiltin(el.Type) {
 			typeName := cfg.exprString(el.Type)
 			if nonTrivialBuiltin(el.Type) {
 				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
-- 
2.43.0


From eb54dd0cf17ad2ee6e89aa0db15794606213cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 32/64] fix: absent values of declared date types were written
 as the year 1

---
 xsdgen/xsdgen.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index c18f3a2..650bbda 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1058,6 +1058,23 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 		Body(`return %s(t).MarshalText()`, helper.name).
 		MustDecl())
 
+	// Zero values are left out, as the helper type does.
+	if !binaryBuiltin(t.Base) {
+		s.methods = append(s.methods, gen.Func("MarshalXML").
+			Receiver("t "+s.name).
+			Args("e *xml.Encoder", "start xml.StartElement").
+			Returns("error").
+			Body(`return %s(t).MarshalXML(e, start)`, helper.name).
+			MustDecl())
+
+		s.methods = append(s.methods, gen.Func("MarshalXMLAttr").
+			Receiver("t "+s.name).
+			Args("name xml.Name").
+			Returns("xml.Attr", "error").
+			Body(`return %s(t).MarshalXMLAttr(name)`, helper.name).
+			MustDecl())
+	}
+
 	return s, nil
 }
 
-- 
2.43.0


From cc2eab87a64657b22a6624c0a909c2bf7dd5736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:27 +0000
Subject: [PATCH 33/64] fix: attributes redeclared in another namespace became
 two fields of one name

---
 xsdgen/xsdgen.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 650bbda..f08aaf3 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -342,13 +342,13 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 			c.Name.Local, b.Name.Local)
 
 		shadowedElements := make(map[xml.Name]struct{})
-		shadowedAttributes := make(map[xml.Name]struct{})
+		shadowedAttributes := make(map[string]struct{})
 
 		for _, el := range c.Elements {
 			shadowedElements[el.Name] = struct{}{}
 		}
 		for _, attr := range c.Attributes {
-			shadowedAttributes[attr.Name] = struct{}{}
+			shadowedAttributes[attributeTag(attr)] = struct{}{}
 		}
 
 		elements := []xsd.Element{}
@@ -362,7 +362,7 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 		}
 		c.Elements = append(elements, c.Elements...)
 		for _, attr := range b.Attributes {
-			if _, ok := shadowedAttributes[attr.Name]; !ok {
+			if _, ok := shadowedAttributes[attributeTag(attr)]; !ok {
 				c.Attributes = append(c.Attributes, attr)
 			} else {
 				cfg.debugf("complexType %s: extended attribute %s is overrided",
@@ -803,18 +803,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if attr.Optional {
 			options = ",omitempty"
 		}
-		qualified := false
-		for _, attrAttr := range attr.Attr {
-			if attrAttr.Name.Space == "" && attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {
-				qualified = true
-			}
-		}
-		var tag string
-		if qualified {
-			tag = fmt.Sprintf(`xml:"%s %s,attr%s"`, attr.Name.Space, attr.Name.Local, options)
-		} else {
-			tag = fmt.Sprintf(`xml:"%s,attr%s"`, attr.Name.Local, options)
-		}
+		tag := fmt.Sprintf(`xml:"%s,attr%s"`, attributeTag(attr), options)
 		base, err := cfg.expr(attr.Type)
 		if err != nil {
 			return nil, fmt.Errorf("%s attribute %s: %v", t.Name.Local, attr.Name.Local, err)
@@ -1330,13 +1319,24 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	return []spec{s}, nil
 }
 
+// attributeTag returns the name of an attribute in documents, as it is
+// written in struct tags.
+func attributeTag(attr xsd.Attribute) string {
+	for _, a := range attr.Attr {
+		if a.Name.Space == "" && a.Name.Local == "form" && a.Value == "qualified" {
+			return attr.Name.Space + " " + attr.Name.Local
+		}
+	}
+	return attr.Name.Local
+}
+
 // O(n²) is OK since you'll never see more than ~40 attributes...
 // right?
 func mergeAttributes(src, base *xsd.ComplexType) []xsd.Attribute {
 Loop:
 	for _, baseattr := range base.Attributes {
 		for _, srcattr := range src.Attributes {
-			if srcattr.Name == baseattr.Name {
+			if attributeTag(srcattr) == attributeTag(baseattr) {
 				continue Loop
 			}
 		}
-- 
2.43.0


From 8b0309ac152e0dc8133e04dcd7f2e39ebecb7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:37 +0000
Subject: [PATCH 34/64] fix: names of XML that are not Go identifiers made code
 that does not compile

---
 xsdgen/config.go | 19 ++++++++++++++++++-
 xsdgen/xsdgen.go |  6 +++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index b7c1b7f..42dbe69 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -9,6 +9,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/xsd"
@@ -498,7 +500,22 @@ func (cfg *Config) public(name xml.Name) string {
 	if cfg.nameTransform != nil {
 		name = cfg.nameTransform(name)
 	}
-	return strings.Title(name.Local)
+	return exported(name.Local)
+}
+
+// exported turns a name, which may have any of the characters that XML
+// names have, into an exported Go identifier.
+func exported(name string) string {
+	id := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, strings.Title(name))
+	if r, _ := utf8.DecodeRuneInString(id); !unicode.IsUpper(r) {
+		id = "X" + id
+	}
+	return id
 }
 
 //
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f08aaf3..b1b9b35 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -659,7 +659,11 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var overrides []fieldOverride
 	var helperTypes []xml.Name
 
-	namegen := nameGenerator{cfg, make(map[string]struct{})}
+	// A struct cannot have fields and methods of the same name.
+	namegen := nameGenerator{cfg, map[string]struct{}{
+		"MarshalXML":   {},
+		"UnmarshalXML": {},
+	}}
 
 	if t.Mixed {
 		// For complex types with mixed content models, we must drill
-- 
2.43.0


From 0d27cb733044320c1d7e25ab78ce7104fbb25810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:27 +0000
Subject: [PATCH 35/64] fix: generating stored namespaces in the Config, and
 reverting AllowType left nothing allowed

---
 xsdgen/cli.go    | 17 +++++++++--------
 xsdgen/config.go | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..ad893dd 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -17,30 +17,31 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
+	if len(primaries) < len(namespaces) {
+		missing := make([]string, 0, len(namespaces)-len(primaries))
 		have := make(map[string]bool)
 		for _, schema := range primaries {
 			have[schema.TargetNS] = true
 		}
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if !have[ns] {
 				missing = append(missing, ns)
 			}
diff --git a/xsdgen/config.go b/xsdgen/config.go
index 42dbe69..6d19b92 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -232,14 +232,20 @@ func OnlyTypes(patterns ...string) Option {
 // dependent types, will be generated.
 func AllowType(name xml.Name) Option {
 	return func(cfg *Config) Option {
-		if cfg.allowTypes == nil {
-			cfg.allowTypes = make(map[xml.Name]bool)
-		}
-		cfg.allowTypes[name] = true
-		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
-			return AllowType(name)
+		types := make(map[xml.Name]bool, len(cfg.allowTypes)+1)
+		for t := range cfg.allowTypes {
+			types[t] = true
 		}
+		types[name] = true
+		return replaceAllowTypes(types)(cfg)
+	}
+}
+
+func replaceAllowTypes(types map[xml.Name]bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.allowTypes
+		cfg.allowTypes = types
+		return replaceAllowTypes(prev)
 	}
 }
 
-- 
2.43.0


From 89855e0f2ac68bd865770335ed18a134937dc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 36/64] fix: attributes declared after the arrayType of a SOAP
 array were dropped

---
 xsdgen/config.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 6d19b92..6b1eb8b 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -566,7 +566,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			itemType = v.Resolve(a.Value)
 			break
 		}
-		break
 	}
 	if itemType.Local == "" {
 		return c
@@ -588,7 +587,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From 866e9cdd0f112e40d2581ca46647d1f2ed71d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 37/64] fix: files that cannot be read were ignored and an
 empty source generated

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index ad893dd..c7d2614 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -56,6 +56,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 34f3a261b5e1ff17c1c826758096bd65c1c9c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 38/64] fix: repeated target namespaces were missing, or hid
 missing ones

---
 xsdgen/cli.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index c7d2614..c30fd06 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -35,17 +35,17 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 			}
 		}
 	}
-	if len(primaries) < len(namespaces) {
-		missing := make([]string, 0, len(namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	var missing []string
+	for _, ns := range namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From 05beba74594f3c168a7460edf461ac0bbc5d5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 39/64] fix: FollowImports did not end for circular imports,
 read files twice, and not relative to the importing file

---
 xsdgen/cli.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index c30fd06..8901eea 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"path/filepath"
 	"strings"
 
 	"aqwari.net/xml/internal/commandline"
@@ -66,9 +67,19 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+// readFiles reads each of the files once, after the files that it imports
+// or includes if cfg.followImports is set.
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	return cfg.readNewFiles(make(map[string]bool), files...)
+}
+
+func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if seen[filepath.Clean(filename)] {
+			continue
+		}
+		seen[filepath.Clean(filename)] = true
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -81,16 +92,21 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				if r.Location == "" {
+					continue
+				}
+				location := filepath.FromSlash(r.Location)
+				if !filepath.IsAbs(location) {
+					location = filepath.Join(filepath.Dir(filename), location)
+				}
+				importedFiles = append(importedFiles, location)
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readNewFiles(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-			for _, d := range referencedData {
-				// prepend imported refs (i.e. append before the referencing file)
-				data = append(data, d)
-			}
+			// prepend imported refs (i.e. append before the referencing file)
+			data = append(data, referencedData...)
 		}
 		data = append(data, b)
 	}
-- 
2.43.0


From c1557ddfc9e790fbfc03c0ba1abb68b5e4c3d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 40/64] fix: only the ports of the last service of a WSDL
 definition were read

---
 wsdl/wsdl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..92f16e6 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -207,9 +207,13 @@ func Parse(data []byte) (*Definition, error) {
 	def.TargetNS = root.Attr("", "targetNamespace")
 	def.Message = parseMessages(def.TargetNS, root)
 
+	var docs []string
 	for _, svc := range root.Search(wsdlNS, "service") {
-		def.Doc = documentation(svc)
-		def.Ports = parsePorts(def.TargetNS, root, svc)
+		if doc := documentation(svc); doc != "" {
+			docs = append(docs, doc)
+		}
+		def.Ports = append(def.Ports, parsePorts(def.TargetNS, root, svc)...)
 	}
+	def.Doc = strings.Join(docs, "\n")
 	return &def, nil
 }
-- 
2.43.0


From cdbd0c0c5895540e1c582b4eb5bb1cd309d1148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 41/64] fix: addresses of HTTP ports and actions of SOAP 1.2
 operations were not read

---
 wsdl/wsdl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 92f16e6..0bc2f4c 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -126,6 +126,9 @@ func parsePorts(targetNS string, root, svc *xmltree.Element) []Port {
 		for _, addr := range port.Search(soap12NS, "address") {
 			p.Address = addr.Attr("", "location")
 		}
+		for _, addr := range port.Search(httpNS, "address") {
+			p.Address = addr.Attr("", "location")
+		}
 		p.Method = "POST"
 		p.Method = parseMethod(targetNS, root, port)
 		p.Operations = parseOperations(targetNS, root, port)
@@ -188,6 +191,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From 647c84c90f7b1fd569763f008f1fc14e5967f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:27 +0000
Subject: [PATCH 42/64] fix: OnlyPorts had no effect

---
 wsdlgen/config.go  | 13 ++++++++++---
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..66a540d 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -69,15 +69,22 @@ var DefaultOptions = []Option{
 // the generated output.
 func OnlyPorts(ports ...string) Option {
 	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
+		return replacePortFilter(func(p wsdl.Port) bool {
 			for _, name := range ports {
 				if name == p.Name {
 					return true
 				}
 			}
 			return false
-		}
-		return OnlyPorts()
+		})(cfg)
+	}
+}
+
+func replacePortFilter(fn func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = fn
+		return replacePortFilter(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..6024069 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -142,6 +142,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 37a4f53a0fda2bef5b256682bad07a4bd6cf4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:27 +0000
Subject: [PATCH 43/64] fix: methods with structs for their arguments or
 results did not compile

---
 wsdlgen/wsdlgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 6024069..1be0939 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -231,14 +231,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -315,7 +315,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	}
 	if len(args.input) > p.maxArgs {
 		args.InputType = strings.Title(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
+		args.input = []string{"v " + args.InputType}
 		for i, v := range input.Parts {
 			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
 		}
-- 
2.43.0


From ca1b166db1812980986a42f97174d537858a9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:27 +0000
Subject: [PATCH 44/64] fix: generating stored a package name and comment in
 the Config

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 1be0939..2a234ac 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -91,12 +91,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -128,8 +122,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From f79a92c5f36c7f463e9933bbc6d77a3a9ac41049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 45/64] fix: names in WSDL definitions that clash, or are no Go
 identifiers, made code that does not compile

---
 wsdlgen/helper.go  |   6 +--
 wsdlgen/wsdlgen.go | 128 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 117 insertions(+), 17 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 93d36e1..1d81fcf 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -10,7 +10,7 @@ import "aqwari.net/xml/internal/gen"
 // code base grows, the weaker the argument against external
 // dependencies becomes.
 var helpers string = `
-	type Client struct {
+	type {{.}} struct {
 		HTTPClient *http.Client
 		ResponseHook func(*http.Response) *http.Response
 		RequestHook func(*http.Request) *http.Request
@@ -29,7 +29,7 @@ var helpers string = `
 		}` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Body"` + "`" + `
 	}
 
-	func (c *Client) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
+	func (c *{{.}}) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
 		var body io.Reader
 		var envelope soapEnvelope
 
@@ -83,7 +83,7 @@ var helpers string = `
 `
 
 func (p *printer) addHelpers() {
-	decls, err := gen.Declarations(helpers)
+	decls, err := gen.Snippets(p.client, helpers)
 	if err != nil {
 		// code does not change at runtime, so
 		// this should never happen
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2a234ac..854efa6 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -16,6 +16,8 @@ import (
 	"go/ast"
 	"io/ioutil"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -34,6 +36,56 @@ type printer struct {
 	code *xsdgen.Code
 	wsdl *wsdl.Definition
 	file *ast.File
+
+	// names that are declared in the file, and by the Client
+	decls, methods names
+
+	// name of the Client type
+	client string
+
+	// wrapper structs by the name of their message, and those that
+	// have been declared
+	wrappers map[xml.Name]string
+	declared names
+}
+
+// names is a set of Go identifiers that are in use.
+type names map[string]bool
+
+// unique returns id, or a similar identifier if id is in use.
+func (n names) unique(id string) string {
+	for n[id] {
+		id += "_"
+	}
+	n[id] = true
+	return id
+}
+
+// identifier removes characters that a Go identifier cannot have.
+func identifier(name string) string {
+	id := strings.Map(func(r rune) rune {
+		if notIdentifier(r) {
+			return -1
+		}
+		return r
+	}, name)
+	if r, _ := utf8.DecodeRuneInString(id); !unicode.IsLetter(r) {
+		id = "x" + id
+	}
+	return gen.Sanitize(id)
+}
+
+func notIdentifier(r rune) bool {
+	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+}
+
+// exported makes a Go identifier for something that is exported.
+func exported(name string) string {
+	id := identifier(strings.Title(name))
+	if r, _ := utf8.DecodeRuneInString(id); !unicode.IsUpper(r) {
+		id = "X" + id
+	}
+	return id
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -136,11 +188,29 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 		wsdl:   def,
 		file:   file,
 		code:   code,
+		decls:  make(names),
+		methods: names{
+			"HTTPClient":   true,
+			"ResponseHook": true,
+			"RequestHook":  true,
+		},
+		wrappers: make(map[xml.Name]string),
+		declared: make(names),
+	}
+	for _, d := range file.Decls {
+		if d, ok := d.(*ast.GenDecl); ok {
+			for _, s := range d.Specs {
+				if s, ok := s.(*ast.TypeSpec); ok {
+					p.decls[s.Name.Name] = true
+				}
+			}
+		}
 	}
 	return p.genAST()
 }
 
 func (p *printer) genAST() (*ast.File, error) {
+	p.client = p.decls.unique("Client")
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
 		if p.portFilter != nil && !p.portFilter(port) {
@@ -162,6 +232,21 @@ func (p *printer) port(port wsdl.Port) error {
 	return nil
 }
 
+// wrapper returns the name of the struct with the parts of a message.
+func (p *printer) wrapper(msg wsdl.Message) string {
+	if _, ok := p.wrappers[msg.Name]; !ok {
+		p.wrappers[msg.Name] = p.decls.unique(exported(msg.Name.Local))
+	}
+	return p.wrappers[msg.Name]
+}
+
+// declare tells if a wrapper has not been declared before.
+func (p *printer) declare(name string) bool {
+	done := p.declared[name]
+	p.declared[name] = true
+	return !done
+}
+
 func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	input, ok := p.wsdl.Message[op.Input]
 	if !ok {
@@ -176,7 +261,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		return err
 	}
 
-	if params.InputType != "" {
+	if params.InputType != "" && p.declare(params.InputType) {
 		decls, err := gen.Snippets(params, `
 			type {{.InputType}} struct {
 			{{ range .InputFields -}}
@@ -189,7 +274,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
-	if params.ReturnType != "" {
+	if params.ReturnType != "" && p.declare(params.ReturnType) {
 		decls, err := gen.Snippets(params, `
 			type {{.ReturnType}} struct {
 			{{ range .ReturnFields -}}
@@ -203,9 +288,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	args := append([]string{"ctx context.Context"}, params.input...)
-	fn := gen.Func(p.xsdgen.NameOf(op.Name)).
+	name := p.xsdgen.NameOf(op.Name)
+	if p.methods[name] {
+		// another port has this operation
+		name = exported(name + "_" + port.Name)
+	}
+	fn := gen.Func(p.methods.unique(name)).
 		Comment(op.Doc).
-		Receiver("c *Client").
+		Receiver("c *"+p.client).
 		Args(args...).
 		BodyTmpl(`
 			var input struct {
@@ -295,19 +385,28 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
+	// Arguments cannot hide what the body of the method uses.
+	vars := names{"c": true, "ctx": true, "input": true, "output": true, "err": true, "result": true}
+	fields := make(names)
+	for _, part := range append(append([]wsdl.Part{}, input.Parts...), output.Parts...) {
+		typ, err := p.getPartType(part)
+		if err != nil {
+			return args, err
+		}
+		for _, id := range strings.FieldsFunc(typ+" "+exposeType(typ), notIdentifier) {
+			vars[id] = true
+		}
+	}
 	for _, part := range input.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
 			return args, err
 		}
 		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
-		if vname == typ {
-			vname += "_"
-		}
+		vname := vars.unique(identifier(part.Name))
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       fields.unique(exported(part.Name)),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
@@ -315,13 +414,14 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
+		args.InputType = p.wrapper(input)
 		args.input = []string{"v " + args.InputType}
-		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
+		for i, v := range args.InputFields {
+			args.InputFields[i].InputArg = "v." + v.Name
 		}
 	}
 	args.OutputName = output.Name
+	fields = make(names)
 	for _, part := range output.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
@@ -330,13 +430,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
+			Name:    fields.unique(exported(part.Name)),
 			Type:    typ,
 			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
+		args.ReturnType = p.wrapper(output)
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
-- 
2.43.0


From a578597aba15ab54ab53a6231191f44bde6fc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 46/64] fix: no code was generated for one-way operations

---
 wsdlgen/wsdlgen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 854efa6..c9bb365 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -248,12 +248,13 @@ func (p *printer) declare(name string) bool {
 }
 
 func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
+	// operations do not need to have both messages
 	input, ok := p.wsdl.Message[op.Input]
-	if !ok {
+	if !ok && op.Input.Local != "" {
 		return fmt.Errorf("unknown input message type %s", op.Input.Local)
 	}
 	output, ok := p.wsdl.Message[op.Output]
-	if !ok {
+	if !ok && op.Output.Local != "" {
 		return fmt.Errorf("unknown output message type %s", op.Output.Local)
 	}
 	params, err := p.opArgs(port.Address, port.Method, op, input, output)
@@ -311,6 +312,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
+			{{ if not .OneWay -}}
 			var output struct {
 				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
 				Args struct {
@@ -319,6 +321,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 					{{ end -}}
 				}`+"`xml:\"{{.OutputName.Space}} {{.OutputName.Local}}\"`"+`
 			}
+			{{- end }}
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-- 
2.43.0


From aa586c31e981372166a6b3b4a00f8cf89c07ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 47/64] fix: generated clients sent messages in elements that
 no service expects, and did not decode responses

---
 wsdlgen/helper.go  | 38 +++++++++++++++++++--
 wsdlgen/wsdlgen.go | 82 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 96 insertions(+), 24 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 1d81fcf..6739c71 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -20,7 +20,7 @@ var helpers string = `
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
-			Message interface{}
+			Message interface{} ` + "`" + `xml:",any"` + "`" + `
 			Fault *struct {
 				String string ` + "`xml:\"faultstring,omitempty\"`" + `
 				Code string ` + "`xml:\"faultcode,omitempty\"`" + `
@@ -29,6 +29,33 @@ var helpers string = `
 		}` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Body"` + "`" + `
 	}
 
+	// soapBody is the content of the body of a message.
+	type soapBody []soapElement
+
+	type soapElement struct {
+		// If empty, value is decoded from any element.
+		name xml.Name
+		value interface{}
+	}
+
+	func (body soapBody) MarshalXML(enc *xml.Encoder, _ xml.StartElement) error {
+		for _, el := range body {
+			if err := enc.EncodeElement(el.value, xml.StartElement{Name: el.name}); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
+	func (body soapBody) UnmarshalXML(dec *xml.Decoder, start xml.StartElement) error {
+		for _, el := range body {
+			if el.name.Local == "" || el.name == start.Name {
+				return dec.DecodeElement(el.value, &start)
+			}
+		}
+		return dec.Skip()
+	}
+
 	func (c *{{.}}) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
 		var body io.Reader
 		var envelope soapEnvelope
@@ -49,7 +76,10 @@ var helpers string = `
 		if err != nil {
 			return err
 		}
-		req.Header.Set("SOAPAction", action)
+		if body != nil {
+			req.Header.Set("Content-Type", "text/xml; charset=utf-8")
+		}
+		req.Header.Set("SOAPAction", "\"" + action + "\"")
 		req = req.WithContext(ctx)
 		if c.RequestHook != nil {
 			req = c.RequestHook(req)
@@ -72,7 +102,9 @@ var helpers string = `
 
 		dec := xml.NewDecoder(rsp.Body)
 		envelope.Body.Message = out
-		if err := dec.Decode(&envelope); err != nil {
+		if err := dec.Decode(&envelope); err == io.EOF && out == nil {
+			return nil
+		} else if err != nil {
 			return err
 		}
 		if envelope.Body.Fault != nil {
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index c9bb365..5b2b674 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -111,6 +111,14 @@ type opArgs struct {
 	InputFields           []field
 	OutputFields          []field
 
+	// The parts of a message are either elements in the body, or
+	// the contents of an element that has the name of the operation,
+	// or that of a response to it.
+	InputElements, OutputElements bool
+
+	// No response is sent
+	OneWay bool
+
 	// If not "", inputs come in a wrapper struct
 	InputType string
 
@@ -300,39 +308,49 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		Args(args...).
 		BodyTmpl(`
 			var input struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
-				Args struct {
-					{{ range .InputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
-					{{ end -}}
-				}`+"`xml:\"{{.InputName.Space}} {{.InputName.Local}}\"`"+`
+				{{ range .InputFields -}}
+				{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
+				{{ end -}}
 			}
 			
 			{{- range .InputFields }}
-			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
+			input.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
 			{{ if not .OneWay -}}
 			var output struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
-				Args struct {
-					{{ range .OutputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
-					{{ end -}}
-				}`+"`xml:\"{{.OutputName.Space}} {{.OutputName.Local}}\"`"+`
+				{{ range .OutputFields -}}
+				{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Local}}"`+"`"+`
+				{{ end -}}
 			}
 			{{- end }}
 			
-			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
+			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, soapBody{
+				{{ if .InputElements -}}
+				{{ range .InputFields -}}
+				{xml.Name{Space: {{.XMLName.Space|printf "%q"}}, Local: {{.XMLName.Local|printf "%q"}}}, &input.{{.Name}}},
+				{{ end -}}
+				{{ else -}}
+				{xml.Name{Space: {{.MsgName.Space|printf "%q"}}, Local: {{.MsgName.Local|printf "%q"}}}, &input},
+				{{ end -}}
+			}, {{ if .OneWay }}nil{{ else }}&soapBody{
+				{{ if .OutputElements -}}
+				{{ range .OutputFields -}}
+				{xml.Name{Space: {{.XMLName.Space|printf "%q"}}, Local: {{.XMLName.Local|printf "%q"}}}, &output.{{.Name}}},
+				{{ end -}}
+				{{ else -}}
+				{xml.Name{}, &output},
+				{{ end -}}
+			}{{ end }})
 			
 			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
-			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
+			result.{{.Name}} = {{.Type}}(output.{{.InputArg}})
 			{{ end -}}
 			return result, err
 			{{- else if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
+			return {{ range .OutputFields }}{{.Type}}(output.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -381,6 +399,24 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	return "", fmt.Errorf("part %s has no element or type", part.Name)
 }
 
+// partName is the name of the element for a part of a message.
+func (p *printer) partName(part wsdl.Part) xml.Name {
+	if part.Type.Local == "" {
+		return part.Element
+	}
+	return xml.Name{p.wsdl.TargetNS, part.Name}
+}
+
+// elements tells if the parts of a message are elements.
+func elements(msg wsdl.Message) bool {
+	for _, part := range msg.Parts {
+		if part.Type.Local != "" {
+			return false
+		}
+	}
+	return len(msg.Parts) > 0
+}
+
 func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output wsdl.Message) (opArgs, error) {
 	var args opArgs
 	args.Address = addr
@@ -388,9 +424,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
+	args.InputElements = elements(input)
+	args.OutputElements = elements(output)
+	args.OneWay = op.Output.Local == ""
 	// Arguments cannot hide what the body of the method uses.
-	vars := names{"c": true, "ctx": true, "input": true, "output": true, "err": true, "result": true}
-	fields := make(names)
+	vars := names{"c": true, "ctx": true, "input": true, "output": true, "err": true, "result": true,
+		"xml": true, "soapBody": true, "nil": true}
+	fields := names{"XMLName": true}
 	for _, part := range append(append([]wsdl.Part{}, input.Parts...), output.Parts...) {
 		typ, err := p.getPartType(part)
 		if err != nil {
@@ -412,7 +452,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 			Name:       fields.unique(exported(part.Name)),
 			Type:       typ,
 			PublicType: exposeType(typ),
-			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
+			XMLName:    p.partName(part),
 			InputArg:   vname,
 		})
 	}
@@ -424,7 +464,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		}
 	}
 	args.OutputName = output.Name
-	fields = make(names)
+	fields = names{"XMLName": true}
 	for _, part := range output.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
@@ -435,7 +475,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		args.OutputFields = append(args.OutputFields, field{
 			Name:    fields.unique(exported(part.Name)),
 			Type:    typ,
-			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
+			XMLName: p.partName(part),
 		})
 	}
 	if len(args.output) > p.maxReturns {
-- 
2.43.0


From 18884a5c5165a0dbda23636c16942932f181ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:32 +0000
Subject: [PATCH 48/64] fix: generated clients encoded dates and binary data of
 messages without their XSD formats

---
 wsdlgen/wsdlgen.go | 38 +++++++++++++++++++++++++++++++-------
 xsdgen/xsdgen.go   | 21 +++++++++++++++++++++
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 5b2b674..68760dd 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -178,6 +178,12 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 }
 
 func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, error) {
+	// types of parameters may need helper types
+	for _, msg := range def.Message {
+		for _, part := range msg.Parts {
+			helperType(code, part)
+		}
+	}
 	file, err := code.GenAST()
 	if err != nil {
 		return nil, err
@@ -350,7 +356,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			{{ end -}}
 			return result, err
 			{{- else if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.{{.Name}}), {{ end }} err
+			return {{ range .OutputFields }}{{.PublicType}}(output.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -369,10 +375,10 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 // on the fly.
 func exposeType(typ string) string {
 	switch typ {
-	case "xsdDate", "xsdTime", "xsdDateTime", "gDay",
-		"gMonth", "gMonthDay", "gYear", "gYearMonth":
+	case "xsdDate", "xsdTime", "xsdDateTime", "xsdGDay",
+		"xsdGMonth", "xsdGMonthDay", "xsdGYear", "xsdGYearMonth":
 		return "time.Time"
-	case "hexBinary", "base64Binary":
+	case "xsdHexBinary", "xsdBase64Binary":
 		return "[]byte"
 	case "idrefs", "nmtokens", "notation", "entities":
 		return "[]string"
@@ -380,7 +386,24 @@ func exposeType(typ string) string {
 	return typ
 }
 
+// helperType returns the type that encodes a part with a builtin type that
+// the encoding/xml package cannot encode, if it is one.
+func helperType(code *xsdgen.Code, part wsdl.Part) (string, bool) {
+	name := part.Type
+	if doc, ok := code.DocType(part.Element.Space); ok && name.Local == "" {
+		for _, el := range doc.Elements {
+			if el.Name == part.Element {
+				name = xsd.XMLName(el.Type)
+			}
+		}
+	}
+	return code.HelperOf(name)
+}
+
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
+	if helper, ok := helperType(p.code, part); ok {
+		return helper, nil
+	}
 	if part.Type.Local != "" {
 		return p.code.NameOf(part.Type), nil
 	}
@@ -473,9 +496,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    fields.unique(exported(part.Name)),
-			Type:    typ,
-			XMLName: p.partName(part),
+			Name:       fields.unique(exported(part.Name)),
+			Type:       typ,
+			PublicType: outputType,
+			XMLName:    p.partName(part),
 		})
 	}
 	if len(args.output) > p.maxReturns {
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b1b9b35..6410c4f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -145,6 +145,27 @@ func (c *Code) NameOf(name xml.Name) string {
 	return "NOTFOUND" + name.Local
 }
 
+// HelperOf returns the name of the Go type that encodes and decodes values
+// of a builtin type, and makes it part of the generated code. It returns
+// false if the encoding/xml package does so without help.
+func (c *Code) HelperOf(builtin xml.Name) (string, bool) {
+	b, err := xsd.ParseBuiltin(builtin)
+	if err != nil || !nonTrivialBuiltin(b) {
+		return "", false
+	}
+	if h, ok := c.cfg.helperTypes[builtin]; ok {
+		for _, dep := range h.helperFuncs {
+			if fn, ok := c.cfg.helperFuncs[dep]; ok {
+				h.methods = append(h.methods, fn)
+				delete(c.cfg.helperFuncs, dep)
+			}
+		}
+		c.decls[h.name] = h
+		delete(c.cfg.helperTypes, builtin)
+	}
+	return "xsd" + b.String(), true
+}
+
 func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	var errList errorList
 
-- 
2.43.0


From 7329d78d9475c73b839437f8db1928fd6585a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:54 +0000
Subject: [PATCH 49/64] fix: documentation of generated methods ended up on the
 line of a preceding declaration

---
 internal/gen/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..5c84fa4 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -264,6 +264,9 @@ func (fn *Function) Decl() (*ast.FuncDecl, error) {
 				Text: "// " + line + "\n",
 			})
 		}
+		// without positions, the printer could put the comment
+		// on the last line of the previous declaration.
+		comments.List[0].Text = "\n" + comments.List[0].Text
 	}
 	fl := func(args ...string) (list *ast.FieldList) {
 		if len(args) == 0 || len(args[0]) == 0 || err != nil {
-- 
2.43.0


From 579710ff35b8084aee845b820ff0cf884c869158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:18 +0000
Subject: [PATCH 50/64] fix: SOAP array slices of dates and binary data had
 duplicate methods

---
 xsdgen/config.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 6b1eb8b..53106a4 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -795,6 +795,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	var baseType xml.Name
+	var helper *spec
 	// the parseSOAPArray pre-processor would have replaced the wildcard
 	// element in the array with the appropriate type.
 	complex, ok := s.xsdType.(*xsd.ComplexType)
@@ -805,6 +806,11 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	for _, el := range complex.Elements {
 		if el.Wildcard {
 			baseType = xsd.XMLName(el.Type)
+			if nonTrivialBuiltin(el.Type) {
+				if h, ok := cfg.helperTypes[baseType]; ok {
+					helper = &h
+				}
+			}
 			break
 		}
 	}
@@ -829,7 +835,16 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 		}
 	}
 
+	// Some types need a helper type to read and write their items.
 	itemType := gen.ExprString(slice.Elt)
+	codecType, item := itemType, "item"
+	items := "output.Items = []" + itemType + "(a)"
+	if helper != nil {
+		codecType, item = helper.name, itemType+"(item)"
+		items = "for _, item := range a {" +
+			"output.Items = append(output.Items, " + codecType + "(item))" +
+			"}"
+	}
 	unmarshalFn := gen.Func("UnmarshalXML").
 		Receiver("a *"+s.name).
 		Args("d *xml.Decoder", "start xml.StartElement").
@@ -842,7 +857,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				if tok, ok := tok.(xml.StartElement); ok {
 					var item %s
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -850,7 +865,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, itemType)
+		`, codecType, item)
 	} else {
 		unmarshalFn = unmarshalFn.Body(`
 			var tok xml.Token
@@ -864,7 +879,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 						continue
 					}
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -872,7 +887,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, xmltag.Space, xmltag.Local, itemType)
+		`, xmltag.Space, xmltag.Local, codecType, item)
 	}
 	unmarshal, err := unmarshalFn.Decl()
 	if err != nil {
@@ -892,21 +907,21 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
 				Items []%[1]s `+"`xml:\"%[2]s %[3]s\"`"+`
 			}
-			output.Items = []%[1]s(a)
+			%[6]s
 			start.Attr = append(start.Attr, xml.Attr {
 				Name: xml.Name{"", "xmlns:ns1"},
 				Value: %[4]q,
 			})
 			output.ArrayType = "ns1:%[5]s[]"
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local).Decl()
+		`, codecType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local, items).Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
 	}
 
 	s.expr = slice
-	s.methods = append(s.methods, marshal)
-	s.methods = append(s.methods, unmarshal)
+	// These replace the methods of the struct.
+	s.methods = []*ast.FuncDecl{marshal, unmarshal}
 	return s
 }
-- 
2.43.0


From 2e7ae4e6cfd47dd2da2b0e5b7231c1a4d958b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 51/64] fix: lists of booleans took every text but true and 1
 for false

---
 xsdgen/xsdgen.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 6410c4f..72ca268 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1316,12 +1316,11 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				switch string(v) {
-				case "1", "true":
-					*x = append(*x, true)
-				default:
-					*x = append(*x, false)
+			for _, v := range strings.Fields(string(text)) {
+				if b, err := strconv.ParseBool(v); err != nil {
+					return err
+				} else {
+					*x = append(*x, b)
 				}
 			}
 			return nil
-- 
2.43.0


From d63786c3cd555eccdd31c5584b46dc5b1ff48dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 52/64] fix: lists of decimals were written with exponents

---
 xsdgen/xsdgen.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 72ca268..bca8578 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1194,14 +1194,19 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return nil
 		`)
 	case xsd.Decimal, xsd.Double:
+		// There are no exponents in decimals.
+		format := "g"
+		if base == xsd.Decimal {
+			format = "f"
+		}
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				s := strconv.FormatFloat(v, 'g', -1, 64)
+				s := strconv.FormatFloat(v, '%s', -1, 64)
 				result = append(result, []byte(s))
 			}
 			return bytes.Join(result, []byte(" ")), nil
-		`)
+		`, format)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
 				if f, err := strconv.ParseFloat(v, 64); err != nil {
-- 
2.43.0


From 797d972c6d51ce44af958d26b3a077ba7d02d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:32 +0000
Subject: [PATCH 53/64] fix: Normalize overwrote documents behind the slice it
 was given

Appending the standard schema to the variadic argument writes into the
caller's backing array when that has spare capacity, so Parse(all[:1]...)
replaced all[1] with another document.
---
 xsd/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ac8d784..7f16e5b 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -72,7 +72,7 @@ func Imports(data []byte) ([]Ref, error) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0


From 85eae2b28aa796ee7d0c5e6fa2834ea84e6db609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 54/64] fix: types without a derivation were accepted

A complexType whose simpleContent or complexContent is empty, or that is
written within another complexType, and a simpleType without restriction,
list or union, came out of Parse with a nil Base, on which xsdgen and
wsdlgen panic.
---
 xsd/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7f16e5b..4ada293 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -766,6 +766,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
+	if t.Base == nil {
+		stop("complexType " + t.Name.Local + " has no restriction or extension")
+	}
 	t.Doc += string(doc)
 	return &t
 }
@@ -998,6 +1001,9 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			doc = doc.append(parseAnnotation(el))
 		}
 	})
+	if t.Base == nil {
+		stop("simpleType " + t.Name.Local + " has no restriction, list or union")
+	}
 	t.Doc = string(doc)
 	return &t
 }
-- 
2.43.0


From 3ca7560be466416b4005d93f2a4b61fd01c3bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:48 +0000
Subject: [PATCH 55/64] fix: every result of Parse had the same map of builtin
 types

xsdgen replaces types in the schema that it generates code for, so with
the XML Schema namespace among these, two generators running at the same
time wrote to one map.
---
 xsd/parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 4ada293..bf241c0 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -165,7 +165,12 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 		s.propagateMixedAttr()
 	}
-	result = append(result, builtinSchema)
+	// Callers may add to or replace the types that they are given.
+	builtin := Schema{TargetNS: builtinSchema.TargetNS, Types: make(map[xml.Name]Type)}
+	for name, t := range builtinSchema.Types {
+		builtin.Types[name] = t
+	}
+	result = append(result, builtin)
 	return result, nil
 }
 
-- 
2.43.0


From 9279d6d87d1769e39552f8d1cfaa641c4f3bb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:58 +0000
Subject: [PATCH 56/64] fix: unsignedShort was missing from the builtin schema

---
 xsd/standard-schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..2382e70 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1417,7 +1417,7 @@ var builtinSchema = Schema{
 
 func init() {
 	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
+	for i := AnyType; i <= UnsignedShort; i++ {
 		builtinSchema.Types[i.Name()] = i
 	}
 }
-- 
2.43.0


From cb8879e72df383bd78a597737e3440cf640a6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:11 +0000
Subject: [PATCH 57/64] fix: documentation that follows an appinfo element was
 left out

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From 4b6e79d90595b0e99e60e330136ba9f38df102e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:11 +0000
Subject: [PATCH 58/64] fix: elements in annotations were taken for parts of
 the schema

---
 xsd/parse.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index bf241c0..7a1a74b 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -22,6 +22,21 @@ type Ref struct {
 	Namespace, Location string
 }
 
+// parseDoc parses an XML document. What is in annotations is for people
+// and applications. It is no part of the schema, even if it looks like it.
+func parseDoc(data []byte) (*xmltree.Element, error) {
+	root, err := xmltree.Parse(data)
+	if err != nil {
+		return nil, err
+	}
+	for _, el := range root.SearchFunc(isElem(schemaNS, "annotation")) {
+		for i := range el.Children {
+			el.Children[i].Children = nil
+		}
+	}
+	return root, nil
+}
+
 // Imports reads an XML document containing one or more <schema>
 // elements and returns a list of canonical XML name spaces that
 // the schema imports or includes, along with a URL for the schema,
@@ -29,7 +44,7 @@ type Ref struct {
 func Imports(data []byte) ([]Ref, error) {
 	var result []Ref
 
-	root, err := xmltree.Parse(data)
+	root, err := parseDoc(data)
 	if err != nil {
 		return nil, err
 	}
@@ -76,7 +91,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-		root, err := xmltree.Parse(data)
+		root, err := parseDoc(data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8b73fea29a4b417bf698bd8379804859a488178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:29 +0000
Subject: [PATCH 59/64] fix: the documentation of schema was left out

---
 xsd/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7a1a74b..54b9f81 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -734,6 +734,14 @@ func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 	defer catchParseError(&err)
 	tns := root.Attr("", "targetNamespace")
 
+	var doc annotation
+	walk(root, func(el *xmltree.Element) {
+		if el.Name.Local == "annotation" {
+			doc = doc.append(parseAnnotation(el))
+		}
+	})
+	s.Doc = string(doc)
+
 	for _, el := range root.Search(schemaNS, "complexType") {
 		t := s.parseComplexType(el)
 		s.Types[t.Name] = t
-- 
2.43.0


From bc697916233f113bfb8f2acf34f8fbc711f74c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:39 +0000
Subject: [PATCH 60/64] fix: documentation of types and their content ran
 together

---
 xsd/parse.go | 2 +-
 xsd/xsd.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 54b9f81..ac4b09e 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -797,7 +797,7 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	if t.Base == nil {
 		stop("complexType " + t.Name.Local + " has no restriction or extension")
 	}
-	t.Doc += string(doc)
+	t.Doc = string(annotation(t.Doc).append(doc))
 	return &t
 }
 
diff --git a/xsd/xsd.go b/xsd/xsd.go
index fc09481..88a207a 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -242,7 +242,7 @@ type Restriction struct {
 type annotation string
 
 func (a annotation) append(extra annotation) annotation {
-	if a != "" {
+	if a != "" && extra != "" {
 		a += "\n\n"
 	}
 	return a + extra
-- 
2.43.0


From 7a2c8ceb1e5a950bedcb95231bd362aec27bd541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 61/64] fix: generated list types had no documentation

---
 xsdgen/xsdgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index bca8578..5f2a5ad 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1102,6 +1102,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
+		doc:     t.Doc,
 		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
-- 
2.43.0


From 6467dc39ff1f4db95a7df40f03c246f7f76815b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:08 +0000
Subject: [PATCH 62/64] fix: the pattern of a restriction lacked alternatives
 that cannot be compiled

---
 xsd/parse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ac4b09e..43f455f 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1046,6 +1046,7 @@ func parseAnnotation(el *xmltree.Element) (doc annotation) {
 func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 	var r Restriction
 	var doc annotation
+	var patterns []string
 	// Most of the restrictions on a simpleType are suited for
 	// validating input. This package is not a validator; we assume
 	// that the server sends valid data, and that it will tell us if
@@ -1070,10 +1071,8 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 			// we don't want to stop a parse because of this. Instead, if we
 			// cannot compile a regex, we'll add the error msg to the annotation
 			// for this restriction.
-			pat := el.Attr("", "value")
-			if r.Pattern != nil {
-				pat = r.Pattern.String() + "|" + pat
-			}
+			patterns = append(patterns, el.Attr("", "value"))
+			pat := strings.Join(patterns, "|")
 			reg, err := parsePattern(pat)
 			if err != nil {
 				msg := fmt.Sprintf("This type must conform to the pattern %q, but the XSD library could not parse the regular expression. (%v)", pat, err)
-- 
2.43.0


From c0c8f38155c624f39cc16dc23639bcf8a5520669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:27 +0000
Subject: [PATCH 63/64] fix: syntax trees shared the expressions of builtin
 types

---
 xsdgen/builtin.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1db2dd1..60b0239 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -6,11 +6,23 @@ import (
 	"aqwari.net/xml/xsd"
 )
 
+// builtinExpr returns a new expression, which becomes part of a syntax
+// tree that its owner may change.
 func builtinExpr(b xsd.Builtin) ast.Expr {
 	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
-	return builtinTbl[b]
+	return copyExpr(builtinTbl[b])
+}
+
+func copyExpr(expr ast.Expr) ast.Expr {
+	switch expr := expr.(type) {
+	case *ast.Ident:
+		return ast.NewIdent(expr.Name)
+	case *ast.ArrayType:
+		return &ast.ArrayType{Elt: copyExpr(expr.Elt)}
+	}
+	return expr
 }
 
 // Returns true if t is an xsd.Builtin that is not trivially mapped to a
-- 
2.43.0


From 538bb25dd3098ff2d0fad6b3ef7f83c2af88eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 64/64] fix: xsdparse -ns printed schema of other namespaces

---
 cmd/xsdparse/xsdparse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/xsdparse/xsdparse.go b/cmd/xsdparse/xsdparse.go
index 557adfa..3559dcb 100644
--- a/cmd/xsdparse/xsdparse.go
+++ b/cmd/xsdparse/xsdparse.go
@@ -12,7 +12,7 @@ import (
 )
 
 var (
-	TargetNS = flag.String("ns", "", "Namespace of schea to print")
+	TargetNS = flag.String("ns", "", "Namespace of schema to print")
 )
 
 func main() {
@@ -51,8 +51,10 @@ func main() {
 	selected := make([]*xmltree.Element, 0, len(norm))
 	for _, root := range norm {
 		tns := root.Attr("", "targetNamespace")
-		if *TargetNS != "" && *TargetNS == tns {
-			selected = append(selected, root)
+		if *TargetNS != "" {
+			if *TargetNS == tns {
+				selected = append(selected, root)
+			}
 		} else if _, ok := filterSchema[tns]; !ok {
 			selected = append(selected, root)
 		}
-- 
2.43.0

