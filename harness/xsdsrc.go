package main

// Abstract schema (the worlds of spec/Xsd.tla) and their XML text.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"

	"aqwari.net/xml/xsd"
)

const xsNS = "http://www.w3.org/2001/XMLSchema"

type xTypeRef struct {
	T  string  `json:"t"`
	NS string  `json:"ns"`
	N  string  `json:"n"`
	D  []xDecl `json:"d"`
}

// An item of an annotation
type xNote struct {
	F   string `json:"f"`
	V   string `json:"v"`
	New bool   `json:"new"`
}

type xTok struct {
	Doc []xNote  `json:"doc"`
	P   string   `json:"p"`
	N   string   `json:"n"`
	NS  string   `json:"ns"`
	Ty  xTypeRef `json:"ty"`
	Min int      `json:"min"`
	Max int      `json:"max"`
	Nil bool     `json:"nil"`
	Def string   `json:"def"`
	Abs bool     `json:"abs"`
}

type xAt struct {
	Doc []xNote  `json:"doc"`
	A   string   `json:"a"`
	N   string   `json:"n"`
	NS  string   `json:"ns"`
	Ty  xTypeRef `json:"ty"`
	Use string   `json:"use"`
	Def string   `json:"def"`
}

type xFac struct {
	F string `json:"f"`
	V string `json:"v"`
}

type xDecl struct {
	Doc   []xNote    `json:"doc"`
	Cdoc  []xNote    `json:"cdoc"` // of its content
	Rdoc  []xNote    `json:"rdoc"` // of its restriction
	K     string     `json:"k"`
	N     string     `json:"n"`
	Abs   bool       `json:"abs"`
	Mix   string     `json:"mix"`
	Form  string     `json:"form"`
	Base  xTypeRef   `json:"base"`
	Ccmix string     `json:"ccmix"`
	Toks  []xTok     `json:"toks"`
	Ats   []xAt      `json:"ats"`
	Fac   []xFac     `json:"fac"`
	Mem   []xTypeRef `json:"mem"`
	Ty    xTypeRef   `json:"ty"`
	Def   string     `json:"def"`
	Nil   bool       `json:"nil"`
}

type xSchema struct {
	Doc   []xNote `json:"doc"`
	NS    string  `json:"ns"`
	Style string  `json:"style"`
	Decls []xDecl `json:"decls"`
}

// What the specification says must be reported.
type vType struct {
	T  string          `json:"t"`
	NS string          `json:"ns"`
	N  string          `json:"n"`
	D  json.RawMessage `json:"d"`
}

type vEl struct {
	Doc  []string `json:"doc"`
	N    string   `json:"n"`
	NS   string   `json:"ns"`
	Ty   vType    `json:"ty"`
	Opt  bool     `json:"opt"`
	Plu  bool     `json:"plu"`
	Nil  bool     `json:"nil"`
	Def  string   `json:"def"`
	Abs  bool     `json:"abs"`
	Wild bool     `json:"wild"`
}

type vAt struct {
	Doc []string `json:"doc"`
	N   string   `json:"n"`
	NS  string   `json:"ns"`
	Ty  vType    `json:"ty"`
	Opt bool     `json:"opt"`
	Def string   `json:"def"`
}

type vFac struct {
	Enum    []string `json:"enum"`
	Pattern []string `json:"pattern"`
	Len     string   `json:"len"`
	Minlen  string   `json:"minlen"`
	Maxlen  string   `json:"maxlen"`
	Total   string   `json:"total"`
	Frac    string   `json:"frac"`
	Min     string   `json:"min"`
	Max     string   `json:"max"`
}

type vView struct {
	Doc   []string `json:"doc"`
	Cdoc  []string `json:"cdoc"`
	Rdoc  []string `json:"rdoc"`
	K     string   `json:"k"`
	Abs   bool     `json:"abs"`
	Mixed bool     `json:"mixed"`
	Ext   bool     `json:"ext"`
	Base  vType    `json:"base"`
	Els   []vEl    `json:"els"`
	Ats   []vAt    `json:"ats"`
	Chain []vType  `json:"chain"`
	List  bool     `json:"list"`
	Mem   []vType  `json:"mem"`
	Fac   vFac     `json:"fac"`
}

type vReport struct {
	Doc   []string `json:"doc"`
	NS    string   `json:"ns"`
	Anons int      `json:"anons"`
	Types []struct {
		N string `json:"n"`
		V vView  `json:"v"`
	} `json:"types"`
	Self []vEl `json:"self"`
}

type xsdVector struct {
	K       string    `json:"k"`
	W       []xSchema `json:"w"`
	Wrap    bool      `json:"wrap"`
	Reports []vReport `json:"reports"`
	Error   bool      `json:"error"`
	Plain   bool      `json:"plain"` // only acceptance is specified
}

// atoms of facet values and defaults
func facetValue(f, v string) string {
	if f == "pattern" && v == "bad" {
		return `\i[\c-[:]]*`
	}
	return v
}

// A schemaWriter writes one schema in one of the namespace styles:
//
//	p  xs: and a prefix for every namespace, declared at the top
//	d  XML Schema is the default namespace
//	t  the target namespace is the default namespace
//	n  no prefix for any namespace but XML Schema; prefixes are declared
//	   where they are used
//	c  the prefixes of the other styles, exchanged
//	l  prefixes are declared at the top and declared anew, with another
//	   meaning, on the declarations
type schemaWriter struct {
	bytes.Buffer
	s      xSchema
	xs     string // prefix of XML Schema, with colon
	rng    *rand.Rand
	local  int
	inDecl bool
	notes  bool
}

var styleNS = []string{"urn:a", "urn:b", "urn:c"}

func (w *schemaWriter) top() string {
	var b strings.Builder
	decl := func(p, ns string) {
		if p == "" {
			fmt.Fprintf(&b, ` xmlns="%s"`, ns)
		} else {
			fmt.Fprintf(&b, ` xmlns:%s="%s"`, p, ns)
		}
	}
	w.xs = "xs:"
	switch w.s.Style {
	case "d":
		w.xs = ""
		decl("", xsNS)
	case "t":
		w.xs = "xsd:"
		decl("xsd", xsNS)
		decl("", w.s.NS)
	default:
		decl("xs", xsNS)
	}
	if w.s.Style != "n" {
		for _, ns := range styleNS {
			if p := w.prefix(ns, false); p != "" {
				decl(p, ns)
			}
		}
	}
	return b.String()
}

func (w *schemaWriter) prefix(ns string, inDecl bool) string {
	i := 0
	for k, v := range styleNS {
		if v == ns {
			i = k
		}
	}
	switch w.s.Style {
	case "t":
		if ns == w.s.NS {
			return ""
		}
	case "c":
		i = (i + 1) % len(styleNS)
	case "l":
		if inDecl {
			i = (i + 2) % len(styleNS)
		}
	}
	return string(rune('a' + i))
}

// qname returns a QName and the declaration it needs.
func (w *schemaWriter) qname(ns, n string) (string, string) {
	if ns == xsNS {
		return w.xs + n, ""
	}
	if w.s.Style == "n" {
		w.local++
		p := fmt.Sprintf("z%d", w.local%3)
		return p + ":" + n, fmt.Sprintf(` xmlns:%s="%s"`, p, ns)
	}
	p := w.prefix(ns, w.inDecl)
	if p != "" {
		p += ":"
	}
	return p + n, ""
}

func (w *schemaWriter) typeName(t xTypeRef) (string, string) {
	if t.T == "b" {
		return w.qname(xsNS, t.N)
	}
	return w.qname(t.NS, t.N)
}

func attr(name, value string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(value))
	return fmt.Sprintf(` %s="%s"`, name, b.String())
}

func occurs(min, max int) string {
	s := ""
	if min >= 0 {
		s += attr("minOccurs", fmt.Sprint(min))
	}
	if max == 99 {
		s += attr("maxOccurs", "unbounded")
	} else if max >= 0 {
		s += attr("maxOccurs", fmt.Sprint(max))
	}
	return s
}

// note writes an annotation now and then
func (w *schemaWriter) note() {
	if w.notes && w.rng.Intn(4) == 0 {
		fmt.Fprintf(w, `<%sannotation><%sdocumentation>see <b xmlns="urn:doc" ref="none" name="x">this</b></%sdocumentation></%sannotation>`,
			w.xs, w.xs, w.xs, w.xs)
	}
}

// noteGroups divides items into annotations.
func noteGroups(items []xNote) (groups [][]xNote) {
	for i, n := range items {
		if i == 0 || n.New {
			groups = append(groups, nil)
		}
		groups[len(groups)-1] = append(groups[len(groups)-1], n)
	}
	return groups
}

// annotations writes the annotations that a declaration has.
func (w *schemaWriter) annotations(items []xNote) {
	for _, g := range noteGroups(items) {
		w.annotation(g)
	}
}

func (w *schemaWriter) annotation(items []xNote) {
	xsdMarkup := fmt.Sprintf(`<%[1]selement name="zz" type="%[1]sint"/><%[1]sany/><%[1]sattribute name="zy" type="zw:nope" xmlns:zw="urn:a"/><%[1]scomplexType><%[1]schoice/></%[1]scomplexType>`+
		`<%[1]ssimpleType name="C1"><%[1]slist itemType="%[1]sint"/></%[1]ssimpleType><%[1]sgroup ref="zw:nope" xmlns:zw="urn:a"/><%[1]sdocumentation>inner</%[1]sdocumentation>`, w.xs)
	w.open("annotation", "")
	for _, n := range items {
		sp := []string{"", "\n   ", " "}[w.rng.Intn(3)]
		doc := func(text string) {
			a := []string{"", ` xml:lang="en"`, ` source="urn:x"`}[w.rng.Intn(3)]
			fmt.Fprintf(w, "<%sdocumentation%s>%s%s%s</%sdocumentation>%s", w.xs, a, sp, text, sp, w.xs, sp)
		}
		app := func(text string) {
			fmt.Fprintf(w, "<%sappinfo>%s%s</%sappinfo>%s", w.xs, text, sp, w.xs, sp)
		}
		switch n.F {
		case "text":
			doc(n.V)
		case "two":
			doc(n.V + " first\n      " + n.V + " second")
		case "cdata":
			doc("<![CDATA[" + n.V + " <b> & c]]>")
		case "escaped":
			doc(n.V + " &lt;b&gt; &#38; c")
		case "markup":
			doc(n.V + `<b xmlns="urn:doc" ref="none" name="x" type="y"/>`)
		case "xsd":
			doc(n.V + xsdMarkup)
		case "app":
			app("not documentation")
		case "appxsd":
			app(xsdMarkup)
		case "empty":
			doc("")
		default:
			panic("note " + n.F)
		}
	}
	w.close("annotation")
}

func (w *schemaWriter) open(name, attrs string)  { fmt.Fprintf(w, "<%s%s%s>", w.xs, name, attrs) }
func (w *schemaWriter) close(name string)        { fmt.Fprintf(w, "</%s%s>\n", w.xs, name) }
func (w *schemaWriter) empty(name, attrs string) { fmt.Fprintf(w, "<%s%s%s/>\n", w.xs, name, attrs) }

func (w *schemaWriter) schema() {
	inherited := w.top()
	w.open("schema", inherited+attr("targetNamespace", w.s.NS)+attr("elementFormDefault", "qualified"))
	w.WriteString("\n")
	groups := noteGroups(w.s.Doc)
	for _, d := range w.s.Decls {
		for len(groups) > 0 && w.rng.Intn(3) == 0 {
			w.annotation(groups[0])
			groups = groups[1:]
		}
		w.decl(d)
	}
	for _, g := range groups {
		w.annotation(g)
	}
	w.close("schema")
}

func (w *schemaWriter) decl(d xDecl) {
	extra := ""
	if w.s.Style == "l" {
		w.inDecl = true
		for _, ns := range styleNS {
			extra += fmt.Sprintf(` xmlns:%s="%s"`, w.prefix(ns, true), ns)
		}
	}
	defer func() { w.inDecl = false }()
	switch d.K {
	case "ct", "st":
		w.typeDecl(d, extra)
	case "el":
		w.element(xTok{Doc: d.Doc, N: d.N, Ty: d.Ty, Def: d.Def, Nil: d.Nil, Min: -1, Max: -1}, extra)
	case "at":
		w.attribute(xAt{Doc: d.Doc, A: "at", N: d.N, Ty: d.Ty, Def: d.Def}, extra)
	case "gr":
		w.open("group", extra+attr("name", d.N))
		w.annotations(d.Doc)
		w.note()
		w.content(d.Toks)
		w.close("group")
	case "ag":
		w.open("attributeGroup", extra+attr("name", d.N))
		w.annotations(d.Doc)
		w.note()
		w.attributes(d.Ats)
		w.close("attributeGroup")
	default:
		panic("declaration " + d.K)
	}
}

func (w *schemaWriter) typeDecl(d xDecl, extra string) {
	s := extra
	if d.N != "" {
		s += attr("name", d.N)
	}
	if d.K == "st" {
		w.open("simpleType", s)
		w.annotations(d.Doc)
		w.note()
		switch d.Form {
		case "restr":
			w.derived("restriction", "base", d.Base, d.Rdoc, func() {
				for _, f := range d.Fac {
					w.empty(f.F, attr("value", facetValue(f.F, f.V)))
				}
			})
		case "list":
			w.derived("list", "itemType", d.Base, nil, func() {})
		case "union":
			var names []string
			decls := ""
			seen := map[string]bool{}
			for _, m := range d.Mem {
				if m.T != "a" {
					n, x := w.typeName(m)
					if x != "" && seen[x] {
						x = ""
					}
					seen[x] = true
					names = append(names, n)
					decls += x
				}
			}
			if len(names) > 0 {
				decls += attr("memberTypes", strings.Join(names, " "))
			}
			w.open("union", decls)
			for _, m := range d.Mem {
				if m.T == "a" {
					w.typeDecl(m.D[0], "")
				}
			}
			w.close("union")
		}
		w.close("simpleType")
		return
	}
	if d.Abs {
		s += attr("abstract", "true")
	}
	if d.Mix != "" {
		s += attr("mixed", d.Mix)
	}
	w.open("complexType", s)
	w.annotations(d.Doc)
	w.note()
	body := func() {
		w.content(d.Toks)
		w.attributes(d.Ats)
	}
	wrap := map[string]string{"cext": "complexContent", "crestr": "complexContent", "sext": "simpleContent", "srestr": "simpleContent"}[d.Form]
	if wrap == "" {
		body()
	} else {
		m := ""
		if d.Ccmix != "" {
			m = attr("mixed", d.Ccmix)
		}
		w.open(wrap, m)
		w.annotations(d.Cdoc)
		kind := "restriction"
		if strings.HasSuffix(d.Form, "ext") {
			kind = "extension"
		}
		w.derived(kind, "base", d.Base, nil, body)
		w.close(wrap)
	}
	w.close("complexType")
}

func (w *schemaWriter) derived(name, at string, base xTypeRef, doc []xNote, body func()) {
	if base.T == "a" {
		w.open(name, "")
		w.annotations(doc)
		w.typeDecl(base.D[0], "")
	} else {
		q, x := w.typeName(base)
		w.open(name, x+attr(at, q))
		w.annotations(doc)
	}
	body()
	w.close(name)
}

func (w *schemaWriter) content(toks []xTok) {
	var stack []string
	for _, t := range toks {
		switch t.P {
		case "sequence", "choice", "all":
			w.open(t.P, occurs(t.Min, t.Max))
			w.note()
			stack = append(stack, t.P)
		case "close":
			w.close(stack[len(stack)-1])
			stack = stack[:len(stack)-1]
		case "el":
			w.element(t, "")
		case "ref":
			q, x := w.qname(t.NS, t.N)
			w.empty("element", x+attr("ref", q)+occurs(t.Min, t.Max))
		case "gref":
			q, x := w.qname(t.NS, t.N)
			w.empty("group", x+attr("ref", q)+occurs(t.Min, t.Max))
		case "any":
			w.empty("any", occurs(t.Min, t.Max)+attr("processContents", "lax"))
		default:
			panic("token " + t.P)
		}
	}
}

func (w *schemaWriter) element(t xTok, extra string) {
	s := attr("name", t.N)
	if t.Ty.T == "b" || t.Ty.T == "n" {
		q, x := w.typeName(t.Ty)
		s = x + s + attr("type", q)
	}
	if t.Nil {
		s += attr("nillable", "true")
	}
	if t.Abs {
		s += attr("abstract", "true")
	}
	if t.Def != "" {
		s += attr("default", t.Def)
	}
	s += occurs(t.Min, t.Max)
	w.open("element", extra+s)
	w.annotations(t.Doc)
	w.note()
	if t.Ty.T == "a" {
		w.typeDecl(t.Ty.D[0], "")
	}
	w.close("element")
}

func (w *schemaWriter) attribute(a xAt, extra string) {
	s := attr("name", a.N)
	if a.Ty.T == "b" || a.Ty.T == "n" {
		q, x := w.typeName(a.Ty)
		s = x + s + attr("type", q)
	}
	if a.Use != "" {
		s += attr("use", a.Use)
	}
	if a.Def != "" {
		s += attr("default", a.Def)
	}
	w.open("attribute", extra+s)
	w.annotations(a.Doc)
	w.note()
	if a.Ty.T == "a" {
		w.typeDecl(a.Ty.D[0], "")
	}
	w.close("attribute")
}

func (w *schemaWriter) attributes(ats []xAt) {
	for _, a := range ats {
		switch a.A {
		case "at":
			w.attribute(a, "")
		case "ref":
			q, x := w.qname(a.NS, a.N)
			s := x + attr("ref", q)
			if a.Use != "" {
				s += attr("use", a.Use)
			}
			w.empty("attribute", s)
		case "agref":
			q, x := w.qname(a.NS, a.N)
			w.empty("attributeGroup", x+attr("ref", q))
		default:
			panic("attribute " + a.A)
		}
	}
}

// renderWorld writes a world as the documents to pass to Parse.
func renderWorld(ws []xSchema, wrap bool, rng *rand.Rand) [][]byte {
	var docs [][]byte
	notes := rng.Intn(2) == 0
	for _, s := range ws {
		if hasNotes(s) {
			notes = false
		}
	}
	for _, s := range ws {
		w := &schemaWriter{s: s, rng: rng, notes: notes}
		w.schema()
		docs = append(docs, w.Bytes())
	}
	if !wrap {
		return docs
	}
	var all bytes.Buffer
	all.WriteString(`<w:types xmlns:w="urn:wrap" xmlns:a="urn:zz" xmlns:z0="urn:zz">`)
	for _, d := range docs {
		all.Write(d)
	}
	all.WriteString(`</w:types>`)
	return [][]byte{all.Bytes()}
}

func builtinName(n string) xml.Name { return xml.Name{Space: xsNS, Local: n} }

func typeString(t xsd.Type) string {
	if t == nil {
		return "nil"
	}
	n := xsd.XMLName(t)
	return fmt.Sprintf("%T{%s}%s", t, n.Space, n.Local)
}

func joinDocs(docs [][]byte) string {
	return string(bytes.Join(docs, []byte("\n--\n")))
}

func hasNotes(s xSchema) bool {
	found := len(s.Doc) > 0
	var decl func(d xDecl)
	typ := func(t xTypeRef) {
		for _, d := range t.D {
			decl(d)
		}
	}
	decl = func(d xDecl) {
		found = found || len(d.Doc)+len(d.Cdoc)+len(d.Rdoc) > 0
		typ(d.Ty)
		for _, t := range d.Toks {
			found = found || len(t.Doc) > 0
			typ(t.Ty)
		}
		for _, a := range d.Ats {
			found = found || len(a.Doc) > 0
			typ(a.Ty)
		}
	}
	for _, d := range s.Decls {
		decl(d)
	}
	return found
}

// stripNotes removes all annotations.
func stripNotes(s *xSchema) {
	s.Doc = nil
	var decl func(d *xDecl)
	typ := func(t *xTypeRef) {
		for i := range t.D {
			decl(&t.D[i])
		}
	}
	decl = func(d *xDecl) {
		d.Doc, d.Cdoc, d.Rdoc = nil, nil, nil
		typ(&d.Base)
		typ(&d.Ty)
		for i := range d.Toks {
			d.Toks[i].Doc = nil
			typ(&d.Toks[i].Ty)
		}
		for i := range d.Ats {
			d.Ats[i].Doc = nil
			typ(&d.Ats[i].Ty)
		}
		for i := range d.Mem {
			typ(&d.Mem[i])
		}
	}
	for i := range s.Decls {
		decl(&s.Decls[i])
	}
}
