package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"

	"aqwari.net/xml/xmltree"
)

// The abstract documents of XmlTree.tla and their concrete syntax.

type Decl struct {
	Pfx string `json:"pfx"`
	URI string `json:"uri"`
}
type SAttr struct {
	Pfx   string `json:"pfx"`
	Local string `json:"local"`
	Val   string `json:"val"`
}
type Src struct {
	Pfx   string  `json:"pfx"`
	Local string  `json:"local"`
	Decls []Decl  `json:"decls"`
	Attrs []SAttr `json:"attrs"`
	Text  string  `json:"text"`
	Pad   string  `json:"pad"`
	Kids  []Src   `json:"kids"`
}
type TAttr struct {
	NS    string `json:"ns"`
	Local string `json:"local"`
	Val   string `json:"val"`
}

// A Tree is what parsing must yield; also what is observed.
type Tree struct {
	NS    string  `json:"ns"`
	Local string  `json:"local"`
	Attrs []TAttr `json:"attrs"`
	Text  string  `json:"text"`
	Pad   string  `json:"pad"`
	Kids  []Tree  `json:"kids"`
}

// Atoms for the raw content of a leaf, what they stand for, and the
// character data they denote.
var textAtoms = map[string][2]string{
	"":     {"", ""},
	"t":    {"hello", "hello"},
	"amp":  {"a&amp;b&lt;c&gt;d&quot;", `a&b<c>d"`},
	"cd":   {"<![CDATA[<raw> & ]] ]]>x", "<raw> & ]] x"},
	"u":    {"é漢字😀ß", "é漢字😀ß"},
	"cm":   {"x<!-- <no/> -->y", "xy"},
	"pi":   {"x<?pi da>ta?>y", "xy"},
	"num":  {"&#65;&#x1F600;&#10;z", "A\U0001F600\nz"},
	"ws":   {" \n\t ", " \n\t "},
	"crlf": {"a\r\nb\rc", "a\nb\nc"},
	"l1":   {"\u00e9\u00fc\u00df\u00a3", "\u00e9\u00fc\u00df\u00a3"},
}
var padAtoms = map[string][2]string{"": {"", ""}, "l": {"\n  ", ""}, "r": {"", " \n"}, "b": {"\t\n", "  "}}
var valAtoms = map[string]string{
	"":    "",
	"1":   "1",
	"e":   "",
	"q":   `say "hi" & <b> 'q' </b>`,
	"nl":  "a\nb\tc\rd",
	"u":   "é漢😀",
	"gt":  "]]>",
	"ws":  "  x  y ",
	"amp": "&amp;&#65;",
}
var uriAtoms = map[string]string{"uq": `urn:q?a="1"&b=<2>`, "u1": "urn:one", "u2": "http://two.example/x", "u3": "urn:three", "zz": "urn:zz", "dd": "urn:dd", "u4": "urn:four/é"}
var uriBack = map[string]string{}
var valBack = map[string]string{}
var textBack = map[string][2]string{}

func init() {
	for a, u := range uriAtoms {
		uriBack[u] = a
	}
	for a, v := range valAtoms {
		if a != "" {
			valBack[v] = a
		}
	}
	for t, v := range textAtoms {
		for p, w := range padAtoms {
			k := w[0] + v[0] + w[1]
			if old, ok := textBack[k]; !ok || old[1] != "" && p == "" || t < old[0] {
				textBack[k] = [2]string{t, p}
			}
		}
	}
}

func uri(atom string) string {
	if u, ok := uriAtoms[atom]; ok {
		return u
	}
	return atom
}
func uriAtom(u string) string {
	if a, ok := uriBack[u]; ok {
		return a
	}
	return u
}
func rawText(t, pad string) string {
	return padAtoms[pad][0] + textAtoms[t][0] + padAtoms[pad][1]
}
func val(atom string) string {
	v, ok := valAtoms[atom]
	if !ok {
		panic("unknown value atom " + atom)
	}
	return v
}
func qname(pfx, local string) string {
	if pfx == "" {
		return local
	}
	return pfx + ":" + local
}

// style is the lexical form of a document; every choice is free.
type style struct {
	r       *rand.Rand
	plain   bool   // no optional syntax at all
	header  string // before the root element
	between bool   // white space, comments and PIs between child elements
}

func newStyle(r *rand.Rand) *style {
	st := &style{r: r}
	if r == nil || r.Intn(4) == 0 {
		st.plain = true
		return st
	}
	st.header = []string{"", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?><!-- é <x> -->\n",
		"<!DOCTYPE a [ <!ELEMENT a ANY> ]>\n", "\n  <?pi <a>?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n<!---->"}[r.Intn(6)]
	st.between = r.Intn(2) == 0
	return st
}

func (st *style) pick(alts ...string) string {
	if st.plain {
		return alts[0]
	}
	return alts[st.r.Intn(len(alts))]
}

func attrText(v string, quote byte) string {
	var b strings.Builder
	for _, r := range v {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '"' && quote == '"':
			b.WriteString("&quot;")
		case r == '\'' && quote == '\'':
			b.WriteString("&apos;")
		case r == '\n' || r == '\r' || r == '\t':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (st *style) attr(b *strings.Builder, name, v string) {
	b.WriteString(st.pick(" ", "\n ", "\t", "  "))
	b.WriteString(name)
	b.WriteString(st.pick("=", " = ", "="))
	q := st.pick(`"`, `'`)
	b.WriteString(q)
	b.WriteString(attrText(v, q[0]))
	b.WriteString(q)
}

func (st *style) filler(b *strings.Builder) {
	if st.between && !st.plain {
		b.WriteString([]string{"", "\n  ", "<!-- <a> é -->", "<?pi x?>", " ", "mixed é &amp; text", "<![CDATA[<b>]]>"}[st.r.Intn(7)])
	}
}

func (st *style) render(b *strings.Builder, s *Src) {
	b.WriteString("<" + qname(s.Pfx, s.Local))
	type pair struct{ n, v string }
	var ps []pair
	for _, d := range s.Decls {
		if d.Pfx == "" {
			ps = append(ps, pair{"xmlns", uri(d.URI)})
		} else {
			ps = append(ps, pair{"xmlns:" + d.Pfx, uri(d.URI)})
		}
	}
	// declarations may come before, after or between the attributes,
	// whose own order matters.
	for _, a := range s.Attrs {
		p := pair{qname(a.Pfx, a.Local), val(a.Val)}
		at := len(ps)
		if !st.plain && len(s.Decls) > 0 && st.r.Intn(3) == 0 {
			// keep the order of the attributes: move one declaration behind
			for i, d := range ps {
				if strings.HasPrefix(d.n, "xmlns") {
					ps = append(append(ps[:i:i], ps[i+1:]...), p, d)
					at = -1
					break
				}
			}
		}
		if at >= 0 {
			ps = append(ps, p)
		}
	}
	for _, p := range ps {
		st.attr(b, p.n, p.v)
	}
	raw := rawText(s.Text, s.Pad)
	if len(s.Kids) == 0 && raw == "" {
		b.WriteString(st.pick("/>", "></"+qname(s.Pfx, s.Local)+">", " />", "></"+qname(s.Pfx, s.Local)+" >"))
		return
	}
	b.WriteString(st.pick(">", " >", "\n>"))
	if len(s.Kids) == 0 {
		b.WriteString(raw)
	}
	for i := range s.Kids {
		st.filler(b)
		st.render(b, &s.Kids[i])
	}
	if len(s.Kids) > 0 {
		st.filler(b)
	}
	b.WriteString("</" + qname(s.Pfx, s.Local) + st.pick(">", " >", "\n>"))
}

func (st *style) document(s *Src) []byte {
	var b strings.Builder
	b.WriteString(st.header)
	st.render(&b, s)
	b.WriteString(st.pick("", "\n", "<!-- end -->"))
	return []byte(b.String())
}

// observe projects a real tree onto the abstract one.
func observe(el *xmltree.Element) Tree {
	t := Tree{NS: uriAtom(el.Name.Space), Local: el.Name.Local, Attrs: []TAttr{}, Kids: []Tree{}}
	for _, a := range el.StartElement.Attr {
		v, ok := valBack[a.Value]
		if !ok {
			v = "?" + a.Value
		}
		t.Attrs = append(t.Attrs, TAttr{uriAtom(a.Name.Space), a.Name.Local, v})
	}
	if len(el.Children) == 0 {
		if k, ok := textBack[string(el.Content)]; ok {
			t.Text, t.Pad = k[0], k[1]
		} else {
			t.Text = "?" + string(el.Content)
		}
	}
	for i := range el.Children {
		t.Kids = append(t.Kids, observe(&el.Children[i]))
	}
	return t
}

// sameTree compares an expected tree with an observed one; the raw text
// is compared, so that atoms which look alike when padded do not matter.
func sameTree(want, got *Tree, where string) string {
	if want.NS != got.NS || want.Local != got.Local {
		return fmt.Sprintf("%s: element {%s}%s, expected {%s}%s", where, got.NS, got.Local, want.NS, want.Local)
	}
	if len(want.Attrs) != len(got.Attrs) {
		return fmt.Sprintf("%s: attributes %v, expected %v", where, got.Attrs, want.Attrs)
	}
	for i, a := range want.Attrs {
		g := got.Attrs[i]
		if a.NS != g.NS || a.Local != g.Local || normVal(a.Val) != normVal(g.Val) {
			return fmt.Sprintf("%s: attribute %v, expected %v", where, g, a)
		}
	}
	if len(want.Kids) != len(got.Kids) {
		return fmt.Sprintf("%s: %d children, expected %d", where, len(got.Kids), len(want.Kids))
	}
	if len(want.Kids) == 0 {
		w := rawText(want.Text, want.Pad)
		g := strings.TrimPrefix(got.Text, "?")
		if !strings.HasPrefix(got.Text, "?") {
			g = rawText(got.Text, got.Pad)
		}
		if w != g {
			return fmt.Sprintf("%s: content %q, expected %q", where, g, w)
		}
	}
	for i := range want.Kids {
		if msg := sameTree(&want.Kids[i], &got.Kids[i], fmt.Sprintf("%s/%d", where, i+1)); msg != "" {
			return msg
		}
	}
	return ""
}

func normVal(a string) string {
	if v, ok := valAtoms[a]; ok {
		return v
	}
	return a
}

func at(el *xmltree.Element, path []int) *xmltree.Element {
	for _, i := range path {
		if i < 1 || i > len(el.Children) {
			return nil
		}
		el = &el.Children[i-1]
	}
	return el
}

func atTree(t *Tree, path []int) *Tree {
	for _, i := range path {
		t = &t.Kids[i-1]
	}
	return t
}

// paths maps every element of a tree to its path.
func paths(root *xmltree.Element) map[*xmltree.Element][]int {
	m := map[*xmltree.Element][]int{}
	var walk func(el *xmltree.Element, p []int)
	walk = func(el *xmltree.Element, p []int) {
		m[el] = p
		for i := range el.Children {
			walk(&el.Children[i], append(append([]int{}, p...), i+1))
		}
	}
	walk(root, []int{})
	return m
}

// wellFormed is an independent look at serialised output: the strict
// tokenizer accepts it, no tag repeats an attribute, every prefix is
// declared, and there is exactly one root element.
func wellFormed(doc []byte) error {
	d := xml.NewDecoder(bytes.NewReader(doc))
	var stack []map[string]string
	roots := 0
	look := func(p string) (string, bool) {
		if p == "xml" {
			return "xml", true
		}
		for i := len(stack) - 1; i >= 0; i-- {
			if u, ok := stack[i][p]; ok {
				return u, u != "" || p == ""
			}
		}
		return "", p == ""
	}
	var names []string
	for {
		tok, err := d.RawToken()
		if err != nil {
			if err.Error() == "EOF" {
				break
			}
			return err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if len(stack) == 0 {
				roots++
			}
			frame := map[string]string{}
			seen := map[string]bool{}
			for _, a := range tok.Attr {
				n := qname(a.Name.Space, a.Name.Local)
				if seen[n] {
					return fmt.Errorf("attribute %s repeated in <%s>", n, tok.Name.Local)
				}
				seen[n] = true
				if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return fmt.Errorf("prefix %s undeclared in <%s>", a.Name.Local, tok.Name.Local)
					}
					frame[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					frame[""] = a.Value
				}
			}
			stack = append(stack, frame)
			names = append(names, qname(tok.Name.Space, tok.Name.Local))
			if _, ok := look(tok.Name.Space); !ok {
				return fmt.Errorf("prefix %s of <%s> is not declared", tok.Name.Space, tok.Name.Local)
			}
			expanded := map[string]bool{}
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				u, ok := "", true
				if a.Name.Space != "" {
					u, ok = look(a.Name.Space)
				}
				if !ok {
					return fmt.Errorf("prefix %s of attribute %s is not declared", a.Name.Space, a.Name.Local)
				}
				k := u + " " + a.Name.Local
				if expanded[k] {
					return fmt.Errorf("attribute {%s}%s repeated in <%s>", u, a.Name.Local, tok.Name.Local)
				}
				expanded[k] = true
			}
		case xml.EndElement:
			if len(names) == 0 || names[len(names)-1] != qname(tok.Name.Space, tok.Name.Local) {
				return fmt.Errorf("unexpected </%s>", tok.Name.Local)
			}
			names = names[:len(names)-1]
			stack = stack[:len(stack)-1]
		}
	}
	if roots != 1 || len(stack) != 0 {
		return fmt.Errorf("%d root elements, %d elements left open", roots, len(stack))
	}
	return nil
}
