package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"aqwari.net/xml/xmltree"
	"golang.org/x/net/html/charset"
)

func init() {
	checkers["doc"] = checkDoc
	checkers["edit"] = checkEdit
	checkers["join"] = checkJoin
	checkers["equal"] = checkEqual
	checkers["tok"] = checkTok
	checkers["deep"] = checkDeep
	for _, p := range []string{"C01", "C02", "C03", "C05"} {
		recorders[p] = recordDocs
	}
}

type nsAnswer struct {
	NS string `json:"ns"`
	OK bool   `json:"ok"`
}
type resRow struct {
	P string   `json:"p"`
	R nsAnswer `json:"r"`
}
type dflRow struct {
	P  string `json:"p"`
	NS string `json:"ns"`
}
type preRow struct {
	NS string   `json:"ns"`
	OK []string `json:"ok"`
}
type nodeAnswers struct {
	Path  []int    `json:"path"`
	NS    string   `json:"ns"`
	Local string   `json:"local"`
	Attrs []TAttr  `json:"attrs"`
	Text  string   `json:"text"`
	Pad   string   `json:"pad"`
	Nkids int      `json:"nkids"`
	Res   []resRow `json:"res"`
	Dfl   []dflRow `json:"dfl"`
	Pre   []preRow `json:"pre"`
}
type searchRow struct {
	NS    string  `json:"ns"`
	Local string  `json:"local"`
	Paths [][]int `json:"paths"`
}
type docVector struct {
	Src    Src
	Shape  Tree
	Nodes  []nodeAnswers
	Flat   [][]int
	Search []searchRow
}

func parse(c *ctx, doc []byte) *xmltree.Element {
	el, err := xmltree.Parse(doc)
	if !c.check(err == nil, "Parse(%q): %v", doc, err) {
		return nil
	}
	return el
}

func checkDoc(c *ctx, raw json.RawMessage) {
	var v docVector
	decode(c, raw, &v)
	st := newStyle(c.rng)
	doc := st.document(&v.Src)
	orig := append([]byte(nil), doc...)
	var root *xmltree.Element
	if c.is("C07") {
		checkCharset(c, &v)
	}
	if root = parse(c, doc); root == nil {
		return
	}
	if c.is("C07") {
		c.check(bytes.Equal(orig, doc), "Parse modified its input: %q, was %q", doc, orig)
		msg := sameTree(&v.Shape, ptr(observe(root)), "")
		c.check(msg == "", "%s in %q", msg, orig)
		before := string(xmltree.Marshal(root))
		useAll(root)
		c.check(string(xmltree.Marshal(root)) == before, "queries modified the tree of %q", orig)
		c.check(bytes.Equal(orig, doc), "queries modified the document: %q, was %q", doc, orig)
		return
	}
	if c.is("C05") {
		checkSearch(c, &v, root, orig)
		return
	}
	if c.is("C03") {
		checkFidelity(c, &v, root, orig)
		return
	}
	for i := range v.Nodes {
		n := &v.Nodes[i]
		el := at(root, n.Path)
		if !c.check(el != nil, "no element at %v in %q", n.Path, orig) {
			return
		}
		switch {
		case c.is("C01"):
			c.check(el.Name == xml.Name{Space: uri(n.NS), Local: n.Local}, "%v: element is %v, expected {%s}%s in %q", n.Path, el.Name, uri(n.NS), n.Local, orig)
			c.check(len(el.Children) == n.Nkids, "%v: %d children, expected %d in %q", n.Path, len(el.Children), n.Nkids, orig)
			if c.check(len(el.StartElement.Attr) == len(n.Attrs), "%v: attributes %v, expected %v in %q", n.Path, el.StartElement.Attr, n.Attrs, orig) {
				for j, a := range n.Attrs {
					got := el.StartElement.Attr[j]
					c.check(got.Name == xml.Name{Space: uri(a.NS), Local: a.Local} && got.Value == val(a.Val), "%v: attribute %v, expected %v in %q", n.Path, got, a, orig)
				}
				checkAttrLookup(c, el, n, orig)
			}
			for _, r := range n.Res {
				for _, local := range []string{"name", "x:y", ""} {
					if r.P == "" && strings.Contains(local, ":") {
						continue
					}
					q := qname(r.P, local)
					want := xml.Name{Space: uri(r.R.NS), Local: local}
					got, ok := el.ResolveNS(q)
					c.check(got == want && ok == r.R.OK, "%v: ResolveNS(%q) = %v, %v; expected %v, %v in %q", n.Path, q, got, ok, want, r.R.OK, orig)
					c.check(el.Resolve(q) == want, "%v: Resolve(%q) = %v; expected %v in %q", n.Path, q, el.Resolve(q), want, orig)
					c.check(el.ResolveDefault(q, "") == want, "%v: ResolveDefault(%q, \"\") = %v; expected %v in %q", n.Path, q, el.ResolveDefault(q, ""), want, orig)
				}
			}
			for _, r := range n.Dfl {
				q := qname(r.P, "name")
				want := xml.Name{Space: uri(r.NS), Local: "name"}
				got := el.ResolveDefault(q, uri("dd"))
				c.check(got == want, "%v: ResolveDefault(%q) = %v; expected %v in %q", n.Path, q, got, want, orig)
			}
		case c.is("C02"):
			for _, r := range n.Pre {
				for _, local := range []string{"name", "é"} {
					name := xml.Name{Space: uri(r.NS), Local: local}
					got := el.Prefix(name)
					found := false
					for _, p := range r.OK {
						found = found || got == qname(p, local)
					}
					c.check(found, "%v: Prefix(%v) = %q, expected prefix in %q in %q", n.Path, name, got, r.OK, orig)
				}
			}
			// the inverse law itself, on every namespace something resolves to
			for _, r := range n.Res {
				name, ok := el.ResolveNS(qname(r.P, "name"))
				if !ok || name.Space == "" {
					continue
				}
				back := el.Prefix(name)
				c.check(el.Resolve(back) == name, "%v: Prefix(%v) = %q, which resolves to %v in %q", n.Path, name, back, el.Resolve(back), orig)
			}
			if el.Name.Space != "" {
				c.check(el.Resolve(el.Prefix(el.Name)) == el.Name, "%v: Prefix(%v) = %q in %q", n.Path, el.Name, el.Prefix(el.Name), orig)
			}
		}
	}
}

func ptr(t Tree) *Tree { return &t }

func checkAttrLookup(c *ctx, el *xmltree.Element, n *nodeAnswers, doc []byte) {
	first := func(space, local string) string {
		for _, a := range n.Attrs {
			if a.Local == local && (space == "" || space == uri(a.NS)) {
				return val(a.Val)
			}
		}
		return ""
	}
	for _, local := range []string{"x", "y", "lang", "none"} {
		for _, space := range []string{"", uri("u1"), uri("u2"), uri("u3"), "http://www.w3.org/XML/1998/namespace"} {
			got := el.Attr(space, local)
			c.check(got == first(space, local), "%v: Attr(%q, %q) = %q, expected %q in %q", n.Path, space, local, got, first(space, local), doc)
		}
	}
}

// useAll calls every read-only operation.
func useAll(root *xmltree.Element) {
	for _, el := range append(root.Flatten(), root) {
		el.Search("", "a")
		el.Search(uri("u1"), "b")
		el.Attr("", "x")
		el.Resolve("p:x")
		el.Prefix(xml.Name{Space: uri("u1"), Local: "x"})
		el.JoinScope(&root.Scope)
		xmltree.Marshal(el)
		xmltree.MarshalIndent(el, "", " ")
		_ = el.String()
		xmltree.Equal(el, root)
		var v generic
		xmltree.Unmarshal(el, &v)
	}
}

func same(a, b []int) bool { return jsonOf(a) == jsonOf(b) }

func checkSearch(c *ctx, v *docVector, root *xmltree.Element, doc []byte) {
	loc := paths(root)
	cmp := func(what string, got []*xmltree.Element, want [][]int) {
		if !c.check(len(got) == len(want), "%s: %d elements, expected %d in %q", what, len(got), len(want), doc) {
			return
		}
		for i, el := range got {
			p, ok := loc[el]
			if !c.check(ok, "%s: result %d is not an element of the tree in %q", what, i, doc) {
				return
			}
			c.check(same(p, want[i]), "%s: result %d is the element at %v, expected %v in %q", what, i, p, want[i], doc)
		}
	}
	cmp("Flatten", root.Flatten(), v.Flat)
	for _, q := range v.Search {
		cmp(fmt.Sprintf("Search(%q, %q)", uri(q.NS), q.Local), root.Search(uri(q.NS), q.Local), q.Paths)
	}
	// SearchFunc asks about every descendant exactly once, in document
	// order, and returns exactly those accepted, whatever the predicate.
	for k := 0; k < 3; k++ {
		var asked [][]int
		var accepted [][]int
		got := root.SearchFunc(func(el *xmltree.Element) bool {
			p := loc[el]
			asked = append(asked, p)
			ok := c.rng.Intn(2) == 0
			if ok {
				accepted = append(accepted, p)
			}
			return ok
		})
		c.check(jsonOf(asked) == jsonOf(v.Flat) || len(asked)+len(v.Flat) == 0, "SearchFunc visited %v, expected %v in %q", asked, v.Flat, doc)
		cmp("SearchFunc", got, accepted)
	}
	// the same from every other element: the subtree below it
	for _, n := range v.Nodes {
		el := at(root, n.Path)
		var want [][]int
		for _, p := range v.Flat {
			if len(p) > len(n.Path) && same(p[:len(n.Path)], n.Path) {
				want = append(want, p)
			}
		}
		cmp(fmt.Sprintf("Flatten at %v", n.Path), el.Flatten(), want)
		for _, q := range v.Search {
			var w [][]int
			for _, p := range q.Paths {
				if len(p) > len(n.Path) && same(p[:len(n.Path)], n.Path) {
					w = append(w, p)
				}
			}
			cmp(fmt.Sprintf("Search(%q, %q) at %v", uri(q.NS), q.Local, n.Path), el.Search(uri(q.NS), q.Local), w)
		}
	}
	// results point into the tree: a change through one is a change of it
	if f := root.Flatten(); len(f) > 0 {
		el := f[c.rng.Intn(len(f))]
		el.SetAttr("", "marked", "1")
		n := len(root.SearchFunc(func(e *xmltree.Element) bool { return e.Attr("", "marked") == "1" }))
		c.check(n == 1, "after marking one element, %d are marked in %q", n, doc)
	}
}

// generic receives any element with encoding/xml.
type generic struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Kids    []generic  `xml:",any"`
}

func sameGeneric(want *Tree, got *generic, where string) string {
	if (got.XMLName != xml.Name{Space: uri(want.NS), Local: want.Local}) {
		return fmt.Sprintf("%s: unmarshalled %v, expected {%s}%s", where, got.XMLName, uri(want.NS), want.Local)
	}
	attrs := map[xml.Name]string{}
	for _, a := range got.Attrs {
		if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
			attrs[a.Name] = a.Value
		}
	}
	if len(attrs) != len(want.Attrs) {
		return fmt.Sprintf("%s: unmarshalled attributes %v, expected %v", where, got.Attrs, want.Attrs)
	}
	for _, a := range want.Attrs {
		if v, ok := attrs[xml.Name{Space: uri(a.NS), Local: a.Local}]; !ok || v != val(a.Val) {
			return fmt.Sprintf("%s: unmarshalled attributes %v, expected %v", where, got.Attrs, want.Attrs)
		}
	}
	if len(got.Kids) != len(want.Kids) {
		return fmt.Sprintf("%s: unmarshalled %d children, expected %d", where, len(got.Kids), len(want.Kids))
	}
	if len(want.Kids) == 0 {
		// line ends are normalized by encoding/xml
		norm := strings.NewReplacer("\r\n", "\n", "\r", "\n")
		w := norm.Replace(padAtoms[want.Pad][0] + textAtoms[want.Text][1] + padAtoms[want.Pad][1])
		if got.Text != w {
			return fmt.Sprintf("%s: unmarshalled text %q, expected %q", where, got.Text, w)
		}
	}
	for i := range want.Kids {
		if msg := sameGeneric(&want.Kids[i], &got.Kids[i], fmt.Sprintf("%s/%d", where, i+1)); msg != "" {
			return msg
		}
	}
	return ""
}

// scopes reports whether every prefix that resolves in a resolves to the
// same name in b, all the way down.
func scopesKept(a, b *xmltree.Element, where string) string {
	for _, p := range []string{"", "p", "q", "r", "z"} {
		an, aok := a.ResolveNS(qname(p, "n"))
		bn, bok := b.ResolveNS(qname(p, "n"))
		if p == "" && !aok {
			// no default namespace: the names must still be unqualified
			if bn.Space != "" {
				return fmt.Sprintf("%s: the default namespace became %q", where, bn.Space)
			}
			continue
		}
		if aok && (an != bn || !bok && an.Space != "") {
			return fmt.Sprintf("%s: prefix %q resolves to %v (%v), it was %v", where, p, bn, bok, an)
		}
	}
	for i := range a.Children {
		if i < len(b.Children) {
			if msg := scopesKept(&a.Children[i], &b.Children[i], fmt.Sprintf("%s/%d", where, i+1)); msg != "" {
				return msg
			}
		}
	}
	return ""
}

type failingWriter struct {
	left int
	buf  bytes.Buffer
}

var errDisk = errors.New("no space left")

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.left == 0 {
		return 0, errDisk
	}
	w.left--
	return w.buf.Write(p)
}

func checkFidelity(c *ctx, v *docVector, root *xmltree.Element, doc []byte) {
	msg := sameTree(&v.Shape, ptr(observe(root)), "")
	c.check(msg == "", "Parse: %s in %q", msg, doc)
	for i := range v.Nodes {
		n := &v.Nodes[i]
		el := at(root, n.Path)
		if el == nil {
			c.fail("no element at %v in %q", n.Path, doc)
			return
		}
		want := atTree(&v.Shape, n.Path)
		indent := [][2]string{{"", "  "}, {"", ""}, {" ", "\t"}, {"\n", " "}}[c.rng.Intn(4)]
		var enc bytes.Buffer
		c.check(xmltree.Encode(&enc, el) == nil, "Encode failed on a buffer")
		plain := xmltree.Marshal(el)
		c.check(bytes.Equal(enc.Bytes(), plain), "Encode wrote %q, Marshal %q", enc.Bytes(), plain)
		c.check(el.String() == string(plain), "String gave %q, Marshal %q", el.String(), plain)
		for how, out := range map[string][]byte{
			"Marshal":       plain,
			"MarshalIndent": xmltree.MarshalIndent(el, indent[0], indent[1]),
		} {
			err := wellFormed(out)
			if !c.check(err == nil, "%s at %v is not well-formed: %v: %q from %q", how, n.Path, err, out, doc) {
				continue
			}
			cp := append([]byte(nil), out...)
			back, err := xmltree.Parse(cp)
			if !c.check(err == nil, "%s at %v does not parse: %v: %q from %q", how, n.Path, err, out, doc) {
				continue
			}
			msg := sameTree(want, ptr(observe(back)), "")
			c.check(msg == "", "%s at %v: %s: %q from %q", how, n.Path, msg, out, doc)
			msg = scopesKept(el, back, "")
			c.check(msg == "", "%s at %v: %s: %q from %q", how, n.Path, msg, out, doc)
			c.check(xmltree.Equal(el, back) && xmltree.Equal(back, el), "%s at %v: result is not Equal to the element: %q from %q", how, n.Path, out, doc)
		}
		var g generic
		err := xmltree.Unmarshal(el, &g)
		if c.check(err == nil, "Unmarshal at %v: %v in %q", n.Path, err, doc) {
			msg := sameGeneric(want, &g, "")
			c.check(msg == "", "Unmarshal at %v: %s in %q", n.Path, msg, doc)
		}
		if len(n.Path) == 0 {
			checkIndent(c, &v.Shape, el, doc)
			checkFaults(c, el, doc)
		}
	}
}

// Every line of MarshalIndent begins with the prefix, then the indent once
// per nesting level of the tag on that line.
func checkIndent(c *ctx, t *Tree, el *xmltree.Element, doc []byte) {
	// content or values with line breaks make lines of their own
	if s := string(xmltree.Marshal(el)); strings.ContainsAny(s, "\n\r") || strings.Contains(s, "<!") || strings.Contains(s, "<?") {
		return
	}
	out := string(xmltree.MarshalIndent(el, "##", "~~~"))
	depth := 0
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	n := 0
	for _, l := range lines {
		if !strings.HasPrefix(l, "##") {
			c.check(false, "MarshalIndent: line %q does not begin with the prefix; %q", l, doc)
			return
		}
		rest := l[2:]
		if strings.HasPrefix(strings.TrimLeft(rest, "~"), "</") {
			depth--
		}
		ind := strings.Repeat("~~~", depth)
		if !c.check(strings.HasPrefix(rest, ind+"<"), "MarshalIndent: line %q is not at depth %d; %q", l, depth, doc) {
			return
		}
		rest = rest[len(ind):]
		if !strings.HasPrefix(rest, "</") {
			n++
		}
		if !strings.HasPrefix(rest, "</") && !strings.HasSuffix(rest, "/>") && !strings.Contains(rest[1:], "</") {
			depth++
		}
	}
	var count func(t *Tree) int
	count = func(t *Tree) int {
		n := 1
		for i := range t.Kids {
			n += count(&t.Kids[i])
		}
		return n
	}
	c.check(n == count(t), "MarshalIndent: %d lines start an element, there are %d elements; %q", n, count(t), doc)
}

// A writer that fails at any one point must make Encode fail, having
// written a prefix of the encoding.
func checkFaults(c *ctx, el *xmltree.Element, doc []byte) {
	whole := xmltree.Marshal(el)
	for k := 0; k < 400; k++ {
		w := &failingWriter{left: k}
		err := xmltree.Encode(w, el)
		if err == nil {
			c.check(bytes.Equal(w.buf.Bytes(), whole), "Encode reported success after writing %q of %q", w.buf.Bytes(), whole)
			return
		}
		c.check(bytes.HasPrefix(whole, w.buf.Bytes()), "Encode wrote %q before failing, not a prefix of %q", w.buf.Bytes(), whole)
		c.check(errors.Is(err, errDisk) || strings.Contains(err.Error(), errDisk.Error()), "Encode hides the error of the writer: %v", err)
	}
}

// failing once: the writer recovers after one failed call.
type flakyWriter struct {
	bad, n int
}

func (w *flakyWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.bad {
		return 0, errDisk
	}
	return len(p), nil
}

var encodings = []string{"ISO-8859-1", "windows-1252", "iso-8859-15", "UTF-8", "us-ascii"}

// The same document in other encodings has the same tree.
func checkCharset(c *ctx, v *docVector) {
	enc := encodings[c.rng.Intn(len(encodings))]
	if ascii := jsonOf(v.Src); strings.Contains(ascii, `"text":"u"`) || strings.Contains(ascii, `"val":"u"`) {
		// not in any of the single-byte repertoires; use other text
		var v2 docVector
		b := strings.NewReplacer(`"text":"u"`, `"text":"l1"`, `"val":"u"`, `"val":"1"`).Replace(jsonOf(v))
		json.Unmarshal([]byte(b), &v2)
		v = &v2
	}
	if strings.Contains(jsonOf(v.Src), `"text":"l1"`) && enc == "us-ascii" {
		enc = "ISO-8859-1"
	}
	st := &style{r: c.rng, plain: true}
	body := string(st.document(&v.Src))
	if c.rng.Intn(8) == 0 { // larger than any buffer
		body += strings.Repeat("<!-- padding -->", 1000)
	}
	head := fmt.Sprintf("<?xml version=\"1.0\" encoding=%q?>", enc) + []string{"", "\n", "\r\n", " ", "\n\n", "<!-- \u00e9\u00df -->", "\n<?pi \u00e9?>"}[c.rng.Intn(7)]
	if enc == "us-ascii" {
		head = fmt.Sprintf("<?xml version=\"1.0\" encoding=%q?>", enc)
	}
	utf8doc := head + body
	var doc []byte
	if enc == "UTF-8" {
		doc = []byte(utf8doc)
	} else {
		e, _ := charset.Lookup(enc)
		if e == nil {
			c.fail("harness: no encoding %s", enc)
			return
		}
		var err error
		doc, err = e.NewEncoder().Bytes([]byte(utf8doc))
		if err != nil {
			c.note("not encodable")
			return
		}
	}
	// capacity behind the document must not be used as scratch space
	back := make([]byte, len(doc)+64)
	copy(back, doc)
	for i := len(doc); i < len(back); i++ {
		back[i] = 'Z'
	}
	arg := back[:len(doc)]
	root, err := xmltree.Parse(arg)
	if !c.check(err == nil, "Parse of %s document: %v: %q", enc, err, doc) {
		return
	}
	c.note("charset " + enc)
	c.check(bytes.Equal(back[:len(doc)], doc), "Parse of %s document modified its input: %q, was %q", enc, back[:len(doc)], doc)
	c.check(strings.Trim(string(back[len(doc):]), "Z") == "", "Parse of %s document wrote behind its input", enc)
	msg := sameTree(&v.Shape, ptr(observe(root)), "")
	c.check(msg == "", "%s document: %s: %q", enc, msg, utf8doc)
	out := xmltree.Marshal(root)
	back2, err := xmltree.Parse(append([]byte(nil), out...))
	if c.check(err == nil, "Marshal of %s document: %v: %q", enc, err, out) {
		msg = sameTree(&v.Shape, ptr(observe(back2)), "")
		c.check(msg == "", "Marshal of %s document: %s: %q", enc, msg, out)
	}
}

type editOp struct {
	Op    string
	D, E  int
	Path  []int
	To    []int
	NS    string
	Local string
	Val   string
	Text  string
	I, J  int
}
type effRow struct {
	Path []int
	Res  []dflRow
}
type eff struct {
	Shape  Tree
	Scopes []effRow
}

func deepCopy(el *xmltree.Element) xmltree.Element {
	cp := *el
	cp.StartElement.Attr = append([]xml.Attr(nil), el.StartElement.Attr...)
	cp.Children = nil
	for i := range el.Children {
		cp.Children = append(cp.Children, deepCopy(&el.Children[i]))
	}
	return cp
}

func insertKid(el *xmltree.Element, i int, kid xmltree.Element) {
	kids := append([]xmltree.Element(nil), el.Children[:i-1]...)
	kids = append(kids, kid)
	el.Children = append(kids, el.Children[i-1:]...)
	el.Content = nil
}

func checkEdit(c *ctx, raw json.RawMessage) {
	var v struct {
		Docs []Src
		Ops  []editOp
		Log  []eff
	}
	decode(c, raw, &v)
	var trees []*xmltree.Element
	for i := range v.Docs {
		doc := newStyle(c.rng).document(&v.Docs[i])
		t := parse(c, doc)
		if t == nil {
			return
		}
		trees = append(trees, t)
	}
	for k, op := range v.Ops {
		d := op.D - 1
		el := at(trees[d], op.Path)
		if el == nil {
			c.fail("step %d: no element at %v", k+1, op.Path)
			return
		}
		changed := d
		switch op.Op {
		case "setattr":
			el.SetAttr(uri(op.NS), op.Local, val(op.Val))
			c.check(el.Attr(uri(op.NS), op.Local) == val(op.Val), "step %d: Attr after SetAttr(%q, %q, %q) = %q", k+1, op.NS, op.Local, val(op.Val), el.Attr(uri(op.NS), op.Local))
		case "settext":
			el.Content = []byte(rawText(op.Text, ""))
		case "rename":
			el.Name = xml.Name{Space: uri(op.NS), Local: op.Local}
		case "remove":
			el.Children = append(el.Children[:op.I-1], el.Children[op.I:]...)
			el.Content = nil
		case "graft":
			changed = op.E - 1
			cp := deepCopy(el)
			insertKid(at(trees[changed], op.To), op.I, cp)
		case "swap":
			el.Children[op.I-1], el.Children[op.J-1] = el.Children[op.J-1], el.Children[op.I-1]
		case "reload":
			back, err := xmltree.Parse(xmltree.Marshal(el))
			if !c.check(err == nil, "step %d: reload: %v: %q", k+1, err, xmltree.Marshal(el)) {
				return
			}
			trees[d] = back
		default:
			panic("unknown op " + op.Op)
		}
		t := trees[changed]
		want := &v.Log[k].Shape
		if msg := sameTree(want, ptr(observe(t)), ""); !c.check(msg == "", "step %d (%s): %s", k+1, op.Op, msg) {
			return
		}
		out := xmltree.Marshal(t)
		if err := wellFormed(out); !c.check(err == nil, "step %d (%s): output is not well-formed: %v: %q", k+1, op.Op, err, out) {
			return
		}
		back, err := xmltree.Parse(append([]byte(nil), out...))
		if !c.check(err == nil, "step %d (%s): output does not parse: %v: %q", k+1, op.Op, err, out) {
			return
		}
		if msg := sameTree(want, ptr(observe(back)), ""); !c.check(msg == "", "step %d (%s): reparsed %q: %s", k+1, op.Op, out, msg) {
			return
		}
		for _, row := range v.Log[k].Scopes {
			el, bk := at(t, row.Path), at(back, row.Path)
			for _, r := range row.Res {
				w := xml.Name{Space: uri(r.NS), Local: "n"}
				g := el.Resolve(qname(r.P, "n"))
				c.check(g == w, "step %d (%s): at %v, %s: resolves to %v, expected %v", k+1, op.Op, row.Path, r.P, g, w)
				g = bk.Resolve(qname(r.P, "n"))
				c.check(g == w, "step %d (%s): reparsed %q at %v, %s: resolves to %v, expected %v", k+1, op.Op, out, row.Path, r.P, g, w)
			}
		}
		// serialising must not have changed the tree
		if msg := sameTree(want, ptr(observe(t)), ""); msg != "" {
			c.fail("step %d (%s): after Marshal: %s", k+1, op.Op, msg)
		}
		// the other tree is untouched
		if k > 0 && changed != v.Ops[k-1].lastTree() {
			o := v.Ops[k-1].lastTree()
			if msg := sameTree(&v.Log[k-1].Shape, ptr(observe(trees[o])), ""); msg != "" {
				c.fail("step %d (%s) changed the other tree: %s", k+1, op.Op, msg)
			}
		}
	}
}

func (op editOp) lastTree() int {
	if op.Op == "graft" {
		return op.E - 1
	}
	return op.D - 1
}

func checkJoin(c *ctx, raw json.RawMessage) {
	var v struct {
		Doc Src
		Ops [][2]int
		Log [][][]resRow
	}
	decode(c, raw, &v)
	root := parse(c, newStyle(c.rng).document(&v.Doc))
	if root == nil {
		return
	}
	var scopes []*xmltree.Scope
	scopes = append(scopes, &root.Scope)
	for _, el := range root.Flatten() {
		scopes = append(scopes, &el.Scope)
	}
	verify := func(step int) {
		for i, row := range v.Log[step] {
			for _, r := range row {
				got, ok := scopes[i].ResolveNS(qname(r.P, "n"))
				want := xml.Name{Space: uri(r.R.NS), Local: "n"}
				c.check(got == want && ok == r.R.OK, "after joins %v: scope %d resolves %q to %v, %v; expected %v, %v", v.Ops[:step], i+1, r.P, got, ok, want, r.R.OK)
			}
		}
	}
	verify(0)
	for k, op := range v.Ops {
		scopes = append(scopes, scopes[op[0]-1].JoinScope(scopes[op[1]-1]))
		verify(k + 1)
	}
}

func checkEqual(c *ctx, raw json.RawMessage) {
	var v struct {
		A, B  Src
		Steps []string
		Eq    bool
	}
	decode(c, raw, &v)
	da, db := newStyle(c.rng).document(&v.A), newStyle(c.rng).document(&v.B)
	a, b := parse(c, da), parse(c, db)
	if a == nil || b == nil {
		return
	}
	ma, mb := string(xmltree.Marshal(a)), string(xmltree.Marshal(b))
	for k := 0; k < 2; k++ {
		c.check(xmltree.Equal(a, b) == v.Eq, "Equal(a, b) = %v after %v: %q and %q", !v.Eq, v.Steps, da, db)
		c.check(xmltree.Equal(b, a) == v.Eq, "Equal(b, a) = %v after %v: %q and %q", !v.Eq, v.Steps, da, db)
		c.check(xmltree.Equal(a, a) && xmltree.Equal(b, b), "not Equal to itself: %q and %q", da, db)
	}
	c.check(string(xmltree.Marshal(a)) == ma && string(xmltree.Marshal(b)) == mb, "Equal changed its arguments: %q and %q", da, db)
}

func checkTok(c *ctx, raw json.RawMessage) {
	var v struct {
		Toks []struct{ T, G string }
		OK   bool
		N    int
	}
	decode(c, raw, &v)
	var b strings.Builder
	pick := func(s ...string) string { return s[c.rng.Intn(len(s))] }
	for _, t := range v.Toks {
		switch t.T {
		case "start":
			b.WriteString("<" + t.G + pick("", ` x="1"`, ` xmlns:p="u" xmlns:q="u"`) + pick(">", " >"))
		case "empty":
			b.WriteString("<" + t.G + pick("/>", " />", ` x='é'/>`))
		case "end":
			b.WriteString("</" + t.G + pick(">", " >"))
		case "comment":
			b.WriteString(pick("<!-- <a> -->", "<!---->"))
		case "pi":
			b.WriteString(pick("<?pi <a>?>", "<?x?>"))
		case "text":
			b.WriteString(pick("text", "é&amp;", " \n"))
		case "cdata":
			b.WriteString(pick("<![CDATA[</a>]]>", "<![CDATA[]]>"))
		case "lt":
			b.WriteString(pick("< ", "<<", "<>", "<1a>", "<a b<"))
		case "badattr":
			b.WriteString(pick("<a x>", "<a x=1>", `<a x="<">`, `<a x="1>`, `<a x='1">`, `<a "1">`))
		case "badent":
			b.WriteString(pick("&nope;", "& ", "&#xZZ;", "&"))
		case "badname":
			b.WriteString(pick("</>", "</ a>", "<?", "<!-", "<!--  ", "<![CDATA[", "<a:b:/>x</a:b:"))
		}
	}
	doc := []byte(b.String())
	in := append([]byte(nil), doc...)
	el, err := xmltree.Parse(doc)
	c.check((err == nil) == v.OK, "Parse(%q): error %v, expected success: %v", in, err, v.OK)
	c.check((el == nil) == (err != nil), "Parse(%q) = %v, %v: not exactly one of element and error", in, el, err)
	if err == nil && v.OK {
		c.check(len(el.Flatten())+1 == v.N, "Parse(%q): %d elements, expected %d", in, len(el.Flatten())+1, v.N)
		// no proper prefix of the document is a document
		end := bytes.LastIndexByte(in, '>')
		for _, k := range []int{end, end / 2, c.rng.Intn(end + 1), c.rng.Intn(end + 1)} {
			t := in[:k]
			if _, err := xmltree.Parse(append([]byte(nil), t...)); err == nil {
				c.fail("Parse(%q) accepts a truncated document", t)
			}
			c.checks++
		}
	}
	// arbitrary damage never makes Parse panic
	for k := 0; k < 2; k++ {
		d := append([]byte(nil), in...)
		for j := 0; j < 1+k; j++ {
			if len(d) > 0 {
				d[c.rng.Intn(len(d))] = "<>&\"'/=:! \x00\xff\xc3ax"[c.rng.Intn(15)]
			}
		}
		if el, err := xmltree.Parse(d); err == nil {
			xmltree.Marshal(el)
		}
		c.checks++
	}
}

// Random documents larger than those of the model, recorded with the
// answers of the real package for TLC to judge.
func recordDocs(seed int64, n int, emit func(v interface{})) {
	r := newRand(seed, "docs")
	for i := 0; i < n; i++ {
		src := randomDoc(r)
		st := newStyle(r)
		doc := st.document(&src)
		in := string(doc)
		rec := map[string]interface{}{"src": src}
		root, err := xmltree.Parse(doc)
		if err != nil {
			rec["error"] = err.Error()
			rec["doc"] = in
			emit(rec)
			continue
		}
		rec["error"] = ""
		rec["doc"] = in
		rec["shape"] = observe(root)
		loc := paths(root)
		var flat = [][]int{}
		for _, el := range root.Flatten() {
			flat = append(flat, loc[el])
		}
		rec["flat"] = flat
		var nodes []interface{}
		var walk func(el *xmltree.Element)
		walk = func(el *xmltree.Element) {
			res := []resRow{}
			for _, p := range []string{"", "p", "q", "r", "s", "z", "xml", "xmlns"} {
				nm, ok := el.ResolveNS(qname(p, "n"))
				res = append(res, resRow{p, nsAnswer{uriAtom(nm.Space), ok}})
			}
			pre := []map[string]string{}
			for _, u := range []string{"u1", "u2", "u3", "u4", "uq", "zz"} {
				q := el.Prefix(xml.Name{Space: uri(u), Local: "n"})
				parts := strings.SplitN(q, ":", 2)
				if len(parts) == 1 {
					parts = []string{"", parts[0]}
				}
				pre = append(pre, map[string]string{"ns": u, "p": parts[0], "l": parts[1]})
			}
			nodes = append(nodes, map[string]interface{}{"path": loc[el], "res": res, "pre": pre})
			for i := range el.Children {
				walk(&el.Children[i])
			}
		}
		walk(root)
		rec["nodes"] = nodes
		search := []searchRow{}
		for _, u := range []string{"", "u1", "u3"} {
			for _, l := range []string{"a", "b"} {
				row := searchRow{NS: u, Local: l, Paths: [][]int{}}
				for _, el := range root.Search(uri(u), l) {
					row.Paths = append(row.Paths, loc[el])
				}
				search = append(search, row)
			}
		}
		rec["search"] = search
		back, err := xmltree.Parse(xmltree.Marshal(root))
		if err != nil {
			rec["back"] = Tree{NS: "error", Local: err.Error(), Attrs: []TAttr{}, Kids: []Tree{}}
		} else {
			rec["back"] = observe(back)
		}
		emit(rec)
	}
}

func randomDoc(r *rand.Rand) Src {
	budget := 3 + r.Intn(22)
	texts := []string{"", "t", "amp", "cd", "u", "cm", "pi", "num", "crlf"}
	var gen func(depth int, scope map[string]string) Src
	gen = func(depth int, scope map[string]string) Src {
		budget--
		s := Src{Local: []string{"a", "b", "c"}[r.Intn(3)], Decls: []Decl{}, Attrs: []SAttr{}, Kids: []Src{}}
		sc := map[string]string{}
		for k, v := range scope {
			sc[k] = v
		}
		for _, p := range []string{"", "p", "q", "r", "s"} {
			if r.Intn(5) == 0 {
				u := []string{"u1", "u2", "u3", "u4", "uq"}[r.Intn(5)]
				if p == "" && r.Intn(3) == 0 {
					u = ""
				}
				s.Decls = append(s.Decls, Decl{p, u})
				sc[p] = u
			}
		}
		r.Shuffle(len(s.Decls), func(i, j int) { s.Decls[i], s.Decls[j] = s.Decls[j], s.Decls[i] })
		var ps []string
		for _, p := range []string{"p", "q", "r", "s"} {
			if _, ok := sc[p]; ok {
				ps = append(ps, p)
			}
		}
		if len(ps) > 0 && r.Intn(2) == 0 {
			s.Pfx = ps[r.Intn(len(ps))]
		}
		used := map[string]bool{}
		for k := r.Intn(4); k > 0; k-- {
			a := SAttr{"", []string{"x", "y", "z"}[r.Intn(3)], []string{"1", "e", "q", "nl", "u", "gt", "ws", "amp"}[r.Intn(8)]}
			if len(ps) > 0 && r.Intn(2) == 0 {
				a.Pfx = ps[r.Intn(len(ps))]
			}
			key := sc[a.Pfx] + " " + a.Local
			if a.Pfx == "" {
				key = " " + a.Local
			}
			if !used[key] {
				used[key] = true
				s.Attrs = append(s.Attrs, a)
			}
		}
		if depth < 9 {
			for k := r.Intn(4); k > 0 && budget > 0; k-- {
				s.Kids = append(s.Kids, gen(depth+1, sc))
			}
		}
		if len(s.Kids) == 0 {
			s.Text = texts[r.Intn(len(texts))]
		}
		return s
	}
	return gen(0, map[string]string{})
}

func checkDeep(c *ctx, raw json.RawMessage) {
	var v struct {
		Depth   int
		Shape   string
		Verdict string
	}
	decode(c, raw, &v)
	var b bytes.Buffer
	for i := 0; i < v.Depth; i++ {
		b.WriteString("<a>")
		if v.Shape == "comb" {
			b.WriteString("<b/>")
		}
	}
	if v.Shape != "open" { // otherwise the input ends too early
		for i := 0; i < v.Depth; i++ {
			b.WriteString("</a>")
		}
	}
	el, err := xmltree.Parse(b.Bytes())
	want := v.Verdict
	if v.Shape == "open" {
		want = "err"
	}
	c.check(want == "any" || (err == nil) == (want == "ok"), "document (%s) of depth %d: error %v, expected %s", v.Shape, v.Depth, err, want)
	if err != nil {
		return
	}
	n := v.Depth
	if v.Shape == "comb" {
		n *= 2
	}
	c.check(len(el.Flatten()) == n-1, "depth %d: Flatten gives %d elements, expected %d", v.Depth, len(el.Flatten()), n-1)
	if v.Verdict == "ok" {
		out := xmltree.Marshal(el)
		back, err := xmltree.Parse(out)
		if c.check(err == nil, "depth %d: reparse: %v", v.Depth, err) {
			c.check(len(back.Flatten()) == n-1, "depth %d: %d elements after Marshal", v.Depth, len(back.Flatten()))
			c.check(xmltree.Equal(el, back), "depth %d: not Equal after Marshal", v.Depth)
		}
		ind := xmltree.MarshalIndent(el, "", "")
		back, err = xmltree.Parse(ind)
		c.check(err == nil && len(back.Flatten()) == n-1, "depth %d: MarshalIndent loses elements (%v)", v.Depth, err)
	}
}
