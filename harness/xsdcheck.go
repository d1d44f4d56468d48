package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

func init() {
	checkers["xsd"] = checkXsd
}

// xsdCmp compares what Parse reports with what the specification says.
// Every difference belongs to the properties that speak about it.
type xsdCmp struct {
	*ctx
	byNS map[string][]xsd.Schema
	docs string
	// the annotations are those of the specification
	noted bool
	// every difference counts
	every bool
}

func (c *xsdCmp) is(props ...string) bool { return c.every || c.ctx.is(props...) }

func (c *xsdCmp) want(ok bool, props []string, format string, args ...interface{}) bool {
	if !c.is(props...) {
		return ok
	}
	c.checks++
	if !ok {
		c.fail("%s", fmt.Sprintf(format, args...)+"\n"+c.docs)
	}
	return ok
}

var (
	pAll   = []string{"C08", "C12", "C13", "C14", "C15", "C31"}
	pRefs  = []string{"C12", "C31"}
	pFlags = []string{"C13", "C31"}
	pGroup = []string{"C13", "C14", "C31"}
	pMixed = []string{"C15", "C31"}
	pDoc   = []string{"C31"}
	pFacet = []string{"C08", "C31"}
)

func checkXsd(c *ctx, raw json.RawMessage) {
	var v xsdVector
	decode(c, raw, &v)
	docs := renderWorld(v.W, v.Wrap, c.rng)
	if c.is("C33") {
		if !v.Error {
			checkNormal(c, v, docs)
		}
		return
	}
	schema, err := xsd.Parse(docs...)
	x := &xsdCmp{ctx: c, noted: hasAnyNotes(v.W), docs: joinDocs(docs), byNS: map[string][]xsd.Schema{}}
	if v.Error {
		x.want(err != nil, pAll, "Parse accepts schema with undeclared or circular references")
		return
	}
	if !x.want(err == nil, pAll, "Parse: %v", err) {
		return
	}
	extra := len(xsd.StandardSchema) + 1
	if !x.want(len(schema) == len(v.W)+extra, pAll, "%d schema for %d", len(schema), len(v.W)) {
		return
	}
	for i := range v.Reports {
		if !x.want(schema[i].TargetNS == v.Reports[i].NS, pAll, "schema %d is %s, want %s", i, schema[i].TargetNS, v.Reports[i].NS) {
			return
		}
		x.byNS[schema[i].TargetNS] = append(x.byNS[schema[i].TargetNS], schema[i])
	}
	for i, rep := range v.Reports {
		x.schema(schema[i], rep)
	}
}

// checkNormal parses what Normalize returns.
func checkNormal(c *ctx, v xsdVector, docs [][]byte) {
	trees, err := xsd.Normalize(docs...)
	n := len(v.W)
	if !c.check(err == nil && len(trees) >= n, "Normalize: %v, %d trees\n%s", err, len(trees), joinDocs(docs)) {
		return
	}
	var norm [][]byte
	for _, t := range trees[:n] {
		if c.rng.Intn(3) > 0 {
			norm = append(norm, xmltree.Marshal(t))
		} else {
			norm = append(norm, xmltree.MarshalIndent(t, "", " "))
		}
	}
	text := joinDocs(docs) + "\n==\n" + joinDocs(norm)
	schema, err := xsd.Parse(norm...)
	if !c.check(err == nil && len(schema) >= n, "Parse of normalized schema: %v, %d schema\n%s", err, len(schema), text) {
		return
	}
	x := &xsdCmp{ctx: c, every: true, noted: hasAnyNotes(v.W), docs: text, byNS: map[string][]xsd.Schema{}}
	for _, s := range schema[:n] {
		x.byNS[s.TargetNS] = append(x.byNS[s.TargetNS], s)
	}
	for i, rep := range v.Reports {
		x.want(schema[i].TargetNS == rep.NS, pAll, "schema %d is %s, want %s", i, schema[i].TargetNS, rep.NS)
		x.schema(schema[i], rep)
	}
	// What is normal stays as it is.
	again, err := xsd.Normalize(norm...)
	if !c.check(err == nil && len(again) == len(trees), "Normalize of normalized schema: %v, %d trees\n%s", err, len(again), text) {
		return
	}
	for i := range trees[:n] {
		c.check(xmltree.Equal(trees[i], again[i]), "normalizing again gives\n%s\n%s", xmltree.Marshal(again[i]), text)
	}
}

func hasAnyNotes(ws []xSchema) bool {
	for _, s := range ws {
		if hasNotes(s) {
			return true
		}
	}
	return false
}

func (c *xsdCmp) schema(s xsd.Schema, rep vReport) {
	declared := map[string]bool{}
	c.doc("the schema", s.Doc, rep.Doc)
	for _, t := range rep.Types {
		declared[t.N] = true
		got, ok := s.Types[xml.Name{Space: s.TargetNS, Local: t.N}]
		if !c.want(ok, pAll, "type %s is missing", t.N) {
			continue
		}
		n := xsd.XMLName(got)
		c.want(n.Local == t.N && n.Space == s.TargetNS, pAll, "type %s is called %v", t.N, n)
		c.view(t.N, got, t.V, false)
	}
	self, ok := s.Types[xml.Name{Space: s.TargetNS, Local: "_self"}].(*xsd.ComplexType)
	if c.want(ok, pAll, "no _self in %s", s.TargetNS) {
		c.elements("_self", self.Elements, rep.Self)
	}
	for _, e := range rep.Self {
		t, ok := s.Types[xml.Name{Space: s.TargetNS, Local: e.N}]
		if c.want(ok, pRefs, "element %s cannot be looked up", e.N) && !declared[e.N] && e.Ty.T != "a" {
			if n := xsd.XMLName(t); n.Local != e.N {
				c.typeRef("alias "+e.N, t, e.Ty)
			}
		}
	}
	// every declared and every anonymous type is there, and nothing else
	own := 0
	for n, t := range s.Types {
		if xsd.XMLName(t) == n {
			own++
			if t, ok := t.(*xsd.ComplexType); ok && t.Anonymous {
				c.want(!declared[n.Local], pAll, "anonymous type takes the name of %s", n.Local)
			}
		}
	}
	c.want(own == len(rep.Types)+rep.Anons+1, pRefs, "%d types in %s, want %d declared and %d anonymous",
		own-1, s.TargetNS, len(rep.Types), rep.Anons)
}

func (c *xsdCmp) view(path string, got xsd.Type, v vView, anon bool) {
	switch t := got.(type) {
	case *xsd.ComplexType:
		if !c.want(v.K == "ct", pAll, "%s is complex", path) {
			return
		}
		c.want(t.Abstract == v.Abs, pFlags, "%s: abstract %v", path, t.Abstract)
		c.want(t.Extends == v.Ext, pMixed, "%s: extends %v", path, t.Extends)
		c.want(t.Mixed == v.Mixed, pMixed, "%s: mixed %v, want %v", path, t.Mixed, v.Mixed)
		c.typeRef(path+" base", t.Base, v.Base)
		c.doc(path, t.Doc, v.Doc, v.Cdoc)
		c.elements(path, t.Elements, v.Els)
		c.attributes(path, t.Attributes, v.Ats)
	case *xsd.SimpleType:
		if !c.want(v.K == "st", pAll, "%s is simple", path) {
			return
		}
		c.want(t.List == v.List, pFacet, "%s: list %v", path, t.List)
		c.typeRef(path+" base", t.Base, v.Base)
		if c.want(len(t.Union) == len(v.Mem), append(pFacet, pRefs...), "%s: %d members, want %d", path, len(t.Union), len(v.Mem)) {
			for i := range v.Mem {
				c.typeRef(fmt.Sprintf("%s member %d", path, i), t.Union[i], v.Mem[i])
			}
		}
		c.facets(path, t.Restriction, v.Fac)
		c.doc(path, t.Doc, v.Doc)
		c.doc(path+" restriction", withoutPattern(c, path, t.Restriction.Doc, v.Fac), v.Rdoc)
	default:
		c.want(false, pAll, "%s is %s", path, typeString(got))
		return
	}
	// the chain of base types
	var chain []xsd.Type
	for b := xsd.Base(got); b != nil && len(chain) < 100; b = xsd.Base(b) {
		chain = append(chain, b)
	}
	if c.want(len(chain) == len(v.Chain), pRefs, "%s: %d base types, want %d", path, len(chain), len(v.Chain)) {
		for i, w := range v.Chain {
			switch w.T {
			case "b":
				b, ok := chain[i].(xsd.Builtin)
				c.want(ok && b.Name() == builtinName(w.N), pRefs, "%s: base %d is %s, want %s", path, i, typeString(chain[i]), w.N)
			case "n":
				n := xsd.XMLName(chain[i])
				c.want(n.Space == w.NS && n.Local == w.N, pRefs, "%s: base %d is %v, want %v", path, i, n, w.N)
			}
		}
	}
}

func (c *xsdCmp) typeRef(path string, got xsd.Type, want vType) {
	switch want.T {
	case "b":
		b, ok := got.(xsd.Builtin)
		c.want(ok && b.Name() == builtinName(want.N), pRefs, "%s: type %s, want builtin %s", path, typeString(got), want.N)
	case "n":
		if !c.want(got != nil, pRefs, "%s: no type, want %s", path, want.N) {
			return
		}
		found := false
		for _, s := range c.byNS[want.NS] {
			if t, ok := s.Types[xml.Name{Space: want.NS, Local: want.N}]; ok && t == got {
				found = true
			}
		}
		c.want(found, pRefs, "%s: type %s, want {%s}%s", path, typeString(got), want.NS, want.N)
	case "a":
		var v vView
		if err := json.Unmarshal(want.D, &v); err != nil {
			panic(err)
		}
		if !c.want(got != nil, pAll, "%s: no type", path) {
			return
		}
		n := xsd.XMLName(got)
		if _, ok := got.(xsd.Builtin); !c.want(!ok, pAll, "%s: type %s, want the anonymous type", path, typeString(got)) {
			return
		}
		found := false
		for _, s := range c.byNS[want.NS] {
			if t, ok := s.Types[n]; ok && t == got {
				found = true
			}
		}
		c.want(found && n.Local != "" && n.Space == want.NS, pRefs, "%s: anonymous type is %s", path, typeString(got))
		c.view(path+"/"+n.Local, got, v, true)
	}
}

func (c *xsdCmp) elements(path string, got []xsd.Element, want []vEl) {
	names := func() (a, b []string) {
		for _, e := range got {
			a = append(a, e.Name.Space+" "+e.Name.Local)
		}
		for _, e := range want {
			b = append(b, e.NS+" "+e.N)
		}
		return
	}
	if len(got) != len(want) {
		a, b := names()
		c.want(false, pAll, "%s: elements %v, want %v", path, a, b)
		return
	}
	for i, w := range want {
		g := got[i]
		p := fmt.Sprintf("%s element %d %s", path, i, w.N)
		if !c.want(g.Wildcard == w.Wild, pGroup, "%s: wildcard %v", p, g.Wildcard) {
			continue
		}
		c.want(g.Plural == w.Plu, pGroup, "%s: plural %v", p, g.Plural)
		if w.Wild {
			continue
		}
		c.want(g.Name.Local == w.N, pAll, "%s: called %v", p, g.Name)
		c.want(g.Name.Space == w.NS, append(pRefs, "C14"), "%s: is in namespace %s, want %s", p, g.Name.Space, w.NS)
		c.want(g.Optional == w.Opt, pGroup, "%s: optional %v", p, g.Optional)
		c.want(g.Nillable == w.Nil, pFlags, "%s: nillable %v", p, g.Nillable)
		c.want(g.Default == w.Def, pFlags, "%s: default %q, want %q", p, g.Default, w.Def)
		c.want(g.Abstract == w.Abs, pFlags, "%s: abstract %v", p, g.Abstract)
		c.doc(p, g.Doc, w.Doc)
		if c.is("C14") {
			d := &xsdCmp{ctx: &ctx{prop: "C12"}, byNS: c.byNS}
			d.typeRef(p, g.Type, w.Ty)
			c.want(len(d.fails) == 0, pGroup, "%v", d.fails)
		}
		c.typeRef(p, g.Type, w.Ty)
	}
}

func (c *xsdCmp) attributes(path string, got []xsd.Attribute, want []vAt) {
	if len(got) != len(want) {
		var a, b []string
		for _, e := range got {
			a = append(a, e.Name.Local)
		}
		for _, e := range want {
			b = append(b, e.N)
		}
		c.want(false, pAll, "%s: attributes %v, want %v", path, a, b)
		return
	}
	for i, w := range want {
		g := got[i]
		p := fmt.Sprintf("%s attribute %d %s", path, i, w.N)
		c.want(g.Name.Local == w.N, pAll, "%s: called %v", p, g.Name)
		if w.NS != "*" {
			c.want(g.Name.Space == w.NS, append(pRefs, "C14"), "%s: is in namespace %s, want %s", p, g.Name.Space, w.NS)
		}
		c.want(g.Optional == w.Opt, pGroup, "%s: optional %v", p, g.Optional)
		c.want(g.Default == w.Def, pFlags, "%s: default %q, want %q", p, g.Default, w.Def)
		c.doc(p, g.Doc, w.Doc)
		if c.is("C14") {
			d := &xsdCmp{ctx: &ctx{prop: "C12"}, byNS: c.byNS}
			d.typeRef(p, g.Type, w.Ty)
			c.want(len(d.fails) == 0, pGroup, "%v", d.fails)
		}
		c.typeRef(p, g.Type, w.Ty)
	}
}

// doc compares documentation, line by line and without repetitions. The
// order of what comes from several places is not specified.
func (c *xsdCmp) doc(path, got string, parts ...[]string) {
	if !c.is(pDoc...) || !c.noted {
		return
	}
	lines := docLines(got)
	left := map[string]bool{}
	for _, l := range lines {
		left[l] = true
	}
	for _, part := range parts {
		i := 0
		seen := map[string]bool{}
		for _, l := range part {
			if seen[l] {
				continue
			}
			seen[l] = true
			for i < len(lines) && lines[i] != l {
				i++
			}
			c.want(i < len(lines), pDoc, "%s: documentation %q lacks %q", path, got, l)
			delete(left, l)
		}
	}
	c.want(len(left) == 0, pDoc, "%s: documentation is %q, want %q", path, got, parts)
}

func docLines(doc string) (lines []string) {
	seen := map[string]bool{}
	for _, l := range strings.Split(doc, "\n") {
		if l = strings.TrimSpace(l); l != "" && !seen[l] {
			seen[l] = true
			lines = append(lines, l)
		}
	}
	return lines
}

// withoutPattern removes what is said of patterns that cannot be used.
func withoutPattern(c *xsdCmp, path, doc string, w vFac) string {
	if !hasBadPattern(w) {
		return doc
	}
	pat := facetValue("pattern", "bad")
	var rest []string
	said := false
	for _, l := range strings.Split(doc, "\n") {
		if strings.Contains(l, pat) || strings.Contains(l, strconv.Quote(pat)) || strings.Contains(l, strings.Trim(strconv.Quote(pat), `"`)) {
			said = true
		} else {
			rest = append(rest, l)
		}
	}
	c.want(said, pFacet, "%s: nothing is said of the pattern that cannot be used: %q", path, doc)
	return strings.Join(rest, "\n")
}

func hasBadPattern(w vFac) bool {
	for _, p := range w.Pattern {
		if p == "bad" {
			return true
		}
	}
	return false
}

func (c *xsdCmp) facets(path string, r xsd.Restriction, w vFac) {
	num := func(s string) (n int) { fmt.Sscan(s, &n); return }
	c.want(strings.Join(r.Enum, "|") == strings.Join(w.Enum, "|") && len(r.Enum) == len(w.Enum), pFacet, "%s: enum %q, want %q", path, r.Enum, w.Enum)
	c.want(r.Length == num(w.Len), pFacet, "%s: length %d", path, r.Length)
	c.want(r.MinLength == num(w.Minlen), pFacet, "%s: minLength %d", path, r.MinLength)
	c.want(r.MaxLength == num(w.Maxlen), pFacet, "%s: maxLength %d", path, r.MaxLength)
	c.want(r.TotalDigits == num(w.Total), pFacet, "%s: totalDigits %d", path, r.TotalDigits)
	c.want(r.Precision == num(w.Frac), pFacet, "%s: fractionDigits %d", path, r.Precision)
	if hasBadPattern(w) {
		c.want(r.Pattern == nil, pFacet, "%s: pattern %v, although one of the patterns cannot be used", path, r.Pattern)
		return
	}
	if !c.want((r.Pattern != nil) == (len(w.Pattern) > 0), pFacet, "%s: pattern %v", path, r.Pattern) || r.Pattern == nil {
		return
	}
	for _, s := range []string{"", "abc", "12", "A", "x1"} {
		m := false
		for _, p := range w.Pattern {
			m = m || regexp.MustCompile(p).MatchString(s)
		}
		c.want(r.Pattern.MatchString(s) == m, pFacet, "%s: pattern %v on %q", path, r.Pattern, s)
	}
}
