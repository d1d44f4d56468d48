package main

// Bounds, built-in types, imports and normalized trees.

import (
	"bufio"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

func init() {
	checkers["bound"] = checkBound
	checkers["builtin"] = checkBuiltin
	checkers["imports"] = checkImports
	recorders["C11"] = recordNorm
}

type boundWant struct {
	Class string `json:"class"`
	V     string `json:"v"`
}

func checkBound(c *ctx, raw json.RawMessage) {
	var v struct {
		Base   string    `json:"base"`
		Named  bool      `json:"named"`
		Facets []xFac    `json:"facets"`
		Min    boundWant `json:"min"`
		Max    boundWant `json:"max"`
	}
	decode(c, raw, &v)
	base, extra := "xs:"+v.Base, ""
	if v.Named {
		base, extra = "t:B", fmt.Sprintf(`<xs:simpleType name="B"><xs:restriction base="xs:%s"/></xs:simpleType>`, v.Base)
	}
	doc := fmt.Sprintf(`<xs:schema xmlns:xs="%s" xmlns:t="urn:t" targetNamespace="urn:t">%s<xs:simpleType name="T"><xs:restriction base="%s">`, xsNS, extra, base)
	for _, f := range v.Facets {
		doc += fmt.Sprintf(`<xs:%s value="%s"/>`, f.F, f.V)
	}
	doc += `</xs:restriction></xs:simpleType></xs:schema>`
	schema, err := xsd.Parse([]byte(doc))
	c.checks++
	if err != nil {
		c.fail("Parse: %v\n%s", err, doc)
		return
	}
	t, ok := schema[0].Types[xml.Name{Space: "urn:t", Local: "T"}].(*xsd.SimpleType)
	if !ok {
		c.fail("type T is missing\n%s", doc)
		return
	}
	check := func(side string, n float64, d time.Time, w boundWant) {
		c.checks++
		wantN, wantD := 0.0, time.Time{}
		switch w.Class {
		case "num":
			wantN, _ = strconv.ParseFloat(w.V, 64)
		case "date", "dateTime":
			var err error
			if wantD, err = time.Parse(time.RFC3339Nano, w.V); err != nil {
				panic(err)
			}
		}
		if n != wantN || !d.Equal(wantD) {
			c.fail("%s is %v, %v; want %v, %v\n%s", side, n, d, wantN, wantD, doc)
		}
	}
	check("minimum", t.Restriction.Min, t.Restriction.MinDate, v.Min)
	check("maximum", t.Restriction.Max, t.Restriction.MaxDate, v.Max)
}

func checkBuiltin(c *ctx, raw json.RawMessage) {
	var v struct {
		NS       string `json:"ns"`
		N        string `json:"n"`
		Declared bool   `json:"declared"`
		Pos      string `json:"pos"`
		Meaning  string `json:"meaning"`
		Count    int    `json:"count"`
	}
	decode(c, raw, &v)
	name := xml.Name{Space: v.NS, Local: v.N}
	if v.Pos == "none" {
		b, err := xsd.ParseBuiltin(name)
		want := v.Meaning == "builtin"
		c.checks++
		if (err == nil) != want {
			c.fail("ParseBuiltin(%v) gives error %v", name, err)
			return
		}
		if !want {
			return
		}
		c.checks += 3
		if b.Name() != name {
			c.fail("%v is called %v", name, b.Name())
		}
		if xsd.XMLName(b) != name || xsd.Base(b) != nil {
			c.fail("%v is called %v and has base %v", name, xsd.XMLName(b), xsd.Base(b))
		}
		// The schema that go with every result have it, too.
		schema, err := xsd.Parse([]byte(fmt.Sprintf(`<schema xmlns="%s" targetNamespace="urn:t"/>`, xsNS)))
		if err != nil {
			c.fail("Parse: %v", err)
			return
		}
		found := name.Local == "anySimpleType" // no use on its own, and not promised
		for _, s := range schema {
			if t, ok := s.Types[name]; ok && s.TargetNS == xsNS {
				found = t == xsd.Type(b)
			}
		}
		c.checks++
		if !found {
			c.fail("the schema for %s do not have %s", xsNS, name.Local)
		}
		// Every constant has a name of its own.
		seen := map[xml.Name]xsd.Builtin{}
		n := 0
		for i := xsd.AnyType; i <= xsd.AnySimpleType; i++ {
			if o, ok := seen[i.Name()]; ok {
				c.fail("%v and %v have the same name", o, i)
			}
			seen[i.Name()] = i
			if i.Name().Space == xsNS {
				n++
			}
			if j, err := xsd.ParseBuiltin(i.Name()); err != nil || j != i {
				c.fail("ParseBuiltin(%v) is %v, %v", i.Name(), j, err)
			}
		}
		if n != v.Count {
			c.fail("%d names, want %d", n, v.Count)
		}
		return
	}
	ref := "xs:" + v.N
	if v.NS != xsNS {
		ref = "t:" + v.N
	}
	doc := fmt.Sprintf(`<xs:schema xmlns:xs="%s" xmlns:t="urn:t" targetNamespace="urn:t">`, xsNS)
	if v.Declared {
		doc += fmt.Sprintf(`<xs:simpleType name="%s"><xs:restriction base="xs:int"/></xs:simpleType>`, v.N)
	}
	switch v.Pos {
	case "element":
		doc += fmt.Sprintf(`<xs:complexType name="T1"><xs:sequence><xs:element name="e" type="%s"/></xs:sequence></xs:complexType>`, ref)
	case "attribute":
		doc += fmt.Sprintf(`<xs:complexType name="T1"><xs:attribute name="e" type="%s"/></xs:complexType>`, ref)
	case "restriction":
		doc += fmt.Sprintf(`<xs:simpleType name="T1"><xs:restriction base="%s"/></xs:simpleType>`, ref)
	case "list":
		doc += fmt.Sprintf(`<xs:simpleType name="T1"><xs:list itemType="%s"/></xs:simpleType>`, ref)
	case "union":
		doc += fmt.Sprintf(`<xs:simpleType name="T1"><xs:union memberTypes="xs:int %s"/></xs:simpleType>`, ref)
	case "extension":
		doc += fmt.Sprintf(`<xs:complexType name="T1"><xs:simpleContent><xs:extension base="%s"/></xs:simpleContent></xs:complexType>`, ref)
	case "global":
		doc += fmt.Sprintf(`<xs:element name="T1" type="%s"/>`, ref)
	}
	doc += `</xs:schema>`
	schema, err := xsd.Parse([]byte(doc))
	c.checks++
	if (err != nil) != (v.Meaning == "error") {
		c.fail("Parse: %v\n%s", err, doc)
		return
	}
	if err != nil {
		return
	}
	var got xsd.Type
	t := schema[0].Types[xml.Name{Space: "urn:t", Local: "T1"}]
	switch v.Pos {
	case "element":
		got = t.(*xsd.ComplexType).Elements[0].Type
	case "attribute":
		got = t.(*xsd.ComplexType).Attributes[0].Type
	case "union":
		got = t.(*xsd.SimpleType).Union[1]
	case "global":
		got = t
	default:
		got = xsd.Base(t)
	}
	b, isB := got.(xsd.Builtin)
	if v.Meaning == "builtin" {
		if !isB || b.Name() != name {
			c.fail("%s means %s\n%s", ref, typeString(got), doc)
		}
	} else if isB || got != schema[0].Types[name] {
		c.fail("%s means %s\n%s", ref, typeString(got), doc)
	}
}

func checkImports(c *ctx, raw json.RawMessage) {
	type ref struct {
		NS  string `json:"ns"`
		Loc string `json:"loc"`
	}
	var v struct {
		Schemas []struct {
			NS    string `json:"ns"`
			Style string `json:"style"`
			Stmts []struct {
				S   string `json:"s"`
				NS  string `json:"ns"`
				Loc string `json:"loc"`
			} `json:"stmts"`
		} `json:"schemas"`
		Wrap bool  `json:"wrap"`
		Refs []ref `json:"refs"`
	}
	decode(c, raw, &v)
	doc := ""
	for _, s := range v.Schemas {
		p, d := "x:", ` xmlns:x="`+xsNS+`"`
		if s.Style == "d" {
			p, d = "", ` xmlns="`+xsNS+`"`
		}
		doc += "<" + p + "schema" + d
		if s.NS != "" {
			doc += attr("targetNamespace", s.NS)
		}
		doc += ">"
		for _, x := range s.Stmts {
			at := ""
			if x.NS != "" && x.S == "import" {
				at += attr("namespace", x.NS)
			}
			if x.Loc != "" {
				at += attr("schemaLocation", x.Loc)
			}
			switch x.S {
			case "import", "include":
				doc += "<" + p + x.S + at + "/>"
			case "decoy":
				doc += `<import xmlns="urn:other" namespace="urn:no"` + at + `/>`
			case "text":
				doc += `<!-- <` + p + `include` + at + `/> -->`
			}
		}
		doc += "</" + p + "schema>"
	}
	if v.Wrap {
		doc = `<w:types xmlns:w="urn:wrap" targetNamespace="urn:no">` + doc + `</w:types>`
	}
	data := []byte(doc)
	refs, err := xsd.Imports(data)
	c.checks += 2
	if string(data) != doc {
		c.fail("Imports overwrites its input")
	}
	if err != nil {
		c.fail("Imports: %v\n%s", err, doc)
		return
	}
	var a, b []string
	for _, r := range refs {
		a = append(a, r.Namespace+" "+r.Location)
	}
	for _, r := range v.Refs {
		b = append(b, r.NS+" "+r.Loc)
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "|") != strings.Join(b, "|") {
		c.fail("Imports returns %q, want %q\n%s", a, b, doc)
	}
}

// normNode is a node of a normalized tree.
type normNode struct {
	N    string     `json:"n"`
	TNS  string     `json:"tns"`
	Name string     `json:"name"`
	Type string     `json:"type"`
	Ref  bool       `json:"ref"`
	Q    []normName `json:"q"`
	C    []normNode `json:"c"`
}

type normName struct {
	NS string `json:"ns"`
	N  string `json:"n"`
}

func normTree(el *xmltree.Element) normNode {
	n := normNode{N: el.Name.Local, TNS: el.Attr("", "targetNamespace"), Type: el.Attr("", "type"),
		Ref: el.Attr("", "ref") != "", Q: []normName{}, C: []normNode{}}
	n.Name = el.Attr("", "name")
	if i := strings.IndexByte(n.Name, ':'); i >= 0 {
		n.Name = n.Name[i+1:]
	}
	for _, a := range []string{"type", "base", "itemType", "memberTypes"} {
		for _, q := range strings.Fields(el.Attr("", a)) {
			x, ok := el.ResolveNS(q)
			if !ok {
				x = el.Resolve(q)
			}
			n.Q = append(n.Q, normName{x.Space, x.Local})
		}
	}
	for i := range el.Children {
		if el.Children[i].Name.Space == xsNS {
			n.C = append(n.C, normTree(&el.Children[i]))
		}
	}
	return n
}

func recordNorm(seed int64, n int, emit func(v interface{})) {
	f, err := os.Open(os.Getenv("DRV_VECTORS"))
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	k := 0
	for sc.Scan() {
		if k++; n > 0 && k > n {
			return
		}
		raw, err := unquote(sc.Bytes())
		if err != nil {
			panic(err)
		}
		var v xsdVector
		if err := json.Unmarshal(raw, &v); err != nil {
			panic(err)
		}
		docs := renderWorld(v.W, v.Wrap, rand.New(rand.NewSource(seed+int64(k))))
		var w struct {
			W json.RawMessage `json:"w"`
		}
		json.Unmarshal(raw, &w)
		rec := map[string]interface{}{"w": w.W, "error": "", "standard": len(xsd.StandardSchema), "docs": joinDocs(docs)}
		trees, err := xsd.Normalize(docs...)
		out := []normNode{}
		if err != nil {
			rec["error"] = err.Error()
		}
		rec["extra"] = len(trees) - len(v.W)
		for i, t := range trees {
			if i < len(v.W) {
				out = append(out, normTree(t))
			}
		}
		rec["trees"] = out
		emit(rec)
	}
}
