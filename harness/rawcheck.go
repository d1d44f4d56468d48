package main

// Broken documents of spec/RawSchema.tla: whatever they are, there is an
// answer, and what is accepted is complete.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func init() { checkers["raw"] = checkRaw }

type rawVector struct {
	Doc []struct {
		N  string      `json:"n"`
		D  int         `json:"d"`
		At [][2]string `json:"at"`
	} `json:"doc"`
	Cut     int    `json:"cut"`
	Verdict string `json:"verdict"`
}

const rawNS = ` xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/"` +
	` xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/"`

func (v *rawVector) render() []byte {
	var b bytes.Buffer
	var open []string
	end := func(depth int) {
		for len(open) > depth {
			fmt.Fprintf(&b, "</%s>", open[len(open)-1])
			open = open[:len(open)-1]
		}
	}
	for i, e := range v.Doc {
		end(e.D)
		name := e.N
		if !strings.Contains(name, ":") {
			name = "xs:" + name
		}
		fmt.Fprintf(&b, "\n%s<%s", strings.Repeat(" ", e.D), name)
		if i == 0 {
			b.WriteString(rawNS)
		}
		for _, a := range e.At {
			b.WriteString(attr(a[0], a[1]))
		}
		b.WriteString(">")
		open = append(open, name)
	}
	end(0)
	text := bytes.TrimSpace(b.Bytes())
	if v.Cut >= 0 {
		text = text[:len(text)*v.Cut/1000]
	}
	return text
}

func checkRaw(c *ctx, raw json.RawMessage) {
	var v rawVector
	decode(c, raw, &v)
	text := v.render()
	fail := func(format string, args ...interface{}) {
		c.fail("%s\n%s", fmt.Sprintf(format, args...), text)
	}
	want := func(ok bool, format string, args ...interface{}) {
		c.checks++
		if !ok {
			fail(format, args...)
		}
	}
	attempt := func(what string, f func() error) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic")
				fail("%s panics: %v", what, r)
			}
		}()
		c.checks++
		return f()
	}
	// There is room for more documents in the slice, which is not ours.
	other := []byte("<not-read/>")
	docs := make([][]byte, 1, 8)
	docs[0] = append([]byte{}, text...)
	for i := range docs[1:8] {
		docs[1:8][i] = other
	}
	untouched := func(what string) {
		want(bytes.Equal(docs[0], text), "%s changes the document", what)
		for _, d := range docs[1:8] {
			want(len(d) == len(other) && &d[0] == &other[0], "%s changes documents that it was not given", what)
		}
	}
	var schema []xsd.Schema
	err := attempt("Parse", func() (err error) { schema, err = xsd.Parse(docs...); return })
	untouched("Parse")
	switch v.Verdict {
	case "wrong":
		want(err != nil, "Parse accepts a document that is wrong")
	case "legal":
		want(err == nil, "Parse rejects a correct document: %v", err)
	case "any":
	default:
		panic(v.Verdict)
	}
	c.note(v.Verdict + map[bool]string{true: " accepted", false: " rejected"}[err == nil])
	if err == nil {
		want(len(schema) > len(xsd.StandardSchema), "%d schema are returned", len(schema))
		for _, s := range schema {
			if msg := incomplete(s); msg != "" {
				fail("the schema for %q are not complete: %s", s.TargetNS, msg)
			}
		}
	} else {
		want(schema == nil, "Parse returns schema along with an error")
	}
	again := attempt("Parse", func() (err error) { _, err = xsd.Parse(docs...); return })
	want((again == nil) == (err == nil), "Parse gives another answer the second time: %v", again)
	nerr := attempt("Normalize", func() error { _, err := xsd.Normalize(docs...); return err })
	want(nerr == nil || err != nil, "Normalize rejects what Parse accepts: %v", nerr)
	untouched("Normalize")
	attempt("Imports", func() error { _, err := xsd.Imports(docs[0]); return err })
	untouched("Imports")

	dir, terr := ioutil.TempDir(workDir(), "raw")
	if terr != nil {
		panic(terr)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "doc.xml")
	if err := ioutil.WriteFile(file, text, 0666); err != nil {
		panic(err)
	}
	var cfg xsdgen.Config
	cfg.Option(xsdgen.DefaultOptions...)
	gerr := attempt("GenSource", func() error { _, err := cfg.GenSource(file); return err })
	want(err == nil || gerr != nil, "GenSource generates code for what Parse rejects: %v", err)

	if v.Doc[0].N != "wsdl:definitions" {
		return
	}
	derr := attempt("wsdl.Parse", func() error {
		def, err := wsdl.Parse(docs[0])
		if err == nil {
			_ = def.String()
		}
		want((def == nil) == (err != nil), "wsdl.Parse returns %v and %v", def, err)
		return err
	})
	untouched("wsdl.Parse")
	want((derr != nil) == (v.Cut >= 0), "wsdl.Parse returns %v", derr)
	var wcfg wsdlgen.Config
	wcfg.Option(wsdlgen.DefaultOptions...)
	wcfg.XSDOption(xsdgen.DefaultOptions...)
	werr := attempt("wsdlgen", func() error { _, err := wcfg.GenSource(file); return err })
	want(err == nil || werr != nil, "wsdlgen generates code for what Parse rejects")
	b, _ := ioutil.ReadFile(file)
	want(bytes.Equal(b, text), "the file is changed")
}

// incomplete reports what is missing from a schema that was accepted.
func incomplete(s xsd.Schema) string {
	known := func(t xsd.Type) bool {
		switch t := t.(type) {
		case xsd.Builtin:
			return true
		case *xsd.ComplexType:
			return t != nil
		case *xsd.SimpleType:
			return t != nil
		}
		return false
	}
	if _, ok := s.Types[xml.Name{Space: s.TargetNS, Local: "_self"}]; !ok && s.TargetNS != xsNS {
		return "no _self"
	}
	for name, t := range s.Types {
		if !known(t) {
			return fmt.Sprintf("type %s is %T", name.Local, t)
		}
		n := 0
		b := t
		for ; ; n++ {
			if _, ok := b.(xsd.Builtin); ok {
				break
			}
			if b = xsd.Base(b); !known(b) || n > 1000 {
				return fmt.Sprintf("the bases of type %s do not end in a builtin type", name.Local)
			}
		}
		switch t := t.(type) {
		case *xsd.ComplexType:
			for _, e := range t.Elements {
				if !known(e.Type) {
					return fmt.Sprintf("element %s of type %s has type %T", e.Name.Local, name.Local, e.Type)
				}
			}
			for _, a := range t.Attributes {
				if !known(a.Type) {
					return fmt.Sprintf("attribute %s of type %s has type %T", a.Name.Local, name.Local, a.Type)
				}
			}
		case *xsd.SimpleType:
			for _, u := range t.Union {
				if !known(u) {
					return fmt.Sprintf("a member of type %s is %T", name.Local, u)
				}
			}
		}
	}
	return ""
}
