package main

// Options: histories of spec/GenOptions.tla applied to configurations of
// xsdgen, and what they generate in between.

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"

	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

type optStep struct {
	Op struct {
		Do   string   `json:"do"`
		C    string   `json:"c"`
		S    string   `json:"s"`
		Opts []string `json:"opts"`
	} `json:"op"`
	Gen  string   `json:"gen"`
	Docs []string `json:"docs"`
	Logs string   `json:"logs"`
	Exp  struct {
		Err   bool   `json:"err"`
		Pkg   string `json:"pkg"`
		Open  bool   `json:"open"`
		Extra string `json:"extra"`
		Types []struct {
			Name   string   `json:"name"`
			Must   bool     `json:"must"`
			Slice  bool     `json:"slice"`
			Fields []string `json:"fields"`
			Loose  bool     `json:"loose"`
			Set    bool     `json:"set"`
		} `json:"types"`
	} `json:"exp"`
}

func init() { checkers["options"] = checkOptions }

const optDocA = `<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a" xmlns:a="urn:a"
 xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/" xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" elementFormDefault="qualified">
<complexType name="abc"><sequence><element name="one" type="xs:string"/><element name="two" type="a:bca"/></sequence>
 <attribute name="id" type="xs:string"/><attribute name="k" type="xs:string"/></complexType>
<complexType name="bca"><sequence><element name="da" type="xs:int"/></sequence></complexType>
<complexType name="cab"><sequence><element name="one" type="xs:int"/><element name="no"><complexType><sequence><element name="m_b" type="xs:string"/></sequence></complexType></element></sequence></complexType>
<complexType name="arr"><complexContent><restriction base="soapenc:Array"><attribute ref="soapenc:arrayType" wsdl:arrayType="xs:int[]"/></restriction></complexContent></complexType>
</schema>`

const optDocB = `<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b" xmlns:a="urn:a" elementFormDefault="qualified">
<import namespace="urn:a"/>
<complexType name="bac"><sequence><element name="one" type="xs:string"/><element name="two" type="a:bca"/></sequence></complexType>
<complexType name="ac_b"><attribute name="k" type="xs:string"/></complexType>
</schema>`

type countLog struct{ n int }

func (l *countLog) Printf(string, ...interface{}) { l.n++ }

// addAttr is a hook that gives every complex type another attribute.
func addAttr(name string) func(xsd.Schema, xsd.Type) xsd.Type {
	return func(s xsd.Schema, t xsd.Type) xsd.Type {
		if c, ok := t.(*xsd.ComplexType); ok {
			c.Attributes = append(c.Attributes, xsd.Attribute{Name: xml.Name{Local: name}, Type: xsd.String, Optional: true})
		}
		return t
	}
}

func checkOptions(c *ctx, raw json.RawMessage) {
	var v struct {
		Steps []optStep `json:"steps"`
	}
	decode(c, raw, &v)
	logs := map[string]*countLog{"1": {}, "2": {}}
	options := map[string]xsdgen.Option{ // shared between the configurations
		"ns0": xsdgen.Namespaces(), "nsA": xsdgen.Namespaces("urn:a"), "nsB": xsdgen.Namespaces("urn:b"), "nsAB": xsdgen.Namespaces("urn:a", "urn:b"),
		"nsAA": xsdgen.Namespaces("urn:a", "urn:a"), "nsAM": xsdgen.Namespaces("urn:a", "urn:m"),
		"pkgP": xsdgen.PackageName("p"), "pkgQ": xsdgen.PackageName("q"),
		"ignA0": xsdgen.IgnoreAttributes(), "ignA1": xsdgen.IgnoreAttributes("k", "id"), "ignA2": xsdgen.IgnoreAttributes("id", "href", "offset", "p"),
		"ignE1": xsdgen.IgnoreElements("one"), "ignE2": xsdgen.IgnoreElements("two", "no"),
		"only1": xsdgen.OnlyTypes("^abc$", "^cab$"), "only2": xsdgen.OnlyTypes("^(bca|arr)$"),
		"allow1": xsdgen.AllowType(xml.Name{Space: "urn:a", Local: "abc"}), "allow2": xsdgen.AllowType(xml.Name{Space: "urn:b", Local: "bac"}), "allow3": xsdgen.AllowType(xml.Name{Space: "urn:a", Local: "arr"}),
		"replac": xsdgen.Replace("a", "c"), "replcx": xsdgen.Replace("c", "xy"), "replb": xsdgen.Replace("b", ""), "replbad": xsdgen.Replace("(", "z"),
		"procp": xsdgen.ProcessTypes(addAttr("p")), "procq": xsdgen.ProcessTypes(addAttr("q")),
		"names": xsdgen.UseFieldNames(), "soap": xsdgen.HandleSOAPArrayType(), "slice": xsdgen.SOAPArrayAsSlice(),
		"out1": xsdgen.LogOutput(logs["1"]), "out2": xsdgen.LogOutput(logs["2"]), "out0": xsdgen.LogOutput(nil),
		"lvl0": xsdgen.LogLevel(0), "lvl5": xsdgen.LogLevel(5),
	}
	configs := map[string]*xsdgen.Config{"c1": {}, "c2": {}, "c3": {}}
	undo, redo := make(map[string][]xsdgen.Option), make(map[string][]xsdgen.Option)
	pop := func(m map[string][]xsdgen.Option, key string) xsdgen.Option {
		l := m[key]
		m[key] = l[:len(l)-1]
		return l[len(l)-1]
	}
	var story []string
	for i, s := range v.Steps {
		story = append(story, fmt.Sprintf("%s %s %s%v", s.Op.C, s.Op.Do, s.Op.S, s.Op.Opts))
		cfg, key := configs[s.Op.C], s.Op.C+" "+s.Op.S
		switch s.Op.Do {
		case "set":
			var opts []xsdgen.Option
			if s.Op.Opts[0] == "ignAd" {
				opts = xsdgen.DefaultOptions
			} else {
				for _, o := range s.Op.Opts {
					if options[o] == nil {
						panic("no option " + o)
					}
					opts = append(opts, options[o])
				}
			}
			for _, o := range s.Op.Opts {
				redo[s.Op.C+" "+settingOf(o)] = nil
			}
			undo[key] = append(undo[key], cfg.Option(opts...)) // reverts the last one
		case "undo":
			redo[key] = append(redo[key], cfg.Option(pop(undo, key)))
		case "redo":
			undo[key] = append(undo[key], cfg.Option(pop(redo, key)))
		case "bad":
			docs := [][]byte{[]byte(optDocA), []byte(`<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:c"><element name="e" type="nothing"/></schema>`)}
			if i%2 == 0 {
				docs[1] = []byte("<schema")
			}
			_, err := source(cfg, docs)
			c.check(err != nil, "no error for a broken schema after %v", story)
		}
		logs["1"].n, logs["2"].n = 0, 0
		docs := [][]byte{[]byte(optDocA)}
		if len(s.Docs) == 2 {
			docs = append(docs, []byte(optDocB))
			if i%2 == 0 {
				docs[0], docs[1] = docs[1], docs[0]
			}
		}
		if i%3 == 1 { // the same schema in two documents
			for k, d := range docs {
				if text := string(d); text == optDocA {
					start, arr := strings.Index(text, "<complexType name=\"abc"), strings.Index(text, "<complexType name=\"arr")
					docs[k] = []byte(text[:arr] + "</schema>")
					docs = append(docs, []byte(text[:start]+text[arr:]))
					break
				}
			}
		}
		src, err := source(configs[s.Gen], docs)
		why := func() string {
			return fmt.Sprintf("\nafter %s\n%s\nof %v with %+v", strings.Join(story, "; "), s.Gen, s.Docs, s.Exp)
		}
		for name, l := range logs {
			if name == s.Logs {
				c.check(l.n > 0, "nothing was logged%s", why())
			} else {
				c.check(l.n == 0, "%d messages to log %s%s", l.n, name, why())
			}
		}
		if s.Exp.Err {
			c.check(err != nil, "no error%s", why())
			continue
		}
		if !c.check(err == nil, "%v%s", err, why()) {
			return
		}
		if msg := s.compare(src); !c.check(msg == "", "%s%s\n%s", msg, why(), src) {
			return
		}
	}
}

func settingOf(o string) string {
	switch {
	case o == "ws" || strings.HasPrefix(o, "pkg"):
		return "pkg"
	case strings.HasPrefix(o, "ns"):
		return "ns"
	case strings.HasPrefix(o, "only"):
		return "only"
	case strings.HasPrefix(o, "allow"):
		return "allow"
	case strings.HasPrefix(o, "repl"):
		return "repl"
	case strings.HasPrefix(o, "ignA"):
		return "ignA"
	case strings.HasPrefix(o, "ignE"):
		return "ignE"
	case strings.HasPrefix(o, "out"):
		return "out"
	case strings.HasPrefix(o, "lvl"):
		return "lvl"
	case o == "slice":
		return "post"
	}
	return "proc"
}

// compare returns what is wrong with a source.
func (s *optStep) compare(src []byte) string {
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return err.Error()
	}
	if file.Name.Name != s.Exp.Pkg {
		return "package " + file.Name.Name
	}
	if s.Exp.Open {
		return ""
	}
	type decl struct {
		slice  bool
		fields []string
	}
	have := make(map[string]decl)
	for _, d := range file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		t := g.Specs[0].(*ast.TypeSpec)
		var d decl
		if st, ok := t.Type.(*ast.StructType); ok {
			for _, f := range st.Fields.List {
				for _, n := range f.Names {
					d.fields = append(d.fields, n.Name)
				}
			}
		} else {
			d.slice = true
		}
		have[t.Name.Name] = d
	}
	delete(have, s.Exp.Extra)
	anon := -1
	for i, t := range s.Exp.Types {
		if t.Name == "" {
			anon = i
			continue
		}
		d, ok := have[t.Name]
		if !ok {
			if t.Must {
				return "no type " + t.Name
			}
			continue
		}
		if msg := s.fields(i, d.slice, d.fields); msg != "" {
			return "type " + t.Name + ": " + msg
		}
		delete(have, t.Name)
	}
	if anon >= 0 {
		if len(have) > 1 {
			return fmt.Sprintf("superfluous types %v", have)
		}
		for n, d := range have {
			if msg := s.fields(anon, d.slice, d.fields); msg != "" {
				return "anonymous type " + n + ": " + msg
			}
			return ""
		}
		if s.Exp.Types[anon].Must {
			return "no type for the anonymous type"
		}
	} else if len(have) > 0 {
		return fmt.Sprintf("superfluous types %v", have)
	}
	return ""
}

func (s *optStep) fields(i int, slice bool, have []string) string {
	t := s.Exp.Types[i]
	if slice != t.Slice {
		return fmt.Sprintf("slice: %v", slice)
	}
	if slice {
		return ""
	}
	want := append([]string{}, t.Fields...)
	if t.Loose { // of a namespace that is not processed
		var rest []string
		for _, f := range have {
			if f != "P" && f != "Q" {
				rest = append(rest, f)
			}
		}
		have = rest
	}
	if t.Set {
		sort.Strings(want)
		sort.Strings(have)
	}
	if strings.Join(want, " ") != strings.Join(have, " ") {
		return fmt.Sprintf("fields %v instead of %v", have, want)
	}
	return ""
}
