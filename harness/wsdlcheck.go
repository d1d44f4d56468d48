package main

// WSDL documents: what spec/WsdlParse.tla says is in them, against wsdl.Parse.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/wsdl"
)

type wsdlDecl struct {
	Pfx string `json:"pfx"`
	NS  string `json:"ns"`
}

type wsdlRef struct {
	Pfx   string   `json:"pfx"`
	Local string   `json:"local"`
	Decl  wsdlDecl `json:"decl"`
}

type wsdlQName [2]string

func (q wsdlQName) name() xml.Name { return xml.Name{Space: q[0], Local: q[1]} }

type wsdlComp struct {
	K    string   `json:"k"`
	Name string   `json:"name"`
	Ref  wsdlRef  `json:"ref"`
	Verb string   `json:"verb"`
	Docs []string `json:"docs"`

	Parts []struct {
		Name string  `json:"name"`
		El   bool    `json:"el"`
		Ref  wsdlRef `json:"ref"`
	} `json:"parts"`
	Ops []struct {
		Name   string   `json:"name"`
		Docs   []string `json:"docs"`
		In     wsdlRef  `json:"in"`
		Out    wsdlRef  `json:"out"`
		Fault  bool     `json:"fault"`
		Kind   string   `json:"kind"`
		Action string   `json:"action"`
	} `json:"ops"`
	Ports []struct {
		Name string  `json:"name"`
		Ref  wsdlRef `json:"ref"`
		Kind string  `json:"kind"`
		Loc  string  `json:"loc"`
	} `json:"ports"`
}

type wsdlVector struct {
	Lex struct {
		Dflt     string `json:"dflt"`
		DocLast  bool   `json:"docLast"`
		NameLast bool   `json:"nameLast"`
	} `json:"lex"`
	Doc  []wsdlComp `json:"doc"`
	Want struct {
		Ports []struct {
			Name    string `json:"name"`
			Address string `json:"address"`
			Method  string `json:"method"`
			Ops     []struct {
				Name   wsdlQName `json:"name"`
				Docs   []string  `json:"docs"`
				Action string    `json:"action"`
				In     wsdlQName `json:"in"`
				Out    wsdlQName `json:"out"`
			} `json:"ops"`
		} `json:"ports"`
		Messages []struct {
			Name  wsdlQName `json:"name"`
			Parts []struct {
				Name    string    `json:"name"`
				Type    wsdlQName `json:"type"`
				Element wsdlQName `json:"element"`
			} `json:"parts"`
		} `json:"messages"`
		Docs [][]string `json:"docs"`
	} `json:"want"`
}

func init() { checkers["wsdl"] = checkWsdl }

const wsdlSpace = "http://schemas.xmlsoap.org/wsdl/"

var wsdlKinds = map[string]string{
	"soap": wsdlSpace + "soap/", "soap12": wsdlSpace + "soap12/", "http": wsdlSpace + "http/",
}

// wsdlWriter writes elements of WSDL documents.
type wsdlWriter struct {
	bytes.Buffer
	v  *wsdlVector
	np string // the prefix of WSDL elements
}

// el writes an element: its name, a list of attributes, one of which may
// come with a declaration, and its contents.
func (w *wsdlWriter) el(name string, attrs [][2]string, decl wsdlDecl, docs []string, body func()) {
	w.WriteString("<" + w.np + name)
	if decl.Pfx != "-" {
		if decl.Pfx == "" {
			attrs = append(attrs, [2]string{"xmlns", decl.NS})
		} else {
			attrs = append([][2]string{{"xmlns:" + decl.Pfx, decl.NS}}, attrs...)
		}
	}
	if w.v.Lex.NameLast {
		for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	for _, a := range attrs {
		fmt.Fprintf(w, ` %s="%s"`, a[0], a[1])
	}
	w.WriteString(">")
	write := func() {
		for _, d := range docs {
			fmt.Fprintf(w, "<%sdocumentation>%s</%sdocumentation>\n", w.np, d, w.np)
		}
	}
	if !w.v.Lex.DocLast {
		write()
	}
	if body != nil {
		body()
	}
	if w.v.Lex.DocLast {
		write()
	}
	w.WriteString("</" + w.np + name + ">\n")
}

func (r wsdlRef) String() string {
	if r.Pfx == "" {
		return r.Local
	}
	return r.Pfx + ":" + r.Local
}

var noDecl = wsdlDecl{Pfx: "-"}

func (w *wsdlWriter) comp(c wsdlComp) {
	v := w.v
	w.np = "w:"
	if v.Lex.Dflt == "wsdl" {
		w.np = ""
	}
	name := [][2]string{{"name", c.Name}}
	switch c.K {
	case "message":
		w.el("message", name, noDecl, []string{"not this"}, func() {
			for _, p := range c.Parts {
				kind := "type"
				if p.El {
					kind = "element"
				}
				w.el("part", [][2]string{{"name", p.Name}, {kind, p.Ref.String()}}, p.Ref.Decl, nil, nil)
			}
		})
	case "portType":
		w.el("portType", name, noDecl, c.Docs, func() {
			for _, op := range c.Ops {
				w.el("operation", [][2]string{{"name", op.Name}}, noDecl, op.Docs, func() {
					if op.In.Local != "" {
						w.el("input", [][2]string{{"message", op.In.String()}}, op.In.Decl, []string{"nor this"}, nil)
					}
					if op.Out.Local != "" {
						w.el("output", [][2]string{{"message", op.Out.String()}}, op.Out.Decl, nil, nil)
					}
					if op.Fault {
						w.el("fault", [][2]string{{"name", "f"}, {"message", "t:C"}}, noDecl, nil, nil)
					}
				})
			}
		})
	case "binding":
		w.el("binding", append(name, [2]string{"type", c.Ref.String()}), c.Ref.Decl, []string{"nor that"}, func() {
			switch c.Verb {
			case "-":
				fmt.Fprintf(w, `<s:binding xmlns:s="%s" style="document" transport="http://schemas.xmlsoap.org/soap/http"/>`, wsdlKinds["soap"])
			case "":
				fmt.Fprintf(w, `<h:binding xmlns:h="%s"/>`, wsdlKinds["http"])
			default:
				fmt.Fprintf(w, `<h:binding xmlns:h="%s" verb="%s"/>`, wsdlKinds["http"], c.Verb)
			}
			for _, op := range c.Ops {
				w.el("operation", [][2]string{{"name", op.Name}}, noDecl, nil, func() {
					switch op.Kind {
					case "soap", "soap12":
						fmt.Fprintf(w, `<s:operation xmlns:s="%s" soapAction="%s" style="document"/>`, wsdlKinds[op.Kind], op.Action)
					case "http":
						fmt.Fprintf(w, `<operation xmlns="%s" location="/x" soapAction="no"/>`, wsdlKinds["http"])
					}
					w.el("input", nil, noDecl, nil, func() {
						fmt.Fprintf(w, `<s:body xmlns:s="%s" use="literal" message="t:C"/>`, wsdlKinds["soap"])
					})
					w.el("output", nil, noDecl, nil, nil)
				})
			}
		})
	case "service":
		w.el("service", name, noDecl, c.Docs, func() {
			for _, p := range c.Ports {
				w.el("port", [][2]string{{"name", p.Name}, {"binding", p.Ref.String()}}, p.Ref.Decl, []string{"of a port"}, func() {
					if p.Kind != "none" {
						fmt.Fprintf(w, `<a:address xmlns:a="%s" location="%s"/>`, wsdlKinds[p.Kind], p.Loc)
					}
				})
			}
		})
	case "noise":
		switch c.Verb {
		case "types":
			w.el("types", nil, noDecl, nil, func() {
				fmt.Fprintf(w, `<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t"><element name="message"/><message name="%s"/><service name="x"><port name="y"/></service></schema>`, c.Name)
			})
		case "ext":
			fmt.Fprintf(w, `<e:message xmlns:e="urn:ext" name="%s"><e:part name="no"/></e:message><e:service xmlns:e="urn:ext"><e:port name="no"/></e:service>`, c.Name)
			fmt.Fprintf(w, `<e:binding xmlns:e="urn:ext" name="%s"/><portType xmlns="" name="%s"><operation name="no"/></portType>`, c.Name, c.Name)
		case "comment":
			fmt.Fprintf(w, `<!-- <message name="%s"/> --><?pi <service/>?><![CDATA[<service/>]]>`, c.Name)
		case "import":
			w.el("import", [][2]string{{"namespace", "urn:o"}, {"location", "no.wsdl"}}, noDecl, nil, nil)
		}
	}
}

func wsdlText(v *wsdlVector) []byte {
	w := &wsdlWriter{v: v}
	root := "w:definitions"
	dflt := ""
	switch v.Lex.Dflt {
	case "wsdl":
		root, dflt = "definitions", ` xmlns="`+wsdlSpace+`"`
	case "tns":
		dflt = ` xmlns="urn:t"`
	}
	fmt.Fprintf(w, `<%s%s xmlns:w="%s" xmlns:t="urn:t" xmlns:o="urn:o" xmlns:x="http://www.w3.org/2001/XMLSchema" name="D" targetNamespace="urn:t">`+"\n", root, dflt, wsdlSpace)
	for _, c := range v.Doc {
		w.comp(c)
	}
	fmt.Fprintf(w, "</%s>\n", root)
	return w.Bytes()
}

// given is a name, or none if it has no local part.
func given(n xml.Name) xml.Name {
	if n.Local == "" {
		return xml.Name{}
	}
	return n
}

func checkWsdl(c *ctx, raw json.RawMessage) {
	var v wsdlVector
	decode(c, raw, &v)
	text := wsdlText(&v)
	def, err := wsdl.Parse(text)
	if !c.check(err == nil, "Parse: %v\n%s", err, text) {
		return
	}
	c.check(def.TargetNS == "urn:t", "target namespace %q", def.TargetNS)
	var docs []string
	for _, d := range v.Want.Docs {
		docs = append(docs, strings.Join(d, "\n"))
	}
	c.check(def.Doc == strings.Join(docs, "\n"), "documentation %q instead of %q\n%s", def.Doc, v.Want.Docs, text)
	var have, want []string
	for _, p := range def.Ports {
		have = append(have, fmt.Sprintf("port %q at %q by %q", p.Name, p.Address, p.Method))
		for _, op := range p.Operations {
			have = append(have, fmt.Sprintf("  %v action %q in %v out %v doc %q", op.Name, op.SOAPAction, given(op.Input), given(op.Output), op.Doc))
		}
	}
	for _, p := range v.Want.Ports {
		want = append(want, fmt.Sprintf("port %q at %q by %q", p.Name, p.Address, p.Method))
		for _, op := range p.Ops {
			want = append(want, fmt.Sprintf("  %v action %q in %v out %v doc %q", op.Name.name(), op.Action, op.In.name(), op.Out.name(), strings.Join(op.Docs, "\n")))
		}
	}
	c.check(strings.Join(have, "\n") == strings.Join(want, "\n"), "has\n%s\ninstead of\n%s\n%s", strings.Join(have, "\n"), strings.Join(want, "\n"), text)
	have, want = nil, nil
	for name, m := range def.Message {
		s := fmt.Sprintf("message %v", name)
		if name != m.Name {
			s += fmt.Sprintf(" named %v", m.Name)
		}
		for _, p := range m.Parts {
			s += fmt.Sprintf(", part %q type %v element %v", p.Name, given(p.Type), given(p.Element))
		}
		have = append(have, s)
	}
	for _, m := range v.Want.Messages {
		s := fmt.Sprintf("message %v", m.Name.name())
		for _, p := range m.Parts {
			s += fmt.Sprintf(", part %q type %v element %v", p.Name, p.Type.name(), p.Element.name())
		}
		want = append(want, s)
	}
	sort.Strings(have)
	sort.Strings(want)
	c.check(strings.Join(have, "\n") == strings.Join(want, "\n"), "has\n%s\ninstead of\n%s\n%s", strings.Join(have, "\n"), strings.Join(want, "\n"), text)

	// a description for people has a line for each operation and port
	lines := 1
	for _, p := range v.Want.Ports {
		lines += 1 + len(p.Ops)
	}
	c.check(strings.Count(def.String(), "\n") == lines, "String has not %d lines:\n%s", lines, def)

	// an incomplete document is none
	cut := c.rng.Intn(len(text) - 2)
	_, err = wsdl.Parse(text[:cut])
	c.check(err != nil, "no error for an incomplete document\n%s", text[:cut])
}
