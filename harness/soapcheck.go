package main

// Arrays of SOAP: generating their types, and running the code on documents
// with arrays.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"aqwari.net/xml/xsdgen"
)

type soapRef struct {
	B   string `json:"b"`
	I   int    `json:"i"`
	Occ string `json:"occ"`
}

type soapType struct {
	K     string    `json:"k"`
	NS    string    `json:"ns"`
	Form  string    `json:"form"`
	B     string    `json:"b"`
	I     int       `json:"i"`
	Go    string    `json:"go"`
	Slice bool      `json:"slice"`
	Fs    []soapRef `json:"fs"`
}

type soapEl struct {
	NS   string   `json:"ns"`
	N    string   `json:"n"`
	X    string   `json:"x"`
	C    string   `json:"c"`
	At   string   `json:"at"`
	Kids []soapEl `json:"kids"`
}

type soapValue struct {
	S  string        `json:"s"`
	At string        `json:"at"`
	I  []soapValue   `json:"i"`
	F  [][]soapValue `json:"f"`
}

type soapDoc struct {
	Root  int       `json:"root"`
	Doc   soapEl    `json:"doc"`
	Value soapValue `json:"value"`
	Bad   bool      `json:"bad"`
}

type soapVector struct {
	Opt struct {
		Slice bool `json:"slice"`
		Ign   bool `json:"ign"`
	} `json:"opt"`
	Types []soapType `json:"types"`
	Docs  []soapDoc  `json:"docs"`
}

type soapRun struct {
	j    job
	key  string
	xml  string
	doc  soapDoc
	text string
}

var (
	soapMu   sync.Mutex
	soapDir  string
	soapRuns []soapRun
)

func init() {
	checkers["soap"] = checkSoap
	finalizers["C28"] = finishSoap
}

func soapName(i int) string { return fmt.Sprintf("t%d", i) }

// render returns the schema with the types.
func (v *soapVector) render(c *ctx) (docs [][]byte) {
	for _, ns := range []string{"urn:t", "urn:u"} {
		var b bytes.Buffer
		fmt.Fprintf(&b, `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace=%q elementFormDefault="qualified"`, ns)
		prefix := map[string]string{"urn:t": "t:", "urn:u": "u:"}
		if d := c.rng.Intn(4); d < 2 {
			def := []string{"urn:t", "urn:u"}[d]
			prefix[def] = ""
			fmt.Fprintf(&b, ` xmlns=%q`, def)
		}
		for n, p := range map[string]string{"urn:t": "t", "urn:u": "u"} {
			if prefix[n] != "" || c.rng.Intn(2) == 0 {
				fmt.Fprintf(&b, ` xmlns:%s=%q`, p, n)
			}
		}
		soap, wsdl := []string{"soapenc", "SOAP-ENC", "e"}[c.rng.Intn(3)], []string{"wsdl", "w"}[c.rng.Intn(2)]
		local := c.rng.Intn(2) == 0
		fmt.Fprintf(&b, ` xmlns:%s="http://schemas.xmlsoap.org/soap/encoding/"`, soap)
		decl := fmt.Sprintf(` xmlns:%s="http://schemas.xmlsoap.org/wsdl/"`, wsdl)
		if !local {
			b.WriteString(decl)
			decl = ""
		}
		b.WriteString(">\n<xs:import namespace=\"http://schemas.xmlsoap.org/soap/encoding/\"/>\n")
		for _, n := range []string{"urn:t", "urn:u"} {
			if n != ns {
				fmt.Fprintf(&b, "<xs:import namespace=%q/>\n", n)
			}
		}
		ref := func(blt string, i int) string {
			if blt != "" {
				return "xs:" + blt
			}
			return prefix[v.Types[i-1].NS] + soapName(i)
		}
		for i, t := range v.Types {
			if t.NS != ns {
				continue
			}
			item := ""
			if t.K != "ct" {
				item = ref(t.B, t.I)
			}
			name := soapName(i + 1)
			switch t.K {
			case "st":
				if t.Form == "list" {
					fmt.Fprintf(&b, "<xs:simpleType name=%q><xs:list itemType=%q/></xs:simpleType>\n", name, item)
				} else {
					fmt.Fprintf(&b, "<xs:simpleType name=%q><xs:restriction base=%q/></xs:simpleType>\n", name, item)
				}
			case "ct":
				fmt.Fprintf(&b, "<xs:complexType name=%q><xs:sequence><xs:element name=\"k\" type=\"xs:string\"/>\n", name)
				for j, f := range t.Fs {
					occ := map[string]string{"one": "", "opt": ` minOccurs="0"`, "many": ` minOccurs="0" maxOccurs="unbounded"`}[f.Occ]
					fmt.Fprintf(&b, "  <xs:element name=\"f%d\" type=%q%s/>\n", j+1, ref(f.B, f.I), occ)
				}
				b.WriteString("</xs:sequence></xs:complexType>\n")
			case "arr":
				fmt.Fprintf(&b, "<xs:complexType name=%q><xs:complexContent><xs:restriction base=\"%s:Array\">", name, soap)
				at := fmt.Sprintf(`<xs:attribute ref="%s:arrayType"%s %s:arrayType="%s[]"/>`, soap, decl, wsdl, item)
				other := `<xs:attribute name="k" type="xs:int"/>`
				switch t.Form {
				case "any":
					b.WriteString(`<xs:sequence><xs:any namespace="##any" processContents="lax" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>` + at)
				case "named":
					fmt.Fprintf(&b, `<xs:sequence><xs:element name="it" type=%q minOccurs="0" maxOccurs="unbounded"/></xs:sequence>%s`, item, at)
				case "before":
					b.WriteString(other + at)
				case "after":
					b.WriteString(at + other)
				default:
					b.WriteString(at)
				}
				b.WriteString("</xs:restriction></xs:complexContent></xs:complexType>\n")
			}
		}
		b.WriteString("</xs:schema>\n")
		docs = append(docs, b.Bytes())
	}
	return docs
}

// instance writes a document; r is the type of its root.
func (v *soapVector) instance(c *ctx, b *bytes.Buffer, e soapEl, blt string, i int) {
	fmt.Fprintf(b, `<%s xmlns=%q`, e.N, e.NS)
	if e.At != "" {
		fmt.Fprintf(b, ` k=%q`, e.At)
	}
	if blt != "" || v.Types[i-1].K == "st" {
		if c.rng.Intn(3) == 0 {
			b.WriteString(` xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:type="x"`)
		}
		b.WriteString(">")
		xml.EscapeText(b, []byte(e.X))
		fmt.Fprintf(b, "</%s>", e.N)
		return
	}
	t := v.Types[i-1]
	if t.K == "arr" {
		switch c.rng.Intn(3) {
		case 0:
			fmt.Fprintf(b, ` xmlns:a="http://schemas.xmlsoap.org/soap/encoding/" a:arrayType="a:x[%d]"`, len(e.Kids))
		case 1:
			b.WriteString(` xmlns:i="http://www.w3.org/2001/XMLSchema-instance" xmlns:e="http://schemas.xmlsoap.org/soap/encoding/" i:type="e:Array"`)
		}
	}
	b.WriteString(">")
	space := func() {
		b.WriteString([]string{"", "", "\n  ", "<!-- an item -->", " "}[c.rng.Intn(5)])
	}
	for _, k := range e.Kids {
		space()
		switch {
		case t.K == "arr":
			v.instance(c, b, k, t.B, t.I)
		case k.N == "k":
			v.instance(c, b, k, "string", 0)
		default:
			f := t.Fs[int(k.N[1]-'1')]
			v.instance(c, b, k, f.B, f.I)
		}
	}
	space()
	fmt.Fprintf(b, "</%s>", e.N)
}

func checkSoap(c *ctx, raw json.RawMessage) {
	var v soapVector
	decode(c, raw, &v)
	docs := v.render(c)
	pkg := fmt.Sprintf("g%d", c.idx)
	var cfg xsdgen.Config
	if v.Opt.Slice && v.Opt.Ign && c.rng.Intn(2) == 0 {
		cfg.Option(xsdgen.DefaultOptions...)
	} else {
		opts := []xsdgen.Option{xsdgen.HandleSOAPArrayType()}
		if v.Opt.Slice {
			opts = append(opts, xsdgen.SOAPArrayAsSlice())
		}
		if v.Opt.Ign {
			opts = append(opts, xsdgen.IgnoreAttributes("offset", "id", "href"))
		}
		c.rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		cfg.Option(opts...)
	}
	cfg.Option(xsdgen.PackageName(pkg), xsdgen.Namespaces("urn:t", "urn:u"))
	g, err := generate(&cfg, docs, true)
	text := jsonOf(v.Opt) + "\n" + joinDocs(docs) + "\n" + string(g.src)
	if !c.check(err == nil, "generating: %v\n%s", err, text) {
		return
	}
	gen, errs := typeCheck(g.src)
	if !c.check(len(errs) == 0, "generated source does not compile: %s\n%s", strings.Join(errs, "; "), text) {
		return
	}
	names := make([]string, len(v.Types))
	for i, t := range v.Types {
		names[i] = g.code.NameOf(xml.Name{Space: t.NS, Local: soapName(i + 1)})
	}
	for i, t := range v.Types {
		if t.K != "arr" {
			continue
		}
		item := t.Go
		if t.B == "" {
			item = names[t.I-1]
			if v.Types[t.I-1].K == "st" {
				item = ""
			}
		}
		msg := soapShape(gen, names[i], item, t)
		c.check(msg == "", "%s %s\n%s", soapName(i+1), msg, text)
	}
	var runs []soapRun
	for _, d := range v.Docs {
		var b bytes.Buffer
		v.instance(c, &b, d.Doc, "", d.Root)
		runs = append(runs, soapRun{j: c.job, key: pkg + "." + names[d.Root-1], xml: b.String(), doc: d, text: text})
	}
	soapMu.Lock()
	defer soapMu.Unlock()
	if soapDir == "" {
		d, err := ioutil.TempDir(workDir(), "soaprun")
		if err != nil {
			panic(err)
		}
		soapDir = d
	}
	d := filepath.Join(soapDir, pkg)
	os.MkdirAll(d, 0777)
	if err := ioutil.WriteFile(filepath.Join(d, "x.go"), g.src, 0666); err != nil {
		panic(err)
	}
	soapRuns = append(soapRuns, runs...)
}

// soapShape tells what is wrong with the Go type of an array.
func soapShape(pkg *types.Package, name, item string, t soapType) string {
	obj := pkg.Scope().Lookup(name)
	if obj == nil {
		return "is not declared as " + name
	}
	is := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		elem := types.TypeString(s.Elem(), types.RelativeTo(pkg))
		return item == "" || elem == item || elem == "*"+item
	}
	if t.Slice {
		if !is(obj.Type()) {
			return fmt.Sprintf("is %v and no slice of %s", obj.Type().Underlying(), item)
		}
		return ""
	}
	if s, ok := obj.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); reflect.StructTag(s.Tag(i)).Get("xml") == ",any" {
				if !is(f.Type()) {
					return fmt.Sprintf("has items of type %v, not slices of %s", f.Type(), item)
				}
				return ""
			}
		}
		return "has no field for items"
	}
	return fmt.Sprintf("is %v", obj.Type().Underlying())
}

const soapMain = `
type value struct {
	S  string    ` + "`json:\"s\"`" + `
	At string    ` + "`json:\"at\"`" + `
	I  []value   ` + "`json:\"i\"`" + `
	F  [][]value ` + "`json:\"f\"`" + `
}

var textType = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()

func bytesType(t reflect.Type) bool { return t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 }

func dump(v reflect.Value) (r value) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	t := v.Type()
	if t.Kind() == reflect.Slice && !bytesType(t) && !reflect.PtrTo(t).Implements(textType) {
		for i := 0; i < v.Len(); i++ {
			r.I = append(r.I, dump(v.Index(i)))
		}
		return r
	}
	if isScalar(t) {
		r.S = scalar(v)
		return r
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		parts := strings.Split(t.Field(i).Tag.Get("xml"), ",")
		opts := strings.Join(parts[1:], ",") + ","
		omit := strings.Contains(opts, "omitempty,") || f.Kind() == reflect.Ptr
		names := strings.Fields(parts[0])
		name := ""
		if len(names) > 0 {
			name = names[len(names)-1]
		}
		switch {
		case strings.Contains(opts, "attr,"):
			if name == "k" && !f.IsZero() {
				r.At = scalar(f)
			}
		case strings.Contains(opts, "any,"), name == "it":
			r.I = append(r.I, dump(f).I...)
		case name == "k":
			r.S = scalar(f)
		default:
			list := []value{}
			if f.Kind() == reflect.Slice && f.Type().Name() == "" && !bytesType(f.Type()) {
				list = append(list, dump(f).I...)
			} else if !omit || !(f.IsZero() || f.Kind() == reflect.Slice && f.Len() == 0) {
				list = append(list, dump(f))
			}
			r.F = append(r.F, list)
		}
	}
	return r
}

func one(key, doc string) (err error, d value, out string, d2 value) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v := types[key]()
	if err = xml.Unmarshal([]byte(doc), v); err != nil {
		return fmt.Errorf("decoding: %v", err), d, "", d
	}
	d = dump(reflect.ValueOf(v))
	var buf bytes.Buffer
	enc := xml.NewEncoder(&buf)
	start := xml.StartElement{Name: xml.Name{Space: "urn:root", Local: "root"}}
	if err = enc.EncodeElement(v, start); err == nil {
		err = enc.Flush()
	}
	if err != nil {
		return fmt.Errorf("encoding: %v", err), d, "", d
	}
	out = buf.String()
	v = types[key]()
	if err = xml.Unmarshal([]byte(out), v); err != nil {
		return fmt.Errorf("decoding what was encoded: %v", err), d, out, d
	}
	return nil, d, out, dump(reflect.ValueOf(v))
}

func main() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for {
		var q struct {
			ID  int
			Key string
			Doc string
		}
		if err := dec.Decode(&q); err != nil {
			return
		}
		err, d, out, d2 := one(q.Key, q.Doc)
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		b, e := json.Marshal(map[string]interface{}{"id": q.ID, "err": msg, "dump": d, "out": out, "dump2": d2})
		if e != nil {
			panic(e)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
`

func finishSoap(c *ctx, report func(job, []string)) {
	if len(soapRuns) == 0 {
		return
	}
	defer os.RemoveAll(soapDir)
	pkgs := map[string]bool{}
	keys := map[string]bool{}
	for _, r := range soapRuns {
		keys[r.key] = true
		pkgs[strings.Split(r.key, ".")[0]] = true
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\"bufio\"\n\"bytes\"\n\"encoding\"\n\"encoding/hex\"\n\"encoding/json\"\n\"encoding/xml\"\n\"fmt\"\n\"os\"\n\"reflect\"\n\"strconv\"\n\"strings\"\n\"time\"\n")
	for _, p := range sortedKeys(pkgs) {
		fmt.Fprintf(&b, "%q\n", "verifgen/"+p)
	}
	b.WriteString(")\n\nvar types = map[string]func() interface{}{\n")
	for _, k := range sortedKeys(keys) {
		fmt.Fprintf(&b, "%q: func() interface{} { return new(%s) },\n", k, k)
	}
	b.WriteString("}\n" + runScalar + soapMain)
	os.MkdirAll(filepath.Join(soapDir, "main"), 0777)
	ioutil.WriteFile(filepath.Join(soapDir, "main", "main.go"), b.Bytes(), 0666)
	ioutil.WriteFile(filepath.Join(soapDir, "go.mod"), []byte("module verifgen\n\ngo 1.15\n"), 0666)
	if out, err := goTool(soapDir, "build", "-o", "prog", "./main"); err != nil {
		fmt.Fprintf(os.Stderr, "building generated code: %v\n%s\n", err, out)
		os.Exit(3)
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for i, r := range soapRuns {
		enc.Encode(runReq{i, r.key, r.xml})
	}
	out, died := runProgram(filepath.Join(soapDir, "prog"), &in)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	done := 0
	for sc.Scan() {
		var rsp struct {
			ID    int       `json:"id"`
			Err   string    `json:"err"`
			Dump  soapValue `json:"dump"`
			Out   string    `json:"out"`
			Dump2 soapValue `json:"dump2"`
		}
		if err := json.Unmarshal(sc.Bytes(), &rsp); err != nil {
			panic(err)
		}
		r := soapRuns[rsp.ID]
		done++
		c.checks += 3
		msg := ""
		want, got, again := r.doc.Value.String(), rsp.Dump.String(), rsp.Dump2.String()
		switch {
		case r.doc.Bad:
			if !strings.HasPrefix(rsp.Err, "decoding: ") {
				msg = fmt.Sprintf("no error for an item that has no value (%q)", rsp.Err)
			}
		case rsp.Err != "":
			msg = rsp.Err
		case want != got:
			msg = "decoded\n" + got + ", not\n" + want
		case want != again:
			msg = "decoded\n" + again + " from what was encoded, not\n" + want
		}
		if msg != "" {
			report(r.j, []string{msg + "\n" + r.key + " from " + r.xml + "\nencoded " + rsp.Out + "\n" + r.text})
		}
	}
	if done < len(soapRuns) && died != "" {
		r := soapRuns[done]
		report(r.j, []string{died + "\n" + r.key + " from " + r.xml + "\n" + r.text})
	} else if done != len(soapRuns) {
		fmt.Fprintf(os.Stderr, "%d of %d documents were run\n", done, len(soapRuns))
		os.Exit(3)
	}
}

func (v soapValue) String() string {
	switch {
	case len(v.F) > 0:
		var parts []string
		for _, f := range v.F {
			parts = append(parts, soapList(f))
		}
		return fmt.Sprintf("{%q %s}", v.S, strings.Join(parts, " "))
	case v.S != "":
		return fmt.Sprintf("%q", v.S)
	case v.At != "":
		return fmt.Sprintf("k=%q%s", v.At, soapList(v.I))
	}
	return soapList(v.I)
}

func soapList(l []soapValue) string {
	var parts []string
	for _, v := range l {
		parts = append(parts, v.String())
	}
	return "[" + strings.Join(parts, ", ") + "]"
}
