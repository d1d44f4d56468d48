package main

// Clients generated from WSDL definitions: the packages that
// spec/WsdlClient.tla defines, type checked and compared, and run.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

type clientPart struct {
	N string `json:"n"`
	K string `json:"k"`
}

func (p clientPart) el() bool { return strings.HasPrefix(p.K, "el") }

type clientMethod struct {
	Name   string       `json:"name"`
	Port   string       `json:"port"`
	Verb   string       `json:"verb"`
	Op     string       `json:"op"`
	Action string       `json:"action"`
	Doc    string       `json:"doc"`
	In     []clientPart `json:"in"`
	Out    []clientPart `json:"out"`
	GIn    []string     `json:"gin"`
	GOut   []string     `json:"gout"`
	FIn    []string     `json:"fin"`
	FOut   []string     `json:"fout"`
	WIn    bool         `json:"win"`
	WOut   bool         `json:"wout"`
	Oneway bool         `json:"oneway"`
}

type clientDef struct {
	Msgs []struct {
		N     string       `json:"n"`
		Parts []clientPart `json:"parts"`
	} `json:"msgs"`
	Pts [][]struct {
		N      string `json:"n"`
		In     int    `json:"in"`
		Out    int    `json:"out"`
		Action string `json:"action"`
		Doc    string `json:"doc"`
	} `json:"pts"`
	Ports []struct {
		N    string `json:"n"`
		Pt   int    `json:"pt"`
		Verb string `json:"verb"`
		Svc  int    `json:"svc"`
	} `json:"ports"`
	Ext    bool   `json:"ext"`
	Client bool   `json:"client"`
	Doc    string `json:"doc"`
}

type clientStep struct {
	A     string   `json:"a"`
	K     int      `json:"k"`
	S     string   `json:"s"`
	V     string   `json:"v"`
	Ports []string `json:"ports"`
}

type clientEvent struct {
	A       string         `json:"a"`
	At      int            `json:"at"`
	Pkg     string         `json:"pkg"`
	Comment string         `json:"comment"`
	Methods []clientMethod `json:"methods"`
	Log     int            `json:"log"`
	Cfg     struct {
		Pkg     string   `json:"pkg"`
		Comment string   `json:"comment"`
		All     bool     `json:"all"`
		Ports   []string `json:"ports"`
		Rule    bool     `json:"rule"`
	} `json:"cfg"`
}

type clientValue struct {
	W string `json:"w"`
	C string `json:"c"`
}

type clientCall struct {
	M      int           `json:"m"`
	Args   []clientValue `json:"args"`
	Rets   []clientValue `json:"rets"`
	Answer string        `json:"answer"`
	Err    bool          `json:"err"`
	Hooks  struct {
		Req  string `json:"req"`
		Rsp  string `json:"rsp"`
		Dflt bool   `json:"dflt"`
	} `json:"hooks"`
}

type clientVector struct {
	Def   clientDef     `json:"def"`
	Steps []clientStep  `json:"steps"`
	Trace []clientEvent `json:"trace"`
	Calls []clientCall  `json:"calls"`
}

func init() {
	checkers["wsdlgen"] = checkWsdlGen
	checkers["wsdlrun"] = checkWsdlRun
	finalizers["C27"] = finishWsdlRun
}

const clientSchema = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t" elementFormDefault="qualified">
<xs:complexType name="cplx"><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType>
<xs:simpleType name="lst"><xs:list itemType="xs:int"/></xs:simpleType>
<xs:simpleType name="dt"><xs:restriction base="xs:date"/></xs:simpleType>
<xs:element name="elC" type="t:cplx"/><xs:element name="elS" type="xs:string"/><xs:element name="elD" type="xs:date"/>
<xs:element name="elAnon"><xs:complexType><xs:sequence><xs:element name="w" type="xs:string"/></xs:sequence></xs:complexType></xs:element>
%s</xs:schema>
`

const clientSpace = "urn:w" // the target namespace of definitions

// render returns the files of a definition.
func (d *clientDef) render() (files [][]byte) {
	more := ""
	if d.Client {
		more = `<xs:complexType name="client"><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence></xs:complexType>` + "\n"
	}
	schema := fmt.Sprintf(clientSchema, more)
	var b bytes.Buffer
	p := func(format string, args ...interface{}) { fmt.Fprintf(&b, format, args...) }
	p(`<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:w="urn:w" xmlns:t="urn:t" xmlns:x="http://www.w3.org/2001/XMLSchema"
 xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:http="http://schemas.xmlsoap.org/wsdl/http/" targetNamespace="%s">`+"\n", clientSpace)
	if !d.Ext {
		p("<types>%s</types>\n", schema)
	}
	for _, m := range d.Msgs {
		p(`<message name="%s">`, m.N)
		for _, part := range m.Parts {
			kind, name := "type", "x:"+part.K
			if part.el() {
				kind, name = "element", "t:"+part.K
			} else if part.K == "cplx" || part.K == "lst" || part.K == "dt" {
				name = "t:" + part.K
			}
			p(`<part name="%s" %s="%s"/>`, part.N, kind, name)
		}
		p("</message>\n")
	}
	for i, pt := range d.Pts {
		p(`<portType name="PT%d">`, i+1)
		for _, op := range pt {
			p(`<operation name="%s">`, op.N)
			if op.Doc != "" {
				p("<documentation>%s</documentation>", op.Doc)
			}
			if op.In > 0 {
				p(`<input message="w:%s"/>`, d.Msgs[op.In-1].N)
			}
			if op.Out > 0 {
				p(`<output message="w:%s"/>`, d.Msgs[op.Out-1].N)
			}
			p("</operation>")
		}
		p("</portType>\n")
	}
	for _, port := range d.Ports {
		p(`<binding name="B%s" type="w:PT%d">`, port.N, port.Pt)
		if port.Verb == "-" {
			p(`<soap:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/>`)
		} else {
			p(`<http:binding verb="%s"/>`, port.Verb)
		}
		for _, op := range d.Pts[port.Pt-1] {
			p(`<operation name="%s">`, op.N)
			if port.Verb == "-" || op.Action != "" {
				p(`<soap:operation soapAction="%s"/>`, op.Action)
			}
			p(`<input><soap:body use="literal"/></input></operation>`)
		}
		p("</binding>\n")
	}
	svc := 0
	for i, port := range d.Ports {
		if port.Svc != svc {
			svc = port.Svc
			if i > 0 {
				p("</service>\n")
			}
			p(`<service name="S%d">`, i)
			if i == 0 && d.Doc != "" {
				p("<documentation>%s</documentation>", d.Doc)
			}
		}
		kind := "soap"
		if port.Verb != "-" {
			kind = "http"
		}
		p(`<port name="%s" binding="w:B%s"><%s:address location="%s"/></port>`, port.N, port.N, kind, strings.Replace(addressOf(port.N), "&", "&amp;", -1))
	}
	p("</service>\n</definitions>\n")
	files = [][]byte{b.Bytes()}
	if d.Ext {
		files = append(files, []byte(schema))
	}
	return files
}

func addressOf(port string) string { return "http://service.test/" + port + "/?a=b&c=d" }

// A revert takes an option back, and returns what takes that back.
type revert func() revert

func wsdlRevert(cfg *wsdlgen.Config, prev wsdlgen.Option) revert {
	return func() revert { return wsdlRevert(cfg, cfg.Option(prev)) }
}

func xsdRevert(cfg *wsdlgen.Config, prev xsdgen.Option) revert {
	return func() revert { return xsdRevert(cfg, cfg.XSDOption(prev)) }
}

// do applies one step to a configuration.
func (s clientStep) do(cfg *wsdlgen.Config, undo []revert) revert {
	if s.A == "revert" {
		return undo[s.K-1]()
	}
	n, _ := strconv.Atoi(s.V)
	text := strings.Trim(s.V, `"`)
	var o wsdlgen.Option
	switch s.S {
	case "pkg":
		o = wsdlgen.PackageName(text)
	case "comment":
		o = wsdlgen.PackageComment(text)
	case "ports":
		o = wsdlgen.OnlyPorts(s.Ports...)
	case "in":
		o = wsdlgen.InputThreshold(n)
	case "out":
		o = wsdlgen.OutputThreshold(n)
	case "log":
		o = wsdlgen.LogLevel(n)
	case "rule":
		return xsdRevert(cfg, cfg.XSDOption(xsdgen.Replace("^get", "fetch")))
	default:
		panic("no setting " + s.S)
	}
	return wsdlRevert(cfg, cfg.Option(o))
}

// clientFiles writes the files of a definition.
func clientFiles(docs [][]byte) (dir string, files []string) {
	dir, err := ioutil.TempDir(workDir(), "wsdl")
	if err != nil {
		panic(err)
	}
	for i, d := range docs {
		f := filepath.Join(dir, fmt.Sprintf("%d.wsdl", i))
		if err := ioutil.WriteFile(f, d, 0666); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	return dir, files
}

func checkWsdlGen(c *ctx, raw json.RawMessage) {
	var v clientVector
	decode(c, raw, &v)
	docs := v.Def.render()
	dir, files := clientFiles(docs)
	defer os.RemoveAll(dir)
	var (
		cfg  wsdlgen.Config
		log  countLog
		undo []revert
		at   int
	)
	cfg.Option(wsdlgen.LogOutput(&log))
	cfg.XSDOption(xsdgen.DefaultOptions...)
	for _, ev := range v.Trace {
		for ; at < ev.At; at++ {
			undo = append(undo, v.Steps[at].do(&cfg, undo))
		}
		log.n = 0
		src, err := cfg.GenSource(files...)
		why := func() string {
			return fmt.Sprintf("\nafter %s\nof\n%s\n%s", jsonOf(v.Steps[:at]), joinDocs(docs), src)
		}
		if !c.check(err == nil, "%v%s", err, why()) {
			return
		}
		c.check((log.n > 0) == (ev.Log > 0), "%d messages at log level %d%s", log.n, ev.Log, why())
		if msg := ev.compare(src, v.Def.Doc); !c.check(msg == "", "%s%s", msg, why()) {
			return
		}
		if c.rng.Intn(40) == 0 {
			ev.command(c, dir, files, why)
		}
	}
}

// command compares what the wsdlgen command makes with what the package does.
func (ev *clientEvent) command(c *ctx, dir string, files []string, why func() string) {
	var cfg wsdlgen.Config
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	args := []string{"-o", "out.go"}
	if ev.Cfg.Pkg != "" {
		args = append(args, "-pkg", ev.Cfg.Pkg)
		cfg.Option(wsdlgen.PackageName(ev.Cfg.Pkg))
	}
	if ev.Cfg.Comment != "" {
		args = append(args, "-c="+ev.Cfg.Comment)
		cfg.Option(wsdlgen.PackageComment(ev.Cfg.Comment))
	}
	if !ev.Cfg.All {
		for _, p := range ev.Cfg.Ports {
			args = append(args, "-port", p)
		}
		if len(ev.Cfg.Ports) > 0 {
			cfg.Option(wsdlgen.OnlyPorts(ev.Cfg.Ports...))
		}
	}
	if ev.Cfg.Rule {
		args = append(args, "-r", "^get -> fetch")
		cfg.XSDOption(xsdgen.Replace("^get", "fetch"))
	}
	if ev.Log > 1 {
		args = append(args, "-vv")
	} else if ev.Log > 0 {
		args = append(args, "-v")
	}
	out, failed := command(dir, tool("wsdlgen"), append(args, files...)...)
	if !c.check(!failed, "wsdlgen %v: %s%s", args, out, why()) {
		return
	}
	c.check((out == "") == (ev.Log == 0), "wsdlgen %v says %q%s", args, out, why())
	want, err := cfg.GenSource(files...)
	got, err2 := ioutil.ReadFile(filepath.Join(dir, "out.go"))
	c.check(err == nil && err2 == nil && untitled(want) == untitled(got), "wsdlgen %v makes something else (%v, %v)\n%s\nthan\n%s", args, err, err2, got, want)
}

// clientOf finds the type of clients in a package.
func clientOf(pkg *types.Package) (name string, methods map[string]*types.Signature) {
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok || st.NumFields() == 0 || st.Field(0).Type().String() != "*net/http.Client" {
			continue
		}
		methods = make(map[string]*types.Signature)
		for i := 0; i < named.NumMethods(); i++ {
			if m := named.Method(i); m.Exported() {
				methods[m.Name()] = m.Type().(*types.Signature)
			}
		}
		return n, methods
	}
	return "", nil
}

// compare returns what is wrong with the source of a package.
func (ev *clientEvent) compare(src []byte, doc string) string {
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return err.Error()
	}
	if file.Name.Name != ev.Pkg {
		return fmt.Sprintf("package %s instead of %s", file.Name.Name, ev.Pkg)
	}
	about := file.Doc.Text()
	if !strings.HasPrefix(about, ev.Comment+"\n") {
		return fmt.Sprintf("package comment is %q, and does not start with %q", about, ev.Comment)
	}
	if strings.TrimSpace(about[len(ev.Comment):]) != doc {
		return fmt.Sprintf("package comment %q does not go on with %q", about, doc)
	}
	docs := make(map[string]string)
	for _, d := range file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv != nil {
			docs[f.Name.Name] = strings.TrimSpace(f.Doc.Text())
		}
	}
	pkg, errs := typeCheck(src)
	if len(errs) > 0 {
		return "generated source does not compile: " + strings.Join(errs, "; ")
	}
	name, have := clientOf(pkg)
	if name == "" {
		return "there is no type for clients"
	}
	var names, want []string
	for n := range have {
		names = append(names, n)
	}
	for _, m := range ev.Methods {
		want = append(want, m.Name)
	}
	sort.Strings(names)
	sort.Strings(want)
	if strings.Join(names, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("methods are %v instead of %v", names, want)
	}
	for _, m := range ev.Methods {
		if msg := m.signature(pkg, have[m.Name]); msg != "" {
			return fmt.Sprintf("method %s: %s", m.Name, msg)
		}
		if docs[m.Name] != m.Doc {
			return fmt.Sprintf("method %s is described as %q instead of %q", m.Name, docs[m.Name], m.Doc)
		}
	}
	return ""
}

func (m *clientMethod) signature(pkg *types.Package, sig *types.Signature) string {
	in, msg := tupleOf(pkg, sig.Params(), m.WIn, 1, 0, m.FIn)
	if msg != "" {
		return "parameters: " + msg
	}
	out, msg := tupleOf(pkg, sig.Results(), m.WOut, 0, 1, m.FOut)
	if msg != "" {
		return "results: " + msg
	}
	if s := sig.Params().At(0).Type().String(); s != "context.Context" {
		return "the first parameter is " + s
	}
	if s := sig.Results().At(sig.Results().Len() - 1).Type().String(); s != "error" {
		return "the last result is " + s
	}
	if strings.Join(in, ", ") != strings.Join(m.GIn, ", ") {
		return fmt.Sprintf("parameters are of types %v instead of %v", in, m.GIn)
	}
	if strings.Join(out, ", ") != strings.Join(m.GOut, ", ") {
		return fmt.Sprintf("results are of types %v instead of %v", out, m.GOut)
	}
	return ""
}

// tupleOf lists types of parameters, or those of the fields of the struct
// that wraps them.
func tupleOf(pkg *types.Package, t *types.Tuple, wrapped bool, first, last int, fields []string) (r []string, msg string) {
	q := types.RelativeTo(pkg)
	if t.Len() < first+last {
		return nil, fmt.Sprintf("only %d", t.Len())
	}
	if !wrapped {
		for i := first; i < t.Len()-last; i++ {
			r = append(r, types.TypeString(t.At(i).Type(), q))
		}
		return r, ""
	}
	if t.Len() != first+last+1 {
		return nil, fmt.Sprintf("%d instead of one struct", t.Len()-first-last)
	}
	st, ok := t.At(first).Type().Underlying().(*types.Struct)
	if !ok {
		return nil, "no struct but " + t.At(first).Type().String()
	}
	var names []string
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
		r = append(r, types.TypeString(st.Field(i).Type(), q))
	}
	if strings.Join(names, " ") != strings.Join(fields, " ") {
		return nil, fmt.Sprintf("fields %v instead of %v", names, fields)
	}
	return r, ""
}

// clientPkg is a generated package.
type clientPkg struct {
	once   sync.Once
	dir    string
	client string
	src    []byte
	err    string
}

type clientRun struct {
	j    job
	v    clientVector
	pkg  *clientPkg
	text string
	req  wsdlReq
}

var (
	clientMu   sync.Mutex
	clientDir  string
	clientPkgs = make(map[string]*clientPkg)
	clientRuns []clientRun
)

func checkWsdlRun(c *ctx, raw json.RawMessage) {
	var v clientVector
	decode(c, raw, &v)
	if len(v.Calls) == 0 {
		return
	}
	docs := v.Def.render()
	key := joinDocs(docs) + jsonOf(v.Steps)
	clientMu.Lock()
	if clientDir == "" {
		d, err := ioutil.TempDir(workDir(), "wsdlrun")
		if err != nil {
			panic(err)
		}
		clientDir = d
	}
	p := clientPkgs[key]
	if p == nil {
		p = &clientPkg{dir: fmt.Sprintf("g%d", len(clientPkgs))}
		clientPkgs[key] = p
	}
	clientMu.Unlock()
	p.once.Do(func() { p.generate(docs, v.Steps) })
	text := fmt.Sprintf("%s\n%s\n%s", jsonOf(v.Steps), joinDocs(docs), p.src)
	if !c.check(p.err == "", "%s\n%s", p.err, text) {
		return
	}
	run := clientRun{j: c.job, v: v, pkg: p, text: text}
	run.req = wsdlReq{Key: p.dir, Hooks: v.Calls[0].Hooks}
	methods := v.Trace[0].Methods
	for _, ev := range v.Trace[1:] {
		run.req.Trace = append(run.req.Trace, wsdlEvent{A: ev.A, At: ev.At - 1})
	}
	for _, call := range v.Calls {
		m := methods[call.M-1]
		q := wsdlCall{Method: m.Name, WIn: m.WIn, WOut: m.WOut}
		for i, a := range call.Args {
			q.Args = append(q.Args, wsdlArg{m.In[i].K, a.C})
		}
		for _, p := range m.Out {
			q.Out = append(q.Out, p.K)
		}
		if call.Answer != "cancel" {
			q.Status, q.Body = m.answer(c, call)
			q.NetErr = call.Answer == "neterr"
			call.Answer = "ok"
			_, q.HookBody = m.answer(c, call)
		}
		run.req.Calls = append(run.req.Calls, q)
	}
	clientMu.Lock()
	clientRuns = append(clientRuns, run)
	clientMu.Unlock()
}

func (p *clientPkg) generate(docs [][]byte, steps []clientStep) {
	var (
		cfg  wsdlgen.Config
		undo []revert
		err  error
	)
	dir, files := clientFiles(docs)
	defer os.RemoveAll(dir)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	for _, s := range steps {
		undo = append(undo, s.do(&cfg, undo))
	}
	if p.src, err = cfg.GenSource(files...); err != nil {
		p.err = err.Error()
		return
	}
	pkg, errs := typeCheck(p.src)
	if len(errs) > 0 {
		p.err = "generated source does not compile: " + strings.Join(errs, "; ")
		return
	}
	if p.client, _ = clientOf(pkg); p.client == "" {
		p.err = "there is no type for clients"
		return
	}
	d := filepath.Join(clientDir, p.dir)
	os.MkdirAll(d, 0777)
	if err := ioutil.WriteFile(filepath.Join(d, "x.go"), p.src, 0666); err != nil {
		panic(err)
	}
}

const soapSpace = "http://schemas.xmlsoap.org/soap/envelope/"

// answer makes the response to a call.
func (m *clientMethod) answer(c *ctx, call clientCall) (status int, body string) {
	fault := `<s:Envelope xmlns:s="` + soapSpace + `"><s:Body><s:Fault><faultcode>s:Server</faultcode><faultstring>it broke</faultstring><detail><x xmlns="urn:t">7</x></detail></s:Fault></s:Body></s:Envelope>`
	switch call.Answer {
	case "fault":
		return 200, fault
	case "fault500":
		return 500, fault
	case "html":
		return 500, "<html><head><title>Error</title></head><body><p>Body</p></body></html>"
	case "empty":
		return 202, ""
	case "other":
		return 200, `<ok xmlns="urn:t"><Body xmlns="` + soapSpace + `"/></ok>`
	case "neterr":
		return 0, ""
	}
	odd := call.Answer == "okx"
	pfx, sp := "s:", "xmlns:s"
	if odd && c.rng.Intn(2) == 0 {
		pfx, sp = "", "xmlns"
	}
	var b strings.Builder
	if odd {
		b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- <Fault/> -->\n")
	}
	fmt.Fprintf(&b, `<%sEnvelope %s="%s" xmlns:w="%s" xmlns:t="urn:t">`, pfx, sp, soapSpace, clientSpace)
	if odd {
		fmt.Fprintf(&b, "\n<%sHeader><t:a mustUnderstand=\"0\"><b>Fault</b></t:a><t:c/></%sHeader>\n ", pfx, pfx)
	}
	fmt.Fprintf(&b, "<%sBody>", pfx)
	var parts []string
	els := len(m.Out) > 0
	for i, p := range m.Out {
		if !p.el() {
			els = false
		}
		v := call.Rets[i].W
		if !strings.HasPrefix(v, "<") || p.K == "string" || p.K == "elS" {
			v = strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(v)
			if odd && c.rng.Intn(3) == 0 {
				v = "<!-- x -->" + v
			}
		}
		name := p.N
		switch {
		case p.el() && odd && c.rng.Intn(2) == 0:
			parts = append(parts, fmt.Sprintf(`<%s xmlns="urn:t">%s</%s>`, p.K, v, p.K))
			continue
		case p.el():
			name = "t:" + p.K
		case odd && c.rng.Intn(2) == 0:
			name = "w:" + name
		default: // no namespace
			parts = append(parts, fmt.Sprintf(`<%s xmlns="">%s</%s>`, name, v, name))
			continue
		}
		parts = append(parts, fmt.Sprintf(`<%s>%s</%s>`, name, v, name))
	}
	if odd {
		c.rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	text := strings.Join(parts, "")
	if odd {
		text = strings.Join(parts, "\n  ")
	}
	if els {
		b.WriteString(text)
	} else {
		fmt.Fprintf(&b, "<w:%sResponse>%s</w:%sResponse>", m.Op, text, m.Op)
	}
	fmt.Fprintf(&b, "</%sBody></%sEnvelope>", pfx, pfx)
	body = b.String()
	if call.Answer == "cut" {
		return 200, body[:len(body)*2/3]
	}
	return 200, body
}

// What the program that has all the clients is asked, and says.
type wsdlArg struct{ Kind, Value string }

type wsdlCall struct {
	Method    string
	WIn, WOut bool
	Args      []wsdlArg
	Out       []string
	Status    int
	Body      string
	NetErr    bool
	HookBody  string
}

type wsdlEvent struct {
	A  string
	At int
}

type wsdlReq struct {
	ID    int
	Key   string
	Hooks struct {
		Req  string `json:"req"`
		Rsp  string `json:"rsp"`
		Dflt bool   `json:"dflt"`
	}
	Calls []wsdlCall
	Trace []wsdlEvent
}

type wsdlSeen struct {
	Problem             string
	Method, URL, Action string
	Type, Body          string
	Ctx                 bool
	ReqHooks, RspHooks  int
	HookReq             bool // the request is that of the hook
	Err                 string
	IsErr, Canceled     bool
	Rets                []string
	Closed              bool
}

type wsdlRsp struct {
	ID    int
	Calls []wsdlSeen
}

const clientMain = `
var timeType = reflect.TypeOf(time.Time{})

func set(v reflect.Value, kind, text string) {
	t := v.Type()
	switch {
	case kind == "cplx" || kind == "elC":
		set(v.FieldByName("V"), "int", text)
		return
	case kind == "elAnon":
		set(v.FieldByName("W"), "string", text)
		return
	case t.ConvertibleTo(timeType):
		tm, err := time.Parse(time.RFC3339Nano, text)
		if err != nil {
			panic(err)
		}
		v.Set(reflect.ValueOf(tm).Convert(t))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(text)
	case reflect.Bool:
		v.SetBool(text == "true")
	case reflect.Int, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			panic(err)
		}
		v.SetInt(n)
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(text, 64)
		if err != nil {
			panic(err)
		}
		v.SetFloat(f)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b, err := hex.DecodeString(text)
			if err != nil {
				panic(err)
			}
			v.SetBytes(b)
			return
		}
		for _, s := range strings.Fields(text) {
			e := reflect.New(t.Elem()).Elem()
			set(e, "", s)
			v.Set(reflect.Append(v, e))
		}
	default:
		panic("cannot set " + t.String())
	}
}

func get(v reflect.Value, kind string) string {
	t := v.Type()
	switch {
	case kind == "cplx" || kind == "elC":
		return get(v.FieldByName("V"), "int")
	case kind == "elAnon":
		return get(v.FieldByName("W"), "string")
	case t.ConvertibleTo(timeType):
		return v.Convert(timeType).Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return hex.EncodeToString(v.Bytes())
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, get(v.Index(i), ""))
		}
		return strings.Join(parts, " ")
	}
	return fmt.Sprint(v.Interface())
}

type call struct {
	Method    string
	WIn, WOut bool
	Args      []struct{ Kind, Value string }
	Out       []string
	Status    int
	Body      string
	NetErr    bool
	HookBody  string
}

type seen struct {
	Problem             string
	Method, URL, Action string
	Type, Body          string
	Ctx                 bool
	ReqHooks, RspHooks  int
	HookReq             bool
	Err                 string
	IsErr, Canceled     bool
	Rets                []string
	Closed              bool
}

type request struct {
	ID    int
	Key   string
	Hooks struct {
		Req, Rsp string
		Dflt     bool
	}
	Calls []call
	Trace []struct {
		A  string
		At int
	}
}

// The network.
type network struct {
	mu      sync.Mutex
	seen    []seen
	calls   []call
	arrived chan int
	answers []chan bool
	pending int // the call that is being started
}

type callKey struct{}

func (n *network) RoundTrip(req *http.Request) (*http.Response, error) {
	n.mu.Lock()
	i := n.pending
	s := &n.seen[i]
	if s.URL != "" {
		s.Problem = "two requests"
		n.mu.Unlock()
		return nil, errors.New("second request")
	}
	s.Method, s.URL, s.Action, s.Type = req.Method, req.URL.String(), req.Header.Get("SOAPAction"), req.Header.Get("Content-Type")
	s.Ctx = req.Context().Value(callKey{}) == i
	s.HookReq = req.Header.Get("X-Hook") != ""
	n.mu.Unlock()
	if req.Body != nil {
		b, err := ioutil.ReadAll(req.Body)
		if err != nil {
			s.Problem = err.Error()
		}
		s.Body = string(b)
		req.Body.Close()
	}
	n.arrived <- i
	select {
	case <-n.answers[i]:
	case <-req.Context().Done():
		return nil, req.Context().Err()
	}
	c := n.calls[i]
	if c.NetErr {
		return nil, errors.New("the network is down")
	}
	return &http.Response{
		Status: fmt.Sprint(c.Status, " status"), StatusCode: c.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/xml"}, "X-Call": {strconv.Itoa(i)}}, ContentLength: -1, Request: req,
		Body: &body{strings.NewReader(c.Body), n, i},
	}, nil
}

type body struct {
	io.Reader
	n *network
	i int
}

func (b *body) Close() error {
	b.n.mu.Lock()
	b.n.seen[b.i].Closed = true
	b.n.mu.Unlock()
	return nil
}

var hangs int

func play(q request) []seen {
	n := &network{seen: make([]seen, len(q.Calls)), calls: q.Calls, arrived: make(chan int, 1)}
	client := reflect.ValueOf(clients[q.Key]())
	hc := &http.Client{Transport: n}
	if q.Hooks.Dflt {
		http.DefaultTransport = n
	} else {
		http.DefaultTransport = nil
		client.Elem().FieldByName("HTTPClient").Set(reflect.ValueOf(hc))
	}
	if q.Hooks.Req != "none" {
		client.Elem().FieldByName("RequestHook").Set(reflect.ValueOf(func(req *http.Request) *http.Request {
			n.mu.Lock()
			n.seen[n.pending].ReqHooks++
			n.mu.Unlock()
			if q.Hooks.Req == "url" {
				req = req.Clone(req.Context())
				req.URL, _ = url.Parse("http://hook.test/elsewhere")
				req.Header.Set("X-Hook", "1")
			}
			return req
		}))
	}
	if q.Hooks.Rsp != "none" {
		client.Elem().FieldByName("ResponseHook").Set(reflect.ValueOf(func(rsp *http.Response) *http.Response {
			i, _ := strconv.Atoi(rsp.Header.Get("X-Call"))
			n.mu.Lock()
			n.seen[i].RspHooks++
			n.mu.Unlock()
			if q.Hooks.Rsp == "body" {
				c := *rsp
				rsp = &c
				rsp.Body = ioutil.NopCloser(strings.NewReader(q.Calls[i].HookBody))
			}
			return rsp
		}))
	}
	done := make([]chan bool, len(q.Calls))
	cancel := make([]func(), len(q.Calls))
	for i := range q.Calls {
		done[i] = make(chan bool)
		n.answers = append(n.answers, make(chan bool))
	}
	wait := func(i int) bool {
		select {
		case <-done[i]:
			return true
		case <-time.After(20 * time.Second):
			n.mu.Lock()
			n.seen[i].Problem = "the method does not return"
			hangs++
			n.mu.Unlock()
			return false
		}
	}
	for _, ev := range q.Trace {
		i := ev.At
		switch ev.A {
		case "start":
			n.mu.Lock()
			n.pending = i
			n.mu.Unlock()
			var ctx context.Context
			ctx, cancel[i] = context.WithCancel(context.WithValue(context.Background(), callKey{}, i))
			go func() {
				defer close(done[i])
				n.perform(client, i, ctx)
			}()
			select {
			case <-n.arrived:
			case <-done[i]:
				n.mu.Lock()
				n.seen[i].Problem = "there was no request (" + n.seen[i].Problem + n.seen[i].Err + ")"
				n.mu.Unlock()
				return n.seen
			case <-time.After(20 * time.Second):
				n.seen[i].Problem = "there was no request for a while"
				hangs++
				return n.seen
			}
		case "answer":
			close(n.answers[i])
			if !wait(i) {
				return n.seen
			}
		case "cancel":
			cancel[i]()
			if !wait(i) {
				return n.seen
			}
		}
	}
	return n.seen
}

func (n *network) perform(client reflect.Value, i int, ctx context.Context) {
	c := n.calls[i]
	s := &n.seen[i]
	defer func() {
		if r := recover(); r != nil {
			n.mu.Lock()
			s.Problem = fmt.Sprintf("panic: %v", r)
			n.mu.Unlock()
		}
	}()
	m := client.MethodByName(c.Method)
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if c.WIn {
		v := reflect.New(m.Type().In(1)).Elem()
		for k, a := range c.Args {
			set(v.Field(k), a.Kind, a.Value)
		}
		args = append(args, v)
	} else {
		for k, a := range c.Args {
			v := reflect.New(m.Type().In(k + 1)).Elem()
			set(v, a.Kind, a.Value)
			args = append(args, v)
		}
	}
	rets := m.Call(args)
	n.mu.Lock()
	defer n.mu.Unlock()
	if err, _ := rets[len(rets)-1].Interface().(error); err != nil {
		s.IsErr = true
		s.Err = err.Error()
		s.Canceled = errors.Is(err, context.Canceled)
	}
	for k, kind := range c.Out {
		if c.WOut {
			s.Rets = append(s.Rets, get(rets[0].Field(k), kind))
		} else {
			s.Rets = append(s.Rets, get(rets[k], kind))
		}
	}
}

func main() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for hangs < 3 {
		var q request
		if err := dec.Decode(&q); err != nil {
			return
		}
		b, err := json.Marshal(map[string]interface{}{"ID": q.ID, "Calls": play(q)})
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
`

func finishWsdlRun(c *ctx, report func(job, []string)) {
	if len(clientRuns) == 0 {
		return
	}
	defer os.RemoveAll(clientDir)
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n")
	for _, p := range []string{"bufio", "context", "encoding/hex", "encoding/json", "errors", "fmt", "io", "io/ioutil", "net/http", "net/url", "os", "reflect", "strconv", "strings", "sync", "time"} {
		fmt.Fprintf(&b, "%q\n", p)
	}
	names := make(map[string]string)
	for _, r := range clientRuns {
		names[r.pkg.dir] = r.pkg.client
	}
	var dirs []string
	for d := range names {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		fmt.Fprintf(&b, "%s %q\n", d, "verifgen/"+d)
	}
	b.WriteString(")\n\nvar clients = map[string]func() interface{}{\n")
	for _, d := range dirs {
		fmt.Fprintf(&b, "%q: func() interface{} { return new(%s.%s) },\n", d, d, names[d])
	}
	b.WriteString("}\n" + clientMain)
	os.MkdirAll(filepath.Join(clientDir, "main"), 0777)
	ioutil.WriteFile(filepath.Join(clientDir, "main", "main.go"), b.Bytes(), 0666)
	ioutil.WriteFile(filepath.Join(clientDir, "go.mod"), []byte("module verifgen\n\ngo 1.15\n"), 0666)
	if out, err := goTool(clientDir, "build", "-o", "prog", "./main"); err != nil {
		// packages have been type checked, so this is the machinery
		fmt.Fprintf(os.Stderr, "building generated clients: %v\n%s\n", err, out)
		os.Exit(3)
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for i, r := range clientRuns {
		r.req.ID = i
		enc.Encode(r.req)
	}
	out, died := runProgram(filepath.Join(clientDir, "prog"), &in)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	done, bad := 0, 0
	for sc.Scan() {
		var r wsdlRsp
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		run := clientRuns[r.ID]
		done++
		if msg := run.judge(c, r); msg != "" {
			bad++
			report(run.j, []string{fmt.Sprintf("%s\nof %s\nwas %s\n%s", msg, jsonOf(run.req), jsonOf(r), run.text)})
		}
	}
	if done < len(clientRuns) && died != "" {
		run := clientRuns[done]
		report(run.j, []string{fmt.Sprintf("%s\nof %s\n%s", died, jsonOf(run.req), run.text)})
	} else if done != len(clientRuns) && bad == 0 { // it stops when too many calls hang
		fmt.Fprintf(os.Stderr, "%d of %d runs were made\n", done, len(clientRuns))
		os.Exit(3)
	}
}

func (run *clientRun) judge(c *ctx, r wsdlRsp) string {
	for i, call := range run.v.Calls {
		m := run.v.Trace[0].Methods[call.M-1]
		s := r.Calls[i]
		c.checks += 8
		if msg := s.judge(&m, call); msg != "" {
			return fmt.Sprintf("call %d of %s: %s", i+1, m.Name, msg)
		}
	}
	return ""
}

func (s *wsdlSeen) judge(m *clientMethod, call clientCall) string {
	if s.Problem != "" {
		return s.Problem
	}
	if s.Method != m.Verb {
		return "request is a " + s.Method
	}
	if call.Hooks.Req == "url" {
		if s.URL != "http://hook.test/elsewhere" || !s.HookReq {
			return "it is not the hook's request that was sent, but one to " + s.URL
		}
	} else if s.URL != addressOf(m.Port) {
		return "request to " + s.URL
	}
	if strings.Trim(s.Action, `"`) != m.Action {
		return fmt.Sprintf("action is %q instead of %q", s.Action, m.Action)
	}
	if !strings.HasPrefix(s.Type, "text/xml") {
		return "request of type " + s.Type
	}
	if !s.Ctx {
		return "request without the caller's context"
	}
	if n := s.ReqHooks; (call.Hooks.Req == "none") != (n == 0) || n > 1 {
		return fmt.Sprintf("request hook was called %d times", n)
	}
	if msg := m.request(s.Body, call); msg != "" {
		return "request: " + msg
	}
	answered := call.Answer != "neterr" && call.Answer != "cancel"
	if n := s.RspHooks; (call.Hooks.Rsp != "none" && answered) != (n == 1) || n > 1 {
		return fmt.Sprintf("response hook was called %d times", n)
	}
	if answered && !s.Closed && call.Hooks.Rsp != "body" {
		return "body of the response was not closed"
	}
	if s.IsErr != call.Err {
		return fmt.Sprintf("error %q after answer %s", s.Err, call.Answer)
	}
	if call.Answer == "cancel" && !s.Canceled {
		return fmt.Sprintf("error %q after it was canceled", s.Err)
	}
	if call.Err {
		if strings.HasPrefix(call.Answer, "fault") && !(strings.Contains(s.Err, "Server") && strings.Contains(s.Err, "it broke")) {
			return fmt.Sprintf("error %q does not tell the fault", s.Err)
		}
		return ""
	}
	for i := range call.Rets {
		if s.Rets[i] != call.Rets[i].C {
			return fmt.Sprintf("result %d is %q instead of %q", i, s.Rets[i], call.Rets[i].C)
		}
	}
	return ""
}

// request compares a request with the arguments of a call.
func (m *clientMethod) request(text string, call clientCall) string {
	var env rawNode
	if err := xml.Unmarshal([]byte(text), &env); err != nil {
		return err.Error()
	}
	if env.XMLName.Space != soapSpace || env.XMLName.Local != "Envelope" {
		return "no envelope but " + env.XMLName.Local
	}
	var body *rawNode
	for i, k := range env.Kids {
		switch {
		case k.XMLName == xml.Name{Space: soapSpace, Local: "Body"} && body == nil:
			body = &env.Kids[i]
		case k.XMLName == xml.Name{Space: soapSpace, Local: "Header"} && body == nil:
		default:
			return "superfluous element " + k.XMLName.Local
		}
	}
	if body == nil {
		return "no body"
	}
	els := len(m.In) > 0 && m.In[0].el()
	kids := body.Kids
	if !els {
		if len(m.In) == 0 && len(kids) == 0 {
			return ""
		}
		if len(kids) != 1 || kids[0].XMLName != (xml.Name{Space: clientSpace, Local: m.Op}) {
			return fmt.Sprintf("body is not one element for %s", m.Op)
		}
		kids = kids[0].Kids
	}
	if len(kids) != len(m.In) {
		return fmt.Sprintf("%d elements for %d parts", len(kids), len(m.In))
	}
	for i, p := range m.In {
		k := kids[i]
		switch {
		case els && k.XMLName != xml.Name{Space: "urn:t", Local: p.K}:
			return fmt.Sprintf("element %v instead of %s", k.XMLName, p.K)
		case !els && (k.XMLName.Local != p.N || k.XMLName.Space != "" && k.XMLName.Space != clientSpace):
			return fmt.Sprintf("element %v for part %s", k.XMLName, p.N)
		}
		kind, text := p.K, k.Text
		inner := map[string]string{"cplx": "v", "elC": "v", "elAnon": "w"}[kind]
		if inner != "" {
			if len(k.Kids) != 1 || k.Kids[0].XMLName != (xml.Name{Space: "urn:t", Local: inner}) {
				return fmt.Sprintf("part %s has elements %s", p.N, jsonOf(k.Kids))
			}
			text = k.Kids[0].Text
		} else if len(k.Kids) > 0 {
			return fmt.Sprintf("part %s has elements %s", p.N, jsonOf(k.Kids))
		}
		if canon := canonText(kind, text); canon != call.Args[i].C {
			return fmt.Sprintf("part %s is %q (%s) instead of %q", p.N, text, canon, call.Args[i].C)
		}
	}
	return ""
}

// canonText is the canonical form of a lexical representation of a kind.
func canonText(kind, text string) string {
	when := func(layout string) string {
		text = strings.TrimSpace(text)
		for _, zone := range []string{"", "Z07:00"} {
			if t, err := time.Parse(layout+zone, text); err == nil {
				return t.Format(time.RFC3339Nano)
			}
		}
		return "?"
	}
	switch kind {
	case "string", "elS", "elAnon":
		return text
	case "int", "cplx", "elC":
		if n, err := strconv.ParseInt(strings.TrimSpace(text), 10, 32); err == nil {
			return strconv.FormatInt(n, 10)
		}
	case "boolean":
		switch strings.TrimSpace(text) {
		case "true", "1":
			return "true"
		case "false", "0":
			return "false"
		}
	case "double":
		if f, err := strconv.ParseFloat(strings.TrimSpace(text), 64); err == nil {
			return strconv.FormatFloat(f, 'f', -1, 64)
		}
	case "date", "elD", "dt":
		return when("2006-01-02")
	case "dateTime":
		return when("2006-01-02T15:04:05.999999999")
	case "gYear":
		return when("2006")
	case "hexBinary":
		if b, err := hex.DecodeString(strings.TrimSpace(text)); err == nil {
			return hex.EncodeToString(b)
		}
	case "base64Binary":
		if b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(text)); err == nil {
			return hex.EncodeToString(b)
		}
	case "lst":
		return strings.Join(strings.Fields(text), " ")
	}
	return "?"
}
