package main

// Histories of spec/Commands.tla: a directory in which files are written and
// the commands of the repository are run.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

type cmdContent struct {
	K  string `json:"k"`
	Of string `json:"of"`
	V  int    `json:"v"`
}

type cmdRun struct {
	Cmd     string   `json:"cmd"`
	Roots   []string `json:"roots"`
	Out     string   `json:"out"`
	NS      []string `json:"ns"`
	Follow  bool     `json:"follow"`
	Rules   []string `json:"rules"`
	Pkg     string   `json:"pkg"`
	Comment string   `json:"comment"`
	Ports   []string `json:"ports"`
	Verb    int      `json:"verb"`
	Spell   int      `json:"spell"`
	Usage   string   `json:"usage"`
}

type cmdStep struct {
	Do      string     `json:"do"`
	File    string     `json:"file"`
	From    string     `json:"from"`
	Put     cmdContent `json:"put"`
	Run     cmdRun     `json:"run"`
	Fail    bool       `json:"fail"`
	Types   []string   `json:"types"`
	Methods []string   `json:"methods"`
	Print   []string   `json:"print"`
}

func init() { checkers["commands"] = checkCommands }

func cmdText(c cmdContent) string {
	const head = `<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="%s"%s elementFormDefault="qualified">`
	typ := func(name string) string {
		return `<complexType name="` + name + `"><sequence><element name="v" type="int"/></sequence></complexType>`
	}
	switch c.K {
	case "junk":
		return []string{"<", "", "<x><"}[c.V-1]
	case "old":
		return "package old // " + strings.Repeat("long ", 8000)
	}
	switch c.Of {
	case "a.xsd":
		s := fmt.Sprintf(head, "urn:a", "") + typ("T")
		if c.V == 2 {
			s += typ("W")
		}
		return s + "</schema>"
	case "b.xsd":
		if c.V == 1 {
			return fmt.Sprintf(head, "urn:b", ` xmlns:a="urn:a"`) + `<import namespace="urn:a" schemaLocation="a.xsd"/><complexType name="U"><sequence><element name="v" type="a:T"/></sequence></complexType></schema>`
		}
		return fmt.Sprintf(head, "urn:b", "") + typ("U") + "</schema>"
	}
	types, more, ports := typ("Q"), "", `<port name="P1" binding="t:B1"><soap:address location="http://localhost/1"/></port>`
	ops1, ops2 := []string{"getA"}, []string(nil)
	if c.V == 1 {
		ops2 = []string{"setA"}
		ports += `<port name="P2" binding="t:B2"><soap:address location="http://localhost/2"/></port>`
	} else {
		types += typ("R")
		ops1 = append(ops1, "delA")
	}
	for i, ops := range [][]string{ops1, ops2} {
		if len(ops) == 0 {
			continue
		}
		pt, b := "", ""
		for _, op := range ops {
			pt += fmt.Sprintf(`<operation name="%s"><input message="t:In"/><output message="t:Out"/></operation>`, op)
			b += fmt.Sprintf(`<operation name="%s"><soap:operation soapAction="urn:%s"/><input><soap:body use="literal"/></input><output><soap:body use="literal"/></output></operation>`, op, op)
		}
		more += fmt.Sprintf(`<portType name="PT%d">%s</portType><binding name="B%d" type="t:PT%d"><soap:binding style="rpc" transport="http://schemas.xmlsoap.org/soap/http"/>%s</binding>`, i+1, pt, i+1, i+1, b)
	}
	return `<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:w" targetNamespace="urn:w"><types>` +
		fmt.Sprintf(head, "urn:w", "") + types + `</schema></types><message name="In"><part name="x" type="xs:int"/></message><message name="Out"><part name="y" type="xs:int"/></message>` +
		more + `<service name="S"><documentation>Service text</documentation>` + ports + `</service></definitions>`
}

var cmdRules = map[string][2]string{"tx": {"T", "X"}, "t0": {"T", "${0}Z"}, "xy": {"X", "Y"}}

// arguments spells the arguments of a run.
func (r cmdRun) arguments(dir string) []string {
	var args []string
	flag := func(name, val string) {
		switch r.Spell {
		case 0:
			args = append(args, "-"+name, val)
		case 1:
			args = append(args, "-"+name+"="+val)
		case 2:
			args = append(args, "--"+name, val)
		}
	}
	if r.Follow {
		args = append(args, []string{"-f", "-f=true", "--f"}[r.Spell])
	}
	if r.Pkg != "" {
		flag("pkg", r.Pkg)
	}
	for _, rule := range r.Rules {
		flag("r", cmdRules[rule][0]+[]string{" -> ", "->", "  ->\t"}[r.Spell]+cmdRules[rule][1])
	}
	for _, ns := range r.NS {
		flag("ns", ns)
	}
	for _, p := range r.Ports {
		flag("port", p)
	}
	if r.Comment != "" {
		flag("c", r.Comment)
	}
	if r.Out != "" {
		flag("o", r.Out)
	}
	if r.Verb > 0 {
		args = append(args, []string{"-v", "-vv"}[r.Verb-1])
	}
	switch r.Usage {
	case "nofiles":
		return args
	case "badflag":
		args = append(args, "-zz")
	case "norule":
		flag("r", "T")
	case "badrule":
		flag("r", "( -> X")
	}
	if r.Spell == 2 {
		args = append(args, "--")
	}
	for _, f := range r.Roots {
		args = append(args, []string{f, "./" + f, filepath.Join(dir, f)}[r.Spell])
	}
	return args
}

// library generates what a run is expected to write or print.
func (r cmdRun) library(dir string) (src []byte, err error) {
	var files []string
	for _, f := range r.Roots {
		files = append(files, filepath.Join(dir, f))
	}
	var opts []xsdgen.Option
	opts = append(opts, xsdgen.DefaultOptions...)
	for _, rule := range r.Rules {
		opts = append(opts, xsdgen.Replace(cmdRules[rule][0], cmdRules[rule][1]))
	}
	if r.Pkg != "" {
		opts = append(opts, xsdgen.PackageName(r.Pkg))
	}
	switch r.Cmd {
	case "xsdgen":
		var cfg xsdgen.Config
		cfg.Option(opts...)
		cfg.Option(xsdgen.Namespaces(r.NS...), xsdgen.FollowImports(r.Follow))
		return cfg.GenSource(files...)
	case "wsdlgen":
		var cfg wsdlgen.Config
		cfg.Option(wsdlgen.DefaultOptions...)
		cfg.XSDOption(opts...)
		if r.Pkg != "" {
			cfg.Option(wsdlgen.PackageName(r.Pkg))
		}
		if r.Comment != "" {
			cfg.Option(wsdlgen.PackageComment(r.Comment))
		}
		if len(r.Ports) > 0 {
			cfg.Option(wsdlgen.OnlyPorts(r.Ports...))
		}
		return cfg.GenSource(files...)
	}
	var docs [][]byte
	for _, f := range files {
		data, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		docs = append(docs, data)
	}
	trees, err := xsd.Normalize(docs...)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	for i, t := range trees {
		if i >= len(trees)-len(xsd.StandardSchema) {
			break
		}
		if ns := t.Attr("", "targetNamespace"); len(r.NS) == 0 || r.NS[0] == ns {
			b.WriteString("\n")
			b.Write(xmltree.MarshalIndent(t, "", "  "))
		}
	}
	return b.Bytes(), nil
}

// run runs a command, and returns what it prints.
func runCommand(dir, path string, args ...string) (stdout, stderr string, failed bool) {
	cmd := exec.Command(path, args...)
	cmd.Dir = dir
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return out.String(), msg.String(), err != nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		return "", "(did not end within a minute)", true
	}
}

func shorten(s string) string {
	if len(s) > 1600 {
		return s[:800] + " ... " + s[len(s)-800:]
	}
	return s
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func checkCommands(c *ctx, raw json.RawMessage) {
	var v struct {
		Steps []cmdStep `json:"steps"`
	}
	decode(c, raw, &v)
	dir, err := ioutil.TempDir(workDir(), "commands")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Mkdir(filepath.Join(dir, "dir"), 0777); err != nil {
		panic(err)
	}
	disk := make(map[string]string)
	put := func(name, text string) {
		disk[name] = text
		if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0666); err != nil {
			panic(err)
		}
	}
	for _, n := range []string{"a.xsd", "b.xsd", "s.wsdl"} {
		put(n, cmdText(cmdContent{"src", n, 1}))
	}
	var story []string
	for _, s := range v.Steps {
		switch s.Do {
		case "put":
			story = append(story, fmt.Sprintf("%s := %s %s %d", s.File, s.Put.K, s.Put.Of, s.Put.V))
			if s.Put.K == "none" {
				delete(disk, s.File)
				os.Remove(filepath.Join(dir, s.File))
			} else {
				put(s.File, cmdText(s.Put))
			}
		case "copy":
			story = append(story, fmt.Sprintf("%s := copy of %s", s.File, s.From))
			if text, ok := disk[s.From]; ok {
				put(s.File, text)
			} else {
				delete(disk, s.File)
				os.Remove(filepath.Join(dir, s.File))
			}
		case "run":
			story = append(story, fmt.Sprintf("%s %q", s.Run.Cmd, s.Run.arguments(dir)))
			if !c.runStep(dir, disk, s, strings.Join(story, "\n")) {
				return
			}
		default:
			panic(s.Do)
		}
	}
}

func (c *ctx) runStep(dir string, disk map[string]string, s cmdStep, story string) bool {
	r, ok := s.Run, true
	expect := func(cond bool, format string, args ...interface{}) bool {
		ok = c.check(cond, format+"\n%s", append(args, story)...) && ok
		return cond
	}
	var want []byte
	var err error
	if r.Usage == "ok" {
		want, err = r.library(dir)
		usable := r.Out != "dir" && r.Out != "nodir/out.go"
		expect((err != nil) == (s.Fail && usable) || !usable, "the library says %v", err)
	}
	stdout, stderr, failed := runCommand(dir, tool(r.Cmd), r.arguments(dir)...)
	expect(failed == s.Fail, "failed: %v, with %s", failed, shorten(stderr))
	if r.Cmd != "xsdparse" || s.Fail {
		expect(stdout == "", "prints %s", shorten(stdout))
	}
	switch {
	case s.Fail:
		expect(stderr != "", "fails and says nothing")
	case r.Verb == 0:
		expect(stderr == "", "succeeds and says %s", shorten(stderr))
	case r.Verb == 2:
		expect(stderr != "", "says nothing in spite of -vv")
	}
	if !ok {
		return false
	}
	if s.Fail {
		want = nil
	}
	if s.File != "" {
		have, err := ioutil.ReadFile(filepath.Join(dir, s.File))
		if !expect(err == nil, "no output: %v", err) {
			return false
		}
		expect(untitled(have) == untitled(want), "the command and the library differ:\n%s\n%s", have, want)
		disk[s.File] = string(have)
		types, methods, pkg, doc := declared(have)
		pkgWant, docWant := r.Pkg, r.Comment
		if pkgWant == "" {
			pkgWant = "ws"
		}
		if docWant == "" {
			docWant = "Package " + pkgWant
		}
		expect(pkg == pkgWant, "package %s", pkg)
		var found []string
		for _, t := range types {
			if r.Cmd != "wsdlgen" || len(t) <= 3 {
				found = append(found, t)
			}
		}
		expect(strings.Join(sorted(found), " ") == strings.Join(sorted(s.Types), " "), "types are %v instead of %v", types, s.Types)
		if r.Cmd == "wsdlgen" {
			expect(strings.Join(sorted(methods), " ") == strings.Join(sorted(s.Methods), " "), "methods are %v instead of %v", methods, s.Methods)
			expect(strings.HasPrefix(doc, docWant+"\n") && strings.Contains(doc, "Service text"), "package comment is %q", doc)
		}
	}
	if r.Cmd == "xsdparse" && !s.Fail {
		expect(squeeze(stdout) == squeeze(string(want)), "prints\n%s\ninstead of\n%s", stdout, want)
		// and each is a document of its own
		var spaces []string
		for i, part := range strings.Split(stdout, "</schema>") {
			if strings.TrimSpace(part) == "" {
				continue
			}
			root, err := xmltree.Parse([]byte(part + "</schema>"))
			if expect(err == nil, "document %d: %v\n%s", i, err, part) {
				spaces = append(spaces, root.Attr("", "targetNamespace"))
			}
		}
		expect(strings.Join(spaces, " ") == strings.Join(s.Print, " "), "prints schema for %v instead of %v", spaces, s.Print)
	}
	// nothing else happened
	have := make(map[string]bool)
	for _, f := range listDir(dir) {
		have[f] = true
		data, err := ioutil.ReadFile(filepath.Join(dir, f))
		text, known := disk[f]
		expect(known, "there is a file %s", f)
		expect(err == nil && (!known || string(data) == text), "%s has changed", f)
	}
	for f := range disk {
		expect(have[f], "%s is gone", f)
	}
	info, err := os.Stat(filepath.Join(dir, "dir"))
	expect(err == nil && info.IsDir(), "the directory is gone")
	return ok
}

// declared lists the types and methods of a source.
func declared(src []byte) (types, methods []string, pkg, doc string) {
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err.Error(), ""
	}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.TYPE {
				continue
			}
			for _, spec := range d.Specs {
				if n := spec.(*ast.TypeSpec).Name; n.IsExported() {
					types = append(types, n.Name)
				}
			}
		case *ast.FuncDecl:
			if d.Recv != nil && (d.Name.Name == "GetA" || d.Name.Name == "SetA" || d.Name.Name == "DelA") {
				methods = append(methods, d.Name.Name)
			}
		}
	}
	return types, methods, file.Name.Name, file.Doc.Text()
}
