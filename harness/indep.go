package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// Several clients use the packages at the same time (spec/Independent.tla).
// A behaviour is replayed in a process of its own: each call that begins is
// started in a goroutine, and waited for where it ends. What a client sees is
// compared with what the same call gives in a process that does nothing else.
// The driver is built with the race detector, if there is one.

func init() {
	checkers["indep"] = checkIndep
	if len(os.Args) == 4 && os.Args[1] == "indep" {
		os.Exit(indepChild(os.Args[2], os.Args[3]))
	}
}

type indepEvent struct {
	C   int    `json:"c"`
	E   string `json:"e"`
	Do  string `json:"do"`
	Op  string `json:"op"`
	In  string `json:"in"`
	Opt int    `json:"opt"`
	Obj int    `json:"obj"`
	N   int    `json:"n"`
}

type indepVector struct {
	Clients int          `json:"clients"`
	Hist    []indepEvent `json:"hist"`
}

func (e indepEvent) key(n int) string { return fmt.Sprintf("%s-%s-%d-%d", e.Op, e.In, e.Opt, n) }

// keys are what clients see in a behaviour.
func (v indepVector) keys() map[string]indepEvent {
	seen := map[string]indepEvent{}
	for _, e := range v.Hist {
		n := e.N
		seen[e.key(n)] = indepEvent{Op: e.Op, In: e.In, Opt: e.Opt, N: n}
	}
	return seen
}

var (
	isolatedMu   sync.Mutex
	isolatedOnce = map[string]*sync.Once{}
	isolatedErr  = map[string]error{}
)

func indepWork() string {
	if w := os.Getenv("DRV_WORK"); w != "" {
		return w
	}
	return os.TempDir()
}

func runIndep(v indepVector, record bool) (string, error) {
	b, _ := json.Marshal(v)
	f, err := ioutil.TempFile(indepWork(), "indep")
	if err != nil {
		return "", err
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	how := "compare"
	if record {
		how = "record"
	}
	cmd := exec.Command(os.Args[0], "indep", how, f.Name())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		return out.String(), fmt.Errorf("no answer within 50 s")
	}
	return out.String(), err
}

// isolated runs one call in a process of its own.
func isolated(key string, e indepEvent) error {
	isolatedMu.Lock()
	once := isolatedOnce[key]
	if once == nil {
		once = new(sync.Once)
		isolatedOnce[key] = once
	}
	isolatedMu.Unlock()
	once.Do(func() {
		os.MkdirAll(filepath.Join(indepWork(), "isolated"), 0777)
		e.Obj, e.C = 1, 1
		var v indepVector
		v.Clients = 1
		add := func(do string, n int) {
			for _, what := range []string{"begin", "end"} {
				e := e
				e.Do, e.E, e.N = do, what, n
				v.Hist = append(v.Hist, e)
			}
		}
		add("make", 0)
		for i := 0; i < e.N; i++ {
			add("change", i+1)
		}
		add("look", e.N)
		out, err := runIndep(v, true)
		if err != nil {
			err = fmt.Errorf("%s alone: %v\n%s", key, err, out)
		}
		isolatedMu.Lock()
		isolatedErr[key] = err
		isolatedMu.Unlock()
	})
	isolatedMu.Lock()
	defer isolatedMu.Unlock()
	return isolatedErr[key]
}

func isolatedFile(key string) string { return filepath.Join(indepWork(), "isolated", key) }

func checkIndep(c *ctx, raw json.RawMessage) {
	var v indepVector
	decode(c, raw, &v)
	for k, e := range v.keys() {
		if err := isolated(k, e); !c.check(err == nil, "%v", err) {
			return
		}
	}
	out, err := runIndep(v, false)
	for range v.Hist {
		c.check(true, "")
	}
	if err != nil {
		var lines []string
		for _, e := range v.Hist {
			lines = append(lines, fmt.Sprintf("client %d: %s of %s %s(%s) options %d, result %d", e.C, e.E, e.Do, e.Op, e.In, e.Opt, e.Obj))
		}
		if len(out) > 6000 {
			out = out[:6000]
		}
		c.fail("%v\n%s\n%s", err, out, strings.Join(lines, "\n"))
	}
	if raceBuild() {
		c.note("race detector")
	} else {
		c.note("no race detector")
	}
}

func raceBuild() bool { return strings.HasSuffix(os.Args[0], "-race") }

// -- what happens in the process of a behaviour ------------------------------

type indepObj struct{ val interface{} }

type world struct {
	dir  string
	docs map[string][][]byte
	copy map[string][]string
	opts map[int][]xsdgen.Option
}

var notRead = []byte("<not-read/>")

func newWorld() *world {
	dir, err := ioutil.TempDir(indepWork(), "world")
	if err != nil {
		panic(err)
	}
	w := &world{dir: dir, docs: map[string][][]byte{}, copy: map[string][]string{}}
	for name, texts := range indepInputs {
		// with room for more documents in the slice, and for more text in each
		docs := make([][]byte, len(texts), len(texts)+8)
		for i := range docs[len(texts):cap(docs)] {
			docs[len(texts):cap(docs)][i] = notRead
		}
		for i, t := range texts {
			b := append(make([]byte, 0, len(t)+64), t...)
			copy(b[len(t):cap(b)], strings.Repeat("#", 64))
			docs[i] = b
			if err := ioutil.WriteFile(w.file(name, i), b, 0666); err != nil {
				panic(err)
			}
		}
		w.docs[name] = docs
		w.copy[name] = texts
	}
	// the same options are given to all configurations
	w.opts = map[int][]xsdgen.Option{
		0: xsdgen.DefaultOptions,
		1: append([]xsdgen.Option{xsdgen.PackageName("p1"), xsdgen.IgnoreElements("b"), xsdgen.IgnoreAttributes("x"), xsdgen.UseFieldNames(), xsdgen.Replace("e$", "E"), xsdgen.Namespaces("urn:a")}, xsdgen.HandleSOAPArrayType(), xsdgen.SOAPArrayAsSlice()),
		2: {xsdgen.PackageName("p2"), xsdgen.Replace("^C", "Class"), xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type { return t }), xsdgen.AllowType(xml.Name{Space: "urn:a", Local: "C1"}), xsdgen.OnlyTypes("^C", "^R")},
	}
	return w
}

func (w *world) file(name string, i int) string {
	return filepath.Join(w.dir, fmt.Sprintf("%s%d.xml", name, i))
}

func (w *world) files(name string) (files []string) {
	for i := range indepInputs[name] {
		files = append(files, w.file(name, i))
	}
	return files
}

// untouched compares the shared documents with what they were.
func (w *world) untouched() error {
	for name, texts := range w.copy {
		docs := w.docs[name]
		for i, t := range texts {
			if string(docs[i]) != t || string(docs[i][len(t):cap(docs[i])]) != strings.Repeat("#", cap(docs[i])-len(t)) && cap(docs[i])-len(t) == 64 {
				return fmt.Errorf("document %d of %s has changed", i, name)
			}
		}
		for _, d := range docs[len(texts):cap(docs)] {
			if &d[0] != &notRead[0] {
				return fmt.Errorf("the slice of documents %s has changed", name)
			}
		}
	}
	return nil
}

func (w *world) config(opt int) *xsdgen.Config {
	var cfg xsdgen.Config
	cfg.Option(w.opts[opt]...)
	return &cfg
}

func (w *world) client(opt int) *wsdlgen.Config {
	var cfg wsdlgen.Config
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(w.opts[opt]...)
	switch opt {
	case 1:
		cfg.Option(wsdlgen.PackageName("client1"), wsdlgen.PackageComment("one"), wsdlgen.InputThreshold(1))
	case 2:
		cfg.Option(wsdlgen.OnlyPorts("P"), wsdlgen.OutputThreshold(1))
	}
	return &cfg
}

func (w *world) make(e indepEvent) interface{} {
	docs := w.docs[e.In]
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("%s of %s: %v", e.Op, e.In, err))
		}
	}
	switch e.Op {
	case "tree":
		var trees []*xmltree.Element
		for _, d := range docs {
			t, err := xmltree.Parse(d)
			must(err)
			trees = append(trees, t)
		}
		return &trees
	case "normalize":
		t, err := xsd.Normalize(docs...)
		must(err)
		return &t
	case "imports":
		var all [][]xsd.Ref
		for _, d := range docs {
			r, err := xsd.Imports(d)
			must(err)
			all = append(all, r)
		}
		return &all
	case "parse":
		s, err := xsd.Parse(docs...)
		must(err)
		return &s
	case "wsdl":
		d, err := wsdl.Parse(docs[0])
		must(err)
		return d
	case "code":
		c, err := w.config(e.Opt).GenCode(docs...)
		must(err)
		return c
	case "ast":
		f, err := w.config(e.Opt).GenAST(w.files(e.In)...)
		must(err)
		return f
	case "source":
		s, err := w.config(e.Opt).GenSource(w.files(e.In)...)
		must(err)
		return s
	case "client":
		s, err := w.client(e.Opt).GenSource(w.files(e.In)...)
		must(err)
		return s
	case "clientast":
		f, err := w.client(e.Opt).GenAST(w.files(e.In)...)
		must(err)
		return f
	case "cli", "clientcli":
		out := filepath.Join(w.dir, fmt.Sprintf("out%d.go", e.Obj))
		args := []string{"-o", out}
		if e.Opt > 0 {
			args = append(args, "-pkg", fmt.Sprint("cli", e.Opt), "-r", "e$ -> E")
		}
		if e.Op == "cli" {
			if e.Opt == 2 {
				args = append(args, "-ns", "urn:a")
			}
			must(w.config(e.Opt).GenCLI(append(args, w.files(e.In)...)...))
		} else {
			if e.Opt == 2 {
				args = append(args, "-port", "P", "-c", "two")
			}
			must(w.client(e.Opt).GenCLI(append(args, w.files(e.In)...)...))
		}
		s, err := ioutil.ReadFile(out)
		must(err)
		return s
	}
	panic(e.Op)
}

// look reads everything there is to read in a result.
func look(op string, val interface{}) string {
	var b strings.Builder
	switch v := val.(type) {
	case []byte:
		b.Write(v)
	case *ast.File:
		if err := printer.Fprint(&b, token.NewFileSet(), v); err != nil {
			fmt.Fprintln(&b, err)
		}
	case *xsdgen.Code:
		for _, ns := range []string{"urn:a", "urn:b"} {
			for _, n := range []string{"C1", "C2", "R1", "S1", "ArrayOfC1", "zz"} {
				name := xml.Name{Space: ns, Local: n}
				fmt.Fprintln(&b, n, v.NameOf(name))
			}
			t, ok := v.DocType(ns)
			fmt.Fprintln(&b, ok)
			if ok {
				dump(&b, t)
			}
		}
		for _, n := range []string{"date", "base64Binary", "int"} {
			h, ok := v.HelperOf(xml.Name{Space: xsNS, Local: n})
			fmt.Fprintln(&b, h, ok)
		}
	case *[]*xmltree.Element:
		for _, t := range *v {
			lookTree(&b, t)
		}
	case *[]xsd.Schema:
		dump(&b, v)
		for _, s := range *v {
			var names []xml.Name
			for n := range s.Types {
				names = append(names, n)
			}
			sort.Slice(names, func(i, j int) bool { return names[i].Space+" "+names[i].Local < names[j].Space+" "+names[j].Local })
			for _, n := range names {
				t := s.FindType(n)
				fmt.Fprint(&b, n.Local, " ")
				for i := 0; t != nil && i < 50; i++ {
					fmt.Fprint(&b, xsd.XMLName(t).Local, " ")
					t = xsd.Base(t)
				}
				fmt.Fprintln(&b)
			}
		}
	case *wsdl.Definition:
		fmt.Fprintln(&b, v)
		dump(&b, v)
	default:
		dump(&b, v)
	}
	return b.String()
}

func lookTree(b *strings.Builder, t *xmltree.Element) {
	fmt.Fprintf(b, "%s\n%s\n", xmltree.Marshal(t), xmltree.MarshalIndent(t, ">", "\t"))
	fmt.Fprintln(b, xmltree.Equal(t, t), len(t.Flatten()), len(t.Search(xsNS, "")))
	all := append([]*xmltree.Element{t}, t.SearchFunc(func(*xmltree.Element) bool { return true })...)
	for _, el := range all {
		fmt.Fprintf(b, "%v %q", el.Name, el.Content)
		for _, a := range el.StartElement.Attr {
			fmt.Fprintf(b, " %v=%q", a.Name, a.Value)
			if strings.Contains(a.Value, ":") && !strings.Contains(a.Value, "/") {
				n := el.Resolve(a.Value)
				fmt.Fprintf(b, " (%v %s %v)", n, el.Prefix(n), el.ResolveDefault(a.Value, "urn:z"))
			}
		}
		fmt.Fprintln(b, el.Attr("", "name"))
	}
}

// dump writes a value, following pointers. What a pointer met before refers
// to is only named.
func dump(b *strings.Builder, v interface{}) {
	seen := map[uintptr]int{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if !v.IsValid() {
			b.WriteString("none")
			return
		}
		if v.CanInterface() {
			switch x := v.Interface().(type) {
			case *regexp.Regexp:
				fmt.Fprintf(b, "regexp(%v)", x)
				return
			case time.Time:
				fmt.Fprintf(b, "time(%v)", x)
				return
			case []byte:
				fmt.Fprintf(b, "%q", x)
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(b, "#%d", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			fmt.Fprintf(b, "&%d ", len(seen)-1)
			walk(v.Elem(), depth)
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(b, "(%v) ", v.Elem().Type())
			walk(v.Elem(), depth)
		case reflect.Struct:
			fmt.Fprintf(b, "{\n")
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					fmt.Fprintf(b, "%s%s: ", strings.Repeat(" ", depth+1), f.Name)
					walk(v.Field(i), depth+1)
					b.WriteString("\n")
				}
			}
			fmt.Fprintf(b, "%s}", strings.Repeat(" ", depth))
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(b, "[%d:", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
				b.WriteString(", ")
			}
			b.WriteString("]")
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			fmt.Fprintf(b, "map(%d) ", len(keys))
			for _, k := range keys {
				fmt.Fprintf(b, "%v -> ", k)
				walk(v.MapIndex(k), depth+1)
				b.WriteString("\n")
			}
		case reflect.Func:
			b.WriteString("func")
		case reflect.String:
			fmt.Fprintf(b, "%q", v.String())
		default:
			if v.CanInterface() {
				fmt.Fprintf(b, "%v", v.Interface())
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	b.WriteString("\n")
}

// change changes everything that a client can reach in a result.
func change(op string, val interface{}) {
	seen := map[uintptr]bool{}
	source := op == "ast" || op == "clientast" // which has to stay printable
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		if v.CanInterface() {
			switch v.Interface().(type) {
			case *regexp.Regexp, time.Time, *ast.Object, *ast.Scope:
				return
			case token.Token, token.Pos, ast.ChanDir:
				return
			case []byte:
				// These bytes are shared and should not be modified.
				if v.CanSet() {
					v.Set(reflect.ValueOf([]byte("changed ")))
				}
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			// what is behind the slice is not part of any other result
			if v.CanSet() && v.Len() > 0 && !source {
				v.Set(reflect.Append(v, v.Index(0)))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			for _, k := range keys {
				walk(v.MapIndex(k))
			}
			if len(keys) > 0 {
				v.SetMapIndex(keys[len(keys)-1], reflect.Value{})
			}
			if m, ok := v.Interface().(map[xml.Name]xsd.Type); ok {
				m[xml.Name{Space: "urn:new", Local: fmt.Sprint("T", len(m))}] = xsd.String
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString(v.String() + "Q")
			}
		case reflect.Bool:
			if v.CanSet() && !source {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int64:
			if v.CanSet() && !source {
				v.SetInt(v.Int() + 1)
			}
		case reflect.Float64:
			if v.CanSet() && !source {
				v.SetFloat(v.Float() + 1)
			}
		}
	}
	if trees, ok := val.(*[]*xmltree.Element); ok {
		for _, t := range *trees {
			changeTree(t)
		}
		*trees = append(*trees, (*trees)[0])
		return
	}
	if text, ok := val.([]byte); ok {
		for i := range text {
			text[i] ^= 1
		}
		return
	}
	walk(reflect.ValueOf(val))
}

// changeTree changes a tree by the means of the package.
func changeTree(t *xmltree.Element) {
	for _, el := range t.SearchFunc(func(*xmltree.Element) bool { return true }) {
		for i := range el.StartElement.Attr {
			el.StartElement.Attr[i].Value += "q"
		}
		el.SetAttr("", "more", "x")
		el.SetAttr("urn:a", "more", "y")
		el.Name.Local += "q"
		if len(el.Children) == 0 {
			el.Content = []byte("changed")
		}
	}
	t.JoinScope(&xmltree.Scope{})
	if len(t.Children) > 0 {
		t.Children = append(t.Children, t.Children[0])
	}
}

func indepChild(how, file string) int {
	var v indepVector
	b, err := ioutil.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Println(err)
		return 3
	}
	w := newWorld()
	defer os.RemoveAll(w.dir)
	var (
		mu   sync.Mutex
		bad  int
		objs = map[int]*indepObj{}
		wait = map[int]chan bool{}
	)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	fail := func(f string, args ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad++; bad <= 3 {
			fmt.Fprintf(out, f+"\n", args...)
		}
	}
	see := func(e indepEvent, n int, o *indepObj) {
		got := look(e.Op, o.val)
		key := e.key(n)
		if how == "record" {
			if e.Do == "look" {
				ioutil.WriteFile(isolatedFile(key), []byte(got), 0666)
			}
			return
		}
		want, err := ioutil.ReadFile(isolatedFile(key))
		if err != nil {
			fail("%v", err)
		} else if sha256.Sum256(want) != sha256.Sum256([]byte(got)) {
			fail("%s of %s differs after %d changes:\n%s", e.Op, e.In, n, firstDifference(string(want), got))
		}
	}
	do := func(e indepEvent, o *indepObj) {
		defer func() {
			if r := recover(); r != nil {
				fail("panic in %s %s(%s): %v", e.Do, e.Op, e.In, r)
			}
		}()
		switch e.Do {
		case "make":
			o.val = w.make(e)
			see(e, 0, o)
		case "look":
			see(e, e.N, o)
		case "change":
			change(e.Op, o.val)
		}
	}
	for _, e := range v.Hist {
		if e.E == "begin" {
			o := objs[e.Obj]
			if o == nil {
				o = new(indepObj)
				objs[e.Obj] = o
			}
			done := make(chan bool, 1)
			wait[e.C] = done
			go func(e indepEvent) {
				do(e, o)
				done <- true
			}(e)
		} else {
			<-wait[e.C]
		}
	}
	if how != "record" {
		last := map[int]indepEvent{}
		for _, e := range v.Hist {
			if e.E == "end" {
				last[e.Obj] = e
			}
		}
		for i := 1; i <= len(objs); i++ {
			e := last[i]
			e.Do = "look"
			do(e, objs[i])
		}
		if err := w.untouched(); err != nil {
			fail("%v", err)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func firstDifference(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("line %d is missing: %q", i, a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("line %d is %q, want %q", i, b[i], a[i])
		}
	}
	return fmt.Sprintf("%d more lines: %q", len(b)-len(a), b[len(a)])
}
