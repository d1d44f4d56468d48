package main

// Running generated code: the packages generated from many worlds are
// built into one program, which decodes and encodes instances.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type runItem struct {
	j      job
	key    string // package.Type
	root   string
	doc    string
	want   gNode
	fields []gField
	strict bool
	text   string
	bad    bool // no instance
	forms  map[string]*regexp.Regexp
}

var (
	runMu    sync.Mutex
	runItems []runItem
	runDir   string
)

func init() {
	finalizers["C21"] = finishRun
	finalizers["C29"] = finishRun
}

func workDir() string {
	if d := os.Getenv("DRV_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func queueRun(c *ctx, pkg string, g generated, v genVector, text string) {
	var items []runItem
	for _, st := range v.Structs {
		if isArray(st.F) {
			continue
		}
		name := g.code.NameOf(xml.Name{Space: st.NS, Local: st.N})
		for _, in := range st.Inst {
			shuffled := c.rng.Intn(2) == 0
			var b bytes.Buffer
			writeInstance(&b, c, "root", "urn:root", in, shuffled)
			items = append(items, runItem{key: pkg + "." + name, doc: b.String(), want: in, fields: st.F, strict: v.Strict, text: text})
		}
		for _, in := range st.Bad {
			var b bytes.Buffer
			writeInstance(&b, c, "root", "urn:root", in, c.rng.Intn(2) == 0)
			items = append(items, runItem{key: pkg + "." + name, doc: b.String(), want: in, text: text, bad: true})
		}
	}
	if len(items) == 0 {
		return
	}
	runMu.Lock()
	defer runMu.Unlock()
	if runDir == "" {
		d, err := ioutil.TempDir(workDir(), "genrun")
		if err != nil {
			panic(err)
		}
		runDir = d
	}
	d := filepath.Join(runDir, pkg)
	os.MkdirAll(d, 0777)
	if err := ioutil.WriteFile(filepath.Join(d, "x.go"), g.src, 0666); err != nil {
		panic(err)
	}
	forms := make(map[string]*regexp.Regexp)
	for _, f := range v.Forms {
		forms[f.B] = regexp.MustCompile("^(?:" + f.Re + ")$")
	}
	for i := range items {
		items[i].j = c.job
		items[i].forms = forms
	}
	runItems = append(runItems, items...)
}

func writeInstance(b *bytes.Buffer, c *ctx, name, ns string, n gNode, shuffled bool) {
	fmt.Fprintf(b, `<%s xmlns="%s"`, name, ns)
	for i, a := range n.Ats {
		if a.NS != "*" {
			fmt.Fprintf(b, ` xmlns:p%d="%s" p%d:%s="`, i, a.NS, i, a.N)
		} else {
			fmt.Fprintf(b, ` %s="`, a.N)
		}
		xml.EscapeText(b, []byte(a.X))
		b.WriteString(`"`)
	}
	b.WriteString(">")
	for _, t := range n.Tx {
		xml.EscapeText(b, []byte(t.X))
	}
	kids := n.Kids
	if shuffled {
		// any order that keeps those of one name in order
		var names []string
		by := map[string][]gKid{}
		for _, k := range kids {
			key := k.NS + " " + k.N
			names = append(names, key)
			by[key] = append(by[key], k)
		}
		c.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		kids = nil
		for _, key := range names {
			kids = append(kids, by[key][0])
			by[key] = by[key][1:]
		}
	}
	for _, k := range kids {
		writeInstance(b, c, k.N, k.NS, k.T, shuffled)
	}
	fmt.Fprintf(b, "</%s>", name)
}

// dNode is a decoded value.
type dNode struct {
	Ats  map[string]string  `json:"ats"`
	Kids map[string][]dNode `json:"kids"`
	Tx   string             `json:"tx"`
	Z    bool               `json:"z"` // cannot be told from an absent one
}

func wantNode(n gNode) dNode {
	d := dNode{Ats: map[string]string{}, Kids: map[string][]dNode{}}
	for _, a := range n.Ats {
		d.Ats[a.N] = a.C
	}
	for _, k := range n.Kids {
		key := k.NS + " " + k.N
		d.Kids[key] = append(d.Kids[key], wantNode(k.T))
	}
	for _, t := range n.Tx {
		d.Tx += t.C
	}
	return d
}

func (d dNode) String() string { return jsonOf(d) }

type runReq struct {
	ID  int    `json:"id"`
	Key string `json:"key"`
	Doc string `json:"doc"`
}

type runRsp struct {
	ID    int    `json:"id"`
	Err   string `json:"err"`
	Dump  dNode  `json:"dump"`
	Out   string `json:"out"`
	Dump2 dNode  `json:"dump2"`
}

// runScalar tells what a simple value means.
const runScalar = `
var timeType = reflect.TypeOf(time.Time{})
var nameType = reflect.TypeOf(xml.Name{})

func scalar(v reflect.Value) string {
	t := v.Type()
	switch {
	case t.ConvertibleTo(timeType):
		return v.Convert(timeType).Interface().(time.Time).Format(time.RFC3339Nano)
	case t == nameType:
		n := v.Interface().(xml.Name)
		return n.Space + "|" + n.Local
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'f', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && t.Elem().Name() == "uint8" {
			return hex.EncodeToString(v.Bytes())
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, scalar(v.Index(i)))
		}
		return strings.Join(parts, " ")
	}
	return fmt.Sprint(v.Interface())
}

func isScalar(t reflect.Type) bool {
	return t.Kind() != reflect.Struct || t.ConvertibleTo(timeType) || t == nameType
}

`

const runMain = `
type node struct {
	Ats  map[string]string  ` + "`json:\"ats\"`" + `
	Kids map[string][]node ` + "`json:\"kids\"`" + `
	Tx   string             ` + "`json:\"tx\"`" + `
	Z    bool               ` + "`json:\"z\"`" + `
}
` + runScalar + `
func dump(v reflect.Value) node {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	n := node{map[string]string{}, map[string][]node{}, "", false}
	if isScalar(v.Type()) {
		n.Tx = scalar(v)
		return n
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		parts := strings.Split(v.Type().Field(i).Tag.Get("xml"), ",")
		opts := strings.Join(parts[1:], ",") + ","
		omit := strings.Contains(opts, "omitempty,")
		if omit && f.IsZero() && (f.Kind() == reflect.Ptr || isScalar(f.Type())) {
			continue
		}
		switch {
		case strings.Contains(opts, "any,"):
		case strings.Contains(opts, "chardata,"):
			n.Tx = scalar(f)
		case strings.Contains(opts, "attr,"):
			local := parts[0][strings.LastIndex(parts[0], " ")+1:]
			n.Ats[local] = scalar(f)
		default:
			if f.Kind() == reflect.Slice && f.Type().Name() == "" && f.Type().Elem().Kind() != reflect.Uint8 {
				for k := 0; k < f.Len(); k++ {
					n.Kids[parts[0]] = append(n.Kids[parts[0]], dump(f.Index(k)))
				}
			} else if omit && f.Kind() == reflect.Slice && f.Len() == 0 {
			} else {
				d := dump(f)
				d.Z = omit && f.Kind() == reflect.Struct && !isScalar(f.Type())
				n.Kids[parts[0]] = append(n.Kids[parts[0]], d)
			}
		}
	}
	return n
}

func one(key, doc string) (err error, d node, out string, d2 node) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v := types[key]()
	if err = xml.Unmarshal([]byte(doc), v); err != nil {
		return fmt.Errorf("decoding: %v", err), d, "", d
	}
	d = dump(reflect.ValueOf(v))
	var buf bytes.Buffer
	enc := xml.NewEncoder(&buf)
	start := xml.StartElement{Name: xml.Name{Space: "urn:root", Local: "root"}}
	if err = enc.EncodeElement(v, start); err == nil {
		err = enc.Flush()
	}
	if err != nil {
		return fmt.Errorf("encoding: %v", err), d, "", d
	}
	out = buf.String()
	v = types[key]()
	if err = xml.Unmarshal([]byte(out), v); err != nil {
		return fmt.Errorf("decoding what was encoded: %v", err), d, out, d
	}
	return nil, d, out, dump(reflect.ValueOf(v))
}

func main() {
	in := bufio.NewReader(os.Stdin)
	dec := json.NewDecoder(in)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for {
		var q struct {
			ID  int
			Key string
			Doc string
		}
		if err := dec.Decode(&q); err != nil {
			return
		}
		err, d, out, d2 := one(q.Key, q.Doc)
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		b, e := json.Marshal(map[string]interface{}{"id": q.ID, "err": msg, "dump": d, "out": out, "dump2": d2})
		if e != nil {
			panic(e)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
`

// buildAndRun builds the packages below dir with a main package and feeds
// it the requests.
func goTool(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	return out, err
}

// runProgram runs a program of generated code, and tells what it printed,
// and why it did not end properly.
func runProgram(prog string, in *bytes.Buffer) (out []byte, died string) {
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(prog)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = in, &stdout, &stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(5 * time.Minute):
		cmd.Process.Kill()
		<-done
		err = errors.New("no end within five minutes")
	}
	if err != nil {
		msg := stderr.String()
		if len(msg) > 2000 {
			msg = msg[:2000]
		}
		died = fmt.Sprintf("the program died: %v %s", err, msg)
	}
	out = stdout.Bytes()
	if i := bytes.LastIndexByte(out, '\n'); i >= 0 {
		return out[:i+1], died
	}
	return nil, died
}

func finishRun(c *ctx, report func(job, []string)) {
	if len(runItems) == 0 {
		return
	}
	defer os.RemoveAll(runDir)
	pkgs := map[string]bool{}
	keys := map[string]bool{}
	for _, it := range runItems {
		keys[it.key] = true
		pkgs[strings.Split(it.key, ".")[0]] = true
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\"bufio\"\n\"bytes\"\n\"encoding/hex\"\n\"encoding/json\"\n\"encoding/xml\"\n\"fmt\"\n\"os\"\n\"reflect\"\n\"strconv\"\n\"strings\"\n\"time\"\n")
	for _, p := range sortedKeys(pkgs) {
		fmt.Fprintf(&b, "%q\n", "verifgen/"+p)
	}
	b.WriteString(")\n\nvar types = map[string]func() interface{}{\n")
	for _, k := range sortedKeys(keys) {
		fmt.Fprintf(&b, "%q: func() interface{} { return new(%s) },\n", k, k)
	}
	b.WriteString("}\n" + runMain)
	os.MkdirAll(filepath.Join(runDir, "main"), 0777)
	ioutil.WriteFile(filepath.Join(runDir, "main", "main.go"), b.Bytes(), 0666)
	ioutil.WriteFile(filepath.Join(runDir, "go.mod"), []byte("module verifgen\n\ngo 1.15\n"), 0666)
	if out, err := goTool(runDir, "build", "-o", "prog", "./main"); err != nil {
		// packages have been type checked, so this is the machinery
		fmt.Fprintf(os.Stderr, "building generated code: %v\n%s\n", err, out)
		os.Exit(3)
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for i, it := range runItems {
		enc.Encode(runReq{i, it.key, it.doc})
	}
	out, died := runProgram(filepath.Join(runDir, "prog"), &in)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	done := 0
	for sc.Scan() {
		var r runRsp
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		it := runItems[r.ID]
		done++
		c.checks += 3
		if msg := it.judge(r); msg != "" {
			report(it.j, []string{msg + "\n" + it.key + " from " + it.doc + "\nencoded " + r.Out + "\n" + it.text})
		}
	}
	if done < len(runItems) && died != "" {
		it := runItems[done]
		report(it.j, []string{died + "\n" + it.key + " from " + it.doc + "\n" + it.text})
	} else if done != len(runItems) {
		fmt.Fprintf(os.Stderr, "%d of %d instances were run\n", done, len(runItems))
		os.Exit(3)
	}
}

func sortedKeys(m map[string]bool) (keys []string) {
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func (it runItem) judge(r runRsp) string {
	if it.bad {
		if !strings.HasPrefix(r.Err, "decoding: ") {
			return fmt.Sprintf("no error for a document with a text that is no value of its type (%q)", r.Err)
		}
		return ""
	}
	if r.Err != "" {
		return r.Err
	}
	if len(it.forms) > 0 {
		var root rawNode
		if err := xml.Unmarshal([]byte(r.Out), &root); err != nil {
			return "encoded document: " + err.Error()
		}
		if d := root.formed(it.want, it.forms); d != "" {
			return "encoded document: " + d
		}
		return ""
	}
	want := wantNode(it.want)
	if d := want.diff(r.Dump); d != "" {
		return "decoded value: " + d
	}
	if d := want.diff(r.Dump2); d != "" {
		return "value decoded from what was encoded: " + d
	}
	var root rawNode
	if err := xml.Unmarshal([]byte(r.Out), &root); err != nil {
		return "encoded document: " + err.Error()
	}
	if d := root.covers(it.want, it.fields, it.strict); d != "" {
		return "encoded document: " + d
	}
	return ""
}

func (d dNode) diff(o dNode) string {
	if d.Tx != o.Tx {
		return fmt.Sprintf("text %q instead of %q", o.Tx, d.Tx)
	}
	for k, v := range d.Ats {
		if got, ok := o.Ats[k]; !ok || got != v {
			return fmt.Sprintf("attribute %s is %q instead of %q", k, got, v)
		}
	}
	for k, v := range o.Ats {
		if _, ok := d.Ats[k]; !ok {
			return fmt.Sprintf("attribute %s is %q, it should be absent", k, v)
		}
	}
	for k, v := range d.Kids {
		if len(o.Kids[k]) != len(v) {
			return fmt.Sprintf("%d elements %s instead of %d", len(o.Kids[k]), k, len(v))
		}
		for i := range v {
			if s := v[i].diff(o.Kids[k][i]); s != "" {
				return fmt.Sprintf("%s[%d]: %s", k, i, s)
			}
		}
	}
	for k, v := range o.Kids {
		if _, ok := d.Kids[k]; !ok && !(len(v) == 1 && v[0].Z) {
			return fmt.Sprintf("%d elements %s, there should be none", len(v), k)
		}
	}
	return ""
}

// rawNode is an encoded element.
type rawNode struct {
	XMLName xml.Name
	Ats     []xml.Attr `xml:",any,attr"`
	Kids    []rawNode  `xml:",any"`
	Text    string     `xml:",chardata"`
}

// formed: the texts of an encoded element are lexical forms of their types.
func (r rawNode) formed(n gNode, forms map[string]*regexp.Regexp) string {
	check := func(what, text string, t gText) string {
		re := forms[t.B]
		if re == nil {
			return ""
		}
		parts := []string{strings.Trim(text, " \t\r\n")}
		if t.L {
			parts = strings.Fields(text)
		}
		for _, p := range parts {
			if !re.MatchString(p) {
				return fmt.Sprintf("%s is %q, which is no %s", what, text, t.B)
			}
		}
		return ""
	}
	for _, t := range n.Tx {
		if msg := check(r.XMLName.Local, r.Text, t); msg != "" {
			return msg
		}
	}
	for _, t := range n.Ats {
		for _, a := range r.Ats {
			if a.Name.Local == t.N && a.Name.Space != "xmlns" {
				if msg := check("attribute "+t.N, a.Value, t); msg != "" {
					return msg
				}
			}
		}
	}
	next := map[xml.Name]int{}
	for _, k := range n.Kids {
		name, seen := xml.Name{Space: k.NS, Local: k.N}, 0
		for _, e := range r.Kids {
			if e.XMLName != name {
				continue
			}
			if seen == next[name] {
				if msg := e.formed(k.T, forms); msg != "" {
					return msg
				}
			}
			seen++
		}
		next[name]++
	}
	return ""
}

// covers: the names of an encoded element are those of the instance.
func (r rawNode) covers(n gNode, fields []gField, strict bool) string {
	have := map[string]bool{}
	for _, a := range r.Ats {
		if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
			have[a.Name.Space+" "+a.Name.Local] = true
		}
	}
	for _, a := range n.Ats {
		ns := a.NS
		if ns == "*" {
			ns = ""
		}
		if !strict && !have[ns+" "+a.N] {
			ns = "" // see known/
		}
		if !have[ns+" "+a.N] {
			return fmt.Sprintf("attribute %q %s is not there", ns, a.N)
		}
		delete(have, ns+" "+a.N)
	}
	for k := range have {
		return "attribute " + k + " was not there"
	}
	kids := map[string][]rawNode{}
	for _, k := range r.Kids {
		key := k.XMLName.Space + " " + k.XMLName.Local
		kids[key] = append(kids[key], k)
	}
	want := map[string][]gKid{}
	for _, k := range n.Kids {
		want[k.NS+" "+k.N] = append(want[k.NS+" "+k.N], k)
	}
	wild := false
	for _, f := range fields {
		if f.F != "el" {
			wild = wild || f.F == "any"
			continue
		}
		key := f.NS + " " + f.N
		g, w := kids[key], want[key]
		delete(kids, key)
		if len(w) == 0 && len(g) <= 1 && f.Opt && !f.Plu && f.Ty.V != "s" {
			continue // an absent structure cannot be told from an empty one
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%d elements %s instead of %d", len(g), key, len(w))
		}
		if f.Ty.V == "a" {
			for i := range g {
				if s := g[i].covers(w[i].T, f.Ty.F, strict); s != "" {
					return key + ": " + s
				}
			}
		}
	}
	for k, v := range kids {
		if wild && strings.HasPrefix(k[strings.LastIndex(k, " "):], " Item") {
			continue // a wildcard
		}
		return fmt.Sprintf("%d elements %s were not there", len(v), k)
	}
	return ""
}
