package main

// Generated Go code: what xsdgen makes of the worlds of spec/MCGen.tla,
// type checked, compared with the structures of spec/XsdGen.tla, and run.

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"

	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

type gValue struct {
	V    string   `json:"v"` // s scalar, c declared structure, a anonymous structure
	B    string   `json:"b"`
	Go   string   `json:"go"`
	List bool     `json:"list"`
	NS   string   `json:"ns"`
	N    string   `json:"n"`
	F    []gField `json:"f"`
}

type gField struct {
	F   string `json:"f"` // text, el, any, at
	N   string `json:"n"`
	NS  string `json:"ns"`
	Plu bool   `json:"plu"`
	Opt bool   `json:"opt"`
	Ty  gValue `json:"ty"`
}

type gText struct {
	N  string `json:"n"`
	NS string `json:"ns"`
	X  string `json:"x"`
	C  string `json:"c"`
	B  string `json:"b"`
	L  bool   `json:"l"`
}

type gNode struct {
	Ats  []gText `json:"ats"`
	Kids []gKid  `json:"kids"`
	Tx   []gText `json:"tx"`
}

type gKid struct {
	N  string `json:"n"`
	NS string `json:"ns"`
	T  gNode  `json:"t"`
}

type gStruct struct {
	NS   string     `json:"ns"`
	N    string     `json:"n"`
	F    []gField   `json:"f"`
	Doc  [][]string `json:"doc"`
	Inst []gNode    `json:"inst"`
	Bad  []gNode    `json:"bad"`
}

type gConfig struct {
	NS    []string   `json:"ns"`
	Only  []string   `json:"only"`
	Allow [][]string `json:"allow"`
	IgnA  []string   `json:"ignA"`
	IgnE  []string   `json:"ignE"`
}

type genVector struct {
	W       []xSchema  `json:"w"`
	Wrap    bool       `json:"wrap"`
	Cfg     gConfig    `json:"cfg"`
	Structs []gStruct  `json:"structs"`
	May     [][]string `json:"may"`
	Strict  bool       `json:"strict"`
	Lists   []struct {
		NS  string   `json:"ns"`
		N   string   `json:"n"`
		Doc []string `json:"doc"`
	} `json:"lists"`
	Forms []struct {
		B  string `json:"b"`
		Re string `json:"re"`
	} `json:"forms"`
}

func init() {
	checkers["gen"] = checkGen
	build.Default.CgoEnabled = false
}

func (g gConfig) options(pkg string) []xsdgen.Option {
	opts := append([]xsdgen.Option{}, xsdgen.DefaultOptions...)
	opts = append(opts, xsdgen.PackageName(pkg), xsdgen.IgnoreAttributes(g.IgnA...), xsdgen.Namespaces(g.NS...))
	if len(g.IgnE) > 0 {
		opts = append(opts, xsdgen.IgnoreElements(g.IgnE...))
	}
	if len(g.Only) > 0 {
		opts = append(opts, xsdgen.OnlyTypes("^("+strings.Join(g.Only, "|")+")$"))
	}
	for _, a := range g.Allow {
		opts = append(opts, xsdgen.AllowType(xml.Name{Space: a[0], Local: a[1]}))
	}
	return opts
}

// generated is the result of one run of the generator.
type generated struct {
	code *xsdgen.Code
	src  []byte
}

// The names of the generated types come from another run of the generator.
func generate(cfg *xsdgen.Config, docs [][]byte, names bool) (g generated, err error) {
	if names {
		if g.code, err = cfg.GenCode(docs...); err != nil {
			return g, err
		}
	}
	g.src, err = source(cfg, docs)
	return g, err
}

// GenSource takes the documents from files.
func source(cfg *xsdgen.Config, docs [][]byte) ([]byte, error) {
	dir, err := ioutil.TempDir(workDir(), "src")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var files []string
	for i, d := range docs {
		f := filepath.Join(dir, fmt.Sprintf("%d.xsd", i))
		if err := ioutil.WriteFile(f, d, 0666); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	return cfg.GenSource(files...)
}

var (
	impMu sync.Mutex
	imp   = importer.ForCompiler(token.NewFileSet(), "source", nil)
)

// importing is an importer that may be used concurrently.
type importing struct{}

func (importing) Import(path string) (*types.Package, error) {
	impMu.Lock()
	defer impMu.Unlock()
	return imp.Import(path)
}

// typeCheck compiles Go source as far as types go.
func typeCheck(src []byte) (*types.Package, []string) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return nil, []string{err.Error()}
	}
	var errs []string
	conf := types.Config{Importer: importing{}, Error: func(err error) { errs = append(errs, err.Error()) }}
	pkg, _ := conf.Check(file.Name.Name, fset, []*ast.File{file}, nil)
	return pkg, errs
}

var oddNames = strings.NewReplacer(`"@cjk"`, `"日本"`, `"@dot"`, `"a·b"`, `"@us"`, `"_"`, `"@us1"`, `"_1"`, `"@hy"`, `"a-b"`, `"@hz"`, `"a.b"`)

// rename gives types other names now and then, which must not matter.
func rename(c *ctx, raw json.RawMessage) json.RawMessage {
	text := oddNames.Replace(string(raw))
	if !c.is("C23") && c.rng.Intn(3) == 0 {
		pool := []string{"T", "error", "string", "int", "time", "xml", "type", "func", "item", "value", "x", "xAttr", "a-b", "a.b", "日本", "日本語", "_", "_1", "C-1", "C_1", "xsdDate", "Date", "C10"}
		c.rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		var pairs []string
		for i, n := range []string{"C1", "C2", "C3", "Q1", "Q2", "S1", "S2", "S3"} {
			// (elements have some of these names, and must not get that of another)
			if element := n == "C1" || n == "S1"; element && strings.Contains(text, `"`+pool[i]+`"`) {
				continue
			}
			if c.rng.Intn(2) == 0 {
				pairs = append(pairs, `"`+n+`"`, `"`+pool[i]+`"`)
			}
		}
		text = strings.NewReplacer(pairs...).Replace(text)
	}
	return json.RawMessage(text)
}

func checkGen(c *ctx, raw json.RawMessage) {
	var v genVector
	decode(c, rename(c, raw), &v)
	docs := renderWorld(v.W, v.Wrap, c.rng)
	name := fmt.Sprintf("g%d", c.idx)
	run := func() (generated, error) {
		var cfg xsdgen.Config
		cfg.Option(v.Cfg.options(name)...)
		return generate(&cfg, docs, !c.is("C18"))
	}
	g, err := run()
	text := joinDocs(docs) + "\n" + jsonOf(v.Cfg) + "\n" + string(g.src)
	if !c.check(err == nil, "generating: %v\n%s", err, text) {
		return
	}
	if c.is("C33") {
		// the same code is generated from what Normalize returns
		trees, err := xsd.Normalize(docs...)
		if !c.check(err == nil && len(trees) >= len(v.W), "Normalize: %v\n%s", err, text) {
			return
		}
		docs = nil
		for _, t := range trees[:len(v.W)] {
			docs = append(docs, xmltree.Marshal(t))
		}
		o, err := run()
		c.check(err == nil && string(o.src) == string(g.src), "from normalized schema, something else is generated (%v):\n%s\n%s\n%s", err, o.src, joinDocs(docs), text)
		return
	}
	if c.is("C18") {
		var again xsdgen.Config
		again.Option(v.Cfg.options(name)...)
		for i := 0; i < 6; i++ {
			o, err := run()
			c.check(err == nil && string(o.src) == string(g.src), "run %d generates something else (%v):\n%s\n%s", i, err, o.src, text)
			if i < 2 {
				o, err = generate(&again, docs, false)
				c.check(err == nil && string(o.src) == string(g.src), "using a Config again generates something else (%v):\n%s\n%s", err, o.src, text)
			}
		}
		return
	}
	pkg, errs := typeCheck(g.src)
	if !c.check(len(errs) == 0, "generated source does not compile: %s\n%s", strings.Join(errs, "; "), text) {
		return
	}
	if c.is("C19") {
		c.check(pkg.Name() == name, "package is called %s\n%s", pkg.Name(), text)
	}
	s := &shape{ctx: c, pkg: pkg, code: g.code, src: g.src, text: text, strict: v.Strict}
	if c.is("C20") {
		for _, st := range v.Structs {
			goName := g.code.NameOf(xml.Name{Space: st.NS, Local: st.N})
			s.declared(goName, st.F)
		}
	}
	if c.is("C31") {
		s.comments(v)
		for i := range v.W {
			stripNotes(&v.W[i])
		}
		docs = renderWorld(v.W, v.Wrap, c.rng)
		o, err := run()
		c.check(err == nil && withoutComments(o.src) == withoutComments(g.src), "without annotations, something else is generated (%v):\n%s\n%s", err, o.src, text)
	}
	if c.is("C23") {
		s.selection(v)
	}
	if c.is("C21") || c.is("C29") {
		queueRun(c, name, g, v, text)
	}
}

// comments looks for the documentation of types in the generated source.
func (s *shape) comments(v genVector) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "", s.src, parser.ParseComments)
	if !s.want(err == nil, "%v", err) {
		return
	}
	found := map[string]string{}
	for _, d := range file.Decls {
		if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.TYPE {
			for _, sp := range d.Specs {
				t := sp.(*ast.TypeSpec)
				found[t.Name.Name] = d.Doc.Text() + "\n" + t.Doc.Text()
			}
		}
	}
	noted := false
	for _, w := range v.W {
		noted = noted || hasNotes(w)
	}
	compare := func(name string, parts ...[]string) {
		doc, ok := found[name]
		if !ok {
			return
		}
		x := &xsdCmp{ctx: s.ctx, noted: noted, docs: s.text}
		x.doc("comment of "+name, doc, parts...)
	}
	for _, st := range v.Structs {
		compare(s.code.NameOf(xml.Name{Space: st.NS, Local: st.N}), st.Doc...)
	}
	for _, l := range v.Lists {
		compare(s.code.NameOf(xml.Name{Space: l.NS, Local: l.N}), l.Doc)
	}
}

func withoutComments(src []byte) string {
	var lines []string
	for _, l := range strings.Split(string(src), "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "//") {
			lines = append(lines, l)
		}
	}
	return strings.Join(lines, "\n")
}

type shape struct {
	*ctx
	pkg    *types.Package
	code   *xsdgen.Code
	src    []byte
	text   string
	strict bool
}

func (s *shape) bad(format string, args ...interface{}) {
	s.fail("%s", fmt.Sprintf(format, args...)+"\n"+s.text)
}

func (s *shape) want(ok bool, format string, args ...interface{}) bool {
	s.checks++
	if !ok {
		s.bad(format, args...)
	}
	return ok
}

func (s *shape) declared(name string, fields []gField) {
	obj := s.pkg.Scope().Lookup(name)
	if !s.want(obj != nil, "no declaration of %s", name) {
		return
	}
	s.structure(name, obj.Type(), fields)
}

// A wildcard that is the only content becomes a slice.
func isArray(fields []gField) bool {
	return len(fields) == 1 && fields[0].F == "any" && fields[0].Plu
}

func (s *shape) structure(path string, t types.Type, fields []gField) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok && isArray(fields) {
		_, ok := t.Underlying().(*types.Slice)
		s.want(ok, "%s is %s", path, t.Underlying())
		return
	}
	if !s.want(ok, "%s is %s, not a struct", path, t.Underlying()) {
		return
	}
	if !s.want(st.NumFields() == len(fields), "%s has %d fields instead of %d: %s", path, st.NumFields(), len(fields), st) {
		return
	}
	last := -1
	used := map[int]bool{}
	for _, f := range fields {
		at := -1
		for i := 0; i < st.NumFields(); i++ {
			if !used[i] && tagMatches(st.Tag(i), f, s.strict) {
				at = i
				break
			}
		}
		if !s.want(at >= 0, "%s has no field for %s %s %s (optional %v): %s", path, f.F, f.NS, f.N, f.Opt, st) {
			continue
		}
		used[at] = true
		fld := st.Field(at)
		s.want(fld.Exported(), "%s: field %s is not exported", path, fld.Name())
		if f.F == "el" {
			s.want(at > last, "%s: field %s is out of order: %s", path, fld.Name(), st)
			last = at
		}
		if f.F == "any" {
			_, slice := fld.Type().(*types.Slice)
			s.want(slice == f.Plu, "%s: wildcard is %s", path, fld.Type())
			continue
		}
		s.value(path+"."+fld.Name(), fld.Type(), f.Plu, f.Ty)
	}
}

func tagMatches(tag string, f gField, strict bool) bool {
	parts := strings.Split(reflect.StructTag(tag).Get("xml"), ",")
	opts := map[string]bool{}
	for _, o := range parts[1:] {
		opts[o] = true
	}
	ns, local := "", parts[0]
	if i := strings.LastIndex(local, " "); i >= 0 {
		ns, local = local[:i], local[i+1:]
	}
	switch f.F {
	case "text":
		return local == "" && opts["chardata"]
	case "any":
		return local == "" && opts["any"]
	case "el":
		return local == f.N && ns == f.NS && !opts["attr"] && !opts["any"] && opts["omitempty"] == (f.Opt && !f.Plu)
	case "at":
		want := f.NS
		if want == "*" {
			want = ""
		}
		// References to attributes of a namespace lose it, see known/.
		return local == f.N && (ns == want || ns == "" && !strict) && opts["attr"] && opts["omitempty"] == f.Opt
	}
	return false
}

func (s *shape) value(path string, t types.Type, plural bool, v gValue) {
	if plural {
		sl, ok := t.(*types.Slice)
		if !s.want(ok, "%s is %s, not a slice", path, t) {
			return
		}
		t = sl.Elem()
	}
	switch v.V {
	case "s":
		s.want(scalarOK(t, v), "%s is %s (%s), want %s (list: %v)", path, t, t.Underlying(), v.Go, v.List)
	case "c":
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		want := s.code.NameOf(xml.Name{Space: v.NS, Local: v.N})
		s.want(ok && n.Obj().Name() == want, "%s is %s, want %s", path, t, want)
	case "a":
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if s.want(ok, "%s is %s", path, t) {
			s.structure(path+"("+n.Obj().Name()+")", n, v.F)
		}
	}
}

func scalarOK(t types.Type, v gValue) bool {
	goType := v.Go
	if v.List {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		t = sl.Elem()
	}
	if goType == "time.Time" || goType == "xml.Name" {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name()+"."+n.Obj().Name() == goType {
			return true
		}
		st, ok := t.Underlying().(*types.Struct)
		return ok && goType == "time.Time" && st.NumFields() > 0 && st.Field(0).Name() == "wall"
	}
	u := t.Underlying().String()
	return u == goType || (goType == "[]byte" && u == "[]uint8") || (goType == "uint8" && u == "byte")
}

var helperName = regexp.MustCompile(`^(xsd[A-Z].*|_.*)$`)

// selection: structures that were asked for or are needed are declared, and
// no type is that is neither.
func (s *shape) selection(v genVector) {
	may := map[string]bool{}
	for _, t := range v.May {
		may[t[0]+" "+t[1]] = true
	}
	var known []string
	for _, sc := range v.W {
		for _, d := range sc.Decls {
			if d.K == "ct" || d.K == "st" {
				known = append(known, sc.NS+" "+d.N)
			}
		}
	}
	for _, st := range v.Structs {
		name := s.code.NameOf(xml.Name{Space: st.NS, Local: st.N})
		s.want(s.pkg.Scope().Lookup(name) != nil, "%s %s is not declared", st.NS, st.N)
	}
	// Names are unique here, so a declaration tells which type it is for.
	count := map[string]int{}
	for _, k := range known {
		count[strings.Fields(k)[1]]++
	}
	for _, k := range known {
		p := strings.Fields(k)
		if !may[k] && count[p[1]] == 1 {
			s.want(s.pkg.Scope().Lookup(p[1]) == nil, "%s is declared though nothing needs it", k)
		}
	}
	// Anonymous types of types that are not generated are not either: each
	// declared type is reachable from one that may be there.
	reach := map[string]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() != s.pkg || reach[t.Obj().Name()] {
				return
			}
			reach[t.Obj().Name()] = true
			visit(t.Underlying())
		case *types.Pointer:
			visit(t.Elem())
		case *types.Slice:
			visit(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				visit(t.Field(i).Type())
			}
		}
	}
	for k := range may {
		p := strings.Fields(k)
		for _, n := range []string{s.code.NameOf(xml.Name{Space: p[0], Local: p[1]})} {
			if obj := s.pkg.Scope().Lookup(n); obj != nil {
				visit(obj.Type())
			}
		}
	}
	var names []string
	for _, n := range s.pkg.Scope().Names() {
		if _, ok := s.pkg.Scope().Lookup(n).(*types.TypeName); ok && !helperName.MatchString(n) && !reach[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(v.Cfg.IgnE) == 0 && len(v.Cfg.IgnA) == 0 {
		s.want(len(names) == 0 || v.anonymousRoots(names), "%v are declared though nothing needs them", names)
	}
}

// Anonymous types that only shadowed declarations have may remain.
func (v genVector) anonymousRoots(names []string) bool {
	for _, n := range names {
		for _, sc := range v.W {
			for _, d := range sc.Decls {
				if (d.K == "ct" || d.K == "st") && d.N == n {
					return false
				}
			}
		}
	}
	return true
}
