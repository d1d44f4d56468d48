package main

// Schema in several files: what spec/GenFiles.tla says is read and written,
// against GenSource and the xsdgen command.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/xsdgen"
)

type fileImport struct {
	To    int    `json:"to"`
	Style string `json:"style"`
}

type fileVector struct {
	Files []struct {
		Dir  int          `json:"dir"`
		NS   string       `json:"ns"`
		Imps []fileImport `json:"imps"`
		Uses []int        `json:"uses"`
		Wrap bool         `json:"wrap"`
	} `json:"files"`
	Run struct {
		Roots  []int    `json:"roots"`
		Follow bool     `json:"follow"`
		NS     []string `json:"ns"`
		Rules  int      `json:"rules"`
		Out    string   `json:"out"`
		Exists bool     `json:"exists"`
		Pkg    string   `json:"pkg"`
		Verb   int      `json:"verb"`
	} `json:"run"`
	Read  []int    `json:"read"`
	Err   bool     `json:"err"`
	Types []string `json:"types"`
}

func init() { checkers["files"] = checkFiles }

var (
	toolsMu  sync.Mutex
	toolsErr = make(map[string]error)
)

// tool builds one of the repository's commands.
func tool(name string) string {
	toolsMu.Lock()
	defer toolsMu.Unlock()
	path := filepath.Join(workDir(), "tools", name)
	err, ok := toolsErr[name]
	if !ok {
		cmd := exec.Command("go", "build", "-mod=readonly", "-o", path, "./cmd/"+name)
		cmd.Dir = os.Getenv("DRV_REPO")
		var out []byte
		if out, err = cmd.CombinedOutput(); err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		toolsErr[name] = err
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "building", name, err)
		os.Exit(3)
	}
	return path
}

// command runs a command in a directory.
func command(dir, path string, args ...string) (out string, failed bool) {
	cmd := exec.Command(path, args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return b.String(), err != nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		return b.String() + "\n(did not end within a minute)", true
	}
}

var fileDirs = []string{".", "d", filepath.Join("d", "e"), "x"}

func checkFiles(c *ctx, raw json.RawMessage) {
	var v fileVector
	decode(c, raw, &v)
	top, err := ioutil.TempDir(workDir(), "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	for _, d := range fileDirs {
		os.MkdirAll(filepath.Join(top, d), 0777)
	}
	rel := func(f int) string {
		if f > len(v.Files) {
			return "missing.xsd"
		}
		return filepath.Join(fileDirs[v.Files[f-1].Dir], fmt.Sprintf("f%d.xsd", f))
	}
	var text bytes.Buffer
	for i, f := range v.Files {
		var b bytes.Buffer
		here := fileDirs[f.Dir]
		if f.Wrap {
			b.WriteString(`<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/"><w:types>`)
		}
		fmt.Fprintf(&b, `<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="%s" elementFormDefault="qualified">`, f.NS)
		for _, m := range f.Imps {
			loc := ""
			switch {
			case m.To == 0:
			case m.Style == "abs":
				loc = filepath.Join(top, rel(m.To))
			default:
				loc, _ = filepath.Rel(here, rel(m.To))
				if m.Style == "dot" {
					loc = "./" + loc
				} else if m.Style == "up" {
					loc = "../" + filepath.Base(filepath.Join(top, here)) + "/" + loc
				}
			}
			if loc != "" {
				loc = ` schemaLocation="` + filepath.ToSlash(loc) + `"`
			}
			switch {
			case m.To >= 1 && m.To <= len(v.Files) && v.Files[m.To-1].NS == f.NS:
				fmt.Fprintf(&b, `<include%s/>`, loc)
			case m.To >= 1 && m.To <= len(v.Files):
				fmt.Fprintf(&b, `<import namespace="%s"%s/>`, v.Files[m.To-1].NS, loc)
			default:
				fmt.Fprintf(&b, `<import namespace="urn:z"%s/>`, loc)
			}
		}
		fmt.Fprintf(&b, `<complexType name="T%d"><sequence><element name="v" type="int"/>`, i+1)
		for _, u := range f.Uses {
			fmt.Fprintf(&b, `<element name="e%d" type="u:T%d" xmlns:u="%s" minOccurs="0" maxOccurs="unbounded"/>`, u, u, v.Files[u-1].NS)
		}
		b.WriteString(`</sequence></complexType></schema>`)
		if f.Wrap {
			b.WriteString(`</w:types></w:definitions>`)
		}
		path := filepath.Join(top, rel(i+1))
		if err := ioutil.WriteFile(path, b.Bytes(), 0666); err != nil {
			panic(err)
		}
		fmt.Fprintf(&text, "%s: %s\n", rel(i+1), b.Bytes())
	}
	var opts []xsdgen.Option
	opts = append(opts, xsdgen.DefaultOptions...)
	opts = append(opts, xsdgen.Namespaces(v.Run.NS...))
	pkg := "ws"
	if v.Run.Pkg != "" {
		pkg = v.Run.Pkg
		opts = append(opts, xsdgen.PackageName(pkg))
	}
	rules := [][2]string{{"T([0-9])", "Uni$1"}, {"Uni", "V"}}[:v.Run.Rules]
	for _, r := range rules {
		opts = append(opts, xsdgen.Replace(r[0], r[1]))
	}
	var roots, abs []string
	for _, r := range v.Run.Roots {
		roots = append(roots, rel(r))
		abs = append(abs, filepath.Join(top, rel(r)))
	}
	text.WriteString(jsonOf(v.Run))

	// the library
	var cfg xsdgen.Config
	cfg.Option(opts...)
	cfg.Option(xsdgen.FollowImports(v.Run.Follow))
	src, err := cfg.GenSource(abs...)
	if c.check((err != nil) == v.Err, "GenSource: %v\n%s", err, text.Bytes()) && err == nil {
		c.check(typesOf(src) == pkg+" "+strings.Join(sorted(v.Types), " "), "GenSource declares %s instead of %v\n%s", typesOf(src), v.Types, text.Bytes())
		// the same as if the files had been listed
		var all []string
		for _, f := range v.Read {
			all = append(all, filepath.Join(top, rel(f)))
		}
		var plain xsdgen.Config
		plain.Option(opts...)
		want, err := plain.GenSource(all...)
		if c.check(err == nil, "GenSource of %v: %v\n%s", all, err, text.Bytes()) {
			c.check(string(want) == string(src), "GenSource of all files differs:\n%s\n%s\n%s", want, src, text.Bytes())
		}
	}

	// the command
	var args []string
	if v.Run.Follow {
		args = append(args, "-f")
	}
	for _, ns := range v.Run.NS {
		args = append(args, "-ns", ns)
	}
	for i, r := range rules {
		args = append(args, "-r", r[0]+[]string{" -> ", "->"}[i]+r[1])
	}
	if v.Run.Pkg != "" {
		args = append(args, "-pkg", v.Run.Pkg)
	}
	if v.Run.Out != "" {
		args = append(args, "-o", v.Run.Out)
	}
	if v.Run.Verb > 0 {
		args = append(args, []string{"-v", "-vv"}[v.Run.Verb-1])
	}
	out := v.Run.Out
	if out == "" {
		out = "xsdgen_output.go"
	}
	nodir := strings.HasPrefix(out, "nodir")
	before := ""
	if v.Run.Exists && !nodir {
		before = "package old // " + strings.Repeat("long ", 4000)
		ioutil.WriteFile(filepath.Join(top, out), []byte(before), 0666)
	}
	files := listDir(top)
	msg, failed := command(top, tool("xsdgen"), append(args, roots...)...)
	if len(msg) > 2000 {
		msg = msg[:1000] + "..." + msg[len(msg)-1000:]
	}
	why := func() string { return fmt.Sprintf("\nxsdgen %v %v\n%s\n%s", args, roots, msg, text.Bytes()) }
	c.check(failed == (v.Err || nodir), "command failed: %v%s", failed, why())
	have, err := ioutil.ReadFile(filepath.Join(top, out))
	if v.Err || nodir {
		if before == "" {
			c.check(os.IsNotExist(err), "a failing command wrote %s%s", out, why())
		} else {
			c.check(err == nil && string(have) == before, "a failing command changed %s%s", out, why())
		}
		c.check(msg != "", "a failing command says nothing%s", why())
	} else if c.check(err == nil, "no output: %v%s", err, why()) {
		c.check(untitled(have) == untitled(src), "command and GenSource differ:\n%s\n%s%s", have, src, why())
		if before == "" {
			files = append(files, out)
		}
	}
	c.check(strings.Join(listDir(top), " ") == strings.Join(sorted(files), " "), "files are %v instead of %v%s", listDir(top), files, why())
	if v.Run.Verb == 0 && !v.Err && !nodir {
		c.check(msg == "", "a succeeding command says something%s", why())
	}
}

// untitled is a source without the line that says who generated it.
func untitled(src []byte) string {
	s := string(src)
	if i := strings.Index(s, "\n"); i >= 0 && strings.HasPrefix(s, "// Code generated") && strings.HasSuffix(s[:i], " DO NOT EDIT.") {
		return s[i:]
	}
	return "no title: " + s
}

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func listDir(top string) []string {
	var r []string
	filepath.Walk(top, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			p, _ := filepath.Rel(top, path)
			r = append(r, p)
		}
		return nil
	})
	sort.Strings(r)
	return r
}

// typesOf lists the package and the declared types of a source.
func typesOf(src []byte) string {
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return err.Error()
	}
	var r []string
	for _, d := range file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
			r = append(r, g.Specs[0].(*ast.TypeSpec).Name.Name)
		}
	}
	return file.Name.Name + " " + strings.Join(sorted(r), " ")
}
