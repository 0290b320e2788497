package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"strings"
	"unicode/utf8"

	"golang.org/x/net/html/charset"
	"pgregory.net/rapid"
)

// ---- C16: malformed input

// FuzzCase is a set of files, of which Main is compiled.
type FuzzCase struct {
	Files map[string][]byte `json:"files"`
	Main  string            `json:"main"`
	Lang  string            `json:"lang"`
	Kind  string            `json:"kind"`
	Dir   bool              `json:"dir,omitempty"`  // compile the directory
	Gone  bool              `json:"gone,omitempty"` // the main file does not exist
	Full  bool              `json:"full,omitempty"` // the output file cannot take any data
	Dep   string            `json:"dep,omitempty"`  // a file which the main file refers to is broken or does not exist
}

// refersTo tells whether a file has references to components of another one
// which have to be resolved.
func refersTo(p *Project, from, to int) bool {
	raw, _ := json.Marshal(p.Files[from].Comps)
	var v interface{}
	json.Unmarshal(raw, &v)
	var walk func(v interface{}) bool
	walk = func(v interface{}) bool {
		switch x := v.(type) {
		case []interface{}:
			for _, y := range x {
				if walk(y) {
					return true
				}
			}
		case map[string]interface{}:
			if f, ok := x["f"].(float64); ok && int(f) == to && x["n"] != nil {
				return true
			}
			for k, y := range x {
				// membership in a substitution group leaves no trace
				if k != "subst" && walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// wellFormed is the reference for well-formedness: encoding/xml's strict
// decoder with the usual character sets.
func wellFormed(b []byte) error {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.CharsetReader = charset.NewReaderLabel
	for {
		if _, err := d.Token(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
}

// xnode is an element for structured mutation.
type xnode struct {
	Name  string
	Attrs []attrKV
	Kids  []*xnode
	Text  string // character data before the children
}

func parseX(b []byte) *xnode {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.CharsetReader = charset.NewReaderLabel
	root := &xnode{}
	stack := []*xnode{root}
	for {
		t, err := d.RawToken()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{Name: rawName(x.Name)}
			for _, a := range x.Attr {
				n.Attrs = append(n.Attrs, attrKV{rawName(a.Name), a.Value})
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case xml.CharData:
			if s := strings.TrimSpace(string(x)); s != "" {
				top.Text += s
			}
		}
	}
	if len(root.Kids) == 1 {
		return root.Kids[0]
	}
	return root
}

func rawName(n xml.Name) string {
	if n.Space == "" {
		return n.Local
	}
	return n.Space + ":" + n.Local
}

func (n *xnode) all(out []*xnode) []*xnode {
	out = append(out, n)
	for _, k := range n.Kids {
		out = k.all(out)
	}
	return out
}

func (n *xnode) clone() *xnode {
	m := &xnode{Name: n.Name, Text: n.Text, Attrs: append([]attrKV{}, n.Attrs...)}
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, k.clone())
	}
	return m
}

func (n *xnode) write(b *strings.Builder) {
	if n.Name != "" {
		b.WriteString("<" + n.Name)
		for _, a := range n.Attrs {
			var e bytes.Buffer
			xml.EscapeText(&e, []byte(a.v))
			b.WriteString(" " + a.k + `="` + e.String() + `"`)
		}
		b.WriteString(">")
	}
	xml.EscapeText(stringsWriter{b}, []byte(n.Text))
	for _, k := range n.Kids {
		k.write(b)
	}
	if n.Name != "" {
		b.WriteString("</" + n.Name + ">\n")
	}
}

type stringsWriter struct{ b *strings.Builder }

func (w stringsWriter) Write(p []byte) (int, error) { return w.b.Write(p) }

var xsdElems = []string{
	"schema", "element", "complexType", "simpleType", "attribute", "attributeGroup", "group", "sequence", "choice", "all",
	"restriction", "extension", "list", "union", "enumeration", "annotation", "documentation", "appinfo", "simpleContent",
	"complexContent", "any", "anyAttribute", "import", "include", "redefine", "override", "key", "keyref", "unique", "selector", "field",
	"notation", "pattern", "length", "minLength", "maxLength", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive",
	"totalDigits", "fractionDigits", "whiteSpace", "alternative", "assert", "openContent", "charData", "CharData", "Element", "x", "parse",
}
var xsdAttrs = []string{
	"name", "ref", "type", "base", "itemType", "memberTypes", "value", "use", "minOccurs", "maxOccurs", "mixed", "abstract", "default", "fixed",
	"namespace", "schemaLocation", "targetNamespace", "id", "source", "processContents", "form", "nillable", "substitutionGroup", "unbounded", "xmlns:t", "xmlns:q", "xpath", "refer",
}
var oddValues = []string{
	"", " ", "xs:string", "string", "t:Foo", "Foo", "foo", "q:Foo", "xs:", ":", ":x", "a:b:c", "::", "-", "_", ".", "..", "...", "1", "0", "-1", "unbounded", "2147483648", "99999999999999999999",
	"1.5", "one", "true", "required", "optional", "prohibited", "\t\n", "a b", "xs:int xs:string", "t:Foo t:Bar", "xml:lang", "xs:anyType", "xs:IDREFS", "main.xsd", "./main.xsd", "other.xsd", "missing.xsd",
	"../../../etc/passwd", ".", "/", "http://example.invalid/x.xsd", "urn:t", "http://www.w3.org/2001/XMLSchema", "[a-z", "(", "\\", "é", "価格", "\u2028", "*/", "`", "\"", "'", "<", "&", "%s%n", "type", "class", "[]", "[]string", "*", "func()", "a\x09b",
	strings.Repeat("n", 3000), strings.Repeat("a.", 200), strings.Repeat("-", 50),
}

func genNode(t *rapid.T, depth int, budget *int) *xnode {
	*budget--
	n := &xnode{Name: "xs:" + pick(t, "el", xsdElems)}
	if chance(t, "foreign", 3) {
		n.Name = pick(t, "fel", []string{"html", "o:element", "element", "a.b-c", "schema"})
	}
	seen := map[string]bool{}
	for i := num(t, "nattr", 0, 3); i > 0; i-- {
		a := pick(t, "at", xsdAttrs)
		if i == 1 && !seen["name"] {
			a = "name"
		}
		if seen[a] {
			continue
		}
		seen[a] = true
		n.Attrs = append(n.Attrs, attrKV{a, pick(t, "av", oddValues)})
	}
	if chance(t, "text", 8) {
		n.Text = pick(t, "tv", oddValues)
	}
	if depth > 0 {
		for i := num(t, "nkids", 0, 3); i > 0 && *budget > 0; i-- {
			n.Kids = append(n.Kids, genNode(t, depth-1, budget))
		}
	}
	return n
}

func mutateTree(t *rapid.T, root *xnode) {
	for i := num(t, "nmut", 1, 4); i > 0; i-- {
		all := root.all(nil)
		n := pick(t, "node", all)
		switch pick(t, "mut", []string{"attrdel", "attrset", "attrset", "attradd", "rename", "kiddel", "kiddup", "kidmove", "unwrap", "insert", "swap", "text", "self"}) {
		case "attrdel":
			if len(n.Attrs) > 0 {
				k := num(t, "ai", 0, len(n.Attrs)-1)
				n.Attrs = append(n.Attrs[:k:k], n.Attrs[k+1:]...)
			}
		case "attrset":
			if len(n.Attrs) > 0 {
				n.Attrs[num(t, "ai", 0, len(n.Attrs)-1)].v = pick(t, "av", oddValues)
			}
		case "attradd":
			a := pick(t, "at", xsdAttrs)
			ok := true
			for _, x := range n.Attrs {
				ok = ok && x.k != a
			}
			if ok {
				n.Attrs = append(n.Attrs, attrKV{a, pick(t, "av", oddValues)})
			}
		case "rename":
			px := ""
			if i := strings.Index(n.Name, ":"); i >= 0 {
				px = n.Name[:i+1]
			}
			n.Name = px + pick(t, "el", xsdElems)
		case "kiddel":
			if len(n.Kids) > 0 {
				k := num(t, "ki", 0, len(n.Kids)-1)
				n.Kids = append(n.Kids[:k:k], n.Kids[k+1:]...)
			}
		case "kiddup":
			if len(n.Kids) > 0 && len(all) < 300 {
				n.Kids = append(n.Kids, pick(t, "kid", n.Kids).clone())
			}
		case "kidmove":
			src := pick(t, "src", all)
			if len(src.all(nil)) < 60 && len(all) < 300 {
				n.Kids = append(n.Kids, src.clone())
			}
		case "unwrap":
			if len(n.Kids) > 0 {
				k := num(t, "ki", 0, len(n.Kids)-1)
				x := n.Kids[k]
				var ks []*xnode
				ks = append(ks, n.Kids[:k]...)
				ks = append(ks, x.Kids...)
				n.Kids = append(ks, n.Kids[k+1:]...)
			}
		case "insert":
			b := 6
			x := genNode(t, 2, &b)
			k := num(t, "ki", 0, len(n.Kids))
			n.Kids = append(n.Kids[:k:k], append([]*xnode{x}, n.Kids[k:]...)...)
		case "swap":
			m := pick(t, "other", all)
			n.Name, m.Name = m.Name, n.Name
		case "text":
			n.Text = pick(t, "tv", oddValues)
		case "self":
			for k := range n.Attrs {
				if n.Attrs[k].k == "name" {
					n.Attrs = append(n.Attrs, attrKV{"base2", ""})
					for _, m := range all {
						for j := range m.Attrs {
							if m.Attrs[j].k == "base" || m.Attrs[j].k == "type" || m.Attrs[j].k == "ref" {
								if chance(t, "point", 40) {
									m.Attrs[j].v = n.Attrs[k].v
								}
							}
						}
					}
					break
				}
			}
		}
	}
}

var junk = []string{"<", ">", "&", "&foo;", "&#0;", "&#x110000;", "]]>", "<!--", "-->", "<![CDATA[", "<?", "?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "</", "/>", "=", "\"", "'", "\x00", "\xff\xfe", "\xc3", "\xed\xa0\x80",
	"<xs:element", "</xs:schema>", "</xs:complexType>", "<a>", "</a>", " ", "\n", "xmlns:xs=\"x\"", "<?xml version=\"1.1\"?>", "<?xml version=\"1.0\" encoding=\"bogus-8\"?>", "\u2028", "name=", "name=x", " a=\"1\" a=\"2\" ", "--", "<!>", "<a b>", "<:a/>", "<a:/>", "<1/>"}

func mutateBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := num(t, "nbmut", 1, 3); i > 0; i-- {
		at := num(t, "at", 0, len(b))
		switch pick(t, "bmut", []string{"trunc", "insert", "delete", "dup", "flip", "insert"}) {
		case "trunc":
			b = b[:at]
		case "insert":
			b = append(b[:at:at], append([]byte(pick(t, "junk", junk)), b[at:]...)...)
		case "delete":
			n := num(t, "len", 1, 40)
			if at+n > len(b) {
				n = len(b) - at
			}
			b = append(b[:at:at], b[at+n:]...)
		case "dup":
			n := num(t, "len", 1, 200)
			if at+n > len(b) {
				n = len(b) - at
			}
			b = append(b[:at+n:at+n], b[at:]...)
		case "flip":
			if at < len(b) {
				b[at] ^= byte(1 << uint(num(t, "bit", 0, 7)))
			}
		}
	}
	return b
}

func genFuzz(t *rapid.T, tier string) interface{} {
	c := FuzzCase{Files: map[string][]byte{}, Main: "main.xsd", Lang: pick(t, "lang", Langs)}
	cfg := baseCfg()
	full(&cfg, tier)
	cfg.MaxFiles, cfg.MaxComps, cfg.MaxMembers, cfg.Encodings, cfg.Hostile = 3, 4, 4, true, true
	c.Kind = pick(t, "kind", []string{"tree", "tree", "tree", "bytes", "bytes", "grammar", "grammar", "junk", "raw", "deep", "missing", "missing", "full"})
	c.Dir = chance(t, "dir", 25)
	var p *Project
	project := func() {
		p = GenProject(t, cfg)
		c.Files = RenderAll(p)
		c.Main = p.Files[0].Path
	}
	switch c.Kind {
	case "tree":
		project()
		x := parseX(c.Files[c.Main])
		mutateTree(t, x)
		var b strings.Builder
		x.write(&b)
		c.Files[c.Main] = []byte(b.String())
	case "bytes":
		project()
		c.Files[c.Main] = mutateBytes(t, c.Files[c.Main])
	case "grammar":
		n := 1
		if chance(t, "two", 30) {
			n = 2
		}
		for i := 0; i < n; i++ {
			root := &xnode{Name: "xs:schema", Attrs: []attrKV{{"xmlns:xs", xsdNS}, {"xmlns:t", "urn:t"}, {"targetNamespace", "urn:t"}}}
			if chance(t, "oddroot", 12) {
				root.Name = "xs:" + pick(t, "rootel", xsdElems)
			}
			budget := num(t, "budget", 3, 40)
			for k := num(t, "top", 1, 6); k > 0 && budget > 0; k-- {
				root.Kids = append(root.Kids, genNode(t, 4, &budget))
			}
			var b strings.Builder
			root.write(&b)
			c.Files[[]string{"main.xsd", "other.xsd"}[i]] = []byte(b.String())
		}
	case "junk":
		var b strings.Builder
		for k := num(t, "njunk", 0, 12); k > 0; k-- {
			b.WriteString(pick(t, "junk", junk))
		}
		c.Files[c.Main] = []byte(b.String())
	case "raw":
		c.Files[c.Main] = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	case "deep":
		w := pick(t, "wrap", []string{"sequence", "choice", "complexType", "element", "simpleType", "group", "annotation", "union", "restriction"})
		d := num(t, "depth", 1, 3000)
		nm := ""
		if chance(t, "named", 60) {
			nm = ` name="n"`
		}
		open, end := "<xs:"+w+nm+">", "</xs:"+w+">"
		if chance(t, "pair", 50) {
			open, end = `<xs:element name="e">`+open, end+"</xs:element>"
		}
		if chance(t, "short", 20) {
			end = ""
		}
		c.Files[c.Main] = []byte(`<xs:schema xmlns:xs="` + xsdNS + `">` + strings.Repeat(open, d) + strings.Repeat(end, d) + `</xs:schema>`)
	case "full":
		project()
		c.Full, c.Dir = true, false
	case "missing":
		if chance(t, "several", 70) {
			cfg.MinFiles, cfg.MaxFiles, cfg.Cross = 2, 4, 60
		}
		project()
		if chance(t, "main", 20) || len(c.Files) == 1 {
			delete(c.Files, c.Main)
			c.Gone, c.Dir = true, false
			c.Files["note.txt"] = []byte("x")
		} else {
			k := num(t, "which", 1, len(p.Files)-1)
			for j := 1; j < len(p.Files) && chance(t, "referred", 80); j++ {
				if refersTo(p, 0, j) {
					k = j
					break
				}
			}
			n, what := p.Files[k].Path, num(t, "what", 0, 2)
			switch what {
			case 0:
				delete(c.Files, n)
			case 1:
				c.Files[n] = nil
			default:
				c.Files[n] = mutateBytes(t, c.Files[n])
			}
			if refersTo(p, 0, k) {
				for _, l := range p.Files[0].Links {
					// an included file which does not exist is left out
					if l.To == k && l.K == "import" && what == 0 {
						c.Dep = n
					}
				}
				if what > 0 && wellFormed(c.Files[n]) != nil {
					c.Dep = n
				}
			}
		}
	}
	return c
}

func evalFuzz(e *Env, raw json.RawMessage) Verdict {
	var c FuzzCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	v := Verdict{Labels: []string{"kind." + c.Kind}}
	src, exists := c.Files[c.Main]
	bad := ""
	if !exists {
		bad = "the file does not exist"
	} else if err := wellFormed(src); err != nil {
		bad = err.Error()
	}
	if bad != "" {
		v.Labels = append(v.Labels, "malformed")
	} else {
		v.Labels = append(v.Labels, "well-formed")
	}
	v.NonTrivial = true
	run := Run{Lang: c.Lang, Files: []string{c.Main}}
	if c.Dir {
		run.Files = nil
		for _, n := range sortedKeys(c.Files) {
			if err := wellFormed(c.Files[n]); err != nil && bad == "" {
				bad = n + ": " + err.Error()
			}
		}
	}
	if c.Dep != "" {
		v.Labels = append(v.Labels, "broken dependency")
		if bad == "" {
			bad = "the file it refers to, " + c.Dep + ", is broken or does not exist"
		}
	}
	job := &Job{Files: c.Files, Runs: []Run{run}}
	if c.Full {
		job.Full = []string{c.Main + Ext[c.Lang]}
		bad = "the output device is full"
	}
	res := e.W.Do(job)
	if res.Infra != "" {
		return Verdict{Infra: res.Infra}
	}
	add := func(cat, f string, a ...interface{}) {
		v.Problems = append(v.Problems, Problem{cat, c.Lang, c.Kind, fmt.Sprintf(f, a...)})
	}
	if res.Died != "" {
		add("crash", "%s", trunc(res.Died, 800))
		return v
	}
	if res.Hung {
		add("hang", "parsing did not finish within %s of CPU time", hangCPU)
		return v
	}
	r := res.Runs[0]
	if r.Panic != "" {
		add("panic", "%s", trunc(r.Panic, 1500))
		return v
	}
	if r.Err != "" {
		v.Labels = append(v.Labels, "error returned")
		return v
	}
	if bad != "" {
		add("unreported", "no error is returned, but %s", bad)
		return v
	}
	var want []string
	if c.Dir {
		want = sortedKeys(c.Files)
	} else {
		want = []string{c.Main}
	}
	for _, n := range want {
		if !strings.HasSuffix(n, ".xsd") {
			continue
		}
		text, ok := r.Outs[n+Ext[c.Lang]]
		if !ok {
			add("output", "no error is returned, but there is no output for %s; have %v", n, sortedKeys(r.Outs))
			continue
		}
		if c.Lang == "Go" {
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", text, 0); err != nil {
				add("output", "no error is returned, but the output for %s is not Go: %v", n, err)
			}
		}
		if !strings.Contains(text, "Code generated by xgen") {
			add("output", "no error is returned, but the output for %s is incomplete: %q", n, trunc(text, 200))
		}
		if !utf8.ValidString(text) {
			add("output", "the output for %s is not UTF-8", n)
		}
	}
	return v
}

func init() {
	register(&Prop{ID: "C16", Quick: 30000, Thorough: 400000, Assume: []string{
		"encoding/xml's strict decoder decides what is well-formed",
		"a run which uses more than 20 s of CPU time on such small inputs does not end",
	},
		Rule: "inputs: schema projects with 1-4 structural mutations (elements and attributes dropped, duplicated, moved, renamed, odd values) or byte mutations (truncation, insertion of markup junk, deletion, duplication, bit flips), random trees of schema constructs in the wrong places, junk, random bytes, deep nesting, missing and broken references; compiled in a worker process to one language; non-trivial: all (distinct inputs are counted)",
		Gen:  genFuzz, Eval: evalFuzz})
}
