package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// ---- C19: documents round-trip through the generated Go types

// DocNode is an element of an instance document.
type DocNode struct {
	N string     `json:"n"`
	G int        `json:"g,omitempty"` // 1 + file of the declaration
	A []DocAttr  `json:"a,omitempty"`
	T string     `json:"t,omitempty"`
	B string     `json:"b,omitempty"` // datatype of the text, "" = none
	K []*DocNode `json:"k,omitempty"`
}

// DocAttr is an attribute of an instance document.
type DocAttr struct {
	N string `json:"n"`
	G int    `json:"g,omitempty"` // 1 + file, 0 = local, -1 = xml:
	V string `json:"v"`
	B string `json:"b"`
	O bool   `json:"o,omitempty"` // optional
}

// Doc is an instance document.
type Doc struct {
	Ident  string   `json:"ident"` // XSD name of the declaration the root is decoded into
	Root   *DocNode `json:"root"`
	Indent bool     `json:"indent,omitempty"`
	Cmts   bool     `json:"cmts,omitempty"`
	CData  bool     `json:"cdata,omitempty"`
	Qual   bool     `json:"qual,omitempty"` // everything in the default namespace
}

// DocCase is a project and documents of it.
type DocCase struct {
	P    *Project `json:"p"`
	Docs []Doc    `json:"docs"`
}

type docgen struct {
	t    *rapid.T
	p    *Project
	max  int
	left int
}

var docTextsRT = []string{"", "plain", "two words", " leading and trailing ", "a<b&c>d", "]]>", "\"quoted\" 'text'", "größe 名前 \U0001F600", "line\nbreak\ttab", "0", "false", "{{}}", "a&amp;b", "cr\rcr", "-", "\u00a0"}

func (g *docgen) value(b string) string {
	t := g.t
	if _, ok := xsdInts[b]; ok {
		if chance(t, "small", 30) {
			lo, hi := 0, 9
			if b == "positiveInteger" {
				lo = 1
			} else if b == "negativeInteger" || b == "nonPositiveInteger" {
				return fmt.Sprint(-num(t, "neg", 1, 9))
			}
			return fmt.Sprint(num(t, "int", lo, hi))
		}
		return genBTValue(t, b)
	}
	switch b {
	case "boolean":
		return pick(t, "bool", []string{"true", "false", "1", "0"})
	case "float", "double", "decimal":
		return pick(t, "float", []string{"0", "1.5", "-2.25", "100", "0.1", "3.14", "-0.001", "123456.5", "1000000"})
	case "date", "dateTime", "time", "gYear", "duration":
		return map[string]string{"date": "2024-02-29", "dateTime": "1999-12-31T23:59:59.5+14:00", "time": "24:00:00", "gYear": "-0044", "duration": "P1Y2M3DT4H5M6.7S"}[b]
	case "base64Binary":
		return pick(t, "b64", []string{"", "aGVsbG8=", "AAEC/+8="})
	case "hexBinary":
		return pick(t, "hex", []string{"", "00ff", "DEADBEEF"})
	case "NMTOKENS", "IDREFS", "ENTITIES":
		return pick(t, "tokens", []string{"a", "a b", "a b c d"})
	case "list":
		return pick(t, "items", []string{"", "one", "one two", "x y z"})
	case "string", "anyType", "anySimpleType", "normalizedString":
		return pick(t, "text", docTextsRT)
	}
	return pick(t, "token", []string{"tok", "a-b", "x.y", "en-GB", "n1"})
}

// textType is the datatype of the text of a simple type, "" if the generated
// types cannot represent it (unions, lists of numbers).
func textType(x XType) string {
	switch {
	case x.B != "" && x.Arr == 0:
		return x.B
	case x.B != "" && x.Arr == 1 && goString(x.B) && !contains(listBuiltins, x.B):
		return "list"
	}
	return ""
}

// goString tells whether a datatype is plain text in Go.
func goString(b string) bool {
	if _, ok := xsdInts[b]; ok {
		return false
	}
	return b != "boolean" && b != "float" && b != "double" && b != "decimal"
}

type flatMember struct {
	attr  bool
	name  string
	depth int
	odd   bool // required, and not representable
}

// flat lists the attributes and elements of a type with the depth of the
// embedded structure they are in.
func flat(p *Project, fi int, d XDecl, depth int, c *CType, out *[]flatMember) {
	if depth > 12 {
		return
	}
	for _, m := range d.Members {
		if m.Kind == "value" && m.T.Arr > 0 || m.Kind == "value" && contains(listBuiltins, m.T.B) || m.Kind == "base" && m.T.DK == "union" {
			*out = append(*out, flatMember{odd: true}) // list-content, union-text
			continue
		}
		switch m.Kind {
		case "attr", "elem":
			*out = append(*out, flatMember{m.Kind == "attr", m.Name, depth, m.Kind == "attr" && m.Req && textType(m.T) == ""})
		case "agref", "gref":
			if m.Plural {
				continue
			}
			kind := "attributeGroup"
			if m.Kind == "gref" {
				kind = "group"
			}
			for i := range p.Files {
				if x := p.Lookup(Ref{F: i, N: m.Name}, kind); x != nil {
					e := &expecter{p: p, fi: i, f: &p.Files[i]}
					e.comp(x)
					flat(p, i, e.out[len(e.out)-1], depth+1, nil, out)
					break
				}
			}
		case "base":
			if c == nil || c.Base == nil {
				continue
			}
			if x := p.Lookup(*c.Base, "complexType"); x != nil {
				e := &expecter{p: p, fi: c.Base.F, f: &p.Files[c.Base.F]}
				flat(p, c.Base.F, e.complexDecl(x.CT), depth+1, x.CT, out)
			}
		}
	}
}

// usable tells whether encoding/xml can use the structure of a type: it
// refuses two fields of one name in embedded structures of the same depth, and
// hides one of them at different depths. Types with required attributes that
// cannot be represented are left out as well.
func usable(p *Project, fi int, c *CType) bool {
	e := &expecter{p: p, fi: fi, f: &p.Files[fi]}
	var ms []flatMember
	flat(p, fi, e.complexDecl(c), 0, c, &ms)
	seen := map[flatMember]bool{}
	for _, m := range ms {
		if m.odd {
			return false
		}
		m.depth = 0
		if seen[m] {
			return false
		}
		seen[m] = true
	}
	return true
}

// fill draws the content of an element of a complex type.
func (g *docgen) fill(n *DocNode, fi int, c *CType, depth int) {
	plural := map[string]bool{}
	g.content(n, fi, c, depth, plural)
	// a member that is no list holds one element
	count := map[string]int{}
	var keep []*DocNode
	for _, k := range n.K {
		count[k.N]++
		if count[k.N] == 1 || plural[k.N] {
			keep = append(keep, k)
		}
	}
	n.K = keep
}

func (g *docgen) content(n *DocNode, fi int, c *CType, depth int, plural map[string]bool) {
	if c.Base != nil && c.Deriv != "crestr" {
		t := ResolveType(g.p, *c.Base)
		if t.DK == "complex" {
			if b := g.p.Lookup(*c.Base, "complexType"); b != nil {
				g.content(n, c.Base.F, b.CT, depth, plural)
			}
		} else if n.B = textType(t); n.B != "" {
			n.T = g.value(n.B)
		}
	}
	g.attrs(n, fi, c.Attrs, 0)
	e := &expecter{p: g.p, fi: fi, f: &g.p.Files[fi]}
	var groups, elems []XMember
	e.particles(c.P, false, &groups, &elems)
	for _, m := range elems {
		plural[m.Name] = m.Plural
	}
	pl := map[string]bool{}
	for _, m := range groups {
		pl[m.Name] = m.Plural
	}
	g.particle(n, fi, c.P, depth, plural, pl)
}

func (g *docgen) attrs(n *DocNode, fi int, items []AttrItem, depth int) {
	if depth > 8 {
		return
	}
	e := &expecter{p: g.p, fi: fi, f: &g.p.Files[fi]}
	for _, it := range items {
		if it.G != nil {
			if x := g.p.Lookup(*it.G, "attributeGroup"); x != nil {
				g.attrs(n, it.G.F, x.AG.Attrs, depth+1)
			}
			continue
		}
		a := it.A
		x := e.attrType(a)
		b := textType(x)
		if b == "" || a.Use == "prohibited" || a.Use != "required" && chance(g.t, "noattr", 35) {
			continue
		}
		da := DocAttr{N: a.Name, B: b, O: a.Use != "required"}
		if a.Ref != nil {
			da.N, da.G = a.Ref.N, a.Ref.F+1
			if a.Ref.B != "" {
				da.N, da.G = localPart(a.Ref.B), -1
			}
		}
		da.V = g.value(b)
		n.A = append(n.A, da)
	}
}

func (g *docgen) times(p *Particle) int {
	lo, hi := 1, 1
	if p.Min == "0" {
		lo = 0
	}
	if maxPlural(p.Max) {
		hi = 4
		if p.Min == "2" {
			lo = 2
		}
		if k, err := strconv.Atoi(p.Max); err == nil && k < hi {
			hi = k
		}
	}
	if p.Max == "0" {
		hi = 0
	}
	return num(g.t, "times", lo, hi)
}

func (g *docgen) particle(n *DocNode, fi int, p *Particle, depth int, plural, gpl map[string]bool) {
	if p == nil || g.left <= 0 {
		return
	}
	switch p.K {
	case "any":
		return
	case "seq", "all":
		for k := g.times(p); k > 0; k-- {
			items := p.Items
			if p.K == "all" && len(items) > 1 && chance(g.t, "allorder", 50) {
				items = append([]*Particle{}, items...)
				for i := range items {
					j := num(g.t, "allswap", 0, i)
					items[i], items[j] = items[j], items[i]
				}
			}
			for _, it := range items {
				g.particle(n, fi, it, depth, plural, gpl)
			}
		}
	case "choice":
		if len(p.Items) == 0 {
			return
		}
		for k := g.times(p); k > 0; k-- {
			g.particle(n, fi, pick(g.t, "alt", p.Items), depth, plural, gpl)
		}
	case "group":
		x := g.p.Lookup(*p.Ref, "group")
		if x == nil || gpl[p.Ref.N] {
			return
		}
		if p.Min == "0" && chance(g.t, "nogroup", 40) {
			return
		}
		e := &expecter{p: g.p, fi: p.Ref.F, f: &g.p.Files[p.Ref.F]}
		var groups, elems []XMember
		e.particles(x.Gr.P, false, &groups, &elems)
		for _, m := range elems {
			if _, ok := plural[m.Name]; !ok {
				plural[m.Name] = m.Plural
			}
		}
		pl := map[string]bool{}
		for _, m := range groups {
			pl[m.Name] = m.Plural
		}
		g.particle(n, p.Ref.F, x.Gr.P, depth, plural, pl)
	case "elem":
		for k := g.times(p); k > 0; k-- {
			if c := g.element(fi, p, depth+1); c != nil {
				n.K = append(n.K, c)
			}
		}
	}
}

// element draws one element, nil if it cannot be represented.
func (g *docgen) element(fi int, p *Particle, depth int) *DocNode {
	g.left--
	n := &DocNode{N: p.Name, G: fi + 1}
	if p.Ref != nil {
		n.N, n.G = p.Ref.N, p.Ref.F+1
		x := g.p.Lookup(*p.Ref, "element")
		if x == nil {
			return nil
		}
		fi, p = p.Ref.F, x.El
	}
	e := &expecter{p: g.p, fi: fi, f: &g.p.Files[fi]}
	x := e.elemType(p)
	if x.DK == "complex" {
		c := p.CT
		if c == nil {
			// follow restrictions of the reference to the complex type
			d := g.p.Lookup(*p.Type, "complexType")
			if d == nil {
				return nil
			}
			c, fi = d.CT, p.Type.F
		}
		if depth >= g.max || !usable(g.p, fi, c) {
			return nil
		}
		g.fill(n, fi, c, depth)
		return n
	}
	if n.B = textType(x); n.B == "" {
		return nil
	}
	n.T = g.value(n.B)
	return n
}

func genDocs(t *rapid.T, tier string) interface{} {
	cfg := baseCfg()
	full(&cfg, tier)
	cfg.NiceTypes, cfg.Fixed, cfg.Clash = true, false, 0
	cfg.MaxFiles = 3
	cfg.Docs = 5
	c := DocCase{P: GenProject(t, cfg)}
	type root struct {
		fi   int
		comp *Comp
	}
	var roots []root
	for i := range c.P.Files {
		for k := range c.P.Files[i].Comps {
			x := &c.P.Files[i].Comps[k]
			if x.El != nil || x.CT != nil {
				roots = append(roots, root{i, x})
			}
		}
	}
	if len(roots) == 0 {
		return c
	}
	for i := num(t, "ndocs", 1, 4); i > 0; i-- {
		g := &docgen{t: t, p: c.P, max: num(t, "depth", 2, 5), left: 60}
		r := pick(t, "root", roots)
		var n *DocNode
		if r.comp.El != nil {
			n = g.element(r.fi, &Particle{K: "elem", Ref: &Ref{F: r.fi, N: r.comp.El.Name}}, 0)
		} else if usable(c.P, r.fi, r.comp.CT) {
			n = &DocNode{N: r.comp.CT.Name, G: r.fi + 1}
			g.fill(n, r.fi, r.comp.CT, 0)
		}
		if n == nil {
			continue
		}
		c.Docs = append(c.Docs, Doc{Ident: r.comp.Name(), Root: n, Indent: chance(t, "dindent", 40), Cmts: chance(t, "dcmts", 20), CData: chance(t, "dcdata", 20), Qual: chance(t, "dqual", 30)})
	}
	return c
}

// renderDoc writes a document.
func renderDoc(p *Project, d *Doc) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	ns := map[string]string{}
	name := func(n string, g int) string {
		if g < 0 {
			return "xml:" + n
		}
		if g > 0 {
			if u := p.EffNS(g - 1); u != "" {
				return ns[u] + n
			}
		}
		return n
	}
	var decls string
	for i := range p.Files {
		u := p.EffNS(i)
		if u == "" || ns[u] != "" {
			continue
		}
		ns[u] = fmt.Sprintf("n%d:", i)
		decls += fmt.Sprintf(" xmlns:n%d=\"%s\"", i, escAttr(u, "\""))
	}
	if d.Qual && d.Root.G > 0 {
		if u := p.EffNS(d.Root.G - 1); u != "" {
			decls += fmt.Sprintf(" xmlns=\"%s\"", escAttr(u, "\""))
		}
	}
	text := func(s string) string {
		if d.CData && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
		s = strings.ReplaceAll(escText(s), "\r", "&#13;")
		return strings.ReplaceAll(s, "]]>", "]]&gt;")
	}
	var node func(n *DocNode, lvl int)
	node = func(n *DocNode, lvl int) {
		q := name(n.N, n.G)
		b.WriteString("<" + q)
		if lvl == 0 {
			b.WriteString(decls)
		}
		for _, a := range n.A {
			v := strings.NewReplacer("\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(escAttr(a.V, "\""))
			fmt.Fprintf(&b, " %s=\"%s\"", name(a.N, a.G), v)
		}
		b.WriteString(">")
		if d.Cmts {
			b.WriteString("<!-- c -->")
		}
		if n.B != "" {
			s := n.T
			if d.Cmts && len(s) > 1 && s[1] < 0x80 && s[0] < 0x80 && !strings.Contains(s, "]]>") {
				b.WriteString(text(s[:1]) + "<!-- in the text -->" + text(s[1:]))
			} else {
				b.WriteString(text(s))
			}
		}
		for _, k := range n.K {
			if d.Indent {
				b.WriteString("\n" + strings.Repeat("  ", lvl+1))
			}
			node(k, lvl+1)
		}
		if d.Indent && len(n.K) > 0 {
			b.WriteString("\n" + strings.Repeat("  ", lvl))
		}
		b.WriteString("</" + q + ">")
	}
	node(d.Root, 0)
	return b.String()
}

// parseDoc reads a document into nodes without datatypes.
func parseDoc(src string) (*DocNode, error) {
	dec := xml.NewDecoder(strings.NewReader(src))
	var stack []*DocNode
	var root *DocNode
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &DocNode{N: x.Name.Local}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				da := DocAttr{N: a.Name.Local, V: a.Value}
				if a.Name.Space == "http://www.w3.org/XML/1998/namespace" {
					da.G = -1
				}
				n.A = append(n.A, da)
			}
			if len(stack) > 0 {
				s := stack[len(stack)-1]
				s.K = append(s.K, n)
			} else if root == nil {
				root = n
			} else {
				return nil, fmt.Errorf("two root elements")
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].T += string(x)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

// zeroText tells whether a text is empty or a zero value.
func zeroText(s string) bool {
	s = strings.TrimSpace(s)
	return s == "" || s == "0" || s == "false"
}

func zeroNode(n *DocNode) bool {
	if !zeroText(n.T) {
		return false
	}
	for _, a := range n.A {
		if !zeroText(a.V) {
			return false
		}
	}
	for _, k := range n.K {
		if !zeroNode(k) {
			return false
		}
	}
	return true
}

func sameValue(b, want, got string) bool {
	if _, ok := xsdInts[b]; ok {
		x, ok1 := new(big.Int).SetString(strings.TrimPrefix(strings.TrimSpace(want), "+"), 10)
		y, ok2 := new(big.Int).SetString(strings.TrimPrefix(strings.TrimSpace(got), "+"), 10)
		return ok1 && ok2 && x.Cmp(y) == 0
	}
	switch b {
	case "boolean":
		t := map[string]bool{"true": true, "1": true}
		f := map[string]bool{"false": true, "0": true}
		return t[want] && t[got] || f[want] && f[got]
	case "float", "double", "decimal":
		bits := 64
		if b == "float" {
			bits = 32
		}
		x, e1 := strconv.ParseFloat(want, bits)
		y, e2 := strconv.ParseFloat(got, bits)
		return e1 == nil && e2 == nil && x == y
	}
	return want == got
}

func cmpDoc(path string, want, got *DocNode, out *[]string) {
	path += "/" + want.N
	if want.N != got.N {
		*out = append(*out, fmt.Sprintf("%s: element %q", path, got.N))
		return
	}
	used := map[int]bool{}
	for _, a := range want.A {
		found := false
		for i, b := range got.A {
			if b.N == a.N && !used[i] && (a.G == -1) == (b.G == -1) {
				used[i], found = true, true
				if !sameValue(a.B, a.V, b.V) {
					*out = append(*out, fmt.Sprintf("%s/@%s: %q, want %q", path, a.N, b.V, a.V))
				}
				break
			}
		}
		if !found && !(a.O && (zeroText(a.V) || zeroNumber(a.B, a.V))) {
			*out = append(*out, fmt.Sprintf("%s/@%s=%q is lost", path, a.N, a.V))
		}
	}
	for i, b := range got.A {
		if !used[i] && !zeroText(b.V) {
			*out = append(*out, fmt.Sprintf("%s/@%s=%q was not there", path, b.N, b.V))
		}
	}
	if want.B != "" {
		if !sameValue(want.B, want.T, got.T) {
			*out = append(*out, fmt.Sprintf("%s: text %q, want %q", path, got.T, want.T))
		}
	} else if strings.TrimSpace(got.T) != "" && !zeroText(got.T) {
		*out = append(*out, fmt.Sprintf("%s: text %q was not there", path, got.T))
	}
	byName := func(n *DocNode) map[string][]*DocNode {
		m := map[string][]*DocNode{}
		for _, k := range n.K {
			m[k.N] = append(m[k.N], k)
		}
		return m
	}
	w, g := byName(want), byName(got)
	for _, n := range sortedKeys(w) {
		if len(w[n]) != len(g[n]) {
			*out = append(*out, fmt.Sprintf("%s/%s occurs %d times, want %d", path, n, len(g[n]), len(w[n])))
			continue
		}
		for i := range w[n] {
			cmpDoc(path, w[n][i], g[n][i], out)
		}
	}
	for _, n := range sortedKeys(g) {
		if len(w[n]) > 0 {
			continue
		}
		for _, k := range g[n] {
			if !zeroNode(k) {
				*out = append(*out, fmt.Sprintf("%s/%s was not there", path, n))
				break
			}
		}
	}
}

func zeroNumber(b, v string) bool {
	return b != "" && !goString(b) && b != "list" && sameValue(b, v, "0")
}

func docDepth(n *DocNode) int {
	d := 0
	for _, k := range n.K {
		if x := docDepth(k); x > d {
			d = x
		}
	}
	return d + 1
}

// RTCall asks a worker to decode documents into the generated types and to
// encode them again.
type RTCall struct {
	Srcs map[string]string `json:"srcs"`
	Docs []RTDoc           `json:"docs"`
}

// RTDoc is one of the documents.
type RTDoc struct {
	Type  string `json:"type"` // identifier of the type
	Name  string `json:"name"` // name of the root element
	Depth int    `json:"depth"`
	Src   string `json:"src"`
}

// RTRes is what came of one of them.
type RTRes struct {
	Out string `json:"out,omitempty"`
	Err string `json:"err,omitempty"`
	Big bool   `json:"big,omitempty"` // the unrolled types would be too large
}

// structLoader builds the types of parsed Go declarations.
type structLoader struct {
	decls map[string]ast.Expr
	memo  map[string]reflect.Type
	sizes map[string]int
}

const maxUnrolled = 20000

// size counts the structures which typ unrolls an expression to: recursive
// types grow exponentially with the depth.
func (l *structLoader) size(x ast.Expr, depth int) int {
	switch e := x.(type) {
	case *ast.Ident:
		d, ok := l.decls[e.Name]
		if !ok {
			return 1
		}
		k := fmt.Sprintf("%s/%d", e.Name, depth)
		if n, ok := l.sizes[k]; ok {
			return n
		}
		l.sizes[k] = 1
		n := l.size(d, depth)
		l.sizes[k] = n
		return n
	case *ast.StarExpr:
		return l.size(e.X, depth)
	case *ast.ArrayType:
		return l.size(e.Elt, depth)
	case *ast.StructType:
		n := 1
		if depth <= 0 {
			return n
		}
		for _, f := range e.Fields.List {
			if len(f.Names) == 0 {
				n += l.size(f.Type, depth)
			}
			for range f.Names {
				n += l.size(f.Type, depth-1)
			}
			if n > maxUnrolled {
				return maxUnrolled + 1
			}
		}
		return n
	}
	return 1
}

var goBasic = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "byte": reflect.TypeOf(byte(0)),
	"uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"any": reflect.TypeOf((*interface{})(nil)).Elem(), "rune": reflect.TypeOf(rune(0)), "complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
}

// typ builds the type of an expression; structures more than depth elements
// away are left empty, which breaks the cycles of recursive types.
func (l *structLoader) typ(x ast.Expr, depth int) reflect.Type {
	switch e := x.(type) {
	case *ast.Ident:
		if d, ok := l.decls[e.Name]; ok {
			k := fmt.Sprintf("%s/%d", e.Name, depth)
			if t := l.memo[k]; t != nil {
				return t
			}
			t := l.typ(d, depth)
			l.memo[k] = t
			return t
		}
		if t, ok := goBasic[e.Name]; ok {
			return t
		}
		panic("undeclared type " + e.Name)
	case *ast.StarExpr:
		return reflect.PointerTo(l.typ(e.X, depth))
	case *ast.ArrayType:
		return reflect.SliceOf(l.typ(e.Elt, depth))
	case *ast.InterfaceType:
		return goBasic["any"]
	case *ast.SelectorExpr:
		if p, ok := e.X.(*ast.Ident); ok && p.Name == "xml" && e.Sel.Name == "Name" {
			return reflect.TypeOf(xml.Name{})
		}
		panic(fmt.Sprintf("unexpected type %v.%s", e.X, e.Sel.Name))
	case *ast.StructType:
		if depth <= 0 {
			return reflect.TypeOf(struct{}{})
		}
		var fs []reflect.StructField
		for _, f := range e.Fields.List {
			sf := reflect.StructField{}
			if f.Tag != nil {
				s, err := strconv.Unquote(f.Tag.Value)
				if err != nil {
					panic(err)
				}
				sf.Tag = reflect.StructTag(s)
			}
			if len(f.Names) == 0 {
				sf.Anonymous = true
				id := f.Type
				if st, ok := id.(*ast.StarExpr); ok {
					id = st.X
				}
				sf.Name = id.(*ast.Ident).Name
				// what is embedded belongs to the same element
				sf.Type = l.typ(f.Type, depth)
				fs = append(fs, sf)
				continue
			}
			for _, n := range f.Names {
				g := sf
				g.Name = n.Name
				g.Type = l.typ(f.Type, depth-1)
				if !exported(g.Name) {
					// invisible to encoding/xml
					g.PkgPath = "schema"
				}
				fs = append(fs, g)
			}
		}
		return reflect.StructOf(fs)
	}
	panic(fmt.Sprintf("unexpected type expression %T", x))
}

func exported(s string) bool {
	for _, r := range s {
		return unicode.IsUpper(r)
	}
	return false
}

func doRT(c *RTCall) []RTRes {
	out := make([]RTRes, len(c.Docs))
	l := &structLoader{decls: map[string]ast.Expr{}, memo: map[string]reflect.Type{}, sizes: map[string]int{}}
	fset := token.NewFileSet()
	idents := map[string]string{}
	for _, n := range sortedKeys(c.Srcs) {
		f, err := parser.ParseFile(fset, n, c.Srcs[n], 0)
		if err != nil {
			for i := range out {
				out[i].Err = err.Error()
			}
			return out
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
				for _, s := range gd.Specs {
					ts := s.(*ast.TypeSpec)
					l.decls[ts.Name.Name] = ts.Type
					idents[goIdent(ts.Name.Name)] = ts.Name.Name
				}
			}
		}
	}
	for i, d := range c.Docs {
		out[i] = l.roundTrip(d, idents)
	}
	return out
}

func (l *structLoader) roundTrip(d RTDoc, idents map[string]string) (r RTRes) {
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprint(e)
		}
	}()
	id, ok := idents[d.Type]
	if !ok {
		r.Err = "no type is declared for " + d.Name
		return
	}
	if l.size(&ast.Ident{Name: id}, d.Depth) > maxUnrolled {
		r.Big = true
		return
	}
	v := reflect.New(l.typ(&ast.Ident{Name: id}, d.Depth))
	if err := xml.Unmarshal([]byte(d.Src), v.Interface()); err != nil {
		r.Err = "decoding: " + err.Error()
		return
	}
	var b bytes.Buffer
	enc := xml.NewEncoder(&b)
	// a root type which fixes the name of the element keeps it; the others
	// are given the one of the document, as a caller would
	e := v
	for e.Kind() == reflect.Pointer && !e.IsNil() {
		e = e.Elem()
	}
	var err error
	if e.Kind() == reflect.Struct && e.FieldByName("XMLName").IsValid() && !embedsXMLName(e.Type()) {
		err = enc.Encode(v.Interface())
	} else {
		err = enc.EncodeElement(v.Interface(), xml.StartElement{Name: xml.Name{Local: d.Name}})
	}
	if err != nil {
		r.Err = "encoding: " + err.Error()
		return
	}
	r.Out = b.String()
	return
}

func embedsXMLName(t reflect.Type) bool {
	f, ok := t.FieldByName("XMLName")
	return ok && len(f.Index) > 1
}

func evalDocs19(e *Env, raw json.RawMessage) Verdict {
	var c DocCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	nodes := 0
	var count func(n *DocNode)
	v := Verdict{}
	lab := map[string]bool{}
	count = func(n *DocNode) {
		nodes++
		if len(n.A) > 0 {
			lab["attributes"] = true
		}
		if n.B != "" && len(n.A) > 0 {
			lab["text with attributes"] = true
		}
		names := map[string]int{}
		for _, k := range n.K {
			names[k.N]++
			if names[k.N] > 1 {
				lab["repeated elements"] = true
			}
			count(k)
		}
	}
	for i := range c.Docs {
		count(c.Docs[i].Root)
		lab[fmt.Sprintf("depth %d", docDepth(c.Docs[i].Root))] = true
	}
	v.NonTrivial = nodes > 1
	v.Labels = append(sortedKeys(lab), fmt.Sprintf("%d documents", len(c.Docs)))
	if len(c.Docs) == 0 {
		return v
	}
	outs, probs, infra := e.outsOf(c.P, []string{"Go"})
	if infra != "" {
		return Verdict{Infra: infra}
	}
	if len(probs) > 0 {
		v.Problems = probs
		return v
	}
	call := &RTCall{Srcs: outs[0]}
	for i := range c.Docs {
		d := &c.Docs[i]
		call.Docs = append(call.Docs, RTDoc{Type: goIdent(d.Ident), Name: d.Root.N, Depth: docDepth(d.Root) + 1, Src: renderDoc(c.P, d)})
	}
	res := e.W.Do(&Job{RT: call})
	if res.Infra != "" {
		return Verdict{Infra: res.Infra}
	}
	if res.Died != "" || res.Hung {
		v.Problems = append(v.Problems, Problem{Cat: "crash", Lang: "Go", Msg: fmt.Sprintf("hung=%v %s", res.Hung, trunc(res.Died, 1000))})
		return v
	}
	if e.Tier == "thorough" && hash64(string(raw))%400 == 0 && len(res.RT) == len(call.Docs) {
		real, infra := compiledRT(call)
		if infra != "" {
			return Verdict{Infra: infra}
		}
		v.Labels = append(v.Labels, "also compiled")
		for i := range real {
			if res.RT[i].Big {
				continue
			}
			if real[i].Out != res.RT[i].Out || (real[i].Err == "") != (res.RT[i].Err == "") {
				v.Problems = append(v.Problems, Problem{"compiled", "Go", c.Docs[i].Ident, fmt.Sprintf("the compiled types give %q %s, the reflected ones %q %s for %s", real[i].Out, real[i].Err, res.RT[i].Out, res.RT[i].Err, call.Docs[i].Src)})
			}
		}
	}
	for i, r := range res.RT {
		d := &c.Docs[i]
		where := d.Ident
		if r.Big {
			v.Labels = append(v.Labels, "too large to unroll")
			continue
		}
		if r.Err != "" {
			v.Problems = append(v.Problems, Problem{"decode", "Go", where, r.Err + " in " + trunc(call.Docs[i].Src, 2000)})
			continue
		}
		got, err := parseDoc(r.Out)
		if err != nil {
			v.Problems = append(v.Problems, Problem{"encode", "Go", where, err.Error() + " in " + trunc(r.Out, 2000)})
			continue
		}
		var diffs []string
		cmpDoc("", d.Root, got, &diffs)
		for _, s := range diffs {
			v.Problems = append(v.Problems, Problem{"content", "Go", where, s + "\n    document: " + trunc(call.Docs[i].Src, 1500) + "\n    encoded:  " + trunc(r.Out, 1500)})
		}
	}
	return v
}

var packageClause = regexp.MustCompile(`(?m)^package \w+`)

// compiledRT does what doRT does with the types really compiled.
func compiledRT(c *RTCall) (out []RTRes, infra string) {
	dir, err := os.MkdirTemp(scratchDir(), "rt")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	idents := map[string]string{}
	for i, n := range sortedKeys(c.Srcs) {
		f, err := parser.ParseFile(token.NewFileSet(), n, c.Srcs[n], 0)
		if err != nil {
			return nil, ""
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				return nil, ""
			}
			for _, s := range gd.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok {
					idents[goIdent(ts.Name.Name)] = ts.Name.Name
				}
			}
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("s%d.go", i)), []byte(packageClause.ReplaceAllString(c.Srcs[n], "package main")), 0o644)
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\tx_bytes \"bytes\"\n\tx_json \"encoding/json\"\n\tx_xml \"encoding/xml\"\n\tx_os \"os\"\n\tx_reflect \"reflect\"\n)\n\n")
	b.WriteString(`type x_res struct{ Out, Err string }

func x_rt(v interface{}, name, src string) (r x_res) {
	defer func() {
		if e := recover(); e != nil {
			r.Err = "panic"
		}
	}()
	if err := x_xml.Unmarshal([]byte(src), v); err != nil {
		r.Err = err.Error()
		return
	}
	var b x_bytes.Buffer
	enc := x_xml.NewEncoder(&b)
	e := x_reflect.ValueOf(v)
	for e.Kind() == x_reflect.Pointer && !e.IsNil() {
		e = e.Elem()
	}
	var err error
	own := false
	if e.Kind() == x_reflect.Struct {
		f, ok := e.Type().FieldByName("XMLName")
		own = ok && len(f.Index) == 1
	}
	if own {
		err = enc.Encode(v)
	} else {
		err = enc.EncodeElement(v, x_xml.StartElement{Name: x_xml.Name{Local: name}})
	}
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.Out = b.String()
	return
}

func main() {
	var out []x_res
`)
	for _, d := range c.Docs {
		id := idents[d.Type]
		if id == "" {
			return nil, ""
		}
		fmt.Fprintf(&b, "\tout = append(out, x_rt(new(%s), %q, %q))\n", id, d.Name, d.Src)
	}
	b.WriteString("\tx_json.NewEncoder(x_os.Stdout).Encode(out)\n}\n")
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(b.String()), 0o644)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module rt\n\ngo 1.20\n"), 0o644)
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off")
	o, err := cmd.Output()
	if err != nil {
		return []RTRes{{Err: "does not compile: " + trunc(eb.String(), 2000)}}, ""
	}
	if err := json.Unmarshal(o, &out); err != nil {
		return nil, err.Error()
	}
	return out, ""
}

func init() {
	register(&Prop{ID: "C19", Quick: 40000, Thorough: 400000,
		Rule:   "a random schema project (type names that are their own identifiers) and 1-4 random documents of its global elements and types: every content model is followed (repetition, choice, all in any order, groups, extension, attribute groups, references), with values of each datatype; the generated Go source is parsed, its types built by reflection, the documents decoded and encoded with encoding/xml and compared; non-trivial: some document has more than one element",
		Assume: []string{"the types are built from the parsed source by reflection (recursion unrolled to the depth of the document), not compiled"},
		Gen:    genDocs, Eval: evalDocs19})
}
