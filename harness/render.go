package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
)

const xsdNS = "http://www.w3.org/2001/XMLSchema"

var encodings = map[string]encoding.Encoding{
	"iso-8859-1":   charmap.ISO8859_1,
	"ISO-8859-15":  charmap.ISO8859_15,
	"windows-1252": charmap.Windows1252,
	"windows-1251": charmap.Windows1251,
	"koi8-r":       charmap.KOI8R,
	"Shift_JIS":    japanese.ShiftJIS,
	"gb18030":      simplifiedchinese.GB18030,
}

// encodeAs encodes UTF-8 text, reporting false when the target character set
// cannot represent it.
func encodeAs(text, enc string) ([]byte, bool) {
	if enc == "" || strings.EqualFold(enc, "utf-8") {
		return []byte(text), true
	}
	e, ok := encodings[enc]
	if !ok {
		return nil, false
	}
	for _, r := range text {
		if r >= 0x80 && r < 0xa0 {
			return nil, false // bytes which web-compatible decoders read otherwise
		}
	}
	out, err := e.NewEncoder().Bytes([]byte(text))
	if err != nil {
		return nil, false
	}
	// must survive the round trip
	back, err := e.NewDecoder().Bytes(out)
	if err != nil || string(back) != text {
		return nil, false
	}
	return out, true
}

type attrKV struct{ k, v string }

type renderer struct {
	p   *Project
	fi  int
	f   *File
	st  Style
	b   strings.Builder
	ind int
	n   int // element counter, drives permutations and comment placement
}

// RenderAll renders every file of the project.
func RenderAll(p *Project) map[string][]byte {
	out := map[string][]byte{}
	for i := range p.Files {
		out[p.Files[i].Path] = RenderFile(p, i)
	}
	return out
}

// RenderFile renders one schema document.
func RenderFile(p *Project, fi int) []byte {
	r := &renderer{p: p, fi: fi, f: &p.Files[fi], st: p.Files[fi].Style}
	r.document()
	text := r.b.String()
	if r.st.CRLF {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	enc, ok := encodeAs(text, r.st.Encoding)
	if !ok {
		// not representable: fall back to UTF-8 with a matching declaration
		text = strings.Replace(text, `encoding="`+r.st.Encoding+`"`, `encoding="UTF-8"`, 1)
		text = strings.Replace(text, `encoding='`+r.st.Encoding+`'`, `encoding='UTF-8'`, 1)
		enc = []byte(text)
	}
	if r.st.BOM && (r.st.Encoding == "" || !ok || strings.EqualFold(r.st.Encoding, "utf-8")) {
		enc = append([]byte("\xef\xbb\xbf"), enc...)
	}
	return enc
}

func (r *renderer) q(local string) string {
	if r.st.XS == "" {
		return local
	}
	return r.st.XS + ":" + local
}

// qref writes a QName reference.
func (r *renderer) qref(ref Ref) string {
	if ref.B != "" {
		if strings.HasPrefix(ref.B, "xml:") {
			return ref.B
		}
		return r.q(ref.B)
	}
	px := r.prefixFor(ref.F)
	if px == "" {
		return ref.N
	}
	return px + ":" + ref.N
}

func (r *renderer) prefixFor(file int) string {
	ns := r.p.EffNS(file)
	if file == r.fi || ns == r.p.EffNS(r.fi) {
		if r.f.TNS == "" {
			return ""
		}
		return r.st.T
	}
	for _, l := range r.f.Links {
		if l.K == "import" && (l.To == file || r.p.EffNS(l.To) == ns) {
			return l.Prefix
		}
	}
	return "unbound"
}

func (r *renderer) nl() {
	switch r.st.Indent {
	case 0:
		r.b.WriteString("\n" + strings.Repeat("  ", r.ind))
	case 1:
		r.b.WriteString("\n" + strings.Repeat("\t", r.ind))
	case 2: // everything on one line
	default:
		r.b.WriteString("\n\n \n")
	}
}

func (r *renderer) attrs(kv []attrKV) {
	n := len(kv)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	switch r.st.AttrPerm % 4 {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	case 2:
		if n > 1 {
			k := (r.st.AttrPerm/4 + r.n) % n
			order = append(order[k:], order[:k]...)
		}
	case 3:
		if n > 1 {
			k := (r.st.AttrPerm/4 + r.n) % n
			for i := range order {
				order[i] = (k + (n-1)*i) % n
			}
		}
	}
	for _, i := range order {
		quote := `"`
		if r.st.SQuote {
			quote = `'`
		}
		sep := " "
		if r.st.Indent == 3 && i%2 == 1 {
			sep = "\n   "
		}
		eq := "="
		if r.st.Indent == 3 {
			eq = " = "
		}
		val := kv[i].v
		if r.st.Pad {
			switch kv[i].k {
			case "name", "type", "ref", "base", "itemType", "use", "minOccurs", "maxOccurs", "mixed", "abstract", "nillable", "substitutionGroup", "namespace", "schemaLocation":
				val = []string{" ", "\n\t", ""}[r.n%3] + val + []string{"  ", "\n"}[r.n%2]
			case "memberTypes":
				val = "\t" + strings.ReplaceAll(val, " ", " \n ") + " "
			}
		}
		v := escAttr(val, quote)
		if r.st.Pad && r.n%2 == 0 {
			v = strings.NewReplacer("&#10;", "\n", "&#9;", "\t").Replace(v)
		}
		if r.st.CharRef && !r.st.Pad && len(kv[i].v) > 0 && kv[i].v[0] < 0x80 && kv[i].v[0] > ' ' {
			v = fmt.Sprintf("&#%d;", kv[i].v[0]) + escAttr(kv[i].v[1:], quote)
		}
		r.b.WriteString(sep + kv[i].k + eq + quote + v + quote)
	}
}

func escAttr(s, quote string) string {
	var b strings.Builder
	for _, c := range s {
		switch c {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '"':
			if quote == `"` {
				b.WriteString("&quot;")
			} else {
				b.WriteRune(c)
			}
		case '\'':
			if quote == `'` {
				b.WriteString("&apos;")
			} else {
				b.WriteRune(c)
			}
		case '\n', '\r', '\t':
			fmt.Fprintf(&b, "&#%d;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func escText(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch c {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '\r':
			b.WriteString("&#13;")
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (r *renderer) noise() {
	r.n++
	if r.st.Comments && r.n%3 == 0 {
		r.nl()
		r.b.WriteString(`<!-- <element name="ghost" type="string"/> & "quoted" text -->`)
	}
	if r.st.PI && r.n%4 == 0 {
		r.nl()
		r.b.WriteString(`<?tool option="x" <element?>`)
	}
}

// el writes an element with a body.
func (r *renderer) el(local string, kv []attrKV, body func()) {
	r.noise()
	r.nl()
	if r.st.IDs && local != "schema" {
		kv = append(kv, attrKV{"id", fmt.Sprintf("id%d", r.n)})
	}
	if r.st.Foreign && local != "schema" {
		kv = append(kv, attrKV{"fx:note", "n" + fmt.Sprint(r.n)})
	}
	if r.st.Forms {
		named := false
		for _, a := range kv {
			named = named || a.k == "name"
		}
		switch {
		case named && r.ind > 1 && (local == "element" || local == "attribute"):
			kv = append(kv, attrKV{"form", map[string]string{"element": "qualified", "attribute": "unqualified"}[local]})
		case named && local == "complexType":
			kv = append(kv, attrKV{"block", "#all"}, attrKV{"final", ""})
		case named && local == "simpleType":
			kv = append(kv, attrKV{"final", ""})
		case named && local == "element":
			kv = append(kv, attrKV{"block", "substitution"}, attrKV{"final", "extension"})
		}
	}
	if local != "schema" {
		if r.st.LocalNS != 0 && r.ind == 1 && r.f.TNS != "" {
			kv = append(kv, r.targetNS())
		}
		switch {
		case r.st.LocalNS == 1 && r.ind == 1:
			kv = append(kv, r.importNS("")...)
		case r.st.LocalNS == 2:
			for _, a := range kv {
				switch a.k {
				case "type", "ref", "base", "itemType", "substitutionGroup", "memberTypes":
					seen := map[string]bool{}
					for _, v := range strings.Fields(a.v) {
						if px, _, ok := strings.Cut(v, ":"); ok && !seen[px] {
							seen[px] = true
							kv = append(kv, r.importNS(px)...)
						}
					}
				}
			}
		}
	}
	r.b.WriteString("<" + r.q(local))
	r.attrs(kv)
	if r.st.Notes && r.n%2 == 0 && noteAt(local, kv) {
		inner, n := body, r.n
		body = func() {
			r.doc(fmt.Sprintf("ghost note %d of a %s", n, local))
			if inner != nil {
				inner()
			}
		}
	}
	if body == nil && !r.st.Expand {
		r.b.WriteString("/>")
		return
	}
	r.b.WriteString(">")
	if body != nil {
		r.ind++
		body()
		r.ind--
		r.nl()
	}
	r.b.WriteString("</" + r.q(local) + ">")
}

// targetNS is the declaration of the target namespace.
func (r *renderer) targetNS() attrKV {
	if r.st.T == "" {
		return attrKV{"xmlns", r.f.TNS}
	}
	return attrKV{"xmlns:" + r.st.T, r.f.TNS}
}

// importNS lists the declarations of the prefixes of imported namespaces, or of
// one of them.
func (r *renderer) importNS(px string) (kv []attrKV) {
	seen := map[string]bool{}
	for _, l := range r.f.Links {
		if l.K == "import" && l.Prefix != "" && !seen[l.Prefix] && (px == "" || px == l.Prefix) {
			seen[l.Prefix] = true
			kv = append(kv, attrKV{"xmlns:" + l.Prefix, r.p.Files[l.To].TNS})
		}
	}
	return
}

// noteAt tells whether a schema element is none whose documentation belongs to
// a declaration or a member, so that an annotation of it has no effect.
func noteAt(local string, kv []attrKV) bool {
	switch local {
	case "simpleType", "complexType", "element", "attribute", "annotation", "schema":
		return false
	case "group", "attributeGroup":
		for _, a := range kv {
			if a.k == "ref" {
				return true
			}
		}
		return false
	}
	return !facetNames[local]
}

var facetNames = map[string]bool{"enumeration": true, "pattern": true, "length": true, "minLength": true, "maxLength": true, "minInclusive": true, "maxInclusive": true,
	"minExclusive": true, "maxExclusive": true, "totalDigits": true, "fractionDigits": true, "whiteSpace": true} // have their own

func (r *renderer) doc(d string) {
	if d == "" {
		return
	}
	parts := []string{d}
	if r.st.DocSplit {
		parts = strings.Split(d, "\n")
	}
	r.el("annotation", nil, func() {
		for _, d := range parts {
			r.documentation(d)
		}
	})
}

func (r *renderer) documentation(d string) {
	func() {
		r.nl()
		if r.st.AppInfo && r.n%2 == 0 {
			r.b.WriteString("<" + r.q("appinfo") + `><meta xmlns="urn:meta"><element name="ghost" type="string"/><documentation>ghost text</documentation>` +
				`<a><b><c><d><e><simpleType name="ghost"/><complexType name="ghost"/><attribute name="ghost"/><documentation>ghost text</documentation></e></d></c></b></a></meta> stray text</` + r.q("appinfo") + ">")
			r.nl()
		}
		if r.st.DocAttrs {
			r.b.WriteString("<" + r.q("documentation") + ` xml:lang="en" source="http://example.org/doc">`)
		} else {
			r.b.WriteString("<" + r.q("documentation") + ">")
		}
		words := strings.SplitAfter(d, " ")
		if k := len(words) / 2; r.st.DocMark && k > 0 {
			// markup whose text is part of the documentation
			before, cut := strings.Join(words[:k-1], ""), ""
			if r.n%3 == 0 && strings.HasSuffix(before, " ") {
				// white space between two pieces of markup is text, too
				before, cut = strings.TrimSuffix(before, " "), []string{"<!-- a note --> <?pi element?>", "<!-- a note --> <!-- another -->"}[r.n/3%2]
			}
			r.b.WriteString(escText(before) + cut + `<b xmlns="http://www.w3.org/1999/xhtml" class="type">` + escText(words[k-1]) + "<i>" + escText(words[k]) + `</i></b><br xmlns="http://www.w3.org/1999/xhtml"/>` + escText(strings.Join(words[k+1:], "")))
		} else if r.st.CData && !strings.Contains(d, "]]>") && !strings.Contains(d, "\r") {
			r.b.WriteString("<![CDATA[" + d + "]]>")
		} else {
			r.b.WriteString(escText(d))
		}
		r.b.WriteString("</" + r.q("documentation") + ">")
	}()
}

func (r *renderer) document() {
	if !r.st.NoDecl || (r.st.Encoding != "" && !strings.EqualFold(r.st.Encoding, "utf-8")) {
		q := `"`
		if r.st.SQuote {
			q = `'`
		}
		r.b.WriteString("<?xml version=" + q + "1.0" + q)
		if r.st.Encoding != "" {
			r.b.WriteString(" encoding=" + q + r.st.Encoding + q)
		}
		r.b.WriteString("?>")
	}
	if r.st.Doctype {
		r.b.WriteString("\n<!DOCTYPE " + r.q("schema") + ` PUBLIC "-//W3C//DTD XMLSCHEMA 200102//EN" "XMLSchema.dtd" [
<!ENTITY unused "<element name='ghost'/>">
<!-- <element name="ghost"/> ]> -->
<!ATTLIST schema xmlns:ghost CDATA #FIXED "urn:ghost">
]>`)
	}
	kv := []attrKV{}
	if r.st.XS == "" {
		kv = append(kv, attrKV{"xmlns", xsdNS})
	} else {
		kv = append(kv, attrKV{"xmlns:" + r.st.XS, xsdNS})
	}
	if r.f.TNS != "" {
		kv = append(kv, attrKV{"targetNamespace", r.f.TNS})
		if r.st.LocalNS == 0 {
			kv = append(kv, r.targetNS())
		}
	}
	if r.st.LocalNS == 0 {
		kv = append(kv, r.importNS("")...)
	}
	if r.st.Foreign {
		kv = append(kv, attrKV{"xmlns:fx", "urn:foreign"})
	}
	kv = append(kv, attrKV{"elementFormDefault", "qualified"})
	if r.st.Forms {
		kv = append(kv, attrKV{"attributeFormDefault", "unqualified"}, attrKV{"version", "1.0"}, attrKV{"blockDefault", "extension restriction"}, attrKV{"finalDefault", ""}, attrKV{"xml:lang", "en"})
	}
	r.el("schema", kv, func() {
		if r.st.Remote {
			r.el("import", []attrKV{{"namespace", "urn:remote"}, {"schemaLocation", "http://schemas.invalid/remote.xsd"}}, nil)
			r.el("import", []attrKV{{"namespace", "http://www.w3.org/XML/1998/namespace"}}, nil)
			r.el("include", []attrKV{{"schemaLocation", "https://schemas.invalid/other/remote.xsd"}}, nil)
		}
		links := r.f.Links
		if r.st.DupLinks {
			links = append(append([]Link{}, links...), links...)
		}
		for _, l := range links {
			loc := relPath(r.f.Path, r.p.Files[l.To].Path)
			if r.st.LocDot {
				loc = "./" + loc
			}
			if l.K == "include" {
				r.el("include", []attrKV{{"schemaLocation", loc}}, nil)
				continue
			}
			kv := []attrKV{{"namespace", r.p.Files[l.To].TNS}, {"schemaLocation", loc}}
			if r.p.Files[l.To].TNS == "" {
				kv = kv[1:]
			} else if l.LocFst {
				kv[0], kv[1] = kv[1], kv[0]
			}
			r.el("import", kv, nil)
		}
		if r.st.Notation {
			r.el("notation", []attrKV{{"name", "ghostNotation"}, {"public", "image/x"}, {"system", "viewer.exe"}}, nil)
		}
		for i := range r.f.Comps {
			if r.st.Notes && i%3 == 0 {
				r.doc(fmt.Sprintf("ghost note %d of the schema", i))
			}
			if r.st.Bulk > 0 && i == len(r.f.Comps)/2 {
				r.bulk()
			}
			r.comp(&r.f.Comps[i])
		}
		if r.st.Notes {
			r.doc("ghost note at the end of the schema")
		}
	})
	if r.st.Indent != 2 {
		r.b.WriteString("\n")
	}
}

// bulk makes the document large: one comment, or many, or white space.
func (r *renderer) bulk() {
	n := r.st.Bulk * 64
	switch r.st.Bulk % 3 {
	case 0:
		r.b.WriteString("<!--" + strings.Repeat("bulk of 16 bytes", n) + "-->")
	case 1:
		r.b.WriteString(strings.Repeat("<!--12345678-->\n", n))
	default:
		r.b.WriteString(strings.Repeat("       \n", 2*n))
	}
}

func relPath(from, to string) string {
	fp := strings.Split(from, "/")
	tp := strings.Split(to, "/")
	fp = fp[:len(fp)-1]
	i := 0
	for i < len(fp) && i < len(tp)-1 && fp[i] == tp[i] {
		i++
	}
	out := strings.Repeat("../", len(fp)-i)
	return out + strings.Join(tp[i:], "/")
}

func (r *renderer) comp(c *Comp) {
	switch {
	case c.ST != nil:
		r.simple(c.ST)
	case c.CT != nil:
		r.complex(c.CT)
	case c.El != nil:
		r.particle(c.El)
	case c.At != nil:
		r.attr(c.At)
	case c.Gr != nil:
		r.el("group", []attrKV{{"name", c.Gr.Name}}, func() {
			r.doc(c.Gr.Doc)
			r.particle(c.Gr.P)
		})
	case c.AG != nil:
		var body func()
		if len(c.AG.Attrs) > 0 || c.AG.Doc != "" {
			body = func() {
				r.doc(c.AG.Doc)
				r.attrItems(c.AG.Attrs)
			}
		}
		r.el("attributeGroup", []attrKV{{"name", c.AG.Name}}, body)
	}
}

func (r *renderer) simple(s *SType) {
	var kv []attrKV
	if s.Name != "" {
		kv = append(kv, attrKV{"name", s.Name})
	}
	r.el("simpleType", kv, func() {
		r.doc(s.Doc)
		switch s.Var {
		case "restr":
			var kv []attrKV
			if s.Base != nil {
				kv = append(kv, attrKV{"base", r.qref(*s.Base)})
			}
			var body func()
			if s.Inline != nil || len(s.Facets) > 0 {
				body = func() {
					if s.Inline != nil {
						r.simple(s.Inline)
					}
					r.facets(s.Facets)
				}
			}
			r.el("restriction", kv, body)
		case "list":
			if s.Inline != nil {
				r.el("list", nil, func() { r.simple(s.Inline) })
			} else {
				r.el("list", []attrKV{{"itemType", r.qref(*s.Base)}}, nil)
			}
		case "union":
			var ms []string
			for _, m := range s.Members {
				ms = append(ms, r.qref(m))
			}
			var kv []attrKV
			if len(ms) > 0 {
				kv = append(kv, attrKV{"memberTypes", strings.Join(ms, " ")})
			}
			var body func()
			if len(s.Inl) > 0 {
				body = func() {
					for _, m := range s.Inl {
						r.simple(m)
					}
				}
			}
			r.el("union", kv, body)
		}
	})
}

func (r *renderer) facets(fs []Facet) {
	for _, f := range fs {
		f := f
		var body func()
		if f.Doc != "" {
			body = func() { r.doc(f.Doc) }
		}
		kv := []attrKV{{"value", f.V}}
		if f.Fix {
			kv = append(kv, attrKV{"fixed", "true"})
		}
		r.el(f.K, kv, body)
	}
}

func (r *renderer) complex(c *CType) {
	var kv []attrKV
	if c.Name != "" {
		kv = append(kv, attrKV{"name", c.Name})
	}
	if c.Mixed {
		kv = append(kv, attrKV{"mixed", "true"})
	}
	if c.Abs {
		kv = append(kv, attrKV{"abstract", "true"})
	}
	if c.Doc == "" && c.Deriv == "" && c.P == nil && len(c.Attrs) == 0 && !c.AnyAttr {
		r.el("complexType", kv, nil)
		return
	}
	inner := func() {
		if c.ST != nil {
			r.simple(c.ST)
		}
		r.facets(c.Facets)
		if c.P != nil {
			r.particle(c.P)
		}
		r.attrItems(c.Attrs)
		if c.AnyAttr {
			r.el("anyAttribute", []attrKV{{"namespace", "##other"}, {"processContents", "lax"}}, nil)
		}
	}
	hasInner := c.ST != nil || len(c.Facets) > 0 || c.P != nil || len(c.Attrs) > 0 || c.AnyAttr
	r.el("complexType", kv, func() {
		r.doc(c.Doc)
		if c.Deriv == "" {
			inner()
			return
		}
		cont, der := "complexContent", "extension"
		if c.Deriv == "sext" || c.Deriv == "srestr" {
			cont = "simpleContent"
		}
		if c.Deriv == "crestr" || c.Deriv == "srestr" {
			der = "restriction"
		}
		r.el(cont, nil, func() {
			var body func()
			if hasInner {
				body = inner
			}
			r.el(der, []attrKV{{"base", r.qref(*c.Base)}}, body)
		})
	})
}

func (r *renderer) attrItems(items []AttrItem) {
	for _, it := range items {
		if it.A != nil {
			r.attr(it.A)
		} else if it.G != nil {
			r.el("attributeGroup", []attrKV{{"ref", r.qref(*it.G)}}, nil)
		}
	}
}

func (r *renderer) attr(a *Attr) {
	var kv []attrKV
	if a.Ref != nil {
		kv = append(kv, attrKV{"ref", r.qref(*a.Ref)})
	} else {
		kv = append(kv, attrKV{"name", a.Name})
	}
	if a.Type != nil {
		kv = append(kv, attrKV{"type", r.qref(*a.Type)})
	}
	if a.Use != "" {
		kv = append(kv, attrKV{"use", a.Use})
	}
	if a.Def != "" {
		kv = append(kv, attrKV{"default", a.Def})
	}
	if a.Fix != "" {
		kv = append(kv, attrKV{"fixed", a.Fix})
	}
	var body func()
	if a.Doc != "" || a.ST != nil {
		body = func() {
			r.doc(a.Doc)
			if a.ST != nil {
				r.simple(a.ST)
			}
		}
	}
	r.el("attribute", kv, body)
}

// num spells an occurrence number.
func (r *renderer) num(s string) string {
	if s == "unbounded" {
		return s
	}
	switch r.st.Num {
	case 1:
		return "0" + s
	case 2:
		return "+" + s
	}
	return s
}

func (r *renderer) particle(p *Particle) {
	var kv []attrKV
	occ := func() {
		if p.Min != "" {
			kv = append(kv, attrKV{"minOccurs", r.num(p.Min)})
		}
		if p.Max != "" {
			kv = append(kv, attrKV{"maxOccurs", r.num(p.Max)})
		}
	}
	switch p.K {
	case "seq", "choice", "all":
		occ()
		name := map[string]string{"seq": "sequence", "choice": "choice", "all": "all"}[p.K]
		var body func()
		if len(p.Items) > 0 {
			body = func() {
				for _, it := range p.Items {
					r.particle(it)
				}
			}
		}
		r.el(name, kv, body)
	case "any":
		kv = append(kv, attrKV{"namespace", "##other"}, attrKV{"processContents", "lax"})
		occ()
		r.el("any", kv, nil)
	case "group":
		kv = append(kv, attrKV{"ref", r.qref(*p.Ref)})
		occ()
		r.el("group", kv, nil)
	case "elem":
		if p.Ref != nil {
			kv = append(kv, attrKV{"ref", r.qref(*p.Ref)})
		} else {
			kv = append(kv, attrKV{"name", p.Name})
		}
		if p.Type != nil {
			kv = append(kv, attrKV{"type", r.qref(*p.Type)})
		}
		occ()
		if p.Nil {
			kv = append(kv, attrKV{"nillable", "true"})
		}
		if p.Def != "" {
			kv = append(kv, attrKV{"default", p.Def})
		}
		if p.Fix != "" {
			kv = append(kv, attrKV{"fixed", p.Fix})
		}
		if p.Abs {
			kv = append(kv, attrKV{"abstract", "true"})
		}
		if p.Subst != nil {
			kv = append(kv, attrKV{"substitutionGroup", r.qref(*p.Subst)})
		}
		var body func()
		if p.Doc != "" || p.ST != nil || p.CT != nil || p.Key {
			body = func() {
				r.doc(p.Doc)
				if p.ST != nil {
					r.simple(p.ST)
				}
				if p.CT != nil {
					r.complex(p.CT)
				}
				if p.Key {
					r.el("key", []attrKV{{"name", "ghostKey" + p.Name}}, func() {
						r.el("selector", []attrKV{{"xpath", ".//ghost"}}, nil)
						r.el("field", []attrKV{{"xpath", "@ghost"}}, nil)
					})
				}
			}
		}
		r.el("element", kv, body)
	}
}
