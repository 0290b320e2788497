package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// Problem is one disagreement between the generated code and the model.
type Problem struct {
	Cat   string `json:"cat"`
	Lang  string `json:"lang,omitempty"`
	Where string `json:"where,omitempty"`
	Msg   string `json:"msg"`
}

func (p Problem) String() string {
	return fmt.Sprintf("[%s %s] %s: %s", p.Cat, p.Lang, p.Where, p.Msg)
}

// Learned maps language -> XSD built-in -> the type the generator uses for it
// in a minimal schema. Structural properties only need the mapping to be used
// consistently; whether it is adequate is a property of its own.
type Learned map[string]map[string]TE

type comparer struct {
	lang    string
	learned map[string]TE
	known   map[string]bool    // built-in spellings of the language
	decls   map[string]OutDecl // every declaration of the project, by identifier
	wrap    map[string]XDecl   // expected simple declarations, by the identifier which stands for them
	names   map[string]string  // name of the component each identifier stands for
	out     []Problem
}

func (c *comparer) add(cat, where, format string, a ...interface{}) {
	c.out = append(c.out, Problem{cat, c.lang, where, fmt.Sprintf(format, a...)})
}

// canon expands aliases down to a built-in spelling or a structure.
func (c *comparer) canon(t TE, depth int) (string, int, bool) {
	d, ok := c.decls[t.Base]
	if !ok {
		if c.known[t.Base] {
			return t.Base, t.Arr, true
		}
		return "undeclared " + t.Base, t.Arr, false
	}
	if depth > 50 {
		return "cyclic " + t.Base, t.Arr, false
	}
	if d.Kind == "alias" {
		b, a, ok := c.canon(d.T, depth+1)
		return b, a + t.Arr, ok
	}
	if w, ok := c.wrap[d.Ident]; ok {
		if d.Kind == "enum" {
			b, a := c.want(w.T)
			return b, a + t.Arr, true
		}
		if len(d.Members) == 1 {
			b, a, ok := c.canon(d.Members[0].T, depth+1)
			return b, a + t.Arr, ok
		}
	}
	if n, ok := c.names[d.Ident]; ok {
		return "struct " + n, t.Arr, true
	}
	return "struct " + norm(d.Ident), t.Arr, true
}

// want is the canonical form of an expected type.
func (c *comparer) want(x XType) (string, int) {
	if x.B != "" {
		t, ok := c.learned[x.B]
		if !ok {
			return "unmapped xs:" + x.B, x.Arr
		}
		return t.Base, t.Arr + x.Arr
	}
	return "struct " + x.D, x.Arr
}

// match compares a generated type with the expected one.
func (c *comparer) match(where string, t TE, x XType, plural bool) {
	b, a, ok := c.canon(t, 0)
	wb, wa := c.want(x)
	if plural {
		wa++
	}
	if !ok {
		c.add("dangling", where, "type %s is not declared anywhere (want %s)", t, x)
		return
	}
	if b != wb {
		c.add("type", where, "type %s means %s, want %s (%s)", t, b, wb, x)
		return
	}
	if c.lang == "C" {
		if a > 1 {
			a = 1
		}
		if wa > 1 {
			wa = 1
		}
	}
	if a == wa {
		return
	}
	// Known finding: TypeScript never writes Array<> around Uint8Array (a
	// golden file pins it). Reported under a category of its own, which only
	// the recorded input asks for.
	if c.lang == "TypeScript" && wb == "Uint8Array" && a < wa {
		c.add("known.uint8array", where, "list depth %d of %s, want %d (%s, repeated=%v)", a, t, wa, x, plural)
		return
	}
	c.add("card", where, "list depth %d of %s, want %d (%s, repeated=%v)", a, t, wa, x, plural)
}

// identOK tells whether an identifier can stand for an XSD name.
func identOK(id string, m XMember) bool {
	n := norm(id)
	for _, w := range []string{norm(m.Name), norm(m.Prefix + m.Name)} {
		if n == w || n == w+"attr" {
			return true
		}
	}
	return false
}

// CompareProject compares parsed output files with the model.
func CompareProject(p *Project, lang string, outs map[int]*OutFile, learned Learned) []Problem {
	c := &comparer{lang: lang, learned: learned[lang], decls: map[string]OutDecl{}, wrap: map[string]XDecl{}, names: map[string]string{}, known: map[string]bool{}}
	for _, t := range c.learned {
		c.known[t.Base] = true
	}
	for _, of := range outs {
		for _, d := range of.Decls {
			c.decls[d.Ident] = d
		}
	}
	var todo []func()
	for i := range p.Files {
		if of := outs[i]; of != nil {
			c.file(p.Files[i].Path, of, Expect(p, i), &todo)
		}
	}
	for _, f := range todo {
		f()
	}
	return c.out
}

func isTypeComp(x XDecl) bool { return x.Comp != "element" && x.Comp != "attribute" || x.Struct }

// file finds the declaration which stands for each component and queues its
// comparison.
func (c *comparer) file(path string, of *OutFile, exp []XDecl, todo *[]func()) {
	byNorm := map[string][]int{}
	seen := map[string]bool{}
	for i, d := range of.Decls {
		if seen[d.Ident] {
			c.add("dup", path, "%s is declared twice", d.Ident)
		}
		seen[d.Ident] = true
		byNorm[norm(d.Ident)] = append(byNorm[norm(d.Ident)], i)
	}
	used := map[int]bool{}
	missing := ""
	types := map[string]bool{}
	claimed := map[string]bool{} // identifiers which are another component's
	for _, x := range exp {
		claimed[c.declIdent(x)] = true
	}
	for pass := 0; pass < 2; pass++ {
		for _, x := range exp {
			x := x
			if isTypeComp(x) != (pass == 0) {
				continue
			}
			if pass == 0 {
				types[x.Name], types[flip1(x.Name)] = true, true
			}
			where := path + ": " + x.Comp + " " + x.Name
			idx := -1
			cands := byNorm[norm(x.Name)]
			if c.lang == "Rust" && pass == 1 { // names which are keywords
				cands = append(append([]int{}, cands...), byNorm[norm(x.Name)+"attr"]...)
			}
			exact := c.declIdent(x)
			for _, i := range cands {
				if used[i] || of.Decls[i].Ident != exact && claimed[of.Decls[i].Ident] {
					continue
				}
				if of.Decls[i].Ident == exact {
					idx = i
					break
				}
				if r, _ := decodeRune(of.Decls[i].Ident); idx < 0 || unicode.IsUpper(r) == (pass == 0) {
					idx = i
				}
			}
			if idx < 0 {
				// A type of the same name stands for the element as well.
				if pass == 1 && (types[x.Name] || x.T.D != "" && norm(x.T.D) == norm(x.Name)) {
					continue
				}
				c.add("decl.missing", where, "no declaration was generated")
				missing = where
				continue
			}
			used[idx] = true
			d := of.Decls[idx]
			c.names[d.Ident] = x.Name
			if !x.Struct {
				c.wrap[d.Ident] = x
			}
			*todo = append(*todo, func() { c.decl(where, d, x) })
		}
	}
	for i, d := range of.Decls {
		if !used[i] {
			c.add("decl.extra", path, "declaration %s stands for no component of the schema", d.Ident)
			if missing != "" {
				c.add("ident", missing, "no declaration has its letters and digits, and %s is no name's", d.Ident)
			}
		}
	}
}

func (c *comparer) decl(where string, d OutDecl, x XDecl) {
	if d.XML != "" && d.XML != x.Name {
		c.add("name", where, "serialised name is %q", d.XML)
	}
	c.doc(where, d, x)
	c.identDecl(where, d, x)
	if !x.Struct {
		if d.Kind == "enum" {
			if len(x.Enum) == 0 {
				c.add("decl.kind", where, "declared as an enumeration although it lists no values")
				return
			}
			c.enum(where, d, x)
			return
		}
		if c.lang == "TypeScript" && len(x.Enum) > 0 {
			c.add("enum", where, "enumeration values are missing")
			return
		}
		t := d.T
		if d.Kind == "struct" {
			if len(d.Members) != 1 || d.Ext != nil {
				c.add("decl.kind", where, "declared as a structure with %d members", len(d.Members))
				return
			}
			t = d.Members[0].T
			if c.lang == "Rust" && d.Members[0].XML != x.Name {
				c.add("name", where, "serialised name is %q", d.Members[0].XML)
			}
		}
		c.match(where, t, x.T, false)
		return
	}
	if d.Kind != "struct" {
		c.add("decl.kind", where, "declared as %s, want a structure", d.Kind)
		return
	}
	c.members(where, d, x)
}

// docWords are the words of a documentation text, without what comment syntax
// may change: line separators and the white space around them, and the
// characters inserted to keep a comment a comment. A tabulator becomes tab.
func docWords(s, tab string) string {
	s = backslashes.ReplaceAllString(strings.ReplaceAll(s, "\t", tab), "")
	return strings.Join(strings.Fields(strings.Map(func(r rune) rune {
		switch {
		case unicode.IsSpace(r) || r == 0x2028 || r == 0x2029:
			return ' '
		case unicode.IsControl(r) || r == '.':
			return -1
		}
		return r
	}, s)), " ")
}

var backslashes = regexp.MustCompile(`\\[ \t]*`)

// sameDoc tells whether a comment says what a documentation text says.
func sameDoc(got, want string) bool {
	g := docWords(got, " ")
	return g == docWords(want, " ") || g == docWords(want, "")
}

// undocumented lists the kinds of declarations a language gets no comment for.
func undocumented(lang string, x XDecl) bool {
	switch lang {
	case "C":
		return x.Comp == "element" && !x.Struct
	case "Java":
		return x.List || (x.Comp == "element" || x.Comp == "attribute") && !x.Struct
	case "Rust":
		return x.Comp == "simpleType" && x.Struct
	}
	return false
}

// doc checks that the comment of a declaration is its own documentation.
func (c *comparer) doc(where string, d OutDecl, x XDecl) {
	if undocumented(c.lang, x) {
		if x.Doc == "" && docWords(d.Doc, " ") != "" {
			c.add("doc", where, "an undocumented component got the comment %q", d.Doc)
		}
		return
	}
	want := d.Ident + " ..."
	if x.Doc != "" {
		want = d.Ident + " is " + x.Doc
	}
	if !sameDoc(d.Doc, want) {
		c.add("doc", where, "comment %q, want the documentation %q", d.Doc, x.Doc)
	}
}

// mangle is the identifier a name becomes.
func mangle(name string, drop string) string {
	return upper1(strings.Map(func(r rune) rune {
		if strings.ContainsRune(drop, r) {
			return -1
		}
		return r
	}, segUpper(name)))
}

// goIdent is the exported identifier of a name.
func goIdent(name string) string {
	s := upper1(strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, segUpper(name)))
	if s != "" && !unicode.IsUpper(firstRune(s)) {
		s = "X" + s
	}
	return s
}

func firstRune(s string) rune {
	for _, r := range s {
		return r
	}
	return 0
}

func snake(name string) string {
	rs := []rune(strings.ReplaceAll(segUpper(name), "-", ""))
	up := func(i int) bool { return i >= 0 && i < len(rs) && rs[i] >= 'A' && rs[i] <= 'Z' }
	low := func(i int) bool { return i >= 0 && i < len(rs) && rs[i] >= 'a' && rs[i] <= 'z' }
	dig := func(i int) bool { return i >= 0 && i < len(rs) && rs[i] >= '0' && rs[i] <= '9' }
	var b strings.Builder
	for i, r := range rs {
		// a word starts at a capital after a small letter or digit, and at
		// the last capital of a run that is followed by a small letter
		if up(i) && i > 0 && (low(i-1) || dig(i-1) || up(i-1) && low(i+1)) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(r))
	}
	s := b.String()
	if reserved["Rust"][s] || s == "macro_" {
		s += "_attr"
	}
	return s
}

// declIdent is the identifier of a declaration.
func (c *comparer) declIdent(x XDecl) (want string) {
	switch {
	case c.lang == "Go":
		want = goIdent(x.Name)
	case c.lang == "Rust" && !isTypeComp(x):
		want = snake(x.Name)
	case c.lang == "Rust":
		want = strings.NewReplacer("-", "", "_", "").Replace(segUpper(x.Name))
		if want != "" && unicode.IsDigit(firstRune(want)) {
			want = "X" + want
		}
	default:
		want = mangle(x.Name, "-")
	}
	return
}

// identDecl checks the identifier of a declaration letter by letter.
func (c *comparer) identDecl(where string, d OutDecl, x XDecl) {
	if want := c.declIdent(x); d.Ident != want {
		c.add("ident", where, "declared as %s, want %s", d.Ident, want)
	}
}

func (c *comparer) identMember(where string, m OutMember, xm XMember) {
	if xm.Kind == "value" || xm.Kind == "base" || m.Kind == "embed" {
		return
	}
	ids := c.memberIdents(xm)
	if m.Ident != ids[0] && m.Ident != ids[1] {
		c.add("ident", where, "member %s for %s, want %s", m.Ident, xm.Name, ids[0])
	}
}

// memberIdents are the identifiers a member may have: without and with the
// prefix of a reference.
func (c *comparer) memberIdents(xm XMember) (ids [2]string) {
	q := xm.Name
	if xm.Prefix != "" {
		q = xm.Prefix + ":" + q
	}
	for i, n := range []string{xm.Name, q} {
		var want string
		switch c.lang {
		case "Go":
			want = goIdent(n)
		case "Rust":
			want = snake(n)
		default:
			want = mangle(n, "-")
		}
		if xm.Kind == "attr" && c.lang != "Rust" {
			want += "Attr"
		}
		ids[i] = want
	}
	return
}

func (c *comparer) enum(where string, d OutDecl, x XDecl) {
	var got []string
	same := len(d.Enum) == len(x.Enum)
	for i, e := range d.Enum {
		got = append(got, strings.TrimPrefix(e[1], "'"))
		if same && !strings.HasPrefix(e[1], "'") {
			same = sameNumber(e[1], x.Enum[i])
		} else if same {
			same = got[i] == x.Enum[i]
		}
	}
	if !same {
		c.add("enum", where, "values %q, want %q", got, x.Enum)
	}
	seen := map[string]bool{}
	for _, e := range d.Enum {
		if seen[e[0]] {
			c.add("dup", where, "enumeration member %q is declared twice", e[0])
		}
		seen[e[0]] = true
	}
}

// sameNumber compares a number literal with a numeric lexical value.
func sameNumber(lit, lex string) bool {
	if strings.HasSuffix(lex, "INF") {
		return lit == strings.Replace(lex, "INF", "Infinity", 1)
	}
	if lex == "NaN" {
		return lit == lex
	}
	a, err1 := strconv.ParseFloat(lit, 64)
	b, err2 := strconv.ParseFloat(strings.TrimSpace(lex), 64)
	digits := strings.TrimLeft(lit, "-")
	octal := len(digits) > 1 && digits[0] == '0' && digits[1] >= '0' && digits[1] <= '9'
	return err1 == nil && err2 == nil && a == b && !octal
}

func (c *comparer) members(where string, d OutDecl, x XDecl) {
	used := map[int]bool{}
	seen := map[string]bool{}
	for _, m := range d.Members {
		if seen[m.Ident] {
			c.add("dup", where, "member %s is declared twice", m.Ident)
		}
		seen[m.Ident] = true
	}
	lastElem, lastAttr := -1, -1
	missing := ""
	claimed := map[string]int{} // identifiers which are a member's own
	for _, ref := range []bool{true, false} {
		// the plain identifier is the one of the local declaration
		for k, xm := range x.Members {
			if (xm.Prefix != "") == ref {
				for _, id := range c.memberIdents(xm) {
					claimed[id] = k + 1
				}
			}
		}
	}
	for k, xm := range x.Members {
		w := where + "/" + xm.Kind + " " + xm.Name
		if xm.Kind == "base" || xm.Kind == "value" {
			if c.lang == "C" {
				continue // the C generator does not represent derivation
			}
			if xm.Kind == "base" && (c.lang == "Java" || c.lang == "TypeScript") {
				if d.Ext == nil {
					c.add("base", w, "the class does not extend its base type")
				} else {
					b, _, ok := c.canon(*d.Ext, 0)
					if !ok {
						c.add("dangling", w, "base class %s is not declared anywhere", d.Ext)
					} else if wb, _ := c.want(xm.T); b != wb {
						c.add("base", w, "extends %s (%s), want %s", d.Ext, b, wb)
					}
				}
				continue
			}
		}
		idx := -1
		for i, m := range d.Members {
			if own := claimed[m.Ident]; used[i] || own > 0 && own != k+1 && x.Members[own-1].Kind == xm.Kind {
				continue // another member's
			}
			switch xm.Kind {
			case "base":
				if m.Kind == "embed" && norm(m.T.Base) == norm(xm.T.D) {
					idx = i
				}
			case "value":
				if m.Kind == "chardata" || c.lang == "TypeScript" && m.Ident == "Value" {
					idx = i
				}
			case "attr":
				if identOK(m.Ident, xm) && m.Kind != "embed" && m.Kind != "chardata" && (c.lang == "Rust" || m.Kind == "attr" || c.lang == "TypeScript" && strings.HasSuffix(m.Ident, "Attr")) {
					idx = i
				}
			case "elem":
				if identOK(m.Ident, xm) && m.Kind != "embed" && m.Kind != "chardata" && m.Kind != "attr" && !(c.lang == "TypeScript" && strings.HasSuffix(m.Ident, "Attr")) {
					idx = i
				}
			default:
				if identOK(m.Ident, xm) && m.Kind != "attr" && m.Kind != "chardata" {
					idx = i
				}
			}
			if idx >= 0 {
				break
			}
		}
		if idx < 0 {
			cat := "mem.missing"
			if xm.Kind == "base" || xm.Kind == "value" {
				cat = "base"
			} else if xm.Kind == "member" {
				cat = "union"
			}
			c.add(cat, w, "no member stands for it (have %s)", memberList(d))
			if cat != "base" {
				missing = w
			}
			continue
		}
		used[idx] = true
		m := d.Members[idx]
		c.identMember(w, m, xm)
		switch xm.Kind {
		case "elem":
			if idx < lastElem {
				c.add("mem.order", w, "elements are out of document order (have %s)", memberList(d))
			}
			lastElem = idx
		case "attr":
			if idx < lastAttr {
				c.add("mem.order", w, "attributes are out of document order (have %s)", memberList(d))
			}
			lastAttr = idx
		}
		if (xm.Kind == "elem" || xm.Kind == "attr") && (c.lang == "Go" || c.lang == "Java" || c.lang == "Rust") {
			if m.XML[strings.LastIndex(m.XML, " ")+1:] != xm.Name {
				c.add("mem.name", w, "serialised name is %q", m.XML)
			}
		}
		if xm.Kind == "attr" {
			if m.Req != xm.Req {
				c.add("use", w, "member %s is required=%v, want required=%v", m.Ident, m.Req, xm.Req)
			}
		} else if c.lang == "Rust" && m.T.Opt {
			_ = m // an optional element wrapped in Option<T> is adequate
		}
		t := m.T
		before := len(c.out)
		c.match(w, t, xm.T, xm.Plural)
		if len(c.out) > before && xm.Kind == "value" {
			c.add("base", w, "type %s is not the one of the base (%s)", t, xm.T)
		}
	}
	if d.Ext != nil {
		ok := false
		for _, xm := range x.Members {
			ok = ok || xm.Kind == "base"
		}
		if !ok {
			c.add("base", where, "extends %s although it is not derived by extension of a structure", d.Ext)
		}
	}
	for i, m := range d.Members {
		if !used[i] {
			c.add("mem.extra", where, "member %s stands for nothing in the schema", m.Ident)
			if missing != "" && m.Kind != "embed" && m.Kind != "chardata" {
				c.add("ident", missing, "no member has its letters and digits, and %s is no name's", m.Ident)
			}
		}
	}
}

func memberList(d OutDecl) string {
	var s []string
	for _, m := range d.Members {
		s = append(s, m.Ident)
	}
	return strings.Join(s, ", ")
}
