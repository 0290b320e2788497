package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// Langs are the supported target languages.
var Langs = []string{"Go", "C", "Java", "Rust", "TypeScript"}

// Ext is the file extension the generator adds per language.
var Ext = map[string]string{"Go": ".go", "C": ".h", "Java": ".java", "Rust": ".rs", "TypeScript": ".ts"}

// TE is a type expression of a target language with arrays, pointers and
// optionality peeled off.
type TE struct {
	Base string // identifier or built-in spelling
	Arr  int    // array / list depth
	Opt  bool   // Option<T>, T | null
}

func (t TE) String() string {
	s := t.Base
	for i := 0; i < t.Arr; i++ {
		s = "list(" + s + ")"
	}
	if t.Opt {
		s = "opt(" + s + ")"
	}
	return s
}

// OutMember is one field of a generated type.
type OutMember struct {
	Ident string
	XML   string // serialised name (tag, annotation, rename); "" when the language has none
	Kind  string // attr, elem, chardata, embed, plain
	T     TE
	Opt   bool // marked optional
	Req   bool // marked required
	Doc   string
}

// OutDecl is one generated declaration.
type OutDecl struct {
	Ident   string
	Kind    string // alias, struct, enum
	T       TE     // alias target
	XML     string // serialised name if any
	Ext     *TE    // base class
	Members []OutMember
	Enum    [][2]string // TypeScript enum members: name, value
	Doc     string
}

// OutFile is a parsed generated file.
type OutFile struct {
	Lang    string
	Package string
	Imports []string
	Decls   []OutDecl
}

type tok struct {
	k   byte // i identifier, n number, s string, p punctuation, c comment
	v   string
	pos int
}

// lexSrc splits source text of C, Java, Rust or TypeScript into tokens. Line
// comments are kept. It fails on anything the generated subset never contains.
func lexSrc(lang, src string) ([]tok, error) {
	var out []tok
	i := 0
	rs := []byte(src)
	isNL := func(j int) (int, bool) { // length of a line terminator at j
		if rs[j] == '\n' {
			return 1, true
		}
		if rs[j] == '\r' {
			// C (clang, gcc accept CR), Java and TypeScript end a line at CR; Rust does not
			if lang != "Rust" || (j+1 < len(rs) && rs[j+1] == '\n') {
				return 1, true
			}
		}
		if lang == "TypeScript" && strings.HasPrefix(src[j:], "\u2028") || lang == "TypeScript" && strings.HasPrefix(src[j:], "\u2029") {
			return 3, true
		}
		return 0, false
	}
	for i < len(rs) {
		c := rs[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c == '/' && i+1 < len(rs) && rs[i+1] == '/' {
			j := i
			for j < len(rs) {
				if n, ok := isNL(j); ok {
					if lang == "C" && n == 1 {
						// a backslash before the newline continues the comment
						k := j
						for k > i && (rs[k-1] == '\r' || rs[k-1] == ' ' || rs[k-1] == '\t') {
							k--
						}
						if rs[k-1] == '\\' {
							j++
							continue
						}
					}
					break
				}
				j++
			}
			out = append(out, tok{'c', strings.TrimRight(src[i+2:j], "\r"), i})
			i = j
			continue
		}
		if c == '/' && i+1 < len(rs) && rs[i+1] == '*' {
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment at %d", i)
			}
			out = append(out, tok{'c', src[i+2 : i+2+j], i})
			i += j + 4
			continue
		}
		if c == '"' || c == '\'' || c == '`' {
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(rs) || rs[j] == '\n' || rs[j] == '\r' && lang != "Rust" {
					return nil, fmt.Errorf("unterminated string at %d: %q", i, trunc(src[i:], 40))
				}
				if rs[j] == '\\' && j+1 < len(rs) {
					switch rs[j+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case 'u', 'x':
						n := 4
						if rs[j+1] == 'x' {
							n = 2
						}
						if j+2+n > len(rs) {
							return nil, fmt.Errorf("bad escape at %d: %q", i, trunc(src[i:], 40))
						}
						r, err := strconv.ParseUint(src[j+2:j+2+n], 16, 32)
						if err != nil {
							return nil, fmt.Errorf("bad escape at %d: %q", i, trunc(src[i:], 40))
						}
						b.WriteRune(rune(r))
						j += n
					default:
						b.WriteByte(rs[j+1])
					}
					j += 2
					continue
				}
				if rs[j] == c {
					break
				}
				b.WriteByte(rs[j])
				j++
			}
			out = append(out, tok{'s', b.String(), i})
			i = j + 1
			continue
		}
		r, n := decodeRune(src[i:])
		if r == '_' || r == '$' && lang == "TypeScript" || unicode.IsLetter(r) {
			j := i + n
			for j < len(rs) {
				r2, n2 := decodeRune(src[j:])
				if r2 == '_' || r2 == '$' && lang == "TypeScript" || unicode.IsLetter(r2) || unicode.IsDigit(r2) || unicode.Is(unicode.Mn, r2) || unicode.Is(unicode.Mc, r2) {
					j += n2
					continue
				}
				break
			}
			out = append(out, tok{'i', src[i:j], i})
			i = j
			continue
		}
		if unicode.IsDigit(r) || (r == '.' && lang == "TypeScript" && i+1 < len(rs) && rs[i+1] >= '0' && rs[i+1] <= '9') || (r == '-' && lang == "TypeScript" && i+1 < len(rs) && (rs[i+1] >= '0' && rs[i+1] <= '9' || rs[i+1] == '.')) {
			j := i + n
			for j < len(rs) && (rs[j] >= '0' && rs[j] <= '9' || rs[j] == '.' || rs[j] == 'e' || rs[j] == 'E' || (rs[j] == '-' || rs[j] == '+') && (rs[j-1] == 'e' || rs[j-1] == 'E')) {
				j++
			}
			if j < len(rs) {
				if r2, _ := decodeRune(src[j:]); unicode.IsLetter(r2) {
					return nil, fmt.Errorf("malformed number at %d: %q", i, trunc(src[i:], 40))
				}
			}
			out = append(out, tok{'n', src[i:j], i})
			i = j
			continue
		}
		if c == ':' && i+1 < len(rs) && rs[i+1] == ':' {
			out = append(out, tok{'p', "::", i})
			i += 2
			continue
		}
		if strings.IndexByte("{}()[]<>;,:=|@#.?*&!-+", c) >= 0 {
			out = append(out, tok{'p', string(c), i})
			i++
			continue
		}
		return nil, fmt.Errorf("unexpected character %q at %d: %q", r, i, trunc(src[i:], 40))
	}
	return out, nil
}

func decodeRune(s string) (rune, int) {
	for _, r := range s {
		return r, len(string(r))
	}
	return 0, 0
}

// ps is a token cursor. Comments are collected as the pending doc text.
type ps struct {
	lang string
	src  string
	t    []tok
	i    int
	doc  []string
}

type synErr struct{ msg string }

func (p *ps) fail(format string, a ...interface{}) {
	at := len(p.src)
	if p.i < len(p.t) {
		at = p.t[p.i].pos
	}
	lo := at - 60
	if lo < 0 {
		lo = 0
	}
	hi := at + 60
	if hi > len(p.src) {
		hi = len(p.src)
	}
	panic(synErr{fmt.Sprintf(format, a...) + fmt.Sprintf(" near %q", p.src[lo:hi])})
}

func (p *ps) skipC() {
	for p.i < len(p.t) && p.t[p.i].k == 'c' {
		p.doc = append(p.doc, p.t[p.i].v)
		p.i++
	}
}

func (p *ps) peek() tok {
	p.skipC()
	if p.i >= len(p.t) {
		return tok{}
	}
	return p.t[p.i]
}

func (p *ps) peekAt(n int) tok {
	p.skipC()
	j := p.i
	for j < len(p.t) {
		if p.t[j].k != 'c' {
			if n == 0 {
				return p.t[j]
			}
			n--
		}
		j++
	}
	return tok{}
}

func (p *ps) next() tok {
	t := p.peek()
	if p.i < len(p.t) {
		p.i++
	}
	return t
}

func (p *ps) is(v string) bool {
	t := p.peek()
	return t.k != 's' && t.k != 0 && t.v == v
}

func (p *ps) accept(v string) bool {
	if p.is(v) {
		p.i++
		return true
	}
	return false
}

func (p *ps) want(v string) {
	if !p.accept(v) {
		p.fail("expected %q, found %q", v, p.peek().v)
	}
}

func (p *ps) ident() string {
	t := p.peek()
	if t.k != 'i' {
		p.fail("expected an identifier, found %q", t.v)
	}
	if reserved[p.lang][t.v] {
		p.fail("reserved word %q used as an identifier", t.v)
	}
	p.i++
	return t.v
}

func (p *ps) word() string {
	t := p.peek()
	if t.k != 'i' {
		p.fail("expected a word, found %q", t.v)
	}
	p.i++
	return t.v
}

func (p *ps) str() string {
	t := p.peek()
	if t.k != 's' {
		p.fail("expected a string literal, found %q", t.v)
	}
	p.i++
	return t.v
}

func (p *ps) eof() bool {
	p.skipC()
	return p.i >= len(p.t)
}

func (p *ps) takeDoc() string {
	d := strings.Join(p.doc, "\n")
	p.doc = nil
	return d
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// Words that cannot name a type or a field.
var reserved = map[string]map[string]bool{
	"C":          words("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while"),
	"Java":       words("abstract assert boolean break byte case catch char class const continue default do double else enum extends final finally float for goto if implements import instanceof int interface long native new package private protected public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null _"),
	"Rust":       words("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try _"),
	"TypeScript": words("break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with"),
}

// ParseOut parses generated source text. A non-nil error means the text is
// not of the language's syntax (within the subset a declaration generator can
// use).
func ParseOut(lang, src string) (of *OutFile, err error) {
	if lang == "Go" {
		return parseGoOut(src)
	}
	toks, err := lexSrc(lang, src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(synErr); ok {
				of, err = nil, fmt.Errorf("%s", se.msg)
				return
			}
			panic(e)
		}
	}()
	for len(toks) > 0 && toks[0].k == 'c' && strings.TrimSpace(toks[0].v) == "Code generated by xgen. DO NOT EDIT." {
		toks = toks[1:]
	}
	p := &ps{lang: lang, src: src, t: toks}
	of = &OutFile{Lang: lang}
	switch lang {
	case "C":
		parseC(p, of)
	case "Java":
		parseJava(p, of)
	case "Rust":
		parseRust(p, of)
	case "TypeScript":
		parseTS(p, of)
	}
	return of, nil
}
