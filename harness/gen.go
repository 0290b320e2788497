package main

import (
	"fmt"
	"path"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// ---- drawing helpers

func chance(t *rapid.T, label string, pct int) bool {
	if pct <= 0 {
		return false
	}
	// rapid shrinks towards 0, which must be the uninteresting choice
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

func pick[T any](t *rapid.T, label string, list []T) T {
	return list[rapid.IntRange(0, len(list)-1).Draw(t, label)]
}

func num(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// ---- vocabulary

// Built-in datatypes of XML Schema.
var atomicBuiltins = []string{
	"string", "int", "boolean", "decimal", "token", "NCName", "date", "dateTime", "time", "duration",
	"float", "double", "long", "short", "byte", "unsignedInt", "unsignedLong", "unsignedShort", "unsignedByte",
	"integer", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger",
	"anyURI", "QName", "normalizedString", "language", "Name", "NMTOKEN", "ID", "IDREF", "ENTITY",
	"gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay", "base64Binary", "hexBinary",
}
var listBuiltins = []string{"NMTOKENS", "IDREFS", "ENTITIES"}
var allBuiltins = append(append([]string{"anyType", "anySimpleType", "NOTATION"}, atomicBuiltins...), listBuiltins...)

var lowerWords = []string{
	"note", "order", "item", "price", "person", "address", "city", "street", "title", "author", "book", "code",
	"amount", "quantity", "status", "comment", "customer", "invoice", "product", "category", "country", "phone",
	"email", "weight", "height", "color", "size", "batch", "region", "account", "payment", "ledger", "vendor",
	"shipment", "carrier", "parcel", "depot", "route", "signal", "sensor", "module", "widget", "vector", "matrix",
	"planet", "galaxy", "forest", "river", "ocean", "island", "bridge", "tunnel", "castle", "temple", "garden",
}

// Words that are reserved in some target language but legal as XML names.
var keywordWords = []string{
	"type", "class", "struct", "import", "package", "interface", "func", "default", "match", "self", "return",
	"switch", "case", "public", "static", "final", "impl", "trait", "use", "where", "mod", "move", "ref", "fn",
	"loop", "await", "async", "export", "extends", "function", "var", "let", "const", "new", "this", "null_ok",
	"range", "select", "map", "chan", "go", "defer", "typedef", "union", "register", "goto", "abstract", "synchronized",
	"enum", "void", "in", "as", "if", "else", "for", "while", "do", "try", "yield", "box", "dyn", "macro", "virtual",
}

var unicodeWords = []string{
	"größe", "имя", "naïve", "élan", "Ωmega", "Länge", "niño", "œuvre", "Привет", "ďalší", "ñandu", "émile",
	"Ünit", "año", "straße", "заказ", "цена", "λόγος", "Ιός", "ætt",
	"名前", "価格", "ノート", "شارع", "שם", "नाम", "ชื่อ", "가격", "e\u0301lan", "ßen",
}

// Names of built-in types in XML Schema or in a target language. A global
// component of such a name is a known finding (DESIGN.md), so generators of
// other properties leave them out.
var takenNames = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("string integer boolean byte character short long float double list qname object char bool number any array void uint8array interface enum int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 complex64 complex128 float32 float64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 vec option null undefined error rune self attr value xmlname time xml schema arraylist override deprecated record var") {
		m[w] = true
	}
	return m
}()

// namer hands out names whose letters and digits differ, ignoring case, from
// every name handed out before.
type namer struct {
	used map[string]bool
	uni  bool
	kw   bool
	hard int
	near int      // percent of names which differ from an earlier one in the case of a letter
	ends []string // names which have no such neighbour yet
}

func newNamer(uni, kw bool) *namer { return &namer{used: map[string]bool{}, uni: uni, kw: kw} }

func (n *namer) sub() *namer {
	return &namer{used: map[string]bool{}, uni: n.uni, kw: n.kw, hard: n.hard, near: n.near}
}

func (n *namer) draw(t *rapid.T, label string, global bool) string {
	if len(n.ends) > 0 && n.near > 0 && chance(t, label+".near", n.near) {
		k := num(t, label+".nearof", 0, len(n.ends)-1)
		w := n.ends[k]
		n.ends = append(n.ends[:k:k], n.ends[k+1:]...)
		i := num(t, label+".nearat", 1, len(w)-1)
		return w[:i] + strings.ToUpper(w[i:i+1]) + w[i+1:]
	}
	w := n.word(t, label)
	for i := 0; ; i++ {
		c := w
		if i > 0 {
			c = w + alpha(i)
		}
		k := norm(c)
		if n.used[k] || takenNames[k] && (global || k == "value" || k == "xmlname") || strings.HasSuffix(k, "attr") {
			continue
		}
		n.used[k] = true
		if plainLower(c) && !takenNames[k] {
			n.ends = append(n.ends, c)
		}
		return c
	}
}

// plainLower tells whether a name consists of small Latin letters.
func plainLower(s string) bool {
	for _, r := range s {
		if r < 'a' || r > 'z' {
			return false
		}
	}
	return len(s) > 2
}

// flip1 changes the case of the first letter.
func flip1(s string) string {
	for i, r := range s {
		if i == 0 {
			if unicode.IsUpper(r) {
				return string(unicode.ToLower(r)) + s[len(string(r)):]
			}
			return string(unicode.ToUpper(r)) + s[len(string(r)):]
		}
	}
	return s
}

func alpha(i int) string {
	s := ""
	for i > 0 {
		i--
		s = string(rune('a'+i%26)) + s
		i /= 26
	}
	return s
}

func (n *namer) word(t *rapid.T, label string) string {
	shape := num(t, label+".shape", 0, 19)
	if shape < 8 && n.hard > 0 && chance(t, label+".hard", n.hard) {
		shape += 9
	}
	w := pick(t, label, lowerWords)
	if n.hard < 0 && chance(t, label+".long", 40) {
		for len(w) < -n.hard {
			w += upper1(pick(t, label+".more", lowerWords))
		}
		return w
	}
	if n.uni && chance(t, label+".builtin", 3) {
		w = pick(t, label+".bname", allBuiltins)
		if chance(t, label+".bflip", 20) {
			w = flip1(w)
		}
		return w
	}
	switch shape {
	case 0, 1, 2, 3, 4:
		return w
	case 5, 6, 7:
		return upper1(w)
	case 8:
		return w + upper1(pick(t, label+".2", lowerWords))
	case 9:
		return w + "-" + pick(t, label+".2", lowerWords)
	case 10:
		return w + "_" + pick(t, label+".2", lowerWords)
	case 11:
		return w + "." + pick(t, label+".2", lowerWords)
	case 12:
		return strings.ToUpper(w)
	case 13:
		return w + fmt.Sprint(num(t, label+".n", 1, 99))
	case 14:
		if chance(t, label+".multi", 40) {
			for k := num(t, label+".parts", 2, 3); k > 0; k-- {
				w += pick(t, label+".sep", []string{"-", "-", "-", "_", "_", ".", ".", "--", "__", "..", "-_", ".-"}) + pick(t, label+".2", lowerWords)
			}
			return w
		}
		return upper1(w) + "-" + upper1(pick(t, label+".2", lowerWords)) + "_" + fmt.Sprint(num(t, label+".n", 1, 9))
	case 15:
		if n.uni && chance(t, label+".us", 25) {
			return "_" + fmt.Sprint(num(t, label+".usn", 0, 99))
		}
		return "_" + w
	case 16:
		return "X" + upper1(w) + "ID"
	case 17, 18:
		if n.kw {
			return pick(t, label+".kw", keywordWords)
		}
		return w
	default:
		if n.uni {
			return pick(t, label+".uni", unicodeWords)
		}
		return w
	}
}

var docTexts = []string{
	"A short description.",
	"First line.\nSecond line.",
	"Tabs\tand  spaces",
	"Quotes \"double\" and 'single' and `back`",
	"Markup-like <b>bold</b> & ampersand",
	"Comment-like /* block */ and // line",
	"Ends with a backslash \\",
	"percent %s %d and braces {} [] ()",
	"Unicode: größe, имя, 価格",
	"line one\n\n  indented line three\n",
	"*/ closes nothing",
	"#[derive(Debug)] @XmlElement",
	"long " + "words and words and words and words and words and words and words and words and words",
}

var hostileDocs = []string{
	"carriage\rreturn",
	"carriage\r\nreturn newline",
	"line\u2028separator and\u2029paragraph",
	"next\u0085line",
	"backslash at end of line \\\nstruct injected { };",
	"ends in backslash\\",
	"before a separator \\\u2028struct injected { };",
	"before a paragraph \\\u2029struct injected { };",
	"before a next line \\\u0085struct injected { };",
	"before a return \\\rstruct injected { };",
	"C:\\users\\unknown and \\u000a once more \\uuuu000d",
	"separators \u2028\u2028\u2029 and \u0085\u0085 in a row",
	"trigraph ??/\nint injected;",
	"`backquotes` ${x} and \"quotes\"",
	"nul-free control \u007f",
}

// GenCfg selects what a generated project may contain.
type GenCfg struct {
	MinFiles, MaxFiles int
	MaxComps           int  // per file
	MaxMembers         int  // per type
	Cross              int  // percent chance that a reference goes to another file, if it can
	Docs               int  // percent chance of documentation
	Hostile            bool // documentation that is hostile to comments
	Styles             bool // random lexical styles
	Encodings          bool
	Unicode, Keywords  bool
	Facets             int // percent
	Enums              int // percent, on top of Facets
	Inline             int // percent of members with an inline simple type
	Anon               int // percent of element members with an inline complex type
	Groups, AGroups    bool
	Deriv              int // percent of complex types that are derived
	Lists, Unions      bool
	GlobalEl, GlobalAt bool
	Untyped            bool
	MaxOcc             int  // percent of particles with maxOccurs
	Nest               int  // depth of nested model groups
	NoNS               bool // allow schemas without a target namespace
	Chameleon          bool
	Cycles             bool // cyclic includes and imports
	LocFirst           bool
	OnlyST             bool // mostly simple types
	HardNames          int  // percent of names drawn from the unusual shapes
	SameName           int  // percent of global elements named like a type
	Extras             bool // identity constraints, abstract, substitution groups, notations, appinfo
	Restr              bool // derivation by restriction of complex types
	XMLAttrs           bool // references to xml:lang and friends
	Builtins           []string
	DupChoice          bool // the same element twice in a choice
	Twins              int  // percent of references beside which there is a local declaration of the same local name
	Clash              int  // percent of elements, attributes and types which share a name
	ClashAll           bool // the names may be those of any kind, or have the same letters only
	Near               int  // percent of names which differ from another one in the case of a letter
	Fixed              bool // fixed values
	NiceTypes          bool // the names of global types are their own identifiers in Go
	Scale              int  // percent of projects which are large in one dimension

	chain, manyEnums, manyMembers, longDocs bool
	manyAttrs                               bool
	minComps                                int
	nestPct, anonDepth, stBase              int
}

// scale makes a project large in one dimension.
func (c *GenCfg) scale(t *rapid.T) {
	dims := []string{"nest", "members", "comps", "names", "anon"}
	if c.Scale < 20 && chance(t, "scalemany", 15) {
		dims = append(dims, "many")
	}
	if c.MaxFiles > 1 {
		dims = append(dims, "chain")
	}
	if c.Docs > 0 {
		dims = append(dims, "docs")
	}
	if c.Enums > 0 {
		dims = append(dims, "enums")
	}
	if c.Unions {
		dims = append(dims, "union")
	}
	if c.Deriv > 0 {
		dims = append(dims, "deriv")
	}
	dims = append(dims, "restr")
	switch pick(t, "scaledim", dims) {
	case "nest":
		c.Nest, c.nestPct, c.MaxComps = 9, 60, 3
		if c.MaxMembers < 4 {
			c.MaxMembers = 4
		}
	case "members":
		c.MaxMembers, c.MaxComps, c.manyAttrs = 40, 2, true
	case "comps":
		c.MaxComps, c.MaxMembers, c.MaxFiles, c.Anon = 45, 2, c.MinFiles, 2
	case "many":
		c.MaxComps, c.MaxMembers, c.MaxFiles, c.Anon, c.Inline, c.Nest, c.minComps = 140, 1, c.MinFiles, 0, 2, 0, 50
	case "names":
		c.HardNames = -num(t, "namelen", 20, 200)
	case "anon":
		c.Anon, c.anonDepth, c.MaxComps, c.MaxMembers = 60, 7, 3, 3
	case "chain":
		c.chain, c.MinFiles, c.MaxFiles, c.MaxComps, c.MaxMembers = true, 4, 8, 2, 3
	case "docs":
		c.longDocs = true
	case "enums":
		c.manyEnums, c.Enums, c.MaxComps = true, 80, 4
	case "union":
		c.manyMembers, c.OnlyST = true, true
	case "deriv":
		c.Deriv, c.MaxComps, c.MaxMembers = 95, 14, 2
	case "restr":
		c.OnlyST, c.stBase, c.MaxComps = true, 95, 14
	}
}

func baseCfg() GenCfg {
	return GenCfg{
		MinFiles: 1, MaxFiles: 1, MaxComps: 9, MaxMembers: 5, Docs: 15, Styles: true, Unicode: true, Keywords: true,
		Facets: 40, Enums: 25, Inline: 15, Anon: 12, Groups: true, AGroups: true, Deriv: 25, Lists: true, Unions: true,
		GlobalEl: true, GlobalAt: true, Untyped: true, MaxOcc: 25, Nest: 2, NoNS: true, Builtins: allBuiltins,
		DupChoice: true, XMLAttrs: true,
	}
}

type gctx struct {
	t    *rapid.T
	cfg  GenCfg
	p    *Project
	n    *namer
	vis  [][]int // visible files per file
	twin map[string]bool

	// planned global components per file, in dependency order
	plan [][]planned
}

type planned struct {
	kind string
	name string
	ord  int    // global creation order; derivation and base references only go to smaller orders
	st   string // simple types: restr, list, union
	cont string // complex types: "simple" when it has simple content
	done *Comp
	twin *Ref // elements: the type whose name it shares
}

// GenProject draws a project.
func GenProject(t *rapid.T, cfg GenCfg) *Project {
	g := &gctx{t: t, cfg: cfg, p: &Project{}, n: newNamer(cfg.Unicode, cfg.Keywords), twin: map[string]bool{}}
	if cfg.Scale > 0 && chance(t, "scale", cfg.Scale) {
		g.cfg.scale(t)
		cfg = g.cfg
	}
	g.n.hard, g.n.near = cfg.HardNames, cfg.Near
	nf := num(t, "files", cfg.MinFiles, cfg.MaxFiles)
	g.files(nf)
	g.components()
	return g.p
}

var prefixes = []string{"t", "tns", "my", "ns0", "p.q", "a-b", "T", "xsi_", "here"}
var xsPrefixes = []string{"xs", "xsd", "", "x", "schema-1", "XS"}

func genStyle(t *rapid.T, cfg GenCfg, tns bool) Style {
	s := Style{XS: "xs", T: "t"}
	if !cfg.Styles {
		return s
	}
	s.XS = pick(t, "xs", xsPrefixes)
	if s.XS == "" && !tns {
		s.XS = "xs"
	}
	if s.XS != "" && tns && chance(t, "defns", 25) {
		s.T = ""
	} else {
		s.T = pick(t, "tp", prefixes)
	}
	s.AttrPerm = num(t, "perm", 0, 15)
	s.Indent = num(t, "indent", 0, 3)
	s.Comments = chance(t, "comments", 15)
	s.SQuote = chance(t, "squote", 20)
	s.Expand = chance(t, "expand", 20)
	s.NoDecl = chance(t, "nodecl", 15)
	s.CData = chance(t, "cdata", 15)
	s.PI = chance(t, "pi", 10)
	s.IDs = chance(t, "ids", 10)
	s.CharRef = chance(t, "charref", 8)
	if chance(t, "numform", 15) {
		s.Num = num(t, "num", 1, 2)
	}
	s.Pad = chance(t, "pad", 10)
	if chance(t, "bulk", 2) && chance(t, "bulky", 6) {
		s.Bulk = pick(t, "bulkn", []int{5, 66, 70, 71, 130, 260, 1030, 1100})
	}
	if cfg.Extras {
		s.Notation = chance(t, "notation", 8)
		s.AppInfo = chance(t, "appinfo", 12)
		s.DocAttrs = chance(t, "docattrs", 15)
		s.Notes = chance(t, "notes", 15)
		s.DocSplit = chance(t, "docsplit", 15)
		s.DocMark = chance(t, "docmark", 12)
		s.LocDot = chance(t, "locdot", 10)
		s.DupLinks = chance(t, "duplinks", 10)
		s.Remote = chance(t, "remote", 8)
		s.Forms = chance(t, "forms", 12)
		s.Doctype = chance(t, "doctype", 8)
		if chance(t, "localns", 12) {
			s.LocalNS = num(t, "localnsk", 1, 2)
		}
	}
	if cfg.Encodings {
		s.CRLF = chance(t, "crlf", 20)
		s.BOM = chance(t, "bom", 15)
		s.Foreign = chance(t, "foreign", 20)
		if chance(t, "enc", 30) {
			s.Encoding = pick(t, "encoding", []string{"utf-8", "UTF-8", "iso-8859-1", "ISO-8859-15", "windows-1252", "windows-1251", "koi8-r", "Shift_JIS", "gb18030"})
		}
	}
	return s
}

// sameRel finds a parent in another directory than the one of an existing link
// and the path its file would have at the same relative location.
func (g *gctx) sameRel(n int) (par int, file string, ok bool) {
	type cand struct {
		par  int
		file string
	}
	var cs []cand
	for a := 0; a < n; a++ {
		for _, l := range g.p.Files[a].Links {
			loc := relPath(g.p.Files[a].Path, g.p.Files[l.To].Path)
			for b := 0; b < n; b++ {
				p := path.Join(path.Dir(g.p.Files[b].Path), loc)
				free := !strings.HasPrefix(p, "..")
				for _, o := range g.p.Files[:n] {
					free = free && o.Path != p
				}
				if free {
					cs = append(cs, cand{b, p})
				}
			}
		}
	}
	if len(cs) == 0 {
		return 0, "", false
	}
	c := pick(g.t, "samerelto", cs)
	return c.par, c.file, true
}

var dirNames = []string{"", "", "sub/", "common/", "sub/deep/", "", "my types/", "v1.2/"}

func (g *gctx) files(nf int) {
	t := g.t
	fn := newNamer(false, false)
	for i := 0; i < nf; i++ {
		name := fn.draw(t, "fname", false)
		dir := ""
		if nf > 1 {
			dir = pick(t, "dir", dirNames)
		}
		if chance(t, "fver", 8) {
			name += ".v" + fmt.Sprint(num(t, "fverno", 1, 9))
		}
		sibling := -1
		if i > 0 && chance(t, "samebase", 30) {
			// the base name of an earlier file in another directory
			k := num(t, "samefile", 0, i-1)
			d, b := pick(t, "samedir", []string{"v2/", "sub/", "sub/v2/", "other/"}), path.Base(g.p.Files[k].Path)
			free := true
			for _, o := range g.p.Files {
				free = free && o.Path != d+b
			}
			if free {
				dir, name, sibling = d, strings.TrimSuffix(b, ".xsd"), k
			}
		}
		// or the location relative to its parent which another file has
		// relative to that one's
		samePar := -1
		if i > 1 && sibling < 0 && chance(t, "samerel", 25) {
			if par, p, ok := g.sameRel(i); ok {
				samePar, dir, name = par, path.Dir(p)+"/", strings.TrimSuffix(path.Base(p), ".xsd")
				if dir == "./" {
					dir = ""
				}
			}
		}
		f := File{Path: dir + name + ".xsd"}
		if i == 0 {
			f.TNS = "http://example.org/" + name
			if g.cfg.NoNS && chance(t, "nons", 15) {
				f.TNS = ""
			}
		}
		f.Style = genStyle(t, g.cfg, f.TNS != "")
		if i > 0 {
			// attach to an earlier file: the parent includes or imports it
			par := num(t, "parent", 0, i-1)
			if g.cfg.chain && chance(t, "chain", 85) {
				par = i - 1
			}
			inc := chance(t, "include", 45)
			if samePar >= 0 {
				par, inc = samePar, chance(t, "relinclude", 75)
			}
			if sibling >= 0 && chance(t, "siblings", 60) {
				// both are referred to by the same file
				for k := range g.p.Files[:i] {
					for _, l := range g.p.Files[k].Links {
						if l.To == sibling {
							par, inc = k, l.K == "include"
						}
					}
				}
			}
			pf := &g.p.Files[par]
			if inc || pf.TNS == "" {
				f.TNS = pf.TNS
				if g.cfg.Chameleon && chance(t, "chameleon", 30) {
					f.TNS = ""
				}
				pf.Links = append(pf.Links, Link{K: "include", To: i})
			} else if g.cfg.NoNS && !g.importsNS(par, "") && chance(t, "importnons", 14) {
				f.TNS = ""
				if pf.Style.T == "" {
					pf.Style.T = "tgt"
				}
				if pf.Style.XS == "" {
					pf.Style.XS = "xs"
				}
				pf.Links = append(pf.Links, Link{K: "import", To: i})
			} else {
				f.TNS = fmt.Sprintf("urn:test:%s:%d", name, i)
				pf.Links = append(pf.Links, Link{K: "import", To: i, LocFst: g.cfg.LocFirst && chance(t, "locfst", 40), Prefix: g.freshPrefix(pf)})
			}
			if f.TNS == "" && f.Style.XS == "" {
				f.Style.XS = "xs"
			}
		}
		g.p.Files = append(g.p.Files, f)
	}
	// extra links between existing files
	if nf > 1 && g.cfg.Cycles {
		for k := num(t, "extralinks", 0, 2); k > 0; k-- {
			a, b := num(t, "la", 0, nf-1), num(t, "lb", 0, nf-1)
			if a == b || g.linked(a, b) {
				continue
			}
			fa, fb := &g.p.Files[a], &g.p.Files[b]
			if g.p.EffNS(a) != fa.TNS || g.p.EffNS(b) != fb.TNS {
				continue
			}
			if fa.TNS == fb.TNS {
				fa.Links = append(fa.Links, Link{K: "include", To: b})
			} else if fb.TNS != "" && !g.importsNS(a, fb.TNS) {
				fa.Links = append(fa.Links, Link{K: "import", To: b, LocFst: g.cfg.LocFirst && chance(t, "locfst", 40), Prefix: g.freshPrefix(fa)})
			}
		}
	}
	for i := range g.p.Files {
		g.vis = append(g.vis, g.p.Visible(i))
	}
}

func (g *gctx) linked(a, b int) bool {
	for _, l := range g.p.Files[a].Links {
		if l.To == b {
			return true
		}
	}
	return false
}

func (g *gctx) importsNS(a int, ns string) bool {
	for _, l := range g.p.Files[a].Links {
		if l.K == "import" && g.p.Files[l.To].TNS == ns {
			return true
		}
	}
	return false
}

func (g *gctx) freshPrefix(f *File) string {
	used := map[string]bool{f.Style.XS: true, f.Style.T: true, "": true}
	for _, l := range f.Links {
		used[l.Prefix] = true
	}
	for i := 0; ; i++ {
		c := []string{"imp", "o", "ext-1", "q"}[i%4]
		if i >= 4 {
			c += fmt.Sprint(i)
		}
		if !used[c] {
			return c
		}
	}
}

// Visible lists the files whose components a file may reference: itself, what
// it includes (transitively), and the files it imports together with what
// those include.
func (p *Project) Visible(fi int) []int {
	var out []int
	seen := map[int]bool{}
	var inc func(i int)
	inc = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		out = append(out, i)
		for _, l := range p.Files[i].Links {
			if l.K == "include" {
				inc(l.To)
			}
		}
	}
	inc(fi)
	own := append([]int{}, out...)
	_ = own
	for _, l := range p.Files[fi].Links {
		if l.K == "import" {
			inc(l.To)
		}
	}
	return out
}

var isBuiltin = func() map[string]bool {
	m := map[string]bool{}
	for _, b := range allBuiltins {
		m[b] = true
	}
	return m
}()

// allTNS tells whether every file has a target namespace. Where there is none,
// the reference to a type which is named like a built-in datatype looks like
// one to the datatype.
func (g *gctx) allTNS() bool {
	for i := range g.p.Files {
		if g.p.Files[i].TNS == "" {
			return false
		}
	}
	return true
}

func (g *gctx) components() {
	t := g.t
	ord := 0
	kinds := []string{"complexType", "complexType", "complexType", "simpleType", "simpleType"}
	if g.cfg.OnlyST {
		kinds = []string{"complexType", "simpleType", "simpleType", "simpleType", "simpleType"}
	}
	if g.cfg.GlobalEl {
		kinds = append(kinds, "element", "element")
	}
	if g.cfg.GlobalAt {
		kinds = append(kinds, "attribute")
	}
	if g.cfg.Groups {
		kinds = append(kinds, "group")
	}
	if g.cfg.AGroups {
		kinds = append(kinds, "attributeGroup")
	}
	for range g.p.Files {
		var pl []planned
		for k := num(t, "ncomps", max(1, g.cfg.minComps), g.cfg.MaxComps); k > 0; k-- {
			x := planned{kind: pick(t, "kind", kinds), ord: ord}
			ord++
			x.name = g.n.draw(t, "gname", true)
			for space(x.kind) == "type" && (isBuiltin[x.name] || g.cfg.NiceTypes && isBuiltin[niceName(x.name)]) && !g.allTNS() {
				x.name = g.n.draw(t, "gname", true)
			}
			if g.cfg.Clash > 0 && chance(t, "clash", g.cfg.Clash) {
				var other []string
				for _, y := range pl {
					if sx, sy := space(x.kind), space(y.kind); sx != sy && (g.cfg.ClashAll || sx == "type" && !isGroup(sy) || sy == "type" && !isGroup(sx)) {
						other = append(other, y.name)
					}
				}
				for _, y := range pl {
					if w := y.name; plainLower(w) && g.cfg.ClashAll {
						k := num(t, "clashat", 1, len(w)-1)
						other = append(other, pick(t, "clashvar", []string{flip1(w), w[:k] + "-" + w[k:], w[:k] + "." + w[k:], w[:k] + "_" + w[k:], w + "2", w + "-"}))
					}
				}
				if len(other) > 0 {
					n := pick(t, "clashwith", other)
					free := !(space(x.kind) == "type" && isBuiltin[n] && !g.allTNS())
					for _, y := range pl {
						free = free && !(y.name == n && space(y.kind) == space(x.kind))
					}
					if free {
						x.name = n
						g.twin[n] = true
					}
				}
			}
			if g.cfg.NiceTypes && (x.kind == "simpleType" || x.kind == "complexType") {
				x.name = niceName(x.name)
			}
			if x.kind == "simpleType" {
				vs := []string{"restr", "restr", "restr"}
				if g.cfg.Lists {
					vs = append(vs, "list")
				}
				if g.cfg.Unions {
					vs = append(vs, "union")
				}
				x.st = pick(t, "stvar", vs)
			}
			pl = append(pl, x)
		}
		g.plan = append(g.plan, pl)
	}
	for i := range g.plan {
		for k := range g.plan[i] {
			x := &g.plan[i][k]
			if x.kind != "element" || !chance(t, "samename", g.cfg.SameName) {
				continue
			}
			var own []Ref
			for _, r := range g.anyOf(i, isKind("complexType")) {
				if !g.twin[r.N] {
					own = append(own, r)
				}
			}
			if len(own) > 0 {
				r := pick(t, "twin", own)
				g.twin[r.N] = true
				x.twin = &r
				x.name = r.N
				if chance(t, "twincase", 50) {
					x.name = flip1(r.N)
				}
			}
		}
	}
	// bodies are drawn in creation order, files from last to first so that a
	// file can build on the files it includes and imports
	for i := len(g.p.Files) - 1; i >= 0; i-- {
		for k := range g.plan[i] {
			x := &g.plan[i][k]
			c := g.body(i, x)
			x.done = c
			g.p.Files[i].Comps = append(g.p.Files[i].Comps, *c)
		}
	}
	// document order is independent of creation order
	for i := range g.p.Files {
		cs := g.p.Files[i].Comps
		if len(cs) > 1 && chance(t, "shuffle", 60) {
			for k := len(cs) - 1; k > 0; k-- {
				j := num(t, "swap", 0, k)
				cs[k], cs[j] = cs[j], cs[k]
			}
		}
	}
}

// niceName is a name that needs no change to be an identifier.
func niceName(s string) string { return goIdent(s) }

// made lists finished components of a kind visible from a file.
func (g *gctx) made(fi int, ok func(x *planned) bool) []Ref {
	var out []Ref
	for _, v := range g.vis[fi] {
		for k := range g.plan[v] {
			x := &g.plan[v][k]
			if x.done != nil && ok(x) {
				out = append(out, Ref{F: v, N: x.name})
			}
		}
	}
	return g.prefer(fi, out)
}

// prefer drops the components of the file itself now and then, so that there
// are enough references to other files.
func (g *gctx) prefer(fi int, all []Ref) []Ref {
	if g.cfg.Cross == 0 || !chance(g.t, "cross", g.cfg.Cross) {
		return all
	}
	var out []Ref
	for _, r := range all {
		if r.F != fi {
			out = append(out, r)
		}
	}
	if len(out) == 0 {
		return all
	}
	return out
}

// any lists planned components of a kind visible from a file, finished or not.
func (g *gctx) anyOf(fi int, ok func(x *planned) bool) []Ref {
	var out []Ref
	for _, v := range g.vis[fi] {
		for k := range g.plan[v] {
			x := &g.plan[v][k]
			if ok(x) {
				out = append(out, Ref{F: v, N: x.name})
			}
		}
	}
	return g.prefer(fi, out)
}

// space is the symbol space of a kind of component.
func space(kind string) string {
	if strings.HasSuffix(kind, "Type") {
		return "type"
	}
	return kind
}

func isGroup(kind string) bool { return kind == "group" || kind == "attributeGroup" }

func isKind(k string) func(*planned) bool {
	return func(x *planned) bool { return x.kind == k }
}

func (g *gctx) maybeDoc(label string) string {
	if !chance(g.t, label, g.cfg.Docs) {
		return ""
	}
	if g.cfg.longDocs && chance(g.t, label+".l", 20) {
		return strings.TrimSpace(strings.Repeat(pick(g.t, label+".lw", lowerWords)+" ", num(g.t, label+".ln", 100, 12000)))
	}
	if g.cfg.Hostile && chance(g.t, label+".h", 50) {
		return pick(g.t, label+".hd", hostileDocs)
	}
	return pick(g.t, label+".d", docTexts)
}

func (g *gctx) body(fi int, x *planned) *Comp {
	switch x.kind {
	case "simpleType":
		s := g.simple(fi, x.st, 0)
		s.Name = x.name
		s.Doc = g.maybeDoc("stdoc")
		return &Comp{ST: s}
	case "complexType":
		c := g.complex(fi, 0, x)
		c.Name = x.name
		c.Doc = g.maybeDoc("ctdoc")
		return &Comp{CT: c}
	case "element":
		e := &Particle{K: "elem", Name: x.name, Doc: g.maybeDoc("eldoc")}
		if x.twin != nil {
			e.Type = x.twin
			return &Comp{El: e}
		}
		anon := true
		for _, y := range g.plan[fi] {
			// an anonymous type would be a second type of the name
			anon = anon && (space(y.kind) != "type" || y.name != x.name)
		}
		g.elemType(fi, e, 0, anon)
		if g.cfg.Extras {
			e.Key = chance(g.t, "key", 12)
			e.Abs = chance(g.t, "elabs", 6)
			if chance(g.t, "subst", 8) {
				if els := g.made(fi, isKind("element")); len(els) > 0 {
					r := pick(g.t, "substref", els)
					e.Subst = &r
				}
			}
		}
		return &Comp{El: e}
	case "attribute":
		a := &Attr{Name: x.name, Doc: g.maybeDoc("atdoc")}
		g.attrType(fi, a)
		return &Comp{At: a}
	case "group":
		gd := &GDef{Name: x.name, Doc: g.maybeDoc("grdoc")}
		gd.P = g.model(fi, g.n.sub(), 0, num(g.t, "gmembers", 1, g.cfg.MaxMembers), x)
		return &Comp{Gr: gd}
	default:
		ag := &AGDef{Name: x.name, Doc: g.maybeDoc("agdoc")}
		ag.Attrs = g.attrs(fi, g.n.sub(), 1, true)
		return &Comp{AG: ag}
	}
}

var stringish = map[string]bool{"string": true, "token": true, "normalizedString": true, "NMTOKEN": true, "NCName": true, "Name": true, "anyURI": true, "language": true, "ID": true, "ENTITY": true, "IDREF": true}

var enumStrings = []string{"red", "green", "blue", "high", "low", "a", "B", "value1", "N-A", "two words", "x.y", "1st", "50%", "it's", "say \"hi\"", "", "naïve", "a/b", "class", "*", "C:\\temp", "100", "-", "under_score", "Ünit", "trailing ", " leading", " ", "in  between", " both ", "#1", "$x", "{}", "tab", "constructor", "two\nlines", "a\ttab", "carriage\rreturn", "both\r\n", "line\u2028separator", "paragraph\u2029separator", "ends in \\", "\\n", "'\"`", "\u00a0", "e\u0301", "\U0001F600", "Red", "RED", " red", "trailing", "leading ", "gr\u00fcn", "gru\u0308n", "0x1F", "1_000", "Infinity", "1e3", "-0", "001"}
var enumNumbers = []string{"1", "2", "10", "0", "-1", "-20", "99", "007", "+5", "3"}
var enumDecimals = []string{"1.5", "0.1", "-2.5", "10", "100.001", "+1.0", "00.5", ".5", "3."}

// facetsFor draws facets that fit the primitive datatype.
func (g *gctx) facetsFor(b string) []Facet {
	t := g.t
	var fs []Facet
	add := func(k, v string) { fs = append(fs, Facet{K: k, V: v}) }
	if chance(t, "enum", g.cfg.Enums) {
		pool := enumStrings
		switch {
		case stringish[b]:
			if b != "string" {
				pool = []string{"red", "green", "blue", "a", "B", "value1", "N-A", "x.y", "under_score", "class"}
			}
		case b == "boolean":
			pool = []string{"true", "false", "0", "1"}
		case isDecimal(b):
			pool = enumDecimals
		case isInteger(b):
			pool = enumNumbers
			if strings.HasPrefix(b, "unsigned") || strings.HasPrefix(b, "positive") || strings.HasPrefix(b, "nonNeg") {
				pool = []string{"1", "2", "10", "3", "99", "007"}
			}
		case b == "float" || b == "double":
			pool = []string{"1.5", "INF", "-INF", "NaN", "1e3", "0", "-2.5E-3", "1E+5"}
		case b == "date":
			pool = []string{"2020-01-01", "1999-12-31", "2024-02-29Z"}
		case b == "gYear":
			pool = []string{"1999", "2000", "-0044"}
		case b == "hexBinary":
			pool = []string{"0F", "ff00", ""}
		default:
			pool = nil
		}
		if pool != nil {
			seen := map[string]bool{}
			many := g.cfg.manyEnums && b != "boolean" && (stringish[b] || isInteger(b))
			k := num(t, "nenum", 1, 4)
			if many {
				k = num(t, "menum", 10, pick(t, "menumx", []int{120, 120, 120, 120, 120, 120, 120, 900}))
			}
			long := 0
			if many && b == "string" && k < 200 && chance(t, "longev", 20) {
				long = pick(t, "longevn", []int{300, 5000, 70000})
			}
			for ; k > 0; k-- {
				v := pick(t, "ev", pool)
				if many {
					v = fmt.Sprint(k)
					if stringish[b] {
						v = "v" + v
					}
					if long > 0 && k%7 == 3 {
						v += strings.Repeat("x", long)
						long = min(long, 300)
					}
				}
				if !seen[v] {
					seen[v] = true
					f := Facet{K: "enumeration", V: v}
					if g.cfg.Docs > 0 {
						f.Doc = g.maybeDoc("evdoc")
					}
					fs = append(fs, f)
				}
			}
			return fs
		}
	}
	if !chance(t, "facets", g.cfg.Facets) {
		return nil
	}
	switch {
	case stringish[b]:
		switch num(t, "fk", 0, 5) {
		case 0:
			add("minLength", "1")
			add("maxLength", "40")
		case 1:
			add("length", "8")
		case 2:
			add("pattern", `[A-Z]{2}\d+`)
		case 3:
			add("whiteSpace", "collapse")
		case 4:
			add("pattern", `[a-z]+`)
			add("pattern", `\d+`)
			add("maxLength", "12")
		default:
			add("maxLength", "255")
		}
	case isInteger(b) || isDecimal(b):
		switch num(t, "fk", 0, 4) {
		case 0:
			add("minInclusive", "1")
			add("maxInclusive", "100")
		case 1:
			add("maxExclusive", "50")
		case 2:
			add("totalDigits", pick(t, "td", []string{"2", "1", "3", "5", "10", "19", "20"}))
		case 3:
			add("minExclusive", "0")
			add("pattern", `\d+`)
		default:
			if isDecimal(b) {
				add("totalDigits", pick(t, "td", []string{"8", "1", "18", "9", "10", "20"}))
				add("fractionDigits", pick(t, "fd", []string{"2", "0", "1", "15"}))
			} else {
				add("minInclusive", "1")
			}
		}
	case b == "base64Binary" || b == "hexBinary":
		add("length", "10")
	default:
		add("pattern", ".+")
	}
	return fs
}

func isInteger(b string) bool {
	switch b {
	case "int", "integer", "long", "short", "byte", "unsignedInt", "unsignedLong", "unsignedShort", "unsignedByte",
		"nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger":
		return true
	}
	return false
}

func isDecimal(b string) bool { return b == "decimal" }

func (g *gctx) builtin(label string, atomic bool) Ref {
	for {
		b := pick(g.t, label, g.cfg.Builtins)
		if atomic && (contains(listBuiltins, b) || b == "anyType" || b == "anySimpleType" || b == "NOTATION") {
			b = pick(g.t, label+".a", atomicBuiltins)
		}
		return Ref{B: b}
	}
}

// simple draws a simple type definition without its name.
func (g *gctx) simple(fi int, variant string, depth int) *SType {
	t := g.t
	s := &SType{Var: variant}
	sts := g.made(fi, func(x *planned) bool { return x.kind == "simpleType" })
	switch variant {
	case "restr":
		if len(sts) > 0 && chance(t, "stbase", 45+g.cfg.stBase/2) {
			r := pick(t, "stref", sts)
			if g.cfg.stBase > 0 && chance(t, "stlast", 70) {
				r = sts[len(sts)-1]
			}
			s.Base = &r
		} else if depth < 2 && chance(t, "inlbase", 8) {
			of := "restr"
			if depth == 0 {
				of = pick(t, "inlvar", []string{"restr", "restr", "list", "union"})
			}
			if of == "list" && !g.cfg.Lists || of == "union" && !g.cfg.Unions {
				of = "restr"
			}
			s.Inline = g.simple(fi, of, depth+1)
			s.Inline.Doc = g.maybeDoc("inlbasedoc")
		} else {
			r := g.builtin("stbuiltin", true)
			s.Base = &r
		}
		x := resolveST(g.p2(), s)
		if x.B != "" && x.Arr == 0 {
			s.Facets = g.facetsFor(x.B)
		} else if x.Arr > 0 && chance(t, "listlen", 30) {
			s.Facets = []Facet{{K: "minLength", V: "1"}}
		}
	case "list":
		var items []Ref
		for _, r := range sts {
			x := ResolveType(g.p2(), r)
			if x.Arr == 0 && x.DK != "union" {
				items = append(items, r)
			}
		}
		if len(items) > 0 && chance(t, "itemst", 40) {
			r := pick(t, "itemref", items)
			s.Base = &r
		} else if depth < 2 && chance(t, "inlitem", 12) {
			s.Inline = g.simple(fi, "restr", 2)
			s.Inline.Doc = g.maybeDoc("inlitemdoc")
			x := resolveST(g.p2(), s.Inline)
			if x.Arr > 0 || x.B == "" {
				s.Inline = nil
				s.Base = &Ref{B: "token"}
			}
		} else {
			r := g.builtin("itembuiltin", true)
			s.Base = &r
		}
	case "union":
		seen := map[string]bool{}
		most := 3
		if g.cfg.manyMembers {
			most = 12
		}
		// types whose names differ in the case of a letter only
		var pairs [][2]Ref
		for i, x := range sts {
			for _, y := range sts[:i] {
				if g.cfg.Near > 0 && x.N != y.N && strings.EqualFold(x.N, y.N) && firstRune(x.N) == firstRune(y.N) {
					pairs = append(pairs, [2]Ref{y, x})
				}
			}
		}
		if len(pairs) > 0 && chance(t, "nearmembers", 50) {
			pr := pick(t, "nearpair", pairs)
			seen[norm(pr[0].N)] = true
			s.Members = append(s.Members, pr[0], pr[1])
		}
		for k := num(t, "nmembers", 1, most); k > 0; k-- {
			var r Ref
			if len(sts) > 0 && chance(t, "memst", 50) {
				r = pick(t, "memref", sts)
			} else {
				r = g.builtin("membuiltin", true)
			}
			key := norm(r.B + r.N)
			if seen[key] {
				continue
			}
			seen[key] = true
			if chance(t, "inlmember", 20) {
				m := &SType{Var: "restr", Base: &r}
				if x := ResolveType(g.p2(), r); x.B != "" && x.Arr == 0 {
					m.Facets = g.facetsFor(x.B)
				}
				if chance(t, "inlmemdoc", 10) {
					m.Doc = g.maybeDoc("inlmemdoct")
				}
				s.Inl = append(s.Inl, m)
				continue
			}
			s.Members = append(s.Members, r)
		}
	}
	return s
}

// p2 is a view of the project that already contains the finished components.
func (g *gctx) p2() *Project {
	return g.p
}

func (g *gctx) complex(fi, depth int, x *planned) *CType {
	t := g.t
	c := &CType{}
	n := g.n.sub()
	if chance(t, "deriv", g.cfg.Deriv) {
		bases := g.made(fi, isKind("complexType"))
		switch num(t, "derivk", 0, 2) {
		case 0, 1:
			var ok []Ref
			for _, r := range bases {
				ok = append(ok, r)
			}
			if len(ok) > 0 {
				r := pick(t, "ctbase", ok)
				if g.cfg.Deriv > 90 && chance(t, "ctlast", 70) {
					r = ok[len(ok)-1]
				}
				c.Base = &r
				if g.cfg.Restr && chance(t, "restr", 25) && g.restrict(fi, c, r, x) {
					return c
				}
				for nm := range g.memberNorms(r, 0) {
					n.used[nm] = true
				}
				n.used[norm(r.N)] = true
				if g.simpleContent(r) {
					c.Deriv = "sext"
					c.Attrs = g.attrs(fi, n, 0, true)
					if x != nil {
						x.cont = "simple"
					}
					return c
				}
				c.Deriv = "cext"
				if chance(t, "extp", 80) {
					c.P = g.contentModel(fi, n, depth, num(t, "members", 0, g.cfg.MaxMembers), x)
				}
				c.Attrs = g.attrs(fi, n, 0, true)
				return c
			}
			fallthrough
		default:
			c.Deriv = "sext"
			if x != nil {
				x.cont = "simple"
			}
			var sts []Ref
			for _, r := range g.anyOf(fi, func(x *planned) bool { return x.kind == "simpleType" && x.st == "restr" && x.done != nil }) {
				y := ResolveType(g.p, r)
				if y.B != "" && y.Arr == 0 {
					sts = append(sts, r)
				}
			}
			if chance(t, "sclist", 12) {
				// a union, or a built-in list
				sts = g.anyOf(fi, func(x *planned) bool { return x.kind == "simpleType" && x.st == "union" && x.done != nil })
				if len(sts) == 0 || chance(t, "sclistb", 30) {
					c.Base = &Ref{B: pick(t, "sclistbb", listBuiltins)}
					c.Attrs = g.attrs(fi, n, 0, true)
					return c
				}
			}
			if len(sts) > 0 && chance(t, "scst", 40) {
				r := pick(t, "scref", sts)
				c.Base = &r
				n.used[norm(r.N)] = true // a union is embedded
			} else {
				r := g.builtin("scb", true)
				c.Base = &r
			}
			c.Attrs = g.attrs(fi, n, 0, true)
			return c
		}
	}
	if chance(t, "hasp", 85) {
		lo := 0
		if g.cfg.MaxMembers > 0 {
			lo = 1
		}
		c.P = g.contentModel(fi, n, depth, num(t, "members", lo, g.cfg.MaxMembers), x)
	}
	c.Attrs = g.attrs(fi, n, 0, true)
	if chance(t, "mixed", 6) {
		c.Mixed = true
	}
	if chance(t, "anyattr", 5) {
		c.AnyAttr = true
	}
	if g.cfg.Extras && x != nil && chance(t, "ctabs", 8) {
		c.Abs = true
	}
	return c
}

// restrict derives a type by restriction: it repeats the content of its base,
// or leaves out some of what is optional there.
func (g *gctx) restrict(fi int, c *CType, r Ref, x *planned) bool {
	t := g.t
	b := g.p.Lookup(r, "complexType")
	if b == nil {
		return false
	}
	if b.CT.Deriv == "sext" || b.CT.Deriv == "srestr" {
		c.Deriv = "srestr"
		if x != nil {
			x.cont = "simple"
		}
		if chance(t, "srinline", 30) {
			// the content is narrowed by an anonymous type
			root := b
			for root != nil && root.CT.Base.B == "" && root.CT.Deriv != "" {
				k := g.p.Lookup(*root.CT.Base, "complexType")
				if k == nil {
					break
				}
				root = k
			}
			c.ST = &SType{Var: "restr", Base: root.CT.Base}
			if y := ResolveType(g.p, *root.CT.Base); y.B != "" && y.Arr == 0 {
				c.ST.Facets = g.facetsFor(y.B)
			}
			if root.CT.Base.B == "" && !containsInt(g.vis[fi], root.CT.Base.F) {
				c.ST = nil // its base has no name here
			}
		}
		if chance(t, "srfacet", 50) {
			c.Facets = []Facet{{K: "pattern", V: ".*"}}
		}
		if b.CT.Base != nil && b.CT.Deriv == "sext" && chance(t, "srattr", 30) {
			for _, a := range b.CT.Attrs {
				// restate what is inherited
				if a.A != nil && a.A.Ref == nil && a.A.ST == nil && r.F == fi {
					q := *a.A
					q.Doc = ""
					c.Attrs = append(c.Attrs, AttrItem{A: &q})
				}
			}
		}
		return true
	}
	if r.F != fi || b.CT.Deriv != "" || hasAnon(b.CT.P) {
		return false
	}
	var q CType
	mustJSON(b.CT, &q)
	c.Deriv = "crestr"
	c.P, c.Attrs = q.P, q.Attrs
	if c.P != nil {
		stripDocs(c.P)
		var keep []*Particle
		for _, it := range c.P.Items {
			if it.Min == "0" && chance(t, "drop", 40) {
				continue
			}
			keep = append(keep, it)
		}
		c.P.Items = keep
	}
	for _, a := range c.Attrs {
		if a.A != nil {
			a.A.Doc = ""
			if a.A.Use != "required" && chance(t, "req", 30) {
				a.A.Use = "required"
			}
		}
	}
	return true
}

func hasAnon(p *Particle) bool {
	if p == nil {
		return false
	}
	if p.CT != nil {
		return true
	}
	for _, it := range p.Items {
		if hasAnon(it) {
			return true
		}
	}
	return false
}

func stripDocs(p *Particle) {
	p.Doc = ""
	for _, it := range p.Items {
		stripDocs(it)
	}
}

func (g *gctx) simpleContent(r Ref) bool {
	c := g.p.Lookup(r, "complexType")
	return c != nil && (c.CT.Deriv == "sext" || c.CT.Deriv == "srestr")
}

// memberNorms lists the folded names of every member a type has, inherited
// ones included.
func (g *gctx) memberNorms(r Ref, depth int) map[string]bool {
	out := map[string]bool{}
	c := g.p.Lookup(r, "complexType")
	if c == nil || depth > 20 {
		return out
	}
	e := &expecter{p: g.p, fi: r.F, f: &g.p.Files[r.F]}
	for _, m := range e.complexDecl(c.CT).Members {
		out[norm(m.Name)] = true
		out[norm(m.Prefix+m.Name)] = true
	}
	if c.CT.Base != nil && c.CT.Base.B == "" {
		for k := range g.memberNorms(*c.CT.Base, depth+1) {
			out[k] = true
		}
	}
	return out
}

var occs = []string{"unbounded", "2", "5", "100", "1", "unbounded", "02", "01", "3", "unbounded", "65536", "4294967296", "9223372036854775807"}

func (g *gctx) occ(p *Particle) {
	t := g.t
	if chance(t, "maxocc", g.cfg.MaxOcc) {
		p.Max = pick(t, "max", occs)
		if p.K == "elem" && chance(t, "never", 5) {
			p.Min, p.Max = "0", "0"
			return
		}
	}
	if chance(t, "minocc", 25) {
		p.Min = pick(t, "min", []string{"0", "1"})
		if maxPlural(p.Max) && chance(t, "mintwo", 30) {
			p.Min = "2"
		}
	}
}

// contentModel draws the content of a complex type: a model group, or a
// reference to a named one.
func (g *gctx) contentModel(fi int, nm *namer, depth, n int, x *planned) *Particle {
	if g.cfg.Groups && chance(g.t, "onlygroup", 8) {
		if q := g.groupRef(fi, nm); q != nil {
			return q
		}
	}
	return g.model(fi, nm, depth, n, x)
}

// groupRef draws a reference to a finished model group definition.
func (g *gctx) groupRef(fi int, nm *namer) *Particle {
	t := g.t
	var grs []Ref
	for _, r := range g.made(fi, isKind("group")) {
		if !nm.used[norm(r.N)] && !nm.used[norm(g.pfx(fi, r)+r.N)] {
			grs = append(grs, r)
		}
	}
	if len(grs) == 0 {
		return nil
	}
	r := pick(t, "gr", grs)
	nm.used[norm(r.N)] = true
	nm.used[norm(g.pfx(fi, r)+r.N)] = true
	q := &Particle{K: "group", Ref: &r}
	g.occ(q)
	return q
}

// model draws a model group with n leaf particles.
func (g *gctx) model(fi int, nm *namer, depth, n int, x *planned) *Particle {
	t := g.t
	p := &Particle{K: pick(t, "mg", []string{"seq", "seq", "seq", "choice", "all"})}
	if p.K == "all" {
		if depth > 0 || x != nil && x.kind == "group" && false {
			p.K = "seq"
		} else {
			for i := 0; i < n; i++ {
				e := g.element(fi, nm, 0)
				if e == nil {
					continue
				}
				if chance(t, "allocc", 8) {
					g.occ(e) // XML Schema 1.1
				} else if chance(t, "allmin", 30) {
					e.Min = "0"
				}
				p.Items = append(p.Items, e)
			}
			return p
		}
	}
	if depth > 0 || p.K != "seq" || chance(t, "topocc", 20) {
		g.occ(p)
	}
	for i := 0; i < n; {
		if depth < g.cfg.Nest && n-i >= 1 && chance(t, "nest", 18+g.cfg.nestPct) {
			k := num(t, "nestn", 1, n-i)
			q := g.model(fi, nm, depth+1, k, x)
			p.Items = append(p.Items, q)
			i += k
			continue
		}
		i++
		if g.cfg.Groups && chance(t, "gref", 10) {
			if q := g.groupRef(fi, nm); q != nil {
				p.Items = append(p.Items, q)
				continue
			}
		}
		if chance(t, "any", 4) {
			p.Items = append(p.Items, &Particle{K: "any", Min: "0"})
			continue
		}
		e := g.element(fi, nm, depth)
		if e == nil {
			continue
		}
		g.occ(e)
		p.Items = append(p.Items, e)
		if e.Ref != nil && e.Ref.F != fi && g.p.EffNS(e.Ref.F) != g.p.EffNS(fi) && g.hasTwin(fi, nm, *e.Ref) {
			d := &Particle{K: "elem", Name: e.Ref.N}
			if c := g.p.Lookup(*e.Ref, "element"); c != nil && c.El.Type != nil && c.El.Type.B != "" && chance(t, "twintype", 70) {
				r := *c.El.Type
				d.Type = &r
			} else {
				g.elemType(fi, d, depth, false)
			}
			g.occ(d)
			p.Items = append(p.Items, d)
		}
		if g.cfg.DupChoice && p.K == "choice" && e.CT == nil && e.ST == nil && e.Ref == nil && chance(t, "dup", 10) {
			d := *e
			d.Min, d.Max = "", ""
			if chance(t, "dupmax", 60) {
				d.Max = "unbounded"
			}
			d.Doc = ""
			p.Items = append(p.Items, &d)
		}
	}
	return p
}

// hasTwin decides whether there is a local declaration called like the component
// of another namespace which has just been referred to.
func (g *gctx) hasTwin(fi int, nm *namer, r Ref) bool {
	pfx := g.pfx(fi, r)
	return g.cfg.Twins > 0 && pfx != "" && norm(pfx+r.N) != norm(r.N) && chance(g.t, "twin", g.cfg.Twins)
}

func (g *gctx) pfx(fi int, r Ref) string {
	e := &expecter{p: g.p, fi: fi, f: &g.p.Files[fi]}
	return e.refPrefix(r)
}

// element draws a local element or a reference to a global one.
func (g *gctx) element(fi int, nm *namer, depth int) *Particle {
	t := g.t
	if g.cfg.GlobalEl && chance(t, "elref", 12) {
		var els []Ref
		for _, r := range g.anyOf(fi, isKind("element")) {
			if !nm.used[norm(r.N)] && !nm.used[norm(g.pfx(fi, r)+r.N)] {
				els = append(els, r)
			}
		}
		if len(els) > 0 {
			r := pick(t, "elr", els)
			nm.used[norm(r.N)] = true
			nm.used[norm(g.pfx(fi, r)+r.N)] = true
			return &Particle{K: "elem", Ref: &r}
		}
	}
	e := &Particle{K: "elem", Doc: g.maybeDoc("edoc")}
	if depth < 3+g.cfg.anonDepth && chance(t, "anon", g.cfg.Anon) {
		// an anonymous type is declared under the element's name, so the name
		// must be free globally
		for {
			e.Name = g.n.draw(t, "ename", true)
			if !nm.used[norm(e.Name)] {
				break
			}
		}
		nm.used[norm(e.Name)] = true
		save := g.cfg
		g.cfg.MaxMembers = (g.cfg.MaxMembers + 1) / 2
		e.CT = g.complex(fi, depth+1, nil)
		e.CT.Doc = g.maybeDoc("anondoc")
		g.cfg = save
		return e
	}
	e.Name = nm.draw(t, "ename", false)
	g.elemType(fi, e, depth, false)
	if chance(t, "nil", 5) {
		e.Nil = true
	}
	return e
}

func (g *gctx) elemType(fi int, e *Particle, depth int, global bool) {
	t := g.t
	if global && chance(t, "gelct", 45) {
		e.CT = g.complex(fi, 1, nil)
		e.CT.Doc = g.maybeDoc("anondoc")
		return
	}
	if g.cfg.Untyped && chance(t, "untyped", 6) {
		return
	}
	if chance(t, "inlst", g.cfg.Inline) {
		e.ST = g.inlineST(fi)
		return
	}
	if chance(t, "named", 50) {
		var ts []Ref
		ts = g.anyOf(fi, func(x *planned) bool { return x.kind == "complexType" || x.kind == "simpleType" })
		if len(ts) > 0 {
			r := pick(t, "tref", ts)
			e.Type = &r
			return
		}
	}
	r := g.builtin("eb", false)
	e.Type = &r
	if stringish[r.B] && r.B != "ID" && chance(t, "def", 8) {
		if g.cfg.Fixed && chance(t, "elfix", 50) {
			e.Fix = "fixedvalue"
		} else {
			e.Def = "dflt"
		}
	}
}

func (g *gctx) inlineST(fi int) *SType {
	if g.cfg.Unions && chance(g.t, "inlunion", 8) {
		return g.simple(fi, "union", 1)
	}
	s := g.simple(fi, "restr", 1)
	return s
}

func (g *gctx) attrType(fi int, a *Attr) {
	t := g.t
	if g.cfg.Untyped && chance(t, "auntyped", 5) {
		return
	}
	if chance(t, "ainl", g.cfg.Inline) {
		a.ST = g.inlineST(fi)
		return
	}
	if chance(t, "anamed", 35) {
		ts := g.anyOf(fi, isKind("simpleType"))
		if len(ts) > 0 {
			r := pick(t, "atref", ts)
			a.Type = &r
			return
		}
	}
	r := g.builtin("ab", false)
	if r.B == "anyType" || r.B == "NOTATION" {
		r.B = "string"
	}
	a.Type = &r
}

func (g *gctx) attrs(fi int, nm *namer, min int, groups bool) []AttrItem {
	t := g.t
	var out []AttrItem
	n := num(t, "nattrs", min, 3)
	if g.cfg.manyAttrs && chance(t, "manyattrs", 50) {
		n = num(t, "nattrs", 3, 40)
	}
	for i := 0; i < n; i++ {
		if groups && g.cfg.AGroups && chance(t, "agref", 15) {
			var ags []Ref
			for _, r := range g.made(fi, isKind("attributeGroup")) {
				if !nm.used[norm(r.N)] && !nm.used[norm(g.pfx(fi, r)+r.N)] {
					ags = append(ags, r)
				}
			}
			if len(ags) > 0 {
				r := pick(t, "agr", ags)
				nm.used[norm(r.N)] = true
				nm.used[norm(g.pfx(fi, r)+r.N)] = true
				out = append(out, AttrItem{G: &r})
				continue
			}
		}
		a := &Attr{Use: pick(t, "use", []string{"", "optional", "required"})}
		if chance(t, "prohibited", 4) {
			a.Use = "prohibited"
		}
		if g.cfg.GlobalAt && chance(t, "atref", 12) {
			var as []Ref
			for _, r := range g.anyOf(fi, isKind("attribute")) {
				if !nm.used[norm(r.N)] && !nm.used[norm(g.pfx(fi, r)+r.N)] {
					as = append(as, r)
				}
			}
			if len(as) > 0 {
				r := pick(t, "atr", as)
				nm.used[norm(r.N)] = true
				nm.used[norm(g.pfx(fi, r)+r.N)] = true
				a.Ref = &r
				out = append(out, AttrItem{A: a})
				if g.p.EffNS(r.F) != "" && g.hasTwin(fi, nm, r) {
					d := &Attr{Name: r.N, Use: a.Use}
					g.attrType(fi, d)
					out = append(out, AttrItem{A: d})
				}
				continue
			}
		}
		if g.cfg.XMLAttrs && chance(t, "xmlattr", 4) {
			b := pick(t, "xa", []string{"xml:lang", "xml:space", "xml:base", "xml:id"})
			if !nm.used[norm(localPart(b))] && !nm.used[norm(b)] {
				nm.used[norm(localPart(b))] = true
				nm.used[norm(b)] = true
				a.Ref = &Ref{B: b, N: localPart(b)}
				out = append(out, AttrItem{A: a})
				if g.cfg.Twins > 0 && chance(t, "xtwin", g.cfg.Twins) {
					d := &Attr{Name: localPart(b), Use: a.Use}
					g.attrType(fi, d)
					out = append(out, AttrItem{A: d})
				}
				continue
			}
		}
		a.Name = nm.draw(t, "aname", false)
		a.Doc = g.maybeDoc("adoc")
		g.attrType(fi, a)
		if a.Type != nil && stringish[a.Type.B] && a.Type.B != "ID" && chance(t, "adef", 25) {
			if g.cfg.Fixed && (a.Use == "required" || chance(t, "afix", 50)) {
				a.Fix = "fixedvalue"
			} else if a.Use != "required" {
				a.Def = "dflt"
			}
		}
		out = append(out, AttrItem{A: a})
	}
	return out
}
