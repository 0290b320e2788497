package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// ---- C01: validity of the generated source text

func evalSyntax(e *Env, raw json.RawMessage) Verdict {
	var c ProjCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	v := Verdict{}
	s := statsOf(c.P)
	v.NonTrivial, v.Labels = s["components"] > 0, s.labels()
	outs, res, probs, infra := e.GenAllIn(c.P, Langs, c.Pkg)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	v.Problems = probs
	if outs == nil {
		return v
	}
	pkg := c.Pkg
	if pkg == "" {
		pkg = "schema"
	}
	for i, l := range Langs {
		srcs := map[string]string{}
		for fi := range c.P.Files {
			name := c.P.Files[fi].Path + Ext[l]
			srcs[name] = res.Runs[i].Outs[name]
			of := outs[l][fi]
			if of == nil {
				continue
			}
			v.Problems = append(v.Problems, uniqueNames(l, c.P.Files[fi].Path, of)...)
			if (l == "Go" || l == "Java") && of.Package != pkg {
				v.Problems = append(v.Problems, Problem{"package", l, c.P.Files[fi].Path, fmt.Sprintf("package is %q, want %q (asked for: %q)", of.Package, pkg, c.Pkg)})
			}
		}
		if l == "Go" && len(v.Problems) == 0 {
			for _, m := range TypeCheckGo(srcs) {
				v.Problems = append(v.Problems, Problem{"typecheck", l, "", m})
			}
		}
		if len(v.Problems) == 0 {
			pr, asked := e.tools.Check(e, l, srcs, raw)
			if asked {
				v.Labels = append(v.Labels, "asked a compiler of "+l)
			}
			v.Problems = append(v.Problems, pr...)
		}
	}
	return v
}

// uniqueNames checks that nothing is declared twice in one scope.
func uniqueNames(lang, path string, of *OutFile) (out []Problem) {
	seen := map[string]bool{}
	for _, d := range of.Decls {
		if seen[d.Ident] {
			out = append(out, Problem{"dup", lang, path, d.Ident + " is declared twice"})
		}
		seen[d.Ident] = true
		mem := map[string]bool{}
		for _, m := range d.Members {
			if mem[m.Ident] {
				out = append(out, Problem{"dup", lang, path, d.Ident + "." + m.Ident + " is declared twice"})
			}
			mem[m.Ident] = true
		}
	}
	return
}

// ---- C05: built-in datatypes

// BTCase is one use of a built-in datatype.
type BTCase struct {
	B   string `json:"b"`
	Pos string `json:"pos"`
	V   string `json:"v"`
}

var btPositions = []string{"elem", "attr", "plural", "named", "chain", "inline", "list", "value", "valuechain", "union", "global", "attrglobal"}

// btProject uses a datatype in one position.
func btProject(c BTCase) *Project {
	b := &Ref{B: c.B}
	f := File{Path: "use.xsd", TNS: "urn:u", Style: Style{XS: "xs", T: "t"}}
	holder := &CType{Name: "Holder"}
	elem := func(r *Ref, max string) {
		holder.P = &Particle{K: "seq", Items: []*Particle{{K: "elem", Name: "payload", Type: r, Max: max}}}
	}
	st := func(s *SType) { f.Comps = append(f.Comps, Comp{ST: s}) }
	switch c.Pos {
	case "elem":
		elem(b, "")
	case "plural":
		elem(b, "unbounded")
	case "attr":
		holder.Attrs = []AttrItem{{A: &Attr{Name: "payload", Type: b}}}
	case "named":
		st(&SType{Name: "Wrapped", Var: "restr", Base: b})
		elem(&Ref{N: "Wrapped"}, "")
	case "chain":
		st(&SType{Name: "Outer", Var: "restr", Base: &Ref{N: "Inner"}})
		st(&SType{Name: "Inner", Var: "restr", Base: b})
		elem(&Ref{N: "Outer"}, "")
	case "inline":
		holder.P = &Particle{K: "seq", Items: []*Particle{{K: "elem", Name: "payload", ST: &SType{Var: "restr", Base: b}}}}
	case "list":
		st(&SType{Name: "Many", Var: "list", Base: b})
		elem(&Ref{N: "Many"}, "")
	case "value":
		holder.Deriv, holder.Base = "sext", b
	case "valuechain":
		st(&SType{Name: "Wrapped", Var: "restr", Base: b})
		holder.Deriv, holder.Base = "sext", &Ref{N: "Wrapped"}
	case "union":
		st(&SType{Name: "Either", Var: "union", Members: []Ref{*b}})
		elem(&Ref{N: "Either"}, "")
	case "global":
		f.Comps = append(f.Comps, Comp{El: &Particle{K: "elem", Name: "payload", Type: b}})
	case "attrglobal":
		f.Comps = append(f.Comps, Comp{At: &Attr{Name: "payload", Type: b}})
	}
	f.Comps = append(f.Comps, Comp{CT: holder})
	return &Project{Files: []File{f}}
}

func btAllowed(pos, b string) bool {
	lst := contains(listBuiltins, b)
	switch pos {
	case "list", "value", "valuechain", "union", "chain", "named", "inline":
		return !lst && b != "anyType" && b != "anySimpleType" && b != "NOTATION"
	case "attr", "attrglobal":
		return b != "anyType" && b != "NOTATION"
	}
	return true
}

type intRange struct{ lo, hi string }

var xsdInts = map[string]intRange{
	"byte": {"-128", "127"}, "short": {"-32768", "32767"}, "int": {"-2147483648", "2147483647"},
	"long": {"-9223372036854775808", "9223372036854775807"}, "unsignedByte": {"0", "255"}, "unsignedShort": {"0", "65535"},
	"unsignedInt": {"0", "4294967295"}, "unsignedLong": {"0", "18446744073709551615"},
	// unbounded in XML Schema; a 32-bit integer is the documented mapping
	"integer": {"-2147483648", "2147483647"}, "nonNegativeInteger": {"0", "2147483647"}, "positiveInteger": {"1", "2147483647"},
	"nonPositiveInteger": {"-2147483648", "0"}, "negativeInteger": {"-2147483648", "-1"},
}

// targetInts lists what the integer types of the languages can hold.
var targetInts = map[string]map[string]intRange{
	"Go": {"int8": xsdInts["byte"], "int16": xsdInts["short"], "int32": xsdInts["int"], "int64": xsdInts["long"], "int": xsdInts["long"],
		"uint8": xsdInts["unsignedByte"], "byte": xsdInts["unsignedByte"], "uint16": xsdInts["unsignedShort"], "uint32": xsdInts["unsignedInt"], "uint64": xsdInts["unsignedLong"], "uint": xsdInts["unsignedLong"]},
	"C": {"char": xsdInts["byte"], "signed char": xsdInts["byte"], "int8_t": xsdInts["byte"], "short": xsdInts["short"], "int16_t": xsdInts["short"], "int": xsdInts["int"], "int32_t": xsdInts["int"],
		"long": xsdInts["long"], "long int": xsdInts["long"], "long long": xsdInts["long"], "int64_t": xsdInts["long"], "unsigned char": xsdInts["unsignedByte"], "uint8_t": xsdInts["unsignedByte"], "unsigned short": xsdInts["unsignedShort"], "uint16_t": xsdInts["unsignedShort"],
		"unsigned int": xsdInts["unsignedInt"], "uint32_t": xsdInts["unsignedInt"], "unsigned long": xsdInts["unsignedLong"], "unsigned long long": xsdInts["unsignedLong"], "uint64_t": xsdInts["unsignedLong"]},
	"Java": {"Byte": xsdInts["byte"], "Short": xsdInts["short"], "Integer": xsdInts["int"], "Long": xsdInts["long"], "BigInteger": {"-100000000000000000000000000", "100000000000000000000000000"}},
	"Rust": {"i8": xsdInts["byte"], "i16": xsdInts["short"], "i32": xsdInts["int"], "i64": xsdInts["long"], "i128": {"-100000000000000000000000000", "100000000000000000000000000"}, "isize": xsdInts["long"],
		"u8": xsdInts["unsignedByte"], "u16": xsdInts["unsignedShort"], "u32": xsdInts["unsignedInt"], "u64": xsdInts["unsignedLong"], "usize": xsdInts["unsignedLong"], "u128": {"0", "100000000000000000000000000"}},
	// numbers are doubles: exact up to 2^53, which covers every type of up to
	// 32 bits; larger integers are customarily mapped to it all the same
	"TypeScript": {"number": {"-18446744073709551615", "18446744073709551615"}, "bigint": {"-100000000000000000000000000", "100000000000000000000000000"}},
}

var targetFloats = map[string]map[string]int{
	"Go": {"float32": 32, "float64": 64}, "C": {"float": 32, "double": 64}, "Java": {"Float": 32, "Double": 64, "BigDecimal": 64},
	"Rust": {"f32": 32, "f64": 64}, "TypeScript": {"number": 64},
}

var targetBool = map[string]string{"Go": "bool", "C": "bool", "Java": "Boolean", "Rust": "bool", "TypeScript": "boolean"}

var targetText = map[string]map[string]bool{
	"Go": words("string"), "C": words("char char*"), "Java": words("String"), "Rust": words("String"), "TypeScript": words("string"),
}

// targetBytes: what holds an octet, for the binary datatypes, as an element
// of an array; "" when the type is the whole sequence.
var targetBytes = map[string]map[string]int{
	"Go": {"byte": 1, "uint8": 1, "string": 0}, "C": {"char": 1, "unsigned char": 1, "uint8_t": 1}, "Java": {"Byte": 1, "byte": 1, "String": 0},
	"Rust": {"u8": 1, "String": 0}, "TypeScript": {"Uint8Array": 0, "string": 0},
}

// adequate decides whether a type can hold a value of a datatype.
func adequate(lang, b string, t TE, val string) string {
	textual := targetText[lang][t.Base]
	arr := 0
	if contains(listBuiltins, b) {
		arr = 1
	}
	switch {
	case b == "base64Binary" || b == "hexBinary":
		n, ok := targetBytes[lang][t.Base]
		if !ok || n != t.Arr {
			return fmt.Sprintf("xs:%s is %s, which does not hold octets", b, t)
		}
		return ""
	case t.Arr != arr:
		return fmt.Sprintf("xs:%s is %s, want list depth %d", b, t, arr)
	}
	if r, ok := xsdInts[b]; ok {
		n, _ := new(big.Int).SetString(strings.TrimPrefix(val, "+"), 10)
		tr, isInt := targetInts[lang][t.Base]
		if !isInt || lang == "C" && t.Base == "char" {
			return fmt.Sprintf("xs:%s is %s, which is not an integer type", b, t)
		}
		lo, _ := new(big.Int).SetString(tr.lo, 10)
		hi, _ := new(big.Int).SetString(tr.hi, 10)
		if n != nil && (n.Cmp(lo) < 0 || n.Cmp(hi) > 0) {
			return fmt.Sprintf("xs:%s is %s, which cannot hold %s", b, t, val)
		}
		_ = r
		return ""
	}
	switch b {
	case "boolean":
		if t.Base != targetBool[lang] {
			return fmt.Sprintf("xs:%s is %s, which is not the boolean type", b, t)
		}
	case "float", "double", "decimal":
		bits, ok := targetFloats[lang][t.Base]
		if !ok {
			return fmt.Sprintf("xs:%s is %s, which is not a floating-point type", b, t)
		}
		if b == "double" && bits < 64 && !known(lang, b) {
			return fmt.Sprintf("xs:%s is %s, which loses precision of %s", b, t, val)
		}
	case "date", "dateTime":
		if !textual && !known(lang, b) {
			return fmt.Sprintf("xs:%s is %s, which cannot hold %q", b, t, val)
		}
	case "anyType", "anySimpleType", "QName":
		if !textual && t.Base != "any" && t.Base != "interface{}" {
			return fmt.Sprintf("xs:%s is %s, which cannot hold %q", b, t, val)
		}
	default:
		if !textual {
			return fmt.Sprintf("xs:%s is %s, which cannot hold %q", b, t, val)
		}
	}
	return ""
}

// known lists the mapping rows recorded in known_findings.jsonl; the recorded
// inputs are evaluated without this exclusion.
var knownRows = map[string]bool{"Java/double": true, "C/double": true, "Rust/date": true, "Rust/dateTime": true, "Java/unsignedLong": true}
var strictRows bool

func known(lang, b string) bool { return knownRows[lang+"/"+b] && !strictRows }

func evalBuiltin(e *Env, raw json.RawMessage) Verdict {
	var c struct {
		BTCase
		Strict bool `json:"strict"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	strictRows = c.Strict
	defer func() { strictRows = false }()
	v := Verdict{NonTrivial: true, Labels: []string{"pos." + c.Pos, "type." + c.B}}
	learned, lp, infra := e.Learn()
	if infra != "" {
		return Verdict{Infra: infra}
	}
	p := btProject(c.BTCase)
	outs, _, probs, infra := e.GenAll(p, Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	v.Problems = append(lp, probs...)
	if len(v.Problems) > 0 {
		return v
	}
	for _, l := range Langs {
		for _, pr := range CompareProject(p, l, outs[l], learned) {
			switch pr.Cat {
			case "type", "dangling", "card", "base", "union", "mem.missing", "decl.missing", "decl.kind":
				v.Problems = append(v.Problems, pr)
			}
		}
		t, ok := learned[l][c.B]
		if !ok {
			v.Problems = append(v.Problems, Problem{"mapping", l, "xs:" + c.B, "no type is used for it"})
			continue
		}
		if msg := adequate(l, c.B, t, c.V); msg != "" {
			if l == "Java" && c.B == "unsignedLong" && known(l, c.B) {
				continue
			}
			v.Problems = append(v.Problems, Problem{"mapping", l, "xs:" + c.B, msg})
		}
	}
	return v
}

func genBTValue(t *rapid.T, b string) string {
	if r, ok := xsdInts[b]; ok {
		lo, _ := new(big.Int).SetString(r.lo, 10)
		hi, _ := new(big.Int).SetString(r.hi, 10)
		switch num(t, "edge", 0, 3) {
		case 0:
			return r.hi
		case 1:
			return r.lo
		}
		span := new(big.Int).Sub(hi, lo)
		x := new(big.Int).SetUint64(rapid.Uint64().Draw(t, "x"))
		x.Mod(x, span.Add(span, big.NewInt(1)))
		return x.Add(x, lo).String()
	}
	switch b {
	case "float", "double", "decimal":
		return fmt.Sprint(math.Round(rapid.Float64Range(-1e15, 1e15).Draw(t, "f")))
	case "boolean":
		return pick(t, "b", []string{"true", "false", "1", "0"})
	case "date":
		return fmt.Sprintf("%04d-%02d-%02d", num(t, "y", 1, 9999), num(t, "m", 1, 12), num(t, "d", 1, 28))
	case "dateTime":
		return fmt.Sprintf("%04d-%02d-%02dT%02d:00:00Z", num(t, "y", 1, 9999), num(t, "m", 1, 12), num(t, "d", 1, 28), num(t, "h", 0, 23))
	}
	return "v" + pick(t, "w", lowerWords)
}

// ---- C11, C14: what must not influence the generated declarations

// outsOf generates raw output text of a project for every language.
func (e *Env) outsOf(p *Project, langs []string) ([]map[string]string, []Problem, string) {
	job := &Job{Files: RenderAll(p)}
	for _, l := range langs {
		job.Runs = append(job.Runs, Run{Lang: l})
	}
	res := e.W.Do(job)
	if res.Infra != "" {
		return nil, nil, res.Infra
	}
	if res.Died != "" || res.Hung {
		return nil, []Problem{{Cat: "crash", Msg: fmt.Sprintf("hung=%v %s", res.Hung, trunc(res.Died, 600))}}, ""
	}
	var out []map[string]string
	var probs []Problem
	for i, l := range langs {
		rr := res.Runs[i]
		if rr.Panic != "" {
			probs = append(probs, Problem{"crash", l, "", trunc(rr.Panic, 600)})
		} else if rr.Err != "" {
			probs = append(probs, Problem{"error", l, rr.ErrAt, "a well-formed schema was rejected: " + rr.Err})
		}
		out = append(out, rr.Outs)
	}
	return out, probs, ""
}

// diffText shows where two texts part.
func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("%q versus %q", trunc(a[lo:], 200), trunc(b[lo:], 200))
}

// sameOutputs compares the output files of two versions of a project.
func sameOutputs(cat string, langs []string, a, b []map[string]string) (probs []Problem) {
	for i, l := range langs {
		for _, k := range sortedKeys(a[i]) {
			y, ok := b[i][k]
			if !ok {
				probs = append(probs, Problem{cat, l, k, "written in one case only"})
			} else if y != a[i][k] {
				probs = append(probs, Problem{cat, l, k, diffText(a[i][k], y)})
			}
		}
		for _, k := range sortedKeys(b[i]) {
			if _, ok := a[i][k]; !ok {
				probs = append(probs, Problem{cat, l, k, "written in one case only"})
			}
		}
	}
	return
}

// walkProject visits every simple type, complex type, particle and attribute.
type visitor struct {
	st func(*SType)
	ct func(*CType)
	pa func(*Particle)
	at func(*Attr)
	gr func(*GDef)
	ag func(*AGDef)
}

func (v *visitor) project(p *Project) {
	for i := range p.Files {
		for k := range p.Files[i].Comps {
			c := &p.Files[i].Comps[k]
			v.sty(c.ST)
			v.cty(c.CT)
			v.par(c.El)
			v.attr(c.At)
			if c.Gr != nil {
				if v.gr != nil {
					v.gr(c.Gr)
				}
				v.par(c.Gr.P)
			}
			if c.AG != nil {
				if v.ag != nil {
					v.ag(c.AG)
				}
				v.items(c.AG.Attrs)
			}
		}
	}
}

func (v *visitor) sty(s *SType) {
	if s == nil {
		return
	}
	if v.st != nil {
		v.st(s)
	}
	v.sty(s.Inline)
	for _, m := range s.Inl {
		v.sty(m)
	}
}

func (v *visitor) cty(c *CType) {
	if c == nil {
		return
	}
	if v.ct != nil {
		v.ct(c)
	}
	v.sty(c.ST)
	v.par(c.P)
	v.items(c.Attrs)
}

func (v *visitor) items(as []AttrItem) {
	for i := range as {
		v.attr(as[i].A)
	}
}

func (v *visitor) attr(a *Attr) {
	if a == nil {
		return
	}
	if v.at != nil {
		v.at(a)
	}
	v.sty(a.ST)
}

func (v *visitor) par(p *Particle) {
	if p == nil {
		return
	}
	if v.pa != nil {
		v.pa(p)
	}
	v.sty(p.ST)
	v.cty(p.CT)
	for _, q := range p.Items {
		v.par(q)
	}
}

// embedsClash says whether something that is embedded in Go shares its
// identifier with another declaration: what is embedded then is the finding
// "equal-identifiers" of C04, and it may be something which cannot be.
func embedsClash(p *Project) bool {
	kinds := map[string]map[string]bool{}
	ident := func(n string) string { return strings.TrimRight(goIdent(n), "23456789") } // without the number
	add := func(n, kind string) {
		id := ident(n)
		if kinds[id] == nil {
			kinds[id] = map[string]bool{}
		}
		kinds[id][kind] = true
	}
	for _, f := range p.Files {
		for _, c := range f.Comps {
			switch {
			case c.ST != nil:
				add(c.ST.Name, "type "+c.ST.Name)
			case c.CT != nil:
				add(c.CT.Name, "type "+c.CT.Name)
			case c.El != nil:
				add(c.El.Name, "decl")
			case c.At != nil:
				add(c.At.Name, "decl")
			case c.Gr != nil:
				add(c.Gr.Name, "group "+c.Gr.Name)
			case c.AG != nil:
				add(c.AG.Name, "agroup "+c.AG.Name)
			}
		}
	}
	clash := false
	check := func(r *Ref, typ bool) {
		if r == nil || r.B != "" {
			return
		}
		n := 0
		for k := range kinds[ident(r.N)] {
			if k != "decl" || !typ {
				n++
			}
		}
		clash = clash || n > 1
	}
	items := func(as []AttrItem) {
		for _, it := range as {
			check(it.G, false)
		}
	}
	v := visitor{
		ct: func(c *CType) {
			check(c.Base, true)
			items(c.Attrs)
		},
		ag: func(g *AGDef) { items(g.Attrs) },
		pa: func(q *Particle) {
			if q.K == "group" {
				check(q.Ref, false)
			}
		},
	}
	v.project(p)
	return clash
}

// withoutDocs removes every annotation.
func withoutDocs(p *Project) *Project {
	q := p.Clone()
	v := visitor{
		st: func(s *SType) {
			s.Doc = ""
			for i := range s.Facets {
				s.Facets[i].Doc = ""
			}
		},
		ct: func(c *CType) { c.Doc = "" },
		pa: func(p *Particle) { p.Doc = "" },
		at: func(a *Attr) { a.Doc = "" },
		gr: func(g *GDef) { g.Doc = "" },
		ag: func(g *AGDef) { g.Doc = "" },
	}
	v.project(q)
	for i := range q.Files {
		q.Files[i].Style.Notes = false
	}
	return q
}

// withoutFacets removes constraining facets, and the enumerations as well if
// asked to.
func withoutFacets(p *Project, enums bool) *Project {
	q := p.Clone()
	strip := func(fs []Facet) []Facet {
		var out []Facet
		for _, f := range fs {
			if f.K == "enumeration" && !enums {
				out = append(out, f)
			}
		}
		return out
	}
	v := visitor{
		st: func(s *SType) { s.Facets = strip(s.Facets) },
		ct: func(c *CType) { c.Facets = strip(c.Facets) },
	}
	v.project(q)
	return q
}

var wildLengths = []string{"0", "1", "2", "3", "4", "8", "10", "16", "36", "64", "255", "256", "1000", "65535", "65536", "2147483648", "18446744073709551616", "007", "+1"}
var wildPatterns = []string{"", ".*", ".", "[01]", "true|false", "\\d", "\\d+", "\\d{4}-\\d{2}-\\d{2}", "[0-9]{1,3}", "-?[0-9]+", "[+-]?\\d*\\.\\d+", "[A-Z]", "[a-zA-Z]{2}", "(a|b|c)", "\\i\\c*", "[\\p{L}-[aeiou]]", "\\S+@\\S+", "https?://.*", "*/", "\"", "`", "[0-9A-Fa-f]{8}-([0-9A-Fa-f]{4}-){3}[0-9A-Fa-f]{12}", "x{0}", "\\w(\\s\\w)*"}
var wildBounds = map[string][]string{
	"int":   {"0", "1", "-1", "2", "9", "10", "99", "100", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "+5", "007", "-0"},
	"float": {"0", "1", "-1", "0.0", "0.5", "1.0", "100.00", "1E3", "-INF", "INF", "3.4028235E38", "1e-45"},
	"dec":   {"0", "1", "-1", "0.0", "0.5", "1.00", "100.", ".01", "99999999999999999999.99", "255", "2147483648"},
	"date":  {"2000-01-01", "1970-01-01Z", "2024-02-29+02:00"},
	"dt":    {"2000-01-01T00:00:00", "1970-01-01T00:00:00Z"},
	"time":  {"00:00:00", "23:59:59.999Z"},
	"dur":   {"P1D", "PT0S", "P1Y2M3DT4H5M6.7S"},
	"gYear": {"1999", "2000"},
}

// wildFacets draws constraining facets without regard to whether a value can
// satisfy all of them.
func wildFacets(t *rapid.T, x XType) []Facet {
	var kinds []string
	var bounds []string
	switch {
	case x.Arr > 0 || contains(listBuiltins, x.B):
		kinds = []string{"length", "minLength", "maxLength", "pattern", "enumeration"}
	case x.B == "":
		kinds = []string{"pattern", "enumeration"}
	case isInteger(x.B), isDecimal(x.B), x.B == "float", x.B == "double":
		kinds = []string{"pattern", "whiteSpace", "enumeration"}
		bounds = wildBounds["float"]
		if isInteger(x.B) {
			bounds = wildBounds["int"]
		}
		if isDecimal(x.B) {
			bounds = append(wildBounds["dec"], wildBounds["int"]...)
		}
		if isInteger(x.B) || isDecimal(x.B) {
			kinds = append(kinds, "totalDigits", "fractionDigits")
		}
	case x.B == "boolean":
		kinds = []string{"pattern", "whiteSpace"}
	case x.B == "date", x.B == "dateTime", x.B == "time", x.B == "duration", x.B == "gYear":
		kinds = []string{"pattern", "whiteSpace", "enumeration"}
		bounds = wildBounds[map[string]string{"date": "date", "dateTime": "dt", "time": "time", "duration": "dur", "gYear": "gYear"}[x.B]]
	default:
		kinds = []string{"length", "minLength", "maxLength", "pattern", "enumeration", "whiteSpace"}
	}
	if bounds != nil {
		kinds = append(kinds, "minInclusive", "minExclusive", "maxInclusive", "maxExclusive")
	}
	var out []Facet
	seen := map[string]bool{}
	for n := num(t, "nwild", 1, 4); n > 0; n-- {
		f := Facet{K: pick(t, "wildkind", kinds), Fix: chance(t, "wildfix", 8)}
		if seen[f.K] && f.K != "pattern" && f.K != "enumeration" {
			continue
		}
		seen[f.K] = true
		switch f.K {
		case "length", "minLength", "maxLength":
			f.V = pick(t, "wildlen", wildLengths)
		case "totalDigits":
			f.V = fmt.Sprint(num(t, "wildtd", 1, 24))
		case "fractionDigits":
			f.V = "0"
			if isDecimal(x.B) {
				f.V = fmt.Sprint(num(t, "wildfd", 0, 18))
			}
		case "pattern":
			f.V, f.Fix = pick(t, "wildpat", wildPatterns), false
		case "whiteSpace":
			f.V = pick(t, "wildws", []string{"collapse", "replace", "preserve"})
		case "enumeration":
			f.Fix = false
			f.V = pick(t, "wildenum", enumStrings)
			if bounds != nil {
				f.V = pick(t, "wildnum", bounds)
			}
			if seen["="+f.V] {
				continue
			}
			seen["="+f.V] = true
		default:
			f.V = pick(t, "wildbound", bounds)
		}
		if chance(t, "wilddoc", 6) {
			f.Doc = pick(t, "wilddoct", docTexts)
		}
		out = append(out, f)
	}
	return out
}

func evalFacets(e *Env, raw json.RawMessage) Verdict {
	var c ProjCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	s := statsOf(c.P)
	v := Verdict{NonTrivial: s["facet"]+s["enum"] > 0, Labels: s.labels()}
	a, probs, infra := e.outsOf(c.P, Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	b, probs2, infra := e.outsOf(withoutFacets(c.P, false), Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	if v.Problems = append(probs, probs2...); len(v.Problems) > 0 {
		return v
	}
	v.Problems = sameOutputs("facets", Langs, a, b)
	others := []string{"Go", "C", "Java", "Rust"}
	d, probs, infra := e.outsOf(withoutFacets(c.P, true), others)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	v.Problems = append(v.Problems, probs...)
	if len(v.Problems) == 0 {
		v.Problems = sameOutputs("enumeration", others, a[:4], d)
	}
	return v
}

func clearDocs(f *OutFile) {
	for i := range f.Decls {
		f.Decls[i].Doc = ""
		for k := range f.Decls[i].Members {
			f.Decls[i].Members[k].Doc = ""
		}
	}
}

var docPieces = []string{
	" ", " ", " ", "\n", "\n\n", "\t", "  ", ".", "...", " is ", " is a ", ": ", "/", "*", "*/", "/*", "//", "///", "#", "\\", "`", "\"", "'", "<", "&", "%", "$", "{", "}", "@", "-", "--", "_", "0", "1", "42",
	"the", "A", "type", "value", "list", "Deprecated", "TODO", "Code generated by xgen. DO NOT EDIT.", "@deprecated", "package schema", "type X struct {}", "};", "größe", "名前", "\u00a0", "\u200b", "\U0001f600", "see also", "e.g.", "i.e.", "end",
}

// docMix draws documentation which consists of pieces, the names of its
// component and of others among them.
func docMix(t *rapid.T, name string, names []string) string {
	s := ""
	switch num(t, "docstart", 0, 3) {
	case 1:
		s = name
	case 2:
		s = upper1(name)
	}
	for n := num(t, "docpieces", 1, 7); n > 0; n-- {
		if len(names) > 0 && chance(t, "docother", 12) {
			s += pick(t, "docothername", names)
			continue
		}
		s += pick(t, "docpiece", docPieces)
	}
	if strings.TrimSpace(s) == "" {
		s += "blank"
	}
	return s
}

func evalDocs(e *Env, raw json.RawMessage) Verdict {
	var c ProjCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	s := statsOf(c.P)
	v := Verdict{NonTrivial: s["doc"] > 0, Labels: s.labels()}
	learned, lp, infra := e.Learn()
	if infra != "" {
		return Verdict{Infra: infra}
	}
	a, _, probs, infra := e.GenAll(c.P, Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	b, _, probs2, infra := e.GenAll(withoutDocs(c.P), Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	v.Problems = append(append(lp, probs...), probs2...)
	if len(v.Problems) > 0 {
		return v
	}
	for _, l := range Langs {
		for _, pr := range CompareProject(c.P, l, a[l], learned) {
			if pr.Cat == "doc" {
				v.Problems = append(v.Problems, pr)
			}
		}
		for fi := range c.P.Files {
			x, y := a[l][fi], b[l][fi]
			clearDocs(x)
			clearDocs(y)
			if !reflect.DeepEqual(x, y) {
				v.Problems = append(v.Problems, Problem{"annotation", l, c.P.Files[fi].Path, "documentation changes the declarations: " + diffText(jsonText(x), jsonText(y))})
			}
		}
	}
	return v
}

func init() {
	register(&Prop{ID: "C01", Quick: 7000, Thorough: 120000, Assume: projAssume,
		Rule: projRule + "the Go files of a project are type-checked together, and samples of the other languages are handed to the installed compilers; non-trivial: the project has components",
		Gen: func(t *rapid.T, tier string) interface{} {
			clashes := chance(t, "clashes", 25)
			storm := clashes && chance(t, "clashstorm", 20)
			draw := projGen(func(c *GenCfg, tier string) {
				full(c, tier)
				c.Hostile, c.Docs, c.MaxFiles = true, 30, 3
				if clashes {
					c.Clash, c.ClashAll, c.MaxFiles = 20, true, 1
					if storm {
						c.Clash, c.MaxComps, c.MaxMembers, c.Scale = 85, 12, 2, 0
					}
				}
			})
			c := draw(t, tier).(ProjCase)
			for k := 0; clashes && embedsClash(c.P); k++ {
				clashes = k < 3
				c = draw(t, tier).(ProjCase)
			}
			if chance(t, "pkg", 35) {
				c.Pkg = pick(t, "pkgname", []string{"other", "p1", "my_pkg", "types"})
			}
			return c
		}, Eval: evalSyntax})

	register(&Prop{ID: "C05", Quick: 15000, Thorough: 60000,
		Rule: "a built-in datatype, a position it is used in (element, repeated element, attribute, restriction, chain of restrictions, inline type, list item, simple content, union member, global element or attribute) and a value of its value space are drawn; the type each language gives it must be able to hold the value, and be the same in every position; every case is non-trivial",
		Assume: []string{
			"value ranges of target types: Go int is 64 bits, C long is 64 bits (LP64), TypeScript number is accepted for 64-bit integers",
			"C's char stands for text, as the golden files have it; the unbounded integer types need 32 bits",
		},
		Gen: func(t *rapid.T, tier string) interface{} {
			for {
				c := BTCase{B: pick(t, "b", allBuiltins), Pos: pick(t, "pos", btPositions)}
				if !btAllowed(c.Pos, c.B) {
					c.Pos = "elem"
				}
				c.V = genBTValue(t, c.B)
				return c
			}
		},
		Enum: func(tier string) []interface{} {
			var out []interface{}
			for _, b := range allBuiltins {
				for _, pos := range btPositions {
					if !btAllowed(pos, b) {
						continue
					}
					vals := []string{"text"}
					if r, ok := xsdInts[b]; ok {
						vals = []string{r.lo, r.hi}
					}
					for _, v := range vals {
						out = append(out, BTCase{b, pos, v})
					}
				}
			}
			return out
		},
		Eval: evalBuiltin})

	structProp("C09", "enum union type card dangling decl.missing decl.kind name", "non-trivial: a simple type other than a plain restriction of a built-in",
		15000, 200000, has("list", "union", "st.chain", "enum", "st.inline", "elem.inline", "attr.inline"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.OnlyST, c.Enums, c.Inline, c.MaxComps, c.MaxMembers = true, 45, 40, 12, 3
			c.Groups, c.AGroups, c.Deriv = false, false, 10
		})

	register(&Prop{ID: "C11", Quick: 6000, Thorough: 100000,
		Rule: "a random schema project with facets on its simple types is compiled to all languages, then once more with the facets removed, and with the enumerations removed too for the languages that do not declare them; the outputs must be identical byte for byte; non-trivial: the project has facets",
		Gen: func(t *rapid.T, tier string) interface{} {
			c := projGen(func(c *GenCfg, tier string) {
				full(c, tier)
				c.Facets, c.Enums, c.Inline = 85, 25, 30
			})(t, tier).(ProjCase)
			v := visitor{
				st: func(s *SType) {
					if s.Var == "restr" && chance(t, "wild", 60) {
						s.Facets = wildFacets(t, resolveST(c.P, s))
					}
				},
				ct: func(s *CType) {
					if s.Deriv == "srestr" && chance(t, "wild", 60) {
						s.Facets = wildFacets(t, XType{B: "string"})
					}
				},
			}
			v.project(c.P)
			return c
		}, Eval: evalFacets})

	register(&Prop{ID: "C14", Quick: 7500, Thorough: 100000, Assume: []string{
		"kinds of declarations the generators never comment by design: C elements, Java list types and plain elements and attributes, Rust unions",
		"comment texts are compared without white space, dots and backslashes (layout, and what keeps a comment a comment)",
	},
		Rule: "a random schema project with documentation (multi-line, markup, comment delimiters, control and separator characters, CDATA, appinfo) is compiled to all languages with and without its annotations: declarations must be the same, and each declaration's comment must be its own documentation; non-trivial: the project has documentation",
		Gen: func(t *rapid.T, tier string) interface{} {
			c := projGen(func(c *GenCfg, tier string) {
				full(c, tier)
				c.Docs, c.Hostile, c.Enums = 60, true, 15
			})(t, tier).(ProjCase)
			var names []string
			doc := func(d *string, name string) {
				if name != "" {
					names = append(names, name)
				}
				if *d != "" && chance(t, "docmix", 35) {
					*d = docMix(t, name, names)
				}
			}
			v := visitor{
				st: func(s *SType) { doc(&s.Doc, s.Name) },
				ct: func(s *CType) { doc(&s.Doc, s.Name) },
				pa: func(s *Particle) { doc(&s.Doc, s.Name) },
				at: func(s *Attr) { doc(&s.Doc, s.Name) },
				gr: func(s *GDef) { doc(&s.Doc, s.Name) },
				ag: func(s *AGDef) { doc(&s.Doc, s.Name) },
			}
			v.project(c.P)
			return c
		}, Eval: evalDocs})

	structProp("C20", "ident dup name mem.name dangling", "non-trivial: a name which is not a plain lower-case ASCII word (punctuation, non-ASCII letters, keywords)",
		20000, 250000, has("name.punct", "name.unicode", "name.keyword"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.HardNames, c.MaxComps = 60, 10
		})
}
