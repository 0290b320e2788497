package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// ---- C22: the components handed to the caller in extraction mode

type pElement struct {
	Doc, Name, Type  string
	Plural, Optional bool
}

type pAttribute struct {
	Name, Doc, Type  string
	Plural, Optional bool
}

type pGroup struct {
	Doc, Name, Ref string
	Elements       []pElement
	Groups         []pGroup
	Plural         bool
}

type pAttributeGroup struct {
	Doc, Name, Ref string
	Attributes     []pAttribute
	AttributeGroup []pAttributeGroup
}

type pSimple struct {
	Doc, Name, Base string
	List, Union     bool
	MemberTypes     map[string]string
	Restriction     struct{ Enum []string }
}

type pComplex struct {
	Doc, Name, Base string
	Elements        []pElement
	Attributes      []pAttribute
	Groups          []pGroup
	AttributeGroup  []pAttributeGroup
}

// treeTypes finds out the type string of each built-in datatype and language.
func (e *Env) treeTypes() (map[string]map[string]string, string) {
	if e.treeB != nil {
		return e.treeB, ""
	}
	job := &Job{Files: map[string][]byte{"probe.xsd": []byte(probeSchema())}}
	for _, l := range Langs {
		job.Runs = append(job.Runs, Run{Lang: l, Extract: true, Tree: true})
	}
	res := e.W.Do(job)
	if res.Infra != "" {
		return nil, res.Infra
	}
	if len(res.Runs) != len(Langs) {
		return nil, ""
	}
	out := map[string]map[string]string{}
	for i, l := range Langs {
		m := map[string]string{}
		for _, n := range res.Runs[i].Tree["probe.xsd"] {
			var c pComplex
			if json.Unmarshal(n.V, &c) != nil || n.Kind != "ComplexType" {
				continue
			}
			for _, x := range c.Elements {
				var k int
				if n, _ := fmt.Sscanf(x.Name, "Zz%d", &k); n == 1 && k < len(allBuiltins) {
					m[allBuiltins[k]] = x.Type
				}
			}
		}
		out[l] = m
	}
	e.treeB = out
	return out, ""
}

type treeCmp struct {
	p    *Project
	b    map[string]string
	lang string
	path string
	out  []Problem
}

func (c *treeCmp) add(cat, where, f string, a ...interface{}) {
	c.out = append(c.out, Problem{cat, c.lang, c.path + " " + where, fmt.Sprintf(f, a...)})
}

// means tells whether a type string stands for a type: it is the target type
// of the datatype, the name of the declaration, or the name of a component
// which is of that type in turn.
func (c *treeCmp) means(s string, want XType) bool {
	if want.D != "" && want.Arr == 0 && s == want.D {
		return true
	}
	if want.B != "" && want.Arr == 0 && s == c.b[want.B] {
		return true
	}
	ex := &expecter{p: c.p}
	for i := range c.p.Files {
		ex.fi, ex.f = i, &c.p.Files[i]
		for k := range c.p.Files[i].Comps {
			x := &c.p.Files[i].Comps[k]
			if x.Name() != s {
				continue
			}
			var t XType
			switch {
			case x.ST != nil:
				t = resolveST(c.p, x.ST)
			case x.CT != nil:
				t = XType{D: x.CT.Name, DK: "complex"}
			case x.El != nil:
				t = ex.elemType(x.El)
			case x.At != nil:
				t = ex.attrType(x.At)
			default:
				continue
			}
			if t == want || want.Arr == 0 && t.Arr == 0 && want.B != "" && t.B != "" && c.b[t.B] == c.b[want.B] {
				return true
			}
		}
	}
	return false
}

func (c *treeCmp) doc(where, got, want string) {
	if !sameDoc(got, want) {
		c.add("doc", where, "documentation %q, want %q", got, want)
	}
}

func (c *treeCmp) name(where, got string, m XMember) {
	if localPart(got) != m.Name || strings.Contains(got, ":") && !strings.HasPrefix(got, m.Prefix+":") {
		c.add("mem.name", where, "%q, want %q (prefix %q)", got, m.Name, m.Prefix)
	}
}

func membersOf(d *XDecl, kind string) (out []XMember) {
	for _, m := range d.Members {
		if m.Kind == kind {
			out = append(out, m)
		}
	}
	return
}

func (c *treeCmp) count(where, what string, got, want int) bool {
	if got != want {
		c.add("mem.count", where, "%d %s, want %d", got, what, want)
		return false
	}
	return true
}

func (c *treeCmp) elements(where string, got []pElement, want []XMember) {
	if !c.count(where, "elements", len(got), len(want)) {
		return
	}
	for i, g := range got {
		w := where + " element " + want[i].Name
		c.name(w, g.Name, want[i])
		if !c.means(g.Type, want[i].T) {
			c.add("type", w, "type %q, want %v", g.Type, want[i].T)
		}
		if g.Plural != want[i].Plural {
			c.add("card", w, "plural %v, want %v", g.Plural, want[i].Plural)
		}
		c.doc(w, g.Doc, want[i].Doc)
	}
}

func (c *treeCmp) attributes(where string, got []pAttribute, want []XMember) {
	if !c.count(where, "attributes", len(got), len(want)) {
		return
	}
	for i, g := range got {
		w := where + " attribute " + want[i].Name
		c.name(w, g.Name, want[i])
		if !c.means(g.Type, want[i].T) {
			c.add("type", w, "type %q, want %v", g.Type, want[i].T)
		}
		if g.Optional == want[i].Req {
			c.add("use", w, "optional %v, but required %v", g.Optional, want[i].Req)
		}
		if g.Plural {
			c.add("card", w, "an attribute is plural")
		}
		c.doc(w, g.Doc, want[i].Doc)
	}
}

func (c *treeCmp) groups(where string, got []pGroup, want []XMember) {
	if !c.count(where, "group references", len(got), len(want)) {
		return
	}
	for i, g := range got {
		w := where + " group " + want[i].Name
		c.name(w, g.Name, want[i])
		if g.Ref != want[i].Name {
			c.add("type", w, "refers to %q, want %q", g.Ref, want[i].Name)
		}
		if g.Plural != want[i].Plural {
			c.add("card", w, "plural %v, want %v", g.Plural, want[i].Plural)
		}
	}
}

func (c *treeCmp) agroups(where string, got []pAttributeGroup, want []XMember) {
	if !c.count(where, "attribute group references", len(got), len(want)) {
		return
	}
	for i, g := range got {
		w := where + " attribute group " + want[i].Name
		c.name(w, g.Name, want[i])
		if g.Ref != want[i].Name {
			c.add("type", w, "refers to %q, want %q", g.Ref, want[i].Name)
		}
	}
}

// treeExpect is the model of the components of a file: the declarations of the
// reference model, where a global element with an inline type stands for two.
func treeExpect(p *Project, fi int) (out []XDecl) {
	byName := map[string]*Comp{}
	f := &p.Files[fi]
	for i := range f.Comps {
		if f.Comps[i].El != nil {
			byName[f.Comps[i].Name()] = &f.Comps[i]
		}
	}
	for _, d := range Expect(p, fi) {
		out = append(out, d)
		if d.Comp == "element" && d.Struct {
			out = append(out, XDecl{Name: d.Name, Comp: "element", T: XType{D: d.Name, DK: "complex"}, Doc: byName[d.Name].El.Doc})
		}
	}
	return
}

func (c *treeCmp) file(fi int, got []Node) {
	want := treeExpect(c.p, fi)
	if len(got) != len(want) {
		var g, w []string
		for _, n := range got {
			var x struct{ Name string }
			json.Unmarshal(n.V, &x)
			g = append(g, n.Kind+" "+x.Name)
		}
		for _, d := range want {
			w = append(w, d.Comp+" "+d.Name)
		}
		c.add("components", "", "components %v, want %v", g, w)
		return
	}
	for i, n := range got {
		d := &want[i]
		where := d.Comp + " " + d.Name
		kind := map[string]string{"simpleType": "SimpleType", "complexType": "ComplexType", "anonymous": "ComplexType", "element": "Element", "attribute": "Attribute", "group": "Group", "attributeGroup": "AttributeGroup"}[d.Comp]
		if d.Comp == "element" && d.Struct {
			kind = "ComplexType"
		}
		var hd struct{ Name, Doc string }
		json.Unmarshal(n.V, &hd)
		if n.Kind != kind || hd.Name != d.Name {
			c.add("components", where, "component %d is %s %q", i, n.Kind, hd.Name)
			continue
		}
		c.doc(where, hd.Doc, d.Doc)
		switch kind {
		case "SimpleType":
			var x pSimple
			json.Unmarshal(n.V, &x)
			st := c.p.Lookup(Ref{F: fi, N: d.Name}, "simpleType").ST
			if d.Struct != x.Union {
				c.add("variety", where, "union %v, want %v", x.Union, d.Struct)
				continue
			}
			if d.Struct {
				if !c.count(where, "member types", len(x.MemberTypes), len(d.Members)) {
					continue
				}
				for _, m := range d.Members {
					if s, ok := x.MemberTypes[m.Name]; !ok || !c.means(s, m.T) && !(s == "" && c.means(m.Name, m.T)) {
						c.add("type", where, "member type %s is %q, want %v", m.Name, s, m.T)
					}
				}
				continue
			}
			t := resolveST(c.p, st)
			if d.List && !x.List {
				c.add("variety", where, "not a list")
				continue
			}
			if x.List {
				if t.Arr == 0 {
					c.add("variety", where, "a list, want %v", t)
					continue
				}
				t.Arr--
			}
			if !c.means(x.Base, t) {
				c.add("base", where, "base %q, want %v", x.Base, t)
			}
			if strings.Join(x.Restriction.Enum, "\x00") != strings.Join(d.Enum, "\x00") || len(x.Restriction.Enum) != len(d.Enum) {
				c.add("enum", where, "enumeration %q, want %q", x.Restriction.Enum, d.Enum)
			}
		case "ComplexType":
			var x pComplex
			json.Unmarshal(n.V, &x)
			c.elements(where, x.Elements, membersOf(d, "elem"))
			c.attributes(where, x.Attributes, membersOf(d, "attr"))
			c.groups(where, x.Groups, membersOf(d, "gref"))
			c.agroups(where, x.AttributeGroup, membersOf(d, "agref"))
			base := append(membersOf(d, "base"), membersOf(d, "value")...)
			switch {
			case len(base) == 0 && x.Base != "":
				c.add("base", where, "has the base %q", x.Base)
			case len(base) > 0 && !c.means(x.Base, base[0].T):
				c.add("base", where, "base %q, want %v", x.Base, base[0].T)
			}
		case "Element":
			var x pElement
			json.Unmarshal(n.V, &x)
			if !c.means(x.Type, d.T) {
				c.add("type", where, "type %q, want %v", x.Type, d.T)
			}
			if x.Plural {
				c.add("card", where, "a global element is plural")
			}
		case "Attribute":
			var x pAttribute
			json.Unmarshal(n.V, &x)
			if !c.means(x.Type, d.T) {
				c.add("type", where, "type %q, want %v", x.Type, d.T)
			}
		case "Group":
			var x pGroup
			json.Unmarshal(n.V, &x)
			c.elements(where, x.Elements, membersOf(d, "elem"))
			c.groups(where, x.Groups, membersOf(d, "gref"))
		case "AttributeGroup":
			var x pAttributeGroup
			json.Unmarshal(n.V, &x)
			c.attributes(where, x.Attributes, membersOf(d, "attr"))
			c.agroups(where, x.AttributeGroup, membersOf(d, "agref"))
		}
	}
}

func evalTree(e *Env, raw json.RawMessage) Verdict {
	var c ProjCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	st := statsOf(c.P)
	v := Verdict{NonTrivial: st["components"] > 1 || st["elem.anon"] > 0, Labels: st.labels()}
	b, infra := e.treeTypes()
	if infra != "" {
		return Verdict{Infra: infra}
	}
	job := &Job{Files: RenderAll(c.P)}
	for i, l := range Langs {
		r := Run{Lang: l, Extract: true, Tree: true, Again: i%2 == len(raw)%2}
		for _, f := range c.P.Files {
			r.Files = append(r.Files, f.Path)
		}
		plain := r
		plain.Extract = false
		job.Runs = append(job.Runs, r, plain)
	}
	res := e.W.Do(job)
	if res.Infra != "" {
		return Verdict{Infra: res.Infra}
	}
	if res.Died != "" || res.Hung {
		v.Problems = append(v.Problems, Problem{"crash", "", "", fmt.Sprintf("hung=%v %s", res.Hung, trunc(res.Died, 600))})
		return v
	}
	for i, r := range res.Runs {
		l := Langs[i/2]
		extract := i%2 == 0
		if r.Panic != "" || r.Err != "" {
			v.Problems = append(v.Problems, Problem{"crash", l, r.ErrAt, r.Err + trunc(r.Panic, 600)})
			continue
		}
		if extract && len(r.Outs)+len(r.Stray) > 0 {
			v.Problems = append(v.Problems, Problem{"written", l, "", fmt.Sprintf("extraction changes the file system: %v %v", sortedKeys(r.Outs), r.Stray)})
		}
		for fi, f := range c.P.Files {
			cmp := &treeCmp{p: c.P, b: b[l], lang: l, path: f.Path}
			if !extract {
				cmp.path = "(generation) " + f.Path
			}
			cmp.file(fi, r.Tree[f.Path])
			v.Problems = append(v.Problems, cmp.out...)
		}
	}
	return v
}

func init() {
	register(&Prop{ID: "C22", Quick: 9000, Thorough: 120000,
		Rule:   "a random schema project (as for C02-C10) is parsed in extraction mode and in generation mode for all five languages, for some of them twice with the same options; the components left in Options.ProtoTree are compared, in order, with those of the abstract schema (kind, name, documentation, base, variety, member types, enumeration values, members with type, occurrence and use), and the file system before and after extraction; non-trivial: two or more components or an anonymous type",
		Assume: []string{"a type may be given by its name or by anything it is resolved to on the way to the target type of its datatype"},
		Gen: projGen(func(c *GenCfg, tier string) {
			full(c, tier)
			c.MaxFiles, c.MaxComps, c.MaxMembers = 3, 8, 5
		}), Eval: evalTree})
}
