package main

import "strings"

// The reference model: what a correct generator declares for a project. It is
// derived from the abstract schema alone and knows nothing about how the
// generator works.

// XType is a type with simple types already reduced to the datatype they are
// made of: either an XSD built-in (B) or the declaration of a named structure
// (D, the XSD name), inside Arr list levels.
type XType struct {
	B   string
	D   string
	DK  string // complex, union, group, agroup
	Arr int
}

func (x XType) String() string {
	s := x.D
	if x.B != "" {
		s = "xs:" + x.B
	}
	for i := 0; i < x.Arr; i++ {
		s = "list(" + s + ")"
	}
	return s
}

// XMember is one expected member of a structure.
type XMember struct {
	Name   string // XSD local name
	Prefix string // prefix written on a reference, which an identifier may carry
	NS     string // of a reference to an element; local declarations have none
	Kind   string // attr, elem, gref, agref, value, base
	T      XType
	Plural bool
	Req    bool // attributes: use="required"
	Doc    string
}

// XDecl is one expected declaration.
type XDecl struct {
	Name    string
	Comp    string // simpleType, complexType, element, attribute, group, attributeGroup, anonymous
	Struct  bool
	T       XType // !Struct
	Members []XMember
	Enum    []string
	EnumNum bool
	Doc     string
	List    bool
}

type expecter struct {
	p   *Project
	fi  int
	f   *File
	out []XDecl
}

// Expect returns the declarations a correct generator emits for one file.
func Expect(p *Project, fi int) []XDecl {
	e := &expecter{p: p, fi: fi, f: &p.Files[fi]}
	for i := range e.f.Comps {
		e.comp(&e.f.Comps[i])
	}
	return e.out
}

// ResolveType reduces a reference to a type definition.
func ResolveType(p *Project, r Ref) XType {
	for depth := 0; depth < 100; depth++ {
		if r.B != "" {
			return XType{B: r.B}
		}
		c := p.Lookup(r, "type")
		if c == nil {
			return XType{D: "?" + r.N}
		}
		if c.CT != nil {
			return XType{D: c.CT.Name, DK: "complex"}
		}
		return resolveST(p, c.ST)
	}
	return XType{D: "?cycle"}
}

func resolveST(p *Project, s *SType) XType {
	switch s.Var {
	case "list":
		var t XType
		if s.Inline != nil {
			t = resolveST(p, s.Inline)
		} else {
			t = ResolveType(p, *s.Base)
		}
		t.Arr++
		return t
	case "union":
		return XType{D: s.Name, DK: "union"}
	}
	if s.Inline != nil {
		t := resolveST(p, s.Inline)
		if t.DK == "union" && t.D == "" {
			t.D = s.Name
		}
		return t
	}
	return ResolveType(p, *s.Base)
}

func (e *expecter) elemType(p *Particle) XType {
	switch {
	case p.Ref != nil:
		c := e.p.Lookup(*p.Ref, "element")
		if c == nil {
			return XType{D: "?" + p.Ref.N}
		}
		return e.elemType(c.El)
	case p.CT != nil:
		return XType{D: p.Name, DK: "complex"}
	case p.ST != nil:
		if p.ST.Var == "union" {
			return XType{B: "anyType"}
		}
		return resolveST(e.p, p.ST)
	case p.Type != nil:
		return ResolveType(e.p, *p.Type)
	}
	return XType{B: "anyType"}
}

func (e *expecter) attrType(a *Attr) XType {
	switch {
	case a.Ref != nil:
		if a.Ref.B != "" {
			return XType{B: "string"}
		}
		c := e.p.Lookup(*a.Ref, "attribute")
		if c == nil {
			return XType{D: "?" + a.Ref.N}
		}
		return e.attrType(c.At)
	case a.ST != nil:
		if a.ST.Var == "union" {
			return XType{B: "anyType"}
		}
		return resolveST(e.p, a.ST)
	case a.Type != nil:
		return ResolveType(e.p, *a.Type)
	}
	return XType{B: "anyType"}
}

func (e *expecter) refPrefix(r Ref) string {
	rr := &renderer{p: e.p, fi: e.fi, f: e.f, st: e.f.Style}
	q := rr.qref(r)
	if i := strings.Index(q, ":"); i >= 0 {
		return q[:i]
	}
	return ""
}

func (e *expecter) attrItems(items []AttrItem) (ags, attrs []XMember) {
	for _, it := range items {
		if it.G != nil {
			ags = append(ags, XMember{Name: it.G.N, Prefix: e.refPrefix(*it.G), Kind: "agref", T: XType{D: it.G.N, DK: "agroup"}})
			continue
		}
		a := it.A
		m := XMember{Kind: "attr", Name: a.Name, T: e.attrType(a), Req: a.Use == "required", Doc: a.Doc}
		if a.Ref != nil {
			m.Name = a.Ref.N
			if a.Ref.B != "" {
				m.Name = localPart(a.Ref.B)
			}
			m.Prefix = e.refPrefix(*a.Ref)
		}
		attrs = append(attrs, m)
	}
	return
}

// maxPlural tells whether a maxOccurs value allows more than one occurrence.
func maxPlural(v string) bool {
	if v == "unbounded" {
		return true
	}
	v = strings.TrimLeft(strings.TrimPrefix(v, "+"), "0")
	return v != "" && v != "1"
}

func (e *expecter) particles(p *Particle, plural bool, groups, elems *[]XMember) {
	if p == nil {
		return
	}
	pl := plural || maxPlural(p.Max)
	switch p.K {
	case "seq", "choice", "all":
		for _, it := range p.Items {
			e.particles(it, pl, groups, elems)
		}
	case "group":
		for i := range *groups {
			if (*groups)[i].Name == p.Ref.N {
				(*groups)[i].Plural = (*groups)[i].Plural || pl
				return
			}
		}
		*groups = append(*groups, XMember{Name: p.Ref.N, Prefix: e.refPrefix(*p.Ref), Kind: "gref", T: XType{D: p.Ref.N, DK: "group"}, Plural: pl})
	case "elem":
		m := XMember{Name: p.Name, Kind: "elem", T: e.elemType(p), Plural: pl, Doc: p.Doc}
		if p.Ref != nil {
			m.Name, m.Prefix, m.NS = p.Ref.N, e.refPrefix(*p.Ref), "{"+e.p.EffNS(p.Ref.F)+"}"
		}
		for i := range *elems {
			if (*elems)[i].Name == m.Name && (*elems)[i].NS == m.NS {
				(*elems)[i].Plural = (*elems)[i].Plural || pl
				return
			}
		}
		*elems = append(*elems, m)
		if p.CT != nil {
			e.anon(p)
		}
	}
}

func (e *expecter) anon(p *Particle) {
	d := e.complexDecl(p.CT)
	d.Name = p.Name
	d.Comp = "anonymous"
	if d.Doc == "" {
		d.Doc = p.Doc
	}
	e.out = append(e.out, d)
}

func (e *expecter) complexDecl(c *CType) XDecl {
	d := XDecl{Name: c.Name, Comp: "complexType", Struct: true, Doc: c.Doc}
	ags, attrs := e.attrItems(c.Attrs)
	var groups, elems []XMember
	e.particles(c.P, false, &groups, &elems)
	d.Members = append(append(append(append(d.Members, ags...), attrs...), groups...), elems...)
	if c.Base != nil && c.Deriv != "crestr" {
		t := ResolveType(e.p, *c.Base)
		if t.DK == "complex" || t.DK == "union" {
			d.Members = append(d.Members, XMember{Name: t.D, Kind: "base", T: t})
		} else {
			d.Members = append(d.Members, XMember{Name: "value", Kind: "value", T: t})
		}
	}
	return d
}

func (e *expecter) comp(c *Comp) {
	switch {
	case c.ST != nil:
		s := c.ST
		d := XDecl{Name: s.Name, Comp: "simpleType", Doc: s.Doc}
		u := s
		for u.Var == "restr" && u.Inline != nil {
			u = u.Inline // what a restriction of an anonymous type is
		}
		switch u.Var {
		case "union":
			d.Struct = true
			for _, m := range u.Members {
				n := m.N
				if m.B != "" {
					n = m.B
				}
				d.Members = append(d.Members, XMember{Name: n, Kind: "member", T: ResolveType(e.p, m)})
			}
			for _, m := range u.Inl {
				// an anonymous member is called what its base is
				n := m.Base.N
				if m.Base.B != "" {
					n = m.Base.B
				}
				d.Members = append(d.Members, XMember{Name: n, Kind: "member", T: resolveST(e.p, m)})
			}
		default:
			d.T = resolveST(e.p, s)
			d.List = u.Var == "list"
			for _, f := range s.Facets {
				if f.K == "enumeration" {
					d.Enum = append(d.Enum, f.V)
				}
			}
		}
		e.out = append(e.out, d)
	case c.CT != nil:
		d := e.complexDecl(c.CT)
		e.out = append(e.out, d)
	case c.El != nil:
		if c.El.CT != nil {
			d := e.complexDecl(c.El.CT)
			d.Name, d.Comp = c.El.Name, "element"
			if d.Doc == "" {
				d.Doc = c.El.Doc
			}
			e.out = append(e.out, d)
			return
		}
		e.out = append(e.out, XDecl{Name: c.El.Name, Comp: "element", T: e.elemType(c.El), Doc: c.El.Doc})
	case c.At != nil:
		e.out = append(e.out, XDecl{Name: c.At.Name, Comp: "attribute", T: e.attrType(c.At), Doc: c.At.Doc})
	case c.Gr != nil:
		d := XDecl{Name: c.Gr.Name, Comp: "group", Struct: true, Doc: c.Gr.Doc}
		var groups, elems []XMember
		e.particles(c.Gr.P, false, &groups, &elems)
		d.Members = append(groups, elems...)
		e.out = append(e.out, d)
	case c.AG != nil:
		d := XDecl{Name: c.AG.Name, Comp: "attributeGroup", Struct: true, Doc: c.AG.Doc}
		ags, attrs := e.attrItems(c.AG.Attrs)
		d.Members = append(ags, attrs...)
		e.out = append(e.out, d)
	}
}
