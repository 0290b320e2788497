package main

// The abstract schema model. A Project is a set of schema files; it is drawn
// by the generators (gen.go), rendered to XSD text (render.go), and is the
// source from which the expected declarations are derived (expect.go). It is
// plain JSON so that a shrunk failure can be saved and replayed without the
// generator library.

// Ref names a type, element, attribute, group or attribute group. B is set
// for an XSD built-in datatype; otherwise N is the local name of a component
// of file F of the project.
type Ref struct {
	B string `json:"b,omitempty"`
	F int    `json:"f,omitempty"`
	N string `json:"n,omitempty"`
}

// Facet is one restriction facet (enumeration, pattern, length, ...).
type Facet struct {
	K   string `json:"k"`
	V   string `json:"v"`
	Doc string `json:"doc,omitempty"`
	Fix bool   `json:"fix,omitempty"`
}

// SType is a simple type definition, named (global) or anonymous (inline).
type SType struct {
	Name    string   `json:"name,omitempty"`
	Doc     string   `json:"doc,omitempty"`
	Var     string   `json:"var"` // restr, list, union
	Base    *Ref     `json:"base,omitempty"`
	Inline  *SType   `json:"inline,omitempty"` // inline base (restr) or item type (list)
	Members []Ref    `json:"members,omitempty"`
	Inl     []*SType `json:"inl,omitempty"` // anonymous member types of a union: restrictions
	Facets  []Facet  `json:"facets,omitempty"`
}

// Particle is a model group, an element particle, a group reference or xs:any.
type Particle struct {
	K     string      `json:"k"` // seq, choice, all, elem, group, any
	Min   string      `json:"min,omitempty"`
	Max   string      `json:"max,omitempty"`
	Items []*Particle `json:"items,omitempty"`
	Name  string      `json:"name,omitempty"`
	Ref   *Ref        `json:"ref,omitempty"`
	Type  *Ref        `json:"type,omitempty"`
	ST    *SType      `json:"st,omitempty"`
	CT    *CType      `json:"ct,omitempty"`
	Doc   string      `json:"doc,omitempty"`
	Nil   bool        `json:"nil,omitempty"`
	Key   bool        `json:"key,omitempty"`   // carries identity constraints
	Abs   bool        `json:"abs,omitempty"`   // abstract
	Subst *Ref        `json:"subst,omitempty"` // substitutionGroup
	Def   string      `json:"def,omitempty"`
	Fix   string      `json:"fix,omitempty"`
}

// Attr is an attribute declaration or reference.
type Attr struct {
	Name string `json:"name,omitempty"`
	Ref  *Ref   `json:"ref,omitempty"`
	Type *Ref   `json:"type,omitempty"`
	ST   *SType `json:"st,omitempty"`
	Use  string `json:"use,omitempty"`
	Doc  string `json:"doc,omitempty"`
	Def  string `json:"def,omitempty"`
	Fix  string `json:"fix,omitempty"`
}

// AttrItem is an attribute or an attribute group reference.
type AttrItem struct {
	A *Attr `json:"a,omitempty"`
	G *Ref  `json:"g,omitempty"`
}

// CType is a complex type definition, named (global) or anonymous (inline).
type CType struct {
	Name    string     `json:"name,omitempty"`
	Doc     string     `json:"doc,omitempty"`
	Mixed   bool       `json:"mixed,omitempty"`
	Abs     bool       `json:"abs,omitempty"`
	Facets  []Facet    `json:"facets,omitempty"` // srestr
	ST      *SType     `json:"st,omitempty"`     // srestr: anonymous type of the content
	Deriv   string     `json:"deriv,omitempty"`  // "", sext, cext, srestr, crestr
	Base    *Ref       `json:"base,omitempty"`
	P       *Particle  `json:"p,omitempty"`
	Attrs   []AttrItem `json:"attrs,omitempty"`
	AnyAttr bool       `json:"anyattr,omitempty"`
}

// GDef is a named model group definition.
type GDef struct {
	Name string    `json:"name"`
	Doc  string    `json:"doc,omitempty"`
	P    *Particle `json:"p"`
}

// AGDef is a named attribute group definition.
type AGDef struct {
	Name  string     `json:"name"`
	Doc   string     `json:"doc,omitempty"`
	Attrs []AttrItem `json:"attrs,omitempty"`
}

// Comp is one global component of a file.
type Comp struct {
	ST *SType    `json:"st,omitempty"`
	CT *CType    `json:"ct,omitempty"`
	El *Particle `json:"el,omitempty"`
	At *Attr     `json:"at,omitempty"`
	Gr *GDef     `json:"gr,omitempty"`
	AG *AGDef    `json:"ag,omitempty"`
}

func (c *Comp) Name() string {
	switch {
	case c.ST != nil:
		return c.ST.Name
	case c.CT != nil:
		return c.CT.Name
	case c.El != nil:
		return c.El.Name
	case c.At != nil:
		return c.At.Name
	case c.Gr != nil:
		return c.Gr.Name
	case c.AG != nil:
		return c.AG.Name
	}
	return ""
}

func (c *Comp) Kind() string {
	switch {
	case c.ST != nil:
		return "simpleType"
	case c.CT != nil:
		return "complexType"
	case c.El != nil:
		return "element"
	case c.At != nil:
		return "attribute"
	case c.Gr != nil:
		return "group"
	case c.AG != nil:
		return "attributeGroup"
	}
	return ""
}

// Link is an import or include of another file of the project.
type Link struct {
	K      string `json:"k"` // import, include
	To     int    `json:"to"`
	LocFst bool   `json:"locfst,omitempty"` // schemaLocation before namespace
	Prefix string `json:"prefix,omitempty"` // prefix this file uses for the target namespace
}

// Style holds the lexical choices of a file. They never carry meaning.
type Style struct {
	XS       string `json:"xs"`             // prefix of the XSD namespace, "" = default namespace
	T        string `json:"t"`              // prefix of the target namespace, "" = default namespace (only when XS != "")
	AttrPerm int    `json:"perm,omitempty"` // attribute order variant
	Indent   int    `json:"indent,omitempty"`
	Comments bool   `json:"comments,omitempty"`
	SQuote   bool   `json:"squote,omitempty"`
	Expand   bool   `json:"expand,omitempty"` // <x></x> instead of <x/>
	Encoding string `json:"enc,omitempty"`    // "", utf-8, iso-8859-1, windows-1251, ...
	BOM      bool   `json:"bom,omitempty"`
	NoDecl   bool   `json:"nodecl,omitempty"`
	CRLF     bool   `json:"crlf,omitempty"`
	CData    bool   `json:"cdata,omitempty"`   // documentation text in CDATA sections
	Foreign  bool   `json:"foreign,omitempty"` // attributes of a foreign namespace on schema elements
	IDs      bool   `json:"ids,omitempty"`     // id="..." on schema elements
	PI       bool   `json:"pi,omitempty"`
	Notation bool   `json:"notation,omitempty"`
	AppInfo  bool   `json:"appinfo,omitempty"`
	DocAttrs bool   `json:"docattrs,omitempty"` // xml:lang and source on documentation
	Notes    bool   `json:"notes,omitempty"`    // annotations of what is no component: model groups, derivations, links, the schema
	DocSplit bool   `json:"docsplit,omitempty"` // a documentation element for each line
	DocMark  bool   `json:"docmark,omitempty"`  // words of documentation marked up
	LocDot   bool   `json:"locdot,omitempty"`   // ./ before schema locations
	DupLinks bool   `json:"duplinks,omitempty"`
	LocalNS  int    `json:"localns,omitempty"` // namespace prefixes are declared by 1 the components, 2 what uses them
	Forms    bool   `json:"forms,omitempty"`   // attributes which do not bear on the declarations: form, block, final, version
	Doctype  bool   `json:"doctype,omitempty"`
	Remote   bool   `json:"remote,omitempty"`  // imports and includes of schemas which are not local, and are not used
	CharRef  bool   `json:"charref,omitempty"` // character references in names' places where allowed (attribute values)
	Num      int    `json:"num,omitempty"`     // spelling of occurrence numbers: 1 leading zero, 2 plus sign
	Pad      bool   `json:"pad,omitempty"`     // white space around attribute values it is not part of
	Bulk     int    `json:"bulk,omitempty"`    // KiB of comments
}

// File is one schema document.
type File struct {
	Path  string `json:"path"`
	TNS   string `json:"tns,omitempty"`
	Links []Link `json:"links,omitempty"`
	Comps []Comp `json:"comps"`
	Style Style  `json:"style"`
}

// Project is a set of schema documents in one directory tree.
type Project struct {
	Files []File `json:"files"`
}

// Lookup finds the component a reference names, by kind.
func (p *Project) Lookup(r Ref, kind string) *Comp {
	if r.F < 0 || r.F >= len(p.Files) {
		return nil
	}
	f := &p.Files[r.F]
	for i := range f.Comps {
		c := &f.Comps[i]
		if c.Name() != r.N {
			continue
		}
		k := c.Kind()
		if k == kind || (kind == "type" && (k == "simpleType" || k == "complexType")) {
			return c
		}
	}
	return nil
}

// Clone returns a deep copy.
func (p *Project) Clone() *Project {
	var q Project
	mustJSON(p, &q)
	return &q
}

// importsNoNS tells whether a file imports one without a target namespace:
// unprefixed names then must not be in any namespace.
func (p *Project) importsNoNS(f *File) bool {
	for _, l := range f.Links {
		if l.K == "import" && p.Files[l.To].TNS == "" {
			return true
		}
	}
	return false
}

// EffNS is the namespace the components of a file belong to: a file without a
// target namespace takes the one of the file which includes it.
func (p *Project) EffNS(i int) string {
	return p.effNS(i, map[int]bool{})
}

func (p *Project) effNS(i int, seen map[int]bool) string {
	if p.Files[i].TNS != "" || seen[i] {
		return p.Files[i].TNS
	}
	seen[i] = true
	for k := range p.Files {
		for _, l := range p.Files[k].Links {
			if l.K == "include" && l.To == i {
				if ns := p.effNS(k, seen); ns != "" {
					return ns
				}
			}
		}
	}
	return ""
}
