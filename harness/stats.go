package main

import "strings"

// Stats counts the features of a project. They classify cases (evidence) and
// decide which cases are non-trivial for a property.
type Stats map[string]int

func statsOf(p *Project) Stats {
	s := Stats{}
	for fi := range p.Files {
		f := &p.Files[fi]
		s["files"]++
		for _, l := range f.Links {
			s[l.K]++
			if l.K == "import" && p.Files[l.To].TNS == "" {
				s["import.no-namespace"]++
			}
			if l.LocFst {
				s["import.locfirst"]++
			}
		}
		if f.TNS == "" && p.EffNS(fi) != "" {
			s["chameleon"]++
		}
		if f.TNS == "" {
			s["no-namespace"]++
		}
		if f.Style.Encoding != "" {
			s["encoding"]++
		}
		c := &statter{s: s, fi: fi}
		for i := range f.Comps {
			c.comp(&f.Comps[i])
		}
	}
	if s["files"] > 1 {
		s["multi-file"] = 1
	}
	return s
}

type statter struct {
	s  Stats
	fi int
}

func (c *statter) name(n string) {
	if n == "" {
		return
	}
	c.s["names"]++
	for _, r := range n {
		if r >= 0x80 {
			c.s["name.unicode"]++
			break
		}
	}
	if strings.ContainsAny(n, "-_.") {
		c.s["name.punct"]++
	}
	l := strings.ToLower(n)
	for _, lang := range []string{"C", "Java", "Rust", "TypeScript"} {
		if reserved[lang][l] {
			c.s["name.keyword"]++
			break
		}
	}
}

func (c *statter) ref(r *Ref, k string) {
	if r == nil {
		return
	}
	c.s[k]++
	if r.B == "" && r.F != c.fi {
		c.s["cross-file"]++
		c.s["cross."+k]++
	}
}

func (c *statter) doc(d string) {
	if d != "" {
		c.s["doc"]++
	}
}

func (c *statter) comp(x *Comp) {
	c.s[x.Kind()]++
	c.s["components"]++
	switch {
	case x.ST != nil:
		c.st(x.ST, "")
	case x.CT != nil:
		c.ct(x.CT)
	case x.El != nil:
		c.particle(x.El, false)
	case x.At != nil:
		c.attr(x.At)
	case x.Gr != nil:
		c.name(x.Gr.Name)
		c.doc(x.Gr.Doc)
		c.particle(x.Gr.P, false)
	case x.AG != nil:
		c.name(x.AG.Name)
		c.doc(x.AG.Doc)
		c.attrs(x.AG.Attrs)
	}
}

func (c *statter) st(s *SType, pre string) {
	c.name(s.Name)
	c.doc(s.Doc)
	c.s[pre+s.Var]++
	if s.Base != nil && s.Base.B == "" {
		c.ref(s.Base, "st.chain")
	} else if s.Base != nil {
		c.s["builtin."+s.Base.B]++
	}
	for i := range s.Members {
		if s.Members[i].B == "" {
			c.ref(&s.Members[i], "union.member.ref")
		}
	}
	for _, m := range s.Inl {
		c.st(m, "union.inline.")
	}
	for _, f := range s.Facets {
		if f.K == "enumeration" {
			c.s["enum"]++
		} else {
			c.s["facet"]++
		}
	}
	if s.Inline != nil {
		c.s["st.inline"]++
		c.st(s.Inline, "inline.")
	}
}

func (c *statter) ct(t *CType) {
	c.name(t.Name)
	c.doc(t.Doc)
	if t.Deriv != "" {
		c.s["deriv"]++
		c.s["deriv."+t.Deriv]++
		if t.Base.B == "" {
			c.ref(t.Base, "base.ref")
		} else {
			c.s["base.builtin"]++
		}
	}
	if t.ST != nil {
		c.s["deriv.srestr.inline"]++
		c.st(t.ST, "inline.")
	}
	if t.P != nil && t.P.K == "group" {
		c.s["group.only"]++
	}
	if t.P != nil {
		c.particle(t.P, false)
	}
	c.attrs(t.Attrs)
}

func (c *statter) attrs(as []AttrItem) {
	for _, a := range as {
		if a.G != nil {
			c.ref(a.G, "attributeGroup.ref")
			continue
		}
		c.s["attr"]++
		c.s["attr.use."+a.A.Use]++
		c.attr(a.A)
	}
}

func (c *statter) attr(a *Attr) {
	c.name(a.Name)
	c.doc(a.Doc)
	switch {
	case a.Ref != nil:
		c.ref(a.Ref, "attr.ref")
	case a.ST != nil:
		c.s["attr.inline"]++
		c.st(a.ST, "inline.")
	case a.Type != nil && a.Type.B == "":
		c.ref(a.Type, "attr.type.ref")
	case a.Type != nil:
		c.s["builtin."+a.Type.B]++
	default:
		c.s["attr.untyped"]++
	}
}

func (c *statter) particle(p *Particle, plural bool) {
	if p == nil {
		return
	}
	pl := maxPlural(p.Max)
	if pl {
		c.s["maxoccurs"]++
		c.s["maxoccurs."+p.K]++
	}
	if plural {
		c.s["plural.inherited"]++
	}
	switch p.K {
	case "seq", "choice", "all":
		c.s["model."+p.K]++
		for _, q := range p.Items {
			if q.K == "seq" || q.K == "choice" {
				c.s["model.nested"]++
			}
			c.particle(q, plural || pl)
		}
	case "group":
		c.ref(p.Ref, "group.ref")
	case "any":
		c.s["any"]++
	case "elem":
		c.s["elem"]++
		c.name(p.Name)
		c.doc(p.Doc)
		switch {
		case p.Ref != nil:
			c.ref(p.Ref, "elem.ref")
		case p.CT != nil:
			c.s["elem.anon"]++
			c.ct(p.CT)
		case p.ST != nil:
			c.s["elem.inline"]++
			c.st(p.ST, "inline.")
		case p.Type != nil && p.Type.B == "":
			c.ref(p.Type, "elem.type.ref")
		case p.Type != nil:
			c.s["builtin."+p.Type.B]++
		default:
			c.s["elem.untyped"]++
		}
	}
}

// labels lists the features a project has, leaving out the datatype counts.
func (s Stats) labels() []string {
	var out []string
	for _, k := range sortedKeys(s) {
		if s[k] > 0 && !strings.HasPrefix(k, "builtin.") {
			out = append(out, k)
		}
	}
	return out
}

// has makes a non-triviality rule: at least one of the features is present.
func has(keys ...string) func(p *Project) (bool, []string) {
	return func(p *Project) (bool, []string) {
		s := statsOf(p)
		for _, k := range keys {
			if s[k] > 0 {
				return true, s.labels()
			}
		}
		return false, s.labels()
	}
}
