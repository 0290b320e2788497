package main

import "strings"

// ---- C

var cSpec = words("unsigned signed char short int long float double bool void _Bool uint8_t int8_t uint16_t int16_t uint32_t int32_t uint64_t int64_t size_t")

// cType reads a type specifier: built-in words or one identifier.
func cType(p *ps) TE {
	if p.is("struct") || p.is("enum") {
		p.fail("unexpected %q", p.peek().v)
	}
	t := p.word()
	if cSpec[t] {
		parts := []string{t}
		for cSpec[p.peek().v] && p.peek().k == 'i' {
			parts = append(parts, p.word())
		}
		return starC(p, TE{Base: strings.Join(parts, " ")})
	}
	if reserved["C"][t] {
		p.fail("reserved word %q used as a type", t)
	}
	return starC(p, TE{Base: t})
}

// starC accepts pointer declarators.
func starC(p *ps, t TE) TE {
	for p.accept("*") {
		t.Base += "*"
	}
	return t
}

func cDeclarator(p *ps, t *TE) string {
	id := p.ident()
	for p.accept("[") {
		if p.peek().k == 'n' {
			p.next()
		}
		p.want("]")
		t.Arr++
	}
	return id
}

func parseC(p *ps, of *OutFile) {
	for !p.eof() {
		p.want("typedef")
		doc := p.takeDoc()
		if p.accept("struct") {
			if p.peek().k == 'i' {
				p.ident()
			}
			p.want("{")
			d := OutDecl{Kind: "struct", Doc: doc}
			for !p.is("}") {
				p.takeDoc()
				var m OutMember
				m.T = cType(p)
				m.Ident = cDeclarator(p, &m.T)
				p.want(";")
				// trailing comment carries the attribute marker
				if p.i < len(p.t) && p.t[p.i].k == 'c' && !strings.Contains(p.src[p.t[p.i-1].pos:p.t[p.i].pos], "\n") {
					c := strings.TrimSpace(p.t[p.i].v)
					for _, f := range strings.Split(c, ",") {
						switch strings.TrimSpace(f) {
						case "attr":
							m.Kind = "attr"
						case "optional":
							m.Opt = true
						}
					}
					p.i++
				}
				if m.Kind == "" {
					m.Kind = "plain"
				}
				m.Req = m.Kind == "attr" && !m.Opt
				d.Members = append(d.Members, m)
			}
			p.want("}")
			p.takeDoc()
			d.Ident = p.ident()
			p.want(";")
			of.Decls = append(of.Decls, d)
			continue
		}
		d := OutDecl{Kind: "alias", Doc: doc}
		d.T = cType(p)
		d.Ident = cDeclarator(p, &d.T)
		p.want(";")
		of.Decls = append(of.Decls, d)
	}
}

// ---- Java

func javaType(p *ps) TE {
	id := p.ident()
	for p.accept(".") {
		id += "." + p.ident()
	}
	if p.accept("<") {
		in := javaType(p)
		p.want(">")
		if id != "List" && id != "java.util.List" {
			p.fail("unexpected generic type %q", id)
		}
		in.Arr++
		return in
	}
	t := TE{Base: id}
	for p.is("[") {
		p.want("[")
		p.want("]")
		t.Arr++
	}
	return t
}

type annot struct {
	name string
	args map[string]string
}

func javaAnnots(p *ps) []annot {
	var out []annot
	for p.accept("@") {
		a := annot{name: p.ident(), args: map[string]string{}}
		if p.accept("(") {
			for !p.is(")") {
				k := p.ident()
				if p.accept("=") {
					t := p.next()
					v := t.v
					if t.k == 's' {
						a.args[k] = v
					} else {
						for p.accept(".") {
							v += "." + p.ident()
						}
						a.args[k] = v
					}
				} else {
					for p.accept(".") {
						k += "." + p.ident()
					}
					a.args["value"] = k
				}
				if !p.accept(",") {
					break
				}
			}
			p.want(")")
		}
		out = append(out, a)
	}
	return out
}

func findAnnot(as []annot, name string) *annot {
	for i := range as {
		if as[i].name == name {
			return &as[i]
		}
	}
	return nil
}

func parseJava(p *ps, of *OutFile) {
	p.want("package")
	of.Package = p.ident()
	for p.accept(".") {
		of.Package += "." + p.ident()
	}
	p.want(";")
	for p.is("import") {
		p.want("import")
		s := p.ident()
		for p.accept(".") {
			s += "." + p.ident()
		}
		p.want(";")
		of.Imports = append(of.Imports, s)
	}
	for !p.eof() {
		as := javaAnnots(p)
		doc := p.takeDoc()
		p.want("public")
		p.want("class")
		d := OutDecl{Kind: "struct", Doc: doc}
		d.Ident = p.ident()
		if p.accept("extends") {
			t := javaType(p)
			d.Ext = &t
		}
		p.want("{")
		for !p.is("}") {
			p.takeDoc()
			mas := javaAnnots(p)
			if !p.accept("protected") {
				p.want("private")
			}
			var m OutMember
			m.Kind = "plain"
			m.T = javaType(p)
			m.Ident = p.ident()
			p.want(";")
			for _, a := range mas {
				switch a.name {
				case "XmlAttribute":
					m.Kind, m.XML = "attr", a.args["name"]
					m.Req = a.args["required"] == "true"
					m.Opt = !m.Req
				case "XmlElement":
					m.Kind, m.XML = "elem", a.args["name"]
				case "XmlValue":
					m.Kind = "chardata"
				}
			}
			d.Members = append(d.Members, m)
		}
		p.want("}")
		// A class annotated with XmlAttribute/XmlElement wraps one value.
		for _, n := range []string{"XmlAttribute", "XmlElement"} {
			if a := findAnnot(as, n); a != nil && len(d.Members) == 1 {
				d.Kind, d.XML, d.T = "alias", a.args["name"], d.Members[0].T
			}
		}
		of.Decls = append(of.Decls, d)
	}
}

// ---- Rust

func rustType(p *ps) TE {
	id := p.word()
	for p.accept("::") {
		id += "::" + p.word()
	}
	if p.accept("<") {
		in := rustType(p)
		p.want(">")
		switch id {
		case "Vec":
			in.Arr++
		case "Option":
			in.Opt = true
		case "Box":
		default:
			p.fail("unexpected generic type %q", id)
		}
		return in
	}
	if reserved["Rust"][id] {
		p.fail("reserved word %q used as a type", id)
	}
	return TE{Base: id}
}

func parseRust(p *ps, of *OutFile) {
	for {
		switch {
		case p.is("#") && p.peekAt(2).v == "macro_use":
			for i := 0; i < 4; i++ {
				p.next()
			}
			continue
		case p.is("extern"):
			p.want("extern")
			p.want("crate")
			of.Imports = append(of.Imports, p.ident())
			p.want(";")
			continue
		case p.is("use"):
			p.want("use")
			s := p.word()
			for p.accept("::") {
				s += "::" + p.word()
			}
			p.want(";")
			of.Imports = append(of.Imports, s)
			continue
		}
		break
	}
	for !p.eof() {
		derived := false
		for p.is("#") {
			p.want("#")
			p.want("[")
			if p.word() == "derive" {
				derived = true
			}
			p.want("(")
			for !p.is(")") {
				p.word()
				if !p.accept(",") {
					break
				}
			}
			p.want(")")
			p.want("]")
		}
		if !derived {
			p.fail("declaration without derive attribute")
		}
		doc := p.takeDoc()
		p.want("pub")
		p.want("struct")
		d := OutDecl{Kind: "struct", Doc: doc}
		d.Ident = p.ident()
		p.want("{")
		for !p.is("}") {
			p.takeDoc()
			var m OutMember
			m.Kind = "plain"
			for p.is("#") {
				p.want("#")
				p.want("[")
				if p.word() != "serde" {
					p.fail("unexpected field attribute")
				}
				p.want("(")
				for !p.is(")") {
					k := p.word()
					if p.accept("=") {
						v := p.str()
						if k == "rename" {
							m.XML = v
						}
					} else if k == "flatten" {
						m.Kind = "embed"
					}
					if !p.accept(",") {
						break
					}
				}
				p.want(")")
				p.want("]")
			}
			if m.XML == "$value" {
				m.Kind = "chardata"
				m.XML = ""
			}
			p.want("pub")
			m.Ident = p.ident()
			p.want(":")
			m.T = rustType(p)
			m.Opt = m.T.Opt
			m.Req = !m.T.Opt
			d.Members = append(d.Members, m)
			if !p.accept(",") {
				break
			}
		}
		p.want("}")
		of.Decls = append(of.Decls, d)
	}
}

// ---- TypeScript

func tsPrimary(p *ps) TE {
	var t TE
	if p.accept("null") || p.accept("undefined") {
		t = TE{Base: "null"}
	} else if p.accept("void") {
		t = TE{Base: "void"}
	} else if p.accept("(") {
		t = tsType(p)
		p.want(")")
	} else {
		id := p.ident()
		for p.accept(".") {
			id += "." + p.ident()
		}
		if p.accept("<") {
			in := tsType(p)
			p.want(">")
			if id != "Array" && id != "ReadonlyArray" {
				p.fail("unexpected generic type %q", id)
			}
			in.Arr++
			t = in
		} else {
			t = TE{Base: id}
		}
	}
	for p.is("[") {
		p.want("[")
		p.want("]")
		t.Arr++
	}
	return t
}

func tsType(p *ps) TE {
	t := tsPrimary(p)
	for p.accept("|") {
		u := tsPrimary(p)
		switch {
		case u.Base == "null" || u.Base == "undefined":
			t.Opt = true
		case t.Base == "null" || t.Base == "undefined":
			t = u
			t.Opt = true
		default:
			p.fail("unexpected union type")
		}
	}
	return t
}

func parseTS(p *ps, of *OutFile) {
	for !p.eof() {
		p.want("export")
		doc := p.takeDoc()
		switch {
		case p.accept("type"):
			d := OutDecl{Kind: "alias", Doc: doc}
			d.Ident = p.ident()
			p.want("=")
			d.T = tsType(p)
			p.want(";")
			of.Decls = append(of.Decls, d)
		case p.accept("enum"):
			d := OutDecl{Kind: "enum", Doc: doc}
			d.Ident = p.ident()
			p.want("{")
			for !p.is("}") {
				t := p.next()
				if t.k != 'i' && t.k != 's' {
					p.fail("bad enum member name %q", t.v)
				}
				name := t.v
				val := ""
				if p.accept("=") {
					v := p.next()
					if v.k == 'p' && v.v == "-" && p.is("Infinity") {
						v = tok{'n', "-" + p.next().v, v.pos}
					} else if v.k == 'i' && (v.v == "Infinity" || v.v == "NaN") {
						v.k = 'n'
					}
					switch v.k {
					case 's':
						val = "'" + v.v
					case 'n':
						val = v.v
					default:
						p.fail("bad enum value %q", v.v)
					}
				}
				d.Enum = append(d.Enum, [2]string{name, val})
				if !p.accept(",") {
					break
				}
			}
			p.want("}")
			of.Decls = append(of.Decls, d)
		default:
			if !p.accept("class") {
				p.want("interface")
			}
			d := OutDecl{Kind: "struct", Doc: doc}
			d.Ident = p.ident()
			if p.accept("extends") {
				t := tsType(p)
				d.Ext = &t
			}
			p.want("{")
			for !p.is("}") {
				p.takeDoc()
				var m OutMember
				m.Kind = "plain"
				t := p.next()
				if t.k != 'i' && t.k != 's' {
					p.fail("bad member name %q", t.v)
				}
				m.Ident = t.v
				if p.accept("?") {
					m.Opt = true
				}
				p.want(":")
				m.T = tsType(p)
				m.Opt = m.Opt || m.T.Opt
				m.Req = !m.Opt
				p.want(";")
				d.Members = append(d.Members, m)
			}
			p.want("}")
			of.Decls = append(of.Decls, d)
		}
	}
}
