package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

func goTE(e ast.Expr) (TE, error) {
	switch x := e.(type) {
	case *ast.StarExpr:
		return goTE(x.X)
	case *ast.ArrayType:
		t, err := goTE(x.Elt)
		t.Arr++
		return t, err
	case *ast.Ident:
		return TE{Base: x.Name}, nil
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			return TE{Base: p.Name + "." + x.Sel.Name}, nil
		}
	case *ast.InterfaceType:
		return TE{Base: "interface{}"}, nil
	}
	return TE{}, fmt.Errorf("unexpected type expression %T", e)
}

func parseGoOut(src string) (*OutFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	of := &OutFile{Lang: "Go", Package: f.Name.Name}
	for _, im := range f.Imports {
		s, _ := strconv.Unquote(im.Path.Value)
		of.Imports = append(of.Imports, s)
	}
	for _, decl := range f.Decls {
		gd, ok := decl.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("unexpected declaration %T", decl)
		}
		if gd.Tok == token.IMPORT {
			continue
		}
		for _, sp := range gd.Specs {
			ts, ok := sp.(*ast.TypeSpec)
			if !ok {
				return nil, fmt.Errorf("unexpected declaration %T", sp)
			}
			d := OutDecl{Ident: ts.Name.Name}
			if gd.Doc != nil {
				var ls []string
				for _, c := range gd.Doc.List {
					ls = append(ls, strings.TrimPrefix(c.Text, "//"))
				}
				d.Doc = strings.Join(ls, "\n")
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				d.Kind = "alias"
				if d.T, err = goTE(ts.Type); err != nil {
					return nil, err
				}
				of.Decls = append(of.Decls, d)
				continue
			}
			d.Kind = "struct"
			for _, fl := range st.Fields.List {
				t, err := goTE(fl.Type)
				if err != nil {
					return nil, err
				}
				tag := ""
				hasTag := false
				if fl.Tag != nil {
					raw, err := strconv.Unquote(fl.Tag.Value)
					if err != nil {
						return nil, err
					}
					tag, hasTag = reflect.StructTag(raw).Lookup("xml")
					if !hasTag {
						return nil, fmt.Errorf("malformed struct tag %q", raw)
					}
				}
				if len(fl.Names) == 0 {
					d.Members = append(d.Members, OutMember{Ident: t.Base, Kind: "embed", T: t})
					continue
				}
				for _, n := range fl.Names {
					if n.Name == "XMLName" && t.Base == "xml.Name" {
						d.XML = tag
						continue
					}
					m := OutMember{Ident: n.Name, T: t, Kind: "plain"}
					if hasTag {
						parts := strings.Split(tag, ",")
						m.XML = parts[0]
						m.Kind = "elem"
						for _, fl := range parts[1:] {
							switch fl {
							case "attr":
								m.Kind = "attr"
							case "chardata":
								m.Kind = "chardata"
							case "omitempty":
								m.Opt = true
							}
						}
						m.Req = m.Kind == "attr" && !m.Opt
					}
					d.Members = append(d.Members, m)
				}
			}
			of.Decls = append(of.Decls, d)
		}
	}
	return of, nil
}

// stubImporter provides the two packages generated code may import.
type stubImporter struct{}

func (stubImporter) Import(path string) (*types.Package, error) {
	switch path {
	case "time":
		p := types.NewPackage("time", "time")
		addStruct(p, "Time")
		p.MarkComplete()
		return p, nil
	case "encoding/xml":
		p := types.NewPackage("encoding/xml", "xml")
		addStruct(p, "Name")
		p.MarkComplete()
		return p, nil
	}
	return nil, fmt.Errorf("unexpected import %q", path)
}

func addStruct(p *types.Package, name string) {
	tn := types.NewTypeName(token.NoPos, p, name, nil)
	types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	p.Scope().Insert(tn)
}

// TypeCheckGo type-checks a set of generated Go files as one package.
func TypeCheckGo(srcs map[string]string) []string {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range sortedKeys(srcs) {
		f, err := parser.ParseFile(fset, n, srcs[n], 0)
		if err != nil {
			return []string{err.Error()}
		}
		files = append(files, f)
	}
	var errs []string
	conf := types.Config{Importer: stubImporter{}, Error: func(e error) { errs = append(errs, e.Error()) }}
	conf.Check("schema", fset, files, nil)
	return errs
}
