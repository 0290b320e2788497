From 3ec03bdba99179fe3d54bcdc202a0454547b8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 01/37] fix: report XML syntax errors instead of silently
 truncating the schema

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..5a06e1f 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -100,10 +101,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		if token, err = decoder.Token(); err == io.EOF {
+			err = nil
 			break
 		}
+		if err != nil {
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
-- 
2.43.0


From d22564a07585e40e91a0ea6595dd9d9ed19c5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 02/37] fix: do not treat annotation content and foreign
 attributes as schema declarations

---
 parser.go | 17 ++++++++++++++---
 schema.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 utils.go  |  8 ++++++++
 3 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 5a06e1f..1e572a0 100644
--- a/parser.go
+++ b/parser.go
@@ -51,6 +51,8 @@ type Options struct {
 	Group          *Stack
 	AttributeGroup *Stack
 	Choice         *Stack
+
+	path []string // local names of the elements which are currently open
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -97,6 +99,7 @@ func (opt *Options) Parse() (err error) {
 	opt.Group = NewStack()
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
+	opt.path = nil
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -113,17 +116,25 @@ func (opt *Options) Parse() (err error) {
 		switch element := token.(type) {
 		case xml.StartElement:
 
+			opt.path = append(opt.path, element.Name.Local)
+			if opt.inAnnotation() {
+				continue
+			}
 			opt.InElement = element.Name.Local
+			element.Attr = schemaAttributes(element)
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
 
 		case xml.EndElement:
-			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
-			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
-				return
+			if !opt.inAnnotation() {
+				funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
+				if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
+					return
+				}
 			}
+			opt.path = opt.path[:len(opt.path)-1]
 		case xml.CharData:
 			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
 				return
diff --git a/schema.go b/schema.go
index de72f46..7835190 100644
--- a/schema.go
+++ b/schema.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strings"
+)
 
 func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	for _, ele := range element.Attr {
@@ -44,3 +47,49 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 func (opt *Options) parseNS(str string) (ns string) {
 	return opt.LocalNameNSMap[getNSPrefix(str)]
 }
+
+// parent returns the local name of the open element which is the given number
+// of levels above the current one, or an empty string if there is none.
+func (opt *Options) parent(level int) string {
+	if i := len(opt.path) - 1 - level; i >= 0 {
+		return opt.path[i]
+	}
+	return ""
+}
+
+// isTopLevel reports whether the current element is a top level component of
+// the schema, as opposed to a local declaration or a reference.
+func (opt *Options) isTopLevel() bool {
+	switch opt.parent(1) {
+	case "schema", "redefine", "override", "":
+		return true
+	}
+	return false
+}
+
+// inAnnotation reports whether the current element is part of the free-form
+// content of an annotation, which declares nothing whatever its name is.
+func (opt *Options) inAnnotation() bool {
+	for level := 2; level < len(opt.path); level++ {
+		if opt.parent(level) == "annotation" {
+			return true
+		}
+	}
+	return false
+}
+
+// schemaAttributes returns the attributes of a schema element which are
+// defined by the XML Schema language: attributes from other namespaces have no
+// meaning for it, and the whitespace around the values is not significant.
+func schemaAttributes(element xml.StartElement) (attrs []xml.Attr) {
+	for _, attr := range element.Attr {
+		if attr.Name.Space != "" && element.Name.Local != "schema" {
+			continue
+		}
+		if attr.Name.Local != "value" {
+			attr.Value = strings.TrimSpace(attr.Value)
+		}
+		attrs = append(attrs, attr)
+	}
+	return
+}
diff --git a/utils.go b/utils.go
index 459a8e9..35d1474 100644
--- a/utils.go
+++ b/utils.go
@@ -207,6 +207,14 @@ func ToTitle(val string) string {
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
 	if function.IsValid() {
+		if function.Type().NumIn() != len(params) {
+			return
+		}
+		for i, param := range params {
+			if !param.Type().AssignableTo(function.Type().In(i)) {
+				return
+			}
+		}
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
-- 
2.43.0


From 468e36e19e83d0bae9a587056fbc11e11c8081d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:18 +0000
Subject: [PATCH 03/37] fix: resolve inline type definitions where they are
 declared

---
 schema.go            |  9 ++++---
 utils.go             |  1 +
 xmlAttribute.go      |  5 ++++
 xmlComplexType.go    | 36 +++++++++++++--------------
 xmlElement.go        | 25 ++++++++++---------
 xmlEnumeration.go    | 12 ---------
 xmlExtension.go      | 15 +-----------
 xmlFractionDigits.go |  6 -----
 xmlLength.go         |  6 -----
 xmlList.go           |  3 +++
 xmlMaxExclusive.go   |  6 -----
 xmlMaxInclusive.go   |  6 -----
 xmlMaxLength.go      |  6 -----
 xmlMinExclusive.go   |  6 -----
 xmlMinInclusive.go   |  6 -----
 xmlMinLength.go      |  6 -----
 xmlPattern.go        | 13 ----------
 xmlRestriction.go    | 28 ++++++++-------------
 xmlSimpleType.go     | 58 ++++++++++++++++++++++++++++++++------------
 xmlTotalDigits.go    |  6 -----
 xmlUnion.go          |  2 +-
 xmlWhiteSpace.go     |  6 -----
 22 files changed, 100 insertions(+), 167 deletions(-)

diff --git a/schema.go b/schema.go
index 7835190..a750423 100644
--- a/schema.go
+++ b/schema.go
@@ -57,10 +57,11 @@ func (opt *Options) parent(level int) string {
 	return ""
 }
 
-// isTopLevel reports whether the current element is a top level component of
-// the schema, as opposed to a local declaration or a reference.
-func (opt *Options) isTopLevel() bool {
-	switch opt.parent(1) {
+// isTopLevel reports whether the open element which is the given number of
+// levels above the current one is a top level component of the schema, as
+// opposed to a local declaration or a reference.
+func (opt *Options) isTopLevel(level int) bool {
+	switch opt.parent(level + 1) {
 	case "schema", "redefine", "override", "":
 		return true
 	}
diff --git a/utils.go b/utils.go
index 35d1474..b99be47 100644
--- a/utils.go
+++ b/utils.go
@@ -77,6 +77,7 @@ func PrepareOutputDir(path string) error {
 // Rust languages and data types in XSD.
 // https://www.w3.org/TR/xmlschema-2/#datatype
 var BuildInTypes = map[string][]string{
+	"anySimpleType":      {"string", "string", "char", "String", "String"},
 	"anyType":            {"string", "string", "char", "String", "String"},
 	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"ENTITY":             {"string", "string", "char", "String", "String"},
diff --git a/xmlAttribute.go b/xmlAttribute.go
index 74adf1a..36e6214 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -48,6 +48,11 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	if opt.Attribute.Len() == 0 {
 		return
 	}
+	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
+		if attribute.Type, err = opt.GetValueType("anySimpleType", protoTree); err != nil {
+			return
+		}
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
 		return
diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..92fbe95 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -8,32 +8,30 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"errors"
+)
 
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
-		opt.ComplexType.Push(&ComplexType{
-			Name: e.Name,
-		})
-	}
-
-	if opt.ComplexType.Len() == 0 {
-		c := ComplexType{}
-		opt.CurrentEle = opt.InElement
-		for _, attr := range ele.Attr {
-			if attr.Name.Local == "name" {
-				c.Name = attr.Value
-			}
+	c := ComplexType{}
+	opt.CurrentEle = opt.InElement
+	for _, attr := range ele.Attr {
+		if attr.Name.Local == "name" {
+			c.Name = attr.Value
 		}
-		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
-			c.Name = e.Name
+	}
+	if c.Name == "" {
+		// The inline definition is named after the element it belongs to.
+		e, ok := opt.Element.Peek().(*Element)
+		if !ok {
+			return errors.New("xgen: complexType without a name outside of an element declaration")
 		}
-		opt.ComplexType.Push(&c)
+		c.Name, e.Type = e.Name, e.Name
 	}
+	opt.ComplexType.Push(&c)
 	return
 }
 
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..af69245 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -51,17 +51,28 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	}
 
 	if e.Type == "" {
-		e.Type, err = opt.GetValueType(e.Name, protoTree)
+		// Unless it turns out to be given by an inline definition.
+		e.Type, err = opt.GetValueType("anyType", protoTree)
 		if err != nil {
 			return
 		}
-		opt.Element.Push(&e)
 	}
 
 	if opt.Choice.Len() > 0 {
 		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
 	}
 
+	opt.Element.Push(&e)
+	return
+}
+
+// EndElement handles parsing event on the element end elements.
+func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.Element.Empty() {
+		return
+	}
+	e := *opt.Element.Pop().(*Element)
+
 	if opt.ComplexType.Len() > 0 {
 		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
 		// Handle a case where two elements with the same name and type are present in the same complex type
@@ -87,15 +98,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		return
 	}
 
-	opt.Element.Push(&e)
-	return
-}
-
-// EndElement handles parsing event on the element end elements.
-func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
-	}
+	opt.ProtoTree = append(opt.ProtoTree, &e)
 	return
 }
 
diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 5bebc70..243ca8c 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -25,17 +25,5 @@ func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{})
 // EndEnumeration handles parsing event on the enumeration end elements.
 // Enumeration defines a list of acceptable values.
 func (opt *Options) EndEnumeration(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		if opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlExtension.go b/xmlExtension.go
index 4e3803d..aacc656 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -22,13 +22,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 			}
 			if opt.ComplexType.Peek() != nil {
 				var complexType = opt.ComplexType.Peek().(*ComplexType)
-				complexType.Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
-				if complexType.Name == "" {
-					complexType.Name = attr.Value
-				}
+				complexType.Base = valueType
 			}
 		}
 	}
@@ -37,12 +31,5 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 
 // EndExtension handles parsing event on the extension end elements.
 func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
\ No newline at end of file
diff --git a/xmlFractionDigits.go b/xmlFractionDigits.go
index bbc87e9..fea8abd 100644
--- a/xmlFractionDigits.go
+++ b/xmlFractionDigits.go
@@ -15,11 +15,5 @@ import "encoding/xml"
 // the maximum number of decimal places allowed. Must be equal to or greater
 // than zero.
 func (opt *Options) EndFractionDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlLength.go b/xmlLength.go
index d091fc3..7afdf6c 100644
--- a/xmlLength.go
+++ b/xmlLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the exact number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlList.go b/xmlList.go
index 0d07154..81161c2 100644
--- a/xmlList.go
+++ b/xmlList.go
@@ -23,6 +23,9 @@ func (opt *Options) OnList(ele xml.StartElement, protoTree []interface{}) (err e
 			if opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(attr.Value, protoTree); err != nil {
 				return
 			}
+			if opt.SimpleType.Peek().(*SimpleType).Name == "" {
+				opt.SimpleType.Peek().(*SimpleType).Name = trimNSPrefix(attr.Value)
+			}
 		}
 	}
 	return
diff --git a/xmlMaxExclusive.go b/xmlMaxExclusive.go
index d8c4d78..1ed5d56 100644
--- a/xmlMaxExclusive.go
+++ b/xmlMaxExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxExclusive specifies the upper bounds for numeric values (the value must
 // be less than this value).
 func (opt *Options) EndMaxExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxInclusive.go b/xmlMaxInclusive.go
index d50fac9..99fc0ff 100644
--- a/xmlMaxInclusive.go
+++ b/xmlMaxInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxInclusive specifies the upper bounds for numeric values (the value must
 // be less than or equal to this value).
 func (opt *Options) EndMaxInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxLength.go b/xmlMaxLength.go
index c0ee22e..231e518 100644
--- a/xmlMaxLength.go
+++ b/xmlMaxLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the maximum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMaxLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinExclusive.go b/xmlMinExclusive.go
index 1f46897..cf8d4b1 100644
--- a/xmlMinExclusive.go
+++ b/xmlMinExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinExclusive specifies the lower bounds for numeric values (the value must
 // be greater than this value).
 func (opt *Options) EndMinExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinInclusive.go b/xmlMinInclusive.go
index a9bd4f0..87c97d4 100644
--- a/xmlMinInclusive.go
+++ b/xmlMinInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinInclusive specifies the lower bounds for numeric values (the value must
 // be greater than or equal to this value).
 func (opt *Options) EndMinInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinLength.go b/xmlMinLength.go
index b60ea67..b68e1d8 100644
--- a/xmlMinLength.go
+++ b/xmlMinLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the minimum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMinLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlPattern.go b/xmlPattern.go
index 53d63ce..8ad89af 100644
--- a/xmlPattern.go
+++ b/xmlPattern.go
@@ -13,18 +13,5 @@ import "encoding/xml"
 // EndPattern handles parsing event on the pattern end elements. Pattern
 // defines the exact sequence of characters that are acceptable.
 func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..7eae1f8 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -21,13 +21,17 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 			if err != nil {
 				return
 			}
-			if opt.SimpleType.Peek() != nil {
-				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
+			switch opt.parent(1) {
+			case "simpleType":
+				if opt.SimpleType.Peek() != nil {
+					opt.SimpleType.Peek().(*SimpleType).Base = valueType
+					if opt.SimpleType.Peek().(*SimpleType).Name == "" {
+						opt.SimpleType.Peek().(*SimpleType).Name = trimNSPrefix(attr.Value)
+					}
 				}
-				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
-					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
+			case "simpleContent":
+				if opt.ComplexType.Peek() != nil {
+					opt.ComplexType.Peek().(*ComplexType).Base = valueType
 				}
 			}
 		}
@@ -37,17 +41,5 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 
 // EndRestriction handles parsing event on the restriction end elements.
 func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if !opt.Element.Empty() {
-		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
-			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
-		}
-	}
 	return
 }
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..d82397f 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -14,35 +14,63 @@ import "encoding/xml"
 // simpleType element defines a simple type and specifies the constraints and
 // information about the values of attributes or text-only elements.
 func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() == 0 {
-		opt.SimpleType.Push(&SimpleType{})
-	}
-	if opt.CurrentEle == "attributeGroup" {
-		// return
-	}
 	opt.CurrentEle = opt.InElement
+	simpleType := SimpleType{}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "name" {
-			opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
+			simpleType.Name = attr.Value
 		}
 	}
+	opt.SimpleType.Push(&simpleType)
 	return
 }
 
 // EndSimpleType handles parsing event on the simpleType end elements.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
+	if opt.SimpleType.Empty() {
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	simpleType := opt.SimpleType.Pop().(*SimpleType)
+	if opt.isTopLevel(0) {
+		opt.ProtoTree = append(opt.ProtoTree, simpleType)
 		opt.CurrentEle = ""
+		return
 	}
-
-	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
-		opt.CurrentEle = ""
+	// The inline definition contributes to the component it belongs to.
+	valueType := simpleType.Base
+	if valueType == "" {
+		if valueType, err = opt.GetValueType("anySimpleType", opt.ProtoTree); err != nil {
+			return
+		}
+	}
+	switch opt.parent(1) {
+	case "element":
+		if e, ok := opt.Element.Peek().(*Element); ok {
+			e.Type = valueType
+		}
+	case "attribute":
+		if a, ok := opt.Attribute.Peek().(*Attribute); ok {
+			a.Type = valueType
+		}
+	case "restriction":
+		if opt.parent(2) == "simpleContent" {
+			if c, ok := opt.ComplexType.Peek().(*ComplexType); ok {
+				c.Base = valueType
+			}
+			return
+		}
+		if s, ok := opt.SimpleType.Peek().(*SimpleType); ok {
+			s.Base, s.List = valueType, simpleType.List
+			s.Union, s.MemberTypes = simpleType.Union, simpleType.MemberTypes
+		}
+	case "list":
+		if s, ok := opt.SimpleType.Peek().(*SimpleType); ok {
+			s.Base = valueType
+		}
+	case "union":
+		if s, ok := opt.SimpleType.Peek().(*SimpleType); ok && s.Union && simpleType.Name != "" {
+			s.MemberTypes[simpleType.Name] = valueType
+		}
 	}
 	return
 }
diff --git a/xmlTotalDigits.go b/xmlTotalDigits.go
index ae4e7de..de2434b 100644
--- a/xmlTotalDigits.go
+++ b/xmlTotalDigits.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // TotalDigits specifies the exact number of digits allowed. Must be greater
 // than zero.
 func (opt *Options) EndTotalDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..958635f 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
diff --git a/xmlWhiteSpace.go b/xmlWhiteSpace.go
index 4ec2b78..65c4e29 100644
--- a/xmlWhiteSpace.go
+++ b/xmlWhiteSpace.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // WhiteSpace specifies how white space (line feeds, tabs, spaces, and
 // carriage returns) is handled.
 func (opt *Options) EndWhiteSpace(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
-- 
2.43.0


From cb33e6f3a640cd604e2b1fdf39b6cd4954e13997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:18 +0000
Subject: [PATCH 04/37] fix: attach documentation to the component it annotates

---
 parser.go      |  2 ++
 xmlCharData.go | 87 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/parser.go b/parser.go
index 1e572a0..8dce3d4 100644
--- a/parser.go
+++ b/parser.go
@@ -53,6 +53,7 @@ type Options struct {
 	Choice         *Stack
 
 	path []string // local names of the elements which are currently open
+	doc  string   // content of the documentation which is currently open
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -100,6 +101,7 @@ func (opt *Options) Parse() (err error) {
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
 	opt.path = nil
+	opt.doc = ""
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..897a59d 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -8,53 +8,70 @@
 
 package xgen
 
-import "strings"
+import (
+	"encoding/xml"
+	"strings"
+)
 
-// OnCharData handles parsing event on the documentation start elements. The
-// documentation element specifies information to be read or used by users
-// within an annotation element.
+// OnCharData handles parsing event on the character data. Only the content of
+// the documentation element is of interest, which specifies information to be
+// read or used by users within an annotation element.
 func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
-	if strings.TrimSpace(ele) == "" {
-		return
-	}
-	ele = strings.TrimSpace(ele)
-	if opt.InAttributeGroup {
-		if opt.AttributeGroup.Peek() != nil {
-			opt.AttributeGroup.Peek().(*AttributeGroup).Doc = ele
-			return
-		}
-	}
-	if opt.InElement != "" {
-		if opt.Element.Peek() != nil {
-			opt.Element.Peek().(*Element).Doc = ele
+	for level := range opt.path {
+		if opt.parent(level) == "documentation" {
+			opt.doc += ele
 			return
 		}
 	}
-	if opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Doc = ele
+	return
+}
+
+// OnDocumentation handles parsing event on the documentation start elements.
+func (opt *Options) OnDocumentation(ele xml.StartElement, protoTree []interface{}) (err error) {
+	opt.doc = ""
+	return
+}
+
+// EndDocumentation handles parsing event on the documentation end elements.
+// The documentation belongs to the component which contains the annotation.
+func (opt *Options) EndDocumentation(ele xml.EndElement, protoTree []interface{}) (err error) {
+	text := strings.TrimSpace(opt.doc)
+	if text == "" || opt.parent(1) != "annotation" {
 		return
 	}
-	switch opt.CurrentEle {
+	var doc *string
+	switch opt.parent(2) {
 	case "simpleType":
-		if opt.SimpleType.Peek() != nil {
-			opt.SimpleType.Peek().(*SimpleType).Doc = ele
-			return
+		if v, ok := opt.SimpleType.Peek().(*SimpleType); ok {
+			doc = &v.Doc
 		}
 	case "complexType":
-		if opt.Attribute.Len() > 0 {
-			opt.Attribute.Peek().(*Attribute).Doc = ele
-			return
+		if v, ok := opt.ComplexType.Peek().(*ComplexType); ok {
+			doc = &v.Doc
 		}
-		if opt.ComplexType.Peek() != nil {
-			l := len(opt.ComplexType.Peek().(*ComplexType).Attributes)
-			if l > 0 {
-				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
-				return
-			}
-			opt.ComplexType.Peek().(*ComplexType).Doc = ele
-			return
+	case "element":
+		if v, ok := opt.Element.Peek().(*Element); ok {
+			doc = &v.Doc
+		}
+	case "attribute":
+		if v, ok := opt.Attribute.Peek().(*Attribute); ok {
+			doc = &v.Doc
 		}
-	default:
+	case "group":
+		if v, ok := opt.Group.Peek().(*Group); ok && opt.isTopLevel(2) {
+			doc = &v.Doc
+		}
+	case "attributeGroup":
+		if v, ok := opt.AttributeGroup.Peek().(*AttributeGroup); ok && opt.isTopLevel(2) {
+			doc = &v.Doc
+		}
+	}
+	if doc == nil {
+		return
+	}
+	if *doc != "" {
+		*doc += "\n"
 	}
+	*doc += text
 	return
 }
-- 
2.43.0


From 6fe4c1bb95c57d486a6039bfb8f63518e1b52c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/37] fix: collect nested references and inline types of
 group definitions

---
 proto.go             |  9 +++++----
 xmlAttributeGroup.go |  7 +++++--
 xmlElement.go        |  7 ++++++-
 xmlGroup.go          | 26 +++++++++++++++-----------
 4 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/proto.go b/proto.go
index 5af61e7..1173b98 100644
--- a/proto.go
+++ b/proto.go
@@ -117,10 +117,11 @@ type Choice struct {
 // <attributeGroup>).
 // https://www.w3.org/TR/xmlschema-1/structures.html#Attribute_Group_Definition
 type AttributeGroup struct {
-	Doc        string
-	Name       string
-	Ref        string
-	Attributes []Attribute
+	Doc            string
+	Name           string
+	Ref            string
+	Attributes     []Attribute
+	AttributeGroup []AttributeGroup
 }
 
 // Restriction are used to define acceptable values for XML elements or
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 1e1cc57..c0ce61d 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -28,7 +28,7 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 			}
 		}
 	}
-	if opt.ComplexType.Len() == 0 {
+	if opt.isTopLevel(0) {
 		opt.InAttributeGroup = true
 		opt.CurrentEle = opt.InElement
 		opt.AttributeGroup.Push(&attributeGroup)
@@ -39,12 +39,15 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 		opt.ComplexType.Peek().(*ComplexType).AttributeGroup = append(opt.ComplexType.Peek().(*ComplexType).AttributeGroup, attributeGroup)
 		return
 	}
+	if opt.AttributeGroup.Len() > 0 {
+		opt.AttributeGroup.Peek().(*AttributeGroup).AttributeGroup = append(opt.AttributeGroup.Peek().(*AttributeGroup).AttributeGroup, attributeGroup)
+	}
 	return
 }
 
 // EndAttributeGroup handles parsing event on the attributeGroup end elements.
 func (opt *Options) EndAttributeGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.AttributeGroup.Len() > 0 {
+	if opt.AttributeGroup.Len() > 0 && opt.isTopLevel(0) {
 		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())
 		opt.CurrentEle = ""
 		opt.InAttributeGroup = false
diff --git a/xmlElement.go b/xmlElement.go
index af69245..a65095e 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -93,7 +93,12 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
+			group := opt.Group.Peek().(*Group)
+			if element, i := findElement(&e, group.Elements); element != nil && element.Type == e.Type {
+				group.Elements[i].Plural = element.Plural || e.Plural
+			} else {
+				group.Elements = append(group.Elements, e)
+			}
 		}
 		return
 	}
diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..35c0dc4 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strconv"
+)
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -27,9 +30,11 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
-				group.Plural = true
+			var maxOccurs int
+			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+				return
 			}
+			group.Plural, err = attr.Value == "unbounded" || maxOccurs > 1, nil
 		}
 	}
 	if opt.Choice.Len() > 0 {
@@ -37,15 +42,16 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 	}
 
 	if opt.ComplexType.Len() == 0 {
-		if opt.InGroup == 0 {
+		if opt.isTopLevel(0) {
 			opt.InGroup++
 			opt.CurrentEle = opt.InElement
 			opt.Group.Push(&group)
 			return
 		}
 		if opt.InGroup > 0 {
-			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			if !inGroups(&group, opt.Group.Peek().(*Group).Groups) {
+				opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			}
 			return
 		}
 
@@ -61,20 +67,18 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.isTopLevel(0) && opt.InGroup == 1 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
 		opt.InGroup--
 	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
-	}
 	return
 }
 
 func inGroups(group *Group, groups []Group) bool {
-	for _, g := range groups {
+	for i, g := range groups {
 		if g.Name == group.Name {
+			groups[i].Plural = g.Plural || group.Plural
 			return true
 		}
 	}
-- 
2.43.0


From 01b75641aa08c58e2d86a06756a36f32569bc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 06/37] fix: honour maxOccurs of sequences, and of the model
 group an element is directly in

---
 xmlChoice.go      | 13 ++++++++++++-
 xmlComplexType.go |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/xmlChoice.go b/xmlChoice.go
index 539ad9a..fbd0ce6 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -46,4 +46,15 @@ func (opt *Options) EndChoice(ele xml.EndElement, protoTree []interface{}) (err
 	opt.Choice.Pop()
 
 	return
-}
\ No newline at end of file
+}
+
+// OnSequence handles parsing event on the sequence start elements. The
+// elements of a sequence which occurs several times occur several times too.
+func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndSequence handles parsing event on the sequence end elements.
+func (opt *Options) EndSequence(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
diff --git a/xmlComplexType.go b/xmlComplexType.go
index 92fbe95..f0675ce 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -32,12 +32,15 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		c.Name, e.Type = e.Name, e.Name
 	}
 	opt.ComplexType.Push(&c)
+	// The occurrences of an enclosing model group do not apply to the content.
+	opt.Choice.Push(&Choice{})
 	return
 }
 
 // EndComplexType handles parsing event on the complex end elements.
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	opt.Choice.Pop()
 	opt.CurrentEle = ""
 	return
 }
-- 
2.43.0


From 9213fb2245bb7242656b41cf0e2dadc6449b8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 07/37] fix: accept the attributes of import in any order

---
 schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema.go b/schema.go
index a750423..6a94a68 100644
--- a/schema.go
+++ b/schema.go
@@ -27,6 +27,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
-- 
2.43.0


From 075425b5a1bca839fa60b3089b147e507950805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 08/37] fix: follow chains of simple type restrictions

---
 utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index b99be47..c9705dc 100644
--- a/utils.go
+++ b/utils.go
@@ -146,6 +146,16 @@ func getBuildInTypeByLang(value, lang string) (buildType string, ok bool) {
 }
 
 func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
+	base := getBase(name, XSDSchema, false)
+	// A base can be a simple type in turn, which is restricted further.
+	for seen := map[string]bool{name: true}; !seen[base]; {
+		seen[base] = true
+		base = getBase(base, XSDSchema, true)
+	}
+	return base
+}
+
+func getBase(name string, XSDSchema []interface{}, simpleTypeOnly bool) string {
 	for _, ele := range XSDSchema {
 		switch v := ele.(type) {
 		case *SimpleType:
@@ -153,11 +163,11 @@ func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
 				return v.Base
 			}
 		case *Attribute:
-			if v.Name == name {
+			if v.Name == name && !simpleTypeOnly {
 				return v.Type
 			}
 		case *Element:
-			if v.Name == name {
+			if v.Name == name && !simpleTypeOnly {
 				return v.Type
 			}
 		}
-- 
2.43.0


From c78bbfa523007cc74075b2e13a427531fbf7fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 09/37] fix: resolve types across included and imported files,
 and place output relative to the input directory

---
 parser.go | 155 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 92 insertions(+), 63 deletions(-)

diff --git a/parser.go b/parser.go
index 8dce3d4..9aec108 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -54,6 +55,8 @@ type Options struct {
 
 	path []string // local names of the elements which are currently open
 	doc  string   // content of the documentation which is currently open
+
+	schemas []interface{} // components of the schema file and its dependencies
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -83,7 +86,7 @@ func (opt *Options) Parse() (err error) {
 	defer xmlFile.Close()
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		opt.ParseFileMap[filepath.Clean(opt.FilePath)] = opt.ProtoTree
 	}
 	opt.ProtoTree = make([]interface{}, 0)
 
@@ -102,6 +105,7 @@ func (opt *Options) Parse() (err error) {
 	opt.Choice = NewStack()
 	opt.path = nil
 	opt.doc = ""
+	opt.schemas = nil
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -148,8 +152,8 @@ func (opt *Options) Parse() (err error) {
 
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		opt.ParseFileMap[filepath.Clean(opt.FilePath)] = opt.ProtoTree
+		path := opt.outputPath()
 		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
 			fmt.Println(err)
 			os.Exit(1)
@@ -172,14 +176,15 @@ func (opt *Options) Parse() (err error) {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
 		valueType = buildType
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
+	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+		valueType = buildType
 		return
 	}
+	valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
 	if opt.Extract {
 		return
 	}
@@ -193,73 +198,97 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if err != nil {
 		return
 	}
-	if fi.IsDir() {
-		// extract type of value from include schema.
-		valueType = ""
-		for include := range opt.IncludeMap {
-			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if parser.Parse() != nil {
-				return
-			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
-			}
-		}
-		if valueType == "" {
-			valueType = trimNSPrefix(value)
-		}
-		return
-	}
-
-	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
-	if !ok {
-		parser := NewParser(&Options{
-			FilePath:            xsdFile,
-			OutputDir:           opt.OutputDir,
-			Extract:             false,
-			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
-			ParseFileList:       opt.ParseFileList,
-			ParseFileMap:        opt.ParseFileMap,
-			ProtoTree:           make([]interface{}, 0),
-		})
-		if parser.Parse() != nil {
+	if _, ok := opt.ParseFileMap[xsdFile]; !ok && !fi.IsDir() {
+		// generate code for the imported schema as well.
+		parser := opt.newDependencyParser(xsdFile, false)
+		if err = parser.Parse(); err != nil {
 			return
 		}
-		depXSDSchema = parser.ProtoTree
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), depXSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
+	// extract type of value from the included and imported schemas.
+	var schemas []interface{}
+	if schemas, err = opt.dependencies(); err != nil {
 		return
 	}
-	parser := NewParser(&Options{
-		FilePath:            xsdFile,
+	valueType = getBasefromSimpleType(trimNSPrefix(value), schemas)
+	return
+}
+
+// newDependencyParser creates a parser for a schema file the current one
+// depends on. Prefixes and locations only have a meaning within the file they
+// are declared in.
+func (opt *Options) newDependencyParser(file string, extract bool) *Options {
+	return NewParser(&Options{
+		FilePath:            file,
+		InputDir:            opt.InputDir,
 		OutputDir:           opt.OutputDir,
-		Extract:             true,
+		Extract:             extract,
 		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
+		Package:             opt.Package,
+		IncludeMap:          make(map[string]bool),
+		LocalNameNSMap:      make(map[string]string),
+		NSSchemaLocationMap: make(map[string]string),
 		ParseFileList:       opt.ParseFileList,
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
 	})
-	if parser.Parse() != nil {
-		return
+}
+
+// dependencies returns the components of the current schema file and of all
+// the files which can be reached from it by <import> and <include> statements.
+func (opt *Options) dependencies() (schemas []interface{}, err error) {
+	if opt.schemas != nil {
+		return opt.schemas, nil
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
-	return
+	files := []string{filepath.Clean(opt.FilePath)}
+	known := map[string]bool{files[0]: true}
+	for i := 0; i < len(files); i++ {
+		parser := opt.newDependencyParser(files[i], true)
+		if err = parser.Parse(); err != nil {
+			if os.IsNotExist(err) {
+				continue
+			}
+			return nil, err
+		}
+		schemas = append(schemas, parser.ProtoTree...)
+		var locations []string
+		for location := range parser.IncludeMap {
+			locations = append(locations, location)
+		}
+		for _, location := range parser.NSSchemaLocationMap {
+			locations = append(locations, location)
+		}
+		sort.Strings(locations)
+		for _, location := range locations {
+			file := filepath.Join(parser.FileDir, location)
+			if isValidURL(location) || known[file] {
+				continue
+			}
+			known[file] = true
+			files = append(files, file)
+		}
+	}
+	opt.schemas = schemas
+	return schemas, nil
+}
+
+// outputPath returns the path of the generated code without its extension. It
+// is below the output directory where the schema file is below the input
+// directory, or the output path itself if the input is that file.
+func (opt *Options) outputPath() string {
+	if filepath.Clean(opt.FilePath) == filepath.Clean(opt.InputDir) {
+		return filepath.Clean(opt.OutputDir)
+	}
+	inputDir := opt.InputDir
+	if fi, err := os.Stat(inputDir); err == nil && !fi.IsDir() {
+		inputDir = filepath.Dir(inputDir)
+	}
+	path, err := filepath.Rel(inputDir, opt.FilePath)
+	if err != nil {
+		path = strings.TrimPrefix(opt.FilePath, opt.InputDir)
+	}
+	for strings.HasPrefix(path, ".."+string(filepath.Separator)) {
+		path = path[3:]
+	}
+	return filepath.Join(opt.OutputDir, path)
 }
-- 
2.43.0


From 228baadca5568522dc855c23a22dbf4f187d2d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 10/37] fix: only process schema files when the input is a
 directory

---
 cmd/xgen/xgen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/xgen/xgen.go b/cmd/xgen/xgen.go
index fa45405..8733588 100644
--- a/cmd/xgen/xgen.go
+++ b/cmd/xgen/xgen.go
@@ -28,6 +28,8 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 
 	"github.com/xuri/xgen"
 )
@@ -106,6 +108,10 @@ func main() {
 		os.Exit(1)
 	}
 	for _, file := range files {
+		// A directory can contain other files than schema definitions.
+		if file != cfg.I && !strings.EqualFold(filepath.Ext(file), ".xsd") {
+			continue
+		}
 		if err = xgen.NewParser(&xgen.Options{
 			FilePath:            file,
 			InputDir:            cfg.I,
-- 
2.43.0


From a7aa0e411cb5ca05730708fca0bc69d6af6aadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 11/37] fix: use local names for the serialized names of
 references

---
 genGo.go   | 15 ++++++++++++---
 genJava.go |  8 ++++----
 genRust.go | 28 ++++++++++++++--------------
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/genGo.go b/genGo.go
index c27fa36..cdc6f81 100644
--- a/genGo.go
+++ b/genGo.go
@@ -114,6 +114,15 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// genGoTagName returns the name of an element or attribute to be used in the
+// struct tag. The prefix of a reference is not part of the local name.
+func genGoTagName(name string) string {
+	if getNSPrefix(name) == "xml" {
+		return "http://www.w3.org/XML/1998/namespace " + trimNSPrefix(name)
+	}
+	return trimNSPrefix(name)
+}
+
 func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
@@ -203,7 +212,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, genGoTagName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
@@ -222,7 +231,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, genGoTagName(element.Name))
 		}
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
@@ -291,7 +300,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), genGoTagName(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genJava.go b/genJava.go
index 70cbc87..7fe2258 100644
--- a/genJava.go
+++ b/genJava.go
@@ -154,7 +154,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		for _, group := range v.Groups {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
@@ -169,7 +169,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
 		}
 
 		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
@@ -205,7 +205,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
 		}
 
 		for _, group := range v.Groups {
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index f3b9cb6..394966e 100644
--- a/genRust.go
+++ b/genRust.go
@@ -215,35 +215,35 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
 			if group.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			}
 		}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
 			if element.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
 				if element.Optional {
-					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", element.Name, fieldName, fieldType)
+					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 				} else {
-					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
+					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 				}
 			}
 		}
@@ -276,18 +276,18 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
 			if v.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
 			if v.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			}
 		}
 		gen.StructAST[v.Name] = content
@@ -303,9 +303,9 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 		var content string
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From ab071e295c58089f6af3dbf511419e7afab03008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 12/37] fix: emit valid Java fields for attribute groups

---
 genJava.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genJava.go b/genJava.go
index 7fe2258..9269e0f 100644
--- a/genJava.go
+++ b/genJava.go
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From e25dbf8887031fa5d274497c0fb593bc79e0edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 13/37] fix: required attributes and attribute groups are not
 vectors in Rust, group members follow their own occurrence

---
 genRust.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genRust.go b/genRust.go
index 394966e..bd58a39 100644
--- a/genRust.go
+++ b/genRust.go
@@ -215,7 +215,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
@@ -275,7 +275,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(element.Name), fieldName, fieldType)
@@ -284,7 +284,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(group.Name), fieldName, fieldType)
@@ -305,7 +305,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From f8f2296f7bffb3d788a5df0b0a65c6294795aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 14/37] fix: emit valid C arrays for lists and group members

---
 genC.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..39ce3c5 100644
--- a/genC.go
+++ b/genC.go
@@ -101,7 +101,7 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
@@ -198,11 +198,12 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
+			var plural, fieldType string
+			var ok bool
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From 9fb2af0833e2292673e3c72dd22c053c545b2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 15/37] fix: map built-in datatypes to types which can hold
 their values

---
 utils.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/utils.go b/utils.go
index c9705dc..7124200 100644
--- a/utils.go
+++ b/utils.go
@@ -87,13 +87,13 @@ var BuildInTypes = map[string][]string{
 	"NCName":             {"string", "string", "char", "String", "String"},
 	"NMTOKEN":            {"string", "string", "char", "String", "String"},
 	"NMTOKENS":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
-	"NOTATION":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
+	"NOTATION":           {"string", "string", "char", "String", "String"},
 	"Name":               {"string", "string", "char", "String", "String"},
-	"QName":              {"xml.Name", "any", "char", "String", "String"},
-	"anyURI":             {"string", "string", "char", "QName", "String"},
+	"QName":              {"string", "any", "char", "String", "String"},
+	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
-	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
+	"byte":               {"int8", "number", "signed char", "Byte", "i8"},
 	"date":               {"string", "string", "char", "String", "u8"},
 	"dateTime":           {"string", "string", "char", "String", "u8"},
 	"decimal":            {"float64", "number", "float", "Float", "f64"},
@@ -109,7 +109,7 @@ var BuildInTypes = map[string][]string{
 	"int":                {"int", "number", "int", "Integer", "i32"},
 	"integer":            {"int", "number", "int", "Integer", "i32"},
 	"language":           {"string", "string", "char", "String", "String"},
-	"long":               {"int64", "number", "int", "Long", "i64"},
+	"long":               {"int64", "number", "long", "Long", "i64"},
 	"negativeInteger":    {"int", "number", "int", "Integer", "i32"},
 	"nonNegativeInteger": {"int", "number", "int", "Integer", "u32"},
 	"normalizedString":   {"string", "string", "char", "String", "String"},
@@ -117,12 +117,12 @@ var BuildInTypes = map[string][]string{
 	"positiveInteger":    {"int", "number", "int", "Integer", "u32"},
 	"short":              {"int16", "number", "int", "Integer", "i16"},
 	"string":             {"string", "string", "char", "String", "String"},
-	"time":               {"time.Time", "string", "char", "String", "String"},
+	"time":               {"string", "string", "char", "String", "String"},
 	"token":              {"string", "string", "char", "String", "String"},
-	"unsignedByte":       {"uint8", "any", "char", "Byte", "u8"},
-	"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"},
-	"unsignedLong":       {"uint64", "number", "unsigned int", "Long", "u64"},
-	"unsignedShort":      {"uint16", "number", "unsigned int", "Short", "u16"},
+	"unsignedByte":       {"uint8", "number", "unsigned char", "Short", "u8"},
+	"unsignedInt":        {"uint32", "number", "unsigned int", "Long", "u32"},
+	"unsignedLong":       {"uint64", "number", "unsigned long", "Long", "u64"},
+	"unsignedShort":      {"uint16", "number", "unsigned int", "Integer", "u16"},
 	"xml:lang":           {"string", "string", "char", "String", "String"},
 	"xml:space":          {"string", "string", "char", "String", "String"},
 	"xml:base":           {"string", "string", "char", "String", "String"},
-- 
2.43.0


From 2dc2abb3f393406b1a3d0a0c7ad818947b72e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 16/37] fix: embed groups and attribute groups in Go so that
 their members take part in the encoding

---
 genGo.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/genGo.go b/genGo.go
index cdc6f81..479f455 100644
--- a/genGo.go
+++ b/genGo.go
@@ -196,11 +196,8 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
 		}
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			if fieldType == "time.Time" {
-				gen.ImportTime = true
-			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			// The attributes of the group are attributes of the element itself.
+			content += fmt.Sprintf("\t%s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -215,11 +212,13 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, genGoTagName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
-			var plural string
+			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			if group.Plural {
-				plural = "[]"
+				content += fmt.Sprintf("\t%s\t[]%s\n", genGoFieldName(group.Name, false), fieldType)
+				continue
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			// The elements of the group are part of the content of the element.
+			content += fmt.Sprintf("\t%s\n", fieldType)
 		}
 
 		for _, element := range v.Elements {
@@ -259,24 +258,22 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
 		fieldName := genGoFieldName(v.Name, true)
-		if fieldName != v.Name {
-			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
-		}
 		for _, element := range v.Elements {
 			var plural string
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genGoTagName(element.Name))
 		}
 
 		for _, group := range v.Groups {
-			var plural string
+			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			if group.Plural {
-				plural = "[]"
+				content += fmt.Sprintf("\t%s\t[]%s\n", genGoFieldName(group.Name, false), fieldType)
+				continue
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			// The elements of the group are part of the content of the element.
+			content += fmt.Sprintf("\t%s\n", fieldType)
 		}
 
 		content += "}\n"
@@ -291,10 +288,6 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
 		fieldName := genGoFieldName(v.Name, true)
-		if fieldName != v.Name {
-			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
-		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
-- 
2.43.0


From 86ca43a5e7d3f24b73a7c270dfe58bd4e0b11ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 17/37] fix: export Go identifiers of names which start with an
 underscore

---
 genGo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genGo.go b/genGo.go
index 479f455..6d424a6 100644
--- a/genGo.go
+++ b/genGo.go
@@ -104,7 +104,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
+	fieldName = MakeFirstUpperCase(strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1))
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -131,7 +131,7 @@ func genGoFieldType(name string) string {
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
-	fieldType = strings.Replace(MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1)), "_", "", -1)
+	fieldType = MakeFirstUpperCase(strings.Replace(strings.Replace(fieldType, "-", "", -1), "_", "", -1))
 	if fieldType != "" {
 		return "*" + fieldType
 	}
-- 
2.43.0


From 4febcfc45939576330af8a15c9b6e286b7e1f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 18/37] fix: declare references of attribute groups to other
 attribute groups

---
 genC.go          | 4 ++++
 genGo.go         | 3 +++
 genJava.go       | 4 ++++
 genRust.go       | 4 ++++
 genTypeScript.go | 4 ++++
 5 files changed, 19 insertions(+)

diff --git a/genC.go b/genC.go
index 39ce3c5..b79769c 100644
--- a/genC.go
+++ b/genC.go
@@ -226,6 +226,10 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
 			var ok bool
diff --git a/genGo.go b/genGo.go
index 6d424a6..e861c08 100644
--- a/genGo.go
+++ b/genGo.go
@@ -288,6 +288,9 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
 		fieldName := genGoFieldName(v.Name, true)
+		for _, attrGroup := range v.AttributeGroup {
+			content += fmt.Sprintf("\t%s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/genJava.go b/genJava.go
index 9269e0f..1589ea6 100644
--- a/genJava.go
+++ b/genJava.go
@@ -228,6 +228,10 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
 			if attribute.Optional {
diff --git a/genRust.go b/genRust.go
index bd58a39..16a5c1e 100644
--- a/genRust.go
+++ b/genRust.go
@@ -301,6 +301,10 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..e0a3319 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -215,6 +215,10 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
-- 
2.43.0


From c337e92ce52b04622636cc1d98b9cde89b745b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 19/37] fix: emit valid TypeScript enumerations, arrays and
 base classes

---
 genTypeScript.go | 62 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index e0a3319..2d73735 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -12,6 +12,8 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -23,6 +25,7 @@ var typeScriptBuildInType = map[string]bool{
 	"null":       true,
 	"undefined":  true,
 	"Uint8Array": true,
+	"any":        true,
 }
 
 // GenTypeScript generate TypeScript programming language source code for XML
@@ -67,15 +70,18 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 }
 
 func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
-	if _, ok := typeScriptBuildInType[name]; ok {
+	if isBuiltInTypeScriptType(name) {
 		fieldType = name
+		if plural && name != "Uint8Array" {
+			fieldType = fmt.Sprintf("Array<%s>", fieldType)
+		}
 		return
 	}
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
 	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
-	if fieldType == "" || fieldType == "Any" {
+	if fieldType == "" {
 		fieldType = "any"
 	}
 	if plural {
@@ -84,6 +90,47 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	return
 }
 
+// typeScriptIdentifier matches names which can be used without quotes.
+var typeScriptIdentifier = regexp.MustCompile(`^[\p{L}_$][\p{L}\p{Nd}_$]*$`)
+
+// genTypeScriptString generates a string literal.
+func genTypeScriptString(value string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r", "\u2028", "\\u2028", "\u2029", "\\u2029").Replace(value) + "'"
+}
+
+// genTypeScriptNumber generates a number literal for a numeric value.
+func genTypeScriptNumber(value string) string {
+	value = strings.TrimSpace(value)
+	sign := ""
+	if strings.HasPrefix(value, "-") {
+		sign = "-"
+	}
+	value = strings.TrimLeft(value, "+-")
+	switch value {
+	case "INF":
+		return sign + "Infinity"
+	case "NaN":
+		return value
+	}
+	// A leading zero denotes an octal number.
+	for len(value) > 1 && value[0] == '0' && value[1] >= '0' && value[1] <= '9' {
+		value = value[1:]
+	}
+	return sign + value
+}
+
+// genTypeScriptEnumName generates the name of an enumeration member, which is
+// quoted if it is no identifier. Numeric names are not allowed.
+func genTypeScriptEnumName(name string) string {
+	if _, err := strconv.ParseFloat(name, 64); err == nil {
+		name = "Enum" + name
+	}
+	if typeScriptIdentifier.MatchString(name) {
+		return name
+	}
+	return genTypeScriptString(name)
+}
+
 // TypeScriptSimpleType generates code for simple type XML schema in TypeScript language
 // syntax.
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
@@ -116,19 +163,20 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		}
 		return
 	}
-	if len(v.Restriction.Enum) > 0 {
+	if _, ok := gen.StructAST[v.Name]; !ok && len(v.Restriction.Enum) > 0 {
 		var content string
 		baseType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
 		for _, enum := range v.Restriction.Enum {
 			switch baseType {
 			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName(enum), genTypeScriptString(enum))
 			case "number":
-				content += fmt.Sprintf("\tEnum%s = %s,\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+strings.TrimSpace(enum)), genTypeScriptNumber(enum))
 			default:
-				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), genTypeScriptString(enum))
 			}
 		}
+		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%sexport enum %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, content)
 		return
@@ -188,7 +236,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 
 func isBuiltInTypeScriptType(typeName string) bool {
 	_, builtIn := typeScriptBuildInType[typeName]
-	return builtIn
+	return builtIn || strings.HasPrefix(typeName, "Array<")
 }
 
 // TypeScriptGroup generates code for group XML schema in TypeScript language syntax.
-- 
2.43.0


From b4ce766338953d89fdd19c0351d855c59b2446e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 20/37] fix: keep documentation within the comment

---
 genC.go    | 23 ++++++++++++++++-------
 genJava.go | 16 +++++++++++-----
 utils.go   |  2 ++
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/genC.go b/genC.go
index b79769c..7a9ce3b 100644
--- a/genC.go
+++ b/genC.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -81,6 +82,14 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// lineSplice matches a backslash which would continue a comment on the next
+// line.
+var lineSplice = regexp.MustCompile(`\\([ \t\v\f]*(\r|\n|\x{85}|\x{2028}|\x{2029}|$))`)
+
+func cDoc(doc string) string {
+	return lineSplice.ReplaceAllString(doc, "\\ .$1")
+}
+
 func genCFieldType(name string) string {
 	if _, ok := cBuildInType[name]; ok {
 		return name
@@ -105,7 +114,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
-			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
+			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 			return
 		}
 	}
@@ -129,7 +138,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 			content += "}"
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
-			gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
+			gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name], fieldName)
 		}
 		return
 	}
@@ -141,7 +150,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		}
 		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 	}
 }
 
@@ -189,7 +198,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 		content += "}"
 		gen.StructAST[v.Name] = content
 		fieldName := genCFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
+		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name], fieldName)
 	}
 }
 
@@ -217,7 +226,7 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 		content += "}"
 		gen.StructAST[v.Name] = content
 		fieldName := genCFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
+		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name], fieldName)
 	}
 }
 
@@ -244,7 +253,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 		content += "}"
 		gen.StructAST[v.Name] = content
 		fieldName := genCFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
+		gen.Field += fmt.Sprintf("%stypedef %s %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name], fieldName)
 	}
 }
 
@@ -271,6 +280,6 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		}
 		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 	}
 }
diff --git a/genJava.go b/genJava.go
index 1589ea6..1e83bf2 100644
--- a/genJava.go
+++ b/genJava.go
@@ -82,6 +82,12 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// javaDoc separates what would be taken for a Unicode escape, which is
+// recognized within comments too.
+func javaDoc(doc string) string {
+	return strings.ReplaceAll(doc, `\u`, `\ u`)
+}
+
 func genJavaFieldType(name string) string {
 	if _, ok := javaBuildInType[name]; ok {
 		return name
@@ -125,7 +131,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 			content += "}\n"
 			gen.StructAST[v.Name] = content
 			fieldName := genJavaFieldName(v.Name, true)
-			gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+			gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, javaDoc(v.Doc), "//"), fieldName, gen.StructAST[v.Name])
 		}
 		return
 	}
@@ -134,7 +140,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 		content := fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(v.Name, false))
 		gen.StructAST[v.Name] = content
 		fieldName := genJavaFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, javaDoc(v.Doc), "//"), v.Name, fieldName, gen.StructAST[v.Name])
 	}
 }
 
@@ -187,7 +193,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
 
-		gen.Field += fmt.Sprintf("%spublic class %s%s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, typeExtension, gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%spublic class %s%s%s", genFieldComment(fieldName, javaDoc(v.Doc), "//"), fieldName, typeExtension, gen.StructAST[v.Name])
 	}
 }
 
@@ -219,7 +225,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 		content += "}\n"
 		gen.StructAST[v.Name] = content
 		fieldName := genJavaFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, javaDoc(v.Doc), "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
 
@@ -243,7 +249,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 		content += "}\n"
 		gen.StructAST[v.Name] = content
 		fieldName := genJavaFieldName(v.Name, true)
-		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%spublic class %s%s", genFieldComment(fieldName, javaDoc(v.Doc), "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
 
diff --git a/utils.go b/utils.go
index 7124200..9193a8d 100644
--- a/utils.go
+++ b/utils.go
@@ -274,6 +274,8 @@ func fetchSchema(URL string) ([]byte, error) {
 }
 
 func genFieldComment(name, doc, prefix string) string {
+	// All kinds of line terminators end a comment.
+	doc = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\u0085", "\n", "\u2028", "\n", "\u2029", "\n").Replace(doc)
 	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
-- 
2.43.0


From 4954ad4314bfc1ebdcbc4d02872725fd5ce19bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 21/37] fix: do not redeclare a type for an element or
 attribute of the same name

---
 genC.go          |  6 ++++++
 genGo.go         |  6 ++++++
 genJava.go       |  6 ++++++
 genRust.go       |  6 ++++++
 genTypeScript.go |  6 ++++++
 utils.go         | 33 ++++++++++++++++++++++++++++-----
 6 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 7a9ce3b..a4bf899 100644
--- a/genC.go
+++ b/genC.go
@@ -259,6 +259,9 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 
 // CElement generates code for element XML schema in C language syntax.
 func (gen *CodeGenerator) CElement(v *Element) {
+	if gen.isTypeName(genCFieldName(v.Name, false), genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), func(name string) string { return genCFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural, fieldType string
 		var ok bool
@@ -272,6 +275,9 @@ func (gen *CodeGenerator) CElement(v *Element) {
 
 // CAttribute generates code for attribute XML schema in C language syntax.
 func (gen *CodeGenerator) CAttribute(v *Attribute) {
+	if gen.isTypeName(genCFieldName(v.Name, false), genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), func(name string) string { return genCFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural, fieldType string
 		var ok bool
diff --git a/genGo.go b/genGo.go
index e861c08..8bc52f3 100644
--- a/genGo.go
+++ b/genGo.go
@@ -306,6 +306,9 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 
 // GoElement generates code for element XML schema in Go language syntax.
 func (gen *CodeGenerator) GoElement(v *Element) {
+	if gen.isTypeName(genGoFieldName(v.Name, false), strings.TrimPrefix(genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), "*"), func(name string) string { return genGoFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural string
 		if v.Plural {
@@ -320,6 +323,9 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 
 // GoAttribute generates code for attribute XML schema in Go language syntax.
 func (gen *CodeGenerator) GoAttribute(v *Attribute) {
+	if gen.isTypeName(genGoFieldName(v.Name, false), strings.TrimPrefix(genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), "*"), func(name string) string { return genGoFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural string
 		if v.Plural {
diff --git a/genJava.go b/genJava.go
index 1e83bf2..a86f9e3 100644
--- a/genJava.go
+++ b/genJava.go
@@ -255,6 +255,9 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 
 // JavaElement generates code for element XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaElement(v *Element) {
+	if gen.isTypeName(genJavaFieldName(v.Name, false), genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), func(name string) string { return genJavaFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		if v.Plural {
@@ -268,6 +271,9 @@ func (gen *CodeGenerator) JavaElement(v *Element) {
 
 // JavaAttribute generates code for attribute XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaAttribute(v *Attribute) {
+	if gen.isTypeName(genJavaFieldName(v.Name, false), genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)), func(name string) string { return genJavaFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		if v.Plural {
diff --git a/genRust.go b/genRust.go
index 16a5c1e..9ba50f4 100644
--- a/genRust.go
+++ b/genRust.go
@@ -320,6 +320,9 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 
 // RustElement generates code for element XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustElement(v *Element) {
+	if gen.isTypeName(v.Name, trimNSPrefix(v.Type), func(name string) string { return name }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		fieldName := genRustFieldName(v.Name)
@@ -334,6 +337,9 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 
 // RustAttribute generates code for attribute XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustAttribute(v *Attribute) {
+	if gen.isTypeName(v.Name, trimNSPrefix(v.Type), func(name string) string { return name }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		fieldName := genRustFieldName(v.Name)
diff --git a/genTypeScript.go b/genTypeScript.go
index 2d73735..c16fd2d 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -283,6 +283,9 @@ func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 
 // TypeScriptElement generates code for element XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptElement(v *Element) {
+	if gen.isTypeName(genTypeScriptFieldName(v.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), false), func(name string) string { return genTypeScriptFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		gen.StructAST[v.Name] = fmt.Sprintf(" %s;\n", genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))
 		fieldName := genTypeScriptFieldName(v.Name, true)
@@ -292,6 +295,9 @@ func (gen *CodeGenerator) TypeScriptElement(v *Element) {
 
 // TypeScriptAttribute generates code for attribute XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptAttribute(v *Attribute) {
+	if gen.isTypeName(genTypeScriptFieldName(v.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), false), func(name string) string { return genTypeScriptFieldName(name, false) }) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		gen.StructAST[v.Name] = fmt.Sprintf(" %s;\n", genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))
 		fieldName := genTypeScriptFieldName(v.Name, true)
diff --git a/utils.go b/utils.go
index 9193a8d..c5462c1 100644
--- a/utils.go
+++ b/utils.go
@@ -156,6 +156,7 @@ func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
 }
 
 func getBase(name string, XSDSchema []interface{}, simpleTypeOnly bool) string {
+	base := name
 	for _, ele := range XSDSchema {
 		switch v := ele.(type) {
 		case *SimpleType:
@@ -163,16 +164,38 @@ func getBase(name string, XSDSchema []interface{}, simpleTypeOnly bool) string {
 				return v.Base
 			}
 		case *Attribute:
-			if v.Name == name && !simpleTypeOnly {
-				return v.Type
+			if v.Name == name && base == name && !simpleTypeOnly {
+				base = v.Type
 			}
 		case *Element:
-			if v.Name == name && !simpleTypeOnly {
-				return v.Type
+			if v.Name == name && base == name && !simpleTypeOnly {
+				base = v.Type
 			}
 		}
 	}
-	return name
+	return base
+}
+
+// isTypeName reports whether the identifier of an element or attribute is the
+// one of its own type, or of another type definition of the schema. There is
+// only one declaration of a name, which is the one of the type.
+func (gen *CodeGenerator) isTypeName(fieldName, fieldType string, genFieldName func(name string) string) bool {
+	if fieldName == fieldType {
+		return true
+	}
+	for _, ele := range gen.ProtoTree {
+		switch v := ele.(type) {
+		case *SimpleType:
+			if genFieldName(v.Name) == fieldName {
+				return true
+			}
+		case *ComplexType:
+			if genFieldName(v.Name) == fieldName {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 func getNSPrefix(str string) (ns string) {
-- 
2.43.0


From 0cbf1d3588f8263a8ec2749236752a2d67581451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 22/37] fix: allow concurrent use of the code generators

---
 genC.go          | 2 ++
 genGo.go         | 2 ++
 genJava.go       | 2 ++
 genRust.go       | 2 ++
 genTypeScript.go | 2 ++
 utils.go         | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/genC.go b/genC.go
index a4bf899..58e4a07 100644
--- a/genC.go
+++ b/genC.go
@@ -38,6 +38,8 @@ var cBuildInType = map[string]bool{
 // GenC generates C programming language source code for XML schema definition
 // files.
 func (gen *CodeGenerator) GenC() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genGo.go b/genGo.go
index 8bc52f3..828bfc4 100644
--- a/genGo.go
+++ b/genGo.go
@@ -59,6 +59,8 @@ var goBuildinType = map[string]bool{
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genJava.go b/genJava.go
index a86f9e3..c79a281 100644
--- a/genJava.go
+++ b/genJava.go
@@ -32,6 +32,8 @@ var javaBuildInType = map[string]bool{
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genRust.go b/genRust.go
index 9ba50f4..8d56910 100644
--- a/genRust.go
+++ b/genRust.go
@@ -96,6 +96,8 @@ var (
 // GenRust generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genTypeScript.go b/genTypeScript.go
index c16fd2d..3417a73 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -31,6 +31,8 @@ var typeScriptBuildInType = map[string]bool{
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
+	fieldNameMutex.Lock()
+	defer fieldNameMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/utils.go b/utils.go
index c5462c1..4781c69 100644
--- a/utils.go
+++ b/utils.go
@@ -19,6 +19,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 )
@@ -28,6 +29,7 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	fieldNameMutex sync.Mutex // guards fieldNameCount while code is generated
 )
 
 // ToSnakeCase converts the provided string to snake_case.
-- 
2.43.0


From 525a55ca506c1a259341ab3734b2fc6db3cc6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 23/37] fix: keep the documentation of elements with an inline
 complex type

---
 xmlComplexType.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index f0675ce..7859ab0 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -39,7 +39,12 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 
 // EndComplexType handles parsing event on the complex end elements.
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	c := opt.ComplexType.Pop().(*ComplexType)
+	if e, ok := opt.Element.Peek().(*Element); ok && opt.parent(1) == "element" && c.Doc == "" {
+		// There is no other declaration the documentation could be part of.
+		c.Doc = e.Doc
+	}
+	opt.ProtoTree = append(opt.ProtoTree, c)
 	opt.Choice.Pop()
 	opt.CurrentEle = ""
 	return
-- 
2.43.0


From 39f95d87b51062f6ee285451106c439b1ddcfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 24/37] fix: return the error when the output directory cannot
 be created

Parse ended the whole process instead.
---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 9aec108..8bf4396 100644
--- a/parser.go
+++ b/parser.go
@@ -154,9 +154,8 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[filepath.Clean(opt.FilePath)] = opt.ProtoTree
 		path := opt.outputPath()
-		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
+			return
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
-- 
2.43.0


From 404c8971659a8a84c568261f533fb8f0aa080d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 25/37] fix: report errors when writing the generated code

A full disk left incomplete files behind without an error.
---
 genC.go          | 2 +-
 genGo.go         | 2 +-
 genJava.go       | 2 +-
 genRust.go       | 2 +-
 genTypeScript.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 58e4a07..862a34a 100644
--- a/genC.go
+++ b/genC.go
@@ -54,7 +54,7 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genGo.go b/genGo.go
index 828bfc4..7f6a6b9 100644
--- a/genGo.go
+++ b/genGo.go
@@ -93,7 +93,7 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genJava.go b/genJava.go
index c79a281..6eff320 100644
--- a/genJava.go
+++ b/genJava.go
@@ -61,7 +61,7 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
 }
 
diff --git a/genRust.go b/genRust.go
index 8d56910..9d07b03 100644
--- a/genRust.go
+++ b/genRust.go
@@ -118,7 +118,7 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genTypeScript.go b/genTypeScript.go
index 3417a73..1a4525d 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -47,7 +47,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 
 }
-- 
2.43.0


From 2a6f87526178822a5cbcefb0dfae212f745d3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 26/37] fix: single input file which depends on other schemas
 with an output file given

The generated code of the dependencies was placed below the path of the
output file, which could not be created afterwards.
---
 parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 8bf4396..7fa5714 100644
--- a/parser.go
+++ b/parser.go
@@ -271,6 +271,14 @@ func (opt *Options) dependencies() (schemas []interface{}, err error) {
 	return schemas, nil
 }
 
+var outputExtensions = map[string]string{
+	"Go":         ".go",
+	"C":          ".h",
+	"Java":       ".java",
+	"Rust":       ".rs",
+	"TypeScript": ".ts",
+}
+
 // outputPath returns the path of the generated code without its extension. It
 // is below the output directory where the schema file is below the input
 // directory, or the output path itself if the input is that file.
@@ -278,9 +286,14 @@ func (opt *Options) outputPath() string {
 	if filepath.Clean(opt.FilePath) == filepath.Clean(opt.InputDir) {
 		return filepath.Clean(opt.OutputDir)
 	}
-	inputDir := opt.InputDir
+	inputDir, outputDir := opt.InputDir, opt.OutputDir
 	if fi, err := os.Stat(inputDir); err == nil && !fi.IsDir() {
 		inputDir = filepath.Dir(inputDir)
+		if ext := filepath.Ext(outputDir); ext != "" && ext == outputExtensions[opt.Lang] {
+			// The output path is the file generated for the input file, code
+			// of the schemas it depends on is placed beside it.
+			outputDir = filepath.Dir(outputDir)
+		}
 	}
 	path, err := filepath.Rel(inputDir, opt.FilePath)
 	if err != nil {
@@ -289,5 +302,5 @@ func (opt *Options) outputPath() string {
 	for strings.HasPrefix(path, ".."+string(filepath.Separator)) {
 		path = path[3:]
 	}
-	return filepath.Join(opt.OutputDir, path)
+	return filepath.Join(outputDir, path)
 }
-- 
2.43.0


From 18bfc590c537aab76e8f949d6cb6eef91e53b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:06 +0000
Subject: [PATCH 27/37] fix: report directories which cannot be listed

Schemas in an unreadable directory were skipped, and success reported.
---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 4781c69..bfdde30 100644
--- a/utils.go
+++ b/utils.go
@@ -50,7 +50,7 @@ func GetFileList(path string) (files []string, err error) {
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
 			files = append(files, fp)
-			return nil
+			return err
 		})
 		if err != nil {
 			return
-- 
2.43.0


From 2de2bcef255446b7e6b217821ee68be6bd65f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 28/37] fix: report an output directory which cannot be created
 below a file

Any other error than a missing directory was taken for success.
---
 utils.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index bfdde30..fc8fda1 100644
--- a/utils.go
+++ b/utils.go
@@ -66,11 +66,8 @@ func PrepareOutputDir(path string) error {
 	if path == "" {
 		return nil
 	}
-	_, err := os.Stat(path)
-	if os.IsNotExist(err) {
-		if err := os.MkdirAll(path, 0755); err != nil {
-			return err
-		}
+	if _, err := os.Stat(path); err != nil {
+		return os.MkdirAll(path, 0755)
 	}
 	return nil
 }
-- 
2.43.0


From f2c230adc0ed5c017242007d312a795400ef5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 29/37] fix: keep generated code of schemas outside of the
 input directory apart

---
 parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 7fa5714..3680ffc 100644
--- a/parser.go
+++ b/parser.go
@@ -299,8 +299,11 @@ func (opt *Options) outputPath() string {
 	if err != nil {
 		path = strings.TrimPrefix(opt.FilePath, opt.InputDir)
 	}
-	for strings.HasPrefix(path, ".."+string(filepath.Separator)) {
-		path = path[3:]
+	// Code of schemas outside of the input directory is placed apart from the
+	// one of the schemas within it.
+	segments := strings.Split(path, string(filepath.Separator))
+	for i := 0; i < len(segments) && segments[i] == ".."; i++ {
+		segments[i] = "parent"
 	}
-	return filepath.Join(outputDir, path)
+	return filepath.Join(outputDir, filepath.Join(segments...))
 }
-- 
2.43.0


From 13b75a03f873ded4b07216583af83c7715107cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 30/37] fix: repeated xs:unsignedByte elements are lists in Go,
 not byte strings

---
 genGo.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/genGo.go b/genGo.go
index 7f6a6b9..03f4ee8 100644
--- a/genGo.go
+++ b/genGo.go
@@ -140,6 +140,15 @@ func genGoFieldType(name string) string {
 	return "interface{}"
 }
 
+// genGoPluralType returns the type of an element that can be repeated. A slice
+// of bytes would be decoded as the text of a single element.
+func genGoPluralType(fieldType string) string {
+	if fieldType == "uint8" || fieldType == "byte" {
+		return "[]*" + fieldType
+	}
+	return "[]" + fieldType
+}
+
 // GoSimpleType generates code for simple type XML schema in Go language
 // syntax.
 func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
@@ -224,15 +233,14 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 		}
 
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
-				plural = "[]"
-			}
 			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, genGoTagName(element.Name))
+			if element.Plural {
+				fieldType = genGoPluralType(fieldType)
+			}
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), fieldType, genGoTagName(element.Name))
 		}
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
@@ -261,11 +269,11 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 		content := " struct {\n"
 		fieldName := genGoFieldName(v.Name, true)
 		for _, element := range v.Elements {
-			var plural string
+			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if element.Plural {
-				plural = "[]"
+				fieldType = genGoPluralType(fieldType)
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genGoTagName(element.Name))
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), fieldType, genGoTagName(element.Name))
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From c59a3cb9ae155756c9d2758caea56ee2545fa7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 31/37] fix: names without an upper case form, or with marks or
 leading digits, become valid exported identifiers

---
 genGo.go   | 21 +++++++++++++++++++--
 genRust.go |  5 +++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/genGo.go b/genGo.go
index 03f4ee8..b037bd1 100644
--- a/genGo.go
+++ b/genGo.go
@@ -14,6 +14,8 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // CodeGenerator holds code generator overrides and runtime data that are used
@@ -106,7 +108,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = MakeFirstUpperCase(strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1))
+	fieldName = genGoIdentifier(fieldName)
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -116,6 +118,21 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// genGoIdentifier returns an exported identifier for the given name: letters
+// and digits only, starting with an upper case letter.
+func genGoIdentifier(name string) string {
+	name = MakeFirstUpperCase(strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, name))
+	if r, _ := utf8.DecodeRuneInString(name); name != "" && !unicode.IsUpper(r) {
+		name = "X" + name
+	}
+	return name
+}
+
 // genGoTagName returns the name of an element or attribute to be used in the
 // struct tag. The prefix of a reference is not part of the local name.
 func genGoTagName(name string) string {
@@ -133,7 +150,7 @@ func genGoFieldType(name string) string {
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
-	fieldType = MakeFirstUpperCase(strings.Replace(strings.Replace(fieldType, "-", "", -1), "_", "", -1))
+	fieldType = genGoIdentifier(fieldType)
 	if fieldType != "" {
 		return "*" + fieldType
 	}
diff --git a/genRust.go b/genRust.go
index 9d07b03..ccb2924 100644
--- a/genRust.go
+++ b/genRust.go
@@ -13,6 +13,8 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 var (
@@ -150,6 +152,9 @@ func genRustStructName(name string, unique bool) (structName string) {
 	}
 	structName = tmp
 	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	if r, _ := utf8.DecodeRuneInString(structName); unicode.IsDigit(r) {
+		structName = "X" + structName
+	}
 	if unique {
 		fieldNameCount[structName]++
 		if count := fieldNameCount[structName]; count != 1 {
-- 
2.43.0


From 8e6e379f77099c086330e5ac53977020020b8534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 32/37] fix: declare components whose names become one
 identifier under different identifiers

C typedefs, Go elements and Rust elements and attributes did not take part in
the numbering of equal identifiers, and a numbered identifier could be the one
of another component.
---
 genC.go          | 15 ++++++---------
 genGo.go         |  7 ++-----
 genJava.go       |  5 +----
 genRust.go       |  7 +++----
 genTypeScript.go |  5 +----
 utils.go         | 11 +++++++++++
 6 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/genC.go b/genC.go
index 862a34a..f9b7a12 100644
--- a/genC.go
+++ b/genC.go
@@ -76,10 +76,7 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(fieldName)
 	}
 	return
 }
@@ -113,9 +110,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
-			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
+			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
+			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 			return
 		}
@@ -150,8 +147,8 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 	}
 }
@@ -270,7 +267,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
 	}
 }
@@ -286,8 +283,8 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, cDoc(v.Doc), "//"), gen.StructAST[v.Name])
 	}
 }
diff --git a/genGo.go b/genGo.go
index b037bd1..5946cce 100644
--- a/genGo.go
+++ b/genGo.go
@@ -110,10 +110,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = genGoIdentifier(fieldName)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(fieldName)
 	}
 	return
 }
@@ -343,7 +340,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genJava.go b/genJava.go
index 6eff320..c3e843d 100644
--- a/genJava.go
+++ b/genJava.go
@@ -76,10 +76,7 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(fieldName)
 	}
 	return
 }
diff --git a/genRust.go b/genRust.go
index ccb2924..e6183ea 100644
--- a/genRust.go
+++ b/genRust.go
@@ -156,10 +156,7 @@ func genRustStructName(name string, unique bool) (structName string) {
 		structName = "X" + structName
 	}
 	if unique {
-		fieldNameCount[structName]++
-		if count := fieldNameCount[structName]; count != 1 {
-			structName = fmt.Sprintf("%s%d", structName, count)
-		}
+		structName = uniqueFieldName(structName)
 	}
 	return
 }
@@ -338,6 +335,7 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
+		fieldName = uniqueFieldName(fieldName)
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
@@ -355,6 +353,7 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
+		fieldName = uniqueFieldName(fieldName)
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genTypeScript.go b/genTypeScript.go
index 1a4525d..5ba1fd2 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -63,10 +63,7 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(fieldName)
 	}
 	return
 }
diff --git a/utils.go b/utils.go
index fc8fda1..712a057 100644
--- a/utils.go
+++ b/utils.go
@@ -175,6 +175,17 @@ func getBase(name string, XSDSchema []interface{}, simpleTypeOnly bool) string {
 	return base
 }
 
+// uniqueFieldName returns the identifier of a declaration, with a number
+// appended if the identifier is already in use.
+func uniqueFieldName(fieldName string) string {
+	unique := fieldName
+	for count := 2; fieldNameCount[unique] != 0; count++ {
+		unique = fmt.Sprintf("%s%d", fieldName, count)
+	}
+	fieldNameCount[unique]++
+	return unique
+}
+
 // isTypeName reports whether the identifier of an element or attribute is the
 // one of its own type, or of another type definition of the schema. There is
 // only one declaration of a name, which is the one of the type.
-- 
2.43.0


From 1914053e6ea2effae82793bb5fd41cdac6dd4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:35 +0000
Subject: [PATCH 33/37] fix: references to types, elements, attributes and
 groups of one name were mixed up

Each kind of component has names of its own in XML Schema. References were
resolved to the first simple type, element or attribute of the name, whatever
their kind, and references to groups to built-in types.
---
 genC.go              |  8 +++----
 genGo.go             |  8 +++----
 genJava.go           |  8 +++----
 genRust.go           |  8 +++----
 genTypeScript.go     |  8 +++----
 parser.go            | 18 ++++++++++++++--
 utils.go             | 51 ++++++++++++++++++++++++++++----------------
 xmlAttribute.go      |  2 +-
 xmlAttributeGroup.go |  2 +-
 xmlElement.go        |  2 +-
 xmlGroup.go          |  2 +-
 11 files changed, 73 insertions(+), 44 deletions(-)

diff --git a/genC.go b/genC.go
index f9b7a12..1188612 100644
--- a/genC.go
+++ b/genC.go
@@ -159,7 +159,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
 		}
 
@@ -181,7 +181,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(trimNSPrefix(group.Ref)), genCFieldName(group.Name, false), plural)
 		}
 
 		for _, element := range v.Elements {
@@ -219,7 +219,7 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(trimNSPrefix(group.Ref)), genCFieldName(group.Name, false), plural)
 		}
 
 		content += "}"
@@ -235,7 +235,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
 		}
 		for _, attribute := range v.Attributes {
diff --git a/genGo.go b/genGo.go
index 5946cce..c296866 100644
--- a/genGo.go
+++ b/genGo.go
@@ -222,7 +222,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			// The attributes of the group are attributes of the element itself.
-			content += fmt.Sprintf("\t%s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\n", genGoFieldType(trimNSPrefix(attrGroup.Ref)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -237,7 +237,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, genGoTagName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			fieldType := genGoFieldType(trimNSPrefix(group.Ref))
 			if group.Plural {
 				content += fmt.Sprintf("\t%s\t[]%s\n", genGoFieldName(group.Name, false), fieldType)
 				continue
@@ -291,7 +291,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 		}
 
 		for _, group := range v.Groups {
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			fieldType := genGoFieldType(trimNSPrefix(group.Ref))
 			if group.Plural {
 				content += fmt.Sprintf("\t%s\t[]%s\n", genGoFieldName(group.Name, false), fieldType)
 				continue
@@ -313,7 +313,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 		content := " struct {\n"
 		fieldName := genGoFieldName(v.Name, true)
 		for _, attrGroup := range v.AttributeGroup {
-			content += fmt.Sprintf("\t%s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\n", genGoFieldType(trimNSPrefix(attrGroup.Ref)))
 		}
 		for _, attribute := range v.Attributes {
 			var optional string
diff --git a/genJava.go b/genJava.go
index c3e843d..2f05b04 100644
--- a/genJava.go
+++ b/genJava.go
@@ -149,7 +149,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
 		}
 
@@ -162,7 +162,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		for _, group := range v.Groups {
-			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			var fieldType = genJavaFieldType(trimNSPrefix(group.Ref))
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
@@ -214,7 +214,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 		}
 
 		for _, group := range v.Groups {
-			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			var fieldType = genJavaFieldType(trimNSPrefix(group.Ref))
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
 		}
 		for _, attribute := range v.Attributes {
diff --git a/genRust.go b/genRust.go
index e6183ea..acf7657 100644
--- a/genRust.go
+++ b/genRust.go
@@ -218,7 +218,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
@@ -230,7 +230,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 			}
 		}
 		for _, group := range v.Groups {
-			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			fieldType := genRustFieldType(trimNSPrefix(group.Ref))
 			fieldName := genRustFieldName(group.Name)
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
@@ -286,7 +286,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 			}
 		}
 		for _, group := range v.Groups {
-			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
+			fieldType := genRustFieldType(trimNSPrefix(group.Ref))
 			fieldName := genRustFieldName(group.Name)
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
@@ -306,7 +306,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
diff --git a/genTypeScript.go b/genTypeScript.go
index 5ba1fd2..72b22b4 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -194,7 +194,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
 		}
 
@@ -207,7 +207,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%sAttr: %s%s;\n", genTypeScriptFieldName(attribute.Name, false), fieldType, optional)
 		}
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(trimNSPrefix(group.Ref), group.Plural))
 		}
 
 		for _, element := range v.Elements {
@@ -247,7 +247,7 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 		}
 
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(trimNSPrefix(group.Ref), group.Plural))
 		}
 
 		content += "}\n"
@@ -263,7 +263,7 @@ func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
 		for _, attrGroup := range v.AttributeGroup {
-			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			fieldType := trimNSPrefix(attrGroup.Ref)
 			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
 		}
 		for _, attribute := range v.Attributes {
diff --git a/parser.go b/parser.go
index 3680ffc..db04ade 100644
--- a/parser.go
+++ b/parser.go
@@ -183,7 +183,21 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		valueType = buildType
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
+	return opt.resolve(value, XSDSchema, getBasefromSimpleType)
+}
+
+// getRefType convert the name of a global component to the type in given
+// programming language. The kinds of components have a symbol space each.
+func (opt *Options) getRefType(ref string, XSDSchema []interface{}, getBase func(string, []interface{}) string) (valueType string, err error) {
+	if buildType, ok := getBuildInTypeByLang(ref, opt.Lang); ok && getNSPrefix(ref) == "xml" {
+		valueType = buildType
+		return
+	}
+	return opt.resolve(ref, XSDSchema, getBase)
+}
+
+func (opt *Options) resolve(value string, XSDSchema []interface{}, getBase func(string, []interface{}) string) (valueType string, err error) {
+	valueType = getBase(trimNSPrefix(value), XSDSchema)
 	if opt.Extract {
 		return
 	}
@@ -209,7 +223,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if schemas, err = opt.dependencies(); err != nil {
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), schemas)
+	valueType = getBase(trimNSPrefix(value), schemas)
 	return
 }
 
diff --git a/utils.go b/utils.go
index 712a057..f551035 100644
--- a/utils.go
+++ b/utils.go
@@ -145,34 +145,49 @@ func getBuildInTypeByLang(value, lang string) (buildType string, ok bool) {
 }
 
 func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
-	base := getBase(name, XSDSchema, false)
+	base := getBase(name, XSDSchema)
 	// A base can be a simple type in turn, which is restricted further.
 	for seen := map[string]bool{name: true}; !seen[base]; {
 		seen[base] = true
-		base = getBase(base, XSDSchema, true)
+		base = getBase(base, XSDSchema)
 	}
 	return base
 }
 
-func getBase(name string, XSDSchema []interface{}, simpleTypeOnly bool) string {
-	base := name
+func getBase(name string, XSDSchema []interface{}) string {
 	for _, ele := range XSDSchema {
-		switch v := ele.(type) {
-		case *SimpleType:
-			if !v.List && !v.Union && v.Name == name {
-				return v.Base
-			}
-		case *Attribute:
-			if v.Name == name && base == name && !simpleTypeOnly {
-				base = v.Type
-			}
-		case *Element:
-			if v.Name == name && base == name && !simpleTypeOnly {
-				base = v.Type
-			}
+		if v, ok := ele.(*SimpleType); ok && !v.List && !v.Union && v.Name == name {
+			return v.Base
 		}
 	}
-	return base
+	return name
+}
+
+// getBasefromElement returns the type of the global element with the given
+// name. An element with an inline type is a type of that name.
+func getBasefromElement(name string, XSDSchema []interface{}) string {
+	for _, ele := range XSDSchema {
+		if v, ok := ele.(*Element); ok && v.Name == name {
+			return getBasefromSimpleType(v.Type, XSDSchema)
+		}
+	}
+	return name
+}
+
+// getBasefromAttribute returns the type of the global attribute with the given
+// name.
+func getBasefromAttribute(name string, XSDSchema []interface{}) string {
+	for _, ele := range XSDSchema {
+		if v, ok := ele.(*Attribute); ok && v.Name == name {
+			return getBasefromSimpleType(v.Type, XSDSchema)
+		}
+	}
+	return name
+}
+
+// getGroupName returns the name of a model group or attribute group itself.
+func getGroupName(name string, XSDSchema []interface{}) string {
+	return name
 }
 
 // uniqueFieldName returns the identifier of a declaration, with a number
diff --git a/xmlAttribute.go b/xmlAttribute.go
index 36e6214..d137b9c 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -19,7 +19,7 @@ func (opt *Options) OnAttribute(ele xml.StartElement, protoTree []interface{}) (
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
 			attribute.Name = attr.Value
-			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)
+			attribute.Type, err = opt.getRefType(attr.Value, protoTree, getBasefromAttribute)
 			if err != nil {
 				return
 			}
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index c0ce61d..03a79ea 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -22,7 +22,7 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 		}
 		if attr.Name.Local == "ref" {
 			attributeGroup.Name = attr.Value
-			attributeGroup.Ref, err = opt.GetValueType(attr.Value, protoTree)
+			attributeGroup.Ref, err = opt.getRefType(attr.Value, protoTree, getGroupName)
 			if err != nil {
 				return
 			}
diff --git a/xmlElement.go b/xmlElement.go
index a65095e..d9154fd 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -19,7 +19,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
 			e.Name = attr.Value
-			e.Type, err = opt.GetValueType(attr.Value, protoTree)
+			e.Type, err = opt.getRefType(attr.Value, protoTree, getBasefromElement)
 			if err != nil {
 				return
 			}
diff --git a/xmlGroup.go b/xmlGroup.go
index 35c0dc4..122e5c1 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -24,7 +24,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if attr.Name.Local == "ref" {
 			group.Name = attr.Value
-			group.Ref, err = opt.GetValueType(attr.Value, protoTree)
+			group.Ref, err = opt.getRefType(attr.Value, protoTree, getGroupName)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From ceedc036519ba09484f152075b54f6dbc6fcc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:35 +0000
Subject: [PATCH 34/37] fix: types named like a built-in datatype were taken
 for the datatype

The namespace of the reference tells them apart, including the default
namespace.
---
 parser.go        | 17 ++++++++++-------
 schema.go        |  3 +++
 xmlAttribute.go  |  4 +---
 xmlElement.go    |  5 +----
 xmlSimpleType.go |  4 +---
 5 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/parser.go b/parser.go
index db04ade..2a20410 100644
--- a/parser.go
+++ b/parser.go
@@ -175,13 +175,16 @@ func (opt *Options) Parse() (err error) {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
-		valueType = buildType
-		return
-	}
-	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
-		valueType = buildType
-		return
+	// A type of another namespace can have the name of a built-in type.
+	if ns := opt.parseNS(value); ns == "" || strings.HasSuffix(ns, "/XMLSchema") {
+		if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+			valueType = buildType
+			return
+		}
+		if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+			valueType = buildType
+			return
+		}
 	}
 	return opt.resolve(value, XSDSchema, getBasefromSimpleType)
 }
diff --git a/schema.go b/schema.go
index 6a94a68..40a1455 100644
--- a/schema.go
+++ b/schema.go
@@ -18,6 +18,9 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
diff --git a/xmlAttribute.go b/xmlAttribute.go
index d137b9c..691506e 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -49,9 +49,7 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 		return
 	}
 	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
-		if attribute.Type, err = opt.GetValueType("anySimpleType", protoTree); err != nil {
-			return
-		}
+		attribute.Type, _ = getBuildInTypeByLang("anySimpleType", opt.Lang)
 	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
diff --git a/xmlElement.go b/xmlElement.go
index d9154fd..b0a9932 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -52,10 +52,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 
 	if e.Type == "" {
 		// Unless it turns out to be given by an inline definition.
-		e.Type, err = opt.GetValueType("anyType", protoTree)
-		if err != nil {
-			return
-		}
+		e.Type, _ = getBuildInTypeByLang("anyType", opt.Lang)
 	}
 
 	if opt.Choice.Len() > 0 {
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index d82397f..485f92e 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -39,9 +39,7 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 	// The inline definition contributes to the component it belongs to.
 	valueType := simpleType.Base
 	if valueType == "" {
-		if valueType, err = opt.GetValueType("anySimpleType", opt.ProtoTree); err != nil {
-			return
-		}
+		valueType, _ = getBuildInTypeByLang("anySimpleType", opt.Lang)
 	}
 	switch opt.parent(1) {
 	case "element":
-- 
2.43.0


From 5810c540d1b42f609385e3f04507d5646f0e4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 35/37] fix: an inline simple type in a simple content
 restriction replaced the base type

---
 xmlSimpleType.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 485f92e..8951a7a 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -52,9 +52,7 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 		}
 	case "restriction":
 		if opt.parent(2) == "simpleContent" {
-			if c, ok := opt.ComplexType.Peek().(*ComplexType); ok {
-				c.Base = valueType
-			}
+			// It narrows the content of the base, which the type keeps.
 			return
 		}
 		if s, ok := opt.SimpleType.Peek().(*SimpleType); ok {
-- 
2.43.0


From eab6c8c91d2c495e98cfeefe336b8988e05f2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:27 +0000
Subject: [PATCH 36/37] fix: namespace declarations of other elements than the
 schema were ignored

---
 parser.go |  8 ++++++--
 schema.go | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2a20410..7c8f433 100644
--- a/parser.go
+++ b/parser.go
@@ -53,8 +53,9 @@ type Options struct {
 	AttributeGroup *Stack
 	Choice         *Stack
 
-	path []string // local names of the elements which are currently open
-	doc  string   // content of the documentation which is currently open
+	path   []string            // local names of the elements which are currently open
+	scopes []map[string]string // namespace declarations of the elements which enclose the current one
+	doc    string              // content of the documentation which is currently open
 
 	schemas []interface{} // components of the schema file and its dependencies
 }
@@ -104,6 +105,7 @@ func (opt *Options) Parse() (err error) {
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
 	opt.path = nil
+	opt.scopes = nil
 	opt.doc = ""
 	opt.schemas = nil
 
@@ -123,6 +125,7 @@ func (opt *Options) Parse() (err error) {
 		case xml.StartElement:
 
 			opt.path = append(opt.path, element.Name.Local)
+			opt.enterScope(element)
 			if opt.inAnnotation() {
 				continue
 			}
@@ -141,6 +144,7 @@ func (opt *Options) Parse() (err error) {
 				}
 			}
 			opt.path = opt.path[:len(opt.path)-1]
+			opt.leaveScope()
 		case xml.CharData:
 			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
 				return
diff --git a/schema.go b/schema.go
index 40a1455..90a1446 100644
--- a/schema.go
+++ b/schema.go
@@ -24,6 +24,32 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	}
 }
 
+// enterScope takes the namespace declarations of an element into account, which
+// apply to the element and its content.
+func (opt *Options) enterScope(element xml.StartElement) {
+	opt.scopes = append(opt.scopes, opt.LocalNameNSMap)
+	if element.Name.Local == "schema" {
+		return
+	}
+	for _, attr := range element.Attr {
+		if attr.Name.Space == "xmlns" || attr.Name.Space == "" && attr.Name.Local == "xmlns" {
+			outer := opt.LocalNameNSMap
+			opt.LocalNameNSMap = make(map[string]string)
+			for prefix, ns := range outer {
+				opt.LocalNameNSMap[prefix] = ns
+			}
+			opt.prepareLocalNameNSMap(element)
+			return
+		}
+	}
+}
+
+// leaveScope restores the namespace declarations of the enclosing element.
+func (opt *Options) leaveScope() {
+	last := len(opt.scopes) - 1
+	opt.LocalNameNSMap, opt.scopes = opt.scopes[last], opt.scopes[:last]
+}
+
 func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	var currentNS string
 	for _, ele := range element.Attr {
-- 
2.43.0


From 8e93ade93a0db0f39e7313115068b2e694ca118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:08 +0000
Subject: [PATCH 37/37] fix: an input directory given by a symbolic link was
 not compiled

---
 utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index f551035..9fa3223 100644
--- a/utils.go
+++ b/utils.go
@@ -48,7 +48,12 @@ func GetFileList(path string) (files []string, err error) {
 		return
 	}
 	if fi.IsDir() {
-		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+		root := path
+		if !os.IsPathSeparator(root[len(root)-1]) {
+			// A symbolic link to the directory is followed.
+			root += string(filepath.Separator)
+		}
+		err = filepath.Walk(root, func(fp string, info os.FileInfo, err error) error {
 			files = append(files, fp)
 			return err
 		})
-- 
2.43.0

