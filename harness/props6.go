package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/xuri/xgen"
	"pgregory.net/rapid"
)

// ---- C21: helper functions

// HelpCase is a use of a helper.
type HelpCase struct {
	Fn   string            `json:"fn"`
	Ops  []StackOp         `json:"ops,omitempty"`
	S    string            `json:"s"`
	Ext  string            `json:"ext,omitempty"`
	Tree map[string]string `json:"tree,omitempty"` // "/" for a directory
	Path string            `json:"path,omitempty"`
	Link bool              `json:"link,omitempty"` // the path is given by a symbolic link
}

// StackOp is an operation on a stack.
type StackOp struct {
	Op string      `json:"op"`
	V  interface{} `json:"v,omitempty"`
}

// FnCall asks the worker to run a helper.
type FnCall struct {
	C HelpCase `json:"c"`
}

// FnRes is what it did.
type FnRes struct {
	Out   []interface{}     `json:"out"`
	Files []string          `json:"files,omitempty"`
	Err   string            `json:"err,omitempty"`
	Panic string            `json:"panic,omitempty"`
	Tree  map[string]string `json:"tree,omitempty"`
}

func doFn(c *FnCall, dir string) json.RawMessage {
	r := runFn(&c.C, dir)
	b, _ := json.Marshal(r)
	return b
}

func runFn(c *HelpCase, dir string) (r FnRes) {
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e)
		}
	}()
	out := func(v interface{}) { r.Out = append(r.Out, v) }
	if c.Fn == "list" || c.Fn == "mkdir" {
		os.MkdirAll(filepath.Join(dir, "t"), 0o755)
		for _, n := range sortedKeys(c.Tree) {
			fp := filepath.Join(dir, "t", n)
			if c.Tree[n] == "/" {
				os.MkdirAll(fp, 0o755)
				continue
			}
			os.MkdirAll(filepath.Dir(fp), 0o755)
			os.WriteFile(fp, []byte(c.Tree[n]), 0o644)
		}
	}
	switch c.Fn {
	case "stack":
		s := xgen.NewStack()
		for _, o := range c.Ops {
			switch o.Op {
			case "push":
				s.Push(o.V)
			case "pop":
				out(s.Pop())
			case "peek":
				out(s.Peek())
			case "len":
				out(s.Len())
			case "empty":
				out(s.Empty())
			}
		}
	case "snake":
		a := xgen.ToSnakeCase(c.S)
		out(a)
		out(xgen.ToSnakeCase(a))
	case "upper":
		a := xgen.MakeFirstUpperCase(c.S)
		out(a)
		out(xgen.MakeFirstUpperCase(a))
		out(xgen.ToTitle(c.S))
	case "ext":
		g := &xgen.CodeGenerator{File: c.S}
		a := g.FileWithExtension(c.Ext)
		out(a)
		out(g.File)
		g.File = a
		out(g.FileWithExtension(c.Ext))
	case "list":
		p := filepath.Join(dir, "t", c.Path)
		if strings.HasSuffix(c.Path, "/") {
			p += "/"
		}
		real := p
		if c.Link {
			p = filepath.Join(dir, "lnk")
			if err := os.Symlink(strings.TrimSuffix(real, "/"), p); err != nil {
				panic(err)
			}
			if strings.HasSuffix(real, "/") {
				p += "/"
			}
		}
		fs, err := xgen.GetFileList(p)
		if err != nil {
			r.Err = "error: " + err.Error()
		}
		for _, f := range fs {
			if c.Link {
				f = filepath.Clean(real + "/" + strings.TrimPrefix(f, strings.TrimSuffix(p, "/")))
			}
			rel, err := filepath.Rel(filepath.Join(dir, "t"), f)
			if err != nil {
				rel = "?" + f
			}
			r.Files = append(r.Files, rel)
		}
		r.Tree, _ = snapshot(filepath.Join(dir, "t"))
	case "mkdir":
		p := filepath.Join(dir, "t", c.Path)
		if c.Path == "" {
			p = ""
		}
		if err := xgen.PrepareOutputDir(p); err != nil {
			r.Err = "error: " + err.Error()
		}
		r.Tree, _ = snapshot(filepath.Join(dir, "t"))
	}
	return
}

var pathSegs = []string{"a", "b", "c.xsd", "sub", "x y", "ü", ".hid", "a.b.c", "Z.XSD", "0"}

func genHelp(t *rapid.T, tier string) interface{} {
	c := HelpCase{Fn: pick(t, "fn", []string{"stack", "stack", "snake", "upper", "ext", "list", "mkdir"})}
	str := func(l string) string {
		switch num(t, l+".k", 0, 4) {
		case 0:
			return newNamer(true, true).word(t, l)
		case 1:
			return rapid.StringN(0, 12, -1).Draw(t, l)
		default:
			var b strings.Builder
			for i := num(t, l+".n", 0, 9); i > 0; i-- {
				b.WriteString(pick(t, l+".c", []string{"a", "b", "Z", "A", "1", "9", "-", "_", ".", ":", "é", "É", "ß", "ж", "Ж", " ", "ǆ", "İ", "ı", "中", "XML", "Id", "aB"}))
			}
			return b.String()
		}
	}
	switch c.Fn {
	case "stack":
		for i := num(t, "n", 0, 30); i > 0; i-- {
			o := StackOp{Op: pick(t, "op", []string{"push", "push", "pop", "peek", "len", "empty"})}
			if o.Op == "push" {
				o.V = rapid.SampledFrom([]interface{}{"x", "y", "", float64(1), float64(2), true, nil}).Draw(t, "v")
				if chance(t, "uniq", 60) {
					o.V = fmt.Sprint("v", i)
				}
			}
			c.Ops = append(c.Ops, o)
		}
	case "snake", "upper":
		c.S = str("s")
	case "ext":
		c.S = pick(t, "dir", []string{"", "out/", "a.b/", "/abs/", "./"}) + str("s") + pick(t, "suffix", []string{"", ".xsd", ".go", ".xsd.go", "go", ".goo", ".h", ".GO", "."})
		c.Ext = pick(t, "ext", []string{".go", "go", ".h", "h", "rs", ".d.ts", "xsd.go", ".java"})
	case "list", "mkdir":
		c.Tree = map[string]string{}
		most, deep := 8, 4
		if chance(t, "large", 8) {
			most, deep = 40, 9
		}
		for i := num(t, "n", 0, most); i > 0; i-- {
			var segs []string
			for k := num(t, "depth", 1, deep); k > 0; k-- {
				segs = append(segs, pick(t, "seg", pathSegs))
			}
			p := strings.Join(segs, "/")
			ok := true
			for q := range c.Tree {
				if p == q || strings.HasPrefix(p, q+"/") && c.Tree[q] != "/" || strings.HasPrefix(q, p+"/") {
					ok = false
				}
			}
			if ok {
				c.Tree[p] = pick(t, "content", []string{"", "x", "/", "data"})
			}
		}
		// a path in, above or beside the tree
		ks := sortedKeys(c.Tree)
		if len(ks) > 0 && chance(t, "in", 75) {
			c.Path = pick(t, "path", ks)
			for k := num(t, "up", 0, 2); k > 0; k-- {
				c.Path = filepath.Dir(c.Path)
			}
			if chance(t, "down", 35) {
				c.Path += "/" + pick(t, "seg", pathSegs)
				if chance(t, "down2", 40) {
					c.Path += "/" + pick(t, "seg", pathSegs)
				}
			}
		} else {
			c.Path = pick(t, "seg", pathSegs)
		}
		c.Link = c.Fn == "list" && chance(t, "link", 15)
		if c.Fn == "mkdir" && chance(t, "empty", 8) {
			c.Path = ""
		} else if chance(t, "slash", 15) {
			c.Path += "/"
		}
	}
	return c
}

// snakeModel is the reference for snake case.
func snakeModel(s string) string {
	up := func(b byte) bool { return b >= 'A' && b <= 'Z' }
	lo := func(b byte) bool { return b >= 'a' && b <= 'z' }
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if i > 0 && up(c) {
			p := s[i-1]
			if lo(p) || p >= '0' && p <= '9' || up(p) && i+1 < len(s) && lo(s[i+1]) {
				b.WriteByte('_')
			}
		}
		if c == '-' {
			c = '_'
		}
		b.WriteByte(c)
	}
	return strings.ToLower(b.String())
}

func evalHelp(e *Env, raw json.RawMessage) Verdict {
	var c HelpCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	v := Verdict{Labels: []string{c.Fn}, NonTrivial: c.S != "" || len(c.Ops) > 1 || len(c.Tree) > 0}
	res := e.W.Do(&Job{Fn: &FnCall{c}})
	if res.Infra != "" {
		return Verdict{Infra: res.Infra}
	}
	add := func(f string, a ...interface{}) {
		v.Problems = append(v.Problems, Problem{c.Fn, "", "", fmt.Sprintf(f, a...)})
	}
	if res.Died != "" || res.Hung {
		add("the process ended or hung: %v %s", res.Hung, trunc(res.Died, 500))
		return v
	}
	var r FnRes
	if err := json.Unmarshal(res.Fn, &r); err != nil {
		return Verdict{Infra: err.Error()}
	}
	if r.Panic != "" {
		add("panic: %s", r.Panic)
		return v
	}
	str := func(i int) string { s, _ := r.Out[i].(string); return s }
	switch c.Fn {
	case "stack":
		var m []interface{}
		k := 0
		expect := func(i int, o StackOp, want interface{}) {
			if f, ok := want.(int); ok {
				want = float64(f)
			}
			if k >= len(r.Out) || !reflect.DeepEqual(r.Out[k], want) {
				got := interface{}("nothing")
				if k < len(r.Out) {
					got = r.Out[k]
				}
				add("operation %d (%s) returns %v, want %v", i, o.Op, got, want)
			}
			k++
		}
		for i, o := range c.Ops {
			var top interface{}
			if len(m) > 0 {
				top = m[len(m)-1]
			}
			switch o.Op {
			case "push":
				m = append(m, o.V)
			case "pop":
				expect(i, o, top)
				if len(m) > 0 {
					m = m[:len(m)-1]
				}
			case "peek":
				expect(i, o, top)
			case "len":
				expect(i, o, len(m))
			case "empty":
				expect(i, o, len(m) == 0)
			}
		}
	case "snake":
		if str(0) != snakeModel(c.S) {
			add("%q becomes %q, want %q", c.S, str(0), snakeModel(c.S))
		}
		if utf8.ValidString(c.S) && str(1) != str(0) {
			add("%q becomes %q, and then %q", c.S, str(0), str(1))
		}
	case "upper":
		want := c.S
		for i, x := range c.S {
			if i == 0 {
				_, n := utf8.DecodeRuneInString(c.S)
				want = string(unicode.ToUpper(x)) + strings.ToValidUTF8(c.S[n:], "\uFFFD")
			}
		}
		if str(0) != want && utf8.ValidString(c.S) {
			add("%q becomes %q, want %q", c.S, str(0), want)
		}
		if str(1) != str(0) || str(2) != str(0) {
			add("%q becomes %q, then %q; as a title %q", c.S, str(0), str(1), str(2))
		}
	case "ext":
		ext := "." + strings.TrimPrefix(c.Ext, ".")
		want := c.S
		if !strings.HasSuffix(c.S, ext) {
			want += ext
		}
		if str(0) != want {
			add("extension %q of %q: %q, want %q", c.Ext, c.S, str(0), want)
		}
		if str(1) != c.S || str(2) != want {
			add("extension %q of %q: the file becomes %q; applied again %q", c.Ext, c.S, str(1), str(2))
		}
	case "list":
		before := treeOf(c.Tree)
		if !sameTree(before, r.Tree) {
			add("listing changes the tree: %v", r.Tree)
		}
		p := filepath.Clean(c.Path)
		kind, ok := before[p]
		if p == "." {
			kind, ok = "/", true
		}
		if strings.HasSuffix(c.Path, "/") && kind != "/" {
			ok = false
		}
		if !ok {
			if r.Err == "" {
				add("listing %q, which does not exist, gives no error but %v", c.Path, r.Files)
			}
			return v
		}
		if r.Err != "" {
			add("listing %q: %s", c.Path, r.Err)
			return v
		}
		n := map[string]int{}
		for _, f := range r.Files {
			k, ok := before[f]
			if f == "." {
				k, ok = "/", true
			}
			if !ok {
				add("listing %q names %q, which does not exist", c.Path, f)
			}
			if f != p && !strings.HasPrefix(f, p+"/") && p != "." {
				add("listing %q names %q", c.Path, f)
			}
			if k != "/" {
				n[f]++
			}
		}
		var want []string
		for f, k := range before {
			if k != "/" && (f == p || strings.HasPrefix(f, p+"/") || p == ".") {
				want = append(want, f)
			}
		}
		sort.Strings(want)
		for _, f := range want {
			if n[f] != 1 {
				add("listing %q names %q %d times", c.Path, f, n[f])
			}
		}
	case "mkdir":
		before := treeOf(c.Tree)
		p := filepath.Clean(c.Path)
		if c.Path == "" {
			if r.Err != "" || !sameTree(before, r.Tree) {
				add("the empty path: %q, %v", r.Err, r.Tree)
			}
			return v
		}
		blocked := false
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			if k, ok := before[d]; ok && k != "/" {
				blocked = true
			}
		}
		for k, w := range before {
			if r.Tree[k] != w {
				add("preparing %q changes %q", c.Path, k)
			}
		}
		if blocked {
			if r.Err == "" {
				add("preparing %q, which is below a file, gives no error", c.Path)
			}
			return v
		}
		if r.Err != "" && (before[p] == "" || before[p] == "/") {
			add("preparing %q: %s", c.Path, r.Err)
		}
		if r.Tree[p] == "" && p != "." {
			add("preparing %q does not create it", c.Path)
		}
		for k, w := range r.Tree {
			if _, ok := before[k]; !ok && (w != "/" || k != p && !strings.HasPrefix(p, k+"/")) {
				add("preparing %q creates %q", c.Path, k)
			}
		}
	}
	return v
}

func sameTree(a, b map[string]string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// treeOf completes a tree with the directories its paths need.
func treeOf(t map[string]string) map[string]string {
	m := map[string]string{}
	for p, c := range t {
		if c == "/" {
			m[p] = "/"
		} else {
			m[p] = "F" + c
		}
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			m[d] = "/"
		}
	}
	return m
}

func init() {
	register(&Prop{ID: "C21", Quick: 150000, Thorough: 1500000,
		Rule: "a helper and its arguments are drawn: sequences of up to 30 stack operations, strings (names, Unicode, mixtures of cases, digits and separators), file names with extensions, file trees with paths in, above and beside them; results are compared with reference implementations; non-trivial: two or more operations, a non-empty string or a non-empty tree",
		Gen:  genHelp, Eval: evalHelp})
}
