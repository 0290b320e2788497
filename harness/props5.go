package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ---- C17 and C18: the xgen command and where output goes

// CLIOp is one invocation of the command.
type CLIOp struct {
	In      string `json:"in,omitempty"` // @ stands for the absolute path of the working directory
	NoIn    bool   `json:"noin,omitempty"`
	Out     string `json:"out,omitempty"`
	NoOut   bool   `json:"noout,omitempty"`
	Lang    string `json:"lang,omitempty"`
	NoLang  bool   `json:"nolang,omitempty"`
	Pkg     string `json:"pkg,omitempty"`
	Help    bool   `json:"help,omitempty"`
	Version bool   `json:"version,omitempty"`
	Unknown bool   `json:"unknown,omitempty"`
	Form    int    `json:"form,omitempty"` // -x v, -x=v, --x v
	Order   int    `json:"order,omitempty"`
	Stale   int    `json:"stale,omitempty"` // older output of this size is in the place of the output; -1 to -3: of the same size as the output, a part of it, more than it
}

// CLICase is a file tree and a sequence of invocations.
type CLICase struct {
	P     *Project          `json:"p"`
	Extra map[string][]byte `json:"extra"` // other files
	Dirs  []string          `json:"dirs,omitempty"`
	RO    bool              `json:"ro,omitempty"` // there is a directory "ro" which cannot be written
	Bad   string            `json:"bad,omitempty"`
	Lock  string            `json:"lock,omitempty"`  // a directory or file which cannot be read
	Link  bool              `json:"link,omitempty"`  // "inl" is a symbolic link to the directory "in"
	Alias bool              `json:"alias,omitempty"` // the schema "in/alias.xsd" is a symbolic link
	Ops   []CLIOp           `json:"ops"`
}

const tinySchema = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:complexType name="Tiny"><xs:sequence><xs:element name="grain" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`

func genCLI(usage bool) func(t *rapid.T, tier string) interface{} {
	return func(t *rapid.T, tier string) interface{} {
		cfg := baseCfg()
		full(&cfg, tier)
		cfg.MaxFiles, cfg.MaxComps, cfg.MaxMembers = 4, 3, 3
		c := CLICase{P: GenProject(t, cfg), Extra: map[string][]byte{}}
		// things which are not schemas, or are called differently
		for _, x := range []struct{ n, v string }{
			{"in/readme.txt", "not a schema <"}, {"in/data.xml", "<doc></wrong>"}, {"in/old.xsd.bak", "<"}, {"in/noext", "\x00"}, {"in/sub/.hidden", "x"},
			{"in/UPPER.XSD", tinySchema}, {"in/d.xsd/kernel.xsd", tinySchema}, {"in/with space/my file.xsd", tinySchema}, {"in/very/deeply/nested/dir/leaf.xsd", tinySchema},
			{"in/two.dots.xsd", tinySchema}, {"in/xsd", "none"}, {"in/a.go.xsd", tinySchema}, {"other/unrelated.xsd", "<"}, {"in/.dot.xsd", tinySchema}, {"in/größe.xsd", tinySchema}, {"in/100%d.xsd", tinySchema},
			{"in/ lead.xsd", tinySchema}, {"in/trail .xsd", tinySchema}, {"in/trail/ /x.xsd", tinySchema}, {"in/-dash.xsd", tinySchema}, {"in/back\\slash.xsd", tinySchema}, {"in/[a-z]*.xsd", tinySchema}, {"in/$HOME.xsd", tinySchema},
			{"in/double.xsd.xsd", tinySchema}, {"in/~/home.xsd", tinySchema}, {"in/node_modules/m.xsd", tinySchema}, {"in/.git/hidden.xsd", tinySchema}, {"in/vendor/testdata/v.xsd", tinySchema}, {"in/xgen_out/o.xsd", tinySchema}, {"in/vendor.xsd~", "<"},
		} {
			if chance(t, "extra", 18) {
				c.Extra[x.n] = []byte(x.v)
			}
		}
		for _, d := range []string{"in/empty", "out", "out/deep", "xgen_out"} {
			if chance(t, "mkdir", 20) {
				c.Dirs = append(c.Dirs, d)
			}
		}
		if chance(t, "bulk", 3) {
			c.Extra["in/bulk.xsd"] = []byte(strings.Replace(tinySchema, "</", "<!--"+strings.Repeat("bulk ", pick(t, "bulkn", []int{14000, 60000}))+"--></", 1))
		}
		blocked := chance(t, "blocked", 10)
		if blocked {
			// a file where the output directory should be
			c.Dirs = nil
			c.Extra["out"] = []byte("in the way")
		}
		c.RO = chance(t, "ro", 8)
		c.Link = chance(t, "link", 20)
		if c.Alias = chance(t, "alias", 12); c.Alias {
			c.Extra["other/target.xsd"] = []byte(tinySchema)
		}
		if chance(t, "bad", 15) {
			c.Bad = pick(t, "badname", []string{"in/aaa.xsd", "in/mmm.xsd", "in/zzz.xsd", "in/sub/broken.xsd"})
			c.Extra[c.Bad] = []byte(tinySchema[:num(t, "cut", 60, len(tinySchema)-2)])
		}
		if chance(t, "locked", 10) {
			c.Lock = pick(t, "lock", []string{"in/locked", "in/sub/locked", "in/secret.xsd", "in/secret.txt"})
			if strings.Contains(c.Lock, "secret") {
				c.Extra[c.Lock] = []byte(tinySchema)
			} else {
				c.Extra[c.Lock+"/k.xsd"] = []byte(tinySchema)
			}
		}
		for n := num(t, "nops", 1, 3); n > 0; n-- {
			o := CLIOp{Lang: pick(t, "lang", Langs), Form: num(t, "form", 0, 2), Order: num(t, "order", 0, 5)}
			ext := Ext[o.Lang]
			if chance(t, "pkg", 35) {
				o.Pkg = pick(t, "pkgname", []string{"other", "p1", "my_pkg"})
				if o.Lang != "Go" && chance(t, "dotted", 40) {
					o.Pkg = pick(t, "dottedpkg", []string{"com.example.schema", "v1.Types"})
				}
			}
			file := chance(t, "file", 35)
			if file {
				o.In = "in/" + c.P.Files[num(t, "which", 0, len(c.P.Files)-1)].Path
				if chance(t, "tiny", 15) {
					o.In = "single.dir/one.xsd"
					c.Extra[o.In] = []byte(tinySchema)
				}
				o.Out = pick(t, "outf", []string{"result", "result" + ext, "out/result", "out/result" + ext, "out/deep/er/result", "result.v2", "@/out/abs", "./out/x" + ext, "gen.xsd", "gen.go.rs.ts", " res ult", "out /x", "größe", "100%d", "back\\slash", "-dash", "~/x", "$HOME", "[a]*"})
				if c.Bad != "" && chance(t, "badin", 40) {
					o.In = c.Bad
				}
			} else {
				o.In = "in"
				if c.hasDir("in/sub") && chance(t, "sub", 20) {
					o.In = "in/sub"
				}
				o.Out = pick(t, "outd", []string{"out", "out/", "out/deep/er", "./out", "@/out", "in", ".", "in/gen", "out/../out2", "o.u.t", "out put", "out ", " out", "OUT", "größe", "100%d", "back\\slash", "-dash", "~", "$HOME/x", "[a]*", "out//x/./y"})
				if chance(t, "slash", 25) {
					o.In += "/"
				}
			}
			if c.Link && (o.In == "in" || strings.HasPrefix(o.In, "in/")) && chance(t, "bylink", 60) {
				o.In = "inl" + o.In[2:]
			}
			switch num(t, "deco", 0, 9) {
			case 0:
				o.In = "./" + o.In
			case 1:
				o.In = "@/" + o.In
			case 2:
				o.In = "in/../" + o.In
			}
			if chance(t, "noout", 15) && !file {
				o.NoOut = true
			}
			if c.RO && chance(t, "rout", 50) {
				o.Out, o.NoOut = "ro/x", false
			}
			if usage && chance(t, "usage", 45) {
				switch num(t, "mistake", 0, 7) {
				case 0:
					o.NoIn = true
				case 1:
					o.NoLang = true
				case 2:
					o.Lang = pick(t, "badlang", []string{"go", "GO", "Golang", "Python", "typescript", "Go ", "C++", "Rust,Go", "0"})
				case 3:
					o.In = pick(t, "missing", []string{"nowhere", "nowhere/x.xsd", "in/missing.xsd", "@/nowhere"})
				case 4:
					o.Help = true
				case 5:
					o.Version = true
				case 6:
					o.Unknown = true
				case 7:
					o.In = ""
				}
				if chance(t, "second", 25) {
					o.NoIn = true
				}
				if chance(t, "third", 15) {
					o.NoLang = true
				}
			}
			if chance(t, "stale", 30) {
				o.Stale = pick(t, "stalesize", []int{1, 40, 3000, 100000, -1, -1, -2, -3})
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

func (c *CLICase) files() map[string][]byte {
	m := map[string][]byte{}
	for n, b := range RenderAll(c.P) {
		m["in/"+n] = b
	}
	for n, b := range c.Extra {
		m[n] = b
	}
	if c.Alias {
		m["in/alias.xsd"] = c.Extra["other/target.xsd"]
	}
	return m
}

// real is the path a path through the link leads to.
func (c *CLICase) real(p string) string {
	if c.Link && (p == "inl" || strings.HasPrefix(p, "inl/")) {
		return "in" + p[3:]
	}
	return p
}

func (c *CLICase) hasDir(d string) bool {
	for n := range c.files() {
		if strings.HasPrefix(n, d+"/") {
			return true
		}
	}
	return false
}

func (o *CLIOp) args(cwd string) []string {
	abs := func(s string) string { return strings.Replace(s, "@", cwd, 1) }
	var groups [][]string
	opt := func(k, v string) {
		switch o.Form {
		case 1:
			groups = append(groups, []string{"-" + k + "=" + v})
		case 2:
			groups = append(groups, []string{"--" + k, v})
		default:
			groups = append(groups, []string{"-" + k, v})
		}
	}
	if !o.NoIn {
		opt("i", abs(o.In))
	}
	if !o.NoOut {
		opt("o", abs(o.Out))
	}
	if !o.NoLang {
		opt("l", o.Lang)
	}
	if o.Pkg != "" {
		opt("p", o.Pkg)
	}
	if o.Help {
		groups = append(groups, []string{"-h"})
	}
	if o.Version {
		groups = append(groups, []string{"-v"})
	}
	if o.Unknown {
		groups = append(groups, []string{"-zzz"})
	}
	var out []string
	for i := range groups {
		out = append(out, groups[(i+o.Order)%len(groups)]...)
	}
	return out
}

// snapshot reads a file tree: content of files, "/" for directories, target
// of links.
func snapshot(dir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(fp string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, fp)
		switch {
		case rel == ".":
		case d.IsDir():
			m[rel] = "/"
		case d.Type().IsRegular():
			b, err := os.ReadFile(fp)
			if err != nil {
				return err
			}
			m[rel] = "F" + string(b)
		default:
			m[rel] = "?" + d.Type().String()
		}
		return nil
	})
	return m, err
}

func cliRun(cwd string, args []string) (code int, out string, infra string) {
	bin := os.Getenv("XV_XGEN")
	if bin == "" {
		return 0, "", "XV_XGEN is not set"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = cwd
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: credential()}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + cwd, "TMPDIR=" + cwd, "GOTRACEBACK=single"}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return 0, "", "the command did not end within 200 s"
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			return 0, "", "cannot run the command: " + err.Error()
		}
	}
	st, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if st.Signaled() && st.Signal() == syscall.SIGKILL {
		return 0, "", "the command was killed"
	}
	return cmd.ProcessState.ExitCode(), b.String(), ""
}

var versionRE = regexp.MustCompile(`[0-9]+\.[0-9]+`)

// library is what the library generates for each schema file of the tree.
func (c *CLICase) library(e *Env, o CLIOp, files map[string][]byte) (map[string]string, *Verdict) {
	lib := map[string]string{}
	run := Run{Lang: o.Lang, Pkg: o.Pkg}
	if run.Pkg == "" {
		run.Pkg = "schema"
	}
	lf := map[string][]byte{}
	for n, b := range files {
		if isSchemaName(n) && n != c.Bad && n != "other/unrelated.xsd" {
			lf[n] = b
		}
	}
	run.Files = sortedKeys(lf)
	res := e.W.Do(&Job{Files: lf, Runs: []Run{run}})
	if res.Infra != "" {
		return nil, &Verdict{Infra: res.Infra}
	}
	if res.Died != "" || res.Hung || res.Runs[0].Err != "" || res.Runs[0].Panic != "" {
		msg := res.Died
		if len(res.Runs) > 0 {
			msg += res.Runs[0].Err + res.Runs[0].Panic
		}
		return nil, &Verdict{Problems: []Problem{{Cat: "crash", Msg: fmt.Sprintf("library: hung=%v %s", res.Hung, trunc(msg, 600))}}}
	}
	for n, text := range res.Runs[0].Outs {
		lib[strings.TrimSuffix(n, Ext[o.Lang])] = text
	}
	return lib, nil
}

func isSchemaName(n string) bool { return strings.EqualFold(filepath.Ext(n), ".xsd") }

func evalCLI(cats string) func(*Env, json.RawMessage) Verdict {
	keep := words(cats)
	return func(e *Env, raw json.RawMessage) Verdict {
		var c CLICase
		if err := json.Unmarshal(raw, &c); err != nil {
			return Verdict{Infra: err.Error()}
		}
		v := Verdict{NonTrivial: true}
		cwd, err := os.MkdirTemp(workDir(), "cli")
		if err != nil {
			return Verdict{Infra: err.Error()}
		}
		defer os.RemoveAll(cwd)
		own := func(p string) {
			if credential() != nil {
				os.Chown(p, nobody, nobody)
			}
		}
		own(cwd)
		mkdir := func(d string) error {
			for i, r := range d + "/" {
				if r == '/' {
					if err := os.Mkdir(filepath.Join(cwd, d[:i]), 0o755); err != nil && !os.IsExist(err) {
						return err
					}
					own(filepath.Join(cwd, d[:i]))
				}
			}
			return nil
		}
		files := c.files()
		for _, n := range sortedKeys(files) {
			err := mkdir(filepath.Dir(n))
			if c.Alias && n == "in/alias.xsd" {
				if err == nil {
					err = os.Symlink("../other/target.xsd", filepath.Join(cwd, n))
				}
				if err != nil {
					return Verdict{Infra: err.Error()}
				}
				continue
			}
			if err == nil {
				err = os.WriteFile(filepath.Join(cwd, n), files[n], 0o644)
			}
			if err != nil {
				return Verdict{Infra: err.Error()}
			}
			own(filepath.Join(cwd, n))
		}
		if c.Link {
			if err := os.Symlink("in", filepath.Join(cwd, "inl")); err != nil {
				return Verdict{Infra: err.Error()}
			}
		}
		for _, d := range c.Dirs {
			if err := mkdir(d); err != nil {
				return Verdict{Infra: err.Error()}
			}
		}
		canRO := credential() != nil
		if c.RO && canRO {
			if err := os.Mkdir(filepath.Join(cwd, "ro"), 0o555); err != nil {
				return Verdict{Infra: err.Error()}
			}
		}
		if c.Lock != "" {
			if !canRO {
				return Verdict{Labels: []string{"skipped: needs an unprivileged user"}}
			}
			if err := os.Chown(filepath.Join(cwd, c.Lock), 0, 0); err != nil {
				return Verdict{Infra: err.Error()}
			}
			if err := os.Chmod(filepath.Join(cwd, c.Lock), 0); err != nil {
				return Verdict{Infra: err.Error()}
			}
		}
		add := func(cat, where, f string, a ...interface{}) {
			if keep[cat] {
				v.Problems = append(v.Problems, Problem{cat, "", where, fmt.Sprintf(f, a...)})
			}
		}
		for i, o := range c.Ops {
			var lib map[string]string
			if Ext[o.Lang] != "" {
				var bad *Verdict
				if lib, bad = c.library(e, o, files); bad != nil {
					if bad.Infra != "" {
						return *bad
					}
					for _, p := range bad.Problems {
						add(p.Cat, fmt.Sprintf("invocation %d", i), "%s", p.Msg)
					}
					return v
				}
			}
			if o.Stale != 0 && Ext[o.Lang] != "" {
				// older output in the place of the output
				rel := func(s string) string { return filepath.Clean(strings.TrimPrefix(s, "@/")) }
				in, out := c.real(rel(o.In)), rel(o.Out)
				if o.NoOut {
					out = "xgen_out"
				}
				for _, n := range sortedKeys(files) {
					dst := out
					if n != in {
						r, err := filepath.Rel(in, n)
						if err != nil || strings.HasPrefix(r, "..") || !isSchemaName(n) {
							continue
						}
						dst = filepath.Join(out, r)
					}
					if ext := Ext[o.Lang]; !strings.HasSuffix(dst, ext) {
						dst += ext
					}
					if strings.HasPrefix(dst, "ro/") || strings.HasPrefix(dst, "..") || files[dst] != nil {
						continue
					}
					if err := mkdir(filepath.Dir(dst)); err != nil {
						continue
					}
					var old []byte
					switch l := []byte(lib[n]); {
					case o.Stale > 0:
						old = bytes.Repeat([]byte("old output\n"), o.Stale/11+1)[:o.Stale]
					case len(l) == 0:
						continue
					case o.Stale == -1:
						old = append([]byte{}, l...)
						old[len(l)/2] ^= 1
					case o.Stale == -2:
						old = l[:len(l)/2]
					default:
						old = append(append([]byte{}, l...), l...)
					}
					if err := os.WriteFile(filepath.Join(cwd, dst), old, 0o644); err == nil {
						own(filepath.Join(cwd, dst))
						v.Labels = append(v.Labels, "older output")
					}
				}
			}
			before, err := snapshot(cwd)
			if err != nil {
				return Verdict{Infra: err.Error()}
			}
			args := o.args(cwd)
			where := fmt.Sprintf("invocation %d: xgen %s", i, strings.ReplaceAll(strings.Join(args, " "), cwd, "@"))
			code, text, infra := cliRun(cwd, args)
			if infra != "" {
				return Verdict{Infra: infra}
			}
			after, err := snapshot(cwd)
			if err != nil {
				return Verdict{Infra: err.Error()}
			}
			if strings.Contains(text, "panic:") || strings.Contains(text, "goroutine ") || code < 0 {
				add("crash", where, "status %d: %s", code, trunc(text, 600))
			}
			unchanged := func() {
				for _, k := range sortedKeys(after) {
					if w, ok := before[k]; !ok {
						add("written", where, "%s is created", k)
					} else if w != after[k] {
						add("written", where, "%s is changed", k)
					}
				}
				for _, k := range sortedKeys(before) {
					if _, ok := after[k]; !ok {
						add("written", where, "%s is removed", k)
					}
				}
			}
			isDone := regexp.MustCompile(`(?m)^done\s*$`).MatchString(text)
			fails := func(kind string, mention ...string) {
				v.Labels = append(v.Labels, "fails: "+kind)
				if code == 0 {
					add("exit", where, "status 0 although %s; output %q", kind, trunc(text, 300))
				}
				if isDone {
					add("message", where, "reports success although %s", kind)
				}
				if strings.TrimSpace(text) == "" {
					add("message", where, "reports nothing although %s", kind)
				}
				for _, m := range mention {
					if m != "" && !strings.Contains(text, m) {
						add("message", where, "%s, but the message does not name %q: %q", kind, m, trunc(text, 300))
					}
				}
			}

			// what the options ask for
			clean := func(p string) string {
				p = strings.Replace(p, "@", cwd, 1)
				if filepath.IsAbs(p) {
					p, _ = filepath.Rel(cwd, p)
				}
				return filepath.Clean(p)
			}
			outArg := o.Out
			if o.NoOut {
				outArg = "xgen_out"
			}
			in, out := c.real(clean(o.In)), clean(outArg)
			_, supported := Ext[o.Lang]
			inKind, inOK := before[in]
			if in == "." {
				inKind, inOK = "/", true
			}
			switch {
			case o.Unknown && !(o.Help && false):
				// an option which does not exist; nothing else matters, the
				// flag package stops at it
				fails("an unknown option is given")
				unchanged()
				continue
			case o.Help:
				v.Labels = append(v.Labels, "help")
				if code != 0 {
					add("exit", where, "help: status %d", code)
				}
				for _, f := range []string{"-i", "-o", "-p", "-l"} {
					if !strings.Contains(text, f) {
						add("message", where, "help does not mention %s", f)
					}
				}
				unchanged()
				continue
			case o.Version:
				v.Labels = append(v.Labels, "version")
				if code != 0 || !versionRE.MatchString(text) {
					add("exit", where, "version: status %d, output %q", code, trunc(text, 200))
				}
				unchanged()
				continue
			case o.NoIn || o.In == "":
				fails("no input is given")
				unchanged()
				continue
			case o.NoLang || o.Lang == "":
				fails("no language is given")
				unchanged()
				continue
			case !supported:
				fails("the language is not supported")
				unchanged()
				continue
			case !inOK:
				fails("the input does not exist")
				unchanged()
				continue
			}

			ext := Ext[o.Lang]
			isDir := inKind == "/"
			required := map[string]string{} // output path -> schema file
			allowed := map[string]string{}
			broken, locked := false, false
			if isDir {
				if c.Lock != "" && (in == "." || strings.HasPrefix(c.Lock, in+"/")) && !strings.HasSuffix(c.Lock, ".txt") {
					locked = true
				}
				for n := range before {
					if before[n] == "/" || before[n][0] != 'F' && !(c.Alias && n == "in/alias.xsd") || !isSchemaName(n) || c.Lock != "" && strings.HasPrefix(n, c.Lock) {
						continue
					}
					if in == "." || strings.HasPrefix(n, in+"/") {
						rel, _ := filepath.Rel(in, n)
						required[filepath.Join(out, rel)+ext] = n
						broken = broken || n == c.Bad || n == "other/unrelated.xsd"
					}
				}
			} else {
				m := out
				if !strings.HasSuffix(m, ext) {
					m += ext
				}
				required[m] = in
				broken = in == c.Bad
			}
			// schemas the processed ones depend on may be generated as well
			for pi := range c.P.Files {
				n := "in/" + c.P.Files[pi].Path
				base, dst := in, out
				if !isDir {
					base = filepath.Dir(in)
					if strings.HasSuffix(out, ext) {
						dst = filepath.Dir(out)
					}
				}
				rel, _ := filepath.Rel(base, n)
				up := 0
				for strings.HasPrefix(rel, "../") {
					rel = rel[3:]
					up++
				}
				rel = strings.Repeat("parent/", up) + rel
				allowed[filepath.Join(dst, rel)+ext] = n
			}
			blocked := false
			for m := range required {
				for d := filepath.Dir(m); d != "."; d = filepath.Dir(d) {
					if w, ok := before[d]; ok && w != "/" {
						blocked = true
					}
				}
				if before[m] == "/" {
					blocked = true
				}
			}
			if strings.HasPrefix(out, "ro/") {
				if !c.RO || !canRO {
					continue
				}
				blocked = len(required) > 0
			}

			if locked {
				fails("a part of the input cannot be read")
				broken = true
			} else if broken {
				fails("a schema is not well-formed", filepath.Base(func() string {
					if c.Bad != "" && in != "." && !blocked {
						return c.Bad
					}
					return ""
				}()))
			} else if blocked {
				fails("the output cannot be written")
			} else {
				v.Labels = append(v.Labels, "succeeds", map[bool]string{true: "directory", false: "file"}[isDir])
				if code != 0 {
					add("exit", where, "status %d: %s", code, trunc(text, 400))
				}
				if !isDone {
					add("message", where, "does not report success: %q", trunc(text, 300))
				}
				for _, m := range sortedKeys(required) {
					if _, ok := after[m]; !ok {
						add("missing", where, "no output %s for %s", m, required[m])
					}
				}
			}
			for _, k := range sortedKeys(after) {
				w, existed := before[k]
				if existed && w == after[k] && !(required[k] != "" && !broken && !blocked) {
					continue
				}
				src, ok := required[k]
				if !ok {
					src, ok = allowed[k]
				}
				if after[k] == "/" {
					// directories which hold output, or lead to it
					okDir := false
					for _, set := range []map[string]string{required, allowed} {
						for m := range set {
							okDir = okDir || strings.HasPrefix(m, k+"/")
						}
					}
					if !okDir {
						add("stray", where, "directory %s is created", k)
					}
					continue
				}
				if !ok {
					if existed {
						add("stray", where, "%s is changed", k)
					} else {
						add("stray", where, "%s is created", k)
					}
					continue
				}
				if src == c.Bad && c.Bad != "" {
					add("stray", where, "%s is written for a schema which is not well-formed", k)
					continue
				}
				if want := lib[src]; "F"+want != after[k] {
					add("content", where, "%s differs from what the library generates for %s: %s", k, src, diffText(after[k][1:], want))
				}
			}
			for _, k := range sortedKeys(before) {
				if _, ok := after[k]; !ok {
					add("stray", where, "%s is removed", k)
				}
			}
		}
		if keep["extract"] {
			run := Run{Lang: c.Ops[0].Lang, Extract: true}
			if _, ok := Ext[run.Lang]; !ok {
				run.Lang = "Go"
			}
			for _, f := range c.P.Files {
				run.Files = append(run.Files, f.Path)
			}
			plain := run
			plain.Extract, plain.Files = false, nil
			res := e.W.Do(&Job{Files: RenderAll(c.P), Runs: []Run{run, plain}})
			if res.Infra != "" {
				return Verdict{Infra: res.Infra}
			}
			if res.Died != "" || res.Hung {
				add("crash", "library", "hung=%v %s", res.Hung, trunc(res.Died, 600))
				return v
			}
			for i, r := range res.Runs {
				if r.Panic != "" || r.Err != "" {
					add("crash", "library", "%s%s", r.Err, trunc(r.Panic, 600))
				}
				for _, k := range r.Stray {
					add("stray", "library", "input tree: %s is changed, created or removed (extract=%v)", k, i == 0)
				}
				if i == 0 && len(r.Outs) > 0 {
					add("extract", "library", "extraction mode writes %v", sortedKeys(r.Outs))
				}
				if i == 1 {
					for _, f := range c.P.Files {
						if _, ok := r.Outs[f.Path+Ext[run.Lang]]; !ok {
							add("missing", "library", "no output for %s", f.Path)
						}
					}
					if len(r.Outs) != len(c.P.Files) {
						add("stray", "library", "outputs %v for %d schemas", sortedKeys(r.Outs), len(c.P.Files))
					}
				}
			}
		}
		return v
	}
}

func init() {
	rule := "a random schema project is placed in a file tree with other files (no schemas, upper-case and double extensions, directories called *.xsd, spaces, non-ASCII and hidden names), stale outputs, blocked and read-only output paths and sometimes a broken schema; 1-3 invocations of the real command are drawn (file or directory, relative, absolute and unclean paths, nested, existing, missing and shared output locations, languages, package, option syntax and order); "
	assume := []string{"the output path of a single input file names the output file, as the command has it (-o out writes out.go)"}
	register(&Prop{ID: "C17", Quick: 4000, Thorough: 30000, Assume: assume,
		Rule: rule + "usage mistakes in about half of them; exit status, messages and contents (which must be those of the library) are checked; non-trivial: all",
		Gen:  genCLI(true), Eval: evalCLI("exit message crash content missing written")})
	register(&Prop{ID: "C18", Quick: 3200, Thorough: 30000, Assume: assume,
		Rule: rule + "the complete file tree is compared before and after, and extraction and plain library runs are made as well; non-trivial: all",
		Gen:  genCLI(false), Eval: evalCLI("crash content missing written stray extract exit")})
}
