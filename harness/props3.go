package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---- C12: determinism and independence of history

// HistCase is a history of runs in one process.
type HistCase struct {
	Projs []*Project `json:"projs"`
	Ops   []HistOp   `json:"ops"`
	Stale bool       `json:"stale,omitempty"`
}

// HistOp is one run: of a project as a directory, of its files one by one in
// another order, of one file on its own, of a broken file, or of a file whose
// output cannot be written.
type HistOp struct {
	P      int    `json:"p"`
	Lang   string `json:"lang"`
	Mode   string `json:"mode"` // dir, files, one, bad, blocked
	File   int    `json:"file,omitempty"`
	Pkg    string `json:"pkg,omitempty"`
	Shared bool   `json:"shared,omitempty"`
	Cut    int    `json:"cut,omitempty"`
	Slot   int    `json:"slot,omitempty"`  // if not 0, the project replaces what was in this directory before
	Clean  bool   `json:"clean,omitempty"` // the output directory is removed before the run
}

// addPairs adds a union of types whose names are hard to tell apart (or to
// put in an order): they differ in the case of letters only.
func addPairs(t *rapid.T, p *Project) {
	fi := num(t, "pairfile", 0, len(p.Files)-1)
	u := &SType{Name: "Qwunion", Var: "union"}
	b := pick(t, "pairbase", []string{"token", "int", "date"})
	for _, n := range []string{"qwvalue", "qwValue", "qwvaluE"}[:num(t, "pairs", 2, 3)] {
		p.Files[fi].Comps = append(p.Files[fi].Comps, Comp{ST: &SType{Name: n, Var: "restr", Base: &Ref{B: b}}})
		u.Members = append(u.Members, Ref{N: n, F: fi})
	}
	p.Files[fi].Comps = append(p.Files[fi].Comps, Comp{ST: u})
}

func genHistory(t *rapid.T, tier string) interface{} {
	c := HistCase{}
	for i := num(t, "nproj", 1, 3); i > 0; i-- {
		cfg := baseCfg()
		full(&cfg, tier)
		cfg.MaxFiles, cfg.MaxComps, cfg.MaxMembers = 3, 5, 4
		if chance(t, "alike", 30) {
			cfg.Near, cfg.Clash, cfg.ClashAll, cfg.HardNames, cfg.MaxComps = 30, 20, true, 10, 8
		}
		if tier == "thorough" {
			cfg.MaxComps = 10
		}
		p := GenProject(t, cfg)
		if chance(t, "pairs", 12) {
			addPairs(t, p)
		}
		c.Projs = append(c.Projs, p)
	}
	for i := num(t, "nops", 2, 9); i > 0; i-- {
		p := num(t, "p", 0, len(c.Projs)-1)
		c.Ops = append(c.Ops, HistOp{
			P: p, Lang: pick(t, "lang", Langs), Mode: pick(t, "mode", []string{"dir", "dir", "files", "one", "bad", "blocked"}),
			File: num(t, "file", 0, len(c.Projs[p].Files)-1), Pkg: pick(t, "pkg", []string{"", "", "other"}),
			Shared: chance(t, "shared", 55), Cut: num(t, "cut", 1, 90),
		})
		o := &c.Ops[len(c.Ops)-1]
		if o.Mode != "bad" && o.Mode != "blocked" && chance(t, "slotted", 50) {
			o.Slot = num(t, "slot", 1, 2)
		}
		o.Clean = o.Shared && chance(t, "clean", 65)
	}
	c.Stale = chance(t, "stale", 30)
	return c
}

func evalHistory(e *Env, raw json.RawMessage) Verdict {
	var c HistCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	v := Verdict{NonTrivial: len(c.Ops) > 1}
	langs := map[string]bool{}
	for _, o := range c.Ops {
		langs[o.Lang] = true
		v.Labels = append(v.Labels, "mode."+o.Mode)
		if o.Slot > 0 {
			v.Labels = append(v.Labels, "replaced input")
		}
		if o.Shared {
			v.Labels = append(v.Labels, "shared output")
		}
	}
	v.Labels = append(v.Labels, fmt.Sprintf("%d languages", len(langs)))

	job := &Job{Files: map[string][]byte{}, Stale: map[string][]byte{}}
	for i, p := range c.Projs {
		for n, b := range RenderAll(p) {
			job.Files[fmt.Sprintf("p%d/%s", i, n)] = b
			if c.Stale {
				for _, l := range Langs {
					job.Stale[n+Ext[l]] = []byte(strings.Repeat("stale output of an earlier run\n", 4000))
				}
			}
		}
	}
	for i, o := range c.Ops {
		dir := fmt.Sprintf("p%d", o.P)
		if o.Slot > 0 {
			dir = fmt.Sprintf("slot%d", o.Slot)
		}
		r := Run{Lang: o.Lang, Pkg: o.Pkg, In: dir}
		fs := c.Projs[o.P].Files
		switch o.Mode {
		case "files":
			for k := range fs {
				r.Files = append(r.Files, dir+"/"+fs[(len(fs)-1-k+o.File)%len(fs)].Path)
			}
		case "one":
			r.Files = []string{dir + "/" + fs[o.File%len(fs)].Path}
		case "bad":
			src := job.Files[dir+"/"+fs[o.File%len(fs)].Path]
			r.In = fmt.Sprintf("bad%d", i)
			r.Files = []string{r.In + "/bad.xsd"}
			job.Files[r.Files[0]] = src[:len(src)*o.Cut/100]
		}
		if o.Mode == "blocked" {
			// its output cannot be created
			n := fs[o.File%len(fs)].Path
			r.Files, r.Block = []string{dir + "/" + n}, []string{n + Ext[o.Lang]}
		}
		if o.Shared && o.Mode != "bad" && o.Mode != "blocked" {
			r.Out = fmt.Sprintf("p%d%s", o.P, o.Lang)
			if o.Slot > 0 {
				r.Out = dir + o.Lang
			}
			r.Clean = o.Clean
		}
		if o.Slot > 0 {
			r.Wipe, r.Edit = dir, map[string][]byte{}
			for n, b := range RenderAll(c.Projs[o.P]) {
				r.Edit[dir+"/"+n] = b
			}
		}
		job.Runs = append(job.Runs, r)
	}
	w := &Worker{}
	res := w.Do(job)
	w.Stop()
	if res.Infra != "" {
		return Verdict{Infra: res.Infra}
	}
	if res.Died != "" || res.Hung {
		v.Problems = append(v.Problems, Problem{Cat: "crash", Msg: fmt.Sprintf("hung=%v %s", res.Hung, trunc(res.Died, 600))})
		return v
	}
	type key struct {
		p         int
		lang, pkg string
	}
	fresh := map[key]map[string]string{}
	for i, o := range c.Ops {
		if o.Mode == "blocked" && res.Runs[i].Err == "" && res.Runs[i].Panic == "" {
			v.Problems = append(v.Problems, Problem{"error", o.Lang, fmt.Sprintf("run %d", i), "no error although there is a directory in place of the output"})
		}
		if o.Mode == "bad" || o.Mode == "blocked" {
			continue
		}
		k := key{o.P, o.Lang, o.Pkg}
		if fresh[k] == nil {
			w := &Worker{}
			fr := w.Do(&Job{Files: RenderAll(c.Projs[o.P]), Runs: []Run{{Lang: o.Lang, Pkg: o.Pkg}}})
			w.Stop()
			if fr.Infra != "" {
				return Verdict{Infra: fr.Infra}
			}
			if fr.Died != "" || fr.Hung {
				v.Problems = append(v.Problems, Problem{Cat: "crash", Lang: o.Lang, Msg: fmt.Sprintf("fresh process: hung=%v %s", fr.Hung, trunc(fr.Died, 600))})
				return v
			}
			if r := fr.Runs[0]; r.Err != "" || r.Panic != "" {
				v.Problems = append(v.Problems, Problem{"error", o.Lang, r.ErrAt, "a well-formed schema was rejected: " + r.Err + trunc(r.Panic, 600)})
				return v
			}
			fresh[k] = fr.Runs[0].Outs
		}
		got := res.Runs[i]
		where := fmt.Sprintf("run %d (%s of p%d)", i, o.Mode, o.P)
		if got.Err != "" || got.Panic != "" {
			v.Problems = append(v.Problems, Problem{"error", o.Lang, where, "fails only after the earlier runs: " + got.Err + trunc(got.Panic, 600)})
			continue
		}
		fs := c.Projs[o.P].Files
		cover := map[string]bool{}
		for fi, f := range fs {
			if o.Mode != "one" || fi == o.File%len(fs) {
				cover[f.Path+Ext[o.Lang]] = true
			}
		}
		for _, n := range sortedKeys(fresh[k]) {
			text, ok := got.Outs[n]
			if !ok && cover[n] {
				v.Problems = append(v.Problems, Problem{"history", o.Lang, where, n + " is not written"})
			} else if text != fresh[k][n] && (cover[n] || ok && (!o.Shared || o.Clean) && (!c.Stale || o.Clean)) {
				v.Problems = append(v.Problems, Problem{"history", o.Lang, where, n + " differs from what a fresh process writes: " + diffText(text, fresh[k][n])})
			}
		}
		for _, n := range sortedKeys(got.Outs) {
			if _, ok := fresh[k][n]; !ok && (job.Stale[n] == nil || o.Clean) && (o.Slot == 0 || !o.Shared || o.Clean) {
				v.Problems = append(v.Problems, Problem{"history", o.Lang, where, n + " is written, but not by a fresh process"})
			}
		}
	}
	return v
}

// ---- C13: lexical form

// StyleCase is a project and another lexical form of each of its files.
type StyleCase struct {
	P      *Project `json:"p"`
	Styles []Style  `json:"styles"`
	LocFst bool     `json:"locfst,omitempty"`
	Prefix string   `json:"prefix,omitempty"` // renames the prefixes of imports
}

func prefixesMatter(p *Project) bool {
	s := statsOf(p)
	return s["elem.ref"]+s["attr.ref"]+s["group.ref"]+s["attributeGroup.ref"] > 0
}

func genStyles(t *rapid.T, tier string) interface{} {
	cfg := baseCfg()
	full(&cfg, tier)
	cfg.Encodings, cfg.Hostile, cfg.Docs, cfg.MaxFiles = true, true, 20, 3
	if chance(t, "alike", 20) {
		cfg.Near, cfg.Clash, cfg.ClashAll, cfg.HardNames, cfg.MaxFiles = 20, 20, true, 20, 1
	}
	if chance(t, "norefs", 50) {
		cfg.Groups, cfg.AGroups, cfg.GlobalEl, cfg.GlobalAt, cfg.XMLAttrs = false, false, false, false, false
	}
	c := StyleCase{P: GenProject(t, cfg)}
	keep := prefixesMatter(c.P)
	for _, f := range c.P.Files {
		st := genStyle(t, cfg, f.TNS != "")
		if c.P.importsNoNS(&f) {
			if st.T == "" {
				st.T = "tgt"
			}
			if st.XS == "" {
				st.XS = "xsd"
			}
		}
		st.DocSplit = f.Style.DocSplit // where lines end
		if keep {
			st.T = f.Style.T
			if st.T == "" && st.XS == "" || st.XS == "" && f.TNS == "" {
				st.XS = "xsd"
			}
		}
		c.Styles = append(c.Styles, st)
	}
	c.LocFst = chance(t, "locfst2", 50)
	if !keep && chance(t, "reprefix", 50) {
		c.Prefix = pick(t, "newprefix", []string{"z", "Other", "n.s", "abc-"})
	}
	return c
}

func (c *StyleCase) other() *Project {
	q := c.P.Clone()
	for i := range q.Files {
		q.Files[i].Style = c.Styles[i]
		for k := range q.Files[i].Links {
			l := &q.Files[i].Links[k]
			l.LocFst = c.LocFst
			if c.Prefix != "" && l.Prefix != "" {
				l.Prefix = fmt.Sprintf("%s%d", c.Prefix, k)
			}
		}
	}
	return q
}

func evalStyles(e *Env, raw json.RawMessage) Verdict {
	var c StyleCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	s := statsOf(c.P)
	v := Verdict{NonTrivial: s["components"] > 0, Labels: s.labels()}
	for i := range c.P.Files {
		a, b := c.P.Files[i].Style, c.Styles[i]
		if a.XS != b.XS {
			v.Labels = append(v.Labels, "xs prefix differs")
		}
		if a.T != b.T {
			v.Labels = append(v.Labels, "target prefix differs")
		}
		if a.Encoding != b.Encoding {
			v.Labels = append(v.Labels, "encoding differs")
		}
	}
	a, probs, infra := e.outsOf(c.P, Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	b, probs2, infra := e.outsOf(c.other(), Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	if v.Problems = append(probs, probs2...); len(v.Problems) == 0 {
		v.Problems = sameOutputs("lexical", Langs, a, b)
	}
	return v
}

// ---- C15: order of global components

// OrderCase is a project and the order its components are put in.
type OrderCase struct {
	P     *Project `json:"p"`
	Perm  [][]int  `json:"perm"`
	Links bool     `json:"links,omitempty"` // reverse the references of each file
}

func genOrder(t *rapid.T, tier string) interface{} {
	cfg := baseCfg()
	full(&cfg, tier)
	cfg.MaxFiles, cfg.MaxComps, cfg.Docs = 3, 10, 20
	if tier == "thorough" {
		cfg.MaxComps = 18
	}
	c := OrderCase{P: GenProject(t, cfg)}
	for _, f := range c.P.Files {
		idx := make([]int, len(f.Comps))
		for i := range idx {
			idx[i] = i
		}
		for k := len(idx) - 1; k > 0; k-- {
			// shrinks towards the original order
			if chance(t, "move", 70) {
				j := num(t, "swap", 0, k)
				idx[k], idx[j] = idx[j], idx[k]
			}
		}
		c.Perm = append(c.Perm, idx)
	}
	c.Links = chance(t, "links", 50)
	return c
}

func (c *OrderCase) other() *Project {
	q := c.P.Clone()
	for i := range q.Files {
		f := &q.Files[i]
		var cs []Comp
		for _, k := range c.Perm[i] {
			cs = append(cs, f.Comps[k])
		}
		f.Comps = cs
		if c.Links {
			for a, b := 0, len(f.Links)-1; a < b; a, b = a+1, b-1 {
				f.Links[a], f.Links[b] = f.Links[b], f.Links[a]
			}
		}
	}
	return q
}

func evalOrder(e *Env, raw json.RawMessage) Verdict {
	var c OrderCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	s := statsOf(c.P)
	v := Verdict{Labels: s.labels()}
	for _, p := range c.Perm {
		v.NonTrivial = v.NonTrivial || !sort.IntsAreSorted(p)
	}
	a, _, probs, infra := e.GenAll(c.P, Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	b, _, probs2, infra := e.GenAll(c.other(), Langs)
	if infra != "" {
		return Verdict{Infra: infra}
	}
	if v.Problems = append(probs, probs2...); len(v.Problems) > 0 {
		return v
	}
	for _, l := range Langs {
		for fi := range c.P.Files {
			v.Problems = append(v.Problems, sameDecls(l, c.P.Files[fi].Path, a[l][fi], b[l][fi])...)
		}
	}
	return v
}

// sameDecls compares the declarations of two outputs, ignoring their order.
func sameDecls(lang, path string, a, b *OutFile) (probs []Problem) {
	x, y := map[string]int{}, map[string]int{}
	for _, d := range a.Decls {
		x[jsonText(d)]++
	}
	for _, d := range b.Decls {
		y[jsonText(d)]++
	}
	for _, k := range sortedKeys(x) {
		if x[k] > y[k] {
			probs = append(probs, Problem{"order", lang, path, "only in the first order: " + trunc(k, 500)})
		}
	}
	for _, k := range sortedKeys(y) {
		if y[k] > x[k] {
			probs = append(probs, Problem{"order", lang, path, "only in the second order: " + trunc(k, 500)})
		}
	}
	return
}

func init() {
	register(&Prop{ID: "C12", Quick: 2200, Thorough: 40000,
		Rule: "1-3 random schema projects and a history of 2-9 runs over them in one process (a project as a directory, its files one by one in another order, one file alone, a truncated file; languages, packages, shared or stale output directories drawn at random); each run's files must equal those of a fresh process; non-trivial: two or more runs",
		Gen:  genHistory, Eval: evalHistory})
	register(&Prop{ID: "C13", Quick: 5000, Thorough: 100000,
		Rule: "a random schema project is rendered in two lexical forms (prefix of the XML Schema namespace, attribute order and quotes, indentation, comments, processing instructions, CDATA, character references, expanded empty elements, encoding, byte order mark, line ends, ids, foreign attributes, notations; the target namespace's prefix and imports' prefixes as well when the project has no reference members, whose identifiers contain the prefix) and compiled to all languages; outputs must be identical; non-trivial: the project has components",
		Gen:  genStyles, Eval: evalStyles})
	register(&Prop{ID: "C15", Quick: 5000, Thorough: 100000, Assume: projAssume,
		Rule: "the global components of a random schema project are put in another order and both versions compiled to all languages; the parsed declarations of each file, with members and comments, must be the same set; non-trivial: some order changed",
		Gen:  genOrder, Eval: evalOrder})
}
