package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---- C23: concurrent use

// ParCase is a set of runs made at the same time in one process.
type ParCase struct {
	Projs  []*Project `json:"projs"`
	Ops    []ParOp    `json:"ops"`
	Rounds int        `json:"rounds"`
}

// ParOp is one of the runs.
type ParOp struct {
	P       int    `json:"p"`
	Lang    string `json:"lang"`
	Mode    string `json:"mode"` // dir, one, bad
	File    int    `json:"file,omitempty"`
	Pkg     string `json:"pkg,omitempty"`
	Extract bool   `json:"extract,omitempty"`
	Cut     int    `json:"cut,omitempty"`
}

func genPar(t *rapid.T, tier string) interface{} {
	c := ParCase{Rounds: 2}
	if tier == "thorough" {
		c.Rounds = 4
	}
	for i := num(t, "nproj", 1, 3); i > 0; i-- {
		cfg := baseCfg()
		full(&cfg, tier)
		cfg.MaxFiles, cfg.MaxComps, cfg.MaxMembers = 3, 6, 4
		c.Projs = append(c.Projs, GenProject(t, cfg))
	}
	same := pick(t, "same", []string{"", "", "lang", "all"})
	first := ParOp{}
	for i, n := 0, num(t, "nops", 2, 8); i < n; i++ {
		p := num(t, "p", 0, len(c.Projs)-1)
		o := ParOp{
			P: p, Lang: pick(t, "lang", Langs), Mode: pick(t, "mode", []string{"dir", "dir", "dir", "one", "bad"}),
			File: num(t, "file", 0, len(c.Projs[p].Files)-1), Pkg: pick(t, "pkg", []string{"", "", "other", "pkg1"}),
			Extract: chance(t, "extract", 20), Cut: num(t, "cut", 1, 90),
		}
		switch {
		case i == 0:
			first = o
		case same == "lang":
			o.Lang = first.Lang
		case same == "all":
			o = first
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (c *ParCase) job() *Job {
	job := &Job{Files: map[string][]byte{}}
	for i, p := range c.Projs {
		for n, b := range RenderAll(p) {
			job.Files[fmt.Sprintf("p%d/%s", i, n)] = b
		}
	}
	for i, o := range c.Ops {
		dir := fmt.Sprintf("p%d", o.P)
		r := Run{Lang: o.Lang, Pkg: o.Pkg, In: dir, Extract: o.Extract, Tree: o.Extract}
		fs := c.Projs[o.P].Files
		switch o.Mode {
		case "one":
			r.Files = []string{dir + "/" + fs[o.File%len(fs)].Path}
		case "bad":
			src := job.Files[dir+"/"+fs[o.File%len(fs)].Path]
			r.In = fmt.Sprintf("bad%d", i)
			r.Files = []string{r.In + "/bad.xsd"}
			job.Files[r.Files[0]] = src[:len(src)*o.Cut/100]
		}
		job.Runs = append(job.Runs, r)
	}
	return job
}

func evalPar(e *Env, raw json.RawMessage) Verdict {
	var c ParCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Verdict{Infra: err.Error()}
	}
	workerProcs = 8
	v := Verdict{NonTrivial: len(c.Ops) > 1}
	langs, projs := map[string]bool{}, map[int]bool{}
	for _, o := range c.Ops {
		langs[o.Lang] = true
		projs[o.P] = true
		v.Labels = append(v.Labels, "mode."+o.Mode)
		if o.Extract {
			v.Labels = append(v.Labels, "extraction")
		}
	}
	v.Labels = append(v.Labels, fmt.Sprintf("%d at once", len(c.Ops)), fmt.Sprintf("%d languages", len(langs)), fmt.Sprintf("%d projects", len(projs)))
	crash := func(what string, res JobRes) bool {
		if res.Died == "" && !res.Hung {
			return false
		}
		cat := "crash"
		if strings.Contains(res.Died, "DATA RACE") {
			cat = "race"
		}
		v.Problems = append(v.Problems, Problem{Cat: cat, Where: what, Msg: fmt.Sprintf("hung=%v %s", res.Hung, trunc(res.Died, 3000))})
		return true
	}
	job := c.job()
	base := e.W.Do(job)
	if base.Infra != "" {
		return Verdict{Infra: base.Infra}
	}
	if crash("one after another", base) {
		return v
	}
	// the concurrent runs come first in a fresh process, so that what is set
	// up on first use is set up concurrently as well
	w := &Worker{}
	defer w.Stop()
	job.Par = true
	for k := 0; k < c.Rounds; k++ {
		res := w.Do(job)
		if res.Infra != "" {
			return Verdict{Infra: res.Infra}
		}
		if crash("at the same time", res) {
			return v
		}
		for i, r := range res.Runs {
			b := base.Runs[i]
			where := fmt.Sprintf("run %d (%s %s)", i, c.Ops[i].Mode, c.Ops[i].Lang)
			if r.Panic != "" && b.Panic == "" {
				v.Problems = append(v.Problems, Problem{"panic", c.Ops[i].Lang, where, trunc(r.Panic, 1500)})
				continue
			}
			if (r.Err == "") != (b.Err == "") || r.ErrAt != b.ErrAt {
				v.Problems = append(v.Problems, Problem{"error", c.Ops[i].Lang, where, fmt.Sprintf("error %q at %q, alone %q at %q", r.Err, r.ErrAt, b.Err, b.ErrAt)})
			}
			if d := diffOuts(b.Outs, r.Outs); d != "" {
				v.Problems = append(v.Problems, Problem{"output", c.Ops[i].Lang, where, d})
			}
			g, _ := json.Marshal(r.Tree)
			h, _ := json.Marshal(b.Tree)
			if string(g) != string(h) {
				v.Problems = append(v.Problems, Problem{"tree", c.Ops[i].Lang, where, "the extracted components differ from those of a run on its own"})
			}
		}
		if len(v.Problems) > 0 {
			return v
		}
	}
	return v
}

func init() {
	register(&Prop{ID: "C23", Quick: 1000, Thorough: 12000, Confirm: 12,
		Rule:   "1-3 random schema projects and 2-8 runs over them (directories, single files, truncated files; languages, packages, extraction drawn at random; sometimes all the same language or all identical) started at the same moment in a fresh process built with the race detector, repeated; each run's files, errors and extracted components must equal those of the same runs made one after another, and the race detector must stay silent; non-trivial: two or more runs",
		Assume: []string{"schedules are those the Go scheduler happens to produce; the race detector reports conflicting accesses that are unordered in the observed execution, whether or not they collided in it"},
		Gen:    genPar, Eval: evalPar})
}

func diffOuts(want, got map[string]string) string {
	for _, n := range sortedKeys(want) {
		t, ok := got[n]
		if !ok {
			return n + " is not written"
		}
		if t != want[n] {
			return n + " differs: " + diffText(t, want[n])
		}
	}
	for _, n := range sortedKeys(got) {
		if _, ok := want[n]; !ok {
			return n + " is written, but not by a run on its own"
		}
	}
	return ""
}
