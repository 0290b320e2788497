package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ProjCase is a case that consists of a project.
type ProjCase struct {
	P      *Project `json:"p"`
	Pkg    string   `json:"pkg,omitempty"`    // package asked for
	Strict bool     `json:"strict,omitempty"` // recorded inputs: report known.* categories too
}

// probeSchema declares one element per built-in datatype.
func probeSchema() string {
	var b strings.Builder
	b.WriteString(`<xs:schema xmlns:xs="` + xsdNS + `">` + "\n<xs:complexType name=\"Probe\"><xs:sequence>\n")
	for i, bt := range allBuiltins {
		fmt.Fprintf(&b, "<xs:element name=\"Zz%d\" type=\"xs:%s\"/>\n", i, bt)
	}
	b.WriteString("</xs:sequence></xs:complexType></xs:schema>\n")
	return b.String()
}

// Learn finds out which type each language uses for each built-in.
func (e *Env) Learn() (Learned, []Problem, string) {
	if e.learn != nil {
		return e.learn, nil, ""
	}
	job := &Job{Files: map[string][]byte{"probe.xsd": []byte(probeSchema())}}
	for _, l := range Langs {
		job.Runs = append(job.Runs, Run{Lang: l})
	}
	res := e.W.Do(job)
	if res.Infra != "" {
		return nil, nil, res.Infra
	}
	if res.Died != "" || res.Hung {
		return nil, []Problem{{Cat: "crash", Where: "built-in type probe", Msg: trunc(res.Died, 500)}}, ""
	}
	out := Learned{}
	var probs []Problem
	for i, l := range Langs {
		rr := res.Runs[i]
		of, pr := parseOne(l, rr, "probe.xsd")
		if pr != nil {
			probs = append(probs, *pr)
			continue
		}
		m := map[string]TE{}
		for _, d := range of.Decls {
			if norm(d.Ident) != "probe" {
				continue
			}
			for _, mem := range d.Members {
				var k int
				if n, _ := fmt.Sscanf(norm(mem.Ident), "zz%d", &k); n == 1 && k < len(allBuiltins) {
					m[allBuiltins[k]] = mem.T
				}
			}
		}
		out[l] = m
	}
	if len(probs) == 0 {
		e.learn = out
	}
	return out, probs, ""
}

// parseOne parses the output a run produced for one input file.
func parseOne(lang string, rr RunRes, path string) (*OutFile, *Problem) {
	if rr.Panic != "" {
		return nil, &Problem{"crash", lang, path, "panic: " + trunc(rr.Panic, 600)}
	}
	if rr.Err != "" {
		return nil, &Problem{"error", lang, rr.ErrAt, "a well-formed schema was rejected: " + rr.Err}
	}
	src, ok := rr.Outs[path+Ext[lang]]
	if !ok {
		return nil, &Problem{"output", lang, path, fmt.Sprintf("no output file; have %v", sortedKeys(rr.Outs))}
	}
	of, err := ParseOut(lang, src)
	if err != nil {
		return nil, &Problem{"syntax", lang, path, err.Error()}
	}
	return of, nil
}

// GenAll generates code for a project in every language and parses it.
func (e *Env) GenAll(p *Project, langs []string) (outs map[string]map[int]*OutFile, res JobRes, probs []Problem, infra string) {
	return e.GenAllIn(p, langs, "")
}

// GenAllIn is GenAll with a package name.
func (e *Env) GenAllIn(p *Project, langs []string, pkg string) (outs map[string]map[int]*OutFile, res JobRes, probs []Problem, infra string) {
	job := &Job{Files: RenderAll(p)}
	for _, l := range langs {
		job.Runs = append(job.Runs, Run{Lang: l, Pkg: pkg})
	}
	res = e.W.Do(job)
	if res.Infra != "" {
		return nil, res, nil, res.Infra
	}
	if res.Died != "" {
		return nil, res, []Problem{{Cat: "crash", Msg: trunc(res.Died, 800)}}, ""
	}
	if res.Hung {
		return nil, res, []Problem{{Cat: "hang", Msg: "code generation did not finish within " + hangCPU.String() + " of CPU time"}}, ""
	}
	outs = map[string]map[int]*OutFile{}
	for i, l := range langs {
		m := map[int]*OutFile{}
		for fi := range p.Files {
			of, pr := parseOne(l, res.Runs[i], p.Files[fi].Path)
			if pr != nil {
				probs = append(probs, *pr)
				continue
			}
			m[fi] = of
		}
		outs[l] = m
	}
	return outs, res, probs, ""
}

// structEval compares the output of every language with the model and keeps
// the given categories of disagreement.
func structEval(cats string, nontrivial func(p *Project) (bool, []string)) func(*Env, json.RawMessage) Verdict {
	keep := words(cats)
	return func(e *Env, raw json.RawMessage) Verdict {
		var c ProjCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return Verdict{Infra: err.Error()}
		}
		v := Verdict{}
		v.NonTrivial, v.Labels = nontrivial(c.P)
		learned, lp, infra := e.Learn()
		if infra != "" {
			return Verdict{Infra: infra}
		}
		outs, _, probs, infra := e.GenAll(c.P, Langs)
		if infra != "" {
			return Verdict{Infra: infra}
		}
		v.Problems = append(probs, lp...)
		if len(v.Problems) > 0 {
			return v
		}
		for _, l := range Langs {
			for _, pr := range CompareProject(c.P, l, outs[l], learned) {
				if known := strings.HasPrefix(pr.Cat, "known."); c.Strict && known || !known && (keep[pr.Cat] || keep["all"]) {
					v.Problems = append(v.Problems, pr)
				}
			}
		}
		return v
	}
}

func projGen(mod func(*GenCfg, string)) func(*rapid.T, string) interface{} {
	return func(t *rapid.T, tier string) interface{} {
		cfg := baseCfg()
		if tier == "thorough" {
			cfg.MaxComps, cfg.MaxMembers = 14, 8
		}
		mod(&cfg, tier)
		return ProjCase{P: GenProject(t, cfg)}
	}
}

const projRule = "a random schema project (1-4 files; named and anonymous simple and complex types, elements, attributes, groups, attribute groups, derivations, nested model groups, cross references; random names, prefixes and layout) is rendered to XSD text, compiled to all five languages in a worker process, parsed back and compared with the declarations the abstract schema calls for; "

var projAssume = []string{
	"the parsers of the generated C, Java, Rust and TypeScript accept the declaration subset a generator of type declarations can use (Go output is parsed by go/parser)",
	"components of one kind whose names become one identifier, and components named like a type a target language has (string, int, List) or, in a schema without a namespace, like a built-in datatype, are outside the generated domain (DESIGN.md; the check of C01 generates them and asks for distinct identifiers)",
	"compilers of C, Java, Rust and TypeScript, where installed, give a second opinion on a sample of the cases of C01",
}

func full(c *GenCfg, tier string) {
	c.MaxFiles, c.Cycles, c.LocFirst, c.Chameleon, c.Extras, c.Restr, c.SameName, c.Fixed, c.Near, c.Clash, c.Scale, c.Twins = 2, true, true, true, true, true, 10, true, 4, 5, 4, 15
	if tier == "thorough" {
		c.MaxFiles = 4
	}
}

func structProp(id, cats, rule string, quick, thorough int, nt func(*Project) (bool, []string), mod func(*GenCfg, string)) {
	register(&Prop{ID: id, Rule: projRule + rule, Quick: quick, Thorough: thorough, Assume: projAssume,
		Gen: projGen(mod), Eval: structEval(cats, nt)})
}

func init() {
	register(&Prop{ID: "X00", Rule: "all", Quick: 4000, Thorough: 20000, Gen: projGen(func(c *GenCfg, tier string) {}),
		Eval: structEval("all", func(p *Project) (bool, []string) { return true, nil })})
	register(&Prop{ID: "X01", Rule: "all", Quick: 4000, Thorough: 20000, Gen: projGen(func(c *GenCfg, tier string) {
		full(c, tier)
		c.MaxFiles, c.MaxComps, c.Encodings, c.Hostile = 4, 6, true, true
	}),
		Eval: structEval("all", func(p *Project) (bool, []string) { return true, nil })})

	structProp("C02", "decl.missing decl.extra decl.kind name dup", "non-trivial: two or more global components, or an anonymous type",
		15000, 200000, func(p *Project) (bool, []string) {
			s := statsOf(p)
			return s["components"] > 1 || s["elem.anon"] > 0, s.labels()
		}, func(c *GenCfg, tier string) {
			full(c, tier)
			c.MaxComps, c.MaxMembers, c.Anon = 12, 3, 20
		})
	structProp("C03", "mem.missing mem.extra mem.name mem.order decl.kind dup", "non-trivial: a structure with members",
		15000, 200000, has("elem", "attr", "group.ref", "attributeGroup.ref"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.MaxComps, c.MaxMembers, c.Twins = 7, 8, 40
		})
	structProp("C04", "type dangling card", "non-trivial: a member, list item or base whose type is another component, or an inline type",
		15000, 200000, has("elem.type.ref", "attr.type.ref", "elem.ref", "attr.ref", "st.chain", "elem.inline", "attr.inline", "st.inline", "elem.anon"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.Inline, c.Anon, c.MaxComps = 22, 18, 11
		})
	structProp("C06", "card", "non-trivial: a particle with maxOccurs above 1, or a list",
		15000, 200000, has("maxoccurs", "list"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.MaxOcc, c.Nest, c.MaxComps, c.MaxMembers = 40, 4, 5, 7
		})
	structProp("C07", "use", "non-trivial: an attribute with an explicit use",
		15000, 200000, has("attr.use.required", "attr.use.optional"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.MaxMembers = 3
		})
	structProp("C08", "base", "non-trivial: a derived complex type",
		15000, 200000, has("deriv"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.Deriv, c.MaxMembers = 65, 3
		})
	structProp("C10", "all", "all categories of disagreement count; non-trivial: a reference into another file of the project",
		10000, 120000, has("cross-file"), func(c *GenCfg, tier string) {
			full(c, tier)
			c.MinFiles, c.MaxFiles, c.MaxComps, c.MaxMembers = 2, 4, 5, 4
			c.Cross = 45
		})
}
