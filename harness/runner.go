package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Verdict is the outcome of evaluating one case.
type Verdict struct {
	Problems   []Problem
	Labels     []string // classification of the case, counted in the evidence
	NonTrivial bool
	Key        string // what makes the case distinct
	Infra      string // the harness could not decide (never a violation)
}

// Prop is one property: a generator of JSON cases and an oracle.
type Prop struct {
	ID       string
	Rule     string
	Quick    int
	Thorough int
	Assume   []string
	// Gen draws a case. The result is marshalled to JSON and handed to Eval.
	Gen func(t *rapid.T, tier string) interface{}
	// Eval decides a case, given as JSON. It must not use any randomness.
	Eval func(env *Env, raw json.RawMessage) Verdict
	// Extra is an optional deterministic stage run once by the master; it
	// returns failing cases (as JSON understood by Eval) or nothing.
	Enum func(tier string) []interface{}
	// Shards limits parallelism (0 = number of CPUs).
	Shards int
	// Flaky failures are confirmed this many times before they are dropped.
	Confirm int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Env gives an evaluation access to workers and tools.
type Env struct {
	treeB map[string]map[string]string
	W     *Worker
	Tier  string
	learn Learned
	tools *Tools
	// AllTools asks the compilers about each case, not a sample
	AllTools bool
}

func newEnv(tier string) *Env {
	return &Env{W: &Worker{MaxJobs: 400}, Tier: tier, tools: &Tools{}}
}

func (e *Env) Close() {
	e.W.Stop()
	e.tools.Close()
}

// ShardOut is what a shard reports.
type ShardOut struct {
	Evals    int
	Labels   map[string]int
	Keys     []uint64
	Samples  []json.RawMessage
	Fail     *FailCase
	Infra    string
	Skipped  int
	WallS    float64
	TimedOut bool
}

// FailCase is a failing case together with what is wrong with it.
type FailCase struct {
	Property string          `json:"property"`
	Case     json.RawMessage `json:"case"`
	Problems []Problem       `json:"problems"`
	Note     string          `json:"note,omitempty"`
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// rtb is the testing.TB rapid reports to.
type rtb struct {
	failed bool
	log    bytes.Buffer
}

func (t *rtb) Helper()                   {}
func (t *rtb) Name() string              { return "xv" }
func (t *rtb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *rtb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *rtb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *rtb) Skip(a ...any)             { runtime.Goexit() }
func (t *rtb) SkipNow()                  { runtime.Goexit() }
func (t *rtb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *rtb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *rtb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); runtime.Goexit() }
func (t *rtb) Fatal(a ...any)            { t.failed = true; t.Log(a...); runtime.Goexit() }
func (t *rtb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *rtb) Fail()                     { t.failed = true }
func (t *rtb) Failed() bool              { return t.failed }

func shardMain(args []string) {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 100, "")
	out := fs.String("out", "", "")
	limit := fs.Float64("limit", 600, "")
	fs.Parse(args)
	p := props[*id]
	t0 := time.Now()
	so := ShardOut{Labels: map[string]int{}}
	env := newEnv(*tier)
	defer env.Close()

	testing.Init()
	flag.CommandLine.Parse(nil)
	setFlag := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "8s")

	keys := map[uint64]bool{}
	var best *FailCase
	failing := false
	evalOne := func(raw json.RawMessage) Verdict {
		v := p.Eval(env, raw)
		if v.Infra != "" && so.Infra == "" {
			so.Infra = v.Infra
		}
		if !failing {
			so.Evals++
			for _, l := range v.Labels {
				so.Labels[l]++
			}
			if v.NonTrivial {
				k := v.Key
				if k == "" {
					k = string(raw)
				}
				h := hash64(k)
				if !keys[h] {
					keys[h] = true
					if len(so.Samples) < 3 || (len(so.Samples) < 6 && len(keys)%97 == 0) {
						so.Samples = append(so.Samples, raw)
					}
				}
			}
		}
		return v
	}
	const batch = 250
	for done := 0; done < *n && best == nil && so.Infra == ""; done += batch {
		k := *n - done
		if k > batch {
			k = batch
		}
		if time.Since(t0).Seconds() > *limit {
			so.TimedOut = true
			break
		}
		s := mix(*seed, uint64(done/batch))
		setFlag("rapid.seed", strconv.FormatUint(s, 10))
		setFlag("rapid.checks", strconv.Itoa(k))
		tb := &rtb{}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(t, *tier)
				raw, err := json.Marshal(c)
				if err != nil {
					panic(err)
				}
				if so.Infra != "" || (!failing && time.Since(t0).Seconds() > *limit+60) {
					so.Skipped++
					return
				}
				v := evalOne(raw)
				if len(v.Problems) > 0 {
					failing = true
					env.AllTools = true
					if best == nil || len(raw) < len(best.Case) {
						best = &FailCase{Property: *id, Case: raw, Problems: v.Problems}
					}
					t.Fatalf("%s", v.Problems[0].Cat)
				}
			})
		}()
		wg.Wait()
		if tb.failed && best == nil {
			so.Infra = "generator failure: " + trunc(tb.log.String(), 2000)
		}
	}
	so.Fail = best
	for k := range keys {
		so.Keys = append(so.Keys, k)
	}
	so.WallS = time.Since(t0).Seconds()
	b, _ := json.Marshal(so)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		env.Close()
		removeScratch()
		os.Exit(2)
	}
	env.Close()
	removeScratch()
}

// mix derives a non-zero seed.
func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	x &= 0x7fffffffffffffff
	if x == 0 {
		x = 1
	}
	return x
}

// Known is one entry of the known-findings file.
type Known struct {
	Property string          `json:"property"`
	ID       string          `json:"id"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case"`
	Expect   []string        `json:"expect"` // "cat|lang|where" of the problems this input shows; * matches the rest
	Fixed    string          `json:"fixed,omitempty"`
}

func loadKnown(path string) ([]Known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []Known
	for i, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			return nil, fmt.Errorf("%s:%d: %v", path, i+1, err)
		}
		out = append(out, k)
	}
	return out, nil
}

func probKey(p Problem) string { return p.Cat + "|" + p.Lang + "|" + p.Where }

func expectMatch(pat, key string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(key, strings.TrimSuffix(pat, "*"))
	}
	return pat == key
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	nOver := fs.Int("n", 0, "override the number of cases")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Println("unknown property", *id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	defer removeScratch()
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Shards > 0 && p.Shards < shards {
		shards = p.Shards
	}
	total := p.Quick
	limit := 240.0
	if tier == "thorough" {
		total = p.Thorough
		limit = 1500
	}
	if *nOver > 0 {
		total = *nOver
	}
	self, _ := os.Executable()
	dir := scratchDir()
	type res struct {
		so  ShardOut
		err error
	}
	results := make([]res, shards)
	var wg sync.WaitGroup
	// the number of cases and the seeds do not depend on the machine: always 8
	// logical shards, run on as many processes as there are CPUs
	const logical = 8
	if p.Shards == 0 {
		results = make([]res, logical)
	}
	sem := make(chan struct{}, shards)
	for i := range results {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(dir, fmt.Sprintf("shard%d.json", i))
			n := total / len(results)
			if i < total%len(results) {
				n++
			}
			cmd := exec.Command(self, "shard", "-prop", *id, "-tier", tier, "-seed", strconv.FormatUint(mix(uint64(seed), uint64(1000+i)), 10),
				"-n", strconv.Itoa(n), "-out", out, "-limit", fmt.Sprint(limit))
			cmd.Env = append(os.Environ(), "XV_SCRATCH_BASE="+dir)
			var eb tailBuf
			cmd.Stderr = &eb
			if err := cmd.Run(); err != nil {
				results[i].err = fmt.Errorf("shard %d: %v: %s", i, err, eb.String())
				return
			}
			b, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &results[i].so)
			}
			results[i].err = err
		}(i)
	}
	wg.Wait()

	code := 0
	var infra []string
	var fails []*FailCase
	labels := map[string]int{}
	keys := map[uint64]bool{}
	evals := 0
	timedOut := 0
	var samples []json.RawMessage
	for _, r := range results {
		if r.err != nil {
			infra = append(infra, r.err.Error())
			continue
		}
		if r.so.Infra != "" {
			infra = append(infra, r.so.Infra)
		}
		evals += r.so.Evals
		if r.so.TimedOut {
			timedOut++
		}
		for k, v := range r.so.Labels {
			labels[k] += v
		}
		for _, k := range r.so.Keys {
			keys[k] = true
		}
		if r.so.Fail != nil {
			fails = append(fails, r.so.Fail)
		}
		samples = append(samples, r.so.Samples...)
	}

	env := newEnv(tier)
	defer env.Close()

	// fixed cases: enumerated inputs every run covers
	enumerated := 0
	if p.Enum != nil {
		for _, c := range p.Enum(tier) {
			raw, _ := json.Marshal(c)
			v := p.Eval(env, raw)
			enumerated++
			evals++
			for _, l := range v.Labels {
				labels[l]++
			}
			if v.NonTrivial {
				k := v.Key
				if k == "" {
					k = string(raw)
				}
				keys[hash64(k)] = true
			}
			if v.Infra != "" {
				infra = append(infra, v.Infra)
				break
			}
			if len(v.Problems) > 0 {
				fails = append(fails, &FailCase{Property: *id, Case: raw, Problems: v.Problems, Note: "enumerated case"})
				break
			}
		}
	}

	// known findings: each listed input is replayed; what it showed when it
	// was recorded is reported as known, anything else is a violation
	known, err := loadKnown(filepath.Join(*verif, "known_findings.jsonl"))
	if err != nil {
		infra = append(infra, err.Error())
	}
	for _, k := range known {
		if k.Property != *id {
			continue
		}
		v := p.Eval(env, k.Case)
		if v.Infra != "" {
			infra = append(infra, v.Infra)
			continue
		}
		var listed, other []Problem
		for _, pr := range v.Problems {
			ok := false
			for _, e := range k.Expect {
				ok = ok || expectMatch(e, probKey(pr))
			}
			if ok {
				listed = append(listed, pr)
			} else {
				other = append(other, pr)
			}
		}
		if len(listed) > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *id, k.ID, k.What)
		}
		if len(other) > 0 {
			fails = append(fails, &FailCase{Property: *id, Case: k.Case, Problems: other, Note: "input of known finding " + k.ID + ", showing something it did not show when it was recorded"})
		}
	}

	// confirm in a fresh process
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	var confirmed *FailCase
	for _, f := range fails {
		tries := p.Confirm
		if tries == 0 {
			tries = 8
		}
		for i := 0; i < tries && confirmed == nil; i++ {
			e2 := newEnv(tier)
			e2.AllTools = true
			v := p.Eval(e2, f.Case)
			e2.Close()
			if v.Infra != "" {
				infra = append(infra, v.Infra)
				break
			}
			if f.Note == "" || !strings.HasPrefix(f.Note, "input of known finding") {
				if len(v.Problems) > 0 {
					f.Problems = v.Problems
					confirmed = f
				}
			} else if len(v.Problems) > 0 {
				confirmed = f
			}
		}
		if confirmed != nil {
			break
		}
	}
	unconfirmed := 0
	if confirmed == nil {
		unconfirmed = len(fails)
	}

	violations := 0
	if confirmed != nil {
		violations = 1
		code = 1
		rdir := filepath.Join(*verif, "replays")
		os.MkdirAll(rdir, 0o755)
		b, _ := json.MarshalIndent(confirmed, "", " ")
		path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", *id, hash64(string(confirmed.Case))))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			infra = append(infra, err.Error())
		}
		for i, pr := range confirmed.Problems {
			if i >= 8 {
				fmt.Printf("  ... %d more\n", len(confirmed.Problems)-8)
				break
			}
			fmt.Println("  " + trunc(pr.String(), 1200))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
	} else if len(infra) > 0 {
		code = 2
		for _, m := range infra {
			fmt.Println("ERROR:", trunc(m, 3000))
		}
	}

	if len(samples) > 5 {
		samples = samples[:5]
	}
	var sm []interface{}
	for _, s := range samples {
		sm = append(sm, json.RawMessage(truncJSON(s)))
	}
	ev := map[string]interface{}{
		"property": *id, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": p.Assume,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": p.Rule, "samples": sm,
			"labels": labels, "enumerated": enumerated, "shards_out_of_time": timedOut, "failures_not_reproduced": unconfirmed,
		},
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs\n", *id, tier, evals, len(keys), time.Since(t0).Seconds())
	return code
}

// truncJSON keeps samples readable.
func truncJSON(raw json.RawMessage) string {
	if len(raw) <= 6000 {
		return string(raw)
	}
	b, _ := json.Marshal(string(raw[:6000]) + "...")
	return string(b)
}

func replayMain(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: xv replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f FailCase
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	p := props[f.Property]
	if p == nil {
		fmt.Println("unknown property", f.Property)
		return 2
	}
	env := newEnv("quick")
	env.AllTools = true
	defer removeScratch()
	defer env.Close()
	v := p.Eval(env, f.Case)
	if v.Infra != "" {
		fmt.Println("ERROR:", v.Infra)
		return 2
	}
	for _, pr := range v.Problems {
		fmt.Println(pr.String())
	}
	var pc ProjCase
	if json.Unmarshal(f.Case, &pc) == nil && pc.P != nil {
		for n, b := range RenderAll(pc.P) {
			fmt.Printf("--- %s\n%s\n", n, b)
		}
		if len(args) > 1 {
			for _, l := range args[1:] {
				r := env.W.Do(&Job{Files: RenderAll(pc.P), Runs: []Run{{Lang: l}}})
				for _, rr := range r.Runs {
					fmt.Println("==", l, rr.Err, rr.Panic)
					for n, s := range rr.Outs {
						fmt.Printf("--- %s\n%s\n", n, s)
					}
				}
			}
		}
	}
	if len(v.Problems) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	fmt.Println("the case passes")
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: xv check|shard|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "shard":
		shardMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
	default:
		os.Exit(2)
	}
}
