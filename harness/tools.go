package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// A second opinion on the syntax of generated files: the parsers of installed
// compilers, for a sample of the cases. A tool which is not there or does not
// work is not asked again.

//go:embed tools/ts.js
var tsServer string

//go:embed tools/JavaSyntax.java
var javaServer string

// lineServer is a process which answers a line for each line.
type lineServer struct {
	mu    sync.Mutex
	start func() *exec.Cmd
	cmd   *exec.Cmd
	in    interface {
		Write([]byte) (int, error)
		Close() error
	}
	out  *bufio.Reader
	dead bool
	asks int
}

func (s *lineServer) ask(line string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return "", false
	}
	if s.cmd == nil {
		s.dead = true
		if s.cmd = s.start(); s.cmd == nil {
			return "", false
		}
		in, err := s.cmd.StdinPipe()
		if err != nil {
			return "", false
		}
		out, err := s.cmd.StdoutPipe()
		if err != nil || s.cmd.Start() != nil {
			return "", false
		}
		s.in, s.out, s.dead = in, bufio.NewReaderSize(out, 1<<16), false
	}
	if _, err := s.in.Write([]byte(line + "\n")); err != nil {
		s.dead = true
		return "", false
	}
	r, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	s.asks++
	return strings.TrimSuffix(r, "\n"), true
}

func (s *lineServer) close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cmd != nil && s.in != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd, s.in, s.dead = nil, nil, false // started again when asked again
}

func toolFile(name, text string) string {
	d := scratchDir()
	f := filepath.Join(d, name)
	if os.MkdirAll(d, 0o755) != nil || os.WriteFile(f, []byte(text), 0o644) != nil {
		return ""
	}
	return f
}

var (
	tsTool = &lineServer{start: func() *exec.Cmd {
		lib := "/opt/veriftools/node/node_modules/typescript"
		node, err := exec.LookPath("node")
		if _, serr := os.Stat(lib); err != nil || serr != nil {
			return nil
		}
		f := toolFile("ts.js", tsServer)
		if f == "" {
			return nil
		}
		return exec.Command(node, f, lib)
	}}
	javaTool = &lineServer{start: func() *exec.Cmd {
		java, err := exec.LookPath("java")
		if err != nil {
			return nil
		}
		f := toolFile("JavaSyntax.java", javaServer)
		if f == "" {
			return nil
		}
		return exec.Command(java, "-Xmx512m", f)
	}}
)

// Tools hands generated sources to compilers.
type Tools struct{}

func (t *Tools) Close() { closeTools() }

func closeTools() {
	tsTool.close()
	javaTool.close()
}

var cSyntax = regexp.MustCompile(`error: (expected|extraneous|unterminated|unexpected character|non-ASCII|missing|invalid|unknown escape|source file is not valid|stray)`)

// Check asks a compiler of the language about a sample of the cases.
func (t *Tools) Check(e *Env, lang string, srcs map[string]string, raw json.RawMessage) (problems []Problem, asked bool) {
	h := fnv.New32a()
	h.Write(raw)
	every := uint32(25)
	if lang == "C" || lang == "Rust" { // a process for each file
		every = 50
	}
	if n, err := strconv.Atoi(os.Getenv("XV_TOOL_EVERY")); err == nil && n > 0 { // for tuning
		every = uint32(n)
	}
	if h.Sum32()%every != 0 && !e.AllTools {
		return nil, false
	}
	var out []Problem
	bad := func(where, msg string) {
		out = append(out, Problem{"compiler", lang, where, trunc(strings.TrimSpace(msg), 600)})
	}
	for _, n := range sortedKeys(srcs) {
		src := srcs[n]
		switch lang {
		case "TypeScript":
			b, _ := json.Marshal(map[string]interface{}{"srcs": map[string]string{n: src}})
			r, ok := tsTool.ask(string(b))
			var res struct{ Errs []string }
			if ok && json.Unmarshal([]byte(r), &res) == nil {
				asked = true
				if m := strings.Join(res.Errs, "; "); m != "" && !strings.Contains(m, "INFRA") {
					bad(n, m)
				}
			}
		case "Java":
			r, ok := javaTool.ask(base64.StdEncoding.EncodeToString([]byte(src)))
			if b, err := base64.StdEncoding.DecodeString(r); ok && err == nil {
				asked = true
				if m := string(b); m != "" && !strings.Contains(m, "INFRA") {
					bad(n, m)
				}
			}
		case "C":
			_, msg, ok := runOn(src, "clang", "-x", "c", "-std=c17", "-fsyntax-only", "-w", "-ferror-limit=0", "-")
			if !ok {
				continue
			}
			asked = true
			for _, l := range strings.Split(msg, "\n") {
				if cSyntax.MatchString(l) {
					bad(n, l)
					break
				}
			}
		case "Rust":
			rc, msg, ok := runOn(src, "rustfmt", "--edition", "2018", "--emit", "stdout")
			if !ok {
				continue
			}
			asked = true
			if rc != 0 && regexp.MustCompile(`(?m)^error(\[E\d+\])?: `).MatchString(msg) {
				bad(n, msg)
			}
		}
	}
	return out, asked
}

// runOn runs a command on a text. ok is false if it could not be run.
func runOn(src, name string, args ...string) (rc int, stderr string, ok bool) {
	path, err := exec.LookPath(name)
	if err != nil {
		return 0, "", false
	}
	c := exec.Command(path, args...)
	c.Dir = scratchDir()
	c.Stdin = strings.NewReader(src)
	var eb bytes.Buffer
	c.Stderr = &eb
	err = c.Run()
	if x, isExit := err.(*exec.ExitError); isExit {
		return x.ExitCode(), eb.String(), x.ExitCode() > 0
	}
	return 0, eb.String(), err == nil
}
