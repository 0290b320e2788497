package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xuri/xgen"
)

// Run is one use of the library, following what the xgen command does: list
// the files below In and parse each with fresh options.
type Run struct {
	Lang    string   `json:"lang"`
	In      string   `json:"in,omitempty"`    // input path relative to the input root; "" = the root
	Files   []string `json:"files,omitempty"` // explicit files (relative to the root) instead of listing In
	Pkg     string   `json:"pkg,omitempty"`
	Extract bool     `json:"extract,omitempty"`
	Again   bool     `json:"again,omitempty"` // parse twice with the same options
	Out     string   `json:"out,omitempty"`   // output directory; runs with the same one share it
	Tree    bool     `json:"tree,omitempty"`  // return the extracted components

	Edit  map[string][]byte `json:"edit,omitempty"`  // input files written just before the run
	Wipe  string            `json:"wipe,omitempty"`  // directory of the input tree emptied before that
	Clean bool              `json:"clean,omitempty"` // the output directory is removed before the run
	Block []string          `json:"block,omitempty"` // outputs in whose place there is a directory during the run
}

// RunRes is what one Run did.
type RunRes struct {
	Outs  map[string]string `json:"outs"` // output files, relative to the output directory
	Err   string            `json:"err,omitempty"`
	ErrAt string            `json:"errat,omitempty"`
	Panic string            `json:"panic,omitempty"`
	Stray []string          `json:"stray,omitempty"` // files changed or added in the input tree
	Tree  map[string][]Node `json:"tree,omitempty"`  // extracted components by file
}

// Node is a component handed to the caller in extraction mode.
type Node struct {
	Kind string          `json:"kind"`
	V    json.RawMessage `json:"v"`
}

// Job is a set of input files and the runs to make over them, in order, in
// one process.
type Job struct {
	Files map[string][]byte `json:"files"`
	Runs  []Run             `json:"runs"`
	Fn    *FnCall           `json:"fn,omitempty"`
	RT    *RTCall           `json:"rt,omitempty"`
	Par   bool              `json:"par,omitempty"`   // make the runs concurrently
	Stale map[string][]byte `json:"stale,omitempty"` // files put into the output directories beforehand
	Full  []string          `json:"full,omitempty"`  // output files on a device which is full
}

// JobRes is the outcome of a job.
type JobRes struct {
	Runs  []RunRes        `json:"runs"`
	Fn    json.RawMessage `json:"fn,omitempty"`
	RT    []RTRes         `json:"rt,omitempty"`
	Died  string          `json:"died,omitempty"`  // the process ended (exit, fatal error)
	Hung  bool            `json:"hung,omitempty"`  // it consumed far more CPU time than any legitimate run
	Infra string          `json:"infra,omitempty"` // neither: the machine was too slow or out of memory
}

// ---- worker side

func workerMain() {
	debug.SetMaxStack(64 << 20)
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "res")
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdout = null
	base := os.Getenv("XV_SCRATCH")
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var job Job
		if err := json.Unmarshal(line, &job); err != nil {
			fmt.Fprintln(os.Stderr, "bad job:", err)
			os.Exit(97)
		}
		n++
		res := doJob(&job, filepath.Join(base, fmt.Sprintf("j%d_%d", os.Getpid(), n)))
		b, _ := json.Marshal(res)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

func doJob(job *Job, dir string) (res JobRes) {
	if job.Fn != nil {
		res.Fn = doFn(job.Fn, dir)
		os.RemoveAll(dir)
		return
	}
	if job.RT != nil {
		res.RT = doRT(job.RT)
		return
	}
	root := filepath.Join(dir, "in")
	for _, name := range sortedKeys(job.Files) {
		fp := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(fp), 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(97)
		}
		if err := os.WriteFile(fp, job.Files[name], 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(97)
		}
	}
	outDirs := make([]string, len(job.Runs))
	for i, r := range job.Runs {
		outDirs[i] = filepath.Join(dir, fmt.Sprintf("out%d", i))
		if r.Out != "" {
			outDirs[i] = filepath.Join(dir, "o_"+r.Out)
		}
		for _, name := range sortedKeys(job.Stale) {
			fp := filepath.Join(outDirs[i], name)
			os.MkdirAll(filepath.Dir(fp), 0o755)
			os.WriteFile(fp, job.Stale[name], 0o644)
		}
	}
	for _, d := range outDirs {
		for _, name := range job.Full {
			fp := filepath.Join(d, name)
			os.MkdirAll(filepath.Dir(fp), 0o755)
			if err := os.Symlink("/dev/full", fp); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(97)
			}
		}
	}
	if job.Par {
		res.Runs = make([]RunRes, len(job.Runs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, r := range job.Runs {
			wg.Add(1)
			go func(i int, r Run) {
				defer wg.Done()
				<-start
				res.Runs[i] = doRun(r, root, outDirs[i])
			}(i, r)
		}
		close(start)
		wg.Wait()
		for i := range res.Runs {
			res.Runs[i].Outs = readTree(outDirs[i])
		}
		os.RemoveAll(dir)
		return
	}
	now := map[string][]byte{}
	for k, v := range job.Files {
		now[k] = v
	}
	for i, r := range job.Runs {
		if r.Clean {
			os.RemoveAll(outDirs[i])
		}
		if r.Wipe != "" {
			os.RemoveAll(filepath.Join(root, r.Wipe))
			for k := range now {
				if strings.HasPrefix(k, r.Wipe+"/") {
					delete(now, k)
				}
			}
		}
		for _, k := range sortedKeys(r.Edit) {
			fp := filepath.Join(root, k)
			os.MkdirAll(filepath.Dir(fp), 0o755)
			if err := os.WriteFile(fp, r.Edit[k], 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(97)
			}
			now[k] = r.Edit[k]
		}
		for _, k := range r.Block {
			os.RemoveAll(filepath.Join(outDirs[i], k))
			os.MkdirAll(filepath.Join(outDirs[i], k), 0o755)
		}
		rr := doRun(r, root, outDirs[i])
		for _, k := range r.Block {
			os.RemoveAll(filepath.Join(outDirs[i], k))
		}
		rr.Outs = readTree(outDirs[i])
		got := readTree(root)
		for k, v := range got {
			if want, ok := now[k]; !ok || string(want) != v {
				rr.Stray = append(rr.Stray, k)
			}
		}
		for k := range now {
			if _, ok := got[k]; !ok {
				rr.Stray = append(rr.Stray, "-"+k)
			}
		}
		if es, err := os.ReadDir(dir); err == nil {
			for _, e := range es {
				if e.Name() != "in" && !contains(outDirs, filepath.Join(dir, e.Name())) {
					rr.Stray = append(rr.Stray, "../"+e.Name())
				}
			}
		}
		res.Runs = append(res.Runs, rr)
	}
	os.RemoveAll(dir)
	return
}

func readTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(fp string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(fp)
		if err == nil {
			rel, _ := filepath.Rel(dir, fp)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func doRun(r Run, root, outDir string) (rr RunRes) {
	defer func() {
		if e := recover(); e != nil {
			rr.Panic = fmt.Sprintf("%v\n%s", e, trunc(string(debug.Stack()), 3000))
		}
	}()
	in := root
	if r.In != "" {
		in = filepath.Join(root, r.In)
	}
	var files []string
	if len(r.Files) > 0 {
		for _, f := range r.Files {
			files = append(files, filepath.Join(root, f))
		}
	} else {
		var err error
		if files, err = xgen.GetFileList(in); err != nil {
			rr.Err = err.Error()
			return
		}
	}
	for _, f := range files {
		opt := NewOptions(f, in, outDir, r)
		parser := xgen.NewParser(opt)
		err := parser.Parse()
		if r.Again && err == nil {
			err = parser.Parse()
		}
		if r.Tree {
			if rr.Tree == nil {
				rr.Tree = map[string][]Node{}
			}
			rel, _ := filepath.Rel(root, f)
			rr.Tree[rel] = nodes(opt.ProtoTree)
		}
		if err != nil {
			rr.Err = err.Error()
			if rr.Err == "" {
				rr.Err = "error"
			}
			rr.ErrAt, _ = filepath.Rel(root, f)
			return
		}
	}
	return
}

func nodes(tree []interface{}) []Node {
	out := []Node{}
	for _, x := range tree {
		n := Node{Kind: strings.TrimPrefix(fmt.Sprintf("%T", x), "*xgen.")}
		n.V, _ = json.Marshal(x)
		out = append(out, n)
	}
	return out
}

// NewOptions builds the options the xgen command uses.
func NewOptions(file, in, out string, r Run) *xgen.Options {
	return &xgen.Options{
		FilePath:            file,
		InputDir:            in,
		OutputDir:           out,
		Lang:                r.Lang,
		Package:             r.Pkg,
		Extract:             r.Extract,
		IncludeMap:          make(map[string]bool),
		LocalNameNSMap:      make(map[string]string),
		NSSchemaLocationMap: make(map[string]string),
		ParseFileList:       make(map[string]bool),
		ParseFileMap:        make(map[string][]interface{}),
		ProtoTree:           make([]interface{}, 0),
		RemoteSchema:        make(map[string][]byte),
	}
}

// ---- driver side

// Worker drives one worker process. A worker serves many jobs, so that state
// kept between runs can show; Fresh forces a new process.
type Worker struct {
	mu      sync.Mutex
	cmd     *exec.Cmd
	req     *os.File
	res     *bufio.Reader
	resF    *os.File
	errBuf  *tailBuf
	jobs    int
	MaxJobs int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return trunc(string(t.b), 2000)
}

func (w *Worker) start() error {
	if w.cmd != nil {
		return nil
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return err
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "worker")
	cmd.ExtraFiles = []*os.File{rr, sw}
	w.errBuf = &tailBuf{}
	cmd.Stderr = w.errBuf
	cmd.Env = append(os.Environ(), "XV_SCRATCH="+workDir(), "GOTRACEBACK=single", "GOMAXPROCS="+strconv.Itoa(workerProcs), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: credential()}
	if err := cmd.Start(); err != nil {
		return err
	}
	rr.Close()
	sw.Close()
	w.cmd, w.req, w.resF, w.res = cmd, rw, sr, bufio.NewReaderSize(sr, 1<<20)
	w.jobs = 0
	return nil
}

// Stop ends the worker process.
func (w *Worker) Stop() {
	if w.cmd == nil {
		return
	}
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.req.Close()
	w.resF.Close()
	w.cmd = nil
}

// workerProcs is the parallelism of a worker process.
var workerProcs = 2

const (
	hangCPU  = 20 * time.Second
	hangWall = 240 * time.Second
	hangIdle = 150 // ticks
)

// sleeping reports whether all threads of a process sleep.
func sleeping(pid int) bool {
	tasks, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil || len(tasks) == 0 {
		return false
	}
	for _, t := range tasks {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, t.Name()))
		if err != nil {
			return false
		}
		s := string(b)
		if f := strings.Fields(s[strings.LastIndex(s, ")")+1:]); len(f) == 0 || f[0] != "S" {
			return false
		}
	}
	return true
}

func cpuTime(pid int) (time.Duration, string) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, ""
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0, ""
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond, f[0]
}

// Do runs a job.
func (w *Worker) Do(job *Job) JobRes {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.MaxJobs > 0 && w.jobs >= w.MaxJobs {
		w.Stop()
	}
	if err := w.start(); err != nil {
		return JobRes{Infra: "cannot start a worker: " + err.Error()}
	}
	w.jobs++
	b, err := json.Marshal(job)
	if err != nil {
		panic(err)
	}
	type reply struct {
		line []byte
		err  error
	}
	ch := make(chan reply, 1)
	c0, _ := cpuTime(w.cmd.Process.Pid)
	go func() {
		if _, err := w.req.Write(append(b, '\n')); err != nil {
			ch <- reply{nil, err}
			return
		}
		line, err := w.res.ReadBytes('\n')
		ch <- reply{line, err}
	}()
	t0 := time.Now()
	idle, cIdle := 0, time.Duration(0)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			if r.err != nil {
				err := w.cmd.Wait()
				msg := w.errBuf.String()
				code := w.cmd.ProcessState.ExitCode()
				st, _ := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
				w.req.Close()
				w.resF.Close()
				w.cmd = nil
				if code == 97 || (st.Signaled() && st.Signal() == syscall.SIGKILL) || strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate") {
					return JobRes{Infra: fmt.Sprintf("worker lost (%v): %s", err, msg)}
				}
				return JobRes{Died: fmt.Sprintf("the process ended (%v): %s", err, msg)}
			}
			var res JobRes
			if err := json.Unmarshal(r.line, &res); err != nil {
				return JobRes{Infra: "bad reply: " + err.Error()}
			}
			return res
		case <-tick.C:
			c1, _ := cpuTime(w.cmd.Process.Pid)
			if c1-c0 > hangCPU {
				w.Stop()
				return JobRes{Hung: true}
			}
			// A run never waits for anything, so one whose threads all sleep,
			// for half a minute of samples and at no CPU time, waits for ever.
			if !sleeping(w.cmd.Process.Pid) || c1-cIdle > 50*time.Millisecond {
				idle, cIdle = 0, c1
			}
			if idle++; idle > hangIdle {
				w.Stop()
				return JobRes{Hung: true}
			}
			if time.Since(t0) > hangWall {
				w.Stop()
				return JobRes{Infra: "worker too slow"}
			}
		}
	}
}

// nobody is the unprivileged user the code under test runs as: whatever it
// does wrong with paths can reach nothing but its own scratch files.
const nobody = 65534

var credOnce sync.Once
var cred *syscall.Credential

func credential() *syscall.Credential {
	credOnce.Do(func() {
		if os.Getuid() != 0 {
			return
		}
		c := exec.Command("/bin/true")
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		if c.Run() == nil {
			cred = &syscall.Credential{Uid: nobody, Gid: nobody}
		}
	})
	return cred
}

var workOnce sync.Once
var workPath string

// workDir is the directory below the scratch directory that belongs to the
// user the code under test runs as.
func workDir() string {
	workOnce.Do(func() {
		workPath = filepath.Join(scratchDir(), "w")
		if err := os.MkdirAll(workPath, 0o700); err != nil {
			fmt.Fprintln(os.Stderr, "cannot make a work directory:", err)
			os.Exit(2)
		}
		if credential() != nil {
			os.Chown(workPath, nobody, nobody)
		}
	})
	return workPath
}

var scratchOnce sync.Once
var scratchPath string

// scratchDir is this process's scratch directory; main removes it.
func scratchDir() string {
	scratchOnce.Do(func() {
		base := os.Getenv("XV_SCRATCH_BASE")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "xv-")
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot make a scratch directory:", err)
			os.Exit(2)
		}
		os.Chmod(d, 0o711)
		scratchPath = d
	})
	return scratchPath
}

func removeScratch() {
	if scratchPath != "" {
		os.RemoveAll(scratchPath)
	}
}

var _ io.Writer = (*tailBuf)(nil)
