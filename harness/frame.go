package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Env struct {
	ID       string
	Tier     string
	Seed     int64
	Thorough bool
	Root     string // /verif
	Repo     string
	Work     string // scratch, removed at end
	Bin      string // plain build
	RaceBin  string
	Level    string
	start    time.Time

	mu       sync.Mutex
	evals    int
	nontriv  map[string]bool
	samples  []interface{}
	counters map[string]int64
	viol     []violation
	known    []known
	knownHit map[string]bool
	rule     string
	assume   []string
	caseNo   int
}

type violation struct {
	sig, msg, dir string
}
type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func NewEnv(id string) *Env {
	e := &Env{ID: id, Tier: os.Getenv("VERIF_TIER"), Level: "exploration", start: time.Now(),
		nontriv: map[string]bool{}, counters: map[string]int64{}, knownHit: map[string]bool{}}
	if e.Tier != "thorough" {
		e.Tier = "quick"
	}
	e.Thorough = e.Tier == "thorough"
	e.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.Seed = s
	}
	e.Root = os.Getenv("VH_ROOT")
	e.Repo = os.Getenv("VH_REPO")
	e.Work = os.Getenv("VH_WORK")
	e.Bin = os.Getenv("VH_BIN")
	e.RaceBin = os.Getenv("VH_RACEBIN")
	if e.Root == "" || e.Work == "" || e.Bin == "" {
		fmt.Fprintln(os.Stderr, "VH_ROOT/VH_WORK/VH_BIN not set")
		os.Exit(2)
	}
	b, err := os.ReadFile(filepath.Join(e.Root, "known_findings.json"))
	if err == nil {
		var kf []known
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		for _, k := range kf {
			if k.Property == id && k.Status == "known" {
				e.known = append(e.known, k)
			}
		}
	}
	return e
}

// N scales a case count by tier.
func (e *Env) N(quick, thorough int) int {
	if e.Thorough {
		return thorough
	}
	return quick
}

func (e *Env) Rand(label string, i int) *rand.Rand {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprintf("%d|%s|%s|%d", e.Seed, e.ID, label, i)) {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(int64(h >> 1)))
}

func (e *Env) Count(k string, n int) {
	e.mu.Lock()
	e.counters[k] += int64(n)
	e.mu.Unlock()
}
func (e *Env) Max(k string, n int) {
	e.mu.Lock()
	if e.counters[k] < int64(n) {
		e.counters[k] = int64(n)
	}
	e.mu.Unlock()
}
func (e *Env) Eval(nontrivialKey string) {
	e.mu.Lock()
	e.evals++
	if nontrivialKey != "" {
		e.nontriv[nontrivialKey] = true
	}
	e.mu.Unlock()
}
func (e *Env) Sample(v interface{}) {
	e.mu.Lock()
	if len(e.samples) < 6 {
		e.samples = append(e.samples, v)
	}
	e.mu.Unlock()
}

// Case is one scratch directory with files; Violate saves it.
type Case struct {
	E    *Env
	Dir  string
	Log  []string
	Name string
}

func (e *Env) NewCase(name string) *Case {
	e.mu.Lock()
	e.caseNo++
	n := e.caseNo
	e.mu.Unlock()
	d := filepath.Join(e.Work, fmt.Sprintf("c%06d", n))
	if err := os.MkdirAll(d, 0o777); err != nil {
		panic(err)
	}
	return &Case{E: e, Dir: d, Name: name}
}
func (c *Case) Done() { os.RemoveAll(c.Dir) }
func (c *Case) Path(f string) string {
	return filepath.Join(c.Dir, f)
}
func (c *Case) Write(f string, b []byte) string {
	p := c.Path(f)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// Violate records a violation. sig is a stable identification used for
// known findings.
func (c *Case) Violate(sig, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	e := c.E
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, k := range e.known {
		if k.Sig == sig {
			if !e.knownHit[sig] {
				e.knownHit[sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s] e.g. %s: %s\n", e.ID, k.What, sig, c.Name, msg)
			}
			return
		}
	}
	same := 0
	for _, v := range e.viol {
		if v.sig == sig {
			same++
		}
	}
	if same >= 2 || len(e.viol) >= 20 {
		e.viol = append(e.viol, violation{sig: sig})
		return
	}
	dst := filepath.Join(e.Root, "replays", fmt.Sprintf("%s-%03d", e.ID, len(e.viol)))
	os.RemoveAll(dst)
	os.MkdirAll(dst, 0o755)
	ents, _ := os.ReadDir(c.Dir)
	for _, en := range ents {
		if fi, err := en.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() < 32<<20 {
			if b, err := os.ReadFile(filepath.Join(c.Dir, en.Name())); err == nil {
				os.WriteFile(filepath.Join(dst, en.Name()), b, 0o644)
			}
		}
	}
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "property %s\ncase %s\nsignature %s\nseed %d tier %s\n\n%s\n\ncommands (cwd = this directory; BIN built from /repo):\n", e.ID, c.Name, sig, e.Seed, e.Tier, msg)
	for _, l := range c.Log {
		fmt.Fprintln(&rb, l)
	}
	os.WriteFile(filepath.Join(dst, "README.txt"), rb.Bytes(), 0o644)
	e.viol = append(e.viol, violation{sig, msg, dst})
	fmt.Printf("violation: case %s [%s]: %s\n", c.Name, sig, head(msg, 400))
	fmt.Printf("VIOLATION property=%s replay=%s\n", e.ID, dst)
}

// ---- running the target

type Result struct {
	Exit    int // -1 signal / timeout
	Sig     string
	Timeout bool
	Out     string
	Wall    time.Duration
}

func (r *Result) Panicked() bool {
	return strings.Contains(r.Out, "panic:") || strings.Contains(r.Out, "fatal error:") || strings.Contains(r.Out, "goroutine 1 [") || strings.Contains(r.Out, "unexpected fault address")
}
func (r *Result) Crashed() bool { return r.Panicked() || r.Exit < 0 }

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type RunOpt struct {
	Bin     string
	Env     []string
	Timeout time.Duration
	Prefix  []string // e.g. strace ...
	Stdin   []byte
	Cred    *syscall.Credential
}

func (c *Case) Run(args ...string) *Result { return c.RunX(RunOpt{}, args...) }

func (c *Case) RunX(o RunOpt, args ...string) *Result {
	bin := o.Bin
	if bin == "" {
		bin = c.E.Bin
	}
	if o.Timeout == 0 {
		o.Timeout = 120 * time.Second
	}
	full := append(append([]string{}, o.Prefix...), bin)
	full = append(full, args...)
	c.Log = append(c.Log, strings.Join(append(append([]string{}, o.Env...), append(append(append([]string{}, o.Prefix...), "BIN"), quoteAll(args)...)...), " "))
	ctx, cancel := context.WithTimeout(context.Background(), o.Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, full[0], full[1:]...)
	cmd.Dir = c.Dir
	cmd.Env = append(os.Environ(), o.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: o.Cred}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	if o.Stdin != nil {
		cmd.Stdin = bytes.NewReader(o.Stdin)
	}
	var lw limitWriter
	cmd.Stdout = &lw
	cmd.Stderr = &lw
	t := time.Now()
	err := cmd.Run()
	res := &Result{Out: lw.String(), Wall: time.Since(t)}
	if ctx.Err() != nil {
		res.Timeout = true
		res.Exit = -1
		return res
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Exit = -1
			res.Sig = ws.Signal().String()
		} else {
			res.Exit = ee.ExitCode()
		}
	} else if err != nil {
		fmt.Fprintln(os.Stderr, "cannot run target:", err)
		os.Exit(2)
	}
	return res
}

type limitWriter struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	}
	l.mu.Unlock()
	return len(p), nil
}
func (l *limitWriter) String() string { return l.b.String() }

func quoteAll(a []string) []string {
	var r []string
	for _, s := range a {
		if s == "" || strings.ContainsAny(s, " !()'\"$&|;<>*?\\`#") {
			s = "'" + strings.ReplaceAll(s, "'", "'\\''") + "'"
		}
		r = append(r, s)
	}
	return r
}

// Parallel runs f for i in [0,n) on up to workers goroutines.
func Parallel(n, workers int, f func(i int)) {
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// maxViol ends a run early; VH_MAXV=1 is for development.
var maxViol = func() int {
	if n, err := strconv.Atoi(os.Getenv("VH_MAXV")); err == nil {
		return n
	}
	return 12
}()

func (e *Env) TooMany() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.viol) >= maxViol
}

func (e *Env) Finish() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         e.evals,
		"distinct_nontrivial": len(e.nontriv),
		"rule":                e.rule,
		"samples":             e.samples,
	}
	obs := map[string]int64{}
	for k, v := range e.counters {
		obs[k] = v
	}
	cov["observed"] = obs
	ev := map[string]interface{}{
		"property": e.ID, "tier": e.Tier, "seed": e.Seed, "level": e.Level,
		"coverage": cov, "assumptions": e.assume,
		"wall_s":     float64(int(time.Since(e.start).Seconds()*10)) / 10,
		"violations": len(e.viol),
	}
	if e.assume == nil {
		ev["assumptions"] = []string{}
	}
	if e.samples == nil {
		cov["samples"] = []interface{}{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.Root, "evidence", e.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	keys := make([]string, 0, len(obs))
	for k := range obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s = %d\n", k, obs[k])
	}
	fmt.Printf("%s %s: evaluations=%d distinct_nontrivial=%d violations=%d wall=%.1fs\n", e.ID, e.Tier, e.evals, len(e.nontriv), len(e.viol), time.Since(e.start).Seconds())
	if len(e.viol) > 0 {
		return 1
	}
	// A run that observed nothing proves nothing: that is an error of the check.
	if e.evals == 0 {
		fmt.Fprintln(os.Stderr, "no evaluations")
		return 2
	}
	return 0
}
