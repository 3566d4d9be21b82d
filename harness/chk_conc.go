package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C04"] = chkDeterminism
	checks["C05"] = chkRaces
	checks["C15"] = chkPerfOptions
}

// concArgs draws options that start many goroutines. {NT} and {BT} stand for
// thread counts.
func concArgs(r *rand.Rand) []string {
	n := fmt.Sprintf("-na=%d", r.Intn(5))
	if r.Intn(3) == 0 {
		n += fmt.Sprintf("p=%d", r.Intn(3))
	}
	n += "c=" + string("vvdxzDXZV"[r.Intn(9)])
	if r.Intn(3) == 0 {
		n += fmt.Sprintf("i=%d", r.Intn(3))
	}
	a := []string{}
	if r.Intn(5) < 2 {
		n += fmt.Sprintf("m=%dt={NT}", 1+r.Intn(3))
		if r.Intn(2) == 0 {
			a = append(a, fmt.Sprintf("--roots=%d", 1+r.Intn(12)))
		}
		if r.Intn(2) == 0 {
			a = append(a, fmt.Sprintf("--speedtree=%d", r.Intn(2)))
		}
	}
	if r.Intn(5) == 0 {
		a = append(a, "--stknode")
	}
	a = append(a, n)
	b := "-b"
	switch r.Intn(4) {
	case 0:
	case 1:
		b += "o=" + []string{"0", "1", "3"}[r.Intn(3)]
	default:
		b += "o=2"
	}
	b += []string{"", "s", "a", "s?", "a?"}[r.Intn(5)]
	if r.Intn(2) == 0 {
		b += fmt.Sprintf("e=%d", r.Intn(3))
	}
	if r.Intn(3) == 0 {
		b += "r"
	}
	b += "t={BT}"
	a = append(a, b)
	if r.Intn(8) == 0 {
		a = append(a, "-b-")
	}
	switch r.Intn(6) {
	case 0:
		a = append(a, "-rz")
	case 1:
		a = append(a, "-r-")
	default:
		rj := fmt.Sprintf("-rs=%d", r.Intn(4))
		if r.Intn(3) == 0 {
			rj += "m"
		}
		a = append(a, rj)
		if r.Intn(4) == 0 {
			a = append(a, "--nosymm")
		}
	}
	if r.Intn(3) == 0 {
		a = append(a, fmt.Sprintf("--sidecache=%d", r.Intn(3)))
	}
	return a
}

func threads(a []string, nt, bt int) []string {
	out := make([]string, len(a))
	for i, s := range a {
		s = strings.ReplaceAll(s, "{NT}", fmt.Sprint(nt))
		out[i] = strings.ReplaceAll(s, "{BT}", fmt.Sprint(bt))
	}
	return out
}

// simpleRMB writes a small modifier program for the levels of a WAD.
func simpleRMB(r *rand.Rand, names []string, nsec, nline int) string {
	var b strings.Builder
	for k := 0; k < 1+r.Intn(4); k++ {
		if r.Intn(3) == 0 {
			fmt.Fprintf(&b, "%s\n", names[r.Intn(len(names))])
		}
		s := func() int { return r.Intn(nsec) }
		switch r.Intn(12) {
		case 0:
			fmt.Fprintf(&b, "BLIND %d (%d,%d)\n", 1+r.Intn(3), s(), s())
		case 1:
			fmt.Fprintf(&b, "SAFE %d (%d)\n", 1+r.Intn(3), s())
		case 2:
			fmt.Fprintf(&b, "INCLUDE (%d) (%d)\n", s(), s())
		case 3:
			fmt.Fprintf(&b, "EXCLUDE (%d) (%d)\n", s(), s())
		case 4:
			fmt.Fprintf(&b, "LENGTH %d\n", 1+r.Intn(5))
		case 5:
			fmt.Fprintf(&b, "DISTANCE %d\n", 200+r.Intn(1000))
		case 6, 7: // makes another blockmap of solid lines than the shared one
			fmt.Fprintf(&b, "LINE %d\n", r.Intn(nline))
		case 8:
			fmt.Fprintf(&b, "GROUP %d (%d)\n", s(), s())
		case 9:
			fmt.Fprintf(&b, "VORTEX (%d) (%d)\n", s(), s())
		case 10:
			fmt.Fprintf(&b, "REPORT %d\n", r.Intn(4))
		case 11:
			fmt.Fprintf(&b, "NOPROCESS\n")
		}
	}
	return b.String()
}

// concWad draws a WAD with one to three levels and its modifier file.
func concWad(r *rand.Rand, c *Case) *MultiWad {
	m := genMulti(r, mwOpt{MaxLevels: 3, Size: 1 + r.Intn(2), OnlyValid: true, Unused: true})
	var names []string
	nsec, nline := 1<<30, 1<<30
	for k := range m.Items {
		it := &m.Items[k]
		if it.Kind == 'L' {
			names = append(names, it.Name)
			nsec = min(nsec, len(it.Lv.Sects))
			nline = min(nline, len(it.Lv.Lines))
			if r.Intn(4) == 0 && !it.Lv.Hexen {
				addScrollers(r, it.Lv)
				refill(it)
			}
		}
	}
	c.Write("in.wad", m.Wad().Bytes())
	c.Write("in.rej", []byte(simpleRMB(r, names, nsec, nline)))
	return m
}

// sieveMap is large and sparse, so that its blockmap is close to one of the
// size limits: some origins fit and some do not.
func sieveMap(r *rand.Rand, limit int) (*Level, string) {
	k := 4 + r.Intn(6)
	target := float64(limit) * (0.985 + 0.03*r.Float64())
	c := 100.0
	for ; c < 60000/float64(k); c++ {
		bl := float64(k) * c / 128
		if bl*bl*3+2*float64(k*(k+1))*c/128 > target {
			break
		}
	}
	o := RandOpt(r, 0)
	o.W, o.H, o.Cell = k, k, int(math.Round(c))
	o.Void, o.Rot, o.Diag, o.Hexen = 0, 0, 0, false
	o.OffX, o.OffY = -int(c)*k/2, -int(c)*k/2
	return Gen(r, "MAP01", o), fmt.Sprintf("sieve %dx%d", k, int(c))
}

type schedLog struct {
	mu     sync.Mutex
	seen   map[[20]byte]bool
	sites  map[uint16]bool
	events int
}

func (s *schedLog) add(b []byte) {
	h := sha1.Sum(b)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen[h] = true
	s.events += len(b) / 2
	for i := 0; i+1 < len(b); i += 2 {
		s.sites[uint16(b[i])|uint16(b[i+1])<<8] = true
	}
}

func (s *schedLog) report(e *Env) {
	e.Max("distinct_interleavings", len(s.seen))
	e.Max("schedule_events", s.events)
	e.Max("schedule_sites_reached", len(s.sites))
}

func chkDeterminism(e *Env) {
	e.rule = "one evaluation = one WAD with one option set, built once as reference and several times under other processor counts, thread options, garbage collector settings and perturbed schedules; non-trivial if at least two runs took different interleavings"
	e.assume = []string{"schedules are perturbed by random delays in front of every communicating statement (instrumented copy of the working tree made at build time)"}
	instr := os.Getenv("VH_INSTRBIN")
	sl := &schedLog{seen: map[[20]byte]bool{}, sites: map[uint16]bool{}}
	n := e.N(200, 1500)
	Parallel(n, 4, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("det", i)
		c := e.NewCase(fmt.Sprintf("det %d", i))
		defer c.Done()
		var args []string
		desc := ""
		if i%4 == 3 { // early end of the offset search near a size limit
			lim := []int{32767, 65535}[r.Intn(2)]
			lv, d := sieveMap(r, lim)
			c.Write("in.wad", lv.Wad().Bytes())
			args = []string{"-n-", "-r-", fmt.Sprintf("-be=%do=%st={BT}%s", 1+r.Intn(2), []string{"2", "2", "3"}[r.Intn(3)], []string{"", "", "s?", "a?"}[r.Intn(4)])}
			if r.Intn(3) == 0 {
				args[2] += fmt.Sprintf("z=%d", r.Intn(3))
			}
			desc = d
		} else if i%4 == 1 { // multi-tree with ties
			var lv *Level
			lv, desc = tieMap(r)
			c.Write("in.wad", lv.Wad().Bytes())
			args = []string{fmt.Sprintf("-na=%dm=%dt={NT}", r.Intn(4), 2+r.Intn(2)), "-b-", "-r-"}
			if r.Intn(3) == 0 {
				args = append(args, fmt.Sprintf("--roots=%d", 5+r.Intn(30)))
			}
		} else {
			m := concWad(r, c)
			args = concArgs(r)
			desc = m.Desc
			big := 0
			for k := range m.Items {
				if lv := m.Items[k].Lv; lv != nil {
					big = max(big, len(lv.Lines))
				}
			}
			for k := range args { // too slow
				if big > 250 {
					args[k] = mtOpt.ReplaceAllString(args[k], "")
				}
			}
		}
		det := append([]string{"-d"}, args...)
		ref := c.Build("in.wad", "ref.wad", threads(det, 1, 1)...)
		if ref == nil {
			return
		}
		if strings.Contains(ref.Res.Out, "of the earlier offsets") {
			e.Count("holes_chased", 1)
		}
		inter := map[[20]byte]bool{}
		var plain *Built
		for k := 0; k < e.N(6, 10); k++ {
			nt, bt := 1+r.Intn(9), 1+r.Intn(9)
			o := RunOpt{Env: []string{fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 3, 4, 8, 16}[r.Intn(6)])}}
			if r.Intn(4) == 0 {
				o.Env = append(o.Env, "GOGC=5")
			}
			logf := ""
			if k >= 1 {
				o.Bin = instr
				logf = c.Path(fmt.Sprintf("s%d", k))
				o.Env = append(o.Env, fmt.Sprintf("VH_SCHED=%d:%d:%s", r.Intn(1<<30), 1+r.Intn(3), logf))
			}
			a := threads(det, nt, bt)
			nondet := k >= 4
			if nondet {
				a = a[1:]
			}
			b := c.BuildX(o, "in.wad", "out.wad", a...)
			if b == nil {
				return
			}
			if logf != "" {
				lg := readFile(logf)
				sl.add(lg)
				inter[sha1.Sum(lg)] = true
			}
			if !nondet {
				e.Count("deterministic_runs_compared", 1)
				if !bytes.Equal(ref.Raw, b.Raw) {
					c.Violate("differs", "deterministic output differs from run to run: %s (options %v then %v, %v)", wadDiff(ref.Wad, b.Wad), threads(det, 1, 1), a, o.Env)
					return
				}
				if m := holesRe.FindStringSubmatch(b.Res.Out); m != nil {
					e.Count("runs_chasing_skipped_offsets", 1)
				}
				continue
			}
			e.Count("non_deterministic_runs_compared", 1)
			if plain == nil {
				plain = b
			}
			if d := lumpDiff(ref.Wad, b.Wad); d != "" {
				c.Violate("lumps", "without -d: %s (options %v, %v)", d, a, o.Env)
				return
			}
		}
		key := ""
		if len(inter) > 1 {
			key = desc + strings.Join(args, " ")
		}
		e.Eval(key)
		if i < 4 {
			e.Sample(map[string]interface{}{"wad": desc, "args": strings.Join(args, " "), "distinct_interleavings": len(inter)})
		}
	})
	sl.report(e)
}

var mtOpt = regexp.MustCompile(`m=[123]t=\{NT\}`)

// tieMap makes a map so regular that many roots give equally good trees.
func tieMap(r *rand.Rand) (*Level, string) {
	for {
		g := RandOpt(r, r.Intn(2))
		g.Jitter, g.Rot, g.Diag, g.SelfRef, g.ZeroLen = 0, 0, 0, 0, 0
		g.W, g.H = 2+r.Intn(5), 2+r.Intn(5)
		if r.Intn(2) == 0 {
			g.Void, g.Island, g.Pillar = 0, 0, 0
			g.Sectors = 0
		}
		lv := Gen(r, "MAP01", g)
		if len(lv.Lines) > 8 && len(lv.Lines) < 90 {
			return lv, "ties " + optKey(g)
		}
	}
}

var holesRe = regexp.MustCompile(`to ensure determinism|backtrack`)

func wadDiff(a, b *Wad) string {
	if len(a.Lumps) != len(b.Lumps) {
		return fmt.Sprintf("%d and %d lumps", len(a.Lumps), len(b.Lumps))
	}
	for i := range a.Lumps {
		if a.Lumps[i].Name != b.Lumps[i].Name {
			return fmt.Sprintf("lump %d is %s or %s", i, a.Lumps[i].Name, b.Lumps[i].Name)
		}
		if !bytes.Equal(a.Lumps[i].Data, b.Lumps[i].Data) {
			return fmt.Sprintf("lump %d %s: %d and %d bytes, first difference at %d", i, a.Lumps[i].Name, len(a.Lumps[i].Data), len(b.Lumps[i].Data), firstDiff(a.Lumps[i].Data, b.Lumps[i].Data))
		}
	}
	return "placement of the lumps only"
}

// lumpDiff compares contents; blockmaps may use another, equally acceptable
// origin.
func lumpDiff(a, b *Wad) string {
	if len(a.Lumps) != len(b.Lumps) {
		return fmt.Sprintf("%d and %d lumps", len(a.Lumps), len(b.Lumps))
	}
	for i := range a.Lumps {
		if a.Lumps[i].Name == "BLOCKMAP" {
			continue
		}
		if a.Lumps[i].Name != b.Lumps[i].Name || !bytes.Equal(a.Lumps[i].Data, b.Lumps[i].Data) {
			return fmt.Sprintf("lump %d %s has other contents than with -d: %d and %d bytes", i, b.Lumps[i].Name, len(a.Lumps[i].Data), len(b.Lumps[i].Data))
		}
	}
	return ""
}

var raceHead = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n==================`)
var raceFn = regexp.MustCompile(`(?m)^  main\.([^\n(]*(?:\([^)]*\))?[^\n(]*)\(`)

func chkRaces(e *Env) {
	e.rule = "one evaluation = one run of a race-detector build of the instrumented program on one WAD and option set with perturbed schedule; distinct by options and interleaving"
	e.assume = []string{
		"the race detector reports a conflicting pair only if both accesses execute; it knows no false positives",
		"probes add no synchronisation of their own (raw system calls, sleeps and yields only)",
	}
	bin := os.Getenv("VH_RACEBIN")
	sl := &schedLog{seen: map[[20]byte]bool{}, sites: map[uint16]bool{}}
	n := e.N(400, 6000)
	Parallel(n, 5, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("race", i)
		c := e.NewCase(fmt.Sprintf("race %d", i))
		defer c.Done()
		desc := ""
		var args []string
		if i%16 == 15 {
			lv, d := sieveMap(r, 32767)
			c.Write("in.wad", lv.Wad().Bytes())
			args = []string{"-n-", "-r-", fmt.Sprintf("-be=1o=2t={BT}%s", []string{"", "s?", "a?"}[r.Intn(3)])}
			desc = d
		} else {
			m := concWad(r, c)
			args = concArgs(r)
			desc = m.Desc
			big := 0
			for k := range m.Items {
				if lv := m.Items[k].Lv; lv != nil {
					big = max(big, len(lv.Lines))
				}
			}
			for k := range args { // too slow
				if big > 130 {
					args[k] = mtOpt.ReplaceAllString(args[k], "")
				}
			}
		}
		if r.Intn(2) == 0 {
			args = append([]string{"-d"}, args...)
		}
		if r.Intn(3) == 0 {
			args = append(args, "-"+strings.Repeat("v", 1+r.Intn(3)))
		}
		a := threads(args, 1+r.Intn(6), 1+r.Intn(6))
		logf := c.Path("sched")
		o := RunOpt{Bin: bin, Timeout: 300 * time.Second, Env: []string{
			"GORACE=halt_on_error=0 exitcode=66 history_size=4 atexit_sleep_ms=100",
			fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 4, 8}[r.Intn(4)]),
			fmt.Sprintf("VH_SCHED=%d:%d:%s", r.Intn(1<<30), 1+r.Intn(3), logf),
		}}
		full := append(append([]string{}, a...), "in.wad", "-o", "out.wad")
		res := c.RunX(o, full...)
		lg := readFile(logf)
		sl.add(lg)
		e.Eval(fmt.Sprintf("%x", sha1.Sum(lg)))
		races := raceHead.FindAllStringSubmatch(res.Out, -1)
		if len(races) > 0 {
			fn := ""
			for _, m := range raceFn.FindAllStringSubmatch(races[0][1], 2) {
				fn += " " + m[1]
			}
			c.Violate("race", "data race (%d reports), involving%s: %s (wad %s args %v)", len(races), fn, head(races[0][1], 1500), desc, a)
			return
		}
		switch {
		case res.Timeout:
			c.Violate("hang", "run did not end: %s (args %v)", tail(res.Out, 300), a)
		case res.Crashed() || strings.Contains(res.Out, "fatal error:"):
			c.Violate("crash", "run crashed (exit %d %s): %s (args %v)", res.Exit, res.Sig, crashHead(res.Out), a)
		case res.Exit != 0:
			c.Violate("exit", "run ended with status %d: %s (args %v)", res.Exit, tail(res.Out, 300), a)
		default:
			if k := strings.Index(res.Out, "VH-LEAK "); k >= 0 {
				c.Violate("leak", "goroutines are still blocked when the program ends: %s (args %v)", head(res.Out[k:], 1500), a)
			}
		}
		if i < 4 {
			e.Sample(map[string]interface{}{"wad": desc, "args": strings.Join(a, " "), "events": len(lg) / 2})
		}
	})
	sl.report(e)
}

func chkPerfOptions(e *Env) {
	e.rule = "one evaluation = one WAD and option set built with and without several performance-only options; output files compared bytewise; distinct by WAD and options"
	n := e.N(240, 5000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("perf", i)
		c := e.NewCase(fmt.Sprintf("perf %d", i))
		defer c.Done()
		m := concWad(r, c)
		args := dropPerf(concArgs(r))
		args = append([]string{"-d"}, args...)
		ref := c.Build("in.wad", "ref.wad", threads(args, 2, 2)...)
		if ref == nil {
			return
		}
		multi := strings.Contains(strings.Join(args, " "), "m=")
		for k := 0; k < 4; k++ {
			var extra []string
			add := func(s ...string) { extra = append(extra, s...) }
			if r.Intn(2) == 0 {
				add(fmt.Sprintf("--sidecache=%d", r.Intn(3)))
			}
			if r.Intn(2) == 0 {
				add(fmt.Sprintf("--speedtree=%d", r.Intn(2)))
			}
			if r.Intn(3) == 0 {
				add("-" + strings.Repeat("v", 1+r.Intn(4)))
			}
			if r.Intn(6) == 0 {
				add("--cpuprofile", "cpu.prof")
			}
			if r.Intn(6) == 0 {
				add("--memprofile", "mem.prof")
			}
			if r.Intn(3) == 0 && !has(args, "--nosymm") {
				add("--nosymm")
			}
			if r.Intn(6) == 0 {
				add("--hashlump")
			}
			if len(extra) == 0 {
				add("--sidecache=1")
			}
			a := append(append([]string{}, extra...), threads(args, 1+r.Intn(8), 1+r.Intn(8))...)
			b := c.Build("in.wad", "out.wad", a...)
			if b == nil {
				return
			}
			for _, x := range extra {
				e.Count("with "+strings.TrimRight(x, "0123456789="), 1)
			}
			if !bytes.Equal(ref.Raw, b.Raw) {
				c.Violate("differs", "%s (options %v, extra %v)", wadDiff(ref.Wad, b.Wad), args, extra)
				return
			}
		}
		if multi {
			e.Count("multi_tree_cases", 1)
		}
		e.Eval(m.Desc + strings.Join(args, " "))
		if i < 4 {
			e.Sample(map[string]string{"wad": m.Desc, "args": strings.Join(args, " ")})
		}
	})
	// one tree at a time: cheap, so many maps
	n = e.N(1500, 30000)
	Parallel(n, 0, func(i int) {
		if !e.TooMany() {
			perfSingle(e, i)
		}
	})
}

// perfSingle pairs runs with and without the side cache, and breadth-first
// building (formats whose vertices don't depend on the order of building).
func perfSingle(e *Env, i int) {
	r := e.Rand("perf1", i)
	c := e.NewCase(fmt.Sprintf("perf1 %d", i))
	defer c.Done()
	lv, desc := planarMap(r, 2)
	if r.Intn(12) == 0 {
		lv, desc = bigMap(r)
	}
	c.Write("in.wad", lv.Wad().Bytes())
	var args []string
	for _, s := range dropPerf(nodeArgs(r, "vdxvdXVv", false)) {
		if s != "--stknode" {
			args = append(args, s)
		}
	}
	if i%2 == 0 { // only this partitioner has the cache
		args[0] += "a=4"
	}
	args = append([]string{"-d", "-b-", "-r-"}, args...)
	if r.Intn(4) == 0 {
		args = append(args, fmt.Sprintf("-ni=%d", 1+r.Intn(2)))
	}
	ref := c.Build("in.wad", "ref.wad", append([]string{"--sidecache=1"}, args...)...)
	if ref == nil {
		return
	}
	extra := []string{"--sidecache=2"}
	if i%2 == 1 {
		extra = []string{"--stknode"}
		if strings.Contains(strings.Join(args, " "), "c=x") {
			extra = []string{"--speedtree"}
		}
	}
	b := c.Build("in.wad", "out.wad", append(append([]string{}, args...), extra...)...)
	if b == nil {
		return
	}
	e.Count("single tree with "+strings.TrimRight(extra[0], "0123456789="), 1)
	if !bytes.Equal(ref.Raw, b.Raw) {
		c.Violate("differs", "%s (options %v, extra %v)", wadDiff(ref.Wad, b.Wad), args, extra)
	}
	e.Eval(desc + strings.Join(args, " "))
}

// dropPerf removes the options chkPerfOptions varies itself.
func dropPerf(a []string) []string {
	var out []string
	for _, s := range a {
		if strings.HasPrefix(s, "--sidecache") || strings.HasPrefix(s, "--speedtree") {
			continue
		}
		out = append(out, s)
	}
	return out
}

var _ = strconv.Itoa
