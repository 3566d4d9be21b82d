package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C03"] = chkFault }

// fop is one file operation of a run, as logged by the hooked system calls.
type fop struct {
	N    int
	Kind byte // O open, R read, W write, X copy range, K seek, C close, U unlink, N rename, A stat, T truncate, Y sync
	Arg  int
	Act  byte // '-' none, e error, k kill before, h half then full disk, H half then kill, S full disk from here, s short
	Val  int
	Path string
}

func (o fop) String() string {
	return fmt.Sprintf("%d%c %s act=%c%d", o.N, o.Kind, filepath.Base(o.Path), o.Act, o.Val)
}

func parseOps(b []byte) (r []fop) {
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 5)
		if len(f) < 5 || len(f[1]) != 1 || f[3] == "" {
			continue
		}
		var o fop
		o.N, _ = strconv.Atoi(f[0])
		o.Kind = f[1][0]
		o.Arg, _ = strconv.Atoi(f[2])
		o.Act = f[3][0]
		o.Val, _ = strconv.Atoi(f[3][1:])
		o.Path = f[4]
		r = append(r, o)
	}
	return
}

// changesFile: the operation, carried out, changes or replaces the named file.
func (o fop) changesFile() bool {
	switch o.Kind {
	case 'O':
		return o.Arg&3 != 0 || o.Arg&syscall.O_TRUNC != 0
	case 'U', 'N', 'T', 'W', 'X':
		return true
	}
	return false
}
func (o fop) done() bool {
	return o.Act != 'e' && o.Act != 'k' && o.Act != 'S' && !(o.Kind == 'O' && o.Act != '-')
}

// faultCase is one WAD with options and the two ways of naming the output.
type faultCase struct {
	in, ref   []byte
	files     map[string][]byte // others in the directory
	args      []string
	inplace   bool
	symlink   bool // input named through a link from another directory
	existing  bool // output exists already
	report    []byte
	hasReport bool
	noproc    bool
}

func (f *faultCase) setup(dir string) {
	os.MkdirAll(dir, 0755)
	if f.symlink {
		os.MkdirAll(dir+"/sub", 0755)
		os.WriteFile(dir+"/sub/real.wad", f.in, 0644)
		os.Symlink("sub/real.wad", dir+"/in.wad")
	} else {
		os.WriteFile(dir+"/in.wad", f.in, 0644)
	}
	for n, b := range f.files {
		os.WriteFile(dir+"/"+n, b, 0644)
	}
	if f.existing {
		os.WriteFile(dir+"/out.wad", bytes.Repeat([]byte("old "), 40000), 0644)
	}
}
func (f *faultCase) cmd() []string {
	a := append(append([]string{}, f.args...), "w/in.wad")
	if !f.inplace {
		a = append(a, "-o", "w/out.wad")
	}
	return a
}
func (f *faultCase) mode() string {
	s := "separate output"
	if f.inplace {
		s = "in place"
	}
	if f.symlink {
		s += ", linked input"
	}
	if f.existing {
		s += ", existing output"
	}
	return s
}

// judge applies the property to the directory a run left behind.
func (f *faultCase) judge(c *Case, dir string, res *Result, ops []fop, what string) {
	inj := false
	short := false
	lax := false // the lump NOPROCESS asks for was out of reach: announced, and built instead
	tempExcused := false
	began := false
	inputName := dir + "/in.wad"
	for _, o := range ops {
		if o.Act != '-' && o.Act != 's' {
			inj = true
			if o.Act != 'k' && (o.Kind == 'U' || o.Kind == 'C') {
				tempExcused = true
			}
		}
		short = short || o.Act == 's'
		if f.noproc && o.Act != '-' && (o.Kind == 'A' || strings.HasSuffix(o.Path, "/other.wad")) {
			lax = true
		}
		if o.Act == 'k' || o.Act == 'H' {
			continue
		}
		if (o.Path == inputName || o.Path == "w/in.wad" || strings.HasSuffix(o.Path, "/real.wad")) && o.changesFile() && o.done() {
			began = true
		}
	}
	for _, o := range ops { // half-done write followed by kill
		if o.Act == 'H' && o.Kind != 'O' && o.Path == inputName {
			began = true
		}
	}
	isRef := func(b []byte) bool {
		if lax {
			_, err := ParseWad(b)
			return err == nil && !bytes.Equal(b, f.in)
		}
		return bytes.Equal(b, f.ref)
	}
	in := readFile(inputName)
	intact := bytes.Equal(in, f.in)
	killed := res.Exit < 0 && !res.Timeout
	var temps []string
	tempWhole := false
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		n := en.Name()
		if n == "in.wad" || n == "out.wad" && !f.inplace || n == "in.rpt" || n == "sub" {
			continue
		}
		if _, ok := f.files[n]; ok {
			if !bytes.Equal(readFile(dir+"/"+n), f.files[n]) {
				c.Violate("other-file", "%s: %s was changed", what, n)
			}
			continue
		}
		temps = append(temps, n)
		if isRef(readFile(dir + "/" + n)) {
			tempWhole = true
		}
	}
	switch {
	case res.Timeout:
		c.Violate("hang", "%s: still running after the limit", what)
	case !f.inplace && began:
		c.Violate("input-touched", "%s: the input file was opened for writing although -o was given", what)
	case !f.inplace && !intact:
		c.Violate("input", "%s: the input file was changed although -o was given", what)
	case f.inplace && !began && !intact:
		c.Violate("input", "%s: the input was changed (%d bytes now) before the replacement began; exit %d", what, len(in), res.Exit)
	case f.inplace && began && !intact && !isRef(in) && !tempWhole:
		c.Violate("both-lost", "%s: neither the original nor the complete result survives; exit %d", what, res.Exit)
	}
	if res.Timeout || killed {
		return
	}
	if res.Exit == 0 {
		out := in
		if !f.inplace {
			out = readFile(dir + "/out.wad")
		}
		if !isRef(out) {
			c.Violate("false-success", "%s: status 0 but the result is not what an undisturbed run writes (%d bytes, expected %d)", what, len(out), len(f.ref))
		}
		if f.hasReport && !lax && !strings.Contains(res.Out, "Couldn't create file") && !bytes.Equal(readFile(dir+"/in.rpt"), f.report) {
			c.Violate("false-report", "%s: status 0 but the report file is not what an undisturbed run writes", what)
		}
	} else {
		if !inj && !short {
			c.Violate("spurious", "%s: status %d without any fault: %s", what, res.Exit, tail(res.Out, 200))
		}
		if len(strings.TrimSpace(res.Out)) == 0 {
			c.Violate("silent", "%s: status %d without a message", what, res.Exit)
		}
	}
	if len(temps) > 0 && !tempExcused && (res.Exit == 0 || intact) {
		c.Violate("temp", "%s: exit %d and %v left behind", what, res.Exit, temps)
	}
}

func genFaultCase(e *Env, c *Case, r *rand.Rand) *faultCase {
	f := &faultCase{files: map[string][]byte{}}
	m := genMulti(r, mwOpt{MaxLevels: 2, Size: 1, OnlyValid: r.Intn(3) > 0})
	f.in = oddBytes(r, m.Wad())
	f.args = wadArgs(r)
	if !has(f.args, "-d") {
		f.args = append(f.args, "-d")
	}
	if r.Intn(6) == 0 {
		f.args = append(f.args, "--hashlump")
	}
	if r.Intn(3) == 0 {
		for i, a := range f.args {
			if a == "-rz" || a == "-r-" {
				f.args[i] = "-rs=0"
			}
		}
		f.args = append(f.args, "-rm")
		rej := "EXCLUDE (0) (0)\n"
		if r.Intn(2) == 0 {
			rej = fmt.Sprintf("REPORT %d\n", r.Intn(3))
			if r.Intn(2) == 0 {
				rej += "BLIND 4 (0 1)\n"
			}
		}
		if r.Intn(4) == 0 {
			rej += "NOPROCESS other.wad\n"
			f.files["other.wad"] = f.in
			f.noproc = true
		}
		n := "in.rej"
		if r.Intn(3) == 0 {
			n = "in.REJ"
		}
		f.files[n] = []byte(rej)
	}
	f.inplace = r.Intn(3) > 0
	f.symlink = r.Intn(5) == 0
	f.existing = !f.inplace && r.Intn(2) == 0
	// what an undisturbed run writes to a separate file
	g := *f
	g.inplace, g.existing = false, false
	os.MkdirAll(c.Path("w"), 0755)
	g.setup(c.Path("w"))
	res := c.RunX(RunOpt{}, g.cmd()...)
	if res.Exit != 0 {
		e.Count("inputs without rebuildable level", 1)
		return nil
	}
	f.ref = readFile(c.Path("w/out.wad"))
	f.report = readFile(c.Path("w/in.rpt"))
	f.hasReport = len(f.report) > 0
	if !bytes.Equal(readFile(c.Path("w/in.wad")), f.in) {
		c.Violate("input", "undisturbed run changed its input although -o was given")
	}
	os.RemoveAll(c.Path("w"))
	return f
}

// faultRun performs one run under a plan and judges it.
func (f *faultCase) faultRun(c *Case, plan string, nocfr bool) ([]fop, *Result) {
	dir := c.Path("w")
	f.setup(dir)
	env := []string{"VH_FS_DIR=" + dir + "/", "VH_FS_LOG=" + c.Path("fs.log"), "VH_FS_PLAN=" + plan, "GOMAXPROCS=2"}
	if nocfr {
		env = append(env, "VH_FS_NOCFR=1")
	}
	os.Remove(c.Path("fs.log"))
	res := c.RunX(RunOpt{Bin: os.Getenv("VH_FAULTBIN"), Env: env, Timeout: 60 * time.Second}, f.cmd()...)
	ops := parseOps(readFile(c.Path("fs.log")))
	what := fmt.Sprintf("%s, options %v, no fault", f.mode(), f.args)
	var hit []string
	for _, o := range ops {
		if o.Act != '-' {
			hit = append(hit, o.String())
			if len(hit) > 3 {
				break
			}
		}
	}
	if len(hit) > 0 {
		what = fmt.Sprintf("%s, options %v, faults at %s of %d operations", f.mode(), f.args, strings.Join(hit, ", "), len(ops))
	}
	f.judge(c, dir, res, ops, what)
	os.RemoveAll(dir)
	if len(c.Log) > 3 {
		c.Log = c.Log[len(c.Log)-2:]
	}
	return ops, res
}

func chkFault(e *Env) {
	e.Level = "fault_enumeration"
	e.rule = "every file operation of a run (open, read, write, copy, seek, close, unlink, stat) failing with EIO/ENOSPC/EACCES, performed half, followed by a full disk, or the process killed there; plus real limits, permissions and colliding names"
	e.assume = []string{"operations happen at the granularity of system calls; the disk keeps what was written (process death, not power loss)"}
	if os.Getenv("VH_FAULTBIN") == "" {
		fmt.Fprintln(os.Stderr, "VH_FAULTBIN not set")
		os.Exit(2)
	}
	n := e.N(26, 400)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("fault", i)
		c := e.NewCase(fmt.Sprintf("fault %d", i))
		defer c.Done()
		f := genFaultCase(e, c, r)
		if f == nil {
			return
		}
		nocfr := r.Intn(2) == 0
		base, res := f.faultRun(c, "", nocfr)
		if res.Exit != 0 {
			return
		}
		if len(base) < 8 {
			fmt.Fprintln(os.Stderr, "fault build does not report file operations")
			os.Exit(2)
		}
		e.Max("largest number of operations in a run", len(base))
		e.Count("runs to completion with log", 1)
		try := func(plan string) {
			if e.TooMany() {
				return
			}
			ops, res := f.faultRun(c, plan, nocfr)
			e.Count("faulted runs", 1)
			for _, o := range ops {
				if o.Act != '-' {
					k := map[bool]string{true: "inplace", false: "separate"}[f.inplace]
					e.Eval(fmt.Sprintf("%s %c %c%d #%d", k, o.Kind, o.Act, o.Val, o.N))
					switch {
					case res.Exit < 0:
						e.Count("killed at an operation", 1)
					case res.Exit == 0:
						e.Count("faults survived with a correct result", 1)
					default:
						e.Count("faults reported as failure", 1)
					}
					break
				}
			}
		}
		for k := 1; k <= len(base)+1; k++ {
			acts := []string{"e5", "k0"}
			if k <= len(base) {
				switch base[k-1].Kind {
				case 'O':
					acts = []string{"e13", "e28", "k0"}
				case 'W', 'X':
					acts = []string{"e28", "e5", "h28", "S28", "H0", "k0", "s0"}
				case 'R':
					acts = []string{"e5", "s0", "k0"}
				case 'U':
					acts = []string{"e1", "k0"}
				}
			}
			for _, a := range acts {
				try(fmt.Sprintf("%d%s;", k, a))
			}
		}
		for k := e.N(25, 150); k > 0; k-- { // two or three faults
			p := ""
			at := 0
			for q := 2 + r.Intn(2); q > 0; q-- {
				at += 1 + r.Intn(len(base))
				if q == 1 && r.Intn(2) == 0 {
					at = len(base) - r.Intn(10)
				}
				p += fmt.Sprintf("%d%s;", at, pickS(r, []string{"e5", "e28", "e13", "h28", "S28", "k0", "H0", "s0"}))
				at %= len(base)
			}
			try(p)
		}
	})
	chkLimits(e)
	chkCollide(e)
}

// chkLimits: the plain build against the kernel's own limits and permissions.
func chkLimits(e *Env) {
	n := e.N(220, 3000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("limit", i)
		c := e.NewCase(fmt.Sprintf("limit %d", i))
		defer c.Done()
		f := genFaultCase(e, c, r)
		if f == nil {
			return
		}
		dir := c.Path("w")
		f.symlink = false
		f.setup(dir)
		o := RunOpt{Timeout: 60 * time.Second}
		what := ""
		args := f.cmd()
		mustFail := false
		nobody := &syscall.Credential{Uid: 65534, Gid: 65534}
		os.Chmod(c.Dir, 0755)
		switch k := r.Intn(9); k {
		case 0, 1, 2:
			lim := r.Intn(len(f.ref) + 20)
			if r.Intn(3) == 0 {
				lim = len(f.ref) - r.Intn(60)
			}
			if lim < 0 {
				lim = 0
			}
			o.Prefix = []string{"prlimit", fmt.Sprintf("--fsize=%d", lim), "--core=0"}
			what = fmt.Sprintf("file size limit %d of %d", lim, len(f.ref))
			mustFail = lim < len(f.ref)
		case 3:
			o.Cred = nobody
			os.Chmod(dir, 0555)
			os.Chmod(dir+"/in.wad", 0666)
			if f.existing {
				os.Chmod(dir+"/out.wad", 0666)
			}
			what, mustFail = "directory not writable", f.inplace || !f.existing
		case 4:
			o.Cred = nobody
			os.Chmod(dir, 0777)
			os.Chmod(dir+"/in.wad", 0444)
			if f.existing {
				os.Chmod(dir+"/out.wad", 0666)
			}
			what, mustFail = "input read-only", f.inplace
		case 5:
			o.Cred = nobody
			os.Chmod(dir, 0777)
			os.Chmod(dir+"/in.wad", 0)
			what, mustFail = "input unreadable", true
		case 6:
			f.inplace = false
			args = append(append([]string{}, f.args...), "w/in.wad", "-o", "w/nodir/out.wad")
			what, mustFail = "output directory missing", true
		case 7:
			f.inplace = false
			os.Remove(dir + "/out.wad")
			os.Mkdir(dir+"/out.wad", 0755)
			args = f.cmd()
			what, mustFail = "output is a directory", true
		case 8:
			f.inplace = false
			os.Remove(dir + "/out.wad")
			os.Symlink("/dev/full", dir+"/out.wad")
			args = f.cmd()
			what, mustFail = "output device full", true
		}
		before := readFile(dir + "/in.wad")
		res := c.RunX(o, args...)
		os.Chmod(dir, 0755)
		os.Chmod(dir+"/in.wad", 0644)
		e.Count("limit runs: "+strings.SplitN(what, " limit", 2)[0], 1)
		e.Eval("limit:" + what)
		what = fmt.Sprintf("%s, options %v, %s", f.mode(), f.args, what)
		if mustFail && res.Exit == 0 {
			c.Violate("false-success", "%s: status 0", what)
			return
		}
		in := readFile(dir + "/in.wad")
		if res.Timeout {
			c.Violate("hang", "%s: still running after the limit", what)
			return
		}
		if res.Exit < 0 {
			c.Violate("died", "%s: ended by signal %s", what, res.Sig)
			return
		}
		if res.Exit == 0 {
			want := f.in
			if f.inplace {
				want = f.ref
			} else if !bytes.Equal(readFile(dir+"/out.wad"), f.ref) {
				c.Violate("false-success", "%s: status 0 but wrong result", what)
			}
			if !bytes.Equal(in, want) {
				c.Violate("false-success", "%s: status 0 but wrong input file content", what)
			}
		} else {
			// a limit of exactly the result's size makes the kernel fail the copy
			// past its end; by then everything is there
			whole := f.inplace && bytes.Equal(in, f.ref)
			if !bytes.Equal(in, before) && !whole {
				c.Violate("input", "%s: failed with status %d and the input was changed", what, res.Exit)
			}
			if strings.TrimSpace(res.Out) == "" {
				c.Violate("silent", "%s: status %d without a message", what, res.Exit)
			}
		}
		m, _ := filepath.Glob(dir + "/tmp*")
		if len(m) > 0 && (res.Exit == 0 || bytes.Equal(in, before)) {
			c.Violate("temp", "%s: exit %d and %v left behind", what, res.Exit, m)
		}
		if res.Exit != 0 && !mustFail && !strings.Contains(what, "limit") && !f.hasReport {
			c.Violate("spurious", "%s: status %d: %s", what, res.Exit, tail(res.Out, 300))
		}
	})
}

// chkCollide: names under which output or report would land on the input.
func chkCollide(e *Env) {
	n := e.N(60, 600)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("collide", i)
		c := e.NewCase(fmt.Sprintf("collide %d", i))
		defer c.Done()
		m := genMulti(r, mwOpt{MaxLevels: 2, Size: 0, OnlyValid: true})
		in := m.Wad().Bytes()
		dir := c.Path("w")
		os.MkdirAll(dir+"/sub", 0755)
		name := "in.wad"
		out := ""
		what := ""
		switch k := r.Intn(8); k {
		case 0:
			out, what = "w/in.wad", "output is the input"
		case 1:
			out, what = "w/./sub/../in.wad", "output is the input by another path"
		case 2:
			os.Symlink("in.wad", dir+"/out.wad")
			out, what = "w/out.wad", "output links to the input"
		case 3:
			os.WriteFile(dir+"/"+name, in, 0644)
			os.Link(dir+"/in.wad", dir+"/out.wad")
			out, what = "w/out.wad", "output is a hard link to the input"
		case 4:
			out, what = dir+"/in.wad", "output is the input by absolute path"
		case 5:
			os.Symlink(".", dir+"/loop")
			out, what = "w/loop/in.wad", "output is the input through a linked directory"
		case 6, 7:
			name = "in.rpt"
			out = "w/out.wad"
			if r.Intn(4) == 0 {
				os.WriteFile(dir+"/real.wad", in, 0644)
				os.Symlink("real.wad", dir+"/in.rpt")
			}
			os.WriteFile(dir+"/in.rej", []byte("REPORT 0\n"), 0644)
			what = "input has the name of the report file"
			if k == 7 {
				name = "in.wad"
				os.Remove(dir + "/in.rpt")
				os.Symlink("in.wad", dir+"/in.rpt")
				what = "report file links to the input"
			}
		}
		if _, err := os.Lstat(dir + "/" + name); err != nil {
			os.WriteFile(dir+"/"+name, in, 0644)
		}
		o := RunOpt{}
		if r.Intn(7) == 0 { // relative output name, current directory gone
			name, out, what = "in.wad", "out.wad", "current directory is gone"
			os.RemoveAll(dir)
			os.MkdirAll(dir+"/sub", 0755)
			os.WriteFile(dir+"/in.wad", in, 0644)
			o.Prefix = []string{"sh", "-c", `cd w/sub && rmdir ../sub && exec "$0" "$@"`}
			res := c.RunX(o, "-d", dir+"/in.wad", "-o", out)
			e.Count("collision runs", 1)
			e.Eval("collide:" + what)
			if res.Exit == 0 || !bytes.Equal(readFile(dir+"/"+name), in) {
				c.Violate("collide", "%s: status %d, input intact: %v", what, res.Exit, bytes.Equal(readFile(dir+"/"+name), in))
			}
			return
		}
		res := c.RunX(o, "-rm", "-d", "w/"+name, "-o", out)
		e.Count("collision runs", 1)
		e.Eval("collide:" + what)
		if !bytes.Equal(readFile(dir+"/"+name), in) {
			c.Violate("collide", "%s: the input file was changed (exit %d)", what, res.Exit)
		}
		if out != "w/out.wad" || what != "input has the name of the report file" && what != "report file links to the input" {
			if res.Exit == 0 {
				c.Violate("collide", "%s: status 0", what)
			}
		}
	})
}
