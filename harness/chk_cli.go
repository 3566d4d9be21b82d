package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

func init() { checks["C21"] = chkCli }

// ---- hostile argument lists

var cliOdd = []string{"", "=", "+", "-", "=0", "=1", "=2", "=3", "=4", "=5", "=9", "=-1", "=+1", "=99999999999999999999", "=32767", "=32768", "=65535", "=65536", "=65537", "=2147483647", "=2147483648", "=9223372036854775807", "=x", "=1x", "=0x1", "=,", "=1,", "=,1", "=1,2", "=8,8", "=127,3", "=300,300", "=32767,32767", "=65536,65537", "=99999,1", "=1,99999", "=40000,40000", "?", "??", "+?", "=?", "=v", "=V", "=d", "=D", "=X", "=Z", "=z", "=z0", "=z1", "=z9", "=z10", "=z-1", "=z-2", "=z-3", "=z+", "=z-", "=Z-", "=Z9", "=q", " ", "\x00", "é", "=%s", "%d"}

var cliLong = []string{"--cpuprofile", "--memprofile", "--unreversenodes", "--disableudmf", "--detailnodes", "--sidecache", "--zenvar", "--zenvar:", "--stknode", "--hashlump", "--eject", "--ableist", "--nosymm", "--speedtree", "--roots", "--", "--help", "--version", "--zenvar:x1=", "--zenvar:y1=5,", "--zenvar:\"\"", "--zenvar:''", "--zenvar:\"x1=2\"", "--zenvar:x1=0", "--zenvar:x1=0,x2=0,x3=0,x4=0", "--zenvar:y1=0,y2=0,y3=0,y4=0", "--zenvar:x1=-99999999,y4=99999999", "--zenvar:x4=1=2", "--zenvar: X1 = 3 , y2 = 7", "--zenvar:x1=9223372036854775807,y1=9223372036854775807"}

func cliToken(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return pickS(r, []string{"", "-", "--", "-o", "-o", "-d", "-d+", "-d-", "-dx", "-v", "-vv", "-vx", "-v=1", "-x", "-h", "-?", "-!", "-!m", "-!x", "-out", "-o=out.wad", "-oout.wad"})
	case 1:
		return pickS(r, []string{"-m", "-!m", "-m:", "-!m:"}) + pickS(r, []string{"", "MAP01", "map01", "MAP01+MAP02", "MAP01+", "+MAP01", "MAP01++MAP02", "+", "E1M1", "e1m10", "MAP1", "FOO", "MAP99", "MAP01+MAP01", "MAP01,MAP02", ":MAP01", "m\xc4p01"})
	case 2, 3:
		s := pickS(r, cliLong)
		if r.Intn(2) == 0 {
			s += pickS(r, cliOdd)
		}
		return s
	}
	s := pickS(r, []string{"-b", "-n", "-r"})
	if r.Intn(8) == 0 {
		return s + pickS(r, cliOdd)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		s += pickS(r, strings.Split(map[string]string{"-b": "o s a z t e r x", "-n": "a p i c f d m t w r x c c", "-r": "z g s m x"}[s[:2]], " "))
		s += pickS(r, cliOdd)
	}
	if r.Intn(15) == 0 {
		s = s[:1+r.Intn(len(s)-1)]
	}
	return s
}

// cliSmall is a map that every mode builds fast.
func cliSmall(r *rand.Rand, name string) *Level {
	for k := 0; ; k++ {
		lv := Gen(r, name, RandOpt(r, 1+r.Intn(2)))
		if len(lv.Lines) < 150 || k > 50 {
			return lv
		}
	}
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		if fi, err := en.Info(); err == nil && fi.Mode().IsRegular() {
			m[en.Name()] = string(readFile(dir + "/" + en.Name()))
		} else {
			m[en.Name()] = "dir"
		}
	}
	return m
}

func changed(a, b map[string]string) []string {
	var l []string
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			l = append(l, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

const cliUsage = "Usage: vigilantbsp"

func cliHostile(e *Env, i int) {
	r := e.Rand("cli", i)
	c := e.NewCase(fmt.Sprintf("cli %d", i))
	defer c.Done()
	w := &Wad{}
	cliSmall(r, "MAP01").AddTo(w)
	if r.Intn(2) == 0 {
		cliSmall(r, "MAP02").AddTo(w)
	}
	in := w.Bytes()
	c.Write("in.wad", in)
	c.Write("other.wad", in)
	c.Write("in.rej", []byte("REPORT 1\n"))
	var args []string
	for k := 1 + r.Intn(4); k > 0; k-- {
		args = append(args, cliToken(r))
	}
	ins := func(a ...string) {
		at := r.Intn(len(args) + 1)
		args = append(args[:at:at], append(a, args[at:]...)...)
	}
	if r.Intn(12) > 0 {
		ins("in.wad")
	}
	if r.Intn(25) == 0 {
		ins(pickS(r, []string{"other.wad", "nothere.wad", "", ".", "/dev/null"}))
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		ins("-o", "")
	case 2:
		args = append(args, "-o")
	default:
		ins("-o", "out.wad")
	}
	if r.Intn(20) == 0 {
		ins(pickS(r, []string{"--cpuprofile", "--memprofile"}), "prof")
	}
	for k := range args { // no argument can hold a zero byte
		args[k] = strings.ReplaceAll(args[k], "\x00", "")
	}
	before := snapshot(c.Dir)
	res := c.RunX(limited(RunOpt{Timeout: 100 * time.Second}), args...)
	after := snapshot(c.Dir)
	say := fmt.Sprintf("arguments %q: ", args)
	e.Eval(strings.Join(args, " "))
	e.Sample(args)
	if res.Timeout {
		c.Violate("timeout", "%sstill running after the limit", say)
		return
	}
	if res.Crashed() {
		c.Violate(crashSig(res.Out), "%scrashed (exit %d %s): %s", say, res.Exit, res.Sig, crashHead(res.Out))
		return
	}
	if j := strings.Index(res.Out, "%!"); j >= 0 && !strings.Contains(say, "%") {
		c.Violate("garbled", "%sgarbled message: %q", say, res.Out[max(0, j-100):min(len(res.Out), j+60)])
	}
	if res.Exit != 0 && res.Exit != 1 {
		c.Violate("status", "%sstatus %d", say, res.Exit)
	}
	// what the list names: the first plain argument is the input, the word
	// after -o the output, the word after a profile option its file
	clean := func(a string) string { return strings.TrimPrefix(a, "./") }
	var inputs []string
	outNamed, out := false, ""
	mayReport := false
	for k := 0; k < len(args); k++ {
		a := args[k]
		switch {
		case a == "--cpuprofile" || a == "--memprofile":
			if k++; k < len(args) {
				delete(before, args[k])
				delete(after, args[k])
			}
		case a == "-o":
			outNamed = true
			if k++; k < len(args) {
				out = clean(args[k])
			}
		case strings.HasPrefix(a, "-r") && strings.Contains(a, "m"):
			mayReport = true
		case a != "" && !strings.HasPrefix(a, "-"):
			inputs = append(inputs, clean(a))
		}
	}
	target := out
	if !outNamed && len(inputs) == 1 {
		target = inputs[0]
	}
	for _, f := range changed(before, after) {
		switch {
		case mayReport && (f == "in.rpt" || f == "other.rpt"):
		case f == target && (outNamed || res.Exit == 0):
		case f == target, len(inputs) > 0 && f == inputs[0]:
			c.Violate("input", "%sexit %d, the input file was changed", say, res.Exit)
		default:
			c.Violate("stranger", "%sexit %d, file %s was created or changed although nobody named it as output", say, res.Exit, f)
		}
	}
	usage := strings.Contains(res.Out, cliUsage)
	switch {
	case res.Exit != 0:
		e.Count("refused", 1)
		j := strings.Index(res.Out, "General Public License")
		if j < 0 || len(strings.TrimSpace(res.Out[j+len("General Public License v2."):])) == 0 {
			c.Violate("silent", "%sexit %d without a message: %q", say, res.Exit, tail(res.Out, 200))
		}
	case usage:
		e.Count("usage shown", 1)
		if ch := changed(before, after); len(ch) > 0 {
			c.Violate("stranger", "%sonly the usage was shown but %v changed", say, ch)
		}
	default:
		e.Count("built", 1)
		if !strings.Contains(res.Out, "successfully written") {
			c.Violate("silent", "%sexit 0 without building or showing the usage", say)
			return
		}
		f := target
		if _, ok := after[f]; !ok {
			f = ""
		}
		if f == "" {
			return // named something outside the directory
		}
		o, err := ParseWad([]byte(after[f]))
		if err != nil {
			c.Violate("wad", "%sstatus 0 but %s is no valid WAD: %v", say, f, err)
			return
		}
		if st, _ := o.FindLevel("MAP01"); st < 0 && !strings.Contains(say, "m:") {
			c.Violate("wad", "%sstatus 0 but MAP01 is gone", say)
		}
	}
}

// ---- argument lists that must be refused

func cliRefused(e *Env, i int) {
	r := e.Rand("clibad", i)
	c := e.NewCase(fmt.Sprintf("clibad %d", i))
	defer c.Done()
	w := &Wad{}
	cliSmall(r, "MAP01").AddTo(w)
	in := w.Bytes()
	c.Write("in.wad", in)
	c.Write("other.wad", in)
	args := cliModel(r).render(r)
	bad := [][]string{{"-x"}, {"-1"}, {"-?"}, {"-X=1"}, {"-!x"}, {"-!"}, {"-!b"}, {"-out"}, {"-oout.wad"}, {"-o=out.wad"}, {"--foo"}, {"--help"}, {"--"}, {"--eject2"}, {"--hashlumps"}, {"-m"}, {"-!m"}, {"-mMAP01"}, {"-m:FOO"}, {"-m:MAP1"}, {"-m:MAP01+"}, {"-m:+MAP01"}, {"-m:MAP01++MAP02"}, {"-!m:FOO"}, {"-m:MAP01", "-m:MAP01"}, {"-!m:MAP02", "-m:MAP01"}, {"-m:MAP01", "-!m:MAP02"}, {"--zenvar"}, {"--zenvar:"}, {"--zenvar:q1=2"}, {"--zenvar:x1"}, {"--zenvar:x1=a"}, {"--zenvar=x1=1"}, {"--detailnodes=4"}, {"--sidecache=9"}, {"--stknode=2"}, {"--speedtree=7"}, {"other.wad"}, {"-o", "a.wad", "-o", "b.wad"}}
	b := bad[r.Intn(len(bad))]
	last := [][]string{{"-o"}, {"--cpuprofile"}, {"--memprofile"}, {"-o", ""}, {"--cpuprofile", ""}, {"--memprofile", ""}}
	out := r.Intn(2) == 0
	all := append(append([]string{}, args...), "in.wad")
	if out && b[0] != "-o" {
		all = append(all, "-o", "out.wad")
	}
	if r.Intn(5) == 0 {
		b = last[r.Intn(len(last))]
		if b[0] == "-o" && out {
			all = all[:len(all)-2]
		}
		all = append(all, b...)
	} else if r.Intn(20) == 0 && !out {
		b = []string{"--eject"}
		all = append(all, b...)
	} else {
		at := r.Intn(len(args) + 2)
		all = append(all[:at:at], append(append([]string{}, b...), all[at:]...)...)
	}
	before := snapshot(c.Dir)
	res := c.RunX(limited(RunOpt{Timeout: 100 * time.Second}), all...)
	after := snapshot(c.Dir)
	e.Eval(strings.Join(all, " "))
	e.Count("faulty lists", 1)
	say := fmt.Sprintf("arguments %q: ", all)
	if res.Crashed() {
		c.Violate(crashSig(res.Out), "%scrashed (exit %d %s): %s", say, res.Exit, res.Sig, crashHead(res.Out))
		return
	}
	if res.Exit != 1 {
		c.Violate("accepted", "%s%q was accepted (exit %d)", say, b, res.Exit)
	} else if j := strings.Index(res.Out, "General Public License v2."); j < 0 || len(strings.TrimSpace(res.Out[j+26:])) == 0 {
		c.Violate("silent", "%srefused without a message", say)
	}
	if ch := changed(before, after); len(ch) > 0 {
		c.Violate("stranger", "%srefused but %v changed", say, ch)
	}
}

// ---- spellings that mean the same

type cliSub struct {
	g    byte // b n r
	k    byte
	v    string   // value, canonical spelling included
	alt  []string // all spellings
	def  bool
	over []string // spellings of other values that may come before
}
type cliSet struct {
	off  [3]bool // b n r
	sub  []cliSub
	long [][]string // every entry: spellings; "" = leave out
	maps []string   // build only these, nil = all
	rest []string   // complement of maps
}

func cliModel(r *rand.Rand) *cliSet {
	s := &cliSet{}
	for k := range s.off {
		s.off[k] = r.Intn(6) == 0
	}
	add := func(g, k byte, d int, vals [][]string) int {
		v := d
		if r.Intn(3) == 0 {
			v = r.Intn(len(vals))
		}
		var over []string
		for j, a := range vals {
			if j != v {
				over = append(over, a[0])
			}
		}
		s.sub = append(s.sub, cliSub{g: g, k: k, v: vals[v][0], alt: vals[v], def: v == d, over: over})
		return v
	}
	noOver := func() { s.sub[len(s.sub)-1].over = nil }
	o := [][]string{{"o=0", "o=0,0", "o-"}, {"o=1", "o=8,8"}, {"o=2", "o+", "o"}, {fmt.Sprintf("o=%d,%d", r.Intn(128), r.Intn(128))}}
	if r.Intn(20) == 0 {
		o = append(o, []string{"o=3"})
	}
	add('b', 'o', 2, o)
	switch r.Intn(8) {
	case 0:
		add('b', 's', 1, [][]string{{"s", "s+"}, {"s-"}})
		noOver()
	case 1:
		s.sub = append(s.sub, cliSub{g: 'b', k: 'a', alt: []string{"a", "a+", "as", "sa", "s-a", "s+a+"}})
	case 2:
		s.sub = append(s.sub, cliSub{g: 'b', k: 's', alt: []string{"s?"}})
	case 3:
		s.sub = append(s.sub, cliSub{g: 'b', k: 'a', alt: []string{"a?"}})
	}
	add('b', 'z', 1, [][]string{{"z=0", "z-"}, {"z=1", "z+", "z"}, {"z=2"}})
	add('b', 'e', 0, [][]string{{"e=0", "e-"}, {"e=1", "e+", "e"}, {"e=2"}})
	add('b', 'r', 1, [][]string{{"r", "r+"}, {"r-"}})
	s.sub = append(s.sub, cliSub{g: 'b', k: 't', alt: []string{"t=1", "t=2", "t=7", "t-", "t+", "t=0", "t"}, def: true})
	a := add('n', 'a', 0, [][]string{{"a=0"}, {"a=1"}, {"a=2"}, {"a=3"}, {"a=4"}})
	p := 0
	if a == 4 {
		p = 2
	}
	add('n', 'p', p, [][]string{{"p=0"}, {"p=1"}, {"p=2"}})
	add('n', 'i', 0, [][]string{{"i=0", "i-"}, {"i=1"}, {"i=2", "i+", "i"}})
	z := r.Intn(10)
	add('n', 'c', 0, [][]string{{"c=v", "c=V"}, {"c=d"}, {"c=x"}})
	switch z {
	case 0:
		s.sub[len(s.sub)-1] = cliSub{g: 'n', k: 'c', alt: []string{"c=z", "c=z6"}, over: []string{"c=v", "c=d", "c=x"}}
	case 1:
		d := fmt.Sprint(1 + r.Intn(9))
		s.sub[len(s.sub)-1] = cliSub{g: 'n', k: 'c', alt: []string{"c=z" + d}, over: []string{"c=v", "c=d", "c=x"}}
	case 2:
		s.sub[len(s.sub)-1].alt = nil
		s.sub[len(s.sub)-1] = cliSub{g: 'n', k: 'c', alt: []string{"c=v", "c=V", "c=D", "c=X", "c=Z", "c=Z3"}, over: []string{"c=d", "c=x", "c=z"}, def: true}
	}
	add('n', 'f', 0, [][]string{{"f=17"}, {"f=5"}, {"f=30"}})
	if r.Intn(4) == 0 {
		add('n', 'm', 0, [][]string{{"m=0", "m-"}, {"m=1"}, {"m=2"}, {"m=3"}})
	}
	s.sub = append(s.sub, cliSub{g: 'n', k: 't', alt: []string{"t=1", "t=2", "t=3", "t-", "t+", "t=0", "t"}, def: true})
	add('r', 'z', 1, [][]string{{"z", "z+"}, {"z-"}})
	add('r', 'g', 0, [][]string{{"g", "g+"}, {"g-"}})
	add('r', 's', 0, [][]string{{"s=0", "s-"}, {"s=1", "s+", "s"}, {"s=2"}, {"s=3"}})
	add('r', 'm', 1, [][]string{{"m", "m+"}, {"m-"}})
	dn := r.Intn(8)
	switch dn {
	case 0:
		s.long = append(s.long, []string{"--detailnodes=1", "--detailnodes-"})
	case 1:
		s.long = append(s.long, []string{"--detailnodes=2", "--detailnodes+", "--detailnodes"})
	case 2:
		s.long = append(s.long, []string{"--detailnodes=3"})
	default:
		s.long = append(s.long, []string{"", "", "--detailnodes=0"})
	}
	if r.Intn(8) == 0 {
		s.long = append(s.long, []string{"--stknode", "--stknode=1", "--stknode+"})
	} else {
		s.long = append(s.long, []string{"", "", "", "--stknode=0", "--stknode-"})
	}
	if r.Intn(8) == 0 {
		s.long = append(s.long, []string{"--unreversenodes"})
	}
	if r.Intn(8) == 0 {
		s.long = append(s.long, []string{"--zenvar:x1=10,y2=3", "--zenvar:y2=3,x1=10", "--zenvar:X1=10,Y2=3", "--zenvar: x1 = 10 , y2 = 3"})
	}
	s.long = append(s.long, []string{"", "--sidecache", "--sidecache=0", "--sidecache=1", "--sidecache-"}, []string{"", "", "--hashlump"}, []string{"", "", "-v", "-vv"}, []string{"", "", "--speedtree", "--speedtree=0"}, []string{"-d", "-d", "-d+"})
	return s
}

func (s *cliSet) render(r *rand.Rand) []string {
	var args []string
	for gi, g := range []byte{'b', 'n', 'r'} {
		if s.off[gi] {
			if r.Intn(5) == 0 {
				args = append(args, "-"+string(g))
			}
			args = append(args, "-"+string(g)+"-")
			continue
		}
		var toks []string
		for _, x := range s.sub {
			if x.g != g || x.def && r.Intn(3) > 0 {
				continue
			}
			t := x.alt[r.Intn(len(x.alt))]
			if len(x.over) > 0 && r.Intn(6) == 0 {
				t = pickS(r, x.over) + " " + t
			}
			toks = append(toks, t)
		}
		r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
		toks = strings.Fields(strings.Join(toks, " "))
		cur := "-" + string(g)
		var l []string
		if r.Intn(8) == 0 {
			l = append(l, cur+"-")
			if len(toks) == 0 || r.Intn(2) == 0 {
				l = append(l, cur+pickS(r, []string{"", "+"}))
			}
		}
		for k, t := range toks {
			if k == 0 && r.Intn(6) == 0 {
				cur += "+"
			}
			cur += t
			if r.Intn(3) == 0 || k == len(toks)-1 {
				l = append(l, cur)
				cur = "-" + string(g)
			}
		}
		args = append(args, l...)
		if len(args) > 0 && r.Intn(2) == 0 && len(args) > len(l) {
			// another group first: order between groups is free
			args = append(append([]string{}, l...), args[:len(args)-len(l)]...)
		}
	}
	for _, l := range s.long {
		if t := pickS(r, l); t != "" {
			at := r.Intn(len(args) + 1)
			args = append(args[:at:at], append([]string{t}, args[at:]...)...)
		}
	}
	if s.maps != nil {
		m := append([]string{}, s.maps...)
		t := "-m:"
		if len(s.rest) > 0 && r.Intn(2) == 0 {
			m, t = append([]string{}, s.rest...), "-!m:"
		}
		r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		for k := range m {
			if r.Intn(2) == 0 {
				m[k] = strings.ToLower(m[k])
			}
		}
		at := r.Intn(len(args) + 1)
		args = append(args[:at:at], append([]string{t + strings.Join(m, "+")}, args[at:]...)...)
	}
	return args
}

func cliSame(e *Env, i int) {
	r := e.Rand("clisame", i)
	c := e.NewCase(fmt.Sprintf("clisame %d", i))
	defer c.Done()
	s := cliModel(r)
	w := &Wad{}
	names := []string{"MAP01", "MAP02", "MAP03"}
	if r.Intn(3) == 0 {
		names = []string{"E1M1", "E2M4", "E1M12"}
	}
	names = names[:1+r.Intn(3)]
	slow := false
	for _, x := range s.sub {
		slow = slow || x.k == 'm' && x.g == 'n' || x.v == "o=3"
	}
	for _, n := range names {
		lv, _ := planarMap(r, 3)
		lv.Name = n
		if slow || r.Intn(2) == 0 {
			lv = cliSmall(r, n)
		}
		lv.AddTo(w)
	}
	if r.Intn(3) == 0 {
		for _, n := range names {
			if r.Intn(2) == 0 {
				s.maps = append(s.maps, n)
			} else {
				s.rest = append(s.rest, n)
			}
		}
		if len(s.maps) == 0 {
			s.maps, s.rest = s.rest, nil
		}
	}
	c.Write("in.wad", w.Bytes())
	c.Write("in.rej", []byte("EXCLUDE (0 1) (0)\nBLIND 1 2\n"))
	var ref *Built
	var refArgs []string
	for k := 0; k < 3; k++ {
		a := s.render(r)
		out := fmt.Sprintf("o%d.wad", k)
		full := append([]string{}, a...)
		// the input and the output can stand anywhere
		at := r.Intn(len(full) + 1)
		full = append(full[:at:at], append([]string{pickS(r, []string{"in.wad", "./in.wad", c.Path("in.wad")})}, full[at:]...)...)
		at = r.Intn(len(full) + 1)
		full = append(full[:at:at], append([]string{"-o", out}, full[at:]...)...)
		res := c.RunX(limited(RunOpt{Timeout: 100 * time.Second}), full...)
		say := fmt.Sprintf("arguments %q: ", full)
		if res.Crashed() || res.Timeout {
			c.Violate(crashSig(res.Out), "%scrashed (exit %d %s): %s", say, res.Exit, res.Sig, crashHead(res.Out))
			return
		}
		if res.Exit != 0 {
			c.Violate("refused", "%srefused: %s", say, tail(res.Out, 300))
			return
		}
		raw := readFile(c.Path(out))
		o, err := ParseWad(raw)
		if err != nil {
			c.Violate("wad", "%s%v", say, err)
			return
		}
		e.Eval(strings.Join(full, " "))
		if ref == nil {
			ref, refArgs = &Built{Wad: o, Raw: raw}, full
			// builders switched off leave their lumps alone
			for _, n := range names {
				for gi, l := range [][]string{{"BLOCKMAP"}, {"SEGS", "SSECTORS", "NODES"}, {"REJECT"}} {
					for _, x := range l {
						p, ok := w.LevelLump(n, x)
						q, ok2 := o.LevelLump(n, x)
						if s.off[gi] && ok && ok2 && !bytes.Equal(p, q) {
							c.Violate("off", "%sswitched off but %s of %s changed", say, x, n)
						}
					}
				}
			}
			continue
		}
		e.Count("spellings compared", 1)
		if !bytes.Equal(raw, ref.Raw) {
			what := "layout"
			for j := range o.Lumps {
				if j < len(ref.Wad.Lumps) && !bytes.Equal(o.Lumps[j].Data, ref.Wad.Lumps[j].Data) {
					what = o.Lumps[j].Name
					break
				}
			}
			c.Violate("meaning", "%q\nand %q\nmean the same but give different output (%s)", refArgs, full, what)
			return
		}
	}
}

func chkCli(e *Env) {
	e.rule = "one evaluation = one argument list, judged by exit status, messages and the files it touched; spellings that mean the same are judged by byte equality of the output"
	n := e.N(3000, 40000)
	Parallel(n, 0, func(i int) {
		if !e.TooMany() {
			cliHostile(e, i)
		}
	})
	n = e.N(1500, 15000)
	Parallel(n, 0, func(i int) {
		if !e.TooMany() {
			cliRefused(e, i)
		}
	})
	n = e.N(700, 9000)
	Parallel(n, 0, func(i int) {
		if !e.TooMany() {
			cliSame(e, i)
		}
	})
}
