package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

func init() { checks["C22"] = chkRmbFuzz }

const rmbSyntaxMsg = "RMB options file contains syntax errors"

// deliberateStop: the run ended the way the program announces a faulty modifier
// file (it prints a message and a stack).
func deliberateStop(out string) bool {
	i := strings.Index(out, "panic:")
	if i < 0 || strings.Contains(out, "runtime error") || strings.Contains(out, "fatal error:") {
		return false
	}
	return strings.Contains(head(out[i:], 400), rmbSyntaxMsg)
}

var rmbWords = []string{"ASSERT", "BAND", "BLIND", "BLOCK", "DISTANCE", "DOOR", "E1M1", "MAP01", "MAP 01", "MAP E1M1", "MAP", "EXCLUDE", "GROUP", "INCLUDE", "INVERT", "LEFT", "LENGTH", "LINE", "NODOOR", "NOMAP", "NOPROCESS", "ONE", "PERFECT", "PREPROCESS", "PROCESS", "REPORT", "RIGHT", "SAFE", "TRACE", "VORTEX", "B", "L", "INV", "E", "M", "P", "MAP1", "MAP001", "E0M1", "E1M", "E1M123", "#", "INVERT BAND", "INV BLIND"}

func rmbOddNumber(r *rand.Rand, n int) string {
	switch r.Intn(14) {
	case 0:
		return fmt.Sprint(-1 - r.Intn(3))
	case 1:
		return fmt.Sprint(n)
	case 2:
		return fmt.Sprint(n + r.Intn(5))
	case 3:
		return pickS(r, []string{"65535", "65536", "32767", "32768", "65534", "70000"})
	case 4:
		return pickS(r, []string{"2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808"})
	case 5:
		return "99999999999999999999999"
	case 6:
		return pickS(r, []string{"x", "1x", "0x10", "1.5", "1e3", "--1", "+1", "١", "1_0", "", "%d", "%s%s%n", "\x00", "1\x00"})
	case 7:
		return pickS(r, []string{"(", ")", "()", "( )", "(0", "0)", "(,)", "(0,,1)", "(0,)", ",", "((0))", "(0)(1)"})
	case 8:
		return fmt.Sprintf("(%d %d)", r.Intn(n), n+r.Intn(3))
	case 9:
		return fmt.Sprintf("(%d,%d)", r.Intn(n), -1)
	}
	return fmt.Sprint(r.Intn(n))
}

// rmbMutate damages a program at the level of lines and words.
func rmbMutate(r *rand.Rand, text string, n int) string {
	for k := 1 + r.Intn(4); k > 0; k-- {
		lines := strings.SplitAfter(text, "\n")
		i := r.Intn(len(lines))
		words := strings.Fields(lines[i])
		switch r.Intn(12) {
		case 0:
			if len(words) > 0 {
				words[r.Intn(len(words))] = rmbOddNumber(r, n)
			}
			lines[i] = strings.Join(words, " ") + "\n"
		case 1:
			if len(words) > 0 {
				j := r.Intn(len(words))
				words = append(words[:j:j], words[j+1:]...)
			}
			lines[i] = strings.Join(words, " ") + "\n"
		case 2:
			words = append(words, rmbOddNumber(r, n))
			lines[i] = strings.Join(words, " ") + "\n"
		case 3:
			lines[i] = pickS(r, rmbWords) + " " + lines[i]
		case 4:
			l := pickS(r, rmbWords)
			for q := r.Intn(4); q > 0; q-- {
				l += " " + rmbOddNumber(r, n)
			}
			lines[i] = lines[i] + "\n" + l + "\n"
		case 5:
			lines[i] += lines[r.Intn(len(lines))]
		case 6: // bytes
			b := []byte(lines[i])
			for q := 1 + r.Intn(3); q > 0 && len(b) > 0; q-- {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
			lines[i] = string(b)
		case 7:
			lines[i] = strings.ReplaceAll(lines[i], " ", pickS(r, []string{"", "\t", "\u00a0", "\x00", "\v", "  "}))
		case 8:
			lines[i] = "\n" + pickS(r, []string{"INVERT", "INVERT # x", "INV ", "BAND", "BAND BLIND", "NOPROCESS", "NOPROCESS in.wad", "NOPROCESS nothere.wad MAP01", "NOPROCESS \"in.wad", "NOPROCESS in.wad MAP01 x", "NOPROCESS in.rej", "NOPROCESS w", "NOPROCESS .", "NOPROCESS in.wad THINGS", "MAP", "MAP \"\"", "PERFECT 1", "PERFECT", "NOMAP", "\xef\xbb\xbfBLIND 1 0", "ınvert blind 1 0", "ſAFE 0 1"}) + "\n" + lines[i]
		case 9:
			lines[i] = strings.ToUpper(lines[i]) + strings.Repeat(pickS(r, rmbWords)+" 0 1\n", 1+r.Intn(3))
		case 10:
			lines[i] = fmt.Sprintf("GROUP %s %s\n", rmbOddNumber(r, n), rmbOddNumber(r, n)) + lines[i]
		case 11:
			if r.Intn(8) == 0 {
				lines[i] = strings.Repeat(pickS(r, []string{"0 ", "(", "x", "BLIND "}), 20000+r.Intn(30000)) + "\n"
			} else {
				lines[i] = pickS(r, []string{"LENGTH", "LINE", "DISTANCE", "REPORT", "BLIND", "SAFE", "VORTEX", "INCLUDE", "EXCLUDE", "ASSERT"}) + " " + rmbOddNumber(r, n) + " " + rmbOddNumber(r, n) + "\n" + lines[i]
			}
		}
		text = strings.Join(lines, "")
	}
	return text
}

// rmbFaulty yields a line the manual leaves no reading for.
func rmbFaulty(r *rand.Rand) string {
	return pickS(r, []string{
		"FOO 1", "BLINDX 1 0", "B 1 0", "BL 1 0", "L 1", "P 1", "LE 1", // unknown or ambiguous
		"BLIND", "BLIND 1", "SAFE 2", "INCLUDE", "INCLUDE 1", "EXCLUDE (0 1)", "LENGTH", "LINE", "DISTANCE", "REPORT", "GROUP", "GROUP 1", "VORTEX (0)", // missing
		"LENGTH 1 2", "LINE 0 1", "REPORT 1 1", "DISTANCE 3 4", "EXCLUDE (0) (1) (2)", "EXCLUDE (0) (1) 2", "BLIND 1 (0 1) 2", "PERFECT 1", // too many
		"LENGTH x", "LINE 1.5", "BLIND one (0)", "BLIND 1 x", "EXCLUDE (0 x) (1)", "EXCLUDE (0) (y)", "REPORT 99999999999999999999", "SAFE 0x1 (0)", // no numbers
		"EXCLUDE (0 1 (2)", "EXCLUDE (0 1", "BLIND 1 0 1)", "BLIND 1 (0", "EXCLUDE 0) 1", // brackets
		"INVERT LENGTH 3", "INVERT EXCLUDE 0 1", "INVERT", "INVERT # BLIND 1 0", "INV FOO", "INVERT INVERT BLIND 1 0", // INVERT
		"BAND LENGTH 1 2 0", "BAND", "BAND BLIND 1 0", "BAND 1 2 (0)", // BAND
		"MAP", "MAP01 3", "E1M1 x", "MAP E1M1 x", "MAPXX",
		"NOPROCESS a.wad MAP01 third",
	})
}

func chkRmbFuzz(e *Env) {
	e.rule = "one evaluation = one modifier file (damaged program, one faulty line in a sound program, random bytes, extreme sizes) applied to a WAD and judged by exit status, messages and comparison with the run without it"
	e.assume = []string{"a file with syntax errors may end the run (the program stops with a message and a stack dump on purpose); anything else that dumps a stack is a crash"}
	n := e.N(6500, 100000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("rmbfuzz", i)
		c := e.NewCase(fmt.Sprintf("rmbfuzz %d", i))
		defer c.Done()
		w := &Wad{}
		names := rmbNames(r)
		var minN = 1 << 30
		g := &rmbGen{r: r, merged: map[int]bool{}, reps: map[int]bool{}, vortex: true, badName: r.Intn(2) == 0}
		for _, nm := range names {
			lv, _ := rmbMap(r, nm)
			lv.AddTo(w)
			minN = min(minN, len(lv.Sects))
			if g.lines == nil {
				g.lines = borders(lv)
			}
		}
		g.n = minN
		if r.Intn(3) == 0 {
			w.Lumps = append(w.Lumps, Lump{Name: "AFTER", Data: rndBytes(r, 50)})
		}
		p := &rmbProg{Global: g.cmds(r.Intn(4))}
		for _, nm := range names {
			if r.Intn(2) == 0 {
				p.Sects = append(p.Sects, rmbSect{nm, g.cmds(r.Intn(4))})
			}
		}
		text := p.Render(r)
		kind := "mutated"
		faultyLine := 0
		switch k := r.Intn(12); {
		case k < 6:
			text = rmbMutate(r, text, minN)
		case k < 9:
			kind = "faulty line"
			f := rmbFaulty(r)
			lines := strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
			if text == "" {
				lines = nil
			}
			at := r.Intn(len(lines) + 1)
			lines = append(lines[:at:at], append([]string{f}, lines[at:]...)...)
			faultyLine = at + 1
			nl := pickS(r, []string{"\n", "\r\n"})
			text = strings.Join(lines, nl)
			kind += ": " + f
		case k == 9:
			kind = "bytes"
			b := rndBytes(r, r.Intn(300))
			if r.Intn(2) == 0 {
				for j := range b {
					b[j] = " \n\r\t#()0123,-BLINDSAFEGROUPINVERTMAPXLUCHTOWSD"[int(b[j])%46]
				}
			}
			text = string(b)
		case k == 10:
			kind = "size"
			switch r.Intn(4) {
			case 0:
				text = strings.Repeat("EXCLUDE (0) (1)\n", 3000)
			case 1:
				text = strings.Repeat("# "+strings.Repeat("c", 100)+"\n", 2000) + text
			case 2:
				var b strings.Builder
				b.WriteString("EXCLUDE 0 (")
				for j := 0; j < 8000; j++ {
					fmt.Fprintf(&b, "%d ", r.Intn(minN))
				}
				text = b.String() + ")\n"
			case 3:
				var b strings.Builder
				for j := 0; j < 500; j++ {
					fmt.Fprintf(&b, "GROUP %d %d\n", r.Intn(minN), r.Intn(minN))
				}
				text = b.String()
			}
		default:
			kind = "as is"
		}
		file := "in"
		if r.Intn(20) == 0 {
			file = pickS(r, []string{"50%d", "a b", "x%s%n", "ünï", "-w", "no.ext"})
		}
		arg := file + ".wad"
		if strings.HasPrefix(file, "-") {
			arg = "./" + arg
		}
		in := w.Bytes()
		c.Write(file+".wad", in)
		c.Write(file+".rej", []byte(text))
		opts := rmbOpts(r)
		if !has(opts, "-d") {
			opts = append(opts, "-d")
		}
		if r.Intn(8) == 0 {
			opts = append(opts, fmt.Sprintf("-rs=%d", r.Intn(4)))
		}
		if r.Intn(10) == 0 {
			opts = append(opts, "-v")
		}
		inplace := r.Intn(3) == 0
		args := append(append([]string{}, opts...), "-rm", arg)
		if !inplace {
			args = append(args, "-o", "out.wad")
		}
		res := c.RunX(limited(RunOpt{Timeout: 60 * time.Second}), args...)
		e.Count("files: "+strings.SplitN(kind, ":", 2)[0], 1)
		e.Eval(text)
		say := func() string {
			return fmt.Sprintf("%s, modifier file:\n%s\n", kind, head(fmt.Sprintf("%q", text), 400))
		}
		if res.Timeout {
			c.Violate("timeout", "%sstill running after the limit", say())
			return
		}
		if strings.Contains(res.Out, "%!") && !strings.Contains(text, "%!") {
			j := strings.Index(res.Out, "%!")
			c.Violate("garbled", "%sgarbled message: %q", say(), res.Out[max(0, j-150):min(len(res.Out), j+40)])
		}
		if res.Exit != 0 {
			if !deliberateStop(res.Out) && res.Crashed() {
				c.Violate(crashSig(res.Out), "%scrashed (exit %d %s): %s", say(), res.Exit, res.Sig, crashHead(res.Out))
				return
			}
			if !deliberateStop(res.Out) && res.Exit == 2 {
				c.Violate("status", "%sstatus 2 without the announcement", say())
			}
			e.Count("refused", 1)
			if deliberateStop(res.Out) && !strings.Contains(res.Out, ": ERROR ") {
				c.Violate("unexplained", "%sthe file was refused without saying which line is at fault", say())
			}
			if kind == "as is" && deliberateStop(res.Out) {
				c.Violate("refused", "%sa sound file was refused: %s", say(), tail(res.Out[:strings.Index(res.Out, "panic:")], 300))
			}
			if !bytes.Equal(readFile(c.Path(file+".wad")), in) {
				c.Violate("input", "%srefused with status %d but the input file was changed", say(), res.Exit)
			}
			ents, _ := os.ReadDir(c.Dir)
			for _, en := range ents {
				if strings.HasPrefix(en.Name(), "tmp") {
					c.Violate("temp", "%sexit %d left %s behind", say(), res.Exit, en.Name())
				}
			}
			if faultyLine > 0 && !strings.Contains(res.Out, fmt.Sprintf(".rej:%d: ERROR", faultyLine)) {
				c.Violate("line-number", "%sthe message does not name line %d: %s", say(), faultyLine, tail(head(res.Out, 1500), 500))
			}
			return
		}
		if faultyLine > 0 {
			c.Violate("accepted", "%sline %d was accepted", say(), faultyLine)
			return
		}
		if j := strings.Index(res.Out, ": ERROR "); j >= 0 {
			c.Violate("accepted", "%sa line was reported as an error but the file was accepted: %q", say(), head(res.Out[max(0, j-30):], 200))
		}
		e.Count("accepted", 1)
		outf := "out.wad"
		if inplace {
			outf = file + ".wad"
		} else if !bytes.Equal(readFile(c.Path(file+".wad")), in) {
			c.Violate("input", "%sthe input file was changed although -o was given", say())
		}
		o, err := ParseWad(readFile(c.Path(outf)))
		if err != nil {
			c.Violate("wad", "%sstatus 0 but no valid WAD: %v", say(), err)
			return
		}
		c.Write("plain.wad", in)
		b := c.Build("plain.wad", "base.wad", opts...)
		if b == nil {
			return
		}
		if len(o.Lumps) != len(b.Wad.Lumps) {
			c.Violate("lumps", "%s%d lumps instead of %d", say(), len(o.Lumps), len(b.Wad.Lumps))
			return
		}
		for j, l := range b.Wad.Lumps {
			k := o.Lumps[j]
			if k.Name != l.Name || l.Name != "REJECT" && !bytes.Equal(k.Data, l.Data) {
				c.Violate("lumps", "%slump #%d (%s) differs from the run without the modifier file", say(), j, l.Name)
				return
			}
			if l.Name == "REJECT" && len(k.Data) != len(l.Data) {
				c.Violate("reject-size", "%sreject table has %d bytes instead of %d", say(), len(k.Data), len(l.Data))
				return
			}
		}
		e.Count("lumps compared with the plain run", len(o.Lumps))
	})
	n = e.N(2500, 40000)
	Parallel(n, 0, func(i int) {
		if !e.TooMany() {
			rmbRange(e, i)
		}
	})
}

// rmbRange: commands on sectors and lines the map doesn't have change nothing.
func rmbRange(e *Env, i int) {
	r := e.Rand("rmbrange", i)
	c := e.NewCase(fmt.Sprintf("rmbrange %d", i))
	defer c.Done()
	w := &Wad{}
	names := rmbNames(r)
	minN, maxN, maxL := 1<<30, 0, 0
	g := &rmbGen{r: r, merged: map[int]bool{}, reps: map[int]bool{}, vortex: r.Intn(2) == 0}
	for _, nm := range names {
		lv, _ := rmbMap(r, nm)
		lv.AddTo(w)
		minN, maxN = min(minN, len(lv.Sects)), max(maxN, len(lv.Sects))
		maxL = max(maxL, len(lv.Lines))
		if g.lines == nil {
			g.lines = borders(lv)
		}
	}
	g.n = minN
	bad := func(lim int) int {
		switch r.Intn(10) {
		case 0, 1, 2:
			return lim
		case 3:
			return lim + 1 + r.Intn(9)
		case 4:
			return -1
		case 5:
			return -1 - r.Intn(lim)
		case 6:
			return 65536 + r.Intn(minN)
		case 7:
			return 1<<32 + r.Intn(minN)
		case 8:
			return -65536 + r.Intn(minN)
		}
		return []int{65535, 32768, 1 << 31, 1<<63 - 1, -1 << 63}[r.Intn(5)]
	}
	badN := 0
	grouped, dist := false, false
	spoil := func(l []rmbCmd) []rmbCmd {
		var o []rmbCmd
		for _, x := range l {
			for r.Intn(3) == 0 { // a command wholly out of range
				y := rmbCmd{Op: pickS(r, []string{"BLIND", "SAFE", "INCLUDE", "EXCLUDE", "LINE", "GROUP"})}
				y.N = [2]int{r.Intn(5), 5}
				ok, ko := []int{r.Intn(minN)}, []int{bad(maxN)}
				y.L = [2][]int{ko, ok}
				switch y.Op {
				case "INCLUDE", "EXCLUDE":
					if r.Intn(2) == 0 {
						y.L = [2][]int{ok, ko}
					}
				case "BLIND", "SAFE":
					if !dist {
						continue // asking for distances changes how self-referencing sectors are taken
					}
					y.Inv, y.Band = r.Intn(3) == 0, r.Intn(4) == 0
				case "LINE":
					if grouped || !dist {
						continue // a LINE of any number makes groups share what they see
					}
					y.N[0] = bad(maxL)
				case "GROUP":
					y.N[0] = bad(maxN)
					y.L[0] = ok
				}
				badN++
				o = append(o, y)
			}
			for k := range x.L {
				if x.L[k] == nil {
					continue
				}
				var n []int
				for _, v := range x.L[k] {
					if r.Intn(4) == 0 {
						n = append(n, bad(maxN))
						badN++
					}
					n = append(n, v)
				}
				if r.Intn(4) == 0 {
					n = append(n, bad(maxN))
					badN++
				}
				x.L[k] = n
			}
			o = append(o, x)
		}
		return o
	}
	p := &rmbProg{Global: g.cmds(1 + r.Intn(4))}
	for _, nm := range names {
		if r.Intn(2) == 0 {
			p.Sects = append(p.Sects, rmbSect{nm, g.cmds(1 + r.Intn(4))})
		}
	}
	grouped = hasOp(p.Global, "GROUP")
	for _, s := range p.Sects {
		grouped = grouped || hasOp(s.Cmds, "GROUP")
	}
	dist = r.Intn(3) > 0
	if dist {
		p.Global = append(p.Global, rmbCmd{Op: "REPORT", N: [2]int{r.Intn(5)}})
	}
	// numbers beyond anything a map can have are all alike
	huge := 0
	for r.Intn(3) == 0 {
		huge++
		y := rmbCmd{Op: pickS(r, []string{"LENGTH", "LENGTH", "DISTANCE", "DISTANCE", "BLIND", "SAFE"}), L: [2][]int{{r.Intn(minN)}}}
		y.N[0] = 65536
		switch y.Op {
		case "LENGTH":
			y.N[0] = []int{0, 65535}[r.Intn(2)]
		case "DISTANCE":
			y.N[0] = 200000
		default:
			y.Inv = r.Intn(3) == 0
			if r.Intn(3) == 0 {
				y.Band = true
				y.N = [2]int{r.Intn(4), 65536}
			}
		}
		p.Global = append(p.Global, y)
	}
	q := &rmbProg{Global: spoil(p.Global)}
	for _, s := range p.Sects {
		q.Sects = append(q.Sects, rmbSect{s.Map, spoil(s.Cmds)})
	}
	big := 65537 + r.Intn(1<<33) // one for all, as the interval of two could be empty or not
	for k := range q.Global {
		y := &q.Global[k]
		more := func(x *int, from int) {
			if *x == from {
				*x = []int{65536, 65537, 65536 * 4, 1<<31 - 1, 1 << 31, 1<<31 + 2, 1 << 32, 1<<32 + 5, 1<<33 - 1, 1<<62 + 3, 1<<63 - 1}[r.Intn(11)]
				if from == 200000 {
					*x = max(*x, from)
				}
			}
		}
		switch y.Op {
		case "LENGTH":
			if y.N[0] == 0 && huge > 0 && r.Intn(2) == 0 {
				y.N[0] = []int{-1, -65536 + 5, -1 << 31, -1 << 63}[r.Intn(4)]
			}
			more(&y.N[0], 65535)
		case "DISTANCE":
			more(&y.N[0], 200000)
		case "BLIND", "SAFE":
			for m := range y.N {
				if y.N[m] == 65536 {
					y.N[m] = big
				}
			}
		}
	}
	e.Count("numbers beyond all limits", huge)
	in := w.Bytes()
	opts := append(rmbOpts(r), "-rm", "-d", "-rg-") // lines that block sight turn graphs off
	c.Write("a.wad", in)
	c.Write("b.wad", in)
	c.Write("a.rej", []byte(p.Render(r)))
	text := q.Render(r)
	c.Write("b.rej", []byte(text))
	a := c.Build("a.wad", "oa.wad", opts...)
	if a == nil {
		return
	}
	b := c.Build("b.wad", "ob.wad", opts...)
	if b == nil {
		return
	}
	e.Eval(text)
	e.Count("numbers out of range", badN)
	for j := range a.Wad.Lumps {
		if !bytes.Equal(a.Wad.Lumps[j].Data, b.Wad.Lumps[j].Data) {
			c.Violate("range", "modifier file %s\nlump #%d (%s) differs from the result without numbers out of range", head(fmt.Sprintf("%q", text), 500), j, a.Wad.Lumps[j].Name)
			return
		}
	}
	crlf := func(b []byte) []byte { return bytes.ReplaceAll(b, []byte("\r"), nil) } // follows the line ends of the modifier file
	ra, rb := crlf(readFile(c.Path("a.rpt"))), crlf(readFile(c.Path("b.rpt")))
	if !bytes.Equal(ra, rb) {
		c.Violate("range", "modifier file %s\nreport differs from the one without numbers out of range: %q and %q", head(fmt.Sprintf("%q", text), 500), head(string(rb), 300), head(string(ra), 300))
	}
}
