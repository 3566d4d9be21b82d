package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	checks["C01"] = chkContainer
	checks["C02"] = chkAuthored
	checks["C16"] = chkSelection
	checks["C17"] = chkZeroReject
	checks["C25"] = chkHashes
	checks["C26"] = chkStable
}

// wadArgs draws options of every builder.
func wadArgs(r *rand.Rand) []string {
	var a []string
	switch r.Intn(4) {
	case 0:
		a = append(a, "-n-")
	default:
		a = append(a, nodeArgs(r, "vvdxzDXZV", r.Intn(4) == 0)...)
	}
	switch r.Intn(4) {
	case 0:
		a = append(a, "-b-")
	case 1:
	default:
		b, _, _ := bmArgs(r, true)
		a = append(a, b)
	}
	switch r.Intn(6) {
	case 0:
		a = append(a, "-r-")
	case 1, 2:
		a = append(a, "-rz")
	case 3:
		a = append(a, fmt.Sprintf("-rs=%d", r.Intn(4)))
	}
	if r.Intn(2) == 0 {
		a = append(a, "-d")
	}
	return a
}

func has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func nodesOff(a []string) bool { return has(a, "-n-") }

func oddBytes(r *rand.Rand, w *Wad) []byte {
	if r.Intn(2) == 0 {
		return w.Bytes()
	}
	w.Share = r.Intn(4) == 0
	return w.BytesOdd(r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0)
}

// selection draws a level filter.
func selection(r *rand.Rand, m *MultiWad) (string, func(string) bool) {
	var names []string
	for _, it := range m.Items {
		if it.Kind != 'p' {
			names = append(names, it.Name)
		}
	}
	if r.Intn(3) == 0 {
		names = append(names, "MAP77x"[:5])
	}
	pick := map[string]bool{}
	for _, n := range names {
		if r.Intn(2) == 0 {
			pick[n] = true
		}
	}
	if len(pick) == 0 {
		pick[names[r.Intn(len(names))]] = true
	}
	var l []string
	for _, n := range names {
		if pick[n] {
			if r.Intn(2) == 0 {
				n = strings.ToLower(n)
			}
			l = append(l, n)
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if r.Intn(2) == 0 {
		return "-m:" + strings.Join(l, "+"), func(n string) bool { return pick[n] }
	}
	return "-!m:" + strings.Join(l, "+"), func(n string) bool { return !pick[n] }
}

// multiRun builds a multi-level WAD and checks the output's directory.
// Returns nil when nothing can be built or a violation was recorded.
func multiRun(c *Case, m *MultiWad, input []byte, args []string, sel func(string) bool, out string) (*Built, []expLump) {
	n := 0
	for _, it := range m.Items {
		if it.Kind == 'L' && sel(it.Name) {
			n++
		}
	}
	if n == 0 {
		res := c.Run(append(append([]string{}, args...), "in.wad", "-o", out)...)
		if res.Crashed() || res.Exit == 0 {
			c.Violate("nolevel", "no level to build, yet exit status %d: %s", res.Exit, tail(res.Out, 300))
		}
		return nil, nil
	}
	bt := c.Build("in.wad", out, args...)
	if bt == nil {
		return nil, nil
	}
	exp := m.Expect(sel, has(args, "--eject"))
	if err := compareDir(bt.Wad, exp); err != nil {
		c.Violate("dir", "%v (wad %s args %v)", err, m.Desc, args)
		return nil, nil
	}
	return bt, exp
}

func all(string) bool { return true }

// rebuiltName: is this lump of a selected level replaced under these options.
func rebuiltName(n string, args []string) bool {
	switch n {
	case "SEGS", "SSECTORS", "NODES", "LINEDEFS", "VERTEXES":
		return !nodesOff(args)
	case "REJECT":
		return !has(args, "-r-")
	case "BLOCKMAP":
		return !has(args, "-b-")
	}
	return false
}

func multiCases(e *Env, label string, n int, f func(c *Case, r *rand.Rand, i int)) {
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand(label, i)
		c := e.NewCase(fmt.Sprintf("%s %d", label, i))
		defer c.Done()
		f(c, r, i)
	})
}

func chkContainer(e *Env) {
	e.rule = "random multi-level WADs (Doom, Hexen, UDMF, incomplete and reordered levels, duplicates, odd physical layouts, unrelated lumps) x options x selection; non-trivial = at least one level rebuilt; distinct by directory shape and options"
	multiCases(e, "container", e.N(3000, 20000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 5, Size: 1, Unused: true, MaxSectors: r.Intn(3) == 0})
		args := wadArgs(r)
		if r.Intn(6) == 0 {
			args = append(args, "--eject")
			m.dropUDMF() // what is left of a level in an unsupported format is unspecified
		}
		sel := all
		if r.Intn(3) == 0 {
			var s string
			s, sel = selection(r, m)
			args = append(args, s)
		}
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		bt, exp := multiRun(c, m, in, args, sel, "out.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		e.Eval(m.Desc + strings.Join(args, " "))
		e.Count("lumps_checked", len(exp))
		if bt.Wad.Magic != m.Magic {
			c.Violate("magic", "WAD kind changed from %q to %q", m.Magic, bt.Wad.Magic)
		}
		if err := checkLayout(bt.Raw, bt.Wad, dirPos(bt.Raw)); err != nil {
			c.Violate("layout", "%v (wad %s args %v)", err, m.Desc, args)
		}
		for k, x := range exp {
			if x.Level && rebuiltName(x.Name, args) {
				continue
			}
			if !bytes.Equal(bt.Wad.Lumps[k].Data, x.Src) {
				c.Violate("content", "lump #%d %s changed: %d bytes -> %d bytes, first difference at %d (wad %s args %v)", k, x.Name, len(x.Src), len(bt.Wad.Lumps[k].Data), firstDiff(x.Src, bt.Wad.Lumps[k].Data), m.Desc, args)
				return
			}
			e.Count("lumps_compared_bytewise", 1)
		}
		// each rebuilt level holds what the engine needs
		for k, it := range m.Items {
			if it.Kind != 'L' || !sel(it.Name) {
				continue
			}
			e.Count("levels_rebuilt", 1)
			lw := itemWad(bt.Wad, exp, k)
			if !has(args, "-b-") {
				if b, _ := lw.LevelLump(it.Name, "BLOCKMAP"); len(b) == 0 {
					c.Violate("noblockmap", "blockmap of %s is empty", it.Name)
				}
			}
			if !has(args, "-r-") {
				ns := len(it.Lv.Sects)
				if b, _ := lw.LevelLump(it.Name, "REJECT"); len(b) != (ns*ns+7)/8 {
					c.Violate("rejectsize", "reject of %s (%d sectors) has %d bytes, expected %d (wad %s args %v)", it.Name, ns, len(b), (ns*ns+7)/8, m.Desc, args)
				}
			}
			if !nodesOff(args) {
				b, err := ParseBSP(lw, it.Name)
				if err != nil || b == nil {
					c.Violate("nodes", "nodes of %s cannot be used: %v", it.Name, err)
				} else if ol, err := DecodeLevel(lw, it.Name); err != nil {
					c.Violate("level", "%v", err)
				} else if err := b.Structure(ol); err != nil {
					c.Violate("nodes", "nodes of %s: %v", it.Name, err)
				}
			}
		}
		if i < 3 {
			e.Sample(map[string]string{"wad": m.Desc, "args": strings.Join(args, " ")})
		}
	})
}

func chkAuthored(e *Env) {
	Parallel(e.N(8, 60), 0, func(i int) {
		if !e.TooMany() {
			bigAuthored(e, i)
		}
	})
	e.rule = "random multi-level WADs x options; authored lumps compared bytewise, linedefs by coordinates and fields; non-trivial = a level with rebuilt nodes"
	multiCases(e, "authored", e.N(3000, 20000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 3, Size: 2, Unused: true, OnlyValid: true, KeepScripts: true})
		scroll := false
		for k := range m.Items {
			it := &m.Items[k]
			if it.Kind != 'L' {
				continue
			}
			mutateAuthored(r, it)
			if !it.Lv.Hexen && r.Intn(3) == 0 {
				scroll = true
				addScrollers(r, it.Lv)
			}
			refill(it)
		}
		args := wadArgs(r)
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		bt, exp := multiRun(c, m, in, args, all, "out.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		key := ""
		if !nodesOff(args) {
			key = m.Desc + strings.Join(args, " ")
		}
		e.Eval(key)
		for k := range m.Items {
			it := &m.Items[k]
			if it.Kind != 'L' {
				continue
			}
			if err := authored(it, itemWad(bt.Wad, exp, k), scroll); err != nil {
				c.Violate("authored", "%s: %v (args %v)", it.Name, err, args)
			} else if scroll {
				if err := helperLines(it, itemWad(bt.Wad, exp, k), !nodesOff(args) && !has(args, "-b-")); err != nil {
					c.Violate("helpers", "%s: %v (args %v)", it.Name, err, args)
				}
				e.Count("scroller_levels", 1)
			}
			e.Count("levels_compared", 1)
			e.Count("linedefs_compared", len(it.Lv.Lines))
		}
	})
}

// bigAuthored: one level with nearly as many vertices, lines and sidedefs as
// there can be; numbers above 32767 and unused vertices among them.
func bigAuthored(e *Env, i int) {
	r := e.Rand("bigauthored", i)
	lv, desc := limitMap(r, []int{1, 4, 0}[i%3])
	lv.Hexen = r.Intn(3) == 0
	if lv.Hexen {
		for k := range lv.Things {
			lv.Things[k].Type = 1
		}
	}
	for n := r.Intn(65536 - len(lv.Verts)); n > 0; n-- {
		lv.Verts = append(lv.Verts, Vtx{r.Intn(60000) - 30000, r.Intn(60000) - 30000})
	}
	perm := r.Perm(len(lv.Verts))
	vs := make([]Vtx, len(perm))
	for k, to := range perm {
		vs[to] = lv.Verts[k]
	}
	lv.Verts = vs
	for k := range lv.Lines {
		l := &lv.Lines[k]
		l.V1, l.V2 = perm[l.V1], perm[l.V2]
	}
	for k := range lv.Sides {
		lv.Sides[k].XOff = r.Intn(65536) - 32768
	}
	it := &mwItem{Kind: 'L', Name: lv.Name, Lv: lv, Lumps: lv.Wad().Lumps}
	args := []string{"-na=3c=" + []string{"v", "d", "x", "z6", "V"}[r.Intn(5)], "-r-"}
	if r.Intn(2) == 0 {
		args = append(args, "-b-")
	}
	if r.Intn(6) == 0 {
		args = []string{"-n-", "-r-"}
	}
	c := e.NewCase(fmt.Sprintf("big %d %s %v", i, desc, args))
	defer c.Done()
	c.Write("in.wad", (&Wad{Lumps: it.Lumps}).Bytes())
	bt := c.Build("in.wad", "out.wad", args...)
	if bt == nil {
		e.Eval("")
		return
	}
	e.Eval(desc + strings.Join(args, " "))
	e.Count("big_levels_compared", 1)
	e.Count("linedefs_compared", len(lv.Lines))
	e.Max("most_vertices", len(lv.Verts))
	if err := authored(it, bt.Wad, false); err != nil {
		c.Violate("authored", "%s: %v (args %v)", it.Name, err, args)
	}
}

// mutateAuthored sprinkles unusual but legal field values.
func mutateAuthored(r *rand.Rand, it *mwItem) {
	lv := it.Lv
	for t := 0; t < 6; t++ {
		l := &lv.Lines[r.Intn(len(lv.Lines))]
		switch r.Intn(4) {
		case 0:
			l.Flags ^= []int{8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}[r.Intn(13)]
		case 1:
			if lv.Hexen {
				l.Action = []int{1, 7, 60, 100, 121, 160, 181, 199, 220, 250}[r.Intn(10)]
				for k := range l.Args {
					l.Args[k] = byte(r.Intn(256))
				}
			} else {
				l.Action = []int{5, 97, 141, 242, 271, 9999, 0x2F80, 0x6000, 0x7FFF, 0xFFFF}[r.Intn(10)]
				l.Tag = []int{0, 1, 666, 899, 7000, 32767, 40000, 65535}[r.Intn(8)]
			}
		case 2:
			s := &lv.Sides[r.Intn(len(lv.Sides))]
			s.XOff, s.YOff = r.Intn(65536)-32768, r.Intn(65536)-32768
			s.Mid, s.Low = "LONGNAM8", "A"
		case 3:
			s := &lv.Sects[r.Intn(len(lv.Sects))]
			s.Light, s.Special, s.Tag = r.Intn(65536)-32768, r.Intn(65536), r.Intn(900)
		}
	}
	if r.Intn(3) == 0 { // several lines may share a sidedef
		a, b := &lv.Lines[r.Intn(len(lv.Lines))], &lv.Lines[r.Intn(len(lv.Lines))]
		if lv.SectorOf(indexOf(lv, a), 0) == lv.SectorOf(indexOf(lv, b), 0) {
			b.S[0] = a.S[0]
		}
	}
	if r.Intn(3) == 0 { // vertices with equal coordinates used by different lines
		l := &lv.Lines[r.Intn(len(lv.Lines))]
		lv.Verts = append(lv.Verts, lv.Verts[l.V1])
		l.V1 = len(lv.Verts) - 1
	}
}

func indexOf(lv *Level, l *Line) int {
	for i := range lv.Lines {
		if &lv.Lines[i] == l {
			return i
		}
	}
	return -1
}

// refill rewrites the authored lumps of an item from its (edited) level.
func refill(it *mwItem) {
	for k := range it.Lumps {
		l := &it.Lumps[k]
		if k == 0 {
			continue
		}
		switch l.Name {
		case "THINGS":
			l.Data = it.Lv.ThingBytes()
		case "LINEDEFS":
			l.Data = it.Lv.LinedefBytes()
		case "SIDEDEFS":
			l.Data = it.Lv.SideBytes()
		case "VERTEXES":
			l.Data = it.Lv.VertBytes()
		case "SECTORS":
			l.Data = it.Lv.SectBytes()
		}
	}
}

func chkSelection(e *Env) {
	e.rule = "random multi-level WADs x selection lists x builders switched off; unselected levels compared bytewise with the input, switched-off lumps likewise, and the remaining builders' lumps compared with a run that has everything on; non-trivial = a filter or a switched-off builder was in effect"
	multiCases(e, "select", e.N(1500, 8000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 5, Size: 1, Unused: true})
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		base := []string{"-d"}
		base = append(base, nodeArgs(r, "vvdxz", false)...)
		b, _, _ := bmArgs(r, true)
		base = append(base, b, fmt.Sprintf("-rs=%d", r.Intn(4)))
		full, fexp := multiRun(c, m, in, base, all, "full.wad")
		if full == nil {
			e.Eval("")
			return
		}
		idx := map[[2]string]int{}
		for k, x := range fexp {
			if x.Level {
				idx[[2]string{fmt.Sprint(x.Item), x.Name}] = k
			}
		}
		// selection and switches in one run
		args := append([]string{}, base...)
		sel := all
		what := ""
		if r.Intn(3) > 0 {
			var s string
			s, sel = selection(r, m)
			args = append(args, s)
			what += s
		}
		off := r.Intn(8)
		if what == "" && off == 0 {
			off = 1 + r.Intn(7)
		}
		if off&1 != 0 {
			args = append(args, "-n-")
		}
		if off&2 != 0 {
			args = append(args, "-b-")
		}
		if off&4 != 0 {
			args = append(args, "-r-")
		}
		bt, exp := multiRun(c, m, in, args, sel, "out.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		e.Eval(fmt.Sprintf("%s|%s|%d", m.Desc, what, off))
		for k, x := range exp {
			got := bt.Wad.Lumps[k].Data
			if !x.Level || !rebuiltName(x.Name, args) {
				if !bytes.Equal(got, x.Src) {
					c.Violate("copied", "lump #%d %s of item %d is not rebuilt under %v but changed (%d -> %d bytes)", k, x.Name, x.Item, args, len(x.Src), len(got))
					return
				}
				e.Count("copied_lumps_compared", 1)
				continue
			}
			want := full.Wad.Lumps[idx[[2]string{fmt.Sprint(x.Item), x.Name}]].Data
			if !bytes.Equal(got, want) {
				c.Violate("crosstalk", "lump #%d %s of %s differs from the one built with every builder on and every level selected (args %v vs %v; %d vs %d bytes)", k, x.Name, m.Items[x.Item].Name, args, base, len(got), len(want))
				return
			}
			e.Count("built_lumps_compared", 1)
		}
	})
}

func chkZeroReject(e *Env) {
	e.rule = "multi-level WADs with sector counts from 1 up, missing/duplicate lumps, any first lump, with -rz in either write mode; every reject lump read back from where the directory points and compared with zeros of the required size; non-trivial = every run; distinct by level shapes"
	multiCases(e, "zero", e.N(3000, 20000), func(c *Case, r *rand.Rand, i int) {
		o := mwOpt{MaxLevels: 1 + r.Intn(7), Size: 1, MaxSectors: true, Unused: false}
		if r.Intn(3) == 0 {
			o.Complete = true
		}
		m := genMulti(r, o)
		args := []string{"-rz"}
		if r.Intn(6) == 0 {
			args = append(args, "--eject")
			m.dropUDMF() // what is left of a level in an unsupported format is unspecified
		}
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		if r.Intn(2) == 0 {
			args = append(args, "-d")
		}
		if r.Intn(3) == 0 {
			args = append(args, "-n-")
		}
		if r.Intn(3) == 0 {
			args = append(args, "-b-")
		}
		sel := all
		if r.Intn(4) == 0 {
			var s string
			s, sel = selection(r, m)
			args = append(args, s)
		}
		bt, exp := multiRun(c, m, in, args, sel, "out.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		e.Eval(m.Desc)
		if err := checkLayout(bt.Raw, bt.Wad, dirPos(bt.Raw)); err != nil {
			c.Violate("layout", "%v (wad %s args %v)", err, m.Desc, args)
		}
		pos := map[uint32]string{}
		for k, x := range exp {
			d := bt.Wad.Lumps[k].Data
			if !x.Level || x.Name != "REJECT" {
				if !x.Level && !bytes.Equal(d, x.Src) {
					c.Violate("content", "lump #%d %s damaged (wad %s args %v)", k, x.Name, m.Desc, args)
					return
				}
				continue
			}
			it := &m.Items[x.Item]
			n := len(it.Lv.Sects)
			if len(d) != (n*n+7)/8 {
				c.Violate("size", "reject of %s (%d sectors) has %d bytes, expected %d (wad %s args %v)", it.Name, n, len(d), (n*n+7)/8, m.Desc, args)
				return
			}
			for p, v := range d {
				if v != 0 {
					c.Violate("nonzero", "reject of %s (%d sectors): byte %d is %#x (wad %s args %v)", it.Name, n, p, v, m.Desc, args)
					return
				}
			}
			// distinct start offsets is the stated purpose of the allocator
			if o, dup := pos[bt.Wad.Lumps[k].Pos]; dup && len(d) > 0 {
				c.Violate("alias", "reject lumps of %s and %s start at the same offset %d", o, it.Name, bt.Wad.Lumps[k].Pos)
			}
			pos[bt.Wad.Lumps[k].Pos] = it.Name
			e.Count("reject_lumps", 1)
			e.Max("largest_reject", len(d))
		}
		for k := range m.Items {
			it := &m.Items[k]
			if it.Kind == 'L' && sel(it.Name) {
				if err := authored(it, itemWad(bt.Wad, exp, k), false); err != nil {
					c.Violate("authored", "%s: %v (args %v)", it.Name, err, args)
				}
			}
		}
	})
}

var hashLine = regexp.MustCompile(`Lump (?:#|number )(\d+) \(([A-Z0-9_]+)\)( \[[^\]]*\])? has its size set to (\d+) bytes\.(?: \(HASH: ([A-Za-z0-9+/=]+)\))?`)

func chkHashes(e *Env) {
	e.rule = "random multi-level WADs x all builders and node formats with --hashlump; every reported digest and size recomputed from the output file, and every rebuilt lump looked up in the report; distinct by WAD and options"
	multiCases(e, "hash", e.N(1500, 8000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 3, Size: 1, Unused: true})
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		args := append(wadArgs(r), "--hashlump")
		bt, exp := multiRun(c, m, in, args, all, "out.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		e.Eval(m.Desc + strings.Join(args, " "))
		seen := map[int]bool{}
		for _, g := range hashLine.FindAllStringSubmatch(bt.Res.Out, -1) {
			n, _ := strconv.Atoi(g[1])
			if n >= len(exp) || exp[n].Name != g[2] {
				c.Violate("index", "report %q names lump %d which is not %s", g[0], n, g[2])
				return
			}
			d := bt.Wad.Lumps[n].Data
			if sz, _ := strconv.Atoi(g[4]); sz != len(d) {
				c.Violate("size", "report %q but lump %d has %d bytes", g[0], n, len(d))
			}
			if g[5] == "" {
				continue
			}
			s := sha256.Sum256(d)
			if h := base64.StdEncoding.EncodeToString(s[:]); h != g[5] {
				c.Violate("digest", "report %q but the digest of that lump in the output is %s (args %v)", g[0], h, args)
			}
			if seen[n] {
				c.Violate("twice", "lump %d reported twice", n)
			}
			seen[n] = true
			e.Count("digests_compared", 1)
		}
		for k, x := range exp {
			if x.Level && rebuiltName(x.Name, args) && !seen[k] {
				c.Violate("missing", "rebuilt lump #%d %s of %s has no digest in the report (args %v)", k, x.Name, m.Items[x.Item].Name, args)
			}
		}
	})
}

func chkStable(e *Env) {
	e.rule = "chains of three rebuilds with unchanged options; authored data and derived lumps compared pass to pass; distinct by WAD and options"
	multiCases(e, "stable", e.N(900, 6000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 2, Size: 2, OnlyValid: true, NoDup: true})
		scroll := false
		for k := range m.Items {
			if it := &m.Items[k]; it.Kind == 'L' && !it.Lv.Hexen && r.Intn(4) == 0 {
				addScrollers(r, it.Lv)
				refill(it)
				scroll = true
				e.Count("scroller_levels", 1)
			}
		}
		in := oddBytes(r, m.Wad())
		c.Write("in.wad", in)
		args := append([]string{"-d"}, nodeArgs(r, "vvvdxzXZDV", false)...)
		b, _, _ := bmArgs(r, false)
		args = append(args, b, fmt.Sprintf("-rs=%d", r.Intn(4)))
		bt, exp := multiRun(c, m, in, args, all, "out1.wad")
		if bt == nil {
			e.Eval("")
			return
		}
		e.Eval(m.Desc + strings.Join(args, " "))
		prev := bt
		for pass := 2; pass <= 3; pass++ {
			cur := c.Build(fmt.Sprintf("out%d.wad", pass-1), fmt.Sprintf("out%d.wad", pass), args...)
			if cur == nil {
				return
			}
			if err := compareDir(cur.Wad, exp); err != nil {
				c.Violate("dir", "pass %d: %v", pass, err)
				return
			}
			for k, x := range exp {
				a, z := prev.Wad.Lumps[k].Data, cur.Wad.Lumps[k].Data
				same := bytes.Equal(a, z)
				switch x.Name {
				case "LINEDEFS", "VERTEXES":
				case "SEGS", "SSECTORS", "NODES":
					if x.Name == "NODES" && x.Level {
						if err := sameTreeSize(itemWad(prev.Wad, exp, x.Item), itemWad(cur.Wad, exp, x.Item), x0name(m, x.Item)); err != nil {
							c.Violate("nodes", "pass %d: %v (args %v)", pass, err, args)
						}
						if same {
							e.Count("node_lumps_identical", 1)
						} else {
							e.Count("node_lumps_renumbered", 1)
						}
					}
				default:
					if !same && x.Name == "REJECT" && x.Level && pass == 2 && len(a) == len(z) && m.Items[x.Item].Lv != nil && looseBounds(m.Items[x.Item].Lv) {
						// vertices used by no line are dropped, which moves the
						// grid on which sight is tested with whole units:
						// only borderline pairs may flip
						e.Count("reject_borderline_flips", 1)
						if msg := borderline(r, m.Items[x.Item].Lv, a, z); msg != "" {
							c.Violate("drift-reject", "pass %d: %s (args %v)", pass, msg, args)
						}
						continue
					}
					if !same {
						c.Violate("drift", "pass %d: %s of item %d differs from the previous pass (%d -> %d bytes) (args %v)", pass, x.Name, x.Item, len(a), len(z), args)
					}
					e.Count("lumps_compared", 1)
				}
			}
			for k := range m.Items {
				if m.Items[k].Kind == 'L' {
					if err := authored(&m.Items[k], itemWad(cur.Wad, exp, k), scroll); err != nil {
						c.Violate("authored", "pass %d: %v (args %v)", pass, err, args)
					} else if err := helperLines(&m.Items[k], itemWad(cur.Wad, exp, k), !has(args, "-b-")); err != nil {
						c.Violate("helpers", "pass %d: %v (args %v)", pass, err, args)
					} else if err := sameOutLines(m.Items[k].Lv.Hexen, itemWad(prev.Wad, exp, k), itemWad(cur.Wad, exp, k)); err != nil {
						c.Violate("lines", "pass %d: %v (args %v)", pass, err, args)
					}
				}
			}
			if len(cur.Raw) > len(prev.Raw) {
				c.Violate("growth", "pass %d: file grew from %d to %d bytes (args %v)", pass, len(prev.Raw), len(cur.Raw), args)
			}
			prev = cur
		}
	})
}

func x0name(m *MultiWad, item int) string { return m.Items[item].Name }

func sameTreeSize(a, b *Wad, name string) error {
	x, err := ParseBSP(a, name)
	if err != nil {
		return err
	}
	y, err := ParseBSP(b, name)
	if err != nil {
		return err
	}
	if (x == nil) != (y == nil) {
		return fmt.Errorf("%s: nodes present before: %v, after: %v", name, x != nil, y != nil)
	}
	if x == nil {
		return nil
	}
	if len(x.Nodes) != len(y.Nodes) || len(x.SSecs) != len(y.SSecs) || len(x.Segs) != len(y.Segs) || len(x.Verts) < len(y.Verts) {
		return fmt.Errorf("%s: nodes/subsectors/segs/vertices %d/%d/%d/%d became %d/%d/%d/%d", name, len(x.Nodes), len(x.SSecs), len(x.Segs), len(x.Verts), len(y.Nodes), len(y.SSecs), len(y.Segs), len(y.Verts))
	}
	return nil
}

// looseBounds tells whether unused vertices extend the bounding box.
func looseBounds(lv *Level) bool {
	x0, y0, x1, y1 := lv.Bounds()
	for _, v := range lv.Verts {
		if v.X < x0 || v.X > x1 || v.Y < y0 || v.Y > y1 {
			return true
		}
	}
	return false
}

// borderline accepts differing reject tables if no differing pair has a
// certified sight line and they are few.
func borderline(r *rand.Rand, lv *Level, a, b []byte) string {
	n := len(lv.Sects)
	los := NewLOS(lv, nil)
	los.clear = 1
	los.skipMayAlways = true
	los.Solve(r, 50e6)
	k := 0
	for p := 0; p < n; p++ {
		for q := 0; q < n; q++ {
			if rejBit(a, n, p, q) != rejBit(b, n, p, q) {
				k++
				if los.sure[p].has(q) {
					return fmt.Sprintf("reject of sectors %d and %d changed though they have a clear line of sight", p, q)
				}
			}
		}
	}
	if k > 8 && k*50 > n*n {
		return fmt.Sprintf("reject of %d of %d pairs changed", k, n*n)
	}
	return ""
}

// sameOutLines compares the lines of a level from one pass to the next.
func sameOutLines(hexen bool, a, b *Wad) error {
	get := func(w *Wad, n string) []byte {
		for _, l := range w.Lumps[1:] {
			if l.Name == n {
				return l.Data
			}
		}
		return nil
	}
	return sameLines(hexen, get(a, "LINEDEFS"), get(a, "VERTEXES"), get(b, "LINEDEFS"), get(b, "VERTEXES"), false)
}
