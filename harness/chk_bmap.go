package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C09"] = chkBlockmap
	checks["C10"] = chkBlockmapOptions
}

// soup: random lines of every slope, including axis-parallel on block borders,
// exact diagonals, zero-length ones; one or two sectors. Not a playable map,
// but every line still has to be listed.
func soupMap(r *rand.Rand) (*Level, string) {
	lv := &Level{Name: "MAP01", Hexen: r.Intn(6) == 0}
	n := 1 + r.Intn(60)
	if r.Intn(6) == 0 {
		n = 1 + r.Intn(3)
	}
	span := []int{60, 127, 128, 129, 300, 1000, 4000, 16000, 30000}[r.Intn(9)]
	grid := []int{1, 1, 8, 64, 128}[r.Intn(5)]
	ox, oy := 0, 0
	if span < 5000 && r.Intn(2) == 0 {
		ox, oy = r.Intn(50000)-25000, r.Intn(50000)-25000
	}
	if r.Intn(8) == 0 { // near the negative edge of the coordinate space
		ox, oy = -32768+span+r.Intn(100), -32768+span+r.Intn(100)
	}
	pt := func() Vtx {
		x, y := r.Intn(2*span+1)-span, r.Intn(2*span+1)-span
		x, y = x/grid*grid+ox, y/grid*grid+oy
		cl := func(v int) int { return max(-32768, min(32767, v)) }
		return Vtx{cl(x), cl(y)}
	}
	ns := 1 + r.Intn(3)
	for s := 0; s < ns; s++ {
		lv.Sects = append(lv.Sects, Sect{Ceil: 128})
	}
	for i := 0; i < n; i++ {
		a, b := pt(), pt()
		switch r.Intn(6) {
		case 0:
			b.X = a.X
		case 1:
			b.Y = a.Y
		case 2: // 45 degrees
			d := r.Intn(2*span+1) - span
			if r.Intn(2) == 0 {
				b = Vtx{a.X + d, a.Y + d}
			} else {
				b = Vtx{a.X + d, a.Y - d}
			}
			if b.X > 32767 || b.X < -32768 || b.Y > 32767 || b.Y < -32768 {
				b = a
			}
		case 3: // short
			b = Vtx{min(32767, a.X+r.Intn(20)), min(32767, a.Y+r.Intn(20))}
		}
		if a == b && r.Intn(4) > 0 {
			if b.X < 32767 {
				b.X++
			} else {
				b.X--
			}
		}
		lv.Verts = append(lv.Verts, a, b)
		ln := Line{V1: 2 * i, V2: 2*i + 1, Flags: 1, S: [2]int{-1, -1}}
		lv.Sides = append(lv.Sides, Side{Sector: r.Intn(ns), Mid: "-"})
		ln.S[0] = len(lv.Sides) - 1
		if r.Intn(2) == 0 {
			lv.Sides = append(lv.Sides, Side{Sector: r.Intn(ns)})
			ln.S[1] = len(lv.Sides) - 1
			ln.Flags = 4
		}
		if !lv.Hexen && r.Intn(12) == 0 {
			ln.Tag = 999
		}
		lv.Lines = append(lv.Lines, ln)
	}
	return lv, fmt.Sprintf("soup n%d span%d grid%d off%d,%d hexen%v", n, span, grid, ox, oy, lv.Hexen)
}

func bmapMap(r *rand.Rand, i int) (*Level, string) {
	switch i % 8 {
	case 0, 1, 2:
		return soupMap(r)
	case 3:
		return bigMap(r)
	default:
		return anyPlanar(r, r.Intn(10))
	}
}

// bmWant: which lines must be in the blockmap (no removal option).
func bmWant(lv *Level) func(int) int {
	return func(i int) int {
		if !lv.Hexen && lv.Lines[i].Tag == 999 {
			return 0
		}
		return 1
	}
}

// bmArgs draws blockmap options; reports whether lists carry a dummy header
// and whether the result may be a superset.
func bmArgs(r *rand.Rand, removal bool) (string, bool, bool) {
	a := "-b"
	header, super := true, false
	switch r.Intn(5) {
	case 0:
		a += "z=0"
		header = false
	case 1:
		a += "z=1"
	case 2:
		a += "z=2"
	}
	switch r.Intn(6) {
	case 0:
		a += "o=0"
	case 1:
		a += "o=1"
	case 2:
		a += fmt.Sprintf("o=%d,%d", r.Intn(128), r.Intn(128))
	case 3:
		a += "o=2"
	}
	switch r.Intn(7) {
	case 0, 1:
		a += "s"
	case 2:
		a += "a"
		super = true
	case 3:
		a += "s?"
	case 4:
		a += "a?"
		super = true
	}
	if r.Intn(4) == 0 {
		a += fmt.Sprintf("t=%d", 1+r.Intn(9))
	}
	if r.Intn(4) == 0 {
		a += fmt.Sprintf("e=%d", r.Intn(3))
	}
	if removal && r.Intn(3) == 0 {
		a += "r"
	}
	return a, header, super
}

func chkBlockmap(e *Env) {
	e.rule = "random planar maps, map-sized line soups (any slope, lines on block borders, 45 degrees, zero length, coordinates at the edge of the range, up to 512x512 blocks) x random blockmap options without line removal; every block of the decoded lump compared with exact segment/box intersection; non-trivial = lump written with at least one listed line; distinct by map and options"
	Parallel(e.N(14, 150), 0, func(i int) {
		if !e.TooMany() {
			bmLimitSweep(e, i)
		}
	})
	n := e.N(4000, 40000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("bm", i)
		lv, desc := bmapMap(r, i)
		arg, header, super := bmArgs(r, false)
		args := []string{arg, "-n-", "-r-"}
		c := e.NewCase(fmt.Sprintf("%d %s %v", i, desc, args))
		defer c.Done()
		c.Write("in.wad", lv.Wad().Bytes())
		bt := c.Build("in.wad", "out.wad", args...)
		if bt == nil {
			e.Eval("")
			return
		}
		lump, ok := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
		if !ok {
			c.Violate("missing", "no BLOCKMAP lump in the output")
			return
		}
		ol, err := DecodeLevel(bt.Wad, lv.Name)
		if err != nil {
			c.Violate("level", "%v", err)
			return
		}
		any := false
		for l := range lv.Lines {
			if bmWant(lv)(l) == 1 {
				any = true
			}
		}
		if len(lump) == 0 {
			// Legitimate only when it cannot be represented: build the plain
			// lists and see whether the offsets could have fit.
			e.Count("written_empty", 1)
			if any && !bmCouldNotFit(lv) {
				c.Violate("empty", "an empty blockmap was written although it fits: %s", tail(bt.Res.Out, 300))
			}
			e.Eval("")
			return
		}
		if !any {
			e.Eval("")
			return
		}
		bm, err := ParseBlockmap(lump, header, len(ol.Lines))
		if err != nil {
			c.Violate("decode", "%v (options %s)", err, arg)
			return
		}
		var st bmStats
		if err := bm.Check(ol, bmWant(lv), super, &st); err != nil {
			c.Violate("lists", "%v (options %s)", err, arg)
		}
		// tight grid: no block column or row beyond what the offset explains
		key := ""
		if st.NonEmpty > 0 {
			key = desc + arg
		}
		e.Eval(key)
		e.Count("blocks_decoded", len(bm.Lists))
		e.Count("line_block_incidences_required", st.Must)
		e.Max("largest_lump_words", bm.Words)
		e.Max("largest_offset", maxInt(bm.Off))
		if i < 4 {
			e.Sample(map[string]interface{}{"map": desc, "options": arg, "grid": fmt.Sprintf("%dx%d", bm.W, bm.H), "words": bm.Words})
		}
	})
}

// bmLimitMap: a big empty room, n short lines that each add a list of their
// own, and a few very long lists, so that the lump size grows with n towards
// the 16-bit offset limit in small steps.
func bmLimitMap(w, h, n int, long []int, r *rand.Rand, slack ...int) *Level {
	slk := 10
	if len(slack) > 0 {
		slk = slack[0]
	}
	lv := &Level{Name: "MAP01", Sects: []Sect{{Ceil: 128}}}
	side := func() int { lv.Sides = append(lv.Sides, Side{Mid: "-"}); return len(lv.Sides) - 1 }
	add := func(x0, y0, x1, y1 int, two bool) {
		k := len(lv.Verts)
		lv.Verts = append(lv.Verts, Vtx{x0, y0}, Vtx{x1, y1})
		l := Line{V1: k, V2: k + 1, Flags: 1, S: [2]int{side(), -1}}
		if two {
			l.S[1] = side()
			l.Flags = 4
		}
		lv.Lines = append(lv.Lines, l)
	}
	X, Y := w*128-slk, h*128-slk
	ox, oy := -w*64, -h*64
	add(ox, oy, ox, oy+Y, false)
	add(ox, oy+Y, ox+X, oy+Y, false)
	add(ox+X, oy+Y, ox+X, oy, false)
	add(ox+X, oy, ox, oy, false)
	for b, m := range long {
		for t := 0; t < m; t++ {
			x, y := ox+20+(3+2*b)*128+r.Intn(80), oy+20+3*128+r.Intn(80)
			add(x, y, x+1+r.Intn(9), y+r.Intn(9), true)
		}
	}
	for k := 0; k < n; k++ {
		i, j := 1+k%(w-2), 5+k/(w-2)
		add(ox+i*128+40, oy+j*128+40, ox+i*128+45, oy+j*128+43, true)
	}
	return lv
}

// bmLimitSweep walks the number of lists across the point where the lump stops
// being representable and checks every lump around it.
func bmLimitSweep(e *Env, i int) {
	r := e.Rand("bmlimit", i)
	w, h := 150+r.Intn(90), 150+r.Intn(90)
	long := []int{1 + r.Intn(150), 1 + r.Intn(150), r.Intn(60)}
	arg, header, super := bmArgs(r, false)
	if !strings.Contains(arg, "o=") {
		arg += "o=0"
	}
	if strings.Contains(arg, "o=2") {
		arg = strings.Replace(arg, "o=2", "o=1", 1)
	}
	seed := r.Int63()
	c := e.NewCase(fmt.Sprintf("limit %d %dx%d long%v %s", i, w, h, long, arg))
	defer c.Done()
	try := func(n int) (bool, bool) { // written, ok
		c.Log = nil
		lv := bmLimitMap(w, h, n, long, rand.New(rand.NewSource(seed)))
		c.Write("in.wad", lv.Wad().Bytes())
		bt := c.Build("in.wad", "out.wad", arg, "-n-", "-r-")
		if bt == nil {
			return false, false
		}
		lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
		e.Eval("")
		if len(lump) == 0 {
			return false, true
		}
		bm, err := ParseBlockmap(lump, header, len(lv.Lines))
		if err != nil {
			c.Violate("limit", "%d filler lines: %v", n, err)
			return true, false
		}
		var st bmStats
		if err := bm.Check(lv, bmWant(lv), super, &st); err != nil {
			c.Violate("limit", "%d filler lines: %v", n, err)
			return true, false
		}
		e.Max("largest_offset", maxInt(bm.Off))
		return true, true
	}
	lo, hi := 0, (w-2)*(h-6)
	if hi > 21000 {
		hi = 21000
	}
	a, ok := try(lo)
	if !ok {
		return
	}
	if !a {
		c.Violate("limit-empty", "even the smallest lump was not written")
		return
	}
	for hi-lo > 1 {
		m := (lo + hi) / 2
		a, ok := try(m)
		if !ok {
			return
		}
		if a {
			lo = m
		} else {
			hi = m
		}
	}
	for n := max(0, lo-3); n < lo+25; n++ {
		if _, ok := try(n); !ok {
			return
		}
	}
	e.Eval(c.Name)
	e.Count("limit_sweeps", 1)
}

func maxInt(a []int) int {
	m := 0
	for _, v := range a {
		m = max(m, v)
	}
	return m
}

// bmCouldNotFit is a conservative judgement: true when even the block table
// plus the smallest imaginable lists is near the 16-bit offset limit.
func bmCouldNotFit(lv *Level) bool {
	x0, y0, x1, y1 := lv.Bounds()
	w, h := (x1-x0)/128+1, (y1-y0)/128+1
	return w*h+4 > 20000
}

// ---- C10

func chkBlockmapOptions(e *Env) {
	e.rule = "each map is built plainly (no header, no compression) and with each compression/offset option for the same origin; the decoded lists are compared block by block; non-trivial = at least two blocks with lines; distinct by map"
	n := e.N(1200, 12000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("bmo", i)
		lv, desc := bmapMap(r, i)
		c := e.NewCase(fmt.Sprintf("%d %s", i, desc))
		defer c.Done()
		c.Write("in.wad", lv.Wad().Bytes())
		ox, oy := r.Intn(128), r.Intn(128)
		origin := fmt.Sprintf("o=%d,%d", ox, oy)
		type res struct {
			bm   *Blockmap
			lump []byte
		}
		get := func(tag, opt string, header bool) *res {
			bt := c.Build("in.wad", tag+".wad", "-b"+opt, "-n-", "-r-")
			if bt == nil {
				return nil
			}
			lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
			if len(lump) == 0 {
				return &res{nil, nil}
			}
			bm, err := ParseBlockmap(lump, header, len(lv.Lines))
			if err != nil {
				c.Violate("decode", "-b%s: %v", opt, err)
				return nil
			}
			return &res{bm, lump}
		}
		base := get("base", origin+"z=0", false)
		if base == nil {
			e.Eval("")
			return
		}
		nonempty := 0
		if base.bm != nil {
			for _, l := range base.bm.Lists {
				if len(l) > 0 {
					nonempty++
				}
			}
		}
		key := ""
		if nonempty > 1 {
			key = desc
		}
		e.Eval(key)
		subset := func(a, b []int) bool { // a subset of b, sorted
			j := 0
			for _, v := range a {
				for j < len(b) && b[j] < v {
					j++
				}
				if j >= len(b) || b[j] != v {
					return false
				}
			}
			return true
		}
		eq := func(a, b []int) bool { return len(a) == len(b) && subset(a, b) }
		cmp := func(name string, got *res, super, dropok bool) {
			if got == nil {
				return
			}
			if base.bm == nil {
				return // plain form not representable: nothing to compare with
			}
			if got.bm == nil {
				c.Violate("vanished", "%s: lump empty although the plain one exists", name)
				return
			}
			if got.bm.X != base.bm.X || got.bm.Y != base.bm.Y || got.bm.W != base.bm.W || got.bm.H != base.bm.H {
				c.Violate("grid", "%s: grid (%d,%d) %dx%d differs from the plain one (%d,%d) %dx%d", name, got.bm.X, got.bm.Y, got.bm.W, got.bm.H, base.bm.X, base.bm.Y, base.bm.W, base.bm.H)
				return
			}
			for k := range base.bm.Lists {
				a, b := base.bm.Lists[k], got.bm.Lists[k]
				bad := !eq(a, b)
				if super {
					bad = !subset(a, b)
				}
				if bad {
					c.Violate("lists", "%s: block (%d,%d) holds %v, plain %v", name, k%base.bm.W, k/base.bm.W, b, a)
					return
				}
			}
			e.Count("lists_compared", len(base.bm.Lists))
		}
		hp := get("h1", origin+"z=1", true)
		cmp("header", hp, false, false)
		cmp("header0", get("h2", origin+"z=2", true), false, false)
		s0 := get("s0", origin+"z=0s", false)
		cmp("subset", s0, false, false)
		s1 := get("s1", origin+"z=1s", true)
		cmp("subset+header", s1, false, false)
		a0 := get("a0", origin+"z=0a", false)
		cmp("aggressive", a0, true, false)
		a1 := get("a1", origin+"z=1a", true)
		cmp("aggressive+header", a1, true, false)
		cmp("conditional", get("s2", origin+"z=1s?", true), false, false)
		cmp("conditional-a", get("a2", origin+"z=1a?", true), true, false)
		size := func(what string, x, y *res) {
			if x != nil && y != nil && x.bm != nil && y.bm != nil && len(x.lump) > len(y.lump) {
				c.Violate("larger", "%s makes the lump larger: %d > %d bytes", what, len(x.lump), len(y.lump))
			}
		}
		size("subset compression", s0, base)
		size("subset compression (header)", s1, hp)
		size("aggressive compression", a0, base)
		size("aggressive compression (header)", a1, hp)
		// multi-offset: never larger than the fixed zero offset
		z := get("z", "o=0", true)
		m := get("m", "o=2", true)
		size("trying many offsets", m, z)
		if m != nil && m.bm != nil {
			var st bmStats
			if err := m.bm.Check(lv, bmWant(lv), false, &st); err != nil {
				c.Violate("multi", "-bo=2: %v", err)
			}
		}
		if i < 3 && base.bm != nil {
			e.Sample(map[string]interface{}{"map": desc, "origin": origin, "plain_bytes": len(base.lump)})
		}
	})
	// line removal
	Parallel(e.N(1500, 15000), 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("bmr", i)
		lv, desc := bmRemovalMap(r, i)
		c := e.NewCase(fmt.Sprintf("removal %d %s", i, desc))
		defer c.Done()
		c.Write("in.wad", lv.Wad().Bytes())
		opt := []string{"", "s", "z=0", "o=0"}[r.Intn(4)]
		bt := c.Build("in.wad", "out.wad", "-br"+opt, "-n-", "-r-")
		if bt == nil {
			return
		}
		lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
		if len(lump) == 0 {
			e.Eval("")
			return
		}
		bm, err := ParseBlockmap(lump, !strings.Contains(opt, "z=0"), len(lv.Lines))
		if err != nil {
			c.Violate("decode", "-br%s: %v", opt, err)
			return
		}
		removable := bmRemovable(lv)
		var st bmStats
		err = bm.Check(lv, func(l int) int {
			if lv.Lines[l].Tag == 999 && !lv.Hexen {
				return 0
			}
			if removable(l) {
				return -1
			}
			return 1
		}, false, &st)
		if err != nil {
			c.Violate("removal", "-br%s: %v", opt, err)
		}
		removed := map[int]bool{}
		for l := range lv.Lines {
			removed[l] = true
		}
		for _, l := range bm.Lists {
			for _, v := range l {
				delete(removed, v)
			}
		}
		e.Count("lines_removed", len(removed))
		key := ""
		if len(removed) > 0 {
			key = "removal " + desc
		}
		e.Eval(key)
	})
}
