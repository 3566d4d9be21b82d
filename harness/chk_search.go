package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C28"] = chkSearch }

// C28: a search over blockmap offsets ends with the best blockmap of those it
// was told to try, or with one that meets the stated goal.

// bmClass: 0 fits vanilla, 1 needs unsigned offsets, 2 not representable.
func bmClass(lump []byte, header bool, nl int) (int, *Blockmap, error) {
	if len(lump) == 0 {
		return 2, nil, nil
	}
	bm, err := ParseBlockmap(lump, header, nl)
	if err != nil {
		return 0, nil, err
	}
	if maxInt(bm.Off) > 32767 {
		return 1, bm, nil
	}
	return 0, bm, nil
}

type fixedBm struct {
	ox, oy, class, size int
	lump                []byte
}

func chkSearch(e *Env) {
	e.rule = "random maps, and maps of which some origins fit a limit and others don't, x compression options x goal x threads; the searched blockmap compared with the blockmaps of all (36) or sampled (65536, heuristic) fixed offsets built one by one; non-trivial = the fixed offsets differ in size or in what limits they fit; distinct by map and options"
	Parallel(e.N(160, 3000), 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("search", i)
		lv, desc := bmapMap(r, i)
		for lv.Verts == nil || func() bool { x0, y0, x1, y1 := lv.Bounds(); return (x1-x0)*(y1-y0)/16384 > 20000 }() {
			lv, desc = bmapMap(r, r.Intn(8))
		}
		searchCase(e, fmt.Sprintf("grid %d %s", i, desc), lv, r, "2", 0)
	})
	Parallel(e.N(56, 400), 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("edge", i)
		opt := "z=0" + []string{"", "", "s", "a"}[r.Intn(4)]
		lv := edgeMap(e, r, i, opt)
		if lv != nil {
			searchCase(e, fmt.Sprintf("edge %d %d lines", i, len(lv.Lines)), lv, r, "2", map[bool]int{true: 1}[i%8 == 5], opt)
		}
	})
	Parallel(e.N(24, 300), 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("all", i)
		var lv *Level
		var desc string
		for {
			lv, desc = bmapMap(r, r.Intn(3))
			x0, y0, x1, y1 := lv.Bounds()
			if (x1-x0+300)*(y1-y0+300)/16384 <= 300 && len(lv.Lines) < 60 {
				break
			}
		}
		searchCase(e, fmt.Sprintf("all %d %s", i, desc), lv, r, []string{"3", "4"}[i%2], 0)
	})
}

// edgeMap: a map whose blockmap at the zero offset lies right at a limit.
func edgeMap(e *Env, r *rand.Rand, i int, opt string) *Level {
	w, h := 120+r.Intn(40), 80+r.Intn(30)
	long := []int{20 + r.Intn(100), r.Intn(60)}
	seed := r.Int63()
	goal := 32767
	if i%8 == 5 {
		goal = 65535
		w, h = w*3/2, h*3/2
	}
	longs := 60 + r.Intn(150)
	slack := []int{10, 60, 60}[r.Intn(3)]
	mk := func(n int) *Level {
		lv := bmLimitMap(w, h, n, long, rand.New(rand.NewSource(seed)), slack)
		// lines that lie along block borders of some origins only
		q := rand.New(rand.NewSource(seed + 1))
		x0, y0, x1, y1 := lv.Bounds()
		for k := 0; k < longs; k++ {
			x, y := x0+200+q.Intn(x1-x0-2600), y0+200+q.Intn(y1-y0-2600)
			if q.Intn(2) == 0 {
				lv.Verts = append(lv.Verts, Vtx{x, y}, Vtx{x + 300 + q.Intn(2000), y})
			} else {
				lv.Verts = append(lv.Verts, Vtx{x, y}, Vtx{x, y + 300 + q.Intn(2000)})
			}
			lv.Sides = append(lv.Sides, Side{}, Side{})
			n := len(lv.Verts)
			lv.Lines = append(lv.Lines, Line{V1: n - 2, V2: n - 1, Flags: 4, S: [2]int{len(lv.Sides) - 2, len(lv.Sides) - 1}})
		}
		return lv
	}
	c := e.NewCase(fmt.Sprintf("edge search %d", i))
	defer c.Done()
	largest := func(lv *Level, at string) int {
		c.Log = nil
		c.Write("in.wad", lv.Wad().Bytes())
		bt := c.Build("in.wad", "out.wad", "-n-", "-r-", "-b"+opt+at)
		if bt == nil {
			return -1
		}
		l, _ := bt.Wad.LevelLump("MAP01", "BLOCKMAP")
		if len(l) == 0 {
			return 1 << 20
		}
		bm, err := ParseBlockmap(l, false, len(lv.Lines))
		if err != nil {
			return -1
		}
		return maxInt(bm.Off)
	}
	// how many lines fit at an origin
	fits := func(at string, lo int) int {
		hi := (w - 2) * (h - 6)
		for hi-lo > 1 {
			m := (lo + hi) / 2
			v := largest(mk(m), at)
			if v < 0 {
				return -1
			}
			if v > goal {
				hi = m
			} else {
				lo = m
			}
		}
		return lo
	}
	// as many as fit at some, preferably more than fit at the first
	n := fits("o=0,0", 0)
	if n < 0 {
		return nil
	}
	first := n
	for k := 0; k < 8 && n < first+40; k++ {
		at := fmt.Sprintf("o=%d,%d", r.Intn(6)*8, r.Intn(6)*8)
		m := n + 1
		if v := largest(mk(m), at); v < 0 || v > goal {
			continue
		}
		if m = fits(at, m); m < 0 {
			return nil
		}
		n = m
		if i%2 == 1 {
			break
		}
	}
	return mk(n - i%2*r.Intn(1+(n-first)/4))
}

func searchCase(e *Env, name string, lv *Level, r *rand.Rand, mode string, edgeGoal int, edge ...string) {
	opt := ""
	header := true
	switch r.Intn(4) {
	case 0:
		opt, header = "z=0", false
	case 1:
		opt = "z=1"
	case 2:
		opt = "z=2"
	}
	opt += []string{"", "", "s", "a"}[r.Intn(4)]
	if len(edge) > 0 {
		opt, header = edge[0], false
	}
	var runs []searchRun
	if len(edge) > 0 {
		for _, t := range []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 16} {
			runs = append(runs, searchRun{1 + edgeGoal, t, true})
		}
		runs = append(runs, searchRun{1 + edgeGoal, 1 + r.Intn(9), false}, searchRun{0, 1 + r.Intn(9), true})
	} else {
		goal := 0
		if r.Intn(2) == 0 {
			goal = r.Intn(3)
		}
		runs = append(runs, searchRun{goal, 1 + r.Intn(9), r.Intn(3) > 0})
	}
	c := e.NewCase(name)
	defer c.Done()
	c.Write("in.wad", lv.Wad().Bytes())
	known := map[[2]int]*fixedBm{}
	for _, q := range runs {
		c.Log = nil
		if e.TooMany() || !searchRunCase(e, c, name, lv, r, mode, opt, header, q, known) {
			return
		}
	}
}

type searchRun struct {
	goal, t int
	det     bool
}

func searchRunCase(e *Env, c *Case, name string, lv *Level, r *rand.Rand, mode, opt string, header bool, q searchRun, known map[[2]int]*fixedBm) (ok bool) {
	goal, t, det := q.goal, q.t, q.det
	args := []string{fmt.Sprintf("-b%so=%st=%d", opt, mode, t), "-n-", "-r-"}
	if goal > 0 || r.Intn(2) == 0 {
		args[0] += fmt.Sprintf("e=%d", goal)
	}
	if det {
		args = append(args, "-d")
	}
	nl := len(lv.Lines)
	want := bmWant(lv)
	x0, y0, x1, y1 := 1<<30, 1<<30, -1<<30, -1<<30
	for k, l := range lv.Lines {
		if want(k) != 0 {
			for _, v := range []Vtx{lv.Verts[l.V1], lv.Verts[l.V2]} {
				x0, x1, y0, y1 = min(x0, v.X), max(x1, v.X), min(y0, v.Y), max(y1, v.Y)
			}
		}
	}
	if x0 > x1 {
		return false // nothing to list
	}
	fixed := func(ox, oy int) *fixedBm {
		if f := known[[2]int{ox, oy}]; f != nil {
			return f
		}
		bt := c.Build("in.wad", "fix.wad", fmt.Sprintf("-b%so=%d,%d", opt, ox, oy), "-n-", "-r-", "-d")
		if bt == nil {
			return nil
		}
		l, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
		k, _, err := bmClass(l, header, nl)
		if err != nil {
			c.Violate("decode", "offset %d,%d: %v", ox, oy, err)
			return nil
		}
		f := &fixedBm{ox, oy, k, len(l), l}
		known[[2]int{ox, oy}] = f
		return f
	}
	bt := c.Build("in.wad", "out.wad", args...)
	if bt == nil {
		return false
	}
	lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
	class, bm, err := bmClass(lump, header, nl)
	if err != nil {
		c.Violate("decode", "%v", err)
		return false
	}
	e.Count("searches", 1)
	e.Count(fmt.Sprintf("searches_mode_%s_goal_%d", mode, goal), 1)
	// offsets to build one by one
	var offs [][2]int
	step, num := 8, 6
	if mode != "2" {
		step, num = 1, 128
	}
	limited := x0-127 < -32768 || y0-127 < -32768 // offsets that would leave the coordinate space are not tried
	switch {
	case limited:
		offs = [][2]int{{0, 0}}
		e.Count("searches_near_the_coordinate_limit", 1)
	case mode == "2":
		for y := 0; y < num; y++ {
			for x := 0; x < num; x++ {
				offs = append(offs, [2]int{x * step, y * step})
			}
		}
	default:
		for k := 0; k < e.N(60, 200); k++ {
			o := [2]int{r.Intn(128), r.Intn(128)}
			if mode == "3" {
				// the heuristic leaves out origins that add both a row and a
				// column; on maps that aren't nearly square only
				bx, by := (x1-x0)/128, (y1-y0)/128
				if (x1-x0+o[0])/128 > bx && (y1-y0+o[1])/128 > by {
					continue
				}
			}
			offs = append(offs, o)
		}
		offs = append(offs, [2]int{0, 0})
	}
	var ref []*fixedBm
	for _, o := range offs {
		f := fixed(o[0], o[1])
		if f == nil {
			return false
		}
		ref = append(ref, f)
	}
	e.Count("fixed_offsets_built", len(ref))
	good := func(k int) bool { return goal == 1 && k == 0 || goal == 2 && k < 2 }
	best := ref[0]
	var first *fixedBm
	classes, sizes := map[int]bool{}, map[int]bool{}
	for _, f := range ref {
		if f.class < best.class || f.class == best.class && f.size < best.size {
			best = f
		}
		if first == nil && good(f.class) {
			first = f
		}
		classes[f.class], sizes[f.size] = true, true
	}
	if len(sizes) > 1 {
		e.Eval(name + strings.Join(args, " "))
	} else {
		e.Eval("")
	}
	if len(classes) > 1 {
		e.Count("searches_with_offsets_on_both_sides_of_a_limit", 1)
	}
	if first != nil {
		for _, f := range ref {
			if good(f.class) && f.ox < first.ox {
				e.Count("searches_met_first_by_rows_elsewhere_than_by_columns", 1)
				break
			}
		}
	}
	// what was written is the blockmap of the origin it states
	var self *fixedBm
	if bm != nil {
		ox, oy := x0-bm.X, y0-bm.Y
		if ox < 0 || oy < 0 || ox >= step*num || oy >= step*num || !limited && (ox%step != 0 || oy%step != 0) {
			c.Violate("origin", "the result's offset %d,%d is not one the search may try", ox, oy)
			return false
		}
		if self = fixed(ox, oy); self == nil {
			return false
		}
		if opt != "z=1" && opt != "" && !strings.HasPrefix(opt, "z=1") && strings.Contains(opt, "z=") || goal == 0 {
			// (the choice of dummy line is the same for all of these)
			if !bytes.Equal(self.lump, lump) {
				c.Violate("other", "the searched blockmap has offset %d,%d but is not the blockmap of that offset: %d bytes, %d", ox, oy, len(lump), self.size)
				return false
			}
		}
	}
	say := func(f *fixedBm) string {
		return fmt.Sprintf("offset %d,%d: %d bytes, class %d", f.ox, f.oy, f.size, f.class)
	}
	got := "nothing"
	if self != nil {
		got = say(self)
	}
	switch {
	case first != nil && !limited:
		if !good(class) {
			c.Violate("goal", "the goal was not met by %s though it is met by %s", got, say(first))
		} else if det && mode == "2" && self != nil && (self.ox != first.ox || self.oy != first.oy) {
			c.Violate("earliest", "the result is %s but the goal was already met by %s", got, say(first))
		}
	case goal == 0 || !limited:
		if class > best.class || class == best.class && len(lump) > best.size {
			c.Violate("worse", "the search ended with %s but there is %s", got, say(best))
		} else if det && goal == 0 && mode == "2" && !limited && self != nil && (strings.Contains(opt, "z=0") || strings.Contains(opt, "z=2")) {
			for _, f := range ref {
				if f.class == class && f.size == len(lump) {
					if f.ox != self.ox || f.oy != self.oy {
						c.Violate("tie", "the result is %s but %s is equal and comes first", got, say(f))
					}
					break
				}
			}
		}
	}
	return true
}
