package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

func init() { checks["C27"] = chkReport }

// C27: figures and verdicts the run prints are those of the file it wrote.

var (
	rlLevel   = regexp.MustCompile(`Processing level ([A-Z0-9]+):`)
	rlNumLvl  = regexp.MustCompile(`Number of levels that will be rebuilt: (\d+)`)
	rlCreated = regexp.MustCompile(`Created (\d+) subsectors, (\d+) nodes\. Got (\d+) segs\. Split segs (\d+) times\.`)
	rlInitial = regexp.MustCompile(`Initial number of segs is (\d+)\.`)
	rlHeight  = regexp.MustCompile(`Height of left and right subtrees = \((\d+),(\d+)\)`)
	rlMax     = regexp.MustCompile(`Max seg count in subsector: (\d+)`)
	rlBounds  = regexp.MustCompile(`Nodes: rendered part of map goes from \((-?\d+),(-?\d+)\) to \((-?\d+),(-?\d+)\)`)
	rlBmOff   = regexp.MustCompile(`Blockmap offset: \((-?\d+),(-?\d+)\)`)
	rlBmBound = regexp.MustCompile(`Blockmap: collidable part of map goes from \((-?\d+),(-?\d+)\) to \((-?\d+),(-?\d+)\)`)
	rlBmLarge = regexp.MustCompile(`Blockmap: largest block offset value: (\d+)`)
	rlBmDummy = regexp.MustCompile(`Blockmap: dummy linedef (\d+), word stealing was used: (true|false)`)
	rlBmRem   = regexp.MustCompile(`Blockmap: removed (-?\d+) non-collideable lines`)
	rlNoFront = regexp.MustCompile(`Warning: linedef (\d+) doesn't have front sidedef`)
	rlNoBack  = regexp.MustCompile(`Warning: linedef (\d+) is marked as 2-sided but doesn't have back sidedef`)
)

// lastInts returns the numbers of the last match, or nil.
func lastInts(re *regexp.Regexp, s string) []int {
	m := re.FindAllStringSubmatch(s, -1)
	if len(m) == 0 {
		return nil
	}
	var r []int
	for _, x := range m[len(m)-1][1:] {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return r
}

func idSet(re *regexp.Regexp, s string) map[int]bool {
	r := map[int]bool{}
	for _, m := range re.FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(m[1])
		r[n] = true
	}
	return r
}

// height of the subtree below a child; 0 for a subsector.
func (b *BSP) height(child int) int {
	if child < 0 {
		return 0
	}
	l, r := b.height(b.Nodes[child].Child[1]), b.height(b.Nodes[child].Child[0])
	return 1 + max(l, r)
}

// sections splits the output by level.
func sections(out string) (names []string, text []string) {
	ix := rlLevel.FindAllStringSubmatchIndex(out, -1)
	for k, m := range ix {
		end := len(out)
		if k+1 < len(ix) {
			end = ix[k+1][0]
		}
		names = append(names, out[m[2]:m[3]])
		text = append(text, out[m[0]:end])
	}
	return
}

type rpt struct {
	e    *Env
	c    *Case
	desc string
}

func (q *rpt) bad(sig, f string, a ...interface{}) {
	q.c.Violate(sig, "%s (%s)", fmt.Sprintf(f, a...), q.desc)
}

// same compares a reported figure.
func (q *rpt) same(sig, what string, said, is int) {
	q.e.Count("figures_compared", 1)
	q.e.Count("fig_"+sig, 1)
	if said != is {
		q.bad(sig, "the run reports %s %d but the output has %d", what, said, is)
	}
}

// verdict compares a stated condition with what the output shows.
func (q *rpt) verdict(sig, msg string, said, is bool) {
	q.e.Count("verdicts_compared", 1)
	if is {
		q.e.Count("verdict_true_"+sig, 1)
	}
	if said != is {
		if said {
			q.bad(sig, "the run says %q but the output shows the opposite", msg)
		} else {
			q.bad(sig, "the run does not say %q though that is what it wrote", msg)
		}
	}
}

// fmtLetter: the format letter among node options ('V' by default).
func fmtLetter(args []string) byte {
	for _, a := range args {
		if strings.HasPrefix(a, "-n") {
			if k := strings.Index(a, "c="); k >= 0 {
				return a[k+2]
			}
		}
	}
	return 0
}

func (q *rpt) nodes(w *Wad, name, t string, args []string, clean bool) {
	b, err := ParseBSP(w, name)
	if err != nil {
		q.bad("parse", "nodes cannot be decoded: %v", err)
		return
	}
	ol, err := DecodeLevel(w, name)
	if err != nil {
		q.bad("level", "%v", err)
		return
	}
	cr := lastInts(rlCreated, t)
	f := fmtLetter(args)
	tooLarge := strings.Contains(t, "is too large (") && strings.Contains(t, "for this format")
	if f != 'X' && f != 'Z' {
		q.verdict("emptied", "... too large for this format. Lumps NODES, SEGS, SSECTORS will be emptied", tooLarge, b == nil && cr != nil)
	}
	if b == nil {
		return
	}
	if cr == nil {
		q.bad("figures", "no node figures in the report: %s", tail(t, 300))
		return
	}
	q.same("subsectors", "subsectors:", cr[0], len(b.SSecs))
	q.same("nodes", "nodes:", cr[1], len(b.Nodes))
	q.same("segs", "segs:", cr[2], len(b.Segs))
	if in := lastInts(rlInitial, t); in != nil {
		if in[0]+cr[3] != cr[2] {
			q.bad("splits", "%d segs and %d splits cannot make %d segs", in[0], cr[3], cr[2])
		}
		sides := map[[2]int]bool{}
		for _, s := range b.Segs {
			sides[[2]int{s.Line, s.Side}] = true
		}
		if clean {
			q.same("initial", "segs before splitting:", in[0], len(sides))
		}
	}
	m := 0
	for _, s := range b.SSecs {
		m = max(m, s.Count)
	}
	if mx := lastInts(rlMax, t); mx != nil {
		q.same("maxsegs", "segs in the largest subsector:", mx[0], m)
	} else {
		q.bad("figures", "largest subsector not reported")
	}
	if h := lastInts(rlHeight, t); h == nil {
		q.bad("figures", "heights not reported")
	} else if len(b.Nodes) > 0 {
		root := b.Nodes[len(b.Nodes)-1]
		// counted in steps from the root to the deepest subsector; a subtree
		// that is one subsector is reported as 0
		want := func(child int) int {
			if child < 0 {
				return 0
			}
			return b.height(child) + 1
		}
		q.same("left", "height of the left subtree:", h[0], want(root.Child[1]))
		q.same("right", "height of the right subtree:", h[1], want(root.Child[0]))
	}
	if p := lastInts(rlBounds, t); p != nil && clean {
		x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
		for _, s := range b.Segs {
			ln := ol.Lines[s.Line]
			for _, v := range []Vtx{ol.Verts[ln.V1], ol.Verts[ln.V2]} {
				x0, x1 = math.Min(x0, float64(v.X)), math.Max(x1, float64(v.X))
				y0, y1 = math.Min(y0, float64(v.Y)), math.Max(y1, float64(v.Y))
			}
		}
		q.e.Count("figures_compared", 1)
		if [4]int{p[0], p[1], p[2], p[3]} != [4]int{int(y1), int(x0), int(y0), int(x1)} && [4]int{p[0], p[1], p[2], p[3]} != [4]int{int(x0), int(y1), int(x1), int(y0)} {
			q.bad("bounds", "the run reports a rendered part %v but segs reach from (%v,%v) to (%v,%v)", p, x0, y0, x1, y1)
		}
	}
	kept := strings.Contains(t, "I have kept nodes in vanilla format.")
	deep := strings.Contains(t, "I have switched to DeeP nodes format")
	ext := strings.Contains(t, "I have switched to ZDoom extended nodes format")
	cmp := strings.Contains(t, "I have switched to ZDoom compressed nodes format")
	pref := f == 'D' || f == 'X' || f == 'Z'
	if strings.Contains(strings.Join(args, " "), "m=") && !kept && !deep {
		kept, deep = pref && b.Format == "vanilla", pref && b.Format == "deep" // not reported in multi-tree mode
	}
	q.verdict("kept", "I have kept nodes in vanilla format", kept, pref && b.Format == "vanilla")
	q.verdict("deep", "I have switched to DeeP nodes format", deep, pref && b.Format == "deep")
	q.verdict("extended", "I have switched to ZDoom extended nodes format", ext, pref && b.Format == "xnod")
	q.verdict("compressed", "I have switched to ZDoom compressed nodes format", cmp, pref && b.Format == "znod")
	over := false
	if b.Format == "vanilla" {
		for _, s := range b.SSecs {
			over = over || s.First > 32767
		}
	}
	q.verdict("unsigned", "Too many segs to run in vanilla", strings.Contains(t, "Too many segs to run in vanilla"), over)
	if clean {
		nf, nb := idSet(rlNoFront, t), idSet(rlNoBack, t)
		for k, ln := range ol.Lines {
			if ol.Verts[ln.V1] == ol.Verts[ln.V2] {
				continue // no seg, no comment
			}
			q.verdict("nofront", fmt.Sprintf("linedef %d doesn't have front sidedef", k), nf[k], ln.S[0] < 0)
			q.verdict("noback", fmt.Sprintf("linedef %d is marked as 2-sided but doesn't have back sidedef", k), nb[k], ln.S[1] < 0 && ln.Flags&4 != 0)
		}
	}
}

func (q *rpt) bmap(w *Wad, name, t string, args []string, header, removal, clean bool) {
	ol, err := DecodeLevel(w, name)
	if err != nil {
		q.bad("level", "%v", err)
		return
	}
	d, _ := w.LevelLump(name, "BLOCKMAP")
	q.verdict("nobmap", "Couldn't generate a valid blockmap ... Will write 0-sized blockmap lump", strings.Contains(t, "Will write 0-sized blockmap"), len(d) == 0)
	if len(d) == 0 {
		return
	}
	bm, err := ParseBlockmap(d, header, len(ol.Lines))
	if err != nil {
		return // C09's business
	}
	if o := lastInts(rlBmOff, t); o != nil {
		// the offset is how far the grid's corner is moved from the map's
		if p := lastInts(rlBmBound, t); p != nil {
			q.same("bmoffx", "blockmap X offset:", o[0], p[1]-bm.X)
			q.same("bmoffy", "blockmap Y offset:", o[1], p[2]-bm.Y)
		}
	}
	if p := lastInts(rlBmBound, t); p == nil {
		q.bad("figures", "no extent of the collidable part in the report")
	} else if clean {
		x0, y0, x1, y1 := 1<<30, 1<<30, -1<<30, -1<<30
		on := map[int]bool{}
		for _, l := range bm.Lists {
			for _, k := range l {
				on[k] = true
			}
		}
		for k := range on {
			for _, v := range []Vtx{ol.Verts[ol.Lines[k].V1], ol.Verts[ol.Lines[k].V2]} {
				x0, x1, y0, y1 = min(x0, v.X), max(x1, v.X), min(y0, v.Y), max(y1, v.Y)
			}
		}
		q.e.Count("figures_compared", 1)
		if got := [4]int{p[0], p[1], p[2], p[3]}; got != [4]int{y1, x0, y0, x1} && got != [4]int{x0, y1, x1, y0} {
			q.bad("bmbounds", "the run reports a collidable part %v but listed lines reach from (%d,%d) to (%d,%d)", p, x0, y0, x1, y1)
		}
		if g := lastInts(rlBmRem, t); removal {
			if g == nil {
				q.bad("figures", "number of lines removed from the blockmap not reported")
			} else {
				q.same("bmremoved", "lines removed from the blockmap:", g[0], len(ol.Lines)-len(on))
			}
		}
	}
	lo := 0
	for _, o := range bm.Off {
		lo = max(lo, o)
	}
	if g := lastInts(rlBmLarge, t); g != nil {
		q.same("bmlargest", "largest block offset:", g[0], lo)
		q.verdict("bmunsigned", "Blockmap won't work in vanilla - requires port that treat offsets as unsigned", strings.Contains(t, "Blockmap won't work in vanilla"), lo > 32767)
	} else if !strings.Contains(strings.Join(args, " "), "e=") { // a search ended by e= may stop before reporting
		q.bad("figures", "largest block offset not reported")
	}
	q.e.Max("bm_largest_offset", lo)
	if m := rlBmDummy.FindAllStringSubmatch(t, -1); len(m) > 0 && header && strings.Contains(t, "did not involve subset compression") {
		// (with subset compression any word may end up in the dummy's place)
		g := m[len(m)-1]
		n, _ := strconv.Atoi(g[1])
		q.same("bmdummy", "dummy linedef:", n, bm.Dummy)
		low := 1 << 30
		for _, o := range bm.Off {
			low = min(low, o)
		}
		q.verdict("bmsteal", "word stealing was used: true", g[2] == "true", low < 4+bm.W*bm.H)
	}
}

func chkReport(e *Env) {
	e.rule = "random planar, removal, scattered and limit maps and multi-level WADs x all builders and options; every figure and verdict in the run's report recomputed from the output; non-trivial = at least ten comparisons; distinct by map and options"
	one := func(label string, n int, gen func(r *rand.Rand, i int) (*Level, string, []string, bool, bool, bool)) {
		Parallel(n, 0, func(i int) {
			if e.TooMany() {
				return
			}
			r := e.Rand(label, i)
			lv, desc, args, header, removal, clean := gen(r, i)
			if r.Intn(2) == 0 {
				args = append(args, "-v")
			}
			c := e.NewCase(fmt.Sprintf("%s %d %s %v", label, i, desc, args))
			defer c.Done()
			c.Write("in.wad", lv.Wad().Bytes())
			bt := c.Build("in.wad", "out.wad", args...)
			if bt == nil {
				return
			}
			q := &rpt{e, c, fmt.Sprintf("%s args %v", desc, args)}
			if !strings.Contains(bt.Res.Out, "successfully written") {
				q.bad("written", "exit status 0 without saying that the file was written")
			}
			q.level(bt, lv.Name, bt.Res.Out, args, header, removal, clean)
			names, _ := sections(bt.Res.Out)
			if g := lastInts(rlNumLvl, bt.Res.Out); g == nil || g[0] != 1 || len(names) != 1 || names[0] != lv.Name {
				q.bad("levels", "one level in the file, report says %v and names %v", g, names)
			}
			e.Eval(desc + strings.Join(args, " "))
		})
	}
	one("map", e.N(900, 8000), func(r *rand.Rand, i int) (*Level, string, []string, bool, bool, bool) {
		lv, desc := anyPlanar(r, i)
		args := nodeArgs(r, "vvdxzDXZV", len(lv.Lines) < 130)
		b, header, _ := bmArgs(r, false)
		if r.Intn(3) == 0 {
			b, header = "-b-", true
		}
		args = append(args, b)
		if r.Intn(4) > 0 {
			args = append(args, "-r-")
		}
		if i%4 == 3 { // lines without sidedefs
			for k := 0; k < 1+r.Intn(3); k++ {
				l := &lv.Lines[r.Intn(len(lv.Lines))]
				l.S[r.Intn(2)] = -1
				if r.Intn(2) == 0 {
					l.Flags |= 4
				}
			}
			any := false
			for _, l := range lv.Lines {
				any = any || l.S[0] >= 0
			}
			if !any {
				lv.Lines[0].S[0] = 0
			}
			return lv, desc + " nosides", append(args, "-r-"), header, false, true
		}
		return lv, desc, args, header, false, true
	})
	one("removal", e.N(400, 4000), func(r *rand.Rand, i int) (*Level, string, []string, bool, bool, bool) {
		lv, desc := bmRemovalMap(r, i)
		b, header, _ := bmArgs(r, false)
		return lv, desc, []string{"-n-", "-r-", b + "r"}, header, true, !lv.Hexen
	})
	one("soup", e.N(500, 4000), func(r *rand.Rand, i int) (*Level, string, []string, bool, bool, bool) {
		lv, desc := bmapMap(r, i)
		for k := range lv.Lines {
			lv.Lines[k].Tag = 0
		}
		b, header, _ := bmArgs(r, false)
		return lv, desc, []string{"-n-", "-r-", b}, header, false, true
	})
	one("limit", e.N(21, 210), func(r *rand.Rand, i int) (*Level, string, []string, bool, bool, bool) {
		lv, desc := limitMap(r, []int{0, 1, 2, 5, 3, 4, 2}[i%7])
		return lv, desc, []string{"-na=3c=" + string("DXZDv"[i%5]), "-b-", "-r-", fmt.Sprintf("--detailnodes=%d", 1+r.Intn(3))}, true, false, true
	})
	multiCases(e, "multi", e.N(250, 3000), func(c *Case, r *rand.Rand, i int) {
		m := genMulti(r, mwOpt{MaxLevels: 4, Size: 1})
		c.Write("in.wad", m.Wad().Bytes())
		word, sel := "", all
		args := nodeArgs(r, "vdxzDXZV", false)
		b, header, _ := bmArgs(r, false)
		args = append(args, b, "-r-")
		if r.Intn(3) == 0 {
			word, sel = selection(r, m)
			args = append(args, word)
		}
		bt, _ := multiRun(c, m, nil, args, sel, "out.wad")
		if bt == nil {
			return
		}
		var want []string
		for _, it := range m.Items {
			if it.Kind == 'L' && sel(it.Name) {
				want = append(want, it.Name)
			}
		}
		names, text := sections(bt.Res.Out)
		q := &rpt{e, c, fmt.Sprintf("%s args %v", m.Desc, args)}
		g := lastInts(rlNumLvl, bt.Res.Out)
		if g == nil || g[0] != len(want) {
			q.bad("levels", "%d levels are to be rebuilt, report says %v", len(want), g)
		}
		if strings.Join(names, " ") != strings.Join(want, " ") {
			q.bad("levels", "levels %v are to be rebuilt, report names %v", want, names)
			return
		}
		for k, n := range names {
			q.level(bt, n, text[k], args, header, false, false)
		}
		e.Eval(m.Desc + strings.Join(args, " "))
	})
}

func (q *rpt) level(bt *Built, name, t string, args []string, header, removal, clean bool) {
	if !has(args, "-n-") {
		q.nodes(bt.Wad, name, t, args, clean)
	}
	if !has(args, "-b-") {
		q.bmap(bt.Wad, name, t, args, header, removal, clean)
	}
	for _, g := range hashLine.FindAllStringSubmatch(t, -1) {
		n, _ := strconv.Atoi(g[1])
		sz, _ := strconv.Atoi(g[4])
		if n >= len(bt.Wad.Lumps) || bt.Wad.Lumps[n].Name != g[2] {
			q.bad("lump", "report names lump %d %s, which is not there", n, g[2])
			continue
		}
		q.same("size", "size of lump "+g[2]+":", sz, len(bt.Wad.Lumps[n].Data))
	}
}
