package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
)

func init() { checks["C19"] = chkSpecial }

// ---- model of the documented line specials (manual, section 04)

// specialExpect: which line sides get segs. helpers are dummy scroll lines.
func specialExpect(lv *Level, helper func(i int) bool) func(l, s int) int {
	return func(l, s int) int {
		ln := &lv.Lines[l]
		if ln.S[s] < 0 || lv.Verts[ln.V1] == lv.Verts[ln.V2] || helper(l) {
			return 0
		}
		if lv.Sides[ln.S[s]].Low == "BSPNOSEG" {
			return 0
		}
		if lv.Hexen {
			return 1
		}
		if ln.Tag == 998 || ln.Action == 1086 || ln.Action == 1085 && s == 0 || ln.Action == 1084 && s == 1 {
			return 0
		}
		return 1
	}
}

func degToBam(d int) int { return int(math.Floor(math.Abs(float64(d))*65536/360)) * sign(d) }

func sign(d int) int {
	if d < 0 {
		return -1
	}
	return 1
}

// specialAngle: the angle a seg must carry (vanilla and DeePBSP formats).
func specialAngle(lv *Level) func(l, s int) (int, int) {
	return func(l, s int) (int, int) {
		ln := &lv.Lines[l]
		if lv.Hexen {
			return 0, 0
		}
		hor := 0
		if ln.Tag == 999 && ln.Flags&4 == 0 {
			hor = degToBam(lv.Sides[ln.S[s]].XOff)
		}
		switch ln.Action {
		case 1080:
			return 2, degToBam(ln.Tag) + hor
		case 1081:
			return 4, degToBam(ln.Tag) + hor
		case 1082:
			return 2, ln.Tag + hor
		case 1083:
			if hor != 0 {
				return 4, ln.Tag + hor
			}
			return 1, ln.Tag
		}
		return 2, hor
	}
}

type scrollKey struct {
	a, b Vtx
	f, k int
}

// scrollWant: how many helper lines each wall needs. ok is false when the
// manual leaves open what happens (ties, several sources for one wall).
func scrollWant(lv *Level) (want map[scrollKey]int, ok bool) {
	want = map[scrollKey]int{}
	if lv.Hexen {
		return want, true
	}
	key := func(l *Line) scrollKey { return scrollKey{lv.Verts[l.V1], lv.Verts[l.V2], l.S[0], l.S[1]} }
	src := map[scrollKey]bool{}
	for i := range lv.Lines {
		l := &lv.Lines[i]
		switch {
		case l.Action == 48:
			k := key(l)
			if src[k] {
				return nil, false
			}
			src[k] = true
			if l.Tag > 1 {
				want[k] = l.Tag - 1
			}
		case l.Action == 1048 && l.Tag > 0:
			best, bd, tie := -1, 0, false
			for j := range lv.Lines {
				if j == i || lv.Lines[j].Tag != l.Tag {
					continue
				}
				p, q := lv.Verts[l.V1], lv.Verts[lv.Lines[j].V1]
				d := (p.X-q.X)*(p.X-q.X) + (p.Y-q.Y)*(p.Y-q.Y)
				if best < 0 || d < bd {
					best, bd, tie = j, d, false
				} else if d == bd {
					tie = true
				}
			}
			if best < 0 {
				continue
			}
			k := key(&lv.Lines[best])
			if tie || src[k] || lv.Lines[best].Action == 48 {
				return nil, false
			}
			src[k] = true
			want[k] = l.Tag % 100
			if want[k] == 0 {
				want[k] = 1
			}
		}
	}
	return want, true
}

// checkHelpers: the lines beyond the n authored ones are exactly the wanted helpers.
func checkHelpers(out *Level, n int, want map[scrollKey]int) error {
	left := map[scrollKey]int{}
	for k, v := range want {
		left[k] = v
	}
	for i := n; i < len(out.Lines); i++ {
		b := &out.Lines[i]
		if b.V1 >= len(out.Verts) || b.V2 >= len(out.Verts) {
			return fmt.Errorf("helper line %d refers to vertices %d,%d of %d", i, b.V1, b.V2, len(out.Verts))
		}
		if b.Flags != 0 || b.Tag != 0 || b.Action != 48 {
			return fmt.Errorf("helper line %d has flags %d action %d tag %d", i, b.Flags, b.Action, b.Tag)
		}
		k := scrollKey{out.Verts[b.V1], out.Verts[b.V2], b.S[0], b.S[1]}
		if left[k] == 0 {
			return fmt.Errorf("appended line %d %v-%v sides %d,%d belongs to no scrolling wall that needs it", i, k.a, k.b, k.f, k.k)
		}
		left[k]--
	}
	for k, v := range left {
		if v > 0 {
			return fmt.Errorf("scrolling wall %v-%v lacks %d of its %d helper lines", k.a, k.b, v, want[k])
		}
	}
	return nil
}

// sprinkle puts special lines on a map.
func sprinkle(r *rand.Rand, lv *Level) string {
	p := []float64{0.05, 0.15, 0.4, 0.9}[r.Intn(4)]
	only := -1
	if r.Intn(3) == 0 {
		only = r.Intn(9)
	}
	cnt := map[string]int{}
	angTag := func() int {
		switch r.Intn(4) {
		case 0:
			return []int{0, 1, 45, 90, 179, 180, 181, 270, 359, 360, 361}[r.Intn(11)]
		case 1:
			return r.Intn(360)
		case 2:
			return []int{32767, 32768, 65535, 16384, 49152, 720}[r.Intn(6)]
		}
		return r.Intn(65536)
	}
	for i := range lv.Lines {
		if r.Float64() >= p {
			continue
		}
		l := &lv.Lines[i]
		k := r.Intn(9)
		if only >= 0 {
			k = only
		}
		if lv.Hexen {
			k = []int{4, 8}[r.Intn(2)]
		}
		switch k {
		case 0:
			l.Tag = 998
			cnt["998"]++
			if r.Intn(3) == 0 {
				l.Action = 1080 + r.Intn(7)
			}
		case 1:
			l.Action = 1086
			cnt["1086"]++
		case 2:
			l.Action = 1085
			cnt["1085"]++
		case 3:
			l.Action = 1084
			cnt["1084"]++
		case 4: // marker as lower texture
			s := r.Intn(2)
			for t := 0; t < 2; t++ {
				if l.S[t] >= 0 && (t == s || r.Intn(4) == 0) {
					lv.Sides[l.S[t]].Low = "BSPNOSEG"
					cnt["noseg"]++
				}
			}
		case 5, 6:
			l.Action = 1080 + r.Intn(4)
			l.Tag = angTag()
			cnt[fmt.Sprint(l.Action)]++
			if r.Intn(6) == 0 {
				l.Tag = 999
			}
		case 7:
			l.Tag = 999
			cnt["999"]++
			if r.Intn(3) == 0 {
				l.Flags ^= 4
			}
			if r.Intn(4) == 0 {
				l.Action = 1080 + r.Intn(7)
			}
			for t := 0; t < 2; t++ {
				if l.S[t] >= 0 {
					lv.Sides[l.S[t]].XOff = []int{0, 90, 180, -90, -180, 359, 360, -1, 1, r.Intn(65536) - 32768}[r.Intn(10)]
				}
			}
		case 8: // neighbours of the special values, which mean nothing
			cnt["near"]++
			if lv.Hexen {
				l.Args[0] = byte([]int{231, 230, 232, 255}[r.Intn(4)])
				l.Action = []int{0, 48, 80, 24, 56, 57, 60, 255 & 1086}[r.Intn(8)]
				break
			}
			switch r.Intn(5) {
			case 0:
				l.Tag = []int{997, 1000, 899, 900, 901, 10998, 999 + 1024, 998 + 256}[r.Intn(8)]
			case 1:
				l.Action = []int{1079, 1087, 1078, 1047, 1049, 1085 - 1024, 60, 61, 62}[r.Intn(9)]
				l.Tag = r.Intn(400)
			case 2:
				if l.S[0] >= 0 {
					lv.Sides[l.S[0]].Mid = "BSPNOSEG"
				}
			case 3:
				if l.S[0] >= 0 {
					lv.Sides[l.S[0]].Up = "BSPNOSEG"
				}
			case 4:
				if l.S[r.Intn(2)] >= 0 {
					lv.Sides[l.S[0]].Low = []string{"BSPNOSE", "BSPNOSE1", "bspnoseg", "BSPNOSEH", "ASPNOSEG"}[r.Intn(5)]
				}
			}
		}
	}
	var d []string
	for k, v := range cnt {
		d = append(d, fmt.Sprintf("%s*%d", k, v))
	}
	sort.Strings(d)
	return strings.Join(d, " ")
}

func noHelper(int) bool { return false }

// specialSegs: omission, angle and blockmap effects of single lines.
func specialSegs(e *Env, i int) {
	r := e.Rand("special", i)
	g := RandOpt(r, r.Intn(3))
	g.Hexen = r.Intn(7) == 0
	g.Tags = r.Intn(3) == 0
	lv := Gen(r, "MAP01", g)
	sp := sprinkle(r, lv)
	args := nodeArgs(r, "vvvdddxzDX", len(lv.Lines) < 100)
	barg, header, super := bmArgs(r, false)
	args = append(args, barg)
	if r.Intn(2) == 0 {
		args = append(args, "-r-")
	}
	desc := fmt.Sprintf("%s hexen=%v %s", optKey(g), lv.Hexen, sp)
	c := e.NewCase(fmt.Sprintf("special %d %s %v", i, desc, args))
	defer c.Done()
	exp := specialExpect(lv, noHelper)
	rendered := 0
	for l := range lv.Lines {
		rendered += exp(l, 0) + exp(l, 1)
	}
	c.Write("in.wad", lv.Wad().Bytes())
	bt := c.Build("in.wad", "out.wad", args...)
	if bt == nil {
		e.Eval("")
		return
	}
	ol, err := DecodeLevel(bt.Wad, lv.Name)
	if err != nil {
		c.Violate("level", "%v", err)
		return
	}
	if len(ol.Lines) != len(lv.Lines) {
		c.Violate("lines", "%d lines became %d without any scrolling wall", len(lv.Lines), len(ol.Lines))
		return
	}
	b, err := ParseBSP(bt.Wad, lv.Name)
	if err != nil {
		c.Violate("parse", "nodes cannot be decoded: %v", err)
		return
	}
	if b == nil {
		if rendered > 1 { // one wall is not a map
			c.Violate("empty", "no nodes written although %d line sides are rendered: %s", rendered, tail(bt.Res.Out, 300))
		}
		e.Eval("")
		return
	}
	if err := b.Structure(ol); err != nil {
		c.Violate("structure", "%v (args %v)", err, args)
		return
	}
	var st segStats
	st.Loose = true
	if err := b.CheckSegs(ol, specialExpect(ol, noHelper), specialAngle(ol), &st); err != nil {
		c.Violate("segs", "%v (args %v)", err, args)
	}
	e.Count("special_segs_compared", len(b.Segs))
	for l := range ol.Lines {
		for s := 0; s < 2; s++ {
			if ol.Lines[l].S[s] >= 0 && exp(l, s) == 0 {
				e.Count("line_sides_required_absent", 1)
			}
		}
		if m, v := specialAngle(ol)(l, 0); m == 1 || m == 4 || v != 0 {
			e.Count("lines_with_modified_angle_"+b.Format, 1)
		}
	}
	key := ""
	if sp != "" && len(b.Segs) > 0 {
		key = desc + fmt.Sprint(args, len(b.Segs))
	}
	e.Eval(key)
	lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP")
	if len(lump) == 0 {
		any := false
		for l := range lv.Lines {
			any = any || bmWant(lv)(l) == 1
		}
		if any && !bmCouldNotFit(lv) {
			c.Violate("bmempty", "an empty blockmap was written although it fits: %s", tail(bt.Res.Out, 300))
		}
		return
	}
	bm, err := ParseBlockmap(lump, header, len(ol.Lines))
	if err != nil {
		c.Violate("bmdecode", "%v (options %s)", err, barg)
		return
	}
	var bs bmStats
	if err := bm.Check(ol, bmWant(ol), super, &bs); err != nil {
		c.Violate("blockmap", "%v (options %s)", err, barg)
	}
	for l := range ol.Lines {
		if bmWant(ol)(l) == 0 {
			e.Count("lines_required_out_of_blockmap", 1)
		}
	}
	if i < 3 {
		e.Sample(map[string]interface{}{"map": desc, "args": strings.Join(args, " "), "segs": len(b.Segs)})
	}
}

// withoutScroll strips the scroll actions, which leaves the same map to nodes,
// blockmap and reject.
func withoutScroll(lv *Level) *Level {
	o := *lv
	o.Lines = append([]Line{}, lv.Lines...)
	for i := range o.Lines {
		if a := o.Lines[i].Action; a == 48 || a == 1048 {
			o.Lines[i].Action = 0
		}
	}
	return &o
}

// farRoom adds a separate room near a corner of the coordinate space.
func farRoom(r *rand.Rand, lv *Level) {
	s := len(lv.Sects)
	lv.Sects = append(lv.Sects, Sect{Ceil: 128, FTex: "FLOOR0_1", CTex: "CEIL1_1"})
	x, y := 25000+r.Intn(6000), 25000+r.Intn(6000)
	if r.Intn(2) == 0 {
		x = -x
	}
	if r.Intn(2) == 0 {
		y = -y
	}
	v := len(lv.Verts)
	w := 64 + r.Intn(200)
	lv.Verts = append(lv.Verts, Vtx{x, y}, Vtx{x, y + w}, Vtx{x + w, y + w}, Vtx{x + w, y})
	for k := 0; k < 4; k++ {
		lv.Sides = append(lv.Sides, Side{Sector: s, Mid: "STARTAN2", Up: "-", Low: "-"})
		lv.Lines = append(lv.Lines, Line{V1: v + k, V2: v + (k+1)%4, Flags: 1, S: [2]int{len(lv.Sides) - 1, -1}})
	}
	if r.Intn(2) == 0 { // not always at the end of the lists
		n := len(lv.Lines)
		k := r.Intn(n)
		j := n - 1 - r.Intn(4)
		lv.Lines[k], lv.Lines[j] = lv.Lines[j], lv.Lines[k]
	}
}

// scatterScrollers makes walls scroll directly or from afar.
func scatterScrollers(r *rand.Rand, lv *Level) string {
	var d []string
	n := len(lv.Lines)
	used := map[int]bool{}
	pick := func() int {
		for t := 0; t < 50; t++ {
			i := r.Intn(n)
			if !used[i] {
				used[i] = true
				return i
			}
		}
		return -1
	}
	for i := range lv.Lines {
		if lv.Lines[i].Tag < 100 { // keep tags apart
			lv.Lines[i].Tag = 0
		}
	}
	speed := func() int { return []int{0, 1, 2, 2, 3, 5, 9, 40}[r.Intn(8)] }
	for k := 0; k < 1+r.Intn(4); k++ {
		if i := pick(); i >= 0 {
			lv.Lines[i].Action, lv.Lines[i].Tag = 48, speed()
			d = append(d, fmt.Sprintf("48:%d", lv.Lines[i].Tag))
		}
	}
	for k := 0; k < r.Intn(4); k++ {
		i, j := pick(), pick()
		if i < 0 || j < 0 {
			break
		}
		tag := 100*(1+k) + r.Intn(12)
		if r.Intn(6) == 0 {
			tag = 1100 + 100*k + r.Intn(5)
		}
		lv.Lines[i].Action, lv.Lines[i].Tag = 1048, tag
		lv.Lines[j].Tag = tag
		if r.Intn(2) == 0 {
			lv.Lines[j].Action = []int{1, 31, 117, 0}[r.Intn(4)]
		}
		for t := 0; t < r.Intn(3); t++ { // farther or nearer walls with that tag
			if x := pick(); x >= 0 {
				lv.Lines[x].Tag = tag
			}
		}
		d = append(d, fmt.Sprintf("1048:%d", tag))
	}
	if r.Intn(4) == 0 {
		if i := pick(); i >= 0 {
			lv.Lines[i].Action, lv.Lines[i].Tag = 1048, 0
			d = append(d, "1048:0")
		}
	}
	if r.Intn(4) == 0 { // nothing to scroll
		if i := pick(); i >= 0 {
			lv.Lines[i].Action, lv.Lines[i].Tag = 1048, 870
			d = append(d, "1048:lone")
		}
	}
	return strings.Join(d, " ")
}

// sameLumps compares everything of a level but its lines.
func sameLumps(a, b *Wad, names ...string) error {
	for _, n := range names {
		x, _ := a.LevelLump("MAP01", n)
		y, _ := b.LevelLump("MAP01", n)
		if !bytes.Equal(x, y) {
			return fmt.Errorf("%s (%d bytes) differs from that of the same map without scrolling (%d bytes), first at %d", n, len(y), len(x), firstDiff(x, y))
		}
	}
	return nil
}

// specialScroll: helper lines.
func specialScroll(e *Env, i int) {
	r := e.Rand("scroll", i)
	g := RandOpt(r, r.Intn(3))
	g.Hexen = r.Intn(10) == 0
	g.Tags = r.Intn(3) == 0
	lv := Gen(r, "MAP01", g)
	sp := ""
	if r.Intn(3) == 0 { // walls at opposite ends of the coordinate space
		for k := 0; k < 2+r.Intn(3); k++ {
			farRoom(r, lv)
		}
	}
	if lv.Hexen {
		for k := 0; k < 3; k++ {
			l := &lv.Lines[r.Intn(len(lv.Lines))]
			l.Action, l.Args[0] = 48, byte(2+r.Intn(9))
		}
		sp = "hexen"
	} else {
		sp = scatterScrollers(r, lv)
	}
	want, ok := scrollWant(lv)
	for t := 0; t < 5 && !ok; t++ {
		sp = scatterScrollers(r, lv)
		want, ok = scrollWant(lv)
	}
	if !ok {
		e.Eval("")
		return
	}
	args := append([]string{"-d"}, nodeArgs(r, "vvdxDX", false)...)
	removal := r.Intn(4) == 0
	barg, header, super := bmArgs(r, removal)
	args = append(args, barg)
	if r.Intn(4) == 0 {
		args = append(args, fmt.Sprintf("-rs=%d", r.Intn(4)))
	}
	c := e.NewCase(fmt.Sprintf("scroll %d %s | %s %v", i, optKey(g), sp, args))
	defer c.Done()
	all := []string{"NODES", "SEGS", "SSECTORS", "VERTEXES", "REJECT", "SIDEDEFS", "SECTORS"}
	c.Write("base.wad", withoutScroll(lv).Wad().Bytes())
	base := c.Build("base.wad", "bo.wad", args...)
	if base == nil {
		e.Eval("")
		return
	}
	n := len(lv.Lines)
	total := 0
	for _, v := range want {
		total += v
	}
	key := ""
	if total > 0 {
		key = fmt.Sprint(optKey(g), sp, args)
	}
	e.Eval(key)
	e.Count("helper_lines_required", total)
	// judge a full or partial build of a level
	judge := func(what string, in *Level, from, ref *Wad, inName string, extra []string, full bool, must map[scrollKey]int) (*Level, *Wad) {
		a := append(append([]string{}, args...), extra...)
		c.Write(inName+".wad", from.Bytes())
		bt := c.Build(inName+".wad", inName+".out.wad", a...)
		if bt == nil {
			return nil, nil
		}
		ol, err := DecodeLevel(bt.Wad, lv.Name)
		if err != nil {
			c.Violate("level", "%s: %v", what, err)
			return nil, nil
		}
		for k := 0; k < n; k++ {
			x, y := in.Lines[k], ol.Lines[k]
			if in.Verts[x.V1] != ol.Verts[y.V1] || in.Verts[x.V2] != ol.Verts[y.V2] || x.Flags != y.Flags || x.Action != y.Action || x.Tag != y.Tag || x.S != y.S || x.Args != y.Args {
				c.Violate("authored", "%s: line %d %+v became %+v (%v)", what, k, x, y, a)
				return nil, nil
			}
		}
		if err := checkHelpers(ol, n, must); err != nil {
			c.Violate("helpers", "%s: %v (args %v)", what, err, a)
			return nil, nil
		}
		names := all
		if !full {
			names = nil
			if has(extra, "-n-") {
			} else {
				names = append(names, "NODES", "SEGS", "SSECTORS", "VERTEXES")
			}
			names = append(names, "REJECT")
		}
		if err := sameLumps(ref, bt.Wad, names...); err != nil {
			c.Violate("lumps", "%s: %v (args %v)", what, err, a)
			return nil, nil
		}
		e.Count("scroll_builds_compared", 1)
		if lump, _ := bt.Wad.LevelLump(lv.Name, "BLOCKMAP"); len(lump) > 0 && (full || !has(extra, "-b-")) {
			bm, err := ParseBlockmap(lump, header, len(ol.Lines))
			if err != nil {
				c.Violate("bmdecode", "%s: %v (args %v)", what, err, a)
				return nil, nil
			}
			rem := bmRemovable(ol)
			var bs bmStats
			if err := bm.Check(ol, func(l int) int {
				if l >= n || bmWant(ol)(l) == 0 {
					return 0
				}
				if removal && rem(l) {
					return -1
				}
				return 1
			}, super, &bs); err != nil {
				c.Violate("blockmap", "%s: %v (args %v)", what, err, a)
				return nil, nil
			}
		}
		return ol, bt.Wad
	}
	part := [][]string{{"-b-"}, {"-n-"}, {"-b-", "-n-"}}
	if r.Intn(2) == 0 { // no helpers come or go unless both are rebuilt
		p := part[r.Intn(3)]
		if o, _ := judge("partial build of a fresh map", lv, lv.Wad(), base.Wad, "fresh", p, false, nil); o == nil {
			return
		}
	}
	first, fw := judge("build", lv, lv.Wad(), base.Wad, "first", nil, true, want)
	if first == nil {
		return
	}
	if lv.Hexen {
		return
	}
	if len(first.Lines) > 65000 {
		return
	}
	// the author changes the speeds and builds again
	next := *first
	next.Lines = append([]Line{}, first.Lines...)
	mod := *lv
	mod.Lines = append([]Line{}, lv.Lines...)
	for k := 0; k < n; k++ {
		if mod.Lines[k].Action == 48 && r.Intn(3) > 0 {
			t := []int{0, 1, 2, 3, 4, 7, 30}[r.Intn(7)]
			mod.Lines[k].Tag, next.Lines[k].Tag = t, t
		}
	}
	for k := range fw.Lumps {
		if fw.Lumps[k].Name == "LINEDEFS" {
			fw.Lumps[k].Data = next.LinedefBytes()
		}
	}
	// the same steps without scrolling, for reference
	still := withoutScroll(&next)
	bl, err := DecodeLevel(base.Wad, lv.Name)
	if err != nil {
		c.Violate("level", "%v", err)
		return
	}
	for k := 0; k < n; k++ {
		bl.Lines[k].Tag, bl.Lines[k].Action = still.Lines[k].Tag, still.Lines[k].Action
	}
	for k := range base.Wad.Lumps {
		if base.Wad.Lumps[k].Name == "LINEDEFS" {
			base.Wad.Lumps[k].Data = bl.LinedefBytes()
		}
	}
	c.Write("bo2.wad", base.Wad.Bytes())
	rebuilt := func(extra ...string) *Wad {
		bt := c.Build("bo2.wad", "bo3.wad", append(append([]string{}, args...), extra...)...)
		if bt == nil {
			return base.Wad
		}
		return bt.Wad
	}
	p := part[r.Intn(3)]
	if o, _ := judge("partial build over existing helpers", &next, fw, rebuilt(p...), "part", p, false, want); o == nil {
		return
	}
	want2, ok := scrollWant(&mod)
	if !ok {
		return
	}
	if o, _ := judge("second build after changing speeds", &next, fw, rebuilt(), "second", nil, true, want2); o == nil {
		return
	}
	e.Count("speed_changes", 1)
}

// specialCoalesce: a convex room of several sectors whose dividers are not
// rendered is one subsector when its sectors ask for that, and not otherwise.
func specialCoalesce(e *Env, i int) {
	r := e.Rand("coalesce", i)
	lv := &Level{Name: "MAP01", Hexen: false}
	w, h := 128+r.Intn(500), 128+r.Intn(300)
	ox, oy := r.Intn(4000)-2000, r.Intn(4000)-2000
	parts := 2 + r.Intn(2)
	tagged := r.Intn(2) == 0
	tags := make([]int, parts)
	for k := range tags {
		tags[k] = r.Intn(900)
		if tagged {
			tags[k] = 900 + r.Intn(200)
		}
	}
	for k := 0; k < parts; k++ {
		lv.Sects = append(lv.Sects, Sect{Ceil: 128, Floor: 8 * k, Tag: tags[k], FTex: "A", CTex: "B"})
	}
	v := func(x, y int) int { lv.Verts = append(lv.Verts, Vtx{x + ox, y + oy}); return len(lv.Verts) - 1 }
	side := func(s int) int {
		lv.Sides = append(lv.Sides, Side{Sector: s, Mid: "W", Up: "-", Low: "-"})
		return len(lv.Sides) - 1
	}
	wall := func(a, b, s int) {
		lv.Lines = append(lv.Lines, Line{V1: a, V2: b, Flags: 1, S: [2]int{side(s), -1}})
	}
	how := r.Intn(3)
	lo, hi := v(0, 0), v(0, h)
	wall(lo, hi, 0)
	xb, xt := 0, 0
	for k := 0; k < parts; k++ {
		nb, nt := w*(k+1)/parts+r.Intn(30)-15, w*(k+1)/parts+r.Intn(30)-15
		if k == parts-1 {
			nb, nt = w+20, w+20
		}
		nl, nh := v(nb, 0), v(nt, h)
		wall(hi, nh, k)
		wall(nl, lo, k)
		if k == parts-1 {
			wall(nh, nl, k)
		} else {
			l := Line{V1: nl, V2: nh, Flags: 4, S: [2]int{side(k + 1), side(k)}}
			switch how {
			case 0:
				l.Tag = 998
			case 1:
				l.Action = 1086
			case 2:
				lv.Sides[l.S[0]].Low, lv.Sides[l.S[1]].Low = "BSPNOSEG", "BSPNOSEG"
			}
			lv.Lines = append(lv.Lines, l)
		}
		lo, hi, xb, xt = nl, nh, nb, nt
	}
	_, _ = xb, xt
	// a second room, whose walls' extensions miss the first
	room := len(lv.Lines)
	lv.Sects = append(lv.Sects, Sect{Ceil: 128})
	a, b := v(w+200, -600), v(w+200, h+600)
	cc, d := v(w+500, h+600), v(w+500, -600)
	wall(a, b, parts)
	wall(b, cc, parts)
	wall(cc, d, parts)
	wall(d, a, parts)
	first := map[int]bool{}
	lv.Things = []Thing{{X: ox + 20, Y: oy + 20, Type: 1, Flags: 7}}
	ord := r.Perm(len(lv.Lines))
	lines := make([]Line, len(ord))
	for k, x := range ord {
		lines[x] = lv.Lines[k]
		first[x] = k < room
	}
	lv.Lines = lines
	args := nodeArgs(r, "vvdxzDX", true)
	c := e.NewCase(fmt.Sprintf("coalesce %d parts %d tags %v how %d %v", i, parts, tags, how, args))
	defer c.Done()
	nc := runNodeCase(c, lv, "coalesce", args)
	if nc == nil {
		e.Eval("")
		return
	}
	e.Eval(fmt.Sprint(parts, tags, how, args))
	if err := nc.b.Structure(nc.out); err != nil {
		c.Violate("structure", "%v (args %v)", err, args)
		return
	}
	subs := 0
	for _, ss := range nc.b.SSecs {
		for k := ss.First; k < ss.First+ss.Count; k++ {
			if first[nc.b.Segs[k].Line] {
				subs++
				break
			}
		}
	}
	if tagged {
		e.Count("rooms_to_coalesce", 1)
		if subs != 1 {
			c.Violate("coalesce", "a convex room of %d sectors tagged %v with no rendered divider became %d subsectors (args %v)", parts, tags, subs, args)
		}
		return
	}
	e.Count("rooms_not_to_coalesce", 1)
	if subs < 2 {
		c.Violate("coalesced", "sectors tagged %v share a subsector (args %v)", tags, args)
	}
}

func chkSpecial(e *Env) {
	e.rule = "random maps with the documented special tags, actions and textures (and their neighbours that mean nothing) on random lines x node formats and blockmap options: every seg, angle and block compared with a model of the manual; scrolling walls: helper lines against the model, every other lump against the same map without scrolling, then speeds changed and rebuilt fully and partially; rooms of several sectors for the sector tag; non-trivial = at least one special line with segs, helper lines required, or a room built; distinct by map, specials and options"
	n := e.N(2400, 40000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		switch i % 8 {
		case 0, 1, 2, 3:
			specialSegs(e, i)
		case 4, 5, 6:
			specialScroll(e, i)
		case 7:
			specialCoalesce(e, i)
		}
	})
}
