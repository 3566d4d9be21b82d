package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

func init() {
	checks["C06"] = chkStructure
	checks["C07"] = chkSegs
	checks["C08"] = chkGeometry
}

type nodeCase struct {
	lv   *Level
	desc string
	args []string
	b    *BSP
	out  *Level
	res  *Result
}

// runNodeCase builds a map and parses the nodes. Returns nil if a violation was
// recorded or nothing was built.
func runNodeCase(c *Case, lv *Level, desc string, args []string) *nodeCase {
	c.Write("in.wad", lv.Wad().Bytes())
	bt := c.Build("in.wad", "out.wad", args...)
	if bt == nil {
		return nil
	}
	b, err := ParseBSP(bt.Wad, lv.Name)
	if err != nil {
		c.Violate("parse", "nodes cannot be decoded: %v", err)
		return nil
	}
	ol, err := DecodeLevel(bt.Wad, lv.Name)
	if err != nil {
		c.Violate("level", "output level cannot be decoded: %v", err)
		return nil
	}
	if b == nil {
		if len(lv.Lines) > 0 && len(lv.Lines) < 6000 {
			c.Violate("empty", "no nodes were written for a map of %d lines: %s", len(lv.Lines), tail(bt.Res.Out, 300))
		}
		return nil
	}
	return &nodeCase{lv, desc, args, b, ol, bt.Res}
}

func nodeCases(e *Env, n int, f func(c *Case, nc *nodeCase, i int)) {
	nodeCasesOf(e, "map", n, anyPlanar, f)
}

func nodeCasesOf(e *Env, kind string, n int, gen func(*rand.Rand, int) (*Level, string), f func(c *Case, nc *nodeCase, i int)) {
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand(kind, i)
		lv, desc := gen(r, i)
		multi := len(lv.Lines) < 150
		args := nodeArgs(r, "vvdxxzDXZV", multi)
		if r.Intn(3) == 0 {
			args = append(args, "-b-")
		}
		if r.Intn(2) == 0 {
			args = append(args, "-r-")
		}
		c := e.NewCase(fmt.Sprintf("%d %s %v", i, desc, args))
		defer c.Done()
		nc := runNodeCase(c, lv, desc, args)
		if nc == nil {
			e.Eval("")
			return
		}
		key := ""
		if len(nc.b.Nodes) > 0 {
			key = fmt.Sprintf("%s|%v|%d", desc, args, len(nc.b.Segs))
		}
		e.Eval(key)
		e.Count("nodes", len(nc.b.Nodes))
		e.Count("segs", len(nc.b.Segs))
		e.Count("subsectors", len(nc.b.SSecs))
		e.Count("trees_"+nc.b.Format, 1)
		e.Max("largest_tree_segs", len(nc.b.Segs))
		if i < 3 {
			e.Sample(map[string]interface{}{"map": desc, "args": strings.Join(args, " "), "format": nc.b.Format, "segs": len(nc.b.Segs), "nodes": len(nc.b.Nodes)})
		}
		f(c, nc, i)
	})
}

func chkStructure(e *Env) {
	e.rule = "random planar and hostile (crossing, overlapping, dangling) maps x random node options; non-trivial = the output has at least one node; distinct by map, options and seg count"
	judge := func(c *Case, nc *nodeCase, i int) {
		if err := nc.b.Structure(nc.out); err != nil {
			c.Violate("structure", "%v (args %v)", err, nc.args)
			return
		}
		n, err := nc.b.AddedVertices(nc.out)
		e.Count("added_vertices", n)
		if err != nil {
			c.Violate("vertices", "%v (args %v)", err, nc.args)
		}
	}
	nodeCases(e, e.N(1500, 6000), judge)
	nodeCasesOf(e, "tight", e.N(600, 6000), tightMap, judge)
	nodeCasesOf(e, "crossing", e.N(300, 3000), crossMap, judge)
}

// tightMap: small cells and skewed lines, so that splits fall together when
// their vertices are rounded.
func tightMap(r *rand.Rand, i int) (*Level, string) {
	o := RandOpt(r, 0)
	o.W, o.H, o.Cell, o.Rot, o.Diag = 4+r.Intn(10), 3+r.Intn(8), 32+r.Intn(40), r.Float64()*6, 0.6*r.Float64()
	o.Jitter, o.Void, o.Island, o.Pillar = 0.28*r.Float64(), 0.5*r.Float64(), 0.4*r.Float64(), 0.5*r.Float64()
	return Gen(r, "MAP01", o), "tight " + optKey(o)
}

// crossMap: lines that cross others and end on others.
func crossMap(r *rand.Rand, i int) (*Level, string) {
	lv, desc := planarMap(r, r.Intn(2))
	n := len(lv.Verts)
	k := 1 + r.Intn(8)
	for j := 0; j < k; j++ {
		a, b := r.Intn(n), r.Intn(n)
		if r.Intn(3) == 0 { // to the middle of a line
			l := lv.Lines[r.Intn(len(lv.Lines))]
			p, q := lv.Verts[l.V1], lv.Verts[l.V2]
			lv.Verts = append(lv.Verts, Vtx{(p.X + q.X) / 2, (p.Y + q.Y) / 2})
			b = len(lv.Verts) - 1
		}
		if lv.Verts[a] == lv.Verts[b] {
			continue
		}
		lv.Sides = append(lv.Sides, Side{Sector: r.Intn(len(lv.Sects))}, Side{Sector: r.Intn(len(lv.Sects))})
		lv.Lines = append(lv.Lines, Line{V1: a, V2: b, Flags: 4, S: [2]int{len(lv.Sides) - 2, len(lv.Sides) - 1}})
	}
	return lv, fmt.Sprintf("cross%d %s", k, desc)
}

func plainExpect(lv *Level) func(l, s int) int {
	return func(l, s int) int {
		ln := lv.Lines[l]
		if lv.Verts[ln.V1] == lv.Verts[ln.V2] || ln.S[s] < 0 {
			return 0
		}
		return 1
	}
}

func chkSegs(e *Env) {
	e.rule = "random planar maps x random node options; each seg compared with its linedef and each line side's segs chained end to end; non-trivial = at least one node"
	judge := func(c *Case, nc *nodeCase, i int) {
		st := segStats{Loose: strings.HasPrefix(nc.desc, "strip") || strings.HasPrefix(nc.desc, "big")}
		if err := nc.b.Structure(nc.out); err != nil {
			c.Violate("structure", "%v (args %v)", err, nc.args)
			return
		}
		if err := nc.b.CheckSegs(nc.out, plainExpect(nc.out), nil, &st); err != nil {
			c.Violate("segs", "%v (args %v)", err, nc.args)
		}
		e.Count("splits", st.Splits)
		e.Max("max_vertex_deviation_milliunits_"+nc.b.Format, int(st.MaxDev*1000))
	}
	nodeCases(e, e.N(1500, 6000), judge)
	nodeCasesOf(e, "long", e.N(250, 2000), longMap, judge)
}

func chkGeometry(e *Env) {
	e.rule = "random planar maps x random node options; random points (half of them hugging lines) located through the tree and through the linedefs; every seg checked against all ancestor partitions and boxes; non-trivial = at least one node"
	judge := func(c *Case, nc *nodeCase, i int) {
		if err := nc.b.Structure(nc.out); err != nil {
			c.Violate("structure", "%v (args %v)", err, nc.args)
			return
		}
		var g geoStats
		nc.b.Geometry(nc.out, &g)
		wrong, convex := 20.0, 5.0
		if strings.HasPrefix(nc.desc, "strip") {
			wrong, convex = 40, 15
		}
		margin := 10.0
		if nc.b.Extended {
			wrong, convex = 0.01, 0.05
			margin = 0.6
		}
		if g.MaxBox > 0.001 {
			c.Violate("bbox", "a child box leaves out a vertex below it by %.3f units (args %v)", g.MaxBox, nc.args)
		}
		if g.MaxSlack > 1.001 {
			c.Violate("bbox-slack", "a child box is %.3f units larger than its contents (args %v)", g.MaxSlack, nc.args)
		}
		if g.MaxWrong > wrong {
			c.Violate("side", "a seg reaches %.4f units to the wrong side of a partition above it (args %v)", g.MaxWrong, nc.args)
		}
		if g.MaxConvex > convex {
			c.Violate("convex", "a subsector is concave by %.4f units (args %v)", g.MaxConvex, nc.args)
		}
		// Formats with integer vertices: rounding of split points tilts short
		// partitions, so isolated points in slivers may be misplaced; more than
		// a small fraction of the points is a defect. Extended: none at all.
		bad, first := 0, ""
		t0 := g.PointTests
		nc.b.PointLocation(nc.out, NewLocator(nc.out, nil), e.Rand("pts", i), e.N(1500, 6000), margin, &g, func(x, y float64, want, got int, near float64) {
			bad++
			if first == "" {
				first = fmt.Sprintf("point (%.3f,%.3f), %.2f units from the nearest line, is in sector %d but the tree leads to sector %d", x, y, near, want, got)
			}
		})
		allow := 0
		if !nc.b.Extended {
			allow = 3 + (g.PointTests-t0)/50
			e.Max("worst_misplaced_points_permille_"+nc.b.Format, bad*1000/(g.PointTests-t0+1))
		}
		if bad > allow {
			c.Violate("point", "%d of %d points misplaced: %s (args %v)", bad, g.PointTests-t0, first, nc.args)
		}
		e.Count("points_located", g.PointTests)
		e.Max("tree_depth_max", g.Depth)
		e.Max("max_wrong_side_milliunits_"+nc.b.Format, int(g.MaxWrong*1000))
		e.Max("max_concavity_milliunits_"+nc.b.Format, int(g.MaxConvex*1000))
	}
	nodeCases(e, e.N(1000, 5000), judge)
	nodeCasesOf(e, "long", e.N(250, 2000), longMap, func(c *Case, nc *nodeCase, i int) {
		if !nc.b.Extended && splitLong(nc) {
			e.Count("long_left_out_whole_coordinates", 1)
			return
		}
		e.Count("long_judged_"+nc.b.Format, 1)
		judge(c, nc, i)
	})
}

// splitLong: a line longer than a partition can tell is split. With whole
// coordinates what is left of it may have no shorter vector of its direction,
// and the program says (-v) that it cannot represent such a partition.
func splitLong(nc *nodeCase) bool {
	n := map[[2]int]int{}
	for _, s := range nc.b.Segs {
		l := nc.out.Lines[s.Line]
		a, b := nc.out.Verts[l.V1], nc.out.Verts[l.V2]
		if dx, dy := b.X-a.X, b.Y-a.Y; max(dx, dy, -dx, -dy) > 32767 {
			if n[[2]int{s.Line, s.Side}]++; n[[2]int{s.Line, s.Side}] > 1 {
				return true
			}
		}
	}
	return false
}

// longMap: walls and sector borders longer than a node's partition can tell,
// all of which can be told by a shorter vector of the same direction. Islands
// and pillars between them cause splits.
func longMap(r *rand.Rand, i int) (*Level, string) {
	lv := &Level{Name: "MAP01"}
	vi := map[Vtx]int{}
	v := func(x, y int) int {
		p := Vtx{x, y}
		k, ok := vi[p]
		if !ok {
			k = len(lv.Verts)
			vi[p] = k
			lv.Verts = append(lv.Verts, p)
		}
		return k
	}
	swap := r.Intn(2) == 0 // long in y instead of x
	type pt struct{ x, y int }
	// line a->b with sector right on its right
	line := func(a, b pt, right, left int) {
		if r.Intn(2) == 0 && left >= 0 {
			a, b, right, left = b, a, left, right
		}
		if swap { // mirrors, so the sides change
			a, b = pt{b.y, b.x}, pt{a.y, a.x}
		}
		l := Line{V1: v(a.x, a.y), V2: v(b.x, b.y), Flags: 1, S: [2]int{-1, -1}}
		lv.Sides = append(lv.Sides, Side{Sector: right})
		l.S[0] = len(lv.Sides) - 1
		if left >= 0 {
			lv.Sides = append(lv.Sides, Side{Sector: left})
			l.S[1] = len(lv.Sides) - 1
			l.Flags = 4
		}
		lv.Lines = append(lv.Lines, l)
	}
	sector := func() int {
		lv.Sects = append(lv.Sects, Sect{Floor: 8 * r.Intn(9), Ceil: 128})
		return len(lv.Sects) - 1
	}
	W := 33000 + r.Intn(32000)
	g, div := 1200, []int{100, 60, 50, 48, 24}
	if i%4 == 0 { // the first length that is too long, one way only
		W, g, div = 32768, 1024, []int{128, 64, 64, 32, 16}
	}
	W -= W % g
	x0 := -W/2 + r.Intn(200) - 100
	strips := 1 + r.Intn(5)
	yl, yr := []int{}, []int{}
	y, z := -16000+r.Intn(9000), 0
	z = y
	for k := 0; k <= strips; k++ {
		yl, yr = append(yl, y), append(yr, z)
		d := 1500 + r.Intn(4000)
		y += d
		z += d + r.Intn(3)*(r.Intn(3)-1)*(W/div[r.Intn(5)])
		if (z-y)%(W/g) != 0 {
			z -= (z - y) % (W / g)
		}
		if z < yr[k]+800 {
			z = y
			if z < yr[k]+800 {
				y += yr[k] + 800 - z
				z = y
			}
		}
	}
	for k := range yr {
		if yr[k] > 32000 || yr[k] < -32000 || yl[k] > 32000 {
			return longMap(r, i)
		}
	}
	sec := make([]int, strips)
	for k := range sec {
		sec[k] = sector()
	}
	for k := 0; k <= strips; k++ {
		a, b := pt{x0, yl[k]}, pt{x0 + W, yr[k]}
		switch {
		case k == 0:
			line(b, a, sec[0], -1)
		case k == strips:
			line(a, b, sec[k-1], -1)
		default:
			line(a, b, sec[k-1], sec[k])
		}
		if k < strips {
			line(a, pt{x0, yl[k+1]}, sec[k], -1)
			line(pt{x0 + W, yr[k+1]}, b, sec[k], -1)
		}
	}
	n, skip := 0, 1
	if i%3 == 0 {
		skip = 3 // no islands: the long lines stay whole
	}
	for k := 0; k < strips; k++ {
		for c := 0; c < 8; c++ {
			if r.Intn(3) < skip {
				continue
			}
			x := x0 + W*(2*c+1)/16
			at := func(l, r []int, k int) int { return l[k] + (r[k]-l[k])*(x-x0)/W }
			lo, hi := at(yl, yr, k), at(yl, yr, k+1)
			R := (hi - lo) / 3
			if R > W/20 {
				R = W / 20
			}
			if R < 40 {
				continue
			}
			R = 40 + r.Intn(R-39)
			m := 3 + r.Intn(5)
			t := r.Float64() * 6
			var ps []pt
			for j := 0; j < m; j++ { // clockwise
				a := t - 2*math.Pi*float64(j)/float64(m)
				ps = append(ps, pt{x + int(float64(R)*math.Cos(a)), (lo+hi)/2 + int(float64(R)*math.Sin(a))})
			}
			in := -1
			if r.Intn(2) == 0 {
				in = sector()
			}
			n++
			for j := range ps {
				a, b := ps[j], ps[(j+1)%m]
				if in >= 0 {
					line(a, b, in, sec[k])
				} else {
					line(b, a, sec[k], -1)
				}
			}
		}
	}
	p := lv.Verts[lv.Lines[0].V1]
	lv.Things = []Thing{{X: p.X, Y: p.Y, Type: 1, Flags: 7}}
	r.Shuffle(len(lv.Lines), func(a, b int) { lv.Lines[a], lv.Lines[b] = lv.Lines[b], lv.Lines[a] })
	return lv, fmt.Sprintf("big long W%d strips%d islands%d %v #%d", W, strips, n, swap, i)
}
