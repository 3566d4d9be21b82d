package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

func init() { checks["C24"] = chkCull }

// selfLoop is a polygon whose lines name the same sector on both sides.
type selfLoop struct {
	lines   []int // its outline
	inner   []int // lines inside it
	sector  int   // sector named by its lines
	around  int   // sector it lies in
	px, py  float64
	rad     float64 // a disc of this radius around p is inside and free of lines
	touches bool
	kept    bool // sector occurs nowhere else
}

// clearOf tells whether segment a-b keeps away from every line of the level but
// for touching it at vertex q (nil: not at all).
func clearOf(lv *Level, a, b Vtx, q *Vtx) bool {
	for _, l := range lv.Lines {
		c, d := lv.Verts[l.V1], lv.Verts[l.V2]
		if q != nil && (c == *q || d == *q) {
			// may share q, but must not run along the line
			o := c
			if c == *q {
				o = d
			}
			e := a
			if a == *q {
				e = b
			}
			cr := (o.X-q.X)*(e.Y-q.Y) - (o.Y-q.Y)*(e.X-q.X)
			dt := (o.X-q.X)*(e.X-q.X) + (o.Y-q.Y)*(e.Y-q.Y)
			if cr == 0 && dt > 0 {
				return false
			}
			// neither end may be inside the other
			if distToSeg(float64(o.X), float64(o.Y), float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)) < 3 ||
				distToSeg(float64(e.X), float64(e.Y), float64(c.X), float64(c.Y), float64(d.X), float64(d.Y)) < 3 {
				return false
			}
			continue
		}
		if segDistLo(a, b, c, d) < 3 {
			return false
		}
	}
	return true
}

func segDistLo(a, b, c, d Vtx) float64 {
	side := func(a, b, p Vtx) bool { return (b.X-a.X)*(p.Y-a.Y) > (b.Y-a.Y)*(p.X-a.X) }
	if side(a, b, c) != side(a, b, d) && side(c, d, a) != side(c, d, b) {
		return 0
	}
	lo, _ := segDist(a, b, c, d)
	return lo
}

// addLoop puts a self-referencing polygon on the map, or returns nil.
func addLoop(r *rand.Rand, lv *Level, sect int, others []*selfLoop) *selfLoop {
	x0, y0, x1, y1 := lv.Bounds()
	base := len(lv.Lines)
	for _, o := range others {
		base = min(base, o.lines[0])
	}
	loc, real := NewLocator(lv, nil), NewLocator(lv, func(i int) bool { return i >= base })
	for try := 0; try < 30; try++ {
		px, py := float64(x0)+r.Float64()*float64(x1-x0), float64(y0)+r.Float64()*float64(y1-y0)
		y, near := loc.Sector(px, py)
		if y < 0 || near < 14 {
			continue
		}
		y, _ = real.Sector(px, py)
		size := 0.0
		for _, o := range others { // innermost
			if o.holds(lv, px, py) && (size == 0 || o.rad < size) {
				y, size = o.sector, o.rad
			}
		}
		rad := math.Min(near-3, 10+r.Float64()*60)
		n := 3 + r.Intn(4)
		ph := r.Float64() * 7
		var poly []Vtx
		var q *Vtx
		if r.Intn(2) == 0 { // reach for a vertex of the map
			l := lv.Lines[r.Intn(len(lv.Lines))]
			v := lv.Verts[l.V1]
			q = &v
			ph = math.Atan2(float64(v.Y)-py, float64(v.X)-px)
		}
		for t := 0; t < n; t++ {
			s, c := math.Sincos(ph + 2*math.Pi*float64(t)/float64(n))
			poly = append(poly, Vtx{int(math.Round(px + rad*c)), int(math.Round(py + rad*s))})
		}
		if q != nil {
			poly[0] = *q
		}
		ok := true
		for t := range poly {
			a, b := poly[t], poly[(t+1)%n]
			var qq *Vtx
			if q != nil && (t == 0 || t == n-1) {
				qq = q
			}
			if a == b || !clearOf(lv, a, b, qq) {
				ok = false
				break
			}
			// convex, counterclockwise
			c := poly[(t+2)%n]
			if (b.X-a.X)*(c.Y-b.Y)-(b.Y-a.Y)*(c.X-b.X) <= 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		in := func(v Vtx) bool {
			for t := range poly {
				a, b := poly[t], poly[(t+1)%n]
				if (b.X-a.X)*(v.Y-a.Y)-(b.Y-a.Y)*(v.X-a.X) < 0 {
					return false
				}
			}
			return true
		}
		for _, l := range lv.Lines {
			for _, k := range []int{l.V1, l.V2} {
				if v := lv.Verts[k]; in(v) && (q == nil || v != *q) {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		lp := &selfLoop{sector: sect, around: y, px: px, py: py, touches: q != nil}
		idx := make([]int, n)
		for t, v := range poly {
			idx[t] = -1
			if q != nil && t == 0 {
				for _, l := range lv.Lines {
					if lv.Verts[l.V1] == v {
						idx[t] = l.V1
					} else if lv.Verts[l.V2] == v {
						idx[t] = l.V2
					}
				}
			}
			if idx[t] < 0 {
				lv.Verts = append(lv.Verts, v)
				idx[t] = len(lv.Verts) - 1
			}
		}
		line := func(a, b int) int {
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			sd := func() int {
				lv.Sides = append(lv.Sides, Side{Sector: sect, Up: "-", Low: "-", Mid: "-"})
				return len(lv.Sides) - 1
			}
			lv.Lines = append(lv.Lines, Line{V1: a, V2: b, Flags: 4, S: [2]int{sd(), sd()}})
			return len(lv.Lines) - 1
		}
		for t := range poly {
			lp.lines = append(lp.lines, line(idx[t], idx[(t+1)%n]))
		}
		lp.rad = math.Inf(1)
		for t := range poly {
			a, b := poly[t], poly[(t+1)%n]
			lp.rad = math.Min(lp.rad, distToSeg(px, py, float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)))
		}
		switch r.Intn(4) { // something inside
		case 0: // a dangling line from a corner
			t := 1 + r.Intn(n-1)
			v := poly[t]
			m := Vtx{v.X + int((px-float64(v.X))*0.4), v.Y + int((py-float64(v.Y))*0.4)}
			if m != v {
				lv.Verts = append(lv.Verts, m)
				lp.inner = append(lp.inner, line(idx[t], len(lv.Verts)-1))
				lp.rad = math.Min(lp.rad, math.Hypot(px-float64(m.X), py-float64(m.Y)))
			}
		case 1: // a chord
			if n > 3 {
				t := r.Intn(n)
				u := (t + 2 + r.Intn(n-3)) % n
				lp.inner = append(lp.inner, line(idx[t], idx[u]))
				a, b := poly[t], poly[u]
				lp.rad = math.Min(lp.rad, distToSeg(px, py, float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)))
			}
		}
		return lp
	}
	return nil
}

// holds tells whether a point is inside the outline.
func (lp *selfLoop) holds(lv *Level, x, y float64) bool {
	in := false
	for _, k := range lp.lines {
		a, b := lv.Verts[lv.Lines[k].V1], lv.Verts[lv.Lines[k].V2]
		if (float64(a.Y) > y) != (float64(b.Y) > y) &&
			x < float64(a.X)+(y-float64(a.Y))*float64(b.X-a.X)/float64(b.Y-a.Y) {
			in = !in
		}
	}
	return in
}

// enclosed tells whether the polygon hangs on lines of its own sector which
// also surround it.
func enclosed(lv *Level, lp *selfLoop, own map[int]bool) bool {
	if !lp.touches {
		return false
	}
	at := map[Vtx]bool{}
	for _, k := range lp.lines {
		at[lv.Verts[lv.Lines[k].V1]] = true
	}
	comp := map[int]bool{}
	for again := true; again; {
		again = false
		for k := range lv.Lines {
			l := &lv.Lines[k]
			a, b := lv.Verts[l.V1], lv.Verts[l.V2]
			if comp[k] || own[k] || !at[a] && !at[b] {
				continue
			}
			if lv.SectorOf(k, 0) != lp.sector && (l.S[1] < 0 || lv.SectorOf(k, 1) != lp.sector) {
				continue
			}
			comp[k], at[a], at[b], again = true, true, true, true
		}
	}
	for t := 0; t < 64; t++ {
		s, c := math.Sincos(float64(t)*math.Pi/32 + 0.01)
		hit := false
		for k := range comp {
			a, b := lv.Verts[lv.Lines[k].V1], lv.Verts[lv.Lines[k].V2]
			ax, ay, bx, by := float64(a.X)-lp.px, float64(a.Y)-lp.py, float64(b.X)-lp.px, float64(b.Y)-lp.py
			ca, cb := c*ay-s*ax, c*by-s*bx // height above the ray
			if (ca > 0) != (cb > 0) {
				f := ca / (ca - cb)
				if (ax+f*(bx-ax))*c+(ay+f*(by-ay))*s > 0 {
					hit = true
					break
				}
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// cullable: the lines that may be left out of rendering (manual 07:05 and 04).
func cullable(lv *Level) func(i int) bool {
	return func(i int) bool {
		l := &lv.Lines[i]
		if l.Flags&4 == 0 || l.S[0] < 0 || l.S[1] < 0 {
			return false
		}
		a, b := &lv.Sides[l.S[0]], &lv.Sides[l.S[1]]
		if a.Sector != b.Sector {
			return false
		}
		for _, t := range []string{a.Up, a.Low, a.Mid, b.Up, b.Low, b.Mid} {
			if t != "-" {
				return false
			}
		}
		if !lv.Hexen && l.Tag >= 900 && l.Tag != 998 && l.Tag != 999 {
			return false
		}
		return true
	}
}

func chkCull(e *Env) {
	e.rule = "random planar maps with lines inside sectors, fences, textured and tagged ones, and self-referencing polygons (isolated, touching the map, sharing its sectors, with chords and dangling lines) x culling modes x node options; every line side accounted for; points located by the tree; non-trivial = at least one line was culled or a self-referencing polygon had to be kept; distinct by map, options and culled lines"
	nestedLoop(e)
	Parallel(e.N(7000, 120000), 0, func(i int) {
		if !e.TooMany() {
			cullCase(e, i)
		}
	})
}

// nestedLoop: the one arrangement known to be handled wrongly, a
// self-referencing area of sector 0 in one of sector 1 in the very sector 0,
// hanging on an outer wall.
func nestedLoop(e *Env) {
	lv := &Level{Name: "MAP01"}
	lv.Sects = []Sect{{Floor: 0, Ceil: 128, FTex: "FLOOR0_1", CTex: "CEIL1_1", Light: 160}, {Floor: 16, Ceil: 128, FTex: "FLOOR0_1", CTex: "CEIL1_1", Light: 160}}
	at := map[Vtx]int{}
	vert := func(x, y int) int {
		v := Vtx{x, y}
		if _, ok := at[v]; !ok {
			at[v] = len(lv.Verts)
			lv.Verts = append(lv.Verts, v)
		}
		return at[v]
	}
	poly := func(s int, two bool, p ...[2]int) {
		for k := range p {
			q := p[(k+1)%len(p)]
			l := Line{V1: vert(p[k][0], p[k][1]), V2: vert(q[0], q[1]), Flags: 1, S: [2]int{len(lv.Sides), -1}}
			if two {
				lv.Sides = append(lv.Sides, Side{Sector: s, Up: "-", Low: "-", Mid: "-"})
				l.S[1], l.Flags = len(lv.Sides), 4
				lv.Sides = append(lv.Sides, Side{Sector: s, Up: "-", Low: "-", Mid: "-"})
			} else {
				lv.Sides = append(lv.Sides, Side{Sector: s, Up: "-", Low: "-", Mid: "STARTAN2"})
			}
			lv.Lines = append(lv.Lines, l)
		}
	}
	poly(0, false, [2]int{0, 48}, [2]int{0, -48}, [2]int{-96, -48}, [2]int{-96, 48})
	poly(1, true, [2]int{0, 48}, [2]int{-66, 23}, [2]int{-90, -1}, [2]int{-81, -34}, [2]int{-48, -43}, [2]int{-24, -18})
	poly(0, true, [2]int{0, 48}, [2]int{-54, 3}, [2]int{-32, -15})
	lv.Things = append(lv.Things, Thing{X: -10, Y: -30, Type: 1, Flags: 7})
	c := e.NewCase("nested loop")
	defer c.Done()
	nc := runNodeCase(c, lv, "nested loop", []string{"-nc=X", "-ni=2", "-b-", "-r-"})
	if nc == nil {
		return
	}
	has := make([]bool, len(lv.Lines))
	for _, s := range nc.b.Segs {
		has[s.Line] = true
	}
	for k := range has {
		if !has[k] && k < 10 {
			c.Violate("selfref", "line %d of the map was culled", k)
		} else if !has[k] {
			c.Violate("selfref-nested", "line %d, part of the outline of a self-referencing area of sector 0 within one of sector 1, was culled", k)
		}
	}
}

func cullCase(e *Env, i int) {
	r := e.Rand("cull", i)
	g := RandOpt(r, r.Intn(3))
	g.SelfRef = 0
	g.SameLine = r.Float64() * 0.5
	g.Tags = false
	lv := Gen(r, "MAP01", g)
	mode := 2
	if r.Intn(4) == 0 {
		mode = 1
	}
	desc := optKey(g)
	// textures and tags that forbid culling
	for k := range lv.Lines {
		l := &lv.Lines[k]
		if l.S[1] < 0 || r.Intn(6) > 0 {
			continue
		}
		switch r.Intn(6) {
		case 0:
			sd := &lv.Sides[l.S[r.Intn(2)]]
			switch r.Intn(3) {
			case 0:
				sd.Up = "MIDBARS1"
			case 1:
				sd.Low = "AASHITTY"
			case 2:
				sd.Mid = "-BARS"
			}
		case 1:
			if !lv.Hexen {
				l.Tag = []int{900, 901, 997, 1000, 30000}[r.Intn(5)]
			}
		case 2:
			if !lv.Hexen {
				l.Tag = []int{998, 999, 899, 5}[r.Intn(4)]
			}
		case 3:
			if !lv.Hexen {
				l.Action = []int{97, 1086, 31, 1084, 1085}[r.Intn(5)]
			}
		case 4:
			if r.Intn(3) == 0 {
				l.Flags &^= 4
			}
		case 5:
			if r.Intn(3) == 0 {
				lv.Sides[l.S[r.Intn(2)]].Low = "BSPNOSEG"
			}
		}
	}
	special := false
	for k := range lv.Lines {
		if specialExpect(lv, noHelper)(k, 0) == 0 || lv.Lines[k].S[1] >= 0 && specialExpect(lv, noHelper)(k, 1) == 0 {
			special = true
		}
	}
	var loops []*selfLoop
	if r.Intn(3) > 0 {
		ns := len(lv.Sects)
		for k := 0; k < 1+r.Intn(3); k++ {
			s := r.Intn(ns)
			own := r.Intn(3) == 0
			if own {
				lv.Sects = append(lv.Sects, Sect{Floor: 16, Ceil: 128, FTex: "FLOOR0_1", CTex: "CEIL1_1"})
				s = len(lv.Sects) - 1
			}
			if lp := addLoop(r, lv, s, loops); lp != nil {
				lp.kept = own
				if r.Intn(8) == 0 && !lv.Hexen {
					lv.Lines[lp.lines[0]].Tag = 998
					special = true
				}
				loops = append(loops, lp)
			} else if own {
				lv.Sects = lv.Sects[:s]
			}
		}
	}
	exp := specialExpect(lv, noHelper)
	may := cullable(lv)
	must := map[int]bool{} // lines that have to stay
	for _, lp := range loops {
		// what else there is near the centre
		own := map[int]bool{}
		for _, k := range lp.lines {
			own[k] = true
		}
		for _, l := range lv.Lines {
			a, b := lv.Verts[l.V1], lv.Verts[l.V2]
			lp.rad = math.Min(lp.rad, distToSeg(lp.px, lp.py, float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)))
		}
		nested := false
		for _, o := range loops {
			if o == lp {
				continue
			}
			nested = nested || o.holds(lv, lp.px, lp.py)
			v := lv.Verts[lv.Lines[o.lines[1]].V1]
			w := lv.Verts[lv.Lines[o.lines[1]].V2]
			if o.holds(lv, lp.px, lp.py) || lp.holds(lv, o.px, o.py) || lp.holds(lv, float64(v.X+w.X)/2, float64(v.Y+w.Y)/2) {
				lp.rad = 0
			}
		}
		if enclosed(lv, lp, own) {
			e.Count("loops_enclosed_by_their_own_sector", 1)
			if nested {
				continue // known finding, see nestedLoop
			}
		}
		if mode == 2 && lp.sector != lp.around || lp.kept {
			for _, k := range lp.lines {
				must[k] = true
			}
		}
	}
	args := nodeArgs(r, "vvdxxzDX", len(lv.Lines) < 100)
	args = append(args, fmt.Sprintf("-ni=%d", mode), "-b-", "-r-")
	desc = fmt.Sprintf("%s hexen=%v loops %d", desc, lv.Hexen, len(loops))
	c := e.NewCase(fmt.Sprintf("cull %d %s %v", i, desc, args))
	defer c.Done()
	nc := runNodeCase(c, lv, desc, args)
	if nc == nil {
		e.Eval("")
		return
	}
	has := make([]int, len(lv.Lines))
	for _, s := range nc.b.Segs {
		if s.Line < len(has) {
			has[s.Line]++
		}
	}
	culled := 0
	for k := range has {
		if has[k] == 0 && (exp(k, 0) == 1 || exp(k, 1) == 1) {
			culled++
		}
	}
	key := ""
	if culled > 0 || len(must) > 0 {
		key = fmt.Sprint(desc, args, culled)
	}
	e.Eval(key)
	e.Count("lines_culled", culled)
	e.Count("self_referencing_lines_required", len(must))
	if err := nc.b.Structure(nc.out); err != nil {
		c.Violate("structure", "%v (args %v)", err, args)
		return
	}
	for k := range has {
		if has[k] == 0 && may(k) && must[k] && (exp(k, 0) == 1 || exp(k, 1) == 1) {
			c.Violate("selfref", "line %d, part of the outline of a self-referencing area of sector %d, was culled (args %v)", k, lv.SectorOf(k, 0), args)
			return
		}
	}
	st := segStats{Loose: true}
	if err := nc.b.CheckSegs(nc.out, func(l, s int) int {
		w := exp(l, s)
		if w == 1 && may(l) && has[l] == 0 {
			return 0
		}
		return w
	}, specialAngle(nc.out), &st); err != nil {
		c.Violate("segs", "%v (args %v)", err, args)
		return
	}
	// where points end up
	margin, allow := 10.0, 3
	if nc.b.Extended {
		margin, allow = 0.6, 0
	}
	where := func(x, y float64) int {
		ss := nc.b.SSecs[nc.b.Locate(x, y)]
		s := nc.b.Segs[ss.First]
		return nc.out.SectorOf(s.Line, s.Side)
	}
	if len(loops) == 0 && !special {
		var gs geoStats
		bad, first := 0, ""
		nc.b.PointLocation(nc.out, NewLocator(nc.out, nil), r, 600, margin, &gs, func(x, y float64, want, got int, near float64) {
			bad++
			if first == "" {
				first = fmt.Sprintf("point (%.3f,%.3f), %.2f units from the nearest line, is in sector %d but the tree leads to sector %d", x, y, near, want, got)
			}
		})
		if !nc.b.Extended {
			allow += gs.PointTests / 50
		}
		e.Count("points_located", gs.PointTests)
		if bad > allow {
			c.Violate("points", "%d of %d points misplaced: %s (args %v)", bad, gs.PointTests, first, args)
		}
	}
	if mode == 2 && !special {
		for _, lp := range loops {
			if len(loops) > 1 && !must[lp.lines[0]] {
				continue
			}
			if lp.rad < margin+1 {
				continue
			}
			e.Count("self_referencing_areas_visited", 1)
			for t := 0; t < 8; t++ {
				s, co := math.Sincos(r.Float64() * 7)
				d := r.Float64() * (lp.rad - margin)
				if got := where(lp.px+d*co, lp.py+d*s); got != lp.sector {
					c.Violate("selfpoint", "point (%.2f,%.2f) inside a self-referencing area of sector %d leads to sector %d (args %v)", lp.px+d*co, lp.py+d*s, lp.sector, got, args)
					return
				}
			}
		}
	}
	if i < 4 {
		e.Sample(map[string]interface{}{"map": desc, "args": strings.Join(args, " "), "lines": len(lv.Lines), "culled": culled, "must_stay": len(must)})
	}
}
