package main

import (
	"math"
	"math/rand"
)

// Structured random map generator. The base is a planar mesh of faces (a
// jittered / rotated / warped grid), each face belonging to a sector or to the
// void, plus islands, fences and self-referencing regions.

type GenOpt struct {
	Hexen    bool
	W, H     int     // cells
	Cell     int     // cell size in map units
	Jitter   float64 // 0..0.28 of cell
	Rot      float64 // radians
	Diag     float64 // probability of a cell being split into triangles
	Void     float64 // probability that a face is void
	Sectors  int     // approximate number of sectors grown (0 = one per face)
	SameLine float64 // probability of a two-sided line inside one sector
	Island   float64 // probability of island in a cell
	Pillar   float64 // probability of solid pillar in a cell
	SelfRef  float64 // probability of self-referencing square in cell
	Scatter  bool    // assign sector numbers without connectivity
	OffX     int
	OffY     int
	Merge    bool                // merge collinear edges at degree-2 vertices
	Tags     bool                // random (harmless) tags & actions
	Unused   int                 // unused vertices
	Heights  bool                // vary heights
	Shuffle  bool                // shuffle order of linedefs, vertices
	Border   bool                // force outer ring of faces to be non-void
	ZeroLen  int                 // number of zero-length lines
	Impass   bool                // set random blocking flags
	Mask     func(i, j int) bool // if set: cells that are not void
}

type mesh struct {
	verts []Vtx
	// edges keyed by vertex pair
}

func (o *GenOpt) norm() {
	if o.W == 0 {
		o.W = 4
	}
	if o.H == 0 {
		o.H = 4
	}
	if o.Cell == 0 {
		o.Cell = 128
	}
}

// RandOpt draws generator options of the given size class.
func RandOpt(r *rand.Rand, size int) GenOpt {
	var o GenOpt
	switch size {
	case 0:
		o.W, o.H = 1+r.Intn(3), 1+r.Intn(3)
	case 1:
		o.W, o.H = 2+r.Intn(6), 2+r.Intn(6)
	case 2:
		o.W, o.H = 6+r.Intn(9), 6+r.Intn(9)
	default:
		o.W, o.H = 16+r.Intn(16), 16+r.Intn(16)
	}
	o.Cell = []int{48, 64, 96, 128, 128, 160, 200, 256, 384}[r.Intn(9)]
	if r.Intn(3) > 0 {
		o.Jitter = r.Float64() * 0.27
	}
	if r.Intn(3) == 0 {
		o.Rot = r.Float64() * 2 * math.Pi
	}
	if r.Intn(2) == 0 {
		o.Diag = r.Float64() * 0.6
	}
	o.Void = []float64{0, 0.1, 0.2, 0.35, 0.5}[r.Intn(5)]
	o.Sectors = []int{0, 1, 2, 4, 8, 16, 32}[r.Intn(7)]
	if r.Intn(2) == 0 {
		o.SameLine = r.Float64() * 0.4
	}
	if r.Intn(2) == 0 {
		o.Island = r.Float64() * 0.4
	}
	if r.Intn(2) == 0 {
		o.Pillar = r.Float64() * 0.4
	}
	o.Scatter = r.Intn(4) == 0
	if r.Intn(3) == 0 {
		o.OffX = r.Intn(20000) - 10000
		o.OffY = r.Intn(20000) - 10000
	}
	o.Merge = r.Intn(2) == 0
	o.Tags = r.Intn(2) == 0
	o.Unused = r.Intn(3)
	o.Heights = true
	o.Shuffle = r.Intn(2) == 0
	o.Impass = r.Intn(2) == 0
	o.Hexen = r.Intn(4) == 0
	return o
}

type edge struct {
	a, b int // vertex indices; right side of a->b is f[0], left is f[1]
	f    [2]int
}

// Gen makes a level. All faces are guaranteed planar (before rounding).
func Gen(r *rand.Rand, name string, o GenOpt) *Level {
	o.norm()
	lv := &Level{Name: name, Hexen: o.Hexen}
	W, H := o.W, o.H
	cs := float64(o.Cell)
	sn, cn := math.Sincos(o.Rot)
	tr := func(x, y float64) Vtx {
		x -= float64(W) * cs / 2
		y -= float64(H) * cs / 2
		return Vtx{int(math.Round(x*cn-y*sn)) + o.OffX, int(math.Round(x*sn+y*cn)) + o.OffY}
	}
	vid := func(i, j int) int { return j*(W+1) + i }
	type pt struct{ x, y float64 }
	pts := make([]pt, (W+1)*(H+1))
	for j := 0; j <= H; j++ {
		for i := 0; i <= W; i++ {
			pts[vid(i, j)] = pt{float64(i)*cs + (r.Float64()*2-1)*o.Jitter*cs, float64(j)*cs + (r.Float64()*2-1)*o.Jitter*cs}
		}
	}
	for _, p := range pts {
		lv.Verts = append(lv.Verts, tr(p.x, p.y))
	}
	// faces: list of vertex loops counter-clockwise in source coordinates
	var faces [][]int
	var cellFaces [][]int
	for j := 0; j < H; j++ {
		for i := 0; i < W; i++ {
			a, b, c, d := vid(i, j), vid(i+1, j), vid(i+1, j+1), vid(i, j+1)
			if r.Float64() < o.Diag {
				if r.Intn(2) == 0 {
					faces = append(faces, []int{a, b, c}, []int{a, c, d})
				} else {
					faces = append(faces, []int{a, b, d}, []int{b, c, d})
				}
				cellFaces = append(cellFaces, []int{len(faces) - 2, len(faces) - 1})
			} else {
				faces = append(faces, []int{a, b, c, d})
				cellFaces = append(cellFaces, []int{len(faces) - 1})
			}
		}
	}
	nf := len(faces)
	em := map[[2]int]int{}
	var edges []edge
	adj := make([][]int, nf)
	for f, loop := range faces {
		for k := range loop {
			a, b := loop[k], loop[(k+1)%len(loop)]
			if e, ok := em[[2]int{b, a}]; ok {
				edges[e].f[1] = f
				// edge stored as b->a with its right = f(other)
				g := edges[e].f[0]
				adj[f] = append(adj[f], g)
				adj[g] = append(adj[g], f)
				continue
			}
			// face is CCW => it is on the LEFT of a->b, i.e. on the RIGHT of b->a
			em[[2]int{a, b}] = len(edges)
			edges = append(edges, edge{b, a, [2]int{f, -1}})
		}
	}
	// sectors
	sec := make([]int, nf)
	voidf := make([]bool, nf)
	for f := range faces {
		voidf[f] = r.Float64() < o.Void
	}
	if o.Mask != nil {
		for k, cf := range cellFaces {
			for _, f := range cf {
				voidf[f] = !o.Mask(k%W, k/W)
			}
		}
	}
	if o.Border {
		for k, cf := range cellFaces {
			i, j := k%W, k/W
			if i == 0 || j == 0 || i == W-1 || j == H-1 {
				for _, f := range cf {
					voidf[f] = false
				}
			}
		}
	}
	all := true
	for f := range voidf {
		if !voidf[f] {
			all = false
		}
	}
	if all {
		voidf[r.Intn(nf)] = false
	}
	for f := range sec {
		sec[f] = -2
	}
	ns := o.Sectors
	if ns <= 0 {
		k := 0
		for f := range sec {
			if voidf[f] {
				sec[f] = -1
				continue
			}
			sec[f] = k
			k++
		}
		ns = k
	} else if o.Scatter {
		for f := range sec {
			if voidf[f] {
				sec[f] = -1
			} else {
				sec[f] = r.Intn(ns)
			}
		}
	} else {
		var queue []int
		for s := 0; s < ns; s++ {
			f := r.Intn(nf)
			if !voidf[f] && sec[f] == -2 {
				sec[f] = s
				queue = append(queue, f)
			}
		}
		for {
			for len(queue) > 0 {
				k := r.Intn(len(queue))
				f := queue[k]
				done := true
				for _, g := range adj[f] {
					if !voidf[g] && sec[g] == -2 {
						sec[g] = sec[f]
						queue = append(queue, g)
						done = false
						break
					}
				}
				if done {
					queue[k] = queue[len(queue)-1]
					queue = queue[:len(queue)-1]
				}
			}
			seeded := false
			for f := range sec {
				if !voidf[f] && sec[f] == -2 {
					sec[f] = r.Intn(ns)
					queue = append(queue, f)
					seeded = true
					break
				}
			}
			if !seeded {
				break
			}
		}
		for f := range sec {
			if voidf[f] {
				sec[f] = -1
			}
		}
	}
	// compact sector numbers
	remap := map[int]int{}
	for f := range sec {
		if sec[f] >= 0 {
			if _, ok := remap[sec[f]]; !ok {
				remap[sec[f]] = len(remap)
			}
			sec[f] = remap[sec[f]]
		}
	}
	nsec := len(remap)
	type rawLine struct {
		a, b   int
		sr, sl int // sectors right / left or -1
	}
	var raw []rawLine
	for _, e := range edges {
		sr, sl := -1, -1
		if e.f[0] >= 0 {
			sr = sec[e.f[0]]
		}
		if e.f[1] >= 0 {
			sl = sec[e.f[1]]
		}
		if sr < 0 && sl < 0 {
			continue
		}
		if sr == sl && r.Float64() >= o.SameLine {
			continue
		}
		raw = append(raw, rawLine{e.a, e.b, sr, sl})
	}
	if o.Merge && o.Jitter == 0 {
		// merge grid-collinear edges sharing a degree-2 vertex
		deg := map[int][]int{}
		for {
			for k := range deg {
				delete(deg, k)
			}
			for k, e := range raw {
				deg[e.a] = append(deg[e.a], k)
				deg[e.b] = append(deg[e.b], k)
			}
			merged := false
			dead := map[int]bool{}
			for v := 0; v < len(pts); v++ {
				d := deg[v]
				if len(d) != 2 || dead[d[0]] || dead[d[1]] {
					continue
				}
				e1, e2 := raw[d[0]], raw[d[1]]
				if e2.b == v {
					e1, e2 = e2, e1
					d = []int{d[1], d[0]}
				}
				if e1.b != v || e2.a != v || e1.sr != e2.sr || e1.sl != e2.sl {
					continue
				}
				p, q, s := pts[e1.a], pts[v], pts[e2.b]
				if math.Abs((q.x-p.x)*(s.y-q.y)-(q.y-p.y)*(s.x-q.x)) > 1e-6 {
					continue
				}
				raw[d[0]] = rawLine{e1.a, e2.b, e1.sr, e1.sl}
				dead[d[1]] = true
				dead[d[0]] = true // one merge per pass per edge
				raw[d[1]].a = -1
				merged = true
			}
			var nr []rawLine
			for _, e := range raw {
				if e.a >= 0 {
					nr = append(nr, e)
				}
			}
			raw = nr
			if !merged {
				break
			}
		}
	}
	// islands, pillars, fences, self-referencing squares inside quad cells
	addV := func(p pt) int {
		lv.Verts = append(lv.Verts, tr(p.x, p.y))
		return len(lv.Verts) - 1
	}
	if o.Cell >= 48 {
		for k, cf := range cellFaces {
			if len(cf) != 1 || sec[cf[0]] < 0 {
				continue
			}
			s := sec[cf[0]]
			i, j := k%W, k/W
			cx, cy := (float64(i)+0.5)*cs, (float64(j)+0.5)*cs
			rad := cs * (0.08 + 0.07*r.Float64())
			x := r.Float64()
			mk := func(n int) []int {
				ph := r.Float64() * 6.28
				if n == 4 && r.Intn(2) == 0 {
					ph = math.Pi / 4
				}
				var vs []int
				for t := 0; t < n; t++ {
					sn, cn := math.Sincos(ph + 2*math.Pi*float64(t)/float64(n))
					vs = append(vs, addV(pt{cx + rad*cn, cy + rad*sn}))
				}
				return vs // CCW
			}
			n := 3 + r.Intn(4)
			switch {
			case x < o.Island:
				vs := mk(n)
				in := nsec
				if r.Intn(3) == 0 && nsec > 0 {
					in = r.Intn(nsec)
				}
				if in == s {
					in = nsec
				}
				if in == nsec {
					nsec++
				}
				for t := range vs {
					a, b := vs[t], vs[(t+1)%n]
					// CCW: inside is left of a->b
					raw = append(raw, rawLine{b, a, in, s})
				}
			case x < o.Island+o.Pillar:
				vs := mk(n)
				for t := range vs {
					a, b := vs[t], vs[(t+1)%n]
					raw = append(raw, rawLine{a, b, s, -1})
				}
			case x < o.Island+o.Pillar+o.SelfRef:
				vs := mk(4)
				in := nsec
				nsec++
				for t := range vs {
					a, b := vs[t], vs[(t+1)%4]
					if r.Intn(2) == 0 {
						a, b = b, a
					}
					raw = append(raw, rawLine{a, b, in, in})
				}
			case x < o.Island+o.Pillar+o.SelfRef+o.SameLine*0.5:
				// fence
				vs := mk(2)
				raw = append(raw, rawLine{vs[0], vs[1], s, s})
			}
		}
	}
	for t := 0; t < o.ZeroLen; t++ {
		if len(raw) > 0 {
			e := raw[r.Intn(len(raw))]
			raw = append(raw, rawLine{e.a, e.a, e.sr, e.sl})
		}
	}
	for t := 0; t < o.Unused; t++ {
		lv.Verts = append(lv.Verts, Vtx{lv.Verts[0].X + r.Intn(200) - 100, lv.Verts[0].Y + r.Intn(200) - 100})
	}
	// Remove exact duplicate/degenerate edges after rounding.
	out := raw[:0]
	for _, e := range raw {
		if e.a != e.b && lv.Verts[e.a] == lv.Verts[e.b] {
			continue
		}
		out = append(out, e)
	}
	raw = out
	if o.Shuffle {
		r.Shuffle(len(raw), func(i, j int) { raw[i], raw[j] = raw[j], raw[i] })
	}
	for s := 0; s < nsec; s++ {
		sc := Sect{Floor: 0, Ceil: 128, Light: 160, FTex: "FLOOR0_1", CTex: "CEIL1_1"}
		if o.Heights {
			sc.Floor = 8 * r.Intn(6)
			sc.Ceil = 128 + 8*r.Intn(6)
		}
		if o.Tags && r.Intn(4) == 0 {
			sc.Tag = 1 + r.Intn(20)
		}
		if o.Tags && r.Intn(6) == 0 {
			sc.Special = 1 + r.Intn(14)
		}
		lv.Sects = append(lv.Sects, sc)
	}
	side := func(s int) int {
		if s < 0 {
			return -1
		}
		sd := Side{Sector: s, Up: "-", Low: "-", Mid: "-", XOff: r.Intn(64), YOff: r.Intn(64)}
		lv.Sides = append(lv.Sides, sd)
		return len(lv.Sides) - 1
	}
	for _, e := range raw {
		a, b, sr, sl := e.a, e.b, e.sr, e.sl
		if sr < 0 || (sl >= 0 && r.Intn(2) == 0) {
			a, b, sr, sl = b, a, sl, sr
		}
		var l Line
		l.V1, l.V2 = a, b
		l.S[0] = side(sr)
		l.S[1] = side(sl)
		if sl >= 0 {
			l.Flags = 4
			if o.Impass && r.Intn(5) == 0 {
				l.Flags |= 1
			}
		} else {
			l.Flags = 1
			lv.Sides[l.S[0]].Mid = "STARTAN2"
		}
		if o.Tags && r.Intn(8) == 0 {
			if o.Hexen {
				l.Action = []int{12, 13, 31, 80, 100}[r.Intn(5)]
				for k := range l.Args {
					l.Args[k] = byte(r.Intn(30))
				}
			} else {
				l.Action = []int{1, 11, 31, 46, 97, 2}[r.Intn(6)]
				l.Tag = 1 + r.Intn(20)
			}
		}
		lv.Lines = append(lv.Lines, l)
	}
	// player start in some face centroid
	for f := range faces {
		if sec[f] >= 0 {
			var x, y float64
			for _, v := range faces[f] {
				x += pts[v].x
				y += pts[v].y
			}
			n := float64(len(faces[f]))
			v := tr(x/n, y/n)
			lv.Things = append(lv.Things, Thing{X: v.X, Y: v.Y, Angle: 90, Type: 1, Flags: 7})
			break
		}
	}
	for t := 0; t < 1+r.Intn(5); t++ {
		v := lv.Verts[r.Intn(len(lv.Verts))]
		lv.Things = append(lv.Things, Thing{X: v.X + r.Intn(64), Y: v.Y, Angle: 45 * r.Intn(8), Type: 2000 + r.Intn(20), Flags: 7})
	}
	return lv
}
