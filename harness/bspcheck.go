package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// expected angle of a direction in 16-bit BAM
func bam(dx, dy float64) int {
	w := math.Atan2(dy, dx) * 32768 / math.Pi
	if w < 0 {
		w += 65536
	}
	return int(w) & 0xFFFF
}

type segStats struct {
	Segs, Splits int
	MaxDev       float64 // distance of seg vertices from their linedef
	MaxAng       int
	MaxOff       int
	Loose        bool // near-parallel lines: integer rounding shifts vertices far along
}

// CheckSegs: every seg lies on its linedef, runs in the direction of its side,
// offset and angle are right, and the segs of each line side tile it.
// expect(line,side) says whether the line side must have segs (1), must not
// (0), or may (-1). angleAdj gives the allowed transformation of the angle.
func (b *BSP) CheckSegs(lv *Level, expect func(line, side int) int, checkAngle func(line, side int) (mode int, val int), st *segStats) error {
	type key struct{ line, side int }
	by := map[key][]int{}
	for k, s := range b.Segs {
		by[key{s.Line, s.Side}] = append(by[key{s.Line, s.Side}], k)
	}
	// integer vertices: near-parallel splits can shift a vertex far along the
	// line; that is rare, so a soft limit applies to all but a few segs
	tol, soft, softN := 40.0, 10.0, 0
	if st.Loose {
		tol, soft = 80, 80
	}
	if b.Extended {
		tol = 0.002
	}
	st.Segs += len(b.Segs)
	for ln := range lv.Lines {
		l := &lv.Lines[ln]
		for side := 0; side < 2; side++ {
			segs := by[key{ln, side}]
			exp := -1
			if expect != nil {
				exp = expect(ln, side)
			}
			if exp == 0 && len(segs) > 0 {
				return fmt.Errorf("linedef %d side %d must have no segs but has %d", ln, side, len(segs))
			}
			if len(segs) == 0 {
				if exp == 1 {
					return fmt.Errorf("linedef %d side %d has no segs", ln, side)
				}
				continue
			}
			v1, v2 := l.V1, l.V2
			if side == 1 {
				v1, v2 = v2, v1
			}
			p1 := PV{float64(lv.Verts[v1].X), float64(lv.Verts[v1].Y)}
			p2 := PV{float64(lv.Verts[v2].X), float64(lv.Verts[v2].Y)}
			dx, dy := p2.X-p1.X, p2.Y-p1.Y
			ll := math.Hypot(dx, dy)
			if ll == 0 {
				return fmt.Errorf("zero-length linedef %d has segs", ln)
			}
			along := func(p PV) float64 { return ((p.X-p1.X)*dx + (p.Y-p1.Y)*dy) / ll }
			perp := func(p PV) float64 { return math.Abs((p.X-p1.X)*dy-(p.Y-p1.Y)*dx) / ll }
			sort.Slice(segs, func(i, j int) bool {
				return along(b.Verts[b.Segs[segs[i]].V1]) < along(b.Verts[b.Segs[segs[j]].V1])
			})
			st.Splits += len(segs) - 1
			var prev PV
			for n, k := range segs {
				s := b.Segs[k]
				a, z := b.Verts[s.V1], b.Verts[s.V2]
				for _, q := range []PV{a, z} {
					d := perp(q)
					if d > st.MaxDev {
						st.MaxDev = d
					}
					if d > soft {
						softN++
					}
					if d > tol {
						return fmt.Errorf("seg %d: vertex (%g,%g) is %.3f off its linedef %d", k, q.X, q.Y, d, ln)
					}
				}
				if n == 0 {
					if a != p1 {
						return fmt.Errorf("linedef %d side %d (%g,%g)-(%g,%g): first seg %d starts at (%g,%g)", ln, side, p1.X, p1.Y, p2.X, p2.Y, k, a.X, a.Y)
					}
				} else if a != prev {
					return fmt.Errorf("linedef %d side %d: seg %d starts at (%g,%g) but the previous ended at (%g,%g)", ln, side, k, a.X, a.Y, prev.X, prev.Y)
				}
				prev = z
				if along(z) <= along(a) {
					return fmt.Errorf("seg %d of linedef %d side %d runs backwards or is null (%g,%g)-(%g,%g)", k, ln, side, a.X, a.Y, z.X, z.Y)
				}
				if s.HasOff {
					want := int(math.Hypot(a.X-p1.X, a.Y-p1.Y))
					d := want - s.Off
					if d < 0 {
						d = -d
					}
					if d > st.MaxOff {
						st.MaxOff = d
					}
					if d > 1 {
						return fmt.Errorf("seg %d of linedef %d side %d: offset %d, expected %d", k, ln, side, s.Off, want)
					}
				}
				if s.Angle >= 0 {
					mode, val := 0, 0
					if checkAngle != nil {
						mode, val = checkAngle(ln, side)
					}
					want := bam(z.X-a.X, z.Y-a.Y)
					switch mode {
					case 1, 4: // 4: fractions of the value may be rounded
						want = val & 0xFFFF
					case 2:
						want = (want + val) & 0xFFFF
					case 3:
						continue
					}
					d := (s.Angle - want) & 0xFFFF
					if d > 0x8000 {
						d = 0x10000 - d
					}
					if d > st.MaxAng {
						st.MaxAng = d
					}
					lim := 2
					if mode == 1 {
						lim = 0
					}
					if d > lim {
						return fmt.Errorf("seg %d of linedef %d side %d (%g,%g)-(%g,%g): angle %#x, expected %#x", k, ln, side, a.X, a.Y, z.X, z.Y, s.Angle, want)
					}
				}
			}
			if prev != p2 {
				return fmt.Errorf("linedef %d side %d (%g,%g)-(%g,%g): segs end at (%g,%g)", ln, side, p1.X, p1.Y, p2.X, p2.Y, prev.X, prev.Y)
			}
		}
	}
	if softN > 4+len(b.Segs)/8 {
		return fmt.Errorf("%d seg ends of %d segs are more than %g off their linedefs", softN, len(b.Segs), soft)
	}
	return nil
}

type geoStats struct {
	MaxWrong   float64 // how far a seg endpoint is on the wrong side of an ancestor
	MaxBox     float64 // how far a seg vertex sticks out of an ancestor bbox
	MaxSlack   float64 // how much larger a bbox is than its content
	MaxConvex  float64 // worst in-subsector convexity violation
	MultiSec   int
	PointTests int
	PointBad   int
	PointFar   float64
	Depth      int
}

// Geometry walks the tree measuring partition-side and bbox deviations.
func (b *BSP) Geometry(lv *Level, st *geoStats) error {
	if len(b.Nodes) == 0 {
		return nil
	}
	type rng struct{ x0, y0, x1, y1 float64 }
	var rec func(n int, path []int, sides []int, depth int) rng
	var err error
	rec = func(ch int, path, sides []int, depth int) rng {
		if depth > st.Depth {
			st.Depth = depth
		}
		r := rng{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
		add := func(p PV) {
			r.x0, r.x1 = math.Min(r.x0, p.X), math.Max(r.x1, p.X)
			r.y0, r.y1 = math.Min(r.y0, p.Y), math.Max(r.y1, p.Y)
		}
		if ch < 0 {
			ss := b.SSecs[^ch]
			for k := ss.First; k < ss.First+ss.Count; k++ {
				s := b.Segs[k]
				for _, p := range []PV{b.Verts[s.V1], b.Verts[s.V2]} {
					add(p)
					for t, n := range path {
						d := b.Nodes[n].Dist(p.X, p.Y)
						if sides[t] == 1 {
							d = -d
						}
						if d > st.MaxWrong {
							st.MaxWrong = d
						}
					}
				}
				for m := ss.First; m < ss.First+ss.Count; m++ {
					if m == k {
						continue
					}
					q := b.Segs[m]
					a, z := b.Verts[s.V1], b.Verts[s.V2]
					dx, dy := z.X-a.X, z.Y-a.Y
					l := math.Hypot(dx, dy)
					for _, p := range []PV{b.Verts[q.V1], b.Verts[q.V2]} {
						d := ((p.Y-a.Y)*dx - (p.X-a.X)*dy) / l
						if b.Extended {
							// 16.16 rounding of a short seg, extrapolated
							d -= 6e-5 * math.Hypot(p.X-a.X, p.Y-a.Y) / l
						}
						if d > st.MaxConvex {
							st.MaxConvex = d
						}
					}
				}
			}
			return r
		}
		nd := &b.Nodes[ch]
		for c := 0; c < 2; c++ {
			cr := rec(nd.Child[c], append(path[:len(path):len(path)], ch), append(sides[:len(sides):len(sides)], c), depth+1)
			bx := nd.BBox[c]
			out := math.Max(math.Max(cr.y1-float64(bx[0]), float64(bx[1])-cr.y0), math.Max(float64(bx[2])-cr.x0, cr.x1-float64(bx[3])))
			in := math.Max(math.Max(float64(bx[0])-cr.y1, cr.y0-float64(bx[1])), math.Max(cr.x0-float64(bx[2]), float64(bx[3])-cr.x1))
			if out > st.MaxBox {
				st.MaxBox = out
			}
			if in > st.MaxSlack {
				st.MaxSlack = in
			}
			add(PV{cr.x0, cr.y0})
			add(PV{cr.x1, cr.y1})
		}
		return r
	}
	rec(len(b.Nodes)-1, nil, nil, 0)
	return err
}

// PointLocation samples points at least margin away from every line, and
// compares the sector of the located subsector with the map's.
func (b *BSP) PointLocation(lv *Level, loc *Locator, r *rand.Rand, n int, margin float64, st *geoStats, bad func(x, y float64, want, got int, near float64)) {
	x0, y0, x1, y1 := lv.Bounds()
	if x1 == x0 || y1 == y0 {
		return
	}
	for t := 0; t < n; t++ {
		var x, y float64
		if t%2 == 0 {
			x = float64(x0) + r.Float64()*float64(x1-x0)
			y = float64(y0) + r.Float64()*float64(y1-y0)
		} else {
			// near a random line
			l := lv.Lines[r.Intn(len(lv.Lines))]
			a, c := lv.Verts[l.V1], lv.Verts[l.V2]
			u := r.Float64()
			dx, dy := float64(c.X-a.X), float64(c.Y-a.Y)
			ln := math.Hypot(dx, dy)
			if ln == 0 {
				continue
			}
			o := margin*1.01 + r.Float64()*6
			if r.Intn(2) == 0 {
				o = -o
			}
			x = float64(a.X) + u*dx + o*dy/ln
			y = float64(a.Y) + u*dy - o*dx/ln
		}
		want, near := loc.Sector(x, y)
		if want < 0 || near < margin {
			continue
		}
		st.PointTests++
		ss := b.SSecs[b.Locate(x, y)]
		s := b.Segs[ss.First]
		got := lv.SectorOf(s.Line, s.Side)
		if got != want {
			st.PointBad++
			if near > st.PointFar {
				st.PointFar = near
			}
			if bad != nil {
				bad(x, y, want, got, near)
			}
		}
	}
}

// AddedVertices: no vertex the builder added stands where another vertex in
// use already stood, and none is without use.
func (b *BSP) AddedVertices(lv *Level) (n int, err error) {
	byLine, bySeg := make([]bool, len(b.Verts)), make([]bool, len(b.Verts))
	last := -1
	for _, l := range lv.Lines {
		for _, v := range []int{l.V1, l.V2} {
			if v >= 0 && v < len(byLine) {
				byLine[v] = true
				if v > last {
					last = v
				}
			}
		}
	}
	at := map[PV]int{}
	for _, s := range b.Segs {
		bySeg[s.V1], bySeg[s.V2] = true, true
	}
	for v, u := range bySeg {
		if u && byLine[v] {
			at[b.Verts[v]] = v
		}
	}
	for v, u := range bySeg {
		if u && !byLine[v] {
			n++
			if o, ok := at[b.Verts[v]]; ok && !b.Extended {
				return n, fmt.Errorf("vertex %d was added at %v though vertex %d is there", v, b.Verts[v], o)
			}
			at[b.Verts[v]] = v
		} else if !u && v > last {
			return n, fmt.Errorf("vertex %d of %d is used by no line and no seg", v, len(bySeg))
		}
	}
	return n, nil
}
