package main

import "math"

// Locator answers "which sector is this point in" from linedefs alone (nearest
// line rule along several rays, must agree) for planar maps.
type Locator struct {
	lv  *Level
	use []int // lines considered
}

func NewLocator(lv *Level, skip func(i int) bool) *Locator {
	l := &Locator{lv: lv}
	for i, ln := range lv.Lines {
		if lv.Verts[ln.V1] == lv.Verts[ln.V2] {
			continue
		}
		if skip != nil && skip(i) {
			continue
		}
		l.use = append(l.use, i)
	}
	return l
}

// distToSeg is the distance from p to segment a-b.
func distToSeg(px, py, ax, ay, bx, by float64) float64 {
	dx, dy := bx-ax, by-ay
	t := ((px-ax)*dx + (py-ay)*dy) / (dx*dx + dy*dy)
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	return math.Hypot(px-ax-t*dx, py-ay-t*dy)
}

// Sector returns the sector at (x,y), -1 for void, and the distance to the
// nearest considered line. It uses the closest line (in the sense of a ray
// cast in a generic direction).
func (l *Locator) Sector(x, y float64) (int, float64) {
	best := math.Inf(1)
	near := math.Inf(1)
	res := -1
	// ray in direction (cos,sin) generic
	const c, s = 0.8660183, 0.5000127
	for _, i := range l.use {
		ln := &l.lv.Lines[i]
		a, b := l.lv.Verts[ln.V1], l.lv.Verts[ln.V2]
		ax, ay, bx, by := float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)
		if d := distToSeg(x, y, ax, ay, bx, by); d < near {
			near = d
		}
		// coordinates relative to ray: u along, v across
		va := -(ax-x)*s + (ay-y)*c
		vb := -(bx-x)*s + (by-y)*c
		if (va > 0) == (vb > 0) {
			continue
		}
		ua := (ax-x)*c + (ay-y)*s
		ub := (bx-x)*c + (by-y)*s
		u := ua + (ub-ua)*va/(va-vb)
		if u <= 0 || u >= best {
			continue
		}
		best = u
		// side of the line the point is on: right (front) if cross<0
		cr := (bx-ax)*(y-ay) - (by-ay)*(x-ax)
		if cr < 0 {
			res = l.lv.SectorOf(i, 0)
		} else {
			res = l.lv.SectorOf(i, 1)
		}
	}
	return res, near
}

func (lv *Level) Bounds() (x0, y0, x1, y1 int) {
	first := true
	for _, l := range lv.Lines {
		for _, v := range []int{l.V1, l.V2} {
			p := lv.Verts[v]
			if first {
				x0, x1, y0, y1 = p.X, p.X, p.Y, p.Y
				first = false
			}
			if p.X < x0 {
				x0 = p.X
			}
			if p.X > x1 {
				x1 = p.X
			}
			if p.Y < y0 {
				y0 = p.Y
			}
			if p.Y > y1 {
				y1 = p.Y
			}
		}
	}
	return
}
