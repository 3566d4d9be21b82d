package main

import (
	"math"
	"math/bits"
	"math/rand"
	"sort"
)

// Line-of-sight oracle. Sight crosses two-sided lines (flag and both sides
// present) and is stopped by every other line. Two bounds are computed:
//   Sure: pairs for which a concrete sight line exists that keeps a clearance
//         from every solid vertex (a certificate of visibility);
//   May:  pairs related by a closed critical line (through two vertices, in
//         exact integer arithmetic); a pair outside it has no line of sight.

type bitrow []uint64

func (b bitrow) set(i int)      { b[i>>6] |= 1 << (i & 63) }
func (b bitrow) has(i int) bool { return b[i>>6]>>(i&63)&1 == 1 }

type LOS struct {
	n                     int
	sure, may             []bitrow
	witness               map[[2]int][4]float64
	Lines                 int // sight lines evaluated
	SurePairs             int
	MayPairs              int
	skipMay               bool
	skipMayAlways, noSure bool
	lv                    *Level
	lines                 []losLine
	vx                    []Vtx
	solidOf               [][]int // vertex -> solid lines (by position)
	clear                 float64 // clearance of a certified sight line from solid vertices
}
type losLine struct {
	a, b   Vtx
	va, vb int
	solid  bool
	f, k   int // sectors front (right) and back; -1 none
	id     int
}

// losKind decides whether a line blocks sight.
func losLines(lv *Level, opaque func(i int) bool) []losLine {
	var r []losLine
	for i, l := range lv.Lines {
		a, b := lv.Verts[l.V1], lv.Verts[l.V2]
		if a == b {
			continue
		}
		ll := losLine{a: a, b: b, f: -1, k: -1, id: i}
		if l.S[0] >= 0 && l.S[0] < len(lv.Sides) {
			ll.f = lv.Sides[l.S[0]].Sector
		}
		if l.S[1] >= 0 && l.S[1] < len(lv.Sides) {
			ll.k = lv.Sides[l.S[1]].Sector
		}
		ll.solid = l.Flags&4 == 0 || (opaque != nil && opaque(i))
		if !ll.solid && (ll.f < 0 || ll.k < 0) {
			continue // neither: the tool ignores it, and so does the oracle
		}
		r = append(r, ll)
	}
	return r
}

func NewLOS(lv *Level, opaque func(i int) bool) *LOS {
	o := &LOS{clear: 0.05, n: len(lv.Sects), lv: lv, witness: map[[2]int][4]float64{}}
	w := (o.n + 63) / 64
	for i := 0; i < o.n; i++ {
		o.sure = append(o.sure, make(bitrow, w))
		o.may = append(o.may, make(bitrow, w))
		o.sure[i].set(i)
		o.may[i].set(i)
	}
	o.lines = losLines(lv, opaque)
	idx := map[Vtx]int{}
	v := func(p Vtx) int {
		if k, ok := idx[p]; ok {
			return k
		}
		idx[p] = len(o.vx)
		o.vx = append(o.vx, p)
		return len(o.vx) - 1
	}
	for i := range o.lines {
		o.lines[i].va = v(o.lines[i].a)
		o.lines[i].vb = v(o.lines[i].b)
	}
	return o
}

// Solve evaluates all critical lines, or a sample when there are too many.
func (o *LOS) Solve(r *rand.Rand, budget int) {
	nv := len(o.vx)
	pairs := nv * (nv - 1) / 2
	cost := pairs * len(o.lines) * 5
	o.skipMay = cost > budget
	if !o.skipMay {
		for i := 0; i < nv; i++ {
			for j := i + 1; j < nv; j++ {
				if !o.skipMayAlways {
					o.critical(i, j)
				}
				if !o.noSure {
					o.perturbed(r, i, j)
				}
			}
		}
	} else {
		k := budget / (len(o.lines)*4 + 1)
		for ; k > 0; k-- {
			i, j := r.Intn(nv), r.Intn(nv)
			if i != j {
				o.perturbed(r, i, j)
			}
		}
	}
	for i := 0; i < o.n; i++ {
		for w := range o.sure[i] {
			o.SurePairs += bits.OnesCount64(o.sure[i][w])
			o.MayPairs += bits.OnesCount64(o.may[i][w])
		}
	}
}

type losHit struct {
	t float64
	l int
}
type losSpan struct{ a, b float64 }

func (o *LOS) perturbed(r *rand.Rand, i, j int) {
	p, q := o.vx[i], o.vx[j]
	dx, dy := float64(q.X-p.X), float64(q.Y-p.Y)
	d := math.Hypot(dx, dy)
	nx, ny := -dy/d, dx/d
	e := []float64{1.1, 2, 4}[r.Intn(3)] * (o.clear + 0.1)
	for k := 0; k < 4; k++ {
		a, b := e, e
		if k&1 == 1 {
			a = -e
		}
		if k&2 == 2 {
			b = -e
		}
		if r.Intn(3) == 0 {
			a *= r.Float64()
		}
		if r.Intn(3) == 0 {
			b *= r.Float64()
		}
		o.sight(float64(p.X)+nx*a, float64(p.Y)+ny*a, float64(q.X)+nx*b, float64(q.Y)+ny*b)
	}
}

// sight follows the infinite line through two points. Everything within the
// clearance of a solid line's end blocks.
func (o *LOS) sight(x0, y0, x1, y1 float64) {
	o.Lines++
	dx, dy := x1-x0, y1-y0
	d := math.Hypot(dx, dy)
	if d < 1 {
		return
	}
	dx, dy = dx/d, dy/d
	clear := o.clear
	var hits []losHit
	var block []losSpan
	for k := range o.lines {
		l := &o.lines[k]
		ax, ay, bx, by := float64(l.a.X)-x0, float64(l.a.Y)-y0, float64(l.b.X)-x0, float64(l.b.Y)-y0
		sa, sb := dx*ay-dy*ax, dx*by-dy*bx // distance left of the sight line
		ta, tb := dx*ax+dy*ay, dx*bx+dy*by
		m := clear
		if !l.solid {
			m = 0
		}
		if (sa > m && sb > m) || (sa < -m && sb < -m) {
			continue
		}
		if l.solid {
			// part of the line within the clearance band
			u0, u1 := 0.0, 1.0
			if sa != sb {
				u0, u1 = (m-sa)/(sb-sa), (-m-sa)/(sb-sa)
				if u0 > u1 {
					u0, u1 = u1, u0
				}
				u0, u1 = math.Max(u0, 0), math.Min(u1, 1)
			}
			s := losSpan{ta + (tb-ta)*u0, ta + (tb-ta)*u1}
			if s.a > s.b {
				s.a, s.b = s.b, s.a
			}
			s.a -= 0.1
			s.b += 0.1
			block = append(block, s)
			continue
		}
		if math.Abs(sa) < 0.01 || math.Abs(sb) < 0.01 {
			continue
		}
		u := sa / (sa - sb)
		hits = append(hits, losHit{ta + (tb-ta)*u, k})
	}
	sort.Slice(hits, func(a, b int) bool { return hits[a].t < hits[b].t })
	sort.Slice(block, func(a, b int) bool { return block[a].a < block[b].a })
	var cur []int
	flush := func() {
		for _, a := range cur {
			for _, b := range cur {
				if !o.sure[a].has(b) {
					o.sure[a].set(b)
					o.witness[[2]int{a, b}] = [4]float64{x0, y0, x1, y1}
				}
			}
		}
		cur = cur[:0]
	}
	bi, end := 0, math.Inf(-1)
	for i := 0; i < len(hits); i++ {
		h := hits[i]
		for bi < len(block) && block[bi].a <= h.t {
			flush()
			end = math.Max(end, block[bi].b)
			bi++
		}
		if h.t <= end {
			continue
		}
		l := &o.lines[h.l]
		add := func(s int) {
			if s >= 0 && s < o.n {
				for _, c := range cur {
					if c == s {
						return
					}
				}
				cur = append(cur, s)
			}
		}
		add(l.f)
		add(l.k)
	}
	flush()
}

func orient(p, q, v Vtx) int {
	c := (q.X-p.X)*(v.Y-p.Y) - (q.Y-p.Y)*(v.X-p.X)
	switch {
	case c > 0:
		return 1
	case c < 0:
		return -1
	}
	return 0
}

// critical evaluates the closed line through two vertices exactly.
func (o *LOS) critical(i, j int) {
	o.Lines++
	p, q := o.vx[i], o.vx[j]
	dx, dy := float64(q.X-p.X), float64(q.Y-p.Y)
	d := math.Hypot(dx, dy)
	dx, dy = dx/d, dy/d
	type hit struct {
		t0, t1 float64
		l      int
	}
	var open []hit
	var block []float64
	type touch struct {
		t    float64
		v    int
		side int // 1 left, 2 right
	}
	var touches []touch
	type span struct{ a, b float64 }
	var along []span
	at := func(v Vtx) float64 { return dx*float64(v.X-p.X) + dy*float64(v.Y-p.Y) }
	for k := range o.lines {
		l := &o.lines[k]
		sa, sb := orient(p, q, l.a), orient(p, q, l.b)
		if sa == sb && sa != 0 {
			continue
		}
		if sa == 0 || sb == 0 {
			ta, tb := at(l.a), at(l.b)
			if sa == 0 && sb == 0 {
				if ta > tb {
					ta, tb = tb, ta
				}
				if l.solid {
					along = append(along, span{ta, tb})
				} else {
					open = append(open, hit{ta, tb, k})
				}
				continue
			}
			t, v, s := ta, l.va, sb
			if sb == 0 {
				t, v, s = tb, l.vb, sa
			}
			if l.solid {
				m := 1
				if s < 0 {
					m = 2
				}
				touches = append(touches, touch{t, v, m})
			} else {
				open = append(open, hit{t, t, k})
			}
			continue
		}
		// proper crossing
		ca := float64((q.X-p.X)*(l.a.Y-p.Y) - (q.Y-p.Y)*(l.a.X-p.X))
		cb := float64((q.X-p.X)*(l.b.Y-p.Y) - (q.Y-p.Y)*(l.b.X-p.X))
		u := ca / (ca - cb)
		t := dx*(float64(l.a.X-p.X)+float64(l.b.X-l.a.X)*u) + dy*(float64(l.a.Y-p.Y)+float64(l.b.Y-l.a.Y)*u)
		if l.solid {
			block = append(block, t)
		} else {
			open = append(open, hit{t, t, k})
		}
	}
	// touches at one vertex, or joined by solids lying along the line
	const te = 1e-6
	sort.Slice(touches, func(a, b int) bool { return touches[a].t < touches[b].t })
	sort.Slice(along, func(a, b int) bool { return along[a].a < along[b].a })
	var merged []span
	for _, s := range along {
		if n := len(merged); n > 0 && s.a <= merged[n-1].b+te {
			if s.b > merged[n-1].b {
				merged[n-1].b = s.b
			}
			continue
		}
		merged = append(merged, s)
	}
	for a := 0; a < len(touches); {
		b, m := a, 0
		for b < len(touches) && touches[b].t <= touches[a].t+te {
			m |= touches[b].side
			b++
		}
		if m == 3 {
			block = append(block, touches[a].t)
		}
		a = b
	}
	for _, s := range merged {
		m := 0
		for _, t := range touches {
			if t.t >= s.a-te && t.t <= s.b+te {
				m |= t.side
			}
		}
		if m == 3 {
			block = append(block, (s.a+s.b)/2)
		}
	}
	sort.Float64s(block)
	// intervals between consecutive blocks (closed)
	nb := len(block)
	cur := make([][]int, nb+1)
	for _, h := range open {
		lo := sort.SearchFloat64s(block, h.t0-te) // first block >= t0: interval index lo is before it
		hi := sort.Search(nb, func(k int) bool { return block[k] > h.t1+te })
		l := &o.lines[h.l]
		for iv := lo; iv <= hi; iv++ {
			for _, s := range [2]int{l.f, l.k} {
				if s >= 0 && s < o.n {
					dup := false
					for _, c := range cur[iv] {
						if c == s {
							dup = true
						}
					}
					if !dup {
						cur[iv] = append(cur[iv], s)
					}
				}
			}
		}
	}
	for _, c := range cur {
		for _, a := range c {
			for _, b := range c {
				o.may[a].set(b)
			}
		}
	}
}

// components of sectors linked by see-through lines
func (o *LOS) Components() []int {
	p := make([]int, o.n)
	for i := range p {
		p[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for p[i] != i {
			p[i] = p[p[i]]
			i = p[i]
		}
		return i
	}
	for _, l := range o.lines {
		if !l.solid && l.f < o.n && l.k < o.n {
			p[find(l.f)] = find(l.k)
		}
	}
	for i := range p {
		p[i] = find(i)
	}
	return p
}

func rejBit(rej []byte, n, i, j int) int {
	k := i*n + j
	return int(rej[k>>3]>>(k&7)) & 1
}

// solidComponents numbers the connected groups of blocking lines.
func (o *LOS) solidComponents() []int {
	p := make([]int, len(o.vx))
	for i := range p {
		p[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for p[i] != i {
			p[i] = p[p[i]]
			i = p[i]
		}
		return i
	}
	for _, l := range o.lines {
		if l.solid {
			p[find(l.va)] = find(l.vb)
		}
	}
	r := make([]int, len(o.lines))
	for i, l := range o.lines {
		r[i] = -1
		if l.solid {
			r[i] = find(l.va)
		}
	}
	return r
}

// PlainlyHidden tells whether every pair of see-through lines of the two
// sectors is separated by one single connected wall. (A view blocked only by
// several separate obstacles acting together need not be recognised.)
func (o *LOS) PlainlyHidden(a, b int) bool {
	comp := o.solidComponents()
	groups := map[int][]losLine{}
	for i, l := range o.lines {
		if comp[i] >= 0 {
			groups[comp[i]] = append(groups[comp[i]], l)
		}
	}
	var keys []int
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	of := func(s int) (r []losLine) {
		for _, l := range o.lines {
			if !l.solid && (l.f == s || l.k == s) && l.f != l.k {
				r = append(r, l)
			}
		}
		return
	}
	for _, s := range of(a) {
		for _, t := range of(b) {
			if s.id == t.id {
				return false
			}
			hidden := false
			for _, k := range keys {
				if !pairSees(s, t, groups[k]) {
					hidden = true
					break
				}
			}
			if !hidden {
				return false
			}
		}
	}
	return true
}

func pairSees(s, t losLine, walls []losLine) bool {
	o := &LOS{n: 2, may: []bitrow{make(bitrow, 1), make(bitrow, 1)}}
	s.f, s.k, t.f, t.k = 0, 0, 1, 1
	o.lines = append([]losLine{s, t}, walls...)
	idx := map[Vtx]int{}
	for i := range o.lines {
		l := &o.lines[i]
		for k, p := range [2]Vtx{l.a, l.b} {
			j, ok := idx[p]
			if !ok {
				j = len(o.vx)
				idx[p] = j
				o.vx = append(o.vx, p)
			}
			if k == 0 {
				l.va = j
			} else {
				l.vb = j
			}
		}
	}
	for i := range o.vx {
		for j := i + 1; j < len(o.vx); j++ {
			o.critical(i, j)
			if o.may[0].has(1) {
				return true
			}
		}
	}
	return false
}
