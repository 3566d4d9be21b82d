package main

import (
	"fmt"
	"math/rand"
	"sort"
)

// Blockmap is the decoded BLOCKMAP lump.
type Blockmap struct {
	X, Y, W, H int
	Off        []int
	Lists      [][]int // colliding lines, dummy first entry removed, sorted
	Dup        bool
	Words      int
	Dummy      int
}

// ParseBlockmap follows every offset exactly as the engine does. header says
// whether each list starts with a dummy line.
func ParseBlockmap(b []byte, header bool, nlines int) (*Blockmap, error) {
	if len(b) < 8 || len(b)%2 != 0 {
		return nil, fmt.Errorf("size %d", len(b))
	}
	bm := &Blockmap{X: le16(b), Y: le16(b[2:]), W: leu16(b[4:]), H: leu16(b[6:]), Dummy: -1}
	n := bm.W * bm.H
	if n <= 0 {
		return nil, fmt.Errorf("no blocks (%dx%d)", bm.W, bm.H)
	}
	if 8+2*n > len(b) {
		return nil, fmt.Errorf("%dx%d blocks do not fit in %d bytes", bm.W, bm.H, len(b))
	}
	words := len(b) / 2
	bm.Words = words
	for k := 0; k < n; k++ {
		off := leu16(b[8+2*k:])
		bm.Off = append(bm.Off, off)
		p := off
		// with word stealing the dummy is the offset cell of the last block
		lim := 4 + n
		if header {
			lim = 4 + n - 1
		}
		if p < lim || p >= words {
			return nil, fmt.Errorf("block %d (%d,%d): offset %d outside lists [%d,%d)", k, k%bm.W, k/bm.W, off, lim, words)
		}
		if header {
			bm.Dummy = leu16(b[2*p:])
			p++
		}
		var l []int
		for {
			if p >= words {
				return nil, fmt.Errorf("block %d (%d,%d): list at %d is not terminated", k, k%bm.W, k/bm.W, off)
			}
			v := leu16(b[2*p:])
			p++
			if v == 0xFFFF {
				break
			}
			if v >= nlines {
				return nil, fmt.Errorf("block %d (%d,%d): line %d of %d", k, k%bm.W, k/bm.W, v, nlines)
			}
			l = append(l, v)
		}
		sort.Ints(l)
		for i := 1; i < len(l); i++ {
			if l[i] == l[i-1] {
				bm.Dup = true
			}
		}
		bm.Lists = append(bm.Lists, l)
	}
	return bm, nil
}

// segRect: does the segment intersect the open rectangle (x0,x1)x(y0,y1)?
// Exact integer arithmetic (Liang-Barsky on rationals via cross products).
func segHitsOpen(ax, ay, bx, by, x0, y0, x1, y1 int) bool {
	// clip parameter interval (t0,t1) with open conditions: use separating axes.
	// The open segment/closed endpoints intersects the open rectangle iff no
	// separating axis exists among x, y and the segment's normal (open => >=).
	if max(ax, bx) <= x0 || min(ax, bx) >= x1 || max(ay, by) <= y0 || min(ay, by) >= y1 {
		return false
	}
	dx, dy := bx-ax, by-ay
	pos, neg := false, false
	for _, c := range [4][2]int{{x0, y0}, {x1, y0}, {x0, y1}, {x1, y1}} {
		cr := dx*(c[1]-ay) - dy*(c[0]-ax)
		if cr > 0 {
			pos = true
		} else if cr < 0 {
			neg = true
		}
	}
	if dx == 0 && dy == 0 {
		return true
	}
	return pos && neg
}

func segHitsClosed(ax, ay, bx, by, x0, y0, x1, y1 int) bool {
	if max(ax, bx) < x0 || min(ax, bx) > x1 || max(ay, by) < y0 || min(ay, by) > y1 {
		return false
	}
	dx, dy := bx-ax, by-ay
	pos, neg := false, false
	for _, c := range [4][2]int{{x0, y0}, {x1, y0}, {x0, y1}, {x1, y1}} {
		cr := dx*(c[1]-ay) - dy*(c[0]-ax)
		if cr >= 0 {
			pos = true
		}
		if cr <= 0 {
			neg = true
		}
	}
	return pos && neg
}

type bmStats struct {
	Must, May, Border int
	NonEmpty          int
}

// Check compares each block with the lines through it. want(l): 1 the line must
// be in the blockmap, 0 it must not, -1 either.
func (bm *Blockmap) Check(lv *Level, want func(l int) int, superset bool, st *bmStats) error {
	in := func(l []int, v int) bool {
		i := sort.SearchInts(l, v)
		return i < len(l) && l[i] == v
	}
	// the grid covers every line
	for i, ln := range lv.Lines {
		if want(i) != 1 {
			continue
		}
		for _, v := range []int{ln.V1, ln.V2} {
			p := lv.Verts[v]
			if p.X < bm.X || p.Y < bm.Y || p.X >= bm.X+bm.W*128 || p.Y >= bm.Y+bm.H*128 {
				return fmt.Errorf("line %d vertex (%d,%d) is outside the grid (%d,%d) %dx%d", i, p.X, p.Y, bm.X, bm.Y, bm.W, bm.H)
			}
		}
	}
	for k, l := range bm.Lists {
		if len(l) > 0 {
			st.NonEmpty++
		}
		_ = k
	}
	for i, ln := range lv.Lines {
		w := want(i)
		a, b := lv.Verts[ln.V1], lv.Verts[ln.V2]
		bx0, bx1 := (min(a.X, b.X)-bm.X-1)>>7, (max(a.X, b.X)-bm.X+1)>>7
		by0, by1 := (min(a.Y, b.Y)-bm.Y-1)>>7, (max(a.Y, b.Y)-bm.Y+1)>>7
		for by := max(by0, 0); by <= min(by1, bm.H-1); by++ {
			for bx := max(bx0, 0); bx <= min(bx1, bm.W-1); bx++ {
				x0, y0 := bm.X+bx*128, bm.Y+by*128
				// slanted lines are traced with integer rounding: cutting a
				// corner by less than a map unit need not be noticed
				must := segHitsOpen(a.X, a.Y, b.X, b.Y, x0+1, y0+1, x0+127, y0+127)
				if a.X == b.X || a.Y == b.Y {
					must = segHitsOpen(a.X, a.Y, b.X, b.Y, x0, y0, x0+128, y0+128)
				}
				// a line running exactly on the left or bottom border belongs to this block
				if !must {
					for _, p := range []Vtx{a, b} {
						if p.X >= x0 && p.X < x0+128 && p.Y >= y0 && p.Y < y0+128 {
							must = true
						}
					}
					if a.X == b.X && a.X == x0 && max(a.Y, b.Y) > y0 && min(a.Y, b.Y) < y0+128 {
						must = true
					}
					if a.Y == b.Y && a.Y == y0 && max(a.X, b.X) > x0 && min(a.X, b.X) < x0+128 {
						must = true
					}
				}
				has := in(bm.Lists[by*bm.W+bx], i)
				if has && w == 0 && !superset {
					return fmt.Errorf("line %d must not be in the blockmap but block (%d,%d) lists it", i, bx, by)
				}
				if must {
					st.Must++
					if !has && w == 1 {
						return fmt.Errorf("line %d (%d,%d)-(%d,%d) passes through block (%d,%d) at (%d,%d) but is not listed", i, a.X, a.Y, b.X, b.Y, bx, by, x0, y0)
					}
				}
			}
		}
	}
	if superset {
		return nil
	}
	for k, l := range bm.Lists {
		bx, by := k%bm.W, k/bm.W
		x0, y0 := bm.X+bx*128, bm.Y+by*128
		for _, i := range l {
			ln := lv.Lines[i]
			a, b := lv.Verts[ln.V1], lv.Verts[ln.V2]
			if want(i) == 0 {
				return fmt.Errorf("line %d must not be in the blockmap but block (%d,%d) lists it", i, bx, by)
			}
			if !segHitsClosed(a.X, a.Y, b.X, b.Y, x0-1, y0-1, x0+129, y0+129) {
				return fmt.Errorf("line %d (%d,%d)-(%d,%d) is listed in block (%d,%d) at (%d,%d) but does not touch it", i, a.X, a.Y, b.X, b.Y, bx, by, x0, y0)
			}
			if !segHitsClosed(a.X, a.Y, b.X, b.Y, x0, y0, x0+128, y0+128) {
				st.Border++
			}
		}
	}
	if bm.Dup {
		return fmt.Errorf("a block lists the same line twice")
	}
	return nil
}

// bmRemovable gives the documented list of removable ("non-collideable") lines
// (manual, 05:02). Everything else must stay in the blockmap.
func bmRemovable(lv *Level) func(int) bool {
	multi := lv.Hexen
	for _, l := range lv.Lines {
		switch a := l.Action; a {
		case 7, 8, 9, 100, 127, 106, 107, 256, 257, 258, 259, 146, 155, 191:
			multi = true
		default:
			if a >= 0x3000 && a < 0x3400 { // Boom generalized stairs
				multi = true
			}
		}
	}
	// sectors that consist only of same-sector lines forming simple loops:
	// certainly self-referencing, so these lines are its perimeter
	pure := map[int]bool{}
	deg := map[int]map[int]int{}
	sec := func(l Line, k int) int {
		if l.S[k] < 0 {
			return -1
		}
		return lv.Sides[l.S[k]].Sector
	}
	for _, l := range lv.Lines {
		a, b := sec(l, 0), sec(l, 1)
		for _, s := range []int{a, b} {
			if s < 0 {
				continue
			}
			if _, ok := pure[s]; !ok {
				pure[s] = true
				deg[s] = map[int]int{}
			}
			if a != b {
				pure[s] = false
			}
		}
		if a == b && a >= 0 {
			deg[a][l.V1]++
			deg[a][l.V2]++
		}
	}
	for s := range pure {
		for _, d := range deg[s] {
			if d != 2 {
				pure[s] = false
			}
		}
	}
	return func(i int) bool {
		l := lv.Lines[i]
		if l.S[0] < 0 || l.S[1] < 0 || l.Flags&4 == 0 || l.Flags&(1|2|0x1000|0x2000) != 0 || l.Action != 0 {
			return false
		}
		a, b := sec(l, 0), sec(l, 1)
		if a == b {
			return !pure[a]
		}
		if multi {
			return false
		}
		A, B := lv.Sects[a], lv.Sects[b]
		ts := func(s int) bool { return s == 10 || s == 14 }
		return A.Floor == B.Floor && A.Ceil == B.Ceil && A.Tag == 0 && B.Tag == 0 && !ts(A.Special) && !ts(B.Special)
	}
}

func bmRemovalMap(r *rand.Rand, i int) (*Level, string) {
	o := RandOpt(r, 1)
	o.Tags = false
	o.SameLine = 0.1 + 0.3*r.Float64()
	o.SelfRef = 0.3 * r.Float64()
	o.Hexen = r.Intn(6) == 0
	lv := Gen(r, "MAP01", o)
	hv := []int{0, 0, 0, 8, 16}
	for s := range lv.Sects {
		lv.Sects[s].Floor = hv[r.Intn(5)]
		lv.Sects[s].Ceil = 128 + hv[r.Intn(5)]
		if r.Intn(6) == 0 {
			lv.Sects[s].Tag = 1 + r.Intn(9)
		}
		if r.Intn(6) == 0 {
			lv.Sects[s].Special = []int{10, 14, 9, 1}[r.Intn(4)]
		}
	}
	for l := range lv.Lines {
		ln := &lv.Lines[l]
		if ln.S[1] >= 0 {
			switch r.Intn(12) {
			case 0:
				ln.Flags |= 1
			case 1:
				ln.Flags |= 2
			case 2:
				ln.Flags |= 0x1000
			case 3:
				ln.Flags |= 0x2000
			case 4:
				ln.Flags &^= 4
			case 5:
				ln.Action = []int{1, 2, 31, 97, 11}[r.Intn(5)]
			case 6, 7:
				ln.Flags |= 0x8 | 0x100
			}
		}
	}
	m := 0
	if r.Intn(4) == 0 && !lv.Hexen {
		m = []int{7, 8, 9, 100, 127, 256, 257, 258, 259, 146, 155, 191}[r.Intn(12)]
		ln := &lv.Lines[r.Intn(len(lv.Lines))]
		ln.Action, ln.Tag = m, 5
	}
	return lv, fmt.Sprintf("removal multi%d %s", m, optKey(o))
}
