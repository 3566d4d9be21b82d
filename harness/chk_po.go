package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
)

func init() { checks["C18"] = chkPO }

// Polyobject rooms and precious lines. The node builder goes from the root down
// and at each step takes a partition that harms nothing precious, if one is on
// offer. The tree that came out is replayed from the root: wherever a room was
// parted or a precious line cut, no partition may have been on offer that
// clearly harms nothing of the kind.

func chkPO(e *Env) {
	e.rule = "random planar Hexen maps with polyobject start spots (both thing numberings, decoys, spots close to lines) in convex rooms, and Doom maps with two-sided precious lines, chosen so that a harmless partition remains on offer in any order x partitioners, formats, multi-tree, thread counts: subsectors a room's segs lie in and segs per precious line side counted; non-trivial = a build of the same map without the spots or tags does split some of them; distinct by map and options"
	Parallel(e.N(4000, 60000), 0, func(i int) {
		if e.TooMany() {
			return
		}
		if i%2 == 0 {
			poCase(e, i)
		} else {
			preciousCase(e, i)
		}
	})
}

// rooms lists sectors that are one convex polygon with nothing inside, as
// vertex loops with the room on the right (clockwise).
func convexRooms(lv *Level) map[int][]int {
	next := map[int]map[int][]int{}
	bad := map[int]bool{}
	for _, l := range lv.Lines {
		if l.V1 == l.V2 || lv.Verts[l.V1] == lv.Verts[l.V2] {
			for s := 0; s < 2; s++ {
				if l.S[s] >= 0 {
					bad[lv.Sides[l.S[s]].Sector] = true
				}
			}
			continue
		}
		for s := 0; s < 2; s++ {
			if l.S[s] < 0 {
				continue
			}
			sec := lv.Sides[l.S[s]].Sector
			if l.S[1-s] >= 0 && lv.Sides[l.S[1-s]].Sector == sec {
				bad[sec] = true
			}
			if next[sec] == nil {
				next[sec] = map[int][]int{}
			}
			a, b := l.V1, l.V2
			if s == 1 {
				a, b = b, a
			}
			next[sec][a] = append(next[sec][a], b)
		}
	}
	out := map[int][]int{}
sectors:
	for sec, nx := range next {
		if bad[sec] {
			continue
		}
		start := -1
		for a, b := range nx {
			if len(b) != 1 {
				continue sectors
			}
			if start < 0 || a < start {
				start = a
			}
		}
		var loop []int
		for a := start; ; {
			loop = append(loop, a)
			b, ok := nx[a]
			if !ok || len(loop) > len(nx) {
				continue sectors
			}
			if a = b[0]; a == start {
				break
			}
		}
		if len(loop) != len(nx) || len(loop) < 3 {
			continue
		}
		area := 0
		for k := range loop {
			p, q, t := lv.Verts[loop[k]], lv.Verts[loop[(k+1)%len(loop)]], lv.Verts[loop[(k+2)%len(loop)]]
			if cross(p, q, t) > 0 { // turns left
				continue sectors
			}
			area += p.X*q.Y - p.Y*q.X
		}
		if area >= 0 {
			continue
		}
		out[sec] = loop
	}
	return out
}

func cross(p, q, t Vtx) int { return (q.X-p.X)*(t.Y-p.Y) - (q.Y-p.Y)*(t.X-p.X) }

// offLine is the distance of t from the line through p and q.
func offLine(p, q, t Vtx) float64 {
	return float64(cross(p, q, t)) / math.Hypot(float64(q.X-p.X), float64(q.Y-p.Y))
}

// sideOf tells on which side of line p,q a point set lies: -1, 1, or 0 if the
// line touches or crosses it (or all but).
func sideOf(lv *Level, p, q Vtx, set []int) int {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range set {
		d := offLine(p, q, lv.Verts[v])
		lo, hi = math.Min(lo, d), math.Max(hi, d)
	}
	if lo > 3 {
		return 1
	}
	if hi < -3 {
		return -1
	}
	return 0
}

// alongSide: the line runs along a side of a convex room.
func alongSide(lv *Level, p, q Vtx, loop []int) bool {
	for k := range loop {
		if cross(p, q, lv.Verts[loop[k]]) == 0 && cross(p, q, lv.Verts[loop[(k+1)%len(loop)]]) == 0 {
			return true
		}
	}
	return false
}

// separable: for all subsets of at least two rooms some side of one of them,
// extended, has rooms to both its sides and harms none.
func separable(lv *Level, rooms [][]int) bool {
	for set := 1; set < 1<<len(rooms); set++ {
		if set&(set-1) == 0 {
			continue
		}
		found := false
		for a := range rooms {
			if found || set&(1<<a) == 0 {
				continue
			}
			for k := range rooms[a] {
				p, q := lv.Verts[rooms[a][k]], lv.Verts[rooms[a][(k+1)%len(rooms[a])]]
				ok, left := true, false
				for b := range rooms {
					if set&(1<<b) == 0 || b == a {
						continue
					}
					switch s := sideOf(lv, p, q, rooms[b]); {
					case s > 0:
						left = true
					case s == 0 && alongSide(lv, p, q, rooms[b]):
						for _, v := range rooms[b] {
							if cross(p, q, lv.Verts[v]) > 0 {
								left = true
							}
						}
					case s == 0:
						ok = false
					}
				}
				if ok && left {
					found = true
					break
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// nearMiss: some line's extension passes a point of the set closer than the
// builder's tolerance without going through it, so that the rounding of cuts
// decides what is split.
func nearMiss(lv *Level, pts []int) bool {
	for _, l := range lv.Lines {
		p, q := lv.Verts[l.V1], lv.Verts[l.V2]
		if p == q {
			continue
		}
		for _, v := range pts {
			if d := math.Abs(offLine(p, q, lv.Verts[v])); d > 0 && d < 3 {
				return true
			}
		}
	}
	return false
}

func inRoom(lv *Level, loop []int, x, y int) float64 {
	best := math.Inf(1)
	for k := range loop {
		p, q := lv.Verts[loop[k]], lv.Verts[loop[(k+1)%len(loop)]]
		best = math.Min(best, -offLine(p, q, Vtx{x, y}))
	}
	return best
}

// spotIn picks a start spot well inside a room.
func spotIn(lv *Level, r *rand.Rand, loop []int) (Vtx, bool) {
	for try := 0; try < 30; try++ {
		var x, y, w float64
		for _, v := range loop {
			k := r.Float64() + 0.05
			x, y, w = x+k*float64(lv.Verts[v].X), y+k*float64(lv.Verts[v].Y), w+k
		}
		p := Vtx{int(math.Round(x / w)), int(math.Round(y / w))}
		if r.Intn(3) == 0 { // level with some vertex of the map
			p.Y = lv.Verts[r.Intn(len(lv.Verts))].Y
			if r.Intn(2) == 0 {
				p.Y = lv.Verts[loop[r.Intn(len(loop))]].Y
			}
		}
		if inRoom(lv, loop, p.X, p.Y) > 16 {
			return p, true
		}
	}
	return Vtx{}, false
}

// spotBeside picks a start spot so close to a side of the room that the room
// on the other side counts as well.
func spotBeside(lv *Level, r *rand.Rand, loop []int) (Vtx, bool) {
	k := r.Intn(len(loop))
	a, b := lv.Verts[loop[k]], lv.Verts[loop[(k+1)%len(loop)]]
	t := 0.2 + 0.6*r.Float64()
	ln := math.Hypot(float64(b.X-a.X), float64(b.Y-a.Y))
	d := 6 * r.Float64()
	p := Vtx{int(math.Round(float64(a.X) + t*float64(b.X-a.X) + d*float64(b.Y-a.Y)/ln)),
		int(math.Round(float64(a.Y) + t*float64(b.Y-a.Y) - d*float64(b.X-a.X)/ln))}
	return p, inRoom(lv, loop, p.X, p.Y) > -1
}

// beside lists the sectors of lines so close to the spot that they may count.
func beside(lv *Level, p Vtx) (out []int) {
	for _, l := range lv.Lines {
		a, b := lv.Verts[l.V1], lv.Verts[l.V2]
		if distToSeg(float64(p.X), float64(p.Y), float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)) > 20 {
			continue
		}
		for s := 0; s < 2; s++ {
			if l.S[s] >= 0 {
				out = append(out, lv.Sides[l.S[s]].Sector)
			}
		}
	}
	return
}

func poMap(r *rand.Rand) (_ *Level, _ string, secs, maybe []int) {
	for {
		g := RandOpt(r, r.Intn(2))
		g.Hexen, g.SelfRef, g.ZeroLen, g.Tags = true, 0, 0, false
		g.Scatter = false
		if r.Intn(2) == 0 {
			g.Sectors = 0
		}
		if r.Intn(3) == 0 {
			g.Jitter, g.Rot = 0, 0
		}
		lv := Gen(r, "MAP01", g)
		maybe = nil
		if len(lv.Lines) > 140 {
			continue
		}
		all := convexRooms(lv)
		if len(all) == 0 {
			continue
		}
		var convex []int
		for s := range lv.Sects {
			if all[s] != nil {
				convex = append(convex, s)
			}
		}
		want, crowd := 1+r.Intn(4), r.Intn(4) == 0
		if crowd {
			want += r.Intn(8)
		}
		var picked []int
		var loops [][]int
		zdoom := r.Intn(2) == 0
		var spots []Vtx
		for _, k := range r.Perm(len(convex)) {
			if len(picked) == want {
				break
			}
			loop := all[convex[k]]
			if nearMiss(lv, loop) || !crowd && !separable(lv, append(append([][]int{}, loops...), loop)) {
				continue
			}
			p, ok := spotIn(lv, r, loop)
			if r.Intn(6) == 0 {
				if p, ok = spotBeside(lv, r, loop); ok {
					maybe = append(maybe, beside(lv, p)...)
				}
			}
			if !ok {
				continue
			}
			if r.Intn(5) == 0 { // several in one room
				if p, ok := spotIn(lv, r, loop); ok {
					spots = append(spots, p)
				}
			}
			picked, loops, spots = append(picked, convex[k]), append(loops, loop), append(spots, p)
		}
		used := map[int]bool{}
		for _, sd := range lv.Sides {
			used[sd.Sector] = true
		}
		if len(picked) == 0 || len(used) < 2 { // a map that is one convex room is always cut once
			continue
		}
		types := []int{3001, 3002}
		if zdoom {
			types = []int{9301, 9302}
		}
		for _, p := range spots {
			lv.Things = append(lv.Things, Thing{X: p.X, Y: p.Y, Angle: 1 + r.Intn(90), Type: types[r.Intn(2)], Flags: 2016 + 7})
		}
		if zdoom { // in such maps these are monsters
			for k := r.Intn(4); k > 0; k-- {
				v := lv.Verts[r.Intn(len(lv.Verts))]
				lv.Things = append(lv.Things, Thing{X: v.X + r.Intn(100), Y: v.Y + r.Intn(100), Type: 3001 + r.Intn(2), Flags: 2023})
			}
		}
		r.Shuffle(len(lv.Things), func(a, b int) { lv.Things[a], lv.Things[b] = lv.Things[b], lv.Things[a] })
		lv.Lines[r.Intn(len(lv.Lines))].Action = []int{1, 5}[r.Intn(2)]
		return lv, fmt.Sprintf("rooms %v of %d crowd %v zdoom %v %s", picked, len(all), crowd, zdoom, optKey(g)), picked, maybe
	}
}

func poArgs(r *rand.Rand) []string {
	a := nodeArgs(r, "vvddxzXDcZ", false)
	// the cost of a split must outweigh the rest, as it does by default
	for {
		if strings.Contains(a[0], "f=") {
			a = nodeArgs(r, "vvddxzXDcZ", false)
			continue
		}
		break
	}
	if r.Intn(5) == 0 {
		a[0] += fmt.Sprintf("f=%d", 17+r.Intn(40))
	}
	return append(a, "-b-", "-r-")
}

// broken counts what was split: sectors in several subsectors, sides with
// several segs.
func broken(lv *Level, b *BSP, secs []int, lines map[[2]int]bool) (where string, n int) {
	in := map[int]map[int]bool{}
	segs := map[[2]int]int{}
	for k, ss := range b.SSecs {
		for _, s := range b.Segs[ss.First : ss.First+ss.Count] {
			segs[[2]int{s.Line, s.Side}]++
			sec := lv.SectorOf(s.Line, s.Side)
			if in[sec] == nil {
				in[sec] = map[int]bool{}
			}
			in[sec][k] = true
		}
	}
	for _, s := range secs {
		if len(in[s]) != 1 {
			n++
			where = fmt.Sprintf("sector %d has its segs in %d subsectors", s, len(in[s]))
		}
	}
	for i := range lv.Lines {
		for s := 0; s < 2; s++ {
			if !lines[[2]int{i, s}] {
				continue
			}
			if k := segs[[2]int{i, s}]; k > 1 {
				n++
				where = fmt.Sprintf("line %d side %d has %d segs", i, s, k)
			}
		}
	}
	return
}

func poCase(e *Env, i int) {
	r := e.Rand("po", i)
	lv, desc, secs, maybe := poMap(r)
	args := poArgs(r)
	if len(lv.Lines) <= 40 && r.Intn(5) == 0 {
		args[0] += fmt.Sprintf("m=3t=%d", 1+r.Intn(6))
	}
	c := e.NewCase(fmt.Sprintf("po %d %s %v", i, desc, args))
	defer c.Done()
	lines := map[[2]int]bool{}
	for k, l := range lv.Lines {
		for s := 0; s < 2; s++ {
			for _, sec := range secs {
				if l.S[s] >= 0 && lv.Sides[l.S[s]].Sector == sec {
					lines[[2]int{k, s}] = true
				}
			}
		}
	}
	judge(e, c, i, lv, desc, args, secs, maybe, lines)
}

func judge(e *Env, c *Case, i int, lv *Level, desc string, args []string, secs, maybe []int, lines map[[2]int]bool) {
	nc := runNodeCase(c, lv, desc, args)
	if nc == nil {
		e.Eval("")
		return
	}
	steps, parted := harmSteps(nc.out, nc.b, secs, maybe, lines)
	if k := len(steps) - 1; k >= 0 && strings.Contains(args[0], "m=") && steps[k].node == len(nc.b.Nodes)-1 {
		steps = steps[:k] // the root of a multi-tree is not picked by this rule
	}
	if len(steps) > 0 {
		s := steps[len(steps)-1] // nearest the root
		c.Violate("split", "at node %d %s though the partition along %s harms no polyobject room or precious line (%d such steps)", s.node, s.what, s.alt, len(steps))
		e.Eval("")
		return
	}
	e.Count("parted_for_want_of_better", parted)
	e.Count("rooms", len(secs))
	e.Count("precious_lines", len(lines))
	// what happens when nothing is special
	plain := *lv
	plain.Things = nil
	for _, t := range lv.Things {
		if t.Type != 3001 && t.Type != 3002 && t.Type != 9301 && t.Type != 9302 {
			plain.Things = append(plain.Things, t)
		}
	}
	plain.Lines = append([]Line{}, lv.Lines...)
	for k := range plain.Lines {
		if plain.Lines[k].Tag >= 900 {
			plain.Lines[k].Tag = 0
		}
	}
	pc := runNodeCase(c, &plain, desc, args)
	if pc == nil {
		e.Eval("")
		return
	}
	key := ""
	if _, n := broken(pc.out, pc.b, secs, lines); n > 0 {
		key = fmt.Sprint(desc, args)
		e.Count("would_be_split", n)
	}
	e.Eval(key)
	if i < 6 {
		e.Sample(map[string]interface{}{"map": desc, "args": args, "lines": len(lv.Lines), "rooms": secs, "precious": len(lines)})
	}
}

func preciousCase(e *Env, i int) {
	r := e.Rand("precious", i)
	var lv *Level
	var desc string
	lines := map[[2]int]bool{}
	for {
		g := RandOpt(r, r.Intn(2))
		g.Hexen, g.SelfRef, g.ZeroLen, g.Tags = false, 0, 0, false
		lv = Gen(r, "MAP01", g)
		if len(lv.Lines) > 140 {
			continue
		}
		lines = map[[2]int]bool{}
		var picked []int
		want := 1 + r.Intn(7)
		for _, k := range r.Perm(len(lv.Lines)) {
			l := lv.Lines[k]
			if len(picked) == want {
				break
			}
			if l.S[0] < 0 || l.S[1] < 0 || lv.Verts[l.V1] == lv.Verts[l.V2] || nearMiss(lv, []int{l.V1, l.V2}) {
				continue
			}
			if !acyclic(lv, append(append([]int{}, picked...), k)) {
				continue
			}
			picked = append(picked, k)
		}
		if len(picked) == 0 {
			continue
		}
		for _, k := range picked {
			lv.Lines[k].Tag = []int{900, 901, 997, 1000, 1001, 30000, 32767, 40000, 65535}[r.Intn(9)]
			lines[[2]int{k, 0}], lines[[2]int{k, 1}] = true, true
		}
		desc = fmt.Sprintf("lines %v of %d %s", picked, len(lv.Lines), optKey(g))
		break
	}
	args := poArgs(r)
	if len(lv.Lines) <= 40 && r.Intn(5) == 0 {
		args[0] += fmt.Sprintf("m=%dt=%d", 2+r.Intn(2), 1+r.Intn(6))
	}
	c := e.NewCase(fmt.Sprintf("precious %d %s %v", i, desc, args))
	defer c.Done()
	judge(e, c, i, lv, desc, args, nil, nil, lines)
}

// acyclic: of any number of the lines there is one whose extension avoids all
// others (lines on the same straight line may be cut along together).
func acyclic(lv *Level, set []int) bool {
	left := append([]int{}, set...)
	hits := func(a, b int) bool {
		p, q := lv.Verts[lv.Lines[a].V1], lv.Verts[lv.Lines[a].V2]
		s, t := lv.Lines[b].V1, lv.Lines[b].V2
		if cross(p, q, lv.Verts[s]) == 0 && cross(p, q, lv.Verts[t]) == 0 {
			return false
		}
		return sideOf(lv, p, q, []int{s, t}) == 0
	}
	for len(left) > 0 {
		gone := -1
		for x, a := range left {
			ok := true
			for _, b := range left {
				if a != b && hits(a, b) {
					ok = false
				}
			}
			if ok {
				gone = x
				break
			}
		}
		if gone < 0 {
			return false
		}
		left = append(left[:gone], left[gone+1:]...)
	}
	return true
}

// A piece is what of one side of a line lies below some node.
type piece struct {
	line, side int
	p, q       PV
	group      int // sector of a polyobject room, or -1-line for a precious line
	marked     bool
}

// harmSteps replays the tree from the root and looks at every step that parted
// something precious: was there a partition to be had that harmed nothing?
type harmStep struct {
	node  int
	what  string
	alt   string
	exact bool
}

func harmSteps(lv *Level, b *BSP, secs, maybe []int, lines map[[2]int]bool) (steps []harmStep, parted int) {
	isRoom := map[int]bool{}
	for _, s := range secs {
		isRoom[s] = true
	}
	spare := map[int]bool{} // not to be harmed by alternatives
	for _, s := range append(append([]int{}, secs...), maybe...) {
		spare[s] = true
	}
	below := make([]map[[2]int]*piece, len(b.Nodes))
	leaf := func(k int) map[[2]int]*piece {
		m := map[[2]int]*piece{}
		ss := b.SSecs[k]
		for _, s := range b.Segs[ss.First : ss.First+ss.Count] {
			add(m, &piece{line: s.Line, side: s.Side, p: b.Verts[s.V1], q: b.Verts[s.V2]}, lv)
		}
		return m
	}
	var walk func(k int) map[[2]int]*piece
	walk = func(k int) map[[2]int]*piece {
		if k < 0 {
			return leaf(^k)
		}
		n := &b.Nodes[k]
		l, r := walk(n.Child[0]), walk(n.Child[1])
		m := map[[2]int]*piece{}
		for _, x := range []map[[2]int]*piece{l, r} {
			for _, a := range x {
				add(m, a, lv)
			}
		}
		below[k] = m
		// what was parted here
		var what []string
		rooms := map[int]int{}
		for key, a := range m {
			_, inL := l[key]
			_, inR := r[key]
			if lines[key] && inL && inR {
				what = append(what, fmt.Sprintf("line %d side %d is split", key[0], key[1]))
			}
			// a seg along the partition takes no part of the room with it
			// wherever it goes
			along := math.Abs(n.Dist(a.p.X, a.p.Y)) < 1 && math.Abs(n.Dist(a.q.X, a.q.Y)) < 1
			if sec := lv.SectorOf(key[0], key[1]); isRoom[sec] && !along {
				if inL {
					rooms[sec] |= 1
				}
				if inR {
					rooms[sec] |= 2
				}
			}
		}
		for _, s := range secs {
			if rooms[s] == 3 {
				what = append(what, fmt.Sprintf("the room of sector %d is parted", s))
			}
		}
		if len(what) > 0 {
			parted++
			sort.Strings(what)
			if alt := harmless(lv, m, spare, lines); alt != "" {
				steps = append(steps, harmStep{node: k, what: strings.Join(what, ", "), alt: alt})
			}
		}
		return m
	}
	if len(b.Nodes) > 0 {
		walk(len(b.Nodes) - 1)
	}
	return
}

// add joins pieces of one side of a line.
func add(m map[[2]int]*piece, a *piece, lv *Level) {
	key := [2]int{a.line, a.side}
	o := m[key]
	if o == nil {
		c := *a
		m[key] = &c
		return
	}
	l := lv.Lines[a.line]
	p, q := lv.Verts[l.V1], lv.Verts[l.V2]
	if a.side == 1 {
		p, q = q, p
	}
	dx, dy := float64(q.X-p.X), float64(q.Y-p.Y)
	t := func(v PV) float64 { return dx*v.X + dy*v.Y }
	if t(a.p) < t(o.p) {
		o.p = a.p
	}
	if t(a.q) > t(o.q) {
		o.q = a.q
	}
}

// harmless looks for a partition along one of the pieces that clearly has
// something on either side, clearly avoids everything precious and does not
// cut much else.
func harmless(lv *Level, m map[[2]int]*piece, isRoom map[int]bool, lines map[[2]int]bool) string {
	if len(m) > 300 {
		return ""
	}
	keys := make([][2]int, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool {
		return keys[a][0] < keys[b][0] || keys[a][0] == keys[b][0] && keys[a][1] < keys[b][1]
	})
candidates:
	for _, key := range keys {
		l := lv.Lines[key[0]]
		p, q := lv.Verts[l.V1], lv.Verts[l.V2]
		ln := math.Hypot(float64(q.X-p.X), float64(q.Y-p.Y))
		if o := m[key]; key[1] == 0 && (o.p != PV{float64(p.X), float64(p.Y)} || o.q != PV{float64(q.X), float64(q.Y)}) ||
			key[1] == 1 && (o.q != PV{float64(p.X), float64(p.Y)} || o.p != PV{float64(q.X), float64(q.Y)}) {
			continue // cut short, so perhaps bent
		}
		off := func(v PV) float64 {
			return (float64(q.X-p.X)*(v.Y-float64(p.Y)) - float64(q.Y-p.Y)*(v.X-float64(p.X))) / ln
		}
		left, right, cut := 0, 0, 0
		along := map[int]bool{}
		roomSides := map[int]int{}
		touch := map[int]bool{}
		for _, o := range m {
			a, b := off(o.p), off(o.q)
			lo, hi := math.Min(a, b), math.Max(a, b)
			sec := lv.SectorOf(o.line, o.side)
			precious := lines[[2]int{o.line, o.side}] || isRoom[sec]
			collinear := lo > -1 && hi < 1
			switch {
			case collinear:
				ol := lv.Lines[o.line]
				if cross(p, q, lv.Verts[ol.V1]) != 0 || cross(p, q, lv.Verts[ol.V2]) != 0 {
					if precious {
						continue candidates
					}
				} else {
					along[sec] = true
				}
				continue
			case lo > 3:
				left++
				roomSides[sec] |= 1
			case hi < -3:
				right++
				roomSides[sec] |= 2
			case lo < -3 && hi > 3:
				cut++
				roomSides[sec] |= 3
				if precious {
					continue candidates
				}
			default: // touches, or nearly so
				if lo < -3 {
					roomSides[sec] |= 2
				}
				if hi > 3 {
					roomSides[sec] |= 1
				}
				if isRoom[sec] {
					touch[sec] = true
				} else if precious {
					continue candidates
				}
			}
		}
		for sec := range isRoom {
			if roomSides[sec] == 3 || touch[sec] && !along[sec] {
				continue candidates
			}
		}
		if left == 0 || right == 0 || cut > 25 {
			continue
		}
		return fmt.Sprintf("line %d (%d left, %d right, %d cut)", key[0], left, right, cut)
	}
	return ""
}
