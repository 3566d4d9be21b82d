package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
)

func init() { checks["C14"] = chkFormats }

// limitMap draws a map that ends up near one of the limits of the vanilla node
// format: 32767 subsectors, 65536 vertices, segs addressed by a 16-bit (or, for
// the original engine, 15-bit) number.
func limitMap(r *rand.Rand, kind int) (*Level, string) {
	lv := &Level{Name: "MAP01", Sects: []Sect{{Ceil: 128}, {Floor: 8, Ceil: 128}}}
	side := func(s int) int { lv.Sides = append(lv.Sides, Side{Sector: s}); return len(lv.Sides) - 1 }
	v := func(x, y int) int { lv.Verts = append(lv.Verts, Vtx{x, y}); return len(lv.Verts) - 1 }
	line := func(a, b int, two bool) {
		l := Line{V1: a, V2: b, Flags: 1, S: [2]int{side(0), -1}}
		if two {
			l.Flags, l.S[1] = 4, side(0)
		}
		lv.Lines = append(lv.Lines, l)
	}
	rev := r.Intn(2) == 0 || kind == 2 && r.Intn(2) == 0
	// rung: a run of k collinear horizontal lines
	rung := func(x, y, k, w int, two bool) {
		p := v(x, y)
		for j := 0; j < k; j++ {
			q := v(x+(j+1)*w, y)
			if rev {
				line(q, p, two)
			} else {
				line(p, q, two)
			}
			p = q
		}
	}
	rx := func() int { return r.Intn(60000) - 30000 }
	lv.Things = []Thing{{X: 0, Y: 0, Type: 1, Flags: 7}}
	var desc string
	switch kind {
	case 0: // one rung more than subsectors, no splits
		n := 32766 + r.Intn(5) - 2
		if n > 32767 {
			n = 32767
		}
		for k := 0; k < n; k++ {
			rung(rx(), -32767+2*k, 1, 10+r.Intn(60), true)
		}
		desc = fmt.Sprintf("rungs %d", n)
	case 1: // a wall crossed by all partitions: vertices
		n := 21844 + r.Intn(9) - 5
		two := r.Intn(3) == 0
		for k := 0; k < n; k++ {
			rung(rx(), -32500+2*k, 1, 64, two)
		}
		line(v(-32000, -32767), v(-32000, 32767), false)
		desc = fmt.Sprintf("wall %d %v", n, two)
	case 2, 3, 5: // segs, with a large subsector that could be moved to the end
		limit := 65536
		if kind == 3 {
			limit = 32768
		}
		big := 2 + r.Intn(500)
		tot := limit - 3 + r.Intn(big+14)
		if r.Intn(2) == 0 {
			tot = limit + big*2/3 + r.Intn(big/3+1)
		}
		per := 2 + r.Intn(3)
		after := 0
		if r.Intn(4) > 0 {
			after = r.Intn(30)
		} else if r.Intn(2) == 0 {
			after = tot / 2 / per / 2
		}
		if kind == 5 { // its segs lie across the limit
			rev, big, per, after = true, 100+r.Intn(400), 2, 1+r.Intn(8)
			tot = limit + 4*after + big/4 + r.Intn(big/2)
		}
		before := (tot-2*big)/(2*per) - after
		y := -32700
		for k := 0; k < before; k++ {
			rung(rx(), y, per, 1+r.Intn(40), true)
			y += 2
		}
		rung(-31000, y, big, 100, true)
		for k := 0; k < after; k++ {
			y += 2
			rung(rx(), y, per, 1+r.Intn(40), true)
		}
		for (len(lv.Lines)-len(lv.Sides)/2)*2+len(lv.Sides) < tot && len(lv.Lines) < 65535 && kind != 5 {
			y += 2
			rung(rx(), y, 1, 50, r.Intn(2) == 0)
		}
		desc = fmt.Sprintf("segs %d big %d per %d after %d", tot, big, per, after)
	case 4: // islands on a grid
		n := 8192 + r.Intn(60) - 40
		w := 60 + r.Intn(100)
		for k := 0; k < n; k++ {
			x, y := -32000+(k%w)*128*2, -32000+(k/w)*256
			if y > 32000 {
				break
			}
			a, b, c, d := v(x, y), v(x+64, y), v(x+64, y+64), v(x, y+64)
			for _, p := range [][2]int{{a, b}, {b, c}, {c, d}, {d, a}} {
				lv.Lines = append(lv.Lines, Line{V1: p[0], V2: p[1], Flags: 4, S: [2]int{side(0), side(1)}})
			}
		}
		desc = fmt.Sprintf("islands %d w %d", n, w)
	}
	if rev {
		desc += " rev"
	}
	return lv, desc
}

// parts compares two trees that may differ in the arrangement of their segs.
func sameTree(a, b *BSP) error {
	if len(a.Verts) != len(b.Verts) {
		return fmt.Errorf("%d and %d vertices", len(a.Verts), len(b.Verts))
	}
	for k := range a.Verts {
		if a.Verts[k] != b.Verts[k] {
			return fmt.Errorf("vertex %d differs", k)
		}
	}
	if len(a.SSecs) != len(b.SSecs) || len(a.Segs) != len(b.Segs) || len(a.Nodes) != len(b.Nodes) {
		return fmt.Errorf("%d/%d subsectors, %d/%d segs, %d/%d nodes", len(a.SSecs), len(b.SSecs), len(a.Segs), len(b.Segs), len(a.Nodes), len(b.Nodes))
	}
	for k := range a.Nodes {
		if a.Nodes[k] != b.Nodes[k] {
			return fmt.Errorf("node %d: %v and %v", k, a.Nodes[k], b.Nodes[k])
		}
	}
	for k := range a.SSecs {
		s, t := a.SSecs[k], b.SSecs[k]
		if s.Count != t.Count || s.First+s.Count > len(a.Segs) || t.First+t.Count > len(b.Segs) {
			return fmt.Errorf("subsector %d: segs %d+%d and %d+%d", k, s.First, s.Count, t.First, t.Count)
		}
		for j := 0; j < s.Count; j++ {
			if a.Segs[s.First+j] != b.Segs[t.First+j] {
				return fmt.Errorf("subsector %d seg %d: %v and %v", k, j, a.Segs[s.First+j], b.Segs[t.First+j])
			}
		}
	}
	return nil
}

func nodeLumps(w *Wad) [][]byte {
	var r [][]byte
	for _, n := range []string{"VERTEXES", "SEGS", "SSECTORS", "NODES"} {
		b, _ := w.LevelLump("MAP01", n)
		r = append(r, append([]byte{}, b...))
	}
	return r
}

// formatCase builds one map in several formats and compares them.
func formatCase(e *Env, c *Case, r *rand.Rand, lv *Level, desc string, rest []string, atLimit bool) {
	c.Write("in.wad", lv.Wad().Bytes())
	base := func(f string) []string {
		a := append([]string{"-d", "-b-", "-r-"}, rest...)
		for k := range a {
			if strings.HasPrefix(a[k], "-n") {
				a[k] += "c=" + f
			}
		}
		return a
	}
	multi := strings.Contains(rest[0], "m=")
	type built struct {
		w   *Wad
		b   *BSP
		l   [][]byte
		out string
	}
	get := func(f string) *built {
		bt := c.Build("in.wad", "out.wad", base(f)...)
		if bt == nil {
			return nil
		}
		b, err := ParseBSP(bt.Wad, "MAP01")
		if err != nil {
			c.Violate("parse", "c=%s: nodes cannot be decoded: %v", f, err)
			return nil
		}
		ol, err := DecodeLevel(bt.Wad, "MAP01")
		if err != nil {
			c.Violate("level", "c=%s: output level cannot be decoded: %v", f, err)
			return nil
		}
		if len(ol.Lines) != len(lv.Lines) {
			c.Violate("lines", "c=%s: %d lines became %d", f, len(lv.Lines), len(ol.Lines))
			return nil
		}
		for k := range ol.Lines {
			p, q := &ol.Lines[k], &lv.Lines[k]
			if p.V1 >= len(ol.Verts) || p.V2 >= len(ol.Verts) || ol.Verts[p.V1] != lv.Verts[q.V1] || ol.Verts[p.V2] != lv.Verts[q.V2] {
				c.Violate("lines", "c=%s: line %d has other end points", f, k)
				return nil
			}
		}
		if b != nil {
			if err := b.structure(ol, false); err != nil {
				c.Violate("structure", "c=%s: %v", f, err)
				return nil
			}
			if atLimit {
				if err := segsOnLines(b, ol, 2); err != nil {
					c.Violate("astray", "c=%s: %v", f, err)
					return nil
				}
			}
		}
		e.Count("trees built", 1)
		return &built{bt.Wad, b, nodeLumps(bt.Wad), bt.Res.Out}
	}
	equal := func(a, b *built, sig, what string) {
		if !reflect.DeepEqual(a.l, b.l) {
			c.Violate(sig, "%s (%s, options %v)", what, desc, rest)
		}
	}
	d := get("d")
	if d == nil {
		return
	}
	if d.b == nil || d.b.Format != "deep" {
		c.Violate("format", "c=d gave no large-format nodes (%s, options %v): %s", desc, rest, tail(d.out, 300))
		return
	}
	v := get("v")
	if v == nil {
		return
	}
	most := 0
	for _, s := range d.b.SSecs {
		if s.Count > most {
			most = s.Count
		}
	}
	last := d.b.SSecs[len(d.b.SSecs)-1].First
	nv, ns, ng := len(d.b.Verts), len(d.b.SSecs), len(d.b.Segs)
	say := fmt.Sprintf("%d vertices, %d subsectors, %d segs of which up to %d in one subsector, last subsector from seg %d (%s, options %v)", nv, ns, ng, most, last, desc, rest)
	switch {
	case v.b == nil:
		e.Count("too large for vanilla", 1)
		if !multi && nv <= 65536 && ns <= 32767 && last <= 65535 {
			c.Violate("refused", "vanilla nodes were not written although they fit: %s", say)
		}
		if !multi && nv <= 65536 && ns <= 32767 && ng-most <= 65535 {
			c.Violate("refused", "vanilla nodes were not written although they fit after moving one subsector's segs: %s", say)
		}
		if !strings.Contains(v.out, "too large") {
			c.Violate("silent", "vanilla nodes left empty without saying so: %s", say)
		}
	case v.b.Format != "vanilla":
		c.Violate("format", "c=v gave %s nodes (%s)", v.b.Format, desc)
		return
	default:
		e.Count("fits vanilla", 1)
		if last > 32767 && ng-most <= 32767 {
			e.Count("segs rearranged for 15 bits", 1)
			if s := v.b.SSecs[len(v.b.SSecs)-1].First; s > 32767 {
				e.Count("segs not rearranged for 15 bits", 1)
			}
		}
		if last > 65535 {
			e.Count("segs rearranged for 16 bits", 1)
		}
		if err := sameTree(v.b, d.b); err != nil && !(multi && nv+ns+ng > 60000) {
			c.Violate("differ", "vanilla and large format disagree: %v: %s", err, say)
		}
		seen := make([]bool, len(v.b.Segs))
		for k, s := range v.b.SSecs {
			for j := s.First; j < s.First+s.Count; j++ {
				if seen[j] {
					c.Violate("shared", "c=v: seg %d belongs to two subsectors, one is %d (%s)", j, k, say)
					return
				}
				seen[j] = true
			}
		}
	}
	if D := get("D"); D != nil {
		if v.b != nil {
			equal(D, v, "prefer", "c=D differs from c=v though that fits: "+say)
		} else if !multi {
			equal(D, d, "prefer", "c=D differs from c=d though c=v doesn't fit: "+say)
		} else if D.b == nil {
			c.Violate("prefer", "c=D left nodes empty: %s", say)
		}
	}
	x := get("x")
	if x == nil {
		return
	}
	zl := string("0123456789 "[r.Intn(11)])
	zl = strings.TrimSpace(zl)
	z := get("z" + zl)
	if z == nil {
		return
	}
	if x.b == nil || x.b.Format != "xnod" || z.b == nil || z.b.Format != "znod" {
		c.Violate("format", "c=x or c=z gave no such nodes (%s)", desc)
		return
	}
	x.b.Format, z.b.Format = "", ""
	if !reflect.DeepEqual(x.b, z.b) || !bytes.Equal(x.l[0], z.l[0]) {
		c.Violate("inflate", "c=z%s holds another tree than c=x: %s", zl, say)
	}
	if len(x.b.Segs) < len(lv.Lines) {
		c.Violate("segs", "c=x: %d segs for %d lines (%s)", len(x.b.Segs), len(lv.Lines), desc)
	}
	f := "X"
	ref := x
	if r.Intn(2) == 0 {
		f, ref = "Z"+zl, z
	}
	if X := get(f); X != nil {
		if v.b != nil {
			equal(X, v, "prefer", "c="+f+" differs from c=v though that fits: "+say)
		} else if !multi {
			equal(X, ref, "prefer", "c="+f+" differs from the extended format though c=v doesn't fit: "+say)
		} else if X.b == nil || !X.b.Extended {
			c.Violate("prefer", "c=%s gave no extended nodes: %s", f, say)
		}
	}
	e.Max("largest seg count", ng)
	e.Max("largest subsector count", ns)
	e.Max("largest vertex count", nv)
	e.Eval(desc + strings.Join(rest, " "))
}

func chkFormats(e *Env) {
	e.rule = "small random maps and maps built to land just below, at and above each limit of the vanilla format (subsectors, vertices, segs with and without room to rearrange them), each built in the vanilla, large, extended, compressed and prefer-vanilla formats under equal options; decoded trees compared; every case is non-trivial; distinct by map and options"
	nLim := e.N(42, 700)
	Parallel(nLim, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("limit", i)
		lv, desc := limitMap(r, []int{0, 1, 2, 5, 3, 4, 2}[i%7])
		c := e.NewCase(fmt.Sprintf("limit %d %s", i, desc))
		defer c.Done()
		rest := []string{"-na=3", fmt.Sprintf("--detailnodes=%d", 1+r.Intn(3))}
		if r.Intn(4) == 0 {
			rest[0] += fmt.Sprintf("p=%d", r.Intn(3))
		}
		if r.Intn(6) == 0 {
			rest = append(rest, "--stknode")
		}
		if r.Intn(5) == 0 {
			rest = append(rest, "--unreversenodes")
		}
		if strings.HasPrefix(desc, "wall") && strings.Contains(desc, "true") && r.Intn(2) == 0 {
			rest[0] += "m=1" // the wall is the only one-sided line
		}
		if strings.HasPrefix(desc, "islands") && r.Intn(4) == 0 {
			rest[0] = "-na=4"
		}
		e.Count("limit maps "+strings.Fields(desc)[0], 1)
		formatCase(e, c, r, lv, desc, rest, true)
	})
	Parallel(e.N(250, 6000), 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("small", i)
		lv, desc := anyPlanar(r, i)
		c := e.NewCase(fmt.Sprintf("small %d %s", i, desc))
		defer c.Done()
		var rest []string
		for _, s := range nodeArgs(r, "v", len(lv.Lines) < 150) {
			if !strings.HasPrefix(s, "--detailnodes") {
				rest = append(rest, s)
			}
		}
		// by default vanilla and large format look at splits with another precision
		rest = append(rest, fmt.Sprintf("--detailnodes=%d", 1+r.Intn(3)))
		rest[0] = strings.Replace(rest[0], "c=v", "", 1)
		e.Count("small maps", 1)
		formatCase(e, c, r, lv, desc, rest, false)
	})
}

// segsOnLines: both ends of every seg lie on its line, in its direction.
func segsOnLines(b *BSP, lv *Level, tol float64) error {
	for k, s := range b.Segs {
		l := lv.Lines[s.Line]
		p, q := lv.Verts[l.V1], lv.Verts[l.V2]
		if s.Side == 1 {
			p, q = q, p
		}
		dx, dy := float64(q.X-p.X), float64(q.Y-p.Y)
		n := math.Hypot(dx, dy)
		if n == 0 {
			continue
		}
		var t [2]float64
		for j, v := range []int{s.V1, s.V2} {
			x, y := b.Verts[v].X-float64(p.X), b.Verts[v].Y-float64(p.Y)
			t[j] = (x*dx + y*dy) / n
			if d := math.Abs(x*dy-y*dx) / n; d > tol || t[j] < -tol || t[j] > n+tol {
				return fmt.Errorf("seg %d ends at vertex %d (%v), away from its line %d", k, v, b.Verts[v], s.Line)
			}
		}
		if t[1] < t[0]-tol {
			return fmt.Errorf("seg %d runs against its line %d", k, s.Line)
		}
	}
	return nil
}
