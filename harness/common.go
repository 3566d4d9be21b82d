package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// nodeArgs draws a node-building option word plus debugging switches.
// fmts: allowed formats letters. multi: whether multi-tree may be drawn.
func nodeArgs(r *rand.Rand, fmts string, multi bool) []string {
	n := "-n"
	if r.Intn(4) > 0 {
		n += fmt.Sprintf("a=%d", r.Intn(5))
	}
	if r.Intn(3) == 0 {
		n += fmt.Sprintf("p=%d", r.Intn(3))
	}
	f := fmts[r.Intn(len(fmts))]
	n += "c=" + string(f)
	if f == 'z' || f == 'Z' {
		if r.Intn(2) == 0 {
			n += fmt.Sprint(1 + r.Intn(9))
		}
	}
	if r.Intn(5) == 0 {
		n += fmt.Sprintf("f=%d", 1+r.Intn(60))
	}
	if r.Intn(5) == 0 {
		n += fmt.Sprintf("d=%d", r.Intn(60))
	}
	if multi && r.Intn(3) == 0 {
		n += fmt.Sprintf("m=%d", 1+r.Intn(3))
		if r.Intn(2) == 0 {
			n += fmt.Sprintf("t=%d", 1+r.Intn(6))
		}
	}
	a := []string{n}
	if r.Intn(6) == 0 {
		a = append(a, "--stknode")
		if r.Intn(2) == 0 {
			a[0] += fmt.Sprintf("w=%d", 2+r.Intn(2))
			a[0] += fmt.Sprintf("r=%d", 1+r.Intn(2))
		}
	}
	if r.Intn(5) == 0 {
		a = append(a, "--unreversenodes")
	}
	if r.Intn(4) == 0 {
		a = append(a, fmt.Sprintf("--detailnodes=%d", r.Intn(4)))
	}
	if r.Intn(4) == 0 {
		a = append(a, fmt.Sprintf("--sidecache=%d", r.Intn(3)))
	}
	if r.Intn(8) == 0 {
		a = append(a, fmt.Sprintf("--speedtree=%d", r.Intn(2)))
	}
	return a
}

// Built is the outcome of one successful build.
type Built struct {
	Wad *Wad
	Res *Result
	Raw []byte
}

// Build runs the tool on in.wad -> out.wad and requires a clean success.
// The signature of a failure tells crash from refusal.
func (c *Case) Build(in, out string, args ...string) *Built {
	return c.BuildX(RunOpt{}, in, out, args...)
}

func (c *Case) BuildX(o RunOpt, in, out string, args ...string) *Built {
	a := append(append([]string{}, args...), in, "-o", out)
	res := c.RunX(o, a...)
	if res.Timeout {
		c.Violate("timeout", "run did not end within its (very generous) limit: %s", tail(res.Out, 300))
		return nil
	}
	if res.Crashed() {
		c.Violate("crash", "run crashed (exit %d %s): %s", res.Exit, res.Sig, crashHead(res.Out))
		return nil
	}
	if res.Exit != 0 {
		c.Violate("exit", "run refused a valid input with status %d: %s", res.Exit, tail(res.Out, 400))
		return nil
	}
	b := readFile(c.Path(out))
	w, err := ParseWad(b)
	if err != nil {
		c.Violate("wad", "output is not a well-formed WAD: %v", err)
		return nil
	}
	return &Built{w, res, b}
}

func crashHead(s string) string {
	for _, k := range []string{"panic:", "fatal error:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, k); i >= 0 {
			return head(s[i:], 700)
		}
	}
	return tail(s, 500)
}

// ---- map families

// planarMap draws a planar map of the given size class with optional extras.
func planarMap(r *rand.Rand, size int) (*Level, string) {
	o := RandOpt(r, size)
	return Gen(r, "MAP01", o), optKey(o)
}

func optKey(o GenOpt) string {
	return fmt.Sprintf("%dx%d cell%d jit%.2f rot%.2f diag%.2f void%.2f sec%d same%.2f isl%.2f pil%.2f self%.2f sc%v off%d,%d mrg%v hex%v", o.W, o.H, o.Cell, o.Jitter, o.Rot, o.Diag, o.Void, o.Sectors, o.SameLine, o.Island, o.Pillar, o.SelfRef, o.Scatter, o.OffX, o.OffY, o.Merge, o.Hexen)
}

// bigMap spans a large part of the coordinate space.
func bigMap(r *rand.Rand) (*Level, string) {
	o := RandOpt(r, 1)
	o.OffX, o.OffY = 0, 0
	o.Cell = 65000 / int(math.Max(float64(o.W), float64(o.H)))
	if o.Rot != 0 {
		o.Cell = o.Cell * 7 / 10
	}
	if o.Cell > 12000 {
		o.Cell = 12000
	}
	o.Jitter = math.Min(o.Jitter, 0.2)
	o.Merge = false // a merged line could exceed what node coordinates can hold
	for {
		lv := Gen(r, "MAP01", o)
		ok := true
		for _, v := range lv.Verts {
			if v.X > 32600 || v.X < -32600 || v.Y > 32600 || v.Y < -32600 {
				ok = false
			}
		}
		if ok {
			return lv, "big " + optKey(o)
		}
		o.Cell = o.Cell * 9 / 10
	}
}

// fanMap: a convex-ish room whose walls are many short lines, with spokes: many
// long diagonal lines meeting, forcing many splits at shallow angles.
func fanMap(r *rand.Rand) (*Level, string) {
	lv := &Level{Name: "MAP01"}
	n := 5 + r.Intn(40)
	R := float64(300 + r.Intn(4000))
	cx, cy := float64(r.Intn(2000)-1000), float64(r.Intn(2000)-1000)
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n)
		k := 0.6 + 0.4*r.Float64()
		lv.Verts = append(lv.Verts, Vtx{int(math.Round(cx + R*k*math.Cos(a))), int(math.Round(cy + R*k*math.Sin(a)))})
	}
	lv.Verts = append(lv.Verts, Vtx{int(cx), int(cy)})
	c := n
	side := func(s int) int { lv.Sides = append(lv.Sides, Side{Sector: s}); return len(lv.Sides) - 1 }
	for i := 0; i < n; i++ {
		lv.Sects = append(lv.Sects, Sect{Floor: 8 * r.Intn(8), Ceil: 128})
	}
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		// CCW ring: interior left of i->j, so line j->i has it on its right
		lv.Lines = append(lv.Lines, Line{V1: j, V2: i, Flags: 1, S: [2]int{side(i), -1}})
		// spoke c->i : left side is sector i, right is sector i-1
		lv.Lines = append(lv.Lines, Line{V1: c, V2: i, Flags: 4, S: [2]int{side((i + n - 1) % n), side(i)}})
	}
	lv.Things = []Thing{{X: int(cx) + 20, Y: int(cy) + 7, Type: 1, Flags: 7}}
	return lv, fmt.Sprintf("fan n%d R%.0f", n, R)
}

// strips: long thin nearly parallel slivers.
func stripMap(r *rand.Rand) (*Level, string) {
	o := RandOpt(r, 1)
	o.W, o.H = 1+r.Intn(2), 8+r.Intn(20)
	o.Cell = 48 + r.Intn(40)
	o.OffX, o.OffY = 0, 0
	lv := Gen(r, "MAP01", o)
	k := 4 + r.Intn(40)
	for i := range lv.Verts {
		x := lv.Verts[i].X * k
		if x > 32000 || x < -32000 {
			k = 1
		}
	}
	for i := range lv.Verts {
		lv.Verts[i].X *= k
	}
	for i := range lv.Things {
		lv.Things[i].X = lv.Verts[0].X
	}
	return lv, fmt.Sprintf("strip k%d %s", k, optKey(o))
}

// families of planar maps for geometry properties.
func anyPlanar(r *rand.Rand, i int) (*Level, string) {
	switch i % 10 {
	case 0:
		return planarMap(r, 0)
	case 1, 2, 3, 4:
		return planarMap(r, 1)
	case 5, 6:
		return planarMap(r, 2)
	case 7:
		return bigMap(r)
	case 8:
		return fanMap(r)
	default:
		return stripMap(r)
	}
}
