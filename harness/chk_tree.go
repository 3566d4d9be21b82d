package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

func init() { checks["C20"] = chkTree }

// treeScore is what multi-tree compares trees by, most important first: whether
// precious lines were split, number of subsectors, difference in height between
// both sides of the root, the height, number of segs.
type treeScore [5]int

func (a treeScore) worseThan(b treeScore) bool {
	for k := range a {
		if a[k] != b[k] {
			return a[k] > b[k]
		}
	}
	return false
}

func scoreOf(lv *Level, b *BSP) treeScore {
	var t treeScore
	segs := map[[2]int]int{}
	for _, s := range b.Segs {
		segs[[2]int{s.Line, s.Side}]++
	}
	for k, n := range segs {
		if tag := lv.Lines[k[0]].Tag; !lv.Hexen && n > 1 && tag >= 900 && tag != 998 && tag != 999 {
			t[0] = 1
		}
	}
	t[1] = len(b.SSecs)
	t[4] = len(b.Segs)
	if len(b.Nodes) == 0 {
		return t
	}
	var height func(k int) int
	height = func(k int) int {
		h := 1
		for _, c := range b.Nodes[k].Child {
			if c >= 0 {
				h = max(h, height(c)+1)
			}
		}
		return h
	}
	var hs [2]int
	for k, c := range b.Nodes[len(b.Nodes)-1].Child {
		if c >= 0 {
			hs[k] = height(c) + 1
		}
	}
	t[2] = max(hs[0]-hs[1], hs[1]-hs[0])
	t[3] = max(hs[0], hs[1])
	return t
}

// collinear tells whether a line of the map runs along a node's partition.
func collinear(n *Node, a, b Vtx) bool {
	dx, dy := float64(n.DX), float64(n.DY)
	for _, v := range []Vtx{a, b} {
		if d := dx*float64(v.Y-n.Y) - dy*float64(v.X-n.X); d*d > 0.25*(dx*dx+dy*dy) {
			return false
		}
	}
	return true
}

// rootGroups counts partitions offered by lines of a kind (1 one-sided, 2
// two-sided, 3 both).
func rootGroups(lv *Level, kind int) int {
	type dir struct{ a, b, c int }
	seen := map[dir]bool{}
	for _, l := range lv.Lines {
		p, q := lv.Verts[l.V1], lv.Verts[l.V2]
		k := 1
		if l.S[1] >= 0 {
			k = 2
		}
		if p == q || k&kind == 0 {
			continue
		}
		a, b := q.Y-p.Y, p.X-q.X
		g := gcd(a, b)
		if a < 0 || a == 0 && b < 0 {
			g = -g
		}
		a, b = a/g, b/g
		seen[dir{a, b, a*p.X + b*p.Y}] = true
	}
	return len(seen)
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

var reTrees = regexp.MustCompile(`processed \d+/(\d+) trees`)

func chkTree(e *Env) {
	e.rule = "random small planar maps (also without lines of the kind asked for, with precious lines, in Hexen format) x partitioners x formats: trees of m=1,2,3 and of growing --roots compared by the documented criterion, root partition against the kind asked for, number of trees against the map's distinct partitions, repeated builds with other thread counts and memory modes byte by byte; non-trivial = at least two different scores among the trees of a map; distinct by map, options and scores"
	Parallel(e.N(1500, 20000), 0, func(i int) {
		if !e.TooMany() {
			treeCase(e, i)
		}
	})
}

func treeMap(r *rand.Rand, i int) (*Level, string) {
	for {
		g := RandOpt(r, 0)
		if r.Intn(3) == 0 {
			g.W, g.H = 1+r.Intn(4), 1+r.Intn(4)
		}
		g.SelfRef, g.Tags, g.ZeroLen = 0, false, 0
		lv := Gen(r, "MAP01", g)
		if len(lv.Lines) < 3 || len(lv.Lines) > 70 {
			continue
		}
		if !lv.Hexen && r.Intn(3) == 0 {
			for k := range lv.Lines {
				if r.Intn(5) == 0 {
					lv.Lines[k].Tag = []int{900, 997, 1000, 5000}[r.Intn(4)]
				}
			}
		}
		return lv, fmt.Sprintf("%s lines %d", optKey(g), len(lv.Lines))
	}
}

func treeCase(e *Env, i int) {
	r := e.Rand("tree", i)
	lv, desc := treeMap(r, i)
	f := "vvdxzX"[r.Intn(6)]
	base := fmt.Sprintf("-nc=%c", f)
	if r.Intn(5) > 0 {
		base += fmt.Sprintf("a=%d", r.Intn(5))
	}
	if r.Intn(3) == 0 {
		base += fmt.Sprintf("p=%d", r.Intn(3))
	}
	if r.Intn(4) == 0 {
		base += fmt.Sprintf("f=%d", 1+r.Intn(60))
	}
	if r.Intn(4) == 0 {
		base += fmt.Sprintf("d=%d", r.Intn(60))
	}
	common := []string{"-d", "-b-", "-r-"}
	if r.Intn(4) == 0 {
		common = append(common, fmt.Sprintf("--detailnodes=%d", r.Intn(4)))
	}
	c := e.NewCase(fmt.Sprintf("tree %d %s %s %v", i, desc, base, common))
	defer c.Done()
	var scores []treeScore
	build := func(opt string, more ...string) (*nodeCase, treeScore) {
		args := append([]string{base + opt}, common...)
		args = append(args, more...)
		nc := runNodeCase(c, lv, desc, args)
		if nc == nil {
			return nil, treeScore{}
		}
		s := scoreOf(nc.out, nc.b)
		scores = append(scores, s)
		return nc, s
	}
	threads := fmt.Sprintf("t=%d", 1+r.Intn(6))
	var full [4]*nodeCase
	var score [4]treeScore
	for m := 1; m <= 3; m++ {
		nc, s := build(fmt.Sprintf("m=%d", m) + threads)
		if nc == nil {
			e.Eval("")
			return
		}
		full[m], score[m] = nc, s
		if err := nc.b.Structure(nc.out); err != nil {
			c.Violate("structure", "%v (m=%d)", err, m)
			return
		}
		kind := m
		if rootGroups(lv, kind) == 0 {
			kind = 3
			e.Count("modes_without_fitting_lines", 1)
		}
		// what the root is
		if len(nc.b.Nodes) > 0 {
			root := &nc.b.Nodes[len(nc.b.Nodes)-1]
			ok := false
			for _, l := range lv.Lines {
				k := 1
				if l.S[1] >= 0 {
					k = 2
				}
				if k&kind != 0 && lv.Verts[l.V1] != lv.Verts[l.V2] && collinear(root, lv.Verts[l.V1], lv.Verts[l.V2]) {
					ok = true
					break
				}
			}
			if !ok {
				c.Violate("root", "m=%d: the root partition (%v,%v)+(%v,%v) does not lie along any line of the kind to be tried", m, root.X, root.Y, root.DX, root.DY)
				return
			}
		}
		// how many trees were built
		if q := reTrees.FindStringSubmatch(nc.res.Out); q != nil {
			n, _ := strconv.Atoi(q[1])
			if want := rootGroups(lv, kind); n != want {
				c.Violate("count", "m=%d: %d trees were tried but the lines to be tried offer %d different partitions", m, n, want)
				return
			}
			e.Count("trees_built", n)
		}
	}
	for m := 1; m <= 2; m++ {
		if rootGroups(lv, m) > 0 && score[3].worseThan(score[m]) {
			c.Violate("widen", "trying all lines gives a worse tree %v than trying only kind %d, %v", score[3], m, score[m])
			return
		}
	}
	// growing numbers of roots
	m := 3
	if r.Intn(3) == 0 {
		m = 1 + r.Intn(2)
	}
	if rootGroups(lv, m) == 0 {
		m = 3
	}
	var last treeScore
	var lastRaw *nodeCase
	n := rootGroups(lv, m)
	for k := 1; k <= n+1; k++ {
		if k > 10 && k < n {
			k = min(n, k+r.Intn(4))
		}
		nc, s := build(fmt.Sprintf("m=%d", m)+threads, fmt.Sprintf("--roots=%d", k))
		if nc == nil {
			return
		}
		e.Count("rooted_builds", 1)
		if k > 1 && s.worseThan(last) {
			c.Violate("roots", "m=%d --roots=%d gives a worse tree %v than a smaller number of roots, %v", m, k, s, last)
			return
		}
		if score[m].worseThan(s) {
			c.Violate("roots", "m=%d gives a worse tree %v than --roots=%d, %v", m, score[m], k, s)
			return
		}
		last, lastRaw = s, nc
	}
	_ = lastRaw
	// same search in other ways
	alt := []string{fmt.Sprintf("t=%d", 1+r.Intn(8)), "t=1"}[r.Intn(2)]
	var more []string
	if r.Intn(2) == 0 {
		more = append(more, fmt.Sprintf("--speedtree=%d", r.Intn(2)))
	}
	if r.Intn(3) == 0 && (f == 'v' || f == 'd') {
		more = append(more, "--stknode")
	}
	nc, _ := build(fmt.Sprintf("m=%d", m)+alt, more...)
	if nc == nil {
		return
	}
	if a, b := fmt.Sprint(nc.b.Nodes, nc.b.SSecs, nc.b.Segs, nc.b.Verts), fmt.Sprint(full[m].b.Nodes, full[m].b.SSecs, full[m].b.Segs, full[m].b.Verts); a != b {
		c.Violate("threads", "m=%d: the tree differs between %s and %s %v", m, threads, alt, more)
		return
	}
	diff := map[treeScore]bool{}
	for _, s := range scores {
		diff[s] = true
	}
	key := ""
	if len(diff) > 1 {
		key = fmt.Sprint(desc, base, common, scores)
	}
	e.Eval(key)
	e.Count("different_scores", len(diff))
	if i < 4 {
		e.Sample(map[string]interface{}{"map": desc, "args": base + " " + strings.Join(common, " "), "scores": fmt.Sprint(scores)})
	}
}
