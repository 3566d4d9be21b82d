package main

import (
	"bytes"
	"fmt"
	"math/rand"
)

func init() {
	checks["C11"] = chkRejectSound
	checks["C12"] = chkRejectTight
}

// losMap draws a map for reject checks.
func losMap(r *rand.Rand, i int) (*Level, string) {
	switch i % 14 {
	case 12, 13:
		return mazeMap(r)
	case 0:
		return planarMap(r, 0)
	case 1, 2, 3:
		return planarMap(r, 1)
	case 4:
		lv, d := bigMap(r)
		return lv, d
	case 5:
		return fanMap(r)
	case 6:
		return stripMap(r)
	case 7: // many sectors, much void: long narrow views
		o := RandOpt(r, 1)
		o.Void, o.Sectors, o.SameLine = 0.5, 0, 0
		return Gen(r, "MAP01", o), "holes " + optKey(o)
	case 8: // large hall with pillars and islands
		o := RandOpt(r, 1)
		o.Pillar, o.Island, o.Void = 0.7, 0.25, 0.05
		return Gen(r, "MAP01", o), "pillars " + optKey(o)
	case 9: // several disconnected parts
		o := RandOpt(r, 1)
		o.Void, o.Sectors, o.Diag = 0.6, 0, 0.5
		return Gen(r, "MAP01", o), "apart " + optKey(o)
	case 10: // opaque two-sided-looking lines: flag cleared on some
		lv, d := planarMap(r, 1)
		for k := range lv.Lines {
			if lv.Lines[k].S[1] >= 0 && r.Intn(6) == 0 {
				lv.Lines[k].Flags &^= 4
			}
		}
		return lv, "flagless " + d
	default:
		return planarMap(r, 2)
	}
}

// mazeMap: rooms joined by passages, so that most pairs of sectors are linked
// yet out of each other's sight behind several corners.
func mazeMap(r *rand.Rand) (*Level, string) {
	o := RandOpt(r, 0)
	a, b := 2+r.Intn(5), 2+r.Intn(5)
	o.W, o.H = 2*a-1, 2*b-1
	o.Sectors, o.Diag, o.SameLine = 0, 0, 0
	if r.Intn(3) == 0 {
		o.Diag = 0.3
	}
	if r.Intn(3) > 0 {
		o.Jitter = 0.26 * r.Float64()
	}
	open := map[[2]int]bool{}
	par := make([]int, a*b)
	for k := range par {
		par[k] = k
	}
	var find func(int) int
	find = func(k int) int {
		if par[k] != k {
			par[k] = find(par[k])
		}
		return par[k]
	}
	extra := r.Float64() * 0.4
	type door struct{ x, y, p, q int }
	var ds []door
	for y := 0; y < b; y++ {
		for x := 0; x < a; x++ {
			open[[2]int{2 * x, 2 * y}] = true
			if x+1 < a {
				ds = append(ds, door{2*x + 1, 2 * y, y*a + x, y*a + x + 1})
			}
			if y+1 < b {
				ds = append(ds, door{2 * x, 2*y + 1, y*a + x, (y+1)*a + x})
			}
		}
	}
	r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	for _, d := range ds {
		if find(d.p) != find(d.q) {
			par[find(d.p)] = find(d.q)
			open[[2]int{d.x, d.y}] = true
		} else if r.Float64() < extra {
			open[[2]int{d.x, d.y}] = true
		}
	}
	for y := 0; y+1 < b; y++ {
		for x := 0; x+1 < a; x++ {
			if r.Float64() < extra/4 {
				open[[2]int{2*x + 1, 2*y + 1}] = true
			}
		}
	}
	o.Mask = func(i, j int) bool { return open[[2]int{i, j}] }
	return Gen(r, "MAP01", o), "maze " + optKey(o)
}

func anyOpen(o *LOS) bool {
	for _, l := range o.lines {
		if !l.solid && l.f != l.k {
			return true
		}
	}
	return false
}

// sameSided lists sectors with a line facing them on both sides.
func sameSided(lv *Level) []bool {
	same := make([]bool, len(lv.Sects))
	for i := range lv.Lines {
		f, k := lv.SectorOf(i, 0), lv.SectorOf(i, 1)
		if f >= 0 && f == k {
			same[f] = true
		}
	}
	return same
}

func rejOpts(r *rand.Rand, rs int) []string {
	o := "-r"
	if rs >= 0 {
		o += fmt.Sprintf("s=%d", rs)
	}
	switch r.Intn(3) {
	case 0:
		o += "g+"
	case 1:
		o += "g-"
	}
	a := []string{o}
	if o == "-r" {
		a = nil
	}
	if r.Intn(3) == 0 {
		a = append(a, "--nosymm")
	}
	switch r.Intn(4) {
	case 0:
		a = append(a, "-b-")
	case 1:
		a = append(a, "-n-")
	case 2:
		a = append(a, "-n-", "-b-")
	}
	return a
}

func rejSizeOK(c *Case, rej []byte, n int) bool {
	if len(rej) != (n*n+7)/8 {
		c.Violate("size", "reject of %d sectors has %d bytes, engine expects %d", n, len(rej), (n*n+7)/8)
		return false
	}
	return true
}

func chkRejectSound(e *Env) {
	e.rule = "one evaluation = one real map rebuilt and its reject table compared with every certified sight line found; non-trivial if at least one pair was certified visible"
	e.assume = []string{
		"a sight line is certified only if it keeps 1 map unit (2 on maps stretched or spanning the whole coordinate space) away from every blocking line: the tool computes with whole units",
		"lines with the two-sided flag and two sidedefs are see-through, all others block; a line flagged two-sided with one side missing is ignored by tool and oracle",
	}
	n := e.N(1500, 20000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("sound", i)
		lv, desc := losMap(r, i)
		c := e.NewCase(fmt.Sprintf("sound %d %s", i, desc))
		defer c.Done()
		c.Write("in.wad", lv.Wad().Bytes())
		rs := r.Intn(5) - 1
		b := c.Build("in.wad", "out.wad", rejOpts(r, rs)...)
		if b == nil {
			return
		}
		rej, _ := b.Wad.LevelLump("MAP01", "REJECT")
		N := len(lv.Sects)
		if !rejSizeOK(c, rej, N) {
			return
		}
		los := NewLOS(lv, nil)
		los.clear = 1
		if i%12 == 4 || i%12 == 6 {
			los.clear = 2
		}
		los.skipMayAlways = true
		los.Solve(r, e.N(60e6, 200e6))
		pairs := 0
		for p := 0; p < N; p++ {
			if rejBit(rej, N, p, p) == 1 {
				c.Violate("self", "sector %d is marked as not seeing itself", p)
				return
			}
			for q := 0; q < N; q++ {
				h := rejBit(rej, N, p, q)
				if h != rejBit(rej, N, q, p) {
					c.Violate("asymmetric", "reject(%d,%d)=%d but reject(%d,%d)=%d", p, q, h, q, p, 1-h)
					return
				}
				if p != q && los.sure[p].has(q) {
					pairs++
					if h == 1 {
						c.Violate("hidden-visible", "sectors %d and %d are marked hidden, but the line %.3f has a clear view between them (clearance %.1f)", p, q, los.witness[[2]int{p, q}], los.clear)
						return
					}
				}
			}
		}
		e.Count("certified_visible_pairs", pairs)
		e.Count("sight_lines", los.Lines)
		e.Count("hidden_bits", countHidden(rej, N))
		e.Count("all_pairs", N*N)
		e.Max("max_sectors", N)
		k := ""
		if pairs > 0 {
			k = mapKey(lv)
		}
		e.Eval(k)
		if i < 4 {
			e.Sample(map[string]interface{}{"case": c.Name, "sectors": N, "pairs_certified_visible": pairs, "sight_lines": los.Lines, "hidden_bits": countHidden(rej, N)})
		}
	})
}

func countHidden(rej []byte, n int) int {
	k := 0
	for i := 0; i < n*n; i++ {
		k += int(rej[i>>3]>>(i&7)) & 1
	}
	return k
}

func chkRejectTight(e *Env) {
	e.rule = "one evaluation = one map built with default and speed-only variants of the reject builder, its table compared with graph reachability and an exact upper bound of visibility; non-trivial if at least one pair is hidden"
	e.assume = []string{
		"a pair is provably hidden if no closed line through two vertices of the map links the two sectors (exact integer arithmetic)",
		"the line test of the tool is a heuristic on whole units that may fail to recognise an obstacle, so a few provably hidden pairs stay visible: at most 12% of the pairs of a map (4.5% observed, on a tiny map), and 0.4% of the linked hidden pairs over all maps (0.13% observed, stable over 36000 maps)",
		"sectors facing a line on both sides are made always visible on purpose (default self-reference mode) and are left out; a map without any see-through line between two sectors gets a zero-filled table by design",
	}
	n := e.N(900, 12000)
	var totLinked, totExtra, totGraph, totGdiff int64
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("tight", i)
		lv, desc := losMap(r, i)
		c := e.NewCase(fmt.Sprintf("tight %d %s", i, desc))
		defer c.Done()
		c.Write("in.wad", lv.Wad().Bytes())
		rs := r.Intn(5) - 1
		rsa := ""
		if rs >= 0 {
			rsa = fmt.Sprintf("s=%d", rs)
		}
		b := c.Build("in.wad", "out.wad", append([]string{"-n-", "-b-"}, nonEmpty("-r", rsa)...)...)
		if b == nil {
			return
		}
		rej, _ := b.Wad.LevelLump("MAP01", "REJECT")
		N := len(lv.Sects)
		if !rejSizeOK(c, rej, N) {
			return
		}
		// speed-only variants
		var graphless [][]byte
		for k, v := range [][]string{{"-r" + rsa + "g+"}, {"-r" + rsa + "g-"}, append(nonEmpty("-r", rsa), "--nosymm"), {"-r" + rsa + "g-", "--nosymm"}} {
			if k > 0 && r.Intn(2) == 0 {
				continue
			}
			v = append([]string{"-n-", "-b-"}, v...)
			if r.Intn(4) == 0 {
				v = append(v[2:], "-d")
			}
			b2 := c.Build("in.wad", fmt.Sprintf("out%d.wad", k), v...)
			if b2 == nil {
				return
			}
			rej2, _ := b2.Wad.LevelLump("MAP01", "REJECT")
			e.Count("variant_tables_compared", 1)
			if k == 1 || k == 3 {
				graphless = append(graphless, rej2)
				if len(graphless) == 2 && !bytes.Equal(graphless[0], rej2) {
					c.Violate("variant", "reject table without graphs depends on symmetric processing")
					return
				}
				continue
			}
			if !bytes.Equal(rej, rej2) {
				at := firstDiff(rej, rej2)
				c.Violate("variant", "reject table depends on a speed-only option %v: first difference at byte %d (lengths %d, %d)", v, at, len(rej), len(rej2))
				return
			}
		}
		// padding
		pad := -1
		for k := N * N; k < len(rej)*8; k++ {
			bit := int(rej[k>>3]>>(k&7)) & 1
			if pad >= 0 && bit != pad {
				c.Violate("padding", "spare bits of the table differ from each other")
				return
			}
			pad = bit
		}
		los := NewLOS(lv, nil)
		if !anyOpen(los) {
			e.Count("maps_without_see_through_lines", 1)
			for _, x := range rej {
				if x != 0 {
					c.Violate("zero", "map without see-through lines: table is not zero-filled")
					return
				}
			}
			e.Eval("")
			return
		}
		same := sameSided(lv)
		comp := los.Components()
		apart := 0
		for p := 0; p < N; p++ {
			for q := 0; q < N; q++ {
				if comp[p] != comp[q] && !same[p] && !same[q] {
					apart++
					if rejBit(rej, N, p, q) == 0 {
						c.Violate("apart", "sectors %d and %d have no chain of see-through lines between them but are marked as visible", p, q)
						return
					}
				}
			}
		}
		los.noSure = len(graphless) == 0
		los.clear = 1
		los.Solve(r, e.N(150e6, 500e6))
		gdiff := 0
		for _, g := range graphless {
			if len(g) != len(rej) {
				c.Violate("variant", "reject table without graphs has another size: %d, %d", len(rej), len(g))
				return
			}
			// The graph pass recognises a few hidden pairs that the line test
			// alone cannot: differences are legitimate there and only there.
			for p := 0; p < N; p++ {
				for q := 0; q < N; q++ {
					if x, y := rejBit(rej, N, p, q), rejBit(g, N, p, q); x != y {
						e.Count("graph_difference_pairs", 1)
						gdiff++
						if los.sure[p].has(q) {
							c.Violate("variant-graph", "sectors %d and %d: %d with graphs, %d without, but a clear line of sight exists: %.3f", p, q, x, y, los.witness[[2]int{p, q}])
							return
						}
					}
				}
			}
		}
		if len(graphless) > 0 {
			e.mu.Lock()
			totGraph += int64(N * N * len(graphless))
			totGdiff += int64(gdiff)
			e.mu.Unlock()
		}
		extra, hid, hidLinked, pairs := 0, 0, 0, 0
		first := ""
		if !los.skipMay {
			for p := 0; p < N; p++ {
				for q := 0; q < N; q++ {
					if same[p] || same[q] {
						continue
					}
					pairs++
					if !los.may[p].has(q) {
						hid++
						if comp[p] == comp[q] {
							hidLinked++
						}
						if rejBit(rej, N, p, q) == 0 {
							extra++
							if first == "" {
								first = fmt.Sprintf("%d-%d", p, q)
							}
						}
					}
				}
			}
			if extra > 12 && extra*100 > pairs*12 {
				c.Violate("loose", "%d of %d provably hidden pairs are marked visible (first %s)", extra, hid, first)
				return
			}
			e.mu.Lock()
			totLinked += int64(hidLinked)
			totExtra += int64(extra)
			e.mu.Unlock()
		}
		e.Count("critical_lines", los.Lines)
		e.Count("unlinked_pairs", apart)
		e.Count("linked_hidden_pairs", hidLinked)
		e.Count("provably_hidden_pairs", hid)
		e.Count("of_them_left_visible", extra)
		k := ""
		if hid > 0 {
			k = mapKey(lv)
		}
		e.Eval(k)
		if i < 4 {
			e.Sample(map[string]interface{}{"case": c.Name, "sectors": N, "provably_hidden": hid, "left_visible": extra, "unlinked": apart})
		}
	})
	if totGdiff*50 > totGraph && totGdiff > 40 {
		c := e.NewCase("aggregate")
		c.Violate("graph-total", "%d of %d pairs differ between tables built with and without graphs", totGdiff, totGraph)
		c.Done()
	}
	if totExtra*250 > totLinked && totExtra > 40 {
		c := e.NewCase("aggregate")
		c.Violate("loose-total", "%d provably hidden pairs are marked visible over the whole workload, against %d hidden pairs that are linked by see-through lines: more than 0.4%%", totExtra, totLinked)
		c.Done()
	}
}

func nonEmpty(prefix, s string) []string {
	if s == "" {
		return nil
	}
	return []string{prefix + s}
}
