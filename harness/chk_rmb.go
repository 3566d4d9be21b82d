package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
)

func init() { checks["C13"] = chkRMB }

// rmbMap draws a planar map for modifier programs.
func rmbMap(r *rand.Rand, name string) (*Level, string) {
	var lv *Level
	var d string
	switch r.Intn(8) {
	case 0:
		lv, d = mazeMap(r)
	case 1: // hall of many rooms in a row
		o := RandOpt(r, 0)
		o.W, o.H, o.Sectors, o.SameLine, o.Void = 4+r.Intn(8), 1+r.Intn(2), 0, 0, 0.1*r.Float64()
		lv, d = Gen(r, name, o), "row "+optKey(o)
	default:
		o := RandOpt(r, r.Intn(2))
		o.SameLine = 0
		if r.Intn(2) == 0 {
			o.Sectors = 0
		}
		lv, d = Gen(r, name, o), "planar "+optKey(o)
	}
	lv.Name = name
	return lv, d
}

func borders(lv *Level) (ids []int) {
	for _, l := range losLines(lv, nil) {
		if !l.solid && l.f != l.k {
			ids = append(ids, l.id)
		}
	}
	return
}

// rmbGen draws commands valid for a map with n sectors.
type rmbGen struct {
	r       *rand.Rand
	n       int
	merged  map[int]bool // sectors inside groups
	reps    map[int]bool
	lines   []int
	vortex  bool
	small   bool // only options that have an effect under NOPROCESS
	badName bool
}

func (g *rmbGen) sec() int {
	if g.badName && g.r.Intn(12) == 0 {
		return g.n + g.r.Intn(40)
	}
	return g.r.Intn(g.n)
}
func (g *rmbGen) list(ungrouped bool) []int {
	var l []int
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		x := g.sec()
		if ungrouped && g.merged[x] && !g.reps[x] {
			continue
		}
		l = append(l, x)
	}
	if len(l) == 0 {
		for x := 0; x < g.n; x++ {
			if !g.merged[x] || g.reps[x] {
				return []int{x}
			}
		}
	}
	return l
}

func (g *rmbGen) cmd() rmbCmd {
	r := g.r
	for {
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			c := rmbCmd{Op: pickS(r, []string{"BLIND", "SAFE"}), L: [2][]int{g.list(true)}}
			if g.small {
				c.N[0] = r.Intn(2)
				c.Inv = r.Intn(4) == 0
				return c
			}
			c.N[0] = r.Intn(5)
			switch r.Intn(6) {
			case 0, 1:
				c.Inv = true
			case 2:
				c.Band = true
				c.N[1] = c.N[0] + r.Intn(4)
			case 3:
				c.Band, c.Inv = true, true
				c.N[1] = c.N[0] + r.Intn(4)
			}
			return c
		case 4:
			return rmbCmd{Op: "INCLUDE", L: [2][]int{g.list(false), g.list(false)}}
		case 5:
			return rmbCmd{Op: "EXCLUDE", L: [2][]int{g.list(false), g.list(false)}}
		case 6:
			if !g.small {
				return rmbCmd{Op: "LENGTH", N: [2]int{r.Intn(7)}}
			}
		case 7:
			if !g.small && len(g.lines) > 0 {
				return rmbCmd{Op: "LINE", N: [2]int{g.lines[r.Intn(len(g.lines))]}}
			}
		case 8:
			if g.n < 3 {
				continue
			}
			c := rmbCmd{Op: "GROUP"}
			p := r.Perm(g.n)
			k := 0
			for k < len(p) && g.merged[p[k]] && !g.reps[p[k]] {
				k++
			}
			if k == len(p) {
				continue
			}
			c.N[0] = p[k]
			for _, x := range p[k+1:] {
				if !g.merged[x] && len(c.L[0]) < 3 {
					c.L[0] = append(c.L[0], x)
				}
			}
			if len(c.L[0]) == 0 {
				continue
			}
			for _, x := range c.L[0] {
				g.merged[x] = true
			}
			g.merged[p[k]], g.reps[p[k]] = true, true
			return c
		case 9:
			if g.vortex {
				return rmbCmd{Op: "VORTEX", L: [2][]int{g.list(false), g.list(false)}}
			}
		case 10, 11:
			if !g.small {
				return rmbCmd{Op: "REPORT", N: [2]int{r.Intn(6)}}
			}
		}
	}
}

func (g *rmbGen) cmds(k int) []rmbCmd {
	var l []rmbCmd
	for ; k > 0; k-- {
		l = append(l, g.cmd())
	}
	// groups first, so that later commands may rely on them
	var a, b []rmbCmd
	for _, c := range l {
		if c.Op == "GROUP" {
			a = append(a, c)
		} else {
			b = append(b, c)
		}
	}
	// commands drawn before a sector became a member must not name it
	for i := range b {
		if b[i].Op != "BLIND" && b[i].Op != "SAFE" {
			continue
		}
		var l []int
		for _, x := range b[i].L[0] {
			if !g.merged[x] || g.reps[x] {
				l = append(l, x)
			}
		}
		b[i].L[0] = l
	}
	out := a
	for _, c := range b {
		if (c.Op == "BLIND" || c.Op == "SAFE") && len(c.L[0]) == 0 {
			continue
		}
		out = append(out, c)
	}
	return out
}

func hasOp(cs []rmbCmd, op string) bool {
	for _, c := range cs {
		if c.Op == op {
			return true
		}
	}
	return false
}

func chkRMB(e *Env) {
	e.rule = "one evaluation = one modifier program applied to one map, every entry of the reject table (and the report file) compared with a model of the manual evaluated on the table built without options; distinct by program and map; non-trivial if the program changed at least one entry"
	e.assume = []string{
		"the table without options is taken from the same program (its own truth is the business of C11 and C12); opaque lines are compared with a map whose lines lost the two-sided flag",
		"BAND covers distances d with from <= d < to, as its stated equivalence with BLIND and INVERT BLIND requires (the worked example in the manual counts one sector more)",
		"pairs for which the manual leaves a choice (neighbours under LENGTH 0, order among several vortexes) are not judged",
	}
	n := e.N(9000, 150000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("rmb", i)
		c := e.NewCase(fmt.Sprintf("rmb %d", i))
		defer c.Done()
		switch i % 9 {
		case 7:
			rmbDistance(e, c, r)
		case 8:
			rmbNoProcess(e, c, r)
		default:
			rmbExact(e, c, r)
		}
	})
}

func rmbNames(r *rand.Rand) []string {
	if r.Intn(2) == 0 {
		return []string{"MAP01", "MAP07"}[:1+r.Intn(2)]
	}
	return []string{"E1M1", "E2M12", "E1M2"}[:1+r.Intn(3)]
}

func rmbOpts(r *rand.Rand) []string {
	a := []string{"-n-", "-b-"}
	if r.Intn(6) == 0 {
		a = nil
	}
	switch r.Intn(3) {
	case 0:
		a = append(a, "-rg-")
	case 1:
		a = append(a, "-rg+")
	}
	if r.Intn(4) == 0 {
		a = append(a, "--nosymm")
	}
	if r.Intn(4) == 0 {
		a = append(a, "-d")
	}
	return a
}

func visTable(rej []byte, n int) [][]bool {
	t := make([][]bool, n)
	for i := range t {
		t[i] = make([]bool, n)
		for j := range t[i] {
			t[i][j] = rejBit(rej, n, i, j) == 0
		}
	}
	return t
}

func progText(p *rmbProg, r *rand.Rand, c *Case, file string) string {
	t := p.Render(r)
	c.Write(file, []byte(t))
	return t
}

func rmbExact(e *Env, c *Case, r *rand.Rand) {
	names := rmbNames(r)
	w := &Wad{}
	wOpaque := &Wad{}
	var lvs []*Level
	minN := 1 << 30
	var desc []string
	for _, nm := range names {
		lv, d := rmbMap(r, nm)
		lvs = append(lvs, lv)
		desc = append(desc, d)
		minN = min(minN, len(lv.Sects))
	}
	opts := rmbOpts(r)
	p := &rmbProg{}
	// numbers in the part for all maps must make sense on each of them
	gg := &rmbGen{r: r, n: minN, merged: map[int]bool{}, reps: map[int]bool{}, vortex: r.Intn(3) == 0}
	if len(names) == 1 {
		gg.lines = borders(lvs[0])
	}
	if r.Intn(4) > 0 {
		p.Global = gg.cmds(1 + r.Intn(4))
	}
	for k, nm := range names {
		if r.Intn(3) == 0 && (len(p.Global) > 0 || k > 0) {
			continue
		}
		g := &rmbGen{r: r, n: len(lvs[k].Sects), merged: map[int]bool{}, reps: map[int]bool{}, lines: borders(lvs[k]), vortex: gg.vortex}
		for x := range gg.merged {
			g.merged[x] = true
		}
		for x := range gg.reps {
			g.reps[x] = true
		}
		p.Sects = append(p.Sects, rmbSect{nm, g.cmds(1 + r.Intn(5))})
		if r.Intn(4) == 0 {
			if r.Intn(2) == 0 {
				p.Sects = append(p.Sects, rmbSect{"MAP31", []rmbCmd{{Op: "EXCLUDE", L: [2][]int{{0}, {0}}}}})
			}
			p.Sects = append(p.Sects, rmbSect{nm, g.cmds(1)})
		}
	}
	// group sharing with opaque lines: judged without the graph heuristic
	for _, nm := range names {
		all, _ := p.For(nm)
		if (hasOp(all, "LINE") || hasOp(all, "LENGTH")) && hasOp(all, "GROUP") {
			opts = append(opts, "-rg-")
			break
		}
	}
	text := progText(p, r, c, "in.rej")
	opaque := make([]map[int]bool, len(names))
	for k, nm := range names {
		lvs[k].AddTo(w)
		opaque[k] = map[int]bool{}
		all, _ := p.For(nm)
		for _, x := range all {
			if x.Op == "LINE" && x.N[0] < len(lvs[k].Lines) {
				opaque[k][x.N[0]] = true
			}
		}
		for x := range opaque[k] {
			lvs[k].Lines[x].Flags &^= 4
		}
		lvs[k].AddTo(wOpaque)
		for x := range opaque[k] {
			lvs[k].Lines[x].Flags |= 4
		}
	}
	c.Write("in.wad", w.Bytes())
	c.Write("plain.wad", wOpaque.Bytes())
	base := c.Build("plain.wad", "base.wad", opts...)
	if base == nil {
		return
	}
	b := c.Build("in.wad", "out.wad", append(append([]string{}, opts...), "-rm")...)
	if b == nil {
		return
	}
	changed := 0
	var report []string
	for k, nm := range names {
		N := len(lvs[k].Sects)
		r0, _ := base.Wad.LevelLump(nm, "REJECT")
		r1, _ := b.Wad.LevelLump(nm, "REJECT")
		if !rejSizeOK(c, r0, N) || !rejSizeOK(c, r1, N) {
			return
		}
		m := newRmbModel(N)
		all, _ := p.For(nm)
		m.loadGroups(all)
		m.distances(lvs[k], opaque[k])
		m.vis = visTable(r0, N)
		if (hasOp(all, "LINE") || hasOp(all, "LENGTH")) && m.hasGroups() {
			t := visTable(r0, N)
			for i := 0; i < N; i++ {
				for j := 0; j < N; j++ {
					if t[i][j] {
						for _, x := range m.members(i) {
							for _, y := range m.members(j) {
								m.vis[x][y] = true
							}
						}
					}
				}
			}
			// a group sees itself
			for i := 0; i < N; i++ {
				for _, x := range m.members(i) {
					m.vis[i][x] = true
				}
			}
		}
		t0 := visTable(r0, N)
		m.apply(p, nm)
		graphs, lines := !contains(opts, "-rg-"), hasOp(all, "LENGTH") || hasOp(all, "LINE")
		var los *LOS
		for i := 0; i < N; i++ {
			for j := 0; j < N; j++ {
				got := rejBit(r1, N, i, j) == 0
				if m.free[i][j] {
					e.Count("pairs_left_open", 1)
					m.vis[i][j] = got
					continue
				}
				if got != t0[i][j] {
					changed++
				}
				if got != m.vis[i][j] && graphs && lines && (t0[i][j] == m.vis[i][j]) {
					// options that act while sight lines are computed change
					// the order of tests: views that graze a corner may come
					// out either way
					if los == nil {
						los = NewLOS(lvs[k], func(x int) bool { return opaque[k][x] })
						los.clear, los.skipMayAlways = 1, true
						los.Solve(r, 60e6)
					}
					if got && !los.PlainlyHidden(i, j) || !got && (!los.sure[i].has(j) || hasOp(all, "GROUP") || hasOp(all, "VORTEX")) {
						e.Count("grazing_pairs_differ", 1)
						m.vis[i][j] = got
						continue
					}
				}
				if got != m.vis[i][j] {
					c.Violate("value", "%s: sector %d sees %d: %v, by the manual %v (without options %v, distance %d); program:\n%s\noptions %v", nm, i, j, got, m.vis[i][j], t0[i][j], m.hops[i][j], text, opts)
					return
				}
			}
		}
		e.Count("table_entries_checked", N*N)
		for _, x := range all {
			op := x.Op
			if x.Band {
				op = "BAND " + op
			}
			if x.Inv {
				op = "INVERT " + op
			}
			e.Count("op_"+strings.ReplaceAll(op, " ", "_"), 1)
		}
		// several vortexes leave pairs open: the report follows the real table
		m.report = nil
		m.reportFrom(p, nm)
		report = append(report, m.report...)
	}
	if !checkReport(e, c, report, b.Res.Out, text) {
		return
	}
	e.Count("entries_changed_by_programs", changed)
	key := ""
	if changed > 0 {
		key = text + strings.Join(desc, "")
	}
	e.Eval(key)
	e.Sample(map[string]interface{}{"maps": strings.Join(desc, "; "), "program": text, "entries_changed": changed})
}

func (m *rmbModel) reportFrom(p *rmbProg, name string) {
	_, local := p.For(name)
	if !hasOp(local, "REPORT") {
		local = p.Global
	}
	for _, c := range local {
		if c.Op != "REPORT" {
			continue
		}
		m.report = append(m.report, fmt.Sprintf("# %s All sectors with LOS distance>%d are reported", name, c.N[0]))
		for i := 0; i < m.n; i++ {
			for j := i + 1; j < m.n; j++ {
				if m.hops[i][j] > c.N[0] && m.vis[i][j] && m.vis[j][i] {
					m.report = append(m.report, fmt.Sprintf("%d,%d", i, j))
				}
			}
		}
	}
}

func checkReport(e *Env, c *Case, want []string, out, text string) bool {
	raw, err := os.ReadFile(c.Path("in.rpt"))
	if len(want) == 0 {
		if err == nil {
			c.Violate("report", "a report file was written though no REPORT option applies; program:\n%s", text)
			return false
		}
		return true
	}
	if err != nil {
		c.Violate("report", "no report file was written; program:\n%s", text)
		return false
	}
	lines := strings.Split(strings.ReplaceAll(strings.TrimRight(string(raw), "\r\n"), "\r\n", "\n"), "\n")
	if len(lines) > 0 && strings.HasPrefix(lines[0], "# VigilantBSP") {
		lines = lines[1:]
	}
	for len(lines) > 0 && strings.HasPrefix(lines[len(lines)-1], "# Report") {
		lines = lines[:len(lines)-1]
	}
	for k := 0; k < len(lines) || k < len(want); k++ {
		a, b := "(end)", "(end)"
		if k < len(lines) {
			a = lines[k]
		}
		if k < len(want) {
			b = want[k]
		}
		if a != b {
			c.Violate("report", "line %d of the report is %q, expected %q; program:\n%s", k+2, a, b, text)
			return false
		}
	}
	e.Count("report_lines_checked", len(want))
	return true
}

// rmbDistance: DISTANCE is judged by bounds on the distance between the
// see-through lines bordering two sectors.
func rmbDistance(e *Env, c *Case, r *rand.Rand) {
	lv, desc := rmbMap(r, "MAP01")
	opts := rmbOpts(r)
	c.Write("in.wad", lv.Wad().Bytes())
	c.Write("plain.wad", lv.Wad().Bytes())
	N := len(lv.Sects)
	lines := losLines(lv, nil)
	per := make([][]losLine, N)
	for _, l := range lines {
		if !l.solid && l.f != l.k {
			per[l.f] = append(per[l.f], l)
			per[l.k] = append(per[l.k], l)
		}
	}
	// a limit near the distance of some pair of lines
	D := 100 + r.Intn(2000)
	if k := borders(lv); len(k) > 1 && r.Intn(4) > 0 {
		a, b := lv.Lines[k[r.Intn(len(k))]], lv.Lines[k[r.Intn(len(k))]]
		lo, hi := segDist(lv.Verts[a.V1], lv.Verts[a.V2], lv.Verts[b.V1], lv.Verts[b.V2])
		D = int(lo + (hi-lo)*r.Float64()*1.2)
	}
	p := &rmbProg{}
	cmd := rmbCmd{Op: "DISTANCE", N: [2]int{D}}
	if r.Intn(2) == 0 {
		p.Global = []rmbCmd{cmd}
	} else {
		p.Global = []rmbCmd{{Op: "DISTANCE", N: [2]int{r.Intn(3000)}}}
		p.Sects = []rmbSect{{"MAP01", []rmbCmd{cmd}}}
	}
	text := progText(p, r, c, "in.rej")
	base := c.Build("plain.wad", "base.wad", opts...)
	if base == nil {
		return
	}
	b := c.Build("in.wad", "out.wad", append(append([]string{}, opts...), "-rm")...)
	if b == nil {
		return
	}
	r0, _ := base.Wad.LevelLump("MAP01", "REJECT")
	r1, _ := b.Wad.LevelLump("MAP01", "REJECT")
	if !rejSizeOK(c, r0, N) || !rejSizeOK(c, r1, N) {
		return
	}
	if len(borders(lv)) == 0 {
		e.Eval("")
		return
	}
	m := newRmbModel(N)
	m.distances(lv, nil)
	must, may := 0, 0
	for i := 0; i < N; i++ {
		for j := 0; j < N; j++ {
			v0, v1 := rejBit(r0, N, i, j) == 0, rejBit(r1, N, i, j) == 0
			if !v0 {
				if v1 && !contains(opts, "-rg+") && contains(opts, "-rg-") {
					c.Violate("distance-shows", "sectors %d and %d became visible by DISTANCE %d", i, j, D)
					return
				}
				continue
			}
			lo, hi := math.Inf(1), 0.0
			for _, a := range per[i] {
				for _, b := range per[j] {
					l, h := segDist(a.a, a.b, b.a, b.b)
					lo, hi = math.Min(lo, l), math.Max(hi, h)
				}
			}
			switch {
			case m.hops[i][j] <= 1:
				if !v1 {
					c.Violate("distance-near", "DISTANCE %d hides neighbours %d and %d", D, i, j)
					return
				}
			case m.hops[i][j] >= 3 && lo > float64(D)+1:
				must++
				if v1 {
					c.Violate("distance-far", "sectors %d and %d are at least %.1f apart but visible under DISTANCE %d; options %v\n%s", i, j, lo, D, opts, text)
					return
				}
			case hi < float64(D)-1:
				may++
				if !v1 {
					c.Violate("distance-close", "sectors %d and %d are at most %.1f apart but hidden under DISTANCE %d; options %v\n%s", i, j, hi, D, opts, text)
					return
				}
			}
		}
	}
	e.Count("distance_pairs_beyond_limit", must)
	e.Count("distance_pairs_within_limit", may)
	key := ""
	if must > 0 {
		key = text + desc
	}
	e.Eval(key)
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// segDist gives the least and the greatest distance of points of two segments.
func segDist(a, b, c, d Vtx) (lo, hi float64) {
	pt := func(p, q, r Vtx) float64 {
		px, py := float64(p.X), float64(p.Y)
		dx, dy := float64(r.X-q.X), float64(r.Y-q.Y)
		t := ((px-float64(q.X))*dx + (py-float64(q.Y))*dy) / (dx*dx + dy*dy)
		t = math.Max(0, math.Min(1, t))
		return math.Hypot(px-float64(q.X)-t*dx, py-float64(q.Y)-t*dy)
	}
	lo = math.Min(math.Min(pt(a, c, d), pt(b, c, d)), math.Min(pt(c, a, b), pt(d, a, b)))
	for _, p := range []Vtx{a, b} {
		for _, q := range []Vtx{c, d} {
			hi = math.Max(hi, math.Hypot(float64(p.X-q.X), float64(p.Y-q.Y)))
		}
	}
	return
}

// rmbNoProcess: an existing table is kept and only the simple effects apply.
func rmbNoProcess(e *Env, c *Case, r *rand.Rand) {
	names := rmbNames(r)
	w, w2 := &Wad{}, &Wad{}
	var lvs []*Level
	var src [][]byte
	minN := 1 << 30
	other := r.Intn(2) == 0 // table from another file
	for _, nm := range names {
		lv, _ := rmbMap(r, nm)
		N := len(lv.Sects)
		minN = min(minN, N)
		own, away := rndBytes(r, (N*N+7)/8), rndBytes(r, (N*N+7)/8)
		if k := N * N % 8; k > 0 {
			own[len(own)-1] &= 1<<k - 1
			away[len(away)-1] &= 1<<k - 1
		}
		addLevelWithReject(lv, w, own)
		addLevelWithReject(lv, w2, away)
		lvs = append(lvs, lv)
		if other {
			src = append(src, away)
		} else {
			src = append(src, own)
		}
	}
	c.Write("in.wad", w.Bytes())
	c.Write("plain.wad", w.Bytes())
	c.Write("other.wad", w2.Bytes())
	arg := ""
	self := !other && r.Intn(2) == 0 // the file being rebuilt, by its name
	if other || self {
		arg = "other.wad"
		if self {
			arg = []string{"in.wad", "./in.wad"}[r.Intn(2)]
			e.Count("noprocess_own_file_by_name", 1)
		}
		if r.Intn(2) == 0 {
			arg = "\"" + arg + "\""
		}
		if r.Intn(3) == 0 || self { // one table for all of them: sizes must fit
			k := r.Intn(len(names))
			arg += " " + names[k]
			for j := range names {
				if a, b := len(lvs[j].Sects), len(lvs[k].Sects); a != b && (a*a+7)/8 == (b*b+7)/8 {
					return // same size, different shape: left open
				} else if a != b {
					src[j] = nil
				} else {
					src[j] = src[k]
				}
			}
		}
	}
	p := &rmbProg{Global: []rmbCmd{{Op: "NOPROCESS", Text: arg}}}
	g := &rmbGen{r: r, n: minN, merged: map[int]bool{}, reps: map[int]bool{}, small: true}
	if r.Intn(4) > 0 {
		p.Global = append(p.Global, g.cmds(1+r.Intn(4))...)
	}
	assertFails := make([]bool, len(names))
	if r.Intn(3) == 0 {
		i, j := r.Intn(minN), r.Intn(minN)
		v := r.Intn(2)
		p.Global = append(p.Global, rmbCmd{Op: "ASSERT", N: [2]int{v}, L: [2][]int{{i}, {j}}})
		for k := range names {
			if src[k] != nil && rejBit(src[k], len(lvs[k].Sects), i, j) != v {
				assertFails[k] = true
			}
		}
	}
	opts := rmbOpts(r)
	text := progText(p, r, c, "in.rej")
	base := c.Build("plain.wad", "base.wad", opts...)
	if base == nil {
		return
	}
	b := c.Build("in.wad", "out.wad", append(append([]string{}, opts...), "-rm")...)
	if b == nil {
		return
	}
	for k, nm := range names {
		N := len(lvs[k].Sects)
		r0, _ := base.Wad.LevelLump(nm, "REJECT")
		r1, _ := b.Wad.LevelLump(nm, "REJECT")
		if !rejSizeOK(c, r0, N) || !rejSizeOK(c, r1, N) {
			return
		}
		from := src[k]
		what := "source"
		if from == nil || assertFails[k] {
			from, what = r0, "rebuilt"
		}
		m := newRmbModel(N)
		all, _ := p.For(nm)
		m.loadGroups(all)
		m.distances(lvs[k], nil)
		m.vis = visTable(from, N)
		m.apply(p, nm)
		for i := 0; i < N; i++ {
			for j := 0; j < N; j++ {
				got := rejBit(r1, N, i, j) == 0
				if got != m.vis[i][j] {
					c.Violate("noprocess", "%s: sector %d sees %d: %v, expected %v (%s table has %v); program:\n%s", nm, i, j, got, m.vis[i][j], what, rejBit(from, N, i, j) == 0, text)
					return
				}
			}
		}
		e.Count("noprocess_tables_"+what, 1)
	}
	e.Eval(text)
}

func addLevelWithReject(lv *Level, w *Wad, rej []byte) {
	t := &Wad{}
	lv.AddTo(t)
	for _, l := range t.Lumps {
		if l.Name == "REJECT" {
			l.Data = rej
		}
		w.Lumps = append(w.Lumps, l)
	}
}
