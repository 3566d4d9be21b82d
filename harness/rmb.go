package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Model of the reject modifier language, written from the manual
// (other/rmb-manual.html).

type rmbCmd struct {
	Op   string // BLIND SAFE INCLUDE EXCLUDE LENGTH LINE GROUP VORTEX REPORT DISTANCE NOPROCESS ASSERT
	Inv  bool
	Band bool
	N    [2]int
	L    [2][]int
	Text string // for NOPROCESS: arguments
}

// rmbProg: commands for all maps, then sections for single maps.
type rmbProg struct {
	Global []rmbCmd
	Sects  []rmbSect
}
type rmbSect struct {
	Map  string
	Cmds []rmbCmd
}

var rmbShort = map[string][]string{
	"BLIND": {"BLIND", "BLI", "blind", "BlIn"}, "SAFE": {"SAFE", "S", "safe", "SA"},
	"INCLUDE": {"INCLUDE", "INC", "include"}, "EXCLUDE": {"EXCLUDE", "EXC", "EX", "exclude"},
	"LENGTH": {"LENGTH", "LEN", "length"}, "LINE": {"LINE", "LI", "line"},
	"GROUP": {"GROUP", "G", "group"}, "VORTEX": {"VORTEX", "V", "vortex"},
	"REPORT": {"REPORT", "REP", "report"}, "DISTANCE": {"DISTANCE", "DI", "distance"},
	"NOPROCESS": {"NOPROCESS", "NOP", "noprocess"}, "ASSERT": {"ASSERT", "A", "assert"},
	"INVERT": {"INVERT", "INV", "invert"}, "BAND": {"BAND", "BA", "band"},
}

func pickS(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func rmbListText(r *rand.Rand, l []int, last bool) string {
	if len(l) == 1 && r.Intn(2) == 0 {
		return fmt.Sprint(l[0])
	}
	sep := []string{" ", ",", ", ", "  "}[r.Intn(4)]
	var p []string
	for _, x := range l {
		p = append(p, fmt.Sprint(x))
	}
	s := strings.Join(p, sep)
	if last && r.Intn(3) == 0 {
		return s
	}
	switch r.Intn(3) {
	case 0:
		return "( " + s + " )"
	default:
		return "(" + s + ")"
	}
}

func (c *rmbCmd) render(r *rand.Rand) string {
	var p []string
	if c.Inv {
		p = append(p, pickS(r, rmbShort["INVERT"]))
	}
	if c.Band {
		p = append(p, pickS(r, rmbShort["BAND"]), pickS(r, []string{c.Op, strings.ToLower(c.Op)}))
	} else if c.Inv {
		p = append(p, pickS(r, rmbShort[c.Op][:2]))
	} else {
		p = append(p, pickS(r, rmbShort[c.Op]))
	}
	switch c.Op {
	case "BLIND", "SAFE":
		p = append(p, fmt.Sprint(c.N[0]))
		if c.Band {
			p = append(p, fmt.Sprint(c.N[1]))
		}
		p = append(p, rmbListText(r, c.L[0], true))
	case "GROUP":
		p = append(p, fmt.Sprint(c.N[0]), rmbListText(r, c.L[0], true))
	case "INCLUDE", "EXCLUDE", "VORTEX":
		p = append(p, rmbListText(r, c.L[0], false), rmbListText(r, c.L[1], true))
	case "ASSERT":
		p = append(p, rmbListText(r, c.L[0], false), rmbListText(r, c.L[1], false), fmt.Sprint(c.N[0]))
	case "LENGTH", "LINE", "REPORT", "DISTANCE":
		p = append(p, fmt.Sprint(c.N[0]))
	case "NOPROCESS":
		p = append(p, c.Text)
	}
	s := strings.Join(p, []string{" ", " ", "  ", "\t"}[r.Intn(4)])
	if r.Intn(5) == 0 {
		s = strings.Repeat(" ", 1+r.Intn(3)) + s
	}
	bracketEnd := strings.HasSuffix(s, ")")
	if r.Intn(6) == 0 && (bracketEnd || c.Op == "LENGTH" || c.Op == "LINE" || c.Op == "REPORT" || c.Op == "DISTANCE" || c.Op == "NOPROCESS") {
		s += " # note"
	}
	return s
}

func (p *rmbProg) Render(r *rand.Rand) string {
	nl := "\n"
	if r.Intn(3) == 0 {
		nl = "\r\n"
	}
	var b strings.Builder
	noise := func() {
		switch r.Intn(8) {
		case 0:
			b.WriteString(nl)
		case 1:
			b.WriteString("# comment EXCLUDE (0 1) (0 1)" + nl)
		}
	}
	noise()
	for k := range p.Global {
		b.WriteString(p.Global[k].render(r) + nl)
		noise()
	}
	for _, s := range p.Sects {
		m := s.Map
		switch r.Intn(4) {
		case 0:
			m = "MAP " + m
		case 1:
			m = strings.ToLower(m)
		}
		b.WriteString(m + nl)
		for k := range s.Cmds {
			b.WriteString(s.Cmds[k].render(r) + nl)
			noise()
		}
	}
	s := b.String()
	if r.Intn(3) == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// For lists the commands in force on one map, and which of them are local.
func (p *rmbProg) For(m string) (all []rmbCmd, local []rmbCmd) {
	all = append(all, p.Global...)
	for _, s := range p.Sects {
		if s.Map == m {
			all = append(all, s.Cmds...)
			local = append(local, s.Cmds...)
		}
	}
	return
}

// last finds the command in force among those that override each other.
func (p *rmbProg) last(m, op string) *rmbCmd {
	all, _ := p.For(m)
	for i := len(all) - 1; i >= 0; i-- {
		if all[i].Op == op {
			return &all[i]
		}
	}
	return nil
}

type rmbModel struct {
	n      int
	vis    [][]bool // row = monster
	hops   [][]int
	groups [][]int // members by representative; nil if merged into another
	parent []int
	report []string
	free   [][]bool // value not determined by the manual
}

const rmbFar = 65535

func newRmbModel(n int) *rmbModel {
	m := &rmbModel{n: n, parent: make([]int, n), groups: make([][]int, n)}
	for i := 0; i < n; i++ {
		m.parent[i] = i
		m.groups[i] = []int{i}
		m.vis = append(m.vis, make([]bool, n))
		m.free = append(m.free, make([]bool, n))
	}
	return m
}

func (m *rmbModel) loadGroups(cmds []rmbCmd) {
	for _, c := range cmds {
		if c.Op != "GROUP" {
			continue
		}
		g := c.N[0]
		if g < 0 || g >= m.n || m.groups[g] == nil {
			continue
		}
		for _, x := range c.L[0] {
			if x == g || x < 0 || x >= m.n || m.groups[x] == nil || len(m.groups[x]) > 1 {
				continue
			}
			m.groups[g] = append(m.groups[g], x)
			m.groups[x] = nil
			m.parent[x] = g
		}
	}
}

func (m *rmbModel) hasGroups() bool {
	for i, p := range m.parent {
		if i != p {
			return true
		}
	}
	return false
}

// distances in sectors: 0 the sector itself, 1 its neighbours, ...
func (m *rmbModel) distances(lv *Level, opaque map[int]bool) {
	adj := make([]map[int]bool, m.n)
	for i := range adj {
		adj[i] = map[int]bool{}
	}
	for _, l := range losLines(lv, func(i int) bool { return opaque[i] }) {
		if l.solid || l.f < 0 || l.k < 0 {
			continue
		}
		a, b := m.parent[l.f], m.parent[l.k]
		if a != b {
			adj[a][b], adj[b][a] = true, true
		}
	}
	m.hops = make([][]int, m.n)
	for s := 0; s < m.n; s++ {
		d := make([]int, m.n)
		for i := range d {
			d[i] = rmbFar
		}
		q := []int{m.parent[s]}
		d[q[0]] = 0
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for y := range adj[x] {
				if d[y] == rmbFar {
					d[y] = d[x] + 1
					q = append(q, y)
				}
			}
		}
		for i := range d {
			d[i] = d[m.parent[i]]
		}
		m.hops[s] = d
	}
}

type bsState struct {
	norm, inv, band, bandInv bool
	n, i, lo, hi             int
}

func (s *bsState) hides(d int) bool {
	switch {
	case s.band:
		in := d >= s.lo && d < s.hi
		return in != s.bandInv
	case s.norm && s.inv && s.i > s.n:
		return d >= s.n && d < s.i
	}
	return s.norm && d >= s.n || s.inv && d < s.i
}

// members substitutes a group for its representative or for any of its
// members (options cannot be applied to single members).
func (m *rmbModel) members(x int) []int { return m.groups[m.parent[x]] }

// forced lists what INCLUDE and EXCLUDE name: the whole group if its
// representative is named, otherwise just the sector.
func (m *rmbModel) forced(x int) []int {
	if m.groups[x] != nil {
		return m.groups[x]
	}
	return []int{x}
}

// apply runs the program for one map on the table of visibility without
// options (opaque lines and group sharing already in it).
func (m *rmbModel) apply(p *rmbProg, name string) {
	all, local := p.For(name)
	for i := range m.vis {
		for j := range m.vis[i] {
			if m.hops[i][j] == rmbFar && m.vis[i][j] {
				// seen by other means than through lines (grazing corners,
				// self-referencing sectors, maps without see-through lines):
				// options that count sectors may but need not take it away
				m.free[i][j] = true
			}
		}
	}
	if c := p.last(name, "LENGTH"); c != nil {
		for i := 0; i < m.n; i++ {
			for j := 0; j < m.n; j++ {
				if d := m.hops[i][j]; d > c.N[0] {
					if m.free[i][j] {
					} else if d > 1 {
						m.vis[i][j] = false
					} else {
						m.free[i][j] = true
					}
				}
			}
		}
	}
	bl, sa := make([]bsState, m.n), make([]bsState, m.n)
	for _, c := range all {
		if c.Op != "BLIND" && c.Op != "SAFE" {
			continue
		}
		for _, x := range c.L[0] {
			if x < 0 || x >= m.n {
				continue
			}
			for _, y := range m.members(x) {
				s := &bl[y]
				if c.Op == "SAFE" {
					s = &sa[y]
				}
				switch {
				case c.Band:
					s.band, s.bandInv, s.lo, s.hi = true, c.Inv, c.N[0], c.N[1]
				case c.Inv:
					s.inv, s.i = true, c.N[0]
				default:
					s.norm, s.n = true, c.N[0]
				}
			}
		}
	}
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			if bl[i].hides(m.hops[i][j]) || sa[j].hides(m.hops[i][j]) {
				m.vis[i][j], m.free[i][j] = false, false
			}
		}
	}
	m.vortexes(all)
	for _, op := range []string{"INCLUDE", "EXCLUDE"} {
		for _, c := range all {
			if c.Op != op {
				continue
			}
			for _, a := range c.L[0] {
				for _, b := range c.L[1] {
					if a < 0 || b < 0 || a >= m.n || b >= m.n {
						continue
					}
					for _, x := range m.forced(a) {
						for _, y := range m.forced(b) {
							m.vis[x][y], m.free[x][y] = op == "INCLUDE", false
						}
					}
				}
			}
		}
	}
	rep := local
	has := false
	for _, c := range local {
		has = has || c.Op == "REPORT"
	}
	if !has {
		rep = p.Global
	}
	for _, c := range rep {
		if c.Op != "REPORT" {
			continue
		}
		m.report = append(m.report, fmt.Sprintf("# %s All sectors with LOS distance>%d are reported", name, c.N[0]))
		for i := 0; i < m.n; i++ {
			for j := i + 1; j < m.n; j++ {
				if m.hops[i][j] > c.N[0] && m.vis[i][j] && m.vis[j][i] {
					m.report = append(m.report, fmt.Sprintf("%d,%d", i, j))
				}
			}
		}
	}
}

// vortexes: the named sectors see each other across the lists; whatever sees
// one list sees what is seen from the other. The manual leaves open what
// happens to pairs of sectors inside one list, and in what order several
// vortexes act: pairs outside the least and inside the greatest reading are
// free.
func (m *rmbModel) vortexes(all []rmbCmd) {
	// a group named in a vortex: whether sight also passes through its other
	// members is left open
	var vs, named [][2][]int
	for _, c := range all {
		if c.Op != "VORTEX" {
			continue
		}
		var v, u [2][]int
		for k := 0; k < 2; k++ {
			for _, x := range c.L[k] {
				if x >= 0 && x < m.n {
					v[k] = append(v[k], m.forced(x)...)
					u[k] = append(u[k], x)
				}
			}
		}
		vs, named = append(vs, v), append(named, u)
	}
	if len(vs) == 0 {
		return
	}
	cp := func(t [][]bool) [][]bool {
		var r [][]bool
		for _, x := range t {
			r = append(r, append([]bool{}, x...))
		}
		return r
	}
	step := func(src, dst [][]bool, vs [][2][]int, wide bool) bool {
		ch := false
		set := func(i, j int) {
			if !dst[i][j] {
				dst[i][j], ch = true, true
			}
		}
		for _, v := range vs {
			for k := 0; k < 2; k++ {
				for _, a := range v[k] {
					for _, b := range v[1-k] {
						set(a, b)
						if wide {
							// seeing one end counts as seeing the other
							for i := 0; i < m.n; i++ {
								if src[i][a] {
									set(i, b)
								}
								if src[b][i] {
									set(a, i)
								}
							}
						}
						for i := 0; i < m.n; i++ {
							if !src[i][a] {
								continue
							}
							for j := 0; j < m.n; j++ {
								if src[b][j] {
									set(i, j)
								}
							}
						}
					}
				}
			}
		}
		return ch
	}
	least, great := cp(m.vis), cp(m.vis)
	for i := range m.vis {
		for j := range m.vis[i] {
			if m.free[i][j] {
				least[i][j], great[i][j] = false, true
			}
		}
	}
	for _, v := range vs {
		for _, a := range v[0] {
			for _, b := range v[1] {
				least[a][b], least[b][a] = true, true
			}
		}
	}
	step(cp(least), least, named, false)
	for step(cp(great), great, vs, true) {
	}
	for i := range m.vis {
		for j := range m.vis[i] {
			m.vis[i][j] = least[i][j]
			m.free[i][j] = least[i][j] != great[i][j]
		}
	}
}
