package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
)

// Multi-level WADs: what goes in, and an independent model of the directory
// that must come out.

type mwItem struct {
	Kind  byte // 'p' plain lump, 'L' valid level, 'I' level missing a required lump, 'U' UDMF level
	Name  string
	Lv    *Level
	Lumps []Lump // marker first
}

type MultiWad struct {
	Items []mwItem
	Magic [4]byte
	Desc  string
}

func (m *MultiWad) Wad() *Wad {
	w := &Wad{Magic: m.Magic}
	for _, it := range m.Items {
		w.Lumps = append(w.Lumps, it.Lumps...)
	}
	return w
}

func rndBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

var plainNames = []string{"PLAYPAL", "COLORMAP", "S_START", "S_END", "D_RUNNIN", "DEHACKED", "MAPINFO", "ZMAPINFO", "lowname", "GL_VERT", "GL_MAP01", "A", "12345678", "ENDOOM", "TEXTURE1", "MAP1", "MAP001", "E0M1", "MAPXX", "XMAP01", "ENDMAP", "DIALOGUE", "\\\\\\", "VILE[1", "F_START", "P_END", "SNDINFO", "THINGS2"}

// inLevelNames as free-standing lumps are also legal (e.g. after F_START).
func plainLump(r *rand.Rand) Lump {
	n := plainNames[r.Intn(len(plainNames))]
	var d []byte
	switch r.Intn(4) {
	case 0:
	case 1:
		d = rndBytes(r, 1+r.Intn(8))
	default:
		d = rndBytes(r, r.Intn(900))
		switch r.Intn(60) {
		case 0: // around and beyond usual buffer sizes
			d = rndBytes(r, []int{4095, 4096, 4097, 65535, 65536, 65537, 131072, 1 << 20, 1<<20 + 1}[r.Intn(9)])
		case 1:
			d = rndBytes(r, r.Intn(3<<20))
		}
	}
	l := L(n, d)
	if len(n) < 6 && r.Intn(5) == 0 { // junk after the terminator
		copy(l.Raw[len(n)+1:], "zQ#")
	}
	return l
}

type mwOpt struct {
	MaxLevels    int
	Size         int
	OnlyValid    bool
	Complete     bool // levels carry all lumps in canonical order, once
	NoHexen      bool
	Scroll       bool
	KeepScripts  bool
	NoDup        bool
	Unused       bool
	MaxSectors   bool
	UniqueLevels bool
}

func genMulti(r *rand.Rand, o mwOpt) *MultiWad {
	m := &MultiWad{}
	copy(m.Magic[:], []string{"PWAD", "IWAD"}[r.Intn(2)])
	n := 1 + r.Intn(o.MaxLevels)
	used := map[string]bool{}
	name := func() string {
		for {
			var s string
			if r.Intn(3) == 0 {
				s = fmt.Sprintf("E%dM%d", 1+r.Intn(9), r.Intn(10))
				if r.Intn(6) == 0 {
					s += fmt.Sprint(r.Intn(10))
				}
			} else {
				s = fmt.Sprintf("MAP%02d", r.Intn(100))
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	plain := func(k int) {
		for i := 0; i < k; i++ {
			l := plainLump(r)
			m.Items = append(m.Items, mwItem{Kind: 'p', Name: l.Name, Lumps: []Lump{l}})
		}
	}
	if r.Intn(2) == 0 {
		plain(1 + r.Intn(4))
	}
	if r.Intn(150) == 0 { // a crowded directory
		it := mwItem{Kind: 'p', Name: "crowd"}
		for k := []int{250, 260, 4100, 33000, 66000}[r.Intn(5)]; k > 0; k-- {
			it.Lumps = append(it.Lumps, L(plainNames[k%len(plainNames)], []byte{byte(k), byte(k >> 8)}[:k%3]))
		}
		m.Items = append(m.Items, it)
	}
	for i := 0; i < n; i++ {
		it := genLevelItem(r, name(), o)
		m.Items = append(m.Items, it)
		if !o.OnlyValid && r.Intn(10) == 0 {
			m.Items = append(m.Items, udmfItem(r, name()))
		}
		if r.Intn(2) == 0 {
			plain(1 + r.Intn(3))
		}
	}
	any := false
	for _, it := range m.Items {
		any = any || it.Kind == 'L'
	}
	if !any {
		o2 := o
		o2.OnlyValid = true
		m.Items = append(m.Items, genLevelItem(r, name(), o2))
	}
	for _, it := range m.Items {
		switch it.Kind {
		case 'p':
			m.Desc += "."
		default:
			m.Desc += string(it.Kind) + it.Name
			if it.Lv != nil {
				m.Desc += fmt.Sprintf("(%ds%dl%v)", len(it.Lv.Sects), len(it.Lv.Lines), it.Lv.Hexen)
			}
		}
	}
	return m
}

func udmfItem(r *rand.Rand, name string) mwItem {
	it := mwItem{Kind: 'U', Name: name}
	it.Lumps = append(it.Lumps, L(name, nil), L("TEXTMAP", []byte(fmt.Sprintf("namespace=\"doom\"; // %d", r.Intn(1000)))))
	if r.Intn(2) == 0 {
		it.Lumps = append(it.Lumps, L("ZNODES", rndBytes(r, 40)))
	}
	if r.Intn(3) == 0 {
		it.Lumps = append(it.Lumps, L("REJECT", rndBytes(r, 10)))
	}
	it.Lumps = append(it.Lumps, L("ENDMAP", nil))
	return it
}

func genLevelItem(r *rand.Rand, name string, o mwOpt) mwItem {
	g := RandOpt(r, r.Intn(o.Size+1))
	if o.NoHexen {
		g.Hexen = false
	}
	if !o.Unused {
		g.Unused = 0
	}
	if o.MaxSectors {
		// spread of sector counts, also tiny ones
		g.W, g.H, g.Sectors, g.Void = 1+r.Intn(7), 1+r.Intn(7), 0, 0
	}
	lv := Gen(r, name, g)
	if g.Hexen {
		lv.Behavior = append([]byte("ACS\x00"), rndBytes(r, 12+r.Intn(60))...)
	}
	it := mwItem{Kind: 'L', Name: name, Lv: lv}
	tw := lv.Wad()
	if (o.KeepScripts || r.Intn(2) == 0) && g.Hexen {
		tw.Add("SCRIPTS", []byte(fmt.Sprintf("// script %d", r.Intn(1000))))
	}
	ls := tw.Lumps
	if r.Intn(5) == 0 {
		ls[0].Data = []byte("level comment") // marker with contents
	}
	if len(name) < 7 && r.Intn(6) == 0 {
		copy(ls[0].Raw[len(name)+1:], "*~")
	}
	// stale or valid-looking content in the lumps that get rebuilt
	nv := len(lv.Sects)
	for i := range ls {
		switch ls[i].Name {
		case "SEGS", "SSECTORS", "NODES", "BLOCKMAP":
			if r.Intn(2) == 0 {
				ls[i].Data = rndBytes(r, 4*(1+r.Intn(60)))
			}
		case "REJECT":
			switch r.Intn(3) {
			case 0:
				ls[i].Data = rndBytes(r, (nv*nv+7)/8)
			case 1:
				ls[i].Data = rndBytes(r, r.Intn(30))
			}
		}
	}
	if !o.Complete {
		// drop creatable lumps
		if r.Intn(3) == 0 {
			out := ls[:1:1]
			for _, l := range ls[1:] {
				switch l.Name {
				case "SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP":
					if r.Intn(2) == 0 {
						continue
					}
				}
				out = append(out, l)
			}
			ls = out
		}
		// reorder
		if r.Intn(4) == 0 {
			rest := ls[1:]
			r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		}
		// duplicate some lump (identical content so "which one" is immaterial)
		if !o.NoDup && r.Intn(8) == 0 {
			k := 1 + r.Intn(len(ls)-1)
			d := ls[k]
			p := 1 + r.Intn(len(ls))
			ls = append(ls[:p:p], append([]Lump{d}, ls[p:]...)...)
		}
		if !o.OnlyValid && r.Intn(9) == 0 {
			miss := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}[r.Intn(5)]
			out := ls[:1:1]
			for _, l := range ls[1:] {
				if l.Name != miss {
					out = append(out, l)
				}
			}
			ls = out
			it.Kind = 'I'
		}
	}
	it.Lumps = ls
	return it
}

var canonOrder = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
var creatable = map[string]bool{"SEGS": true, "SSECTORS": true, "NODES": true, "REJECT": true, "BLOCKMAP": true}

type expLump struct {
	Item    int
	Name    string
	Raw     [8]byte
	Src     []byte // input contents (nil when created)
	Created bool
	Level   bool // belongs to a rebuilt level (not its marker)
}

// Expect models the output directory. sel: is the level selected for rebuild.
func (m *MultiWad) Expect(sel func(string) bool, eject bool) []expLump {
	var out []expLump
	for i, it := range m.Items {
		rebuilt := it.Kind == 'L' && sel(it.Name)
		if !rebuilt {
			if eject && (it.Kind == 'p' || !sel(it.Name)) {
				continue
			}
			for _, l := range it.Lumps {
				out = append(out, expLump{Item: i, Name: l.Name, Raw: l.Raw, Src: l.Data})
			}
			continue
		}
		mk := it.Lumps[0]
		out = append(out, expLump{Item: i, Name: mk.Name, Raw: mk.Raw, Src: mk.Data})
		for _, n := range canonOrder {
			found := false
			for _, l := range it.Lumps[1:] {
				if l.Name == n && !found {
					found = true
					out = append(out, expLump{Item: i, Name: n, Raw: l.Raw, Src: l.Data, Level: true})
				}
			}
			if !found && creatable[n] {
				out = append(out, expLump{Item: i, Name: n, Raw: mkName(n), Level: true, Created: true})
			}
		}
	}
	return out
}

// ItemWad cuts one rebuilt level out of an output.
func itemWad(w *Wad, exp []expLump, item int) *Wad {
	r := &Wad{Magic: w.Magic}
	for i, e := range exp {
		if e.Item == item {
			r.Lumps = append(r.Lumps, w.Lumps[i])
		}
	}
	return r
}

// CompareDir checks names, order and count.
func compareDir(w *Wad, exp []expLump) error {
	for i, e := range exp {
		if i >= len(w.Lumps) {
			return fmt.Errorf("output has %d lumps, expected %d; first missing is %q", len(w.Lumps), len(exp), e.Name)
		}
		if w.Lumps[i].Raw != e.Raw {
			return fmt.Errorf("lump #%d is named %q (% x), expected %q", i, w.Lumps[i].Name, w.Lumps[i].Raw, e.Name)
		}
	}
	if len(w.Lumps) > len(exp) {
		return fmt.Errorf("output has %d lumps, expected %d; first extra is %q", len(w.Lumps), len(exp), w.Lumps[len(exp)].Name)
	}
	return nil
}

// checkLayout: no lump overlaps the header, the directory or another lump,
// except zero bytes shared on purpose.
func checkLayout(raw []byte, w *Wad, dirPos int) error {
	type iv struct {
		a, b int
		n    string
	}
	var v []iv
	v = append(v, iv{0, 12, "header"}, iv{dirPos, dirPos + 16*len(w.Lumps), "directory"})
	for i, l := range w.Lumps {
		if len(l.Data) > 0 {
			v = append(v, iv{int(l.Pos), int(l.Pos) + len(l.Data), fmt.Sprintf("lump #%d %s", i, l.Name)})
		}
	}
	sort.SliceStable(v, func(i, j int) bool { return v[i].a < v[j].a })
	end, endn := 0, ""
	for _, x := range v {
		if x.a < end {
			lim := end
			if x.b < lim {
				lim = x.b
			}
			for p := x.a; p < lim; p++ {
				if raw[p] != 0 {
					return fmt.Errorf("%s overlaps %s at offset %d where the file holds %#x", x.n, endn, p, raw[p])
				}
			}
		}
		if x.b > end {
			end, endn = x.b, x.n
		}
	}
	return nil
}

func dirPos(raw []byte) int { return lu32(raw[8:]) }

// authored compares one rebuilt level with its source: untouched lumps byte
// for byte, linedefs by meaning. extraLines: lines may have been appended.
func authored(it *mwItem, out *Wad, extraLines bool) error {
	in := &Wad{Lumps: it.Lumps}
	get := func(w *Wad, n string) ([]byte, bool) {
		for _, l := range w.Lumps[1:] {
			if l.Name == n {
				return l.Data, true
			}
		}
		return nil, false
	}
	for _, n := range []string{"THINGS", "SIDEDEFS", "SECTORS", "BEHAVIOR", "SCRIPTS"} {
		a, oka := get(in, n)
		b, okb := get(out, n)
		if oka != okb {
			return fmt.Errorf("%s of %s present before: %v, after: %v", n, it.Name, oka, okb)
		}
		if !bytes.Equal(a, b) {
			return fmt.Errorf("%s of %s changed (%d bytes -> %d bytes, first difference at %d)", n, it.Name, len(a), len(b), firstDiff(a, b))
		}
	}
	la, _ := get(in, "LINEDEFS")
	va, _ := get(in, "VERTEXES")
	lb, _ := get(out, "LINEDEFS")
	vb, _ := get(out, "VERTEXES")
	return sameLines(it.Lv.Hexen, la, va, lb, vb, extraLines)
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func sameLines(hexen bool, la, va, lb, vb []byte, extra bool) error {
	A, B := decodeLines(la, hexen), decodeLines(lb, hexen)
	VA, VB := decodeVerts(va), decodeVerts(vb)
	if len(B) < len(A) || (len(B) > len(A) && !extra) {
		return fmt.Errorf("%d linedefs became %d", len(A), len(B))
	}
	for i := range A {
		a, b := A[i], B[i]
		if b.V1 >= len(VB) || b.V2 >= len(VB) {
			return fmt.Errorf("linedef %d refers to vertices %d,%d of %d", i, b.V1, b.V2, len(VB))
		}
		if VA[a.V1] != VB[b.V1] || VA[a.V2] != VB[b.V2] {
			return fmt.Errorf("linedef %d went %v-%v, now %v-%v", i, VA[a.V1], VA[a.V2], VB[b.V1], VB[b.V2])
		}
		a.V1, a.V2, b.V1, b.V2 = 0, 0, 0, 0
		if a != b {
			return fmt.Errorf("linedef %d was %+v, now %+v", i, a, b)
		}
	}
	return nil
}

func (m *MultiWad) dropUDMF() {
	var it []mwItem
	for _, x := range m.Items {
		if x.Kind != 'U' {
			it = append(it, x)
		}
	}
	m.Items = it
}

// addScrollers turns random lines of a Doom level into fast scrolling walls.
func addScrollers(r *rand.Rand, lv *Level) {
	for t := 0; t < 1+r.Intn(3); t++ {
		ln := &lv.Lines[r.Intn(len(lv.Lines))]
		ln.Action, ln.Tag = 48, r.Intn(9)
	}
}

// helperLines checks that what was appended to the lines of a level is exactly
// the helper lines its scrolling walls ask for: tag-1 copies per wall, inert
// but for the scroll action.
func helperLines(it *mwItem, out *Wad, on bool) error {
	lv := it.Lv
	get := func(n string) []byte {
		for _, l := range out.Lumps[1:] {
			if l.Name == n {
				return l.Data
			}
		}
		return nil
	}
	B, V := decodeLines(get("LINEDEFS"), lv.Hexen), decodeVerts(get("VERTEXES"))
	type key struct {
		p, q Vtx
		f, k int
	}
	type grp struct{ a, b, f int }
	seen := map[grp]bool{}
	want := map[key]int{}
	for _, l := range lv.Lines {
		if l.Action == 1048 {
			return nil
		}
		if l.Action != 48 || lv.Hexen || !on {
			continue
		}
		g := grp{l.V1, l.V2, l.S[0]}
		if seen[g] {
			return nil // the second is itself a helper: not generated here
		}
		seen[g] = true
		if l.Tag > 1 {
			want[key{lv.Verts[l.V1], lv.Verts[l.V2], l.S[0], l.S[1]}] += l.Tag - 1
		}
	}
	for i := len(lv.Lines); i < len(B); i++ {
		b := B[i]
		if b.V1 >= len(V) || b.V2 >= len(V) {
			return fmt.Errorf("helper line %d refers to vertices %d,%d of %d", i, b.V1, b.V2, len(V))
		}
		if b.Flags != 0 || b.Tag != 0 || b.Action != 48 {
			return fmt.Errorf("helper line %d of a scrolling wall has flags %d action %d tag %d", i, b.Flags, b.Action, b.Tag)
		}
		k := key{V[b.V1], V[b.V2], b.S[0], b.S[1]}
		if want[k] == 0 {
			return fmt.Errorf("appended line %d %v-%v sides %d,%d belongs to no scrolling wall that needs it", i, k.p, k.q, k.f, k.k)
		}
		want[k]--
	}
	for k, n := range want {
		if n > 0 {
			return fmt.Errorf("scrolling wall %v-%v lacks %d helper lines", k.p, k.q, n)
		}
	}
	return nil
}
