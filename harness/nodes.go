package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math"
)

type PV struct{ X, Y float64 }
type Seg struct {
	V1, V2 int
	Angle  int // -1 when the format has none
	Line   int
	Side   int
	Off    int
	HasOff bool
}
type SSec struct{ First, Count int }
type Node struct {
	X, Y, DX, DY int
	BBox         [2][4]int // right, left; top bottom left right
	Child        [2]int    // >=0 node; <0 => subsector ^child
}
type BSP struct {
	Format   string // vanilla deep xnod znod
	Verts    []PV
	Segs     []Seg
	SSecs    []SSec
	Nodes    []Node
	Extended bool
	OrigV    int // XNOD: number of original vertices used
	Overflow bool
}

func lu32(b []byte) int { return int(binary.LittleEndian.Uint32(b)) }
func li32(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }

// ParseBSP decodes the four node formats the tool can write. Returns nil,nil
// when the lumps are all empty.
func ParseBSP(w *Wad, marker string) (*BSP, error) {
	get := func(n string) []byte { b, _ := w.LevelLump(marker, n); return b }
	vb, sb, ssb, nb := get("VERTEXES"), get("SEGS"), get("SSECTORS"), get("NODES")
	if len(nb) == 0 && len(sb) == 0 && len(ssb) == 0 {
		return nil, nil
	}
	b := &BSP{}
	if len(vb)%4 != 0 {
		return nil, fmt.Errorf("VERTEXES size %d", len(vb))
	}
	for _, v := range decodeVerts(vb) {
		b.Verts = append(b.Verts, PV{float64(v.X), float64(v.Y)})
	}
	b.OrigV = len(b.Verts)
	switch {
	case bytes.HasPrefix(nb, []byte("XNOD")), bytes.HasPrefix(nb, []byte("ZNOD")):
		if len(sb) != 0 || len(ssb) != 0 {
			return nil, fmt.Errorf("extended nodes with non-empty SEGS (%d) or SSECTORS (%d)", len(sb), len(ssb))
		}
		b.Extended = true
		b.Format = "xnod"
		d := nb[4:]
		if nb[0] == 'Z' {
			b.Format = "znod"
			br := bytes.NewReader(d)
			zr, err := zlib.NewReader(br)
			if err != nil {
				return nil, fmt.Errorf("ZNOD: %v", err)
			}
			d, err = io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("ZNOD: %v", err)
			}
			if br.Len() != 0 {
				return nil, fmt.Errorf("ZNOD: %d trailing bytes", br.Len())
			}
		}
		return b, b.parseX(d)
	case bytes.HasPrefix(nb, []byte("xNd4\x00\x00\x00\x00")):
		b.Format = "deep"
		d := nb[8:]
		if len(d)%32 != 0 || len(ssb)%6 != 0 || len(sb)%16 != 0 {
			return nil, fmt.Errorf("deep lump sizes nodes=%d ssectors=%d segs=%d", len(nb), len(ssb), len(sb))
		}
		for ; len(d) > 0; d = d[32:] {
			b.Nodes = append(b.Nodes, readNode(d, true))
		}
		for p := ssb; len(p) > 0; p = p[6:] {
			b.SSecs = append(b.SSecs, SSec{lu32(p[2:]), leu16(p)})
		}
		// DeepP: count u16 then first u32
		for p := sb; len(p) > 0; p = p[16:] {
			b.Segs = append(b.Segs, Seg{V1: lu32(p), V2: lu32(p[4:]), Angle: leu16(p[8:]), Line: leu16(p[10:]), Side: leu16(p[12:]), Off: leu16(p[14:]), HasOff: true})
		}
	default:
		b.Format = "vanilla"
		if len(nb)%28 != 0 || len(ssb)%4 != 0 || len(sb)%12 != 0 {
			return nil, fmt.Errorf("vanilla lump sizes nodes=%d ssectors=%d segs=%d", len(nb), len(ssb), len(sb))
		}
		for d := nb; len(d) > 0; d = d[28:] {
			b.Nodes = append(b.Nodes, readNode(d, false))
		}
		for p := ssb; len(p) > 0; p = p[4:] {
			b.SSecs = append(b.SSecs, SSec{leu16(p[2:]), leu16(p)})
		}
		for p := sb; len(p) > 0; p = p[12:] {
			b.Segs = append(b.Segs, Seg{V1: leu16(p), V2: leu16(p[2:]), Angle: leu16(p[4:]), Line: leu16(p[6:]), Side: leu16(p[8:]), Off: leu16(p[10:]), HasOff: true})
		}
	}
	return b, nil
}

func readNode(d []byte, deep bool) Node {
	var n Node
	n.X, n.Y, n.DX, n.DY = le16(d), le16(d[2:]), le16(d[4:]), le16(d[6:])
	for c := 0; c < 2; c++ {
		for k := 0; k < 4; k++ {
			n.BBox[c][k] = le16(d[8+8*c+2*k:])
		}
	}
	for c := 0; c < 2; c++ {
		if deep {
			v := binary.LittleEndian.Uint32(d[24+4*c:])
			if v&0x80000000 != 0 {
				n.Child[c] = ^int(v & 0x7FFFFFFF)
			} else {
				n.Child[c] = int(v)
			}
		} else {
			v := leu16(d[24+2*c:])
			if v&0x8000 != 0 {
				n.Child[c] = ^(v & 0x7FFF)
			} else {
				n.Child[c] = v
			}
		}
	}
	return n
}

func (b *BSP) parseX(d []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("extended nodes truncated: %v", r)
		}
	}()
	nOrig, nNew := lu32(d), lu32(d[4:])
	d = d[8:]
	if nOrig > len(b.Verts) {
		return fmt.Errorf("extended nodes: %d original vertices, VERTEXES has %d", nOrig, len(b.Verts))
	}
	if nOrig != len(b.Verts) {
		b.Verts = b.Verts[:nOrig]
	}
	b.OrigV = nOrig
	for k := 0; k < nNew; k++ {
		b.Verts = append(b.Verts, PV{float64(li32(d)) / 65536, float64(li32(d[4:])) / 65536})
		d = d[8:]
	}
	n := lu32(d)
	d = d[4:]
	first := 0
	for k := 0; k < n; k++ {
		c := lu32(d)
		d = d[4:]
		b.SSecs = append(b.SSecs, SSec{first, c})
		first += c
	}
	n = lu32(d)
	d = d[4:]
	for k := 0; k < n; k++ {
		b.Segs = append(b.Segs, Seg{V1: lu32(d), V2: lu32(d[4:]), Line: leu16(d[8:]), Side: int(d[10]), Angle: -1})
		d = d[11:]
	}
	n = lu32(d)
	d = d[4:]
	for k := 0; k < n; k++ {
		b.Nodes = append(b.Nodes, readNode(d, true))
		d = d[32:]
	}
	if len(d) != 0 {
		return fmt.Errorf("extended nodes: %d trailing bytes", len(d))
	}
	return nil
}

// Structure checks the indices and the shape of the tree. lv supplies the
// linedef table that the segs refer to.
func (b *BSP) Structure(lv *Level) error { return b.structure(lv, true) }

// structure: with inOrder the subsectors' segs must also follow one another.
func (b *BSP) structure(lv *Level, inOrder bool) error {
	if len(b.SSecs) == 0 {
		return fmt.Errorf("no subsectors")
	}
	pos := 0
	for k, s := range b.SSecs {
		if s.Count <= 0 {
			return fmt.Errorf("subsector %d is empty", k)
		}
		if s.First < 0 || s.First+s.Count > len(b.Segs) {
			return fmt.Errorf("subsector %d has segs %d+%d of %d", k, s.First, s.Count, len(b.Segs))
		}
		if inOrder && s.First != pos {
			return fmt.Errorf("subsector %d starts at seg %d, expected %d", k, s.First, pos)
		}
		pos += s.Count
	}
	if pos != len(b.Segs) {
		return fmt.Errorf("subsectors cover %d segs of %d", pos, len(b.Segs))
	}
	for k, s := range b.Segs {
		if s.V1 < 0 || s.V2 < 0 || s.V1 >= len(b.Verts) || s.V2 >= len(b.Verts) {
			return fmt.Errorf("seg %d vertices %d,%d of %d", k, s.V1, s.V2, len(b.Verts))
		}
		if s.Line >= len(lv.Lines) {
			return fmt.Errorf("seg %d linedef %d of %d", k, s.Line, len(lv.Lines))
		}
		if s.Side != 0 && s.Side != 1 {
			return fmt.Errorf("seg %d side %d", k, s.Side)
		}
		if lv.Lines[s.Line].S[s.Side] < 0 {
			return fmt.Errorf("seg %d is on side %d of linedef %d which has no sidedef there", k, s.Side, s.Line)
		}
	}
	if len(b.Nodes) == 0 {
		if len(b.SSecs) != 1 {
			return fmt.Errorf("no nodes but %d subsectors", len(b.SSecs))
		}
		return nil
	}
	seenN := make([]bool, len(b.Nodes))
	seenS := make([]bool, len(b.SSecs))
	var stack []int
	root := len(b.Nodes) - 1
	seenN[root] = true
	stack = append(stack, root)
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		nd := b.Nodes[n]
		if nd.DX == 0 && nd.DY == 0 {
			return fmt.Errorf("node %d has a null partition", n)
		}
		for c := 0; c < 2; c++ {
			ch := nd.Child[c]
			if ch < 0 {
				s := ^ch
				if s >= len(b.SSecs) {
					return fmt.Errorf("node %d child %d refers to subsector %d of %d", n, c, s, len(b.SSecs))
				}
				if seenS[s] {
					return fmt.Errorf("subsector %d reached twice", s)
				}
				seenS[s] = true
			} else {
				if ch >= len(b.Nodes) {
					return fmt.Errorf("node %d child %d refers to node %d of %d", n, c, ch, len(b.Nodes))
				}
				if seenN[ch] {
					return fmt.Errorf("node %d reached twice (cycle or sharing)", ch)
				}
				seenN[ch] = true
				stack = append(stack, ch)
			}
		}
	}
	for k, v := range seenN {
		if !v {
			return fmt.Errorf("node %d unreachable from the root", k)
		}
	}
	for k, v := range seenS {
		if !v {
			return fmt.Errorf("subsector %d unreachable from the root", k)
		}
	}
	return nil
}

// engine's point-on-side test in exact arithmetic; returns the child index.
func (n *Node) Side(x, y float64) int {
	// right (0) when (y-ny)*dx <= ... engine: left = (dy>>16)*dx ; right = dy*(dx)
	cr := (y-float64(n.Y))*float64(n.DX) - (x-float64(n.X))*float64(n.DY)
	if cr < 0 {
		return 0
	}
	return 1
}

// signed distance from the partition, negative = right/front
func (n *Node) Dist(x, y float64) float64 {
	l := math.Hypot(float64(n.DX), float64(n.DY))
	return ((y-float64(n.Y))*float64(n.DX) - (x-float64(n.X))*float64(n.DY)) / l
}

func (b *BSP) Locate(x, y float64) int {
	if len(b.Nodes) == 0 {
		return 0
	}
	n := len(b.Nodes) - 1
	for {
		c := b.Nodes[n].Child[b.Nodes[n].Side(x, y)]
		if c < 0 {
			return ^c
		}
		n = c
	}
}

// LocateAll returns the subsectors reachable when partitions closer than eps
// may go either way.
func (b *BSP) LocateAll(x, y, eps float64) []int {
	if len(b.Nodes) == 0 {
		return []int{0}
	}
	var out []int
	st := []int{len(b.Nodes) - 1}
	for len(st) > 0 && len(out) < 64 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if n < 0 {
			out = append(out, ^n)
			continue
		}
		nd := &b.Nodes[n]
		d := nd.Dist(x, y)
		if math.Abs(d) < eps {
			st = append(st, nd.Child[0], nd.Child[1])
		} else if d < 0 {
			st = append(st, nd.Child[0])
		} else {
			st = append(st, nd.Child[1])
		}
	}
	return out
}
