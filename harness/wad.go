package main

// Independent WAD container reader/writer. Nothing here is shared with the
// program under test.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
)

type Lump struct {
	Name string // trimmed at first NUL
	Raw  [8]byte
	Pos  uint32
	Data []byte
}

type Wad struct {
	Magic [4]byte
	Lumps []Lump
	Size  int
	Share bool // BytesOdd: store identical lumps once
}

func mkName(n string) (r [8]byte) { copy(r[:], n); return }

func L(name string, data []byte) Lump {
	return Lump{Name: name, Raw: mkName(name), Data: data}
}

func (w *Wad) Add(name string, data []byte) { w.Lumps = append(w.Lumps, L(name, data)) }

func nameOf(b [8]byte) string {
	i := bytes.IndexByte(b[:], 0)
	if i < 0 {
		i = 8
	}
	return string(b[:i])
}

// Bytes serialises in plain order: header, data, directory at end.
func (w *Wad) Bytes() []byte {
	var buf bytes.Buffer
	m := w.Magic
	if m == [4]byte{} {
		copy(m[:], "PWAD")
	}
	buf.Write(m[:])
	binary.Write(&buf, binary.LittleEndian, uint32(len(w.Lumps)))
	binary.Write(&buf, binary.LittleEndian, uint32(0))
	pos := make([]uint32, len(w.Lumps))
	for i, l := range w.Lumps {
		pos[i] = uint32(buf.Len())
		buf.Write(l.Data)
	}
	dir := uint32(buf.Len())
	for i, l := range w.Lumps {
		binary.Write(&buf, binary.LittleEndian, pos[i])
		binary.Write(&buf, binary.LittleEndian, uint32(len(l.Data)))
		buf.Write(l.Raw[:])
	}
	b := buf.Bytes()
	binary.LittleEndian.PutUint32(b[8:], dir)
	return b
}

// BytesDirFirst puts directory right after header, and optionally pads lumps,
// reverses their physical order and shares identical content.
func (w *Wad) BytesOdd(dirFirst, reverse, pad bool) []byte {
	var buf bytes.Buffer
	m := w.Magic
	if m == [4]byte{} {
		copy(m[:], "PWAD")
	}
	buf.Write(m[:])
	n := len(w.Lumps)
	binary.Write(&buf, binary.LittleEndian, uint32(n))
	binary.Write(&buf, binary.LittleEndian, uint32(12))
	if dirFirst {
		buf.Write(make([]byte, 16*n))
	}
	pos := make([]uint32, n)
	have := map[string]uint32{}
	for k := 0; k < n; k++ {
		i := k
		if reverse {
			i = n - 1 - k
		}
		if pad {
			buf.Write([]byte{0xAA, 0xBB, 0xCC}[:1+k%3])
		}
		pos[i] = uint32(buf.Len())
		if at, ok := have[string(w.Lumps[i].Data)]; ok && w.Share {
			pos[i] = at
			continue
		}
		have[string(w.Lumps[i].Data)] = pos[i]
		buf.Write(w.Lumps[i].Data)
	}
	dir := uint32(12)
	var d bytes.Buffer
	for i, l := range w.Lumps {
		p := pos[i]
		if len(l.Data) == 0 && pad {
			p = []uint32{0, 0, 12, 0x7FFFFFF0, 0xFFFFFFFF}[(i+n)%5] // means nothing
		}
		binary.Write(&d, binary.LittleEndian, p)
		binary.Write(&d, binary.LittleEndian, uint32(len(l.Data)))
		d.Write(l.Raw[:])
	}
	if !dirFirst {
		dir = uint32(buf.Len())
		buf.Write(d.Bytes())
	}
	b := buf.Bytes()
	if dirFirst {
		copy(b[12:], d.Bytes())
	}
	binary.LittleEndian.PutUint32(b[8:], dir)
	return b
}

func ParseWad(b []byte) (*Wad, error) {
	if len(b) < 12 {
		return nil, errors.New("short header")
	}
	w := &Wad{Size: len(b)}
	copy(w.Magic[:], b[:4])
	if s := string(b[:4]); s != "PWAD" && s != "IWAD" {
		return nil, fmt.Errorf("bad magic %q", s)
	}
	n := uint64(binary.LittleEndian.Uint32(b[4:]))
	d := uint64(binary.LittleEndian.Uint32(b[8:]))
	if d+16*n > uint64(len(b)) {
		return nil, fmt.Errorf("directory [%d,+%d entries) outside file of %d bytes", d, n, len(b))
	}
	for i := uint64(0); i < n; i++ {
		e := b[d+16*i:]
		var l Lump
		l.Pos = binary.LittleEndian.Uint32(e)
		sz := binary.LittleEndian.Uint32(e[4:])
		copy(l.Raw[:], e[8:16])
		l.Name = nameOf(l.Raw)
		if sz != 0 {
			if uint64(l.Pos)+uint64(sz) > uint64(len(b)) {
				return nil, fmt.Errorf("lump #%d %q [%d,+%d) outside file of %d bytes", i, l.Name, l.Pos, sz, len(b))
			}
			if l.Pos < 4 {
				return nil, fmt.Errorf("lump #%d %q overlaps header", i, l.Name)
			}
			l.Data = b[l.Pos : uint64(l.Pos)+uint64(sz)]
		}
		w.Lumps = append(w.Lumps, l)
	}
	return w, nil
}

func ReadWad(path string) (*Wad, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return ParseWad(b)
}

var levelLumpNames = map[string]bool{"THINGS": true, "LINEDEFS": true, "SIDEDEFS": true, "VERTEXES": true,
	"SEGS": true, "SSECTORS": true, "NODES": true, "SECTORS": true, "REJECT": true, "BLOCKMAP": true,
	"BEHAVIOR": true, "SCRIPTS": true}

// FindLevel returns index of marker lump and the exclusive end of its block.
func (w *Wad) FindLevel(marker string) (int, int) {
	for i, l := range w.Lumps {
		if strings.EqualFold(l.Name, marker) {
			j := i + 1
			for j < len(w.Lumps) && levelLumpNames[w.Lumps[j].Name] {
				j++
			}
			if j > i+1 {
				return i, j
			}
		}
	}
	return -1, -1
}

// LevelLump returns the named lump of a level (first occurrence) or nil,false.
func (w *Wad) LevelLump(marker, name string) ([]byte, bool) {
	i, j := w.FindLevel(marker)
	if i < 0 {
		return nil, false
	}
	for k := i + 1; k < j; k++ {
		if w.Lumps[k].Name == name {
			return w.Lumps[k].Data, true
		}
	}
	return nil, false
}

// ----- level data

type Vtx struct{ X, Y int }
type Line struct {
	V1, V2 int
	Flags  int
	Action int
	Tag    int // doom only
	Args   [5]byte
	S      [2]int // sidedef numbers or -1
}
type Side struct {
	XOff, YOff   int
	Up, Low, Mid string
	Sector       int
}
type Sect struct {
	Floor, Ceil, Light, Special, Tag int
	FTex, CTex                       string
}
type Thing struct {
	TID, X, Y, Z, Angle, Type, Flags, Special int
	Args                                      [5]byte
}
type Level struct {
	Name     string
	Hexen    bool
	Things   []Thing
	Verts    []Vtx
	Lines    []Line
	Sides    []Side
	Sects    []Sect
	Behavior []byte
	Scripts  []byte
}

func le16(b []byte) int  { return int(int16(binary.LittleEndian.Uint16(b))) }
func leu16(b []byte) int { return int(binary.LittleEndian.Uint16(b)) }

func (lv *Level) LinedefBytes() []byte {
	var b bytes.Buffer
	p := func(v int) { binary.Write(&b, binary.LittleEndian, uint16(v)) }
	for _, l := range lv.Lines {
		p(l.V1)
		p(l.V2)
		p(l.Flags)
		if lv.Hexen {
			b.WriteByte(byte(l.Action))
			b.Write(l.Args[:])
		} else {
			p(l.Action)
			p(l.Tag)
		}
		p(l.S[0])
		p(l.S[1])
	}
	return b.Bytes()
}
func (lv *Level) ThingBytes() []byte {
	var b bytes.Buffer
	p := func(v int) { binary.Write(&b, binary.LittleEndian, uint16(v)) }
	for _, t := range lv.Things {
		if lv.Hexen {
			p(t.TID)
		}
		p(t.X)
		p(t.Y)
		if lv.Hexen {
			p(t.Z)
		}
		p(t.Angle)
		p(t.Type)
		p(t.Flags)
		if lv.Hexen {
			b.WriteByte(byte(t.Special))
			b.Write(t.Args[:])
		}
	}
	return b.Bytes()
}
func (lv *Level) SideBytes() []byte {
	var b bytes.Buffer
	p := func(v int) { binary.Write(&b, binary.LittleEndian, uint16(v)) }
	s := func(n string) { r := mkName(n); b.Write(r[:]) }
	for _, l := range lv.Sides {
		p(l.XOff)
		p(l.YOff)
		s(l.Up)
		s(l.Low)
		s(l.Mid)
		p(l.Sector)
	}
	return b.Bytes()
}
func (lv *Level) VertBytes() []byte {
	var b bytes.Buffer
	for _, v := range lv.Verts {
		binary.Write(&b, binary.LittleEndian, uint16(v.X))
		binary.Write(&b, binary.LittleEndian, uint16(v.Y))
	}
	return b.Bytes()
}
func (lv *Level) SectBytes() []byte {
	var b bytes.Buffer
	p := func(v int) { binary.Write(&b, binary.LittleEndian, uint16(v)) }
	s := func(n string) { r := mkName(n); b.Write(r[:]) }
	for _, l := range lv.Sects {
		p(l.Floor)
		p(l.Ceil)
		s(l.FTex)
		s(l.CTex)
		p(l.Light)
		p(l.Special)
		p(l.Tag)
	}
	return b.Bytes()
}

// AddTo appends the level with empty node/reject/blockmap lumps.
func (lv *Level) AddTo(w *Wad) {
	w.Add(lv.Name, nil)
	w.Add("THINGS", lv.ThingBytes())
	w.Add("LINEDEFS", lv.LinedefBytes())
	w.Add("SIDEDEFS", lv.SideBytes())
	w.Add("VERTEXES", lv.VertBytes())
	w.Add("SEGS", nil)
	w.Add("SSECTORS", nil)
	w.Add("NODES", nil)
	w.Add("SECTORS", lv.SectBytes())
	w.Add("REJECT", nil)
	w.Add("BLOCKMAP", nil)
	if lv.Hexen {
		b := lv.Behavior
		if b == nil {
			b = []byte("ACS\x00\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")
		}
		w.Add("BEHAVIOR", b)
	}
}

func (lv *Level) Wad() *Wad {
	w := &Wad{}
	lv.AddTo(w)
	return w
}

func decodeVerts(b []byte) []Vtx {
	var r []Vtx
	for ; len(b) >= 4; b = b[4:] {
		r = append(r, Vtx{le16(b), le16(b[2:])})
	}
	return r
}
func sideIdx(v int) int {
	if v == 0xFFFF {
		return -1
	}
	return v
}
func decodeLines(b []byte, hexen bool) []Line {
	var r []Line
	sz := 14
	if hexen {
		sz = 16
	}
	for ; len(b) >= sz; b = b[sz:] {
		var l Line
		l.V1, l.V2, l.Flags = leu16(b), leu16(b[2:]), leu16(b[4:])
		if hexen {
			l.Action = int(b[6])
			copy(l.Args[:], b[7:12])
		} else {
			l.Action = leu16(b[6:])
			l.Tag = leu16(b[8:])
		}
		l.S[0], l.S[1] = sideIdx(leu16(b[sz-4:])), sideIdx(leu16(b[sz-2:]))
		r = append(r, l)
	}
	return r
}
func decodeSides(b []byte) []Side {
	var r []Side
	for ; len(b) >= 30; b = b[30:] {
		var n [3][8]byte
		for k := range n {
			copy(n[k][:], b[4+8*k:])
		}
		r = append(r, Side{le16(b), le16(b[2:]), nameOf(n[0]), nameOf(n[1]), nameOf(n[2]), leu16(b[28:])})
	}
	return r
}
func decodeSects(b []byte) []Sect {
	var r []Sect
	for ; len(b) >= 26; b = b[26:] {
		r = append(r, Sect{Floor: le16(b), Ceil: le16(b[2:]), Light: le16(b[20:]), Special: leu16(b[22:]), Tag: leu16(b[24:])})
	}
	return r
}

// DecodeLevel decodes the level's geometry lumps from a WAD.
func DecodeLevel(w *Wad, marker string) (*Level, error) {
	i, j := w.FindLevel(marker)
	if i < 0 {
		return nil, fmt.Errorf("level %s not found", marker)
	}
	lv := &Level{Name: marker}
	m := map[string][]byte{}
	for k := i + 1; k < j; k++ {
		m[w.Lumps[k].Name] = w.Lumps[k].Data
		if w.Lumps[k].Name == "BEHAVIOR" {
			lv.Hexen = true
		}
	}
	lv.Verts = decodeVerts(m["VERTEXES"])
	lv.Lines = decodeLines(m["LINEDEFS"], lv.Hexen)
	lv.Sides = decodeSides(m["SIDEDEFS"])
	lv.Sects = decodeSects(m["SECTORS"])
	for n, l := range lv.Lines {
		if l.V1 >= len(lv.Verts) || l.V2 >= len(lv.Verts) {
			return nil, fmt.Errorf("linedef %d refers to vertex out of range", n)
		}
		for _, s := range l.S {
			if s >= len(lv.Sides) {
				return nil, fmt.Errorf("linedef %d refers to sidedef out of range", n)
			}
		}
	}
	return lv, nil
}

// SectorOf returns the sector on the given side of a line or -1.
func (lv *Level) SectorOf(line, side int) int {
	s := lv.Lines[line].S[side]
	if s < 0 || s >= len(lv.Sides) {
		return -1
	}
	return lv.Sides[s].Sector
}
