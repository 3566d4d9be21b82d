package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"
)

func init() {
	checks["C23"] = chkHostile
}

// memLimit: address space the tool may take on the small inputs used here.
const memLimit = 6 << 30

func limited(o RunOpt) RunOpt {
	if p, err := exec.LookPath("prlimit"); err == nil {
		o.Prefix = []string{p, fmt.Sprintf("--as=%d", int64(memLimit)), "--core=0"}
	}
	if o.Timeout == 0 {
		o.Timeout = 60 * time.Second
	}
	return o
}

var frameRe = regexp.MustCompile(`(?m)^main\.([^\s(]*(?:\(\*[A-Za-z]+\)[^\s(]*)?)\(`)

// crashSig names the place a crash happened.
func crashSig(out string) string {
	kind := "crash"
	if strings.Contains(out, "fatal error: all goroutines are asleep") {
		return "crash:deadlock"
	}
	i := strings.Index(out, "panic:")
	if i < 0 {
		if i = strings.Index(out, "fatal error:"); i < 0 {
			return kind
		}
	}
	for _, m := range frameRe.FindAllStringSubmatch(out[i:], -1) {
		if m[1] != "(*MyLogger).Panic" && m[1] != "main" {
			return kind + ":" + m[1]
		}
	}
	return kind
}

// hostileArgs draws options over all builders.
func hostileArgs(r *rand.Rand) []string {
	a := wadArgs(r)
	if r.Intn(6) == 0 {
		a = append(a, "-v")
	}
	if r.Intn(8) == 0 {
		a = append(a, "--hashlump")
	}
	return a
}

// ---- damage to the container

func damageFile(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	le := binary.LittleEndian
	n := len(b)
	dir := int(le.Uint32(b[8:]))
	cnt := int(le.Uint32(b[4:]))
	odd := func() uint32 {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return 0xffffffff
		case 2:
			return 0x7fffffff
		case 3:
			return 0x80000000
		case 4:
			return uint32(n)
		case 5:
			return uint32(n - r.Intn(40))
		case 6:
			return uint32(r.Intn(n))
		}
		return r.Uint32()
	}
	var desc []string
	for k := 1 + r.Intn(2); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			v := odd()
			le.PutUint32(b[4:], v)
			desc = append(desc, fmt.Sprintf("lumpcount=%#x", v))
		case 1:
			v := odd()
			le.PutUint32(b[8:], v)
			desc = append(desc, fmt.Sprintf("dirstart=%#x", v))
		case 2:
			t := r.Intn(n + 1)
			if r.Intn(3) == 0 {
				t = r.Intn(30)
			}
			if t < len(b) {
				b = b[:t]
			}
			desc = append(desc, fmt.Sprintf("truncated=%d", t))
		case 3, 4: // a directory entry
			if cnt > 0 && dir+16*cnt <= len(b) {
				i := r.Intn(cnt)
				f := r.Intn(2)
				v := odd()
				le.PutUint32(b[dir+16*i+4*f:], v)
				desc = append(desc, fmt.Sprintf("entry%d.%d=%#x", i, f, v))
			}
		case 5: // a name
			if cnt > 0 && dir+16*cnt <= len(b) {
				i := r.Intn(cnt)
				j := r.Intn(cnt)
				if r.Intn(2) == 0 {
					r.Read(b[dir+16*i+8 : dir+16*i+16])
				} else {
					copy(b[dir+16*i+8:dir+16*i+16], b[dir+16*j+8:dir+16*j+16])
				}
				desc = append(desc, fmt.Sprintf("name%d", i))
			}
		case 6: // swap two entries
			if cnt > 1 && dir+16*cnt <= len(b) {
				i, j := r.Intn(cnt), r.Intn(cnt)
				var t [16]byte
				copy(t[:], b[dir+16*i:])
				copy(b[dir+16*i:], b[dir+16*j:dir+16*j+16])
				copy(b[dir+16*j:], t[:])
				desc = append(desc, fmt.Sprintf("swap%d,%d", i, j))
			}
		case 7:
			if len(b) > 0 {
				for q := 1 + r.Intn(6); q > 0; q-- {
					b[r.Intn(len(b))] = byte(r.Intn(256))
				}
				desc = append(desc, "bytes")
			}
		}
		if len(b) < 12 {
			break
		}
	}
	return b, strings.Join(desc, " ")
}

// ---- damage to one level

func badIdx(r *rand.Rand, n int) int {
	switch r.Intn(6) {
	case 0:
		return n
	case 1:
		return 0xffff
	case 2:
		return 0xfffe
	case 3:
		return 0x8000
	case 4:
		return n + r.Intn(50)
	}
	return r.Intn(65536)
}

// damageLevel changes the level's data in a hostile way.
func damageLevel(r *rand.Rand, it *mwItem) string {
	lv := *it.Lv
	lv.Lines = append([]Line{}, lv.Lines...)
	lv.Sides = append([]Side{}, lv.Sides...)
	lv.Verts = append([]Vtx{}, lv.Verts...)
	lv.Things = append([]Thing{}, lv.Things...)
	lv.Sects = append([]Sect{}, lv.Sects...)
	var desc []string
	say := func(f string, a ...interface{}) { desc = append(desc, fmt.Sprintf(f, a...)) }
	line := func() *Line {
		if len(lv.Lines) == 0 {
			lv.Lines = append(lv.Lines, Line{})
		}
		return &lv.Lines[r.Intn(len(lv.Lines))]
	}
	raw := map[string]func([]byte) []byte{}
	many := func() int {
		if r.Intn(3) == 0 {
			return 1 + r.Intn(20)
		}
		return 1 + r.Intn(2)
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		switch r.Intn(24) {
		case 0:
			for q := many(); q > 0; q-- {
				l := line()
				v := badIdx(r, len(lv.Verts))
				if r.Intn(2) == 0 {
					l.V1 = v
				} else {
					l.V2 = v
				}
			}
			say("line vertex out of range")
		case 1:
			for q := many(); q > 0; q-- {
				l := line()
				v := badIdx(r, len(lv.Sides))
				if r.Intn(2) == 0 {
					l.S[0] = v
				} else {
					l.S[1] = v
				}
			}
			say("line side out of range")
		case 2:
			if len(lv.Sides) > 0 {
				for q := many(); q > 0; q-- {
					lv.Sides[r.Intn(len(lv.Sides))].Sector = badIdx(r, len(lv.Sects))
				}
			}
			say("side sector out of range")
		case 3:
			for q := many(); q > 0; q-- {
				l := line()
				l.V2 = l.V1
			}
			say("zero-length line")
		case 4:
			for q := many(); q > 0; q-- {
				l := line()
				l.S = [2]int{-1, -1}
			}
			say("line without sides")
		case 5:
			for q := many(); q > 0; q-- {
				l := line()
				l.S[1] = l.S[0]
				l.S[0] = -1
			}
			say("line with back side only")
		case 6:
			for q := many(); q > 0; q-- {
				l := *line()
				if r.Intn(2) == 0 {
					l.V1, l.V2 = l.V2, l.V1
				}
				lv.Lines = append(lv.Lines, l)
			}
			say("duplicate lines")
		case 7:
			for q := many(); q > 0; q-- {
				l := *line()
				l.V1 = r.Intn(len(lv.Verts) + 1)
				l.V2 = r.Intn(len(lv.Verts) + 1)
				if len(lv.Verts) > 0 {
					l.V1 %= len(lv.Verts)
					l.V2 %= len(lv.Verts)
				}
				lv.Lines = append(lv.Lines, l)
			}
			say("random crossing lines")
		case 8:
			for q := many(); q > 0 && len(lv.Lines) > 0; q-- {
				i := r.Intn(len(lv.Lines))
				lv.Lines = append(lv.Lines[:i:i], lv.Lines[i+1:]...)
			}
			say("lines removed (leaky sectors)")
		case 9:
			for q := many(); q > 0 && len(lv.Verts) > 0; q-- {
				ext := []int{-32768, 32767, -32767, 0}
				lv.Verts[r.Intn(len(lv.Verts))] = Vtx{ext[r.Intn(4)], ext[r.Intn(4)]}
			}
			say("extreme vertices")
		case 10:
			for i := range lv.Verts {
				switch r.Intn(2) {
				case 0:
					lv.Verts[i] = lv.Verts[0]
				}
			}
			say("coincident vertices")
		case 11:
			for i := range lv.Verts {
				lv.Verts[i].Y = lv.Verts[0].Y
			}
			say("collinear map")
		case 12:
			lv.Lines = nil
			say("no lines")
		case 13:
			lv.Sides = nil
			say("no sides")
		case 14:
			lv.Sects = nil
			say("no sectors")
		case 15:
			lv.Verts = nil
			say("no vertices")
		case 16:
			if len(lv.Lines) > 0 {
				lv.Lines = lv.Lines[:1+r.Intn(min(3, len(lv.Lines)))]
			}
			say("few lines")
		case 17: // swap sides so that sectors leak
			for q := many(); q > 0; q-- {
				l := line()
				l.S[0], l.S[1] = l.S[1], l.S[0]
			}
			say("flipped sides")
		case 18:
			for i := range lv.Sides {
				if r.Intn(2) == 0 && len(lv.Sects) > 0 {
					lv.Sides[i].Sector = r.Intn(len(lv.Sects))
				}
			}
			say("shuffled sectors")
		case 19: // hostile specials
			for q := 1 + r.Intn(20); q > 0; q-- {
				l := line()
				l.Action = []int{48, 1048, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1, 5, 65535}[r.Intn(12)]
				l.Tag = []int{0, 1, 2, 3, 100, 998, 999, 1000, 65535, 900, 32768}[r.Intn(11)]
				for z := range l.Args {
					l.Args[z] = byte(r.Intn(256))
				}
				if it.Lv.Hexen && r.Intn(2) == 0 {
					l.Action = 1 + r.Intn(9)
				}
			}
			say("hostile specials")
		case 20: // polyobject spots
			for q := 1 + r.Intn(8); q > 0; q-- {
				t := Thing{X: r.Intn(65536) - 32768, Y: r.Intn(65536) - 32768, Angle: r.Intn(5), Type: []int{3000, 3001, 3002, 9300, 9301, 9302}[r.Intn(6)], Flags: 7}
				if r.Intn(2) == 0 && len(lv.Verts) > 0 {
					v := lv.Verts[r.Intn(len(lv.Verts))]
					t.X, t.Y = v.X, v.Y
				}
				lv.Things = append(lv.Things, t)
			}
			say("polyobject spots")
		case 21: // sizes that are no multiple of the record
			n := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}[r.Intn(5)]
			c := 1 + r.Intn(13)
			raw[n] = func(b []byte) []byte {
				if len(b) < c {
					return b[:len(b)/2]
				}
				return b[:len(b)-c]
			}
			say("%s cut by %d bytes", n, c)
		case 22: // random contents
			n := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS", "BEHAVIOR"}[r.Intn(6)]
			sz := r.Intn(600)
			if r.Intn(2) == 0 {
				sz = -1
			}
			seed := r.Int63()
			raw[n] = func(b []byte) []byte {
				q := rand.New(rand.NewSource(seed))
				if sz >= 0 {
					return rndBytes(q, sz)
				}
				b = append([]byte{}, b...)
				for t := 1 + q.Intn(8); t > 0 && len(b) > 0; t-- {
					b[q.Intn(len(b))] = byte(q.Intn(256))
				}
				return b
			}
			say("%s random (%d)", n, sz)
		case 23: // wrong format
			raw["BEHAVIOR"] = nil
			say("format flag toggled")
		}
	}
	var ls []Lump
	sawB := false
	for _, l := range it.Lumps {
		d := l.Data
		switch l.Name {
		case "THINGS":
			d = lv.ThingBytes()
		case "LINEDEFS":
			d = lv.LinedefBytes()
		case "SIDEDEFS":
			d = lv.SideBytes()
		case "VERTEXES":
			d = lv.VertBytes()
		case "SECTORS":
			d = lv.SectBytes()
		}
		if f, ok := raw[l.Name]; ok && l.Name != it.Name {
			if l.Name == "BEHAVIOR" {
				sawB = true
			}
			if f == nil {
				continue
			}
			d = f(d)
		}
		l.Data = d
		ls = append(ls, l)
	}
	if f, ok := raw["BEHAVIOR"]; ok && f == nil && !sawB {
		ls = append(ls, L("BEHAVIOR", []byte("ACS\x00")))
	}
	it.Lumps = ls
	return strings.Join(desc, ", ")
}

// hostileRun runs and classifies. Returns output if it succeeded.
func hostileRun(c *Case, in []byte, args []string, what string) *Wad {
	inplace := len(args)%3 == 0
	full := append(append([]string{}, args...), "in.wad")
	outf := "in.wad"
	if !inplace {
		full = append(full, "-o", "out.wad")
		outf = "out.wad"
	} else {
		keep := []string{}
		for _, a := range full {
			if a != "--eject" {
				keep = append(keep, a)
			}
		}
		full = keep
	}
	res := c.RunX(limited(RunOpt{}), full...)
	if res.Timeout {
		c.Violate("timeout", "%s: still running after the limit", what)
		return nil
	}
	if res.Crashed() {
		c.Violate(crashSig(res.Out), "%s: crashed (exit %d %s) args %v: %s", what, res.Exit, res.Sig, args, crashHead(res.Out))
		return nil
	}
	if res.Exit != 0 {
		c.E.Count("refused", 1)
		if len(strings.TrimSpace(res.Out)) == 0 {
			c.Violate("silent", "%s: status %d without any message", what, res.Exit)
		}
		if inplace && !bytes.Equal(readFile(c.Path("in.wad")), in) {
			c.Violate("input", "%s: run failed with status %d but the input file was changed", what, res.Exit)
		}
		ents, _ := os.ReadDir(c.Dir)
		for _, en := range ents {
			if strings.HasPrefix(en.Name(), "tmp") {
				c.Violate("temp", "%s: run failed with status %d and left %s behind", what, res.Exit, en.Name())
			}
		}
		return nil
	}
	c.E.Count("built", 1)
	if !inplace && !bytes.Equal(readFile(c.Path("in.wad")), in) {
		c.Violate("input", "%s: the input file was changed although -o was given", what)
	}
	w, err := ParseWad(readFile(c.Path(outf)))
	if err != nil {
		c.Violate("wad", "%s: status 0 but output is no valid WAD: %v (args %v)", what, err, args)
		return nil
	}
	return w
}

func chkHostile(e *Env) {
	e.rule = "container damage: header/directory fields, truncation, bytes; level damage: one level of a multi-level WAD damaged in structured ways, other levels must come out as from the undamaged WAD"
	e.assume = []string{"runs limited to 60 s and 6 GB of address space on inputs below 1 MB"}
	// 1. the container
	n := e.N(1200, 20000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("file", i)
		c := e.NewCase(fmt.Sprintf("file %d", i))
		defer c.Done()
		m := genMulti(r, mwOpt{MaxLevels: 2, Size: 1})
		b, desc := damageFile(r, oddBytes(r, m.Wad()))
		args := hostileArgs(r)
		c.Write("in.wad", b)
		hostileRun(c, b, args, desc)
		e.Count("container cases", 1)
		e.Eval("file:" + desc)
	})
	// 2. one damaged level
	n = e.N(2200, 40000)
	Parallel(n, 0, func(i int) {
		if e.TooMany() {
			return
		}
		r := e.Rand("level", i)
		c := e.NewCase(fmt.Sprintf("level %d", i))
		defer c.Done()
		m := genMulti(r, mwOpt{MaxLevels: 3, Size: 1, OnlyValid: true})
		var cand []int
		for k, it := range m.Items {
			if it.Kind == 'L' {
				cand = append(cand, k)
			}
		}
		good := m.Wad().Bytes()
		k := cand[r.Intn(len(cand))]
		bad := *m
		bad.Items = append([]mwItem{}, m.Items...)
		desc := damageLevel(r, &bad.Items[k])
		args := hostileArgs(r)
		if !has(args, "-d") {
			args = append(args, "-d")
		}
		in := bad.Wad().Bytes()
		c.Write("in.wad", in)
		w := hostileRun(c, in, args, desc)
		e.Count("level cases", 1)
		e.Eval("level:" + desc)
		if w == nil {
			return
		}
		if len(cand) == 1 && len(m.Items) == 1 {
			return
		}
		exp := bad.Expect(all, false)
		// a level it can not build may also be passed through unchanged
		alt := bad
		alt.Items = append([]mwItem{}, bad.Items...)
		alt.Items[k].Kind = 'I'
		expAlt := alt.Expect(all, false)
		if err := compareDir(w, exp); err != nil {
			if err2 := compareDir(w, expAlt); err2 != nil {
				c.Violate("dir", "%s: %v (args %v)", desc, err, args)
				return
			}
			exp = expAlt
		}
		c.Write("in.wad", good)
		bt := c.Build("in.wad", "good.wad", args...)
		if bt == nil {
			return
		}
		ge := m.Expect(all, false)
		for q := range m.Items {
			if q == k {
				continue
			}
			a, b := itemWad(w, exp, q), itemWad(bt.Wad, ge, q)
			if len(a.Lumps) != len(b.Lumps) {
				c.Violate("dir", "%s: item %d differs in lumps", desc, q)
				return
			}
			for z := range a.Lumps {
				if !bytes.Equal(a.Lumps[z].Data, b.Lumps[z].Data) {
					c.Write("in.wad", in)
					c.Violate("spill", "%s in %s: lump %s of %s comes out different than without the damage (args %v)", desc, m.Items[k].Name, a.Lumps[z].Name, m.Items[q].Name, args)
					return
				}
			}
			e.Count("bystander items compared", 1)
		}
	})
}
