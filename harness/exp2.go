package main

import (
	"fmt"
	"math"
	"os"
)

func init() {
	tools["segdev"] = func(a []string) { // segdev out.wad MAP01
		w, err := ReadWad(a[0])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		b, _ := ParseBSP(w, a[1])
		lv, _ := DecodeLevel(w, a[1])
		for k, s := range b.Segs {
			l := lv.Lines[s.Line]
			v1, v2 := l.V1, l.V2
			if s.Side == 1 {
				v1, v2 = v2, v1
			}
			p1, p2 := lv.Verts[v1], lv.Verts[v2]
			dx, dy := float64(p2.X-p1.X), float64(p2.Y-p1.Y)
			ll := math.Hypot(dx, dy)
			d := func(p PV) float64 {
				return ((p.X-float64(p1.X))*dy - (p.Y-float64(p1.Y))*dx) / ll
			}
			A, Z := b.Verts[s.V1], b.Verts[s.V2]
			if math.Abs(d(A)) > 3 || math.Abs(d(Z)) > 3 {
				fmt.Println("seg", k, "line", s.Line, "side", s.Side, p1, p2, "seg", A, Z, "dev", d(A), d(Z))
			}
		}
	}
}
