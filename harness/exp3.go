package main

import (
	"fmt"
	"os"
	"strconv"
)

func init() {
	tools["explos"] = func(a []string) { // explos n size args...
		n, _ := strconv.Atoi(a[0])
		sz, _ := strconv.Atoi(a[1])
		e := NewEnv("X")
		tot := [5]int{}
		Parallel(n, 8, func(i int) {
			r := e.Rand("los", i)
			o := RandOpt(r, sz)
			if len(a) > 2 && a[2] == "nosame" {
				o.SameLine = 0
			}
			lv := Gen(r, "MAP01", o)
			c := e.NewCase(fmt.Sprint("los", i))
			c.Write("in.wad", lv.Wad().Bytes())
			b := c.Build("in.wad", "out.wad", append([]string{"-n-", "-b-"}, a[3:]...)...)
			if b == nil {
				return
			}
			rej, _ := b.Wad.LevelLump("MAP01", "REJECT")
			N := len(lv.Sects)
			los := NewLOS(lv, nil)
			if v, err := strconv.ParseFloat(os.Getenv("CLEAR"), 64); err == nil {
				los.clear = v
			}
			los.Solve(r, 3e8)
			same := make([]bool, N)
			for _, l := range lv.Lines {
				if l.S[0] >= 0 && l.S[1] >= 0 && lv.Sides[l.S[0]].Sector == lv.Sides[l.S[1]].Sector {
					same[lv.Sides[l.S[0]].Sector] = true
				}
			}
			anyopen := false
			for _, l := range los.lines {
				anyopen = anyopen || (!l.solid && l.f != l.k)
			}
			if N < 2 || !anyopen {
				c.Done()
				return
			}
			bad, extra := 0, 0
			var ex string
			for p := 0; p < N; p++ {
				for q := 0; q < N; q++ {
					h := rejBit(rej, N, p, q)
					if h == 1 && los.sure[p].has(q) {
						bad++
						if bad == 1 {
							ex += fmt.Sprintf(" hidden %d-%d %v", p, q, los.witness[[2]int{p, q}])
						}
					}
					if h == 0 && !los.may[p].has(q) && !same[p] && !same[q] {
						if os.Getenv("PLAIN") != "" && !los.PlainlyHidden(p, q) {
							continue
						}
						extra++
						if extra == 1 {
							ex += fmt.Sprintf(" extra %d-%d", p, q)
						}
					}
				}
			}
			gap := los.MayPairs - los.SurePairs
			e.mu.Lock()
			tot[0] += bad
			if !los.skipMay {
				tot[1] += extra
				tot[2] += gap
				tot[3] += los.MayPairs
			} else {
				tot[4]++
			}
			e.mu.Unlock()
			if bad > 0 || (extra > 0 && !los.skipMay) {
				fmt.Println("case", i, "sectors", N, "lines", len(lv.Lines), "hidden-visible", bad, "extra", extra, "gap", gap, "may", los.MayPairs, ex, optKey(o))
				os.MkdirAll("/tmp/vhx/los", 0o755)
				os.WriteFile(fmt.Sprintf("/tmp/vhx/los/%d.wad", i), lv.Wad().Bytes(), 0o644)
			}
			c.Done()
		})
		fmt.Println("hidden-visible", tot[0], "extra", tot[1], "gap", tot[2], "may", tot[3], "skipped", tot[4])
	}
}
