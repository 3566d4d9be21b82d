package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
)

func init() {
	tools["gen"] = func(a []string) { // gen seed size out.wad
		s, _ := strconv.Atoi(a[0])
		sz, _ := strconv.Atoi(a[1])
		r := rand.New(rand.NewSource(int64(s)))
		lv := Gen(r, "MAP01", RandOpt(r, sz))
		os.WriteFile(a[2], lv.Wad().Bytes(), 0o644)
	}
	tools["expnodes"] = func(a []string) { // expnodes n size args...
		os.Setenv("VH_ROOT", "/tmp/vhx")
		n, _ := strconv.Atoi(a[0])
		sz, _ := strconv.Atoi(a[1])
		e := NewEnv("X")
		var mu sync.Mutex
		var g geoStats
		var ss segStats
		Parallel(n, 8, func(i int) {
			r := rand.New(rand.NewSource(int64(i)))
			o := RandOpt(r, sz)
			lv := Gen(r, "MAP01", o)
			c := e.NewCase(fmt.Sprint(i))
			defer c.Done()
			in := c.Write("in.wad", lv.Wad().Bytes())
			args := append(append([]string{}, a[2:]...), in, "-o", "out.wad")
			res := c.Run(args...)
			if res.Exit != 0 || res.Crashed() {
				fmt.Println(i, "exit", res.Exit, tail(res.Out, 600))
				return
			}
			w, err := ReadWad(c.Path("out.wad"))
			if err != nil {
				fmt.Println(i, err)
				return
			}
			b, err := ParseBSP(w, "MAP01")
			if err != nil || b == nil {
				fmt.Println(i, b, err)
				return
			}
			ol, err := DecodeLevel(w, "MAP01")
			if err != nil {
				fmt.Println(i, err)
				return
			}
			if err := b.Structure(ol); err != nil {
				fmt.Println(i, "STRUCT", err)
			}
			var s1 segStats
			if err := b.CheckSegs(ol, func(l, s int) int {
				if ol.Lines[l].S[s] >= 0 {
					return 1
				}
				return 0
			}, nil, &s1); err != nil {
				fmt.Println(i, "SEGS", err)
			}
			var g1 geoStats
			b.Geometry(ol, &g1)
			b.PointLocation(ol, NewLocator(ol, nil), r, 2000, 0.5, &g1, func(x, y float64, want, got int, near float64) {
				if near > 3 {
					fmt.Printf("%d point %g,%g want %d got %d near %g\n", i, x, y, want, got, near)
				}
			})
			mu.Lock()
			defer mu.Unlock()
			if g1.MaxWrong > 3 || g1.MaxConvex > 3 || g1.MaxBox > 0 {
				fmt.Printf("%d %+v\n", i, g1)
			}
			mx := func(a *float64, b float64) {
				if b > *a {
					*a = b
				}
			}
			mx(&g.MaxWrong, g1.MaxWrong)
			mx(&g.MaxBox, g1.MaxBox)
			mx(&g.MaxSlack, g1.MaxSlack)
			mx(&g.MaxConvex, g1.MaxConvex)
			mx(&g.PointFar, g1.PointFar)
			mx(&ss.MaxDev, s1.MaxDev)
			g.PointTests += g1.PointTests
			g.PointBad += g1.PointBad
			ss.Segs += s1.Segs
			ss.Splits += s1.Splits
			if s1.MaxAng > ss.MaxAng {
				ss.MaxAng = s1.MaxAng
			}
			if s1.MaxOff > ss.MaxOff {
				ss.MaxOff = s1.MaxOff
			}
		})
		fmt.Printf("%s: %+v %+v\n", strings.Join(a, " "), g, ss)
	}
}

func init() {
	tools["pan"] = func(a []string) { // pan n size args: summarize crashes
		n, _ := strconv.Atoi(a[0])
		sz, _ := strconv.Atoi(a[1])
		os.Setenv("VH_ROOT", "/tmp/vhx")
		e := NewEnv("X")
		Parallel(n, 8, func(i int) {
			r := rand.New(rand.NewSource(int64(i)))
			lv := Gen(r, "MAP01", RandOpt(r, sz))
			c := e.NewCase(fmt.Sprint(i))
			defer c.Done()
			in := c.Write("in.wad", lv.Wad().Bytes())
			res := c.Run(append(append([]string{}, a[2:]...), in, "-o", "out.wad")...)
			if res.Exit != 0 || res.Crashed() {
				fmt.Println(i, "exit", res.Exit, head(res.Out, 3000))
			}
		})
	}
}
