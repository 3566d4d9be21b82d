package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"sync/atomic"
)

func init() {
	// expside n size optsA... -- optsB...  : compares outputs of -d builds
	tools["exppair"] = func(a []string) {
		n, _ := strconv.Atoi(a[0])
		sz, _ := strconv.Atoi(a[1])
		e := NewEnv("X")
		var diff, tot int64
		var A, B []string
		cur := &A
		for _, x := range a[2:] {
			if x == "--" {
				cur = &B
				continue
			}
			*cur = append(*cur, x)
		}
		Parallel(n, 8, func(i int) {
			r := e.Rand("pair", i)
			lv, k := planarMap(r, sz)
			if os.Getenv("MAXL") != "" {
				m, _ := strconv.Atoi(os.Getenv("MAXL"))
				if len(lv.Lines) > m {
					return
				}
			}
			c := e.NewCase(fmt.Sprint("pair", i))
			defer c.Done()
			c.Write("in.wad", lv.Wad().Bytes())
			x := c.Build("in.wad", "a.wad", append([]string{"-d", "-b-", "-r-"}, A...)...)
			y := c.Build("in.wad", "b.wad", append([]string{"-d", "-b-", "-r-"}, B...)...)
			atomic.AddInt64(&tot, 1)
			if x != nil && y != nil && !bytes.Equal(x.Raw, y.Raw) {
				atomic.AddInt64(&diff, 1)
				fmt.Println("diff", i, len(lv.Lines), k)
				os.WriteFile(fmt.Sprintf("/tmp/zz/pair%d.wad", i), lv.Wad().Bytes(), 0644)
			}
		})
		fmt.Println("total", tot, "diff", diff)
	}
}
