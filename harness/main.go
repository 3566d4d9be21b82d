package main

import (
	"fmt"
	"os"
)

var checks = map[string]func(*Env){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh ID | vh gen ...")
		os.Exit(2)
	}
	if f, ok := tools[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	e := NewEnv(os.Args[1])
	f(e)
	os.Exit(e.Finish())
}

var tools = map[string]func([]string){}
