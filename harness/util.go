package main

import (
	"fmt"
	"os"
)

func readFile(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return b
}

func mapKey(lv *Level) string {
	return fmt.Sprintf("v%d l%d s%d", len(lv.Verts), len(lv.Lines), len(lv.Sects))
}
