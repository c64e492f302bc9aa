package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: an PROPERTY")
		os.Exit(2)
	}
	rc := 0
	for _, id := range os.Args[1:] {
		found := false
		for _, d := range checks {
			if d.id != id {
				continue
			}
			found = true
			start := time.Now()
			r, err := loadRepo(root)
			c := newCheck(id, r)
			c.start = start
			if err != nil {
				c.fail("load", root, "%v", err)
			} else {
				c.guard("analysis", id, func() { d.run(c) })
			}
			if n := c.finish(dir, d.explain); n > rc {
				rc = n
			}
		}
		if !found {
			fmt.Println("unknown property", id)
			rc = 2
		}
	}
	os.Exit(rc)
}
