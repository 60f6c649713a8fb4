package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

func init() {
	register(&Check{ID: "XP", Level: "other", Rule: "debug", Run: func(env *Env, r *Result) {
		t := time.Now()
		pt := newPT(env.prog("linux"), 2)
		pt.entries("arfs", "tarfs", "erofs", "memfs")
		fmt.Println("insts", len(pt.order), "objs", len(pt.objs), "vals", len(pt.vals), time.Since(t))
		for _, o := range pt.objs {
			if o.kind == "token" || o.kind == "func" || os.Getenv("PTO") == "" {
				continue
			}
			fmt.Println(o.label)
			var ps []string
			for p := range o.base.nodes {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				var ls []string
				for l := range o.base.nodes[p] {
					ls = append(ls, l.o.label+l.p)
				}
				sort.Strings(ls)
				if len(ls) > 8 {
					ls = append(ls[:8], "...")
				}
				fmt.Println("    ", p, ls)
			}
		}
		r.ok("x", "y", "z")
	}})
}
