// Command sa decides semantic properties of the archivefs library from its source.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

func main() {
	debug.SetGCPercent(400)
	if d := os.Getenv("SA_REPO"); d != "" { // development only
		repoDir = d
	}
	if d := os.Getenv("SA_VERIF"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: sa CHECK...")
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "list" {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
		return
	}
	if ids[0] == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		if c := runCheck(id); c > code {
			code = c
		}
	}
	os.Exit(code)
}
