package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"time"
)

// checks maps a property id to its checker.
var checks = map[string]func(p *Program, tier string) *Result{}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	t0 := time.Now()
	p, err := Load(*repo)
	if err != nil {
		fmt.Println("error: cannot analyse the package:", err)
		os.Exit(2)
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if checks[*prop] == nil {
		fmt.Println("error: no check for", *prop)
		os.Exit(2)
	} else {
		ids = []string{*prop}
	}
	rc := 0
	for _, id := range ids {
		t1 := t0
		if *prop == "all" {
			t1 = time.Now()
		}
		r := checks[id](p, *tier)
		cmd := fmt.Sprintf("bash check.sh %s %s", id, *tier)
		if c := finish(r, *verif, *tier, cmd, t1); c > rc {
			rc = c
		}
	}
	os.Exit(rc)
}
