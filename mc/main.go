// Command mc model-checks inklabs/rangedb; see /verif/DESIGN.md.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"verifmc/explore"
	_ "verifmc/h"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check PROP | worker PROP | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		explore.Worker(os.Args[2])
	case "replay1":
		explore.Replay1(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		os.Exit(explore.Replay(os.Args[2]))
	case "list":
		if len(os.Args) > 2 && os.Args[2] == "-v" { // for tools/gen_design.py
			explore.Describe(os.Stdout)
			return
		}
		for _, id := range explore.IDs() {
			fmt.Println(id)
		}
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		dir := fs.String("dir", "/verif", "")
		only := fs.String("only", "", "run one harness")
		workers := fs.Int("workers", 0, "")
		bound := fs.Int("bound", -1, "")
		keep := fs.Bool("keep", false, "continue after a violation")
		verbose := fs.Bool("v", false, "")
		dl := fs.Int("deadline", explore.Tier(420, 780), "seconds")
		_ = fs.Parse(os.Args[3:])
		os.Exit(explore.Check(explore.Options{Dir: *dir, Prop: os.Args[2], Only: *only, Workers: *workers, Bound: *bound,
			Keep: *keep, Verbose: *verbose, Deadline: time.Duration(*dl) * time.Second}))
	}
}
