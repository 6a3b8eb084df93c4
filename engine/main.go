package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	var o options
	fs.StringVar(&o.repo, "repo", "/repo", "repository under test")
	fs.StringVar(&o.verif, "verif", "/verif", "verification directory")
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&o.only, "only", "", "run a single harness")
	fs.Int64Var(&o.seed, "seed", 1, "seed")
	fs.BoolVar(&o.verbose, "v", false, "verbose")
	fs.StringVar(&o.file, "file", "", "replay file")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(&o))
	case "replay":
		os.Exit(runReplay(&o))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}
