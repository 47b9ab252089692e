// Command gosym decides the properties of /verif by symbolic execution of the
// real code in /repo.
package main

import (
	"flag"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"

	"verif/engine/sym"
)

func main() {
	var o sym.Opts
	flag.StringVar(&o.ID, "id", "", "property")
	flag.StringVar(&o.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.Verif, "verif", "/verif", "framework")
	flag.StringVar(&o.Repo, "repo", "/repo", "repository")
	flag.StringVar(&o.EntryRE, "entry", "", "only harness functions that match")
	flag.BoolVar(&o.Verbose, "v", false, "verbose")
	flag.BoolVar(&o.Profile, "profile", false, "branch profile")
	flag.BoolVar(&o.First, "first", false, "stop at the first violation")
	flag.StringVar(&o.Evidence, "evidence", "", "directory of the evidence file (default: the framework's)")
	flag.BoolVar(&o.NoReplay, "noreplay", false, "no native replay")
	flag.IntVar(&o.TimeS, "time", 0, "seconds")
	flag.IntVar(&o.Workers, "workers", 8, "workers")
	rep := flag.String("replay", "", "replay a recorded counterexample")
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.Parse()
	o.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(200)
	debug.SetMaxStack(4 << 30)
	if *rep != "" {
		os.Exit(sym.Replay(o, *rep))
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	c := sym.Check(o)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(c)
}
