package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|verify|list|worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		fs := flag.NewFlagSet("verify", flag.ExitOnError)
		re := fs.String("f", ".", "contract name regexp")
		to := fs.Duration("t", 20*time.Second, "obligation timeout")
		ct := fs.Duration("ct", time.Second, "candidate timeout")
		par := fs.Int("p", 8, "parallel solver calls")
		cache := fs.String("cache", "", "development result cache")
		fs.BoolVar(&debug, "d", false, "debug")
		fs.BoolVar(&debugInv, "di", false, "print invariants")
		fs.BoolVar(&noRetry, "nr", false, "no second pass")
		fs.Parse(os.Args[2:])
		cacheDir = *cache
		if cacheDir != "" {
			os.MkdirAll(cacheDir, 0o755)
		}
		p, err := Load()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range sortedKeys(p.dropped) {
			fmt.Printf("DROPPED %s: %s\n", n, p.dropped[n])
		}
		rx := regexp.MustCompile(*re)
		bad := 0
		base := snapshotGlobals()
		for _, c := range p.list {
			if !rx.MatchString(c.Name) {
				continue
			}
			base.restore(p)
			r := verify(p, c, budget{*to, *ct}, *par)
			printReport(r)
			for _, o := range r.Obls {
				if !o.OK {
					bad++
				}
			}
			if r.Error != "" {
				bad++
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "worker":
		workerMain()
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("property", "", "property id")
		tier := fs.String("tier", "quick", "quick or thorough")
		fs.Parse(os.Args[2:])
		if t := os.Getenv("VERIF_TIER"); t == "thorough" {
			*tier = t
		}
		os.Exit(checkMain(*prop, *tier))
	case "replay": // contracts as oracles on generated inputs (development)
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		re := fs.String("f", ".", "contract name regexp")
		seed := fs.Int("seed", 1, "seed")
		fs.Parse(os.Args[2:])
		os.Setenv("GOVC_DEBUG", "1")
		p, err := Load()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rx := regexp.MustCompile(*re)
		var names []string
		for _, c := range p.list {
			if rx.MatchString(c.Name) {
				names = append(names, c.Name)
			}
		}
		for len(names) > 0 {
			n := min(len(names), 24)
			replayContracts(p, names[:n], *seed, 6)
			names = names[n:]
		}
	case "list":
		p, err := Load()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, c := range p.list {
			fmt.Println(c.Name, "->", p.short(c.Target), c.Props)
		}
		for _, n := range sortedKeys(p.dropped) {
			fmt.Printf("DROPPED %s: %s\n", n, p.dropped[n])
		}
	}
}

func printReport(r *FnReport) {
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		}
	}
	fmt.Printf("%-50s %d/%d obligations, %d/%d invariants, %.1fs (solver %.1fs, %d calls) %v\n", r.Contract, ok, len(r.Obls), r.Invs, r.InvTried, r.Secs, r.SolverS, r.Calls, r.Props)
	if r.Error != "" {
		fmt.Printf("   ERROR %s\n", r.Error)
	}
	for _, o := range r.Obls {
		if !o.OK {
			fmt.Printf("   FAIL %s %s at %s: %s (%s)\n", o.Kind, o.Name, o.Pos, o.Status, o.Solver)
		}
	}
	if debug {
		for _, n := range r.Notes {
			fmt.Printf("   note %s\n", n)
		}
	}
}
