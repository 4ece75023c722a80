package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check|ssa|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	// the go command is looked up in this process's PATH, not in the environment passed along
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:/usr/local/bin:"+os.Getenv("PATH"))
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	fn := fs.String("fn", "", "substring of the contract's function")
	prop := fs.String("prop", "", "property")
	dump := fs.String("dump", "", "write queries to this directory")
	verbose := fs.Bool("v", false, "verbose")
	tier := fs.String("tier", "", "quick or thorough")
	tl := fs.Duration("t", 10*time.Second, "solver time limit")
	fs.Parse(os.Args[2:])
	v := newVerifier(*repo, *verif)
	v.verbose = *verbose
	v.dumpDir = *dump
	v.tlimit = *tl
	if err := v.specs.Load(filepath.Join(*verif, "specs")); err != nil {
		fmt.Fprintln(os.Stderr, "spec error:", err)
		os.Exit(2)
	}
	switch cmd {
	case "ssa":
		mod := moduleOf(v.specs.expand(*fn))
		if err := v.load(mod, "./..."); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(v.cur.fns) {
			if strings.Contains(k, *fn) || strings.Contains(k, v.specs.expand(*fn)) {
				v.cur.fns[k].WriteTo(os.Stdout)
			}
		}
	case "verify":
		var sps []*FnSpec
		for _, sp := range v.specs.order {
			if sp.kind == "extern" || !strings.Contains(sp.name, *fn) {
				continue
			}
			if sp.kind == "fn" && len(sp.ensures) == 0 && !sp.nopanic && !sp.hasMod {
				continue
			}
			if *prop != "" && !contains(sp.props, *prop) {
				continue
			}
			sps = append(sps, sp)
		}
		sort.SliceStable(sps, func(i, j int) bool { return v.moduleOfSpec(sps[i]) < v.moduleOfSpec(sps[j]) })
		bad := 0
		for _, sp := range sps {
			if err := v.switchModule(v.moduleOfSpec(sp)); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			r := v.verify(sp, nil)
			f := r.failed()
			nv := 0
			for _, c := range r.covers {
				if c.status == "unsat" {
					nv++
				}
			}
			st := "ok"
			if len(f) > 0 || r.err != "" || nv > 0 {
				st = "FAIL"
				bad++
			}
			fmt.Printf("%-4s %s: %d obligations, %d failed, %d invs, %d rounds, %d ms %s\n", st, shortFn(sp.name), len(r.obls), len(f), len(r.invs), r.rounds, r.ms, r.err)
			for _, o := range f {
				fmt.Printf("     %s [%s %s %dms] %s\n", o.name, o.status, o.solver, o.ms, o.where)
			}
			for _, c := range r.covers {
				if c.status == "unsat" {
					fmt.Printf("     VACUOUS: %s\n", c.name)
				}
			}
			if *verbose || st == "FAIL" {
				for _, n := range r.notes {
					fmt.Println("     note:", n)
				}
			}
			for _, n := range r.specErrs {
				fmt.Println("     spec:", n)
			}
			if *verbose {
				for _, o := range r.obls {
					fmt.Printf("     . %s [%s %s %dms]\n", o.name, o.status, o.solver, o.ms)
				}
				for _, o := range r.invs {
					fmt.Printf("     i %s [%s %dms]\n", o.name, o.status, o.ms)
				}
				fmt.Println("     inlined:", sortedKeys(r.inlined))
				fmt.Println("     trusted:", sortedKeys(r.trusted))
			}
		}
		fmt.Printf("%d contracts, %d bad\n", len(sps), bad)
		if bad > 0 {
			os.Exit(1)
		}
	case "check":
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier == "" {
			*tier = "quick"
		}
		os.Exit(runCheck(v, *prop, *tier))
	case "replay":
		os.Exit(runReplay(v, *prop))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func contains(a []string, s string) bool {
	for _, b := range a {
		if b == s {
			return true
		}
	}
	return false
}
