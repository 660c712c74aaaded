package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		cmdFn(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func load(repo, specdir string) *World {
	specs, err := loadSpecs(specdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(3)
	}
	// dependencies with functions under contract are verified like the rest
	extra := []string{}
	seen := map[string]bool{}
	for _, k := range sortedKeys(specs.Funcs) {
		f := specs.Funcs[k]
		if !f.Extern && !strings.HasPrefix(f.Pkg, "sigs.k8s.io/instrumentation-tools") && !seen[f.Pkg] {
			seen[f.Pkg] = true
			extra = append(extra, f.Pkg)
		}
	}
	w, err := loadWorld(repo, extra)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(3)
	}
	w.specs = specs
	for _, c := range specs.Chans {
		t, err := w.goType(c.Elem, c.Pkg, c.Imports)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gover: channel:", err)
			continue
		}
		c.T = t
	}
	for _, g := range specs.Guards {
		t, err := w.goType(g.Type, g.Pkg, g.Imports)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gover: guard:", err)
			continue
		}
		w.guards[typeKey(t)+"."+g.Field] = g.Mutex
	}
	return w
}

func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	sd := fs.String("specs", "/verif/contracts", "")
	keep := fs.String("tmp", "/tmp/gover", "")
	verbose := fs.Bool("v", false, "")
	scale := fs.Float64("scale", 1, "")
	noSolve := fs.Bool("nosolve", false, "")
	obRe := fs.String("ob", "", "")
	fs.Parse(args)
	t0 := time.Now()
	w := load(*repo, *sd)
	re := regexp.MustCompile(fs.Arg(0))
	s := newSolver(*keep, 8)
	s.cache = "/tmp/gover-cache"
	s.scale = *scale
	var keys []string
	for k, f := range w.specs.Funcs {
		if re.MatchString(k) && !f.Extern && !f.Inline {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var rs []*Result
	for _, k := range keys {
		rs = append(rs, w.verify(k))
	}
	for k := range w.specs.Lemmas {
		if re.MatchString("lemma " + k) {
			rs = append(rs, w.proveLemma(k))
		}
	}
	bad := 0
	for _, r := range rs {
		fmt.Printf("== %s (%d obligations)\n", r.Key, len(r.Obs))
		if r.Err != "" {
			fmt.Println("   ERROR", r.Err)
			bad++
			continue
		}
		if *noSolve {
			continue
		}
		t := time.Now()
		or := regexp.MustCompile(*obRe)
		s.discharge(r, func(o *Obligation) bool { return or.MatchString(o.Name) })
		for _, o := range r.Obs {
			if o.Result == "" {
				continue
			}
			if o.Result != "proved" && o.Result != "ok" {
				bad++
				fmt.Printf("   FAIL %s [%s] at %s\n        %s\n        %s %s\n", o.Name, o.Result, o.Pos, o.Desc, o.File, trunc(o.Out, 400))
			} else if *verbose {
				fmt.Printf("   ok   %s %s %dms %s\n", o.Name, o.Solver, o.Millis, trunc(o.Desc, 100))
			}
		}
		fmt.Printf("   %.1fs\n", time.Since(t).Seconds())
		if *verbose {
			fmt.Println("   calls:", strings.Join(r.Calls, ", "))
			fmt.Println("   external without contract:", strings.Join(r.Ext, ", "))
			fmt.Println("   inlined:", strings.Join(r.Inlined, ", "))
			for _, n := range r.Notes {
				fmt.Println("   note:", n)
			}
		}
	}
	fmt.Printf("%d problem(s), %.1fs\n", bad, time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}
