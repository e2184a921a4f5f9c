package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc dev|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func dev(args []string) {
	fl := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	sub := fl.String("h", "", "harness substring")
	pk := fl.String("p", "", "only spec packages with prefix")
	to := fl.Int("t", 20, "seconds per obligation")
	dump := fl.String("dump", "", "directory for failing queries")
	verbose := fl.Bool("v", false, "")
	fl.Parse(args)
	t0 := time.Now()
	var only func(string) bool
	if *pk != "" {
		only = func(d string) bool {
			for _, p := range strings.Split(*pk, ",") {
				if d == p {
					return true
				}
			}
			return false
		}
	}
	V, err := loadProgram(*repo, *verif, only)
	if V != nil {
		defer V.cleanup()
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, d := range V.dropped {
		fmt.Println("DROPPED", d)
	}
	fmt.Printf("loaded in %v, %d harnesses\n", time.Since(t0).Round(time.Millisecond), len(V.order))
	type job struct {
		h *Harness
		r *HResult
	}
	var js []*job
	for _, n := range V.order {
		h := V.hs[n]
		match := *sub == ""
		for _, s := range strings.Split(*sub, ",") {
			if s != "" && strings.Contains(n, s) {
				match = true
			}
		}
		if !match || h.concreteOnly() {
			continue
		}
		js = append(js, &job{h: h})
	}
	done := make(chan *job, len(js))
	sem := make(chan struct{}, 6)
	for _, j := range js {
		j := j
		go func() {
			sem <- struct{}{}
			j.r = V.runHarness(j.h, time.Duration(*to)*time.Second)
			<-sem
			done <- j
		}()
	}
	for range js {
		j := <-done
		r := j.r
		ok, tr := 0, 0
		var bad []*Obligation
		for _, o := range r.Obls {
			if o.Res.ok {
				ok++
			} else {
				bad = append(bad, o)
			}
			if o.Trivial {
				tr++
			}
		}
		st := "OK  "
		if r.Unsup != "" {
			st = "UNSUP"
		} else if len(bad) > 0 {
			st = "FAIL"
		}
		fmt.Printf("%s %-50s obl %d/%d (trivial %d) paths %d loops %d %.1fs %s %s\n", st, r.H.Name, ok, len(r.Obls), tr, r.Paths, r.Loops, r.Wall.Seconds(), r.Unsup, r.Vacuous)
		if *verbose {
			for _, o := range r.Obls {
				fmt.Printf("    [%v %s %.1fs] %s (%s)\n", o.Res.ok, o.Res.solver, o.Res.dur.Seconds(), o.Label, o.Where)
			}
		}
		sort.Slice(bad, func(i, k int) bool { return bad[i].Label < bad[k].Label })
		for i, o := range bad {
			if i < 12 {
				fmt.Printf("    NOT PROVED %q in %s: %s\n", o.Label, o.Where, o.Res.reason)
			}
			if *dump != "" {
				os.MkdirAll(*dump, 0o755)
				os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", sanitize(r.H.Name), i)), []byte(o.Res.file+"(check-sat)\n"), 0o644)
			}
		}
	}
	fmt.Printf("total %v\n", time.Since(t0).Round(time.Millisecond))
}
