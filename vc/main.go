package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	if f := os.Getenv("VC_PROF"); f != "" { // development
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vc check|verify|funcs ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "funcs":
		u := loadUnit(os.Args[2])
		p, err := loadProg(u.packages, "/opt/vp/go.work")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, f := range p.funcs {
			fmt.Println(funcKey(f))
		}
	case "ssa":
		u := loadUnit(os.Args[2])
		p, err := loadProg(u.packages, "/opt/vp/go.work")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.funcByKey[os.Args[3]].WriteTo(os.Stdout)
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdVerify is the developer's view: run one contract file and print everything.
func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	filter := fs.String("f", "", "function filter")
	verbose := fs.Bool("v", false, "print every obligation")
	dump := fs.String("dump", "", "dump SMT of failing obligations to this directory")
	limit := fs.Int("t", 10, "seconds per solver")
	fs.Parse(args)
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fatal); ok {
				fmt.Println("fatal:", f.msg)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	solveLimit = time.Duration(*limit) * time.Second
	u := loadUnit(fs.Arg(0))
	t0 := time.Now()
	p, err := loadProg(u.packages, "/opt/vp/go.work")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded %d functions in %.1fs\n", len(p.funcs), time.Since(t0).Seconds())
	rs := verifyUnit(u, p, *filter)
	if len(u.lemmas) > 0 {
		rs = append(rs, verifyLemmas(u, p))
	}
	nf, no := 0, 0
	for _, r := range rs {
		bad := 0
		for _, o := range r.obls {
			if o.res.status != "unsat" {
				bad++
			}
		}
		fmt.Printf("%-60s obl=%d bad=%d paths=%d finals=%d cover=%s rounds=%d %.1fs\n", r.key, len(r.obls), bad, r.paths, r.finals, r.cover, r.rounds, r.secs)
		if len(r.unreached) > 0 {
			fmt.Printf("   UNREACHED bad=? %v\n", r.unreached)
		}
		no += len(r.obls)
		nf += bad
		seen := map[string]int{}
		for i, o := range r.obls {
			if o.res.status != "unsat" {
				seen[o.name]++
				if seen[o.name] > 2 && !*verbose {
					continue
				}
				fmt.Printf("   FAIL %s [%s] at %s: %s | %s\n", o.name, o.res.status, o.pos, o.clause, firstLines(o.res.output, 2))
				if n := len(o.trace); n > 0 {
					k := n - 14
					if k < 0 {
						k = 0
					}
					fmt.Printf("        trace %v\n", o.trace[k:])
				}
				if *dump != "" && o.goal != nil {
					os.MkdirAll(*dump, 0o755)
					fn := fmt.Sprintf("%s/%d.txt", *dump, i)
					s := "goal: " + o.goal.String() + "\n"
					for _, a := range o.pc {
						s += a.String() + "\n"
					}
					if o.piece != "" {
						os.WriteFile(fn+".piece", []byte(o.piece), 0o644)
					}
					os.WriteFile(fn, []byte(s+"\nMODEL\n"+o.res.model), 0o644)
				}
			} else if *verbose {
				fmt.Printf("   ok   %s (%s %.2fs) %s\n", o.name, o.res.solver, o.res.secs, o.clause)
			}
		}
		if *verbose {
			fmt.Println("   autos:", r.autos)
			fmt.Println("   inlined:", keys(r.inlined))
			fmt.Println("   pure:", keys(r.pure))
		}
	}
	fmt.Printf("total obligations %d, failing %d, %.1fs\n", no, nf, time.Since(t0).Seconds())
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
