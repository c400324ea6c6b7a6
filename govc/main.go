package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

var patterns = []string{"./internals/...", "./pkg/..."}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|verify|dump ...")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
}

func setup(repo, contracts, prop string, workers int) (*Program, *Contracts, *Pool, error) {
	P, err := LoadProgram(repo, patterns)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("loading %s: %v", repo, err)
	}
	C, err := LoadContracts(P, contracts, prop)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("contracts: %v", err)
	}
	P.Analyse(C)
	pool := NewPool(workers)
	P.runInits(C, pool)
	if err := C.computeRecRegions(P, pool); err != nil {
		return nil, nil, nil, err
	}
	return P, C, pool, nil
}

// verify: developer command.
func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	only := fs.String("fn", "", "only this contract key")
	ms := fs.Int("ms", 5000, "")
	dump := fs.String("dump", "", "directory for failing queries")
	fs.Parse(args)
	t0 := time.Now()
	P, C, pool, err := setup(*repo, *con, *prop, 8)
	if err != nil {
		fmt.Println(err)
		return
	}
	defer pool.Close()
	fmt.Printf("loaded in %v\n", time.Since(t0))
	for _, e := range P.init.errs {
		fmt.Println("  ", e)
	}
	V := &Verifier{P: P, C: C, pool: pool, prop: *prop, ms: *ms, unitBudget: 10 * time.Minute, cache: map[string]*UnitResult{}, verbose: true, noContract: map[string]bool{}}
	var rs []*UnitResult
	if *only != "" {
		ct := C.ByKey[*only]
		if ct == nil {
			fmt.Println("no contract")
			return
		}
		us, err := V.units(ct)
		if err != nil {
			fmt.Println(err)
			return
		}
		for _, u := range us {
			r := V.run(u)
			fmt.Printf("  generated %-60s %4d obligations, %d returns, %d invariants, %d steps, %d ms %s\n", r.name, len(r.vcs), r.returns, r.invs, r.steps, r.genMs, r.err)
			rs = append(rs, r)
		}
		V.discharge(rs)
	} else {
		var dropped, errs []string
		rs, dropped, errs = V.verifyAll()
		fmt.Println("dropped helpers:", dropped)
		for _, e := range errs {
			fmt.Println("ERR", e)
		}
	}
	n, ok := 0, 0
	for _, r := range rs {
		slow := int64(0)
		for i, vc := range r.vcs {
			n++
			if vc.Res == Unsat {
				ok++
			}
			if vc.ms > slow {
				slow = vc.ms
			}
			if vc.Res != Unsat {
				fmt.Printf("FAIL %s %s %s %s [%s %s %dms]\n   path: %s\n   goal: %s\n", r.name, vc.Kind, vc.Clause, vc.Where, vc.Res, vc.By, vc.ms, strings.Join(vc.Path, "; "), vc.Goal.show(9))
				if *dump != "" {
					ex := &Exec{P: P, C: C, pool: pool, prop: *prop, closures: map[*Term]Val{}, used: map[string]bool{}}
					os.MkdirAll(*dump, 0755)
					os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(r.name), i)), []byte(printQuery(ex.withLemmas(vc.Asserts))+"(check-sat)\n"), 0644)
				}
			}
		}
		f := r.failed()
		if len(f) > 0 && r.err != "" || !r.covered {
			fmt.Println("FAILED:", strings.Join(f, "\n        "))
		}
		fmt.Printf("%-70s %d vcs, slowest %d ms, invs %d\n", r.name, len(r.vcs), slow, r.invs)
	}
	fmt.Printf("%d/%d discharged, %v, %d solver queries, %.1fs solver time\n", ok, n, time.Since(t0), statQueries, float64(statTimeNs)/1e9)
}
