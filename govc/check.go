package main

// check: decides one property and writes its evidence file.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	prop, match, text string
}

// known_findings.txt: "known: property=C01 match=<obligation or case text> :: what fails"
func readKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		head, text, _ := strings.Cut(l[len("known: "):], " :: ")
		p, m, _ := strings.Cut(head, " match=")
		out = append(out, knownFinding{strings.TrimPrefix(p, "property="), strings.TrimSpace(m), text})
	}
	return out
}

type harnessReport struct {
	Cases    int              `json:"cases"`
	Distinct int              `json:"distinct"`
	Groups   map[string]int   `json:"groups"`
	Samples  []string         `json:"samples"`
	Rule     string           `json:"rule"`
	Failures []harnessFailure `json:"failures"`
	Known    []harnessFailure `json:"known"`
	Error    string           `json:"error"`
	Stands   []string         `json:"stands_in_for"`
}

type harnessFailure struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Input  string `json:"input"`
}

func cmdCheck(args []string) (code int) {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	harness := fs.String("harness", "", "replay binary")
	if err := fs.Parse(args); err != nil {
		return 0
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	ms, unitB, hBudget, hBudgetFail := 6000, 4*time.Minute, 20, 120
	total := 600 * time.Second
	if *tier == "thorough" {
		ms, unitB, hBudget, hBudgetFail = 30000, 20*time.Minute, 180, 400
		total = 40 * time.Minute
	}
	// concrete runs of the real code first: a failing input leaves less to prove
	var hr *harnessReport
	if *harness != "" {
		hr = runHarness(*harness, *repo, *root, *prop, seed, hBudget, false)
		if len(hr.Failures) > 0 && *tier == "quick" {
			total = 100 * time.Second
		}
	}
	t1 := time.Now()
	var results []*UnitResult
	var dropped, failed []string
	var C *Contracts
	var P *Program
	func() {
		defer func() {
			if x := recover(); x != nil {
				failed = append(failed, fmt.Sprintf("verifier: internal error: %v\n%s", x, debug.Stack()))
			}
		}()
		var pool *Pool
		var err error
		P, C, pool, err = setup(*repo, filepath.Join(*root, "contracts"), *prop, 8)
		if err != nil {
			failed = append(failed, "contracts: "+err.Error())
			return
		}
		defer pool.Close()
		V := &Verifier{P: P, C: C, pool: pool, prop: *prop, ms: ms, unitBudget: unitB, cache: map[string]*UnitResult{}, noContract: map[string]bool{}, deadline: t1.Add(total)}
		var errs []string
		results, dropped, errs = V.verifyAll()
		failed = append(failed, errs...)
	}()
	n, ok := 0, 0
	byBackend := map[string]int{}
	var fns, skipped []string
	notes := map[string]bool{}
	invs := 0
	var slowest int64
	slowName := ""
	solver := int64(0)
	var detail []string
	for _, r := range results {
		if r.skip {
			skipped = append(skipped, r.name)
			continue
		}
		fns = append(fns, r.name)
		invs += r.invs
		for k := range r.notes {
			notes[k] = true
		}
		for _, vc := range r.vcs {
			n++
			if vc.Res == Unsat {
				ok++
				by := vc.By
				if by == "" {
					by = "simplifier"
				}
				byBackend[by]++
			} else {
				detail = append(detail, fmt.Sprintf("%s: %s %s %s\n  solver answer: %s (%s)\n  path: %s\n  goal: %s", r.name, vc.Kind, vc.Clause, vc.Where, vc.Res, vc.By, strings.Join(vc.Path, "; "), vc.Goal.show(12)))
			}
			solver += vc.ms
			if vc.ms > slowest {
				slowest, slowName = vc.ms, r.name+": "+vc.Kind+" "+vc.Clause
			}
		}
		failed = append(failed, r.failed()...)
	}
	if n == 0 && len(failed) == 0 {
		failed = append(failed, "no obligation was generated")
	}
	known := readKnown(filepath.Join(*root, "known_findings.txt"))
	var bad, knownHit []string
	for _, f := range failed {
		hit := false
		for _, k := range known {
			if k.prop == *prop && k.match != "" && f == k.match {
				knownHit = append(knownHit, k.text)
				hit = true
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	proofTime := time.Since(t1)
	if hr != nil && len(hr.Failures) == 0 && len(bad) > 0 {
		// look harder for an input that shows the failure
		h2 := runHarness(*harness, *repo, *root, *prop, seed+1, hBudgetFail, true)
		h2.Cases += hr.Cases
		h2.Distinct += hr.Distinct
		for k, v := range hr.Groups {
			if h2.Groups == nil {
				h2.Groups = map[string]int{}
			}
			h2.Groups[k] += v
		}
		hr = h2
	}
	evDir := filepath.Join(*root, "evidence")
	os.MkdirAll(evDir, 0755)
	replay := filepath.Join(evDir, "replay-"+*prop+".txt")
	os.Remove(replay)
	var hbad []harnessFailure
	if hr != nil {
		for _, f := range hr.Failures {
			hit := false
			for _, k := range known {
				if k.prop == *prop && k.match != "" && f.Case == k.match {
					knownHit = append(knownHit, k.text)
					hit = true
				}
			}
			if !hit {
				hbad = append(hbad, f)
			}
		}
	}
	seenK := map[string]bool{}
	for _, k := range knownHit {
		if !seenK[k] {
			seenK[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
		}
	}
	if len(bad) > 0 || len(hbad) > 0 {
		code = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		if len(hbad) > 0 {
			b.WriteString("FAILING INPUT(S) against the real code:\n")
			for _, f := range hbad {
				fmt.Fprintf(&b, "--- case %s\n%s\n--- input\n%s\n", f.Case, f.Detail, f.Input)
			}
			fmt.Fprintf(&b, "\nre-run: bash %s/check.sh %s %s with VERIF_SEED=%d\n\n", *root, *prop, *tier, seed)
		}
		if len(bad) > 0 {
			b.WriteString("FAILED OBLIGATIONS:\n")
			for _, f := range bad {
				b.WriteString("  " + f + "\n")
			}
			b.WriteString("\nVERIFIER OUTPUT:\n" + strings.Join(detail, "\n") + "\n")
		}
		os.WriteFile(replay, []byte(b.String()), 0644)
		for i, f := range bad {
			if i < 20 {
				fmt.Println("FAILED " + firstLine(f))
			}
		}
		for i, f := range hbad {
			if i < 5 {
				fmt.Printf("FAILING INPUT case %s: %s\n", f.Case, firstLine(f.Detail))
			}
		}
		if len(hbad) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, replay)
		}
	}
	// evidence
	trusted := []string{
		"the verification-condition generator /verif/govc (go/ssa of golang.org/x/tools v0.52.0 to SMT-LIB) and its builtin contracts for the Go runtime and standard library",
		"the solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
		"the specification functions in /verif/contracts",
		"64-bit integers are treated as mathematical; narrower ones wrap exactly",
		"no typed nil pointer inside an interface value; pointer receivers of verified methods are not nil",
		"append gives a fresh array: a slice is not used again through an older, longer-capacity alias",
		"memory and stack are unbounded; termination is not proved (partial correctness)",
	}
	if C != nil {
		trusted = append(trusted, C.Trusted...)
	}
	var nl []string
	for k := range notes {
		nl = append(nl, k)
	}
	sort.Strings(nl)
	cov := map[string]interface{}{
		"obligations":               n,
		"discharged":                ok,
		"checker_cmd":               fmt.Sprintf("bash /verif/check.sh %s %s", *prop, *tier),
		"trusted_base":              trusted,
		"functions_under_contract":  fns,
		"outside_precondition":      skipped,
		"discharged_by":             byBackend,
		"loop_invariants_inferred":  invs,
		"solver_time_s":             float64(solver) / 1000,
		"solver_queries_total":      atomic.LoadInt64(&statQueries),
		"slowest_obligation":        fmt.Sprintf("%s (%d ms)", slowName, slowest),
		"proof_wall_s":              proofTime.Seconds(),
		"helper_contracts_dropped":  dropped,
		"assumed_during_generation": nl,
		"failed":                    bad,
		"known_findings_hit":        len(seenK),
	}
	if hr != nil {
		cov["bounded_concrete_runs"] = map[string]interface{}{
			"label":         "bounded: sampled or enumerated runs of the real code; not counted as proved",
			"stands_in_for": hr.Stands,
			"evaluations":   hr.Cases,
			"distinct":      hr.Distinct,
			"groups":        hr.Groups,
			"rule":          hr.Rule,
			"samples":       hr.Samples,
			"failures":      len(hbad),
			"error":         hr.Error,
		}
	}
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, *prop+".json"), append(j, '\n'), 0644)
	fmt.Printf("%s %s: %d/%d obligations discharged in %d functions (%.1fs), concrete runs: %s, %.1fs\n", *prop, *tier, ok, n, len(fns), proofTime.Seconds(), hr.summary(), time.Since(t0).Seconds())
	return code
}

func (h *harnessReport) summary() string {
	if h == nil {
		return "none"
	}
	s := fmt.Sprintf("%d cases, %d failures", h.Cases, len(h.Failures))
	if h.Error != "" {
		s += " (" + h.Error + ")"
	}
	return s
}

func runHarness(bin, repo, root, prop string, seed, budget int, deep bool) *harnessReport {
	hr := &harnessReport{}
	if _, err := os.Stat(bin); err != nil {
		hr.Error = "harness not built"
		return hr
	}
	out, err := os.CreateTemp("", "candreplay")
	if err != nil {
		hr.Error = err.Error()
		return hr
	}
	defer os.Remove(out.Name())
	cmd := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", fmt.Sprint(budget), "-out", out.Name())
	if deep {
		cmd.Args = append(cmd.Args, "-deep")
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		hr.Error = err.Error()
		return hr
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(time.Duration(budget+60) * time.Second):
		cmd.Process.Kill()
		err = fmt.Errorf("harness timed out")
	}
	b, _ := os.ReadFile(out.Name())
	if e := json.Unmarshal(b, hr); e != nil {
		hr.Error = fmt.Sprintf("no report: %v %v", e, err)
	}
	return hr
}
