package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// vc check -id X [-tier quick|thorough]: verify every contract file of the
// property against /repo's working tree, run the bounded stand-in and the
// replay search on the real code, write the evidence, report.

const verifDir = "/verif"
const harnessUID = 64000

type knownFinding struct {
	property, key, text string
}

func readKnown(id string) []knownFinding {
	var out []knownFinding
	data, _ := os.ReadFile(verifDir + "/known_findings.txt")
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func keyMatch(pat, s string) bool { return matchPat(pat, s) }

type unitRun struct {
	file    string
	unit    *Unit
	results []*FnResult
	err     string
	skipped []string
	loadS   float64
}

func runUnit(path, work string) (r *unitRun) {
	r = &unitRun{file: path}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(fatal); ok {
				r.err = f.msg
			} else {
				r.err = fmt.Sprint(e)
				if os.Getenv("VC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	r.unit = loadUnit(path)
	t0 := time.Now()
	p, err := loadProg(r.unit.packages, work)
	if err != nil {
		r.err = "the source does not load: " + err.Error()
		return
	}
	r.loadS = time.Since(t0).Seconds()
	r.results = verifyUnit(r.unit, p, "")
	if len(r.unit.lemmas) > 0 {
		r.results = append(r.results, verifyLemmas(r.unit, p))
	}
	return
}

type failRec struct {
	Kind  string          `json:"kind"`
	Key   string          `json:"key,omitempty"`
	Input json.RawMessage `json:"input,omitempty"`
	Msg   string          `json:"msg,omitempty"`
	Evals int             `json:"evaluations,omitempty"`
	Dist  int             `json:"distinct,omitempty"`
	Rule  string          `json:"rule,omitempty"`
	Smp   json.RawMessage `json:"samples,omitempty"`
	file  string
}

type harnessOut struct {
	fails []failRec
	stats []failRec
	notes []string
	secs  float64
}

type harnessPkg struct {
	dir     string // directory relative to /repo
	files   map[string]string
	bin     string
	err     string
	sources []string
}

func moduleOf(dir string) string {
	d := dir
	for d != "." && d != "/" && d != "" {
		if _, err := os.Stat(filepath.Join("/repo", d, "go.mod")); err == nil {
			return d
		}
		d = filepath.Dir(d)
	}
	return ""
}

var overlayRe = regexp.MustCompile(`(?m)^//overlay:\s*(\S+)\s*$`)
var libRe = regexp.MustCompile(`(?m)^//lib:\s*(.*)$`)
var packageRe = regexp.MustCompile(`(?m)^package\s+(\S+)`)

// buildHarness compiles the property's test overlay for each package.
func buildHarness(id, scratch, work string) (pkgs []*harnessPkg, notes []string) {
	dirs := map[string]*harnessPkg{}
	ms, _ := filepath.Glob(verifDir + "/harness/" + id + "/*.go")
	sort.Strings(ms)
	for _, m := range ms {
		data, err := os.ReadFile(m)
		if err != nil {
			continue
		}
		mm := overlayRe.FindSubmatch(data)
		if mm == nil {
			continue
		}
		target := string(mm[1])
		d := filepath.Dir(target)
		hp := dirs[d]
		if hp == nil {
			hp = &harnessPkg{dir: d, files: map[string]string{}}
			dirs[d] = hp
			pkgs = append(pkgs, hp)
		}
		hp.files[filepath.Join("/repo", target)] = m
		hp.sources = append(hp.sources, m)
		pk := string(packageRe.FindSubmatch(data)[1])
		libs := []string{"verif_lib"}
		if lm := libRe.FindSubmatch(data); lm != nil {
			libs = append(libs, strings.Fields(string(lm[1]))...)
		}
		for _, ln := range libs {
			lib, err := os.ReadFile(verifDir + "/harness/lib/" + ln + ".go.txt")
			if err == nil {
				lf := filepath.Join(scratch, ln+"_"+strings.ReplaceAll(d, "/", "_")+"_"+pk+"_test.go")
				lib = bytes.Replace(lib, []byte("package PKG"), []byte("package "+pk), 1)
				os.WriteFile(lf, lib, 0o644)
				hp.files[filepath.Join("/repo", d, "zz_verif_"+ln+"_"+pk+"_test.go")] = lf
			}
		}
	}
	var wg sync.WaitGroup
	for i, hp := range pkgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ov := filepath.Join(scratch, fmt.Sprintf("ov%d.json", i))
			js, _ := json.Marshal(map[string]any{"Replace": hp.files})
			os.WriteFile(ov, js, 0o644)
			hp.bin = filepath.Join(scratch, fmt.Sprintf("h%d.test", i))
			mod := moduleOf(hp.dir)
			env := goEnv(work)
			g := goBin
			if mod == "aferofs" {
				g = "/opt/veriftools/go1.24.13/bin/go"
				env = goEnv("off")
			}
			rel, _ := filepath.Rel(mod, hp.dir)
			args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", hp.bin}
			if race, _ := regexp.MatchString(`(?m)^//race$`, readAll(hp.sources)); race {
				args = append(args, "-race")
			}
			cmd := exec.Command(g, append(args, "./"+rel)...)
			cmd.Dir = filepath.Join("/repo", mod)
			cmd.Env = env
			out, err := cmd.CombinedOutput()
			if err != nil {
				hp.err = fmt.Sprintf("the bounded harness for %s does not build: %v\n%s", hp.dir, err, tail(string(out), 2000))
				hp.bin = ""
			}
		}()
	}
	wg.Wait()
	for _, hp := range pkgs {
		if hp.err != "" {
			notes = append(notes, hp.err)
		}
	}
	return
}

func readAll(fs []string) string {
	s := ""
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		s += string(b)
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// runHarness runs the built harness as an unprivileged user in a scratch
// directory of its own.
func runHarness(id string, pkgs []*harnessPkg, scratch, tier, mode string, hints map[string]any, budget time.Duration, seed string) *harnessOut {
	ho := &harnessOut{}
	start := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, hp := range pkgs {
		if hp.bin == "" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := filepath.Join(scratch, fmt.Sprintf("run_%s_%d", mode, i))
			os.MkdirAll(dir, 0o755)
			os.MkdirAll(dir+"/tmp", 0o755)
			os.Chown(dir, harnessUID, harnessUID)
			os.Chown(dir+"/tmp", harnessUID, harnessUID)
			hj, _ := json.Marshal(hints)
			os.WriteFile(dir+"/hints.json", hj, 0o644)
			ctx, cancel := context.WithTimeout(context.Background(), 4*budget+60*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, hp.bin, "-test.run", "^TestVerif"+id, "-test.count=1", "-test.timeout=0")
			cmd.Dir = dir
			cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir + "/tmp", "VERIF_SEED=" + seed, "VERIF_TIER=" + tier, "VERIF_MODE=" + mode,
				"VERIF_OUT=" + dir + "/out.jsonl", "VERIF_CUR=" + dir + "/cur.json", "VERIF_HINTS=" + dir + "/hints.json",
				fmt.Sprintf("VERIF_BUDGET_MS=%d", budget.Milliseconds()), "GOMEMLIMIT=4GiB"}
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: harnessUID, Gid: harnessUID}, Setpgid: true}
			cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			n := 0
			if f, e := os.Open(dir + "/out.jsonl"); e == nil {
				sc := bufio.NewScanner(f)
				sc.Buffer(nil, 1<<24)
				for sc.Scan() {
					var r failRec
					if json.Unmarshal(sc.Bytes(), &r) != nil {
						continue
					}
					r.file = strings.Join(hp.sources, " ")
					switch r.Kind {
					case "fail":
						ho.fails = append(ho.fails, r)
						n++
					case "stat":
						ho.stats = append(ho.stats, r)
					}
				}
				f.Close()
			}
			if err != nil && n == 0 {
				cur, e := os.ReadFile(dir + "/cur.json")
				if e == nil && len(bytes.TrimSpace(cur)) > 0 {
					// the process died, or did not end, while running this input
					var r failRec
					if json.Unmarshal(cur, &r) != nil {
						r.Input, _ = json.Marshal(string(cur))
					}
					r.Kind = "fail"
					r.file = strings.Join(hp.sources, " ")
					if ctx.Err() != nil {
						r.Msg = "the call did not return"
						r.Key += "/hang"
					} else {
						r.Msg = "the process died: " + crashLine(out.String())
						r.Key += "/crash"
					}
					ho.fails = append(ho.fails, r)
				} else {
					ho.notes = append(ho.notes, fmt.Sprintf("the bounded harness for %s ended abnormally (%v): %s", hp.dir, err, tail(out.String(), 1500)))
				}
			}
		}()
	}
	wg.Wait()
	ho.secs = time.Since(start).Seconds()
	return ho
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			return l
		}
	}
	return tail(s, 300)
}

var (
	modelStr = regexp.MustCompile(`\(define-fun \S+ \(\) String\s+"((?:[^"]|"")*)"\)`)
	modelInt = regexp.MustCompile(`\(define-fun \S+ \(\) Int\s+(\(- \d+\)|\d+)\)`)
	smtEsc   = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})`)
)

func modelHints(models []string) map[string]any {
	ss, is := map[string]bool{}, map[string]bool{}
	for _, m := range models {
		for _, x := range modelStr.FindAllStringSubmatch(m, -1) {
			s := strings.ReplaceAll(x[1], `""`, `"`)
			s = smtEsc.ReplaceAllStringFunc(s, func(e string) string {
				mm := smtEsc.FindStringSubmatch(e)
				h := mm[1] + mm[2]
				n, _ := strconv.ParseUint(h, 16, 32)
				if n < 256 {
					return string([]byte{byte(n)})
				}
				return string(rune(n))
			})
			if len(s) < 300 && len(ss) < 200 {
				ss[s] = true
			}
		}
		for _, x := range modelInt.FindAllStringSubmatch(m, -1) {
			v := strings.NewReplacer("(- ", "-", ")", "").Replace(x[1])
			if len(is) < 200 && len(v) < 20 {
				is[v] = true
			}
		}
	}
	return map[string]any{"strings": keys(ss), "ints": keys(is)}
}

func cmdCheck(args []string) (code int) {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	noHarness := fs.Bool("noharness", false, "verify only")
	if fs.Parse(args) != nil {
		return 1
	}
	start := time.Now()
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	scratch, err := os.MkdirTemp("", "vc-"+*id+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 1
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o755)
	work := filepath.Join(scratch, "go.work")
	for _, n := range []string{"go.work", "go.work.sum"} {
		b, _ := os.ReadFile("/opt/vp/" + n)
		os.WriteFile(filepath.Join(scratch, n), b, 0o644)
	}
	budget := 20 * time.Second
	if *tier == "thorough" {
		solveLimit = 60 * time.Second
		budget = 240 * time.Second
	}
	known := readKnown(*id)

	var files []string
	for _, pat := range []string{"/contracts/" + *id + ".vspec", "/contracts/" + *id + "_*.vspec"} {
		ms, _ := filepath.Glob(verifDir + pat)
		files = append(files, ms...)
	}
	var runs []*unitRun
	var ho *harnessOut
	var pkgs []*harnessPkg
	var hnotes []string
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if *noHarness {
			ho = &harnessOut{}
			return
		}
		pkgs, hnotes = buildHarness(*id, scratch, work)
		ho = runHarness(*id, pkgs, scratch, *tier, "check", nil, budget, seed)
	}()
	for _, f := range files {
		runs = append(runs, runUnit(f, work))
	}
	wg.Wait()

	// second chance for undecided queries, one at a time with a longer limit
	type failed struct {
		name, clause, pos, status, output, model string
		trace                                    []string
	}
	var fails []failed
	obl, dis := 0, 0
	bySolver := map[string]int{}
	solverSecs := 0.0
	retried := 0
	for _, r := range runs {
		if r.err != "" {
			obl++
			fails = append(fails, failed{name: filepath.Base(r.file) + "/load", clause: "the contracts apply to the source", status: "unsupported", output: r.err})
			continue
		}
		for _, fr := range r.results {
			for _, o := range fr.obls {
				if o.res.status == "unknown" && o.goal != nil && retried < 20 && time.Since(start) < 400*time.Second {
					retried++
					if o.script != "" {
						o.res = solveText(o.script+"; retry\n", 6*solveLimit)
					}
				}
				obl++
				solverSecs += o.res.secs
				if o.res.status == "unsat" {
					dis++
					s := o.res.solver
					if s == "" {
						s = "simplifier"
					}
					bySolver[s]++
					continue
				}
				out := o.res.output
				if o.reason != "" {
					out = o.reason + "; " + out
				}
				fails = append(fails, failed{o.name, o.clause, o.pos, o.res.status, out, o.res.model, o.trace})
			}
		}
	}

	// a failed obligation: search for an input on the real code
	if len(fails) > 0 && len(ho.fails) == 0 && !*noHarness && len(pkgs) > 0 {
		var models []string
		for _, f := range fails {
			models = append(models, f.model)
		}
		h2 := runHarness(*id, pkgs, scratch, *tier, "search", modelHints(models), 2*budget, seed)
		ho.fails = append(ho.fails, h2.fails...)
		ho.stats = append(ho.stats, h2.stats...)
		ho.notes = append(ho.notes, h2.notes...)
	}

	// report
	os.MkdirAll(verifDir+"/replays", 0o755)
	old, _ := filepath.Glob(verifDir + "/replays/" + *id + "-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	var lines []string
	knownSeen := map[string]bool{}
	violations := 0
	isKnown := func(k string) bool {
		for _, kf := range known {
			if keyMatch(kf.key, k) {
				if !knownSeen[kf.text] {
					knownSeen[kf.text] = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *id, kf.text))
				}
				return true
			}
		}
		return false
	}
	var newFails []failed
	for _, f := range fails {
		if isKnown("obligation:" + f.name) {
			dis++ // counted below as a known finding, not as discharged
			obl--
			dis--
			continue
		}
		newFails = append(newFails, f)
	}
	nrep := 0
	replay := func(m map[string]any) string {
		nrep++
		p := fmt.Sprintf("%s/replays/%s-%d.json", verifDir, *id, nrep)
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		return p
	}
	var oblList []map[string]any
	for i, f := range newFails {
		if i >= 12 {
			break
		}
		oblList = append(oblList, map[string]any{"obligation": f.name, "clause": f.clause, "at": f.pos, "status": f.status, "verifier_output": tail(f.output, 3000), "path": f.trace, "model": tail(f.model, 6000)})
	}
	seenKey := map[string]bool{}
	withInput := 0
	for _, r := range ho.fails {
		if isKnown("input:" + r.Key) {
			continue
		}
		if seenKey[r.Key] {
			continue
		}
		seenKey[r.Key] = true
		withInput++
		violations++
		if withInput <= 5 {
			p := replay(map[string]any{"property": *id, "failing_input": r.Input, "key": r.Key, "what": r.Msg, "harness": r.file, "test": "TestVerif" + *id, "seed": seed,
				"how": "build the harness over /repo with 'go test -overlay' (see run.sh) and run the named test; it replays this input on the real code", "failed_obligations": oblList})
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *id, p))
			fmt.Printf("failing input: key=%s %s: %s\n", r.Key, tail(string(r.Input), 600), tail(r.Msg, 600))
		}
	}
	for i, f := range newFails {
		if i < 12 {
			fmt.Printf("failed obligation: %s [%s] at %s: %s: %s\n", f.name, f.status, f.pos, f.clause, tail(f.output, 300))
		}
	}
	if len(newFails) > 0 && withInput == 0 {
		violations++
		p := replay(map[string]any{"property": *id, "failed_obligations": oblList, "note": "the verifier rejects the named obligations; the bounded search on the real code found no failing input", "harness_notes": append(hnotes, ho.notes...)})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", *id, p))
	}
	if obl == 0 && violations == 0 {
		violations++
		p := replay(map[string]any{"property": *id, "note": "no obligation was generated"})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", *id, p))
	}
	for _, n := range append(hnotes, ho.notes...) {
		fmt.Println("note:", n)
	}

	writeEvidence(*id, *tier, seed, runs, ho, hnotes, obl, dis, bySolver, solverSecs, violations, len(knownSeen), start)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", *id, obl, dis, countFns(runs), time.Since(start).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func countFns(runs []*unitRun) int {
	n := 0
	for _, r := range runs {
		n += len(r.results)
	}
	return n
}

func writeEvidence(id, tier, seed string, runs []*unitRun, ho *harnessOut, hnotes []string, obl, dis int, bySolver map[string]int, solverSecs float64, violations, knownN int, start time.Time) {
	var fns []map[string]any
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var skipped []string
	covers := 0
	for _, r := range runs {
		for _, fr := range r.results {
			d := 0
			for _, o := range fr.obls {
				if o.res.status == "unsat" {
					d++
				}
			}
			m := map[string]any{"function": fr.key, "obligations": len(fr.obls), "discharged": d, "paths": fr.finals, "unit": strings.TrimSuffix(filepath.Base(r.file), ".vspec")}
			if len(fr.autos) > 0 {
				m["inferred_invariants"] = len(fr.autos)
			}
			if fr.cover == "sat" {
				covers++
			}
			fns = append(fns, m)
			for k := range fr.contracts {
				if c := r.unit.contracts[k]; c != nil && (c.kind == "extern" || c.opts["trusted"] != "") {
					trusted["contract on "+k] = true
				}
			}
			for k := range fr.invokes {
				trusted["interface/callback contract "+k] = true
			}
			for k := range fr.pure {
				assumed["no effect on the program's state, result arbitrary: "+k] = true
			}
			for k := range fr.inlined {
				inl[k] = true
			}
		}
		if r.unit != nil {
			skipped = append(skipped, r.unit.skipped...)
			for _, a := range r.unit.assumed {
				assumed[a] = true
			}
			for _, a := range r.unit.axioms {
				trusted["axiom: "+a.text] = true
			}
			for _, n := range r.unit.notes {
				assumed["note: "+n] = true
			}
		}
	}
	for _, g := range globalAssumptions {
		assumed[g] = true
	}
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":              "bash /verif/run.sh " + id + " " + tier + " (vc: SSA weakest preconditions from /repo's source; z3-new, cvc5, z3)",
		"trusted_base":             append([]string{"go/ssa (golang.org/x/tools v0.52.0) and the Go type checker", "the verification-condition generator /verif/vc", "z3, cvc5", "the Go compiler implements the language semantics go/ssa assumes"}, keys(trusted)...),
		"functions_under_contract": fns,
		"inlined_bodies":           keys(inl),
		"discharged_by":            bySolver,
		"solver_seconds":           round2(solverSecs),
		"reachable_return_covers":  covers,
		"integers":                 "mathematical integers with overflow obligations on +,-,* of machine types unless the assumptions say otherwise; bit operations via finite case tables",
	}
	if len(skipped) > 0 {
		cov["contracts_without_function"] = skipped
	}
	if knownN > 0 {
		cov["known_findings"] = knownN
	}
	if len(ho.stats) > 0 {
		var b []map[string]any
		for _, s := range ho.stats {
			b = append(b, map[string]any{"label": "bounded, not proved", "evaluations": s.Evals, "distinct_nontrivial": s.Dist, "rule": s.Rule, "samples": s.Smp})
		}
		cov["bounded"] = b
	}
	if n := append(hnotes, ho.notes...); len(n) > 0 {
		cov["harness_notes"] = n
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": atoi(seed), "level": "proof", "coverage": cov, "assumptions": keys(assumed), "wall_s": round2(time.Since(start).Seconds()), "violations": violations}
	os.MkdirAll(verifDir+"/evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(verifDir+"/evidence/"+id+".json", append(b, '\n'), 0o644)
}

var globalAssumptions = []string{
	"sequential semantics: obligations are about one call at a time; interleavings with other goroutines are not explored",
	"panics of the language runtime (nil dereference, index, conversion) end a path unless a contract says option safe",
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
