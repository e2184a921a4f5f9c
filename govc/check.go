package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// timeScale multiplies solver time limits (raised when a harness is tried again).
var timeScale = 1.0

func scaled(d time.Duration) time.Duration { return time.Duration(float64(d) * timeScale) }

type concRep struct {
	Harness string
	Cases   int
	Skipped int
	Failed  bool
	Label   string
	Input   string
	Seed    int64
	Detail  string
	Begin   bool
}

// concretePkg builds and runs the executable form of harnesses of one package.
func (V *Verifier) concretePkg(pkg string, names []string, seed int64, cases, ms int, scratch string) ([]concRep, error) {
	bin, err := V.concreteBin(pkg, scratch)
	if err != nil {
		return nil, err
	}
	return runConcrete(bin, names, "", seed, cases, ms, scratch)
}

var binMu sync.Mutex
var bins = map[string]*binEnt{}

type binEnt struct {
	once sync.Once
	path string
	err  error
}

func (V *Verifier) concreteBin(pkg, scratch string) (string, error) {
	binMu.Lock()
	e := bins[pkg]
	if e == nil {
		e = &binEnt{}
		bins[pkg] = e
	}
	binMu.Unlock()
	e.once.Do(func() { e.path, e.err = V.buildBin(pkg, scratch) })
	return e.path, e.err
}

func (V *Verifier) buildBin(pkg, scratch string) (string, error) {
	rel := shortPkg(pkg)
	dir := filepath.Join(V.repo, rel)
	tag := strings.NewReplacer("/", "_", ".", "_").Replace(rel)
	var sb strings.Builder
	p := V.pkgs[pkg]
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\tzzg \"%szzgvc\"\n)\n\nfunc TestZZGVC(t *testing.T) {\n\tzzg.Main(map[string]interface{}{\n", p.Pkg.Name(), modPath)
	var ns []string
	for _, n := range V.byPkg[pkg] {
		ns = append(ns, n)
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t}, []string{")
	for _, n := range ns {
		fmt.Fprintf(&sb, "%q, ", n)
	}
	sb.WriteString("}, map[string]interface{}{")
	for _, n := range ns {
		if h := V.hs[rel+"."+n]; h != nil && h.Shape != "" {
			fmt.Fprintf(&sb, "%q: %s, ", n, h.Shape)
		}
	}
	sb.WriteString("})\n}\n")
	tf := filepath.Join(scratch, tag+"_main_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(dir, "zz_gvc_main_test.go"): tf}
	for t, s := range V.overFiles {
		rep[t] = s
	}
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		if strings.HasSuffix(en.Name(), "_test.go") {
			rep[filepath.Join(dir, en.Name())] = ""
		}
	}
	ov := filepath.Join(scratch, tag+"_overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(scratch, tag+".test")
	V.writeDict(pkg, bin+".dict")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+rel)
	if V.modfile != "" {
		cmd.Args = append(cmd.Args[:3:3], append([]string{"-modfile=" + V.modfile}, cmd.Args[3:]...)...)
	}
	cmd.Dir = V.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the executable contracts of %s: %v\n%s", rel, err, out)
	}
	return bin, nil
}

func runConcrete(bin string, names []string, one string, seed int64, cases, ms int, scratch string) ([]concRep, error) {
	f, err := os.CreateTemp(scratch, "out")
	if err != nil {
		return nil, err
	}
	f.Close()
	wd, err := os.MkdirTemp(scratch, "wd")
	if err != nil {
		return nil, err
	}
	var all []concRep
	todo := append([]string(nil), names...)
	for len(todo) > 0 {
		os.Truncate(f.Name(), 0)
		cmd := exec.Command(bin, "-test.run", "TestZZGVC", "-test.timeout", "600s")
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "GVC_OUT="+f.Name(), fmt.Sprintf("GVC_SEED=%d", seed), fmt.Sprintf("GVC_CASES=%d", cases), fmt.Sprintf("GVC_MS=%d", ms), "GVC_ONLY="+strings.Join(todo, ","), "GVC_ONE="+one, "TMPDIR="+wd, "GVC_DICT="+bin+".dict")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		out, rerr := cmd.CombinedOutput()
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		b, _ := os.ReadFile(f.Name())
		done := map[string]bool{}
		begun := ""
		var bseed int64
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" {
				continue
			}
			var r concRep
			if json.Unmarshal([]byte(l), &r) != nil {
				continue
			}
			if r.Begin {
				begun, bseed = r.Harness, r.Seed
				continue
			}
			done[r.Harness] = true
			all = append(all, r)
		}
		if begun != "" && !done[begun] {
			t := string(out)
			if len(t) > 3000 {
				t = t[:3000]
			}
			all = append(all, concRep{Harness: begun, Failed: true, Seed: bseed, Label: "no-panic: the process died", Detail: t, Cases: 1})
			done[begun] = true
		} else if rerr != nil && len(done) == 0 {
			return all, fmt.Errorf("running %s: %v\n%s", bin, rerr, out)
		}
		if one != "" {
			break
		}
		var rest []string
		for _, n := range todo {
			if !done[n] {
				rest = append(rest, n)
			}
		}
		if len(rest) == len(todo) {
			break
		}
		todo = rest
	}
	return all, nil
}

// writeDict lists the constants of the source under test, so that concrete inputs reach their neighbourhood.
func (V *Verifier) writeDict(pkg, path string) {
	ints := map[int64]bool{}
	strs := map[string]bool{}
	seen := map[*types.Package]bool{}
	var pk []*types.Package
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if seen[p] || !strings.HasPrefix(p.Path(), strings.TrimSuffix(modPath, "/")) || strings.HasSuffix(p.Path(), "/zzgvc") {
			return
		}
		seen[p] = true
		pk = append(pk, p)
		for _, i := range p.Imports() {
			add(i)
		}
	}
	sp := V.pkgs[pkg]
	if sp == nil {
		return
	}
	add(sp.Pkg)
	for fn := range ssautil.AllFunctions(V.prog) {
		if fn.Pkg == nil || !seen[fn.Pkg.Pkg] {
			continue
		}
		if f := V.prog.Fset.Position(fn.Pos()).Filename; V.overFiles[f] != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					switch k.Value.Kind() {
					case constant.Int:
						if v, ok := constant.Int64Val(k.Value); ok {
							ints[v] = true
						}
					case constant.String:
						if s := constant.StringVal(k.Value); len(s) > 0 && len(s) < 64 {
							strs[s] = true
						}
					}
				}
			}
		}
	}
	var d struct {
		Ints []int64
		Strs []string
	}
	for n := range ints {
		d.Ints = append(d.Ints, n)
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Strings(d.Strs)
	b, _ := json.Marshal(d)
	os.WriteFile(path, b, 0o644)
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Kind     string `json:"kind"`
}

func readKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func goTool() string {
	p, err := exec.LookPath("go")
	if err != nil {
		return "go"
	}
	return p
}

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "", "")
	maxS := fl.Int("max", 0, "overall seconds")
	fl.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	start := time.Now()
	limit := 560 * time.Second
	if thorough {
		limit = 820 * time.Second
	}
	if *maxS > 0 {
		limit = time.Duration(*maxS) * time.Second
	}
	scratch, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	os.Chmod(scratch, 0o755)
	defer os.RemoveAll(scratch)
	V, err := loadProgram(*repo, *verif, nil)
	if V != nil {
		defer V.cleanup()
	}
	if err != nil {
		fmt.Println("the repository with its specifications does not load:", err)
		return 2
	}
	for _, d := range V.dropped {
		fmt.Println("note:", d)
	}
	own := V.closure(*prop)
	if len(own) == 0 {
		// every specification file of the property was dropped: nothing can be decided, nothing is claimed
		fmt.Printf("property %s: no contract applies to the current source\n", *prop)
		dumpJSON(filepath.Join(*verif, "evidence", *prop+".json"), map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": "other", "coverage": map[string]interface{}{"explanation": "the specification files do not type-check against the current source; nothing was verified", "dropped": V.dropped}, "wall_s": time.Since(start).Seconds(), "violations": 0})
		return 0
	}

	// ---- concrete search in the background ----
	type cres struct {
		reps []concRep
		err  error
	}
	concCh := make(chan map[string]concRep, 1)
	var concErrs []string
	var concMu sync.Mutex
	runConc := func(hs []*Harness, cases, ms int, sd int64) map[string]concRep {
		byPkg := map[string][]string{}
		for _, h := range hs {
			byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Fn.Name())
		}
		res := map[string]concRep{}
		var wg sync.WaitGroup
		for p, ns := range byPkg {
			p, ns := p, ns
			wg.Add(1)
			go func() {
				defer wg.Done()
				reps, err := V.concretePkg(p, ns, sd, cases, ms, scratch)
				concMu.Lock()
				defer concMu.Unlock()
				if err != nil {
					concErrs = append(concErrs, err.Error())
				}
				for _, r := range reps {
					res[shortPkg(p)+"."+r.Harness] = r
				}
			}()
		}
		wg.Wait()
		return res
	}
	conc := own
	// the executable form also covers what proves the contracts this property relies on
	cms := 800
	if len(own) > 12 {
		cms = 500
	}
	if thorough {
		cms = 4000
	}
	known := readKnown(filepath.Join(*verif, "known_findings.txt"))
	listed := func(n string, r concRep) bool {
		for _, k := range known {
			if k.Kind != "fixed" && k.Property == *prop && k.Harness == n && (k.Label == "" || k.Label == r.Label) {
				return true
			}
		}
		return false
	}
	failing := func(m map[string]concRep) bool {
		for n, r := range m {
			if r.Failed && !listed(n, r) {
				return true
			}
		}
		return false
	}
	go func() {
		m := runConc(conc, 100000000, cms, seed)
		if failing(m) {
			stopProofs()
		}
		concCh <- m
	}()

	bad := func(r *HResult) bool {
		if r == nil {
			return true
		}
		if r.Unsup != "" {
			return false
		}
		if r.Vacuous != "" {
			return true
		}
		for _, o := range r.Obls {
			if !o.Trivial && !o.Res.ok {
				return true
			}
		}
		return false
	}
	// an obligation that is not discharged starts a longer search for a failing input right away
	var moreWG sync.WaitGroup
	moreRes := map[string]concRep{}
	var moreMu sync.Mutex
	moreSem := make(chan struct{}, 3)
	lookHarder := func(h *Harness) {
		moreWG.Add(1)
		go func() {
			defer moreWG.Done()
			moreSem <- struct{}{}
			defer func() { <-moreSem }()
			if stopped() {
				return
			}
			m := runConc([]*Harness{h}, 100000000, 12000, seed+7919)
			moreMu.Lock()
			for n, r := range m {
				moreRes[n] = r
			}
			moreMu.Unlock()
			if failing(m) {
				stopProofs()
			}
		}()
	}

	// ---- proofs ----
	results := map[string]*HResult{}
	var rmu sync.Mutex
	prove := func(hs []*Harness, to time.Duration, par int) {
		sem := make(chan struct{}, par)
		var wg sync.WaitGroup
		for _, h := range hs {
			if h.concreteOnly() {
				continue
			}
			h := h
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				if time.Since(start) > limit {
					return
				}
				r := V.runHarness(h, to)
				if stopped() && bad(r) {
					r = &HResult{H: h, Unsup: stoppedMsg}
				}
				rmu.Lock()
				results[h.Name] = r
				rmu.Unlock()
				if bad(r) && timeScale == 1 {
					lookHarder(h)
				}
			}()
		}
		wg.Wait()
	}
	base := 20 * time.Second
	if thorough {
		base = 60 * time.Second
	}
	todo := own
	proved := map[string]bool{}
	external := map[string]bool{} // contracts discharged by another property's check (quick tier)
	unproved := map[string]bool{} // contracts nobody proves: assumptions
	all := append([]*Harness(nil), own...)
	inAll := map[string]bool{}
	for _, h := range own {
		inAll[h.Name] = true
	}
	for len(todo) > 0 {
		prove(todo, base, 6)
		var next []*Harness
		for _, h := range todo {
			proved[h.Name] = true
			r := results[h.Name]
			if r == nil {
				continue
			}
			for _, u := range r.Used {
				ps := V.provers(u)
				if len(ps) == 0 {
					unproved[u] = true
				}
				for _, p := range ps {
					if inAll[p.Name] {
						continue
					}
					if !thorough && !V.sharesProp(p, *prop) && len(p.Props) > 0 {
						external[u+" (proved by check "+strings.Join(p.Props, ",")+", harness "+p.Name+")"] = true
						inAll[p.Name] = true
						continue
					}
					inAll[p.Name] = true
					next = append(next, p)
					all = append(all, p)
					for _, us := range p.Uses {
						if l := V.resolve(us, p.Pkg); l != nil && !inAll[l.Name] {
							inAll[l.Name] = true
							next = append(next, l)
							all = append(all, l)
						}
					}
				}
			}
		}
		todo = next
	}
	concRes := <-concCh
	moreWG.Wait()
	for n, r := range moreRes {
		o := concRes[n]
		if o.Failed {
			continue
		}
		r.Cases += o.Cases
		r.Skipped += o.Skipped
		concRes[n] = r
	}
	anyConc := failing(concRes)
	// ---- second chance with more time, only when no failing input is known ----
	var again []*Harness
	for _, h := range all {
		if !h.concreteOnly() && bad(results[h.Name]) && !(concRes[h.Name].Failed) {
			again = append(again, h)
		}
	}
	if len(again) > 0 && !anyConc {
		timeScale = 2.5
		prove(again, time.Duration(float64(base)*2), 3)
		timeScale = 1
	}
	// ---- unsupported harnesses: bounded stand-in ----
	var unsupHs []*Harness
	for _, h := range all {
		if r := results[h.Name]; !h.Bounded && r != nil && r.Unsup != "" && r.Unsup != stoppedMsg && !concRes[h.Name].Failed {
			unsupHs = append(unsupHs, h)
		}
	}
	if len(unsupHs) > 0 {
		more := runConc(unsupHs, 100000000, 20000/len(unsupHs)+1500, seed+104729)
		for n, r := range more {
			o := concRes[n]
			r.Cases += o.Cases
			r.Skipped += o.Skipped
			concRes[n] = r
		}
	}

	// ---- verdict ----
	violations := 0
	type hev struct {
		Harness     string   `json:"harness"`
		Kind        string   `json:"kind"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Paths       int      `json:"paths"`
		Loops       int      `json:"loops_cut_by_invariant"`
		SolverS     float64  `json:"solver_s"`
		WallS       float64  `json:"wall_s"`
		Functions   []string `json:"functions_executed_by_body,omitempty"`
		Contracts   []string `json:"callee_contracts_used,omitempty"`
		Unsupported string   `json:"outside_the_verifier,omitempty"`
		Cases       int      `json:"concrete_cases"`
	}
	var hevs []hev
	backends := map[string]int{}
	tot, dis, bounded := 0, 0, 0
	assume := map[string]bool{}
	fnSet := map[string]bool{}
	var samples []string
	cases := 0
	var boundedNames []string
	outDir := filepath.Join(*verif, "out")
	os.MkdirAll(outDir, 0o755)
	report := func(h *Harness, rep *concRep, r *HResult) {
		// known finding?
		for _, k := range known {
			if k.Kind != "fixed" && k.Property == *prop && k.Harness == h.Name && rep != nil && (k.Label == "" || k.Label == rep.Label) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				return
			}
		}
		violations++
		path := filepath.Join(outDir, fmt.Sprintf("%s-%s.json", *prop, strings.NewReplacer("/", "_", ".", "_").Replace(h.Name)))
		m := map[string]interface{}{"property": *prop, "harness": h.Name, "contract_file": strings.TrimPrefix(h.File, *repo+"/")}
		var fo []map[string]interface{}
		if r != nil {
			for _, o := range r.Obls {
				if !o.Trivial && !o.Res.ok && len(fo) < 10 {
					q := o.Res.file
					if len(q) > 200000 {
						q = q[:200000]
					}
					fo = append(fo, map[string]interface{}{"obligation": o.Label, "function": o.Where, "solver_output": o.Res.reason, "query_smt2": q})
				}
			}
			if r.Vacuous != "" {
				m["vacuous"] = r.Vacuous
			}
			if r.Unsup != "" {
				m["outside_the_verifier"] = r.Unsup
			}
		}
		m["failed_obligations"] = fo
		tail := ""
		if rep != nil && rep.Failed {
			m["failing_input"] = map[string]interface{}{"arguments": rep.Input, "seed": rep.Seed, "violated": rep.Label, "detail": rep.Detail}
			m["replay_command"] = fmt.Sprintf("bash %s/replay.sh %s", *verif, path)
			fmt.Printf("%s: %q is violated on input (%s)\n", h.Name, rep.Label, clip(rep.Input, 600))
		} else {
			tail = " no-failing-input-found"
			for _, o := range fo {
				fmt.Printf("%s: obligation %q in %v is not discharged (%v)\n", h.Name, o["obligation"], o["function"], o["solver_output"])
			}
			if r == nil {
				fmt.Printf("%s: the verifier did not finish in time\n", h.Name)
				m["note"] = "not finished within the time limit of the check"
			} else if r.Vacuous != "" {
				fmt.Printf("%s: %s\n", h.Name, r.Vacuous)
			}
		}
		dumpJSON(path, m)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, path, tail)
	}
	for _, h := range all {
		r := results[h.Name]
		cr, hasC := concRes[h.Name]
		cases += cr.Cases - cr.Skipped
		e := hev{Harness: h.Name, Kind: "proved", Cases: cr.Cases - cr.Skipped}
		if h.Finding {
			if cr.Failed {
				report(h, &cr, nil)
			}
			e.Kind = "known-finding demonstration (concrete)"
			hevs = append(hevs, e)
			continue
		}
		if r != nil {
			e.Paths, e.Loops, e.WallS = r.Paths, r.Loops, r.Wall.Seconds()
			e.Functions, e.Contracts, e.Unsupported = r.Inlined, r.Used, r.Unsup
			for _, o := range r.Obls {
				if r.Unsup != "" {
					break
				}
				e.Obligations++
				if o.Trivial {
					e.Discharged++
					backends["simplifier"]++
					continue
				}
				e.SolverS += o.Res.dur.Seconds()
				if o.Res.ok {
					e.Discharged++
					backends[o.Res.solver]++
				}
				if len(samples) < 6 && o.Res.ok {
					samples = append(samples, h.Name+": "+o.Label)
				}
			}
			for _, n := range r.Notes {
				assume[n] = true
			}
			for _, f := range r.Inlined {
				fnSet[f] = true
			}
		}
		if h.Axiom != "" {
			e.Kind = "assumed library fact (concrete executions only)"
			assume[fmt.Sprintf("assumed: %s (executed on %d concrete inputs, not proved)", h.Axiom, cr.Cases-cr.Skipped)] = true
			hevs = append(hevs, e)
			if cr.Failed {
				report(h, &cr, nil)
			}
			continue
		}
		tot += e.Obligations
		dis += e.Discharged
		switch {
		case h.Bounded:
			e.Kind = "bounded (concrete executions only)"
			bounded++
			boundedNames = append(boundedNames, fmt.Sprintf("%s: bounded, %d concrete executions", h.Name, cr.Cases-cr.Skipped))
		case r != nil && r.Unsup != "":
			e.Kind = "bounded (outside the verifier: " + r.Unsup + ")"
			bounded++
			boundedNames = append(boundedNames, fmt.Sprintf("%s: bounded, outside the verifier (%s), %d concrete executions", h.Name, r.Unsup, cr.Cases-cr.Skipped))
		}
		hevs = append(hevs, e)
		if hasC && cr.Failed {
			report(h, &cr, r)
			continue
		}
		if h.Bounded || (r != nil && r.Unsup != "") {
			continue
		}
		if bad(r) && !anyConc {
			report(h, nil, r)
		}
	}
	for u := range unproved {
		assume["assumed contract (not proved): "+strings.ReplaceAll(u, modPath, "")] = true
	}
	for _, b := range boundedNames {
		assume[b] = true
	}
	for _, d := range V.dropped {
		assume[d] = true
	}
	for _, s := range concErrs {
		fmt.Println("note:", clip(s, 2000))
		assume["concrete execution unavailable: "+clip(s, 300)] = true
	}
	assume["partial correctness: termination is not proved"] = true
	sort.Slice(hevs, func(i, j int) bool { return hevs[i].Harness < hevs[j].Harness })
	cov := map[string]interface{}{
		"obligations":                      tot,
		"discharged":                       dis,
		"checker_cmd":                      fmt.Sprintf("bash run.sh %s %s (govc: go/ssa of the current tree -> verification conditions -> z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2)", *prop, *tier),
		"trusted_base":                     trustedBase,
		"discharged_by":                    backends,
		"harnesses":                        hevs,
		"functions_verified":               keys(fnSet),
		"contracts_proved_by_other_checks": keys(external),
		"solver_s":                         float64(atomic.LoadInt64(&solverTimeUS)) / 1e6,
		"solver_runs":                      atomic.LoadInt64(&solverRuns),
		"concrete_cases_cross_check":       cases,
		"bounded_stand_ins":                bounded,
		"samples":                          samples,
	}
	level := "proof"
	if tot == 0 {
		level = "other"
		cov["explanation"] = "no harness of this property could be brought within the verifier on this tree; only the bounded concrete executions ran"
	}
	if err := dumpJSON(filepath.Join(*verif, "evidence", *prop+".json"), map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": keys(assume), "wall_s": time.Since(start).Seconds(), "violations": violations}); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("property %s: %d/%d obligations discharged, %d harnesses (%d bounded), %d concrete cases, %.0f s\n", *prop, dis, tot, len(all), bounded, cases, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa (translation of the Go source to SSA)",
	"govc itself (SSA semantics, memory model, loop rule, encoding to SMT)",
	"z3 4.8.12 / 5.3.2, cvc5 1.1.2",
	"models of Go built-ins and of the standard-library functions listed in govc/models.go",
}

func (V *Verifier) sharesProp(h *Harness, prop string) bool {
	for _, p := range h.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// replay re-runs one recorded failing input.
func replay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	fl.Parse(args)
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Harness string `json:"harness"`
		FI      *struct {
			Seed int64 `json:"seed"`
		} `json:"failing_input"`
	}
	if err := json.Unmarshal(b, &m); err != nil || m.FI == nil {
		fmt.Println("the file holds no failing input")
		return 2
	}
	V, err := loadProgram(*repo, *verif, nil)
	if V != nil {
		defer V.cleanup()
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	h := V.hs[m.Harness]
	if h == nil {
		fmt.Println("no such harness")
		return 2
	}
	scratch, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratch)
	bin, err := V.concreteBin(h.Pkg, scratch)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	reps, err := runConcrete(bin, []string{h.Fn.Name()}, h.Fn.Name(), m.FI.Seed, 1, 1000, scratch)
	if err != nil {
		fmt.Println(err)
	}
	rc := 0
	for _, r := range reps {
		if r.Failed {
			rc = 1
			fmt.Printf("reproduced: %s violated on (%s)\n%s\n", r.Label, r.Input, r.Detail)
		} else {
			fmt.Println("the input passes on this tree")
		}
	}
	return rc
}

func (h *Harness) concreteOnly() bool { return h.Bounded || h.Finding || h.Axiom != "" }
