package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
}

func (k Known) is(id, harness, msg string) bool {
	hm, _ := regexp.MatchString("^(?:"+k.Harness+")$", harness)
	mm, _ := regexp.MatchString("^(?:"+k.Msg+")$", msg)
	return k.Property == id && hm && mm
}

// unlisted is whether r has a violation that is no known finding.
func unlisted(r *HarnessResult, id, verif string) bool {
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
next:
	for _, v := range r.Violations {
		for _, k := range known {
			if k.is(id, v.Harness, v.Msg) {
				continue next
			}
		}
		return true
	}
	return false
}

type nativeJob struct {
	Harness string   `json:"harness"`
	Vals    []uint64 `json:"vals"`
	Names   []string `json:"names"`
	Tier    string   `json:"tier"`
	Repeat  int      `json:"repeat"`
}
type nativeRes struct {
	Fail *struct{ Kind, Msg string } `json:"fail"`
	Log  []string                    `json:"log"`
	End  string                      `json:"end"`
}

func job(h, tier string, in []InVal, repeat int) nativeJob {
	j := nativeJob{Harness: h, Tier: tier, Repeat: repeat}
	for _, x := range in {
		j.Vals = append(j.Vals, x.V)
		j.Names = append(j.Names, x.Name)
	}
	return j
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"harness"
	"os"
	"sym"
)

var table = map[string]func(){
%s}

type job struct {
	Harness string   ` + "`json:\"harness\"`" + `
	Vals    []uint64 ` + "`json:\"vals\"`" + `
	Names   []string ` + "`json:\"names\"`" + `
	Tier    string   ` + "`json:\"tier\"`" + `
	Repeat  int      ` + "`json:\"repeat\"`" + `
}
type res struct {
	Fail *sym.Failure ` + "`json:\"fail\"`" + `
	Log  []string     ` + "`json:\"log\"`" + `
	End  string       ` + "`json:\"end\"`" + `
}

func main() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	out := json.NewEncoder(os.Stdout)
	for _, j := range jobs {
		f := table[j.Harness]
		var r res
		for k := 0; k == 0 || k < j.Repeat; k++ {
			sym.Start(j.Vals, j.Names, j.Tier == "thorough")
			r.Fail, r.Log, r.End = sym.Run(f)
			if r.Fail != nil {
				break
			}
		}
		out.Encode(r)
	}
}
`

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stdout, f+"\n", a...)
	os.Exit(code)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func main() {
	var (
		id      = flag.String("id", "", "property id")
		only    = flag.String("h", "", "regexp of harness names")
		tier    = flag.String("tier", "", "quick or thorough")
		verif   = flag.String("verif", "/verif", "")
		repo    = flag.String("repo", "/repo", "")
		verbose = flag.Bool("v", false, "")
		budget  = flag.Int("budget", 0, "seconds")
		workers = flag.Int("j", 0, "")
		replayF = flag.String("replay", "", "replay file")
		first   = flag.Bool("first", false, "end with the first harness that has a violation")
	)
	docs := flag.Bool("docs", false, "list the harnesses")
	flag.Parse()
	if *docs {
		printDocs(*verif)
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetMemoryLimit(20 << 30)
	debug.SetGCPercent(200)
	t0 := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(3, "scratch: %v", err)
	}
	code := check(*id, *only, *tier, *verif, *repo, *verbose, *budget, *workers, *replayF, *first, t0)
	cleanup()
	os.Exit(code)
}

func check(id, only, tier, verif, repo string, verbose bool, budgetS, workers int, replayF string, first bool, t0 time.Time) int {
	// package simple: the generated code committed in the repository
	simple := filepath.Join(scratch, "gopath", "src", "simple")
	os.MkdirAll(simple, 0o755)
	gen, _ := filepath.Glob(filepath.Join(repo, "tests/generation/golden/gen-go/simple/*.go"))
	for _, g := range gen {
		if !strings.HasSuffix(g, "_test.go") {
			os.Symlink(g, filepath.Join(simple, filepath.Base(g)))
		}
	}
	// The GOPATH copy of the library has no tests in it: only the package's own files are loaded anyway.
	os.Setenv("GOENV", "off")
	os.Setenv("GO111MODULE", "off")
	os.Setenv("GOFLAGS", "")
	os.Setenv("GOWORK", "off")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("CGO_ENABLED", "0")
	os.Setenv("GOPATH", filepath.Join(repo, "lib/go")+":"+filepath.Join(verif, "gopath")+":"+filepath.Join(scratch, "gopath"))

	pkgs := []string{"harness", "symrt", "simple", "thrift"}
	texts, textCode := 0, 0
	report := func(what string) { // a violation that has no inputs
		for _, k := range loadKnown(filepath.Join(verif, "known_findings.json")) {
			if k.Property == id && k.Harness == "Generate" {
				if m, _ := regexp.MatchString("^(?s:"+k.Msg+")$", what); m {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					return
				}
			}
		}
		texts++
		textCode = 1
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-generate-%d.json", id, texts))
		b, _ := json.MarshalIndent(map[string]string{"harness": "Generate", "kind": "generate", "msg": what}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", id, path, what)
	}
	if usesGenerator(id) {
		broken, err := generate(repo, verif)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		for _, b := range broken {
			report(b)
		}
		os.Setenv("GOFLAGS", "-tags=generated")
		pkgs = append(pkgs, generatedPackages...)
	}
	eng, err := load(pkgs...)
	if err != nil && usesGenerator(id) && textCode == 0 && strings.Contains(err.Error(), "/h3") {
		report("a program that uses what is generated does not compile: " + clip(err.Error(), 1500))
	}
	if err != nil {
		fmt.Println("ERROR: the code could not be loaded:", err)
		if textCode != 0 {
			return textCode
		}
		return 2
	}
	eng.thorough = tier == "thorough"
	if workers > 0 {
		eng.workers = workers
	} else if n := runtime.NumCPU(); n < eng.workers {
		eng.workers = max(n, 1)
	}
	hp := eng.pkgs["harness"]
	var all []string
	var sel []*ssa.Function
	re := regexp.MustCompile(only)
	for name, m := range hp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !regexp.MustCompile(`^C\d\d_`).MatchString(name) {
			continue
		}
		all = append(all, name)
		if strings.HasPrefix(name, id+"_") && re.MatchString(name) {
			sel = append(sel, f)
		}
	}
	sort.Strings(all)
	sort.Slice(sel, func(i, j int) bool { return sel[i].Name() < sel[j].Name() })
	if len(sel) == 0 {
		fmt.Println("ERROR: no harness for", id)
		return 2
	}
	// native build, in parallel with the exploration
	bin := filepath.Join(scratch, "replay")
	buildErr := make(chan error, 1)
	go func() {
		d := filepath.Join(scratch, "gopath", "src", "replaymain")
		os.MkdirAll(d, 0o755)
		var tb strings.Builder
		for _, n := range all {
			fmt.Fprintf(&tb, "\t%q: harness.%s,\n", n, n)
		}
		os.WriteFile(filepath.Join(d, "main.go"), []byte(fmt.Sprintf(replayMain, tb.String())), 0o644)
		cmd := exec.Command("go", "build", "-o", bin, "replaymain")
		cmd.Dir = scratch
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		buildErr <- err
	}()
	runNative := func(jobs []nativeJob, timeout time.Duration) ([]nativeRes, bool) {
		in, _ := json.Marshal(jobs)
		cmd := exec.Command("bash", "-c", "ulimit -v 16000000; exec "+bin)
		cmd.Stdin = bytes.NewReader(in)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB")
		cmd.Start()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		timedOut := false
		select {
		case <-done:
		case <-time.After(timeout):
			timedOut = true
			cmd.Process.Kill()
			<-done
		}
		var rs []nativeRes
		dec := json.NewDecoder(bytes.NewReader(out.Bytes()))
		for {
			var r nativeRes
			if dec.Decode(&r) != nil {
				break
			}
			rs = append(rs, r)
		}
		return rs, timedOut
	}
	if replayF != "" {
		var v Violation
		b, err := os.ReadFile(replayF)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		if err := <-buildErr; err != nil {
			fmt.Println("ERROR: native build:", err)
			return 2
		}
		rs, to := runNative([]nativeJob{job(v.Harness, v.Tier, v.Inputs, 300)}, 30*time.Second)
		fmt.Printf("timeout=%v results=%+v\n", to, rs)
		if len(rs) == 1 && rs[0].Fail != nil {
			fmt.Printf("%s: %s\n", rs[0].Fail.Kind, rs[0].Fail.Msg)
			return 1
		}
		return 0
	}

	total := 240 * time.Second
	if eng.thorough {
		total = 840 * time.Second
	}
	if budgetS > 0 {
		total = time.Duration(budgetS) * time.Second
	}
	var results []*HarnessResult
	start := time.Now()
	for i, f := range sel {
		left := total - time.Since(start)
		b := left / time.Duration(len(sel)-i)
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		// a harness may use most of what is left when few remain; otherwise three shares
		if s := b * 3; s < left {
			b = s
		} else if len(sel)-i > 1 {
			b = left * 2 / 3
		}
		r := eng.explore(f, b, 20000000)
		results = append(results, r)
		if verbose {
			printResult(r)
		}
		if first && unlisted(r, id, verif) {
			break
		}
	}
	if err := <-buildErr; err != nil {
		fmt.Println("ERROR: native build:", err)
		return 2
	}
	// concordance: sampled passing paths are run natively and must log the same values
	validated, mismatched := int64(0), []string{}
	var jobs []nativeJob
	var trs []*Trace
	for _, r := range results {
		for _, t := range r.Traces {
			jobs = append(jobs, job(t.Harness, t.Tier, t.Inputs, 0))
			trs = append(trs, t)
		}
	}
	if len(jobs) > 0 {
		rs, to := runNative(jobs, 120*time.Second)
		for i, t := range trs {
			if i >= len(rs) {
				mismatched = append(mismatched, fmt.Sprintf("%s: no native result (timeout=%v)", t.Harness, to))
				if verbose {
					fmt.Printf("CONCORDANCE %s: no native result: inputs %v\n", t.Harness, t.Inputs)
				}
				break
			}
			r := rs[i]
			if r.Fail == nil && r.End == t.End && strings.Join(r.Log, "\n") == strings.Join(t.Log, "\n") {
				validated++
				continue
			}
			d := fmt.Sprintf("%s: native end %q fail %v", t.Harness, r.End, r.Fail)
			if r.Fail != nil {
				d += " " + r.Fail.Msg
			}
			for k := range t.Log {
				if k >= len(r.Log) || r.Log[k] != t.Log[k] {
					nl := "(none)"
					if k < len(r.Log) {
						nl = r.Log[k]
					}
					d += fmt.Sprintf("; log %d: symbolic %s native %s", k, t.Log[k], nl)
					break
				}
			}
			mismatched = append(mismatched, d)
			if verbose {
				fmt.Println("CONCORDANCE", d, t.Inputs)
			}
		}
	}
	// replay of counterexamples
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	type rep struct {
		v    *Violation
		real *struct{ Kind, Msg string }
	}
	var confirmed []rep
	unconfirmed := map[string]int{}
	seen := map[string]int{}
	tried := map[string]int{}
	deadline := time.Now().Add(150 * time.Second)
	for _, r := range results {
		for _, v := range r.Violations {
			k := v.Harness + "|" + v.Kind + "|" + v.Msg
			if seen[k] > 0 || tried[k] >= 12 {
				continue
			}
			if time.Now().After(deadline) && len(confirmed) > 0 {
				continue
			}
			tried[k]++
			rep1 := 0
			if v.maporder {
				rep1 = 400
			}
			rs, to := runNative([]nativeJob{job(v.Harness, v.Tier, v.Inputs, rep1)}, 20*time.Second)
			switch {
			case len(rs) == 1 && rs[0].Fail != nil:
				seen[k]++
				confirmed = append(confirmed, rep{v, rs[0].Fail})
			case len(rs) == 0 && to && (v.Kind == "hang" || v.Kind == "deadlock"):
				seen[k]++
				confirmed = append(confirmed, rep{v, &struct{ Kind, Msg string }{v.Kind, v.Msg + " (native run does not end)"}})
			case len(rs) == 0 && !to && v.Kind != "assert":
				// the process died: stack overflow, deadlock or out of memory
				seen[k]++
				confirmed = append(confirmed, rep{v, &struct{ Kind, Msg string }{v.Kind, v.Msg + " (native run crashes)"}})
			default:
				unconfirmed[k]++
				if verbose {
					fmt.Printf("UNCONFIRMED %s inputs=%v native=%+v timeout=%v\n   sym log %v\n", k, v.Inputs, rs, to, v.Log)
				}
			}
		}
	}
	code := textCode
	nviol := texts
	knownPrinted := map[string]bool{}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	var vioText []string
	for _, c := range confirmed {
		matched := false
		for _, k := range known {
			if k.is(id, c.v.Harness, c.real.Msg) {
				matched = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.What)
				if !knownPrinted[line] {
					knownPrinted[line] = true
					fmt.Println(line)
				}
				break
			}
		}
		if matched {
			continue
		}
		nviol++
		path := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", id, nviol))
		c.v.Msg = c.real.Msg
		b, _ := json.MarshalIndent(c.v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s: %s: %s\n  inputs: %s\n", c.v.Harness, c.real.Kind, c.real.Msg, inputsText(c.v.Inputs))
		vioText = append(vioText, c.v.Harness+": "+c.real.Msg)
		code = 1
	}
	vac := []string{}
	for _, r := range results {
		if r.Ends["ok"] == 0 && len(r.Violations) == 0 || r.Reached["end"] == 0 && len(r.Violations) == 0 {
			vac = append(vac, r.Name)
		}
	}
	writeEvidence(eng, id, tier, verif, results, validated, mismatched, unconfirmed, vac, nviol, trs, t0)
	summary(eng, results, validated, mismatched, unconfirmed, vac, t0)
	for _, w := range eng.pool {
		if w != nil {
			w.solver.stop()
		}
	}
	if len(vac) > 0 && code == 0 {
		fmt.Println("INCONCLUSIVE: no path reaches the end of:", strings.Join(vac, " "))
		if id != "" {
			return 2
		}
	}
	return code
}

func inputsText(in []InVal) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", x.Name, x.V)
		if sb.Len() > 600 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

func loadKnown(p string) []Known {
	var k struct {
		Known []Known `json:"known"`
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Println("ERROR: known findings:", err)
	}
	return k.Known
}

func printResult(r *HarnessResult) {
	fmt.Printf("-- %s: %d paths, %d decisions, %d instrs, %d asserts, %.1fs, pending %d %s\n", r.Name, r.Paths, r.Decisions, r.Instrs, r.Asserts, r.Wall.Seconds(), r.Pending, r.Incomplete)
	pm := func(n string, m map[string]int64) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("     %s %s = %d\n", n, k, m[k])
		}
	}
	pm("end", r.Ends)
	pm("note", r.Notes)
	pm("reach", r.Reached)
	last := ""
	for _, v := range r.Violations {
		if v.Msg != last {
			fmt.Printf("     VIOL %s %q: %s\n          log %v\n", v.Kind, v.Msg, inputsText(v.Inputs), v.Log)
			last = v.Msg
		}
	}
}

type solverStats struct {
	q, sat, unsat, unk, errs, hits int64
	t, max                         time.Duration
}

func (e *Engine) solverStats() (s solverStats) {
	for _, w := range e.pool {
		if w == nil {
			continue
		}
		s.q += w.solver.Queries
		s.sat += w.solver.SatN
		s.unsat += w.solver.UnsatN
		s.unk += w.solver.UnknownN
		s.errs += w.solver.Errors
		s.hits += w.solver.Hits
		s.t += w.solver.Time
		if w.solver.MaxTime > s.max {
			s.max = w.solver.MaxTime
		}
	}
	return
}

func summary(e *Engine, rs []*HarnessResult, validated int64, mism []string, unconf map[string]int, vac []string, t0 time.Time) {
	s := e.solverStats()
	var p, a int64
	for _, r := range rs {
		p += r.Paths
		a += r.Asserts
		if r.Pending > 0 {
			fmt.Printf("reduced bound: %s left %d branches unexplored (%s)\n", r.Name, r.Pending, r.Incomplete)
		}
		for k, n := range r.Ends {
			if strings.HasPrefix(k, "unsupported") || strings.HasPrefix(k, "internal") || strings.HasPrefix(k, "unknown") {
				fmt.Printf("reduced bound: %s: %d paths ended with %s\n", r.Name, n, k)
			}
		}
	}
	fmt.Printf("%d harnesses, %d paths, %d assertion decisions, %d solver queries (%d sat, %d unsat, %d unknown, %d errors, %d cached), solver %.1fs, longest %.2fs; %d native traces agree, %d disagree; %d unconfirmed counterexamples; wall %.1fs\n",
		len(rs), p, a, s.q, s.sat, s.unsat, s.unk, s.errs, s.hits, s.t.Seconds(), s.max.Seconds(), validated, len(mism), len(unconf), time.Since(t0).Seconds())
}

func writeEvidence(e *Engine, id, tier, verif string, rs []*HarnessResult, validated int64, mism []string, unconf map[string]int, vac []string, nviol int, trs []*Trace, t0 time.Time) {
	s := e.solverStats()
	var states, trans, instrs, asserts int64
	fns := map[string]int{}
	models := map[string]int{}
	hs := []any{}
	reduced := []string{}
	docs := harnessDocs(verif)
	for _, r := range rs {
		states += r.Paths
		trans += r.Decisions
		instrs += r.Instrs
		asserts += r.Asserts
		for k, n := range r.Touched {
			if strings.HasPrefix(k, "~") {
				models[k[1:]] += n
			} else {
				fns[k] += n
			}
		}
		doc := docs[r.Name]
		if doc == nil {
			doc = &harnessDoc{}
		}
		hs = append(hs, map[string]any{"harness": r.Name, "covers": doc.Doc, "bounds": doc.Bounds, "paths": r.Paths, "decisions": r.Decisions, "assertions_decided": r.Asserts, "path_ends": r.Ends, "notes": r.Notes, "reached": r.Reached, "unexplored": r.Pending, "wall_s": r.Wall.Seconds(), "complete": r.Pending == 0})
		if r.Pending > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d branches left (%s)", r.Name, r.Pending, r.Incomplete))
		}
		for k, n := range r.Ends {
			if k != "ok" && k != "assume" {
				reduced = append(reduced, fmt.Sprintf("%s: %d paths end with %s", r.Name, n, k))
			}
		}
		for k, n := range r.Notes {
			if strings.HasPrefix(k, "unknown") || strings.HasPrefix(k, "undecided") || strings.HasPrefix(k, "value enumeration") || strings.HasPrefix(k, "solver") {
				reduced = append(reduced, fmt.Sprintf("%s: %s (%d)", r.Name, k, n))
			}
		}
	}
	for k, n := range unconf {
		reduced = append(reduced, fmt.Sprintf("counterexample not reproduced natively: %s (%d)", k, n))
	}
	thr, std, hn := []string{}, []string{}, []string{}
	for k := range fns {
		switch {
		case strings.HasPrefix(k, "thrift.") || strings.Contains(k, "(*thrift.") || strings.HasPrefix(k, "(thrift.") || strings.Contains(k, "simple.") || strings.Contains(k, "every."):
			thr = append(thr, k)
		case strings.Contains(k, "harness.") || strings.Contains(k, "sym."):
			hn = append(hn, k)
		default:
			std = append(std, k)
		}
	}
	sort.Strings(thr)
	sort.Strings(std)
	sort.Strings(reduced)
	md := []string{}
	for k := range models {
		md = append(md, k)
	}
	sort.Strings(md)
	samples := []any{}
	for i, t := range trs {
		if i%(len(trs)/6+1) == 0 {
			samples = append(samples, map[string]any{"harness": t.Harness, "inputs": inputsText(t.Inputs), "observed": t.Log})
		}
	}
	if len(samples) == 0 {
		for _, r := range rs {
			samples = append(samples, map[string]any{"harness": r.Name, "paths": r.Paths, "ends": r.Ends})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(mism) > 20 {
		mism = mism[:20]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"what":               "states: symbolic execution paths decided; transitions: symbolic decisions taken on them; traces: sampled paths whose model was run natively with the same observations",
			"assertions_decided": asserts, "instructions_executed": instrs,
			"queries": s.q, "queries_sat": s.sat, "queries_unsat": s.unsat, "queries_unknown": s.unk, "solver_errors": s.errs, "queries_answered_from_cache": s.hits,
			"solver_time_s": s.t.Seconds(), "longest_query_s": s.max.Seconds(), "solver": z3Path,
			"functions_encoded": thr, "functions_encoded_count": len(thr), "library_functions_encoded": std, "harness_functions": len(hn), "modelled_functions": md,
			"harnesses": hs, "reduced_bounds": reduced, "trace_disagreements": mism, "vacuous": vac,
			"exhaustive": len(reduced) == 0,
		},
		"assumptions": []string{"bounds are those listed per harness (coverage.harnesses[].bounds: the calls that make its inputs, with quick and thorough values of Bound), and DESIGN.md", "standard-library functions listed under modelled_functions are replaced by the models described in DESIGN.md"},
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
}
