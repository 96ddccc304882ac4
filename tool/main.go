package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	rtdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

func main() {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check -prop ID [-tier quick|thorough] | govc run NAME... | govc list")
		os.Exit(2)
	}
	var err error
	scratchDir, err = os.MkdirTemp("", "govc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(scratchDir)
		switch os.Args[1] {
		case "check":
			code = cmdCheck(os.Args[2:])
		case "run":
			code = cmdRun(os.Args[2:])
		case "list":
			code = cmdList()
		case "sample":
			code = cmdSample(os.Args[2:])
		}
	}()
	os.Exit(code)
}

func cmdList() int {
	w, err := Load(verifDir, repoDir, "")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, c := range w.cons {
		st := ""
		if c.broken != "" {
			st = "  BROKEN: " + c.broken
		}
		fmt.Printf("%-12s %-30s %-50s %s%s\n", strings.Join(c.props, ","), c.rel, c.target, c.name, st)
	}
	for _, i := range w.invs {
		st := ""
		if i.fn == nil || i.broken {
			st = "  BROKEN"
		}
		fmt.Printf("%-12s %-30s %s#%d %s%s\n", "invariant", w.rels[i.pkg], i.target, i.loop, i.name, st)
	}
	return 0
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	to := fs.Int("t", 10000, "solver timeout in ms")
	lim := fs.Int("limit", 600, "seconds per contract")
	bnd := fs.Int("bounded", 0, "bounded unrolling")
	sm := fs.Int("sample", 0, "samples")
	prop := fs.String("prop", "", "property")
	fs.Parse(args)
	w, err := Load(verifDir, repoDir, *prop)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	want := map[string]bool{}
	for _, a := range fs.Args() {
		want[a] = true
	}
	var cons []*Contract
	for _, c := range w.cons {
		if (*prop != "" && hasProp(c, *prop)) || want[c.name] || want["all"] {
			if *bnd > 0 {
				k := *c
				k.bounded = *bnd
				c = &k
			}
			cons = append(cons, c)
		}
	}
	rs := runAll(w, cons, *to, time.Duration(*lim)*time.Second, time.Now().Add(3*time.Hour))
	code := 0
	for _, r := range rs {
		printRun(r)
		if !r.proved() {
			code = 1
		}
	}
	byRel := map[string][]*Contract{}
	cases := map[string][]caseIn{}
	imps := map[string]map[string]string{}
	for _, r := range rs {
		byRel[r.con.rel] = append(byRel[r.con.rel], r.con)
		for i, f := range r.cr.failures() {
			if f.Inputs != nil {
				cases[r.con.rel] = append(cases[r.con.rel], caseIn{r.con, fmt.Sprint(i), f.Inputs})
			}
		}
		if imps[r.con.rel] == nil {
			imps[r.con.rel] = map[string]string{}
		}
		for k, v := range r.cr.imports {
			imps[r.con.rel][k] = v
		}
	}
	for rel, cs := range byRel {
		if len(cases[rel]) == 0 && *sm == 0 {
			continue
		}
		var reg []*Contract
		for _, c := range cs {
			if c.fuzz && c.broken == "" {
				reg = append(reg, c)
			}
		}
		h := buildHarness(w, rel, cases[rel], imps[rel], reg)
		if h.err != "" {
			fmt.Println(h.err)
			continue
		}
		for _, c := range cases[rel] {
			out, _ := h.run(40*time.Second, []string{"GV_CASE=" + c.name}, "-test.run=TestGvReplay")
			got := false
			for _, r := range parseResults(out) {
				if r.Contract == c.con.name {
					fmt.Printf("REPLAY %s %s fails=%v skipped=%v\n", r.Contract, r.Case, r.Fails, r.Skipped)
					got = true
				}
			}
			if !got {
				fmt.Printf("REPLAY %s %s no result: %s\n", c.con.name, c.name, tail(out, 1500))
			}
		}
		if *sm > 0 {
			for _, c := range reg {
				s := h.sample(c, *sm, 1, 10*time.Second)
				fmt.Printf("SAMPLE %s ran=%d skipped=%d fail=%+v %s\n", c.name, s.ran, s.skipped, s.fail, s.note)
			}
		}
	}
	return code
}

func cmdSample(args []string) int { return 0 }

func hasProp(c *Contract, p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

type result struct {
	con     *Contract
	cr      *ContractRun
	e       *Engine
	bounded *ContractRun
}

func (cr *ContractRun) failures() []*Failure {
	var out []*Failure
	for _, n := range cr.order {
		out = append(out, cr.obls[n].Fails...)
	}
	return out
}

func (cr *ContractRun) clean() bool {
	if cr.err != "" {
		return false
	}
	for _, n := range cr.order {
		o := cr.obls[n]
		if o.Failed > 0 || o.Undec > 0 || (o.Cover && !o.Reached) {
			return false
		}
	}
	return true
}

func (r *result) proved() bool { return r.cr.clean() }

func printRun(r *result) {
	cr := r.cr
	st := "PROVED"
	if !r.proved() {
		st = "NOT PROVED"
	}
	fmt.Printf("== %s (%s) %s  paths=%d ended=%d queries=%d unknown=%d solver=%.1fs wall=%.1fs\n", r.con.name, r.con.target, st, cr.paths, cr.ended, q(cr).Queries, q(cr).Unknowns, q(cr).Time.Seconds(), cr.dur.Seconds())
	if cr.err != "" {
		fmt.Printf("   ERROR %s\n", cr.err)
	}
	for _, n := range cr.order {
		o := cr.obls[n]
		mark := "ok "
		if o.Failed > 0 || o.Undec > 0 || (o.Cover && !o.Reached) {
			mark = "BAD"
		}
		fmt.Printf("   %s %-60s vcs=%d proved=%d failed=%d undecided=%d\n", mark, n, o.VCs, o.Proved, o.Failed, o.Undec)
		for _, d := range o.Details {
			fmt.Printf("       %s\n", d)
		}
		for _, f := range o.Fails {
			fmt.Printf("       at %s: (%s) %s\n", f.Where, strings.Join(f.Inputs, ", "), f.Note)
		}
	}
}

func q(cr *ContractRun) *SolverStats {
	if cr.stats == nil {
		return &SolverStats{ByBackend: map[string]int{}}
	}
	return cr.stats
}

func safeRun(w *World, c *Contract, timeoutMS int, limit time.Duration) (cr *ContractRun, e *Engine) {
	defer func() {
		if r := recover(); r != nil {
			if cr == nil {
				cr = &ContractRun{con: c, obls: map[string]*Obl{}, imports: map[string]string{}}
			}
			cr.err = fmt.Sprintf("internal error of the verifier: %v", r)
			if debugOn() {
				cr.err += "\n" + string(rtdebug.Stack())
			}
		}
	}()
	return runContract(w, c, timeoutMS, limit)
}

func debugOn() bool { return os.Getenv("GOVC_DEBUG") != "" || os.Getenv("GOVC_STACK") != "" }

func runAll(w *World, cons []*Contract, timeoutMS int, limit time.Duration, end time.Time) []*result {
	rs := make([]*result, len(cons))
	n := runtime.NumCPU() - 1
	if n < 1 {
		n = 1
	}
	if n > 7 {
		n = 7
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	// a heavy contract takes the place of several, so that its solvers have the processors they need
	places := newSlots(n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				weight := 1
				if cons[i].heavy {
					weight = max(1, n/2)
				}
				places.take(weight)
				lim := limit
				if r := time.Until(end); r < lim {
					lim = r
				}
				cr, e := safeRun(w, cons[i], timeoutMS, lim)
				rs[i] = &result{con: cons[i], cr: cr, e: e}
				places.give(weight)
			}
		}()
	}
	for i := range cons {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return rs
}

// slots counts what is free of a number of places that are taken several at a time.
type slots struct {
	mu   sync.Mutex
	cond *sync.Cond
	free int
}

func newSlots(n int) *slots {
	s := &slots{free: n}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *slots) take(n int) {
	s.mu.Lock()
	for s.free < n {
		s.cond.Wait()
	}
	s.free -= n
	s.mu.Unlock()
}

func (s *slots) give(n int) {
	s.mu.Lock()
	s.free += n
	s.mu.Unlock()
	s.cond.Broadcast()
}

// ---- check

type checkRun struct {
	prop     string
	tier     string
	seed     int64
	start    time.Time
	end      time.Time
	w        *World
	rs       []*result
	viols    []string
	notes    []string
	samples  map[string]sampleStat
	fixed    []string
	fallback map[string]*ContractRun
	known    []string
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "tier")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	ck := &checkRun{prop: *prop, tier: *tier, seed: seed, start: time.Now(), samples: map[string]sampleStat{}, fallback: map[string]*ContractRun{}}
	budget := 780 * time.Second
	if *tier == "thorough" {
		budget = 3 * time.Hour
	}
	ck.end = ck.start.Add(budget)
	if err := os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	old, _ := filepath.Glob(filepath.Join(verifDir, "evidence", "replay", *prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	ck.run()
	ck.evidence()
	for _, n := range ck.notes {
		fmt.Println("NOTE:", n)
	}
	for _, k := range ck.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.prop, k)
	}
	concrete := false
	for _, v := range ck.viols {
		concrete = concrete || !strings.HasSuffix(v, "no-failing-input-found")
	}
	for _, v := range ck.viols {
		if !concrete || !strings.HasSuffix(v, "no-failing-input-found") {
			fmt.Println(v)
		}
	}
	if len(ck.viols) > 0 {
		return 1
	}
	n, vc := 0, 0
	for _, r := range ck.rs {
		n++
		for _, o := range r.cr.obls {
			vc += o.VCs
		}
	}
	fmt.Printf("OK property=%s: %d contracts, %d verification conditions discharged in %.1fs\n", ck.prop, n, vc, time.Since(ck.start).Seconds())
	return 0
}

func loopRelated(cr *ContractRun) bool {
	if strings.Contains(cr.err, "invariant") || strings.Contains(cr.err, "loop") {
		return true
	}
	return len(cr.cutLoops) > 0
}

func (ck *checkRun) run() {
	w, err := Load(verifDir, repoDir, ck.prop)
	if err != nil {
		ck.report(nil, "load", "the packages under contract could not be loaded: "+err.Error(), nil, "", false)
		return
	}
	ck.w = w
	var cons []*Contract
	for _, c := range w.cons {
		if hasProp(c, ck.prop) {
			if c.optional && c.broken != "" {
				ck.notes = append(ck.notes, fmt.Sprintf("helper contract %s skipped: %s (its callers are verified with its body inlined)", c.name, c.broken))
				continue
			}
			cons = append(cons, c)
		}
	}
	if len(cons) == 0 {
		ck.report(nil, "load", "no contract is left for this property", nil, "", false)
		return
	}
	to, lim := 15000, 420*time.Second
	if ck.tier == "thorough" {
		to, lim = 60000, time.Hour
	}
	mainEnd := ck.end.Add(-time.Since(ck.start) - 200*time.Second)
	ck.rs = runAll(w, cons, to, lim, mainEnd)
	var failed []*result
	rels := map[string]bool{}
	for _, r := range ck.rs {
		rels[r.con.rel] = true
		if !r.proved() {
			failed = append(failed, r)
		}
	}
	// bounded exploration of the contracts that were not proved and involve loops
	if len(failed) > 0 {
		var bc []*Contract
		var who []*result
		for _, r := range failed {
			if r.con.broken == "" && loopRelated(r.cr) {
				k := *r.con
				k.bounded = 5
				bc = append(bc, &k)
				who = append(who, r)
			}
		}
		if len(bc) > 0 {
			bs := runAll(w, bc, 8000, 150*time.Second, ck.end.Add(-90*time.Second))
			for i, b := range bs {
				who[i].bounded = b.cr
			}
		}
	}
	// concrete runs: counterexample replay and sampling
	var relList []string
	for r := range rels {
		relList = append(relList, r)
	}
	sort.Strings(relList)
	type repro struct {
		fails []string
		in    string
		test  string
		note  string
	}
	found := map[*result]*repro{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, rel := range relList {
		var cases []caseIn
		imps := map[string]string{}
		owner := map[string]*result{}
		var reg []*Contract
		for _, r := range ck.rs {
			if r.con.rel != rel {
				continue
			}
			if r.con.fuzz && r.con.broken == "" {
				reg = append(reg, r.con)
			}
			if r.proved() {
				continue
			}
			for _, cr := range []*ContractRun{r.bounded, r.cr} {
				if cr == nil {
					continue
				}
				for k, v := range cr.imports {
					imps[k] = v
				}
				for _, f := range cr.failures() {
					if f.Inputs == nil && len(cr.params) > 0 {
						continue
					}
					name := fmt.Sprintf("c%d", len(cases))
					cases = append(cases, caseIn{r.con, name, f.Inputs})
					owner[name] = r
				}
			}
		}
		if len(cases) == 0 && len(reg) == 0 {
			continue
		}
		h := buildHarness(w, rel, cases, imps, reg)
		if h.err != "" && len(cases) > 0 {
			// a case that does not compile must not hide the others
			ck.notes = append(ck.notes, "replay harness with cases did not build: "+tail(h.err, 500))
			cases = nil
			h = buildHarness(w, rel, nil, nil, reg)
		}
		if h.err != "" {
			ck.notes = append(ck.notes, "concrete harness of "+rel+" did not build: "+tail(h.err, 500))
			continue
		}
		for _, c := range cases {
			r := owner[c.name]
			mu.Lock()
			skip := found[r] != nil
			mu.Unlock()
			if skip {
				continue
			}
			out, _ := h.run(40*time.Second, []string{"GV_CASE=" + c.name}, "-test.run=TestGvReplay")
			var fails []string
			got := false
			for _, x := range parseResults(out) {
				got = true
				fails = append(fails, x.Fails...)
			}
			if !got {
				if k := crashKind(out); k != "" {
					fails = []string{k}
				}
			}
			if len(fails) > 0 {
				found[r] = &repro{fails, c.con.name + "(" + strings.Join(c.inputs, ", ") + ")", h.test, tail(out, 2000)}
			}
		}
		n, b := 3000, 2*time.Second
		if ck.tier == "thorough" {
			n, b = 3000000, 60*time.Second
		}
		for _, c := range reg {
			var r *result
			for _, x := range ck.rs {
				if x.con == c {
					r = x
				}
			}
			if found[r] != nil {
				continue
			}
			n, b := n, b
			if !r.proved() {
				n, b = 3000000, 25*time.Second
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				s := h.sample(c, n, ck.seed, b)
				mu.Lock()
				defer mu.Unlock()
				ck.samples[c.name] = s
				if s.fail != nil && r.proved() && strings.HasPrefix(s.fail.Fails[0], "terminates: ") {
					s.note = "a sample took longer than the time limit"
					s.fail = nil // termination is proved: the input is just expensive
					ck.samples[c.name] = s
				}
				if s.fail != nil {
					found[r] = &repro{s.fail.Fails, c.name + " with inputs " + s.fail.Inputs + " (" + s.fail.Case + ")", h.test, ""}
				}
			}()
		}
	}
	wg.Wait()
	for _, r := range ck.rs {
		if f := found[r]; f != nil {
			ck.report(r, strings.Join(f.fails, "; "), "a concrete run of the current code violates the contract", f.fails, f.in+"\n\n--- Go test ---\n"+f.test, true)
			continue
		}
		if r.proved() {
			continue
		}
		if ck.scriptOnly(r) {
			ck.fallback[r.con.name] = r.bounded
			ck.notes = append(ck.notes, fmt.Sprintf("%s: the loop annotations no longer fit the code; checked with loops unrolled %d times instead (bounded, not proved)", r.con.name, r.bounded.bound))
			continue
		}
		ck.report(r, firstBad(r.cr), "the verifier does not accept this obligation", nil, "", false)
	}
}

// scriptOnly says whether only the proof script (loop invariants) fails while the bounded check,
// which does not use it, discharges everything.
func (ck *checkRun) scriptOnly(r *result) bool {
	if r.bounded == nil || !r.bounded.clean() || r.con.broken != "" {
		return false
	}
	return true
}

func firstBad(cr *ContractRun) string {
	for _, n := range cr.order {
		o := cr.obls[n]
		if o.Failed > 0 {
			return n
		}
	}
	for _, n := range cr.order {
		o := cr.obls[n]
		if o.Undec > 0 || (o.Cover && !o.Reached) {
			return n
		}
	}
	return cr.err
}

func (ck *checkRun) report(r *result, obl, why string, fails []string, extra string, concrete bool) {
	name := "load"
	if r != nil {
		name = r.con.name
	}
	path := filepath.Join(verifDir, "evidence", "replay", ck.prop+"-"+name+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property: %s\ncontract: %s\n", ck.prop, name)
	if r != nil {
		fmt.Fprintf(&sb, "function under contract: %s (package %s)\ncontract file: %s\n", r.con.target, r.con.pkgPath, r.con.file)
	}
	fmt.Fprintf(&sb, "failed obligation: %s\nreason: %s\n", obl, why)
	if r != nil {
		for _, cr := range []*ContractRun{r.cr, r.bounded} {
			if cr == nil {
				continue
			}
			sb.WriteString("\n--- verifier output")
			if cr.bounded {
				fmt.Fprintf(&sb, " (loops unrolled %d times)", cr.bound)
			}
			sb.WriteString(" ---\n")
			if cr.err != "" {
				fmt.Fprintf(&sb, "not decided: %s\n", cr.err)
			}
			for _, n := range cr.order {
				o := cr.obls[n]
				fmt.Fprintf(&sb, "%-64s conditions=%d proved=%d failed=%d undecided=%d\n", n, o.VCs, o.Proved, o.Failed, o.Undec)
				for _, d := range o.Details {
					fmt.Fprintf(&sb, "    %s\n", d)
				}
				for _, f := range o.Fails {
					fmt.Fprintf(&sb, "    counterexample at %s: %s(%s) %s\n", f.Where, cr.con.name, strings.Join(f.Inputs, ", "), f.Note)
				}
			}
		}
	}
	if extra != "" {
		fmt.Fprintf(&sb, "\n--- failing run on the real code ---\n%s\n", extra)
	}
	fmt.Fprintf(&sb, "\nreproduce: cd /verif && tool/govc check -prop %s\n", ck.prop)
	os.WriteFile(path, []byte(sb.String()), 0o644)
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", ck.prop, path)
	fmt.Printf("%s: %s: %s\n", name, why, tail(obl, 400))
	if !concrete {
		line += " no-failing-input-found"
	}
	ck.viols = append(ck.viols, line)
}

func (ck *checkRun) evidence() {
	obls, disch := 0, 0
	byBackend := map[string]int{}
	var st time.Duration
	queries := 0
	type fnEv struct {
		Contract    string         `json:"contract"`
		Function    string         `json:"function"`
		Package     string         `json:"package"`
		Status      string         `json:"status"`
		Obligations map[string]int `json:"obligations"`
		VCs         int            `json:"verification_conditions"`
		Discharged  int            `json:"discharged"`
		Paths       int            `json:"paths_ended"`
		WallS       float64        `json:"wall_s"`
		Loops       []string       `json:"loops_with_invariant,omitempty"`
		Bounded     int            `json:"bound,omitempty"`
	}
	var fns []fnEv
	trusted, inl, used := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var bounded []string
	provedN := 0
	for _, r := range ck.rs {
		f := fnEv{Contract: r.con.name, Function: r.con.target, Package: r.con.pkgPath, Obligations: map[string]int{}, Paths: r.cr.ended, WallS: round(r.cr.dur.Seconds())}
		if r.con.lemma {
			f.Function = "(lemma)"
		}
		for _, n := range r.cr.order {
			o := r.cr.obls[n]
			f.Obligations[n] = o.VCs
			f.VCs += o.VCs
			f.Discharged += o.Proved
		}
		for l := range r.cr.cutLoops {
			f.Loops = append(f.Loops, l)
		}
		sort.Strings(f.Loops)
		switch {
		case r.proved() && r.con.bounded > 0:
			f.Status, f.Bounded = "bounded", r.con.bounded
			bounded = append(bounded, fmt.Sprintf("%s: loops unrolled at most %d times", r.con.name, r.con.bounded))
		case r.proved():
			f.Status = "proved"
			provedN++
			obls += f.VCs
			disch += f.Discharged
		case ck.fallback[r.con.name] != nil:
			f.Status, f.Bounded = "bounded", ck.fallback[r.con.name].bound
			bounded = append(bounded, fmt.Sprintf("%s: loop annotations do not fit the current code; loops unrolled at most %d times", r.con.name, f.Bounded))
		default:
			f.Status = "not proved: " + firstBad(r.cr)
			obls += f.VCs
			disch += f.Discharged
		}
		fns = append(fns, f)
		if r.cr.stats != nil {
			for b, n := range r.cr.stats.ByBackend {
				byBackend[b] += n
			}
			st += r.cr.stats.Time
			queries += r.cr.stats.Queries
		}
		if r.e != nil {
			for k := range r.e.trusted {
				trusted[k] = true
			}
			for k := range r.e.inlined {
				inl[k] = true
			}
			for k := range r.e.usedContracts {
				used[k] = true
			}
		}
	}
	ran := 0
	for _, s := range ck.samples {
		ran += s.ran
	}
	tb := []string{
		"govc, the verification-condition generator in /verif/tool (symbolic execution of go/ssa from golang.org/x/tools v0.52.0)",
		"z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (an unsat answer of any one of them discharges a condition)",
		"the Go compiler's agreement with go/ssa on the meaning of the source",
		"the contracts in /verif/contracts say what the property says",
	}
	for _, k := range keys(trusted) {
		tb = append(tb, "model of "+k)
	}
	cov := map[string]interface{}{
		"obligations":               obls,
		"discharged":                disch,
		"checker_cmd":               "cd /verif && tool/govc check -prop " + ck.prop + " -tier " + ck.tier,
		"trusted_base":              tb,
		"functions_under_contract":  fns,
		"contracts_proved":          provedN,
		"solver_queries":            queries,
		"solver_queries_by_backend": byBackend,
		"solver_s":                  round(st.Seconds()),
		"inlined_functions":         keys(inl),
		"contracts_used_at_calls":   keys(used),
		"bounded":                   bounded,
		"concrete_cross_check_runs": ran,
	}
	level := "proof"
	standIns := 0
	for _, r := range ck.rs {
		if r.con.bounded > 0 {
			standIns++
		}
	}
	if 2*standIns >= len(ck.rs) && standIns > 0 {
		// not a proof: half or more of the contracts of this property stand on a bounded unrolling
		level = "other"
		cov["explanation"] = "These contracts of this property are discharged only up to the stated bound (loops unrolled, histories of bounded length): " + strings.Join(bounded, "; ")
	}
	ev := map[string]interface{}{
		"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": level, "coverage": cov,
		"assumptions": assumptions,
		"wall_s":      round(time.Since(ck.start).Seconds()), "violations": len(ck.viols),
	}
	if len(ck.notes) > 0 {
		ev["notes"] = ck.notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", ck.prop+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"lengths and capacities of slices and strings handed in are at most 2^46 and 0 <= len <= cap; memory allocation succeeds",
	"one goroutine runs at a time (interference between goroutines is outside these contracts); sync primitives are modelled as uncontended",
	"distinct slice and pointer parameters of a contract do not overlap unless the contract says so; values the contracts leave opaque are not modified behind the code's back",
	"floating point values are treated as their bit patterns (moved, compared bitwise, never calculated with)",
	"machine integers are bit vectors of their Go width on a 64-bit platform (nothing is treated as a mathematical integer)",
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }
