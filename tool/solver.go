package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// PC is a persistent list of assumptions (a path condition).
type PC struct {
	t      *Term
	parent *PC
	depth  int
	id     int64
}

var pcSeq int64

func (p *PC) And(c *Ctx, t *Term) *PC {
	if t.isTrue() || p.has(t) {
		return p
	}
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{t, p, d, atomic.AddInt64(&pcSeq, 1)}
}

func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.parent {
		if q.t == t {
			return true
		}
		if q.t.op == OBAnd {
			for _, a := range q.t.args {
				if a == t {
					return true
				}
			}
		}
	}
	return false
}

func (p *PC) list() []*Term {
	n := 0
	if p != nil {
		n = p.depth
	}
	out := make([]*Term, n)
	for q := p; q != nil; q = q.parent {
		n--
		out[n] = q.t
	}
	return out
}

type SolverStats struct {
	Queries   int
	ByBackend map[string]int
	Time      time.Duration
	Unknowns  int
}

type Solver struct {
	c          *Ctx
	bin        string
	cmd        *exec.Cmd
	in         io.WriteCloser
	out        *bufio.Reader
	declared   int
	defined    map[int]bool
	stack      []*PC // asserted nodes; one push per node
	cache      map[string]Result
	timeout    int // ms
	stats      *SolverStats
	facts      map[*Term][]*Term // leaf typing facts
	factSet    map[int][]*Term   // memo: facts needed for a term
	asserted   map[*Term]int     // fact -> count of levels asserting (we track by level)
	levels     [][]*Term         // facts asserted at each level
	dead       bool
	stackExtra bool
	quick      bool // settle for not knowing soon
}

func NewSolver(c *Ctx, timeoutMS int) *Solver {
	s := &Solver{c: c, bin: "z3-new", defined: map[int]bool{}, cache: map[string]Result{}, timeout: timeoutMS,
		stats: &SolverStats{ByBackend: map[string]int{}}, facts: map[*Term][]*Term{}, factSet: map[int][]*Term{}, asserted: map[*Term]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	s.stackExtra = false
	s.declared, s.defined, s.stack = 0, map[int]bool{}, nil
	s.asserted, s.levels = map[*Term]int{}, nil
	s.dead = false
	s.send("(set-option :global-declarations true)")
	s.setTimeout(fastMS)
}

// fastMS is the time the incremental solver gets before the portfolio is asked.
const fastMS = 300

func (s *Solver) setTimeout(ms int) { s.send(fmt.Sprintf("(set-option :timeout %d)", ms)) }

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(line string) {
	if _, err := io.WriteString(s.in, line+"\n"); err != nil {
		s.dead = true
	}
}

func (s *Solver) recv() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return ""
	}
	return strings.TrimSpace(line)
}

// AddFact attaches a fact that is asserted whenever term t occurs in a query.
func (s *Solver) AddFact(t, fact *Term) {
	if fact.isTrue() {
		return
	}
	for _, f := range s.facts[t] {
		if f == fact {
			return
		}
	}
	s.facts[t] = append(s.facts[t], fact)
	s.factSet = map[int][]*Term{}
}

// neededFacts are the facts t's subterms bring along; whole says no subterm was left out because it is
// being visited already (only then is the result worth keeping).
func (s *Solver) neededFacts(t *Term, visiting map[int]bool) (out []*Term, whole bool) {
	if r, ok := s.factSet[t.id]; ok {
		return r, true
	}
	if visiting[t.id] {
		return nil, false
	}
	root := len(visiting) == 0
	visiting[t.id] = true
	whole = true
	seen := map[*Term]bool{}
	add := func(t *Term) {
		fs, w := s.neededFacts(t, visiting)
		whole = whole && w
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, f := range s.facts[t] {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
		add(f)
	}
	if whole || root {
		s.factSet[t.id] = out
		delete(visiting, t.id)
		return out, true
	}
	// what it brings is part of what its ancestors do: no need to look at it again from them
	return out, false
}

// closure of facts for a set of terms
func (s *Solver) factsFor(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	work := append([]*Term(nil), ts...)
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		fs, _ := s.neededFacts(t, map[int]bool{})
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
				work = append(work, f)
			}
		}
	}
	return out
}

func (s *Solver) define(t *Term) {
	for ; s.declared < len(s.c.decls); s.declared++ {
		s.send(s.c.decls[s.declared])
	}
	var lines []string
	defs(t, s.defined, &lines)
	for _, l := range lines {
		s.send(l)
	}
}

func (s *Solver) push() {
	s.send("(push 1)")
	s.levels = append(s.levels, nil)
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)", n))
	for i := 0; i < n; i++ {
		l := s.levels[len(s.levels)-1]
		for _, f := range l {
			delete(s.asserted, f)
		}
		s.levels = s.levels[:len(s.levels)-1]
	}
}

func (s *Solver) assert(t *Term) {
	for _, f := range s.factsFor([]*Term{t}) {
		if s.asserted[f] == 0 {
			s.asserted[f] = 1
			s.levels[len(s.levels)-1] = append(s.levels[len(s.levels)-1], f)
			s.define(f)
			s.send("(assert " + ref(f) + ")")
		}
	}
	s.define(t)
	s.send("(assert " + ref(t) + ")")
}

func (s *Solver) sync(pc *PC) {
	var nodes []*PC
	for q := pc; q != nil; q = q.parent {
		nodes = append(nodes, q)
	}
	for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
		nodes[i], nodes[j] = nodes[j], nodes[i]
	}
	k := 0
	for k < len(nodes) && k < len(s.stack) && nodes[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for ; k < len(nodes); k++ {
		s.push()
		s.assert(nodes[k].t)
		s.stack = append(s.stack, nodes[k])
	}
}

// Check decides pc /\ extra. keep leaves the extra level pushed when sat, so that
// the caller can ask for values; the caller then calls s.Release().
func (s *Solver) Check(pc *PC, extra *Term, keep bool) Result {
	if extra.isFalse() {
		return Unsat
	}
	var key string
	if !keep {
		pid := int64(0)
		if pc != nil {
			pid = pc.id
		}
		key = fmt.Sprintf("%d|%d", pid, extra.id)
		if r, ok := s.cache[key]; ok {
			return r
		}
		neg := s.c.Not(extra)
		if pc.has(neg) {
			return Unsat
		}
	}
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	r := s.tryCheck(pc, extra)
	defer func() {
		if slowMS > 0 && time.Since(t0) > time.Duration(slowMS)*time.Millisecond {
			f, _ := os.CreateTemp("/tmp/slow", "s*.smt2")
			if f != nil {
				f.WriteString(s.Script(pc, extra))
				f.Close()
				fmt.Fprintf(os.Stderr, "slow %v %v %s keep=%v\n", time.Since(t0), r, f.Name(), keep)
			}
		}
	}()
	if s.dead {
		s.Close()
		s.start()
		r = s.tryCheck(pc, extra)
		if s.dead {
			s.Close()
			s.start()
			r = Unknown
		}
	}
	backend := "z3-5.3.2"
	if r == Unknown {
		s.popExtra()
		r2, b := s.portfolio(pc, extra)
		if r2 != Unknown {
			r, backend = r2, b
		} else if s.quick {
			return Unknown
		} else {
			s.stats.Unknowns++
		}
		if keep && r2 == Sat { // the caller wants a model: ask the incremental solver again, with more time
			s.setTimeout(s.timeout)
			r = s.tryCheck(pc, extra)
			s.setTimeout(fastMS)
			if s.dead {
				s.Close()
				s.start()
				r = Unknown
			}
			if r == Unsat {
				panic("solver: " + b + " and z3 disagree")
			}
			if r == Unknown {
				s.popExtra()
				s.stats.Unknowns++
			}
			backend = "z3-5.3.2"
		}
		s.stats.ByBackend[backend]++
		if !keep {
			s.cache[key] = r
		}
		return r
	}
	s.stats.ByBackend[backend]++
	if !keep || r != Sat {
		s.popExtra()
	}
	if !keep {
		s.cache[key] = r
	}
	return r
}

func (s *Solver) tryCheck(pc *PC, extra *Term) Result {
	s.popExtra()
	s.sync(pc)
	s.push()
	s.stackExtra = true
	s.assert(extra)
	s.send("(check-sat)")
	for {
		l := s.recv()
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || strings.HasPrefix(l, "timeout"):
			return Unknown
		case s.dead:
			return Unknown
		case strings.HasPrefix(l, "(error") && strings.Contains(l, "canceled"):
			s.dead = true // it ran out of time between two queries: start afresh
			return Unknown
		case strings.HasPrefix(l, "(error"):
			panic("solver: " + l)
		}
	}
}

func (s *Solver) popExtra() {
	if s.stackExtra && !s.dead {
		s.pop(1)
	}
	s.stackExtra = false
}
func (s *Solver) Release() { s.popExtra() }

// Values evaluates terms in the current model (after a kept Sat check).
func (s *Solver) Values(ts []*Term) ([]uint64, error) {
	out := make([]uint64, len(ts))
	for i, t := range ts {
		if t.isConst() {
			out[i] = t.val
			continue
		}
		s.define(t)
		s.send("(eval " + ref(t) + " :completion true)")
		l := s.recv()
		if l == "" || strings.HasPrefix(l, "(error") {
			return nil, fmt.Errorf("eval: %s", l)
		}
		v, err := parseVal(l)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func parseVal(l string) (uint64, error) {
	switch {
	case l == "true":
		return 1, nil
	case l == "false":
		return 0, nil
	case strings.HasPrefix(l, "#x"):
		return strconv.ParseUint(l[2:], 16, 64)
	case strings.HasPrefix(l, "#b"):
		return strconv.ParseUint(l[2:], 2, 64)
	}
	return 0, fmt.Errorf("value %q", l)
}

// Script renders a stand-alone SMT-LIB query.
func (s *Solver) Script(pc *PC, extra *Term) string {
	ts := append(pc.list(), extra)
	return s.script(append(s.factsFor(ts), ts...))
}

func (s *Solver) script(ts []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_UFBV)\n")
	for _, d := range s.c.decls {
		sb.WriteString(d + "\n")
	}
	done := map[int]bool{}
	var lines []string
	for _, t := range ts {
		defs(t, done, &lines)
	}
	for _, l := range lines {
		sb.WriteString(l + "\n")
	}
	for _, t := range ts {
		sb.WriteString("(assert " + ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var slowMS, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))

var scratchDir string
var scriptSeq int

func runSolver(ctx context.Context, argv []string) Result {
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	b, _ := cmd.Output()
	for _, l := range strings.Split(string(b), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

// slices are subsets of the path condition (and facts) that may already contradict extra.
func (s *Solver) slices(pc *PC, extra *Term) (out [][]*Term) {
	all := pc.list()
	if len(all) < 12 {
		return nil
	}
	last := append(append([]*Term(nil), all[len(all)-10:]...), extra)
	out = append(out, append([]*Term(nil), last...), append(s.factsFor(last), last...))
	// conditions about the same unknowns as extra, and nothing else
	ours := leavesOf(extra)
	var rel []*Term
	for _, t := range all {
		sub := true
		for l := range leavesOf(t) {
			if !ours[l] {
				sub = false
				break
			}
		}
		if sub {
			rel = append(rel, t)
		}
	}
	rel = append(rel, extra)
	out = append(out, append(s.factsFor(rel), rel...))
	return out
}

// leavesOf are the unknowns a term is about.
func leavesOf(t *Term) map[int]bool {
	out, seen := map[int]bool{}, map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if len(t.args) == 0 && t.op != OConst {
			out[t.id] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func (s *Solver) portfolio(pc *PC, extra *Term) (Result, string) {
	f, err := os.CreateTemp(scratchDir, "q*.smt2")
	if err != nil {
		return Unknown, ""
	}
	f.WriteString(s.Script(pc, extra))
	f.Close()
	if d := os.Getenv("GOVC_KEEP"); d != "" {
		b, _ := os.ReadFile(f.Name())
		os.WriteFile(filepath.Join(d, filepath.Base(f.Name())), b, 0o644)
	}
	defer os.Remove(f.Name())
	// integer translation first: most conditions are linear arithmetic on lengths and offsets; and parts of
	// the path condition, whose refutation refutes the whole
	c1, cancel1 := context.WithTimeout(context.Background(), 3*time.Second)
	first := make(chan string, 8)
	n1 := 0
	try := func(name string, argv ...string) {
		n1++
		go func() {
			if runSolver(c1, argv) == Unsat {
				first <- name
			} else {
				first <- ""
			}
		}()
	}
	try("cvc5-1.1.2(bv-as-int)", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", f.Name())
	for i, sl := range s.slices(pc, extra) {
		g := fmt.Sprintf("%s.%d", f.Name(), i)
		os.WriteFile(g, []byte(s.script(sl)), 0o644)
		defer os.Remove(g)
		try("z3-5.3.2(part)", "z3-new", "-smt2", g)
		if i == 0 {
			try("cvc5-1.1.2(bv-as-int, part)", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", g)
		}
	}
	won := ""
	for i := 0; i < n1 && won == ""; i++ {
		won = <-first
	}
	cancel1()
	if won != "" {
		return Unsat, won
	}
	if s.quick {
		return Unknown, ""
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout)*time.Millisecond)
	defer cancel()
	type res struct {
		r Result
		n string
	}
	ch := make(chan res, 4)
	run := func(n string, argv ...string) {
		go func() { ch <- res{runSolver(ctx, argv), n} }()
	}
	run("cvc5-1.1.2", "cvc5", "--lang=smt2", f.Name())
	run("z3-4.8.12", "z3", "-smt2", f.Name())
	run("z3-5.3.2(one-shot)", "z3-new", "-smt2", f.Name())
	run("cvc5-1.1.2(bv-as-int)", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", f.Name())
	for i := 0; i < 4; i++ {
		x := <-ch
		if x.r != Unknown {
			return x.r, x.n
		}
	}
	return Unknown, ""
}
