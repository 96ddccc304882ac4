package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ObjInfo struct {
	name string
	lazy bool // stands for memory that exists before the code under proof runs
	own  bool // allocated by a loop of the code under proof
	typ  types.Type
	pre  bool // exists at contract entry
	fn   *ssa.Function
}

type State struct {
	pc        *PC
	heap      map[int]Value
	shared    bool // heap map is shared with another state
	modst     *ModState
	gos       []goTask // goroutines started and not yet run
	recovered bool
	useRet    []Value
	locks     *lockSet // locks held by this thread of execution
}

// lockSet lists the mutexes taken since the contract began: n is -1 for a writer, else the readers.
type lockSet struct {
	prev *lockSet
	key  string
	n    int
}

func (l *lockSet) held(key string) int {
	for ; l != nil; l = l.prev {
		if l.key == key {
			return l.n
		}
	}
	return 0
}

// all gives the locks held, sorted.
func (l *lockSet) all() string {
	m := map[string]bool{}
	var out []string
	for ; l != nil; l = l.prev {
		if !m[l.key] {
			m[l.key] = true
			if l.n != 0 {
				out = append(out, fmt.Sprintf("%s:%d", l.key, l.n))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (s *State) clone() *State {
	s.shared = true
	return &State{pc: s.pc, heap: s.heap, shared: true, modst: s.modst, gos: s.gos, recovered: s.recovered, useRet: s.useRet, locks: s.locks}
}

func (s *State) set(o int, v Value) {
	if s.shared {
		h := make(map[int]Value, len(s.heap)+4)
		for k, x := range s.heap {
			h[k] = x
		}
		s.heap = h
		s.shared = false
	}
	s.heap[o] = v
}

// ModState is what a contract declared modifiable.
type ModState struct {
	mods   []Value // Ptr or Slice
	target bool    // the target has been called
	dec    *Term   // termination measure at entry
}

type Outcome struct {
	st    *State
	ret   []Value
	panic *Panic // non-nil: the call panicked
	block bool   // blocked for ever (channel operation with no partner)
}

type Panic struct {
	val Value
	msg string
	pos token.Pos
	fn  *ssa.Function
}

type Engine struct {
	c        *Ctx
	s        *Solver
	prog     *ssa.Program
	fset     *token.FileSet
	memSeq   int
	bases    map[string]*Mem
	lits     map[string]*Mem
	selMemo  map[selKey][]GVal
	views    map[selKey]*Mem
	lazy     map[string]int
	objInit  map[int]func() Value
	objs     []*ObjInfo
	pools    map[string]int
	globals  map[*ssa.Global]int
	pins     map[*Term]*Term // loop variables whose value the invariant gives
	pinVals  map[*Term]bool
	pinFacts []*Term
	idents   map[string]*Term

	w *World // contracts, invariants

	// current contract run
	cur           *ContractRun
	dry           int // >0: obligations are not recorded
	pure          int // >0: evaluating a specification closure
	sinks         []map[string]*wloc
	depth         int
	steps         int
	maxSteps      int
	fnStack       []*ssa.Function
	panStack      []*panState
	typeIDs       map[string]int64
	typeByKey     map[string]types.Type
	onceObj       map[string]int
	errText       map[*Term]Str // text of errors made by errors.New
	errSeq        int
	modes         []*mode
	quants        []*quant
	decs          []*Term
	recDepth      int
	recDone       map[*Term]bool
	regions       map[[2]*ssa.BasicBlock]bool
	mergeFns      map[string]bool
	exactFns      map[string]bool
	safety        int // safety obligations discharged
	unrollMax     int
	boundedHit    bool
	trusted       map[string]bool // models of external functions used
	inlined       map[string]bool
	usedContracts map[string]bool
}

type wloc struct {
	obj  int
	path []Step
}

func NewEngine(w *World, timeoutMS int) *Engine {
	c := NewCtx()
	e := &Engine{c: c, s: NewSolver(c, timeoutMS), w: w, prog: w.prog, fset: w.fset,
		errText: map[*Term]Str{}, bases: map[string]*Mem{}, lits: map[string]*Mem{}, selMemo: map[selKey][]GVal{}, views: map[selKey]*Mem{},
		lazy: map[string]int{}, objInit: map[int]func() Value{}, pools: map[string]int{}, globals: map[*ssa.Global]int{}, pinVals: map[*Term]bool{},
		idents: map[string]*Term{}, maxSteps: 3000000, unrollMax: 600,
		regions: map[[2]*ssa.BasicBlock]bool{}, mergeFns: map[string]bool{}, exactFns: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{}}
	return e
}

func (e *Engine) newObjID(name string) int {
	e.objs = append(e.objs, &ObjInfo{name: name})
	return len(e.objs) - 1
}

func (e *Engine) alloc(st *State, name string, v Value, t types.Type) int {
	o := e.newObjID(name)
	e.objs[o].typ = t
	st.set(o, v)
	return o
}

func (e *Engine) get(st *State, o int) Value {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if f, ok := e.objInit[o]; ok {
		v := f()
		e.objInit[o] = func() Value { return v }
		return v
	}
	unsup("object %d (%s) has no content", o, e.objs[o].name)
	return nil
}

func pathKey(p []Step) string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx != nil {
			fmt.Fprintf(&sb, "[%d]", s.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	return sb.String()
}

var pathTab = map[string][]Step{}
var pathMu sync.Mutex

// feasible asks whether pc /\ t may hold.
func (e *Engine) feasible(pc *PC, t *Term) bool {
	if t.isFalse() {
		return false
	}
	if t.isTrue() {
		return true // pc itself is kept feasible
	}
	return e.s.Check(pc, t, false) != Unsat
}

// valid asks whether pc implies t.
func (e *Engine) valid(pc *PC, t *Term) bool {
	if t.isTrue() {
		return true
	}
	return e.s.Check(pc, e.c.Not(t), false) == Unsat
}

func (e *Engine) assume(st *State, t *Term) bool {
	if t.isTrue() {
		return true
	}
	if !e.feasible(st.pc, t) {
		return false
	}
	st.pc = st.pc.And(e.c, t)
	return true
}

// ---- loads and stores

// locate walks v along path, returning alternatives.
func (e *Engine) walk(v Value, path []Step) []GVal {
	if len(path) == 0 {
		return e.one(v)
	}
	s := path[0]
	switch x := v.(type) {
	case Struct:
		if s.idx != nil {
			unsup("index into struct")
		}
		return e.walk(x.f[s.field], path[1:])
	case Arr:
		idx := s.idx
		if idx == nil {
			unsup("field of array")
		}
		gs := e.sel(x.mem, idx)
		if len(path) == 1 {
			return gs
		}
		var out []GVal
		for _, g := range gs {
			for _, h := range e.walk(g.v, path[1:]) {
				if t := e.c.And(g.c, h.c); !t.isFalse() {
					out = append(out, GVal{t, h.v})
				}
			}
		}
		return out
	}
	unsup("walk into %T", v)
	return nil
}

func (e *Engine) update(v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case Struct:
		f := append([]Value(nil), x.f...)
		f[s.field] = e.update(x.f[s.field], path[1:], nv)
		return Struct{f}
	case Arr:
		if len(path) == 1 {
			return Arr{e.storeMem(x.mem, s.idx, nv), x.n}
		}
		gs := e.sel(x.mem, s.idx)
		if len(gs) != 1 {
			unsup("update of an ambiguous array element")
		}
		return Arr{e.storeMem(x.mem, s.idx, e.update(gs[0].v, path[1:], nv)), x.n}
	}
	unsup("update of %T", v)
	return nil
}

func (e *Engine) load(st *State, p Ptr) []GVal {
	if p.obj < 0 {
		unsup("load through nil")
	}
	return e.walk(e.get(st, p.obj), p.path)
}

// load1 loads a value that must be unambiguous (structures built from scalars always merge).
func (e *Engine) load1(st *State, p Ptr) Value {
	g := e.load(st, p)
	if len(g) == 1 {
		return g[0].v
	}
	v := g[len(g)-1].v
	for k := len(g) - 2; k >= 0; k-- {
		nv, ok := e.merge(g[k].c, g[k].v, v)
		if !ok {
			unsup("ambiguous load")
		}
		v = nv
	}
	return v
}

func (e *Engine) noteWrite(o int, path []Step) {
	if len(e.sinks) == 0 {
		return
	}
	var pp []Step
	for _, s := range path {
		if s.idx != nil {
			break
		}
		pp = append(pp, s)
	}
	k := fmt.Sprintf("%d%s", o, pathKey(pp))
	for _, m := range e.sinks {
		if _, ok := m[k]; !ok {
			m[k] = &wloc{o, pp}
		}
	}
}

func (e *Engine) store(st *State, p Ptr, v Value) {
	if p.obj < 0 {
		unsup("store through nil")
	}
	if e.objs[p.obj].name == "frozen" {
		unsup("write to frozen object")
	}
	e.noteWrite(p.obj, p.path)
	st.set(p.obj, e.update(e.get(st, p.obj), p.path, v))
}

// decodePath turns a slice's backing path key back into steps.
func (e *Engine) slicePath(s Slice) []Step { return pathTabGet(s.path) }

func pathTabGet(k string) []Step {
	pathMu.Lock()
	defer pathMu.Unlock()
	return pathTab[k]
}

func (e *Engine) mkPathKey(p []Step) string {
	if len(p) == 0 {
		return ""
	}
	k := fmt.Sprintf("%p", e) + pathKey(p)
	pathMu.Lock()
	pathTab[k] = append([]Step(nil), p...)
	pathMu.Unlock()
	return k
}

// backing returns the array a slice views.
func (e *Engine) backing(st *State, s Slice) Arr {
	v := e.load1(st, Ptr{obj: s.obj, path: e.slicePath(s), nilc: e.c.fls})
	a, ok := v.(Arr)
	if !ok {
		unsup("slice backing is %T", v)
	}
	return a
}

func (e *Engine) elemPtr(s Slice, i *Term) Ptr {
	p := append(append([]Step(nil), e.slicePath(s)...), Step{idx: e.c.Add(s.off, i)})
	return Ptr{obj: s.obj, path: p, nilc: e.c.fls}
}

func (e *Engine) setBacking(st *State, s Slice, a Arr) {
	p := e.slicePath(s)
	e.noteWrite(s.obj, p)
	st.set(s.obj, e.update(e.get(st, s.obj), p, a))
}

// memOf gives a slice's content as (memory, offset).
func (e *Engine) sliceMem(st *State, s Slice, elem types.Type) (*Mem, *Term) {
	if s.obj < 0 {
		return e.zeroMem(elem), e.c.Int(0)
	}
	return e.backing(st, s).mem, s.off
}

func (e *Engine) newSlice(st *State, name string, elem types.Type, mem *Mem, ln, cp *Term) Slice {
	o := e.alloc(st, name, Arr{mem, cp}, types.NewSlice(elem))
	return Slice{obj: o, off: e.c.Int(0), ln: ln, cp: cp, nilc: e.c.fls}
}

func (e *Engine) strLit(s string) Str {
	return Str{e.bytesMem(s), e.c.Int(0), e.c.Int(int64(len(s)))}
}

func (e *Engine) constStr(s Str) (string, bool) {
	if !s.ln.isConst() || s.ln.val > 4096 {
		return "", false
	}
	b := make([]byte, s.ln.val)
	for i := range b {
		t := e.selScalar(s.mem, e.c.Add(s.off, e.c.Int(int64(i))))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func (e *Engine) strAt(s Str, i *Term) *Term { return e.selScalar(s.mem, e.c.Add(s.off, i)) }

// strEq decides equality of two strings.
func (e *Engine) strEq(a, b Str) *Term {
	c := e.c
	if a == b {
		return c.tru
	}
	le := c.Eq(a.ln, b.ln)
	if le.isFalse() {
		return c.fls
	}
	n := int64(-1)
	if a.ln.isConst() {
		n = int64(a.ln.val)
	} else if b.ln.isConst() {
		n = int64(b.ln.val)
	}
	if n >= 0 && n <= 256 {
		ts := []*Term{le}
		for i := int64(0); i < n; i++ {
			t := c.Eq(e.strAt(a, c.Int(i)), e.strAt(b, c.Int(i)))
			if t.isFalse() {
				return c.fls
			}
			ts = append(ts, t)
		}
		return c.And(ts...)
	}
	if a.mem == b.mem && a.off == b.off {
		return le
	}
	// opaque identity: equal identities iff equal contents
	ia, ib := e.strIdent(a), e.strIdent(b)
	eq := c.Eq(ia, ib)
	if eq.isConst() {
		return eq
	}
	k := c.Var(fmt.Sprintf("diff!%d!%d", ia.id, ib.id), 64)
	diff := c.And(le, c.Sle(c.Int(0), k), c.Slt(k, a.ln), c.Not(c.Eq(e.strAt(a, k), e.strAt(b, k))))
	e.s.AddFact(eq, c.And(c.Implies(eq, le), c.Or(eq, c.Not(le), diff)))
	e.noteStrPair(eq, a, b)
	return eq
}

type strPair struct {
	eq   *Term
	a, b Str
}

func (e *Engine) noteStrPair(eq *Term, a, b Str) {
	for _, p := range e.cur.strPairs {
		if p.eq == eq {
			return
		}
	}
	e.cur.strPairs = append(e.cur.strPairs, strPair{eq, a, b})
}

func (e *Engine) strIdent(s Str) *Term {
	// a base memory with its own length is identified by name
	k := fmt.Sprintf("%d_%d_%d", s.mem.id, s.off.id, s.ln.id)
	if t, ok := e.idents[k]; ok {
		return t
	}
	t := e.c.Var("ident!"+k, 64)
	if s.mem.kind == MBase && len(s.mem.pre) > 0 && s.off.isConst() && s.off.val == 0 && s.ln.op == OApp &&
		strings.HasSuffix(s.mem.base, ".b") && s.ln.name == strings.TrimSuffix(s.mem.base, ".b")+".len" && sameTerms(s.ln.args, s.mem.pre) {
		t = e.c.App("ident!"+s.mem.base, 64, s.mem.pre...)
	} else if s.mem.kind == MIte {
		// the identity of whichever it is
		cond, x, y := s.mem.cond, s.mem.src, s.mem.prev
		if cond.op == OBNot {
			cond, x, y = cond.args[0], y, x
		}
		pick := func(t *Term, i int) *Term {
			if t.op == OIte && t.args[0] == cond {
				return t.args[i]
			}
			return t
		}
		t = e.c.Ite(cond, e.strIdent(Str{x, pick(s.off, 1), pick(s.ln, 1)}), e.strIdent(Str{y, pick(s.off, 2), pick(s.ln, 2)}))
	}
	e.idents[k] = t
	return t
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- diagnostics

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/go/"); i >= 0 && strings.HasPrefix(f, e.w.repo) {
		f = f[len(e.w.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func dbg(format string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
