package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type mode struct {
	use bool
	con *Contract
}

type quant struct {
	b      *Term // the boolean standing for the quantified statement
	lo, hi *Term
	f      Func
	st     *State
	sk     *Term
	done   map[*Term]bool
}

// Obl aggregates all verification conditions of one named obligation of one contract.
type Obl struct {
	Name     string
	VCs      int
	Proved   int
	Failed   int
	Undec    int
	Cover    bool
	Reached  bool
	Trivial  int // decided by simplification alone
	Details  []string
	Fails    []*Failure
	Expected bool
}

type Failure struct {
	Obl    string
	Where  string
	Inputs []string // Go expressions, one per contract parameter
	Decls  []string
	Note   string
}

type ContractRun struct {
	con      *Contract
	params   []Value
	names    []string
	obls     map[string]*Obl
	order    []string
	strPairs []strPair
	bounded  bool
	bound    int
	ended    int
	err      string
	imports  map[string]string
	stats    *SolverStats
	safety   int
	dur      time.Duration
	paths    int
	deadline time.Time
	cutLoops map[string]bool
	onCall   []callHandler
	hints    []*Term // indices named by gvAt
}

func (cr *ContractRun) obl(name string) *Obl {
	o, ok := cr.obls[name]
	if !ok {
		o = &Obl{Name: name}
		cr.obls[name] = o
		cr.order = append(cr.order, name)
	}
	return o
}

func (e *Engine) top() *mode { return e.modes[len(e.modes)-1] }

func quantsIn(t *Term, seen map[*Term]bool, byB map[*Term]*quant, out *[]*quant) {
	if seen[t] {
		return
	}
	seen[t] = true
	if q, ok := byB[t]; ok {
		*out = append(*out, q)
	}
	for _, a := range t.args {
		quantsIn(a, seen, byB, out)
	}
}

// instantiate adds the instances of the quantified facts on pc that the goal calls for.
func (cr *ContractRun) hint(t *Term) {
	for _, h := range cr.hints {
		if h == t {
			return
		}
	}
	cr.hints = append(cr.hints, t)
}

func (e *Engine) instantiate(pc *PC, goal *Term) {
	if len(e.quants) == 0 {
		return
	}
	byB := map[*Term]*quant{}
	for _, q := range e.quants {
		byB[q.b] = q
	}
	var gq, pq []*quant
	quantsIn(goal, map[*Term]bool{}, byB, &gq)
	seen := map[*Term]bool{}
	for q := pc; q != nil; q = q.parent {
		quantsIn(q.t, seen, byB, &pq)
	}
	pq = append(pq, gq...)
	var at []*Term
	for _, q := range pq {
		at = append(at, q.sk)
	}
	if e.cur != nil {
		for i, p := range e.cur.params {
			if t, ok := p.(*Term); ok && t.w == 64 && strings.HasPrefix(e.cur.names[i], "k") {
				at = append(at, t)
			}
		}
	}
	if e.cur != nil {
		at = append(at, e.cur.hints...)
	}
	for _, q := range pq {
		for _, t := range at {
			e.instQuant(q, t)
		}
	}
}

func (e *Engine) instQuant(q *quant, t *Term) {
	if t == q.sk || q.done[t] {
		return
	}
	q.done[t] = true
	in := e.c.And(e.c.Sle(q.lo, t), e.c.Slt(t, q.hi))
	d := q.st.clone()
	if !e.assume(d, in) {
		return
	}
	body := e.evalPure(d, q.f, []Value{t})[0].(*Term)
	e.s.AddFact(q.b, e.c.Implies(q.b, e.c.Implies(in, body)))
}

func (e *Engine) forall(st *State, lo, hi *Term, f Func) *Term {
	k := e.c
	if lo.isConst() && hi.isConst() && int64(hi.val)-int64(lo.val) <= 8 {
		var ts []*Term
		for i := int64(lo.val); i < int64(hi.val); i++ {
			ts = append(ts, e.evalPure(st, f, []Value{k.Int(i)})[0].(*Term))
		}
		return k.And(ts...)
	}
	sk := k.Fresh("sk", 64)
	b := k.Fresh("all", 0)
	in := k.And(k.Sle(lo, sk), k.Slt(sk, hi))
	d := st.clone()
	if !e.assume(d, in) {
		return k.tru // empty range
	}
	body := e.evalPure(d, f, []Value{sk})[0].(*Term)
	e.s.AddFact(b, k.Or(b, k.And(in, k.Not(body))))
	q := &quant{b: b, lo: lo, hi: hi, f: f, st: st.clone(), sk: sk, done: map[*Term]bool{}}
	e.quants = append(e.quants, q)
	return b
}

// oblige records a verification condition pc => goal.
func (e *Engine) oblige(st *State, name string, goal *Term, where string) {
	if e.dry > 0 {
		return
	}
	o := e.cur.obl(name)
	o.VCs++
	if goal.isTrue() {
		o.Proved++
		o.Trivial++
		return
	}
	e.instantiate(st.pc, goal)
	ng := e.c.Not(goal)
	r := Unknown
	gs := []*Term{goal}
	if strings.HasPrefix(name, "loop invariant") {
		gs = e.parts(goal, 24)
	}
	if len(gs) == 1 && !strings.HasPrefix(name, "loop invariant") {
		r = e.s.Check(st.pc, ng, true)
	} else {
		// part by part, each with those before it
		pc := st.pc
		for _, g := range gs {
			ng = e.c.Not(g)
			if r = e.decide(pc, g); r != Unsat {
				if debug {
					dbg("part not proved (%v): %.2000s", r, ref(g))
				}
				if r == Sat {
					d := st.clone()
					d.pc = pc
					st = d
				}
				break
			}
			e.s.Release()
			pc = pc.And(e.c, g)
		}
	}
	if d := os.Getenv("GOVC_FAILS"); d != "" && r != Unsat {
		os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, strings.ReplaceAll(name, " ", "_"), o.VCs), []byte(e.s.Script(st.pc, ng)), 0o644)
	}
	switch r {
	case Unsat:
		o.Proved++
	case Sat:
		o.Failed++
		if len(o.Fails) < 4 {
			o.Fails = append(o.Fails, e.counterexample(st, ng, name, where))
		}
	default:
		o.Undec++
		o.Details = append(o.Details, fmt.Sprintf("solvers gave no answer within the time limit (%s)", where))
	}
	e.s.Release()
}

// decide checks a goal (leaving the model of a refutation).  One that is not easy is first simplified: the case
// distinctions in it that the path condition settles are resolved one by one.
func (e *Engine) decide(pc *PC, g *Term) Result {
	c := e.c
	quickly := func(t *Term, keep bool, pc *PC) Result {
		e.s.quick = true
		defer func() { e.s.quick = false }()
		return e.s.Check(pc, t, keep)
	}
	r := quickly(c.Not(g), true, pc)
	if r != Unknown {
		return r
	}
	e.s.Release()
	p, h := pc, g
	if g.op == OBOr {
		var rest []*Term
		for _, d := range g.args {
			if hasIte(d) {
				rest = append(rest, d)
			} else {
				p = p.And(c, c.Not(d))
			}
		}
		h = c.Or(rest...)
	}
	// a conjecture about indices below a bound: the last one apart
	pcs := []*PC{p}
	if g.op == OBOr {
		for _, d := range g.args {
			if d.op == OSle && !hasIte(d) {
				last := c.Eq(d.args[1], c.Sub(d.args[0], c.BV(1, d.args[0].w)))
				pcs = []*PC{p.And(c, last), p.And(c, c.Not(last))}
				break
			}
		}
	}
	for _, p := range pcs {
		if r := e.decideBy(p, h); r != Unsat {
			return r
		}
	}
	return Unsat
}

func (e *Engine) decideBy(p *PC, h *Term) Result {
	c := e.c
	quickly := func(t *Term, keep bool, pc *PC) Result {
		e.s.quick = true
		defer func() { e.s.quick = false }()
		return e.s.Check(pc, t, keep)
	}
	memo := map[*Term]*Term{}
	n := 0
	var resolve func(t *Term) *Term
	resolve = func(t *Term) *Term {
		if len(t.args) == 0 || n > 200 || !hasIte(t) {
			return t
		}
		if m, ok := memo[t]; ok {
			return m
		}
		m := t
		if t.op == OIte {
			cond := resolve(t.args[0])
			n++
			switch {
			case cond.isTrue():
				m = resolve(t.args[1])
			case cond.isFalse():
				m = resolve(t.args[2])
			case quickly(cond, false, p) == Unsat:
				m = resolve(t.args[2])
			case quickly(c.Not(cond), false, p) == Unsat:
				m = resolve(t.args[1])
			default:
				if debug {
					dbg("unsettled: %s", c.show(cond, 5))
				}
				m = c.Ite(cond, resolve(t.args[1]), resolve(t.args[2]))
			}
		} else {
			args := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				args[i] = resolve(a)
				same = same && args[i] == a
			}
			if !same {
				m = c.rebuild(t, args)
			}
		}
		memo[t] = m
		return m
	}
	h = resolve(h)
	if h.isTrue() {
		return Unsat
	}
	e.s.Release()
	if debug {
		dbg("simplified with %d questions", n)
	}
	return e.s.Check(p, c.Not(h), true)
}

var iteMemo sync.Map // term -> bool

func hasIte(t *Term) bool {
	if t.op == OIte {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := iteMemo.Load(t); ok {
		return r.(bool)
	}
	r := false
	for _, a := range t.args {
		if hasIte(a) {
			r = true
			break
		}
	}
	iteMemo.Store(t, r)
	return r
}

// parts splits a goal into up to about n goals that together amount to it.
func (e *Engine) parts(t *Term, n int) []*Term {
	c := e.c
	var neg func(t *Term) *Term
	neg = func(t *Term) *Term {
		switch t.op {
		case OBAnd, OBOr:
			var ts []*Term
			for _, a := range t.args {
				ts = append(ts, c.Not(a))
			}
			if t.op == OBAnd {
				return c.Or(ts...)
			}
			return c.And(ts...)
		}
		return nil
	}
	var split func(ts []*Term) []*Term // of the disjunction of ts
	split = func(ts []*Term) []*Term {
		for i, t := range ts {
			if t.op == OBNot {
				if m := neg(t.args[0]); m != nil {
					t = m
				}
			}
			rest := func(with ...*Term) []*Term {
				return append(append(append([]*Term(nil), ts[:i]...), with...), ts[i+1:]...)
			}
			switch t.op {
			case OBOr:
				return split(rest(t.args...))
			case OBAnd:
				if n < len(t.args) {
					continue
				}
				n -= len(t.args) - 1
				var out []*Term
				for _, a := range t.args {
					out = append(out, split(rest(a))...)
				}
				return out
			}
		}
		if d := c.Or(ts...); !d.isTrue() {
			return []*Term{d}
		}
		return nil
	}
	out := split([]*Term{t})
	seen := map[*Term]bool{}
	k := 0
	for _, g := range out {
		if !seen[g] {
			seen[g] = true
			out[k] = g
			k++
		}
	}
	if k == 0 {
		return []*Term{c.tru}
	}
	return out[:k]
}

func (e *Engine) checkDeadline() {
	if e.cur != nil && !e.cur.deadline.IsZero() && time.Now().After(e.cur.deadline) {
		unsup("time limit for this contract exceeded")
	}
}

func (e *Engine) specCall(st *State, name string, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	k := e.c
	where := e.pos(fn.Pos())
	if n := len(e.fnStack); n > 0 {
		where = e.fnStack[n-1].String()
	}
	switch name {
	case "gvRequires":
		c := args[0].(*Term)
		m := e.top()
		if m.use {
			e.oblige(st, "precondition of "+m.con.target, c, where)
			if !e.assume(st, c) {
				return nil, true
			}
			return one(st), true
		}
		if !e.assume(st, c) {
			return nil, true
		}
		return one(st), true
	case "gvAssume":
		if !e.assume(st, args[0].(*Term)) {
			return nil, true
		}
		return one(st), true
	case "gvEnsures", "gvAssert":
		n, ok := e.constStr(args[0].(Str))
		if !ok {
			unsup("obligation name must be constant")
		}
		c := args[1].(*Term)
		if m := e.top(); m.use && name == "gvEnsures" {
			if !e.assume(st, c) {
				return nil, true
			}
			return one(st), true
		}
		e.oblige(st, n, c, where)
		if !e.assume(st, c) {
			return nil, true
		}
		return one(st), true
	case "gvCover":
		n, _ := e.constStr(args[0].(Str))
		if e.dry == 0 && !e.top().use {
			o := e.cur.obl("reachable: " + n)
			o.Cover = true
			if !o.Reached {
				o.VCs++
				if e.s.Check(st.pc, k.tru, false) == Sat {
					o.Reached = true
					o.Proved++
				} else {
					o.VCs--
				}
			}
		}
		return one(st), true
	case "gvSplit":
		c := args[0].(*Term)
		var res []Outcome
		a, b := st.clone(), st.clone()
		if e.assume(a, c) {
			res = append(res, Outcome{st: a})
		}
		if e.assume(b, k.Not(c)) {
			res = append(res, Outcome{st: b})
		}
		return res, true
	case "gvForall":
		return one(st, e.forall(st, args[0].(*Term), args[1].(*Term), args[2].(Func))), true
	case "gvAt":
		e.cur.hint(args[0].(*Term))
		return one(st), true
	case "gvBytesEq":
		return one(st, e.bytesEq(st, args[0].(Slice), args[1].(Slice))), true
	case "gvOldBytes", "gvOldSlice":
		s := args[0].(Slice)
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		if s.obj < 0 {
			return one(st, s), true
		}
		m, off := e.sliceMem(st, s, et)
		ns := e.newSlice(st, "old", et, e.viewMem(m, off), s.ln, s.ln)
		ns.nilc = s.nilc
		return one(st, ns), true
	case "gvFill":
		s, f := args[0].(Slice), args[1].(Func)
		if s.obj < 0 {
			return one(st), true
		}
		snap := st.clone()
		a := e.backing(st, s)
		m := e.lambdaMem(a.mem, s.off, s.ln, func(i *Term) Value {
			d := snap.clone()
			if !e.assume(d, k.And(k.Sle(k.Int(0), i), k.Slt(i, s.ln))) {
				return e.zero(a.mem.elem)
			}
			return e.evalPure(d, f, []Value{i})[0]
		})
		e.setBacking(st, s, Arr{m, a.n})
		return one(st), true
	case "gvIndex":
		s, p := args[0].(Slice), args[1].(Ptr)
		sp := e.slicePath(s)
		if p.obj < 0 || s.obj < 0 || p.obj != s.obj || len(p.path) != len(sp)+1 || p.path[len(sp)].idx == nil {
			return one(st, k.Int(-1)), true
		}
		d := k.Sub(p.path[len(sp)].idx, s.off)
		return one(st, k.Ite(k.Or(p.nilc, k.Not(k.Ult(d, s.ln))), k.Int(-1), d)), true
	case "gvModifies":
		ms := &ModState{}
		if st.modst != nil {
			*ms = *st.modst
		}
		sl := args[0].(Slice)
		if !sl.ln.isConst() {
			unsup("gvModifies arguments")
		}
		if ms.mods == nil {
			ms.mods = []Value{}
		}
		for i := uint64(0); i < sl.ln.val; i++ {
			v := e.load1(st, e.elemPtr(sl, k.BV(i, 64))).(Iface)
			if v.nilc.isTrue() {
				continue
			}
			ms.mods = append(append([]Value(nil), ms.mods...), v.v)
		}
		st.modst = ms
		return one(st), true
	case "gvDecreases":
		d := args[0].(*Term)
		m := e.top()
		if m.use {
			if len(e.decs) > 0 && m.con == e.cur.con {
				old := e.decs[len(e.decs)-1]
				e.oblige(st, "recursion terminates", k.And(k.Sle(k.Int(0), d), k.Slt(d, old)), where)
			}
			return one(st), true
		}
		e.decs = append(e.decs, d)
		return one(st), true
	case "gvPanics":
		outs := e.callFunc(st, args[0].(Func), nil, nil)
		var res []Outcome
		for _, o := range outs {
			if o.block {
				res = append(res, o)
				continue
			}
			res = append(res, Outcome{st: o.st, ret: []Value{k.Bool(o.panic != nil)}})
		}
		return res, true
	case "gvBlocks":
		outs := e.callFunc(st, args[0].(Func), nil, nil)
		var res []Outcome
		for _, o := range outs {
			if o.panic != nil {
				res = append(res, o)
				continue
			}
			res = append(res, Outcome{st: o.st, ret: []Value{k.Bool(o.block)}})
		}
		return res, true
	case "gvRunGo":
		work := []*State{st}
		var res []Outcome
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if len(s.gos) == 0 {
				res = append(res, Outcome{st: s})
				continue
			}
			g := s.gos[0]
			s.gos = append([]goTask(nil), s.gos[1:]...)
			for _, o := range e.callFunc(s, g.f, g.args, g.cc) {
				if o.panic != nil {
					res = append(res, o)
					continue
				}
				work = append(work, o.st) // finished or parked for ever
			}
		}
		return res, true
	case "gvPendingGo":
		return one(st, k.Int(int64(len(st.gos)))), true
	case "gvGhost":
		n, _ := e.constStr(args[0].(Str))
		for i, p := range e.cur.names {
			if p == n {
				return one(st, e.cur.params[i]), true
			}
		}
		// no such parameter: an arbitrary value
		return one(st, k.Var("ghost:"+n, 64)), true
	case "gvSymbolic":
		return one(st, k.tru), true
	case "gvOnCall":
		v := args[0].(Iface)
		sig, ok := v.typ.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() == 0 {
			unsup("gvOnCall argument")
		}
		e.cur.onCall = append(e.cur.onCall, callHandler{sig.Params().At(0).Type().Underlying(), v.v.(Func)})
		return one(st), true
	case "gvSameFunc":
		a, b := args[0].(Iface), args[1].(Iface)
		fa, ok1 := a.v.(Func)
		fb, ok2 := b.v.(Func)
		if !ok1 || !ok2 {
			unsup("gvSameFunc arguments")
		}
		return one(st, e.sameFunc(fa, fb)), true
	case "gvUnaliased":
		a, b := args[0].(Slice), args[1].(Slice)
		return one(st, k.Bool(a.obj != b.obj || a.obj < 0)), true
	case "gvWithin":
		// inner views memory of outer, wholly inside its length
		in, out := args[0].(Slice), args[1].(Slice)
		if in.obj != out.obj || in.path != out.path || in.obj < 0 {
			return one(st, k.Eq(in.ln, k.Int(0))), true
		}
		d := k.Sub(in.off, out.off)
		return one(st, k.Or(k.Eq(in.ln, k.Int(0)), k.And(k.Sle(k.Int(0), d), k.Sle(k.Add(d, in.ln), out.ln)))), true
	case "gvByte":
		// b[i], and any byte at all where there is none
		s := args[0].(Slice)
		if s.obj < 0 {
			return one(st, k.BV(0, 8)), true
		}
		return one(st, e.load1(st, e.elemPtr(s, args[1].(*Term)))), true
	case "gvOffsetIn":
		in, out := args[0].(Slice), args[1].(Slice)
		if in.obj != out.obj || in.path != out.path {
			return one(st, k.Int(-1)), true
		}
		return one(st, k.Sub(in.off, out.off)), true
	}
	return nil, false
}

// havocCall stands for a call whose body is not looked at: the declared locations get arbitrary
// values, and the results are arbitrary values of their types.
func (e *Engine) havocCall(st *State, fn *ssa.Function) []Outcome {
	if st.modst == nil || st.modst.mods == nil {
		unsup("contract of %s has no gvModifies and cannot be used at a call", fn)
	}
	for _, m := range st.modst.mods {
		switch x := m.(type) {
		case Ptr:
			if x.nilc.isTrue() || x.obj < 0 {
				continue
			}
			t := e.typeAt(x)
			e.store(st, x, e.symIdx(e.c.FreshName("havoc"), t, nil))
		case Slice:
			if x.obj < 0 {
				continue
			}
			a := e.backing(st, x)
			nm := e.baseMem(e.c.FreshName("havoc"), nil, a.mem.elem)
			e.setBacking(st, x, Arr{e.copyMem(a.mem, x.off, nm, e.c.Int(0), x.ln), a.n})
		default:
			unsup("gvModifies of %T", m)
		}
	}
	var ret []Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		ret = append(ret, e.symIdx(e.c.FreshName("result:"+fn.Name()), res.At(i).Type(), nil))
	}
	st.useRet = ret
	return []Outcome{{st: st, ret: ret}}
}

func (e *Engine) typeAt(p Ptr) types.Type {
	t := e.objs[p.obj].typ
	if t == nil {
		unsup("type of object %s", e.objs[p.obj].name)
	}
	for _, s := range p.path {
		if s.idx != nil {
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				unsup("typeAt")
			}
			continue
		}
		t = t.Underlying().(*types.Struct).Field(s.field).Type()
	}
	return t
}

// useContract says whether calls of fn are replaced by its contract here.
func (e *Engine) useContract(fn *ssa.Function, con *Contract) bool {
	if con.fn == nil || con.broken != "" || e.cur == nil {
		return false
	}
	if con == e.cur.con {
		// the first call (from the contract itself) runs the body, recursive calls use the contract
		for _, f := range e.fnStack {
			if f == fn {
				return con.use
			}
		}
		return false
	}
	return con.use
}

func (e *Engine) inContractFn(con *Contract) bool {
	f := e.fnStack[len(e.fnStack)-1]
	for f != nil {
		if f == con.fn {
			return true
		}
		f = f.Parent()
	}
	return false
}

func (e *Engine) applyContract(st *State, fn *ssa.Function, con *Contract, args []Value) []Outcome {
	m := &mode{use: true, con: con}
	e.modes = append(e.modes, m)
	defer func() { e.modes = e.modes[:len(e.modes)-1] }()
	e.usedContracts[con.name] = true
	saved := st.modst
	st.modst = nil
	full := append([]Value(nil), args...)
	for i := len(args); i < len(con.fn.Params); i++ {
		p := con.fn.Params[i]
		var v Value
		for j, n := range e.cur.names {
			if n == p.Name() && types.Identical(p.Type(), e.cur.con.fn.Params[j].Type()) {
				v = e.cur.params[j]
			}
		}
		if v == nil {
			v = e.symIdx(e.c.FreshName("ghost:"+p.Name()), p.Type(), nil)
		}
		full = append(full, v)
	}
	base := st.pc
	outs := e.callBody(st, con.fn, full, nil)
	for i := range outs {
		if outs[i].panic == nil && !outs[i].block {
			outs[i].ret = outs[i].st.useRet
		}
		outs[i].st.modst = saved
		outs[i].st.useRet = nil
	}
	return e.mergeOutcomes(base, outs)
}

// ---- frame conditions

func (e *Engine) frameCheck(before, after *State, mods []Value, where string) {
	var ids []int
	for o := range after.heap {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		var old Value
		if v, ok := before.heap[o]; ok {
			old = v
		} else if _, ok := e.objInit[o]; ok && !e.objs[o].own {
			old = e.get(before, o)
		} else {
			continue // allocated by the call
		}
		nv := after.heap[o]
		if sameVal(old, nv) {
			continue
		}
		t := e.frameEq(before, o, nil, old, nv, mods)
		e.oblige(after, "only the declared locations are modified", t, where+" object "+e.objs[o].name)
	}
}

func covers(m Ptr, o int, path []Step) bool {
	if m.obj != o || len(m.path) > len(path) {
		return false
	}
	for i := range m.path {
		if m.path[i] != path[i] {
			return false
		}
	}
	return true
}

func (e *Engine) frameEq(st *State, o int, path []Step, a, b Value, mods []Value) *Term {
	k := e.c
	if sameVal(a, b) {
		return k.tru
	}
	var ranges []Slice
	for _, m := range mods {
		switch x := m.(type) {
		case Ptr:
			if covers(x, o, path) {
				return k.tru
			}
		case Slice:
			if x.obj == o && pathKey(e.slicePath(x)) == pathKey(path) {
				ranges = append(ranges, x)
			}
		}
	}
	switch x := a.(type) {
	case *Term:
		return k.Eq(x, b.(*Term))
	case Struct:
		y := b.(Struct)
		var ts []*Term
		for i := range x.f {
			ts = append(ts, e.frameEq(st, o, append(append([]Step(nil), path...), Step{field: i}), x.f[i], y.f[i], mods))
		}
		return k.And(ts...)
	case Arr:
		y := b.(Arr)
		sk := k.Fresh("frame", 64)
		pre := []*Term{k.Ult(sk, x.n)}
		for _, r := range ranges {
			pre = append(pre, k.Not(k.Ult(k.Sub(sk, r.off), r.ln)))
		}
		// element-level pointers in mods
		for _, m := range mods {
			if p, ok := m.(Ptr); ok && p.obj == o && len(p.path) == len(path)+1 && pathKey(p.path[:len(path)]) == pathKey(path) && p.path[len(path)].idx != nil {
				pre = append(pre, k.Not(k.Eq(sk, p.path[len(path)].idx)))
			}
		}
		p, q := e.sel(x.mem, sk), e.sel(y.mem, sk)
		var ts []*Term
		for _, u := range p {
			for _, v := range q {
				c := k.And(u.c, v.c)
				if c.isFalse() {
					continue
				}
				ts = append(ts, k.Implies(c, e.frameEq(st, o, append(append([]Step(nil), path...), Step{idx: sk}), u.v, v.v, mods)))
			}
		}
		return k.Implies(k.And(pre...), k.And(ts...))
	case Str:
		return e.strEq(x, b.(Str))
	case Slice:
		y := b.(Slice)
		if x.obj != y.obj || x.path != y.path {
			return k.And(x.nilc, y.nilc)
		}
		return k.And(k.Eq(x.off, y.off), k.Eq(x.ln, y.ln), k.Eq(x.cp, y.cp), k.Eq(x.nilc, y.nilc))
	case Ptr:
		return e.equal(st, x, b, nil)
	case Iface:
		return e.equal(st, x, b, nil)
	case Func:
		return e.sameFunc(x, b.(Func))
	}
	return k.fls
}

// sameFunc: both nil, or the same closure.
func (e *Engine) sameFunc(fa, fb Func) *Term {
	k := e.c
	if fa.nilc.isTrue() || fb.nilc.isTrue() {
		return k.And(fa.nilc, fb.nilc)
	}
	if fa.fn == nil && fb.fn == nil && fa.id != nil && fb.id != nil {
		return k.Or(k.And(fa.nilc, fb.nilc), k.And(k.Not(fa.nilc), k.Not(fb.nilc), k.Eq(fa.id, fb.id)))
	}
	if fa.fn == nil || fb.fn == nil {
		return k.And(fa.nilc, fb.nilc)
	}
	ts := []*Term{k.Bool(fa.fn == fb.fn), k.Not(fa.nilc), k.Not(fb.nilc)}
	if fa.fn == fb.fn {
		for i := range fa.bind {
			if !sameVal(fa.bind[i], fb.bind[i]) {
				ts = append(ts, k.fls)
			}
		}
	}
	return k.And(ts...)
}

// callHandler is what the contract says a call of an unknown function value of some type does.
type callHandler struct {
	typ types.Type
	fn  Func
}
