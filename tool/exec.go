package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fv   Func
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	visits map[int]int
	bind   []Value
	args   []Value
	pan    *Panic // unwinding
}

type Conf struct {
	st *State
	fr *Frame
}

func (c *Conf) clone() *Conf {
	f := *c.fr
	f.env = make(map[ssa.Value]Value, len(c.fr.env)+4)
	for k, v := range c.fr.env {
		f.env[k] = v
	}
	f.visits = make(map[int]int, len(c.fr.visits))
	for k, v := range c.fr.visits {
		f.visits[k] = v
	}
	f.defers = append([]deferred(nil), c.fr.defers...)
	return &Conf{c.st.clone(), &f}
}

// run is the work list of one activation.
type run struct {
	e       *Engine
	work    []*Conf
	outs    []Outcome
	stop    func(c *Conf, to *ssa.BasicBlock) bool // consulted on every jump
	stopped []*Conf
}

func (e *Engine) callBody(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			unsup("no body: %s", fn)
		}
	}
	if len(e.fnStack) > 120 {
		unsup("call depth exceeded at %s", fn)
	}
	e.fnStack = append(e.fnStack, fn)
	defer func() { e.fnStack = e.fnStack[:len(e.fnStack)-1] }()
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		env[fv] = bind[i]
	}
	fr := &Frame{fn: fn, env: env, visits: map[int]int{}, bind: bind, args: args}
	r := &run{e: e}
	c := &Conf{st, fr}
	r.jump(c, fn.Blocks[0])
	r.loop()
	return r.outs
}

func (r *run) loop() {
	for len(r.work) > 0 {
		c := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.exec(c)
	}
}

// jump transfers c to block `to` (phis evaluated), handling loop headers.
func (r *run) jump(c *Conf, to *ssa.BasicBlock) {
	e := r.e
	if r.stop != nil && r.stop(c, to) {
		return
	}
	from := c.fr.blk
	c.fr.prev, c.fr.blk, c.fr.idx = from, to, 0
	r.enterPhis(c)
	li := e.w.loopsOf(c.fr.fn)
	if lp := li.header[to]; lp != nil {
		inLoop := from != nil && lp.blocks[from]
		if !inLoop {
			c.fr.visits[to.Index] = 0
			if inv := e.w.invariantFor(c.fr.fn, lp); inv != nil && e.cur != nil && !e.cur.bounded && !e.exactFns[targetName(c.fr.fn)] {
				e.cutLoop(r, c, lp, inv)
				return
			}
		} else {
			c.fr.visits[to.Index]++
			if c.fr.visits[to.Index] > e.unrollLimit(c.fr.fn) {
				if e.cur != nil && e.cur.bounded {
					e.boundedHit = true
					return // path abandoned beyond the stated bound
				}
				unsup("loop at %s needs an invariant (unrolled %d times)", e.pos(firstPos(to)), c.fr.visits[to.Index])
			}
		}
	}
	r.work = append(r.work, c)
}

func (e *Engine) unrollLimit(fn *ssa.Function) int {
	if e.cur != nil && e.cur.bounded {
		return e.cur.bound
	}
	return e.unrollMax
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (r *run) enterPhis(c *Conf) {
	b := c.fr.blk
	if c.fr.prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == c.fr.prev {
			pi = i
		}
	}
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, r.e.val(c, phi.Edges[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		c.fr.env[b.Instrs[k].(*ssa.Phi)] = vals[k]
	}
	c.fr.idx = n
}

func (e *Engine) val(c *Conf, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return Func{fn: x, nilc: e.c.fls}
	case *ssa.Global:
		return Ptr{obj: e.globalObj(x), nilc: e.c.fls}
	case *ssa.Builtin:
		return Func{builtin: x.Name(), nilc: e.c.fls}
	}
	if r, ok := c.fr.env[v]; ok {
		return r
	}
	unsup("value %s of %T not available in %s", v.Name(), v, c.fr.fn)
	return nil
}

func (e *Engine) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	switch {
	case isBool(t):
		return e.c.Bool(constant.BoolVal(x.Value))
	case isString(t):
		return e.strLit(constant.StringVal(x.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(x.Value)
		w, _, _ := intWidth(t)
		if w == 32 {
			return e.c.BV(uint64(math.Float32bits(float32(f))), 32)
		}
		return e.c.BV(math.Float64bits(f), 64)
	}
	if w, _, ok := intWidth(t); ok {
		if i, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
			return e.c.BV(i, w)
		}
		i, _ := constant.Int64Val(constant.ToInt(x.Value))
		return e.c.BV(uint64(i), w)
	}
	unsup("constant %s of type %s", x, t)
	return nil
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if o, ok := e.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := e.newObjID("global " + g.String())
	e.objs[o].typ = t
	e.objs[o].lazy = true
	e.globals[g] = o
	e.objInit[o] = func() Value { return e.globalInit(g, t) }
	return o
}

// globalInit is a global's content before the code under proof runs: its
// initialiser's value when no function other than init assigns it, and an
// arbitrary value of its type otherwise.
func (e *Engine) globalInit(g *ssa.Global, t types.Type) Value {
	if v, ok := e.w.constGlobal(e, g); ok {
		return v
	}
	return e.symIdx("global:"+g.String(), t, nil)
}

// guard forks off a panic when ok may be false. It reports whether execution can go on.
func (r *run) guard(c *Conf, ok *Term, msg string, pos token.Pos) bool {
	e := r.e
	if ok.isTrue() {
		return true
	}
	bad := e.c.Not(ok)
	if e.feasible(c.st.pc, bad) {
		p := c.clone()
		p.st.pc = p.st.pc.And(e.c, bad)
		r.panicNow(p, &Panic{val: Iface{typ: types.Typ[types.String], v: e.strLit(msg), nilc: e.c.fls}, msg: msg, pos: pos, fn: c.fr.fn})
		if !e.assume(c.st, ok) {
			return false
		}
		return true
	}
	if e.dry == 0 && e.pure == 0 && e.cur != nil {
		e.cur.safety++
	}
	if ok != e.c.fls {
		c.st.pc = c.st.pc.And(e.c, ok)
	}
	return !ok.isFalse()
}

// panicNow unwinds the frame: deferred calls run, and recover may stop the panic.
func (r *run) panicNow(c *Conf, p *Panic) {
	if len(c.fr.defers) == 0 {
		r.outs = append(r.outs, Outcome{st: c.st, panic: p})
		return
	}
	c.fr.pan = p
	r.unwind(c)
}

func (r *run) unwind(c *Conf) {
	for _, d := range r.runDefers(c) {
		if d.fr.pan != nil {
			r.outs = append(r.outs, Outcome{st: d.st, panic: d.fr.pan})
			continue
		}
		if d.fr.fn.Recover == nil {
			// no named results: return zero values
			var rets []Value
			res := d.fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rets = append(rets, r.e.zero(res.At(i).Type()))
			}
			r.outs = append(r.outs, Outcome{st: d.st, ret: rets})
			continue
		}
		d.fr.prev, d.fr.blk, d.fr.idx = nil, d.fr.fn.Recover, 0
		r.work = append(r.work, d)
	}
}

// runDefers pops and runs all deferred calls; results are frames with none left.
func (r *run) runDefers(c *Conf) []*Conf {
	e := r.e
	cur := []*Conf{c}
	var done []*Conf
	for len(cur) > 0 {
		k := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if len(k.fr.defers) == 0 {
			done = append(done, k)
			continue
		}
		d := k.fr.defers[len(k.fr.defers)-1]
		k.fr.defers = k.fr.defers[:len(k.fr.defers)-1]
		saved := e.panStack
		pan := k.fr.pan
		ps := &panState{p: pan}
		e.panStack = append(append([]*panState(nil), saved...), ps)
		outs := e.callFunc(k.st, d.fv, d.args, d.call)
		e.panStack = saved
		for i, o := range outs {
			n := k
			if i < len(outs)-1 {
				n = k.clone()
			}
			n.st = o.st
			if o.block {
				r.outs = append(r.outs, o)
				continue
			}
			if o.panic != nil {
				n.fr.pan = o.panic
			} else if o.st.recovered {
				o.st.recovered = false
				n.fr.pan = nil
			}
			cur = append(cur, n)
		}
	}
	return done
}

type panState struct{ p *Panic }

func (r *run) exec(c *Conf) {
	e := r.e
	for {
		e.steps++
		if e.steps&255 == 0 {
			e.checkDeadline()
		}
		if e.steps > e.maxSteps {
			unsup("step budget exhausted")
		}
		if c.fr.idx >= len(c.fr.blk.Instrs) {
			unsup("fell off block")
		}
		in := c.fr.blk.Instrs[c.fr.idx]
		c.fr.idx++
		switch x := in.(type) {
		case *ssa.If:
			t := e.val(c, x.Cond).(*Term)
			c1, c2 := c.fr.blk.Succs[0], c.fr.blk.Succs[1]
			if t.isConst() {
				if t.isTrue() {
					r.jump(c, c1)
				} else {
					r.jump(c, c2)
				}
				return
			}
			if r.mergeIf(c, x, t) {
				return
			}
			nt := e.c.Not(t)
			f1 := e.feasible(c.st.pc, t)
			f2 := true
			if f1 {
				f2 = e.feasible(c.st.pc, nt)
			}
			switch {
			case f1 && f2:
				d := c.clone()
				c.st.pc = c.st.pc.And(e.c, t)
				d.st.pc = d.st.pc.And(e.c, nt)
				r.jump(d, c2)
				r.jump(c, c1)
			case f1:
				r.jump(c, c1)
			default:
				r.jump(c, c2)
			}
			return
		case *ssa.Jump:
			r.jump(c, c.fr.blk.Succs[0])
			return
		case *ssa.Return:
			var rets []Value
			for _, v := range x.Results {
				rets = append(rets, e.val(c, v))
			}
			r.outs = append(r.outs, Outcome{st: c.st, ret: rets})
			return
		case *ssa.Panic:
			v := e.val(c, x.X)
			r.panicNow(c, &Panic{val: v, msg: "explicit panic", pos: x.Pos(), fn: c.fr.fn})
			return
		case *ssa.RunDefers:
			ds := r.runDefers(c)
			for _, d := range ds {
				if d.fr.pan != nil {
					r.outs = append(r.outs, Outcome{st: d.st, panic: d.fr.pan})
				} else {
					r.work = append(r.work, d)
				}
			}
			return
		case *ssa.Defer:
			fv, args, ok := r.callee(c, &x.Call, x.Pos())
			if !ok {
				return
			}
			c.fr.defers = append(c.fr.defers, deferred{fv, args, &x.Call})
		case *ssa.Go:
			fv, args, ok := r.callee(c, &x.Call, x.Pos())
			if !ok {
				return
			}
			outs := e.goCall(c.st, fv, args, &x.Call)
			if !r.resume(c, nil, outs) {
				return
			}
		case *ssa.Call:
			fv, args, ok := r.callee(c, &x.Call, x.Pos())
			if !ok {
				return
			}
			var outs []Outcome
			if fv.builtin != "" {
				outs = r.builtin(c, fv.builtin, args, x)
			} else {
				outs = e.callFunc(c.st, fv, args, &x.Call)
			}
			if !r.resume(c, x, outs) {
				return
			}
		case *ssa.DebugRef:
		case *ssa.Store:
			p := e.val(c, x.Addr).(Ptr)
			if !r.guard(c, e.c.Not(p.nilc), "nil pointer dereference", x.Pos()) {
				return
			}
			v := e.val(c, x.Val)
			e.store(c.st, p, v)
		case *ssa.MapUpdate:
			m := e.val(c, x.Map).(MapV)
			if !r.guard(c, e.c.Not(m.nilc), "assignment to entry in nil map", x.Pos()) {
				return
			}
			e.mapUpdate(c.st, m, e.val(c, x.Key), e.val(c, x.Value))
		case *ssa.Send:
			ch := e.val(c, x.Chan).(ChanV)
			if !r.send(c, ch, e.val(c, x.X), x.Pos()) {
				return
			}
		case *ssa.Select:
			r.selectStmt(c, x)
			return
		case ssa.Value:
			gs, cont := r.value(c, x)
			if !cont {
				return
			}
			if gs == nil {
				continue // forked and resumed inside
			}
			if !r.bindG(c, x, gs) {
				return
			}
		default:
			unsup("instruction %T", in)
		}
	}
}

// bindG assigns guarded alternatives to x, forking when they cannot be merged.
func (r *run) bindG(c *Conf, x ssa.Value, gs []GVal) bool {
	e := r.e
	if len(gs) == 1 {
		c.fr.env[x] = gs[0].v
		return true
	}
	v := gs[len(gs)-1].v
	ok := true
	for k := len(gs) - 2; k >= 0 && ok; k-- {
		v, ok = e.merge(gs[k].c, gs[k].v, v)
	}
	if ok {
		c.fr.env[x] = v
		return true
	}
	for _, g := range gs {
		if !e.feasible(c.st.pc, g.c) {
			continue
		}
		d := c.clone()
		d.st.pc = d.st.pc.And(e.c, g.c)
		d.fr.env[x] = g.v
		r.work = append(r.work, d)
	}
	return false
}

// resume continues c after a call with the given outcomes. It reports whether c itself goes on.
func (r *run) resume(c *Conf, x *ssa.Call, outs []Outcome) bool {
	var norm []Outcome
	for _, o := range outs {
		switch {
		case o.block:
			r.outs = append(r.outs, o)
		case o.panic != nil:
			d := c.clone()
			d.st = o.st
			r.panicNow(d, o.panic)
		default:
			norm = append(norm, o)
		}
	}
	set := func(k *Conf, o Outcome) {
		k.st = o.st
		if x == nil {
			return
		}
		switch n := x.Call.Signature().Results().Len(); {
		case n == 1:
			k.fr.env[x] = o.ret[0]
		case n > 1:
			k.fr.env[x] = Tuple(o.ret)
		case len(o.ret) == 1: // builtins
			k.fr.env[x] = o.ret[0]
		default:
			k.fr.env[x] = Tuple(nil)
		}
	}
	if len(norm) == 0 {
		return false
	}
	for _, o := range norm[1:] {
		d := c.clone()
		set(d, o)
		r.work = append(r.work, d)
	}
	set(c, norm[0])
	return true
}

func (r *run) callee(c *Conf, cc *ssa.CallCommon, pos token.Pos) (Func, []Value, bool) {
	e := r.e
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(c, a))
	}
	if !cc.IsInvoke() {
		v := e.val(c, cc.Value)
		f, ok := v.(Func)
		if !ok {
			unsup("call of %T", v)
		}
		if !r.guard(c, e.c.Not(f.nilc), "call of nil function", pos) {
			return Func{}, nil, false
		}
		return f, args, true
	}
	iv, ok := e.val(c, cc.Value).(Iface)
	if !ok {
		unsup("invoke on %T", e.val(c, cc.Value))
	}
	if !r.guard(c, e.c.Not(iv.nilc), "method call on nil interface", pos) {
		return Func{}, nil, false
	}
	if iv.typ == nil {
		if f, ok := e.opaqueMethod(iv, cc.Method); ok {
			return f, append([]Value{iv}, args...), true
		}
		unsup("method %s on opaque %s", cc.Method.Name(), cc.Value.Type())
	}
	fn := e.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
	if fn == nil {
		unsup("no method %s on %s", cc.Method.Name(), iv.typ)
	}
	return Func{fn: fn, nilc: e.c.fls}, append([]Value{iv.v}, args...), true
}

func (e *Engine) callFunc(st *State, f Func, args []Value, cc *ssa.CallCommon) []Outcome {
	if f.native != nil {
		return f.native(e, st, args)
	}
	if f.builtin != "" {
		r := &run{e: e}
		c := &Conf{st, &Frame{fn: e.fnStack[len(e.fnStack)-1], env: map[ssa.Value]Value{}, visits: map[int]int{}}}
		return append(r.builtin2(c, f.builtin, args, cc), r.outs...)
	}
	if f.fn == nil {
		if cc != nil && !cc.IsInvoke() {
			for i := len(e.cur.onCall) - 1; i >= 0; i-- {
				if h := e.cur.onCall[i]; types.Identical(h.typ, cc.Value.Type().Underlying()) {
					e.trusted["unknown function values do what the contract's gvOnCall says and nothing else"] = true
					return e.callFunc(st, h.fn, append([]Value{f}, args...), nil)
				}
			}
		}
		unsup("call of an unknown function value")
	}
	return e.call(st, f.fn, args, f.bind)
}

// call dispatches to a model, a contract, or the body.
func (e *Engine) call(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	if outs, ok := e.intrinsic(st, fn, args); ok {
		return outs
	}
	if len(e.modes) > 0 {
		if m := e.top(); m.con.targetFn == fn && e.inContractFn(m.con) {
			if m.use {
				return e.havocCall(st, fn)
			}
			return e.targetCall(st, fn, args, bind)
		}
	}
	if con := e.w.contractFor(fn); con != nil && e.useContract(fn, con) {
		return e.applyContract(st, fn, con, args)
	}
	if strings.HasPrefix(fn.Name(), "rec_") && e.w.isSpec(fn) {
		return e.recCall(st, fn, args)
	}
	if strings.HasPrefix(fn.Name(), "opq_") && e.w.isSpec(fn) && !e.reveals(fn.Name()) {
		return one(st, e.specApp(st, fn, args))
	}
	e.noteInlined(fn)
	base := st.pc
	outs := e.callBody(st, fn, args, bind)
	return e.mergeOutcomes(base, outs)
}

// recCall applies a recursive specification function: an uninterpreted function of its arguments,
// with its defining equation added for this application (one unfolding; applications met while
// unfolding are left alone).
func (e *Engine) recCall(st *State, fn *ssa.Function, args []Value) []Outcome {
	app := e.specApp(st, fn, args)
	if e.recDepth > 0 || e.recDone[app] {
		return one(st, app)
	}
	if e.recDone == nil {
		e.recDone = map[*Term]bool{}
	}
	e.recDone[app] = true
	e.recDepth++
	d := st.clone()
	d.pc = nil
	body := e.evalPure(d, Func{native: func(ex *Engine, s *State, as []Value) []Outcome {
		base := s.pc
		outs := ex.callBody(s, fn, as, nil)
		return ex.mergeOutcomes(base, outs)
	}, nilc: e.c.fls}, args)[0].(*Term)
	e.recDepth--
	e.s.AddFact(app, e.c.Eq(app, body))
	return one(st, app)
}

// reveals reports whether the contract being checked asked for the definition of an opaque function.
func (e *Engine) reveals(name string) bool {
	if len(e.modes) == 0 {
		return true
	}
	for _, n := range e.modes[0].con.reveal {
		if n == name {
			return true
		}
	}
	return false
}

// specApp is the application of a specification function as an uninterpreted function of its
// arguments and of the bytes they refer to.
func (e *Engine) specApp(st *State, fn *ssa.Function, args []Value) *Term {
	var ts []*Term
	name := "rec:" + fn.Name()
	for i, a := range args {
		switch x := a.(type) {
		case *Term:
			ts = append(ts, x)
		case Slice:
			m, off := e.sliceMem(st, x, fn.Signature.Params().At(i).Type().Underlying().(*types.Slice).Elem())
			name += fmt.Sprintf("@%d", m.id)
			ts = append(ts, off, x.ln)
		case Str:
			name += fmt.Sprintf("@%d", x.mem.id)
			ts = append(ts, x.off, x.ln)
		default:
			unsup("argument of recursive specification function %s: %T", fn.Name(), a)
		}
	}
	rt := fn.Signature.Results().At(0).Type()
	w := uint8(0)
	if !isBool(rt) {
		n, _, ok := intWidth(rt)
		if !ok {
			unsup("result of recursive specification function %s", fn.Name())
		}
		w = n
	}
	return e.c.App(name, w, ts...)
}

// since gives the conjunction of the assumptions added after base.
func (e *Engine) since(base, pc *PC) *Term {
	var ts []*Term
	for q := pc; q != base; q = q.parent {
		if q == nil {
			unsup("path condition does not extend its base")
		}
		ts = append(ts, q.t)
	}
	return e.c.And(ts...)
}

// mergeOutcomes joins normal outcomes whose results and heaps can be merged.
func (e *Engine) mergeOutcomes(base *PC, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	var norm []Outcome
	for _, o := range outs {
		if o.panic != nil || o.block || o.st.recovered {
			res = append(res, o)
		} else {
			norm = append(norm, o)
		}
	}
	var groups []Outcome
	for _, o := range norm {
		done := false
		for i := range groups {
			if m, ok := e.merge2(base, groups[i], o); ok {
				groups[i] = m
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, o)
		}
	}
	return append(res, groups...)
}

func (e *Engine) merge2(base *PC, a, b Outcome) (Outcome, bool) {
	if len(a.ret) != len(b.ret) {
		return a, false
	}
	ca, cb := e.since(base, a.st.pc), e.since(base, b.st.pc)
	// factor common conjuncts so that the distinguishing condition is small
	common, ra, rb := e.factor(ca, cb)
	cond := ra
	ret := make([]Value, len(a.ret))
	for i := range ret {
		v, ok := e.merge(cond, a.ret[i], b.ret[i])
		if !ok {
			return a, false
		}
		ret[i] = v
	}
	if a.st.locks != b.st.locks && a.st.locks.all() != b.st.locks.all() {
		return a, false
	}
	if len(a.st.gos) != len(b.st.gos) || a.st.modst != b.st.modst {
		return a, false
	}
	for i := range a.st.gos {
		x, y := a.st.gos[i], b.st.gos[i]
		if !sameVal(x.f, y.f) || !sameVal(Tuple(x.args), Tuple(y.args)) {
			return a, false
		}
	}
	if len(a.st.useRet) != len(b.st.useRet) {
		return a, false
	}
	var useRet []Value
	for i := range a.st.useRet {
		v, ok := e.merge(cond, a.st.useRet[i], b.st.useRet[i])
		if !ok {
			return a, false
		}
		useRet = append(useRet, v)
	}
	st := &State{heap: map[int]Value{}, modst: a.st.modst, gos: a.st.gos, useRet: useRet, locks: a.st.locks}
	for k, v := range a.st.heap {
		st.heap[k] = v
	}
	for k, v := range b.st.heap {
		w, ok := a.st.heap[k]
		if !ok {
			if _, pre := e.objInit[k]; pre {
				w = e.get(a.st, k)
			} else {
				st.heap[k] = v
				continue
			}
		}
		if sameVal(v, w) {
			continue
		}
		m, ok := e.merge(cond, w, v)
		if !ok {
			return a, false
		}
		st.heap[k] = m
	}
	for k, v := range a.st.heap {
		if _, ok := b.st.heap[k]; ok {
			continue
		}
		if _, pre := e.objInit[k]; pre {
			w := e.get(b.st, k)
			if sameVal(v, w) {
				continue
			}
			m, ok := e.merge(cond, v, w)
			if !ok {
				return a, false
			}
			st.heap[k] = m
		}
	}
	st.pc = base
	for _, t := range common {
		st.pc = st.pc.And(e.c, t)
	}
	st.pc = st.pc.And(e.c, e.c.Or(ra, rb))
	return Outcome{st: st, ret: ret}, true
}

func conj(t *Term) []*Term {
	if t.op == OBAnd {
		return t.args
	}
	return []*Term{t}
}

func (e *Engine) factor(a, b *Term) (common []*Term, ra, rb *Term) {
	inB := map[*Term]bool{}
	for _, t := range conj(b) {
		inB[t] = true
	}
	var xa, xb []*Term
	for _, t := range conj(a) {
		if inB[t] {
			common = append(common, t)
			delete(inB, t)
		} else {
			xa = append(xa, t)
		}
	}
	for _, t := range conj(b) {
		if inB[t] {
			xb = append(xb, t)
		}
	}
	return common, e.c.And(xa...), e.c.And(xb...)
}

// evalPure runs a specification function and returns its merged results.
func (e *Engine) evalPure(st *State, f Func, args []Value) []Value {
	e.pure++
	defer func() { e.pure-- }()
	savedSinks := e.sinks
	e.sinks = nil
	defer func() { e.sinks = savedSinks }()
	base := st.pc
	outs := e.callFunc(st.clone(), f, args, nil)
	var norm []Outcome
	for _, o := range outs {
		if o.panic != nil {
			e.specPanic(o)
			continue
		}
		if o.block {
			unsup("specification blocks")
		}
		norm = append(norm, o)
	}
	if len(norm) == 0 {
		unsup("specification has no normal outcome")
	}
	ret := norm[len(norm)-1].ret
	for k := len(norm) - 2; k >= 0; k-- {
		cond := e.since(base, norm[k].st.pc)
		nr := make([]Value, len(ret))
		for i := range ret {
			v, ok := e.merge(cond, norm[k].ret[i], ret[i])
			if !ok {
				unsup("specification results cannot be merged")
			}
			nr[i] = v
		}
		ret = nr
	}
	return ret
}

func (e *Engine) specPanic(o Outcome) {
	// a specification expression that may crash is an error of the contract,
	// unless the path is infeasible
	unsup("specification may panic: %s at %s", o.panic.msg, e.pos(o.panic.pos))
}

func (e *Engine) noteInlined(fn *ssa.Function) {
	if fn.Pkg == nil && fn.Origin() == nil && fn.Synthetic != "" {
		return
	}
	if e.w.isSpec(fn) {
		return
	}
	e.inlined[fn.String()] = true
}

var _ = fmt.Sprint
