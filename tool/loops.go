package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mergeIf executes both branches of a conditional up to their join and merges the states.
func (r *run) mergeIf(c *Conf, t *ssa.If, cond *Term) bool {
	e := r.e
	fn := c.fr.fn
	if !e.w.isSpec(fn) && !e.mergeFns[targetName(fn)] {
		return false
	}
	li := e.w.loopsOf(fn)
	J := li.ipdom[c.fr.blk]
	if J == nil || li.header[J] != nil || !e.regionOK(fn, c.fr.blk, J, li) {
		return false
	}
	nc := e.c.Not(cond)
	f1 := e.feasible(c.st.pc, cond)
	f2 := !f1 || e.feasible(c.st.pc, nc)
	if !f1 || !f2 {
		return false
	}
	base := c.st.pc
	orig := c.clone()
	var stopped []*Conf
	sub := &run{e: e}
	sub.stop = func(k *Conf, to *ssa.BasicBlock) bool {
		if to == J {
			k.fr.prev, k.fr.blk, k.fr.idx = k.fr.blk, to, 0
			sub.enterPhis(k)
			stopped = append(stopped, k)
			return true
		}
		if r.stop != nil {
			return r.stop(k, to)
		}
		return false
	}
	d := c.clone()
	c.st.pc = base.And(e.c, cond)
	d.st.pc = base.And(e.c, nc)
	s1, s2 := c.fr.blk.Succs[0], c.fr.blk.Succs[1]
	sub.jump(c, s1)
	sub.jump(d, s2)
	sub.loop()
	r.outs = append(r.outs, sub.outs...)
	var phis []*ssa.Phi
	for _, in := range J.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var outs []Outcome
	for _, k := range stopped {
		var vs []Value
		for _, p := range phis {
			vs = append(vs, k.fr.env[p])
		}
		outs = append(outs, Outcome{st: k.st, ret: vs})
	}
	outs = e.mergeOutcomes(base, outs)
	for i, o := range outs {
		k := orig
		if i < len(outs)-1 {
			k = orig.clone()
		}
		k.st = o.st
		k.fr.prev, k.fr.blk, k.fr.idx = orig.fr.blk, J, len(phis)
		for j, p := range phis {
			k.fr.env[p] = o.ret[j]
		}
		r.work = append(r.work, k)
	}
	return true
}

func (e *Engine) regionOK(fn *ssa.Function, from, J *ssa.BasicBlock, li *LoopInfo) bool {
	key := [2]*ssa.BasicBlock{from, J}
	if v, ok := e.regions[key]; ok {
		return v
	}
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == J || seen[b] || !ok {
			return
		}
		seen[b] = true
		if li.header[b] != nil || b == from || len(seen) > 64 {
			ok = false
			return
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Select:
				ok = false
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range from.Succs {
		walk(s)
	}
	e.regions[key] = ok
	return ok
}

// ---- loops with invariants

type havocState struct {
	flags  map[string]int  // location -> 0 unchanged, 1 fresh scalar parts, 2 different object
	splits []string        // slices that may still be in their first array, which others can see
	orig   map[string]bool // the case being looked at: still in the first array
}

func (h *havocState) split(key string) bool {
	for _, k := range h.splits {
		if k == key {
			return h.orig[key]
		}
	}
	h.splits = append(h.splits, key)
	return true
}

const (
	hKeep = iota
	hFresh
	hObject
)

// classify compares a value at loop entry with one at a back edge.
func (e *Engine) classify(h *havocState, key string, a, b Value, mark int) {
	if sameVal(a, b) {
		return
	}
	up := func(n int) {
		if h.flags[key] < n {
			h.flags[key] = n
		}
	}
	switch x := a.(type) {
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			unsup("loop changes the shape of %s", key)
		}
		for i := range x.f {
			e.classify(h, fmt.Sprintf("%s.%d", key, i), x.f[i], y.f[i], mark)
		}
	case Slice:
		y := b.(Slice)
		if x.obj != y.obj || x.path != y.path {
			up(hObject)
		} else {
			up(hFresh)
			if x.off != y.off {
				h.flags[key+".off"] = hFresh
			}
			if x.cp != y.cp {
				h.flags[key+".cap"] = hFresh
			}
			if x.nilc != y.nilc {
				h.flags[key+".nil"] = hFresh
			}
		}
	case Iface:
		y := b.(Iface)
		if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			e.classify(h, key+".(v)", x.v, y.v, mark)
			if x.nilc != y.nilc {
				up(hFresh)
			}
		} else {
			up(hObject)
		}
	case Ptr:
		y := b.(Ptr)
		if x.obj != y.obj || len(x.path) != len(y.path) {
			if x.obj < 0 || y.obj < 0 {
				up(hFresh)
				return
			}
			up(hObject)
		} else {
			up(hFresh)
		}
	default:
		up(hFresh)
	}
}

// havocValue is the value of a location at an arbitrary iteration.
func (e *Engine) havocValue(h *havocState, key string, v Value, t types.Type, st *State, refs func(obj int) int) Value {
	k := e.c
	fl := h.flags[key]
	switch x := v.(type) {
	case Struct:
		u := t.Underlying().(*types.Struct)
		f := make([]Value, len(x.f))
		for i := range f {
			f[i] = e.havocValue(h, fmt.Sprintf("%s.%d", key, i), x.f[i], u.Field(i).Type(), st, refs)
		}
		return Struct{f}
	case Iface:
		if fl == hObject {
			return Iface{id: k.Fresh("loop.id", 64), nilc: k.Fresh("loop.nil", 0)}
		}
		if x.typ != nil {
			x.v = e.havocValue(h, key+".(v)", x.v, x.typ, st, refs)
		}
		if fl == hFresh {
			x.nilc = k.Fresh("loop.nil", 0)
			if x.typ == nil {
				x.id = k.Fresh("loop.id", 64)
			}
		}
		return x
	}
	if fl == hKeep {
		return v
	}
	switch x := v.(type) {
	case *Term:
		return e.pinned("loop", x.w)
	case Str:
		return e.symIdx(k.FreshName("loop.str"), types.Typ[types.String], nil)
	case Arr:
		return Arr{e.baseMem(k.FreshName("loop.arr"), nil, x.mem.elem), x.n}
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		if fl == hObject && x.obj >= 0 && !(x.cp.isConst() && x.cp.val == 0) && refs(x.obj) > 1 && h.split(key) {
			fl = hFresh
		}
		if fl == hObject {
			ns := e.symIdx(k.FreshName("loop.slice"), types.NewSlice(et), nil).(Slice)
			// the object belongs to the loop: writes to it are not writes to pre-existing memory
			e.objs[ns.obj].lazy, e.objs[ns.obj].own = false, true
			return ns
		}
		off, ln, cp := x.off, e.pinned("loop.len", 64), x.cp
		if h.flags[key+".off"] != hKeep {
			off = e.pinned("loop.off", 64)
		}
		if h.flags[key+".cap"] != hKeep {
			cp = e.pinned("loop.cap", 64)
		}
		nilc := x.nilc
		if !nilc.isFalse() && h.flags[key+".nil"] != hKeep {
			nilc = k.Fresh("loop.nil", 0)
			e.s.AddFact(nilc, k.Implies(nilc, k.And(k.Eq(ln, k.Int(0)), k.Eq(cp, k.Int(0)))))
		}
		var lim *Term = k.Int(maxLen)
		if x.obj >= 0 {
			lim = e.backing(st, x).n
		}
		e.loopFact(ln, k.And(k.Sle(k.Int(0), ln), k.Sle(ln, cp)))
		if off != x.off {
			e.loopFact(off, k.And(k.Sle(k.Int(0), off), k.Sle(off, lim)))
		}
		if cp != x.cp {
			e.loopFact(cp, k.And(k.Sle(k.Int(0), cp), k.Sle(cp, k.Sub(lim, off))))
		}
		return Slice{x.obj, x.path, off, ln, cp, nilc}
	case Ptr:
		if fl == hObject {
			unsup("loop variable points to different objects")
		}
		p := append([]Step(nil), x.path...)
		for i := range p {
			if p[i].idx != nil {
				p[i].idx = k.Fresh("loop.idx", 64)
			}
		}
		return Ptr{x.obj, p, k.Fresh("loop.nil", 0)}
	case Func:
		return Func{id: k.Fresh("loop.fn", 64), nilc: k.Fresh("loop.nil", 0)}
	case MapObj:
		n := k.FreshName("loop.map")
		cnt := k.Var(n+".count", 64)
		e.s.AddFact(cnt, k.And(k.Sle(k.Int(0), cnt), k.Sle(cnt, k.Int(maxLen))))
		return MapObj{base: n, key: x.key, elem: x.elem, count: cnt}
	case ChanObj:
		n := k.Fresh("loop.chan.n", 64)
		e.s.AddFact(n, k.And(k.Sle(k.Int(0), n), k.Sle(n, x.cap)))
		return ChanObj{cap: x.cap, closed: k.Fresh("loop.closed", 0), items: e.baseMem(k.FreshName("loop.items"), nil, x.elem), head: k.Fresh("loop.head", 64), n: n, elem: x.elem}
	}
	unsup("loop changes a %T", v)
	return nil
}

func countRefs(v Value, obj int) int {
	switch x := v.(type) {
	case Slice:
		if x.obj == obj {
			return 1
		}
	case Ptr:
		if x.obj == obj {
			return 1
		}
	case Struct:
		n := 0
		for _, f := range x.f {
			n += countRefs(f, obj)
		}
		return n
	case Iface:
		if x.v != nil {
			return countRefs(x.v, obj)
		}
	case Tuple:
		n := 0
		for _, f := range x {
			n += countRefs(f, obj)
		}
		return n
	case Arr:
		n := 0
		for m := x.mem; m != nil; m = m.prev {
			if m.kind == MStore {
				n += countRefs(m.val, obj)
			}
		}
		return n
	case Func:
		n := 0
		for _, f := range x.bind {
			n += countRefs(f, obj)
		}
		return n
	}
	return 0
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// leaf reports whether fn works on numbers alone.
func leaf(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Return, *ssa.Convert, *ssa.DebugRef:
			default:
				return false
			}
			for _, o := range in.Operands(nil) {
				if _, g := (*o).(*ssa.Global); g {
					return false
				}
			}
		}
	}
	return len(fn.Blocks) > 0
}

// appendOnly reports whether the loop changes slices of type t only by appending to them (so that no
// element visible through another reference changes).
func appendOnly(lp *Loop, t types.Type) bool {
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return false
	}
	same := func(v ssa.Value) bool { return types.Identical(v.Type().Underlying(), t.Underlying()) }
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if same(x.X) {
					return false
				}
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if f := x.Common().StaticCallee(); f != nil && leaf(f) {
					continue
				}
				return false
			case *ssa.Store:
				if same(x.Val) {
					return false
				}
			case *ssa.MakeClosure, *ssa.Send:
				return false
			}
		}
	}
	return true
}

func (e *Engine) havocConf(c *Conf, lp *Loop, h *havocState, writes map[string]*wloc) *Conf {
	d := c.clone()
	refs := func(obj int) int {
		n := 0
		seen := map[string]bool{}
		for sv, v := range c.fr.env {
			_ = sv
			if countRefs(v, obj) > 0 {
				key := fmt.Sprintf("%v", v)
				if s, ok := v.(Slice); ok {
					key = fmt.Sprintf("slice %d %d %d", s.obj, s.off.id, s.ln.id)
				}
				if !seen[key] {
					seen[key] = true
					n++
				}
			}
		}
		for o, v := range c.st.heap {
			if o != obj {
				n += countRefs(v, obj)
			}
		}
		return n
	}
	for i, p := range headerPhis(lp.header) {
		rf := refs
		if appendOnly(lp, p.Type()) {
			rf = func(int) int { return 0 }
		}
		d.fr.env[p] = e.havocValue(h, fmt.Sprintf("phi%d", i), c.fr.env[p], p.Type(), d.st, rf)
	}
	keys := make([]string, 0, len(writes))
	for key := range writes {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		wl := writes[key]
		ptr := Ptr{obj: wl.obj, path: wl.path, nilc: e.c.fls}
		old := e.load1(c.st, ptr)
		t := e.objs[wl.obj].typ
		if t != nil {
			for _, s := range wl.path {
				t = t.Underlying().(*types.Struct).Field(s.field).Type()
			}
		}
		if _, isSl := old.(Arr); isSl {
			t = nil
		}
		nv := e.havocValue(h, "w"+key, old, t, d.st, refs)
		if sameVal(nv, old) {
			continue
		}
		d.st.set(wl.obj, e.update(e.get(d.st, wl.obj), wl.path, nv))
		e.noteWrite(wl.obj, wl.path)
	}
	return d
}

// pinned is a fresh loop variable, or what the invariant says it equals.
func (e *Engine) pinned(prefix string, w uint8) *Term {
	t := e.c.Fresh(prefix, w)
	if p, ok := e.pins[t]; ok {
		e.pinVals[p] = true
		return p
	}
	return t
}

// loopFact is a typing fact of a loop variable.
func (e *Engine) loopFact(t, fact *Term) {
	if e.pinVals[t] || !strings.HasPrefix(t.name, "loop") {
		e.pinFacts = append(e.pinFacts, fact)
		return
	}
	e.s.AddFact(t, fact)
}

// pinsOf finds the conjuncts of cond that equate a loop variable made after mark with a term not
// involving it (or another one so pinned).
func (e *Engine) pinsOf(cond *Term, mark int) map[*Term]*Term {
	conj := []*Term{cond}
	if cond.op == OBAnd {
		conj = cond.args
	}
	fresh := func(t *Term) bool {
		if t.op != OVar || !strings.HasPrefix(t.name, "loop") {
			return false
		}
		i := strings.LastIndexByte(t.name, '!')
		n, err := strconv.Atoi(t.name[i+1:])
		return err == nil && n > mark
	}
	pins := map[*Term]*Term{}
	used := map[*Term]bool{} // variables in the terms pinned to
	for _, q := range conj {
		if q.op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			v, t := q.args[i], q.args[1-i]
			if !fresh(v) || pins[v] != nil || used[v] || t.isConst() {
				continue
			}
			vars := map[*Term]bool{}
			seen := map[int]bool{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if seen[t.id] {
					return
				}
				seen[t.id] = true
				if t.op == OVar {
					vars[t] = true
				}
				for _, a := range t.args {
					walk(a)
				}
			}
			walk(t)
			ok := !vars[v]
			for x := range vars {
				if pins[x] != nil {
					ok = false
				}
			}
			if ok {
				pins[v] = t
				for x := range vars {
					used[x] = true
				}
				break
			}
		}
	}
	return pins
}

type invEval struct {
	cond *Term
	dec  *Term
}

func (e *Engine) evalInv(c *Conf, lp *Loop, inv *Invariant) invEval {
	args := e.invArgs(c, lp, inv)
	ret := e.evalPure(c.st, Func{fn: inv.fn, nilc: e.c.fls}, args)
	out := invEval{cond: ret[0].(*Term)}
	if len(ret) > 1 {
		out.dec = ret[1].(*Term)
	}
	return out
}

// invArgs binds an invariant's parameters to the loop's variables by name.
func (e *Engine) invArgs(c *Conf, lp *Loop, inv *Invariant) []Value {
	fn := c.fr.fn
	var args []Value
	used := map[*ssa.Phi]bool{}
	phis := headerPhis(lp.header)
	find := func(p *ssa.Parameter) (Value, bool) {
		name := p.Name()
		for _, ph := range phis {
			if ph.Comment == name && types.Identical(ph.Type(), p.Type()) {
				used[ph] = true
				return c.fr.env[ph], true
			}
		}
		for _, q := range fn.Params {
			if q.Name() == name && types.Identical(q.Type(), p.Type()) {
				return c.fr.env[q], true
			}
		}
		for _, q := range fn.FreeVars {
			if q.Name() == name {
				if types.Identical(q.Type(), p.Type()) {
					return c.fr.env[q], true
				}
				if pt, ok := q.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) {
					return e.load1(c.st, c.fr.env[q].(Ptr)), true
				}
			}
		}
		// address-taken locals and values bound to the name before the loop
		var best Value
		for b := lp.header.Idom(); b != nil && best == nil; b = b.Idom() {
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				switch x := b.Instrs[i].(type) {
				case *ssa.Alloc:
					if x.Comment == name && types.Identical(x.Type().(*types.Pointer).Elem(), p.Type()) {
						if v, ok := c.fr.env[x]; ok {
							best = e.load1(c.st, v.(Ptr))
						}
					}
				case *ssa.DebugRef:
					if x.IsAddr {
						continue
					}
					if o := x.Object(); o != nil && o.Name() == name && types.Identical(x.X.Type(), p.Type()) {
						if v, ok := c.fr.env[x.X]; ok {
							best = v
						} else if k, ok := x.X.(*ssa.Const); ok {
							best = e.constVal(k)
						}
					}
				}
				if best != nil {
					return best, true
				}
			}
		}
		return nil, false
	}
	missing := []int{}
	for _, p := range inv.fn.Params {
		v, ok := find(p)
		if !ok {
			missing = append(missing, len(args))
		}
		args = append(args, v)
	}
	for _, i := range missing {
		p := inv.fn.Params[i]
		var cand *ssa.Phi
		n := 0
		for _, ph := range phis {
			if !used[ph] && types.Identical(ph.Type(), p.Type()) {
				if cand == nil {
					cand = ph
				}
				n++
			}
		}
		if n != 1 {
			unsup("invariant %s: loop in %s has no variable %q", inv.name, fn, p.Name())
		}
		used[cand] = true
		args[i] = c.fr.env[cand]
		// the hidden index of a range loop is one behind that of a counting loop
		if t, ok := args[i].(*Term); ok && t.w == 64 {
			switch {
			case cand.Comment == "rangeindex":
				args[i] = e.c.Add(t, e.c.Int(1))
			case p.Name() == "rangeindex":
				args[i] = e.c.Sub(t, e.c.Int(1))
			}
		}
	}
	return args
}

func (e *Engine) cutLoop(r *run, c *Conf, lp *Loop, inv *Invariant) {
	e.checkDeadline()
	label := fmt.Sprintf("%s loop %d", targetName(c.fr.fn), lp.index)
	if e.dry == 0 {
		e.cur.cutLoops[label] = true
	}
	ent := e.evalInv(c, lp, inv)
	e.oblige(c.st, "loop invariant holds on entry: "+label, ent.cond, e.pos(firstPos(lp.header)))
	if !e.assume(c.st, ent.cond) {
		return
	}
	h := &havocState{flags: map[string]int{}}
	writes := map[string]*wloc{}
	body := func(d *Conf, onBack func(k *Conf), onExit func(k *Conf, to *ssa.BasicBlock)) []Outcome {
		sub := &run{e: e}
		sub.stop = func(k *Conf, to *ssa.BasicBlock) bool {
			if k.fr.fn != c.fr.fn {
				return false
			}
			if to == lp.header {
				k.fr.prev, k.fr.blk, k.fr.idx = k.fr.blk, to, 0
				sub.enterPhis(k)
				onBack(k)
				return true
			}
			if !lp.blocks[to] {
				onExit(k, to)
				return true
			}
			return false
		}
		sub.work = append(sub.work, d)
		sub.loop()
		return sub.outs
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop write set does not stabilise: %s", label)
		}
		nflags, nsplits := len(h.flags), len(h.splits)
		sum := 0
		for _, f := range h.flags {
			sum += f
		}
		nw := len(writes)
		for _, h.orig = range h.cases() {
			mark := len(e.objs)
			d := e.havocConf(c, lp, h, writes)
			iv := e.evalInv(d, lp, inv)
			if !e.assume(d.st, iv.cond) {
				continue
			}
			entry := d.clone()
			sink := map[string]*wloc{}
			e.sinks = append(e.sinks, sink)
			e.dry++
			var backs []*Conf
			body(d, func(k *Conf) { backs = append(backs, k) }, func(k *Conf, to *ssa.BasicBlock) {})
			e.dry--
			e.sinks = e.sinks[:len(e.sinks)-1]
			_ = entry
			for key, wl := range sink {
				if _, ok := writes[key]; ok {
					continue
				}
				_, had := c.st.heap[wl.obj]
				_, pre := e.objInit[wl.obj]
				if wl.obj >= mark && !had {
					if pre && e.objs[wl.obj].lazy {
						unsup("loop writes through a varying pointer: %s (%s)", label, e.objs[wl.obj].name)
					}
					continue // allocated by the iteration, or owned by a loop slice
				}
				if !had && !pre {
					continue
				}
				covered := false
				for _, o := range writes {
					if o.obj == wl.obj && len(o.path) <= len(wl.path) && pathKey(o.path) == pathKey(wl.path[:len(o.path)]) {
						covered = true
					}
				}
				if !covered {
					writes[key] = wl
				}
			}
			for _, k := range backs {
				for i, p := range headerPhis(lp.header) {
					e.classify(h, fmt.Sprintf("phi%d", i), c.fr.env[p], k.fr.env[p], mark)
				}
				for key, wl := range writes {
					ptr := Ptr{obj: wl.obj, path: wl.path, nilc: e.c.fls}
					e.classify(h, "w"+key, e.load1(c.st, ptr), e.load1(k.st, ptr), mark)
				}
			}
		}
		s2 := 0
		for _, f := range h.flags {
			s2 += f
		}
		if len(h.flags) == nflags && s2 == sum && len(writes) == nw && len(h.splits) == nsplits {
			break
		}
	}
	where := e.pos(firstPos(lp.header))
	some := false
	for _, h.orig = range h.cases() {
		mark := e.c.fresh
		d := e.havocConf(c, lp, h, writes)
		iv := e.evalInv(d, lp, inv)
		// where the invariant says what a loop variable equals, let it be that
		if pins := e.pinsOf(iv.cond, mark); len(pins) > 0 {
			end := e.c.fresh
			e.c.fresh, e.pins, e.pinFacts = mark, pins, nil
			d = e.havocConf(c, lp, h, writes)
			facts := e.pinFacts
			if e.c.fresh < end {
				e.c.fresh = end
			}
			e.pins, e.pinFacts = nil, nil
			iv = e.evalInv(d, lp, inv)
			if !e.assume(d.st, e.c.And(facts...)) {
				continue
			}
		}
		if !e.assume(d.st, iv.cond) {
			continue
		}
		some = true
		outs := body(d, func(k *Conf) {
			e.checkDeadline()
			nv := e.evalInv(k, lp, inv)
			e.oblige(k.st, "loop invariant is preserved: "+label, nv.cond, where)
			if iv.dec != nil {
				e.oblige(k.st, "loop terminates: "+label, e.c.And(e.c.Sle(e.c.Int(0), nv.dec), e.c.Slt(nv.dec, iv.dec)), where)
			}
		}, func(k *Conf, to *ssa.BasicBlock) {
			r.jump(k, to)
		})
		r.outs = append(r.outs, outs...)
	}
	if !some {
		unsup("loop invariant of %s is contradictory", label)
	}
}

// cases lists the ways the loop's slices can be in their first array or not.
func (h *havocState) cases() []map[string]bool {
	out := []map[string]bool{{}}
	for _, key := range h.splits {
		var next []map[string]bool
		for _, m := range out {
			n := map[string]bool{key: true}
			for k := range m {
				n[k] = true
			}
			next = append(next, m, n)
		}
		out = next
	}
	return out
}
