package main

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// targetCall runs the body of the function under contract and checks its frame.
func (e *Engine) targetCall(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	base := st.pc
	var before *State
	var mods []Value
	if st.modst != nil && st.modst.mods != nil {
		before = st.clone()
		mods = st.modst.mods
	}
	outs := e.callBody(st, fn, args, bind)
	if before != nil {
		for _, o := range outs {
			if o.panic == nil && !o.block {
				e.frameCheck(before, o.st, mods, fn.String())
			}
		}
	}
	return e.mergeOutcomes(base, outs)
}

// runContract verifies one contract function.
func runContract(w *World, con *Contract, timeoutMS int, limit time.Duration) (cr *ContractRun, e *Engine) {
	t0 := time.Now()
	cr = &ContractRun{con: con, obls: map[string]*Obl{}, imports: map[string]string{}, cutLoops: map[string]bool{}}
	if con.timeout > 0 {
		timeoutMS = con.timeout
	}
	e = NewEngine(w, timeoutMS)
	defer e.s.Close()
	defer func() { cr.dur = time.Since(t0); cr.stats = e.s.stats }()
	if con.broken != "" {
		cr.err = con.broken
		return
	}
	e.cur = cr
	cr.deadline = t0.Add(limit)
	if con.bounded > 0 {
		cr.bounded, cr.bound = true, con.bounded
	}
	if con.unroll > 0 {
		e.unrollMax = con.unroll
	}
	for _, m := range con.merge {
		e.mergeFns[m] = true
	}
	for _, m := range con.exact {
		e.exactFns[m] = true
	}
	e.modes = []*mode{{con: con}}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				cr.err = u.msg
				if n := len(e.fnStack); n > 0 {
					cr.err += " (in " + e.fnStack[n-1].String() + ")"
				}
				return
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "solver:") {
				cr.err = s
				return
			}
			panic(r)
		}
	}()
	st := &State{heap: map[int]Value{}}
	for _, p := range con.fn.Params {
		v := e.symIdx("p:"+p.Name(), p.Type(), nil)
		cr.params = append(cr.params, v)
		cr.names = append(cr.names, p.Name())
	}
	outs := e.callBody(st, con.fn, cr.params, nil)
	cr.paths = len(outs)
	for _, o := range outs {
		switch {
		case o.block:
			e.terminal(o, "never blocks for ever", "blocked")
		case o.panic != nil:
			fn := ""
			if o.panic.fn != nil {
				fn = o.panic.fn.String()
			}
			e.terminal(o, "no panic", fmt.Sprintf("%s in %s at %s", o.panic.msg, fn, e.pos(o.panic.pos)))
		default:
			cr.ended++
			if o.st.locks != nil {
				if h := o.st.locks.all(); h != "" {
					e.terminal(o, "no lock is left held", "a lock taken is not released on some path")
				} else {
					ob := cr.obl("no lock is left held")
					ob.VCs++
					ob.Proved++
				}
			}
		}
	}
	if cr.safety > 0 {
		o := cr.obl("no panic")
		o.VCs += cr.safety
		o.Proved += cr.safety
	}
	if cr.ended == 0 && cr.err == "" {
		any := false
		for _, n := range cr.order {
			if cr.obls[n].Failed > 0 {
				any = true
			}
		}
		if !any {
			cr.err = "vacuous: no execution of the contract reaches its end"
		}
	}
	return
}

func (e *Engine) terminal(o Outcome, name, where string) {
	ob := e.cur.obl(name)
	ob.VCs++
	switch e.s.Check(o.st.pc, e.c.tru, true) {
	case Unsat:
		ob.Proved++
	case Sat:
		ob.Failed++
		if len(ob.Fails) < 4 {
			ob.Fails = append(ob.Fails, e.counterexample(o.st, e.c.tru, name, where))
		}
	default:
		ob.Undec++
		ob.Details = append(ob.Details, "undecided: "+where)
	}
	e.s.Release()
}

// counterexample builds Go expressions for the contract's parameters from a model of pc /\ ng.
// A model is available in the solver on entry (kept check).
func (e *Engine) counterexample(st *State, ng *Term, name, where string) (f *Failure) {
	f = &Failure{Obl: name, Where: where}
	// prefer small inputs
	var lens []*Term
	for _, p := range e.cur.params {
		e.collectLens(st, p, &lens, 0)
	}
	have := true
	small := false
	for _, lim := range []int64{3, 12, 64, 300, 4200, 70000, 1 << 20, 1 << 25} {
		ts := []*Term{ng}
		for _, l := range lens {
			ts = append(ts, e.c.Ule(l, e.c.Int(lim)))
		}
		e.s.Release()
		if e.s.Check(st.pc, e.c.And(ts...), true) == Sat {
			small = true
			break
		}
	}
	if !small {
		e.s.Release()
		if e.s.Check(st.pc, ng, true) != Sat {
			have = false
		}
		f.Note = "only inputs larger than 32 MiB fail"
	}
	if !have {
		f.Note = "no model available"
		return f
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				f.Inputs = nil
				f.Note = "counterexample cannot be written as Go values: " + u.msg
				return
			}
			panic(r)
		}
	}()
	if !small {
		return f
	}
	g := &goGen{e: e, st: &State{heap: map[int]Value{}, pc: nil}, pkg: e.cur.con.fn.Pkg.Pkg, imports: e.cur.imports}
	for i, p := range e.cur.params {
		f.Inputs = append(f.Inputs, g.expr(p, e.cur.con.fn.Params[i].Type(), 0))
	}
	return f
}

func (e *Engine) collectLens(st *State, v Value, out *[]*Term, depth int) {
	if depth > 4 {
		return
	}
	switch x := v.(type) {
	case Str:
		if !x.ln.isConst() {
			*out = append(*out, x.ln)
		}
	case Slice:
		if !x.ln.isConst() {
			*out = append(*out, x.ln)
			*out = append(*out, x.cp)
		}
		if x.obj >= 0 && depth < 3 {
			if f, ok := e.objInit[x.obj]; ok {
				if a, ok := f().(Arr); ok && a.mem != nil && !isWord(a.mem.elem) {
					for i := uint64(0); i < 4; i++ {
						for _, gv := range e.sel(a.mem, e.c.Add(x.off, e.c.BV(i, 64))) {
							e.collectLens(st, gv.v, out, depth+1)
						}
					}
				}
			}
		}
	case Struct:
		for _, f := range x.f {
			e.collectLens(st, f, out, depth)
		}
	case Ptr:
		if x.obj >= 0 && len(x.path) == 0 {
			if f, ok := e.objInit[x.obj]; ok {
				e.collectLens(st, f(), out, depth+1)
			}
		}
	}
}

type goGen struct {
	e       *Engine
	st      *State
	pkg     *types.Package
	imports map[string]string
}

func (g *goGen) qual(p *types.Package) string {
	if p == g.pkg {
		return ""
	}
	g.imports[p.Path()] = p.Name()
	return p.Name()
}
func (g *goGen) typ(t types.Type) string { return types.TypeString(t, g.qual) }

func (g *goGen) eval(t *Term) uint64 {
	vs, err := g.e.s.Values([]*Term{t})
	if err != nil {
		unsup("%v", err)
	}
	return vs[0]
}

func (g *goGen) bytes(m *Mem, off *Term, n uint64) []byte {
	if n > 1<<25 {
		unsup("a string of %d bytes", n)
	}
	b := make([]byte, n)
	k := g.e.c
	for i := uint64(0); i < n; i++ {
		if n > 6000 && i >= 3000 && i < n-200 {
			continue
		}
		b[i] = byte(g.eval(g.e.selScalar(m, k.Add(off, k.BV(i, 64)))))
	}
	return b
}

func (g *goGen) expr(v Value, t types.Type, depth int) string {
	k := g.e.c
	if depth > 6 {
		return "nil"
	}
	named := func(s string) string {
		if _, ok := t.(*types.Basic); ok {
			return s
		}
		return g.typ(t) + "(" + s + ")"
	}
	switch x := v.(type) {
	case *Term:
		n := g.eval(x)
		if x.w == 0 {
			return named(strconv.FormatBool(n == 1))
		}
		if isFloat(t) {
			g.imports["math"] = "math"
			if x.w == 32 {
				return fmt.Sprintf("%s(math.Float32frombits(%#x))", g.typ(t), n)
			}
			_ = math.Pi
			return fmt.Sprintf("%s(math.Float64frombits(%#x))", g.typ(t), n)
		}
		if isSigned(t) {
			sv := sext64(n, x.w)
			if sv == math.MinInt64 {
				return g.typ(t) + "(-1<<63)"
			}
			return fmt.Sprintf("%s(%d)", g.typ(t), sv)
		}
		return fmt.Sprintf("%s(%d)", g.typ(t), n)
	case Str:
		n := g.eval(x.ln)
		return named(goBytesLit(g.bytes(x.mem, x.off, n)))
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		if x.obj < 0 || g.eval(x.nilc) == 1 {
			return "(" + g.typ(t) + ")(nil)"
		}
		n, cp := g.eval(x.ln), g.eval(x.cp)
		if cp > n+64 {
			cp = n
		}
		a := g.e.get(g.st, x.obj).(Arr)
		if w, _, ok := intWidth(et); ok && w == 8 && !isSigned(et) {
			full := g.bytes(a.mem, x.off, n)
			return fmt.Sprintf("%s(gvBytes(%s, %d))", g.typ(t), goBytesLit(full), cp)
		}
		if n > 4200 {
			unsup("large slice")
		}
		var el []string
		for i := uint64(0); i < n; i++ {
			gs := g.e.sel(a.mem, k.Add(x.off, k.BV(i, 64)))
			el = append(el, g.expr(gs[0].v, et, depth+1))
		}
		lit := g.typ(t) + "{" + strings.Join(el, ", ") + "}"
		if cp > n {
			lit = fmt.Sprintf("gvCap(%s, %d)", lit, cp)
		}
		return lit
	case Struct:
		u := t.Underlying().(*types.Struct)
		var fs []string
		for i := range x.f {
			f := u.Field(i)
			if f.Name() == "_" || (!f.Exported() && f.Pkg() != g.pkg) {
				continue
			}
			fs = append(fs, f.Name()+": "+g.expr(x.f[i], f.Type(), depth+1))
		}
		return g.typ(t) + "{" + strings.Join(fs, ", ") + "}"
	case Arr:
		at := t.Underlying().(*types.Array)
		if at.Len() > 1024 {
			return g.typ(t) + "{}"
		}
		var el []string
		for i := int64(0); i < at.Len(); i++ {
			gs := g.e.sel(x.mem, k.Int(i))
			el = append(el, g.expr(gs[0].v, at.Elem(), depth+1))
		}
		return g.typ(t) + "{" + strings.Join(el, ", ") + "}"
	case Ptr:
		if x.obj < 0 || g.eval(x.nilc) == 1 {
			return "(" + g.typ(t) + ")(nil)"
		}
		if len(x.path) > 0 {
			unsup("pooled pointer")
		}
		et := t.Underlying().(*types.Pointer).Elem()
		return "gvPtr[" + g.typ(et) + "](" + g.expr(g.e.get(g.st, x.obj), et, depth+1) + ")"
	case Iface:
		if g.eval(x.nilc) == 1 {
			return "(" + g.typ(t) + ")(nil)"
		}
		if x.typ != nil {
			return g.typ(t) + "(" + g.expr(x.v, x.typ, depth+1) + ")"
		}
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return fmt.Sprintf("gvErr(%d)", g.eval(x.id))
		}
		ty := g.eval(k.App("dyntype", 64, x.id))
		for key, id := range g.e.typeIDs {
			if uint64(id) == ty {
				T := g.e.typeByKey[key]
				return g.typ(t) + "(" + g.expr(g.e.symIdx("as:"+key, T, []*Term{x.id}), T, depth+1) + ")"
			}
		}
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return g.typ(t) + "(gvOther{})"
		}
		return "(" + g.typ(t) + ")(nil)" // no value of the type can be written; another legal input
	case Func:
		if g.eval(x.nilc) == 1 {
			return "(" + g.typ(t) + ")(nil)"
		}
		if x.id != nil {
			return fmt.Sprintf("gvFunc[%s](%#x)", g.typ(t), g.eval(x.id))
		}
		unsup("function value")
	case MapV:
		if x.obj < 0 || g.eval(x.nilc) == 1 {
			return "(" + g.typ(t) + ")(nil)"
		}
		return g.typ(t) + "{}"
	case ChanV:
		return "(" + g.typ(t) + ")(nil)"
	}
	unsup("value %T", v)
	return ""
}

func goBytesLit(b []byte) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, x := range b {
		if x >= 0x20 && x < 0x7f && x != '"' && x != '\\' {
			sb.WriteByte(x)
		} else {
			fmt.Fprintf(&sb, "\\x%02x", x)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

var _ = path.Base

func isWord(t types.Type) bool { _, _, ok := intWidth(t); return ok }
