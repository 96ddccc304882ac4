package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) newErr() Iface {
	e.errSeq++
	return Iface{id: e.c.Int(int64(1)<<40 + int64(e.errSeq)), nilc: e.c.fls}
}

func (e *Engine) freshStr(name string) Str {
	return e.symIdx(e.c.FreshName(name), types.Typ[types.String], nil).(Str)
}

func one(st *State, v ...Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// intrinsic gives the outcomes of functions that are modelled rather than executed.
func (e *Engine) intrinsic(st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	k := e.c
	name := fullName(fn)
	if e.w.isSpec(fn) && strings.HasPrefix(fn.Name(), "gv") {
		base := fn.Name()
		if o := fn.Origin(); o != nil {
			base = o.Name()
		}
		if outs, ok := e.specCall(st, base, fn, args); ok {
			return outs, true
		}
	}
	if fn.Pkg == nil && fn.Origin() == nil && fn.Synthetic == "" {
		return nil, false
	}
	trust := func(s string) { e.trusted[s] = true }
	pkg := ""
	if p := fn.Package(); p != nil {
		pkg = p.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Package() != nil {
		pkg = o.Package().Pkg.Path()
	}
	switch pkg {
	case "sync":
		switch name {
		case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
			trust("sync mutexes: a lock not held by the calling code itself is acquired; taking it twice blocks, releasing one not held panics")
			return e.lockCall(st, fn.Name(), args[0].(Ptr)), true
		case "(*sync.Mutex).TryLock":
			key, ok := lockKey(args[0].(Ptr))
			if ok && st.locks.held(key) != 0 {
				return one(st, k.fls), true
			}
			return []Outcome{{st: e.lockCall(st, "Lock", args[0].(Ptr))[0].st, ret: []Value{k.tru}}}, true
		case "(*sync.Pool).Put":
			return one(st), true
		case "(*sync.Pool).Get":
			trust("sync.Pool.Get returns New()'s result")
			p := args[0].(Ptr)
			v := e.load1(st, p).(Struct)
			nf := v.f[len(v.f)-1].(Func)
			if nf.fn == nil {
				unsup("sync.Pool without New")
			}
			return e.callFunc(st, nf, nil, nil), true
		case "(*sync.Once).Do":
			trust("sync.Once.Do runs its argument exactly once (single-threaded contracts)")
			p := args[0].(Ptr)
			fld := Ptr{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: 1}, Step{field: 0}), nilc: k.fls}
			_ = fld
			return e.onceDo(st, p, args[1].(Func)), true
		}
	case "sync/atomic", "internal/runtime/atomic":
		if outs, ok := e.atomicCall(st, fn, args); ok {
			trust("sync/atomic operations: plain loads and stores in a single-threaded contract")
			return outs, true
		}
	case "math":
		switch fn.Name() {
		case "Float32bits", "Float64bits", "Float32frombits", "Float64frombits":
			return one(st, args[0]), true
		}
	case "errors":
		if fn.Name() == "New" {
			trust("errors.New / fmt.Errorf return a fresh non-nil error (errors.New: with the given text)")
			n := e.newErr()
			if t, ok := args[0].(Str); ok {
				e.errText[n.id] = t
			}
			return one(st, n), true
		}
	case "github.com/pkg/errors":
		switch fn.Name() {
		case "New", "Errorf":
			return one(st, e.newErr()), true
		case "Wrap", "Wrapf", "WithStack", "WithMessage":
			trust("github.com/pkg/errors wrappers: nil for nil, otherwise a fresh error")
			iv := args[0].(Iface)
			n := e.newErr()
			n.nilc = iv.nilc
			return one(st, n), true
		}
	case "fmt":
		switch fn.Name() {
		case "Errorf":
			trust("errors.New / fmt.Errorf return a fresh non-nil error")
			return one(st, e.newErr()), true
		case "Sprintf", "Sprint", "Sprintln":
			trust("fmt.Sprint*: an arbitrary string")
			return one(st, e.freshStr("sprintf")), true
		case "Println", "Printf", "Print", "Fprintf", "Fprintln":
			trust("fmt printing has no effect on program state")
			return one(st, k.Fresh("n", 64), Iface{nilc: k.tru}), true
		}
	case "log":
		switch fn.Name() {
		case "Printf", "Println", "Print":
			trust("log printing has no effect on program state")
			return one(st), true
		}
	case "strconv":
		switch fn.Name() {
		case "Itoa", "FormatInt", "FormatUint", "Quote":
			var c []*Term
			ok := true
			for _, a := range args {
				t, isT := a.(*Term)
				if !isT {
					ok = false
					break
				}
				c = append(c, t)
			}
			trust("strconv.Format*: an arbitrary string determined by the arguments")
			if ok {
				return one(st, e.symIdx("strconv."+fn.Name(), types.Typ[types.String], c)), true
			}
			return one(st, e.freshStr("strconv")), true
		}
	case "strings":
		if fn.Name() == "ToLower" || fn.Name() == "ToUpper" {
			if x, ok := args[0].(Str); ok && x.ln.isConst() && x.ln.val <= 64 {
				trust("strings.ToLower/ToUpper: byte-wise on ASCII; any other input yields a text of different length or with a non-ASCII byte")
				var outs []Outcome
				for _, r := range e.changeCase(st, x.mem, x.off, x.ln, fn.Name() == "ToLower") {
					outs = append(outs, Outcome{st: r.st, ret: []Value{Str{r.mem, k.Int(0), r.ln}}})
				}
				return outs, true
			}
		}
	case "bytes":
		if fn.Name() == "ToLower" || fn.Name() == "ToUpper" {
			if x, ok := args[0].(Slice); ok && x.ln.isConst() && x.ln.val > 0 && x.ln.val <= 64 {
				trust("strings.ToLower/ToUpper: byte-wise on ASCII; any other input yields a text of different length or with a non-ASCII byte")
				u8 := types.Typ[types.Uint8]
				m, off := e.sliceMem(st, x, u8)
				var outs []Outcome
				for _, r := range e.changeCase(st, m, off, x.ln, fn.Name() == "ToLower") {
					sl := e.newSlice(r.st, "changed case", u8, r.mem, r.ln, r.ln)
					outs = append(outs, Outcome{st: r.st, ret: []Value{sl}})
				}
				return outs, true
			}
		}
		if fn.Name() == "Equal" {
			return one(st, e.bytesEq(st, args[0].(Slice), args[1].(Slice))), true
		}
	case "runtime":
		switch fn.Name() {
		case "Gosched", "KeepAlive", "GC", "SetFinalizer":
			return one(st), true
		}
	case "time":
		switch name {
		case "time.Now":
			trust("time.Now: an arbitrary time")
			return one(st, e.symIdx(k.FreshName("now"), fn.Signature.Results().At(0).Type(), nil)), true
		case "time.Parse":
			trust("time.Parse: an arbitrary time, or an error; no panic")
			return one(st, e.symIdx(k.FreshName("parsed"), fn.Signature.Results().At(0).Type(), nil), e.symIdx(k.FreshName("parse.err"), fn.Signature.Results().At(1).Type(), nil)), true
		}
	case "context":
		switch fn.Name() {
		case "Background", "TODO":
			return one(st, Iface{id: k.Int(int64(1)<<41 + 1), nilc: k.fls}), true
		case "WithValue":
			trust("context.WithValue: a context holding the value (its key is comparable)")
			t := fn.Pkg.Type("valueCtx").Type()
			o := e.alloc(st, "context", Struct{[]Value{args[0], args[1], args[2]}}, t)
			return one(st, Iface{typ: types.NewPointer(t), v: Ptr{obj: o, nilc: k.fls}, nilc: k.fls}), true
		}
	}
	switch fn.Name() {
	case "UnsafeString":
		if len(args) == 1 {
			if s, ok := args[0].(Slice); ok {
				trust("UnsafeString: the string holds the slice's bytes at the time of the call (the slice is not modified afterwards)")
				m, off := e.sliceMem(st, s, types.Typ[types.Uint8])
				return one(st, Str{m, off, s.ln}), true
			}
		}
	case "UnsafeBytes":
		if len(args) == 1 {
			if s, ok := args[0].(Str); ok {
				trust("UnsafeBytes: the slice holds the string's bytes (and is not written through)")
				u8 := types.Typ[types.Uint8]
				return one(st, e.newSlice(st, "unsafebytes", u8, e.viewMem(s.mem, s.off), s.ln, s.ln)), true
			}
		}
	}
	return nil, false
}

func (e *Engine) onceDo(st *State, p Ptr, f Func) []Outcome {
	// a ghost cell per sync.Once location
	key := fmt.Sprintf("once|%d%s", p.obj, pathKey(p.path))
	o, ok := e.onceObj[key]
	if !ok {
		o = e.newObjID("sync.Once state")
		if e.onceObj == nil {
			e.onceObj = map[string]int{}
		}
		e.onceObj[key] = o
		init := Value(e.c.fls)
		if e.objs[p.obj].lazy {
			init = e.c.Var(key, 0)
		}
		e.objInit[o] = func() Value { return init }
	}
	done := e.get(st, o).(*Term)
	var outs []Outcome
	if e.feasible(st.pc, done) {
		d := st.clone()
		d.pc = d.pc.And(e.c, done)
		outs = append(outs, Outcome{st: d})
	}
	if e.feasible(st.pc, e.c.Not(done)) {
		d := st.clone()
		d.pc = d.pc.And(e.c, e.c.Not(done))
		e.noteWrite(o, nil)
		d.set(o, e.c.tru)
		for _, x := range e.callFunc(d, f, nil, nil) {
			x.ret = nil
			outs = append(outs, x)
		}
	}
	return outs
}

func (e *Engine) atomicCall(st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	k := e.c
	n := fn.Name()
	if len(args) == 0 {
		return nil, false
	}
	p, ok := args[0].(Ptr)
	if !ok {
		return nil, false
	}
	if fn.Signature.Recv() != nil {
		// methods of atomic.Int32, Uint64, Bool, Pointer[T] ...: the value is the last field
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		s, ok := rt.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		f := s.NumFields() - 1
		if s.Field(f).Name() != "v" {
			return nil, false
		}
		p = Ptr{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: f}), nilc: k.fls}
		if strings.Contains(rt.String(), "atomic.Bool") {
			return nil, false // inline: converts to uint32
		}
		if strings.Contains(rt.String(), "atomic.Value") {
			return nil, false
		}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return one(st, e.load1(st, p)), true
	case strings.HasPrefix(n, "Store"):
		e.store(st, p, args[1])
		return one(st), true
	case strings.HasPrefix(n, "Add"):
		v := k.Add(e.load1(st, p).(*Term), args[1].(*Term))
		e.store(st, p, v)
		return one(st, v), true
	case strings.HasPrefix(n, "Swap"):
		old := e.load1(st, p)
		e.store(st, p, args[1])
		return one(st, old), true
	case strings.HasPrefix(n, "CompareAndSwap"):
		old := e.load1(st, p)
		var pt types.Type = types.Typ[types.Int64]
		eq := e.equal(st, old, args[1], pt)
		nv, ok := e.merge(eq, args[2], old)
		if !ok {
			var outs []Outcome
			if e.feasible(st.pc, eq) {
				d := st.clone()
				d.pc = d.pc.And(k, eq)
				e.store(d, p, args[2])
				outs = append(outs, Outcome{st: d, ret: []Value{k.tru}})
			}
			if e.feasible(st.pc, k.Not(eq)) {
				d := st.clone()
				d.pc = d.pc.And(k, k.Not(eq))
				outs = append(outs, Outcome{st: d, ret: []Value{k.fls}})
			}
			return outs, true
		}
		e.store(st, p, nv)
		return one(st, eq), true
	}
	return nil, false
}

func (e *Engine) bytesEq(st *State, a, b Slice) *Term {
	u8 := types.Typ[types.Uint8]
	am, ao := e.sliceMem(st, a, u8)
	bm, bo := e.sliceMem(st, b, u8)
	return e.strEq(Str{am, ao, a.ln}, Str{bm, bo, b.ln})
}

// opaqueMethod models methods on interface values about which nothing is known.
func (e *Engine) opaqueMethod(iv Iface, m *types.Func) (Func, bool) {
	k := e.c
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Error", "String":
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
			e.trusted["Error()/String() on an unknown value: a string determined by the value"] = true
			return Func{nilc: k.fls, native: func(ex *Engine, st *State, args []Value) []Outcome {
				if t, ok := ex.errText[iv.id]; ok && m.Name() == "Error" {
					return one(st, t)
				}
				return one(st, ex.symIdx("msg:"+m.Name(), types.Typ[types.String], []*Term{iv.id}))
			}}, true
		}
	case "Value":
		if m.Pkg() != nil && m.Pkg().Path() == "context" {
			return Func{nilc: k.fls, native: func(ex *Engine, st *State, args []Value) []Outcome {
				return one(st, Iface{nilc: k.tru})
			}}, true
		}
	case "Done", "Deadline":
	}
	return Func{}, false
}

func (e *Engine) goCall(st *State, f Func, args []Value, cc *ssa.CallCommon) []Outcome {
	e.trusted["go statements: the goroutine is queued and run to completion when the contract says so (gvRunGo)"] = true
	n := *st
	gos := append(append([]goTask(nil), st.gos...), goTask{f, args, cc})
	n.gos = gos
	*st = n
	return one(st)
}

type goTask struct {
	f    Func
	args []Value
	cc   *ssa.CallCommon
}

func lockKey(p Ptr) (string, bool) {
	for _, s := range p.path {
		if s.idx != nil && !s.idx.isConst() {
			return "", false
		}
	}
	return fmt.Sprintf("%d%s", p.obj, pathKey(p.path)), p.obj >= 0
}

// lockCall models the locks of the thread being executed. Locks at an index that is not known are not
// followed.
func (e *Engine) lockCall(st *State, op string, p Ptr) []Outcome {
	key, ok := lockKey(p)
	if !ok {
		return one(st)
	}
	h := st.locks.held(key)
	n := h
	switch op {
	case "Lock":
		if h != 0 {
			return []Outcome{{st: st, block: true}}
		}
		n = -1
	case "RLock":
		if h < 0 {
			return []Outcome{{st: st, block: true}}
		}
		n = h + 1
	case "Unlock", "RUnlock":
		if op == "Unlock" && h != -1 || op == "RUnlock" && h <= 0 {
			return []Outcome{{st: st, panic: &Panic{val: Iface{id: e.c.Fresh("panic", 64), nilc: e.c.fls}, msg: op + " of a lock that is not held"}}}
		}
		n = 0
		if op == "RUnlock" {
			n = h - 1
		}
	}
	d := st.clone()
	d.locks = &lockSet{st.locks, key, n}
	return one(d)
}

type caseResult struct {
	st  *State
	mem *Mem
	ln  *Term
}

// changeCase lowers or raises n bytes of m from off (n constant).
func (e *Engine) changeCase(st *State, m *Mem, off, n *Term, lower bool) []caseResult {
	k := e.c
	u8 := types.Typ[types.Uint8]
	ascii := k.tru
	res := e.zeroMem(u8)
	for i := uint64(0); i < n.val; i++ {
		b := e.selScalar(m, k.Add(off, k.BV(i, 64)))
		ascii = k.And(ascii, k.Ult(b, k.BV(0x80, 8)))
		lo, hi := uint64('A'), uint64('Z')
		if !lower {
			lo, hi = 'a', 'z'
		}
		in := k.And(k.Ule(k.BV(lo, 8), b), k.Ule(b, k.BV(hi, 8)))
		res = e.storeMem(res, k.BV(i, 64), k.Ite(in, k.Bin(OXor, b, k.BV(0x20, 8)), b))
	}
	var outs []caseResult
	a := st.clone()
	if e.assume(a, ascii) {
		outs = append(outs, caseResult{a, res, n})
	}
	d := st.clone()
	if e.assume(d, k.Not(ascii)) {
		s := e.freshStr("changed case")
		j := k.Fresh("nonascii", 64)
		odd := k.And(k.Sle(k.Int(0), j), k.Slt(j, n), k.Ule(k.BV(0x80, 8), e.selScalar(s.mem, k.Add(s.off, j))))
		if e.assume(d, k.Or(k.Not(k.Eq(s.ln, n)), odd)) {
			outs = append(outs, caseResult{d, e.viewMem(s.mem, s.off), s.ln})
		}
	}
	return outs
}
