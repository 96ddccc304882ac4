package main

import (
	"fmt"
	"go/types"
	rtdebug "runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values. All are immutable; heap cells hold them by value.
type Value interface{}

type Str struct {
	mem     *Mem
	off, ln *Term
}

type Slice struct {
	obj         int
	path        string // encoded path of the backing array inside obj ("" = root)
	off, ln, cp *Term
	nilc        *Term
}

// Ptr addresses a location inside an object. nilc true means the nil pointer.
type Ptr struct {
	obj  int // -1: no object (definitely nil)
	path []Step
	nilc *Term
}

// Step is a field number or an index term.
type Step struct {
	field int
	idx   *Term // nil for a field
}

type Struct struct{ f []Value }

// Arr is an array value (Go array, or the backing store of a slice).
type Arr struct {
	mem *Mem
	n   *Term
}

type Iface struct {
	typ  types.Type // dynamic type; nil when opaque
	v    Value
	id   *Term // identity when opaque
	nilc *Term
}

type Func struct {
	fn      *ssa.Function
	bind    []Value
	builtin string
	id      *Term // identity when unknown
	nilc    *Term
	native  func(ex *Engine, st *State, args []Value) []Outcome
}

type MapV struct {
	obj  int
	nilc *Term
}
type ChanV struct {
	obj  int
	nilc *Term
}
type Tuple []Value

// Opaque is a value of which nothing but its identity is known.
type Opaque struct{ id *Term }

// heap-only values
type MapEnt struct {
	key     Value
	present *Term
	val     Value
}
type MapObj struct {
	base  string // "" : initially empty
	idx   []*Term
	key   types.Type
	elem  types.Type
	ents  []MapEnt // later entries win
	count *Term
}
type ChanObj struct {
	cap    *Term
	closed *Term
	items  *Mem
	head   *Term
	n      *Term
	elem   types.Type
}

// ---- memories (functional arrays of Go values)

type MemKind int

const (
	MZero MemKind = iota
	MBase
	MBytes
	MStore
	MCopy
	MLambda
	MIte
)

type Mem struct {
	id     int
	kind   MemKind
	elem   types.Type
	prev   *Mem
	idx    *Term // store index / copy destination
	n      *Term // copy length
	src    *Mem
	srcOff *Term
	val    Value
	base   string
	pre    []*Term
	bytes  string
	fn     func(idx *Term) Value
	cond   *Term
}

type GVal struct {
	c *Term
	v Value
}

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	if debugOn() {
		rtdebug.PrintStack()
	}
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (e *Engine) newMem(m Mem) *Mem {
	e.memSeq++
	m.id = e.memSeq
	return &m
}

func (e *Engine) zeroMem(elem types.Type) *Mem { return e.newMem(Mem{kind: MZero, elem: elem}) }
func (e *Engine) baseMem(name string, pre []*Term, elem types.Type) *Mem {
	k := name
	for _, p := range pre {
		k += fmt.Sprintf(",%d", p.id)
	}
	if m, ok := e.bases[k]; ok {
		return m
	}
	m := e.newMem(Mem{kind: MBase, base: name, pre: pre, elem: elem})
	e.bases[k] = m
	return m
}
func (e *Engine) bytesMem(s string) *Mem {
	if m, ok := e.lits[s]; ok {
		return m
	}
	m := e.newMem(Mem{kind: MBytes, bytes: s, elem: types.Typ[types.Uint8]})
	e.lits[s] = m
	return m
}
func (e *Engine) storeMem(p *Mem, idx *Term, v Value) *Mem {
	return e.newMem(Mem{kind: MStore, prev: p, idx: idx, val: v, elem: p.elem})
}
func (e *Engine) copyMem(p *Mem, dst *Term, src *Mem, srcOff, n *Term) *Mem {
	if n.isConst() && n.val == 0 {
		return p
	}
	return e.newMem(Mem{kind: MCopy, prev: p, idx: dst, src: src, srcOff: srcOff, n: n, elem: p.elem})
}
func (e *Engine) lambdaMem(p *Mem, dst, n *Term, fn func(i *Term) Value) *Mem {
	return e.newMem(Mem{kind: MLambda, prev: p, idx: dst, n: n, fn: fn, elem: p.elem})
}
func (e *Engine) iteMem(c *Term, a, b *Mem) *Mem {
	if a == b || c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	return e.newMem(Mem{kind: MIte, cond: c, src: a, prev: b, elem: a.elem})
}

type selKey struct{ m, i int }

// sel reads memory m at index i; the result may be guarded alternatives.
func (e *Engine) sel(m *Mem, i *Term) []GVal {
	k := selKey{m.id, i.id}
	if r, ok := e.selMemo[k]; ok {
		return r
	}
	r := e.sel1(m, i)
	e.selMemo[k] = r
	return r
}

func (e *Engine) one(v Value) []GVal { return []GVal{{e.c.tru, v}} }

func (e *Engine) iteG(c *Term, a, b func() []GVal) []GVal {
	if c.isTrue() {
		return a()
	}
	if c.isFalse() {
		return b()
	}
	x, y := a(), b()
	if len(x) == 1 && len(y) == 1 {
		if v, ok := e.merge(c, x[0].v, y[0].v); ok {
			return e.one(v)
		}
	}
	var out []GVal
	for _, g := range x {
		if t := e.c.And(c, g.c); !t.isFalse() {
			out = append(out, GVal{t, g.v})
		}
	}
	for _, g := range y {
		if t := e.c.And(e.c.Not(c), g.c); !t.isFalse() {
			out = append(out, GVal{t, g.v})
		}
	}
	return out
}

func (e *Engine) sel1(m *Mem, i *Term) []GVal {
	c := e.c
	for {
		switch m.kind {
		case MZero:
			return e.one(e.zero(m.elem))
		case MBase:
			return e.one(e.symIdx(m.base, m.elem, append(append([]*Term(nil), m.pre...), i)))
		case MBytes:
			if i.isConst() {
				if i.val < uint64(len(m.bytes)) {
					return e.one(c.BV(uint64(m.bytes[i.val]), 8))
				}
				return e.one(c.BV(0, 8))
			}
			r := c.BV(0, 8)
			for k := len(m.bytes) - 1; k >= 0; k-- {
				r = c.Ite(c.Eq(i, c.Int(int64(k))), c.BV(uint64(m.bytes[k]), 8), r)
			}
			return e.one(r)
		case MStore:
			eq := c.Eq(i, m.idx)
			if eq.isTrue() {
				return e.one(m.val)
			}
			if eq.isFalse() {
				m = m.prev
				continue
			}
			mm := m
			return e.iteG(eq, func() []GVal { return e.one(mm.val) }, func() []GVal { return e.sel(mm.prev, i) })
		case MCopy:
			d := c.Sub(i, m.idx)
			in := c.Ult(d, m.n)
			if m.n.isConst() && m.n.val == ^uint64(0) {
				in = c.tru
			}
			if in.isFalse() {
				m = m.prev
				continue
			}
			mm := m
			return e.iteG(in, func() []GVal { return e.sel(mm.src, c.Add(mm.srcOff, d)) }, func() []GVal { return e.sel(mm.prev, i) })
		case MLambda:
			d := c.Sub(i, m.idx)
			in := c.Ult(d, m.n)
			if in.isFalse() {
				m = m.prev
				continue
			}
			mm := m
			return e.iteG(in, func() []GVal { return e.one(mm.fn(d)) }, func() []GVal { return e.sel(mm.prev, i) })
		case MIte:
			mm := m
			return e.iteG(m.cond, func() []GVal { return e.sel(mm.src, i) }, func() []GVal { return e.sel(mm.prev, i) })
		}
		panic("mem kind")
	}
}

// selByte reads a byte memory.
func (e *Engine) selScalar(m *Mem, i *Term) *Term {
	g := e.sel(m, i)
	if len(g) == 1 {
		return g[0].v.(*Term)
	}
	r := g[len(g)-1].v.(*Term)
	for k := len(g) - 2; k >= 0; k-- {
		r = e.c.Ite(g[k].c, g[k].v.(*Term), r)
	}
	return r
}

// ---- merging two values under a condition

func (e *Engine) merge(c *Term, a, b Value) (Value, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return e.c.Ite(c, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok {
			return nil, false
		}
		ln := e.c.Ite(c, x.ln, y.ln)
		if x.mem == y.mem {
			return Str{x.mem, e.c.Ite(c, x.off, y.off), ln}, true
		}
		if x.ln.isConst() && x.ln.val == 0 {
			return Str{y.mem, y.off, ln}, true
		}
		if y.ln.isConst() && y.ln.val == 0 {
			return Str{x.mem, x.off, ln}, true
		}
		return Str{e.iteMem(c, e.viewMem(x.mem, x.off), e.viewMem(y.mem, y.off)), e.c.Int(0), ln}, true
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		if x.obj < 0 && y.obj >= 0 {
			x.obj, x.path, x.off = y.obj, y.path, y.off
		} else if y.obj < 0 && x.obj >= 0 {
			y.obj, y.path, y.off = x.obj, x.path, x.off
		}
		if x.obj != y.obj || x.path != y.path {
			return nil, false
		}
		return Slice{x.obj, x.path, e.c.Ite(c, x.off, y.off), e.c.Ite(c, x.ln, y.ln), e.c.Ite(c, x.cp, y.cp), e.c.Ite(c, x.nilc, y.nilc)}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x.obj < 0 {
			return Ptr{y.obj, y.path, e.c.Ite(c, x.nilc, y.nilc)}, true
		}
		if y.obj < 0 {
			return Ptr{x.obj, x.path, e.c.Ite(c, x.nilc, y.nilc)}, true
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return nil, false
		}
		p := make([]Step, len(x.path))
		for i := range p {
			if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
				return nil, false
			}
			if x.path[i].idx == nil {
				if x.path[i].field != y.path[i].field {
					return nil, false
				}
				p[i] = x.path[i]
			} else {
				p[i] = Step{idx: e.c.Ite(c, x.path[i].idx, y.path[i].idx)}
			}
		}
		return Ptr{x.obj, p, e.c.Ite(c, x.nilc, y.nilc)}, true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		f := make([]Value, len(x.f))
		for i := range f {
			v, ok := e.merge(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return Struct{f}, true
	case Arr:
		y, ok := b.(Arr)
		if !ok || x.n != y.n {
			return nil, false
		}
		return Arr{e.iteMem(c, x.mem, y.mem), x.n}, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		nilc := e.c.Ite(c, x.nilc, y.nilc)
		if x.nilc.isTrue() {
			return Iface{y.typ, y.v, y.id, nilc}, true
		}
		if y.nilc.isTrue() {
			return Iface{x.typ, x.v, x.id, nilc}, true
		}
		if x.typ == nil && y.typ == nil {
			return Iface{nil, nil, e.c.Ite(c, x.id, y.id), nilc}, true
		}
		if x.typ == nil || y.typ == nil || !types.Identical(x.typ, y.typ) {
			return nil, false
		}
		v, ok := e.merge(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.typ, v, nil, nilc}, true
	case Func:
		y, ok := b.(Func)
		if !ok {
			return nil, false
		}
		nilc := e.c.Ite(c, x.nilc, y.nilc)
		if x.nilc.isTrue() {
			y.nilc = nilc
			return y, true
		}
		if y.nilc.isTrue() {
			x.nilc = nilc
			return x, true
		}
		if x.id != nil && y.id != nil && x.fn == nil && y.fn == nil {
			return Func{id: e.c.Ite(c, x.id, y.id), nilc: nilc}, true
		}
		if x.fn != nil && x.fn == y.fn && len(x.bind) == len(y.bind) {
			bs := make([]Value, len(x.bind))
			for i := range bs {
				v, ok := e.merge(c, x.bind[i], y.bind[i])
				if !ok {
					return nil, false
				}
				bs[i] = v
			}
			return Func{fn: x.fn, bind: bs, nilc: nilc}, true
		}
		return nil, false
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			return nil, false
		}
		if x.obj < 0 {
			x.obj = y.obj
		}
		if y.obj < 0 {
			y.obj = x.obj
		}
		if x.obj != y.obj {
			return nil, false
		}
		return MapV{x.obj, e.c.Ite(c, x.nilc, y.nilc)}, true
	case ChanV:
		y, ok := b.(ChanV)
		if !ok {
			return nil, false
		}
		if x.obj < 0 {
			x.obj = y.obj
		}
		if y.obj < 0 {
			y.obj = x.obj
		}
		if x.obj != y.obj {
			return nil, false
		}
		return ChanV{x.obj, e.c.Ite(c, x.nilc, y.nilc)}, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := e.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Opaque:
		y, ok := b.(Opaque)
		if !ok {
			return nil, false
		}
		return Opaque{e.c.Ite(c, x.id, y.id)}, true
	case MapObj:
		y, ok := b.(MapObj)
		if !ok || x.base != y.base || len(x.ents) != len(y.ents) || x.count != y.count {
			return nil, false
		}
		for i := range x.ents {
			if !sameVal(x.ents[i].key, y.ents[i].key) || x.ents[i].present != y.ents[i].present || !sameVal(x.ents[i].val, y.ents[i].val) {
				return nil, false
			}
		}
		return x, true
	case ChanObj:
		y, ok := b.(ChanObj)
		if !ok || x.cap != y.cap {
			return nil, false
		}
		z := x
		z.closed = e.c.Ite(c, x.closed, y.closed)
		z.head = e.c.Ite(c, x.head, y.head)
		z.n = e.c.Ite(c, x.n, y.n)
		z.items = e.iteMem(c, x.items, y.items)
		return z, true
	}
	return nil, false
}

// viewMem is a memory whose index 0 is m's index off.
func (e *Engine) viewMem(m *Mem, off *Term) *Mem {
	if off.isConst() && off.val == 0 {
		return m
	}
	k := selKey{m.id, off.id}
	if v, ok := e.views[k]; ok {
		return v
	}
	v := e.newMem(Mem{kind: MCopy, prev: e.zeroMem(m.elem), idx: e.c.Int(0), src: m, srcOff: off, n: e.c.Int(-1), elem: m.elem})
	e.views[k] = v
	return v
}

// sameVal is syntactic identity.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.obj != y.obj || x.nilc != y.nilc || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Arr:
		y, ok := b.(Arr)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.nilc != y.nilc || x.id != y.id {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) || x.typ != nil && !types.Identical(x.typ, y.typ) {
			return false
		}
		return sameVal(x.v, y.v)
	case Func:
		y, ok := b.(Func)
		if !ok || x.fn != y.fn || x.id != y.id || x.nilc != y.nilc || len(x.bind) != len(y.bind) || x.builtin != y.builtin || (x.native == nil) != (y.native == nil) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return x.native == nil
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Opaque:
		y, ok := b.(Opaque)
		return ok && x == y
	case MapObj:
		y, ok := b.(MapObj)
		if !ok || x.base != y.base || len(x.ents) != len(y.ents) || x.count != y.count {
			return false
		}
		for i := range x.ents {
			if !sameVal(x.ents[i].key, y.ents[i].key) || x.ents[i].present != y.ents[i].present || !sameVal(x.ents[i].val, y.ents[i].val) {
				return false
			}
		}
		return true
	case ChanObj:
		y, ok := b.(ChanObj)
		return ok && x == y
	}
	return false
}

// ---- types

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true // bit pattern
	case types.Float64, types.UntypedFloat:
		return 64, false, true // bit pattern
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Engine) zero(t types.Type) Value {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return c.fls
		}
		if isString(t) {
			return Str{e.bytesMem(""), c.Int(0), c.Int(0)}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{obj: -1, nilc: c.tru}
		}
		if w, _, ok := intWidth(t); ok {
			return c.BV(0, w)
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{obj: -1, nilc: c.tru}
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return Struct{f}
	case *types.Array:
		return Arr{e.zeroMem(u.Elem()), c.Int(u.Len())}
	case *types.Pointer:
		return Ptr{obj: -1, nilc: c.tru}
	case *types.Slice:
		return Slice{obj: -1, off: c.Int(0), ln: c.Int(0), cp: c.Int(0), nilc: c.tru}
	case *types.Interface:
		return Iface{nilc: c.tru}
	case *types.Signature:
		return Func{nilc: c.tru}
	case *types.Map:
		return MapV{-1, c.tru}
	case *types.Chan:
		return ChanV{-1, c.tru}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = e.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero value of %s", t)
	return nil
}

const maxLen = int64(1) << 46

// symIdx builds the symbolic value `name` of type t, parameterised by idx
// (an element of an unknown array, say). Typing facts attach to its leaf terms.
func (e *Engine) symIdx(name string, t types.Type, idx []*Term) Value {
	c := e.c
	lenFacts := func(ln, cp *Term) {
		e.s.AddFact(ln, c.And(c.Sle(c.Int(0), ln), c.Sle(ln, cp)))
		if !cp.isConst() {
			e.s.AddFact(cp, c.Sle(cp, c.Int(maxLen)))
		}
		e.s.AddFact(cp, c.Sle(c.Int(0), cp))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return c.App(name, 0, idx...)
		}
		if isString(t) {
			ln := c.App(name+".len", 64, idx...)
			e.s.AddFact(ln, c.And(c.Sle(c.Int(0), ln), c.Sle(ln, c.Int(maxLen))))
			return Str{e.baseMem(name+".b", idx, types.Typ[types.Uint8]), c.Int(0), ln}
		}
		if w, _, ok := intWidth(t); ok {
			return c.App(name, w, idx...)
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.symIdx(name+"."+u.Field(i).Name(), u.Field(i).Type(), idx)
		}
		return Struct{f}
	case *types.Array:
		return Arr{e.baseMem(name+".a", idx, u.Elem()), c.Int(u.Len())}
	case *types.Slice:
		ln := c.App(name+".len", 64, idx...)
		cp := c.App(name+".cap", 64, idx...)
		lenFacts(ln, cp)
		o := e.lazyObj(name+".data", idx, func() Value {
			return Arr{e.baseMem(name+".data", idx, u.Elem()), cp}
		}, types.NewSlice(u.Elem()))
		nilc := c.App(name+".nil", 0, idx...)
		e.s.AddFact(nilc, c.Implies(nilc, c.And(c.Eq(ln, c.Int(0)), c.Eq(cp, c.Int(0)))))
		return Slice{obj: o, off: c.Int(0), ln: ln, cp: cp, nilc: nilc}
	case *types.Pointer:
		nilc := c.App(name+".nil", 0, idx...)
		if pool, ok := e.pools[typeKey(u.Elem())]; ok {
			i := c.App(name+".ref", 64, idx...)
			return Ptr{obj: pool, path: []Step{{idx: i}}, nilc: nilc}
		}
		o := e.lazyObj(name+".*", idx, func() Value { return e.symIdx(name+".*", u.Elem(), idx) }, u.Elem())
		return Ptr{obj: o, nilc: nilc}
	case *types.Interface:
		return Iface{id: c.App(name+".id", 64, idx...), nilc: c.App(name+".nil", 0, idx...)}
	case *types.Signature:
		return Func{id: c.App(name+".fn", 64, idx...), nilc: c.App(name+".nil", 0, idx...)}
	case *types.Map:
		o := e.lazyObj(name+".map", idx, func() Value {
			cnt := c.App(name+".count", 64, idx...)
			e.s.AddFact(cnt, c.And(c.Sle(c.Int(0), cnt), c.Sle(cnt, c.Int(maxLen))))
			return MapObj{base: name + ".map", idx: idx, key: u.Key(), elem: u.Elem(), count: cnt}
		}, t)
		return MapV{o, c.App(name+".nil", 0, idx...)}
	case *types.Chan:
		o := e.lazyObj(name+".chan", idx, func() Value {
			cp := c.App(name+".ccap", 64, idx...)
			n := c.App(name+".n", 64, idx...)
			e.s.AddFact(cp, c.And(c.Sle(c.Int(0), cp), c.Sle(cp, c.Int(maxLen))))
			e.s.AddFact(n, c.And(c.Sle(c.Int(0), n), c.Sle(n, cp)))
			return ChanObj{cap: cp, closed: c.App(name+".closed", 0, idx...), items: e.baseMem(name+".items", idx, u.Elem()), head: c.Int(0), n: n, elem: u.Elem()}
		}, t)
		return ChanV{o, c.App(name+".nil", 0, idx...)}
	}
	unsup("symbolic value of %s", t)
	return nil
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// lazyObj creates (once) the object standing for an unknown location.
func (e *Engine) lazyObj(name string, idx []*Term, init func() Value, t types.Type) int {
	k := name
	for _, p := range idx {
		k += fmt.Sprintf(",%d", p.id)
	}
	if o, ok := e.lazy[k]; ok {
		return o
	}
	o := e.newObjID(name)
	e.lazy[k] = o
	e.objInit[o] = init
	e.objs[o].lazy = true
	e.objs[o].typ = t
	return o
}
