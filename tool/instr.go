package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// toInt widens an index/length value to 64 bits.
func (e *Engine) toInt(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsup("integer expected, got %T", v)
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return e.c.SExt(x, 64)
	}
	return e.c.ZExt(x, 64)
}

func (e *Engine) maxAlloc() *Term { return e.c.Int(maxLen) }

func (r *run) value(c *Conf, x ssa.Value) ([]GVal, bool) {
	e := r.e
	k := e.c
	switch x := x.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		o := e.alloc(c.st, name, e.zero(t), t)
		e.objs[o].fn = c.fr.fn
		return e.one(Ptr{obj: o, nilc: k.fls}), true
	case *ssa.BinOp:
		v, ok := r.binop(c, x)
		if !ok {
			return nil, false
		}
		return e.one(v), true
	case *ssa.UnOp:
		return r.unop(c, x)
	case *ssa.ChangeType:
		return e.one(e.val(c, x.X)), true
	case *ssa.ChangeInterface:
		return e.one(e.val(c, x.X)), true
	case *ssa.MakeInterface:
		return e.one(Iface{typ: x.X.Type(), v: e.val(c, x.X), nilc: k.fls}), true
	case *ssa.Convert:
		return e.one(e.convert(c.st, e.val(c, x.X), x.X.Type(), x.Type())), true
	case *ssa.Extract:
		t := e.val(c, x.Tuple).(Tuple)
		return e.one(t[x.Index]), true
	case *ssa.Field:
		s, ok := e.val(c, x.X).(Struct)
		if !ok {
			unsup("field of %T", e.val(c, x.X))
		}
		return e.one(s.f[x.Field]), true
	case *ssa.FieldAddr:
		p, ok := e.val(c, x.X).(Ptr)
		if !ok {
			unsup("field address of %T", e.val(c, x.X))
		}
		if !r.guard(c, k.Not(p.nilc), "nil pointer dereference", x.Pos()) {
			return nil, false
		}
		return e.one(Ptr{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: x.Field}), nilc: k.fls}), true
	case *ssa.Index:
		i := e.toInt(e.val(c, x.Index), x.Index.Type())
		switch a := e.val(c, x.X).(type) {
		case Arr:
			if !r.guard(c, k.Ult(i, a.n), "index out of range", x.Pos()) {
				return nil, false
			}
			return e.sel(a.mem, i), true
		case Str:
			if !r.guard(c, k.Ult(i, a.ln), "index out of range", x.Pos()) {
				return nil, false
			}
			return e.one(e.strAt(a, i)), true
		}
		unsup("index of %T", e.val(c, x.X))
	case *ssa.IndexAddr:
		i := e.toInt(e.val(c, x.Index), x.Index.Type())
		switch a := e.val(c, x.X).(type) {
		case Slice:
			if !r.guard(c, k.Ult(i, a.ln), "index out of range", x.Pos()) {
				return nil, false
			}
			return e.one(e.elemPtr(a, i)), true
		case Ptr:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !r.guard(c, k.Not(a.nilc), "nil pointer dereference", x.Pos()) {
				return nil, false
			}
			if !r.guard(c, k.Ult(i, k.Int(at.Len())), "index out of range", x.Pos()) {
				return nil, false
			}
			return e.one(Ptr{obj: a.obj, path: append(append([]Step(nil), a.path...), Step{idx: i}), nilc: k.fls}), true
		}
		unsup("index address of %T", e.val(c, x.X))
	case *ssa.Lookup:
		xv := e.val(c, x.X)
		if s, ok := xv.(Str); ok {
			i := e.toInt(e.val(c, x.Index), x.Index.Type())
			if !r.guard(c, k.Ult(i, s.ln), "index out of range", x.Pos()) {
				return nil, false
			}
			return e.one(e.strAt(s, i)), true
		}
		m := xv.(MapV)
		mt := x.X.Type().Underlying().(*types.Map)
		alts := e.mapLookup(c.st, m, e.val(c, x.Index), mt)
		var out []GVal
		for _, a := range alts {
			if x.CommaOk {
				out = append(out, GVal{a.c, Tuple{a.v, a.present}})
			} else {
				out = append(out, GVal{a.c, a.v})
			}
		}
		return out, true
	case *ssa.MakeChan:
		n := e.toInt(e.val(c, x.Size), x.Size.Type())
		if !r.guard(c, k.And(k.Sle(k.Int(0), n), k.Sle(n, e.maxAlloc())), "makechan: size out of range", x.Pos()) {
			return nil, false
		}
		et := x.Type().Underlying().(*types.Chan).Elem()
		o := e.alloc(c.st, "chan", ChanObj{cap: n, closed: k.fls, items: e.zeroMem(et), head: k.Int(0), n: k.Int(0), elem: et}, x.Type())
		return e.one(ChanV{o, k.fls}), true
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(c, b))
		}
		return e.one(Func{fn: x.Fn.(*ssa.Function), bind: bs, nilc: k.fls}), true
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := e.alloc(c.st, "map", MapObj{key: mt.Key(), elem: mt.Elem(), count: k.Int(0)}, x.Type())
		return e.one(MapV{o, k.fls}), true
	case *ssa.MakeSlice:
		ln := e.toInt(e.val(c, x.Len), x.Len.Type())
		cp := e.toInt(e.val(c, x.Cap), x.Cap.Type())
		et := x.Type().Underlying().(*types.Slice).Elem()
		if !r.guard(c, k.And(k.Sle(k.Int(0), ln), k.Sle(ln, e.maxAlloc())), "makeslice: len out of range", x.Pos()) {
			return nil, false
		}
		if !r.guard(c, k.And(k.Sle(ln, cp), k.Sle(cp, e.maxAlloc())), "makeslice: cap out of range", x.Pos()) {
			return nil, false
		}
		s := e.newSlice(c.st, "makeslice", et, e.zeroMem(et), ln, cp)
		return e.one(s), true
	case *ssa.Slice:
		return r.slice(c, x)
	case *ssa.TypeAssert:
		return r.typeAssert(c, x)
	case *ssa.Range:
		v := e.val(c, x.X)
		switch v.(type) {
		case MapV, Str:
			o := e.alloc(c.st, "iter", Tuple{v, k.Int(0)}, nil)
			return e.one(Ptr{obj: o, nilc: k.fls}), true
		}
		unsup("range over %T", v)
	case *ssa.Next:
		return r.next(c, x)
	case *ssa.SliceToArrayPointer:
		s := e.val(c, x.X).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := k.Int(at.Len())
		if !r.guard(c, k.Ule(n, s.ln), "slice to array pointer: short slice", x.Pos()) {
			return nil, false
		}
		unsup("slice to array pointer")
	case *ssa.MultiConvert:
		unsup("generic conversion")
	}
	unsup("instruction %T", x)
	return nil, false
}

func (r *run) binop(c *Conf, x *ssa.BinOp) (Value, bool) {
	e := r.e
	k := e.c
	a, b := e.val(c, x.X), e.val(c, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		q := e.equal(c.st, a, b, t)
		if x.Op == token.NEQ {
			q = k.Not(q)
		}
		return q, true
	}
	if isString(t) {
		sa, sb := a.(Str), b.(Str)
		switch x.Op {
		case token.ADD:
			return e.concat(sa, sb), true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if ca, ok := e.constStr(sa); ok {
				if cb, ok := e.constStr(sb); ok {
					switch x.Op {
					case token.LSS:
						return k.Bool(ca < cb), true
					case token.LEQ:
						return k.Bool(ca <= cb), true
					case token.GTR:
						return k.Bool(ca > cb), true
					default:
						return k.Bool(ca >= cb), true
					}
				}
			}
		}
		unsup("string operator %s", x.Op)
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %s on %T", x.Op, a)
	}
	if isFloat(t) {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return k.App(fmt.Sprintf("f%d%s", p.w, x.Op), p.w, p, q), true
		case token.LSS:
			return k.App(fmt.Sprintf("flt%d", p.w), 0, p, q), true
		case token.GTR:
			return k.App(fmt.Sprintf("flt%d", p.w), 0, q, p), true
		case token.LEQ:
			return k.App(fmt.Sprintf("fle%d", p.w), 0, p, q), true
		case token.GEQ:
			return k.App(fmt.Sprintf("fle%d", p.w), 0, q, p), true
		}
	}
	sg := isSigned(t)
	switch x.Op {
	case token.ADD:
		return k.Add(p, q), true
	case token.SUB:
		return k.Sub(p, q), true
	case token.MUL:
		return k.Mul(p, q), true
	case token.QUO, token.REM:
		if !r.guard(c, k.Not(k.Eq(q, k.BV(0, q.w))), "integer divide by zero", x.Pos()) {
			return nil, false
		}
		op := OUDiv
		switch {
		case x.Op == token.QUO && sg:
			op = OSDiv
		case x.Op == token.REM && sg:
			op = OSRem
		case x.Op == token.REM:
			op = OURem
		}
		return k.Bin(op, p, q), true
	case token.AND:
		if p.w == 0 {
			return k.And(p, q), true
		}
		return k.Bin(OAnd, p, q), true
	case token.OR:
		if p.w == 0 {
			return k.Or(p, q), true
		}
		return k.Bin(OOr, p, q), true
	case token.XOR:
		return k.Bin(OXor, p, q), true
	case token.AND_NOT:
		return k.Bin(OAnd, p, k.BVNot(q)), true
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !r.guard(c, k.Sle(k.BV(0, q.w), q), "negative shift amount", x.Pos()) {
				return nil, false
			}
		}
		op := OShl
		if x.Op == token.SHR {
			op = OLShr
			if sg {
				op = OAShr
			}
		}
		if q.w <= p.w {
			return k.Bin(op, p, k.ZExt(q, p.w)), true
		}
		big := k.Ule(k.BV(uint64(p.w), q.w), q)
		fill := k.BV(0, p.w)
		if op == OAShr {
			fill = k.Bin(OAShr, p, k.BV(uint64(p.w)-1, p.w))
		}
		return k.Ite(big, fill, k.Bin(op, p, k.Extract(q, 0, p.w))), true
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			p, q = q, p
		}
		strict := x.Op == token.LSS || x.Op == token.GTR
		switch {
		case strict && sg:
			return k.Slt(p, q), true
		case strict:
			return k.Ult(p, q), true
		case sg:
			return k.Sle(p, q), true
		default:
			return k.Ule(p, q), true
		}
	}
	unsup("operator %s", x.Op)
	return nil, false
}

func (e *Engine) concat(a, b Str) Str {
	k := e.c
	if a.ln.isConst() && a.ln.val == 0 {
		return b
	}
	if b.ln.isConst() && b.ln.val == 0 {
		return a
	}
	ca, oka := e.constStr(a)
	cb, okb := e.constStr(b)
	if oka && okb {
		return e.strLit(ca + cb)
	}
	key := fmt.Sprintf("cat|%d|%d|%d|%d|%d|%d", a.mem.id, a.off.id, a.ln.id, b.mem.id, b.off.id, b.ln.id)
	m, ok := e.bases[key]
	if !ok {
		u8 := types.Typ[types.Uint8]
		m = e.copyMem(e.zeroMem(u8), k.Int(0), a.mem, a.off, a.ln)
		m = e.copyMem(m, a.ln, b.mem, b.off, b.ln)
		e.bases[key] = m
	}
	return Str{m, k.Int(0), k.Add(a.ln, b.ln)}
}

// equal is Go's == at type t.
func (e *Engine) equal(st *State, a, b Value, t types.Type) *Term {
	k := e.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("comparison of scalar with %T", b)
		}
		if isFloat(t) {
			w := x.w
			expBits, manBits := uint8(8), uint8(23)
			if w == 64 {
				expBits, manBits = 11, 52
			}
			nan := func(v *Term) *Term {
				return k.And(k.Eq(k.Extract(v, manBits, expBits), k.BV(mask(expBits), expBits)), k.Not(k.Eq(k.Extract(v, 0, manBits), k.BV(0, manBits))))
			}
			zero := func(v *Term) *Term { return k.Eq(k.Extract(v, 0, w-1), k.BV(0, w-1)) }
			return k.Or(k.And(k.Eq(x, y), k.Not(nan(x))), k.And(zero(x), zero(y)))
		}
		return k.Eq(x, y)
	case Str:
		return e.strEq(x, b.(Str))
	case Slice:
		y := b.(Slice)
		if y.nilc.isTrue() {
			return x.nilc
		}
		if x.nilc.isTrue() {
			return y.nilc
		}
		unsup("slice comparison")
	case MapV:
		y := b.(MapV)
		if y.nilc.isTrue() {
			return x.nilc
		}
		return y.nilc
	case Func:
		y := b.(Func)
		if y.nilc.isTrue() {
			return x.nilc
		}
		return y.nilc
	case ChanV:
		y := b.(ChanV)
		if x.obj == y.obj {
			return k.Eq(x.nilc, y.nilc)
		}
		return k.And(x.nilc, y.nilc)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			unsup("comparison of pointer with %T", b)
		}
		if x.obj < 0 {
			return y.nilc
		}
		if y.obj < 0 {
			return x.nilc
		}
		both := k.And(x.nilc, y.nilc)
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return both
		}
		same := []*Term{k.Not(x.nilc), k.Not(y.nilc)}
		for i := range x.path {
			s, u := x.path[i], y.path[i]
			if (s.idx == nil) != (u.idx == nil) {
				return both
			}
			if s.idx == nil {
				if s.field != u.field {
					return both
				}
				continue
			}
			same = append(same, k.Eq(s.idx, u.idx))
		}
		return k.Or(both, k.And(same...))
	case Struct:
		y := b.(Struct)
		u := t.Underlying().(*types.Struct)
		var ts []*Term
		for i := range x.f {
			ts = append(ts, e.equal(st, x.f[i], y.f[i], u.Field(i).Type()))
		}
		return k.And(ts...)
	case Arr:
		y := b.(Arr)
		if !x.n.isConst() || x.n.val > 4096 {
			unsup("array comparison")
		}
		et := t.Underlying().(*types.Array).Elem()
		var ts []*Term
		for i := uint64(0); i < x.n.val; i++ {
			p, q := e.sel(x.mem, k.BV(i, 64)), e.sel(y.mem, k.BV(i, 64))
			if len(p) != 1 || len(q) != 1 {
				unsup("array comparison with ambiguous elements")
			}
			ts = append(ts, e.equal(st, p[0].v, q[0].v, et))
		}
		return k.And(ts...)
	case Iface:
		y, ok := b.(Iface)
		if !ok { // interface compared with a concrete value
			y = Iface{typ: t, v: b, nilc: k.fls}
		}
		if x.nilc.isTrue() {
			return y.nilc
		}
		if y.nilc.isTrue() {
			return x.nilc
		}
		var inner *Term
		switch {
		case x.typ == nil && y.typ == nil:
			inner = k.Eq(x.id, y.id)
		case x.typ != nil && y.typ != nil:
			if types.Identical(x.typ, y.typ) {
				if !types.Comparable(x.typ) {
					unsup("comparison of uncomparable dynamic type")
				}
				inner = e.equal(st, x.v, y.v, x.typ)
			} else {
				inner = k.fls
			}
		default:
			inner = k.Fresh("ifaceeq", 0)
		}
		return k.Or(k.And(x.nilc, y.nilc), k.And(k.Not(x.nilc), k.Not(y.nilc), inner))
	case Opaque:
		if y, ok := b.(Opaque); ok {
			return k.Eq(x.id, y.id)
		}
	}
	if iv, ok := b.(Iface); ok {
		return e.equal(st, Iface{typ: t, v: a, nilc: k.fls}, iv, t)
	}
	unsup("comparison of %T", a)
	return nil
}

func (r *run) unop(c *Conf, x *ssa.UnOp) ([]GVal, bool) {
	e := r.e
	k := e.c
	switch x.Op {
	case token.MUL:
		p, ok := e.val(c, x.X).(Ptr)
		if !ok {
			unsup("load from %T", e.val(c, x.X))
		}
		if !r.guard(c, k.Not(p.nilc), "nil pointer dereference", x.Pos()) {
			return nil, false
		}
		return e.load(c.st, p), true
	case token.NOT:
		return e.one(k.Not(e.val(c, x.X).(*Term))), true
	case token.SUB:
		v := e.val(c, x.X).(*Term)
		if isFloat(x.X.Type()) {
			return e.one(k.Bin(OXor, v, k.BV(uint64(1)<<(v.w-1), v.w))), true
		}
		return e.one(k.Neg(v)), true
	case token.XOR:
		return e.one(k.BVNot(e.val(c, x.X).(*Term))), true
	case token.ARROW:
		ch := e.val(c, x.X).(ChanV)
		return r.recv(c, ch, x.CommaOk, x)
	}
	unsup("unary %s", x.Op)
	return nil, false
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	k := e.c
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return v
	}
	// strings and byte slices
	if isString(to) {
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			et := fu.(*types.Slice).Elem()
			if w, _, _ := intWidth(et); w != 8 {
				unsup("[]rune to string")
			}
			m, off := e.sliceMem(st, x, et)
			return Str{m, off, x.ln}
		case *Term:
			if x.isConst() {
				return e.strLit(string(rune(sext64(x.val, x.w))))
			}
			if e.valid(st.pc, k.And(k.Ult(x, k.BV(128, x.w)))) {
				m := e.storeMem(e.zeroMem(types.Typ[types.Uint8]), k.Int(0), k.ZExt(k.Extract(x, 0, 8), 8))
				return Str{m, k.Int(0), k.Int(1)}
			}
			unsup("rune to string")
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			if w, _, _ := intWidth(ts.Elem()); w != 8 {
				unsup("string to []rune")
			}
			sl := e.newSlice(st, "bytes", ts.Elem(), e.copyMem(e.zeroMem(ts.Elem()), k.Int(0), s.mem, s.off, s.ln), s.ln, s.ln)
			return sl
		}
	}
	if x, ok := v.(*Term); ok {
		tw, _, okT := intWidth(to)
		if okT && x.w > 0 {
			switch {
			case isFloat(from) && isFloat(to):
				if x.w == tw {
					return x
				}
				return k.App(fmt.Sprintf("fconv%d_%d", x.w, tw), tw, x)
			case isFloat(from):
				return k.App(fmt.Sprintf("f2i%d_%d_%v", x.w, tw, isSigned(to)), tw, x)
			case isFloat(to):
				return k.App(fmt.Sprintf("i2f%d_%d_%v", x.w, tw, isSigned(from)), tw, x)
			}
			if tw <= x.w {
				return k.Extract(x, 0, tw)
			}
			if isSigned(from) {
				return k.SExt(x, tw)
			}
			return k.ZExt(x, tw)
		}
	}
	if p, ok := v.(Ptr); ok {
		return p // unsafe.Pointer conversions keep the location
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (r *run) slice(c *Conf, x *ssa.Slice) ([]GVal, bool) {
	e := r.e
	k := e.c
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = e.toInt(e.val(c, x.Low), x.Low.Type())
	} else {
		lo = k.Int(0)
	}
	if x.High != nil {
		hi = e.toInt(e.val(c, x.High), x.High.Type())
	}
	if x.Max != nil {
		mx = e.toInt(e.val(c, x.Max), x.Max.Type())
	}
	switch s := e.val(c, x.X).(type) {
	case Str:
		if hi == nil {
			hi = s.ln
		}
		if !r.guard(c, k.And(k.Ule(lo, hi), k.Ule(hi, s.ln)), "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return e.one(Str{s.mem, k.Add(s.off, lo), k.Sub(hi, lo)}), true
	case Slice:
		if hi == nil {
			hi = s.ln
		}
		cp := s.cp
		if mx != nil {
			if !r.guard(c, k.Ule(mx, s.cp), "slice bounds out of range", x.Pos()) {
				return nil, false
			}
			cp = mx
		}
		if !r.guard(c, k.And(k.Ule(lo, hi), k.Ule(hi, cp)), "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return e.one(Slice{s.obj, s.path, k.Add(s.off, lo), k.Sub(hi, lo), k.Sub(cp, lo), s.nilc}), true
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := k.Int(at.Len())
		if !r.guard(c, k.Not(s.nilc), "nil pointer dereference", x.Pos()) {
			return nil, false
		}
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		if !r.guard(c, k.And(k.Ule(lo, hi), k.Ule(hi, cp), k.Ule(cp, n)), "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return e.one(Slice{s.obj, e.mkPathKey(s.path), lo, k.Sub(hi, lo), k.Sub(cp, lo), k.fls}), true
	}
	unsup("slice of %T", e.val(c, x.X))
	return nil, false
}

func (r *run) typeAssert(c *Conf, x *ssa.TypeAssert) ([]GVal, bool) {
	e := r.e
	k := e.c
	iv, ok := e.val(c, x.X).(Iface)
	if !ok {
		unsup("type assertion on %T", e.val(c, x.X))
	}
	T := x.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	var okT *Term
	var v Value
	switch {
	case iv.nilc.isTrue():
		okT, v = k.fls, e.zero(T)
	case iv.typ != nil && toIface:
		okT = k.And(k.Bool(types.Implements(iv.typ, T.Underlying().(*types.Interface))), k.Not(iv.nilc))
		v = iv
	case iv.typ != nil:
		okT = k.And(k.Bool(types.Identical(iv.typ, T)), k.Not(iv.nilc))
		v = iv.v
	case toIface:
		okT = k.And(k.App("is:"+typeKey(T), 0, iv.id), k.Not(iv.nilc))
		v = Iface{id: iv.id, nilc: k.fls}
	default:
		okT = k.And(k.Eq(k.App("dyntype", 64, iv.id), k.Int(e.typeID(T))), k.Not(iv.nilc))
		v = e.symIdx("as:"+typeKey(T), T, []*Term{iv.id})
	}
	if !x.CommaOk {
		if !r.guard(c, okT, "interface conversion: wrong dynamic type", x.Pos()) {
			return nil, false
		}
		return e.one(v), true
	}
	if okT.isTrue() {
		return e.one(Tuple{v, k.tru}), true
	}
	if okT.isFalse() {
		return e.one(Tuple{e.zero(T), k.fls}), true
	}
	return []GVal{{okT, Tuple{v, k.tru}}, {k.Not(okT), Tuple{e.zero(T), k.fls}}}, true
}

func (e *Engine) typeID(t types.Type) int64 {
	k := typeKey(t)
	if e.typeIDs == nil {
		e.typeIDs = map[string]int64{}
	}
	if i, ok := e.typeIDs[k]; ok {
		return i
	}
	i := int64(len(e.typeIDs) + 1)
	e.typeIDs[k] = i
	if e.typeByKey == nil {
		e.typeByKey = map[string]types.Type{}
	}
	e.typeByKey[k] = t
	return i
}

// ---- maps

type mapAlt struct {
	c       *Term
	v       Value
	present *Term
}

func (e *Engine) keyTerms(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case Str:
		return []*Term{e.strIdent(x)}
	case Struct:
		var out []*Term
		for _, f := range x.f {
			out = append(out, e.keyTerms(f)...)
		}
		return out
	case Iface:
		if x.typ == nil {
			return []*Term{x.id}
		}
	}
	unsup("map key %T", v)
	return nil
}

func (e *Engine) mapLookup(st *State, m MapV, key Value, mt *types.Map) []mapAlt {
	k := e.c
	if m.obj < 0 || m.nilc.isTrue() {
		return []mapAlt{{k.tru, e.zero(mt.Elem()), k.fls}}
	}
	mo := e.get(st, m.obj).(MapObj)
	var out []mapAlt
	rest := k.tru
	if !m.nilc.isFalse() {
		out = append(out, mapAlt{m.nilc, e.zero(mt.Elem()), k.fls})
		rest = k.Not(m.nilc)
	}
	for i := len(mo.ents) - 1; i >= 0; i-- {
		en := mo.ents[i]
		eq := e.equal(st, en.key, key, mt.Key())
		if eq.isFalse() {
			continue
		}
		here := k.And(rest, eq)
		if !here.isFalse() {
			if en.present.isTrue() || en.present.isFalse() {
				v := en.val
				if en.present.isFalse() {
					v = e.zero(mt.Elem())
				}
				out = append(out, mapAlt{here, v, en.present})
			} else {
				out = append(out, mapAlt{k.And(here, en.present), en.val, k.tru}, mapAlt{k.And(here, k.Not(en.present)), e.zero(mt.Elem()), k.fls})
			}
		}
		rest = k.And(rest, k.Not(eq))
		if rest.isFalse() {
			return out
		}
	}
	if mo.base == "" {
		return append(out, mapAlt{rest, e.zero(mt.Elem()), k.fls})
	}
	idx := append(append([]*Term(nil), mo.idx...), e.keyTerms(key)...)
	pres := k.App(mo.base+".has", 0, idx...)
	v := e.symIdx(mo.base+".val", mt.Elem(), idx)
	return append(out, mapAlt{k.And(rest, pres), v, k.tru}, mapAlt{k.And(rest, k.Not(pres)), e.zero(mt.Elem()), k.fls})
}

func (e *Engine) mapHas(st *State, m MapV, key Value, mt *types.Map) *Term {
	var ts []*Term
	for _, a := range e.mapLookup(st, m, key, mt) {
		ts = append(ts, e.c.And(a.c, a.present))
	}
	return e.c.Or(ts...)
}

func (e *Engine) mapUpdate(st *State, m MapV, key, val Value) {
	k := e.c
	mo := e.get(st, m.obj).(MapObj)
	mt := types.NewMap(mo.key, mo.elem)
	if mo.key != nil {
		if _, ok := key.(Iface); !ok {
			if _, isI := mo.key.Underlying().(*types.Interface); isI {
				unsup("interface map key")
			}
		}
		if iv, ok := key.(Iface); ok && iv.typ != nil && !types.Comparable(iv.typ) {
			unsup("unhashable map key")
		}
	}
	had := e.mapHas(st, m, key, mt)
	mo.count = k.Add(mo.count, k.Ite(had, k.Int(0), k.Int(1)))
	mo.ents = append(append([]MapEnt(nil), mo.ents...), MapEnt{key, k.tru, val})
	e.noteWrite(m.obj, nil)
	st.set(m.obj, mo)
}

func (e *Engine) mapDelete(st *State, m MapV, key Value) {
	k := e.c
	if m.obj < 0 || m.nilc.isTrue() {
		return
	}
	mo := e.get(st, m.obj).(MapObj)
	mt := types.NewMap(mo.key, mo.elem)
	had := e.mapHas(st, m, key, mt)
	mo.count = k.Sub(mo.count, k.Ite(had, k.Int(1), k.Int(0)))
	mo.ents = append(append([]MapEnt(nil), mo.ents...), MapEnt{key, k.fls, nil})
	e.noteWrite(m.obj, nil)
	st.set(m.obj, mo)
}

// next advances a map or string iterator. Only maps with a known, finite set of keys are supported;
// they are visited in insertion order (one of the orders Go allows).
func (r *run) next(c *Conf, x *ssa.Next) ([]GVal, bool) {
	e := r.e
	k := e.c
	p := e.val(c, x.Iter).(Ptr)
	it := e.get(c.st, p.obj).(Tuple)
	pos := it[1].(*Term)
	tt := x.Type().(*types.Tuple)
	done := func() []GVal {
		z := Tuple{k.fls, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			z[i] = e.zero(tt.At(i).Type())
		}
		return e.one(z)
	}
	if x.IsString {
		s := it[0].(Str)
		if cs, ok := e.constStr(s); ok {
			i := int(pos.val)
			if i >= len(cs) {
				return done(), true
			}
			for j, rn := range cs {
				if j == i {
					n := len(string(rn))
					c.st.set(p.obj, Tuple{it[0], k.Int(int64(i + n))})
					return e.one(Tuple{k.tru, k.Int(int64(i)), k.BV(uint64(rn), 32)}), true
				}
			}
		}
		unsup("range over an unknown string")
	}
	m := it[0].(MapV)
	if m.obj < 0 {
		return done(), true
	}
	if !pos.isConst() {
		unsup("map iterator position")
	}
	mo := e.get(c.st, m.obj).(MapObj)
	if mo.base != "" {
		unsup("range over an unknown map")
	}
	if !m.nilc.isFalse() {
		if !e.valid(c.st.pc, k.Not(m.nilc)) {
			unsup("range over a possibly nil map")
		}
	}
	e.trusted["map iteration visits keys in insertion order (one of the orders Go permits)"] = true
	for i := int(pos.val); i < len(mo.ents); i++ {
		en := mo.ents[i]
		// live: not overwritten by an earlier entry with the same key already visited, and currently present
		vis := k.fls
		for j := 0; j < i; j++ {
			vis = k.Or(vis, e.equal(c.st, mo.ents[j].key, en.key, mo.key))
		}
		has := e.mapHas(c.st, m, en.key, types.NewMap(mo.key, mo.elem))
		live := k.And(has, k.Not(vis))
		if live.isFalse() {
			continue
		}
		if !live.isTrue() {
			if e.valid(c.st.pc, k.Not(live)) {
				continue
			}
			if !e.valid(c.st.pc, live) {
				unsup("range over a map with conditionally present keys")
			}
		}
		c.st.set(p.obj, Tuple{it[0], k.Int(int64(i + 1))})
		var v Value
		alts := e.mapLookup(c.st, m, en.key, types.NewMap(mo.key, mo.elem))
		var out []GVal
		for _, a := range alts {
			if a.present.isFalse() {
				continue
			}
			v = a.v
			out = append(out, GVal{a.c, Tuple{k.tru, en.key, v}})
		}
		return out, true
	}
	return done(), true
}

// ---- channels

func (r *run) send(c *Conf, ch ChanV, v Value, pos token.Pos) bool {
	e := r.e
	k := e.c
	if ch.obj < 0 || ch.nilc.isTrue() {
		r.outs = append(r.outs, Outcome{st: c.st, block: true})
		return false
	}
	if !ch.nilc.isFalse() && !e.valid(c.st.pc, k.Not(ch.nilc)) {
		unsup("send on a possibly nil channel")
	}
	co := e.get(c.st, ch.obj).(ChanObj)
	if !r.guard(c, k.Not(co.closed), "send on closed channel", pos) {
		return false
	}
	room := k.Slt(co.n, co.cap)
	if e.feasible(c.st.pc, k.Not(room)) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, k.Not(room))
		r.outs = append(r.outs, Outcome{st: d.st, block: true})
	}
	if !e.assume(c.st, room) {
		return false
	}
	co = e.get(c.st, ch.obj).(ChanObj)
	e.enqueue(c.st, ch.obj, co, v)
	return true
}

func (e *Engine) enqueue(st *State, obj int, co ChanObj, v Value) {
	k := e.c
	co.items = e.storeMem(co.items, k.Add(co.head, co.n), v)
	co.n = k.Add(co.n, k.Int(1))
	e.noteWrite(obj, nil)
	st.set(obj, co)
}

func (e *Engine) dequeue(st *State, obj int, co ChanObj) []GVal {
	k := e.c
	gs := e.sel(co.items, co.head)
	co.head = k.Add(co.head, k.Int(1))
	co.n = k.Sub(co.n, k.Int(1))
	e.noteWrite(obj, nil)
	st.set(obj, co)
	return gs
}

// recv forks on available / closed / blocked.
func (r *run) recv(c *Conf, ch ChanV, commaOk bool, x ssa.Value) ([]GVal, bool) {
	e := r.e
	k := e.c
	if ch.obj < 0 || ch.nilc.isTrue() {
		r.outs = append(r.outs, Outcome{st: c.st, block: true})
		return nil, false
	}
	if !ch.nilc.isFalse() && !e.valid(c.st.pc, k.Not(ch.nilc)) {
		unsup("receive on a possibly nil channel")
	}
	co := e.get(c.st, ch.obj).(ChanObj)
	has := k.Slt(k.Int(0), co.n)
	wrap := func(v Value, ok *Term) Value {
		if commaOk {
			return Tuple{v, ok}
		}
		return v
	}
	none := k.Not(has)
	if e.feasible(c.st.pc, k.And(none, k.Not(co.closed))) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, k.And(none, k.Not(co.closed)))
		r.outs = append(r.outs, Outcome{st: d.st, block: true})
	}
	if e.feasible(c.st.pc, k.And(none, co.closed)) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, k.And(none, co.closed))
		d.fr.env[x] = wrap(e.zero(co.elem), k.fls)
		r.work = append(r.work, d)
	}
	if !e.assume(c.st, has) {
		return nil, false
	}
	gs := e.dequeue(c.st, ch.obj, co)
	out := make([]GVal, len(gs))
	for i, g := range gs {
		out[i] = GVal{g.c, wrap(g.v, k.tru)}
	}
	return out, true
}

// selectStmt forks over the ready cases.
func (r *run) selectStmt(c *Conf, x *ssa.Select) {
	e := r.e
	k := e.c
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(d *Conf, idx int, ok *Term, recvIdx int, v Value) {
		tp := Tuple{k.Int(int64(idx)), ok}
		j := 0
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				if j == recvIdx {
					tp = append(tp, v)
				} else {
					tp = append(tp, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				j++
			}
		}
		d.fr.env[x] = tp
		r.work = append(r.work, d)
	}
	notReady := k.tru
	choice := k.Fresh("select", 64)
	ri := -1
	for i, s := range x.States {
		ch := e.val(c, s.Chan).(ChanV)
		if s.Dir == types.RecvOnly {
			ri++
		}
		if ch.obj < 0 || ch.nilc.isTrue() {
			continue
		}
		if !ch.nilc.isFalse() {
			unsup("select on a possibly nil channel")
		}
		co := e.get(c.st, ch.obj).(ChanObj)
		pick := k.Eq(choice, k.Int(int64(i)))
		if s.Dir == types.RecvOnly {
			has := k.Slt(k.Int(0), co.n)
			notReady = k.And(notReady, k.Not(k.Or(has, co.closed)))
			if t := k.And(pick, has); e.feasible(c.st.pc, t) {
				d := c.clone()
				d.st.pc = d.st.pc.And(k, t)
				gs := e.dequeue(d.st, ch.obj, co)
				v := gs[0].v
				ok := true
				for _, g := range gs[1:] {
					v, ok = e.merge(g.c, g.v, v)
					if !ok {
						unsup("ambiguous channel item")
					}
				}
				mk(d, i, k.tru, ri, v)
			}
			if t := k.And(pick, k.Not(has), co.closed); e.feasible(c.st.pc, t) {
				d := c.clone()
				d.st.pc = d.st.pc.And(k, t)
				mk(d, i, k.fls, ri, e.zero(co.elem))
			}
			continue
		}
		room := k.Slt(co.n, co.cap)
		notReady = k.And(notReady, k.Not(k.Or(room, co.closed)))
		if t := k.And(pick, co.closed); e.feasible(c.st.pc, t) {
			d := c.clone()
			d.st.pc = d.st.pc.And(k, t)
			r.panicNow(d, &Panic{msg: "send on closed channel", pos: x.Pos(), fn: c.fr.fn})
		}
		if t := k.And(pick, k.Not(co.closed), room); e.feasible(c.st.pc, t) {
			d := c.clone()
			d.st.pc = d.st.pc.And(k, t)
			e.enqueue(d.st, ch.obj, co, e.val(c, s.Send))
			mk(d, i, k.fls, -1, nil)
		}
	}
	if e.feasible(c.st.pc, notReady) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, notReady)
		if x.Blocking {
			r.outs = append(r.outs, Outcome{st: d.st, block: true})
		} else {
			mk(d, -1, k.fls, -1, nil)
		}
	}
}

// ---- builtins

func (r *run) builtin(c *Conf, name string, args []Value, x *ssa.Call) []Outcome {
	return r.builtin2(c, name, args, &x.Call)
}

func (r *run) builtin2(c *Conf, name string, args []Value, cc *ssa.CallCommon) []Outcome {
	e := r.e
	k := e.c
	st := c.st
	ret := func(v ...Value) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return ret(x.ln)
		case Slice:
			return ret(x.ln)
		case Arr:
			return ret(x.n)
		case MapV:
			if x.obj < 0 {
				return ret(k.Int(0))
			}
			mo := e.get(st, x.obj).(MapObj)
			return ret(k.Ite(x.nilc, k.Int(0), mo.count))
		case ChanV:
			if x.obj < 0 {
				return ret(k.Int(0))
			}
			co := e.get(st, x.obj).(ChanObj)
			return ret(k.Ite(x.nilc, k.Int(0), co.n))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ret(x.cp)
		case Arr:
			return ret(x.n)
		case ChanV:
			if x.obj < 0 {
				return ret(k.Int(0))
			}
			co := e.get(st, x.obj).(ChanObj)
			return ret(k.Ite(x.nilc, k.Int(0), co.cap))
		}
	case "append":
		return r.appendBuiltin(c, args, cc)
	case "copy":
		dst := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var m *Mem
		var off, ln *Term
		switch s := args[1].(type) {
		case Slice:
			m, off = e.sliceMem(st, s, et)
			ln = s.ln
		case Str:
			m, off, ln = s.mem, s.off, s.ln
		}
		n := k.Ite(k.Slt(ln, dst.ln), ln, dst.ln)
		if e.valid(st.pc, k.Sle(ln, dst.ln)) {
			n = ln
		} else if e.valid(st.pc, k.Sle(dst.ln, ln)) {
			n = dst.ln
		}
		if dst.obj >= 0 && !(n.isConst() && n.val == 0) {
			a := e.backing(st, dst)
			e.setBacking(st, dst, Arr{e.copyMem(a.mem, dst.off, m, off, n), a.n})
		}
		return ret(n)
	case "delete":
		e.mapDelete(st, args[0].(MapV), args[1])
		return ret()
	case "close":
		ch := args[0].(ChanV)
		if !r.guard(c, k.Not(ch.nilc), "close of nil channel", cc.Pos()) {
			return nil
		}
		co := e.get(c.st, ch.obj).(ChanObj)
		if !r.guard(c, k.Not(co.closed), "close of closed channel", cc.Pos()) {
			return nil
		}
		co.closed = k.tru
		e.noteWrite(ch.obj, nil)
		c.st.set(ch.obj, co)
		return []Outcome{{st: c.st}}
	case "recover":
		z := Iface{nilc: k.tru}
		if n := len(e.panStack); n > 0 && e.panStack[n-1].p != nil {
			p := e.panStack[n-1].p
			e.panStack[n-1] = &panState{}
			st.recovered = true
			v, ok := p.val.(Iface)
			if !ok {
				v = Iface{typ: types.Typ[types.String], v: e.strLit(p.msg), nilc: k.fls}
			}
			return ret(v)
		}
		return ret(z)
	case "print", "println":
		return ret()
	case "min", "max":
		t := cc.Args[0].Type()
		if isFloat(t) || isString(t) {
			unsup("min/max on %s", t)
		}
		v := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			lt := k.Ult(y, v)
			if isSigned(t) {
				lt = k.Slt(y, v)
			}
			if name == "max" {
				lt = k.And(k.Not(lt), k.Not(k.Eq(y, v)))
			}
			v = k.Ite(lt, y, v)
		}
		return ret(v)
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			if x.obj >= 0 {
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				a := e.backing(st, x)
				e.setBacking(st, x, Arr{e.copyMem(a.mem, x.off, e.zeroMem(et), k.Int(0), x.ln), a.n})
			}
			return ret()
		}
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if !r.guard(c, k.Not(p.nilc), "nil pointer dereference", cc.Pos()) {
			return nil
		}
		return []Outcome{{st: c.st, ret: []Value{p}}}
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if n.isConst() && n.val == 0 || p.obj < 0 {
			return ret(e.strLit(""))
		}
		last := p.path[len(p.path)-1]
		if last.idx == nil {
			unsup("unsafe.String of a non-element pointer")
		}
		a, ok := e.load1(st, Ptr{obj: p.obj, path: p.path[:len(p.path)-1], nilc: k.fls}).(Arr)
		if !ok {
			unsup("unsafe.String")
		}
		return ret(Str{a.mem, last.idx, n})
	}
	unsup("builtin %s", name)
	return nil
}

func (r *run) appendBuiltin(c *Conf, args []Value, cc *ssa.CallCommon) []Outcome {
	e := r.e
	k := e.c
	s := args[0].(Slice)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var m *Mem
	var off, n *Term
	switch b := args[1].(type) {
	case Slice:
		m, off = e.sliceMem(c.st, b, et)
		n = b.ln
	case Str:
		m, off, n = b.mem, b.off, b.ln
	default:
		unsup("append of %T", args[1])
	}
	if n.isConst() && n.val == 0 {
		return []Outcome{{st: c.st, ret: []Value{s}}}
	}
	put := func(dst *Mem, at *Term) *Mem {
		if n.isConst() && n.val <= 4 {
			for i := uint64(0); i < n.val; i++ {
				gs := e.sel(m, k.Add(off, k.BV(i, 64)))
				if len(gs) != 1 {
					return e.copyMem(dst, at, m, off, n)
				}
			}
			for i := uint64(0); i < n.val; i++ {
				dst = e.storeMem(dst, k.Add(at, k.BV(i, 64)), e.sel(m, k.Add(off, k.BV(i, 64)))[0].v)
			}
			return dst
		}
		return e.copyMem(dst, at, m, off, n)
	}
	nl := k.Add(s.ln, n)
	var outs []Outcome
	fits := k.Sle(nl, s.cp)
	if s.obj < 0 {
		fits = k.Eq(n, k.Int(0))
	}
	if e.feasible(c.st.pc, fits) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, fits)
		ns := s
		ns.ln = nl
		if s.obj >= 0 {
			a := e.backing(d.st, s)
			e.setBacking(d.st, s, Arr{put(a.mem, k.Add(s.off, s.ln)), a.n})
		}
		outs = append(outs, Outcome{st: d.st, ret: []Value{ns}})
	}
	grow := k.Not(fits)
	if e.feasible(c.st.pc, grow) {
		d := c.clone()
		d.st.pc = d.st.pc.And(k, grow)
		var mem *Mem
		if s.obj < 0 || s.ln.isConst() && s.ln.val == 0 {
			mem = e.zeroMem(et)
		} else {
			a := e.backing(d.st, s)
			mem = e.copyMem(e.zeroMem(et), k.Int(0), a.mem, s.off, s.ln)
		}
		cp := nl
		if !nl.isConst() || nl.val > 0 {
			cp = k.Fresh("cap", 64)
			e.s.AddFact(cp, k.And(k.Sle(nl, cp), k.Sle(cp, k.Int(maxLen<<2))))
		}
		ns := e.newSlice(d.st, "append", et, put(mem, s.ln), nl, cp)
		outs = append(outs, Outcome{st: d.st, ret: []Value{ns}})
	}
	return outs
}
