package main

// Hash-consed bit-vector/boolean terms with light simplification.
// Every machine integer is a bit-vector of its Go width (int, uint, uintptr: 64).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bv constant or bool constant (w==0)
	OVar
	OApp // uninterpreted function application
	OLin // sum of coef*arg + val
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // val = lo, w = width
	OZExt
	OSExt
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
)

type Term struct {
	id    int
	op    Op
	w     uint8 // 0 = Bool
	args  []*Term
	coefs []uint64 // OLin
	val   uint64
	name  string
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	decls []string // declarations in order
	seen  map[string]bool
	tru   *Term
	fls   *Term
	fresh int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, seen: map[string]bool{}}
	c.tru = c.mk(OConst, 0, nil, nil, 1, "")
	c.fls = c.mk(OConst, 0, nil, nil, 0, "")
	return c
}

func (c *Ctx) mk(op Op, w uint8, args []*Term, coefs []uint64, val uint64, name string) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%d|%s", op, w, val, name)
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if coefs != nil {
			fmt.Fprintf(&sb, "*%d", coefs[i])
		}
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, w: w, args: args, coefs: coefs, val: val, name: name}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *Ctx) BV(v uint64, w uint8) *Term { return c.mk(OConst, w, nil, nil, v&mask(w), "") }
func (c *Ctx) Int(v int64) *Term          { return c.BV(uint64(v), 64) }
func (t *Term) isConst() bool             { return t.op == OConst }
func (t *Term) isTrue() bool              { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool             { return t.op == OConst && t.w == 0 && t.val == 0 }

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (c *Ctx) declare(name string, argw []uint8, w uint8) {
	if c.seen[name] {
		return
	}
	c.seen[name] = true
	var as []string
	for _, a := range argw {
		as = append(as, sortStr(a))
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun |%s| (%s) %s)", name, strings.Join(as, " "), sortStr(w)))
}

func (c *Ctx) Var(name string, w uint8) *Term {
	c.declare(name, nil, w)
	return c.mk(OVar, w, nil, nil, 0, name)
}

func (c *Ctx) Fresh(prefix string, w uint8) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), w)
}

func (c *Ctx) FreshName(prefix string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", prefix, c.fresh)
}

func (c *Ctx) App(name string, w uint8, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, w)
	}
	ws := make([]uint8, len(args))
	for i, a := range args {
		ws[i] = a.w
	}
	c.declare(name, ws, w)
	return c.mk(OApp, w, args, nil, 0, name)
}

// ---- linear arithmetic

func (c *Ctx) lin(ts map[*Term]uint64, k uint64, w uint8) *Term {
	k &= mask(w)
	var args []*Term
	for t, co := range ts {
		if co&mask(w) != 0 {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return c.BV(k, w)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && k == 0 && ts[args[0]]&mask(w) == 1 {
		return args[0]
	}
	coefs := make([]uint64, len(args))
	for i, a := range args {
		coefs[i] = ts[a] & mask(w)
	}
	return c.mk(OLin, w, args, coefs, k, "")
}

func addTo(ts map[*Term]uint64, k *uint64, t *Term, mul uint64) {
	switch t.op {
	case OConst:
		*k += t.val * mul
	case OLin:
		*k += t.val * mul
		for i, a := range t.args {
			ts[a] += t.coefs[i] * mul
		}
	default:
		ts[t] += mul
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.val+b.val, a.w)
	}
	ts := map[*Term]uint64{}
	var k uint64
	addTo(ts, &k, a, 1)
	addTo(ts, &k, b, 1)
	return c.lin(ts, k, a.w)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	ts := map[*Term]uint64{}
	var k uint64
	addTo(ts, &k, a, 1)
	addTo(ts, &k, b, ^uint64(0))
	return c.lin(ts, k, a.w)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.w), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.val*b.val, a.w)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		ts := map[*Term]uint64{}
		var k uint64
		addTo(ts, &k, b, a.val)
		return c.lin(ts, k, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, []*Term{a, b}, nil, 0, "")
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		sx, sy := sext64(x, w), sext64(y, w)
		switch op {
		case OUDiv:
			if y != 0 {
				return c.BV(x/y, w)
			}
		case OURem:
			if y != 0 {
				return c.BV(x%y, w)
			}
		case OSDiv:
			if y != 0 && sy != -1 {
				return c.BV(uint64(sx/sy), w)
			}
		case OSRem:
			if y != 0 && sy != -1 {
				return c.BV(uint64(sx%sy), w)
			}
		case OAnd:
			return c.BV(x&y, w)
		case OOr:
			return c.BV(x|y, w)
		case OXor:
			return c.BV(x^y, w)
		case OShl:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x<<y, w)
		case OLShr:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x>>y, w)
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BV(uint64(sx>>y), w)
		}
	}
	switch op {
	case OAnd, OOr, OXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		if b.isConst() {
			switch {
			case op == OAnd && b.val == 0:
				return b
			case op == OAnd && b.val == mask(w):
				return a
			case op == OOr && b.val == 0, op == OXor && b.val == 0:
				return a
			case op == OOr && b.val == mask(w):
				return b
			}
			if op == OAnd && b.val&(b.val+1) == 0 { // low mask
				n := uint8(bits.Len64(b.val))
				return c.ZExt(c.Extract(a, 0, n), w)
			}
		}
		if a == b {
			if op == OXor {
				return c.BV(0, w)
			}
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) && op != OAShr {
			return c.BV(0, w)
		}
		if b.isConst() && op == OLShr {
			return c.ZExt(c.Extract(a, uint8(b.val), w-uint8(b.val)), w)
		}
		if b.isConst() && op == OShl {
			return c.Concat(c.Extract(a, 0, w-uint8(b.val)), c.BV(0, uint8(b.val)))
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	}
	// or of disjoint concats: or(concat(x,0_n), zext(y)) with y.w<=n
	if op == OOr {
		if t := c.orConcat(a, b); t != nil {
			return t
		}
		if t := c.orConcat(b, a); t != nil {
			return t
		}
	}
	return c.mk(op, w, []*Term{a, b}, nil, 0, "")
}

// trailing zeros known
func lowZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.val))
	case OConcat:
		lo := t.args[1]
		z := lowZeros(lo)
		if z == lo.w {
			return z + lowZeros(t.args[0])
		}
		return z
	}
	return 0
}
func highZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		return t.w - uint8(bits.Len64(t.val))
	case OZExt:
		return t.w - t.args[0].w + highZeros(t.args[0])
	case OConcat:
		z := highZeros(t.args[0])
		if z == t.args[0].w {
			return z + highZeros(t.args[1])
		}
		return z
	}
	return 0
}

func (c *Ctx) orConcat(a, b *Term) *Term {
	n := lowZeros(a)
	if n == 0 || n >= a.w || highZeros(b) < a.w-n {
		return nil
	}
	return c.Concat(c.Extract(a, n, a.w-n), c.Extract(b, 0, n))
}

func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 {
		panic("extract 0")
	}
	switch a.op {
	case OConst:
		return c.BV(a.val>>lo, w)
	case OExtract:
		return c.Extract(a.args[0], lo+uint8(a.val), w)
	case OZExt:
		in := a.args[0]
		if lo >= in.w {
			return c.BV(0, w)
		}
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		return c.ZExt(c.Extract(in, lo, in.w-lo), w)
	case OSExt:
		in := a.args[0]
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if lo == 0 {
			return c.SExt(in, w)
		}
	case OConcat:
		l := a.args[1]
		if lo >= l.w {
			return c.Extract(a.args[0], lo-l.w, w)
		}
		if lo+w <= l.w {
			return c.Extract(l, lo, w)
		}
		return c.Concat(c.Extract(a.args[0], 0, lo+w-l.w), c.Extract(l, lo, l.w-lo))
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
		}
	case OAnd, OOr, OXor:
		return c.Bin(a.op, c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w))
	case OLin:
		if lo == 0 { // low bits of a sum depend only on low bits
			ts := map[*Term]uint64{}
			k := a.val
			for i, x := range a.args {
				addTo(ts, &k, c.Extract(x, 0, w), a.coefs[i])
			}
			return c.lin(ts, k, w)
		}
	}
	return c.mk(OExtract, w, []*Term{a}, nil, uint64(lo), "")
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return c.BV(hi.val<<lo.w|lo.val, w)
	}
	if hi.isConst() && hi.val == 0 {
		return c.ZExt(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && hi.val == lo.val+uint64(lo.w) {
		return c.Extract(hi.args[0], uint8(lo.val), w)
	}
	if hi.op == OZExt { // push zext out
		return c.ZExt(c.Concat(hi.args[0], lo), w)
	}
	if lo.op == OConcat { // left-assoc normal form
		return c.Concat(c.Concat(hi, lo.args[0]), lo.args[1])
	}
	if hi.op == OConcat && hi.args[1].op == OExtract && lo.op == OExtract && hi.args[1].args[0] == lo.args[0] && hi.args[1].val == lo.val+uint64(lo.w) {
		return c.Concat(hi.args[0], c.Extract(lo.args[0], uint8(lo.val), hi.args[1].w+lo.w))
	}
	if hi.op == OConcat && hi.args[1].isConst() && lo.isConst() && hi.args[1].w+lo.w <= 64 {
		return c.Concat(hi.args[0], c.Concat(hi.args[1], lo))
	}
	return c.mk(OConcat, w, []*Term{hi, lo}, nil, 0, "")
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	switch a.op {
	case OConst:
		return c.BV(a.val, w)
	case OZExt:
		return c.ZExt(a.args[0], w)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
		}
	}
	return c.mk(OZExt, w, []*Term{a}, nil, 0, "")
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	switch a.op {
	case OConst:
		return c.BV(uint64(sext64(a.val, a.w)), w)
	case OSExt:
		return c.SExt(a.args[0], w)
	case OZExt:
		return c.ZExt(a.args[0], w)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
		}
	}
	return c.mk(OSExt, w, []*Term{a}, nil, 0, "")
}
func (c *Ctx) BVNot(a *Term) *Term { return c.Bin(OXor, a, c.BV(mask(a.w), a.w)) }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(OBNot, 0, []*Term{a}, nil, 0, "")
}

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	abs, neu := c.fls, c.tru
	if op == OBOr {
		abs, neu = c.tru, c.fls
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == abs {
			return false
		}
		if t == neu || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return abs
		}
	}
	if len(out) == 0 {
		return neu
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, out, nil, 0, "")
}
func (c *Ctx) And(ts ...*Term) *Term    { return c.nary(OBAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term     { return c.nary(OBOr, ts) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// rebuild is t with other arguments.
func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OBAnd:
		return c.And(args...)
	case OBOr:
		return c.Or(args...)
	case OBNot:
		return c.Not(args[0])
	case OEq:
		return c.Eq(args[0], args[1])
	}
	return c.mk(t.op, t.w, args, t.coefs, t.val, t.name)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OBNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, []*Term{cond, a, b}, nil, 0, "")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	} else {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OZExt:
				if b.val > mask(a.args[0].w) {
					return c.fls
				}
				return c.Eq(a.args[0], c.BV(b.val, a.args[0].w))
			case OIte:
				if a.args[1].isConst() && a.args[2].isConst() {
					e1, e2 := a.args[1].val == b.val, a.args[2].val == b.val
					switch {
					case e1 && e2:
						return c.tru
					case e1:
						return a.args[0]
					case e2:
						return c.Not(a.args[0])
					default:
						return c.fls
					}
				}
				if a.args[1].isConst() || a.args[2].isConst() {
					return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
				}
			case OLin: // move constant
				if a.val != 0 && len(a.args) == 1 && a.coefs[0] == 1 {
					return c.Eq(a.args[0], c.BV(b.val-a.val, a.w))
				}
			case OConcat:
				lo := a.args[1]
				return c.And(c.Eq(a.args[0], c.BV(b.val>>lo.w, a.args[0].w)), c.Eq(lo, c.BV(b.val, lo.w)))
			}
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, []*Term{a, b}, nil, 0, "")
}

func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return umax(t.args[0])
	case OIte:
		x, y := umax(t.args[1]), umax(t.args[2])
		if x > y {
			return x
		}
		return y
	case OAnd:
		x, y := umax(t.args[0]), umax(t.args[1])
		if x < y {
			return x
		}
		return y
	}
	return mask(t.w)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return c.Bool(a.val < b.val)
		case OUle:
			return c.Bool(a.val <= b.val)
		case OSlt:
			return c.Bool(sext64(a.val, w) < sext64(b.val, w))
		case OSle:
			return c.Bool(sext64(a.val, w) <= sext64(b.val, w))
		}
	}
	// both provably non-negative: signed -> unsigned
	if (op == OSlt || op == OSle) && umax(a)>>(w-1) == 0 && umax(b)>>(w-1) == 0 {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	if (op == OUlt || op == OUle) && b.isConst() {
		m := umax(a)
		if m < b.val || (op == OUle && m == b.val) {
			return c.tru
		}
		if op == OUlt && b.val == 0 {
			return c.fls
		}
	}
	if (op == OUlt || op == OUle) && a.isConst() {
		m := umax(b)
		if m < a.val || (op == OUlt && m == a.val) {
			return c.fls
		}
		if op == OUle && a.val == 0 {
			return c.tru
		}
	}
	// canonicalise: a<b  as not(b<=a)
	if op == OUlt {
		return c.Not(c.mk(OUle, 0, []*Term{b, a}, nil, 0, ""))
	}
	if op == OSlt {
		return c.Not(c.mk(OSle, 0, []*Term{b, a}, nil, 0, ""))
	}
	return c.mk(op, 0, []*Term{a, b}, nil, 0, "")
}
func (c *Ctx) Ult(a, b *Term) *Term { return c.Cmp(OUlt, a, b) }
func (c *Ctx) Ule(a, b *Term) *Term { return c.Cmp(OUle, a, b) }
func (c *Ctx) Slt(a, b *Term) *Term { return c.Cmp(OSlt, a, b) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.Cmp(OSle, a, b) }

// ---- printing

var opNames = map[Op]string{OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

func bvConst(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// ref returns the text naming a term: leaf terms print themselves, others their defined name.
func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvConst(t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OApp:
		sb.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	case OLin:
		sb.WriteString("(bvadd")
		n := 0
		for i, a := range t.args {
			switch t.coefs[i] {
			case 1:
				sb.WriteString(" " + ref(a))
			case mask(t.w):
				sb.WriteString(" (bvneg " + ref(a) + ")")
			default:
				sb.WriteString(" (bvmul " + bvConst(t.coefs[i], t.w) + " " + ref(a) + ")")
			}
			n++
		}
		if t.val != 0 || n == 1 {
			sb.WriteString(" " + bvConst(t.val, t.w))
		}
		sb.WriteString(")")
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, ref(t.args[0]))
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// defs appends define-fun lines for t and its sub-terms not yet in done.
func defs(t *Term, done map[int]bool, out *[]string) {
	if t.op == OConst || t.op == OVar || done[t.id] {
		return
	}
	done[t.id] = true
	for _, a := range t.args {
		defs(a, done, out)
	}
	*out = append(*out, fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sortStr(t.w), body(t)))
}

// show is t as text, down to a depth.
func (c *Ctx) show(t *Term, depth int) string {
	if len(t.args) == 0 || depth == 0 {
		return ref(t)
	}
	b := body(t)
	for _, a := range t.args {
		if len(a.args) > 0 {
			b = strings.ReplaceAll(b, ref(a), c.show(a, depth-1))
		}
	}
	return b
}
