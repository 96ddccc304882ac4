#!/usr/bin/env python3
"""Writes contracts/msgpack/convert/convert.go: one contract per base type."""
import os
nums="int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64".split()
o=['''package convert

import "math"

// Generated by gen/convert.py: conversions between a base type and a type defined from it.

func same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b }
func same64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b }

type defString string
type defBool bool
type defBytes []byte
''']
for n in nums: o.append("type def%s %s\n"%(n,n))
def eq(n,a,b):
    return {"float32":"same32(%s, %s)","float64":"same64(%s, %s)"}.get(n,"%s == %s")%(a,b)
for n in nums+["string","bool"]:
    D="def"+(n if n in nums else n.capitalize())
    f="Numeric" if n in nums else n.capitalize()
    ta=lambda A,B: "%s, %s"%(A,B) if n in nums else A
    pairs=[(D,n)]
    if n in nums: pairs.append((n,D))
    for A,B in pairs:
        tag="%s_%s"%(A,B)
        o.append(f'''
//@ contract {f}
//@ prop C32
func spec_{f}_{tag}(v {n}, err error) {{
	gvModifies()
	r, e := {f}[{ta(A,B)}]({B}(v), err)
	gvEnsures("the value is preserved", {eq(n,n+"(r)","v")})
	gvEnsures("the error is passed through", e == err)
}}

//@ contract Nillable{f}
//@ prop C32
func spec_Nillable{f}_{tag}(v {n}, present bool, err error) {{
	var p *{B}
	if present {{
		x := {B}(v)
		p = &x
	}}
	gvModifies()
	r, e := Nillable{f}[{ta(A,B)}](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {{
		gvEnsures("absence stays absence", r == nil)
	}} else if err == nil {{
		gvEnsures("the value is preserved", r != nil && {eq(n,n+"(*r)","v")})
	}}
	if present {{
		gvEnsures("the input is left alone", {eq(n,n+"(*p)","v")})
	}}
}}
''')
o.append('''
//@ contract ByteArray
//@ prop C32
func spec_ByteArray_def(v []byte, err error) {
	gvModifies()
	r, e := ByteArray[defBytes, []byte](v, err)
	gvEnsures("the same bytes", gvBytesEq(r, v) && (r == nil) == (v == nil))
	gvEnsures("the error is passed through", e == err)
}

//@ contract ByteArray
//@ prop C32
func spec_ByteArray_base(v []byte, err error) {
	gvModifies()
	r, e := ByteArray[[]byte, defBytes](defBytes(v), err)
	gvEnsures("the same bytes", gvBytesEq(r, v) && (r == nil) == (v == nil))
	gvEnsures("the error is passed through", e == err)
}

//@ contract Format
//@ prop C32
func spec_Format(v int, present bool, text string) {
	calls, got := 0, 0
	f := Format(func(p *int) string {
		calls++
		got = *p
		return text
	})
	var in *int
	if present {
		in = &v
	}
	r := f(in)
	if present {
		gvEnsures("the value is formatted once", calls == 1 && got == v)
		gvEnsures("the text is returned", r != nil && *r == text)
	} else {
		gvEnsures("absence stays absence", r == nil && calls == 0)
	}
}

//@ contract Parse
//@ prop C32
func spec_Parse(v int, err error, out int, perr error) {
	calls, got := 0, 0
	f := Parse(func(x int) (int, error) {
		calls++
		got = x
		return out, perr
	})
	r, e := f(v, err)
	if err != nil {
		gvEnsures("the error is passed through", e == err && calls == 0)
	} else {
		gvEnsures("the value is parsed once", calls == 1 && got == v)
		gvEnsures("its result is returned", r == out && e == perr)
	}
}

//@ contract NillableParse
//@ prop C32
func spec_NillableParse(v int, present bool, err error, out int, perr error) {
	calls, got := 0, 0
	f := NillableParse(func(x int) (int, error) {
		calls++
		got = x
		return out, perr
	})
	var in *int
	if present {
		in = &v
	}
	r, e := f(in, err)
	if err != nil || !present {
		gvEnsures("absence and errors are passed through", e == err && r == nil && calls == 0)
	} else {
		gvEnsures("the value is parsed once", calls == 1 && got == v)
		gvEnsures("the parser's error is returned", e == perr)
		gvEnsures("its result is returned", perr != nil || r != nil && *r == out)
	}
}

//@ contract StringToTime
//@ prop C32
func spec_StringToTime(v string, err error) {
	gvRequires(err != nil)
	r, e := StringToTime(v, err)
	gvEnsures("the error is passed through", e == err && r.IsZero())
}

//@ contract StringToTimePtr
//@ prop C32
func spec_StringToTimePtr(v string, present bool, err error) {
	gvRequires(err != nil || !present)
	var in *string
	if present {
		in = &v
	}
	r, e := StringToTimePtr(in, err)
	gvEnsures("absence and errors are passed through", e == err && r == nil)
}
''')
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"contracts/msgpack/convert"); os.makedirs(p,exist_ok=True)
open(p+"/convert.go","w").write("".join(o))
