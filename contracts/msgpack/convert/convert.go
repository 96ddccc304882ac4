package convert

import "math"

// Generated by gen/convert.py: conversions between a base type and a type defined from it.

func same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b }
func same64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b }

type defString string
type defBool bool
type defBytes []byte
type defint int
type defint8 int8
type defint16 int16
type defint32 int32
type defint64 int64
type defuint uint
type defuint8 uint8
type defuint16 uint16
type defuint32 uint32
type defuint64 uint64
type deffloat32 float32
type deffloat64 float64

//@ contract Numeric
//@ prop C32
func spec_Numeric_defint_int(v int, err error) {
	gvModifies()
	r, e := Numeric[defint, int](int(v), err)
	gvEnsures("the value is preserved", int(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defint_int(v int, present bool, err error) {
	var p *int
	if present {
		x := int(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defint, int](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_int_defint(v int, err error) {
	gvModifies()
	r, e := Numeric[int, defint](defint(v), err)
	gvEnsures("the value is preserved", int(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_int_defint(v int, present bool, err error) {
	var p *defint
	if present {
		x := defint(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[int, defint](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defint8_int8(v int8, err error) {
	gvModifies()
	r, e := Numeric[defint8, int8](int8(v), err)
	gvEnsures("the value is preserved", int8(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defint8_int8(v int8, present bool, err error) {
	var p *int8
	if present {
		x := int8(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defint8, int8](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int8(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int8(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_int8_defint8(v int8, err error) {
	gvModifies()
	r, e := Numeric[int8, defint8](defint8(v), err)
	gvEnsures("the value is preserved", int8(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_int8_defint8(v int8, present bool, err error) {
	var p *defint8
	if present {
		x := defint8(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[int8, defint8](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int8(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int8(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defint16_int16(v int16, err error) {
	gvModifies()
	r, e := Numeric[defint16, int16](int16(v), err)
	gvEnsures("the value is preserved", int16(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defint16_int16(v int16, present bool, err error) {
	var p *int16
	if present {
		x := int16(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defint16, int16](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int16(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int16(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_int16_defint16(v int16, err error) {
	gvModifies()
	r, e := Numeric[int16, defint16](defint16(v), err)
	gvEnsures("the value is preserved", int16(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_int16_defint16(v int16, present bool, err error) {
	var p *defint16
	if present {
		x := defint16(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[int16, defint16](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int16(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int16(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defint32_int32(v int32, err error) {
	gvModifies()
	r, e := Numeric[defint32, int32](int32(v), err)
	gvEnsures("the value is preserved", int32(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defint32_int32(v int32, present bool, err error) {
	var p *int32
	if present {
		x := int32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defint32, int32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int32(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int32(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_int32_defint32(v int32, err error) {
	gvModifies()
	r, e := Numeric[int32, defint32](defint32(v), err)
	gvEnsures("the value is preserved", int32(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_int32_defint32(v int32, present bool, err error) {
	var p *defint32
	if present {
		x := defint32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[int32, defint32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int32(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int32(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defint64_int64(v int64, err error) {
	gvModifies()
	r, e := Numeric[defint64, int64](int64(v), err)
	gvEnsures("the value is preserved", int64(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defint64_int64(v int64, present bool, err error) {
	var p *int64
	if present {
		x := int64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defint64, int64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int64(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int64(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_int64_defint64(v int64, err error) {
	gvModifies()
	r, e := Numeric[int64, defint64](defint64(v), err)
	gvEnsures("the value is preserved", int64(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_int64_defint64(v int64, present bool, err error) {
	var p *defint64
	if present {
		x := defint64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[int64, defint64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && int64(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", int64(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defuint_uint(v uint, err error) {
	gvModifies()
	r, e := Numeric[defuint, uint](uint(v), err)
	gvEnsures("the value is preserved", uint(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defuint_uint(v uint, present bool, err error) {
	var p *uint
	if present {
		x := uint(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defuint, uint](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_uint_defuint(v uint, err error) {
	gvModifies()
	r, e := Numeric[uint, defuint](defuint(v), err)
	gvEnsures("the value is preserved", uint(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_uint_defuint(v uint, present bool, err error) {
	var p *defuint
	if present {
		x := defuint(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[uint, defuint](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defuint8_uint8(v uint8, err error) {
	gvModifies()
	r, e := Numeric[defuint8, uint8](uint8(v), err)
	gvEnsures("the value is preserved", uint8(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defuint8_uint8(v uint8, present bool, err error) {
	var p *uint8
	if present {
		x := uint8(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defuint8, uint8](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint8(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint8(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_uint8_defuint8(v uint8, err error) {
	gvModifies()
	r, e := Numeric[uint8, defuint8](defuint8(v), err)
	gvEnsures("the value is preserved", uint8(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_uint8_defuint8(v uint8, present bool, err error) {
	var p *defuint8
	if present {
		x := defuint8(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[uint8, defuint8](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint8(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint8(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defuint16_uint16(v uint16, err error) {
	gvModifies()
	r, e := Numeric[defuint16, uint16](uint16(v), err)
	gvEnsures("the value is preserved", uint16(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defuint16_uint16(v uint16, present bool, err error) {
	var p *uint16
	if present {
		x := uint16(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defuint16, uint16](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint16(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint16(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_uint16_defuint16(v uint16, err error) {
	gvModifies()
	r, e := Numeric[uint16, defuint16](defuint16(v), err)
	gvEnsures("the value is preserved", uint16(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_uint16_defuint16(v uint16, present bool, err error) {
	var p *defuint16
	if present {
		x := defuint16(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[uint16, defuint16](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint16(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint16(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defuint32_uint32(v uint32, err error) {
	gvModifies()
	r, e := Numeric[defuint32, uint32](uint32(v), err)
	gvEnsures("the value is preserved", uint32(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defuint32_uint32(v uint32, present bool, err error) {
	var p *uint32
	if present {
		x := uint32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defuint32, uint32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint32(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint32(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_uint32_defuint32(v uint32, err error) {
	gvModifies()
	r, e := Numeric[uint32, defuint32](defuint32(v), err)
	gvEnsures("the value is preserved", uint32(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_uint32_defuint32(v uint32, present bool, err error) {
	var p *defuint32
	if present {
		x := defuint32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[uint32, defuint32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint32(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint32(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_defuint64_uint64(v uint64, err error) {
	gvModifies()
	r, e := Numeric[defuint64, uint64](uint64(v), err)
	gvEnsures("the value is preserved", uint64(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_defuint64_uint64(v uint64, present bool, err error) {
	var p *uint64
	if present {
		x := uint64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[defuint64, uint64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint64(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint64(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_uint64_defuint64(v uint64, err error) {
	gvModifies()
	r, e := Numeric[uint64, defuint64](defuint64(v), err)
	gvEnsures("the value is preserved", uint64(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_uint64_defuint64(v uint64, present bool, err error) {
	var p *defuint64
	if present {
		x := defuint64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[uint64, defuint64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && uint64(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", uint64(*p) == v)
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_deffloat32_float32(v float32, err error) {
	gvModifies()
	r, e := Numeric[deffloat32, float32](float32(v), err)
	gvEnsures("the value is preserved", same32(float32(r), v))
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_deffloat32_float32(v float32, present bool, err error) {
	var p *float32
	if present {
		x := float32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[deffloat32, float32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && same32(float32(*r), v))
	}
	if present {
		gvEnsures("the input is left alone", same32(float32(*p), v))
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_float32_deffloat32(v float32, err error) {
	gvModifies()
	r, e := Numeric[float32, deffloat32](deffloat32(v), err)
	gvEnsures("the value is preserved", same32(float32(r), v))
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_float32_deffloat32(v float32, present bool, err error) {
	var p *deffloat32
	if present {
		x := deffloat32(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[float32, deffloat32](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && same32(float32(*r), v))
	}
	if present {
		gvEnsures("the input is left alone", same32(float32(*p), v))
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_deffloat64_float64(v float64, err error) {
	gvModifies()
	r, e := Numeric[deffloat64, float64](float64(v), err)
	gvEnsures("the value is preserved", same64(float64(r), v))
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_deffloat64_float64(v float64, present bool, err error) {
	var p *float64
	if present {
		x := float64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[deffloat64, float64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && same64(float64(*r), v))
	}
	if present {
		gvEnsures("the input is left alone", same64(float64(*p), v))
	}
}

//@ contract Numeric
//@ prop C32
func spec_Numeric_float64_deffloat64(v float64, err error) {
	gvModifies()
	r, e := Numeric[float64, deffloat64](deffloat64(v), err)
	gvEnsures("the value is preserved", same64(float64(r), v))
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableNumeric
//@ prop C32
func spec_NillableNumeric_float64_deffloat64(v float64, present bool, err error) {
	var p *deffloat64
	if present {
		x := deffloat64(v)
		p = &x
	}
	gvModifies()
	r, e := NillableNumeric[float64, deffloat64](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && same64(float64(*r), v))
	}
	if present {
		gvEnsures("the input is left alone", same64(float64(*p), v))
	}
}

//@ contract String
//@ prop C32
func spec_String_defString_string(v string, err error) {
	gvModifies()
	r, e := String[defString](string(v), err)
	gvEnsures("the value is preserved", string(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableString
//@ prop C32
func spec_NillableString_defString_string(v string, present bool, err error) {
	var p *string
	if present {
		x := string(v)
		p = &x
	}
	gvModifies()
	r, e := NillableString[defString](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && string(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", string(*p) == v)
	}
}

//@ contract Bool
//@ prop C32
func spec_Bool_defBool_bool(v bool, err error) {
	gvModifies()
	r, e := Bool[defBool](bool(v), err)
	gvEnsures("the value is preserved", bool(r) == v)
	gvEnsures("the error is passed through", e == err)
}

//@ contract NillableBool
//@ prop C32
func spec_NillableBool_defBool_bool(v bool, present bool, err error) {
	var p *bool
	if present {
		x := bool(v)
		p = &x
	}
	gvModifies()
	r, e := NillableBool[defBool](p, err)
	gvEnsures("the error is passed through", e == err)
	if !present {
		gvEnsures("absence stays absence", r == nil)
	} else if err == nil {
		gvEnsures("the value is preserved", r != nil && bool(*r) == v)
	}
	if present {
		gvEnsures("the input is left alone", bool(*p) == v)
	}
}

//@ contract ByteArray
//@ prop C32
func spec_ByteArray_def(v []byte, err error) {
	gvModifies()
	r, e := ByteArray[defBytes, []byte](v, err)
	gvEnsures("the same bytes", gvBytesEq(r, v) && (r == nil) == (v == nil))
	gvEnsures("the error is passed through", e == err)
}

//@ contract ByteArray
//@ prop C32
func spec_ByteArray_base(v []byte, err error) {
	gvModifies()
	r, e := ByteArray[[]byte, defBytes](defBytes(v), err)
	gvEnsures("the same bytes", gvBytesEq(r, v) && (r == nil) == (v == nil))
	gvEnsures("the error is passed through", e == err)
}

//@ contract Format
//@ prop C32
func spec_Format(v int, present bool, text string) {
	calls, got := 0, 0
	f := Format(func(p *int) string {
		calls++
		got = *p
		return text
	})
	var in *int
	if present {
		in = &v
	}
	r := f(in)
	if present {
		gvEnsures("the value is formatted once", calls == 1 && got == v)
		gvEnsures("the text is returned", r != nil && *r == text)
	} else {
		gvEnsures("absence stays absence", r == nil && calls == 0)
	}
}

//@ contract Parse
//@ prop C32
func spec_Parse(v int, err error, out int, perr error) {
	calls, got := 0, 0
	f := Parse(func(x int) (int, error) {
		calls++
		got = x
		return out, perr
	})
	r, e := f(v, err)
	if err != nil {
		gvEnsures("the error is passed through", e == err && calls == 0)
	} else {
		gvEnsures("the value is parsed once", calls == 1 && got == v)
		gvEnsures("its result is returned", r == out && e == perr)
	}
}

//@ contract NillableParse
//@ prop C32
func spec_NillableParse(v int, present bool, err error, out int, perr error) {
	calls, got := 0, 0
	f := NillableParse(func(x int) (int, error) {
		calls++
		got = x
		return out, perr
	})
	var in *int
	if present {
		in = &v
	}
	r, e := f(in, err)
	if err != nil || !present {
		gvEnsures("absence and errors are passed through", e == err && r == nil && calls == 0)
	} else {
		gvEnsures("the value is parsed once", calls == 1 && got == v)
		gvEnsures("the parser's error is returned", e == perr)
		gvEnsures("its result is returned", perr != nil || r != nil && *r == out)
	}
}

//@ contract StringToTime
//@ prop C32
func spec_StringToTime(v string, err error) {
	gvRequires(err != nil)
	r, e := StringToTime(v, err)
	gvEnsures("the error is passed through", e == err && r.IsZero())
}

//@ contract StringToTimePtr
//@ prop C32
func spec_StringToTimePtr(v string, present bool, err error) {
	gvRequires(err != nil || !present)
	var in *string
	if present {
		in = &v
	}
	r, e := StringToTimePtr(in, err)
	gvEnsures("absence and errors are passed through", e == err && r == nil)
}
