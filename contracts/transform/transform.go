package transform

// Generated by gen/transform.py.

//@ load msgpack

import (
	"math"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
)

func of(data []byte) payload.Payload {
	gvRequires(len(data) < 1<<32)
	return payload.New(data, nil)
}

//@ lemma
//@ prop C33
func spec_Int8_roundtrip(v int8) {
	p, err := Int8.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int8.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int8_decode(data []byte, k int) {
	v, err := Int8.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Int16_roundtrip(v int16) {
	p, err := Int16.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int16.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int16_decode(data []byte, k int) {
	v, err := Int16.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Int32_roundtrip(v int32) {
	p, err := Int32.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int32.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int32_decode(data []byte, k int) {
	v, err := Int32.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Int64_roundtrip(v int64) {
	p, err := Int64.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int64.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int64_decode(data []byte, k int) {
	v, err := Int64.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Int_roundtrip(v int) {
	p, err := Int.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int_decode(data []byte, k int) {
	v, err := Int.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Uint8_roundtrip(v uint8) {
	p, err := Uint8.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint8.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint8_decode(data []byte, k int) {
	v, err := Uint8.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

//@ lemma
//@ prop C33
func spec_Uint16_roundtrip(v uint16) {
	p, err := Uint16.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint16.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint16_decode(data []byte, k int) {
	v, err := Uint16.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

//@ lemma
//@ prop C33
func spec_Uint32_roundtrip(v uint32) {
	p, err := Uint32.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint32.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint32_decode(data []byte, k int) {
	v, err := Uint32.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

//@ lemma
//@ prop C33
func spec_Uint64_roundtrip(v uint64) {
	p, err := Uint64.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint64.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint64_decode(data []byte, k int) {
	v, err := Uint64.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

//@ lemma
//@ prop C33
func spec_Uint_roundtrip(v uint) {
	p, err := Uint.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint_decode(data []byte, k int) {
	v, err := Uint.Decode(of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

type (
	small   int32
	large   int64
	natural uint64
	textual string
)

//@ lemma
//@ prop C33
func spec_Int32_of_roundtrip(v small) {
	p, err := Int32Encode[small](v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int32Decode[small](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int32_of_decode(data []byte, k int) {
	v, err := Int32Decode[small](of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Int64_of_roundtrip(v large) {
	p, err := Int64Encode[large](v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Int64Decode[large](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Int64_of_decode(data []byte, k int) {
	v, err := Int64Decode[large](of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (v < 0))
	}
}

//@ lemma
//@ prop C33
func spec_Uint64_of_roundtrip(v natural) {
	p, err := Uint64Encode[natural](v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Uint64Decode[natural](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Uint64_of_decode(data []byte, k int) {
	v, err := Uint64Decode[natural](of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == (false))
	}
}

//@ lemma
//@ prop C33
func spec_Bool_roundtrip(v bool) {
	p, err := Bool.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Bool.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_Bool_decode(data []byte, k int) {
	v, err := Bool.Decode(of(data))
	b := len(data) > 0 && (data[0] == 0xc2 || data[0] == 0xc3)
	gvEnsures("exactly a boolean decodes", (err == nil) == b)
	gvEnsures("as the value it is", !b || v == (data[0] == 0xc3))
}

//@ lemma
//@ prop C33
func spec_Float32_roundtrip(v float32) {
	p, err := Float32.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Float32.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", math.Float32bits(w) == math.Float32bits(v))
}

//@ lemma
//@ prop C33
func spec_Float32_decode(data []byte, k int) {
	v, err := Float32.Decode(of(data))
	one := len(data) >= 5 && data[0] == 0xca
	two := len(data) >= 9 && data[0] == 0xcb
	gvEnsures("exactly a floating point number decodes", (err == nil) == (one || two))
	gvEnsures("as the number it is", !one || uint64(math.Float32bits(v)) == msgpack.SpecBits(data[1:], 4))
}

//@ lemma
//@ prop C33
func spec_Float64_roundtrip(v float64) {
	p, err := Float64.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Float64.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", math.Float64bits(w) == math.Float64bits(v))
}

//@ lemma
//@ prop C33
func spec_Float64_decode(data []byte, k int) {
	v, err := Float64.Decode(of(data))
	two := len(data) >= 9 && data[0] == 0xcb
	gvEnsures("exactly a floating point number decodes", (err == nil) == (two))
	gvEnsures("as the number it is", !two || uint64(math.Float64bits(v)) == msgpack.SpecBits(data[1:], 8))
}

//@ lemma
//@ prop C33
func spec_String_roundtrip(v string) {
	gvRequires(len(v) < 1<<31)
	p, err := String.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := String.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_String_decode(data []byte, k int) {
	v, err := String.Decode(of(data))
	if err == nil {
		n, count, ok := msgpack.SpecText(data)
		gvEnsures("only a complete string decodes", ok && count <= uint64(len(data)-n) && uint64(len(v)) == count)
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == data[n+k])
		}
	}
}

//@ lemma
//@ prop C33
func spec_String_of_roundtrip(v textual) {
	gvRequires(len(v) < 1<<31)
	p, err := StringEncode[textual](v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := StringDecode[textual](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w == v)
}

//@ lemma
//@ prop C33
func spec_String_of_decode(data []byte, k int) {
	v, err := StringDecode[textual](of(data))
	if err == nil {
		n, count, ok := msgpack.SpecText(data)
		gvEnsures("only a complete string decodes", ok && count <= uint64(len(data)-n) && uint64(len(v)) == count)
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == data[n+k])
		}
	}
}

//@ lemma
//@ prop C33
func spec_Bytes_roundtrip(v []byte) {
	gvRequires(len(v) < 1<<31)
	old := gvOldBytes(v)
	p, err := Bytes.Encode(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := Bytes.Decode(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", gvBytesEq(w, old))
}

//@ lemma
//@ prop C33
func spec_Bytes_decode(data []byte, k int) {
	v, err := Bytes.Decode(of(data))
	if err == nil {
		n, count, ok := msgpack.SpecBinary(data)
		gvEnsures("only a complete byte string decodes", ok && count <= uint64(len(data)-n) && uint64(len(v)) == count)
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == data[n+k])
		}
	}
}

// number is a value with its own codec.
type number struct{ n uint32 }

func (c *number) Decode(d msgpack.Reader) (err error) {
	c.n, err = d.ReadUint32()
	return err
}

func (c *number) Encode(e msgpack.Writer) error {
	e.WriteUint32(c.n)
	return e.Err()
}

//@ lemma
//@ prop C33
func spec_Codec_roundtrip(v uint32) {
	p, err := MsgPackEncode[number](number{v})
	gvEnsures("encodes", err == nil && p != nil)
	w, err := MsgPackDecode[number](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w.n == v)
	q, err := CodecEncode(&number{v})
	gvEnsures("encodes", err == nil && gvBytesEq(q.Data(), p.Data()))
	var u number
	gvEnsures("decodes", CodecDecode(q, &u) == nil)
	gvEnsures("the value", u.n == v)
}

//@ lemma
//@ prop C33
func spec_Codec_decode(data []byte) {
	v, err := MsgPackDecode[number](of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v.n) && !neg)
	}
}
