package msgpack

// Generated by gen/transform.py.

import "math"

//@ contract I8ToBytes
//@ prop C33
func spec_I8ToBytes(v int8) {
	b, err := I8ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadInt8()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract I16ToBytes
//@ prop C33
func spec_I16ToBytes(v int16) {
	b, err := I16ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadInt16()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract I32ToBytes
//@ prop C33
func spec_I32ToBytes(v int32) {
	b, err := I32ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadInt32()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract I64ToBytes
//@ prop C33
func spec_I64ToBytes(v int64) {
	b, err := I64ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadInt64()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract U8ToBytes
//@ prop C33
func spec_U8ToBytes(v uint8) {
	b, err := U8ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadUint8()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract U16ToBytes
//@ prop C33
func spec_U16ToBytes(v uint16) {
	b, err := U16ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadUint16()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract U32ToBytes
//@ prop C33
func spec_U32ToBytes(v uint32) {
	b, err := U32ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadUint32()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract U64ToBytes
//@ prop C33
func spec_U64ToBytes(v uint64) {
	b, err := U64ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadUint64()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract BoolToBytes
//@ prop C33
func spec_BoolToBytes(v bool) {
	b, err := BoolToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadBool()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract StringToBytes
//@ prop C33
func spec_StringToBytes(v string) {
	gvRequires(len(v) < 1<<31)
	b, err := StringToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadString()
	gvEnsures("the value", err == nil && w == v)
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract BytesToBytes
//@ prop C33
func spec_BytesToBytes(v []byte) {
	gvRequires(len(v) < 1<<31)
	old := gvOldBytes(v)
	b, err := BytesToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadByteArray()
	gvEnsures("the value", err == nil && gvBytesEq(w, old))
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract F32ToBytes
//@ prop C33
func spec_F32ToBytes(v float32) {
	b, err := F32ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadFloat32()
	gvEnsures("the value", err == nil && math.Float32bits(w) == math.Float32bits(v))
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}

//@ contract F64ToBytes
//@ prop C33
func spec_F64ToBytes(v float64) {
	b, err := F64ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.ReadFloat64()
	gvEnsures("the value", err == nil && math.Float64bits(w) == math.Float64bits(v))
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}
