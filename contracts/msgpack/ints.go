package msgpack
// Integers of every width.

//@ contract Encoder.WriteInt8
//@ prop C08 C09 C12
func spec_Encoder_WriteInt8(buf []byte, off uint32, failed bool, v int8, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteInt8(v)
	s := NewSizer()
	s.WriteInt8(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (v < 0) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadInt8()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableInt8
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableInt8(buf []byte, off uint32, failed bool, v *int8, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableInt8(v)
	s := NewSizer()
	s.WriteNillableInt8(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableInt8()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadInt8
//@ prop C10 C11
func spec_Decoder_ReadInt8(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadInt8()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (v < 0))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && !r.uns && int64(r.bits) == int64(int8(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && (len(buf) == int(off) || buf[off] >= 0xd0)))
}

//@ contract Decoder.ReadNillableInt8
//@ prop C10 C11
func spec_Decoder_ReadNillableInt8(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableInt8()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadInt8()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteInt16
//@ prop C08 C09 C12
func spec_Encoder_WriteInt16(buf []byte, off uint32, failed bool, v int16, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteInt16(v)
	s := NewSizer()
	s.WriteInt16(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (v < 0) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadInt16()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableInt16
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableInt16(buf []byte, off uint32, failed bool, v *int16, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableInt16(v)
	s := NewSizer()
	s.WriteNillableInt16(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableInt16()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadInt16
//@ prop C10 C11
func spec_Decoder_ReadInt16(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadInt16()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (v < 0))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && !r.uns && int64(r.bits) == int64(int16(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && (len(buf) == int(off) || buf[off] >= 0xd0)))
}

//@ contract Decoder.ReadNillableInt16
//@ prop C10 C11
func spec_Decoder_ReadNillableInt16(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableInt16()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadInt16()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteInt32
//@ prop C08 C09 C12
func spec_Encoder_WriteInt32(buf []byte, off uint32, failed bool, v int32, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteInt32(v)
	s := NewSizer()
	s.WriteInt32(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (v < 0) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadInt32()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableInt32
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableInt32(buf []byte, off uint32, failed bool, v *int32, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableInt32(v)
	s := NewSizer()
	s.WriteNillableInt32(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableInt32()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadInt32
//@ prop C10 C11
func spec_Decoder_ReadInt32(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadInt32()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (v < 0))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && !r.uns && int64(r.bits) == int64(int32(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && (len(buf) == int(off) || buf[off] >= 0xd0)))
}

//@ contract Decoder.ReadNillableInt32
//@ prop C10 C11
func spec_Decoder_ReadNillableInt32(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableInt32()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadInt32()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteInt64
//@ prop C08 C09 C12
func spec_Encoder_WriteInt64(buf []byte, off uint32, failed bool, v int64, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteInt64(v)
	s := NewSizer()
	s.WriteInt64(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (v < 0) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadInt64()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableInt64
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableInt64(buf []byte, off uint32, failed bool, v *int64, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableInt64(v)
	s := NewSizer()
	s.WriteNillableInt64(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableInt64()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadInt64
//@ prop C10 C11
func spec_Decoder_ReadInt64(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadInt64()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (v < 0))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && !r.uns && int64(r.bits) == int64(int64(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && (len(buf) == int(off) || buf[off] >= 0xd0)))
}

//@ contract Decoder.ReadNillableInt64
//@ prop C10 C11
func spec_Decoder_ReadNillableInt64(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableInt64()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadInt64()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteUint8
//@ prop C08 C09 C12
func spec_Encoder_WriteUint8(buf []byte, off uint32, failed bool, v uint8, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteUint8(v)
	s := NewSizer()
	s.WriteUint8(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (false) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadUint8()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableUint8
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableUint8(buf []byte, off uint32, failed bool, v *uint8, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableUint8(v)
	s := NewSizer()
	s.WriteNillableUint8(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableUint8()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadUint8
//@ prop C10 C11
func spec_Decoder_ReadUint8(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadUint8()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (false))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && true && !r.neg && r.bits == uint64(uint8(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && true))
}

//@ contract Decoder.ReadNillableUint8
//@ prop C10 C11
func spec_Decoder_ReadNillableUint8(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableUint8()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadUint8()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteUint16
//@ prop C08 C09 C12
func spec_Encoder_WriteUint16(buf []byte, off uint32, failed bool, v uint16, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteUint16(v)
	s := NewSizer()
	s.WriteUint16(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (false) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadUint16()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableUint16
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableUint16(buf []byte, off uint32, failed bool, v *uint16, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableUint16(v)
	s := NewSizer()
	s.WriteNillableUint16(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableUint16()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadUint16
//@ prop C10 C11
func spec_Decoder_ReadUint16(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadUint16()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (false))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && true && !r.neg && r.bits == uint64(uint16(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && true))
}

//@ contract Decoder.ReadNillableUint16
//@ prop C10 C11
func spec_Decoder_ReadNillableUint16(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableUint16()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadUint16()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteUint32
//@ prop C08 C09 C12
func spec_Encoder_WriteUint32(buf []byte, off uint32, failed bool, v uint32, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteUint32(v)
	s := NewSizer()
	s.WriteUint32(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (false) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadUint32()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableUint32
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableUint32(buf []byte, off uint32, failed bool, v *uint32, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableUint32(v)
	s := NewSizer()
	s.WriteNillableUint32(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableUint32()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadUint32
//@ prop C10 C11
func spec_Decoder_ReadUint32(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadUint32()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (false))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && true && !r.neg && r.bits == uint64(uint32(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && true))
}

//@ contract Decoder.ReadNillableUint32
//@ prop C10 C11
func spec_Decoder_ReadNillableUint32(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableUint32()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadUint32()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Encoder.WriteUint64
//@ prop C08 C09 C12
func spec_Encoder_WriteUint64(buf []byte, off uint32, failed bool, v uint64, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteUint64(v)
	s := NewSizer()
	s.WriteUint64(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == (false) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.ReadUint64()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}
}

//@ contract Encoder.WriteNillableUint64
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableUint64(buf []byte, off uint32, failed bool, v *uint64, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableUint64(v)
	s := NewSizer()
	s.WriteNillableUint64(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableUint64()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}
}

//@ contract Decoder.ReadUint64
//@ prop C10 C11
func spec_Decoder_ReadUint64(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadUint64()
	r := refInt(buf[off:])
	if err == nil {
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == (false))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	} else {
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}
	if !failed && r.ok && true && !r.neg && r.bits == uint64(uint64(r.bits)) {
		gvEnsures("a number that fits is read", err == nil)
	}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && true))
}

//@ contract Decoder.ReadNillableUint64
//@ prop C10 C11
func spec_Decoder_ReadNillableUint64(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableUint64()
	if err == nil && v == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadUint64()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}
