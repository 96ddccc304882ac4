package msgpack

import "time"

//@ contract Encoder.WriteTime
//@ prop C08 C09 C12
func spec_Encoder_WriteTime(buf []byte, off uint32, failed bool, sec int64, nsec int64, k int) {
	gvRequires(0 <= nsec && nsec < 1000000000)
	e := encoderAt(buf, off, failed)
	v := time.Unix(sec, nsec)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteTime(v)
	s := NewSizer()
	s.WriteTime(v)
	n := s.Len()
	gvEnsures("6, 10 or 15 bytes", n == 6 || n == 10 || n == 15)
	if wrote(e, buf, old, off, failed, n, k) {
		b := buf[off:]
		gvEnsures("a MessagePack timestamp", n == 6 && b[0] == 0xd6 && b[1] == 0xff || n == 10 && b[0] == 0xd7 && b[1] == 0xff || n == 15 && b[0] == 0xc7 && b[1] == 12 && b[2] == 0xff)
		d := decoderAt(buf, off, false)
		w, err := d.ReadTime()
		gvEnsures("reads back", err == nil && d.reader.byteOffset == off+n)
		gvEnsures("the same second", w.Unix() == sec)
		gvEnsures("the same nanosecond", int64(w.Nanosecond()) == nsec)
	}
}

//@ contract Encoder.WriteNillableTime
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableTime(buf []byte, off uint32, failed bool, some bool, sec int64, nsec int64, k int) {
	gvRequires(0 <= nsec && nsec < 1000000000)
	e := encoderAt(buf, off, failed)
	var p *time.Time
	if some {
		v := time.Unix(sec, nsec)
		p = &v
	}
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableTime(p)
	s := NewSizer()
	s.WriteNillableTime(p)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableTime()
		gvEnsures("reads back", err == nil && (w != nil) == some && d.reader.byteOffset == off+n)
		if w != nil {
			gvEnsures("the same instant", w.Unix() == sec && int64(w.Nanosecond()) == nsec)
		}
	}
}

//@ contract Decoder.ReadTime
//@ prop C11
func spec_Decoder_ReadTime(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	_, err := d.ReadTime()
	b := buf[off:]
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	if failed || len(b) == 0 {
		gvEnsures("reading past the end is an error", err != nil && d.Err() != nil)
		return
	}
	if len(b) >= 6 && b[0] == 0xd6 && b[1] == 0xff {
		gvEnsures("a 32-bit timestamp is read", err == nil && d.reader.byteOffset == off+6)
	}
	if len(b) >= 10 && b[0] == 0xd7 && b[1] == 0xff {
		gvEnsures("a 64-bit timestamp is read", err == nil && d.reader.byteOffset == off+10)
	}
	if len(b) >= 15 && b[0] == 0xc7 && b[1] == 12 && b[2] == 0xff {
		gvEnsures("a 96-bit timestamp is read", err == nil && d.reader.byteOffset == off+15)
	}
	if b[0] == 0xd6 && len(b) < 6 || b[0] == 0xd7 && len(b) < 10 || b[0] == 0xc7 && (len(b) < 3 || len(b)-3 < int(b[1])) {
		gvEnsures("a truncated timestamp is an error", err != nil)
	}
	if b[0] < 0x90 || b[0] >= 0xc0 && b[0] <= 0xc6 || b[0] >= 0xca && b[0] <= 0xd3 || b[0] >= 0xde {
		gvEnsures("other kinds of values are refused", err != nil)
	}
}

//@ contract Decoder.ReadNillableTime
//@ prop C11
func spec_Decoder_ReadNillableTime(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	p, err := d.ReadNillableTime()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("nil exactly for the nil marker", (err == nil && p == nil) == nilHere)
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	gvEnsures("an error yields no time", err == nil || p == nil)
}
