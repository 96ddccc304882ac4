package msgpack

// Reference reading of the MessagePack format, used by the contracts.

func be16(b []byte) uint64 { return uint64(b[0])<<8 | uint64(b[1]) }
func be32(b []byte) uint64 {
	return uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
}
func be64(b []byte) uint64 { return be32(b)<<32 | be32(b[4:]) }

// number is an integer of either sign and up to 64 bits.
type number struct {
	neg  bool
	bits uint64 // two's complement
	n    int    // bytes taken
	ok   bool   // an integer, complete
	uns  bool   // in one of the unsigned formats
	cut  bool   // an integer format, but truncated
}

func signed(v int64, n int) number { return number{neg: v < 0, bits: uint64(v), n: n, ok: true} }

// refInt reads the integer at the front of b.
func refInt(b []byte) number {
	if len(b) == 0 {
		return number{cut: true}
	}
	c := b[0]
	switch {
	case c < 0x80:
		return number{bits: uint64(c), n: 1, ok: true}
	case c >= 0xe0:
		return signed(int64(int8(c)), 1)
	case c < 0xcc || c > 0xd3:
		return number{}
	}
	if len(b) < 1+1<<(c&3) {
		return number{cut: true}
	}
	switch c {
	case 0xcc:
		return number{bits: uint64(b[1]), n: 2, ok: true, uns: true}
	case 0xcd:
		return number{bits: be16(b[1:]), n: 3, ok: true, uns: true}
	case 0xce:
		return number{bits: be32(b[1:]), n: 5, ok: true, uns: true}
	case 0xcf:
		return number{bits: be64(b[1:]), n: 9, ok: true, uns: true}
	case 0xd0:
		return signed(int64(int8(b[1])), 2)
	case 0xd1:
		return signed(int64(int16(be16(b[1:]))), 3)
	case 0xd2:
		return signed(int64(int32(be32(b[1:]))), 5)
	}
	return signed(int64(be64(b[1:])), 9)
}

// header is a length-prefixed format: count of bytes or elements, size of the prefix.
type header struct {
	count uint64
	n     int
	ok    bool
	cut   bool
}

// refHeader reads a length prefix. fix is the first lead byte with an embedded length and fixBits the
// number of length bits in it; l8, l16, l32 are the lead bytes of the longer forms (0: none).
func refHeader(b []byte, fix byte, fixBits int, l8, l16, l32 byte) header {
	if len(b) == 0 {
		return header{cut: true}
	}
	c := b[0]
	if fixBits > 0 && c>>fixBits == fix>>fixBits {
		return header{uint64(c & (1<<fixBits - 1)), 1, true, false}
	}
	switch {
	case c == l8 && l8 != 0:
		if len(b) < 2 {
			return header{cut: true}
		}
		return header{uint64(b[1]), 2, true, false}
	case c == l16:
		if len(b) < 3 {
			return header{cut: true}
		}
		return header{be16(b[1:]), 3, true, false}
	case c == l32:
		if len(b) < 5 {
			return header{cut: true}
		}
		return header{be32(b[1:]), 5, true, false}
	}
	return header{}
}

func refStr(b []byte) header { return refHeader(b, 0xa0, 5, 0xd9, 0xda, 0xdb) }
func refBin(b []byte) header { return refHeader(b, 0, 0, 0xc4, 0xc5, 0xc6) }
func refArr(b []byte) header { return refHeader(b, 0x90, 4, 0, 0xdc, 0xdd) }
func refMap(b []byte) header { return refHeader(b, 0x80, 4, 0, 0xde, 0xdf) }

func encoderAt(buf []byte, off uint32, failed bool) *Encoder {
	gvRequires(len(buf) < 1<<32 && int(off) <= len(buf))
	e := NewEncoder(buf)
	e.reader.byteOffset = off
	if failed {
		e.reader.err = ErrRange
	}
	return &e
}

func decoderAt(buf []byte, off uint32, failed bool) *Decoder {
	gvRequires(len(buf) < 1<<32 && int(off) <= len(buf))
	d := NewDecoder(buf)
	d.reader.byteOffset = off
	if failed {
		d.reader.err = ErrRange
	}
	return &d
}

// wrote states what every writer must have done, given the size announced by the sizer.
func wrote(e *Encoder, buf, old []byte, off uint32, failed bool, n uint32, k int) bool {
	fits := !failed && int(off)+int(n) <= len(buf)
	gvEnsures("an error is latched exactly when the value does not fit or an earlier one did not", (e.Err() != nil) == !fits)
	gvEnsures("the buffer stays the same one", len(e.reader.buffer) == len(buf) && gvOffsetIn(e.reader.buffer, buf) <= 0)
	if fits {
		gvEnsures("exactly the sized number of bytes is emitted", e.reader.byteOffset == off+n)
		if 0 <= k && k < len(buf) && (k < int(off) || k >= int(off)+int(n)) {
			gvEnsures("no other byte is touched", buf[k] == old[k])
		}
	} else {
		gvEnsures("the position stays within the buffer", e.reader.byteOffset >= off && int(e.reader.byteOffset) <= len(buf))
		if 0 <= k && k < len(buf) && (k < int(off) || failed) {
			gvEnsures("earlier bytes are untouched, all of them after a failure", buf[k] == old[k])
		}
	}
	return fits
}
