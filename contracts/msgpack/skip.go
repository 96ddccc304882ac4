package msgpack

// shape is what the front of a value says about it: bytes taken before its elements, and how many
// elements follow.
type shape struct {
	ok   bool
	n    int
	kids uint64
}

func shapeOf(b []byte) shape {
	if len(b) == 0 {
		return shape{}
	}
	c := b[0]
	n, kids := -1, uint64(0)
	switch {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
		n = 1
	case c >= 0xca && c <= 0xd3:
		n = 1 + scalarSize(c)
	case c >= 0xd4 && c <= 0xd8:
		n = 2 + 1<<(c-0xd4)
	case c >= 0xc7 && c <= 0xc9:
		if h := refHeader(b, 0, 0, 0xc7, 0xc8, 0xc9); h.ok {
			n = h.n + 1 + int(h.count)
		}
	case c >= 0xc4 && c <= 0xc6:
		if h := refBin(b); h.ok {
			n = h.n + int(h.count)
		}
	case c>>5 == 5 || c >= 0xd9 && c <= 0xdb:
		if h := refStr(b); h.ok {
			n = h.n + int(h.count)
		}
	case c>>4 == 9 || c == 0xdc || c == 0xdd:
		if h := refArr(b); h.ok {
			n, kids = h.n, h.count
		}
	case c>>4 == 8 || c == 0xde || c == 0xdf:
		if h := refMap(b); h.ok {
			n, kids = h.n, 2*h.count
		}
	}
	return shape{n >= 0 && n <= len(b), n, kids}
}

// The three parts of shapeOf at a position of a buffer.
func opq_shapeOk(buf []byte, off int) bool     { return shapeOf(buf[off:]).ok }
func opq_shapeLen(buf []byte, off int) int     { return shapeOf(buf[off:]).n }
func opq_shapeKids(buf []byte, off int) uint64 { return shapeOf(buf[off:]).kids }

// rec_valEnd is the position behind the MessagePack value at off, -1 if there is no complete
// well-formed value there.
func rec_valEnd(buf []byte, off int) int {
	if off < 0 || off >= len(buf) || !opq_shapeOk(buf, off) {
		return -1
	}
	return rec_valsEnd(buf, off+opq_shapeLen(buf, off), opq_shapeKids(buf, off))
}

// rec_valsEnd is the position behind n values starting at off.
func rec_valsEnd(buf []byte, off int, n uint64) int {
	if off < 0 {
		return -1
	}
	if n == 0 {
		return off
	}
	next := rec_valEnd(buf, off)
	if next < 0 {
		return -1
	}
	return rec_valsEnd(buf, next, n-1)
}

func scalarSize(c byte) int {
	switch c {
	case 0xcc, 0xd0:
		return 1
	case 0xcd, 0xd1:
		return 2
	case 0xca, 0xce, 0xd2:
		return 4
	}
	return 8
}

// skipEnd is where the skip being looked at has to arrive, skipStart where it began.
var skipEnd, skipStart int

//@ contract Decoder.getSize
//@ prop C13
//@ optional
//@ use
//@ reveal opq_shapeOk opq_shapeLen opq_shapeKids
func spec_Decoder_getSize(d *Decoder) {
	gvRequires(d != nil && len(d.reader.buffer) < 1<<32 && int(d.reader.byteOffset) <= len(d.reader.buffer))
	gvRequires(d.reader.err == nil || d.reader.err == ErrRange)
	buf, off, failed := d.reader.buffer, int(d.reader.byteOffset), d.reader.err != nil
	ok, size, kids := opq_shapeOk(buf, off), opq_shapeLen(buf, off), opq_shapeKids(buf, off)
	gvModifies(&d.reader.byteOffset, &d.reader.err)
	lead := byte(0)
	if off < len(buf) {
		lead = buf[off]
	}
	gvSplit(failed || off == len(buf))
	gvSplit(lead >= 0xc4 && lead <= 0xc9) // bin and ext
	gvSplit(lead >= 0xca && lead <= 0xd8)
	gvSplit(lead >= 0xd9 && lead <= 0xdf)
	n, err := d.getSize()
	gvSplit(err == nil)
	now := int(d.reader.byteOffset)
	gvEnsures("succeeds exactly on a complete front", (err == nil) == (!failed && ok))
	if err == nil {
		gvEnsures("moves behind it", now > off && now == off+size && d.reader.err == nil)
		gvEnsures("counts the elements", uint64(n) == kids)
	}
	gvEnsures("moves forward and stays within the buffer", now >= off && now <= len(buf))
	gvEnsures("a range error stays latched", (d.reader.err == nil || d.reader.err == ErrRange) && (!failed || d.reader.err != nil))
	if !failed && off < len(buf) {
		gvEnsures("a value takes at least a byte", now > off)
	}
}

//@ contract Decoder.Skip
//@ prop C11 C13
//@ use
func spec_Decoder_Skip(d *Decoder) {
	gvRequires(d != nil && len(d.reader.buffer) < 1<<32 && int(d.reader.byteOffset) <= len(d.reader.buffer))
	gvRequires(d.reader.err == nil || d.reader.err == ErrRange)
	buf, off, failed := d.reader.buffer, int(d.reader.byteOffset), d.reader.err != nil
	outerEnd, outerStart := skipEnd, skipStart
	skipEnd, skipStart = rec_valEnd(buf, off), off
	end := skipEnd
	gvModifies(&d.reader.byteOffset, &d.reader.err)
	gvDecreases(len(buf) - off)
	err := d.Skip()
	skipEnd, skipStart = outerEnd, outerStart
	now := int(d.reader.byteOffset)
	gvEnsures("succeeds exactly on a complete value", (err == nil) == (!failed && end >= 0))
	if err == nil {
		gvEnsures("moves behind exactly that value", now == end && d.reader.err == nil)
	}
	gvEnsures("moves forward and stays within the buffer", now >= off && now <= len(buf))
	gvEnsures("a range error stays latched", (d.reader.err == nil || d.reader.err == ErrRange) && (!failed || d.reader.err != nil))
	if !failed && off < len(buf) {
		gvEnsures("a value takes at least a byte", now > off)
	}
}

//@ invariant Decoder.Skip#0
func inv_Skip(d *Decoder, numberOfObjectsToDiscard uint64) bool {
	cur := int(d.reader.byteOffset)
	return cur > skipStart && cur <= len(d.reader.buffer) && d.reader.err == nil &&
		rec_valsEnd(d.reader.buffer, cur, numberOfObjectsToDiscard) == skipEnd
}
