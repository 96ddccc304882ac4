package msgpack

// The reference reading, for the contracts of other packages.

// SpecInt is the integer at the front of b, in two's complement.
func SpecInt(b []byte) (neg bool, bits uint64, ok bool) {
	r := refInt(b)
	return r.neg, r.bits, r.ok
}

// SpecBits is the 4 or 8 byte number at the front of b.
func SpecBits(b []byte, n int) uint64 {
	if n == 4 {
		return be32(b)
	}
	return be64(b)
}

// SpecText is the length of the prefix at the front of b and the string length it announces. Array
// prefixes are allowed as string lengths.
func SpecText(b []byte) (n int, count uint64, ok bool) {
	r := refStr(b)
	if !r.ok {
		r = refArr(b)
	}
	return r.n, r.count, r.ok
}

// SpecBinary is the same for byte strings. Small array prefixes and nil are allowed.
func SpecBinary(b []byte) (n int, count uint64, ok bool) {
	r := refBin(b)
	if !r.ok && len(b) > 0 && b[0]>>4 == 9 {
		r = refArr(b)
	}
	if !r.ok && len(b) > 0 && b[0] == 0xc0 {
		r = header{0, 1, true, false}
	}
	return r.n, r.count, r.ok
}
