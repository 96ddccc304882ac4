package uuid

import "io"

// fixedReader delivers the bytes it was given, then fails.
type fixedReader struct {
	b []byte
}

func (r *fixedReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func isV4(u UUID, src []byte) bool {
	for i := 0; i < 16; i++ {
		x := src[i]
		switch i {
		case 6:
			x = x&0x0f | 0x40
		case 8:
			x = x&0x3f | 0x80
		}
		if u[i] != x {
			return false
		}
	}
	return true
}

//@ contract NewRandomFromReader
//@ prop C24
func spec_NewRandomFromReader(src []byte) {
	n := len(src)
	r := &fixedReader{src}
	gvModifies(r)
	u, err := NewRandomFromReader(r)
	if n >= 16 {
		gvEnsures("succeeds", err == nil)
		gvEnsures("the 16 bytes read, version 4, variant RFC4122", isV4(u, src))
		gvEnsures("reads exactly 16 bytes", len(r.b) == n-16)
		gvEnsures("version", u.Version() == 4 && u.Variant() == RFC4122)
	} else {
		gvEnsures("a short source is an error and gives no id", err != nil && u == UUID{})
	}
}

// drawn is what two successive draws from the pool at pos have to be: the next 16 bytes of what is left
// of the pool, refilled from src.
func drawn(p *[randPoolSize]byte, pos int, src []byte) ([]byte, int, []byte) {
	if pos < randPoolSize {
		return p[pos : pos+16], pos + 16, src
	}
	return src[:16], 16, src[randPoolSize:]
}

//@ contract newRandomFromPool
//@ prop C24
func spec_newRandomFromPool(p [randPoolSize]byte, pos int, src []byte) {
	gvRequires(0 <= pos && pos <= randPoolSize && pos%16 == 0)
	enough := pos < randPoolSize || len(src) >= randPoolSize
	r := &fixedReader{src}
	rander = r
	pool, poolPos = p, pos
	gvModifies(r, &pool, &poolPos)
	u, err := newRandomFromPool()
	gvEnsures("fails exactly when the pool cannot be refilled", (err == nil) == enough)
	if err != nil {
		gvEnsures("no id and a pool position that forces a refill", u == UUID{} && poolPos == randPoolSize)
		return
	}
	gvEnsures("version", u.Version() == 4 && u.Variant() == RFC4122)
	if pos < randPoolSize {
		gvEnsures("the next 16 bytes", isV4(u, p[pos:pos+16]))
		gvEnsures("advances over them", poolPos == pos+16 && pool == p && len(r.b) == len(src))
	} else {
		gvEnsures("the first 16 fresh bytes", isV4(u, src))
		gvEnsures("refills once", poolPos == 16 && len(r.b) == len(src)-randPoolSize)
		gvEnsures("the rest of the fresh bytes is kept", gvBytesEq(pool[16:], src[16:randPoolSize]))
	}
}

//@ lemma
//@ prop C24
func spec_NewRandom(pooled bool, src []byte, p [randPoolSize]byte, pos int) {
	gvRequires(0 <= pos && pos <= randPoolSize && pos%16 == 0 && len(src) >= randPoolSize)
	SetRand(&fixedReader{src})
	pool, poolPos = p, pos
	if pooled {
		EnableRandPool()
	} else {
		DisableRandPool()
	}
	u, err := NewRandom()
	gvEnsures("a version 4 id", err == nil && u.Version() == 4 && u.Variant() == RFC4122)
	if !pooled {
		gvEnsures("from the source directly", isV4(u, src))
	}
	w := New()
	gvEnsures("New likewise", w.Version() == 4 && w.Variant() == RFC4122)
}

//@ lemma
//@ prop C24
func spec_Variant(u UUID) {
	gvEnsures("version", u.Version() == Version(u[6]>>4))
	v := u.Variant()
	switch {
	case u[8]>>7 == 0:
		gvEnsures("NCS", v == Reserved)
	case u[8]>>6 == 2:
		gvEnsures("RFC 4122", v == RFC4122)
	case u[8]>>5 == 6:
		gvEnsures("Microsoft", v == Microsoft)
	default:
		gvEnsures("future", v == Future)
	}
}
