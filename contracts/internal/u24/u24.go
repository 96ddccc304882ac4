package u24

//@ contract NewUint24
//@ prop C01
func spec_NewUint24(v uint32) {
	gvModifies()
	n, err := NewUint24(v)
	gvEnsures("values above 2^24-1 are rejected, others accepted", (err != nil) == (v > 1<<24-1))
	gvEnsures("the error identifies the overflow", err == nil || IsExceedMaximumUint24Error(err))
	if v < 1<<24 {
		gvEnsures("the three bytes are the value, big endian", n[0] == byte(v>>16) && n[1] == byte(v>>8) && n[2] == byte(v))
	}
}

//@ contract MustNewUint24
//@ prop C01
func spec_MustNewUint24(v uint32) {
	gvModifies()
	var n Uint24
	p := gvPanics(func() { n = MustNewUint24(v) })
	gvEnsures("panics exactly on overflow", p == (v > 1<<24-1))
	if !p {
		gvEnsures("the three bytes are the value, big endian", n[0] == byte(v>>16) && n[1] == byte(v>>8) && n[2] == byte(v))
	}
}

//@ contract Uint24.AsInt
//@ prop C01
func spec_AsInt(p Uint24) {
	gvModifies()
	r := p.AsInt()
	gvEnsures("big endian value", r == int(p[0])*65536+int(p[1])*256+int(p[2]))
	gvEnsures("range", 0 <= r && r < 1<<24)
}

//@ contract Uint24.Bytes
//@ prop C01
func spec_Bytes(p Uint24) {
	gvModifies()
	b := p.Bytes()
	gvEnsures("three bytes", len(b) == 3 && b[0] == p[0] && b[1] == p[1] && b[2] == p[2])
}

//@ contract NewUint24Bytes
//@ prop C01
func spec_NewUint24Bytes(bs []byte) {
	gvRequires(len(bs) >= 3)
	gvModifies()
	n := NewUint24Bytes(bs)
	gvEnsures("the first three bytes", n[0] == bs[0] && n[1] == bs[1] && n[2] == bs[2])
}

//@ contract ReadUint24ToInt
//@ prop C01
func spec_ReadUint24ToInt(p []byte) {
	gvRequires(len(p) >= 3)
	gvModifies()
	r := ReadUint24ToInt(p)
	gvEnsures("big endian value", r == int(p[0])*65536+int(p[1])*256+int(p[2]))
}

type u24Sink struct {
	b     [8]byte
	calls int
	n     int
	fail  error
}

func (s *u24Sink) Write(p []byte) (int, error) {
	s.calls++
	s.n = len(p)
	copy(s.b[:], p)
	if s.fail != nil {
		return 0, s.fail
	}
	return len(p), nil
}

//@ contract WriteUint24
//@ prop C01
func spec_WriteUint24(v uint32, fail error) {
	s := &u24Sink{fail: fail}
	gvModifies(s)
	err := WriteUint24(s, v)
	if v > 1<<24-1 {
		gvEnsures("rejected without writing", err != nil && s.calls == 0)
	} else {
		gvEnsures("one write of the three big endian bytes", s.calls == 1 && s.n == 3 && s.b[0] == byte(v>>16) && s.b[1] == byte(v>>8) && s.b[2] == byte(v))
		gvEnsures("the writer's error is passed on", err == fail)
	}
}

//@ contract Uint24.WriteTo
//@ prop C01
func spec_WriteTo(p Uint24, fail error) {
	s := &u24Sink{fail: fail}
	gvModifies(s)
	n, err := p.WriteTo(s)
	gvEnsures("one write of the three bytes", s.calls == 1 && s.n == 3 && s.b[0] == p[0] && s.b[1] == p[1] && s.b[2] == p[2])
	gvEnsures("count and error of the writer", err == fail && (fail != nil || n == 3))
}

//@ lemma
//@ prop C01
func lemma_u24_roundtrip(v uint32) {
	gvRequires(v < 1<<24)
	n, err := NewUint24(v)
	gvEnsures("accepted", err == nil)
	gvEnsures("value to bytes to value", n.AsInt() == int(v) && MustNewUint24(v).AsInt() == int(v))
	gvEnsures("through the byte slice", NewUint24Bytes(n.Bytes()).AsInt() == int(v) && ReadUint24ToInt(n.Bytes()) == int(v))
}

//@ lemma
//@ prop C01
func lemma_u24_order(v, w uint32) {
	gvRequires(v < w && w < 1<<24)
	a, b := MustNewUint24(v), MustNewUint24(w)
	gvEnsures("byte order is numeric order", a != b && a.AsInt() < b.AsInt() && (a[0] < b[0] || a[0] == b[0] && (a[1] < b[1] || a[1] == b[1] && a[2] < b[2])))
}
