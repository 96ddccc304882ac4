package frames

//@ contract NewFrameHeader
//@ prop C02
func spec_NewFrameHeader(streamID uint32, ft FrameType, fg FrameFlag) {
	gvRequires(streamID < 1<<31 && ft < 64 && fg < 1024)
	gvModifies()
	h := NewFrameHeader(streamID, ft, fg)
	gvEnsures("stream id first, network byte order", h[0] == byte(streamID>>24) && h[1] == byte(streamID>>16) && h[2] == byte(streamID>>8) && h[3] == byte(streamID))
	gvEnsures("6 bits of type, 10 bits of flags", h[4] == byte(ft)<<2|byte(fg>>8) && h[5] == byte(fg))
}

//@ contract ResetFrameHeader
//@ prop C02
func spec_ResetFrameHeader(b []byte, streamID uint32, ft FrameType, fg FrameFlag) {
	gvRequires(len(b) >= 6 && streamID < 1<<31 && ft < 64 && fg < 1024)
	gvModifies(b[:6])
	ResetFrameHeader(b, streamID, ft, fg)
	gvEnsures("stream id first, network byte order", b[0] == byte(streamID>>24) && b[1] == byte(streamID>>16) && b[2] == byte(streamID>>8) && b[3] == byte(streamID))
	gvEnsures("6 bits of type, 10 bits of flags", b[4] == byte(ft)<<2|byte(fg>>8) && b[5] == byte(fg))
}

//@ contract ParseFrameHeader
//@ prop C02
func spec_ParseFrameHeader(bs []byte, k int) {
	gvRequires(len(bs) >= 6 && 0 <= k && k < 6)
	gvModifies()
	h := ParseFrameHeader(bs)
	gvEnsures("the first six bytes", h[k] == bs[k])
}

//@ contract FrameHeader.StreamID
//@ prop C02
func spec_StreamID(h FrameHeader) {
	gvModifies()
	r := h.StreamID()
	gvEnsures("low 31 bits of the first four bytes", r == uint32(h[0]&0x7f)<<24|uint32(h[1])<<16|uint32(h[2])<<8|uint32(h[3]))
}

//@ contract FrameHeader.Type
//@ prop C02
func spec_HeaderType(h FrameHeader) {
	gvModifies()
	r := h.Type()
	gvEnsures("top six bits of byte 4", r == FrameType(h[4]>>2))
}

//@ contract FrameHeader.Flag
//@ prop C02
func spec_HeaderFlag(h FrameHeader) {
	gvModifies()
	r := h.Flag()
	gvEnsures("low ten bits", r == FrameFlag(h[4]&3)<<8|FrameFlag(h[5]))
}

//@ contract FrameHeader.Bytes
//@ prop C02
func spec_HeaderBytes(h FrameHeader, k int) {
	gvRequires(0 <= k && k < 6)
	gvModifies()
	b := h.Bytes()
	gvEnsures("the six raw bytes", len(b) == 6 && b[k] == h[k])
}

//@ contract FrameHeader.Resumable
//@ prop C02
func spec_Resumable(h FrameHeader) {
	gvModifies()
	r := h.Resumable()
	t := byte(h[4] >> 2)
	gvEnsures("request, request-n, cancel, payload and error frames", r == (t >= 4 && t <= 0x0b))
}

//@ contract FrameFlag.Check
//@ prop C02
func spec_Check(f, flag FrameFlag, bit uint8) {
	gvRequires(bit < 16)
	gvModifies()
	r := f.Check(flag)
	m := FrameFlag(1) << bit
	if r {
		gvEnsures("true only when every bit asked for is set", flag&m == 0 || f&m != 0)
	} else {
		gvEnsures("false only when some bit asked for is missing", flag&^f != 0)
	}
}

type headerSink struct {
	b     [16]byte
	calls int
	n     int
	fail  error
}

func (s *headerSink) Write(p []byte) (int, error) {
	s.calls++
	s.n = len(p)
	copy(s.b[:], p)
	if s.fail != nil {
		return 0, s.fail
	}
	return len(p), nil
}

//@ contract FrameHeader.WriteTo
//@ prop C02
func spec_HeaderWriteTo(h FrameHeader, fail error, k int) {
	gvRequires(0 <= k && k < 6)
	s := &headerSink{fail: fail}
	gvModifies(s)
	n, err := h.WriteTo(s)
	gvEnsures("one write of the six bytes", s.calls == 1 && s.n == 6 && s.b[k] == h[k])
	gvEnsures("the writer's result is passed on", err == fail && (fail != nil || n == 6))
}

//@ lemma
//@ prop C02
func lemma_header_roundtrip(b []byte, streamID uint32, ft FrameType, fg FrameFlag) {
	gvRequires(len(b) >= 6 && streamID < 1<<31 && ft < 64 && fg < 1024)
	h := NewFrameHeader(streamID, ft, fg)
	gvEnsures("as a value", h.StreamID() == streamID && h.Type() == ft && h.Flag() == fg)
	ResetFrameHeader(b, streamID, ft, fg)
	g := ParseFrameHeader(b)
	gvEnsures("written into a buffer", g.StreamID() == streamID && g.Type() == ft && g.Flag() == fg && g == h)
}

//@ lemma
//@ prop C02
func lemma_flags_distinct() {
	gvEnsures("frame flags are distinct single bits", FlagNext == 1<<5 && FlagComplete == 1<<6 && FlagFollow == 1<<7 && FlagMetadata == 1<<8 && FlagIgnore == 1<<9)
}
