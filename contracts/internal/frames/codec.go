package frames

// ---- cancel

//@ contract Cancel.Encode
//@ prop C03 C04
func spec_Cancel_Encode(f *Cancel, buf []byte) {
	gvRequires(f != nil && f.StreamID < 1<<31 && len(buf) >= 6)
	gvModifies(buf[:6])
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	gvEnsures("header", h.StreamID() == f.StreamID && h.Type() == FrameTypeCancel && h.Flag() == 0)
	gvEnsures("first four bytes carry the id alone", buf[0] < 0x80)
}

//@ contract Cancel.Decode
//@ prop C03 C05
func spec_Cancel_Decode(f *Cancel, h FrameHeader, payload []byte) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(&h, payload)
	gvEnsures("accepted", err == nil)
	gvEnsures("stream id", f.StreamID == h.StreamID() && f.GetStreamID() == h.StreamID() && f.Type() == FrameTypeCancel)
}

//@ contract Cancel.Size
//@ prop C04
func spec_Cancel_Size(f *Cancel) {
	gvRequires(f != nil)
	gvModifies()
	n := f.Size()
	gvEnsures("header only", n == 6)
}

//@ lemma
//@ prop C03
func lemma_Cancel_roundtrip(f Cancel, buf []byte) {
	gvRequires(f.StreamID < 1<<31 && len(buf) >= 6)
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g Cancel
	err := g.Decode(&h, buf[6:])
	gvEnsures("same frame", err == nil && g == f && h.Type() == f.Type())
}

// ---- request-n

//@ contract RequestN.Encode
//@ prop C03 C04
func spec_RequestN_Encode(f *RequestN, buf []byte) {
	gvRequires(f != nil && f.StreamID < 1<<31 && len(buf) >= 10)
	gvModifies(buf[:10])
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	gvEnsures("header", h.StreamID() == f.StreamID && h.Type() == FrameTypeRequestN && h.Flag() == 0 && buf[0] < 0x80)
	gvEnsures("count, big endian", buf[6] == byte(f.N>>24) && buf[7] == byte(f.N>>16) && buf[8] == byte(f.N>>8) && buf[9] == byte(f.N))
}

//@ contract RequestN.Decode
//@ prop C03 C05
func spec_RequestN_Decode(f *RequestN, h FrameHeader, payload []byte) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(&h, payload)
	gvEnsures("refused exactly when shorter than the count", (err != nil) == (len(payload) < 4))
	if err == nil {
		gvEnsures("stream id", f.StreamID == h.StreamID() && f.GetStreamID() == h.StreamID() && f.Type() == FrameTypeRequestN)
		gvEnsures("count", f.N == uint32(payload[0])<<24|uint32(payload[1])<<16|uint32(payload[2])<<8|uint32(payload[3]))
	}
}

//@ contract RequestN.Size
//@ prop C04
func spec_RequestN_Size(f *RequestN) {
	gvRequires(f != nil)
	gvModifies()
	n := f.Size()
	gvEnsures("header and count", n == 10)
}

//@ lemma
//@ prop C03
func lemma_RequestN_roundtrip(f RequestN, buf []byte) {
	gvRequires(f.StreamID < 1<<31 && len(buf) >= int(f.Size()))
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g RequestN
	err := g.Decode(&h, buf[6:f.Size()])
	gvEnsures("same frame", err == nil && g == f && h.Type() == f.Type())
}

// ---- error

//@ contract Error.Encode
//@ prop C03 C04
func spec_Error_Encode(f *Error, buf []byte, k int) {
	gvRequires(f != nil && f.StreamID < 1<<31 && len(f.Data) < 1<<31 && len(buf) >= 10+len(f.Data))
	gvModifies(buf[:10+len(f.Data)])
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	gvEnsures("header", h.StreamID() == f.StreamID && h.Type() == FrameTypeError && h.Flag() == 0 && buf[0] < 0x80)
	gvEnsures("code, big endian", buf[6] == byte(f.Code>>24) && buf[7] == byte(f.Code>>16) && buf[8] == byte(f.Code>>8) && buf[9] == byte(f.Code))
	if 0 <= k && k < len(f.Data) {
		gvEnsures("text", buf[10+k] == f.Data[k])
	}
}

//@ contract Error.Decode
//@ prop C03 C05
func spec_Error_Decode(f *Error, h FrameHeader, payload []byte, k int) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(&h, payload)
	gvEnsures("refused exactly when shorter than the code", (err != nil) == (len(payload) < 4))
	if err == nil {
		gvEnsures("stream id", f.StreamID == h.StreamID() && f.GetStreamID() == h.StreamID() && f.Type() == FrameTypeError)
		gvEnsures("code", uint32(f.Code) == uint32(payload[0])<<24|uint32(payload[1])<<16|uint32(payload[2])<<8|uint32(payload[3]))
		gvEnsures("text length", len(f.Data) == len(payload)-4)
		if 0 <= k && k < len(f.Data) {
			gvEnsures("text", f.Data[k] == payload[4+k])
		}
	}
}

//@ contract Error.Size
//@ prop C04
func spec_Error_Size(f *Error) {
	gvRequires(f != nil && len(f.Data) < 1<<31)
	gvModifies()
	n := f.Size()
	gvEnsures("header, code and text", int(n) == 10+len(f.Data))
}

//@ lemma
//@ prop C03
func lemma_Error_roundtrip(f Error, buf []byte) {
	gvRequires(f.StreamID < 1<<31 && len(f.Data) < 1<<31 && len(buf) >= int(f.Size()))
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g Error
	err := g.Decode(&h, buf[6:f.Size()])
	gvEnsures("same frame", err == nil && g.StreamID == f.StreamID && g.Code == f.Code && g.Data == f.Data && h.Type() == f.Type())
}

// ---- payload

func payloadSize(md, data int) int {
	n := 6 + data
	if md > 0 {
		n += 3 + md
	}
	return n
}

func fits(md, data []byte) bool { return len(md) < 1<<24 && len(data) < 1<<31 }

//@ contract Payload.Size
//@ prop C04
func spec_Payload_Size(f *Payload) {
	gvRequires(f != nil && fits(f.Metadata, f.Data))
	gvModifies()
	n := f.Size()
	gvEnsures("header, metadata with its length, data", int(n) == payloadSize(len(f.Metadata), len(f.Data)))
}

//@ contract Payload.Encode
//@ prop C03 C04
func spec_Payload_Encode(f *Payload, buf []byte, k int) {
	gvRequires(f != nil && f.StreamID < 1<<31 && fits(f.Metadata, f.Data))
	m, d := len(f.Metadata), len(f.Data)
	gvRequires(len(buf) >= payloadSize(m, d))
	gvSplit(m > 0)
	gvModifies(buf[:payloadSize(m, d)])
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var fl FrameFlag
	if f.Follows {
		fl |= FlagFollow
	}
	if f.Complete {
		fl |= FlagComplete
	}
	if f.Next {
		fl |= FlagNext
	}
	if m > 0 {
		fl |= FlagMetadata
	}
	gvEnsures("header", h.StreamID() == f.StreamID && h.Type() == FrameTypePayload && buf[0] < 0x80)
	gvEnsures("flags", h.Flag() == fl)
	off := 6
	if m > 0 {
		gvEnsures("metadata length", buf[6] == byte(m>>16) && buf[7] == byte(m>>8) && buf[8] == byte(m))
		off = 9 + m
	}
	if 0 <= k && k < m {
		gvEnsures("metadata", buf[9+k] == f.Metadata[k])
	}
	if 0 <= k && k < d {
		gvEnsures("data", buf[off+k] == f.Data[k])
	}
}

//@ contract Payload.Decode
//@ prop C03 C05
func spec_Payload_Decode(f *Payload, h FrameHeader, payload []byte) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(&h, payload)
	n, off := 0, 0
	ok := true
	if h.Flag()&FlagMetadata != 0 {
		ok = len(payload) >= 3
		if ok {
			n, off = int(payload[0])<<16|int(payload[1])<<8|int(payload[2]), 3
			ok = len(payload)-3 >= n
		}
	}
	gvEnsures("refused exactly when the metadata does not fit", (err == nil) == ok)
	if err == nil && ok {
		gvEnsures("stream id", f.StreamID == h.StreamID() && f.GetStreamID() == h.StreamID() && f.Type() == FrameTypePayload)
		gvEnsures("markers", f.Follows == (h.Flag()&FlagFollow != 0) && f.Complete == (h.Flag()&FlagComplete != 0) && f.Next == (h.Flag()&FlagNext != 0))
		gvEnsures("metadata", gvBytesEq(f.Metadata, payload[off:off+n]))
		gvEnsures("data", gvBytesEq(f.Data, payload[off+n:]))
	}
}

//@ lemma
//@ prop C03
func lemma_Payload_roundtrip(f Payload, buf []byte) {
	gvRequires(f.StreamID < 1<<31 && fits(f.Metadata, f.Data) && len(buf) >= int(f.Size()))
	gvSplit(len(f.Metadata) > 0)
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g Payload
	err := g.Decode(&h, buf[6:f.Size()])
	gvEnsures("decodes", err == nil && h.Type() == f.Type())
	gvEnsures("stream id and markers", g.StreamID == f.StreamID && g.Follows == f.Follows && g.Complete == f.Complete && g.Next == f.Next)
	gvEnsures("metadata", gvBytesEq(g.Metadata, f.Metadata))
	gvEnsures("data", gvBytesEq(g.Data, f.Data))
}

// ---- the four requests

func hasInitialN(t FrameType) bool { return t == 6 || t == 7 }

func isRequest(t FrameType) bool { return t >= 4 && t <= 7 }

func requestSize(t FrameType, md, data int) int {
	n := payloadSize(md, data)
	if hasInitialN(t) {
		n += 4
	}
	return n
}

//@ contract RequestPayload.Size
//@ prop C04
func spec_RequestPayload_Size(f *RequestPayload) {
	gvRequires(f != nil && isRequest(f.FrameType) && fits(f.Metadata, f.Data))
	gvModifies()
	n := f.Size()
	gvEnsures("header, initial count, metadata with its length, data", int(n) == requestSize(f.FrameType, len(f.Metadata), len(f.Data)))
}

//@ contract RequestPayload.Encode
//@ prop C03 C04
func spec_RequestPayload_Encode(f *RequestPayload, buf []byte, k int) {
	gvRequires(f != nil && isRequest(f.FrameType) && f.StreamID < 1<<31 && fits(f.Metadata, f.Data))
	m, d := len(f.Metadata), len(f.Data)
	gvRequires(len(buf) >= requestSize(f.FrameType, m, d))
	gvSplit(m > 0)
	gvSplit(hasInitialN(f.FrameType))
	gvModifies(buf[:requestSize(f.FrameType, m, d)])
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var fl FrameFlag
	if f.Follows {
		fl |= FlagFollow
	}
	if f.Complete && f.FrameType == FrameTypeRequestChannel {
		fl |= FlagComplete
	}
	if m > 0 {
		fl |= FlagMetadata
	}
	gvEnsures("header", h.StreamID() == f.StreamID && h.Type() == f.FrameType && buf[0] < 0x80)
	gvEnsures("flags", h.Flag() == fl)
	off := 6
	if hasInitialN(f.FrameType) {
		gvEnsures("initial count, big endian", buf[6] == byte(f.InitialN>>24) && buf[7] == byte(f.InitialN>>16) && buf[8] == byte(f.InitialN>>8) && buf[9] == byte(f.InitialN))
		off = 10
	}
	if m > 0 {
		gvEnsures("metadata length", buf[off] == byte(m>>16) && buf[off+1] == byte(m>>8) && buf[off+2] == byte(m))
		off += 3
	}
	if 0 <= k && k < m {
		gvEnsures("metadata", buf[off+k] == f.Metadata[k])
	}
	if 0 <= k && k < d {
		gvEnsures("data", buf[off+m+k] == f.Data[k])
	}
}

//@ contract RequestPayload.Decode
//@ prop C03 C05
func spec_RequestPayload_Decode(f *RequestPayload, h FrameHeader, payload []byte) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(&h, payload)
	n, off := 0, 0
	ok := true
	if hasInitialN(h.Type()) {
		ok = len(payload) >= 4
		off = 4
	}
	if ok && h.Flag()&FlagMetadata != 0 {
		ok = len(payload)-off >= 3
		if ok {
			n = int(payload[off])<<16 | int(payload[off+1])<<8 | int(payload[off+2])
			off += 3
			ok = len(payload)-off >= n
		}
	}
	gvEnsures("refused exactly when a field does not fit", (err == nil) == ok)
	if err == nil && ok {
		gvEnsures("stream id and type", f.StreamID == h.StreamID() && f.GetStreamID() == h.StreamID() && f.FrameType == h.Type() && f.Type() == h.Type())
		gvEnsures("markers", f.Follows == (h.Flag()&FlagFollow != 0) && f.Complete == (h.Type() != FrameTypeRequestChannel || h.Flag()&FlagComplete != 0))
		if hasInitialN(h.Type()) {
			gvEnsures("initial count", f.InitialN == uint32(payload[0])<<24|uint32(payload[1])<<16|uint32(payload[2])<<8|uint32(payload[3]))
		} else {
			gvEnsures("one element is requested", f.InitialN == 1)
		}
		gvEnsures("metadata", gvBytesEq(f.Metadata, payload[off:off+n]))
		gvEnsures("data", gvBytesEq(f.Data, payload[off+n:]))
	}
}

//@ lemma
//@ prop C03
func lemma_RequestPayload_roundtrip(f RequestPayload, buf []byte) {
	gvRequires(isRequest(f.FrameType) && f.StreamID < 1<<31 && fits(f.Metadata, f.Data) && len(buf) >= int(f.Size()))
	gvSplit(hasInitialN(f.FrameType))
	gvSplit(len(f.Metadata) > 0)
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g RequestPayload
	err := g.Decode(&h, buf[6:f.Size()])
	gvEnsures("decodes", err == nil && h.Type() == f.FrameType && g.FrameType == f.FrameType)
	gvEnsures("stream id and follows marker", g.StreamID == f.StreamID && g.Follows == f.Follows)
	if f.FrameType == FrameTypeRequestChannel {
		gvEnsures("complete marker of a channel request", g.Complete == f.Complete)
	}
	if hasInitialN(f.FrameType) {
		gvEnsures("initial count", g.InitialN == f.InitialN)
	}
	gvEnsures("metadata", gvBytesEq(g.Metadata, f.Metadata))
	gvEnsures("data", gvBytesEq(g.Data, f.Data))
}
