out=["package msgpack\n\nimport (\n\t\"math\"\n)\n"]
# name, type, equality of v and w, lead byte expr, max bytes
sc=[("Bool","bool","w == v","(buf[off] == 0xc3 && v || buf[off] == 0xc2 && !v) && n == 1"),
    ("Float32","float32","math.Float32bits(w) == math.Float32bits(v)","n == 5 && buf[off] == 0xca && uint32(be32(buf[off+1:])) == math.Float32bits(v)"),
    ("Float64","float64","math.Float64bits(w) == math.Float64bits(v)","n == 9 && buf[off] == 0xcb && be64(buf[off+1:]) == math.Float64bits(v)")]
for N,t,eq,lead in sc:
    out.append(f"""
//@ contract Encoder.Write{N}
//@ prop C08 C09 C12
func spec_Encoder_Write{N}(buf []byte, off uint32, failed bool, v {t}, k int) {{
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.Write{N}(v)
	s := NewSizer()
	s.Write{N}(v)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {{
		gvEnsures("the value in MessagePack format", {lead})
		d := decoderAt(buf, off, false)
		w, err := d.Read{N}()
		gvEnsures("reads back", err == nil && {eq} && d.reader.byteOffset == off+n)
	}}
}}

//@ contract Encoder.WriteNillable{N}
//@ prop C08 C09 C12
func spec_Encoder_WriteNillable{N}(buf []byte, off uint32, failed bool, p *{t}, k int) {{
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillable{N}(p)
	s := NewSizer()
	s.WriteNillable{N}(p)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {{
		gvEnsures("nil is the nil marker", (p == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		q, err := d.ReadNillable{N}()
		gvEnsures("reads back", err == nil && (q == nil) == (p == nil) && d.reader.byteOffset == off+n)
		if p != nil && q != nil {{
			v, w := *p, *q
			gvEnsures("the same value", {eq})
		}}
	}}
}}

//@ contract Decoder.ReadNillable{N}
//@ prop C11
func spec_Decoder_ReadNillable{N}(buf []byte, off uint32, failed bool) {{
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	q, err := d.ReadNillable{N}()
	if err == nil && q == nil {{
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}}
	g := decoderAt(buf, off, failed)
	v, err2 := g.Read{N}()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
	if err == nil {{
		w := *q
		gvEnsures("the same value", {eq})
	}}
}}
""")
out.append("""
//@ contract Decoder.ReadBool
//@ prop C11
func spec_Decoder_ReadBool(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadBool()
	ok := !failed && int(off) < len(buf) && (buf[off] == 0xc2 || buf[off] == 0xc3)
	gvEnsures("success exactly on a boolean", (err == nil) == ok)
	gvEnsures("reading past the end latches the error", (d.Err() != nil) == (failed || int(off) == len(buf)))
	if ok {
		gvEnsures("its value", v == (buf[off] == 0xc3) && d.reader.byteOffset == off+1)
	}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}

//@ contract Decoder.ReadFloat32
//@ prop C11
func spec_Decoder_ReadFloat32(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadFloat32()
	b := buf[off:]
	one := len(b) > 0 && b[0] == 0xca
	two := len(b) > 0 && b[0] == 0xcb
	gvEnsures("success exactly on a complete float", (err == nil) == (!failed && (one && len(b) >= 5 || two && len(b) >= 9)))
	gvEnsures("reading past the end latches the error", (d.Err() != nil) == (failed || len(b) == 0 || one && len(b) < 5 || two && len(b) < 9))
	if err == nil {
		gvEnsures("stands behind the value", one && d.reader.byteOffset == off+5 || two && d.reader.byteOffset == off+9)
		gvEnsures("its value", !one || math.Float32bits(v) == uint32(be32(b[1:])))
	}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}

//@ contract Decoder.ReadFloat64
//@ prop C11
func spec_Decoder_ReadFloat64(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadFloat64()
	b := buf[off:]
	two := len(b) > 0 && b[0] == 0xcb
	gvEnsures("success exactly on a complete double", (err == nil) == (!failed && two && len(b) >= 9))
	gvEnsures("reading past the end latches the error", (d.Err() != nil) == (failed || len(b) == 0 || two && len(b) < 9))
	if err == nil {
		gvEnsures("its value", math.Float64bits(v) == be64(b[1:]) && d.reader.byteOffset == off+9)
	}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}

//@ contract Encoder.WriteNil
//@ prop C08 C09 C12
func spec_Encoder_WriteNil(buf []byte, off uint32, failed bool, k int) {
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNil()
	s := NewSizer()
	s.WriteNil()
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {
		gvEnsures("the nil marker", n == 1 && buf[off] == 0xc0)
		d := decoderAt(buf, off, false)
		isNil, err := d.IsNextNil()
		gvEnsures("reads back", err == nil && isNil && d.reader.byteOffset == off+1)
	}
}

//@ contract Decoder.IsNextNil
//@ prop C11 C13
func spec_Decoder_IsNextNil(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	isNil, err := d.IsNextNil()
	have := !failed && int(off) < len(buf)
	gvEnsures("an error exactly when nothing can be read", (err == nil) == have && (d.Err() == nil) == have)
	if have {
		gvEnsures("true exactly for the nil marker", isNil == (buf[off] == 0xc0))
		gvEnsures("the marker is consumed, anything else is left", isNil && d.reader.byteOffset == off+1 || !isNil && d.reader.byteOffset == off)
	} else {
		gvEnsures("no answer, no movement", !isNil && d.reader.byteOffset == off)
	}
}
""")
# headers
for N,ref in (("Array","refArr"),("Map","refMap")):
    out.append(f"""
//@ contract Encoder.Write{N}Size
//@ prop C08 C09 C12
func spec_Encoder_Write{N}Size(buf []byte, off uint32, failed bool, v uint32, k int) {{
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.Write{N}Size(v)
	s := NewSizer()
	s.Write{N}Size(v)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {{
		r := {ref}(buf[off:])
		gvEnsures("the count in MessagePack format", r.ok && r.n == int(n) && r.count == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.Read{N}Size()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}}
}}

//@ contract Decoder.Read{N}Size
//@ prop C11
func spec_Decoder_Read{N}Size(buf []byte, off uint32, failed bool) {{
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.Read{N}Size()
	r := {ref}(buf[off:])
	isNil := int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("success exactly on a complete header or nil", (err == nil) == (!failed && (r.ok || isNil)))
	gvEnsures("reading past the end latches the error", (d.Err() != nil) == (failed || r.cut))
	if err == nil {{
		gvEnsures("the count", r.ok && uint64(v) == r.count && int(d.reader.byteOffset) == int(off)+r.n || isNil && v == 0 && d.reader.byteOffset == off+1)
	}}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}}
""")
# strings and bytes
def strs(N,t,ref,low,conv,get):
    return f"""
//@ contract Encoder.Write{N}
//@ prop C08 C09 C12
func spec_Encoder_Write{N}(buf []byte, off uint32, failed bool, v {t}, k int) {{
	e := encoderAt(buf, off, failed)
	gvRequires(len(v) < 1<<32-5){low}
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.Write{N}(v)
	s := NewSizer()
	s.Write{N}(v)
	n := s.Len()
	gvEnsures("the size is that of the content and a prefix", int(n) > len(v) && int(n) <= len(v)+5)
	if wrote(e, buf, old, off, failed, n, k) {{
		r := {ref}(buf[off:])
		gvEnsures("the length in MessagePack format", r.ok && r.count == uint64(len(v)) && r.n+len(v) == int(n))
		if 0 <= k && k < len(v) {{
			gvEnsures("the content", buf[int(off)+r.n+k] == v[k])
		}}
		d := decoderAt(buf, off, false)
		w, err := d.Read{N}()
		gvEnsures("reads back", err == nil && len(w) == len(v) && d.reader.byteOffset == off+n)
		if 0 <= k && k < len(v) {{
			gvEnsures("reads back the content", w[k] == v[k])
		}}
	}}
}}
"""
out.append(strs("String","string","refStr","","","").replace("",""))
out.append(strs("ByteArray","[]byte","refBin","\n\tgvRequires(gvUnaliased(buf, v))","",""))
out.append("""
//@ contract Encoder.WriteNillableString
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableString(buf []byte, off uint32, failed bool, v *string, k int) {
	e := encoderAt(buf, off, failed)
	gvRequires(v == nil || len(*v) < 1<<32-5)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableString(v)
	s := NewSizer()
	s.WriteNillableString(v)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableString()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && d.reader.byteOffset == off+n)
		if v != nil && w != nil {
			gvEnsures("the same length", len(*v) == len(*w))
			if 0 <= k && k < len(*v) {
				gvEnsures("the same content", (*v)[k] == (*w)[k])
			}
		}
	}
}

//@ contract Encoder.WriteNillableByteArray
//@ prop C08 C09 C12
func spec_Encoder_WriteNillableByteArray(buf []byte, off uint32, failed bool, v []byte, k int) {
	e := encoderAt(buf, off, failed)
	gvRequires(len(v) < 1<<32-5)
	gvRequires(gvUnaliased(buf, v))
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillableByteArray(v)
	s := NewSizer()
	s.WriteNillableByteArray(v)
	n := s.Len()
	if wrote(e, buf, old, off, failed, n, k) {
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillableByteArray()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && len(w) == len(v) && d.reader.byteOffset == off+n)
		if 0 <= k && k < len(v) {
			gvEnsures("the same content", v[k] == w[k])
		}
	}
}

// The string reader also takes array prefixes as a string length, and the byte reader takes small
// array prefixes and nil: allowed, not required.

//@ contract Decoder.ReadString
//@ prop C11
func spec_Decoder_ReadString(buf []byte, off uint32, failed bool, k int) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadString()
	b := buf[off:]
	r := refStr(b)
	if !r.ok {
		a := refArr(b)
		if err == nil && a.ok {
			r = a
		}
	}
	if err == nil {
		gvEnsures("success only on a complete string", !failed && r.ok && r.count <= uint64(len(b)-r.n))
		gvEnsures("exactly the announced bytes", uint64(len(v)) == r.count && int(d.reader.byteOffset) == int(off)+r.n+len(v))
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == b[r.n+k])
		}
	} else {
		gvEnsures("a complete string is read", failed || !r.ok || r.count > uint64(len(b)-r.n))
		if r.ok || r.cut || failed {
			gvEnsures("reading past the end latches the error", d.Err() != nil)
		}
	}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}

//@ contract Decoder.ReadNillableString
//@ prop C11
func spec_Decoder_ReadNillableString(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	q, err := d.ReadNillableString()
	if err == nil && q == nil {
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}
	g := decoderAt(buf, off, failed)
	v, err2 := g.ReadString()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *q == v) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}

//@ contract Decoder.ReadByteArray
//@ prop C11
func spec_Decoder_ReadByteArray(buf []byte, off uint32, failed bool, k int) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadByteArray()
	b := buf[off:]
	r := refBin(b)
	if !r.ok && err == nil && len(b) > 0 && b[0]>>4 == 9 {
		r = refArr(b)
	}
	if !r.ok && err == nil && len(b) > 0 && b[0] == 0xc0 {
		r = header{0, 1, true, false}
	}
	if err == nil {
		gvEnsures("success only on complete bytes", !failed && r.ok && r.count <= uint64(len(b)-r.n))
		gvEnsures("exactly the announced bytes", uint64(len(v)) == r.count && int(d.reader.byteOffset) == int(off)+r.n+len(v))
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == b[r.n+k])
		}
	} else {
		gvEnsures("complete bytes are read", failed || !r.ok || r.count > uint64(len(b)-r.n))
		if r.ok || r.cut || failed {
			gvEnsures("reading past the end latches the error", d.Err() != nil)
		}
	}
	gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
}

//@ contract Decoder.ReadNillableByteArray
//@ prop C11
func spec_Decoder_ReadNillableByteArray(buf []byte, off uint32, failed bool) {
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillableByteArray()
	g := decoderAt(buf, off, failed)
	w, err2 := g.ReadByteArray()
	if !failed && int(off) < len(buf) && buf[off] == 0xc0 {
		gvEnsures("nil for the nil marker", err == nil && v == nil && d.reader.byteOffset == off+1)
		return
	}
	gvEnsures("as the plain reader otherwise", (err == nil) == (err2 == nil) && len(v) == len(w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
	gvEnsures("the same content", gvBytesEq(v, w))
}
""")
open("/verif/contracts/msgpack/scalars.go","w").write("".join(out))
