# writes contracts/msgpack/ints.go
ints=[("Int8","int8"),("Int16","int16"),("Int32","int32"),("Int64","int64"),("Uint8","uint8"),("Uint16","uint16"),("Uint32","uint32"),("Uint64","uint64")]
out=["package msgpack\n","// Integers of every width.\n"]
for N,t in ints:
    sg = N.startswith("Int")
    neg = "v < 0" if sg else "false"
    out.append(f"""
//@ contract Encoder.Write{N}
//@ prop C08 C09 C12
func spec_Encoder_Write{N}(buf []byte, off uint32, failed bool, v {t}, k int) {{
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.Write{N}(v)
	s := NewSizer()
	s.Write{N}(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {{
		r := refInt(buf[off:])
		gvEnsures("the number in MessagePack format", r.ok && r.n == int(n) && r.neg == ({neg}) && r.bits == uint64(v))
		d := decoderAt(buf, off, false)
		w, err := d.Read{N}()
		gvEnsures("reads back", err == nil && w == v && d.reader.byteOffset == off+n)
	}}
}}

//@ contract Encoder.WriteNillable{N}
//@ prop C08 C09 C12
func spec_Encoder_WriteNillable{N}(buf []byte, off uint32, failed bool, v *{t}, k int) {{
	e := encoderAt(buf, off, failed)
	old := gvOldBytes(buf)
	gvModifies(e, buf[off:])
	e.WriteNillable{N}(v)
	s := NewSizer()
	s.WriteNillable{N}(v)
	n := s.Len()
	gvEnsures("1 to 9 bytes", n >= 1 && n <= 9)
	if wrote(e, buf, old, off, failed, n, k) {{
		gvEnsures("nil is the nil marker", (v == nil) == (buf[off] == 0xc0))
		d := decoderAt(buf, off, false)
		w, err := d.ReadNillable{N}()
		gvEnsures("reads back", err == nil && (w == nil) == (v == nil) && (v == nil || *w == *v) && d.reader.byteOffset == off+n)
	}}
}}

//@ contract Decoder.Read{N}
//@ prop C10 C11
func spec_Decoder_Read{N}(buf []byte, off uint32, failed bool) {{
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.Read{N}()
	r := refInt(buf[off:])
	if err == nil {{
		gvEnsures("success only on a complete integer", !failed && r.ok)
		gvEnsures("exactly the encoded number", r.bits == uint64(v) && r.neg == ({neg}))
		gvEnsures("stands behind the number", int(d.reader.byteOffset) == int(off)+r.n)
	}} else {{
		gvEnsures("stays within the buffer", d.reader.byteOffset >= off && int(d.reader.byteOffset) <= len(buf))
	}}
	if !failed && r.ok && {"!r.uns" if sg else "true"} && {"int64(r.bits) == int64("+t+"(r.bits))" if sg else "!r.neg && r.bits == uint64("+t+"(r.bits))"} {{
		gvEnsures("a number that fits is read", err == nil)
	}}
	gvEnsures("a truncated number latches the error", d.Err() != nil == (failed || r.cut && {"(len(buf) == int(off) || buf[off] >= 0xd0)" if sg else "true"}))
}}

//@ contract Decoder.ReadNillable{N}
//@ prop C10 C11
func spec_Decoder_ReadNillable{N}(buf []byte, off uint32, failed bool) {{
	d := decoderAt(buf, off, failed)
	gvModifies(d)
	v, err := d.ReadNillable{N}()
	if err == nil && v == nil {{
		gvEnsures("nil only for the nil marker", !failed && int(off) < len(buf) && buf[off] == 0xc0 && d.reader.byteOffset == off+1)
		return
	}}
	g := decoderAt(buf, off, failed)
	w, err2 := g.Read{N}()
	nilHere := !failed && int(off) < len(buf) && buf[off] == 0xc0
	gvEnsures("as the plain reader otherwise", !nilHere && (err == nil) == (err2 == nil) && (err != nil || *v == w) && d.reader.byteOffset == g.reader.byteOffset && (d.Err() == nil) == (g.Err() == nil))
}}
""")
open("/verif/contracts/msgpack/ints.go","w").write("".join(out))
