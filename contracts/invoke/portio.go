package invoke

//@ contract PortIO.Encode
//@ prop C17
func spec_PortIO_Encode(f *PortIO, k int) {
	gvRequires(f != nil && len(f.Port) < 1<<16 && len(f.Data) < 1<<40)
	gvModifies()
	b := f.Encode()
	n := len(f.Port)
	gvEnsures("3 bytes plus name plus data", len(b) == 3+n+len(f.Data))
	gvEnsures("name length", int(b[1])<<8|int(b[2]) == n)
	if 0 <= k && k < n {
		gvEnsures("name", b[3+k] == f.Port[k])
	}
	if 0 <= k && k < len(f.Data) {
		gvEnsures("data", b[3+n+k] == f.Data[k])
	}
	var g PortIO
	err := g.Decode(b)
	gvEnsures("decodes", err == nil)
	gvEnsures("same markers", g.Complete == f.Complete && g.Next == f.Next)
	gvEnsures("same name length", len(g.Port) == n)
	if 0 <= k && k < n {
		gvEnsures("same name", g.Port[k] == f.Port[k])
	}
	gvEnsures("same data", gvBytesEq(g.Data, f.Data))
}

//@ contract PortIO.Decode
//@ prop C17
func spec_PortIO_Decode(f *PortIO, data []byte, k int) {
	gvRequires(f != nil)
	gvModifies(f)
	err := f.Decode(data)
	n := -1
	if len(data) >= 3 {
		n = int(data[1])<<8 | int(data[2])
	}
	gvEnsures("accepted exactly if complete", (err == nil) == (n >= 0 && len(data) >= 3+n))
	if err == nil {
		gvEnsures("name length", len(f.Port) == n)
		if 0 <= k && k < n {
			gvEnsures("name", f.Port[k] == data[3+k])
		}
		gvEnsures("the rest is data", gvBytesEq(f.Data, data[3+n:]))
	}
}

//@ lemma
//@ prop C17
func spec_PortIO_flags(data []byte) {
	gvRequires(len(data) == 3 && data[1] == 0 && data[2] == 0 && data[0] < 4)
	var f, g PortIO
	gvEnsures("decodes", f.Decode(data) == nil)
	b := f.Encode()
	gvEnsures("decodes again", g.Decode(b) == nil)
	gvEnsures("markers are independent of each other", b[0] == data[0] && g.Complete == f.Complete && g.Next == f.Next)
}
