package uuid

func hexDigit(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

func hexValue(c byte) byte {
	switch {
	case '0' <= c && c <= '9':
		return c - '0'
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

// digitAt is where hexadecimal digit i of a plain UUID stands.
func digitAt(i int) int {
	switch {
	case i < 8:
		return i
	case i < 12:
		return i + 1
	case i < 16:
		return i + 2
	case i < 20:
		return i + 3
	}
	return i + 4
}

// refPlain reads the plain form.
func refPlain(b []byte) (u UUID, ok bool) {
	if len(b) != 36 || b[8] != '-' || b[13] != '-' || b[18] != '-' || b[23] != '-' {
		return UUID{}, false
	}
	ok = true
	for i := 0; i < 16; i++ {
		x, y := b[digitAt(2*i)], b[digitAt(2*i+1)]
		ok = ok && hexDigit(x) && hexDigit(y)
		u[i] = hexValue(x)<<4 | hexValue(y)
	}
	return u, ok
}

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

// refText reads any of the four documented forms.
func refText(b []byte) (u UUID, ok bool) {
	switch len(b) {
	case 36:
		return refPlain(b)
	case 45:
		p := "urn:uuid:"
		for i := 0; i < 9; i++ {
			if lower(b[i]) != p[i] {
				return UUID{}, false
			}
		}
		return refPlain(b[9:])
	case 38:
		if b[0] != '{' || b[37] != '}' {
			return UUID{}, false
		}
		return refPlain(b[1:37])
	case 32:
		ok = true
		for i := 0; i < 16; i++ {
			ok = ok && hexDigit(b[2*i]) && hexDigit(b[2*i+1])
			u[i] = hexValue(b[2*i])<<4 | hexValue(b[2*i+1])
		}
		return u, ok
	}
	return UUID{}, false
}

//@ contract xtob
//@ prop C23
//@ use
//@ optional
func spec_xtob(x, y byte) {
	gvModifies()
	v, ok := xtob(x, y)
	gvEnsures("accepts exactly two hexadecimal digits", ok == (hexDigit(x) && hexDigit(y)))
	if ok {
		gvEnsures("their value", v == hexValue(x)<<4|hexValue(y))
	}
}

//@ contract UUID.String
//@ prop C23
func spec_UUID_String(u UUID) {
	gvModifies()
	s := u.String()
	v, ok := refPlain([]byte(s))
	gvEnsures("the plain form of that id", ok && v == u)
	gvEnsures("lower case", gvForall(0, 36, func(i int) bool { return s[i] == lower(s[i]) }))
	w, err := Parse(s)
	gvEnsures("parses back", err == nil && w == u)
}

//@ contract UUID.URN
//@ prop C23
func spec_UUID_URN(u UUID) {
	gvModifies()
	s := u.URN()
	v, ok := refText([]byte(s))
	gvEnsures("the URN form of that id", len(s) == 45 && ok && v == u)
	w, err := Parse(s)
	gvEnsures("parses back", err == nil && w == u)
	w, err = ParseBytes([]byte(s))
	gvEnsures("parses back from bytes", err == nil && w == u)
}

//@ lemma
//@ prop C23
func spec_UUID_marshal(u UUID) {
	b, err := u.MarshalBinary()
	gvEnsures("16 bytes", err == nil && len(b) == 16 && string(b) == string(u[:]))
	var v UUID
	gvEnsures("binary reads back", v.UnmarshalBinary(b) == nil && v == u)
	w, err := FromBytes(b)
	gvEnsures("FromBytes", err == nil && w == u)
	t, err := u.MarshalText()
	gvEnsures("text form", err == nil && len(t) == 36 && string(t) == u.String())
	var x UUID
	gvEnsures("text reads back", x.UnmarshalText(t) == nil && x == u)
}

//@ contract UUID.UnmarshalBinary
//@ prop C23
func spec_UUID_UnmarshalBinary(u *UUID, b []byte) {
	gvRequires(u != nil)
	old := *u
	gvModifies(u)
	err := u.UnmarshalBinary(b)
	gvEnsures("exactly 16 bytes are accepted", (err == nil) == (len(b) == 16))
	if err == nil {
		gvEnsures("those bytes", string(u[:]) == string(b))
	} else {
		gvEnsures("otherwise the id is left alone", *u == old)
	}
}

//@ contract Parse
//@ prop C23
func spec_Parse(s string) {
	v, ok := refText([]byte(s))
	gvModifies()
	u, err := Parse(s)
	gvEnsures("accepts exactly the documented forms", (err == nil) == ok)
	if ok {
		gvEnsures("the id written", u == v)
	}
}

//@ contract ParseBytes
//@ prop C23
func spec_ParseBytes(b []byte) {
	v, ok := refText(b)
	gvModifies()
	u, err := ParseBytes(b)
	gvEnsures("accepts exactly the documented forms", (err == nil) == ok)
	if ok {
		gvEnsures("the id written", u == v)
	}
}

//@ contract UUID.UnmarshalText
//@ prop C23
func spec_UUID_UnmarshalText(u *UUID, b []byte) {
	gvRequires(u != nil)
	old := *u
	v, ok := refText(b)
	gvModifies(u)
	err := u.UnmarshalText(b)
	gvEnsures("accepts exactly the documented forms", (err == nil) == ok)
	if ok {
		gvEnsures("the id written", *u == v)
	} else {
		gvEnsures("otherwise the id is left alone", *u == old)
	}
}
