package rsocket

func prefixLength(data []byte) int {
	return int(data[0])<<16 | int(data[1])<<8 | int(data[2])
}

//@ contract doSplit
//@ prop C25
func spec_doSplit(data []byte, eof bool) {
	gvModifies()
	advance, token, err := doSplit(data, eof)
	if len(data) >= 3 && prefixLength(data) == 0 {
		gvEnsures("a zero length is refused", err == ErrInvalidFrameLength && advance == 0 && token == nil)
		return
	}
	gvEnsures("nothing else is refused", err == nil)
	if len(data) >= 3 && len(data)-3 >= prefixLength(data) {
		n := 3 + prefixLength(data)
		gvEnsures("a complete frame is consumed, and nothing more", advance == n)
		gvEnsures("exactly the frame is yielded", len(token) == n && gvOffsetIn(token, data) == 0)
	} else {
		gvEnsures("an incomplete frame is left for later", advance == 0 && token == nil)
	}
}

// Two frames one after the other: the second starts where the first ended.
//
//@ lemma
//@ prop C25
func lemma_next_frame(data []byte, eof bool) {
	n, tok, err := doSplit(data, eof)
	gvRequires(err == nil && tok != nil)
	m, tok2, err2 := doSplit(data[n:], eof)
	gvRequires(err2 == nil && tok2 != nil)
	gvEnsures("the frames are adjacent and do not overlap", n == len(tok) && m == len(tok2) && gvOffsetIn(tok2, data) == gvOffsetIn(tok, data)+len(tok))
}
