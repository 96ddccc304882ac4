package frames

// Fragmentation: the pieces are followed through the result in order, with the position reached in
// the original metadata and data. splitPayloads is cut by an invariant over the pieces made so far.

// step is the number of content bytes that the piece starting behind the first p of lenM+lenD carries.
func step(lenM, lenD, max, p int) int {
	if p >= lenM+lenD {
		return 0
	}
	if p >= lenM {
		return lesser(lenD+lenM-p, max-6)
	}
	return lesser(lenM+lenD-p, max-9)
}

// rec_pos is the number of content bytes carried by the first i pieces.
func rec_pos(lenM, lenD, max, i int) int {
	if i <= 0 {
		return 0
	}
	p := rec_pos(lenM, lenD, max, i-1)
	return p + step(lenM, lenD, max, p)
}

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// The call of splitPayloads being looked at.
var splitM, splitD []byte
var splitBase, splitK int

// piece describes fr[base+i]: it carries content bytes lo..hi of md followed by data, and is marked as
// the last one or as followed.
func piece(f Frame, id uint32, md, data []byte, lo, hi int, last, next, complete bool, k int) bool {
	p, ok := f.(*Payload)
	if !ok || p == nil || p.StreamID != id || p.Follows != !last || p.Complete != (last && complete) || p.Next != (last && next) {
		return false
	}
	loM, hiM := lesser(lo, len(md)), lesser(hi, len(md))
	if len(p.Metadata) != hiM-loM || len(p.Data) != (hi-hiM)-(lo-loM) {
		return false
	}
	if 0 <= k && k < len(p.Metadata) && p.Metadata[k] != md[loM+k] {
		return false
	}
	return !(0 <= k && k < len(p.Data)) || p.Data[k] == data[lo-loM+k]
}

//@ invariant splitPayloads#0
func inv_splitPayloads(frames []Frame, streamID uint32, next, complete bool, maxFrameSize uint32, data, metadata []byte) (bool, int) {
	lm, ld, max, k := len(splitM), len(splitD), int(maxFrameSize), splitK
	n := len(frames) - splitBase
	pos := lm + ld - len(metadata) - len(data)
	ok := n >= 0 && pos == rec_pos(lm, ld, max, n) && (n == 0 || pos > 0) &&
		len(metadata) <= lm && len(data) <= ld && (len(metadata) == 0 || len(data) == ld) &&
		gvOffsetIn(metadata, splitM) == lm-len(metadata) && gvOffsetIn(data, splitD) == ld-len(data)
	return ok && gvForall(0, n, func(i int) bool {
		lo, hi := rec_pos(lm, ld, max, i), rec_pos(lm, ld, max, i+1)
		return 0 <= lo && lo < hi && hi <= pos && (lo >= lm || hi-lo <= max-9) && hi-lo <= max-6 &&
			piece(frames[splitBase+i], streamID, splitM, splitD, lo, hi, i == n-1 && pos == lm+ld, next, complete, k)
	}), len(metadata) + len(data)
}

//@ contract splitPayloads
//@ prop
//@ use
//@ optional
func spec_splitPayloads(frames []Frame, streamID uint32, next, complete bool, maxFrameSize uint32, data, metadata []byte, k int) {
	gvRequires(len(frames) == 0 && maxFrameSize >= 10 && maxFrameSize < 1<<24 && len(data)+len(metadata) < 1<<32-9)
	splitM, splitD, splitBase, splitK = metadata, data, len(frames), k
	lm, ld, max := len(metadata), len(data), int(maxFrameSize)
	gvModifies(frames[:cap(frames)])
	fr := splitPayloads(frames, streamID, next, complete, maxFrameSize, data, metadata)
	n := len(fr) - len(frames)
	gvEnsures("at least one piece if there is content", n >= 0 && (n > 0) == (lm+ld > 0))
	gvEnsures("everything is carried", rec_pos(lm, ld, max, n) == lm+ld)
	gvEnsures("every piece carries its share", gvForall(0, n, func(i int) bool {
		lo, hi := rec_pos(lm, ld, max, i), rec_pos(lm, ld, max, i+1)
		return 0 <= lo && lo < hi && hi <= lm+ld && (lo >= lm || hi-lo <= max-9) && hi-lo <= max-6 &&
			piece(fr[len(frames)+i], streamID, metadata, data, lo, hi, i == n-1, next, complete, k)
	}))
}
