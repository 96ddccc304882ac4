package invoke

// SpecHandlers makes the given handlers the registered ones.
func SpecHandlers(rr []RequestResponseHandler, fnf []FireAndForgetHandler, rs []RequestStreamHandler, rc []RequestChannelHandler) {
	gvRequires(len(rr) < 1<<32 && len(fnf) < 1<<32 && len(rs) < 1<<32 && len(rc) < 1<<32)
	requestResponseHandlers, fireAndForgetHandlers, requestStreamHandlers, requestChannelHandlers = rr, fnf, rs, rc
}
