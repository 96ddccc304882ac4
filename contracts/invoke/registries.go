package invoke

// Generated by gen/invoke_registries.py.

var importN, importO string
var importK int

func isInfo(i HandlerInfo, namespace, operation string) bool {
	return i.Namespace == namespace && i.Operation == operation
}

//@ contract ExportRequestResponse
//@ prop C19
func spec_ExportRequestResponse(namespace, operation string, handler RequestResponseHandler, hs []RequestResponseHandler, is []HandlerInfo, k int) {
	requestResponseHandlers, requestResponseHandlerInfo = hs, is
	gvRequires(len(hs) == len(is) && len(hs) < 1<<32-1)
	n := len(hs)
	gvModifies(&requestResponseHandlers, &requestResponseHandlerInfo, requestResponseHandlers[n:cap(requestResponseHandlers)], requestResponseHandlerInfo[n:cap(requestResponseHandlerInfo)])
	ExportRequestResponse(namespace, operation, handler)
	gvEnsures("one more handler and one more description", len(requestResponseHandlers) == n+1 && len(requestResponseHandlerInfo) == n+1)
	gvEnsures("the handler is returned for the id it got", gvSameFunc(GetRequestResponseHandler(uint32(n)), handler))
	gvEnsures("its description is listed at that id", isInfo(GetOperations().Exported.RequestResponse[n], namespace, operation))
	if 0 <= k && k < n {
		gvEnsures("earlier handlers stay", gvSameFunc(GetRequestResponseHandler(uint32(k)), hs[k]))
		gvEnsures("earlier descriptions stay", isInfo(requestResponseHandlerInfo[k], is[k].Namespace, is[k].Operation))
	}
}

//@ contract GetRequestResponseHandler
//@ prop C19
func spec_GetRequestResponseHandler(id uint32, hs []RequestResponseHandler) {
	gvRequires(len(hs) < 1<<32)
	requestResponseHandlers = hs
	gvModifies()
	h := GetRequestResponseHandler(id)
	if int(id) < len(requestResponseHandlers) {
		gvEnsures("the handler at that id", gvSameFunc(h, requestResponseHandlers[id]))
	} else {
		gvEnsures("none out of range", h == nil)
	}
}

//@ invariant ImportRequestResponse#0
func inv_ImportRequestResponse(rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(requestResponseImports) &&
		(importK > rangeindex || !isInfo(requestResponseImports[importK], importN, importO))
}

//@ contract ImportRequestResponse
//@ prop C19
func spec_ImportRequestResponse(namespace, operation string, is []HandlerInfo, k int) {
	requestResponseImports = is
	n := len(is)
	gvRequires(n < 1<<32-1 && 0 <= k && (k < n || n == 0))
	importN, importO, importK = namespace, operation, k
	if n == 0 {
		importK = 1 << 60
	}
	gvModifies(&requestResponseImports, requestResponseImports[n:cap(requestResponseImports)])
	id := ImportRequestResponse(namespace, operation)
	gvEnsures("the id belongs to that operation", int(id) < len(requestResponseImports) && isInfo(requestResponseImports[id], namespace, operation))
	gvEnsures("listed at that id", isInfo(GetOperations().Imported.RequestResponse[id], namespace, operation))
	if k < n {
		gvEnsures("earlier imports stay", isInfo(requestResponseImports[k], is[k].Namespace, is[k].Operation))
	}
	if int(id) < n {
		gvEnsures("nothing is added for a known operation", len(requestResponseImports) == n)
		if k < int(id) {
			gvEnsures("the first id it got", !isInfo(is[k], namespace, operation))
		}
	} else {
		gvEnsures("a new operation gets the next id", int(id) == n && len(requestResponseImports) == n+1)
		gvEnsures("only if it was not there", k >= n || !isInfo(is[k], namespace, operation))
	}
}

//@ contract ExportFireAndForget
//@ prop C19
func spec_ExportFireAndForget(namespace, operation string, handler FireAndForgetHandler, hs []FireAndForgetHandler, is []HandlerInfo, k int) {
	fireAndForgetHandlers, fireAndForgetHandlerInfo = hs, is
	gvRequires(len(hs) == len(is) && len(hs) < 1<<32-1)
	n := len(hs)
	gvModifies(&fireAndForgetHandlers, &fireAndForgetHandlerInfo, fireAndForgetHandlers[n:cap(fireAndForgetHandlers)], fireAndForgetHandlerInfo[n:cap(fireAndForgetHandlerInfo)])
	ExportFireAndForget(namespace, operation, handler)
	gvEnsures("one more handler and one more description", len(fireAndForgetHandlers) == n+1 && len(fireAndForgetHandlerInfo) == n+1)
	gvEnsures("the handler is returned for the id it got", gvSameFunc(GetFireAndForgetHandler(uint32(n)), handler))
	gvEnsures("its description is listed at that id", isInfo(GetOperations().Exported.FireAndForget[n], namespace, operation))
	if 0 <= k && k < n {
		gvEnsures("earlier handlers stay", gvSameFunc(GetFireAndForgetHandler(uint32(k)), hs[k]))
		gvEnsures("earlier descriptions stay", isInfo(fireAndForgetHandlerInfo[k], is[k].Namespace, is[k].Operation))
	}
}

//@ contract GetFireAndForgetHandler
//@ prop C19
func spec_GetFireAndForgetHandler(id uint32, hs []FireAndForgetHandler) {
	gvRequires(len(hs) < 1<<32)
	fireAndForgetHandlers = hs
	gvModifies()
	h := GetFireAndForgetHandler(id)
	if int(id) < len(fireAndForgetHandlers) {
		gvEnsures("the handler at that id", gvSameFunc(h, fireAndForgetHandlers[id]))
	} else {
		gvEnsures("none out of range", h == nil)
	}
}

//@ invariant ImportFireAndForget#0
func inv_ImportFireAndForget(rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(requestFNFImports) &&
		(importK > rangeindex || !isInfo(requestFNFImports[importK], importN, importO))
}

//@ contract ImportFireAndForget
//@ prop C19
func spec_ImportFireAndForget(namespace, operation string, is []HandlerInfo, k int) {
	requestFNFImports = is
	n := len(is)
	gvRequires(n < 1<<32-1 && 0 <= k && (k < n || n == 0))
	importN, importO, importK = namespace, operation, k
	if n == 0 {
		importK = 1 << 60
	}
	gvModifies(&requestFNFImports, requestFNFImports[n:cap(requestFNFImports)])
	id := ImportFireAndForget(namespace, operation)
	gvEnsures("the id belongs to that operation", int(id) < len(requestFNFImports) && isInfo(requestFNFImports[id], namespace, operation))
	gvEnsures("listed at that id", isInfo(GetOperations().Imported.FireAndForget[id], namespace, operation))
	if k < n {
		gvEnsures("earlier imports stay", isInfo(requestFNFImports[k], is[k].Namespace, is[k].Operation))
	}
	if int(id) < n {
		gvEnsures("nothing is added for a known operation", len(requestFNFImports) == n)
		if k < int(id) {
			gvEnsures("the first id it got", !isInfo(is[k], namespace, operation))
		}
	} else {
		gvEnsures("a new operation gets the next id", int(id) == n && len(requestFNFImports) == n+1)
		gvEnsures("only if it was not there", k >= n || !isInfo(is[k], namespace, operation))
	}
}

//@ contract ExportRequestStream
//@ prop C19
func spec_ExportRequestStream(namespace, operation string, handler RequestStreamHandler, hs []RequestStreamHandler, is []HandlerInfo, k int) {
	requestStreamHandlers, requestStreamHandlerInfo = hs, is
	gvRequires(len(hs) == len(is) && len(hs) < 1<<32-1)
	n := len(hs)
	gvModifies(&requestStreamHandlers, &requestStreamHandlerInfo, requestStreamHandlers[n:cap(requestStreamHandlers)], requestStreamHandlerInfo[n:cap(requestStreamHandlerInfo)])
	ExportRequestStream(namespace, operation, handler)
	gvEnsures("one more handler and one more description", len(requestStreamHandlers) == n+1 && len(requestStreamHandlerInfo) == n+1)
	gvEnsures("the handler is returned for the id it got", gvSameFunc(GetRequestStreamHandler(uint32(n)), handler))
	gvEnsures("its description is listed at that id", isInfo(GetOperations().Exported.RequestStream[n], namespace, operation))
	if 0 <= k && k < n {
		gvEnsures("earlier handlers stay", gvSameFunc(GetRequestStreamHandler(uint32(k)), hs[k]))
		gvEnsures("earlier descriptions stay", isInfo(requestStreamHandlerInfo[k], is[k].Namespace, is[k].Operation))
	}
}

//@ contract GetRequestStreamHandler
//@ prop C19
func spec_GetRequestStreamHandler(id uint32, hs []RequestStreamHandler) {
	gvRequires(len(hs) < 1<<32)
	requestStreamHandlers = hs
	gvModifies()
	h := GetRequestStreamHandler(id)
	if int(id) < len(requestStreamHandlers) {
		gvEnsures("the handler at that id", gvSameFunc(h, requestStreamHandlers[id]))
	} else {
		gvEnsures("none out of range", h == nil)
	}
}

//@ invariant ImportRequestStream#0
func inv_ImportRequestStream(rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(requestStreamImports) &&
		(importK > rangeindex || !isInfo(requestStreamImports[importK], importN, importO))
}

//@ contract ImportRequestStream
//@ prop C19
func spec_ImportRequestStream(namespace, operation string, is []HandlerInfo, k int) {
	requestStreamImports = is
	n := len(is)
	gvRequires(n < 1<<32-1 && 0 <= k && (k < n || n == 0))
	importN, importO, importK = namespace, operation, k
	if n == 0 {
		importK = 1 << 60
	}
	gvModifies(&requestStreamImports, requestStreamImports[n:cap(requestStreamImports)])
	id := ImportRequestStream(namespace, operation)
	gvEnsures("the id belongs to that operation", int(id) < len(requestStreamImports) && isInfo(requestStreamImports[id], namespace, operation))
	gvEnsures("listed at that id", isInfo(GetOperations().Imported.RequestStream[id], namespace, operation))
	if k < n {
		gvEnsures("earlier imports stay", isInfo(requestStreamImports[k], is[k].Namespace, is[k].Operation))
	}
	if int(id) < n {
		gvEnsures("nothing is added for a known operation", len(requestStreamImports) == n)
		if k < int(id) {
			gvEnsures("the first id it got", !isInfo(is[k], namespace, operation))
		}
	} else {
		gvEnsures("a new operation gets the next id", int(id) == n && len(requestStreamImports) == n+1)
		gvEnsures("only if it was not there", k >= n || !isInfo(is[k], namespace, operation))
	}
}

//@ contract ExportRequestChannel
//@ prop C19
func spec_ExportRequestChannel(namespace, operation string, handler RequestChannelHandler, hs []RequestChannelHandler, is []HandlerInfo, k int) {
	requestChannelHandlers, requestChannelHandlerInfo = hs, is
	gvRequires(len(hs) == len(is) && len(hs) < 1<<32-1)
	n := len(hs)
	gvModifies(&requestChannelHandlers, &requestChannelHandlerInfo, requestChannelHandlers[n:cap(requestChannelHandlers)], requestChannelHandlerInfo[n:cap(requestChannelHandlerInfo)])
	ExportRequestChannel(namespace, operation, handler)
	gvEnsures("one more handler and one more description", len(requestChannelHandlers) == n+1 && len(requestChannelHandlerInfo) == n+1)
	gvEnsures("the handler is returned for the id it got", gvSameFunc(GetRequestChannelHandler(uint32(n)), handler))
	gvEnsures("its description is listed at that id", isInfo(GetOperations().Exported.RequestChannel[n], namespace, operation))
	if 0 <= k && k < n {
		gvEnsures("earlier handlers stay", gvSameFunc(GetRequestChannelHandler(uint32(k)), hs[k]))
		gvEnsures("earlier descriptions stay", isInfo(requestChannelHandlerInfo[k], is[k].Namespace, is[k].Operation))
	}
}

//@ contract GetRequestChannelHandler
//@ prop C19
func spec_GetRequestChannelHandler(id uint32, hs []RequestChannelHandler) {
	gvRequires(len(hs) < 1<<32)
	requestChannelHandlers = hs
	gvModifies()
	h := GetRequestChannelHandler(id)
	if int(id) < len(requestChannelHandlers) {
		gvEnsures("the handler at that id", gvSameFunc(h, requestChannelHandlers[id]))
	} else {
		gvEnsures("none out of range", h == nil)
	}
}

//@ invariant ImportRequestChannel#0
func inv_ImportRequestChannel(rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(requestChannelImports) &&
		(importK > rangeindex || !isInfo(requestChannelImports[importK], importN, importO))
}

//@ contract ImportRequestChannel
//@ prop C19
func spec_ImportRequestChannel(namespace, operation string, is []HandlerInfo, k int) {
	requestChannelImports = is
	n := len(is)
	gvRequires(n < 1<<32-1 && 0 <= k && (k < n || n == 0))
	importN, importO, importK = namespace, operation, k
	if n == 0 {
		importK = 1 << 60
	}
	gvModifies(&requestChannelImports, requestChannelImports[n:cap(requestChannelImports)])
	id := ImportRequestChannel(namespace, operation)
	gvEnsures("the id belongs to that operation", int(id) < len(requestChannelImports) && isInfo(requestChannelImports[id], namespace, operation))
	gvEnsures("listed at that id", isInfo(GetOperations().Imported.RequestChannel[id], namespace, operation))
	if k < n {
		gvEnsures("earlier imports stay", isInfo(requestChannelImports[k], is[k].Namespace, is[k].Operation))
	}
	if int(id) < n {
		gvEnsures("nothing is added for a known operation", len(requestChannelImports) == n)
		if k < int(id) {
			gvEnsures("the first id it got", !isInfo(is[k], namespace, operation))
		}
	} else {
		gvEnsures("a new operation gets the next id", int(id) == n && len(requestChannelImports) == n+1)
		gvEnsures("only if it was not there", k >= n || !isInfo(is[k], namespace, operation))
	}
}
