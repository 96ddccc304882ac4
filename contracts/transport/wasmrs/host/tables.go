package host

import "github.com/nanobus/iota/go/invoke"

// Generated by gen/handler_tables.py.

var tableK int
var tableRR []invoke.RequestResponseHandler
var tableRFNF []invoke.FireAndForgetHandler
var tableRS []invoke.RequestStreamHandler
var tableRC []invoke.RequestChannelHandler

//@ invariant (*Instance).SetRequestResponseHandler#0
func inv_SetRequestResponseHandler(i *Instance, index uint32) (bool, int) {
	n, n0 := len(i.importedRR), len(tableRR)
	return n >= n0 && (n == n0 || n <= int(index)+1) && n < 1<<32 &&
		(tableK < 0 || tableK >= n || (tableK < n0 && gvSameFunc(i.importedRR[tableK], tableRR[tableK])) || (tableK >= n0 && i.importedRR[tableK] == nil)), int(index) + 1 - len(i.importedRR)
}

//@ contract (*Instance).SetRequestResponseHandler
//@ prop C20
func spec_SetRequestResponseHandler(i *Instance, index uint32, handler invoke.RequestResponseHandler, hs []invoke.RequestResponseHandler, k int) {
	gvRequires(i != nil && len(hs) < 1<<32 && index < 1<<32-1)
	gvRequires(gvSymbolic() || index < 1<<22) // a concrete run has to append that often
	i.importedRR = hs
	n := len(hs)
	tableRR, tableK = hs, k
	gvModifies(&i.importedRR, i.importedRR[:cap(i.importedRR)])
	i.SetRequestResponseHandler(index, handler)
	gvEnsures("the table reaches the index", int(index) < len(i.importedRR))
	gvEnsures("the index returns the handler", gvSameFunc(i.getRequestResponseHandler(index), handler))
	if 0 <= k && k < 1<<32 && k != int(index) {
		h := i.getRequestResponseHandler(uint32(k))
		if k < n {
			gvEnsures("every other index keeps its handler", gvSameFunc(h, hs[k]))
		} else {
			gvEnsures("an index never set returns none", h == nil)
		}
	}
}

//@ contract (*Instance).getRequestResponseHandler
//@ prop C20
func spec_getRequestResponseHandler(i *Instance, index uint32, hs []invoke.RequestResponseHandler) {
	gvRequires(i != nil && len(hs) < 1<<32)
	i.importedRR = hs
	gvModifies()
	h := i.getRequestResponseHandler(index)
	if int(index) < len(hs) {
		gvEnsures("the handler set there", gvSameFunc(h, hs[index]))
	} else {
		gvEnsures("none past the end", h == nil)
	}
}

//@ invariant (*Instance).SetFireAndForgetHandler#0
func inv_SetFireAndForgetHandler(i *Instance, index uint32) (bool, int) {
	n, n0 := len(i.importedRFNF), len(tableRFNF)
	return n >= n0 && (n == n0 || n <= int(index)+1) && n < 1<<32 &&
		(tableK < 0 || tableK >= n || (tableK < n0 && gvSameFunc(i.importedRFNF[tableK], tableRFNF[tableK])) || (tableK >= n0 && i.importedRFNF[tableK] == nil)), int(index) + 1 - len(i.importedRFNF)
}

//@ contract (*Instance).SetFireAndForgetHandler
//@ prop C20
func spec_SetFireAndForgetHandler(i *Instance, index uint32, handler invoke.FireAndForgetHandler, hs []invoke.FireAndForgetHandler, k int) {
	gvRequires(i != nil && len(hs) < 1<<32 && index < 1<<32-1)
	gvRequires(gvSymbolic() || index < 1<<22) // a concrete run has to append that often
	i.importedRFNF = hs
	n := len(hs)
	tableRFNF, tableK = hs, k
	gvModifies(&i.importedRFNF, i.importedRFNF[:cap(i.importedRFNF)])
	i.SetFireAndForgetHandler(index, handler)
	gvEnsures("the table reaches the index", int(index) < len(i.importedRFNF))
	gvEnsures("the index returns the handler", gvSameFunc(i.getFireAndForgetHandler(index), handler))
	if 0 <= k && k < 1<<32 && k != int(index) {
		h := i.getFireAndForgetHandler(uint32(k))
		if k < n {
			gvEnsures("every other index keeps its handler", gvSameFunc(h, hs[k]))
		} else {
			gvEnsures("an index never set returns none", h == nil)
		}
	}
}

//@ contract (*Instance).getFireAndForgetHandler
//@ prop C20
func spec_getFireAndForgetHandler(i *Instance, index uint32, hs []invoke.FireAndForgetHandler) {
	gvRequires(i != nil && len(hs) < 1<<32)
	i.importedRFNF = hs
	gvModifies()
	h := i.getFireAndForgetHandler(index)
	if int(index) < len(hs) {
		gvEnsures("the handler set there", gvSameFunc(h, hs[index]))
	} else {
		gvEnsures("none past the end", h == nil)
	}
}

//@ invariant (*Instance).SetRequestStreamHandler#0
func inv_SetRequestStreamHandler(i *Instance, index uint32) (bool, int) {
	n, n0 := len(i.importedRS), len(tableRS)
	return n >= n0 && (n == n0 || n <= int(index)+1) && n < 1<<32 &&
		(tableK < 0 || tableK >= n || (tableK < n0 && gvSameFunc(i.importedRS[tableK], tableRS[tableK])) || (tableK >= n0 && i.importedRS[tableK] == nil)), int(index) + 1 - len(i.importedRS)
}

//@ contract (*Instance).SetRequestStreamHandler
//@ prop C20
func spec_SetRequestStreamHandler(i *Instance, index uint32, handler invoke.RequestStreamHandler, hs []invoke.RequestStreamHandler, k int) {
	gvRequires(i != nil && len(hs) < 1<<32 && index < 1<<32-1)
	gvRequires(gvSymbolic() || index < 1<<22) // a concrete run has to append that often
	i.importedRS = hs
	n := len(hs)
	tableRS, tableK = hs, k
	gvModifies(&i.importedRS, i.importedRS[:cap(i.importedRS)])
	i.SetRequestStreamHandler(index, handler)
	gvEnsures("the table reaches the index", int(index) < len(i.importedRS))
	gvEnsures("the index returns the handler", gvSameFunc(i.getRequestStreamHandler(index), handler))
	if 0 <= k && k < 1<<32 && k != int(index) {
		h := i.getRequestStreamHandler(uint32(k))
		if k < n {
			gvEnsures("every other index keeps its handler", gvSameFunc(h, hs[k]))
		} else {
			gvEnsures("an index never set returns none", h == nil)
		}
	}
}

//@ contract (*Instance).getRequestStreamHandler
//@ prop C20
func spec_getRequestStreamHandler(i *Instance, index uint32, hs []invoke.RequestStreamHandler) {
	gvRequires(i != nil && len(hs) < 1<<32)
	i.importedRS = hs
	gvModifies()
	h := i.getRequestStreamHandler(index)
	if int(index) < len(hs) {
		gvEnsures("the handler set there", gvSameFunc(h, hs[index]))
	} else {
		gvEnsures("none past the end", h == nil)
	}
}

//@ invariant (*Instance).SetRequestChannelHandler#0
func inv_SetRequestChannelHandler(i *Instance, index uint32) (bool, int) {
	n, n0 := len(i.importedRC), len(tableRC)
	return n >= n0 && (n == n0 || n <= int(index)+1) && n < 1<<32 &&
		(tableK < 0 || tableK >= n || (tableK < n0 && gvSameFunc(i.importedRC[tableK], tableRC[tableK])) || (tableK >= n0 && i.importedRC[tableK] == nil)), int(index) + 1 - len(i.importedRC)
}

//@ contract (*Instance).SetRequestChannelHandler
//@ prop C20
func spec_SetRequestChannelHandler(i *Instance, index uint32, handler invoke.RequestChannelHandler, hs []invoke.RequestChannelHandler, k int) {
	gvRequires(i != nil && len(hs) < 1<<32 && index < 1<<32-1)
	gvRequires(gvSymbolic() || index < 1<<22) // a concrete run has to append that often
	i.importedRC = hs
	n := len(hs)
	tableRC, tableK = hs, k
	gvModifies(&i.importedRC, i.importedRC[:cap(i.importedRC)])
	i.SetRequestChannelHandler(index, handler)
	gvEnsures("the table reaches the index", int(index) < len(i.importedRC))
	gvEnsures("the index returns the handler", gvSameFunc(i.getRequestChannelHandler(index), handler))
	if 0 <= k && k < 1<<32 && k != int(index) {
		h := i.getRequestChannelHandler(uint32(k))
		if k < n {
			gvEnsures("every other index keeps its handler", gvSameFunc(h, hs[k]))
		} else {
			gvEnsures("an index never set returns none", h == nil)
		}
	}
}

//@ contract (*Instance).getRequestChannelHandler
//@ prop C20
func spec_getRequestChannelHandler(i *Instance, index uint32, hs []invoke.RequestChannelHandler) {
	gvRequires(i != nil && len(hs) < 1<<32)
	i.importedRC = hs
	gvModifies()
	h := i.getRequestChannelHandler(index)
	if int(index) < len(hs) {
		gvEnsures("the handler set there", gvSameFunc(h, hs[index]))
	} else {
		gvEnsures("none past the end", h == nil)
	}
}
