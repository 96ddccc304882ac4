#!/usr/bin/env python3
"""Writes the C20 contracts (handler tables) for the connection handler and the host instance."""
import os
K=[("RequestResponse","RR"),("FireAndForget","RFNF"),("RequestStream","RS"),("RequestChannel","RC")]
T='''
//@ invariant (*{R}).Set{N}Handler#0
func inv_Set{N}Handler(i *{R}, index uint32) (bool, int) {{
	n, n0 := len(i.imported{F}), len(table{F})
	return n >= n0 && (n == n0 || n <= int(index)+1) && n < 1<<32 &&
		(tableK < 0 || tableK >= n || (tableK < n0 && gvSameFunc(i.imported{F}[tableK], table{F}[tableK])) || (tableK >= n0 && i.imported{F}[tableK] == nil)), int(index) + 1 - len(i.imported{F})
}}

//@ contract (*{R}).Set{N}Handler
//@ prop C20
func spec_Set{N}Handler(i *{R}, index uint32, handler invoke.{N}Handler, hs []invoke.{N}Handler, k int) {{
	gvRequires(i != nil && len(hs) < 1<<32 && index < 1<<32-1)
	gvRequires(gvSymbolic() || index < 1<<22) // a concrete run has to append that often
	i.imported{F} = hs
	n := len(hs)
	table{F}, tableK = hs, k
	gvModifies(&i.imported{F}, i.imported{F}[:cap(i.imported{F})])
	i.Set{N}Handler(index, handler)
	gvEnsures("the table reaches the index", int(index) < len(i.imported{F}))
	gvEnsures("the index returns the handler", gvSameFunc(i.get{N}Handler(index), handler))
	if 0 <= k && k < 1<<32 && k != int(index) {{
		h := i.get{N}Handler(uint32(k))
		if k < n {{
			gvEnsures("every other index keeps its handler", gvSameFunc(h, hs[k]))
		}} else {{
			gvEnsures("an index never set returns none", h == nil)
		}}
	}}
}}

//@ contract (*{R}).get{N}Handler
//@ prop C20
func spec_get{N}Handler(i *{R}, index uint32, hs []invoke.{N}Handler) {{
	gvRequires(i != nil && len(hs) < 1<<32)
	i.imported{F} = hs
	gvModifies()
	h := i.get{N}Handler(index)
	if int(index) < len(hs) {{
		gvEnsures("the handler set there", gvSameFunc(h, hs[index]))
	}} else {{
		gvEnsures("none past the end", h == nil)
	}}
}}
'''
root=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"contracts")
for R,pkg,d in (("Handler","handler","handler"),("Instance","host","transport/wasmrs/host")):
    s="package %s\n\nimport \"github.com/nanobus/iota/go/invoke\"\n\n// Generated by gen/handler_tables.py.\n\nvar tableK int\n"%pkg
    for N,F in K: s+="var table%s []invoke.%sHandler\n"%(F,N)
    for N,F in K: s+=T.format(R=R,N=N,F=F)
    p=os.path.join(root,d); os.makedirs(p,exist_ok=True)
    open(os.path.join(p,"tables.go"),"w").write(s)
