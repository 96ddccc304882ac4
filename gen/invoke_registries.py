#!/usr/bin/env python3
"""Writes contracts/invoke/registries.go: the four kinds of handler registry have the same contract."""
import os
kinds = [("RequestResponse", "requestResponse", "requestResponseImports"),
         ("FireAndForget", "fireAndForget", "requestFNFImports"),
         ("RequestStream", "requestStream", "requestStreamImports"),
         ("RequestChannel", "requestChannel", "requestChannelImports")]
out = ['''package invoke

// Generated by gen/invoke_registries.py.

var importN, importO string
var importK int

func isInfo(i HandlerInfo, namespace, operation string) bool {
	return i.Namespace == namespace && i.Operation == operation
}
''']
for K, v, imp in kinds:
    others = [x for x in kinds if x[0] != K]
    oldl = ", ".join(f"len({x[1]}Handlers), len({x[1]}HandlerInfo)" for x in others)
    out.append(f'''
//@ contract Export{K}
//@ prop C19
func spec_Export{K}(namespace, operation string, handler {K}Handler, hs []{K}Handler, is []HandlerInfo, k int) {{
	{v}Handlers, {v}HandlerInfo = hs, is
	gvRequires(len(hs) == len(is) && len(hs) < 1<<32-1)
	n := len(hs)
	gvModifies(&{v}Handlers, &{v}HandlerInfo, {v}Handlers[n:cap({v}Handlers)], {v}HandlerInfo[n:cap({v}HandlerInfo)])
	Export{K}(namespace, operation, handler)
	gvEnsures("one more handler and one more description", len({v}Handlers) == n+1 && len({v}HandlerInfo) == n+1)
	gvEnsures("the handler is returned for the id it got", gvSameFunc(Get{K}Handler(uint32(n)), handler))
	gvEnsures("its description is listed at that id", isInfo(GetOperations().Exported.{K}[n], namespace, operation))
	if 0 <= k && k < n {{
		gvEnsures("earlier handlers stay", gvSameFunc(Get{K}Handler(uint32(k)), hs[k]))
		gvEnsures("earlier descriptions stay", isInfo({v}HandlerInfo[k], is[k].Namespace, is[k].Operation))
	}}
}}

//@ contract Get{K}Handler
//@ prop C19
func spec_Get{K}Handler(id uint32, hs []{K}Handler) {{
	gvRequires(len(hs) < 1<<32)
	{v}Handlers = hs
	gvModifies()
	h := Get{K}Handler(id)
	if int(id) < len({v}Handlers) {{
		gvEnsures("the handler at that id", gvSameFunc(h, {v}Handlers[id]))
	}} else {{
		gvEnsures("none out of range", h == nil)
	}}
}}

//@ invariant Import{K}#0
func inv_Import{K}(rangeindex int) bool {{
	return rangeindex >= -1 && rangeindex < len({imp}) &&
		(importK > rangeindex || !isInfo({imp}[importK], importN, importO))
}}

//@ contract Import{K}
//@ prop C19
func spec_Import{K}(namespace, operation string, is []HandlerInfo, k int) {{
	{imp} = is
	n := len(is)
	gvRequires(n < 1<<32-1 && 0 <= k && (k < n || n == 0))
	importN, importO, importK = namespace, operation, k
	if n == 0 {{
		importK = 1 << 60
	}}
	gvModifies(&{imp}, {imp}[n:cap({imp})])
	id := Import{K}(namespace, operation)
	gvEnsures("the id belongs to that operation", int(id) < len({imp}) && isInfo({imp}[id], namespace, operation))
	gvEnsures("listed at that id", isInfo(GetOperations().Imported.{K}[id], namespace, operation))
	if k < n {{
		gvEnsures("earlier imports stay", isInfo({imp}[k], is[k].Namespace, is[k].Operation))
	}}
	if int(id) < n {{
		gvEnsures("nothing is added for a known operation", len({imp}) == n)
		if k < int(id) {{
			gvEnsures("the first id it got", !isInfo(is[k], namespace, operation))
		}}
	}} else {{
		gvEnsures("a new operation gets the next id", int(id) == n && len({imp}) == n+1)
		gvEnsures("only if it was not there", k >= n || !isInfo(is[k], namespace, operation))
	}}
}}
''')
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/contracts/invoke/registries.go', 'w').write(''.join(out))
