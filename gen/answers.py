#!/usr/bin/env python3
# Writes the C29 contracts of the three request engines (they differ in how an engine is set up, where its
# handlers are kept and how what it sends is observed).
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = '''
// op is the operation a request's metadata names.
func op(md []byte) uint32 {
	return uint32(md[0])<<24 | uint32(md[1])<<16 | uint32(md[2])<<8 | uint32(md[3])
}

// called records what handlers were given.
type called struct {
	times int
	p     payload.Payload
	ctx   context.Context
	in    flux.Flux[payload.Payload]
}

// given: the handler got the request's data, and its metadata with or without the leading operation.
func (c *called) given(data, md []byte) bool {
	return gvBytesEq(c.p.Data(), data) && (gvBytesEq(c.p.Metadata(), md) || gvBytesEq(c.p.Metadata(), md[8:]))
}

// one is what a handler answers a request-response with; it may already be settled when subscribed to.
type one struct {
	subscribed int
	sub        mono.Subscribe[payload.Payload]
	early      func()
}

func (o *one) Subscribe(s mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
	o.subscribed++
	o.sub = s
	if o.early != nil {
		o.early()
	}
	return o
}
func (o *one) Block() (payload.Payload, error) { return nil, nil }
func (o *one) Get() (payload.Payload, error)   { return nil, nil }
func (o *one) Async()                          {}
func (o *one) Notify(rx.FnFinally)             {}

// many is what a handler answers a stream or channel with.
type many struct {
	subscribed int
	sub        flux.Subscribe[payload.Payload]
	early      func()
	none       bool // it has no subscription
	requested  int
	n          int
	cancelled  int
}

func (o *many) Subscribe(s flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
	o.subscribed++
	o.sub = s
	if o.early != nil {
		o.early()
	}
	return o
}
func (o *many) Block(flux.Subscribe[payload.Payload]) error { return nil }
func (o *many) Async()                                      {}
func (o *many) Notify(rx.FnFinally)                         {}
func (o *many) Subscription() rx.Subscription {
	if o.none {
		return nil
	}
	return o
}
func (o *many) Request(n int) {
	o.requested++
	o.n = n
}
func (o *many) Cancel() { o.cancelled++ }

func isPayload(f frames.Frame, id uint32, data, md []byte, next, complete bool) bool {
	p, ok := f.(*frames.Payload)
	return ok && p.StreamID == id && gvBytesEq(p.Data, data) && gvBytesEq(p.Metadata, md) && p.Next == next && p.Complete == complete && !p.Follows
}

func isError(f frames.Frame, id uint32) bool {
	p, ok := f.(*frames.Error)
	return ok && p.StreamID == id
}

func isErrorText(f frames.Frame, id uint32, text string) bool {
	p, ok := f.(*frames.Error)
	return ok && p.StreamID == id && p.Data == text
}

func isRequest(f frames.Frame, t frames.FrameType, id uint32, data, md []byte) bool {
	p, ok := f.(*frames.RequestPayload)
	return ok && p.FrameType == t && p.StreamID == id && gvBytesEq(p.Data, data) && gvBytesEq(p.Metadata, md) && !p.Follows
}

// refused: a request nobody handles is answered with one error frame.
func refused(e ENGINE, id uint32, data, md []byte, c *called) {
	e.observe()
	gvEnsures("no handler runs", c.times == 0)
	gvEnsures("exactly one frame is sent", sent.count == 1)
	gvEnsures("an error, on the request's stream", isError(sent.last, id))
}
'''

RR = '''
//@ contract PREFIXhandleRequestResponse
//@ prop C29
//@ exact (*Lookup).find (*Lookup).Add
func spec_handleRequestResponse(SETUPPARAMS id uint32, data, md []byte, hs []invoke.RequestResponseHandler, fails, early bool, rdata, rmd []byte, text string) {
	e := NEW(id, len(rdata), len(rmd), len(text))
	e.setRR(hs)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	c, answer := &called{}, &one{}
	r := payload.New(rdata, rmd)
	settle := func() {
		if fails {
			answer.sub.OnError(errors.New(text))
		} else {
			answer.sub.OnSuccess(r)
		}
	}
	if early {
		answer.early = settle
	}
	gvOnCall(func(f invoke.RequestResponseHandler, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c.times++
		c.p = p
		gvEnsures("only the addressed handler runs", len(m0) >= 8 && int(op(m0)) < len(hs) && gvSameFunc(f, hs[op(m0)]))
		return answer
	})
	CALLhandleRequestResponse(context.Background(), id, data, md)
	gvRunGo()
	if len(m0) < 8 || int(op(m0)) >= len(hs) || hs[op(m0)] == nil {
		refused(e, id, d0, m0, c)
		return
	}
	gvEnsures("it runs once", c.times == 1)
	gvEnsures("with the request's data", c.given(d0, m0))
	gvEnsures("its answer is subscribed to, once", answer.subscribed == 1)
	if !early {
		e.observe()
		gvEnsures("nothing is sent before it answers", sent.count == 0)
		settle()
	}
	e.observe()
	gvEnsures("one frame is sent", sent.count == 1)
	if fails {
		gvEnsures("the error, on the request's stream", isErrorText(sent.last, id, text))
	} else {
		gvEnsures("the value, on the request's stream, marked complete", isPayload(sent.last, id, rdata, rmd, true, true))
	}
}

//@ contract PREFIXhandleFireAndForget
//@ prop C29
//@ exact (*Lookup).find (*Lookup).Add
func spec_handleFireAndForget(SETUPPARAMS id uint32, data, md []byte, hs []invoke.FireAndForgetHandler) {
	e := NEW(id, 0, 0, 0)
	e.setFNF(hs)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	c := &called{}
	gvOnCall(func(f invoke.FireAndForgetHandler, ctx context.Context, p payload.Payload) {
		c.times++
		c.p = p
		gvEnsures("only the addressed handler runs", len(m0) >= 8 && int(op(m0)) < len(hs) && gvSameFunc(f, hs[op(m0)]))
	})
	CALLhandleFireAndForget(context.Background(), id, data, md)
	gvRunGo()
	if len(m0) < 8 || int(op(m0)) >= len(hs) || hs[op(m0)] == nil {
		refused(e, id, d0, m0, c)
		return
	}
	gvEnsures("it runs once", c.times == 1)
	gvEnsures("with the request's data", c.given(d0, m0))
	e.observe()
	gvEnsures("nothing is sent", sent.count == 0)
}
'''

RS = '''
//@ contract PREFIXhandleRequestKIND
//@ prop C29
//@ exact (*Lookup).find (*Lookup).Add
func spec_handleRequestKIND(SETUPPARAMS id uint32, data, md []byte, initialN uint32, hs []invoke.RequestKINDHandler, what, demand int, early, none bool, rdata, rmd []byte, text string) {
	e := NEW(id, len(rdata), len(rmd), len(text))
	e.setHS(hs)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	c, answer := &called{}, &many{none: none}
	r := payload.New(rdata, rmd)
	signal := func() {
		switch what {
		case 0:
			answer.sub.OnNext(r)
		case 1:
			answer.sub.OnComplete()
		case 2:
			answer.sub.OnError(errors.New(text))
		}
	}
	if early {
		answer.early = signal
	}
	gvOnCall(func(f invoke.RequestKINDHandler, ctx context.Context, p payload.PayloadINPARAM) flux.Flux[payload.Payload] {
		c.times++
		c.p = pTAKEIN
		gvEnsures("only the addressed handler runs", len(m0) >= 8 && int(op(m0)) < len(hs) && gvSameFunc(f, hs[op(m0)]))
		return answer
	})
	CALLhandleRequestKIND(context.Background(), id, data, md, initialN)
	gvRunGo()
	if len(m0) < 8 || int(op(m0)) >= len(hs) || hs[op(m0)] == nil {
		refused(e, id, d0, m0, c)
		return
	}
	gvEnsures("it runs once", c.times == 1)
	gvEnsures("with the request's data", c.given(d0, m0))
	gvEnsures("its answer is subscribed to, once, without demand of its own", answer.subscribed == 1 && answer.sub.NoRequest)
	if !none {
		gvEnsures("the request's initial demand reaches it", answer.requested == 1 && answer.n == int(initialN))
	}
	s, ok := e.stream(id)
	gvEnsures("the stream is registered for what follows", ok && s.StreamID() == id)
	if d, ok := s.(DoRequest); ok && !none {
		d.DoRequest(demand)
		gvRunGo()
		gvEnsures("later demand reaches it", answer.requested == 2 && answer.n == demand)
	} else {
		gvEnsures("demand can reach it", ok)
	}
	if !early {
		e.observe()
		gvEnsures("nothing is sent before it answers", sent.count == 0)
		signal()
	}
	e.observe()
	switch what {
	case 0:
		gvEnsures("a value is one frame, on the request's stream", sent.count == 1 && isPayload(sent.last, id, rdata, rmd, true, false))
	case 1:
		gvEnsures("completion is one frame, on the request's stream", sent.count == 1 && isPayload(sent.last, id, nil, nil, false, true))
	case 2:
		gvEnsures("an error is one frame, on the request's stream, with its text", sent.count == 1 && isErrorText(sent.last, id, text))
	default:
		gvEnsures("nothing is sent before it answers", sent.count == 0)
	}
}
'''

CIN = '''
// The values of a channel's caller.
//
//@ lemma
//@ prop C29
//@ exact (*Lookup).find (*Lookup).Add
func spec_channel_inbound(SETUPPARAMS id uint32, data, md []byte, initialN uint32, h invoke.RequestChannelHandler, n, what int, again bool, rdata, rmd []byte, text string) {
	gvRequires(h != nil && len(md) >= 8 && op(md) == 0)
	gvRequires(0 < n && n < 1<<31)
	e := NEW(id, len(rdata), len(rmd), len(text))
	e.setRC([]invoke.RequestChannelHandler{h})
	c, answer := &called{}, &many{}
	gvOnCall(func(f invoke.RequestChannelHandler, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		c.times++
		c.in = in
		return answer
	})
	CALLhandleRequestChannel(context.Background(), id, data, md, initialN)
	gvRunGo()
	gvEnsures("the handler is given the channel's values", c.times == 1 && c.in != nil)
	s, ok := e.stream(id)
	gvEnsures("the stream is registered", ok)
	var values, completes, fails int
	var got payload.Payload
	var errText string
	c.in.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			values++
			got = p
		},
		OnComplete: func() { completes++ },
		OnError: func(err error) {
			fails++
			errText = err.Error()
		},
		NoRequest: true,
	})
	e.observe()
	gvEnsures("subscribing asks for nothing", sent.count == 0)
	sub := c.in.Subscription()
	sub.Request(n)
	gvRunGo()
	e.observe()
	rn, ok := sent.last.(*frames.RequestN)
	gvEnsures("demand is one request-n with that count, on the request's stream", sent.count == 1 && ok && rn.StreamID == id && rn.N == uint32(n))
	p := payload.New(rdata, rmd)
	switch what {
	case 0:
		s.OnNext(p)
		gvEnsures("a value reaches the handler", values == 1 && got == payload.Payload(p) && completes == 0 && fails == 0)
	case 1:
		s.OnComplete()
		gvEnsures("completion reaches the handler", values == 0 && completes == 1 && fails == 0)
	case 2:
		s.OnError(errors.New(text))
		gvEnsures("an error reaches the handler", values == 0 && completes == 0 && fails == 1 && errText == text)
	case 3:
		sub.Cancel()
		gvRunGo()
		e.observe()
		f, ok := sent.last.(*frames.Cancel)
		gvEnsures("cancelling is one cancel, on the request's stream", sent.count == 2 && ok && f.StreamID == id)
		return
	}
	e.observe()
	gvEnsures("nothing else is sent", sent.count == 1)
}
'''

DISPATCH = '''
// A request frame runs a handler of its own kind.
//
//@ contract DISPATCHER
//@ prop C29
//@ exact (*Lookup).find (*Lookup).Add
func spec_request(f frames.RequestPayload, rr []invoke.RequestResponseHandler, fnf []invoke.FireAndForgetHandler, rs []invoke.RequestStreamHandler, rc []invoke.RequestChannelHandler) {
	t, id := f.FrameType, f.StreamID
	gvRequires(t == frames.FrameTypeRequestResponse || t == frames.FrameTypeRequestFNF || t == frames.FrameTypeRequestStream || t == frames.FrameTypeRequestChannel)
	gvRequires(!f.Follows && id < 1<<31 && len(f.Metadata) >= 8 && len(f.Metadata) < 1<<22 && len(f.Data) < 1<<22)
	e := newEngine(id, 0, 0, 0)
	e.setAll(rr, fnf, rs, rc)
	d0, m0 := gvOldBytes(f.Data), gvOldBytes(f.Metadata)
	c, mono1, flux1 := &called{}, &one{}, &many{}
	n := int(op(m0))
	known := false
	gvOnCall(func(h invoke.RequestResponseHandler, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c.times++
		c.p = p
		gvEnsures("a handler of the request's kind runs, the one addressed", t == frames.FrameTypeRequestResponse && n < len(rr) && gvSameFunc(h, rr[n]))
		return mono1
	})
	gvOnCall(func(h invoke.FireAndForgetHandler, ctx context.Context, p payload.Payload) {
		c.times++
		c.p = p
		gvEnsures("a handler of the request's kind runs, the one addressed", t == frames.FrameTypeRequestFNF && n < len(fnf) && gvSameFunc(h, fnf[n]))
	})
	gvOnCall(func(h invoke.RequestStreamHandler, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		c.times++
		c.p = p
		gvEnsures("a handler of the request's kind runs, the one addressed", t == frames.FrameTypeRequestStream && n < len(rs) && gvSameFunc(h, rs[n]))
		return flux1
	})
	gvOnCall(func(h invoke.RequestChannelHandler, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		c.times++
		c.p = p
		gvEnsures("a handler of the request's kind runs, the one addressed", t == frames.FrameTypeRequestChannel && n < len(rc) && gvSameFunc(h, rc[n]))
		return flux1
	})
	switch t {
	case frames.FrameTypeRequestResponse:
		known = n < len(rr) && rr[n] != nil
	case frames.FrameTypeRequestFNF:
		known = n < len(fnf) && fnf[n] != nil
	case frames.FrameTypeRequestStream:
		known = n < len(rs) && rs[n] != nil
	case frames.FrameTypeRequestChannel:
		known = n < len(rc) && rc[n] != nil
	}
	e.deliver(&f)
	gvRunGo()
	if !known {
		refused(e, id, d0, m0, c)
		return
	}
	gvEnsures("it runs once", c.times == 1)
	gvEnsures("with the request's data", c.given(d0, m0))
	if t == frames.FrameTypeRequestStream || t == frames.FrameTypeRequestChannel {
		gvEnsures("the request's initial demand reaches its answer", flux1.subscribed == 1 && flux1.requested == 1 && flux1.n == int(f.InitialN))
	}
	e.observe()
	gvEnsures("nothing is sent before it answers", sent.count == 0)
}
'''

CALLS = '''
//@ contract CPREFIXRequestResponse
//@ prop C30
//@ exact (*Lookup).find (*Lookup).Add
func spec_call_RequestResponse(id uint32, data, md []byte, what int, rdata, rmd []byte, text string) {
	e := newEngine(id, len(data), len(md), 0)
	e.calls(id)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	m := e.caller().RequestResponse(context.Background(), payload.New(data, md))
	e.observe()
	gvEnsures("nothing is sent before somebody subscribes", sent.count == 0)
	var values, fails int
	var got payload.Payload
	var errText string
	m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) {
			values++
			got = p
		},
		OnError: func(err error) {
			fails++
			errText = err.Error()
		},
	})
	gvRunGo()
	e.observe()
	gvEnsures("one request frame is sent, with the payload", sent.count == 1 && isRequest(sent.last, frames.FrameTypeRequestResponse, id, d0, m0))
	s, ok := e.stream(id)
	gvEnsures("its stream is registered", ok && s.StreamID() == id)
	p := payload.New(rdata, rmd)
	switch what {
	case 0:
		s.OnNext(p)
		s.OnComplete()
		gvEnsures("the answer is delivered, once", values == 1 && got == payload.Payload(p) && fails == 0)
	case 1:
		s.OnError(errors.New(text))
		s.OnComplete()
		gvEnsures("the error is delivered, once", fails == 1 && errText == text && values == 0)
	}
	e.observe()
	gvEnsures("nothing else is sent", sent.count == 1)
}

//@ contract CPREFIXFireAndForget
//@ prop C30
func spec_call_FireAndForget(id uint32, data, md []byte) {
	e := newEngine(id, len(data), len(md), 0)
	e.calls(id)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	e.caller().FireAndForget(context.Background(), payload.New(data, md))
	gvRunGo()
	e.observe()
	gvEnsures("one request frame is sent, with the payload", sent.count == 1 && isRequest(sent.last, frames.FrameTypeRequestFNF, id, d0, m0))
}

//@ contract CPREFIXRequestStream
//@ prop C30
//@ exact (*Lookup).find (*Lookup).Add
func spec_call_RequestStream(id uint32, data, md []byte, n1, n2 int, channel bool, what int, rdata, rmd []byte, text string) {
	gvRequires(0 < n1 && n1 < 1<<31 && 0 < n2 && n2 < 1<<31)
	e := newEngine(id, len(data)+len(rdata), len(md)+len(rmd), len(text))
	e.calls(id)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	t, in := frames.FrameTypeRequestStream, &many{}
	var f flux.Flux[payload.Payload]
	if channel {
		t = frames.FrameTypeRequestChannel
		f = e.caller().RequestChannel(context.Background(), payload.New(data, md), in)
	} else {
		f = e.caller().RequestStream(context.Background(), payload.New(data, md))
	}
	var values, completes, fails int
	var got payload.Payload
	var errText string
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			values++
			got = p
		},
		OnComplete: func() { completes++ },
		OnError: func(err error) {
			fails++
			errText = err.Error()
		},
		NoRequest: true,
	})
	gvRunGo()
	e.observe()
	gvEnsures("nothing is sent before there is demand", sent.count == 0)
	s, ok := e.stream(id)
	gvEnsures("its stream is registered", ok && s.StreamID() == id)
	sub := f.Subscription()
	sub.Request(n1)
	gvRunGo()
	e.observe()
	gvEnsures("the first demand sends one request frame, with the payload", sent.count == 1 && isRequest(sent.last, t, id, d0, m0))
	gvEnsures("and that demand", sent.last.(*frames.RequestPayload).InitialN == uint32(n1))
	p := payload.New(rdata, rmd)
	switch what {
	case 0:
		s.OnNext(p)
		gvEnsures("a value is delivered", values == 1 && got == payload.Payload(p) && completes == 0 && fails == 0)
	case 1:
		s.OnComplete()
		gvEnsures("completion is delivered", values == 0 && completes == 1 && fails == 0)
	case 2:
		s.OnError(errors.New(text))
		gvEnsures("the error is delivered", values == 0 && completes == 0 && fails == 1 && errText == text)
	case 3:
		sub.Request(n2)
		gvRunGo()
		e.observe()
		rn, ok := sent.last.(*frames.RequestN)
		gvEnsures("later demand is one request-n with that count", sent.count == 2 && ok && rn.StreamID == id && rn.N == uint32(n2))
		return
	case 4:
		sub.Cancel()
		gvRunGo()
		e.observe()
		cn, ok := sent.last.(*frames.Cancel)
		gvEnsures("cancelling is one cancel", sent.count == 2 && ok && cn.StreamID == id)
		return
	case 5:
		if !channel {
			return
		}
		gvEnsures("the caller's values are subscribed to, without demand", in.subscribed == 1 && in.sub.NoRequest && in.requested == 0)
		s.(DoRequest).DoRequest(n2)
		gvRunGo()
		gvEnsures("the peer's demand reaches them", in.requested == 1 && in.n == n2)
		in.sub.OnNext(p)
		e.observe()
		gvEnsures("a value is one frame, on the request's stream", sent.count == 2 && isPayload(sent.last, id, rdata, rmd, true, false))
		return
	case 6:
		if !channel {
			return
		}
		in.sub.OnComplete()
		e.observe()
		gvEnsures("completion is one frame, on the request's stream", sent.count == 2 && isPayload(sent.last, id, nil, nil, false, true))
		return
	case 7:
		if !channel {
			return
		}
		in.sub.OnError(errors.New(text))
		e.observe()
		gvEnsures("an error is one frame, on the request's stream, with its text", sent.count == 2 && isErrorText(sent.last, id, text))
		return
	}
	gvRunGo()
	e.observe()
	gvEnsures("nothing else is sent", sent.count == 1)
}
'''

ENG = {
 'handler': dict(pkg='handler', dir='handler', prefix='(*Handler).', call='e.i.', eng='engine', new='newEngine', disp='(*Handler).HandleFrame', cprefix='(*Handler).', imports='', setup='''
// What the peer saw.
var sent struct {
	count int
	last  frames.Frame
}

type engine struct{ i *Handler }

const reports = true // a frame for an unknown stream is reported to the caller

func (e engine) odd() *proxy.Lookup      { return &e.i.guestStreams }
func (e engine) even() *proxy.Lookup     { return &e.i.hostStreams }
func (e engine) register(s proxy.Stream) { e.i.registerStream(s) }

// newEngine is a connection with no streams whose frames are recorded.
func newEngine(_ uint32, _, _, _ int) engine {
	sent.count, sent.last = 0, nil
	return engine{&Handler{sendFrame: func(f frames.Frame) error {
		sent.count++
		sent.last = f
		return nil
	}}}
}

func (e engine) observe() {}

func (e engine) stream(id uint32) (proxy.Stream, bool) { return e.i.getStream(id) }

func (e engine) setRR(hs []invoke.RequestResponseHandler)  { invoke.SpecHandlers(hs, nil, nil, nil) }
func (e engine) setFNF(hs []invoke.FireAndForgetHandler)   { invoke.SpecHandlers(nil, hs, nil, nil) }
func (e engine) setRS(hs []invoke.RequestStreamHandler)    { invoke.SpecHandlers(nil, nil, hs, nil) }
func (e engine) setRC(hs []invoke.RequestChannelHandler)   { invoke.SpecHandlers(nil, nil, nil, hs) }
func (e engine) setAll(rr []invoke.RequestResponseHandler, fnf []invoke.FireAndForgetHandler, rs []invoke.RequestStreamHandler, rc []invoke.RequestChannelHandler) {
	invoke.SpecHandlers(rr, fnf, rs, rc)
}

// deliver hands a frame from the peer to the connection.
func (e engine) deliver(f frames.Frame) error { return e.i.HandleFrame(f) }

// calls makes the connection issue the id next.
func (e engine) calls(id uint32) {
	e.i.nextStreamID = func() (uint32, bool) { return id, true }
}
func (e engine) caller() invoke.Caller { return e.i }
'''),
 'host': dict(pkg='host', dir='transport/wasmrs/host', prefix='(*Instance).', call='e.i.', eng='engine', new='newEngine', disp='(*Instance).recvOne', cprefix='(*Instance).', imports='\n\t"github.com/nanobus/iota/go/internal/socket"', setup='''
// What the peer saw.
var sent struct {
	count int
	last  frames.Frame
}

type engine struct{ i *Instance }

const reports = false

func (e engine) odd() *proxy.Lookup      { return &e.i.guestStreams }
func (e engine) even() *proxy.Lookup     { return &e.i.hostStreams }
func (e engine) register(s proxy.Stream) { e.i.registerStream(s) }

// newEngine is a connection with no streams whose frames are recorded.
func newEngine(_ uint32, _, _, _ int) engine {
	sent.count, sent.last = 0, nil
	return engine{&Instance{sendCh: make(chan frames.Frame, 100)}}
}

// observe takes what was queued for the peer.
func (e engine) observe() {
	if len(e.i.sendCh) > 0 {
		sent.count += len(e.i.sendCh)
		sent.last = <-e.i.sendCh
	}
	gvEnsures("one frame at a time", len(e.i.sendCh) == 0)
}

func (e engine) stream(id uint32) (proxy.Stream, bool) { return e.i.getStream(id) }

func (e engine) setRR(hs []invoke.RequestResponseHandler) {
	gvRequires(len(hs) < 1<<32)
	e.i.importedRR = hs
}
func (e engine) setFNF(hs []invoke.FireAndForgetHandler) {
	gvRequires(len(hs) < 1<<32)
	e.i.importedRFNF = hs
}
func (e engine) setRS(hs []invoke.RequestStreamHandler) {
	gvRequires(len(hs) < 1<<32)
	e.i.importedRS = hs
}
func (e engine) setRC(hs []invoke.RequestChannelHandler) {
	gvRequires(len(hs) < 1<<32)
	e.i.importedRC = hs
}
func (e engine) setAll(rr []invoke.RequestResponseHandler, fnf []invoke.FireAndForgetHandler, rs []invoke.RequestStreamHandler, rc []invoke.RequestChannelHandler) {
	e.setRR(rr)
	e.setFNF(fnf)
	e.setRS(rs)
	e.setRC(rc)
}

// deliver hands a frame from the guest to the host.
func (e engine) deliver(f frames.Frame) error {
	gvRequires(f.GetStreamID() < 1<<31 && f.Size() < 1<<24) // what an encoding can carry
	b := make([]byte, f.Size())
	f.Encode(b)
	e.i.recvOne(b)
	return nil
}

// calls makes the connection issue the id next.
func (e engine) calls(id uint32) {
	gvRequires(id >= 4 && id < 1<<31 && id&1 == 0)
	e.i.streamIDs = socket.ServerStreamIDs(id/2 - 1)
	ids := e.i.streamIDs
	next, _ := ids.Next()
	gvRequires(next == id)
}
func (e engine) caller() invoke.Caller { return e.i }
'''),
 'guest': dict(pkg='guest', dir='transport/wasmrs/guest', prefix='', call='', eng='engine', new='newEngine', disp='GuestSend', cprefix='(*Caller).', imports='\n\t"github.com/nanobus/iota/go/internal/socket"', directives='//@ hook hostSend\n', setup='''
// What the host saw.
var sent struct {
	count int
	last  frames.Frame
}

// gvHook_hostSend stands for the host: it takes the frame out of the buffer it is told to read.
func gvHook_hostSend(n uint32) {
	gvEnsures("no more than the agreed buffer", int(n) <= len(hostBuffer))
	gvEnsures("a whole header", n >= 9)
	gvEnsures("preceded by its exact length", n == 3+(uint32(hostBuffer[0])<<16|uint32(hostBuffer[1])<<8|uint32(hostBuffer[2])))
	sent.count++
	sent.last = decoded(append([]byte(nil), hostBuffer[3:n]...))
}

func decoded(b []byte) frames.Frame {
	header := frames.ParseFrameHeader(b)
	b = b[frames.FrameHeaderLen:]
	switch header.Type() {
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		f := &frames.RequestPayload{}
		if f.Decode(&header, b) == nil {
			return f
		}
	case frames.FrameTypePayload:
		f := &frames.Payload{}
		if f.Decode(&header, b) == nil {
			return f
		}
	case frames.FrameTypeError:
		f := &frames.Error{}
		if f.Decode(&header, b) == nil {
			return f
		}
	case frames.FrameTypeRequestN:
		f := &frames.RequestN{}
		if f.Decode(&header, b) == nil {
			return f
		}
	case frames.FrameTypeCancel:
		f := &frames.Cancel{}
		if f.Decode(&header, b) == nil {
			return f
		}
	}
	return nil
}

type engine struct{}

const reports = false

func (e engine) odd() *proxy.Lookup      { return &guestStreams }
func (e engine) even() *proxy.Lookup     { return &hostStreams }
func (e engine) register(s proxy.Stream) { registerStream(s) }

// newEngine is a connection with no streams, with room for a frame carrying any of these.
func newEngine(id uint32, data, md, text int) engine {
	gvRequires(id < 1<<31) // stream ids are 31 bits on the wire
	sent.count, sent.last = 0, nil
	guestStreams, hostStreams = proxy.Lookup{}, proxy.Lookup{}
	gvRequires(0 <= data && data < 1<<22 && 0 <= md && md < 1<<22 && 0 <= text && text < 1<<22)
	hostBuffer = make([]byte, data+md+text+64)
	return engine{}
}

func (e engine) observe() {}

func (e engine) stream(id uint32) (proxy.Stream, bool) { return getStream(id) }

func (e engine) setRR(hs []invoke.RequestResponseHandler) { invoke.SpecHandlers(hs, nil, nil, nil) }
func (e engine) setFNF(hs []invoke.FireAndForgetHandler)  { invoke.SpecHandlers(nil, hs, nil, nil) }
func (e engine) setRS(hs []invoke.RequestStreamHandler)   { invoke.SpecHandlers(nil, nil, hs, nil) }
func (e engine) setRC(hs []invoke.RequestChannelHandler)  { invoke.SpecHandlers(nil, nil, nil, hs) }
func (e engine) setAll(rr []invoke.RequestResponseHandler, fnf []invoke.FireAndForgetHandler, rs []invoke.RequestStreamHandler, rc []invoke.RequestChannelHandler) {
	invoke.SpecHandlers(rr, fnf, rs, rc)
}

// deliver hands a frame from the host to the guest, the way the host does.
func (e engine) deliver(f frames.Frame) error {
	n := f.Size()
	gvRequires(f.GetStreamID() < 1<<31 && n < 1<<24) // what an encoding can carry
	guestBuffer = make([]byte, n+3)
	guestBuffer[0], guestBuffer[1], guestBuffer[2] = byte(n>>16), byte(n>>8), byte(n)
	f.Encode(guestBuffer[3:])
	GuestSend(n + 3)
	return nil
}

var guestCaller *Caller

// calls makes the connection issue the id next.
func (e engine) calls(id uint32) {
	gvRequires(id >= 3 && id < 1<<31 && id&1 == 1)
	ids := socket.ClientStreamIDs((id - 1) / 2)
	guestCaller = &Caller{streamIDs: ids}
	next, _ := ids.Next()
	gvRequires(next == id)
}
func (e engine) caller() invoke.Caller { return guestCaller }
'''),
}

CONTENT = '''
//@ contract (*Handler).HandleFrame
//@ prop C28
//@ exact (*Lookup).find (*Lookup).Add (*Lookup).Remove
func spec_HandleFrame_Payload(f frames.Payload, a, b plain) {
	gvRequires(len(f.Data) < 1<<22 && len(f.Metadata) < 1<<22)
	i := newEngine(f.StreamID, 0, 0, 0)
	gvRequires(a.id != b.id && b.id != f.StreamID)
	i.register(&b)
	i.register(&a)
	clear()
	data, md := gvOldBytes(f.Data), gvOldBytes(f.Metadata)
	i.deliver(&f)
	gvRunGo()
	i.observe()
	other, there := i.stream(b.id)
	gvEnsures("the other stream stays", there && other == proxy.Stream(&b))
	_, there = i.stream(f.StreamID)
	gvEnsures("the stream stays unless the frame completes it", there == (a.id == f.StreamID && !f.Complete))
	if a.id != f.StreamID {
		nothing(nil, true)
		return
	}
	n, c := 0, 0
	if f.Next {
		n = 1
	}
	if f.Complete {
		c = 1
	}
	gvEnsures("a value exactly if marked next", heard.nexts == n)
	gvEnsures("completion exactly if marked complete, after the value", heard.completes == c && !heard.order)
	gvEnsures("nothing else", heard.errors == 0 && heard.requests == 0 && sent.count == 0)
	if f.Next {
		gvEnsures("to the stream named", heard.by == proxy.Stream(&a))
		gvEnsures("the frame's data", gvBytesEq(heard.p.Data(), data))
		gvEnsures("the frame's metadata", gvBytesEq(heard.p.Metadata(), md))
	}
}
'''

def gen(name, e):
    out = ['package %s\n\n// Generated by gen/answers.py.\n\n//@ load invoke\n%s' % (e['pkg'], e.get('directives', ''))]
    out.append('''
import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"%s
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)
''' % e['imports'])
    out.append(e['setup'])
    body = COMMON + RR
    body += RS.replace('setHS', 'setRS').replace('INPARAM', '').replace('TAKEIN', '').replace('KIND', 'Stream')
    body += RS.replace('setHS', 'setRC').replace('INPARAM', ', in flux.Flux[payload.Payload]').replace('TAKEIN', '\n\t\tc.in = in').replace('KIND', 'Channel')
    body += CIN + DISPATCH.replace('DISPATCHER', e['disp']) + CALLS.replace('CPREFIX', e['cprefix'])
    body = body.replace('ENGINE', e['eng']).replace('PREFIX', e['prefix']).replace('CALL', e['call']).replace('NEW', e['new']).replace('SETUPPARAMS ', '')
    out.append(body)
    p = os.path.join(V, 'contracts', e['dir'], 'answer.go')
    open(p, 'w').write(''.join(out))
    os.system('gofmt -w ' + p + ' && sed -i "s,^// @ ,//@ ," ' + p)

for n, e in ENG.items():
    gen(n, e)

# The C28 contracts of host and guest are those of handler.
src = open(os.path.join(V, 'contracts/handler/frames.go')).read()
for pkg, target, reg in (('host', '(*Instance).recvOne', '(*Instance).registerStream'), ('guest', 'GuestSend', 'registerStream')):
    t = src.replace('package handler\n', 'package %s\n\n// Generated by gen/answers.py from contracts/handler/frames.go.\n' % pkg)
    # A frame of any content costs too much next to any list of streams: those contracts are two here.
    one = t[t.index('//@ contract (*Handler).HandleFrame\n//@ prop C28\nfunc spec_HandleFrame_Payload'):]
    one = one[:one.index('\n}\n') + 3]
    routed = one.replace('func spec_HandleFrame_Payload(f frames.Payload, ', 'func spec_HandleFrame_Payload_routed(id uint32, complete bool, ')
    routed = routed.replace('	gvRequires(len(f.Data) < 1<<22 && len(f.Metadata) < 1<<22)\n', '	f := frames.Payload{StreamID: id, Next: true, Complete: complete}\n')
    routed = re.sub(r'(?m)^\tdata, md := .*\n', '', routed)
    routed = re.sub(r'(?m)^\tif f.Next {\n\t\tgvEnsures.*\n.*\n\t}\n', '', routed)
    assert 'md' not in routed
    t = t.replace(one, routed + CONTENT)
    t = t.replace('(*Handler).HandleFrame', target).replace('(*Handler).registerStream', reg)
    open(os.path.join(V, 'contracts/transport/wasmrs', pkg, 'frames.go'), 'w').write(t)
