package proxy

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// wire records what goes out: frames, and streams being registered.
type wire struct {
	frames   int
	last     frames.Frame
	req      frames.RequestPayload // the last request frame, as it was when it was sent
	reqs     int
	register int
	stream   Stream
	late     bool // a stream registered after a frame was sent
}

func (w *wire) send(f frames.Frame) error {
	w.frames++
	w.last = f
	if r, ok := f.(*frames.RequestPayload); ok {
		w.reqs++
		w.req = *r
	}
	return nil
}

func (w *wire) add(s Stream) {
	w.register++
	w.stream = s
	if w.frames > 0 {
		w.late = true
	}
}

// sameRequest: the frame sent is the request, with initial count n.
func sameRequest(w *wire, f *frames.RequestPayload, data, md []byte, n uint32) bool {
	return w.req.FrameType == f.FrameType && w.req.StreamID == f.StreamID && w.req.InitialN == n &&
		w.req.Follows == f.Follows && w.req.Complete == f.Complete && gvBytesEq(w.req.Data, data) && gvBytesEq(w.req.Metadata, md)
}

// inbound is the flux of values a channel sends.
type inbound struct {
	subscribed int
	sub        flux.Subscribe[payload.Payload]
	requested  int
	n          int
}

func (i *inbound) Subscribe(s flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
	i.subscribed++
	i.sub = s
	return i
}
func (i *inbound) Block(flux.Subscribe[payload.Payload]) error { return nil }
func (i *inbound) Async()                                      {}
func (i *inbound) Notify(rx.FnFinally)                         {}
func (i *inbound) Subscription() rx.Subscription {
	if i.subscribed == 0 {
		return nil
	}
	return i
}
func (i *inbound) Request(n int) {
	i.requested++
	i.n = n
}
func (i *inbound) Cancel() {}

//@ contract (*streamFlux).Request
//@ prop C30
func spec_streamFlux_Request(request frames.RequestPayload, first, complete, channel bool, n int) {
	gvRequires(0 <= n && n < 1<<31)
	data, md := gvOldBytes(request.Data), gvOldBytes(request.Metadata)
	w, in := &wire{}, &inbound{}
	s := &streamFlux{request: request, sendFrame: w.send, register: w.add, first: first, complete: complete}
	if channel {
		s.in = in
	}
	s.Request(n)
	gvEnsures("the stream id never changes", s.StreamID() == request.StreamID)
	switch {
	case complete:
		gvEnsures("nothing is sent for a finished stream", w.frames == 0 && in.subscribed == 0)
	case first:
		gvEnsures("the first demand sends the request frame, once", w.frames == 1 && w.reqs == 1)
		gvEnsures("with that demand as its initial count and everything else as given", sameRequest(w, &request, data, md, uint32(n)))
		gvEnsures("a channel's values are subscribed to, once", in.subscribed == b2i(channel))
		gvEnsures("later demands are not the first", !s.first)
	default:
		f, ok := w.last.(*frames.RequestN)
		gvEnsures("each later demand sends one request-n", w.frames == 1 && ok)
		gvEnsures("with the stream's id and exactly that count", f.StreamID == request.StreamID && f.N == uint32(n))
		gvEnsures("and subscribes to nothing", in.subscribed == 0)
	}
}

// What a channel's own values turn into.
//
//@ lemma
//@ prop C30
func spec_streamFlux_in(request frames.RequestPayload, n, what int, data, md []byte, text string) {
	w, in := &wire{}, &inbound{}
	s := &streamFlux{request: request, sendFrame: w.send, register: w.add, first: true, in: in}
	s.Request(n)
	gvEnsures("values are pulled by the peer, not at once", in.sub.NoRequest)
	d0, m0 := gvOldBytes(data), gvOldBytes(md)
	switch what {
	case 0:
		in.sub.OnNext(payload.New(data, md))
		f, ok := w.last.(*frames.Payload)
		gvEnsures("a value is one payload frame", w.frames == 2 && ok)
		gvEnsures("of this stream, marked next", f.StreamID == request.StreamID && f.Next && !f.Complete && !f.Follows)
		gvEnsures("with the value", gvBytesEq(f.Data, d0) && gvBytesEq(f.Metadata, m0))
	case 1:
		in.sub.OnComplete()
		f, ok := w.last.(*frames.Payload)
		gvEnsures("completion is one payload frame", w.frames == 2 && ok)
		gvEnsures("of this stream, marked complete", f.StreamID == request.StreamID && !f.Next && f.Complete && !f.Follows)
		gvEnsures("without a value", len(f.Data) == 0 && len(f.Metadata) == 0)
	case 2:
		in.sub.OnError(errors.New(text))
		f, ok := w.last.(*frames.Error)
		gvEnsures("an error is one error frame", w.frames == 2 && ok)
		gvEnsures("of this stream, with its text", f.StreamID == request.StreamID && f.Data == text)
	case 3:
		s.DoRequest(n)
		gvEnsures("the peer's demand goes to the values, exactly", in.requested == 1 && in.n == n && w.frames == 1)
	}
}

//@ contract (*streamFlux).DoRequest
//@ prop C28, C30
func spec_streamFlux_DoRequest(request frames.RequestPayload, channel, subscribed bool, n int) {
	w, in := &wire{}, &inbound{}
	s := &streamFlux{request: request, sendFrame: w.send, register: w.add, first: true}
	if channel {
		s.in = in
	}
	if subscribed {
		in.subscribed = 1
	}
	s.DoRequest(n)
	gvEnsures("demand reaches the values, if there are any", in.requested == b2i(channel && subscribed) && (!channel || !subscribed || in.n == n))
	gvEnsures("nothing is sent", w.frames == 0)
}

//@ contract (*streamFlux).Cancel
//@ prop C30
func spec_streamFlux_Cancel(request frames.RequestPayload, first, complete bool) {
	w := &wire{}
	s := &streamFlux{request: request, sendFrame: w.send, register: w.add, first: first, complete: complete}
	s.Cancel()
	f, ok := w.last.(*frames.Cancel)
	gvEnsures("one cancel frame", w.frames == 1 && ok)
	gvEnsures("with the stream's id", f.StreamID == request.StreamID)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// got records what a caller is given.
type got struct {
	values, completes, errors int
	p                         payload.Payload
	text                      string
}

// A stream as its caller and its peer see it: subscribing registers it, demand goes out as the request
// frame and then as request-n frames, what the peer answers comes in, and nothing goes out once it is
// over.
//
//@ contract Flux
//@ prop C30
func spec_Flux(request frames.RequestPayload, n1, n2, what int, answered bool, data, md []byte, text string) {
	gvRequires(0 < n1 && n1 < 1<<31 && 0 <= n2 && n2 < 1<<31)
	d0, m0 := gvOldBytes(request.Data), gvOldBytes(request.Metadata)
	w, g := &wire{}, &got{}
	f := Flux(context.Background(), request, nil, w.send, w.add)
	gvEnsures("nothing happens before somebody subscribes", w.frames == 0 && w.register == 0)
	var sub rx.Subscription
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			g.values++
			g.p = p
		},
		OnComplete: func() { g.completes++ },
		OnError: func(err error) {
			g.errors++
			g.text = err.Error()
		},
		OnRequest: func(s rx.Subscription) { sub = s },
	})
	gvRunGo()
	gvEnsures("subscribing registers the stream, once, under the request's id", w.register == 1 && w.stream.StreamID() == request.StreamID)
	gvEnsures("nothing is sent before there is demand", w.frames == 0 && sub != nil)
	sub.Request(n1)
	gvRunGo()
	gvEnsures("the first demand sends the request frame, once", w.frames == 1 && w.reqs == 1 && !w.late)
	gvEnsures("with the demand as its initial count", sameRequest(w, &request, d0, m0, uint32(n1)))
	if answered {
		p := payload.New(data, md)
		w.stream.OnNext(p)
		gvRunGo()
		gvEnsures("a value from the peer is delivered, once", g.values == 1 && g.p == payload.Payload(p))
		gvEnsures("and ends nothing", g.completes == 0 && g.errors == 0)
	}
	sent := w.frames
	switch what {
	case 0:
		sub.Request(n2)
		gvRunGo()
		r, ok := w.last.(*frames.RequestN)
		gvEnsures("a later demand sends one request-n with that count", w.frames == sent+1 && ok && r.N == uint32(n2) && r.StreamID == request.StreamID)
	case 1:
		sub.Cancel()
		gvRunGo()
		r, ok := w.last.(*frames.Cancel)
		gvEnsures("cancelling sends one cancel", w.frames == sent+1 && ok && r.StreamID == request.StreamID)
		gvEnsures("and delivers nothing", g.completes == 0 && g.errors == 0)
	case 2:
		w.stream.OnComplete()
		gvRunGo()
		gvEnsures("completion is delivered, once", g.completes == 1 && g.errors == 0)
		sub.Request(n2)
		gvRunGo()
		gvEnsures("no demand is sent after the end", w.frames == sent)
	case 3:
		w.stream.OnError(errors.New(text))
		w.stream.OnComplete() // as the connection does
		gvRunGo()
		gvEnsures("the error is delivered, once", g.errors == 1 && g.completes == 0 && g.text == text)
		sub.Request(n2)
		gvRunGo()
		gvEnsures("no demand is sent after an error", w.frames == sent)
	}
}

//@ contract Mono
//@ prop C30
func spec_Mono(request frames.RequestPayload, what int, data, md []byte, text string) {
	d0, m0 := gvOldBytes(request.Data), gvOldBytes(request.Metadata)
	w, g := &wire{}, &got{}
	m := Mono(context.Background(), request, w.send, w.add)
	gvEnsures("nothing happens before somebody subscribes", w.frames == 0 && w.register == 0)
	m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) {
			g.values++
			g.p = p
		},
		OnError: func(err error) {
			g.errors++
			g.text = err.Error()
		},
	})
	gvRunGo()
	gvEnsures("the stream is registered, once, under the request's id, before the request goes out", w.register == 1 && w.stream.StreamID() == request.StreamID && !w.late)
	gvEnsures("the request frame is sent, once", w.frames == 1 && w.reqs == 1)
	gvEnsures("as given", sameRequest(w, &request, d0, m0, request.InitialN))
	switch what {
	case 0:
		p := payload.New(data, md)
		w.stream.OnNext(p)
		w.stream.OnComplete()
		gvEnsures("the answer is delivered, once", g.values == 1 && g.p == payload.Payload(p) && g.errors == 0)
	case 1:
		w.stream.OnError(errors.New(text))
		w.stream.OnComplete()
		gvEnsures("the error is delivered, once", g.errors == 1 && g.text == text && g.values == 0)
	}
	gvRunGo()
	gvEnsures("nothing more is sent", w.frames == 1)
}

//@ contract (*streamMono).Async
//@ prop C30
func spec_streamMono_Async(request frames.RequestPayload, again bool) {
	w := &wire{}
	m := Mono(context.Background(), request, w.send, w.add)
	m.Async()
	if again {
		m.Async()
	}
	gvRunGo()
	gvEnsures("registered and sent once", w.register == 1 && w.frames == 1 && w.reqs == 1 && w.req.StreamID == request.StreamID)
}

//@ contract (*streamFlux).Async
//@ prop C30
func spec_streamFlux_Async(request frames.RequestPayload, again bool) {
	w := &wire{}
	f := Flux(context.Background(), request, nil, w.send, w.add)
	f.Async()
	if again {
		f.Async()
	}
	gvRunGo()
	gvEnsures("registered and sent once", w.register == 1 && w.frames == 1 && w.reqs == 1 && w.req.StreamID == request.StreamID)
}
