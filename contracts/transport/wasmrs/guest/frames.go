package guest

// Generated by gen/answers.py from contracts/handler/frames.go.

//@ load proxy

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
)

// What the registered streams and the peer saw of one frame.
var (
	heard struct {
		nexts, completes, errors, requests int
		by                                 proxy.Stream // the stream last called
		p                                  payload.Payload
		text                               string
		n                                  int
		order                              bool // a completion before the value or error
	}
)

func clear() {
	heard.nexts, heard.completes, heard.errors, heard.requests = 0, 0, 0, 0
	heard.by, heard.p, heard.text, heard.n, heard.order = nil, nil, "", 0, false
}

// plain is a registered stream that takes no demand.
type plain struct{ id uint32 }

func (s *plain) Context() context.Context { return nil }
func (s *plain) StreamID() uint32         { return s.id }
func (s *plain) OnNext(p payload.Payload) {
	heard.nexts++
	heard.by, heard.p = s, p
	if heard.completes > 0 {
		heard.order = true
	}
}
func (s *plain) OnComplete() {
	heard.completes++
	heard.by = s
}
func (s *plain) OnError(err error) {
	heard.errors++
	heard.by, heard.text = s, err.Error()
	if heard.completes > 0 {
		heard.order = true
	}
}

// demanding is one that does.
type demanding struct{ plain }

func (s *demanding) DoRequest(n int) {
	heard.requests++
	heard.by, heard.n = &s.plain, n
}

// with is a handler with any streams registered, odd ids among the guest's and even ones among the
// host's. The j-th stream of the frame's parity is the one the frame names; if j is their number, none.
func with(odd, even []plain, id uint32, j int) (engine, []plain) {
	i := newEngine(id, 0, 0, 0)
	proxy.SpecFill(0, i.odd(), len(odd), func(n int) proxy.Stream { return &odd[n] }, func(n int) uint32 { return odd[n].id })
	proxy.SpecFill(1, i.even(), len(even), func(n int) proxy.Stream { return &even[n] }, func(n int) uint32 { return even[n].id })
	ss := even
	if id&1 == 1 {
		ss = odd
	}
	gvRequires(0 <= j && j <= len(ss) && (j == len(ss) || ss[j].id == id))
	gvRequires(gvForall(0, len(ss), func(n int) bool { return n == j || ss[n].id != id }))
	gvAt(j)
	clear()
	return i, ss
}

func kept(which, gone int, ss []plain, k int) bool {
	return proxy.SpecKept(which, gone, func(n int) proxy.Stream { return &ss[n] }, k)
}

// after: the streams registered once the frame is handled.
func after(odd, even []plain, id uint32, j int, ends bool, k int) {
	if j < 0 {
		ends = false
	}
	if id&1 == 1 {
		if ends {
			gvEnsures("the stream that ended is unregistered, no other", kept(0, j, odd, k) && kept(1, -1, even, k))
			return
		}
	} else if ends {
		gvEnsures("the stream that ended is unregistered, no other", kept(1, j, even, k) && kept(0, -1, odd, k))
		return
	}
	gvEnsures("every stream stays registered", kept(0, -1, odd, k) && kept(1, -1, even, k))
}

func nothing(err error, refused bool) {
	gvEnsures("nothing is delivered", heard.nexts == 0 && heard.completes == 0 && heard.errors == 0 && heard.requests == 0)
	gvEnsures("nothing is sent", sent.count == 0)
	gvEnsures("reported unless a request-n", !reports || (err != nil) == refused)
}

//@ contract GuestSend
//@ prop C28
func spec_HandleFrame_Payload_routed(id uint32, complete bool, odd, even []plain, j, k int) {
	f := frames.Payload{StreamID: id, Next: true, Complete: complete}
	i, ss := with(odd, even, f.StreamID, j)
	err := i.deliver(&f)
	gvRunGo()
	i.observe()
	if j == len(ss) {
		nothing(err, true)
		after(odd, even, f.StreamID, j, false, k)
		return
	}
	gvEnsures("accepted", !reports || err == nil)
	n, c := 0, 0
	if f.Next {
		n = 1
	}
	if f.Complete {
		c = 1
	}
	gvEnsures("a value exactly if marked next", heard.nexts == n)
	gvEnsures("completion exactly if marked complete, after the value", heard.completes == c && !heard.order)
	gvEnsures("nothing else", heard.errors == 0 && heard.requests == 0 && sent.count == 0)
	if n+c > 0 {
		gvEnsures("to the stream named", heard.by == proxy.Stream(&ss[j]))
	}
	after(odd, even, f.StreamID, j, f.Complete, k)
}

//@ contract GuestSend
//@ prop C28
//@ exact (*Lookup).find (*Lookup).Add (*Lookup).Remove
func spec_HandleFrame_Payload(f frames.Payload, a, b plain) {
	gvRequires(len(f.Data) < 1<<22 && len(f.Metadata) < 1<<22)
	i := newEngine(f.StreamID, 0, 0, 0)
	gvRequires(a.id != b.id && b.id != f.StreamID)
	i.register(&b)
	i.register(&a)
	clear()
	data, md := gvOldBytes(f.Data), gvOldBytes(f.Metadata)
	i.deliver(&f)
	gvRunGo()
	i.observe()
	other, there := i.stream(b.id)
	gvEnsures("the other stream stays", there && other == proxy.Stream(&b))
	_, there = i.stream(f.StreamID)
	gvEnsures("the stream stays unless the frame completes it", there == (a.id == f.StreamID && !f.Complete))
	if a.id != f.StreamID {
		nothing(nil, true)
		return
	}
	n, c := 0, 0
	if f.Next {
		n = 1
	}
	if f.Complete {
		c = 1
	}
	gvEnsures("a value exactly if marked next", heard.nexts == n)
	gvEnsures("completion exactly if marked complete, after the value", heard.completes == c && !heard.order)
	gvEnsures("nothing else", heard.errors == 0 && heard.requests == 0 && sent.count == 0)
	if f.Next {
		gvEnsures("to the stream named", heard.by == proxy.Stream(&a))
		gvEnsures("the frame's data", gvBytesEq(heard.p.Data(), data))
		gvEnsures("the frame's metadata", gvBytesEq(heard.p.Metadata(), md))
	}
}

//@ contract GuestSend
//@ prop C28
func spec_HandleFrame_Error(f frames.Error, odd, even []plain, j, k int) {
	gvRequires(len(f.Data) < 1<<22)
	i, ss := with(odd, even, f.StreamID, j)
	err := i.deliver(&f)
	gvRunGo()
	i.observe()
	if j == len(ss) {
		nothing(err, true)
		after(odd, even, f.StreamID, j, false, k)
		return
	}
	gvEnsures("accepted", !reports || err == nil)
	gvEnsures("one error, before anything else", heard.errors == 1 && !heard.order && heard.nexts == 0 && heard.requests == 0 && sent.count == 0)
	gvEnsures("to the stream named", heard.by == proxy.Stream(&ss[j]))
	gvEnsures("with the frame's text", heard.text == f.Data)
	after(odd, even, f.StreamID, j, true, k)
}

//@ contract GuestSend
//@ prop C28
func spec_HandleFrame_Cancel(f frames.Cancel, odd, even []plain, j, k int) {
	i, ss := with(odd, even, f.StreamID, j)
	err := i.deliver(&f)
	gvRunGo()
	i.observe()
	if j == len(ss) {
		nothing(err, true)
		after(odd, even, f.StreamID, j, false, k)
		return
	}
	gvEnsures("accepted", !reports || err == nil)
	gvEnsures("the stream ends", heard.completes == 1 && heard.nexts == 0 && heard.errors == 0 && heard.requests == 0 && sent.count == 0)
	gvEnsures("the stream named", heard.by == proxy.Stream(&ss[j]))
	after(odd, even, f.StreamID, j, true, k)
}

//@ contract GuestSend
//@ prop C28
func spec_HandleFrame_RequestN_plain(f frames.RequestN, odd, even []plain, j, k int) {
	i, _ := with(odd, even, f.StreamID, j)
	err := i.deliver(&f)
	gvRunGo()
	i.observe()
	nothing(err, false)
	after(odd, even, f.StreamID, j, false, k)
}

//@ contract GuestSend
//@ prop C28
func spec_HandleFrame_RequestN(f frames.RequestN, odd, even []demanding, j, k int) {
	i := newEngine(f.StreamID, 0, 0, 0)
	proxy.SpecFill(0, i.odd(), len(odd), func(n int) proxy.Stream { return &odd[n] }, func(n int) uint32 { return odd[n].id })
	proxy.SpecFill(1, i.even(), len(even), func(n int) proxy.Stream { return &even[n] }, func(n int) uint32 { return even[n].id })
	ss := even
	if f.StreamID&1 == 1 {
		ss = odd
	}
	gvRequires(0 <= j && j <= len(ss) && (j == len(ss) || ss[j].id == f.StreamID))
	gvRequires(gvForall(0, len(ss), func(n int) bool { return n == j || ss[n].id != f.StreamID }))
	gvAt(j)
	clear()
	err := i.deliver(&f)
	gvRunGo()
	i.observe()
	if j == len(ss) {
		nothing(err, false)
	} else {
		gvEnsures("accepted", !reports || err == nil)
		gvEnsures("one demand of that count", heard.requests == 1 && heard.n == int(f.N))
		gvEnsures("and nothing else", heard.nexts == 0 && heard.completes == 0 && heard.errors == 0 && sent.count == 0)
		gvEnsures("to the stream named", heard.by == proxy.Stream(&ss[j].plain))
	}
	gvEnsures("every stream stays registered", proxy.SpecKept(0, -1, func(n int) proxy.Stream { return &odd[n] }, k) &&
		proxy.SpecKept(1, -1, func(n int) proxy.Stream { return &even[n] }, k))
}

//@ contract registerStream
//@ prop C28, C30
func spec_registerStream(id uint32, odd, even []plain, j, k int) {
	i, ss := with(odd, even, id, j)
	gvRequires(j == len(ss))
	s := &plain{id}
	i.register(s)
	if id&1 == 1 {
		gvEnsures("registered with its peers", proxy.SpecAdded(0, s, func(n int) proxy.Stream { return &odd[n] }, len(odd)))
		gvEnsures("no other stream is touched", proxy.SpecAdded(0, s, func(n int) proxy.Stream { return &odd[n] }, k) && kept(1, -1, even, k))
	} else {
		gvEnsures("registered with its peers", proxy.SpecAdded(1, s, func(n int) proxy.Stream { return &even[n] }, len(even)))
		gvEnsures("no other stream is touched", proxy.SpecAdded(1, s, func(n int) proxy.Stream { return &even[n] }, k) && kept(0, -1, odd, k))
	}
}

// sink records what a channel's inbound flux is given.
type sink struct{ plain }

func (s *sink) Next(p payload.Payload)       { s.OnNext(p) }
func (s *sink) Complete()                    { s.OnComplete() }
func (s *sink) Error(err error)              { s.OnError(err) }
func (s *sink) OnSubscribe(flux.OnSubscribe) {}

// subscription records demand.
type subscription struct{ demanding }

func (s *subscription) Request(n int) { s.DoRequest(n) }
func (s *subscription) Cancel()       {}

// The streams of requests being answered, with or without inbound values and a subscription.
//
//@ lemma
//@ prop C28
func spec_requestStream(id uint32, text string, data, md []byte, n, what int, inbound, subscribed bool) {
	clear()
	in, out := &sink{}, &subscription{}
	r := &requestStream{streamID: id}
	if inbound {
		r.sink = in
	}
	if subscribed {
		r.sub = out
	}
	gvEnsures("its own id", r.StreamID() == id)
	p := payload.New(data, md)
	switch what {
	case 0:
		r.OnNext(p)
		gvEnsures("the value goes to the inbound flux", heard.nexts == count(inbound) && (!inbound || heard.p == payload.Payload(p)))
	case 1:
		r.OnComplete()
		gvEnsures("completion goes to the inbound flux", heard.completes == count(inbound))
	case 2:
		r.OnError(errors.New(text))
		gvEnsures("the error goes to the inbound flux", heard.errors == count(inbound) && (!inbound || heard.text == text))
	case 3:
		r.DoRequest(n)
		gvEnsures("demand goes to the subscription", heard.requests == count(subscribed) && (!subscribed || heard.n == n))
	case 4:
		r.Request(n)
		gvEnsures("demand goes to the subscription", heard.requests == count(subscribed) && (!subscribed || heard.n == n))
	}
	gvEnsures("nothing else", heard.nexts+heard.completes+heard.errors+heard.requests <= 1)
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}
