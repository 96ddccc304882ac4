package flux

import "github.com/nanobus/iota/go/rx"

// record is what one subscriber received.
type record struct {
	nexts, completes, errors, finals int // finals: calls of the subscription's own finally
	val                              int
	err                              error
	sig                              rx.SignalType
	requests, cancels, demands       int // what reached the source, and callbacks asking for demand
	requested                        int
	order                            int // 1 if anything came after a terminal signal
}

func (r *record) over() bool { return r.completes+r.errors > 0 }

// wire gives s callbacks that record, those that are asked for.
func (r *record) wire(s *subscriber[int], onN, onC, onE, onF bool) {
	if onN {
		s.doOnNext = func(v int) {
			if r.over() {
				r.order = 1
			}
			r.nexts++
			r.val = v
		}
	}
	if onC {
		s.doOnComplete = func() { r.completes++ }
	}
	if onE {
		s.doOnError = func(err error) {
			r.errors++
			r.err = err
		}
	}
	if onF {
		s.doFinally = func(sig rx.SignalType) {
			r.finals++
			r.sig = sig
		}
	}
}

// The registered notifications are unknown functions: notes counts their calls, noteFn and noteSig are
// the noteK-th call's function and signal.
var (
	notes   int
	noteK   int
	noteFn  rx.FnFinally
	noteSig rx.SignalType
)

func watch(k int) {
	notes, noteK, noteFn, noteSig = 0, k, nil, 0
	gvOnCall(func(f rx.FnFinally, sig rx.SignalType) {
		if notes == noteK {
			noteFn, noteSig = f, sig
		}
		notes++
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

//@ invariant (*subscriber).finally#0
func inv_finally(s *subscriber[int], signal rx.SignalType, rangeindex int) bool {
	gvAt(rangeindex + 1)
	return rangeindex >= -1 && rangeindex < len(s.f.callbacks) &&
		notes == rangeindex+1 &&
		(noteK < 0 || noteK > rangeindex || noteSig == signal && gvSameFunc(noteFn, s.f.callbacks[noteK]))
}

type given struct {
	closed                    bool
	n                         int
	err                       error
	sig                       rx.SignalType
	noRequest                 bool
	onN, onC, onE, onF        bool
	canRequest, canCancel, on bool
}

// state is a subscriber in any state: open, or closed by some earlier signal.
func state(g given, cbs []rx.FnFinally, r *record) *subscriber[int] {
	gvRequires(gvForall(0, len(cbs), func(i int) bool { return cbs[i] != nil }))
	f := &flux[int]{callbacks: cbs}
	s := &subscriber[int]{closed: g.closed, n: g.n, err: g.err, signal: g.sig, noRequest: g.noRequest, f: f}
	f.subscriber = s
	r.wire(s, g.onN, g.onC, g.onE, g.onF)
	if g.canRequest {
		s.sub.Request = func(n int) {
			r.requests++
			r.requested = n
		}
	}
	if g.canCancel {
		s.sub.Cancel = func() { r.cancels++ }
	}
	if g.on {
		s.doOnRequest = func(rx.Subscription) { r.demands++ }
	}
	return s
}

func ended(s *subscriber[int], g given, r *record, cbs []rx.FnFinally, k int, sig rx.SignalType) {
	gvEnsures("no value is delivered", r.nexts == 0)
	gvEnsures("finally runs once, with the matching signal", r.finals == b2i(g.onF) && (!g.onF || r.sig == sig))
	gvEnsures("every notification runs once", notes == len(cbs))
	if 0 <= k && k < len(cbs) {
		gvEnsures("each in order, with the matching signal", gvSameFunc(noteFn, cbs[k]) && noteSig == sig)
	}
	gvEnsures("the subscription is over", s.closed && s.signal == sig)
}

func unchanged(s *subscriber[int], g given, r *record) {
	gvEnsures("nothing is delivered after a terminal signal", r.nexts == 0 && r.completes == 0 && r.errors == 0 && r.finals == 0 && notes == 0)
	gvEnsures("the outcome is kept", s.closed && s.err == g.err && s.signal == g.sig)
}

//@ contract (*subscriber).Next
//@ prop C22
func spec_subscriber_Next(v int, g given, cbs []rx.FnFinally) {
	r := &record{}
	s := state(g, cbs, r)
	watch(0)
	s.Next(v)
	gvRunGo()
	if g.closed {
		unchanged(s, g, r)
		return
	}
	gvEnsures("the value is delivered once", r.nexts == b2i(g.onN) && (!g.onN || r.val == v))
	gvEnsures("and nothing else", r.completes == 0 && r.errors == 0 && r.finals == 0 && notes == 0)
	gvEnsures("the subscription goes on", !s.closed)
}

//@ contract (*subscriber).Complete
//@ prop C22
func spec_subscriber_Complete(g given, cbs []rx.FnFinally, k int) {
	r := &record{}
	s := state(g, cbs, r)
	watch(k)
	s.Complete()
	if g.closed {
		unchanged(s, g, r)
		return
	}
	gvEnsures("completion is delivered once", r.completes == b2i(g.onC) && r.errors == 0)
	ended(s, g, r, cbs, k, rx.SignalComplete)
}

//@ contract (*subscriber).Error
//@ prop C22
func spec_subscriber_Error(err error, g given, cbs []rx.FnFinally, k int) {
	r := &record{}
	s := state(g, cbs, r)
	watch(k)
	s.Error(err)
	if g.closed {
		unchanged(s, g, r)
		return
	}
	gvEnsures("the error is delivered once", r.errors == b2i(g.onE) && r.completes == 0 && (!g.onE || r.err == err))
	gvEnsures("the error is kept", s.err == err)
	ended(s, g, r, cbs, k, rx.SignalError)
}

//@ contract (*subscriber).Cancel
//@ prop C22
func spec_subscriber_Cancel(g given, cbs []rx.FnFinally, k int) {
	r := &record{}
	s := state(g, cbs, r)
	watch(k)
	s.Cancel()
	if g.closed {
		unchanged(s, g, r)
		gvEnsures("a finished source is not cancelled", r.cancels == 0)
		return
	}
	gvEnsures("the source is cancelled once", r.cancels == b2i(g.canCancel))
	gvEnsures("neither completion nor error is delivered", r.completes == 0 && r.errors == 0)
	ended(s, g, r, cbs, k, rx.SignalCancel)
}

//@ contract (*subscriber).Request
//@ prop C22
func spec_subscriber_Request(n int, g given, cbs []rx.FnFinally) {
	r := &record{}
	s := state(g, cbs, r)
	watch(0)
	s.Request(n)
	gvRunGo()
	gvEnsures("demand is passed on to the source", r.requests == b2i(g.canRequest) && (!g.canRequest || r.requested == n))
	gvEnsures("asking for values delivers no signal", r.nexts == 0 && r.completes == 0 && r.errors == 0 && r.finals == 0 && notes == 0 && s.closed == g.closed)
}

//@ contract (*subscriber).OnSubscribe
//@ prop C22
func spec_subscriber_OnSubscribe(g given, cbs []rx.FnFinally) {
	r := &record{}
	g.canRequest, g.canCancel = false, false
	s := state(g, cbs, r)
	watch(0)
	s.OnSubscribe(OnSubscribe{
		Request: func(n int) {
			r.requests++
			r.requested = n
		},
		Cancel: func() { r.cancels++ },
	})
	gvRunGo()
	gvEnsures("no signal", r.nexts == 0 && r.completes == 0 && r.errors == 0 && r.finals == 0 && notes == 0 && s.closed == g.closed)
	if g.closed {
		gvEnsures("a finished subscriber asks for nothing", r.requests == 0)
	} else {
		gvEnsures("earlier demand reaches the source", r.requests == b2i(g.n > 0) && (g.n <= 0 || r.requested == g.n))
	}
	gvEnsures("subscribing cancels nothing", r.cancels == 0)
}

// A callback that signals the subscriber again: what comes after the terminal signal is ignored.
//
//@ lemma
//@ prop C22
func lemma_reentrant(v int, err error, what, again int, e2 error) {
	f := &flux[int]{}
	s := &subscriber[int]{f: f, noRequest: true}
	f.subscriber = s
	watch(-1)
	r := &record{}
	late := 0
	var lateSig rx.SignalType
	depth := 0
	re := func() {
		if depth > 0 {
			return
		}
		depth++
		switch again {
		case 0:
			s.Next(1)
		case 1:
			s.Error(e2)
		case 2:
			s.Cancel()
		case 3:
			s.Complete()
		case 4:
			f.Notify(func(g rx.SignalType) {
				late++
				lateSig = g
			})
		}
	}
	s.doOnNext = func(x int) {
		if r.over() {
			r.order = 1
		}
		r.nexts++
		re()
	}
	s.doOnComplete = func() { r.completes++; re() }
	s.doOnError = func(error) { r.errors++; re() }
	s.doFinally = func(g rx.SignalType) { r.finals++; r.sig = g; re() }
	want := rx.SignalComplete
	switch what {
	case 0:
		s.Complete()
		gvEnsures("one completion and nothing else", r.completes == 1 && r.errors == 0 && r.nexts == 0)
	case 1:
		s.Error(err)
		want = rx.SignalError
		gvEnsures("one error and nothing else", r.completes == 0 && r.errors == 1 && r.nexts == 0)
	case 2:
		s.Cancel()
		want = rx.SignalCancel
		gvEnsures("nothing after cancellation", r.completes == 0 && r.errors == 0 && r.nexts == 0)
	case 3:
		s.Next(v)
		gvEnsures("at most one terminal signal, at the end", r.completes+r.errors <= 1 && r.order == 0 && r.finals <= 1)
		return
	default:
		return
	}
	gvEnsures("finally once, with the matching signal", r.finals == 1 && r.sig == want)
	if again == 4 {
		gvEnsures("a late notification runs once, with the matching signal", late == 1 && lateSig == want)
	}
}

//@ contract (*flux).Notify
//@ prop C22
func spec_flux_Notify(subscribed bool, g given, cbs []rx.FnFinally, fn rx.FnFinally, k int) {
	gvRequires(fn != nil)
	s := state(g, cbs, &record{})
	f := s.f
	if !subscribed {
		f.subscriber = nil
	}
	n := len(cbs)
	watch(0)
	gvModifies(&f.callbacks, f.callbacks[n:cap(f.callbacks)])
	f.Notify(fn)
	if subscribed && g.closed {
		gvEnsures("a finished flux notifies at once", notes == 1 && gvSameFunc(noteFn, fn) && noteSig == g.sig)
		gvEnsures("and does not notify again", len(f.callbacks) == n)
	} else {
		gvEnsures("otherwise later", notes == 0)
		gvEnsures("it is registered", len(f.callbacks) == n+1 && gvSameFunc(f.callbacks[n], fn))
	}
	if 0 <= k && k < n {
		gvEnsures("the others stay registered", gvSameFunc(f.callbacks[k], cbs[k]))
	}
}

// subscribe wires a recorder to any flux.
func (r *record) subscribe(f Flux[int], onN, onC, onE, onF bool) {
	var s subscriber[int]
	r.wire(&s, onN, onC, onE, onF)
	f.Subscribe(Subscribe[int]{OnNext: s.doOnNext, OnComplete: s.doOnComplete, OnError: s.doOnError, Finally: s.doFinally, NoRequest: true})
}

func send(s Sink[int], what, v int, e error) {
	switch what {
	case 0:
		s.Next(v)
	case 1:
		s.Complete()
	case 2:
		s.Error(e)
	}
}

// What a source sends while it is being subscribed to and what it sends later both reach the
// subscriber that was asked for.
//
//@ contract (*flux).Subscribe
//@ prop C22
func spec_flux_Subscribe(what [3]int, v [3]int, e [3]error, onN, onC, onE, onF bool) {
	r := &record{}
	watch(-1)
	var sink Sink[int]
	f := Create(func(s Sink[int]) {
		sink = s
		send(s, what[0], v[0], e[0])
	})
	r.subscribe(f, onN, onC, onE, onF)
	send(sink, what[1], v[1], e[1])
	send(sink, what[2], v[2], e[2])
	gvEnsures("nothing after the end", r.order == 0)
	nexts, over := 0, -1
	for i := 0; i < 3; i++ {
		if over >= 0 {
			break
		}
		switch what[i] {
		case 0:
			nexts++
		case 1, 2:
			over = i
		}
	}
	gvEnsures("every value before the end", r.nexts == nexts*b2i(onN))
	switch {
	case over < 0:
		gvEnsures("no end yet", r.completes == 0 && r.errors == 0 && r.finals == 0)
	case what[over] == 1:
		gvEnsures("one completion", r.completes == b2i(onC) && r.errors == 0)
		gvEnsures("finally completes", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalComplete))
	default:
		gvEnsures("one error", r.completes == 0 && r.errors == b2i(onE) && (!onE || r.err == e[over]))
		gvEnsures("finally errs", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalError))
	}
}

//@ contract (errorFlow).Subscribe
//@ prop C22
func spec_Error(e error, onN, onC, onE, onF bool, fn rx.FnFinally) {
	gvRequires(fn != nil)
	r := &record{}
	watch(0)
	f := Error[int](e)
	r.subscribe(f, onN, onC, onE, onF)
	gvEnsures("one error", r.nexts == 0 && r.completes == 0 && r.errors == b2i(onE) && (!onE || r.err == e))
	gvEnsures("finally errs, once", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalError))
	f.Notify(fn)
	gvEnsures("notified once of the error", notes == 1 && noteSig == rx.SignalError && gvSameFunc(noteFn, fn))
}

// A mapped flux, for every sequence of three signals (longer ones repeat these steps: the mapping
// keeps no other state than whether it failed), with conversions that fail at will.
//
//@ contract (mapper).Subscribe
//@ prop C22
func spec_mapper_Subscribe(what [3]int, v [3]int, e [3]error, out [3]int, fails [3]bool, terr error, onN, onC, onE, onF bool) {
	gvRequires(terr != nil)
	r := &record{}
	watch(-1)
	step, calls, arg := 0, 0, 0
	var sink Sink[int]
	m := Map(Create(func(s Sink[int]) { sink = s }), func(x int) (int, error) {
		calls++
		arg = x
		if fails[step] {
			return 0, terr
		}
		return out[step], nil
	})
	r.subscribe(m, onN, onC, onE, onF)
	over := false
	for step = 0; step < 3; step++ {
		n, c, er, fi, ca := r.nexts, r.completes, r.errors, r.finals, calls
		send(sink, what[step], v[step], e[step])
		if over {
			gvEnsures("nothing after the end", r.nexts == n && r.completes == c && r.errors == er && r.finals == fi)
			continue
		}
		switch {
		case what[step] == 0 && fails[step]:
			gvEnsures("a failed conversion is one error", r.nexts == n && r.completes == c && r.errors == er+b2i(onE) && (!onE || r.err == terr))
			gvEnsures("finally errs, once", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalError))
			over = true
		case what[step] == 0:
			gvEnsures("the value is converted once", calls == ca+1 && arg == v[step])
			gvEnsures("the converted value is delivered", r.nexts == n+b2i(onN) && (!onN || r.val == out[step]))
			gvEnsures("and nothing else", r.completes == c && r.errors == er && r.finals == fi)
		case what[step] == 1:
			gvEnsures("completion is passed on", r.nexts == n && r.completes == c+b2i(onC) && r.errors == er)
			gvEnsures("finally completes, once", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalComplete))
			over = true
		case what[step] == 2:
			gvEnsures("an error is passed on", r.nexts == n && r.completes == c && r.errors == er+b2i(onE) && (!onE || r.err == e[step]))
			gvEnsures("finally errs, once", r.finals == b2i(onF) && (!onF || r.sig == rx.SignalError))
			over = true
		}
	}
}

// A processor passes signals on to whoever subscribed.
//
//@ contract (*processor).Next
//@ prop C22
func spec_processor(what [3]int, v [3]int, e [3]error, onN, onC, onE, onF bool, early bool) {
	r := &record{}
	watch(-1)
	p := NewProcessor[int]()
	cancelled := 0
	if early {
		p.OnSubscribe(OnSubscribe{Cancel: func() { cancelled++ }})
	}
	r.subscribe(p, onN, onC, onE, onF)
	if !early {
		p.OnSubscribe(OnSubscribe{Cancel: func() { cancelled++ }})
	}
	over := false
	for i := 0; i < 3; i++ {
		n, c, er, fi := r.nexts, r.completes, r.errors, r.finals
		if what[i] == 3 {
			p.Subscription().Cancel()
		} else {
			send(p, what[i], v[i], e[i])
		}
		if over {
			gvEnsures("nothing after the end", r.nexts == n && r.completes == c && r.errors == er && r.finals == fi)
			continue
		}
		switch what[i] {
		case 0:
			gvEnsures("values are passed on", r.nexts == n+b2i(onN) && (!onN || r.val == v[i]) && r.completes == c && r.errors == er && r.finals == fi)
		case 1:
			gvEnsures("completion is passed on", r.nexts == n && r.completes == c+b2i(onC) && r.errors == er && r.finals == b2i(onF))
			over = true
		case 2:
			gvEnsures("errors are passed on", r.nexts == n && r.completes == c && r.errors == er+b2i(onE) && (!onE || r.err == e[i]) && r.finals == b2i(onF))
			over = true
		case 3:
			gvEnsures("cancellation reaches the source", cancelled == 1 && r.nexts == n && r.completes == c && r.errors == er && r.finals == b2i(onF))
			over = true
		}
	}
}
