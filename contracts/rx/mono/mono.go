package mono

import "github.com/nanobus/iota/go/rx"

// What the unknown callbacks received. Finally and notification callbacks have one type: finals counts
// their calls, and finalFn and finalSig are the finalK-th call's function and signal.
var (
	succs, errs, finals int
	succVal             int
	errVal              error
	finalK              int
	finalFn             rx.FnFinally
	finalSig            rx.SignalType
)

// watch(k) resets the record.
func watch(k int) {
	succs, errs, finals, finalK = 0, 0, 0, k
	finalFn, finalSig = nil, 0
	gvOnCall(func(f rx.FnOnNext[int], v int) {
		succs++
		succVal = v
	})
	gvOnCall(func(f rx.FnOnError, err error) {
		errs++
		errVal = err
	})
	gvOnCall(func(f rx.FnFinally, sig rx.SignalType) {
		if finals == finalK {
			finalFn, finalSig = f, sig
		}
		finals++
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var before int

//@ invariant (*subscriber).finally#0
func inv_finally(s *subscriber[int], signal rx.SignalType, rangeindex int) bool {
	n := b2i(s.doFinally != nil)
	gvAt(rangeindex + 1)
	return rangeindex >= -1 && rangeindex < len(s.m.callbacks) &&
		finals == n+rangeindex+1 &&
		(finalK < 0 || finalK >= finals || finalSig == signal) &&
		(finalK < n || finalK >= finals || gvSameFunc(finalFn, s.m.callbacks[finalK-n])) &&
		(finalK != 0 || n == 0 || gvSameFunc(finalFn, s.doFinally))
}

// state is a subscriber in any state: open, or closed by some earlier signal.
func state(closed bool, value int, err error, sig rx.SignalType, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, cbs []rx.FnFinally) *subscriber[int] {
	gvRequires(gvForall(0, len(cbs), func(i int) bool { return cbs[i] != nil }))
	m := &mono[int]{callbacks: cbs}
	s := &subscriber[int]{closed: closed, value: value, err: err, signal: sig, m: m, doOnSuccess: onS, doOnError: onE, doFinally: onF}
	m.subscriber = s
	return s
}

func finalsRan(s *subscriber[int], onF rx.FnFinally, cbs []rx.FnFinally, k int, sig rx.SignalType) {
	n := b2i(onF != nil)
	gvEnsures("finally and every notification run exactly once", finals == n+len(cbs))
	if 0 <= k && k < n+len(cbs) {
		gvEnsures("with the matching signal", finalSig == sig)
		if k < n {
			gvEnsures("finally runs", gvSameFunc(finalFn, onF))
		} else {
			gvEnsures("each notification runs, in order", gvSameFunc(finalFn, cbs[k-n]))
		}
	}
	gvEnsures("the signal is kept", s.closed && s.signal == sig)
}

func unchanged(s *subscriber[int], value int, err error, sig rx.SignalType) {
	gvEnsures("nothing is delivered after the first signal", succs == 0 && errs == 0 && finals == 0)
	gvEnsures("the first outcome is kept", s.closed && s.value == value && s.err == err && s.signal == sig)
}

//@ contract (*subscriber).Success
//@ prop C21
func spec_subscriber_Success(v int, closed bool, value int, err error, sig rx.SignalType, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, cbs []rx.FnFinally, k int) {
	s := state(closed, value, err, sig, onS, onE, onF, cbs)
	watch(k)
	s.Success(v)
	if closed {
		unchanged(s, value, err, sig)
		return
	}
	gvEnsures("success is delivered once", succs == b2i(onS != nil) && errs == 0)
	gvEnsures("with the value", succs == 0 || succVal == v)
	got, gerr := s.m.Get()
	gvEnsures("the value is kept", got == v && gerr == err)
	finalsRan(s, onF, cbs, k, rx.SignalComplete)
}

//@ contract (*subscriber).Error
//@ prop C21
func spec_subscriber_Error(v error, closed bool, value int, err error, sig rx.SignalType, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, cbs []rx.FnFinally, k int) {
	s := state(closed, value, err, sig, onS, onE, onF, cbs)
	watch(k)
	s.Error(v)
	if closed {
		unchanged(s, value, err, sig)
		return
	}
	gvEnsures("the error is delivered once", errs == b2i(onE != nil) && succs == 0)
	gvEnsures("the same error", errs == 0 || errVal == v)
	got, gerr := s.m.Get()
	gvEnsures("the error is kept", got == value && gerr == v)
	finalsRan(s, onF, cbs, k, rx.SignalError)
}

//@ contract (*subscriber).Cancel
//@ prop C21
func spec_subscriber_Cancel(closed bool, value int, err error, sig rx.SignalType, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, cbs []rx.FnFinally, k int) {
	s := state(closed, value, err, sig, onS, onE, onF, cbs)
	watch(k)
	s.Cancel()
	if closed {
		unchanged(s, value, err, sig)
		return
	}
	gvEnsures("neither success nor error is delivered", succs == 0 && errs == 0)
	finalsRan(s, onF, cbs, k, rx.SignalCancel)
}

// A callback that signals again, or registers a notification: the signals are ignored and the
// notification runs at once with the right signal.
//
//@ lemma
//@ prop C21
func lemma_reentrant(v int, err error, fail bool, again int, e2 error) {
	m := &mono[int]{}
	s := &subscriber[int]{m: m}
	m.subscriber = s
	ns, ne, nf, nn := 0, 0, 0, 0
	watch(-1)
	var nsig, fsig rx.SignalType
	re := func() {
		switch again {
		case 0:
			s.Success(1)
		case 1:
			s.Error(e2)
		case 2:
			s.Cancel()
		case 3:
			m.Notify(func(g rx.SignalType) {
				nn++
				nsig = g
			})
		}
	}
	s.doOnSuccess = func(int) { ns++; re() }
	s.doOnError = func(error) { ne++; re() }
	s.doFinally = func(g rx.SignalType) { nf++; finals++; fsig = g; re() }
	want := rx.SignalComplete
	if fail {
		s.Error(err)
		want = rx.SignalError
		gvEnsures("one error", ns == 0 && ne == 1)
	} else {
		s.Success(v)
		gvEnsures("one success", ns == 1 && ne == 0)
	}
	gvEnsures("finally once, with the matching signal", nf == 1 && fsig == want)
	if again == 3 {
		gvEnsures("late notifications run once each, with the matching signal", nn == 2 && nsig == want)
	}
	got, gerr := m.Get()
	if fail {
		gvEnsures("the first outcome stays", gerr == err && got == 0)
	} else {
		gvEnsures("the first outcome stays", gerr == nil && got == v)
	}
}

//@ contract (*mono).Notify
//@ prop C21
func spec_mono_Notify(subscribed, closed bool, value int, err error, sig rx.SignalType, cbs []rx.FnFinally, fn rx.FnFinally, k int) {
	gvRequires(fn != nil)
	s := state(closed, value, err, sig, nil, nil, nil, cbs)
	m := s.m
	if !subscribed {
		m.subscriber = nil
	}
	n := len(cbs)
	watch(0)
	gvModifies(&m.callbacks, m.callbacks[n:cap(m.callbacks)])
	m.Notify(fn)
	if subscribed && closed {
		gvEnsures("a finished mono notifies at once", finals == 1 && gvSameFunc(finalFn, fn) && finalSig == sig)
		gvEnsures("and does not notify again", len(m.callbacks) == n)
	} else {
		gvEnsures("otherwise later", finals == 0)
		gvEnsures("it is registered", len(m.callbacks) == n+1 && gvSameFunc(m.callbacks[n], fn))
	}
	if 0 <= k && k < n {
		gvEnsures("the others stay registered", gvSameFunc(m.callbacks[k], cbs[k]))
	}
}

//@ contract (*mono).Subscribe
//@ prop C21
func spec_mono_Subscribe(onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, first, second int, a, b int, e1, e2 error) {
	watch(0)
	var sink Sink[int]
	signal := func(n int, s Sink[int], v int, e error) {
		switch n {
		case 0:
			s.Success(v)
		case 1:
			s.Error(e)
		}
	}
	m := Create(func(s Sink[int]) {
		sink = s
		signal(first, s, a, e1)
	})
	m.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE, Finally: onF})
	signal(second, sink, b, e2)
	which, v, e := first, a, e1
	if first != 0 && first != 1 {
		which, v, e = second, b, e2
	}
	switch which {
	case 0:
		gvEnsures("success reaches its own callback once", succs == b2i(onS != nil) && errs == 0 && (onS == nil || succVal == v))
		gvEnsures("finally completes", finals == b2i(onF != nil) && (onF == nil || finalSig == rx.SignalComplete && gvSameFunc(finalFn, onF)))
		got, gerr := m.Get()
		gvEnsures("the value of the first signal is kept", got == v && gerr == nil)
	case 1:
		gvEnsures("the error reaches its own callback once", errs == b2i(onE != nil) && succs == 0 && (onE == nil || errVal == e))
		gvEnsures("finally errs", finals == b2i(onF != nil) && (onF == nil || finalSig == rx.SignalError && gvSameFunc(finalFn, onF)))
		_, gerr := m.Get()
		gvEnsures("the error of the first signal is kept", gerr == e)
	default:
		gvEnsures("no signal, no outcome", succs == 0 && errs == 0 && finals == 0)
	}
}

//@ contract (justSingle).Subscribe
//@ prop C21
func spec_Just(v int, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, fn rx.FnFinally) {
	gvRequires(fn != nil)
	watch(0)
	m := Just(v)
	m.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE, Finally: onF})
	gvEnsures("one success with the value", succs == b2i(onS != nil) && errs == 0 && (onS == nil || succVal == v))
	gvEnsures("finally completes, once", finals == b2i(onF != nil) && (onF == nil || finalSig == rx.SignalComplete && gvSameFunc(finalFn, onF)))
	got, err := m.Get()
	gvEnsures("the value can be had", got == v && err == nil)
	watch(0)
	m.Notify(fn)
	gvEnsures("notified once of completion", finals == 1 && finalSig == rx.SignalComplete && gvSameFunc(finalFn, fn))
}

//@ contract (errorSingle).Subscribe
//@ prop C21
func spec_Error(e error, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally, fn rx.FnFinally) {
	gvRequires(fn != nil)
	watch(0)
	m := Error[int](e)
	m.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE, Finally: onF})
	gvEnsures("one error", errs == b2i(onE != nil) && succs == 0 && (onE == nil || errVal == e))
	gvEnsures("finally errs, once", finals == b2i(onF != nil) && (onF == nil || finalSig == rx.SignalError && gvSameFunc(finalFn, onF)))
	_, err := m.Get()
	gvEnsures("the error can be had", err == e)
	watch(0)
	m.Notify(fn)
	gvEnsures("notified once of the error", finals == 1 && finalSig == rx.SignalError && gvSameFunc(finalFn, fn))
}

// source is what a mapped mono subscribes to: it signals what it is told.
func source(fail bool, v int, e error) Mono[int] {
	return Create(func(s Sink[int]) {
		if fail {
			s.Error(e)
		} else {
			s.Success(v)
		}
	})
}

//@ contract (*mapper).Subscribe
//@ prop C21
func spec_mapper_Subscribe(fail bool, v int, e error, out int, terr error, onS rx.FnOnNext[int], onE rx.FnOnError, onF rx.FnFinally) {
	gvRequires(e != nil)
	watch(0)
	calls, arg := 0, 0
	m := Map(source(fail, v, e), func(x int) (int, error) {
		calls++
		arg = x
		return out, terr
	})
	m.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE, Finally: onF})
	switch {
	case fail:
		gvEnsures("the original error, once", errs == b2i(onE != nil) && succs == 0 && (onE == nil || errVal == e) && calls == 0)
	case terr != nil:
		gvEnsures("the conversion error, once", errs == b2i(onE != nil) && succs == 0 && (onE == nil || errVal == terr))
	default:
		gvEnsures("the converted value, once", succs == b2i(onS != nil) && errs == 0 && (onS == nil || succVal == out))
	}
	gvEnsures("the value is converted", fail || calls == 1 && arg == v)
	gvEnsures("finally, once", finals == b2i(onF != nil))
	got, gerr := m.Get()
	switch {
	case fail:
		gvEnsures("the kept error", gerr == e)
	case terr != nil:
		gvEnsures("the kept conversion error", gerr == terr)
	default:
		gvEnsures("the kept value, converted", got == out && gerr == nil)
	}
}

//@ contract (*mapper).Notify
//@ prop C21
func spec_mapper_Notify(early, fail bool, v int, e error, fn rx.FnFinally) {
	gvRequires(fn != nil)
	watch(0)
	m := Map(source(fail, v, e), func(x int) (int, error) { return x, nil })
	if early {
		m.Notify(fn)
	}
	m.Subscribe(Subscribe[int]{})
	if !early {
		m.Notify(fn)
	}
	want := rx.SignalComplete
	if fail {
		want = rx.SignalError
	}
	gvEnsures("notified once, with the matching signal", finals == 1 && finalSig == want && gvSameFunc(finalFn, fn))
}

// A processor is a source and a mono in one: whatever the order of signals and subscription, the first
// signal is the outcome.
//
//@ contract (*ProcessorImpl).Success
//@ prop C21
func spec_Processor(ops [3]int, v [3]int, e [3]error, at int, onS rx.FnOnNext[int], onE rx.FnOnError) {
	gvRequires(0 <= at && at <= 3)
	watch(0)
	p := NewProcessor[int]()
	first := -1
	for i := 0; i < 3; i++ {
		if at == i {
			p.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE})
		}
		switch ops[i] {
		case 0:
			p.Success(v[i])
		case 1:
			gvRequires(e[i] != nil)
			p.Error(e[i])
		default:
			continue
		}
		if first < 0 {
			first = i
		}
	}
	if at == 3 {
		p.Subscribe(Subscribe[int]{OnSuccess: onS, OnError: onE})
	}
	if first < 0 {
		gvEnsures("no signal, no outcome", succs == 0 && errs == 0)
	} else if ops[first] == 0 {
		gvEnsures("the first success, once", succs == b2i(onS != nil) && errs == 0 && (onS == nil || succVal == v[first]))
	} else {
		gvEnsures("the first error, once", errs == b2i(onE != nil) && succs == 0 && (onE == nil || errVal == e[first]))
	}
}
