package buffer

// The buffer's contents are what its channel holds (at most one element) followed by the backlog.
// Its invariant: the channel is closed only when the buffer is disposed and the backlog is empty.
// Every operation is shown, from every state that satisfies the invariant, to keep it and to change
// the contents as a queue does; by induction this covers every history.

func bufferOf(has bool, head int, backlog []int, disposed, closed bool) *Unbounded[int] {
	gvRequires(!closed || disposed && len(backlog) == 0)
	b := NewUnbounded[int]()
	b.backlog = backlog
	b.disposed = disposed
	if has {
		b.c <- head
	}
	if closed {
		close(b.c)
	}
	return b
}

// take receives what the channel offers without waiting.
func take(b *Unbounded[int]) (v int, got, open bool) {
	select {
	case v, open = <-b.Get():
		return v, open, open
	default:
		return 0, false, true
	}
}

//@ contract (*Unbounded[int]).Put
//@ prop C26
func spec_Unbounded_Put(has bool, head int, backlog []int, disposed, closed bool, t int, k int) {
	b := bufferOf(has, head, backlog, disposed, closed)
	n := len(backlog)
	gvRequires(0 <= k && k < n || k == 0 && n == 0)
	old := 0
	if n > 0 {
		old = backlog[k]
	}
	c := b.Get()
	ok := b.Put(t)
	gvEnsures("accepted exactly while not disposed", ok == !disposed)
	gvEnsures("the same channel", b.Get() == c && cap(b.c) == 1)
	gvEnsures("not disposed by it", b.disposed == disposed)
	v, got, open := take(b)
	gvEnsures("the channel stays open or closed", open == (!closed || has))
	if n > 0 {
		gvEnsures("what was buffered stays in its place", b.backlog[k] == old)
	}
	if has {
		gvEnsures("the first element stays first", got && v == head)
	}
	switch {
	case disposed:
		gvEnsures("a refused element is not stored", len(b.backlog) == n && got == has)
	case !has && n == 0:
		gvEnsures("into the empty buffer", got && v == t && len(b.backlog) == 0)
	default:
		gvEnsures("at the end", got == has && len(b.backlog) == n+1 && b.backlog[n] == t)
	}
}

//@ contract (*Unbounded[int]).Load
//@ prop C26
func spec_Unbounded_Load(has bool, head int, backlog []int, disposed, closed bool, k int) {
	b := bufferOf(has, head, backlog, disposed, closed)
	n := len(backlog)
	gvRequires(0 <= k && k < n || k == 0 && n == 0)
	first, old := 0, 0
	if n > 0 {
		first, old = backlog[0], backlog[k]
	}
	c := b.Get()
	r := b.Load()
	gvEnsures("the same channel", b.Get() == c && cap(b.c) == 1)
	gvEnsures("not disposed by it", b.disposed == disposed)
	v, got, open := take(b)
	if has {
		gvEnsures("the first element stays first", got && v == head)
		_, _, open = take(b)
	}
	switch {
	case n > 0 && !has:
		gvEnsures("the next element is offered", r == 1 && got && v == first && len(b.backlog) == n-1)
		if k > 0 {
			gvEnsures("the rest moves up", b.backlog[k-1] == old)
		}
	case n > 0:
		gvEnsures("a full channel is left alone", r == 0 && len(b.backlog) == n && b.backlog[k] == old)
	case disposed:
		gvEnsures("all loaded: the channel is closed", r == -1 && !open && len(b.backlog) == 0)
	default:
		gvEnsures("nothing to load", r == 0 && len(b.backlog) == 0 && got == has)
	}
	if !(n == 0 && disposed) && !closed {
		gvEnsures("otherwise it stays open", open)
	}
}

//@ contract (*Unbounded[int]).Dispose
//@ prop C26
func spec_Unbounded_Dispose(has bool, head int, backlog []int, disposed, closed bool, k int) {
	b := bufferOf(has, head, backlog, disposed, closed)
	n := len(backlog)
	gvRequires(0 <= k && k < n || k == 0 && n == 0)
	old := 0
	if n > 0 {
		old = backlog[k]
	}
	c := b.Get()
	b.Dispose()
	gvEnsures("the same channel", b.Get() == c && cap(b.c) == 1)
	gvEnsures("disposed", b.disposed)
	gvEnsures("the backlog stays", len(b.backlog) == n)
	if n > 0 {
		gvEnsures("what was buffered stays in its place", b.backlog[k] == old)
	}
	v, got, open := take(b)
	if has {
		gvEnsures("the first element stays first", got && v == head)
		_, _, open = take(b)
	} else {
		gvEnsures("nothing appears", !got)
	}
	gvEnsures("closed exactly when nothing is left to load", open == (n > 0))
}

//@ contract NewUnbounded[int]
//@ prop C26
func spec_NewUnbounded() {
	b := NewUnbounded[int]()
	_, got, open := take(b)
	gvEnsures("empty and open", !got && open && len(b.backlog) == 0 && !b.disposed && cap(b.c) == 1)
}
