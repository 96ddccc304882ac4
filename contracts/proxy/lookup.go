package proxy

import (
	"context"

	"github.com/nanobus/iota/go/payload"
)

// plainStream is a stream with an id and nothing else.
type plainStream struct{ id uint32 }

func (s *plainStream) Context() context.Context { return nil }
func (s *plainStream) StreamID() uint32         { return s.id }
func (s *plainStream) OnNext(payload.Payload)   {}
func (s *plainStream) OnComplete()              {}
func (s *plainStream) OnError(error)            {}

// A lookup holding any number of streams, in the order they were added: its nodes are arena[0],
// arena[1], ... (where nodes lie in memory makes no difference to any operation), and the stream of
// arena[i] is stream(i), with the id id(i).
type listed struct {
	l     *Lookup
	arena []node
	id    func(i int) uint32
}

var lists [2]listed // the lookups a contract is about

const maxStreams = 1 << 40

// SpecFill makes l, the which-th lookup of the contract, hold n streams.
func SpecFill(which int, l *Lookup, n int, stream func(i int) Stream, id func(i int) uint32) {
	gvRequires(n <= maxStreams)
	arena := make([]node, n)
	gvFill(arena, func(i int) node {
		nd := node{stream: stream(i)}
		if i > 0 {
			nd.prev = &arena[i-1]
		}
		if i+1 < n {
			nd.next = &arena[i+1]
		}
		return nd
	})
	if n > 0 {
		l.head, l.tail = &arena[0], &arena[n-1]
	}
	lists[which] = listed{l, arena, id}
}

func lookupOf(l *Lookup, ss []plainStream) {
	SpecFill(0, l, len(ss), func(i int) Stream { return &ss[i] }, func(i int) uint32 { return ss[i].id })
}

// unlike: no stream but the at-th has the id.
func unlike(ss []plainStream, at int, id uint32) bool {
	return gvForall(0, len(ss), func(i int) bool { return i == at || ss[i].id != id })
}

func walked(d *listed, n *node, id uint32) (bool, int) {
	j := gvIndex(d.arena, n)
	if n == nil {
		j = len(d.arena)
	}
	gvAt(j)
	return j >= 0 && gvForall(0, j, func(i int) bool { return d.id(i) != id }), len(d.arena) - j
}

//@ invariant (*Lookup).find#0
func inv_find(l *Lookup, n *node, id uint32) (bool, int) {
	if lists[1].l == l {
		return walked(&lists[1], n, id)
	}
	return walked(&lists[0], n, id)
}

// linked: the lookup lists exactly the nodes at(0), ..., at(n-1), in that order, as far as the k-th is
// concerned, each with its stream.
func linked(l *Lookup, n int, at func(i int) *node, stream func(i int) Stream, k int) bool {
	if n == 0 {
		return l.head == nil && l.tail == nil
	}
	if l.head != at(0) || l.tail != at(n-1) {
		return false
	}
	if k < 0 || k >= n {
		return true
	}
	nd := at(k)
	if k > 0 {
		if nd.prev != at(k-1) {
			return false
		}
	} else if nd.prev != nil {
		return false
	}
	if k+1 < n {
		if nd.next != at(k+1) {
			return false
		}
	} else if nd.next != nil {
		return false
	}
	return nd.stream == stream(k)
}

// SpecKept: the which-th lookup lists exactly the streams it was filled with, in order, as far as the
// k-th is concerned, except for the gone-th (if 0 <= gone).
func SpecKept(which int, gone int, stream func(i int) Stream, k int) bool {
	l, arena := lists[which].l, lists[which].arena
	n := len(arena)
	if gone >= 0 {
		n--
	}
	at := func(i int) int {
		if gone >= 0 && i >= gone {
			return i + 1
		}
		return i
	}
	return linked(l, n, func(i int) *node { return &arena[at(i)] }, func(i int) Stream { return stream(at(i)) }, k)
}

// SpecAdded: the which-th lookup lists the streams it was filled with and, after them, s.
func SpecAdded(which int, s Stream, stream func(i int) Stream, k int) bool {
	l, arena := lists[which].l, lists[which].arena
	n := len(arena)
	return linked(l, n+1, func(i int) *node {
		if i < n {
			return &arena[i]
		}
		return l.tail
	}, func(i int) Stream {
		if i < n {
			return stream(i)
		}
		return s
	}, k)
}

//@ contract (*Lookup).Get
//@ prop C18
func spec_Lookup_Get(ss []plainStream, id uint32, k int) {
	var l Lookup
	lookupOf(&l, ss)
	s, ok := l.Get(id)
	if ok {
		p, is := s.(*plainStream)
		gvEnsures("one of the streams added", is && gvIndex(ss, p) >= 0)
		gvEnsures("the one with that id", p.id == id)
	} else {
		gvEnsures("nothing", s == nil)
		if 0 <= k && k < len(ss) {
			gvEnsures("only if no stream has the id", ss[k].id != id)
		}
	}
	gvEnsures("the list is unchanged", SpecKept(0, -1, func(i int) Stream { return &ss[i] }, k))
}

//@ invariant (*Lookup).Add#0
func inv_Add(l *Lookup, currentNode *node) (bool, int) {
	if lists[1].l == l {
		j := gvIndex(lists[1].arena, currentNode)
		return j >= 0, len(lists[1].arena) - j
	}
	j := gvIndex(lists[0].arena, currentNode)
	return j >= 0, len(lists[0].arena) - j
}

//@ contract (*Lookup).Add
//@ prop C18
func spec_Lookup_Add(ss []plainStream, id uint32, k int) {
	var l Lookup
	lookupOf(&l, ss)
	s := &plainStream{id}
	l.Add(s)
	gvEnsures("the new stream is last", SpecAdded(0, s, func(i int) Stream { return &ss[i] }, len(ss)))
	gvEnsures("every other stream stays where it was", SpecAdded(0, s, func(i int) Stream { return &ss[i] }, k))
}

//@ contract (*Lookup).Remove
//@ prop C18
func spec_Lookup_Remove(ss []plainStream, id uint32, k, j int) {
	var l Lookup
	lookupOf(&l, ss)
	n := len(ss)
	// either the j-th stream is the one with the id, or j is n and none is
	gvRequires(0 <= j && j <= n && (j == n || ss[j].id == id) && unlike(ss, j, id))
	gvAt(j)
	l.Remove(id)
	if j == n {
		gvEnsures("removing an unknown id changes nothing", SpecKept(0, -1, func(i int) Stream { return &ss[i] }, k))
		return
	}
	gvEnsures("the stream is unlinked and every other stays", SpecKept(0, j, func(i int) Stream { return &ss[i] }, k))
}

// A history of additions and removals, compared after every step with the mathematical map from ids to
// streams, at an arbitrary id. Every linked-list shape of up to six streams, and every way to get
// there in six steps.
//
//@ lemma
//@ prop C18
//@ bounded 7
func spec_Lookup(add [6]bool, id [6]uint32, q uint32) {
	var l Lookup
	var has [6]bool
	var ss [6]*plainStream
	for i := 0; i < 6; i++ {
		if add[i] {
			present := false
			for j := 0; j < i; j++ {
				if has[j] && id[j] == id[i] {
					present = true
				}
			}
			gvRequires(!present) // ids are distinct
			ss[i] = &plainStream{id[i]}
			l.Add(ss[i])
			has[i] = true
		} else {
			l.Remove(id[i])
			for j := 0; j < i; j++ {
				if id[j] == id[i] {
					has[j] = false
				}
			}
		}
		s, ok := l.Get(q)
		want, found := (*plainStream)(nil), false
		for j := 0; j <= i; j++ {
			if has[j] && id[j] == q {
				want, found = ss[j], true
			}
		}
		gvEnsures("found exactly if added and not removed since", ok == found)
		if found {
			gvEnsures("the stream added under that id", s == Stream(want))
		}
	}
}
