package socket

//@ contract ServerStreamIDs.Next
//@ prop C07
func spec_ServerStreamIDs_Next(n uint64) {
	gvRequires(n < 1<<63)
	p := ServerStreamIDs(n)
	gvModifies(&p)
	id, first := p.Next()
	gvEnsures("even, 31 bits, never zero", id%2 == 0 && id != 0 && id < 1<<31)
	if (n+1)%(1<<30) != 0 {
		gvEnsures("the next id in order", uint64(p) == n+1 && uint64(id) == 2*((n+1)%(1<<30)))
	} else {
		gvEnsures("zero is skipped", uint64(p) == n+2 && id == 2)
	}
	gvEnsures("first-loop indicator", first == (uint64(p) <= 1<<30))
}

//@ contract ClientStreamIDs.Next
//@ prop C07
func spec_ClientStreamIDs_Next(n uint64) {
	gvRequires(n < 1<<63)
	p := ClientStreamIDs(n)
	gvModifies(&p)
	id, first := p.Next()
	gvEnsures("odd, 31 bits", id%2 == 1 && id < 1<<31)
	gvEnsures("the next id in order", uint64(p) == n+1 && uint64(id) == 2*(n%(1<<30))+1)
	gvEnsures("first-loop indicator", first == (uint64(p) <= 1<<30))
}

// No reuse while the indicator is true: two calls made at different generator positions, both
// reporting the first loop, return different ids.

//@ lemma
//@ prop C07
func lemma_server_ids_distinct(n, m uint64) {
	gvRequires(n < m && m < 1<<63)
	p, q := ServerStreamIDs(n), ServerStreamIDs(m)
	a, fa := p.Next()
	b, fb := q.Next()
	if fa && fb && p <= ServerStreamIDs(m) {
		gvEnsures("distinct and increasing during the first loop", a < b)
	}
}

//@ lemma
//@ prop C07
func lemma_client_ids_distinct(n, m uint64) {
	gvRequires(n < m && m < 1<<63)
	p, q := ClientStreamIDs(n), ClientStreamIDs(m)
	a, fa := p.Next()
	b, fb := q.Next()
	if fa && fb {
		gvEnsures("distinct and increasing during the first loop", a < b)
	}
	gvEnsures("once the loop is over it stays over", fa || !fb)
}

//@ lemma
//@ prop C07
func lemma_parities_never_meet(n, m uint64) {
	gvRequires(n < 1<<63 && m < 1<<63)
	p, q := ServerStreamIDs(n), ClientStreamIDs(m)
	a, _ := p.Next()
	b, _ := q.Next()
	gvEnsures("a server id is never a client id", a != b)
}
