package operations

// Reference layout of the binary form. Positions are computed without looking whether they are inside the bytes:
// every entry is at least 12 long, so they only grow, and an entry that ends inside lies inside.

func be16(b []byte, i int) int { return int(gvByte(b, i))<<8 | int(gvByte(b, i+1)) }
func be32(b []byte, i int) uint32 {
	return uint32(gvByte(b, i))<<24 | uint32(gvByte(b, i+1))<<16 | uint32(gvByte(b, i+2))<<8 | uint32(gvByte(b, i+3))
}

// An operation in the binary form at p: type, direction, index, then its names with their lengths, then the
// reserved part with its length.
func nsAt(b []byte, p int) int   { return p + 8 }
func opAt(b []byte, p int) int   { return p + 8 + be16(b, p+6) + 2 }
func rvAt(b []byte, p int) int   { return opAt(b, p) + be16(b, opAt(b, p)-2) + 2 }
func nextAt(b []byte, p int) int { return rvAt(b, p) + be16(b, rvAt(b, p)-2) }

// rec_at is where the i-th operation of a serialised table starts.
func rec_at(b []byte, i int) int {
	if i <= 0 {
		return 10
	}
	return nextAt(b, rec_at(b, i-1))
}

// says: s is the n bytes at p, as far as the c-th is concerned.
func says(s string, b []byte, p, n, c int) bool {
	return len(s) == n && (c < 0 || c >= n || s[c] == gvByte(b, p+c))
}

// holds: o is what the entry at p says, as far as the c-th bytes of its names are concerned.
func holds(o Operation, b []byte, p, c int) bool {
	return byte(o.Type) == gvByte(b, p) && byte(o.Direction) == gvByte(b, p+1) && o.Index == be32(b, p+2) &&
		says(o.Namespace, b, nsAt(b, p), be16(b, p+6), c) && says(o.Operation, b, opAt(b, p), be16(b, opAt(b, p)-2), c)
}

// tooLong is the size of tables that are not looked at.
const tooLong = 1 << 40

// rec_rest is the size of the operations from the i-th on in the binary form of t (tooLong if it is that much; the
// lower bound never fails: stating it spares the verifier an induction).
func rec_rest(t Table, i int) int {
	if i < 0 || i >= len(t) {
		return 0
	}
	r := rec_rest(t, i+1)
	if r < minOperationSize*(len(t)-i-1) || r > tooLong {
		return tooLong
	}
	return minOperationSize + len(t[i].Namespace) + len(t[i].Operation) + r
}

// placeOf is where the i-th operation of t is in its binary form.
func placeOf(t Table, i int) int { return 10 + rec_rest(t, 0) - rec_rest(t, i) }

// fits: the binary form of t is less than max long and its names fit their length fields.
func fits(t Table, max int) bool {
	return rec_rest(t, 0) < max-10 && gvForall(0, len(t), func(i int) bool { return len(t[i].Namespace) <= 65535 && len(t[i].Operation) <= 65535 })
}

// lengthsAt: the lengths of the i-th entry in b are those of the i-th operation of t.
func lengthsAt(t Table, b []byte, i int) bool {
	p := placeOf(t, i)
	n, o := len(t[i].Namespace), len(t[i].Operation)
	return be16(b, p+6) == n && be16(b, p+8+n) == o && be16(b, p+10+n+o) == 0
}

// What is said of an operation.
const (
	fixed = iota // type, direction, index
	lengths
	namespace
	operation
)

// shows: b has the i-th operation of t in its place, as far as the aspect and the c-th byte of a name are concerned.
func shows(aspect int, t Table, b []byte, i, c int) bool {
	p, n := placeOf(t, i), len(t[i].Namespace)
	switch aspect {
	case fixed:
		return gvByte(b, p) == byte(t[i].Type) && gvByte(b, p+1) == byte(t[i].Direction) && be32(b, p+2) == t[i].Index
	case lengths:
		return lengthsAt(t, b, i)
	case namespace:
		return c < 0 || c >= n || gvByte(b, p+8+c) == t[i].Namespace[c]
	default:
		return c < 0 || c >= len(t[i].Operation) || gvByte(b, p+10+n+c) == t[i].Operation[c]
	}
}

// isHeader: b starts like the binary form of a table of n operations.
func isHeader(b []byte, n int) bool {
	return len(b) >= 10 && b[0] == 0 && b[1] == 'w' && b[2] == 'r' && b[3] == 's' && be16(b, 4) == 1 && int(be32(b, 6)) == n
}

// same: the operations are the same as far as the c-th bytes of their names are concerned.
func same(a, o Operation, c int) bool {
	return a.Type == o.Type && a.Direction == o.Direction && a.Index == o.Index &&
		len(a.Namespace) == len(o.Namespace) && len(a.Operation) == len(o.Operation) &&
		(c < 0 || c >= len(o.Namespace) || a.Namespace[c] == o.Namespace[c]) &&
		(c < 0 || c >= len(o.Operation) || a.Operation[c] == o.Operation[c])
}

// few: t has at most two operations, and its sizes are those of this many.
func few(t Table) bool {
	return len(t) <= 2 && rec_rest(t, 1) >= 0 && rec_rest(t, 2) == 0
}

// The parsing or serialising being looked at: its input and the operation.
var (
	whole []byte
	which int // operation
	char  int // of its names
	what  int // is looked at
	trip  bool
	table Table
)

// serialised is the binary form of t, whose k-th operation is about to be looked at.
func serialised(aspect int, t Table, k, c int) []byte {
	gvRequires(fits(t, 1<<32))
	gvRequires(0 <= k && k < len(t))
	table, what, which, char = t, aspect, k, c
	return t.ToBytes()
}

//@ contract Table.ToBytes
//@ prop C15
//@ heavy
//@ timeout 100000
func spec_ToBytes(t Table) {
	gvRequires(fits(t, 1<<32))
	table, which = t, -1
	b := t.ToBytes()
	gvEnsures("its length is that of its content", len(b) == 10+rec_rest(t, 0))
	gvEnsures("magic, version and count", isHeader(b, len(t)))
}

//@ contract Table.ToBytes
//@ prop C15
//@ heavy
//@ timeout 100000
func spec_ToBytes_fixed(t Table, k int) {
	b := serialised(fixed, t, k, 0)
	gvEnsures("type, direction and index", shows(fixed, t, b, k, 0))
}

//@ contract Table.ToBytes
//@ prop C15
//@ bounded 2
//@ timeout 100000
func spec_ToBytes_lengths0(t Table) {
	gvRequires(few(t))
	gvAt(0)
	gvAt(1)
	b := serialised(lengths, t, 0, 0)
	p, n, o := placeOf(t, 0), len(t[0].Namespace), len(t[0].Operation)
	gvEnsures("length of the namespace", be16(b, p+6) == n)
	gvEnsures("length of the name", be16(b, p+8+n) == o)
	gvEnsures("no reserved part", be16(b, p+10+n+o) == 0)
}

//@ contract Table.ToBytes
//@ prop C15
//@ bounded 2
//@ heavy
//@ timeout 100000
func spec_ToBytes_lengths1(t Table) {
	gvRequires(few(t))
	gvAt(0)
	gvAt(1)
	b := serialised(lengths, t, 1, 0)
	p, n, o := placeOf(t, 1), len(t[1].Namespace), len(t[1].Operation)
	gvEnsures("length of the namespace", be16(b, p+6) == n)
	gvEnsures("length of the name", be16(b, p+8+n) == o)
	gvEnsures("no reserved part", be16(b, p+10+n+o) == 0)
}

//@ contract Table.ToBytes
//@ prop C15
//@ bounded 2
//@ timeout 100000
func spec_ToBytes_namespace(t Table, k, c int) {
	gvRequires(few(t))
	gvAt(0)
	gvAt(1)
	b := serialised(namespace, t, k, c)
	gvEnsures("namespace", shows(namespace, t, b, k, c))
}

//@ contract Table.ToBytes
//@ prop C15
//@ bounded 2
//@ timeout 100000
func spec_ToBytes_operation(t Table, k, c int) {
	gvRequires(few(t))
	gvAt(0)
	gvAt(1)
	b := serialised(operation, t, k, c)
	gvEnsures("name", shows(operation, t, b, k, c))
}

//@ invariant Table.ToBytes#0
func inv_ToBytes_size(rangeindex int, size uint32) (bool, int) {
	n, i := len(table), rangeindex+1
	r := rec_rest(table, i)
	gvAt(i)
	return 0 <= i && i <= n && r <= rec_rest(table, 0) && uint32(r)+size == 10+uint32(rec_rest(table, 0)), n - i
}

//@ invariant Table.ToBytes#1
func inv_ToBytes_write(rangeindex int, buf, payload []byte) (bool, int) {
	n, i := len(table), rangeindex+1
	r := rec_rest(table, i)
	gvAt(i)
	gvAt(which)
	return 0 <= i && i <= n && r <= rec_rest(table, 0) && len(buf) == r && gvOffsetIn(buf, payload) == placeOf(table, i) &&
		len(payload) == 10+rec_rest(table, 0) && isHeader(payload, n) &&
		(which < 0 || which >= i || rec_rest(table, which) <= rec_rest(table, 0) && rec_rest(table, which+1) >= r && shows(what, table, payload, which, char)), n - i
}

// A table and its binary form (which exists: spec_ToBytes says this of every index).
//
//@ contract FromBytes
//@ prop C15
//@ heavy
//@ timeout 100000
func spec_Accepted(t Table, b []byte) {
	gvRequires(rec_rest(t, 0) < tooLong && len(b) == 10+rec_rest(t, 0) && isHeader(b, len(t)))
	gvRequires(gvForall(0, len(t), func(i int) bool { return lengthsAt(t, b, i) }))
	whole, which, trip, table = b, -1, true, t
	u, err := FromBytes(b)
	gvEnsures("accepted", err == nil)
	gvEnsures("as many operations", len(u) == len(t))
}

//@ contract FromBytes
//@ prop C15
//@ heavy
//@ timeout 100000
func spec_RoundTrip(t Table, b []byte, k, c int) {
	gvRequires(rec_rest(t, 0) < tooLong && len(b) == 10+rec_rest(t, 0) && isHeader(b, len(t)))
	gvRequires(gvForall(0, len(t), func(i int) bool { return lengthsAt(t, b, i) }))
	gvRequires(0 <= k && k < len(t) && shows(fixed, t, b, k, c) && shows(namespace, t, b, k, c) && shows(operation, t, b, k, c))
	gvAt(k)
	whole, which, char, trip, table = b, k, c, true, t
	u, err := FromBytes(b)
	if err == nil && len(u) == len(t) {
		gvEnsures("same operation", same(u[k], t[k], c))
	}
}

//@ invariant FromBytes#0
func inv_FromBytes(buf []byte, i int, numOps uint32, operations Table) (bool, int) {
	if trip {
		gvAt(i)
		at := placeOf(table, i)
		return 0 <= i && i <= len(table) && int(numOps) == len(table) && len(operations) == len(table) &&
			gvOffsetIn(buf, whole) == at && len(buf) == rec_rest(table, i) && len(buf) < tooLong &&
			(which < 0 || which >= i || same(operations[which], table[which], char)), len(table) - i
	}
	at := rec_at(whole, i)
	return 0 <= i && i <= int(numOps) && len(operations) == int(numOps) &&
		10 <= at && at <= len(whole) && gvOffsetIn(buf, whole) == at && len(buf) == len(whole)-at &&
		(which < 0 || which >= i || holds(operations[which], whole, rec_at(whole, which), char)), int(numOps) - i
}

// Any bytes.
//
//@ contract FromBytes
//@ prop C16
func spec_FromBytes(b []byte, k, c int) {
	whole, which, char, trip = b, k, c, false
	gvAt(k)
	t, err := FromBytes(b)
	if err == nil {
		gvEnsures("only bytes that start like a table are accepted", isHeader(b, len(t)))
		gvEnsures("only bytes that hold all operations are accepted", rec_at(b, len(t)) <= len(b))
		if 0 <= k && k < len(t) {
			gvEnsures("the operations are those in the bytes", holds(t[k], b, rec_at(b, k), c))
		}
	}
}
