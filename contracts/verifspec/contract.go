package verifspec

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/storage"
)

// The vocabulary of contracts. A contract is a function with the directive //verif:contract <function of /repo>: it states
// preconditions, calls the function once, and states postconditions. The engine executes it twice: to verify the function
// (the call runs the function's current source) and in place of calls to the function (the call makes the results and
// everything in Modifies unknown, and the postconditions are assumed).

// Requires is a precondition.
func Requires(cond bool) {}

// Assume restricts what follows to the executions in which cond holds; only for facts that name things.
func Assume(cond bool) {}

// Ensures is a postcondition; name starts with the properties it belongs to.
func Ensures(name string, cond bool) {}

// Cover is a sanity check: cond must be possible.
func Cover(name string, cond bool) {}

// Modifies lists a cell the function may change (with the map or slice contents it refers to). Writers and readers passed
// as arguments may always change; everything else that existed before the call must not.
func Modifies[T any](p *T) {}

// ModifiesBytes says that the function may change the bytes of b.
func ModifiesBytes(b []byte) {}

// Same is equality of contents: maps and slices by what they contain.
func Same[T any](a, b T) bool { return false }

// Out is what has been written to w so far.
func Out(w io.Writer) string { return "" }

// WriteFailed: a write to w has failed.
func WriteFailed(w io.Writer) bool { return false }

// In is the stream r reads, Pos how much of it has been read, ReadErr the error at its end.
func In(r io.Reader) string { return "" }

func Pos(r io.Reader) int { return 0 }

func ReadErr(r io.Reader) error { return nil }

// MapCopy is the contents of m now.
func MapCopy[M ~map[K]V, K comparable, V any](m M) M {
	out := M{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// MapAssign makes a map that MapCopy made equal to another one.
func MapAssign[M ~map[K]V, K comparable, V any](dst, src M) {
	for k := range dst {
		delete(dst, k)
	}
	for k, v := range src {
		dst[k] = v
	}
}

// MapDel is the map m without the entry of k.
func MapDel[M ~map[K]V, K comparable, V any](m M, k K) M {
	r := make(M, len(m)+1)
	for k0, v0 := range m {
		if k0 != k {
			r[k0] = v0
		}
	}
	return r
}

// Wrote is the contract of an encoder: it fails only if its value has no encoding or the writer fails, and on success it
// has written exactly data and reports its length.
func Wrote(tag string, w io.Writer, out0 string, failed0 bool, fits bool, data string, n int64, err error) {
	Ensures(tag+": an error only if the value has no encoding or the writer fails", err == nil || !fits || WriteFailed(w))
	Ensures(tag+": a value that has no encoding is refused", err != nil || fits)
	Ensures(tag+": a failure of the writer is reported", err != nil || WriteFailed(w) == failed0)
	Ensures(tag+": exactly the specified bytes are written", err != nil || Out(w) == out0+data)
	Ensures(tag+": the reported count is the number of bytes written", err != nil || n == int64(len(data)))
	Cover(tag+": success is possible", err == nil)
}

// Encoded is the contract of a packet encoder: for a packet that fits the size limits it fails only if the writer fails,
// and on success it has written exactly data and reports its length. Nothing is promised about a packet that does not fit.
func Encoded(tag string, w io.Writer, out0 string, failed0 bool, fits bool, data string, n int64, err error) {
	Ensures(tag+": an error only if the packet does not fit or the writer fails", err == nil || !fits || WriteFailed(w))
	Ensures(tag+": a failure of the writer is reported", err != nil || WriteFailed(w) == failed0)
	Ensures(tag+": exactly the specified bytes are written", err != nil || !fits || Out(w) == out0+data)
	Ensures(tag+": the reported count is the number of bytes written", err != nil || !fits || n == int64(len(data)))
	Cover(tag+": success is possible", err == nil && fits)
}

// Tok is a one-byte name of v: specifications hold for every choice of names, so equal names mean the same value.
func Tok(v any) string { return "" }

/* ---- the environment of a client ---- */

// Events is the log of the events offered to event channels, Offer one entry of it, LastEvent the data of the last one.
func Events() string { return "" }

func Offer[T any](ch chan T, packetType byte, data any) string { return "" }

func LastEvent() any { return nil }

// ForallClosed: f holds for every closed channel; ForallFull: for every channel without room.
func ForallClosed[T any](f func(ch chan T) bool) bool { return false }
func ForallFull[T any](f func(ch chan T) bool) bool   { return false }

// LastSent is the control packet encoded last.
func LastSent() any { return nil }

// LastReceived is the value received last from a channel; Awaiting: the operation waits to receive from this channel.
func LastReceived() any              { return nil }
func Awaiting[T any](ch chan T) bool { return false }

// OnWait is an obligation at every point where the operation waits to receive from a channel.
func OnWait(name string, f func() bool) {}

// OnResume runs when the operation goes on after it has waited. It may note values.
func OnResume(f func()) {}

// Hint is a candidate for a loop invariant, of the number of iterations so far. It is dropped unless it is proved.
func Hint(f func(t int) bool) {}

// LastRead is the packet (a pointer) that was decoded last.
func LastRead() any { return nil }

// Replies is the log of other values offered to channels, Reply one entry of it, LastReply the value of the last one.
func Replies() string { return "" }

func Reply[T any](ch chan T, v any) string { return "" }

func LastReply() any { return nil }

// Closed: the channel is closed. Full: it has no room. ChanID is the identifier it was created under.
func Closed[T any](ch chan T) bool { return false }

func Full[T any](ch chan T) bool { return false }

func ChanID[T any](ch chan T) int { return 0 }

// ChanOf is the channel that was created under the identifier.
func ChanOf[T any](id int) chan T { return nil }

// Clock is the last reading of the clock.
func Clock() time.Time { return time.Time{} }

// ConnClosed: the connection is closed. ConnDeadline is its deadline. ReadFailed: reading a value from r failed, or what was
// read was not valid. (WriteFailed of a connection: any operation other than reading failed.)
func ConnClosed(c net.Conn) bool { return false }

func ConnDeadline(c net.Conn) time.Time { return time.Time{} }

func ReadFailed(r io.Reader) bool { return false }

// CtxDeadline is the deadline of the context, or the zero time.
func CtxDeadline(ctx context.Context) time.Time { return time.Time{} }

// StorageLog is the log of the changes asked of a storage, StoreOp and DropOp its entries, LastStored the last packet it was
// given. StorageFailed: an operation failed.
func StorageLog(s storage.Storage) string { return "" }

func StoreOp(id uint16, packet any) string { return "" }

func DropOp(id uint16) string { return "" }

func LastStored(s storage.Storage) any { return nil }

func StorageFailed(s storage.Storage) bool { return false }

// Shared says that other operations may use the client at the same time: inv holds whenever they are not in the middle of
// one, and everything else about the client may be different after a wait.
func Shared[T any](c *T, inv func() bool) {}
