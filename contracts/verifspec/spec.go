// Package verifspec is the specification vocabulary of the contracts in /verif/contracts. It is never part of /repo: the
// verifier and the replay tests see it through an overlay.
//
// Every function has two readings: the Go body (used when a counterexample is replayed natively) and, for the functions
// the engine knows as intrinsics, a term of the logic. Byte sequences are Go strings.
package verifspec

// Byte is the one-byte sequence b.
func Byte(b byte) string { return string([]byte{b}) }

// U16 is the big-endian encoding of x.
func U16(x uint16) string { return string([]byte{byte(x >> 8), byte(x)}) }

// U32 is the big-endian encoding of x.
func U32(x uint32) string {
	return string([]byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
}

// GetU16 is the big-endian 16-bit integer at s[pos:pos+2].
func GetU16(s string, pos int) uint16 { return uint16(s[pos])<<8 | uint16(s[pos+1]) }

// GetU32 is the big-endian 32-bit integer at s[pos:pos+4].
func GetU32(s string, pos int) uint32 {
	return uint32(s[pos])<<24 | uint32(s[pos+1])<<16 | uint32(s[pos+2])<<8 | uint32(s[pos+3])
}

// Str is an MQTT string or binary data field: two-byte length and content.
func Str(s string) string { return U16(uint16(len(s))) + s }

// Index is the first position of b in s from position from on, or the length of s.
func Index(s string, from int, b byte) int {
	for from < len(s) && s[from] != b {
		from++
	}
	return from
}

// MaxVarInt is the largest value a variable byte integer can hold.
const MaxVarInt = 268_435_455

// VarIntLen is the number of bytes of the minimal variable byte integer encoding of x (x <= MaxVarInt).
func VarIntLen(x uint32) int {
	if x < 128 {
		return 1
	}
	if x < 128*128 {
		return 2
	}
	if x < 128*128*128 {
		return 3
	}
	return 4
}

// VarInt is the minimal variable byte integer encoding of x (x <= MaxVarInt), MQTT 5 section 1.5.5.
func VarInt(x uint32) string {
	if x < 128 {
		return Byte(byte(x))
	}
	if x < 128*128 {
		return Byte(byte(x)|128) + Byte(byte(x>>7))
	}
	if x < 128*128*128 {
		return Byte(byte(x)|128) + Byte(byte(x>>7)|128) + Byte(byte(x>>14))
	}
	return Byte(byte(x)|128) + Byte(byte(x>>7)|128) + Byte(byte(x>>14)|128) + Byte(byte(x>>21)&127)
}

// Opt is s if cond, else the empty sequence.
func Opt(cond bool, s string) string {
	if cond {
		return s
	}
	return ""
}

// The readers of primitive values: the value at position pos of s, the position after it, and whether s has it there.

func ReadByte(s string, pos int) (v byte, next int, ok bool) {
	if pos >= len(s) {
		return 0, pos, false
	}
	return s[pos], pos + 1, true
}

func ReadU16(s string, pos int) (v uint16, next int, ok bool) {
	if pos+2 > len(s) {
		return 0, pos, false
	}
	return GetU16(s, pos), pos + 2, true
}

func ReadU32(s string, pos int) (v uint32, next int, ok bool) {
	if pos+4 > len(s) {
		return 0, pos, false
	}
	return GetU32(s, pos), pos + 4, true
}

func ReadStr(s string, pos int) (v string, next int, ok bool) {
	if pos+2 > len(s) {
		return "", pos, false
	}
	n := int(GetU16(s, pos))
	if pos+2+n > len(s) {
		return "", pos, false
	}
	return s[pos+2 : pos+2+n], pos + 2 + n, true
}

func ReadVarInt(s string, pos int) (v uint32, next int, ok bool) {
	if pos+1 > len(s) {
		return 0, pos, false
	}
	b0 := uint32(s[pos])
	if b0 < 128 {
		return b0, pos + 1, true
	}
	if pos+2 > len(s) {
		return 0, pos, false
	}
	b1 := uint32(s[pos+1])
	if b1 < 128 {
		return b0&127 | b1<<7, pos + 2, true
	}
	if pos+3 > len(s) {
		return 0, pos, false
	}
	b2 := uint32(s[pos+2])
	if b2 < 128 {
		return b0&127 | (b1&127)<<7 | b2<<14, pos + 3, true
	}
	if pos+4 > len(s) {
		return 0, pos, false
	}
	b3 := uint32(s[pos+3])
	if b3 < 128 {
		return b0&127 | (b1&127)<<7 | (b2&127)<<14 | b3<<21, pos + 4, true
	}
	return 0, pos, false
}

// FoldMap is the concatenation of f over the entries of m, in some order.
func FoldMap[M ~map[K]V, K comparable, V any](m M, f func(k K, v V) string) string {
	r := ""
	for k, v := range m {
		r += f(k, v)
	}
	return r
}

// ForallMap: f holds for every entry of m.
func ForallMap[M ~map[K]V, K comparable, V any](m M, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// FoldSlice is the concatenation of f over the elements of s, in order.
func FoldSlice[T any](s []T, f func(t T) string) string {
	r := ""
	for _, t := range s {
		r += f(t)
	}
	return r
}

// ForallSlice: f holds for every element of s.
func ForallSlice[T any](s []T, f func(t T) bool) bool {
	for _, t := range s {
		if !f(t) {
			return false
		}
	}
	return true
}

// MapPut is the map m with the entry of k set to v; m itself is unchanged.
func MapPut[M ~map[K]V, K comparable, V any](m M, k K, v V) M {
	r := make(M, len(m)+1)
	for k0, v0 := range m {
		r[k0] = v0
	}
	r[k] = v
	return r
}

// MapEq: a and b have the same entries.
func MapEq[M ~map[K]V, K comparable, V comparable](a, b M) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}
