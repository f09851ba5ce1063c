package primitives

import (
	"io"

	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

//verif:contract WriteByte
//verif:safety C01
func vcWriteByte(b byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	err := WriteByte(b, w)
	vs.Wrote("C01", w, out0, f0, true, vs.Byte(b), 1, err)
}

//verif:contract ReadByte
//verif:safety C02
func vcReadByte(r io.Reader) {
	in, pos := vs.In(r), vs.Pos(r)
	v, next, ok := vs.ReadByte(in, pos)
	b, err := ReadByte(r)
	vs.Ensures("C02: the read succeeds exactly when the stream holds a well-formed value", (err == nil) == ok)
	vs.Ensures("C02: the value read is the one encoded", err != nil || b == v)
	vs.Ensures("C02: exactly the bytes of the value are consumed", err != nil || vs.Pos(r) == next)
	vs.Ensures("C02 C27: the error of a stream that has ended is reported as it is", err == nil || err == vs.ReadErr(r))
}

// vRead is the contract of ReadFrom: it succeeds exactly when the stream holds a value, and then consumes exactly its
// bytes and reports how many they are.
func vRead(r io.Reader, pos int, next int, ok bool, same bool, n int64, err error) {
	vs.Ensures("C02: the read succeeds exactly when the stream holds a well-formed value", (err == nil) == ok)
	vs.Ensures("C02: the value read is the one encoded", err != nil || same)
	vs.Ensures("C02: exactly the bytes of the value are consumed", err != nil || vs.Pos(r) == next)
	vs.Ensures("C02: the reported count is the number of bytes consumed", err != nil || n == int64(next-pos))
	vs.Cover("C02: success is possible", err == nil)
}

//verif:contract (*PrimitiveByte).WriteTo
//verif:safety C01
func vcByteWriteTo(p *PrimitiveByte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteTo(w)
	vs.Wrote("C01", w, out0, f0, true, vs.Byte(byte(*p)), n, err)
}

//verif:contract (*PrimitiveByte).WriteToAsProperty
//verif:safety C01
func vcByteWriteToAsProperty(p *PrimitiveByte, identifier byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteToAsProperty(identifier, w)
	vs.Wrote("C01", w, out0, f0, true, vs.Byte(identifier)+vs.Byte(byte(*p)), n, err)
}

//verif:contract (*PrimitiveByte).ReadFrom
//verif:safety C02
func vcByteReadFrom(p *PrimitiveByte, r io.Reader) {
	pos := vs.Pos(r)
	v, next, ok := vs.ReadByte(vs.In(r), pos)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vRead(r, pos, next, ok, byte(*p) == v, n, err)
	vs.Ensures("C02 C27: the error of a stream that has ended is reported as it is", err == nil || err == vs.ReadErr(r))
}

//verif:contract (*PrimitiveByte).Length
//verif:safety C01
func vcByteLength(p *PrimitiveByte, property bool) {
	l := p.Length(property)
	vs.Ensures("C01: Length is the number of bytes written", l == VariableByteInt(len(vs.Opt(property, vs.Byte(0))+vs.Byte(byte(*p)))))
}

//verif:contract (*PrimitiveUint16).WriteTo
//verif:safety C01
func vcUint16WriteTo(p *PrimitiveUint16, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteTo(w)
	vs.Wrote("C01", w, out0, f0, true, vs.U16(uint16(*p)), n, err)
}

//verif:contract (*PrimitiveUint16).WriteToAsProperty
//verif:safety C01
func vcUint16WriteToAsProperty(p *PrimitiveUint16, identifier byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteToAsProperty(identifier, w)
	vs.Wrote("C01", w, out0, f0, true, vs.Byte(identifier)+vs.U16(uint16(*p)), n, err)
}

//verif:contract (*PrimitiveUint16).ReadFrom
//verif:safety C02
func vcUint16ReadFrom(p *PrimitiveUint16, r io.Reader) {
	pos := vs.Pos(r)
	v, next, ok := vs.ReadU16(vs.In(r), pos)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vRead(r, pos, next, ok, uint16(*p) == v, n, err)
}

//verif:contract (*PrimitiveUint16).Length
//verif:safety C01
func vcUint16Length(p *PrimitiveUint16, property bool) {
	l := p.Length(property)
	vs.Ensures("C01: Length is the number of bytes written", l == VariableByteInt(len(vs.Opt(property, vs.Byte(0))+vs.U16(uint16(*p)))))
}

//verif:contract (*PrimitiveUint32).WriteTo
//verif:safety C01
func vcUint32WriteTo(p *PrimitiveUint32, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteTo(w)
	vs.Wrote("C01", w, out0, f0, true, vs.U32(uint32(*p)), n, err)
}

//verif:contract (*PrimitiveUint32).WriteToAsProperty
//verif:safety C01
func vcUint32WriteToAsProperty(p *PrimitiveUint32, identifier byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteToAsProperty(identifier, w)
	vs.Wrote("C01", w, out0, f0, true, vs.Byte(identifier)+vs.U32(uint32(*p)), n, err)
}

//verif:contract (*PrimitiveUint32).ReadFrom
//verif:safety C02
func vcUint32ReadFrom(p *PrimitiveUint32, r io.Reader) {
	pos := vs.Pos(r)
	v, next, ok := vs.ReadU32(vs.In(r), pos)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vRead(r, pos, next, ok, uint32(*p) == v, n, err)
}

//verif:contract (*PrimitiveUint32).Length
//verif:safety C01
func vcUint32Length(p *PrimitiveUint32, property bool) {
	l := p.Length(property)
	vs.Ensures("C01: Length is the number of bytes written", l == VariableByteInt(len(vs.Opt(property, vs.Byte(0))+vs.U32(uint32(*p)))))
}

//verif:contract (*PrimitiveString).WriteTo
//verif:safety C01
func vcStringWriteTo(p *PrimitiveString, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteTo(w)
	vs.Wrote("C01", w, out0, f0, len(*p) <= 65535, vs.Str(string(*p)), n, err)
}

//verif:contract (*PrimitiveString).WriteToAsProperty
//verif:safety C01
func vcStringWriteToAsProperty(p *PrimitiveString, identifier byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := p.WriteToAsProperty(identifier, w)
	vs.Wrote("C01", w, out0, f0, len(*p) <= 65535, vs.Byte(identifier)+vs.Str(string(*p)), n, err)
}

//verif:contract (*PrimitiveString).ReadFrom
//verif:safety C02
func vcStringReadFrom(p *PrimitiveString, r io.Reader) {
	pos := vs.Pos(r)
	v, next, ok := vs.ReadStr(vs.In(r), pos)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vRead(r, pos, next, ok, string(*p) == v, n, err)
}

//verif:contract (*PrimitiveString).Length
//verif:safety C01
func vcStringLength(p *PrimitiveString, property bool) {
	l := p.Length(property)
	vs.Ensures("C01: Length is the number of bytes written", l == VariableByteInt(len(vs.Opt(property, vs.Byte(0))+vs.Str(string(*p)))))
}

//verif:contract (*VariableByteInt).WriteTo
//verif:safety C01
//verif:opt reveal unroll
func vcVarIntWriteTo(v *VariableByteInt, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := v.WriteTo(w)
	vs.Wrote("C01", w, out0, f0, *v <= vs.MaxVarInt, vs.VarInt(uint32(*v)), n, err)
}

//verif:contract (*VariableByteInt).WriteToAsProperty
//verif:safety C01
func vcVarIntWriteToAsProperty(v *VariableByteInt, identifier byte, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := v.WriteToAsProperty(identifier, w)
	vs.Wrote("C01", w, out0, f0, *v <= vs.MaxVarInt, vs.Byte(identifier)+vs.VarInt(uint32(*v)), n, err)
}

//verif:contract (*VariableByteInt).ReadFrom
//verif:safety C02
//verif:opt reveal unroll
func vcVarIntReadFrom(p *VariableByteInt, r io.Reader) {
	pos := vs.Pos(r)
	v, next, ok := vs.ReadVarInt(vs.In(r), pos)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vRead(r, pos, next, ok, uint32(*p) == v, n, err)
}

func vVarIntLength(v VariableByteInt, property bool) VariableByteInt {
	if v > vs.MaxVarInt {
		return 0
	}
	return VariableByteInt(len(vs.Opt(property, vs.Byte(0)) + vs.VarInt(uint32(v))))
}

//verif:contract (*VariableByteInt).Length
//verif:safety C01
//verif:opt reveal
func vcVarIntLength(v *VariableByteInt, property bool) {
	l := v.Length(property)
	vs.Ensures("C01: Length is the number of bytes written, zero for a value without encoding", l == vVarIntLength(*v, property))
}

// The facts the engine uses about ReadVarInt and VarInt where it keeps them opaque.

//verif:contract
//verif:opt reveal
func vlReadVarInt(s string, pos int) {
	v, n, ok := vs.ReadVarInt(s, pos)
	in := 0 <= pos && pos <= len(s)
	vs.Requires(in)
	vs.Ensures("C02: lemma: a variable byte integer has one to four bytes", !ok || pos+1 <= n && n <= pos+4 && n <= len(s))
	vs.Ensures("C02: lemma: a variable byte integer is at most 268435455", !ok || v <= vs.MaxVarInt)
	vs.Ensures("C02: lemma: no value, no progress", ok || n == pos && v == 0)
	vs.Ensures("C02: lemma: the empty rest holds no value", pos < len(s) || !ok)
}

//verif:contract
//verif:opt reveal
func vlVarInt(x uint32, p, q string) {
	vs.Requires(x <= vs.MaxVarInt)
	vs.Ensures("C01: lemma: length of a variable byte integer", len(vs.VarInt(x)) == vs.VarIntLen(x))
	v, n, ok := vs.ReadVarInt(p+vs.VarInt(x)+q, len(p))
	vs.Ensures("C02: lemma: what is written as a variable byte integer is what is read", ok && v == x && n == len(p)+len(vs.VarInt(x)))
}

//verif:contract
//verif:opt reveal
func vlIndex(s string, from int, b byte) {
	vs.Requires(0 <= from && from <= len(s))
	p := vs.Index(s, from, b)
	vs.Ensures("C16: lemma: the first position is in range", from <= p && p <= len(s))
	vs.Ensures("C16: lemma: the byte is at its first position", p == len(s) || s[p] == b)
	vs.Ensures("C16: lemma: the byte is nowhere before its first position", vs.ForallSlice([]byte(s[from:p]), func(e byte) bool { return e != b }))
}
