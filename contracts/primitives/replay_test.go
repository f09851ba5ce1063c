package primitives

import (
	"bytes"
	"testing"

	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

type vPrim struct {
	p    Primitive
	enc  string // expected encoding, if fits
	fits bool
}

func vDrawPrim(g *vs.Gen) (vPrim, string) {
	switch k := g.Intn("kind", 5); k {
	case 0:
		v := PrimitiveByte(g.Uint("p", 8))
		return vPrim{&v, vs.Byte(byte(v)), true}, "byte"
	case 1:
		v := PrimitiveUint16(g.Uint("p", 16))
		return vPrim{&v, vs.U16(uint16(v)), true}, "uint16"
	case 2:
		v := PrimitiveUint32(g.Uint("p", 32))
		return vPrim{&v, vs.U32(uint32(v)), true}, "uint32"
	case 3:
		s := g.Str("p")
		if g.Intn("huge", 20) == 0 {
			s = string(make([]byte, 65530+g.Intn("hugelen", 12)))
		}
		v := PrimitiveString(s)
		return vPrim{&v, vs.Str(string(v)), len(v) <= 65535}, "string"
	default:
		v := VariableByteInt(g.Uint("p", 32))
		if v > vs.MaxVarInt {
			return vPrim{&v, "", false}, "varint"
		}
		return vPrim{&v, vs.VarInt(uint32(v)), true}, "varint"
	}
}

func TestVReplayC01(t *testing.T) {
	vs.Replay("C01", map[string]vs.Case{"write": func(g *vs.Gen) string {
		p, kind := vDrawPrim(g)
		id := byte(g.Uint("identifier", 8))
		asProp := g.Bool("property")
		var buf bytes.Buffer
		var n int64
		var err error
		want := p.enc
		if asProp {
			want = vs.Byte(id) + want
			n, err = p.p.WriteToAsProperty(id, &buf)
		} else {
			n, err = p.p.WriteTo(&buf)
		}
		g.Note("%s property=%v id=%#x", kind, asProp, id)
		if !p.fits {
			if err == nil {
				return "a value without MQTT encoding was written: " + vs.Short(buf.String())
			}
			return ""
		}
		if err != nil {
			return "write failed: " + err.Error()
		}
		if buf.String() != want {
			return "wrote " + vs.Short(buf.String()) + " want " + vs.Short(want)
		}
		if n != int64(len(want)) {
			return vs.Sprintf("reported %d bytes, wrote %d", n, len(want))
		}
		if l := p.p.Length(asProp); int(l) != len(want) {
			return vs.Sprintf("Length %d, wrote %d", l, len(want))
		}
		if k := g.Intn("failat", len(want)+1); k < len(want) && k < 10 {
			fw := &vs.FailingWriter{Left: k}
			if asProp {
				_, err = p.p.WriteToAsProperty(id, fw)
			} else {
				_, err = p.p.WriteTo(fw)
			}
			if err == nil {
				return "the writer failed but the write reported success"
			}
		}
		return ""
	}}, t.Errorf)
}

func vReadCase(g *vs.Gen, kind int, s string) string {
	r := g.Reader(s)
	var n int64
	var err error
	var got, want any
	var next int
	var ok bool
	g.Note("kind=%d input=%s", kind, vs.Short(s))
	switch kind {
	case 0:
		var v PrimitiveByte
		n, err = v.ReadFrom(r)
		var w byte
		w, next, ok = vs.ReadByte(s, 0)
		got, want = byte(v), w
	case 1:
		var v PrimitiveUint16
		n, err = v.ReadFrom(r)
		var w uint16
		w, next, ok = vs.ReadU16(s, 0)
		got, want = uint16(v), w
	case 2:
		var v PrimitiveUint32
		n, err = v.ReadFrom(r)
		var w uint32
		w, next, ok = vs.ReadU32(s, 0)
		got, want = uint32(v), w
	case 3:
		var v PrimitiveString
		n, err = v.ReadFrom(r)
		var w string
		w, next, ok = vs.ReadStr(s, 0)
		got, want = string(v), w
	default:
		var v VariableByteInt
		n, err = v.ReadFrom(r)
		var w uint32
		w, next, ok = vs.ReadVarInt(s, 0)
		got, want = uint32(v), w
	}
	if ok != (err == nil) {
		return vs.Sprintf("well-formed=%v but error=%v", ok, err)
	}
	if !ok {
		return ""
	}
	if got != want {
		return vs.Sprintf("read %v want %v", got, want)
	}
	if n != int64(next) || r.Pos != next {
		return vs.Sprintf("reported %d consumed %d want %d", n, r.Pos, next)
	}
	return ""
}

func TestVReplayC02(t *testing.T) {
	vs.Replay("C02", map[string]vs.Case{
		"valid": func(g *vs.Gen) string {
			p, kind := vDrawPrim(g)
			if !p.fits {
				return ""
			}
			k := map[string]int{"byte": 0, "uint16": 1, "uint32": 2, "string": 3, "varint": 4}[kind]
			s := p.enc
			if g.Intn("cut", 5) == 0 && len(s) > 0 {
				s = s[:g.Intn("cutat", len(s))]
			} else {
				s += g.Bytes("rest", 4)
			}
			return vReadCase(g, k, s)
		},
		"arbitrary": func(g *vs.Gen) string {
			return vReadCase(g, g.Intn("kind", 5), g.Bytes("input", 12))
		},
		"continuation": func(g *vs.Gen) string {
			s := ""
			for i, n := 0, g.Intn("groups", 8); i < n; i++ {
				s += vs.Byte(byte(g.Uint("b", 8)) | 128)
			}
			return vReadCase(g, 4, s+vs.Byte(byte(g.Uint("last", 7)))+"rest")
		},
	}, t.Errorf)
}
