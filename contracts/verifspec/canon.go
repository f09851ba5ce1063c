package verifspec

import (
	"fmt"
	"sort"
	"strings"
)

// Canon parses one complete MQTT 5 packet strictly and renders it independently of the order of its properties, so that
// two encodings compare equal when they mean the same. It is written from the standard, independently of the encoders'
// specification functions.
func Canon(s string) (out string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("malformed packet: %v", p)
		}
	}()
	p := &parser{s: s, end: len(s)}
	first := p.byte()
	rem := int(p.varint())
	if rem != len(s)-p.pos {
		return "", fmt.Errorf("remaining length %d but %d bytes follow", rem, len(s)-p.pos)
	}
	p.f("type %d flags %#x", first>>4, first&15)
	switch first >> 4 {
	case 1:
		p.f("proto %q", p.str())
		p.f("version %d", p.byte())
		fl := p.byte()
		p.f("connect flags %#x keepalive %d", fl, p.u16())
		p.props("connect", 0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16)
		p.f("client %q", p.str())
		if fl&4 != 0 {
			p.props("will", 0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26)
			p.f("will topic %q payload %q", p.str(), p.str())
		}
		if fl&0x80 != 0 {
			p.f("user %q", p.str())
		}
		if fl&0x40 != 0 {
			p.f("password %q", p.str())
		}
	case 3:
		p.f("topic %q", p.str())
		if first&6 != 0 {
			p.f("id %d", p.u16())
		}
		p.props("publish", 0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03)
		p.f("payload %q", p.s[p.pos:])
		p.pos = len(p.s)
	case 4, 5, 6, 7:
		p.f("id %d", p.u16())
		rc := byte(0)
		if p.pos < p.end {
			rc = p.byte()
		}
		p.f("reason %#x", rc)
		if p.pos < p.end {
			p.props("ack", 0x1F, 0x26)
		} else {
			p.f("ack []")
		}
	case 8, 10:
		p.f("id %d", p.u16())
		if first>>4 == 8 {
			p.props("subscribe", 0x0B, 0x26)
		} else {
			p.props("unsubscribe", 0x26)
		}
		n := 0
		for p.pos < p.end {
			p.f("filter %q", p.str())
			if first>>4 == 8 {
				p.f("options %#x", p.byte())
			}
			n++
		}
		if n == 0 {
			panic("no topic filter")
		}
	case 12:
	case 14, 15:
		rc := byte(0)
		if p.pos < p.end {
			rc = p.byte()
		}
		p.f("reason %#x", rc)
		switch {
		case p.pos >= p.end:
			p.f("props []")
		case first>>4 == 14:
			p.props("props", 0x11, 0x1F, 0x26, 0x1C)
		default:
			p.props("props", 0x15, 0x16, 0x1F, 0x26)
		}
	default:
		panic(fmt.Sprintf("packet type %d", first>>4))
	}
	if p.pos != p.end {
		return "", fmt.Errorf("%d bytes left over after the last field", p.end-p.pos)
	}
	return strings.Join(p.out, "\n"), nil
}

type parser struct {
	s        string
	pos, end int
	out      []string
}

func (p *parser) f(format string, a ...any) { p.out = append(p.out, fmt.Sprintf(format, a...)) }

func (p *parser) byte() byte {
	if p.pos >= p.end {
		panic("packet ends early")
	}
	p.pos++
	return p.s[p.pos-1]
}

func (p *parser) u16() uint16 { return uint16(p.byte())<<8 | uint16(p.byte()) }

func (p *parser) u32() uint32 { return uint32(p.u16())<<16 | uint32(p.u16()) }

func (p *parser) str() string {
	n := int(p.u16())
	if p.pos+n > p.end {
		panic("string overruns its section")
	}
	p.pos += n
	return p.s[p.pos-n : p.pos]
}

func (p *parser) varint() uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		b := p.byte()
		v |= uint32(b&127) << (7 * i)
		if b < 128 {
			if i > 0 && b == 0 {
				panic("variable byte integer not minimal")
			}
			return v
		}
	}
	panic("variable byte integer too long")
}

func (p *parser) props(name string, allowed ...byte) {
	n := int(p.varint())
	if p.pos+n > p.end {
		panic(name + " property length overruns the packet")
	}
	outer := p.end
	p.end = p.pos + n
	var list []string
	seen := map[byte]bool{}
	for p.pos < p.end {
		id := p.byte()
		ok := false
		for _, a := range allowed {
			ok = ok || a == id
		}
		if !ok {
			panic(fmt.Sprintf("property %#x not allowed in %s", id, name))
		}
		if seen[id] && id != 0x26 {
			panic(fmt.Sprintf("property %#x twice in %s", id, name))
		}
		seen[id] = true
		switch id {
		case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
			list = append(list, fmt.Sprintf("%#02x=%d", id, p.byte()))
		case 0x13, 0x21, 0x22, 0x23:
			list = append(list, fmt.Sprintf("%#02x=%d", id, p.u16()))
		case 0x02, 0x11, 0x18, 0x27:
			list = append(list, fmt.Sprintf("%#02x=%d", id, p.u32()))
		case 0x0B:
			list = append(list, fmt.Sprintf("%#02x=%d", id, p.varint()))
		case 0x26:
			list = append(list, fmt.Sprintf("%#02x=%q:%q", id, p.str(), p.str()))
		default:
			list = append(list, fmt.Sprintf("%#02x=%q", id, p.str()))
		}
	}
	p.end = outer
	sort.Strings(list)
	p.f("%s %v", name, list)
}

// SamePacket compares what an encoder wrote with the specified packet, up to property order; "" if they agree.
func SamePacket(got, want string) string {
	cw, err := Canon(want)
	if err != nil {
		return "" // outside the domain of the specification
	}
	cg, err := Canon(got)
	if err != nil {
		return "not a well-formed packet: " + err.Error() + "; wrote " + Short(got) + " want " + Short(want)
	}
	if cg != cw {
		return "wrote " + Short(got) + " want " + Short(want)
	}
	return ""
}
