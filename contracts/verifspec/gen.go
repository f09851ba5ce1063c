package verifspec

// Input generation and bookkeeping for the replay of counterexamples on the real code. A case draws named values; every
// draw is recorded so that a failing case can be stored and re-run exactly. Values proposed by the solver's counterexample
// (hints) are tried first.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Draw is one recorded choice.
type Draw struct {
	Name string `json:"name"`
	U    uint64 `json:"u"`
	S    string `json:"s,omitempty"`
	L    int    `json:"len,omitempty"`
}

// Gen draws the values of one case.
type Gen struct {
	rng    *rand.Rand
	hints  map[string][]uint64
	useH   int // percent of draws taken from the hints
	Draws  []Draw
	replay []Draw
	notes  []string
}

func (g *Gen) draw(name string, pick func() (uint64, string, int)) (uint64, string, int) {
	if g.replay != nil {
		if len(g.Draws) < len(g.replay) {
			d := g.replay[len(g.Draws)]
			g.Draws = append(g.Draws, d)
			s, err := strconv.Unquote(d.S)
			if err != nil {
				s = ""
			}
			if d.L > 0 {
				s = strings.Repeat(s, d.L)
			}
			return d.U, s, d.L
		}
		g.Draws = append(g.Draws, Draw{Name: name})
		return 0, "", 0
	}
	u, s, l := pick()
	g.Draws = append(g.Draws, Draw{Name: name, U: u, S: strconv.Quote(s), L: l})
	if l > 0 {
		s = strings.Repeat(s, l)
	}
	return u, s, l
}

func (g *Gen) hint(name string) (uint64, bool) {
	if g.useH == 0 || g.rng.Intn(100) >= g.useH {
		return 0, false
	}
	// The longest hint name that ends like the drawn name ("p.Header" for "Header").
	hs := g.hints[name]
	if len(hs) == 0 {
		return 0, false
	}
	return hs[g.rng.Intn(len(hs))], true
}

// Note adds a line to the description of the case.
func (g *Gen) Note(format string, a ...any) { g.notes = append(g.notes, fmt.Sprintf(format, a...)) }

// Uint draws an integer of the given width, preferring boundary values.
func (g *Gen) Uint(name string, bits int) uint64 {
	mask := uint64(1)<<uint(bits) - 1
	if bits == 64 {
		mask = ^uint64(0)
	}
	u, _, _ := g.draw(name, func() (uint64, string, int) {
		if h, ok := g.hint(name); ok {
			return h & mask, "", 0
		}
		switch g.rng.Intn(6) {
		case 0:
			return uint64(g.rng.Intn(4)) & mask, "", 0
		case 1:
			return (uint64(1)<<uint(g.rng.Intn(bits)) + uint64(g.rng.Intn(3)) - 1) & mask, "", 0
		case 2:
			return (mask - uint64(g.rng.Intn(3))) & mask, "", 0
		case 3:
			bs := []uint64{127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0x26, 0x1f, 0xff00, 0x1234, 0x12345678}
			return bs[g.rng.Intn(len(bs))] & mask, "", 0
		default:
			return g.rng.Uint64() & mask, "", 0
		}
	})
	return u
}

// OptUint draws an integer that is often zero.
func (g *Gen) OptUint(name string, bits int) uint64 {
	if g.Intn("has."+name, 2) == 0 {
		return 0
	}
	return g.Uint(name, bits)
}

// Intn draws from 0..n-1 uniformly.
func (g *Gen) Intn(name string, n int) int {
	u, _, _ := g.draw(name, func() (uint64, string, int) {
		if h, ok := g.hint(name); ok && h < uint64(n) {
			return h, "", 0
		}
		return uint64(g.rng.Intn(n)), "", 0
	})
	if n <= 0 {
		return 0
	}
	return int(u % uint64(n))
}

// Bool draws a truth value.
func (g *Gen) Bool(name string) bool { return g.Intn(name, 2) == 1 }

const strAlphabet = "ab/+#$\x00\xff\x26\x1fMQ"

// StrOf draws a string over the given alphabet of length up to max.
func (g *Gen) StrOf(name, alphabet string, max int) string {
	_, s, _ := g.draw(name, func() (uint64, string, int) {
		n := g.rng.Intn(max + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[g.rng.Intn(len(alphabet))]
		}
		return 0, string(b), 0
	})
	return s
}

// Bytes draws arbitrary bytes of length up to max.
func (g *Gen) Bytes(name string, max int) string {
	_, s, _ := g.draw(name, func() (uint64, string, int) {
		b := make([]byte, g.rng.Intn(max+1))
		for i := range b {
			if g.rng.Intn(3) == 0 {
				b[i] = byte(g.rng.Intn(256))
			} else {
				b[i] = byte(g.rng.Intn(50))
			}
		}
		return 0, string(b), 0
	})
	return s
}

// Str draws an MQTT string: empty, short, or with a length around an encoding boundary.
func (g *Gen) Str(name string) string {
	_, s, _ := g.draw(name, func() (uint64, string, int) {
		if h, ok := g.hint("len(" + name + ")"); ok && h <= 70000 {
			return 0, "x", int(h)
		}
		switch g.rng.Intn(8) {
		case 0, 1:
			return 0, "", 0
		case 2:
			ls := []int{1, 60, 100, 113, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 255, 256, 257}
			return 0, "y", ls[g.rng.Intn(len(ls))]
		case 3:
			if g.rng.Intn(8) == 0 {
				ls := []int{16380, 16383, 16384, 65534, 65535}
				return 0, "z", ls[g.rng.Intn(len(ls))]
			}
		}
		b := make([]byte, 1+g.rng.Intn(9))
		for i := range b {
			b[i] = strAlphabet[g.rng.Intn(len(strAlphabet))]
		}
		return 0, string(b), 0
	})
	return s
}

// Map draws user properties.
func (g *Gen) Map(name string) map[string]string {
	n := g.Intn("n."+name, 4)
	if n == 0 {
		if g.Bool("nil." + name) {
			return nil
		}
		return map[string]string{}
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k := g.Str(name + ".key")
		m[k] = g.Str(name + ".value")
	}
	return m
}

// Result of a case: "" if the property held, else what failed.
type Case func(g *Gen) string

// Replay runs case after case until one fails or the budget is used up, and reports the failure. It is the body of every
// replay test. Environment: VERIF_SEED, VERIF_BUDGET_MS, VERIF_HINTS (file of name/value lists), VERIF_DRAWS (re-run this
// recorded case only), VERIF_REPLAY_OUT (where to record a failing case).
func Replay(prop string, cases map[string]Case, fail func(format string, a ...any)) {
	if len(cases) == 0 {
		return
	}
	names := make([]string, 0, len(cases))
	for n := range cases {
		names = append(names, n)
	}
	for i := range names { // sorted, so that runs are reproducible
		for j := i + 1; j < len(names); j++ {
			if names[j] < names[i] {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	if f := os.Getenv("VERIF_DRAWS"); f != "" {
		var rec struct {
			Case  string
			Draws []Draw
		}
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &rec)
		}
		if err != nil {
			fail("cannot read %s: %v", f, err)
			return
		}
		g := &Gen{rng: rand.New(rand.NewSource(1)), replay: rec.Draws}
		if g.replay == nil {
			g.replay = []Draw{}
		}
		if c := cases[rec.Case]; c != nil {
			if msg := runCase(c, g); msg != "" {
				fail("REPLAY-FAIL %s %s: %s", prop, rec.Case, msg)
			}
		}
		return
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	budget := 5000
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS")); err == nil {
		budget = v
	}
	hints := map[string][]uint64{}
	if f := os.Getenv("VERIF_HINTS"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			_ = json.Unmarshal(b, &hints)
		}
	}
	end := time.Now().Add(time.Duration(budget) * time.Millisecond)
	n := 0
	for n < 30 || time.Now().Before(end) {
		for _, name := range names {
			g := &Gen{rng: rand.New(rand.NewSource(seed*1000003 + int64(n)))}
			if len(hints) > 0 {
				g.hints = hints
				g.useH = []int{0, 90, 50, 15}[n%4]
			}
			n++
			msg := runCase(cases[name], g)
			if msg == "" {
				continue
			}
			rec := map[string]any{"property": prop, "case": name, "failure": msg, "notes": g.notes, "draws": g.Draws, "cases_tried": n}
			if out := os.Getenv("VERIF_REPLAY_OUT"); out != "" {
				b, _ := json.MarshalIndent(rec, "", " ")
				_ = os.WriteFile(out, b, 0o644)
			}
			fail("REPLAY-FAIL %s %s: %s\n  case: %s", prop, name, msg, strings.Join(g.notes, "; "))
			return
		}
		if n >= 30 && time.Now().After(end) {
			break
		}
	}
	fmt.Printf("REPLAY-OK %s cases=%d\n", prop, n)
}

func runCase(c Case, g *Gen) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return c(g)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 4 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Chunked is a reader that returns the bytes of S in pieces chosen by the generator.
type Chunked struct {
	S    string
	Pos  int
	Step func() int
	End  error // the error at the end (io.EOF if nil)
	// EagerEnd: the error comes together with the last bytes.
	EagerEnd bool
}

func (c *Chunked) Read(b []byte) (int, error) {
	e := c.End
	if e == nil {
		e = io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.Pos >= len(c.S) {
		return 0, e
	}
	n := c.Step()
	if n > len(b) {
		n = len(b)
	}
	if n > len(c.S)-c.Pos {
		n = len(c.S) - c.Pos
	}
	copy(b, c.S[c.Pos:c.Pos+n])
	c.Pos += n
	if c.EagerEnd && c.Pos == len(c.S) {
		return n, e
	}
	return n, nil
}

// Reader is a fragmenting reader over s.
func (g *Gen) Reader(s string) *Chunked {
	mode := g.Intn("chunking", 4)
	rng := rand.New(rand.NewSource(int64(g.Intn("chunkseed", 1000))))
	return &Chunked{S: s, EagerEnd: g.Intn("eager", 4) == 3, Step: func() int {
		switch mode {
		case 0:
			return 1 << 30
		case 1:
			return 1
		default:
			return rng.Intn(5) // 0: an empty read without error is allowed
		}
	}}
}

// FailingWriter accepts Left bytes and fails afterwards.
type FailingWriter struct {
	B    []byte
	Left int
}

func (w *FailingWriter) Write(b []byte) (int, error) {
	if len(b) > w.Left {
		n := w.Left
		w.B = append(w.B, b[:n]...)
		w.Left = 0
		return n, io.ErrShortWrite
	}
	w.B = append(w.B, b...)
	w.Left -= len(b)
	return len(b), nil
}

// Short renders bytes for a message.
func Short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Sprintf is fmt.Sprintf (so that replay tests need no further import).
func Sprintf(format string, a ...any) string { return fmt.Sprintf(format, a...) }
