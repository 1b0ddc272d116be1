package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/handshake"
	"pgregory.net/rapid"
)

const (
	hsPacket = 1536
	hsTotal  = 1 + 2*hsPacket
)

// HSCase is one peer's behaviour in a handshake.
type HSCase struct {
	Version byte   `json:"version"`
	T1      uint32 `json:"t1"`
	T2      uint32 `json:"t2"`
	C1      uint32 `json:"c1"` // payload seed
	C2T1    uint32 `json:"c2t1"`
	C2T2    uint32 `json:"c2t2"`
	// Flip: byte of the echo that is changed (-1: none), and how.
	Flip int  `json:"flip"`
	Xor  byte `json:"xor"`
	// Echo: "" the right one, "c1" the peer's own, "zero", "rot" rotated,
	// "rev" backwards, "prev" that of the connection before.
	Echo  string   `json:"echo,omitempty"`
	Edits []HSEdit `json:"edits,omitempty"`
	// Input ends (or fails) after this many bytes; -1: does not.
	Cut    int  `json:"cut"`
	CutErr bool `json:"cut_err"`       // a read error instead of end-of-file
	Flt    int  `json:"flt,omitempty"` // what a failing read or write says
	// The destination fails after this many bytes; -1: does not.
	WCut int `json:"wcut"`
	// Trailing bytes that follow the handshake.
	Trail int `json:"trail"`
	// Cuts are offsets where reads end; equal ones make empty reads.
	Cuts    []int `json:"cuts,omitempty"`
	One     bool  `json:"one,omitempty"`
	DataEOF bool  `json:"data_eof,omitempty"`
	// Wait: the peer sends C1 only after it has seen S0.
	Wait bool `json:"wait"`
	// Slow are pauses of the connection (milliseconds), before each read and
	// each write.
	Slow []int `json:"slow,omitempty"`
	// Supports is the version that the server has been told to support, if
	// it has been told one (0: not).
	Supports byte `json:"supports,omitempty"`
}

// HSEdit changes the echo so that some sum over all of it stays what it is.
type HSEdit struct {
	// Kind: "xor" both bytes with V; "add" V to the one and take it from the
	// other; "swap" them; "swap2", "swap4", "swap8": the words they are in.
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	V    byte   `json:"v,omitempty"`
}

func (d HSEdit) do(e []byte) {
	a, b := d.A%len(e), d.B%len(e)
	swap := func(n int) {
		a, b := a/n*n, b/n*n
		for i := 0; i < n; i++ {
			e[a+i], e[b+i] = e[b+i], e[a+i]
		}
	}
	switch d.Kind {
	case "xor":
		e[a] ^= d.V
		e[b] ^= d.V
	case "add":
		e[a] += d.V
		e[b] -= d.V
	case "swap":
		swap(1)
	case "swap2":
		swap(2)
	case "swap4":
		swap(4)
	case "swap8":
		swap(8)
	}
}

// hsConn plays the peer. It is purely reactive: what the peer cannot have sent
// yet makes Read report a protocol stall.
type hsConn struct {
	c         HSCase
	mu        sync.Mutex
	pos       int
	out       []byte
	stalled   bool
	zeros     map[int]int
	afterFail int // operations after an operation failed
	failed    bool
	pause     func(at int) // called before a read at that offset
	ops       int
	prev      []byte // challenge of the connection before
	wrong     bool   // the peer's echo is wrong
}

var errStall = errors.New("the peer waits for the server")

func (h *hsConn) c0c1() []byte {
	b := []byte{h.c.Version}
	b = binary.BigEndian.AppendUint32(b, h.c.T1)
	b = binary.BigEndian.AppendUint32(b, h.c.T2)
	return append(b, P{1528, h.c.C1}.Data()...)
}

func (h *hsConn) c2() []byte {
	s1 := h.out[1 : 1+hsPacket]
	b := binary.BigEndian.AppendUint32(nil, h.c.C2T1)
	b = binary.BigEndian.AppendUint32(b, h.c.C2T2)
	e := append([]byte(nil), s1[8:]...)
	switch h.c.Echo {
	case "c1":
		e = P{1528, h.c.C1}.Data()
	case "zero":
		e = make([]byte, 1528)
	case "rot":
		e = append(e[1:len(e):len(e)], e[0])
	case "rev":
		slices.Reverse(e)
	case "prev":
		if h.prev != nil {
			copy(e, h.prev)
		}
	}
	for _, d := range h.c.Edits {
		d.do(e)
	}
	if h.c.Flip >= 0 {
		e[h.c.Flip%1528] ^= h.c.Xor
	}
	h.wrong = !bytes.Equal(e, s1[8:])
	return append(b, e...)
}

// avail is all the peer has sent by now.
func (h *hsConn) avail() []byte {
	b := h.c0c1()
	if h.c.Wait && len(h.out) < 1 {
		b = b[:1]
	} else if len(h.out) >= 1+hsPacket {
		b = append(b, h.c2()...)
		b = append(b, P{h.c.Trail, 99}.Data()...)
	}
	if h.c.Cut >= 0 && len(b) > h.c.Cut {
		b = b[:h.c.Cut]
	}
	return b
}

func (h *hsConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if h.pause != nil {
		h.pause(h.pos)
	}
	h.rest()
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.failed {
		h.afterFail++
	}
	b := h.avail()
	if h.pos >= len(b) {
		if h.c.Cut >= 0 && h.pos >= h.c.Cut || h.pos >= hsTotal {
			h.failed = true
			if h.c.CutErr {
				return 0, readFault(h.c.Flt)
			}
			return 0, io.EOF
		}
		h.stalled = true
		return 0, errStall
	}
	end := len(b)
	if h.c.One {
		end = h.pos + 1
	}
	for _, k := range h.c.Cuts {
		if k == h.pos && h.zeros[k] < 2 {
			n := 0
			for _, k2 := range h.c.Cuts {
				if k2 == k {
					n++
				}
			}
			if n > 1 && h.zeros[k] < n-1 {
				h.zeros[k]++
				return 0, nil
			}
		}
		if k > h.pos && k < end {
			end = k
		}
	}
	n := copy(p, b[h.pos:end])
	h.pos += n
	if h.c.DataEOF && h.c.Trail == 0 && h.pos == hsTotal || h.c.DataEOF && h.c.Cut >= 0 && h.pos == h.c.Cut {
		return n, io.EOF
	}
	return n, nil
}

func (h *hsConn) Write(p []byte) (int, error) {
	h.rest()
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.failed {
		h.afterFail++
	}
	if h.c.WCut >= 0 && len(h.out)+len(p) > h.c.WCut {
		n := max(h.c.WCut-len(h.out), 0)
		h.out = append(h.out, p[:n]...)
		h.failed = true
		return n, fault(h.c.Flt)
	}
	h.out = append(h.out, p...)
	return len(p), nil
}

func newHSConn(c HSCase) *hsConn { return &hsConn{c: c, zeros: map[int]int{}} }

// rest makes a slow connection pause. One that comes in single bytes does so at
// few of them.
func (h *hsConn) rest() {
	h.mu.Lock()
	i := h.ops
	h.ops++
	h.mu.Unlock()
	if n := len(h.c.Slow); n > 0 && (i < 10 || i%1536 < 10) {
		time.Sleep(time.Duration(h.c.Slow[i%n]) * time.Millisecond)
	}
}

// shakeHands lets a server do the handshake.
func shakeHands(o *O, h *hsConn) (err error) {
	done := false
	do := func() {
		err = handshake.With(h.c.param(h)).Handshake()
		done = true
	}
	if len(h.c.Slow) > 0 {
		o.Class("pauses")
		if leak := o.bubble(do); !done {
			o.Failf("hang", "the handshake does not end: %s", leak)
		}
	} else {
		do()
	}
	return
}

func (c HSCase) supported() byte {
	if c.Supports != 0 {
		return c.Supports
	}
	return 3
}

func (c HSCase) param(rw io.ReadWriter) *handshake.Param {
	p := &handshake.Param{Conn: rw}
	if c.Supports != 0 {
		v := handshake.NewVersionSequence()
		v.Supported = c.Supports
		p.Initial = v
	}
	return p
}

// expect says whether the handshake has to succeed, and otherwise how many
// bytes may be consumed at most. Wrong: the peer's echo is not the challenge.
func (c HSCase) expect(wrong bool) (ok bool, maxRead, maxWrite int) {
	okRead, maxRead, maxWrite := true, hsTotal, hsTotal
	limit := func(r, w int) {
		okRead = false
		maxRead, maxWrite = min(maxRead, r), min(maxWrite, w)
	}
	if c.Version != c.supported() {
		limit(1, 0)
	}
	if c.Cut >= 0 && c.Cut < hsTotal {
		switch {
		case c.Cut < 1:
			limit(0, 0)
		case c.Cut < 1+hsPacket:
			limit(c.Cut, 1)
		default:
			limit(c.Cut, hsTotal)
		}
	}
	if wrong {
		limit(hsTotal, hsTotal)
	}
	if c.WCut >= 0 && c.WCut < hsTotal {
		if c.WCut < 1 {
			// The version cannot be sent. The answer may be sent with
			// or after the reading of C1.
			limit(1+hsPacket, c.WCut)
		} else {
			limit(1+hsPacket, c.WCut)
		}
	}
	return okRead, maxRead, maxWrite
}

func checkHS(o *O, c HSCase, h *hsConn, err error) {
	ok, maxRead, maxWrite := c.expect(h.wrong)
	if h.stalled {
		o.Failf("stall", "after %d bytes read and %d written the server waits for what the peer cannot have sent yet (result %v)", h.pos, len(h.out), err)
		return
	}
	if ok != (err == nil) {
		o.Failf("result", "handshake result %v, want success: %v (%d bytes read, %d written)", err, ok, h.pos, len(h.out))
		return
	}
	if ok && (h.pos != hsTotal || len(h.out) != hsTotal) {
		o.Failf("amount", "a successful handshake consumed %d bytes and sent %d, want %d and %d", h.pos, len(h.out), hsTotal, hsTotal)
		return
	}
	if h.pos > maxRead || len(h.out) > maxWrite {
		o.Failf("goes-on", "a handshake that had to stop consumed %d bytes and sent %d, at most %d and %d are right", h.pos, len(h.out), maxRead, maxWrite)
		return
	}
	if h.afterFail > 0 {
		o.Failf("goes-on", "%d more reads or writes after an operation failed", h.afterFail)
		return
	}
	if len(h.out) > 0 && h.out[0] != c.supported() {
		o.Failf("version", "the server sent version %d", h.out[0])
		return
	}
	if len(h.out) > 1+hsPacket {
		// S2: the time and data of C1. Its second field is the server's.
		s2 := h.out[1+hsPacket:]
		c1 := h.c0c1()[1:]
		for i := range s2 {
			if (i < 4 || i >= 8) && s2[i] != c1[i] {
				o.Failf("echo", "byte %d of the server's echo is %#x, the peer sent %#x", i, s2[i], c1[i])
				return
			}
		}
	}
}

func runHS(o *O, c HSCase) {
	switch {
	case c.Version != c.supported():
		o.Class("version")
	case c.WCut >= 0:
		o.Class("write-fault")
	case c.Cut >= 0:
		o.Class("read-cut")
	case c.Echo == "prev":
		o.Class("replayed")
	case c.Flip >= 0 || c.Echo != "" || len(c.Edits) > 0:
		o.Class("wrong-echo")
	default:
		o.Class("correct")
	}
	o.NT = true
	if c.Supports != 0 {
		o.Class("own-version")
	}
	var s1 []byte
	for i := 0; i < 2; i++ {
		h := newHSConn(c)
		h.prev = s1
		err := shakeHands(o, h)
		if o.Bad() {
			return
		}
		checkHS(o, c, h, err)
		if o.Bad() {
			return
		}
		if len(h.out) >= 1+hsPacket {
			n := append([]byte(nil), h.out[9:1+hsPacket]...)
			if i > 0 && bytes.Equal(n, s1) {
				o.Failf("stale", "two connections got the same challenge")
				return
			}
			if bytes.Equal(n, P{1528, c.C1}.Data()) {
				o.Failf("stale", "the server's challenge is the peer's")
				return
			}
			s1 = n
		}
	}
}

// genHSTime draws what goes where a handshake packet has its second time or,
// from players and servers of the kind that signs its packets, its version.
func genHSTime(t *rapid.T, name string) uint32 {
	if chance(t, name+"Version", 25) {
		return oneOf[uint32](t, name, 0x80000702, 0x80000302, 0x09007c02, 0x0a002002, 0x0c000d0e, 0x0d0e0a0d,
			0x03050301, 0x03050101, 0x04050001, 0x01000504, 0x05000101)
	}
	return genU32(t, name)
}

func genHS(t *rapid.T) HSCase {
	c := HSCase{Version: 3, Flip: -1, Cut: -1, WCut: -1}
	c.T1, c.T2 = genU32(t, "t1"), genHSTime(t, "t2")
	if c.C1 = rapid.Uint32().Draw(t, "c1"); chance(t, "c1Pattern", 20) {
		c.C1 = genSeed(t)
	}
	if chance(t, "c2times", 50) {
		c.C2T1, c.C2T2 = genU32(t, "c2t1"), genHSTime(t, "c2t2")
	}
	c.Wait = chance(t, "wait", 50)
	if chance(t, "trail", 40) {
		c.Trail = genInt(t, "trailing", 1, 3000)
	}
	pos := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 4, 5, 8, 9, 10, 1536, 1537, 1538, 1541, 1545, 1546, 3072}), rapid.IntRange(0, hsTotal-1))
	switch oneOf(t, "kind", "ok", "version", "flip", "echo", "edits", "cut", "wcut", "mix") {
	case "version":
		c.Version = rapid.Byte().Draw(t, "version")
	case "flip":
		c.Flip, c.Xor = genInt(t, "flip", 0, 1527), byte(genInt(t, "xor", 1, 255))
	case "echo":
		c.Echo = oneOf(t, "echo", "c1", "zero", "rot", "rev", "prev")
	case "edits":
		for range genInt(t, "edits", 1, 3) {
			d := HSEdit{Kind: oneOf(t, "edit", "xor", "add", "swap", "swap2", "swap4", "swap8"), A: genInt(t, "a", 0, 1527)}
			// The other byte is often at the same place of a word.
			if d.B = genInt(t, "b", 0, 1527); chance(t, "aligned", 60) {
				d.B = d.B/8*8 + d.A%8
			}
			if d.Kind == "xor" || d.Kind == "add" {
				d.V = byte(genInt(t, "v", 1, 255))
			}
			c.Edits = append(c.Edits, d)
		}
	case "cut":
		c.Cut, c.CutErr = pos.Draw(t, "cut"), chance(t, "cutErr", 50)
	case "wcut":
		c.WCut = pos.Draw(t, "wcut")
	case "mix":
		if chance(t, "v", 30) {
			c.Version = oneOf[byte](t, "version", 0, 2, 4, 6, 31, 255)
		}
		if chance(t, "f", 30) {
			c.Flip, c.Xor = genInt(t, "flip", 0, 1527), byte(genInt(t, "xor", 1, 255))
		}
		if chance(t, "c", 50) {
			c.Cut, c.CutErr = pos.Draw(t, "cut"), chance(t, "cutErr", 50)
		}
		if chance(t, "w", 50) {
			c.WCut = pos.Draw(t, "wcut")
		}
	}
	if chance(t, "segmented", 40) {
		genHSCuts(t, &c)
	}
	if c.CutErr || c.WCut >= 0 {
		c.Flt = genFault(t)
	}
	c.Slow = genSlow(t)
	if chance(t, "supports", 10) {
		if c.Supports = byte(genInt(t, "supported", 1, 255)); chance(t, "agreed", 80) {
			c.Version = c.Supports
		}
	}
	return c
}

// HSCrowd is many handshakes one after the other.
type HSCrowd struct {
	N    int    `json:"n"`
	Case HSCase `json:"case"`
}

// runHSCrowd wants every part of every challenge to be new. (By chance two of
// the 8-byte parts are alike once in ten billion runs.)
func runHSCrowd(o *O, c HSCrowd) {
	o.NT = true
	type place struct{ conn, off int }
	seen := map[[8]byte]place{}
	for i := range c.N {
		h := newHSConn(c.Case)
		err := handshake.With(h.c.param(h)).Handshake()
		checkHS(o, c.Case, h, err)
		if o.Bad() {
			return
		}
		if len(h.out) < 1+hsPacket {
			continue
		}
		s1 := h.out[9 : 1+hsPacket]
		for k := 0; k+8 <= len(s1); k += 8 {
			b := [8]byte(s1[k : k+8])
			if p, ok := seen[b]; ok {
				o.Failf("stale", "bytes %d-%d of the challenge of connection %d are those at %d of connection %d", k, k+7, i, p.off, p.conn)
				return
			}
			seen[b] = place{i, k}
		}
	}
}

func genHSCuts(t *rapid.T, c *HSCase) {
	c.Cuts = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int{0, 1, 4, 5, 8, 9, 10, 1536, 1537, 1538, 1541, 1545, 3072, 3073}), rapid.IntRange(0, hsTotal)), 0, 8).Draw(t, "cuts")
	if chance(t, "empties", 40) {
		c.Cuts = append(c.Cuts, c.Cuts...)
	}
	c.One = chance(t, "one", 30)
	c.DataEOF = chance(t, "dataEOF", 50)
}

// HSPair is two handshakes that go on at the same time: the second runs to its
// end while the first one waits for the input at offset At.
type HSPair struct {
	A, B HSCase
	At   int `json:"at"`
}

func runHSPair(o *O, c HSPair) {
	o.NT = true
	ha, hb := newHSConn(c.A), newHSConn(c.B)
	var errA, errB error
	done := false
	ha.pause = func(at int) {
		if at >= c.At && !done {
			done = true
			errB = handshake.With(c.B.param(hb)).Handshake()
		}
	}
	errA = handshake.With(c.A.param(ha)).Handshake()
	if !done {
		o.Class("no-overlap")
		errB = handshake.With(c.B.param(hb)).Handshake()
	}
	checkHS(o, c.A, ha, errA)
	checkHS(o, c.B, hb, errB)
	if len(ha.out) >= 1+hsPacket && len(hb.out) >= 1+hsPacket && bytes.Equal(ha.out[9:1+hsPacket], hb.out[9:1+hsPacket]) {
		o.Failf("stale", "two connections got the same challenge")
	}
}

func init() {
	base := HSCase{Version: 3, T1: 0x01020304, C1: 7, Flip: -1, Cut: -1, WCut: -1}
	Register(&Prop{ID: "C10", Together: 1000, Rounds: 2,
		Rule: "Handshakes with a reactive peer: every version byte, every echoed byte changed, input ending or failing and output failing at offsets all over the exchange (every one of them in the thorough tier), wrong echoes, two handshakes overlapping, and random combinations under random segmentation. Non-trivial: every case; distinct by content.",
		Subs: []*Sub{
			Enum("versions", func(string) (out []HSCase) {
				for v := 0; v < 256; v++ {
					c := base
					c.Version = byte(v)
					out = append(out, c)
				}
				return
			}, runHS),
			Enum("echo-bytes", func(tier string) (out []HSCase) {
				for i := 0; i < 1528; i++ {
					for b := 0; b < 8; b++ {
						if tier == "quick" && b != i%8 {
							continue
						}
						c := base
						c.Flip, c.Xor = i, 1<<b
						out = append(out, c)
					}
				}
				return
			}, runHS),
			Enum("fault-offsets", func(tier string) (out []HSCase) {
				for i := 0; i < hsTotal; i++ {
					if tier == "quick" && i%7 != 0 && i%1536 > 12 && i%1536 < 1530 {
						continue
					}
					c := base
					c.Cut = i
					out = append(out, c)
					c.CutErr, c.Wait = true, true
					out = append(out, c)
					c = base
					c.WCut = i
					out = append(out, c)
				}
				return
			}, runHS),
			Enum("crowd", func(tier string) []HSCrowd {
				n := 300
				if tier != "quick" {
					n = 3000
				}
				bad := base
				bad.Flip, bad.Xor = 1527, 1
				cut := base
				cut.Cut = 2000
				return []HSCrowd{{n, base}, {n, bad}, {n, cut}}
			}, runHSCrowd),
			Rand("exchange", 40000, genHS, runHS),
			Rand("overlap", 10000, func(t *rapid.T) HSPair {
				p := HSPair{A: genHS(t), B: genHS(t), At: oneOf(t, "at", 0, 1, 9, 1537, 1541, 1545, 2000)}
				if chance(t, "plain", 60) {
					p.A.Version, p.A.Supports, p.A.Cut, p.A.WCut, p.A.Flip, p.A.Echo, p.A.Edits = 3, 0, -1, -1, -1, "", nil
				}
				p.A.Slow, p.B.Slow = nil, nil
				return p
			}, runHSPair),
		}})
}

// ------------------------------------------------- handshake parts of C06, C07

type HSSoup struct {
	In Hex `json:"in"`
	N  int `json:"n"` // filler bytes after In
}

func genHandshakeSoup(t *rapid.T) HSSoup {
	s := HSSoup{In: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "in"), N: oneOf(t, "n", 0, 1, 1495, 1496, 1536, 1537, 3072, 3073, genInt(t, "any", 0, 6000))}
	if len(s.In) > 0 && chance(t, "v3", 80) {
		s.In[0] = 3
	}
	return s
}

type soupConn struct {
	in  *bytes.Reader
	out int
}

func (s *soupConn) Read(p []byte) (int, error)  { return s.in.Read(p) }
func (s *soupConn) Write(p []byte) (int, error) { s.out += len(p); return len(p), nil }

func runHandshakeSoup(o *O, c HSSoup) {
	o.NT = true
	in := append(append([]byte(nil), c.In...), P{c.N, 5}.Data()...)
	s := &soupConn{in: bytes.NewReader(in)}
	if err := handshake.With(&handshake.Param{Conn: s}).Handshake(); err == nil {
		o.Failf("accepted", "a handshake of %d bytes that do not echo the challenge succeeds", len(in))
	}
	if s.out > hsTotal {
		o.Failf("fabricated", "the server sent %d handshake bytes", s.out)
	}
}

func genHSSeg(t *rapid.T) HSCase {
	c := genHS(t)
	c.WCut = -1
	genHSCuts(t, &c)
	return c
}

func runHSSeg(o *O, c HSCase) {
	o.NT = len(c.Cuts) > 0 || c.One || c.DataEOF
	w := c
	w.Cuts, w.One, w.DataEOF, w.Slow = nil, false, false, nil
	a, b := newHSConn(w), newHSConn(c)
	errA, errB := shakeHands(o, a), shakeHands(o, b)
	if o.Bad() {
		return
	}
	// An echo whose bytes are swapped is right at times.
	if (errA == nil) != (errB == nil) && a.wrong == b.wrong {
		o.Failf("segmentation", "handshake in one piece: %v, in several: %v", errA, errB)
		return
	}
	checkHS(o, w, a, errA)
	checkHS(o, c, b, errB)
	if len(a.out) != len(b.out) || errB == nil && errA == nil && a.pos != b.pos {
		o.Failf("segmentation", "handshake in one piece: %d bytes consumed, %d sent; in several: %d and %d", a.pos, len(a.out), b.pos, len(b.out))
	}
}

var _ = synctest.Wait
