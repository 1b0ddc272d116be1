package props

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// ref.go is the reference: an RTMP chunk encoder and a strict decoder written
// from the RTMP specification (section 5.3), independent of the library.

// Hex is a byte slice that is readable in replay files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// P is a payload, given by its length and a seed that makes every position of
// every payload recognizable.
type P struct {
	N int    `json:"n"`
	S uint32 `json:"s"`
}

func (p P) Data() []byte {
	b := make([]byte, p.N)
	if p.S>>8 == patterns>>8 {
		p.pattern(b)
		return b
	}
	x := p.S*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// patterns is the first of the seeds of payloads that are all but random.
const patterns, numPatterns = 0xfade0000, 22

func (p P) pattern(b []byte) {
	fill := func(b []byte, with ...byte) {
		for i := range b {
			b[i] = with[i%len(with)]
		}
	}
	copy(b, P{p.N, uint32(p.N)}.Data())
	switch h := len(b) / 2; p.S - patterns {
	case 0:
		fill(b, 0)
	case 1:
		fill(b, 0xff)
	case 2: // headers of continuation chunks
		fill(b, 0xc2, 0xc3, 0xc4)
	case 3: // announcements of a chunk size
		fill(b, 2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 16, 0)
	case 4:
		fill(b, []byte("GET / HTTP/1.1\r\n\r\n")...)
	case 5:
		fill(b[h:], 0)
	case 6:
		fill(b[:h], 0)
	case 7:
		for i := range b {
			b[i] = byte(i)
		}
	case 8:
		fill(b[:min(1, p.N)], 0)
	case 9:
		fill(b[max(0, p.N-1):], 0)
	case 10:
		fill(b[max(0, p.N-1):], 0xff)
	case 11:
		fill(b, 0xaa, 0x55)
	case 12:
		copy(b[h:], b)
	case 13: // the start of an FLV file
		copy(b, "FLV\x01\x05\x00\x00\x00\x09\x00\x00\x00\x00")
	case 14:
		fill(b, 0)
		fill(b[max(0, p.N-1):], 1)
	case 16, 17: // as in codecs' packets
		fill(b[:min(1, p.N)], byte(p.S-patterns-15))
	case 18:
		copy(b, "\x17\x00\x00\x00\x00")
	case 19:
		copy(b, "\x17\x02\x00\x00\x00")
	case 20:
		copy(b, "\xaf\x00\x12\x10")
	case 21:
		copy(b, "\x27\x01\x00\x00\x00")
	case 15: // a zero every few bytes, as after start codes
		for i := range b {
			if i%4 != 3 {
				b[i] = 0
			}
		}
	}
}

// genSeed draws the seed of a payload.
func genSeed(t *rapid.T) uint32 {
	if chance(t, "pattern", 15) {
		return uint32(patterns + genInt(t, "pattern", 0, numPatterns-1))
	}
	return uint32(genInt(t, "seed", 1, 255))
}

// M is one message as a user sees it, resolved: nothing is left implicit.
type M struct {
	Cs    uint32
	Ts    uint32 // the complete (possibly extended) timestamp or delta
	Delta bool
	Type  byte
	Sid   uint32
	Data  []byte
}

func ts24(ts uint32) uint32 {
	if ts >= 0xffffff {
		return 0xffffff
	}
	return ts
}

func put24(b []byte, v uint32) []byte { return append(b, byte(v>>16), byte(v>>8), byte(v)) }

// Dialect says how chunk stream ids of 320 and more are written. The library
// deviates from the specification here (a known finding, pinned by its tests),
// so streams that use such ids are made in the dialect the library writes.
type Dialect int

const (
	DialectSpec Dialect = iota // marker 1, little-endian
	DialectRepo                // marker 63, big-endian
)

type sliceWriter struct{ b []byte }

func (w *sliceWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

// dialect asks the library which form it writes.
func dialect() Dialect {
	w := new(sliceWriter)
	(&chunk.BasicHeader{FormatId: 0, StreamId: 1000}).Write(w)
	if len(w.b) == 3 && w.b[0] == 1 {
		return DialectSpec
	}
	return DialectRepo
}

// refBasic encodes a basic header.
func refBasic(d Dialect, fmtId byte, cs uint32) []byte {
	switch {
	case cs < 64:
		return []byte{fmtId<<6 | byte(cs)}
	case cs < 320:
		return []byte{fmtId << 6, byte(cs - 64)}
	case d == DialectSpec:
		return []byte{fmtId<<6 | 1, byte(cs - 64), byte((cs - 64) >> 8)}
	}
	return []byte{fmtId<<6 | 63, byte((cs - 64) >> 8), byte(cs - 64)}
}

// refHeader encodes a complete chunk header of the given format.
func refHeader(d Dialect, fmtId byte, m *M) []byte {
	b := refBasic(d, fmtId, m.Cs)
	if fmtId <= 2 {
		b = put24(b, ts24(m.Ts))
	}
	if fmtId <= 1 {
		b = put24(b, uint32(len(m.Data)))
		b = append(b, m.Type)
	}
	if fmtId == 0 {
		b = binary.LittleEndian.AppendUint32(b, m.Sid)
	}
	if m.Ts >= 0xffffff {
		b = binary.BigEndian.AppendUint32(b, m.Ts)
	}
	return b
}

// StreamSpec is what a sender does: messages per chunk stream, and the order
// in which the chunk streams get to send their next chunk.
type StreamSpec struct {
	Size  int    `json:"size"`
	Lanes []Lane `json:"lanes"`
	Order []byte `json:"order"`
	// Round: after Order, the chunk streams take turns with their chunks.
	Round bool `json:"round,omitempty"`
	// Slow makes the transport and the consumers pause (milliseconds).
	Slow []int `json:"slow,omitempty"`
}

// source makes the stream's source.
func (sp *StreamSpec) source(e *Encoded) *source { return paced(e.Bytes, e.Bounds, sp.Slow) }

type Lane struct {
	Cs   uint32 `json:"cs"`
	Msgs []SMsg `json:"msgs"`
	// Once: the lane stays as it is when the stream is made longer.
	Once bool `json:"once,omitempty"`
}

// SMsg is one message of a sender. Fields its format omits are inherited.
type SMsg struct {
	Fmt  byte   `json:"f"`
	Ts   uint32 `json:"ts"`
	Type byte   `json:"t"`
	Sid  uint32 `json:"sid"`
	P    P      `json:"p"`
	// Size > 0 makes this a set-chunk-size message with that value.
	Size uint32 `json:"size,omitempty"`
	// Local makes it a change both ends agree on without a message.
	Local bool `json:"local,omitempty"`
	// Raw, if set, is the payload.
	Raw Hex `json:"raw,omitempty"`
}

// Sent is a message in completion order.
type Sent struct {
	// Abs is the time of the message, as a decoder of a whole stream has it.
	Abs uint32
	M
	Fmt      byte
	Announce bool
	Bad      bool // a malformed announcement
	Size     int  // chunk size in force after this message
	End      int  // offset in the byte stream just after this message
	Chunks   int
}

// Encoded is the outcome of the reference sender.
type Encoded struct {
	Bytes []byte
	Sent  []Sent
	Final int // chunk size at the end
	// Locals are the size changes without a message.
	Locals []LocalSize
	// Bounds are the offsets of chunk ends.
	Bounds []int
	// Feature counters.
	Inter, ExtCont, CsNew int
	MidAnnounce           bool
}

type LocalSize struct{ At, Size int }

// Messages returns what a user has to see.
func (e *Encoded) Messages() (out []M) {
	for _, s := range e.Sent {
		if !s.Announce && !s.Bad {
			out = append(out, s.M)
		}
	}
	return
}

// refEncode is the reference sender.
func refEncode(d Dialect, sp *StreamSpec) *Encoded {
	e := &Encoded{Final: sp.Size}
	type lane struct {
		todo []SMsg
		last *M
		cur  *Sent
		rest []byte
		orig *M
	}
	lanes := make([]*lane, len(sp.Lanes))
	left := 0
	for i, l := range sp.Lanes {
		lanes[i] = &lane{todo: l.Msgs}
		left += len(l.Msgs)
	}
	size := sp.Size
	oi, prevLane := 0, -1
	for left > 0 {
		// Pick the next lane that has something to send.
		var ready []int
		for i, l := range lanes {
			if len(l.todo) > 0 || l.cur != nil {
				ready = append(ready, i)
			}
		}
		pick := 0
		if oi < len(sp.Order) {
			pick = int(sp.Order[oi]) % len(ready)
			oi++
		} else if sp.Round {
			for i, r := range ready {
				if r > prevLane {
					pick = i
					break
				}
			}
		} else if prevLane >= 0 {
			// The order ran out: finish what was begun, lane by lane.
			for i, r := range ready {
				if r == prevLane {
					pick = i
				}
			}
		}
		li := ready[pick]
		l := lanes[li]
		if prevLane >= 0 && prevLane != li {
			if lanes[prevLane].cur != nil {
				e.Inter++
			}
		}
		prevLane = li
		if l.cur == nil {
			s := l.todo[0]
			l.todo = l.todo[1:]
			if s.Local {
				size = int(s.Size)
				e.Locals = append(e.Locals, LocalSize{len(e.Bytes), size})
				left--
				continue
			}
			f := s.Fmt & 3
			if l.last == nil {
				f = 0
			}
			m := M{Cs: sp.Lanes[li].Cs, Ts: s.Ts, Delta: f != 0, Type: s.Type, Sid: s.Sid, Data: s.P.Data()}
			announce, bad := false, false
			if s.Raw != nil {
				m.Data = s.Raw
			}
			if s.Size > 0 {
				m.Type = 1
				m.Data = binary.BigEndian.AppendUint32(nil, s.Size)
			}
			if f >= 1 {
				m.Sid = l.last.Sid
			}
			if f >= 2 {
				n := len(l.last.Data)
				m.Type = l.last.Type
				if len(m.Data) != n {
					m.Data = P{n, s.P.S}.Data()
					if m.Type == 1 {
						m.Data = []byte{0, 0, 0, byte(s.P.S)>>1 + 1}[:min(n, 4)]
					}
				}
			}
			if f == 3 {
				m.Ts, m.Delta = l.last.Ts, l.last.Delta
			}
			if m.Type == 1 {
				if len(m.Data) >= 4 {
					announce = true
					if binary.BigEndian.Uint32(m.Data)&0x7fffffff == 0 || m.Data[0] >= 0x80 {
						// Not a legal size: make it one.
						copy(m.Data, []byte{0, 0, 1, 7})
					}
				} else {
					bad = true
				}
			}
			l.cur = &Sent{M: m, Fmt: f, Announce: announce, Bad: bad}
			l.rest = m.Data
			mm := m
			l.last = &mm
			e.Bytes = append(e.Bytes, refHeader(d, f, &m)...)
		} else {
			h := l.cur.M
			e.Bytes = append(e.Bytes, refHeader(d, 3, &h)...)
			if h.Ts >= 0xffffff {
				e.ExtCont++
			}
		}
		n := min(size, len(l.rest))
		e.Bytes = append(e.Bytes, l.rest[:n]...)
		l.rest = l.rest[n:]
		l.cur.Chunks++
		e.Bounds = append(e.Bounds, len(e.Bytes))
		if len(l.rest) == 0 {
			s := l.cur
			if s.Announce {
				size = int(binary.BigEndian.Uint32(s.Data))
				for j, o := range lanes {
					if j != li && o.cur != nil {
						e.MidAnnounce = true
					}
				}
			}
			s.Size = size
			s.End = len(e.Bytes)
			e.Sent = append(e.Sent, *s)
			l.cur = nil
			left--
		}
	}
	e.Final = size
	return e
}

// refDecode decodes a complete byte stream strictly: anything that a
// conforming sender that writes messages one after the other would not have
// written is an error.
func refDecode(d Dialect, b []byte, size int) (out []Sent, err error) {
	type state struct {
		last   *M
		length int
		cur    *Sent
		abs    uint32
	}
	st := map[uint32]*state{}
	pos := 0
	need := func(n int) ([]byte, error) {
		if len(b)-pos < n {
			return nil, fmt.Errorf("stream ends inside a chunk at offset %d", pos)
		}
		pos += n
		return b[pos-n : pos], nil
	}
	for pos < len(b) {
		at := pos
		h, _ := need(1)
		f, low := h[0]>>6, uint32(h[0]&0x3f)
		cs := low
		switch {
		case low == 0:
			t, err := need(1)
			if err != nil {
				return out, err
			}
			cs = uint32(t[0]) + 64
		case low == 1 && d == DialectSpec:
			t, err := need(2)
			if err != nil {
				return out, err
			}
			cs = uint32(t[0]) + uint32(t[1])<<8 + 64
		case low == 63 && d == DialectRepo:
			t, err := need(2)
			if err != nil {
				return out, err
			}
			cs = uint32(t[1]) + uint32(t[0])<<8 + 64
		}
		s := st[cs]
		if s == nil {
			if f != 0 {
				return out, fmt.Errorf("offset %d: first chunk of chunk stream %d has format %d", at, cs, f)
			}
			s = &state{}
			st[cs] = s
		}
		m := M{Cs: cs}
		if s.last != nil {
			m = *s.last
			m.Data = nil
		}
		cont := s.cur != nil
		if cont && f != 3 {
			return out, fmt.Errorf("offset %d: chunk stream %d: message not complete, but a chunk of format %d follows", at, cs, f)
		}
		length := s.length
		t24 := ts24(m.Ts)
		if f <= 2 {
			n := []int{11, 7, 3}[f]
			t, err := need(n)
			if err != nil {
				return out, err
			}
			t24 = uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
			m.Ts, m.Delta = t24, f != 0
			if f <= 1 {
				length = int(t[3])<<16 | int(t[4])<<8 | int(t[5])
				m.Type = t[6]
			}
			if f == 0 {
				m.Sid = binary.LittleEndian.Uint32(t[7:])
			}
		}
		if t24 == 0xffffff {
			t, err := need(4)
			if err != nil {
				return out, err
			}
			x := binary.BigEndian.Uint32(t)
			if f == 3 && x != m.Ts {
				return out, fmt.Errorf("offset %d: format 3 chunk does not repeat extended timestamp %#x but has %#x", at, m.Ts, x)
			}
			if x < 0xffffff {
				return out, fmt.Errorf("offset %d: extended timestamp %#x fits in 24 bits", at, x)
			}
			m.Ts = x
		}
		if !cont {
			if f == 0 {
				s.abs = 0
			}
			s.abs += m.Ts
			s.cur = &Sent{M: m, Fmt: f, Abs: s.abs}
			mm := m
			s.last, s.length = &mm, length
		}
		n := min(size, s.length-len(s.cur.Data))
		t, err := need(n)
		if err != nil {
			return out, err
		}
		s.cur.Data = append(s.cur.Data, t...)
		s.cur.Chunks++
		if len(s.cur.Data) == s.length {
			if s.cur.Type == 1 && s.length >= 4 {
				s.cur.Announce = true
				size = int(binary.BigEndian.Uint32(s.cur.Data))
				if size == 0 {
					return out, fmt.Errorf("chunk size 0 announced")
				}
			}
			s.cur.Size, s.cur.End = size, pos
			out = append(out, *s.cur)
			s.cur = nil
		}
	}
	for cs, s := range st {
		if s.cur != nil {
			return out, fmt.Errorf("stream ends with an incomplete message on chunk stream %d", cs)
		}
	}
	return out, nil
}

// toChunk makes the library's representation of a message.
func toChunk(m *M, fmtId byte) *chunk.Chunk {
	c := &chunk.Chunk{
		Header: &chunk.Header{
			BasicHeader: chunk.BasicHeader{FormatId: fmtId, StreamId: m.Cs},
			MessageHeader: chunk.MessageHeader{
				FormatId:       fmtId,
				Timestamp:      ts24(m.Ts),
				TimestampDelta: m.Delta,
				Length:         uint32(len(m.Data)),
				TypeId:         m.Type,
				StreamId:       m.Sid,
			},
		},
		Data: m.Data,
	}
	if m.Ts >= 0xffffff {
		c.Header.ExtendedTimestamp.Delta = m.Ts
	}
	return c
}

// fromChunk is the user's view of a delivered chunk.
func fromChunk(c *chunk.Chunk) M {
	h := c.Header
	m := M{
		Cs:    h.BasicHeader.StreamId,
		Ts:    h.MessageHeader.Timestamp,
		Delta: h.MessageHeader.TimestampDelta,
		Type:  h.MessageHeader.TypeId,
		Sid:   h.MessageHeader.StreamId,
		Data:  c.Data,
	}
	if m.Ts == 0xffffff {
		m.Ts = h.ExtendedTimestamp.Delta
	}
	return m
}

// diffM describes how a delivered message differs from the expected one.
func diffM(got, want *M) string {
	s := ""
	if got.Cs != want.Cs {
		s += fmt.Sprintf(" chunk stream %d, want %d;", got.Cs, want.Cs)
	}
	if got.Ts != want.Ts {
		s += fmt.Sprintf(" timestamp %#x, want %#x;", got.Ts, want.Ts)
	}
	if got.Delta != want.Delta {
		s += fmt.Sprintf(" timestamp is a delta: %v, want %v;", got.Delta, want.Delta)
	}
	if got.Type != want.Type {
		s += fmt.Sprintf(" type %#x, want %#x;", got.Type, want.Type)
	}
	if got.Sid != want.Sid {
		s += fmt.Sprintf(" message stream %d, want %d;", got.Sid, want.Sid)
	}
	if string(got.Data) != string(want.Data) {
		at := 0
		for at < len(got.Data) && at < len(want.Data) && got.Data[at] == want.Data[at] {
			at++
		}
		s += fmt.Sprintf(" payload (%d bytes, want %d) differs at byte %d;", len(got.Data), len(want.Data), at)
	}
	return s
}

// checkMsgs compares delivered messages with the expected ones.
func checkMsgs(o *O, kind string, got []*chunk.Chunk, want []M) bool {
	for i, c := range got {
		if c == nil || c.Header == nil {
			o.Failf(kind, "delivery %d is nil", i)
			return false
		}
		if i >= len(want) {
			m := fromChunk(c)
			o.Failf(kind, "%d messages delivered, want %d: extra one on chunk stream %d, type %#x, %d bytes", len(got), len(want), m.Cs, m.Type, len(m.Data))
			return false
		}
		m := fromChunk(c)
		if d := diffM(&m, &want[i]); d != "" {
			o.Failf(kind, "message %d of %d:%s", i, len(want), d)
			return false
		}
		if int(c.Header.MessageHeader.Length) != len(c.Data) {
			o.Failf(kind, "message %d: header length %d, payload has %d bytes", i, c.Header.MessageHeader.Length, len(c.Data))
			return false
		}
	}
	if len(got) < len(want) {
		w := want[len(got)]
		o.Failf(kind, "only %d messages delivered, want %d: missing one on chunk stream %d, type %#x, %d bytes", len(got), len(want), w.Cs, w.Type, len(w.Data))
		return false
	}
	return true
}

// ------------------------------------------------------------- generators

func oneOf[T any](t *rapid.T, name string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, name) }

func genInt(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

func chance(t *rapid.T, name string, percent int) bool {
	// Drawn so that shrinking goes towards false.
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-percent
}

var csEdges = []uint32{3, 2, 4, 5, 6, 8, 61, 62, 64, 65, 66, 127, 128, 191, 192, 255, 256, 257, 318, 319}
var csBig = []uint32{320, 321, 383, 384, 575, 576, 1000, 16384 + 64, 32767 + 64, 65535, 65536, 65599}

// genCs draws a chunk stream id both dialects can represent: not 0, 1 and 63.
func genCs(t *rapid.T, big bool) uint32 {
	k := genInt(t, "csKind", 0, 9)
	switch {
	case k < 6:
		return oneOf(t, "cs", csEdges...)
	case k < 8:
		c := uint32(genInt(t, "cs", 2, 319))
		if c == 63 {
			c = 64
		}
		return c
	case big && k == 8:
		return oneOf(t, "cs", csBig...)
	case big:
		return uint32(genInt(t, "cs", 320, 65599))
	}
	return uint32(genInt(t, "cs", 2, 62))
}

// genCss draws n distinct ids.
func genCss(t *rapid.T, n int, big bool) []uint32 {
	out := make([]uint32, 0, n)
	seen := map[uint32]bool{}
	for len(out) < n {
		c := genCs(t, big)
		if len(out) > 0 && chance(t, "kin", 25) {
			// One that shares digits with an earlier one.
			o := out[genInt(t, "of", 0, len(out)-1)]
			switch genInt(t, "kinKind", 0, 3) {
			case 0:
				c = o ^ 1<<genInt(t, "bit", 0, 16)
			case 1:
				c = o + oneOf(t, "up", uint32(64), 256, 512, 4096, 32768, 65536)
			case 2:
				c = o - oneOf(t, "down", uint32(64), 256, 512, 4096, 32768, 65536)
			default:
				c = (o-64)<<8&0xff00 + (o-64)>>8&0xff + 64
			}
			if c < 2 || c > 65599 || !big && c > 319 {
				c = genCs(t, big)
			}
		}
		for seen[c] || c == 63 || c < 2 || c > 65599 || !big && c > 319 {
			if c++; c > 65599 || !big && c > 319 {
				c = 2
			}
		}
		seen[c] = true
		out = append(out, c)
	}
	return out
}

func genTs(t *rapid.T) uint32 {
	switch k := genInt(t, "tsKind", 0, 9); {
	case k < 4:
		return uint32(genInt(t, "ts", 0, 5000))
	case k < 7:
		return oneOf(t, "ts", uint32(0), 1, 0xff, 0x100, 0xffff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff)
	case k < 9:
		return rapid.Uint32Range(0xffffff, 0xffffffff).Draw(t, "ts")
	}
	return rapid.Uint32Range(0, 0xfffffe).Draw(t, "ts")
}

// genType draws a message type other than 1 (set chunk size).
func genType(t *rapid.T) byte {
	if chance(t, "typeAny", 25) {
		b := rapid.Byte().Draw(t, "type")
		if b == 1 {
			b = 0x11
		}
		return b
	}
	return oneOf(t, "type", byte(8), 9, 0x12, 0x14, 2, 3, 4, 5, 6, 0, 0x0f, 0x11, 0xff)
}

func genSid(t *rapid.T) uint32 {
	if chance(t, "sidAny", 25) {
		return rapid.Uint32().Draw(t, "sid")
	}
	return oneOf(t, "sid", uint32(0), 1, 2, 0xff, 0x100, 0x01020304, 0x80000000, 0xffffffff)
}

// genSize draws a chunk size.
func genSize(t *rapid.T) int {
	switch k := genInt(t, "sizeKind", 0, 9); {
	case k < 5:
		return oneOf(t, "size", 128, 1, 2, 3, 4, 5, 7, 8, 16, 64, 127, 129, 255, 256, 4096, 65535, 65536)
	case k < 8:
		return genInt(t, "size", 1, 300)
	case k < 9:
		return oneOf(t, "size", 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff)
	}
	return genInt(t, "size", 1, 70000)
}

// genLen draws a payload length, mostly around multiples of the chunk size.
func genLen(t *rapid.T, size, maxLen int) int {
	n := 0
	switch k := genInt(t, "lenKind", 0, 9); {
	case k < 3:
		n = genInt(t, "len", 0, 20)
	case k < 8:
		mul := genInt(t, "mult", 0, 5)
		if size > maxLen {
			mul = 0
		}
		n = mul*size + genInt(t, "off", -2, 2)
	default:
		n = genInt(t, "len", 0, maxLen)
	}
	// At most about 60 chunks, to keep cases small.
	n = min(n, maxLen, 60*size)
	return max(n, 0)
}

func genP(t *rapid.T, size, maxLen int) P {
	return P{genLen(t, size, maxLen), genSeed(t)}
}

// genStream draws a sender's behaviour.
func genStream(t *rapid.T, opt streamOpt) StreamSpec {
	sp := StreamSpec{Size: 128}
	if chance(t, "ownSize", 60) {
		sp.Size = genSize(t)
	}
	nl := genInt(t, "lanes", 1, opt.maxLanes)
	sizes := []int{sp.Size}
	total := 0
	for _, cs := range genCss(t, nl, opt.big) {
		l := Lane{Cs: cs}
		nm := genInt(t, "msgs", 1, opt.maxMsgs)
		var freshAfter bool
		lastLen := 0
		for i := 0; i < nm; i++ {
			s := SMsg{Ts: genTs(t), Type: genType(t), Sid: genSid(t)}
			s.Fmt = byte(genInt(t, "fmt", 0, 3))
			sz := sizes[genInt(t, "whichSize", 0, len(sizes)-1)]
			maxLen := 3000
			if opt.maxLen > 0 {
				maxLen = opt.maxLen
			}
			s.P = genP(t, sz, maxLen)
			if freshAfter {
				s.Fmt, freshAfter = 0, false
			}
			if i == 0 {
				s.Fmt = 0
			}
			if opt.announce && chance(t, "announce", 15) {
				s.Size = uint32(genSize(t))
				if s.Fmt >= 2 {
					s.Fmt = 1
				}
				if i == 0 {
					s.Fmt = 0
				}
				sizes = append(sizes, int(s.Size))
				freshAfter = opt.fresh
				s.P = P{4, 1}
			}
			if s.Fmt >= 2 {
				s.P.N = lastLen
			}
			if s.Size > 0 {
				lastLen = 4
			} else {
				lastLen = s.P.N
			}
			total += lastLen
			if total > 12000 && opt.maxLen == 0 {
				break
			}
			l.Msgs = append(l.Msgs, s)
		}
		l.Msgs = dups(t, l.Msgs, func(s SMsg) bool { return s.Size > 0 })
		if len(l.Msgs) > 0 {
			sp.Lanes = append(sp.Lanes, l)
		}
	}
	if nl > 1 {
		sp.Order = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "order")
	}
	if opt.slow {
		sp.Slow = genSlow(t)
	}
	return sp
}

type streamOpt struct {
	maxLanes, maxMsgs, maxLen int
	big, announce             bool
	// fresh: a message after an announcement starts with a full header.
	fresh bool
	// slow: at times with pauses.
	slow bool
}
