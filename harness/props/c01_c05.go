package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------- C01

// WOp is one step of a writing user: write a message, or announce a new chunk
// size and use it.
type WOp struct {
	Fmt  byte   `json:"f"`
	Cs   uint32 `json:"cs"`
	Ts   uint32 `json:"ts"`
	Type byte   `json:"t"`
	Sid  uint32 `json:"sid"`
	P    P      `json:"p"`
	Size uint32 `json:"size,omitempty"`
}

type WCase struct {
	Size int   `json:"size"`
	Ops  []WOp `json:"ops"`
	// Slow are pauses (milliseconds) between writes and between reads.
	Slow []int `json:"slow,omitempty"`
	// Lost are, for the messages in turn, after how many bytes (less one) a
	// destination fails to which the message is written first; 0: none.
	Lost []int `json:"lost,omitempty"`
}

func genSlowW(t *rapid.T) WCase {
	c := genWCase(t, 12, true)
	if chance(t, "lost", 25) {
		c.Lost = rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 20), rapid.IntRange(1, 400)), 1, 4).Draw(t, "lostAt")
	}
	c.Slow = genSlow(t)
	return c
}

func genWCase(t *rapid.T, maxOps int, big bool) WCase {
	c := WCase{Size: 128}
	if chance(t, "ownSize", 60) {
		c.Size = genSize(t)
	}
	css := genCss(t, genInt(t, "streams", 1, 4), big)
	n := genInt(t, "ops", 1, maxOps)
	cur, total := c.Size, 0
	last := map[uint32]*WOp{}
	for i := 0; i < n && total < 15000; i++ {
		if chance(t, "announce", 12) {
			s := genSize(t)
			cur = s
			// The announcement goes out on chunk stream 2, like every
			// protocol control message.
			op := WOp{Cs: 2, Type: 1, Size: uint32(s), P: P{4, 0}, Ts: genTs(t)}
			c.Ops = append(c.Ops, op)
			last[2] = &op
			continue
		}
		op := WOp{Cs: oneOf(t, "cs", css...), Ts: genTs(t), Type: genType(t), Sid: genSid(t), P: genP(t, cur, 3000)}
		if chance(t, "huge", 2) {
			op.P.N = min(genInt(t, "hugeLen", 65530, 70000), 300*cur)
		}
		if l := last[op.Cs]; l != nil && l.Type != 1 && chance(t, "compressed", 30) {
			op.Fmt = byte(genInt(t, "fmt", 1, 3))
			op.Sid = l.Sid
			if op.Fmt >= 2 {
				op.Type, op.P.N = l.Type, l.P.N
			}
			if op.Fmt == 3 {
				op.Ts = l.Ts
			}
		}
		total += op.P.N
		cp := op
		last[op.Cs] = &cp
		c.Ops = append(c.Ops, op)
	}
	c.Ops = dups(t, c.Ops, func(op WOp) bool { return op.Size > 0 })
	return c
}

// write makes the library write the case. It returns the messages (announcements
// included), and reports errors and changes to the caller's message.
// bounds are the offsets of the messages' ends.
func (c *WCase) write(o *O) (out []byte, sent []M, bounds []int) {
	if len(c.Slow) == 0 {
		return c.writeNow(o)
	}
	o.Class("pauses")
	done := false
	leak := o.bubble(func() {
		out, sent, bounds = c.writeNow(o)
		done = true
	})
	if !done {
		o.Failf("hang", "writing does not end: %s", leak)
	}
	return
}

func (c *WCase) writeNow(o *O) (out []byte, sent []M, bounds []int) {
	w := new(sliceWriter)
	cw := chunk.NewWriter(w, c.Size)
	delta := map[uint32]bool{}
	for i, op := range c.Ops {
		m := M{Cs: op.Cs, Ts: op.Ts, Type: op.Type, Sid: op.Sid, Data: op.P.Data()}
		if op.Size > 0 {
			m.Data = []byte{byte(op.Size >> 24), byte(op.Size >> 16), byte(op.Size >> 8), byte(op.Size)}
		}
		switch op.Fmt {
		case 0:
			delta[op.Cs] = false
		case 1, 2:
			delta[op.Cs] = true
		}
		m.Delta = delta[op.Cs]
		if n := len(c.Slow); n > 0 {
			time.Sleep(time.Duration(c.Slow[i%n]) * time.Millisecond)
		}
		keep := M{Data: append([]byte(nil), m.Data...)}
		// The caller's bytes go on behind the payload.
		const spare = "what follows the payload belongs to the caller"
		roomy := append(append(make([]byte, 0, len(m.Data)+len(spare)), m.Data...), spare...)
		m.Data = roomy[:len(m.Data)]
		ch := toChunk(&m, op.Fmt)
		hdr := *ch.Header
		if n := len(c.Lost); n > 0 && c.Lost[i%n] > 0 {
			o.Class("lost-first")
			d := &faultDest{at: c.Lost[i%n] - 1, mode: []string{"error", "refuse", "short"}[i%3], err: fault(i % 5)}
			chunk.NewWriter(d, c.Size).Write(ch)
			if !reflect.DeepEqual(*ch.Header, hdr) || !bytes.Equal(ch.Data, keep.Data) {
				o.Failf("altered", "a write of message %d that failed changed it", i)
				return
			}
		}
		if err := cw.Write(ch); err != nil {
			o.Failf("write-error", "write %d failed on a healthy destination: %v", i, err)
			return
		}
		if !reflect.DeepEqual(*ch.Header, hdr) || !bytes.Equal(ch.Data, keep.Data) {
			o.Failf("altered", "writing message %d changed it", i)
			return
		}
		if string(roomy[len(m.Data):]) != spare {
			o.Failf("altered", "writing message %d changed the caller's bytes behind its payload", i)
			return
		}
		if op.Size > 0 {
			cw.SetWriteSize(int(op.Size))
			if got := cw.WriteSize(); got != int(op.Size) {
				o.Failf("write-size", "write size set to %d reads back as %d", op.Size, got)
				return
			}
		}
		sent = append(sent, m)
		bounds = append(bounds, len(w.b))
	}
	return w.b, sent, bounds
}

func (c *WCase) classes(o *O) {
	size := c.Size
	multi := false
	css := map[uint32]bool{}
	for _, op := range c.Ops {
		css[op.Cs] = true
		n := op.P.N
		if op.Size > 0 {
			n = 4
			o.Class("announce")
			if n > size {
				o.Class("announce-in-several-chunks")
			}
		}
		if n > size {
			multi = true
			o.Class("multi-chunk")
			if op.Cs >= 320 {
				o.Class("multi-chunk-cs>=320")
			} else if op.Cs >= 64 {
				o.Class("multi-chunk-cs>=64")
			}
			if op.Ts >= 0xffffff {
				o.Class("multi-chunk-extended-ts")
			}
		}
		if n > 0 && n%size == 0 {
			o.Class("exact-multiple")
		}
		if n == 0 {
			o.Class("empty-payload")
		}
		if op.Ts >= 0xffffff {
			o.Class("extended-ts")
		}
		if op.Fmt != 0 {
			o.Class("fmt%d", op.Fmt)
		}
		if n > 0xffff {
			o.Class("len>65535")
		}
		if op.Size > 0 {
			size = int(op.Size)
		}
	}
	o.NT = multi || len(c.Ops) > 1 && len(css) > 1
}

func visible(ms []M) (out []M) {
	for _, m := range ms {
		if m.Type != 1 {
			out = append(out, m)
		}
	}
	return
}

func runC01(o *O, c WCase) {
	c.classes(o)
	b, sent, bounds := c.write(o)
	if o.Bad() {
		return
	}
	var rs int
	want := c.Size
	for _, op := range c.Ops {
		if op.Size > 0 {
			want = int(op.Size)
		}
	}
	ro := readAll(o, paced(b, bounds, c.Slow), c.Size, 1, func(r chunk.Reader, _ *readout) { rs = r.ReadSize() })
	if e := ro.Errs(); len(e) > 0 {
		o.Failf("read-error", "reading back what the writer wrote failed: %v (after %d of %d messages)", e[0], len(ro.Msgs()), len(visible(sent)))
		return
	}
	if !checkMsgs(o, "round-trip", ro.Msgs(), visible(sent)) {
		return
	}
	if rs != want {
		o.Failf("read-size", "reader's chunk size is %d after the session, want %d", rs, want)
	}
}

// Relay: what a reader delivered is written again by a writer and read again.
type RelayCase struct {
	Stream StreamSpec `json:"stream"`
	Size   int        `json:"size"`
}

func runRelay(o *O, c RelayCase) {
	e := refEncode(dialect(), &c.Stream)
	want := e.Messages()
	o.NT = len(want) >= 2
	first := readAll(o, c.Stream.source(e), c.Stream.Size, 1, nil)
	if len(first.Errs()) > 0 || !checkMsgs(o, "relay-read", first.Msgs(), want) {
		if !o.Bad() {
			o.Failf("relay-read", "reading a conforming stream failed: %v", first.Errs()[0])
		}
		return
	}
	w := new(sliceWriter)
	cw := chunk.NewWriter(w, c.Size)
	for i, m := range first.Msgs() {
		if f := m.Header.BasicHeader.FormatId; f != 0 {
			o.Class("relayed-fmt%d", f)
		}
		if err := cw.Write(m); err != nil {
			o.Failf("write-error", "writing delivered message %d failed: %v", i, err)
			return
		}
	}
	second := readAll(o, bytesSource(w.b), c.Size, 1, nil)
	if len(second.Errs()) > 0 {
		o.Failf("relay", "messages delivered by a reader and written again by a writer cannot be read back: %v", second.Errs()[0])
		return
	}
	checkMsgs(o, "relay", second.Msgs(), want)
}

// Edge cases that are too large for random generation.
type BigCase struct {
	Cs   uint32 `json:"cs"`
	N    int    `json:"n"`
	Size int    `json:"size"`
	Ts   uint32 `json:"ts"`
}

func (b BigCase) w() WCase {
	return WCase{Size: b.Size, Ops: []WOp{
		{Cs: b.Cs, Ts: b.Ts, Type: 9, Sid: 1, P: P{b.N, 7}},
		{Cs: 3, Ts: 5, Type: 8, Sid: 1, P: P{10, 9}},
	}}
}

func bigCases(tier string) []BigCase {
	out := []BigCase{
		{6, 0xffffff, 65536, 1}, {64, 0xffffff, 0xffffff, 0xffffff}, {6, 1 << 16, 1, 0}, {319, 70000, 4096, 0xffffffff},
	}
	if tier == "thorough" {
		out = append(out, BigCase{6, 0xffffff, 128, 1}, BigCase{65599, 0xfffffe, 0xfffffe, 7}, BigCase{320, 1 << 20, 127, 0xffffff})
	}
	return out
}

// every chunk stream id, with a two-chunk message
type IdCase struct {
	From uint32 `json:"from"`
	To   uint32 `json:"to"`
	Ext  bool   `json:"ext"`
}

func idCases(tier string) (out []IdCase) {
	for _, ext := range []bool{false, true} {
		out = append(out, IdCase{2, 62, ext}, IdCase{64, 319, ext})
		step := uint32(4096)
		for f := uint32(320); f <= 65599; f += step {
			if tier == "thorough" || f == 320 || f >= 61000 {
				out = append(out, IdCase{f, min(f+step-1, 65599), ext})
			}
		}
	}
	return
}

func (c IdCase) w() WCase {
	w := WCase{Size: 3}
	for id := c.From; id <= c.To; id++ {
		op := WOp{Cs: id, Ts: id, Type: 8, Sid: 1, P: P{5, id}}
		if c.Ext {
			op.Ts = 0xffffff + id
		}
		w.Ops = append(w.Ops, op)
	}
	return w
}

func init() {
	Register(&Prop{ID: "C01", Together: 1500, Rounds: 4,
		Rule: "Random write sequences (1-12 operations on 1-4 chunk streams: messages with lengths around multiples of the chunk size, all header formats, boundary and random timestamps/ids/types, chunk-size announcements), relays (a decoded conforming stream written again), all chunk stream ids with a two-chunk message, and messages up to the maximum length. Non-trivial: a message longer than the chunk size, or several messages on several chunk streams; distinct by the case's content.",
		Subs: []*Sub{
			Enum("every-id", idCases, func(o *O, c IdCase) { runC01(o, c.w()) }),
			Enum("largest", bigCases, func(o *O, c BigCase) { runC01(o, c.w()) }),
			Rand("round-trip", 24000, genSlowW, runC01),
			RandLong("long", 400, 300, func(t *rapid.T) WCase { return genWCase(t, 8, true) },
				func(c WCase) int { return len(c.Ops) }, WCase.grow, runC01),
			RandLong("bulk", 40, 0, genBulk, func(c WCase) int { return len(c.Ops) }, WCase.grow, runC01),
			Rand("huge", 1500, genHugeW, runC01),
			marathonW(runC01),
			Rand("relay", 8000, func(t *rapid.T) RelayCase {
				return RelayCase{genStream(t, streamOpt{maxLanes: 3, maxMsgs: 5, big: true, announce: true, fresh: true, slow: true}), genSize(t)}
			}, runRelay),
		}})
	Register(&Prop{ID: "C02", Together: 1500, Rounds: 6,
		Rule: "Random conforming senders (reference encoder): 1-5 chunk streams, 1-6 messages each with header formats 0-3, chunks interleaved in a random order, announcements in between; the same made long and wide (up to hundreds of messages and chunk streams). Oracle: the sender's messages in completion order. The message builder and the header normalizers by themselves, against models of what is missing and what is remembered. Non-trivial: at least two messages, and interleaving, a compressed header, or a multi-chunk message; a builder that took bytes; a header that had to be completed.",
		Subs: []*Sub{
			Rand("sender", 24000, func(t *rapid.T) StreamSpec {
				return genStream(t, streamOpt{maxLanes: 5, maxMsgs: 6, big: true, announce: true, slow: true})
			}, runC02),
			Rand("long-history", 1200, func(t *rapid.T) StreamSpec {
				return genStream(t, streamOpt{maxLanes: 12, maxMsgs: 40, maxLen: 200, big: true, announce: true})
			}, runC02),
			RandLong("long", 500, 300, func(t *rapid.T) StreamSpec {
				return genStream(t, streamOpt{maxLanes: 4, maxMsgs: 5, maxLen: 100, big: true, announce: true})
			}, StreamSpec.steps, StreamSpec.grow, runC02),
			RandLong("bulk", 60, 0, func(t *rapid.T) StreamSpec {
				sp := genStream(t, streamOpt{maxLanes: 4, maxMsgs: 5, maxLen: 20000, big: true, announce: true})
				sp.Size = max(sp.Size, 100)
				for _, l := range sp.Lanes {
					for i := range l.Msgs {
						if l.Msgs[i].Size > 0 {
							l.Msgs[i].Size = max(l.Msgs[i].Size, 100)
						}
					}
				}
				return sp
			}, StreamSpec.steps, StreamSpec.grow, runC02),
			Rand("huge", 1500, func(t *rapid.T) StreamSpec {
				return hugeStream(t, genStream(t, streamOpt{maxLanes: 3, maxMsgs: 4, maxLen: 2000, big: true, announce: true}))
			}, runC02),
			Marathon(marathonStream(true), StreamSpec.steps, StreamSpec.grow, runC02),
			Enum("largest", func(string) []StreamSpec { return hugeStreams() }, runC02),
			Enum("crowd", crowdSizes, func(o *O, n int) { runC02(o, crowd(n)) }),
			Rand("builder", 12000, genBuild, runBuild),
			Rand("normalizer", 12000, genNorm, runNorm),
		}})
	Register(&Prop{ID: "C03", Together: 1500, Rounds: 6,
		Rule: "Random write sequences as in C01, decoded by a strict reference decoder; the writer's argument is compared before and after. Non-trivial as in C01.",
		Subs: []*Sub{
			Enum("every-id", idCases, func(o *O, c IdCase) { runC03(o, c.w()) }),
			Enum("largest", bigCases, func(o *O, c BigCase) { runC03(o, c.w()) }),
			Rand("conform", 40000, genSlowW, runC03),
			RandLong("long", 400, 300, func(t *rapid.T) WCase { return genWCase(t, 8, true) },
				func(c WCase) int { return len(c.Ops) }, WCase.grow, runC03),
			RandLong("bulk", 40, 0, genBulk, func(c WCase) int { return len(c.Ops) }, WCase.grow, runC03),
			Rand("huge", 1500, genHugeW, runC03),
			marathonW(runC03),
			Enum("dialect", func(string) []BasicCase {
				var out []BasicCase
				for _, id := range []uint32{63, 320, 321, 575, 1000, 65599} {
					out = append(out, BasicCase{0, id}, BasicCase{3, id})
				}
				return out
			}, func(o *O, c BasicCase) { probeBasicWrite(o, c) }),
		}})
}

// ------------------------------------------------------------------- C02

func streamClasses(o *O, e *Encoded) (nt bool) {
	fmts := false
	multi := false
	for _, s := range e.Sent {
		if s.Fmt != 0 {
			fmts = true
			o.Class("fmt%d", s.Fmt)
			if s.Fmt == 3 && s.Ts >= 0xffffff {
				o.Class("new-message-fmt3-extended-ts")
			}
		}
		if s.Chunks > 1 {
			multi = true
		}
		if s.Announce {
			o.Class("announce")
		}
		if s.Cs >= 320 {
			o.Class("cs>=320")
		} else if s.Cs >= 64 {
			o.Class("cs>=64")
		}
	}
	if e.Inter > 0 {
		o.Class("interleaved")
	}
	if e.ExtCont > 0 {
		o.Class("extended-ts-continuation")
	}
	if e.MidAnnounce {
		o.Class("announce-during-partial-message")
	}
	if multi {
		o.Class("multi-chunk")
	}
	return len(e.Sent) >= 2 && (fmts || multi || e.Inter > 0)
}

func runC02(o *O, c StreamSpec) {
	e := refEncode(dialect(), &c)
	o.NT = streamClasses(o, e)
	if len(c.Slow) > 0 {
		o.Class("pauses")
	}
	ro := readAll(o, c.source(e), c.Size, 1, nil)
	if errs := ro.Errs(); len(errs) > 0 {
		o.Failf("read-error", "reading a conforming stream failed: %v (after %d of %d messages)", errs[0], len(ro.Msgs()), len(e.Messages()))
		return
	}
	checkMsgs(o, "reassembly", ro.Msgs(), e.Messages())
}

// ------------------------------------------------------------------- C03

func runC03(o *O, c WCase) {
	c.classes(o)
	b, sent, _ := c.write(o)
	if o.Bad() {
		return
	}
	got, err := refDecode(dialect(), b, c.Size)
	if err != nil {
		o.Failf("conformance", "a strict decoder rejects the output: %v (after %d of %d messages)", err, len(got), len(sent))
		return
	}
	if len(got) != len(sent) {
		o.Failf("conformance", "a strict decoder finds %d messages, %d were written", len(got), len(sent))
		return
	}
	for i := range got {
		if d := diffM(&got[i].M, &sent[i]); d != "" {
			o.Failf("conformance", "message %d as a strict decoder sees it:%s", i, d)
			return
		}
	}
	// A new message with a header that repeats the one before comes that much
	// later. Compression may be chosen, but not so that it moves messages in time.
	abs := map[uint32]uint32{}
	for i, op := range c.Ops {
		if op.Fmt == 0 {
			abs[op.Cs] = 0
		}
		abs[op.Cs] += op.Ts
		if got[i].Abs != abs[op.Cs] {
			o.Failf("conformance", "message %d has the time %d for a strict decoder, %d was written", i, got[i].Abs, abs[op.Cs])
			return
		}
	}
}

// ------------------------------------------------------------------- C04

type BasicCase struct {
	Fmt byte   `json:"f"`
	Id  uint32 `json:"id"`
}

const kfDialect = "basic-header-3-byte-form"

// probeBasicWrite: the encoding of one basic header must be the RTMP one, or
// exactly the listed deviation.
func probeBasicWrite(o *O, c BasicCase) []byte {
	w := new(sliceWriter)
	if err := (&chunk.BasicHeader{FormatId: c.Fmt, StreamId: c.Id}).Write(w); err != nil {
		o.Failf("basic-write", "writing basic header %+v: %v", c, err)
		return nil
	}
	spec := refBasic(DialectSpec, c.Fmt, c.Id)
	if !bytes.Equal(w.b, spec) {
		if c.Id >= 320 && bytes.Equal(w.b, refBasic(DialectRepo, c.Fmt, c.Id)) {
			o.KnownFinding(kfDialect)
		} else {
			o.Failf("basic-write", "basic header of chunk stream %d, format %d is % x, want % x", c.Id, c.Fmt, w.b, spec)
		}
	}
	return w.b
}

// BasicRange checks all ids of a range in all formats, both ways.
type BasicRange struct {
	Fmt  byte   `json:"f"`
	From uint32 `json:"from"`
	To   uint32 `json:"to"`
}

func runBasicRange(o *O, c BasicRange) {
	o.NT = true
	for id := c.From; id <= c.To && !o.Bad(); id++ {
		b := probeBasicWrite(o, BasicCase{c.Fmt, id})
		if o.Bad() {
			return
		}
		var h chunk.BasicHeader
		r := bytes.NewReader(append(append([]byte(nil), b...), 0xaa, 0xbb, 0xcc, 0xdd))
		err := h.Read(r)
		used := len(b) + 4 - r.Len()
		if err == nil && h.FormatId == c.Fmt && h.StreamId == id && used == len(b) {
			for k := 0; k < len(b); k++ {
				var h chunk.BasicHeader
				if err := h.Read(bytes.NewReader(b[:k])); err == nil {
					o.Failf("basic-truncated", "reading the first %d of %d bytes of the basic header % x succeeds", k, len(b), b)
					return
				}
			}
			continue
		}
		if id == 63 && bytes.Equal(b, []byte{c.Fmt<<6 | 63}) && err == nil && used == 3 && h.FormatId == c.Fmt && h.StreamId == 0xaabb+64 {
			o.KnownFinding(kfDialect)
			continue
		}
		o.Failf("basic-round-trip", "basic header format %d, chunk stream %d: % x reads back as %+v, %v, using %d bytes", c.Fmt, id, b, h, err, used)
	}
}

// SpecForm: the standard form of ids of 320 and more must be read as such, or
// exactly as the listed deviation does.
func runSpecForm(o *O, c BasicCase) {
	o.NT = true
	b := []byte{c.Fmt<<6 | 1, byte(c.Id - 64), byte((c.Id - 64) >> 8)}
	var h chunk.BasicHeader
	r := bytes.NewReader(append(b, 0xee))
	err := h.Read(r)
	used := 4 - r.Len()
	switch {
	case err == nil && h.FormatId == c.Fmt && h.StreamId == c.Id && used == 3:
	case err == nil && h.FormatId == c.Fmt && h.StreamId == 1 && used == 1:
		o.KnownFinding(kfDialect)
	default:
		o.Failf("basic-spec-form", "% x reads as %+v, %v, using %d bytes", b, h, err, used)
	}
}

type HdrCase struct {
	Fmt   byte   `json:"f"`
	Cs    uint32 `json:"cs"`
	Ts    uint32 `json:"ts"`
	Len   uint32 `json:"len"`
	Type  byte   `json:"t"`
	Sid   uint32 `json:"sid"`
	Tail  Hex    `json:"tail"`
	Split bool   `json:"split"`
}

func genHdr(t *rapid.T) HdrCase {
	c := HdrCase{Fmt: byte(genInt(t, "fmt", 0, 3)), Cs: genCs(t, true), Ts: genTs(t), Type: rapid.Byte().Draw(t, "type"), Sid: genSid(t)}
	c.Len = oneOf(t, "len", uint32(0), 1, 0xff, 0x100, 0xffff, 0x10000, 0xfffffe, 0xffffff)
	if chance(t, "anyLen", 50) {
		c.Len = rapid.Uint32Range(0, 0xffffff).Draw(t, "len")
	}
	c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tail")
	c.Split = rapid.Bool().Draw(t, "split")
	return c
}

// plainReader hides everything but Read; one makes it return single bytes.
type plainReader struct {
	r   io.Reader
	one bool
}

func (p *plainReader) Read(b []byte) (int, error) {
	if p.one && len(b) > 1 {
		b = b[:1]
	}
	return p.r.Read(b)
}

// failWriter takes n bytes and then fails.
type failWriter struct {
	n   int
	b   []byte
	err error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		k := w.n
		w.b = append(w.b, p[:k]...)
		w.n = 0
		return k, w.err
	}
	w.n -= len(p)
	w.b = append(w.b, p...)
	return len(p), nil
}

func runHdr(o *O, c HdrCase) {
	if c.Fmt == 3 && c.Ts >= 0xffffff {
		// A lone format 3 header says nothing about a timestamp.
		c.Ts = 0
	}
	o.NT = true
	o.Class("fmt%d", c.Fmt)
	if c.Ts >= 0xffffff {
		o.Class("extended-ts")
	}
	if c.Cs >= 64 {
		o.Class("cs>=64")
	}
	m := M{Cs: c.Cs, Ts: c.Ts, Delta: c.Fmt != 0, Type: c.Type, Sid: c.Sid}
	h := *toChunk(&m, c.Fmt).Header
	h.MessageHeader.Length = c.Len
	in := h
	w := new(sliceWriter)
	if err := h.Write(w); err != nil {
		o.Failf("header-write", "writing %+v: %v", h, err)
		return
	}
	if h != in {
		o.Failf("header-write", "writing the header changed it")
		return
	}
	want := refHeaderLen(dialect(), c.Fmt, &m, c.Len)
	if !bytes.Equal(w.b, want) {
		o.Failf("header-layout", "header %+v encodes as % x, want % x", h, w.b, want)
		return
	}
	// What is left of the fields in this format.
	exp := h
	exp.MessageHeader.TimestampDelta = c.Fmt == 1 || c.Fmt == 2
	if c.Fmt >= 1 {
		exp.MessageHeader.StreamId = 0
	}
	if c.Fmt >= 2 {
		exp.MessageHeader.Length, exp.MessageHeader.TypeId = 0, 0
	}
	if c.Fmt == 3 {
		exp.MessageHeader.Timestamp = 0
	}
	all := append(append([]byte(nil), w.b...), c.Tail...)
	br := bytes.NewReader(all)
	var src io.Reader = br
	if c.Split {
		src = &plainReader{br, true}
	}
	var got chunk.Header
	if err := got.Read(src); err != nil {
		o.Failf("header-read", "reading back % x: %v", w.b, err)
		return
	}
	if got != exp {
		o.Failf("header-round-trip", "% x reads back as %+v, want %+v", w.b, got, exp)
		return
	}
	if used := len(all) - br.Len(); used != len(w.b) {
		o.Failf("header-delimiting", "reading back % x (followed by % x) used %d bytes", w.b, []byte(c.Tail), used)
		return
	}
	for k := 0; k < len(w.b); k++ {
		for _, one := range []bool{false, true} {
			var h chunk.Header
			var r io.Reader = bytes.NewReader(w.b[:k])
			if one {
				r = &plainReader{r, true}
			}
			if err := h.Read(r); err == nil {
				o.Failf("header-truncated", "reading the first %d of the %d bytes % x succeeds", k, len(w.b), w.b)
				return
			}
		}
		fw := &failWriter{n: k, err: fault((k + int(in.BasicHeader.StreamId)) % (len(faults) + 1))}
		h := in
		if err := h.Write(fw); err == nil {
			o.Failf("header-write-fault", "writing a %d-byte header succeeds though the destination failed after %d bytes", len(w.b), k)
			return
		} else if !bytes.Equal(fw.b, w.b[:k]) {
			o.Failf("header-write-fault", "a destination failing after %d bytes got % x, want a prefix of % x", k, fw.b, w.b)
			return
		}
	}
}

func refHeaderLen(d Dialect, f byte, m *M, n uint32) []byte {
	b := refHeader(d, f, m)
	if f <= 1 {
		at := len(refBasic(d, f, m.Cs)) + 3
		put24(b[:at], n)
	}
	return b
}

// Parts: message header and extended timestamp on their own, on a reader that
// offers ReadByte and on one that does not.
func runParts(o *O, c HdrCase) {
	o.NT = true
	m := M{Cs: c.Cs, Ts: c.Ts, Delta: c.Fmt != 0, Type: c.Type, Sid: c.Sid}
	h := toChunk(&m, c.Fmt).Header
	mh := h.MessageHeader
	mh.Length = c.Len
	w := new(sliceWriter)
	if err := mh.Write(w); err != nil {
		o.Failf("message-header", "writing %+v: %v", mh, err)
		return
	}
	full := refHeaderLen(DialectSpec, c.Fmt, &m, c.Len)
	want := full[len(refBasic(DialectSpec, c.Fmt, c.Cs)):]
	if c.Ts >= 0xffffff {
		want = want[:len(want)-4]
	}
	if !bytes.Equal(w.b, want) {
		o.Failf("message-header", "%+v encodes as % x, want % x", mh, w.b, want)
		return
	}
	if mh.HasExtendedTimestamp() != (c.Ts >= 0xffffff) {
		o.Failf("message-header", "HasExtendedTimestamp is %v for timestamp field %#x", mh.HasExtendedTimestamp(), mh.Timestamp)
		return
	}
	r := bytes.NewReader(append(append([]byte(nil), w.b...), c.Tail...))
	got := chunk.MessageHeader{FormatId: c.Fmt}
	if err := got.Read(r); err != nil || r.Len() != len(c.Tail) {
		o.Failf("message-header", "reading back % x: %v, %d bytes left of %d", w.b, err, r.Len(), len(c.Tail))
		return
	}
	exp := mh
	if c.Fmt >= 1 {
		exp.StreamId = 0
	}
	if c.Fmt >= 2 {
		exp.Length, exp.TypeId = 0, 0
	}
	if c.Fmt == 3 {
		exp.Timestamp, exp.TimestampDelta = 0, false
	}
	if got != exp {
		o.Failf("message-header", "% x reads back as %+v, want %+v", w.b, got, exp)
		return
	}
	// There are four formats.
	if len(c.Tail) > 0 && c.Tail[0] > 3 {
		r := bytes.NewReader(append(append([]byte(nil), w.b...), c.Tail...))
		got := chunk.MessageHeader{FormatId: c.Tail[0]}
		if err := got.Read(r); err == nil {
			o.Failf("unknown-format", "a message header of format %d is read as %+v", c.Tail[0], got)
			return
		}
	}
	for k := 0; k < len(w.b); k++ {
		got := chunk.MessageHeader{FormatId: c.Fmt}
		if err := got.Read(&plainReader{bytes.NewReader(w.b[:k]), c.Split}); err == nil {
			o.Failf("message-header", "reading the first %d of the %d bytes % x succeeds", k, len(w.b), w.b)
			return
		}
	}
	if c.Ts >= 0xffffff {
		w := new(sliceWriter)
		et := chunk.ExtendedTimestamp{Delta: c.Ts}
		if err := et.Write(w); err != nil || fmt.Sprintf("%x", w.b) != fmt.Sprintf("%08x", c.Ts) {
			o.Failf("extended-timestamp", "%#x encodes as % x, %v", c.Ts, w.b, err)
			return
		}
		var back chunk.ExtendedTimestamp
		r := bytes.NewReader(append(append([]byte(nil), w.b...), c.Tail...))
		if err := back.Read(r); err != nil || back != et || r.Len() != len(c.Tail) {
			o.Failf("extended-timestamp", "% x reads back as %+v, %v, with %d of %d bytes left", w.b, back, err, r.Len(), len(c.Tail))
			return
		}
		for k := 0; k < 4; k++ {
			if err := back.Read(bytes.NewReader(w.b[:k])); err == nil {
				o.Failf("extended-timestamp", "reading the first %d bytes succeeds", k)
				return
			}
			if err := et.Write(&failWriter{n: k, err: fault(k + len(c.Tail))}); err == nil {
				o.Failf("extended-timestamp", "writing to a destination that fails after %d bytes succeeds", k)
				return
			}
		}
	}
}

func init() {
	Register(&Prop{ID: "C04", Together: 1500, Rounds: 12,
		Rule: "All chunk stream ids 2-65599 in all four formats (exhaustive, both ways); random complete headers: layout against the reference, read back with random trailing bytes, every truncation and every write-fault position. Every case is non-trivial; distinct by content.",
		Subs: []*Sub{
			Enum("basic-header-all-ids", func(string) (out []BasicRange) {
				for f := byte(0); f < 4; f++ {
					for from := uint32(2); from <= 65599; from += 2048 {
						out = append(out, BasicRange{f, from, min(from+2047, 65599)})
					}
				}
				return
			}, runBasicRange),
			Enum("basic-header-spec-form", func(string) (out []BasicCase) {
				for f := byte(0); f < 4; f++ {
					for _, id := range []uint32{64, 65, 319, 320, 321, 383, 575, 1000, 16448, 65599} {
						out = append(out, BasicCase{f, id})
					}
				}
				return
			}, runSpecForm),
			Rand("header", 40000, genHdr, runHdr),
			Rand("parts", 20000, genHdr, runParts),
		}})
}
