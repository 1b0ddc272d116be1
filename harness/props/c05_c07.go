package props

import (
	"encoding/binary"
	"io"
	"sort"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------- C05

// StepCase feeds a stream in steps, with a look at the reader between them.
type StepCase struct {
	Stream StreamSpec `json:"stream"`
	Cuts   []int      `json:"cuts"` // permille of the stream
	// Slow are pauses (milliseconds) between the steps.
	Slow []int `json:"slow,omitempty"`
}

func genAnnounceStream(t *rapid.T, kind int) StreamSpec {
	sp := StreamSpec{Size: 128}
	if chance(t, "ownSize", 60) {
		sp.Size = genSize(t)
	}
	nl := genInt(t, "lanes", 1, 4)
	css := genCss(t, nl, true)
	sizes := []int{sp.Size}
	for _, cs := range css {
		l := Lane{Cs: cs}
		last := 0
		for i, n := 0, genInt(t, "msgs", 1, 5); i < n; i++ {
			s := SMsg{Ts: genTs(t), Type: genType(t), Sid: genSid(t), Fmt: byte(genInt(t, "fmt", 0, 3)), P: genP(t, sizes[genInt(t, "whichSize", 0, len(sizes)-1)], 2500)}
			if s.Fmt >= 2 {
				s.P.N = last
			}
			if chance(t, "announce", 35) {
				s = SMsg{Ts: s.Ts, Sid: s.Sid, Fmt: s.Fmt & 1, Type: 1, Size: uint32(genSize(t))}
				switch {
				case kind == 1:
					s.Local = true
				case kind == 2 && chance(t, "malformed", 50):
					s.Raw = rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "raw")
					if s.Raw == nil {
						s.Raw = Hex{}
					}
					s.Size = 0
				}
				if s.Size > 0 {
					sizes = append(sizes, int(s.Size))
				}
				last = 4
			} else {
				last = s.P.N
			}
			l.Msgs = append(l.Msgs, s)
		}
		sp.Lanes = append(sp.Lanes, l)
	}
	sp.Order = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "order")
	return sp
}

func runC05(o *O, c StepCase) {
	e := refEncode(dialect(), &c.Stream)
	streamClasses(o, e)
	if len(c.Slow) > 0 {
		o.Class("pauses")
	}
	bad := 0
	cuts := map[int]bool{}
	for _, p := range c.Cuts {
		cuts[p*len(e.Bytes)/1000] = true
	}
	for _, s := range e.Sent {
		if s.Announce || s.Bad {
			cuts[s.End] = true
			if s.End > 0 {
				cuts[s.End-1] = true
			}
		}
		if s.Announce {
			o.NT = true
			if s.Chunks > 1 {
				o.Class("announcement-in-several-chunks")
			}
		}
		if s.Bad {
			bad++
			o.NT = true
			o.Class("malformed-%d-bytes", len(s.Data))
		}
	}
	for _, l := range e.Locals {
		cuts[l.At] = true
		o.NT = true
		o.Class("local-size")
	}
	cuts[len(e.Bytes)] = true
	var at []int
	for k := range cuts {
		at = append(at, k)
	}
	sort.Ints(at)
	src := newSource()
	ro := readAll(o, src, c.Stream.Size, -1, func(r chunk.Reader, ro *readout) {
		fed, li := 0, 0
		size := c.Stream.Size
		si, seen, good, want := 0, 0, 0, 0
		for i, k := range at {
			if n := len(c.Slow); n > 0 {
				time.Sleep(time.Duration(c.Slow[i%n]) * time.Millisecond)
			}
			if k > fed {
				src.feed(Seg{Data: e.Bytes[fed:k]})
				fed = k
			}
			synctest.Wait()
			for ; si < len(e.Sent) && e.Sent[si].End <= k; si++ {
				// The size in force follows announcements only: local
				// changes are applied below, at their offset.
				if e.Sent[si].Announce {
					size = int(binary.BigEndian.Uint32(e.Sent[si].Data))
				} else if !e.Sent[si].Bad {
					want++
				}
			}
			if got := r.ReadSize(); got != size {
				o.Failf("read-size", "after %d of %d bytes the reader's chunk size is %d, want %d", k, len(e.Bytes), got, size)
				return
			}
			for ms := ro.Msgs(); seen < len(ms); seen++ {
				if ms[seen].Header.MessageHeader.TypeId != 1 {
					good++
				}
			}
			if good != want {
				o.Failf("delivery-point", "after %d of %d bytes %d messages were delivered, want %d", k, len(e.Bytes), good, want)
				return
			}
			for ; li < len(e.Locals) && e.Locals[li].At <= k; li++ {
				size = e.Locals[li].Size
				r.SetReadSize(size)
				if got := r.ReadSize(); got != size {
					o.Failf("read-size", "chunk size set to %d reads back as %d", size, got)
					return
				}
			}
		}
	})
	if o.Bad() {
		return
	}
	if n := len(ro.Errs()); n > bad {
		o.Failf("read-error", "%d errors for %d malformed announcements: %v", n, bad, ro.Errs())
		return
	}
	var got []*chunk.Chunk
	for _, m := range ro.Msgs() {
		if m != nil && m.Header != nil && m.Header.MessageHeader.TypeId == 1 {
			if len(m.Data) < 4 && bad > 0 {
				// What becomes of a malformed announcement is left open.
				continue
			}
			o.Failf("announcement-delivered", "a set-chunk-size message was delivered as a message")
			return
		}
		got = append(got, m)
	}
	checkMsgs(o, "reassembly", got, e.Messages())
}

func genSteps(kind int) func(t *rapid.T) StepCase {
	return func(t *rapid.T) StepCase {
		return StepCase{genAnnounceStream(t, kind), rapid.SliceOfN(rapid.IntRange(0, 999), 0, 4).Draw(t, "cuts"), genSlow(t)}
	}
}

func genStepsAny(t *rapid.T) StepCase {
	return genSteps(oneOf(t, "kind", 0, 0, 1, 2))(t)
}

func (c StepCase) steps() int { return c.Stream.steps() }

func (c StepCase) grow(rep, wide int) StepCase {
	c.Stream = c.Stream.grow(rep, wide)
	return c
}

func init() {
	Register(&Prop{ID: "C05", Together: 1500,
		Rule: "Random interleaved streams with many size announcements (in one or several chunks, amid partial messages), local size changes on the idle reader, and malformed announcements; the stream is fed in steps around each announcement and at random offsets, and chunk size and deliveries are compared with the sender at each step. Non-trivial: at least one announcement, local change or malformed announcement.",
		Subs: []*Sub{
			Rand("announced", 60000, genSteps(0), runC05),
			Rand("local", 30000, genSteps(1), runC05),
			Rand("malformed", 40000, genSteps(2), runC05),
			Marathon([]StepCase{{Stream: marathonStream(true)[0], Cuts: []int{500}}}, StepCase.steps, StepCase.grow, runC05),
			RandLong("long", 1500, 300, genStepsAny, StepCase.steps, StepCase.grow, runC05),
			Rand("huge", 1500, func(t *rapid.T) StepCase {
				c := genStepsAny(t)
				c.Stream = hugeStream(t, c.Stream)
				return c
			}, runC05),
		}})
}

// ------------------------------------------------------------------- C06

// Mut is one mutation of a byte stream.
type Mut struct {
	Kind string `json:"k"` // flip, set, del, ins, cut, dup
	Pos  int    `json:"p"` // permille
	Val  Hex    `json:"v"`
}

type FuzzCase struct {
	Stream StreamSpec `json:"stream"`
	Muts   []Mut      `json:"muts"`
	Cut    int        `json:"cut"`
}

func genMuts(t *rapid.T, max int) []Mut {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mut {
		return Mut{
			Kind: oneOf(t, "kind", "flip", "set", "del", "ins", "cut", "dup"),
			Pos:  genInt(t, "pos", 0, 1000),
			Val: Hex(rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 1, 8),
				rapid.SampledFrom([][]byte{{0x00}, {0xff}, {0x3f}, {0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {2, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff}, {0xc3}, {0x43}, {0x83}})).Draw(t, "val")),
		}
	}), 1, max).Draw(t, "muts")
}

// mutate applies the mutations; first is the offset of the first byte that is
// not as in the original.
func mutate(b []byte, muts []Mut) (out []byte, first int) {
	out = append([]byte(nil), b...)
	first = len(b)
	for _, m := range muts {
		p := m.Pos * len(out) / 1000
		if p > len(out) {
			p = len(out)
		}
		v := m.Val
		if len(v) == 0 {
			v = Hex{0}
		}
		first = min(first, p)
		switch m.Kind {
		case "flip":
			if p < len(out) {
				out[p] ^= 1 << (v[0] & 7)
			}
		case "set":
			copy(out[p:], v)
		case "del":
			n := min(len(v), len(out)-p)
			out = append(out[:p:p], out[p+n:]...)
		case "ins":
			out = append(out[:p:p], append(append([]byte(nil), v...), out[p:]...)...)
		case "cut":
			out = out[:p]
		case "dup":
			n := min(int(v[0])+1, len(out)-p)
			out = append(out[:p+n:p+n], out[p:]...)
		}
	}
	return
}

// checkFabrication: every delivered payload has the announced length, and
// consists of bytes of the input.
func checkFabrication(o *O, in []byte, msgs []*chunk.Chunk) bool {
	total := 0
	for i, m := range msgs {
		if m == nil || m.Header == nil {
			o.Failf("fabricated", "delivery %d is nil", i)
			return false
		}
		if int(m.Header.MessageHeader.Length) != len(m.Data) {
			o.Failf("length", "message %d has %d bytes, its header announces %d", i, len(m.Data), m.Header.MessageHeader.Length)
			return false
		}
		total += 1 + len(m.Data)
	}
	if total > len(in) {
		o.Failf("fabricated", "messages and headers add up to at least %d bytes, the input has %d", total, len(in))
		return false
	}
	// Where each byte value is, in order: at[from[b]:from[b+1]].
	var from [257]int
	for _, b := range in {
		from[int(b)+1]++
	}
	for b := range 256 {
		from[b+1] += from[b]
	}
	at, fill := make([]int, len(in)), from
	for i, b := range in {
		at[fill[b]] = i
		fill[b]++
	}
	for i, m := range msgs {
		p := 0 // the first byte of the input that is left
		for k, b := range m.Data {
			where := at[from[b]:from[int(b)+1]]
			j := 0
			if p < len(in) && in[p] != b {
				j = sort.SearchInts(where, p)
			} else if p < len(in) {
				p++
				continue
			}
			if p >= len(in) || j == len(where) {
				o.Failf("fabricated", "message %d holds bytes that are not in the input in that order (from byte %d)", i, k)
				return false
			}
			p = where[j] + 1
		}
	}
	return true
}

func runFuzzBytes(o *O, in []byte, size, cut int, sure []M, slow []int, bounds ...int) {
	src := paced(in, bounds, slow)
	ro := readAll(o, src, size, -1, nil)
	if len(ro.Errs()) == 0 && !ro.Returned() && !src.AtEnd() {
		o.Failf("hang", "the reader stopped after %d of %d bytes without an error", src.Consumed(), len(in))
		return
	}
	if !checkFabrication(o, in, ro.Msgs()) {
		return
	}
	for i := range sure {
		if i >= len(ro.Msgs()) {
			o.Failf("lost", "message %d, complete before the first malformed byte, was not delivered", i)
			return
		}
		m := fromChunk(ro.Msgs()[i])
		if d := diffM(&m, &sure[i]); d != "" {
			o.Failf("corrupted", "message %d, complete before the first malformed byte:%s", i, d)
			return
		}
	}
	// The end of the input, told once or several times, delivers nothing.
	for _, n := range []int{1, 3} {
		segs := []Seg{{Data: in}}
		for range n {
			segs = append(segs, Seg{Err: io.EOF})
		}
		ended := readAll(o, newSource(segs...), size, -1, nil)
		if !checkFabrication(o, in, ended.Msgs()) {
			return
		}
		if len(ended.Msgs()) != len(ro.Msgs()) {
			o.Failf("end", "%d messages, but %d when the end of the input is told", len(ro.Msgs()), len(ended.Msgs()))
			return
		}
		for i, m := range ended.Msgs() {
			a, b := fromChunk(m), fromChunk(ro.Msgs()[i])
			if d := diffM(&a, &b); d != "" {
				o.Failf("end", "message %d is different when the end of the input is told:%s", i, d)
				return
			}
		}
	}
	// What is delivered for a prefix is a prefix of what is delivered.
	part := readAll(o, bytesSource(in[:cut]), size, -1, nil)
	if len(part.Msgs()) > len(ro.Msgs()) {
		o.Failf("prefix", "%d messages from the first %d bytes, but %d from all %d", len(part.Msgs()), cut, len(ro.Msgs()), len(in))
		return
	}
	for i, m := range part.Msgs() {
		a, b := fromChunk(m), fromChunk(ro.Msgs()[i])
		if d := diffM(&a, &b); d != "" {
			o.Failf("prefix", "message %d depends on input after it:%s", i, d)
			return
		}
	}
	if len(ro.Msgs()) > 0 {
		o.Class("some-delivered")
	}
	if len(ro.Errs()) > 0 {
		o.Class("error")
	}
}

func runC06(o *O, c FuzzCase) {
	e := refEncode(dialect(), &c.Stream)
	in, first := mutate(e.Bytes, c.Muts)
	var sure []M
	for _, s := range e.Sent {
		if s.End > first {
			break
		}
		if !s.Announce && !s.Bad {
			sure = append(sure, s.M)
		}
	}
	if len(sure) > 0 {
		o.Class("messages-before-the-malformed-byte")
	}
	o.NT = len(in) > 0
	runFuzzBytes(o, in, c.Stream.Size, c.Cut*len(in)/1000, sure, c.Stream.Slow, within(e.Bounds, len(in))...)
}

type RawCase struct {
	In   Hex `json:"in"`
	Size int `json:"size"`
	Cut  int `json:"cut"`
	// Slow are pauses of the transport (milliseconds).
	Slow []int `json:"slow,omitempty"`
}

// within are the bounds up to n.
func within(bounds []int, n int) (out []int) {
	for _, b := range bounds {
		if b <= n {
			out = append(out, b)
		}
	}
	return
}

// genChunkSoup draws bytes that look like chunk headers often enough.
func genChunkSoup(t *rapid.T) Hex {
	var out []byte
	for i, n := 0, genInt(t, "pieces", 1, 25); i < n; i++ {
		switch genInt(t, "piece", 0, 5) {
		case 0:
			out = append(out, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bytes")...)
		case 1: // full header, small length
			out = append(out, byte(genInt(t, "cs", 0, 63)), 0, 0, byte(genInt(t, "t", 0, 255)), 0, 0, byte(genInt(t, "len", 0, 9)), byte(genInt(t, "type", 0, 22)), 0, 0, 0, 0)
		case 2: // fmt 1
			out = append(out, 0x40|byte(genInt(t, "cs", 0, 63)), 0xff, 0xff, oneOf(t, "t", byte(0xff), 0), 0, 0, byte(genInt(t, "len", 0, 9)), byte(genInt(t, "type", 0, 22)))
		case 3:
			out = append(out, 0x80|byte(genInt(t, "cs", 0, 63)), 0, 0, 1)
		case 4:
			out = append(out, 0xc0|byte(genInt(t, "cs", 0, 63)))
		case 5: // set chunk size
			out = append(out, 2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0)
			out = append(out, oneOf(t, "v", []byte{0, 0, 0, 0}, []byte{0, 0, 0, 1}, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0x80, 0, 0, 0}, []byte{0, 0xff, 0xff, 0xff})...)
		}
	}
	return out
}

func init() {
	Register(&Prop{ID: "C06", Together: 1500,
		Rule: "Mutated conforming streams (bit flips, overwrites, insertions, deletions, duplications, truncation; the messages complete before the first mutated byte are known exactly), header-like byte soup, and arbitrary inputs for the control, media and command parsers, the handshake and a complete client session. Non-trivial: non-empty input that differs from a valid one; distinct by content.",
		Subs: []*Sub{
			Rand("mutated-stream", 40000, func(t *rapid.T) FuzzCase {
				return FuzzCase{genStream(t, streamOpt{maxLanes: 4, maxMsgs: 4, maxLen: 400, big: true, announce: true, slow: true}), genMuts(t, 4), genInt(t, "cut", 0, 1000)}
			}, runC06),
			RandLong("long", 300, 100, func(t *rapid.T) FuzzCase {
				return FuzzCase{genStream(t, streamOpt{maxLanes: 4, maxMsgs: 4, maxLen: 60, big: true, announce: true}), genMuts(t, 4), genInt(t, "cut", 0, 1000)}
			}, func(c FuzzCase) int { return c.Stream.steps() }, func(c FuzzCase, rep, wide int) FuzzCase {
				c.Stream = c.Stream.grow(rep, wide)
				return c
			}, runC06),
			Rand("huge", 800, func(t *rapid.T) FuzzCase {
				return FuzzCase{hugeStream(t, genStream(t, streamOpt{maxLanes: 3, maxMsgs: 3, maxLen: 400, big: true, announce: true})), genMuts(t, 2), genInt(t, "cut", 0, 1000)}
			}, runC06),
			Rand("soup", 50000, func(t *rapid.T) RawCase {
				return RawCase{genChunkSoup(t), genSize(t), genInt(t, "cut", 0, 1000), genSlow(t)}
			}, func(o *O, c RawCase) {
				o.NT = true
				runFuzzBytes(o, c.In, c.Size, c.Cut*len(c.In)/1000, nil, c.Slow, within([]int{20, 40, 60, 100, 200}, len(c.In))...)
			}),
			Rand("control-parser", 40000, genControlSoup, runControlSoup),
			Rand("media-parser", 20000, genMediaSoup, runMediaSoup),
			Rand("command-parsers", 40000, genCommandSoup, runCommandSoup),
			Rand("handshake", 8000, genHandshakeSoup, runHandshakeSoup),
			Rand("client", 20000, genClientSoup, runClientSoup),
		}})
}

// ------------------------------------------------------------------- C07

type SegCase struct {
	Stream  StreamSpec `json:"stream"`
	Muts    []Mut      `json:"muts,omitempty"`
	Cuts    []int      `json:"cuts"` // permille; equal ones make empty reads
	One     bool       `json:"one"`  // single-byte reads
	DataEOF bool       `json:"data_eof"`
}

func genSegs(t *rapid.T) (cuts []int, one, dataEOF bool) {
	cuts = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 12).Draw(t, "cuts")
	if chance(t, "empties", 40) {
		for _, c := range cuts {
			cuts = append(cuts, c)
		}
	}
	return cuts, chance(t, "one", 30), chance(t, "dataEOF", 60)
}

// splitSegs cuts b: at the given places, or into single bytes (in the middle of
// long ones, larger pieces) with the cuts as empty reads in between.
func splitSegs(b []byte, cuts []int, one, dataEOF bool) []Seg {
	var at []int
	for _, c := range cuts {
		at = append(at, c*len(b)/1000)
	}
	if one {
		for i := range b {
			if i < 2500 || i > len(b)-100 {
				at = append(at, i)
			}
		}
	}
	sort.Ints(at)
	var last error
	if dataEOF {
		last = io.EOF
	}
	return segment(b, at, last)
}

func runC07(o *O, c SegCase) {
	e := refEncode(dialect(), &c.Stream)
	in := e.Bytes
	if len(c.Muts) > 0 {
		in, _ = mutate(in, c.Muts)
		o.Class("malformed-input")
	}
	o.NT = len(in) > 2 && (len(c.Cuts) > 0 || c.One || c.DataEOF)
	if c.One {
		o.Class("single-bytes")
	}
	if c.DataEOF {
		o.Class("data-with-eof")
	}
	a := bytesSource(in)
	a.noBlock = true
	whole := readAll(o, a, c.Stream.Size, 1, nil)
	b := newSource(splitSegs(in, c.Cuts, c.One, c.DataEOF)...)
	b.slow(c.Stream.Slow)
	b.noBlock = true
	split := readAll(o, b, c.Stream.Size, 1, nil)
	if len(c.Muts) == 0 {
		if !checkMsgs(o, "whole", whole.Msgs(), e.Messages()) {
			return
		}
	}
	if compareReads(o, whole.Msgs(), split.Msgs()) && len(whole.Errs()) != len(split.Errs()) {
		o.Failf("segmentation", "errors in one piece: %v, in several: %v", whole.Errs(), split.Errs())
	}
}

func compareReads(o *O, whole, split []*chunk.Chunk) bool {
	if len(whole) != len(split) {
		o.Failf("segmentation", "%d messages when read in one piece, %d in several", len(whole), len(split))
		return false
	}
	for i := range whole {
		a, b := fromChunk(split[i]), fromChunk(whole[i])
		if d := diffM(&a, &b); d != "" {
			o.Failf("segmentation", "message %d differs when read in several pieces:%s", i, d)
			return false
		}
	}
	return true
}

// The same for control messages: reader, demultiplexer, control stream.
type CtlSegCase struct {
	Size    int   `json:"size"`
	Ctls    []Ctl `json:"ctls"`
	Cuts    []int `json:"cuts"`
	One     bool  `json:"one"`
	DataEOF bool  `json:"data_eof"`
	Slow    []int `json:"slow,omitempty"`
}

func runCtlSeg(o *O, c CtlSegCase) {
	sp := StreamSpec{Size: c.Size, Lanes: []Lane{{Cs: 2}}}
	var want []Ctl
	for _, k := range c.Ctls {
		if k.Kind == 1 {
			continue
		}
		sp.Lanes[0].Msgs = append(sp.Lanes[0].Msgs, SMsg{Type: k.Kind, Raw: nonNil(k.payload())})
		want = append(want, k)
	}
	if len(want) == 0 {
		return
	}
	e := refEncode(DialectSpec, &sp)
	o.NT = len(c.Cuts) > 0 || c.One || c.DataEOF
	src := newSource(splitSegs(e.Bytes, c.Cuts, c.One, c.DataEOF)...)
	src.noBlock = c.DataEOF
	src.slow(c.Slow)
	d := src.pauses()
	var got []control.Control
	o.bubble(func() {
		src.bind()
		p := chunk.NewParser(chunk.NewReader(src, c.Size, chunk.NewNormalizer()))
		s, _ := p.Stream(2)
		cs := control.NewStream(s, chunk.NoopWriter, control.NewParser(), control.NewChunker())
		go p.Recv()
		go cs.Recv()
		go func() { <-p.Errs() }()
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				select {
				case m, ok := <-cs.In():
					if !ok {
						return
					}
					got = append(got, m)
				case err, ok := <-cs.Errs():
					if ok {
						o.Failf("control", "control stream error: %v", err)
					}
					return
				case <-stop:
					return
				}
			}
		}()
		if d > 0 {
			time.Sleep(d + time.Hour)
		}
		synctest.Wait()
		close(stop)
		<-done
		src.let()
		// The bubble may end with goroutines in it: closing is C09's topic.
	})
	if o.Bad() {
		return
	}
	if len(got) != len(want) {
		o.Failf("control", "%d control messages, want %d", len(got), len(want))
		return
	}
	for i := range got {
		if d := want[i].diff(got[i]); d != "" {
			o.Failf("control", "control message %d: %s", i, d)
			return
		}
	}
}

func nonNil(b []byte) Hex {
	if b == nil {
		return Hex{}
	}
	return b
}

func init() {
	Register(&Prop{ID: "C07", Together: 1000, Rounds: 2,
		Rule: "Conforming and mutated chunk streams, control message sequences and handshakes, read at once and in a random segmentation (cuts anywhere, single bytes, reads without data, last data together with end-of-file); outcomes are compared. Non-trivial: more than two bytes and a segmentation that differs from the whole.",
		Subs: []*Sub{
			Rand("chunks", 40000, func(t *rapid.T) SegCase {
				c := SegCase{Stream: genStream(t, streamOpt{maxLanes: 4, maxMsgs: 4, maxLen: 300, big: true, announce: true, slow: true})}
				if chance(t, "malformed", 25) {
					c.Muts = genMuts(t, 3)
				}
				c.Cuts, c.One, c.DataEOF = genSegs(t)
				return c
			}, runC07),
			RandLong("long", 300, 100, func(t *rapid.T) SegCase {
				c := SegCase{Stream: genStream(t, streamOpt{maxLanes: 4, maxMsgs: 4, maxLen: 60, big: true, announce: true})}
				c.Cuts, c.One, c.DataEOF = genSegs(t)
				return c
			}, func(c SegCase) int { return c.Stream.steps() }, func(c SegCase, rep, wide int) SegCase {
				c.Stream = c.Stream.grow(rep, wide)
				return c
			}, runC07),
			Rand("huge", 800, func(t *rapid.T) SegCase {
				c := SegCase{Stream: hugeStream(t, genStream(t, streamOpt{maxLanes: 3, maxMsgs: 3, maxLen: 400, big: true, announce: true}))}
				c.Cuts, c.One, c.DataEOF = genSegs(t)
				c.One = false
				return c
			}, runC07),
			Enum("largest", func(string) (out []SegCase) {
				for _, sp := range hugeStreams() {
					out = append(out, SegCase{Stream: sp, Cuts: []int{3, 250, 250, 500, 501, 900}, DataEOF: len(out)%2 == 0})
				}
				return
			}, runC07),
			Enum("crowd", crowdSizes, func(o *O, n int) {
				runC07(o, SegCase{Stream: crowd(n), Cuts: []int{3, 250, 500, 501, 900}})
			}),
			Rand("controls", 15000, func(t *rapid.T) CtlSegCase {
				c := CtlSegCase{Size: genSize(t), Ctls: rapid.SliceOfN(rapid.Custom(genCtl), 1, 6).Draw(t, "ctls"), Slow: genSlow(t)}
				c.Cuts, c.One, c.DataEOF = genSegs(t)
				return c
			}, runCtlSeg),
			Rand("handshake", 8000, genHSSeg, runHSSeg),
		}})
}
