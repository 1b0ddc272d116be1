package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"encoding/binary"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"pgregory.net/rapid"
)

// Ctl is a control message as the specification sees it (section 5.4 and 7.1).
type Ctl struct {
	Kind byte   `json:"k"`           // message type id, 1 to 6
	V    uint32 `json:"v"`           // the 32-bit value, or the event type
	L    byte   `json:"l,omitempty"` // limit type
	Body Hex    `json:"b,omitempty"` // event body
	// Fill > 0: an event body of that many bytes instead.
	Fill int `json:"fill,omitempty"`
}

func (k Ctl) body() []byte {
	if k.Fill > 0 {
		return P{k.Fill, k.V}.Data()
	}
	return k.Body
}

// vary makes the i-th repetition of a message differ from the others.
func (k *Ctl) vary(i int) {
	if k.Kind != 1 {
		k.V += uint32(i)
	}
	if k.Kind == 4 {
		k.V &= 0xffff
	}
}

func capSize(v uint32) uint32 { return min(v, 0xffffff) }

// payload is the reference encoding.
func (k Ctl) payload() []byte {
	switch k.Kind {
	case 1:
		return binary.BigEndian.AppendUint32(nil, capSize(k.V))
	case 4:
		return append(binary.BigEndian.AppendUint16(nil, uint16(k.V)), k.body()...)
	case 6:
		return append(binary.BigEndian.AppendUint32(nil, k.V), k.L)
	}
	return binary.BigEndian.AppendUint32(nil, k.V)
}

// ctlNeed is the least payload length of a kind.
func ctlNeed(kind byte) int { return map[byte]int{1: 4, 2: 4, 3: 4, 4: 2, 5: 4, 6: 5}[kind] }

func (k Ctl) control() control.Control {
	switch k.Kind {
	case 1:
		return control.NewSetChunkSize(k.V)
	case 2:
		return &control.AbortMessage{ChunkStreamId: k.V}
	case 3:
		return &control.Acknowledgement{SequenceNumber: k.V}
	case 4:
		return &control.Event{Type: control.EventType(k.V), Body: append([]byte(nil), k.body()...)}
	case 5:
		return &control.WindowAckSize{WindowAckSize: k.V}
	case 6:
		return &control.SetPeerBandwidth{AckWindowSize: k.V, LimitType: control.LimitType(k.L)}
	}
	return nil
}

// diff says how the library's control message differs from k, if it does.
func (k Ctl) diff(c control.Control) string {
	got := Ctl{}
	switch c := c.(type) {
	case *control.SetChunkSize:
		got = Ctl{Kind: 1, V: c.ChunkSize()}
	case *control.AbortMessage:
		got = Ctl{Kind: 2, V: c.ChunkStreamId}
	case *control.Acknowledgement:
		got = Ctl{Kind: 3, V: c.SequenceNumber}
	case *control.Event:
		got = Ctl{Kind: 4, V: uint32(c.Type), Body: c.Body}
	case *control.WindowAckSize:
		got = Ctl{Kind: 5, V: c.WindowAckSize}
	case *control.SetPeerBandwidth:
		got = Ctl{Kind: 6, V: c.AckWindowSize, L: byte(c.LimitType)}
	default:
		return fmt.Sprintf("is a %T", c)
	}
	want := k
	if k.Kind == 1 {
		want.V = capSize(k.V)
	}
	if got.Kind != want.Kind || got.V != want.V || got.L != want.L || !bytes.Equal(got.Body, want.body()) {
		return clip(fmt.Sprintf("%d body bytes, want %d; got %+v, want %+v", len(got.Body), len(want.body()), got, want), 1500)
	}
	if k.Kind == 4 && (k.V == 0) != (got.V == uint32(control.StreamBegin)) || (k.Kind == 4 && (k.V == 3) != (got.V == uint32(control.SetBufferLength))) {
		return fmt.Sprintf("event %d is named wrongly (StreamBegin is %d, SetBufferLength %d)", k.V, control.StreamBegin, control.SetBufferLength)
	}
	if k.Kind == 6 && (control.LimitTypeHard != 0 || control.LimitTypeSoft != 1 || control.LimitTypeDynamic != 2) {
		return fmt.Sprintf("limit types are named wrongly (%d, %d, %d)", control.LimitTypeHard, control.LimitTypeSoft, control.LimitTypeDynamic)
	}
	if id := c.TypeId(); id != k.Kind {
		return fmt.Sprintf("TypeId() of kind %d is %d", k.Kind, id)
	}
	return ""
}

func genU32(t *rapid.T, name string) uint32 {
	return rapid.OneOf(
		rapid.SampledFrom([]uint32{0, 1, 2, 127, 128, 255, 256, 4096, 0xffff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}),
		rapid.Uint32(), rapid.Uint32Range(0, 1<<20)).Draw(t, name)
}

func genCtl(t *rapid.T) Ctl {
	k := Ctl{Kind: byte(genInt(t, "kind", 1, 6))}
	switch k.Kind {
	case 4:
		k.V = uint32(oneOf(t, "event", 0, 1, 2, 3, 4, 6, 7, 31, 32, 255, 256, 0xffff, genInt(t, "anyEvent", 0, 0xffff)))
		k.Body = rapid.SliceOfN(rapid.Byte(), 0, oneOf(t, "bodyMax", 4, 8, 20, 300)).Draw(t, "body")
		if chance(t, "longBody", 4) {
			k.Body = nonNil(P{oneOf(t, "bodyLen", 126, 255, 1024, 4094, 5000, 20000), uint32(genInt(t, "bodySeed", 0, 99))}.Data())
		}
	case 6:
		k.V = genU32(t, "v")
		k.L = byte(oneOf(t, "limit", 0, 1, 2, 3, 255, genInt(t, "anyLimit", 0, 255)))
	default:
		k.V = genU32(t, "v")
	}
	return k
}

// hugeLens are lengths of messages around those at which lengths that are kept
// in too little room go wrong, up to the longest there is.
var hugeLens = []int{65534, 65535, 65536, 65537, 65700, 131071, 131073, 200000, 1<<18 + 3, 1 << 20, 1<<20 + 1, 3<<20 - 1, 1<<22 + 1, 1 << 23, 0xfffffe, 0xffffff}

// hugeCtl is an event of n bytes.
func hugeCtl(n int) Ctl { return Ctl{Kind: 4, V: uint32(n) & 0xffff, Fill: n - 2} }

// ctlChunk makes the chunk a conforming peer sends.
func ctlChunk(typ byte, data []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:   chunk.BasicHeader{FormatId: 0, StreamId: 2},
		MessageHeader: chunk.MessageHeader{Length: uint32(len(data)), TypeId: typ},
	}, data)
}

// ------------------------------------------------------------------- C11

// CtlBatch is parsed by one parser, in order.
type CtlBatch struct {
	Ctls []Ctl `json:"ctls"`
	Size int   `json:"size"`
}

func genCtlBatch(t *rapid.T) CtlBatch {
	return CtlBatch{dups(t, rapid.SliceOfN(rapid.Custom(genCtl), 1, 8).Draw(t, "ctls"), nil), genSize(t)}
}

func runCtlBatch(o *O, c CtlBatch) { c.run(o, control.NewParser(), control.NewChunker()) }

// runCtlShared: several batches, at the same time, with one parser and chunker.
func runCtlShared(o *O, cs []CtlBatch) {
	p, ck := control.NewParser(), control.NewChunker()
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, c := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			c.run(o, p, ck)
		}()
	}
	close(start)
	wg.Wait()
}

func (c CtlBatch) run(o *O, p control.Parser, ck control.Chunker) {
	var chunks []*chunk.Chunk
	for i, k := range c.Ctls {
		lib := k.control()
		ch, err := ck.Chunk(lib)
		if err != nil || ch == nil || ch.Header == nil {
			o.Failf("chunk", "control message %d %+v: no chunk, error %v", i, k, err)
			return
		}
		if d := k.diff(lib); d != "" {
			o.Failf("chunk", "chunking control message %d changed it: %s", i, d)
			return
		}
		chunks = append(chunks, ch)
		o.Class("kind-%d", k.Kind)
		if k.Kind == 1 && k.V > 0xffffff {
			o.Class("oversized-chunk-size")
		}
	}
	o.nontrivial()
	var got []control.Control
	for i, ch := range chunks {
		k := c.Ctls[i]
		h := ch.Header
		if h.BasicHeader.StreamId != 2 || h.BasicHeader.FormatId != 0 || h.MessageHeader.FormatId != 0 || h.MessageHeader.StreamId != 0 || h.MessageHeader.TypeId != k.Kind || h.MessageHeader.Timestamp >= 0xffffff {
			o.Failf("header", "chunk of %+v has header %+v", k, *h)
			return
		}
		if want := k.payload(); !bytes.Equal(ch.Data, want) || int(h.MessageHeader.Length) != len(want) {
			o.Failf("layout", "chunk of %+v has length %d and payload %x, want %d, payload %x", k, h.MessageHeader.Length, head(ch.Data), len(want), head(want))
			return
		}
		in := append([]byte(nil), ch.Data...)
		m, err := p.Parse(ch)
		if err != nil {
			o.Failf("parse", "control message %d %+v is rejected: %v", i, k, err)
			return
		}
		if !bytes.Equal(in, ch.Data) {
			o.Failf("parse", "parsing changed the chunk of %+v", k)
			return
		}
		got = append(got, m)
		if d := k.diff(m); d != "" {
			o.Failf("round-trip", "control message %d: %s", i, d)
			return
		}
	}
	// Later parses must not have changed earlier results.
	for i, m := range got {
		if d := c.Ctls[i].diff(m); d != "" {
			o.Failf("shared", "control message %d was changed by later parses: %s", i, d)
			return
		}
	}
	// A second parser and a second encoding agree.
	for i, m := range got {
		again, err := control.NewChunker().Chunk(m)
		if err != nil || !bytes.Equal(again.Data, c.Ctls[i].payload()) || again.Header.MessageHeader.TypeId != c.Ctls[i].Kind {
			o.Failf("round-trip", "parsed control message %d %+v is encoded as %+v (error %v)", i, c.Ctls[i], again, err)
			return
		}
	}
	// Over the wire.
	w := new(sliceWriter)
	cw := chunk.NewWriter(w, c.Size)
	var wire []M
	for i, ch := range chunks {
		if c.Ctls[i].Kind == 1 {
			continue
		}
		if err := cw.Write(ch); err != nil {
			o.Failf("wire", "writing %+v: %v", c.Ctls[i], err)
			return
		}
		wire = append(wire, M{Cs: 2, Type: c.Ctls[i].Kind, Data: c.Ctls[i].payload()})
	}
	sent, err := refDecode(DialectSpec, w.b, c.Size)
	if err != nil || len(sent) != len(wire) {
		o.Failf("wire", "the bytes of %d control messages decode to %d, error %v", len(wire), len(sent), err)
		return
	}
	for i := range sent {
		g := sent[i].M
		g.Ts = 0
		if d := diffM(&g, &wire[i]); d != "" {
			o.Failf("wire", "control message %d on the wire:%s", i, d)
			return
		}
	}
}

// CtlRaw is a type id with any payload.
type CtlRaw struct {
	Type byte `json:"type"`
	Data Hex  `json:"data"`
}

// checkCtlRaw compares one parse with the specification. strict: payloads that
// are longer than needed have to be accepted, too.
func checkCtlRaw(o *O, p *control.DefaultParser, c CtlRaw) {
	m, err := p.Parse(ctlChunk(c.Type, c.Data))
	need := ctlNeed(c.Type)
	switch {
	case need == 0:
		o.Class("unknown-type")
		var u control.UnknownControlType
		if err == nil {
			o.Failf("unknown-accepted", "type %d with payload %x is accepted as %T", c.Type, c.Data, m)
		} else if !(errors.As(err, &u) && byte(u) == c.Type) {
			o.Failf("unknown-error", "type %d is rejected with %T %v, which does not name it as an unknown type", c.Type, err, err)
		} else if !strings.Contains(err.Error(), fmt.Sprint(c.Type)) {
			o.Failf("unknown-error", "type %d is rejected with %q, which does not name it", c.Type, err)
		}
	case len(c.Data) < need:
		o.Class("short-%d", c.Type)
		if err == nil {
			o.Failf("short-accepted", "type %d with only %d payload bytes is accepted as %+v", c.Type, len(c.Data), m)
		}
	default:
		if len(c.Data) > need && c.Type != 4 {
			o.Class("long")
			if err != nil {
				return
			}
		}
		if err != nil {
			o.Failf("rejected", "type %d with payload %x is rejected: %v", c.Type, c.Data, err)
			return
		}
		k := Ctl{Kind: c.Type}
		switch c.Type {
		case 4:
			k.V, k.Body = uint32(binary.BigEndian.Uint16(c.Data)), c.Data[2:]
		case 6:
			k.V, k.L = binary.BigEndian.Uint32(c.Data), c.Data[4]
		default:
			k.V = binary.BigEndian.Uint32(c.Data)
		}
		if d := k.diff(m); d != "" {
			o.Failf("value", "type %d with payload %x: %s", c.Type, c.Data, d)
		}
	}
}

func genControlSoup(t *rapid.T) []CtlRaw {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CtlRaw {
		c := CtlRaw{Type: byte(genInt(t, "type", 0, 9))}
		if chance(t, "anyType", 30) {
			c.Type = rapid.Byte().Draw(t, "t")
		}
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "data")
		return c
	}), 1, 6).Draw(t, "raws")
}

func runControlSoup(o *O, cs []CtlRaw) {
	p := control.NewParser()
	o.NT = true
	for _, c := range cs {
		checkCtlRaw(o, p, c)
	}
}

// CtlIO is a message written to and read from streams that may fail.
type CtlIO struct {
	Ctl  Ctl   `json:"ctl"`
	Cuts []int `json:"cuts,omitempty"` // where reads end
	// One: reads of one byte. DataEOF: the end is told with the last bytes.
	One     bool `json:"one,omitempty"`
	DataEOF bool `json:"data_eof,omitempty"`
	Flt     int  `json:"flt,omitempty"` // how they fail
}

func genCtlIO(t *rapid.T) CtlIO {
	return CtlIO{genCtl(t), rapid.SliceOfN(rapid.IntRange(1, 12), 0, 3).Draw(t, "cuts"), chance(t, "one", 40), rapid.Bool().Draw(t, "dataEOF"), genFault(t)}
}

// cutReader gives its bytes in pieces, then end.
type cutReader struct {
	b       []byte
	at      int
	cuts    []int
	one     bool
	dataEnd bool
	end     error
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at == len(r.b) {
		return 0, r.end
	}
	to := len(r.b)
	if r.one {
		to = r.at + 1
	}
	for _, k := range r.cuts {
		if k > r.at && k < to {
			to = k
		}
	}
	n := copy(p, r.b[r.at:to])
	r.at += n
	if r.dataEnd && r.at == len(r.b) {
		return n, r.end
	}
	return n, nil
}

// runCtlIO writes a message to destinations that fail at every offset, and
// reads it from sources that end or fail at every offset.
func runCtlIO(o *O, c CtlIO) {
	o.NT = true
	want := c.Ctl.payload()
	offsets := len(want)
	if offsets > 40 {
		offsets = 40
	}
	for _, mode := range []string{"error", "refuse"} {
		for i := 0; i <= offsets; i++ {
			at := i
			if i == offsets {
				at = len(want)
			}
			d := &faultDest{at: at, mode: mode, err: fault(c.Flt)}
			lib := c.Ctl.control()
			err := lib.Write(d)
			switch {
			case at == len(want) && (err != nil || !bytes.Equal(d.b, want)):
				o.Failf("write", "%+v is written as %x, error %v; want %x", c.Ctl, d.b, err, want)
			case at < len(want) && err == nil:
				o.Failf("write-error", "the destination failed (%s) at byte %d of %+v, but Write reports success", mode, at, c.Ctl)
			case !bytes.HasPrefix(want, d.b):
				o.Failf("write", "after failing (%s) at byte %d of %+v the destination holds %x, no prefix of %x", mode, at, c.Ctl, d.b, want)
			}
			if d := c.Ctl.diff(lib); d != "" {
				o.Failf("write", "Write changed the message: %s", d)
			}
			if o.Bad() {
				return
			}
		}
	}
	need := ctlNeed(c.Ctl.Kind)
	for _, end := range []error{io.EOF, readFault(c.Flt)} {
		for i := 0; i <= offsets; i++ {
			at := i
			if i == offsets {
				at = len(want)
			}
			r := &cutReader{b: want[:at], cuts: c.Cuts, one: c.One, dataEnd: c.DataEOF, end: end}
			lib := Ctl{Kind: c.Ctl.Kind}.control()
			err := lib.Read(r)
			k := c.Ctl
			if k.Kind == 4 && at >= need {
				k.Body, k.Fill = want[need:at], 0
			}
			switch {
			case at < need && err == nil:
				o.Failf("read-error", "%d bytes of %+v, then %v: Read reports success", at, c.Ctl, end)
			case at >= need && k.Kind == 4 && end != io.EOF && err == nil:
				o.Failf("read-error", "%d bytes of %+v, then %v: Read reports success", at, c.Ctl, end)
			case at >= need && end == io.EOF && err != nil:
				o.Failf("read", "%d bytes of %+v: %v", at, c.Ctl, err)
			case at >= need && err == nil:
				if d := k.diff(lib); d != "" {
					o.Failf("read", "%d bytes of %+v: %s", at, c.Ctl, d)
				}
			}
			if o.Bad() {
				return
			}
		}
	}
	o.Class("kind-%d", c.Ctl.Kind)
}

func init() {
	Register(&Prop{ID: "C11", Together: 1500, Rounds: 3,
		Rule: "Random batches of control messages of all kinds with boundary and random field values, chunked, parsed by one shared parser and written to the wire, compared with a reference layout; random raw payloads for random type ids; and every type id with every payload length from 0 to 8. Non-trivial: at least one message; distinct by content.",
		Subs: []*Sub{
			Enum("types-and-lengths", func(string) (out []CtlRaw) {
				for t := 0; t < 256; t++ {
					for n := 0; n <= 8; n++ {
						out = append(out, CtlRaw{byte(t), nonNil(P{n, uint32(t*16 + n)}.Data())})
					}
				}
				return
			}, func(o *O, c CtlRaw) {
				o.NT = true
				checkCtlRaw(o, control.NewParser(), c)
			}),
			Rand("round-trip", 150000, genCtlBatch, runCtlBatch),
			Marathon([]CtlBatch{{Ctls: marathonCtls, Size: 3}}, func(c CtlBatch) int { return len(c.Ctls) },
				func(c CtlBatch, rep, _ int) CtlBatch {
					c.Ctls = repeatOps(c.Ctls, rep, nil, (*Ctl).vary)
					return c
				}, runCtlBatch),
			RandLong("long", 300, 0, genCtlBatch, func(c CtlBatch) int { return len(c.Ctls) },
				func(c CtlBatch, rep, _ int) CtlBatch {
					c.Ctls = repeatOps(c.Ctls, rep, nil, (*Ctl).vary)
					return c
				}, runCtlBatch),
			RaceRand("shared", 2000, func(t *rapid.T) []CtlBatch {
				return rapid.SliceOfN(rapid.Custom(genCtlBatch), 2, 4).Draw(t, "batches")
			}, runCtlShared),
			Rand("raw", 100000, genControlSoup, runControlSoup),
			Rand("direct", 60000, genCtlIO, runCtlIO),
			Enum("largest", func(string) (out []CtlBatch) {
				for i, n := range hugeLens {
					out = append(out, CtlBatch{[]Ctl{{Kind: 3, V: 7}, hugeCtl(n), {Kind: 4, V: 3, Body: Hex{1}}}, []int{128, 4096, 65536, 0xffffff}[i%4]})
				}
				return
			}, runCtlBatch),
		}})
}

// ------------------------------------------------------------------- C12

// CSOp is one step of a control stream's history.
type CSOp struct {
	// Op: "in" a valid chunk, "bad" an unparsable chunk, "out" a message,
	// "unenc" a message that cannot be encoded, "wfail" a message whose
	// write fails, "end" the end of the incoming chunks.
	Op  string `json:"op"`
	Ctl Ctl    `json:"ctl"`
	Raw CtlRaw `json:"raw"`
	// Pause in fake milliseconds before the step; Slow is how long the
	// writer takes.
	Pause int `json:"pause"`
	Slow  int `json:"slow"`
	Flt   int `json:"flt,omitempty"` // which fault it is
}

type CSCase struct {
	Ops []CSOp `json:"ops"`
	// Step: wait for each step's effect before the next one. Otherwise the
	// two directions run by themselves.
	Step bool `json:"step"`
	// InDelay, ErrDelay: how long the consumers take for each item.
	InDelay  []int `json:"in_delay"`
	ErrDelay []int `json:"err_delay"`
	Real     bool  `json:"real"` // use the library's chunk writer
	Size     int   `json:"size"`
}

func genCSCase(t *rapid.T) CSCase {
	c := CSCase{Step: chance(t, "step", 40), Real: chance(t, "real", 40), Size: genSize(t)}
	pause := rapid.Custom(func(t *rapid.T) int { return genMs(t, "pause") })
	c.InDelay = rapid.SliceOfN(pause, 1, 3).Draw(t, "inDelay")
	c.ErrDelay = rapid.SliceOfN(pause, 1, 3).Draw(t, "errDelay")
	ended := false
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CSOp {
		op := CSOp{Pause: pause.Draw(t, "pause"), Slow: oneOf(t, "slow", 0, 0, 0, 0, 3, 11, 8000)}
		op.Op = oneOf(t, "op", "in", "in", "in", "out", "out", "out", "bad", "unenc", "wfail", "end")
		switch op.Op {
		case "in", "out", "wfail":
			op.Ctl = genCtl(t)
			if op.Op == "wfail" {
				op.Flt = genFault(t)
			}
		case "unenc":
			op.Flt = genFault(t)
		case "bad":
			if chance(t, "unknown", 50) {
				op.Raw = CtlRaw{oneOf[byte](t, "type", 0, 7, 8, 9, 20, 255), rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "data")}
			} else {
				op.Raw.Type = byte(genInt(t, "kind", 1, 6))
				op.Raw.Data = rapid.SliceOfN(rapid.Byte(), 0, ctlNeed(op.Raw.Type)-1).Draw(t, "data")
			}
		}
		return op
	}), 1, 14).Draw(t, "ops")
	c.Ops = dups(t, c.Ops, nil)
	// Nothing comes in after the end of the input.
	out := c.Ops[:0]
	for _, op := range c.Ops {
		if ended && (op.Op == "in" || op.Op == "bad" || op.Op == "end") {
			continue
		}
		ended = ended || op.Op == "end"
		out = append(out, op)
	}
	c.Ops = out
	return c
}

type csErr struct{ i int }

const csErrText = "injected fault of step "

func (e csErr) Error() string { return fmt.Sprint(csErrText, e.i) }

// named is err if it names its step, and otherwise nil.
func named(err error) error {
	if _, ok := err.(csErr); ok {
		return err
	}
	return nil
}

// unencodable is a control message that cannot be encoded.
type unencodable struct{ err error }

func (u *unencodable) Read(io.Reader) error    { return nil }
func (u *unencodable) Write(w io.Writer) error { w.Write([]byte{1, 2}); return u.err }
func (u *unencodable) TypeId() byte            { return 3 }

// chanStream is a chunk.Stream over a channel.
type chanStream chan *chunk.Chunk

func (s chanStream) In() <-chan *chunk.Chunk { return s }

// planWriter is a chunk.Writer that follows a plan, one entry per message.
type planWriter struct {
	mu       sync.Mutex
	plan     []planItem
	n        int
	got      []M
	attempts int
	real     chunk.Writer
	keep     []*chunk.Chunk
	snaps    []M
}

type planItem struct {
	err  error
	slow time.Duration
}

func (w *planWriter) Write(c *chunk.Chunk) error {
	w.mu.Lock()
	i := w.attempts
	w.attempts++
	var it planItem
	if i < len(w.plan) {
		it = w.plan[i]
	}
	w.mu.Unlock()
	if it.slow > 0 {
		time.Sleep(it.slow)
	}
	if it.err != nil {
		return it.err
	}
	m := fromChunk(c)
	m.Data = append([]byte(nil), m.Data...)
	w.mu.Lock()
	w.got = append(w.got, m)
	w.keep = append(w.keep, c)
	w.snaps = append(w.snaps, m)
	real := w.real
	w.mu.Unlock()
	if real != nil {
		return real.Write(c)
	}
	return nil
}
func (w *planWriter) WriteSize() int   { return 128 }
func (w *planWriter) SetWriteSize(int) {}
func (w *planWriter) Got() []M         { w.mu.Lock(); defer w.mu.Unlock(); return w.got }
func (w *planWriter) Attempts() int    { w.mu.Lock(); defer w.mu.Unlock(); return w.attempts }

func runC12(o *O, c CSCase) {
	var wantIn []Ctl
	var wantOut []Ctl
	var wantErr []error // nil: any error
	pw := &planWriter{}
	wire := new(sliceWriter)
	faults := 0
	for i, op := range c.Ops {
		o.Class("%s", op.Op)
		slow := time.Duration(op.Slow) * time.Millisecond
		switch op.Op {
		case "in":
			wantIn = append(wantIn, op.Ctl)
		case "bad":
			wantErr = append(wantErr, nil)
			faults++
		case "unenc":
			wantErr = append(wantErr, named(stepFault(i, op.Flt)))
			faults++
		case "out":
			wantOut = append(wantOut, op.Ctl)
			pw.plan = append(pw.plan, planItem{slow: slow})
		case "wfail":
			wantErr = append(wantErr, named(stepFault(i, op.Flt)))
			pw.plan = append(pw.plan, planItem{err: stepFault(i, op.Flt), slow: slow})
			faults++
		}
	}
	if c.Step {
		o.Class("stepwise")
	}
	o.NT = len(wantIn)+len(wantOut)+faults >= 2
	var mu sync.Mutex
	var gotIn []control.Control
	var gotErr []error
	o.bubble(func() {
		if c.Real {
			pw.real = chunk.NewWriter(wire, c.Size)
		}
		in := make(chanStream)
		s := control.NewStream(in, pw, control.NewParser(), control.NewChunker())
		go s.Recv()
		stop := make(chan struct{})
		var cons sync.WaitGroup
		cons.Add(2)
		go func() {
			defer cons.Done()
			for i := 0; ; i++ {
				select {
				case m, ok := <-s.In():
					if !ok {
						return
					}
					mu.Lock()
					gotIn = append(gotIn, m)
					mu.Unlock()
				case <-stop:
					return
				}
				time.Sleep(time.Duration(c.InDelay[i%len(c.InDelay)]) * time.Millisecond)
			}
		}()
		go func() {
			defer cons.Done()
			for i := 0; ; i++ {
				select {
				case err, ok := <-s.Errs():
					if !ok {
						return
					}
					mu.Lock()
					gotErr = append(gotErr, err)
					mu.Unlock()
				case <-stop:
					return
				}
				time.Sleep(time.Duration(c.ErrDelay[i%len(c.ErrDelay)]) * time.Millisecond)
			}
		}()
		do := func(i int, op CSOp) {
			time.Sleep(time.Duration(op.Pause) * time.Millisecond)
			switch op.Op {
			case "in":
				in <- ctlChunk(op.Ctl.Kind, op.Ctl.payload())
			case "bad":
				in <- ctlChunk(op.Raw.Type, op.Raw.Data)
			case "out", "wfail":
				s.Out() <- op.Ctl.control()
			case "unenc":
				s.Out() <- &unencodable{stepFault(i, op.Flt)}
			case "end":
				close(in)
			}
		}
		closed := false
		if c.Step {
			nIn, nOut, nErr := 0, 0, 0
			for i, op := range c.Ops {
				do(i, op)
				time.Sleep(settle / 1000)
				synctest.Wait()
				switch op.Op {
				case "in":
					nIn++
				case "out":
					nOut++
				case "end":
					closed = true
				default:
					nErr++
				}
				mu.Lock()
				if len(gotIn) != nIn || len(pw.Got()) != nOut || len(gotErr) != nErr {
					o.Failf("step", "after step %d (%s): %d messages in, %d out, %d errors; want %d, %d, %d (errors %v)", i, op.Op, len(gotIn), len(pw.Got()), len(gotErr), nIn, nOut, nErr, gotErr)
				}
				mu.Unlock()
				if o.Bad() {
					break
				}
			}
		} else {
			var prod sync.WaitGroup
			prod.Add(2)
			run := func(incoming bool) {
				defer prod.Done()
				for i, op := range c.Ops {
					if x := op.Op == "in" || op.Op == "bad" || op.Op == "end"; x == incoming {
						do(i, op)
					}
				}
			}
			go run(true)
			go run(false)
			prod.Wait()
			for _, op := range c.Ops {
				closed = closed || op.Op == "end"
			}
			time.Sleep(settle)
			synctest.Wait()
		}
		close(stop)
		cons.Wait()
		// Take it down without demands.
		go func() {
			for range s.In() {
			}
		}()
		go func() {
			for range s.Errs() {
			}
		}()
		go s.Close()
	})
	if o.Bad() {
		return
	}
	if len(gotIn) != len(wantIn) {
		o.Failf("incoming", "%d control messages delivered for %d valid chunks", len(gotIn), len(wantIn))
		return
	}
	for i := range gotIn {
		if d := wantIn[i].diff(gotIn[i]); d != "" {
			o.Failf("incoming", "delivered control message %d: %s", i, d)
			return
		}
	}
	got := pw.Got()
	if len(got) != len(wantOut) || pw.Attempts() != len(pw.plan) {
		o.Failf("outgoing", "%d control messages written in %d attempts, want %d in %d", len(got), pw.Attempts(), len(wantOut), len(pw.plan))
		return
	}
	for i, m := range got {
		w := M{Cs: 2, Type: wantOut[i].Kind, Data: wantOut[i].payload()}
		m.Ts = 0
		if d := diffM(&m, &w); d != "" {
			o.Failf("outgoing", "written control message %d:%s", i, d)
			return
		}
	}
	if c.Real {
		sent, err := refDecode(DialectSpec, wire.b, c.Size)
		// The decoder applies announcements; what follows one is written
		// with the writer's own size, so stop comparing there.
		for i, s := range sent {
			if i >= len(wantOut) {
				break
			}
			if wantOut[i].Kind == 1 {
				err = nil
				break
			}
			if s.Type != wantOut[i].Kind || !bytes.Equal(s.Data, wantOut[i].payload()) {
				o.Failf("outgoing", "control message %d on the wire has type %d, %d bytes and payload %x, want %+v", i, s.Type, len(s.Data), head(s.Data), wantOut[i])
				return
			}
		}
		announce := false
		for _, k := range wantOut {
			announce = announce || k.Kind == 1
		}
		if !announce && (err != nil || len(sent) != len(wantOut)) {
			o.Failf("outgoing", "%d control messages on the wire, want %d (error %v)", len(sent), len(wantOut), err)
			return
		}
	}
	if len(gotErr) != len(wantErr) {
		o.Failf("errors", "%d errors reported for %d faults: %v", len(gotErr), len(wantErr), gotErr)
		return
	}
	told := map[string]int{}
	for _, e := range gotErr {
		var ce csErr
		if errors.As(e, &ce) {
			told[ce.Error()]++
		} else if i := strings.LastIndex(e.Error(), csErrText); i >= 0 {
			told[e.Error()[i:]]++
		}
	}
	for _, w := range wantErr {
		if w == nil {
			continue
		}
		if n := told[w.Error()]; n != 1 {
			o.Failf("errors", "%q was reported %d times: %v", w, n, gotErr)
			return
		}
	}
}

func init() {
	Register(&Prop{ID: "C12", Together: 1000, Rounds: 5,
		Rule: "Random histories of a control stream: valid, unknown and short incoming chunks, outgoing messages, unencodable messages, failing writes and the end of the input, in lock step or with both directions running by themselves under pauses, slow consumers and slow writers. Non-trivial: at least two steps other than the end; distinct by content.",
		Subs: []*Sub{
			Rand("history", 40000, genCSCase, runC12),
			Enum("largest", func(string) (out []CSCase) {
				for i, n := range hugeLens {
					c := CSCase{Step: i%2 == 0, Real: true, Size: []int{128, 4096, 65536, 0xffffff}[i%4], InDelay: []int{0}, ErrDelay: []int{0}}
					for _, op := range []string{"in", "bad", "in", "out", "wfail", "out"} {
						k := hugeCtl(n)
						if len(c.Ops) >= 4 {
							k = Ctl{Kind: 3, V: uint32(n)}
						}
						c.Ops = append(c.Ops, CSOp{Op: op, Ctl: k, Raw: CtlRaw{7, Hex{1}}})
					}
					out = append(out, c)
				}
				return
			}, runC12),
			Marathon([]CSCase{{Real: true, Size: 3, InDelay: []int{0}, ErrDelay: []int{0}, Ops: []CSOp{
				{Op: "in", Ctl: marathonCtls[0]}, {Op: "out", Ctl: marathonCtls[1]}, {Op: "bad", Raw: CtlRaw{7, Hex{1}}},
				{Op: "in", Ctl: marathonCtls[2]}, {Op: "unenc"}, {Op: "out", Ctl: marathonCtls[3]}, {Op: "out", Ctl: marathonCtls[4]}, {Op: "in", Ctl: marathonCtls[4]},
			}}}, func(c CSCase) int { return len(c.Ops) },
				func(c CSCase, rep, _ int) CSCase {
					c.Ops = repeatOps(c.Ops, rep, nil, func(op *CSOp, i int) { op.Ctl.vary(i) })
					return c
				}, runC12),
			RandLong("long", 500, 0, genCSCase, func(c CSCase) int { return len(c.Ops) },
				func(c CSCase, rep, _ int) CSCase {
					c.Ops = repeatOps(c.Ops, rep, func(op CSOp) bool { return op.Op == "end" }, func(op *CSOp, i int) { op.Ctl.vary(i) })
					return c
				}, runC12),
		}})
}
