package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------- C14

type Route struct {
	Cs   uint32 `json:"cs"`
	Sid  uint32 `json:"sid"`
	Type byte   `json:"type"`
}

// routes is the specification of the router.
func (r Route) routes() (toConn, toStream, toData bool) {
	toConn = r.Cs == 3 || r.Cs == 8 && r.Sid == 0
	toStream = r.Type == 0x14 && (r.Cs == 4 || r.Cs == 8 && r.Sid == 1)
	toData = r.Cs == 4 && (r.Type == 8 || r.Type == 9 || r.Type == 0x12)
	return
}

func (r Route) chunk(b []byte, ts uint32) *chunk.Chunk {
	return toChunk(&M{Cs: r.Cs, Sid: r.Sid, Type: r.Type, Data: b, Ts: ts}, 0)
}

func runGates(o *O, r Route) {
	o.NT = true
	for _, c := range []*chunk.Chunk{
		r.chunk([]byte{1, 2}, 5), r.chunk(nil, 0), r.chunk(P{70000, 1}.Data(), 0xffffffff),
		toChunk(&M{Cs: r.Cs, Sid: r.Sid, Type: r.Type, Ts: 20, Delta: true, Data: []byte{0x17}}, 1),
		toChunk(&M{Cs: r.Cs, Sid: r.Sid, Type: r.Type, Ts: 0xffffff, Delta: true, Data: []byte{0x17}}, 2),
		toChunk(&M{Cs: r.Cs, Sid: r.Sid, Type: r.Type, Data: []byte{0xaf, 0}}, 3),
	} {
		if checkGates(o, r, c); o.Bad() {
			return
		}
	}
}

func checkGates(o *O, r Route, c *chunk.Chunk) {
	a, b, d := r.routes()
	if cmd.NetConnGate.Open(c) != a {
		o.Failf("gate", "net connection gate is open: %v for %+v, want %v", !a, r, a)
	}
	if cmd.NetStreamGate.Open(c) != b {
		o.Failf("gate", "net stream gate is open: %v for %+v, want %v", !b, r, b)
	}
	if cmd.DataStreamGate.Open(c) != d {
		o.Failf("gate", "data stream gate is open: %v for %+v, want %v", !d, r, d)
	}
}

// GateTree is an expression over gates.
type GateTree struct {
	Op   string     `json:"op"` // all, any, cs, sid, type, const
	V    uint32     `json:"v,omitempty"`
	Subs []GateTree `json:"subs,omitempty"`
}

type GateCase struct {
	Tree   GateTree `json:"tree"`
	Routes []Route  `json:"routes"`
}

type constGate bool

func (g constGate) Open(*chunk.Chunk) bool { return bool(g) }

func (g GateTree) gate() cmd.Gate {
	var subs []cmd.Gate
	for _, s := range g.Subs {
		subs = append(subs, s.gate())
	}
	switch g.Op {
	case "all":
		return cmd.NewUnionGate(subs...)
	case "any":
		return cmd.NewAnyGate(subs...)
	case "cs":
		return &cmd.StreamIdGate{StreamId: g.V}
	case "sid":
		return &cmd.MessageStreamGate{StreamId: g.V}
	case "type":
		return &cmd.TypeIdGate{TypeId: byte(g.V)}
	}
	return constGate(g.V != 0)
}

func (g GateTree) open(r Route) bool {
	switch g.Op {
	case "all":
		for _, s := range g.Subs {
			if !s.open(r) {
				return false
			}
		}
		return len(g.Subs) > 0
	case "any":
		for _, s := range g.Subs {
			if s.open(r) {
				return true
			}
		}
		return false
	case "cs":
		return r.Cs == g.V
	case "sid":
		return r.Sid == g.V
	case "type":
		return r.Type == byte(g.V)
	}
	return g.V != 0
}

func genGateTree(t *rapid.T, depth int) GateTree {
	op := oneOf(t, "op", "all", "any", "cs", "sid", "type", "const")
	if depth <= 0 && (op == "all" || op == "any") {
		op = "const"
	}
	g := GateTree{Op: op}
	switch op {
	case "all", "any":
		for i, n := 0, genInt(t, "subs", 0, 4); i < n; i++ {
			g.Subs = append(g.Subs, genGateTree(t, depth-1))
		}
		if len(g.Subs) > 0 && chance(t, "many", 5) {
			// Many sub-gates, of which the last ones may decide.
			for n := oneOf(t, "more", 5, 12, 29, 60, 250); n > 0; n-- {
				v := uint32(1)
				if op == "any" {
					v = 0
				}
				g.Subs = append([]GateTree{{Op: "const", V: v}}, g.Subs...)
			}
		}
	case "cs":
		g.V = oneOf[uint32](t, "v", 2, 3, 4, 8)
	case "sid":
		g.V = oneOf[uint32](t, "v", 0, 1, 2)
	case "type":
		g.V = oneOf[uint32](t, "v", 8, 9, 0x12, 0x14)
	default:
		g.V = uint32(genInt(t, "v", 0, 1))
	}
	return g
}

func genRoute(t *rapid.T) Route {
	r := Route{
		Cs:   oneOf[uint32](t, "cs", 2, 3, 3, 4, 4, 4, 5, 8, 8, 8, 6, 68, 64),
		Sid:  oneOf[uint32](t, "sid", 0, 0, 1, 1, 2, 256, 0x1000000, 0xffffffff),
		Type: oneOf[byte](t, "type", 0x14, 0x14, 8, 9, 0x12, 0x11, 0, 4, 0x0f, 0x10, 0x16, 255),
	}
	if chance(t, "flip", 15) {
		// One bit of one of them is another one.
		switch genInt(t, "flipOf", 0, 2) {
		case 0:
			if r.Cs ^= 1 << genInt(t, "bit", 0, 16); r.Cs > 65599 {
				r.Cs -= 0x10000
			}
		case 1:
			r.Sid ^= 1 << genInt(t, "bit", 0, 31)
		default:
			r.Type ^= 1 << genInt(t, "bit", 0, 7)
		}
	}
	return r
}

// DispatchMsg is one message for the router, with the payload that suits the
// consumer it is meant for.
type DispatchMsg struct {
	Route
	Pause int    `json:"pause,omitempty"`
	Cmd   Cmd    `json:"cmd"`
	P     P      `json:"p"`
	Ts    uint32 `json:"ts"`
	Fmt   byte   `json:"fmt,omitempty"`
	Bare  bool   `json:"bare,omitempty"` // P is the payload whatever the route
}

type DispatchCase struct {
	Msgs   []DispatchMsg `json:"msgs"`
	Delays [4][]int      `json:"delays"` // conn, stream, data, errors
	// Manual: the manager's children are started by hand.
	Manual bool `json:"manual,omitempty"`
}

func genDispatchMsg(t *rapid.T) DispatchMsg {
	m := DispatchMsg{Route: genRoute(t), Pause: genPause(t, "pause"), P: P{genInt(t, "n", 1, 40), genSeed(t)}, Ts: genTs(t), Fmt: byte(oneOf(t, "fmt", 0, 0, 1, 2, 3))}
	if chance(t, "large", 5) {
		m.P.N = genInt(t, "largeN", 41, 70000)
	}
	a, b, _ := m.routes()
	switch {
	case a:
		m.Cmd = genConnCmd(t)
	case b:
		m.Cmd = genStreamCmd(t)
	default:
		if chance(t, "command", 50) {
			m.Cmd = oneOf(t, "which", genConnCmd, genStreamCmd)(t)
		}
	}
	if (a || b) && chance(t, "malformed", 15) {
		genMal(t, &m.Cmd)
	}
	return m
}

func genDispatch(t *rapid.T) DispatchCase {
	c := DispatchCase{Msgs: dups(t, rapid.SliceOfN(rapid.Custom(genDispatchMsg), 1, 14).Draw(t, "msgs"), nil)}
	for i := range c.Delays {
		c.Delays[i] = genDelays(t)
	}
	c.Manual = chance(t, "manual", 25)
	return c
}

func (m DispatchMsg) payload() []byte {
	if a, b, d := m.routes(); d && m.Type != 0x12 || !a && !b && !d && m.Cmd.Name == "" {
		return m.P.Data()
	} else if d {
		return encVals(vStr("@setDataFrame"), vStr("onMetaData"), Val{K: "arr", Keys: []string{"s"}, Elems: []Val{vNum(float64(m.P.S))}})
	}
	return m.Cmd.payload()
}

func (m DispatchMsg) chunk() *chunk.Chunk {
	return toChunk(&M{Cs: m.Cs, Sid: m.Sid, Type: m.Type, Data: m.payload(), Ts: m.Ts, Delta: m.Fmt != 0}, m.Fmt)
}

// diffData compares a received frame with the message it was sent as.
func (m DispatchMsg) diffData(d data.Data) string {
	switch f := d.(type) {
	case *data.Audio:
		if m.Type == 8 && f.Control() == m.payload()[0] && bytes.Equal(f.Payload(), m.payload()[1:]) {
			return ""
		}
	case *data.Video:
		if m.Type == 9 && f.Control() == m.payload()[0] && bytes.Equal(f.Payload(), m.payload()[1:]) {
			return ""
		}
	case *data.DataFrame:
		if m.Type == 0x12 && f.Arguments != nil && f.Arguments.Len() == 1 && vNum(float64(m.P.S)).eq(f.Arguments.At(0)) {
			return ""
		}
	}
	return fmt.Sprintf("frame %+v for message type %#x", d, m.Type)
}

func runDispatch(o *O, c DispatchCase) {
	var wantConn, wantStream, wantData []DispatchMsg
	connErrs, streamErrs := 0, 0
	for _, m := range c.Msgs {
		a, b, d := m.routes()
		switch {
		case a && m.Cmd.Mal != "":
			connErrs++
		case a:
			wantConn = append(wantConn, m)
		case b && m.Cmd.Mal != "":
			streamErrs++
		case b:
			wantStream = append(wantStream, m)
		case d:
			wantData = append(wantData, m)
		default:
			o.Class("nowhere")
		}
		if a || b || d {
			o.NT = true
		}
	}
	var mu sync.Mutex
	var gotConn []conn.Receivable
	var gotStream []stream.Command
	var gotData []data.Data
	var errsConn, errsStream, errsData []error
	o.bubble(func() {
		in := make(chanStream)
		m := cmd.New(in, chunk.NoopWriter)
		dispatch(m, c.Manual)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		pump := func(k int, recv func() bool) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; recv(); i++ {
					if d := c.Delays[k]; len(d) > 0 {
						time.Sleep(time.Duration(d[i%len(d)]) * time.Millisecond)
					}
				}
			}()
		}
		lock := func(f func()) { mu.Lock(); f(); mu.Unlock() }
		pump(0, func() bool {
			select {
			case x, ok := <-m.NetConn().In():
				if ok {
					lock(func() { gotConn = append(gotConn, x) })
				}
				return ok
			case <-stop:
				return false
			}
		})
		pump(1, func() bool {
			select {
			case x, ok := <-m.NetStream().In():
				if ok {
					lock(func() { gotStream = append(gotStream, x) })
				}
				return ok
			case <-stop:
				return false
			}
		})
		pump(2, func() bool {
			select {
			case x, ok := <-m.DataStream().Out():
				if ok {
					lock(func() { gotData = append(gotData, x) })
				}
				return ok
			case <-stop:
				return false
			}
		})
		for _, e := range []struct {
			ch  <-chan error
			dst *[]error
		}{{m.NetConn().Errs(), &errsConn}, {m.NetStream().Errs(), &errsStream}, {m.DataStream().Errs(), &errsData}} {
			pump(3, func() bool {
				select {
				case x, ok := <-e.ch:
					if ok {
						lock(func() { *e.dst = append(*e.dst, x) })
					}
					return ok
				case <-stop:
					return false
				}
			})
		}
		for _, x := range c.Msgs {
			time.Sleep(time.Duration(x.Pause) * time.Millisecond)
			in <- x.chunk()
		}
		time.Sleep(settle)
		synctest.Wait()
		close(stop)
		wg.Wait()
		drainManager(m)
		go m.Close()
		if c.Manual {
			go m.NetConn().Close()
			go m.NetStream().Close()
			go m.DataStream().Close()
		}
	})
	if len(gotConn) != len(wantConn) || len(gotStream) != len(wantStream) || len(gotData) != len(wantData) {
		o.Failf("routing", "net connection, net stream, data stream got %d, %d, %d messages, want %d, %d, %d (errors %v %v %v)", len(gotConn), len(gotStream), len(gotData), len(wantConn), len(wantStream), len(wantData), errsConn, errsStream, errsData)
		return
	}
	if len(errsConn) != connErrs || len(errsStream) != streamErrs || len(errsData) != 0 {
		o.Failf("routing", "errors of net connection %v (want %d), net stream %v (want %d), data stream %v (want none)", errsConn, connErrs, errsStream, streamErrs, errsData)
		return
	}
	for i, x := range gotConn {
		if d := wantConn[i].Cmd.diffConn(x); d != "" {
			o.Failf("routing", "net connection message %d: %s", i, d)
			return
		}
	}
	for i, x := range gotStream {
		if d := wantStream[i].Cmd.diffStream(x); d != "" {
			o.Failf("routing", "net stream message %d: %s", i, d)
			return
		}
	}
	for i, x := range gotData {
		if d := wantData[i].diffData(x); d != "" {
			o.Failf("routing", "data stream message %d: %s", i, d)
			return
		}
	}
}

// dispatch starts a manager.
func dispatch(m *cmd.Manager, manual bool) {
	if !manual {
		go m.Dispatch(true)
		return
	}
	go m.Dispatch(false)
	go m.NetConn().Listen()
	go m.NetStream().Listen()
	go m.DataStream().Recv()
}

// drainManager receives from every channel of a manager.
func drainManager(m *cmd.Manager) {
	drain(m.NetConn().In())
	drain(m.NetConn().Errs())
	drain(m.NetStream().In())
	drain(m.NetStream().Errs())
	drain(m.DataStream().Out())
	drain(m.DataStream().Errs())
}

func drain[T any](ch <-chan T) {
	go func() {
		for range ch {
		}
	}()
}

func init() {
	Register(&Prop{ID: "C14", Together: 1500, Rounds: 3,
		Rule: "All 256 types crossed with the chunk and message stream ids that matter and their neighbours for the three gates; random gate expressions against Boolean evaluation; random message sequences of routed, unrouted and malformed messages through a manager with slow consumers. Non-trivial: at least one message that has to be routed, or one gate decision; distinct by content.",
		Subs: []*Sub{
			Enum("gates", func(string) (out []Route) {
				for _, cs := range []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 63, 64, 67, 68, 72, 259, 260, 264, 0x103, 0x203, 0x4003, 0x8004, 0xff03, 0xff08, 65536, 65539, 65540, 65544, 65599} {
					for _, sid := range []uint32{0, 1, 2, 3, 8, 255, 256, 257, 0x10000, 0x10001, 0x01000000, 0x01000001, 0x80000000, 0x80000001, 0xffffffff} {
						for t := 0; t < 256; t++ {
							out = append(out, Route{cs, sid, byte(t)})
						}
					}
				}
				return
			}, runGates),
			Rand("gate-expressions", 60000, func(t *rapid.T) GateCase {
				return GateCase{genGateTree(t, 3), rapid.SliceOfN(rapid.Custom(genRoute), 1, 6).Draw(t, "routes")}
			}, func(o *O, c GateCase) {
				o.NT = c.Tree.Op == "all" || c.Tree.Op == "any"
				g := c.Tree.gate()
				for _, r := range c.Routes {
					want := c.Tree.open(r)
					o.Class("open-%v", want)
					for n := 0; n < 2; n++ {
						if got := g.Open(r.chunk(nil, 0)); got != want {
							o.Failf("expression", "gate is open: %v for %+v, want %v", got, r, want)
							return
						}
					}
				}
			}),
			Rand("dispatch", 30000, genDispatch, runDispatch),
			Marathon([]DispatchCase{{Msgs: []DispatchMsg{
				{Route: Route{3, 0, 0x14}, Cmd: okConn}, {Route: Route{4, 1, 0x14}, Cmd: okStream}, {Route: Route{4, 1, 9}, P: P{3, 1}},
				{Route: Route{8, 1, 0x14}, Cmd: okStream}, {Route: Route{5, 1, 9}, P: P{3, 1}}, {Route: Route{8, 0, 0x14}, Cmd: okConn}, {Route: Route{4, 1, 8}, P: P{3, 1}},
			}}}, func(c DispatchCase) int { return len(c.Msgs) },
				func(c DispatchCase, rep, _ int) DispatchCase {
					c.Msgs = repeatOps(c.Msgs, rep, nil, func(m *DispatchMsg, i int) { m.P.S += uint32(i) })
					return c
				}, runDispatch),
			RandLong("long", 400, 0, genDispatch, func(c DispatchCase) int { return len(c.Msgs) },
				func(c DispatchCase, rep, _ int) DispatchCase {
					c.Msgs = repeatOps(c.Msgs, rep, nil, func(m *DispatchMsg, i int) { m.P.S += uint32(i) })
					return c
				}, runDispatch),
		}})
}

// ------------------------------------------------------------------- C15

// Frame is an audio, video or data message.
type Frame struct {
	Type byte   `json:"type"`
	Cs   uint32 `json:"cs"`
	Sid  uint32 `json:"sid"`
	Ts   uint32 `json:"ts"`
	Fmt  byte   `json:"fmt"`
	Ctl  int    `json:"ctl"` // -1: no control byte
	P    P      `json:"p"`
	// Data messages.
	Header string `json:"header,omitempty"`
	Name   string `json:"name,omitempty"`
	Args   Val    `json:"args"`
	Trunc  int    `json:"trunc,omitempty"` // permille missing
	Extra  []Val  `json:"extra,omitempty"` // further values
}

func (f Frame) data() []byte {
	if f.Type == 0x12 {
		b := encVals(vStr(f.Header), vStr(f.Name), f.Args)
		if f.Trunc > 0 {
			b = b[:min((1000-f.Trunc)*len(b)/1000, len(b)-1)]
		} else {
			b = append(b, encVals(f.Extra...)...)
		}
		return b
	}
	if f.Ctl < 0 {
		return []byte{}
	}
	return append([]byte{byte(f.Ctl)}, f.P.Data()...)
}

func (f Frame) msg() M {
	return M{Cs: f.Cs, Sid: f.Sid, Ts: f.Ts, Type: f.Type, Data: f.data(), Delta: f.Fmt != 0}
}
func (f Frame) known() bool { return f.Type == 8 || f.Type == 9 || f.Type == 0x12 }
func (f Frame) bad() bool {
	return !f.known() || f.Type != 0x12 && f.Ctl < 0 || f.Type == 0x12 && f.Trunc > 0
}

func genFrame(t *rapid.T) Frame {
	f := Frame{Type: oneOf[byte](t, "type", 8, 9, 8, 9, 0x12), Cs: oneOf[uint32](t, "cs", 4, 4, 8, 64), Sid: genSid(t), Ts: genTs(t), Fmt: byte(genInt(t, "fmt", 0, 3))}
	if chance(t, "anyType", 8) {
		f.Type = rapid.Byte().Draw(t, "t")
	}
	if f.Type == 0x12 {
		f.Header = oneOf(t, "header", "@setDataFrame", "@setDataFrame", "onTextData", "")
		f.Name = oneOf(t, "name", "onMetaData", "", "x")
		f.Args = genObj(t, 2)
		f.Args.K = "arr"
		if chance(t, "trunc", 10) {
			f.Trunc = genInt(t, "missing", 1, 999)
		}
		f.Extra = genExtra(t)
	} else {
		f.Ctl = genInt(t, "ctl", 0, 255)
		f.P = P{oneOf(t, "n", 0, 1, 2, genInt(t, "any", 0, 600), genInt(t, "any2", 0, 600)), genSeed(t)}
		if chance(t, "big", 1) {
			f.P.N = genHuge(t) / 4
		}
		if chance(t, "codec", 25) {
			f.Ctl = oneOf(t, "codecCtl", 0x17, 0x27, 0xaf, 0x2f, 0x2e, 0x12, 0x22, 0x57)
			f.P.S = uint32(patterns + oneOf(t, "packet", 8, 16, 17, 0))
		}
		if chance(t, "noControl", 8) {
			f.Ctl = -1
		}
	}
	return f
}

// hugeVal is an object (or array) that is encoded in n bytes: 12 of its own and
// a string.
func hugeVal(k string, n int) Val {
	v := Val{K: k, Keys: []string{"k"}, Elems: []Val{{K: "str", Fill: 1}}}
	v.Elems[0].Fill = max(1, n-len(encVals(v))+1)
	if d := n - len(encVals(v)); d != 0 {
		v.Elems[0].Fill += d // a long string has a longer length
	}
	return v
}

// hugeFrame is a data message of n bytes.
func hugeFrame(n int) Frame {
	f := Frame{Type: 0x12, Cs: 4, Sid: 1, Header: "@setDataFrame", Name: "onMetaData"}
	f.Args = hugeVal("arr", n+1-len(f.data()))
	return f
}

// diff compares a parsed frame with f.
func (f Frame) diff(d data.Data) string {
	if d.Id() != f.Type {
		return fmt.Sprintf("Id() is %#x, want %#x", d.Id(), f.Type)
	}
	want := f.data()
	var ctl byte
	var payload []byte
	switch d := d.(type) {
	case *data.Audio:
		if f.Type != 8 {
			return fmt.Sprintf("type %#x is parsed as audio", f.Type)
		}
		ctl, payload = d.Control(), d.Payload()
	case *data.Video:
		if f.Type != 9 {
			return fmt.Sprintf("type %#x is parsed as video", f.Type)
		}
		ctl, payload = d.Control(), d.Payload()
	case *data.DataFrame:
		if f.Type != 0x12 {
			return fmt.Sprintf("type %#x is parsed as a data frame", f.Type)
		}
		if d.Header != f.Header || d.Type != f.Name || d.Arguments == nil || !f.Args.eq(d.Arguments) {
			return clip(fmt.Sprintf("data frame %+v is parsed as %+v", f, d), 1500)
		}
		return ""
	default:
		return fmt.Sprintf("type %#x is parsed as a %T", f.Type, d)
	}
	if len(want) == 0 || ctl != want[0] || !bytes.Equal(payload, want[1:]) {
		return fmt.Sprintf("control %#x and payload %x (%d bytes) for message payload %x (%d bytes)", ctl, head(payload), len(payload), head(want), len(want))
	}
	return ""
}

// diffBack compares a frame turned back into a message with f.
func (f Frame) diffBack(c *chunk.Chunk) string {
	if c == nil || c.Header == nil {
		return "no message"
	}
	f.Extra = nil // nobody asked to keep them
	got, want := fromChunk(c), f.msg()
	if f.Type == 0x12 {
		// A data frame does not keep where it came from: it goes out on
		// the data stream.
		want.Cs, want.Sid, want.Ts, want.Delta = 4, 1, 0, false
		got.Ts = 0
	}
	if int(c.Header.MessageHeader.Length) != len(c.Data) {
		return fmt.Sprintf("header length %d for %d bytes", c.Header.MessageHeader.Length, len(c.Data))
	}
	return diffM(&got, &want)
}

func (f Frame) chunk() *chunk.Chunk { m := f.msg(); return toChunk(&m, f.Fmt) }

func runFrames(o *O, fs []Frame) {
	var got []data.Data
	var idx []int
	for i, f := range fs {
		c := f.chunk()
		d, err := data.DefaultParser.Parse(c)
		o.Class("type-%d", map[bool]byte{true: f.Type}[f.known()])
		if f.bad() {
			o.Class("malformed")
			if err == nil {
				o.Failf("accepted", "frame %d %+v is accepted as %T", i, f, d)
				return
			}
			if !f.known() && !strings.Contains(err.Error(), fmt.Sprint(f.Type)) && !strings.Contains(err.Error(), fmt.Sprintf("%#x", f.Type)) {
				o.Failf("unknown-error", "type %d is rejected with %q, which does not name it", f.Type, err)
			}
			if f.known() && f.Type != 0x12 && !errors.Is(err, data.ErrControlMissing) {
				o.Failf("missing-control", "an empty frame of type %d is rejected with %q", f.Type, err)
			}
			continue
		}
		if err != nil {
			o.Failf("rejected", "frame %d %+v is rejected: %v", i, f, err)
			return
		}
		o.NT = true
		got, idx = append(got, d), append(idx, i)
		if !bytes.Equal(c.Data, f.data()) {
			o.Failf("altered", "parsing frame %d altered its message", i)
			return
		}
	}
	var back []*chunk.Chunk
	for j, d := range got {
		if s := fs[idx[j]].diff(d); s != "" {
			o.Failf("frame", "frame %d: %s", idx[j], s)
			return
		}
		c, err := d.Marshal()
		if err != nil {
			o.Failf("marshal", "frame %d cannot be turned back: %v", idx[j], err)
			return
		}
		back = append(back, c)
	}
	for j, c := range back {
		if s := fs[idx[j]].diffBack(c); s != "" {
			o.Failf("marshal", "frame %d turned back:%s", idx[j], s)
			return
		}
		if s := fs[idx[j]].diff(got[j]); s != "" {
			o.Failf("altered", "frame %d after being turned back: %s", idx[j], s)
			return
		}
	}
	// A frame that is read into again is the one read last.
	last := map[byte]int{}
	for j, d := range got {
		f := fs[idx[j]]
		k, again := last[f.Type]
		if last[f.Type] = j; !again || f.Type == 0x12 {
			continue
		}
		o.Class("read-again")
		if err := got[k].Read(f.chunk()); err != nil {
			o.Failf("rejected", "frame %d read into the frame %d: %v", idx[j], idx[k], err)
			return
		}
		if s := f.diff(got[k]); s != "" {
			o.Failf("frame", "frame %d read into the frame %d: %s", idx[j], idx[k], s)
			return
		}
		c, err := got[k].Marshal()
		if err != nil {
			o.Failf("marshal", "frame %d read into the frame %d cannot be turned back: %v", idx[j], idx[k], err)
			return
		}
		if s := f.diffBack(c); s != "" {
			o.Failf("marshal", "frame %d read into the frame %d and turned back:%s", idx[j], idx[k], s)
			return
		}
		if s := f.diff(d); s != "" {
			o.Failf("altered", "frame %d after being read into another: %s", idx[j], s)
			return
		}
	}
}

// runControlByte checks what a control byte is said to mean (FLV, E.4.2.1 and
// E.4.3.1). The deviations listed in known-findings.json are accepted exactly
// as listed.
func runControlByte(o *O, ctl int) {
	o.NT = true
	parse := func(typ byte) data.Data {
		d, err := data.DefaultParser.Parse(Frame{Type: typ, Cs: 4, Ctl: ctl, P: P{3, 1}}.chunk())
		if err != nil {
			o.Failf("rejected", "control byte %#x with type %d is rejected: %v", ctl, typ, err)
		}
		return d
	}
	a, _ := parse(8).(*data.Audio)
	v, _ := parse(9).(*data.Video)
	if a == nil || v == nil {
		o.Failf("frame", "audio and video are not parsed as such")
		return
	}
	c := byte(ctl)
	if byte(a.Codec()) != c>>4 {
		o.Failf("codec", "control byte %#x: audio codec %d, want %d", c, a.Codec(), c>>4)
	}
	if byte(a.Type()) != c&1 {
		o.Failf("channels", "control byte %#x: audio type %d, want %d", c, a.Type(), c&1)
	}
	if byte(v.Codec()) != c&15 {
		o.Failf("codec", "control byte %#x: video codec %d, want %d", c, v.Codec(), c&15)
	}
	if byte(v.Type()) != c>>4 {
		o.Failf("frame-type", "control byte %#x: video frame type %d, want %d", c, v.Type(), c>>4)
	}
	code := c >> 2 & 3
	near := func(x float32, w float64) bool { return math.Abs(float64(x)-w) <= 0.1 }
	if r := a.Rate(); !near(r, []float64{5.5, 11, 22, 44}[code]) {
		if near(r, []float64{11, 16.5, 0, 5.5}[code]) {
			o.KnownFinding("audio-rate")
		} else {
			o.Failf("rate", "control byte %#x: %v kHz", c, r)
		}
	}
	if s := a.Size(); s != 8<<(c>>1&1) {
		if s == []int{16, 24}[c>>1&1] {
			o.KnownFinding("audio-size")
		} else {
			o.Failf("size", "control byte %#x: %d bits", c, s)
		}
	}
}

type constCheck struct {
	Name  string `json:"name"`
	Got   int    `json:"got"`
	Want  int    `json:"want"`
	Known int    `json:"known"` // value of the listed deviation
	ID    string `json:"id"`
}

func constChecks(string) []constCheck {
	const no = -1
	return []constCheck{
		{"UncompressedAudioCodec", int(data.UncompressedAudioCodec), 0, no, ""},
		{"ADPCMAudioCodec", int(data.ADPCMAudioCodec), 1, no, ""},
		{"MP3AudioCodec", int(data.MP3AudioCodec), 2, no, ""},
		{"UncompressedLittleEndianAudioCodec", int(data.UncompressedLittleEndianAudioCodec), 3, no, ""},
		{"Nellymoser16AudioCodec", int(data.Nellymoser16AudioCodec), 4, no, ""},
		{"Nellymoser8AudioCodec", int(data.Nellymoser8AudioCodec), 5, no, ""},
		{"NellymoserAudioCodec", int(data.NellymoserAudioCodec), 6, no, ""},
		{"G711AAudioCodec", int(data.G711AAudioCodec), 7, no, ""},
		{"G711UAudioCodec", int(data.G711UAudioCodec), 8, no, ""},
		{"HE_AACAudioCodec", int(data.HE_AACAudioCodec), 10, 9, "audio-codec-constants"},
		{"SPEEXAudioCodec", int(data.SPEEXAudioCodec), 11, 10, "audio-codec-constants"},
		{"MonoAudioType", int(data.MonoAudioType), 0, no, ""},
		{"StereoAudioType", int(data.StereoAudioType), 1, no, ""},
		{"SorensenH263VideoCodec", int(data.SorensenH263VideoCodec), 2, 0, "video-codec-constants"},
		{"ScreenVideoVideoCodec", int(data.ScreenVideoVideoCodec), 3, 1, "video-codec-constants"},
		{"On2VP6VideoCodec", int(data.On2VP6VideoCodec), 4, 2, "video-codec-constants"},
		{"On2VP6AlphaVideoCodec", int(data.On2VP6AlphaVideoCodec), 5, 3, "video-codec-constants"},
		{"ScreenVideo2VideoCodec", int(data.ScreenVideo2VideoCodec), 6, 4, "video-codec-constants"},
		{"H264VideoCodec", int(data.H264VideoCodec), 7, 5, "video-codec-constants"},
		{"KeyframeVideoType", int(data.KeyframeVideoType), 1, 0, "video-type-constants"},
		{"InterframeVideoType", int(data.InterframeVideoType), 2, 1, "video-type-constants"},
		{"DisposableInterframeVideoType", int(data.DisposableInterframeVideoType), 3, 2, "video-type-constants"},
		{"GeneratedKeyFrameVideoType", int(data.GeneratedKeyFrameVideoType), 4, 3, "video-type-constants"},
		{"CommandFrameVideoType", int(data.CommandFrameVideoType), 5, 4, "video-type-constants"},
	}
}

func runConst(o *O, c constCheck) {
	o.NT = true
	// Got is part of the case; what counts is the value now.
	for _, n := range constChecks("") {
		if n.Name == c.Name {
			switch n.Got {
			case n.Want:
			case n.Known:
				o.KnownFinding(n.ID)
			default:
				o.Failf("constant", "%s is %d, want %d", n.Name, n.Got, n.Want)
			}
		}
	}
}

// DataStreamCase is a history of a data stream. F of outgoing steps is written.
type DataStreamCase struct {
	Ops []DataOp `json:"ops"`
	Sc  Sched    `json:"sc"`
}

type DataOp struct {
	DOp
	F Frame `json:"f"`
}

type failData struct {
	data.Data
	err error
}

func (f *failData) Marshal() (*chunk.Chunk, error) { return nil, f.err }

func genDataStream(t *rapid.T) DataStreamCase {
	c := DataStreamCase{Sc: genSched(t)}
	c.Ops = cutAfterEnd(dups(t, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DataOp {
		op := DataOp{genDOp(t), genFrame(t)}
		if !op.F.known() {
			op.F.Type = 8
		}
		if op.F.Type != 0x12 {
			op.F.Ctl = max(op.F.Ctl, 0)
		}
		op.F.Trunc = 0
		if op.Op == "bad" {
			op.F = Frame{Type: oneOf[byte](t, "badType", 8, 9, 10), Ctl: -1, Cs: 4}
		}
		return op
	}), 1, 12).Draw(t, "ops"), nil), func(d DataOp) DOp { return d.DOp })
	return c
}

func runDataStream(o *O, c DataStreamCase) {
	var ops []DOp
	var wantIn, wantOut []Frame
	for _, op := range c.Ops {
		ops = append(ops, op.DOp)
		switch op.Op {
		case "in":
			wantIn = append(wantIn, op.F)
		case "out":
			wantOut = append(wantOut, op.F)
		}
	}
	o.NT = len(wantIn)+len(wantOut) > 0 && len(ops) > 1
	pw := &planWriter{}
	gotIn, _ := runDuplex(o, ops, c.Sc, pw, func() duplex[data.Data] {
		feed := make(chan *chunk.Chunk)
		s := data.NewStream(feed, pw)
		return duplex[data.Data]{
			loop: s.Recv, close: s.Close, in: s.Out(), errs: s.Errs(), feed: s.Chunks(),
			chunk: func(i int) *chunk.Chunk { return c.Ops[i].F.chunk() },
			send: func(i int) {
				if ops[i].Op == "unenc" {
					if i%2 == 0 {
						f := &data.DataFrame{Header: "@setDataFrame", Type: "onMetaData", Arguments: amf0.NewArray()}
						f.Arguments.Add("k", &failAmf{err: stepFault(i, ops[i].Flt)})
						s.In() <- f
						return
					}
					s.In() <- &failData{nil, stepFault(i, ops[i].Flt)}
					return
				}
				d, err := data.DefaultParser.Parse(c.Ops[i].F.chunk())
				if err != nil {
					o.Failf("rejected", "frame %+v is rejected: %v", c.Ops[i].F, err)
					return
				}
				s.In() <- d
			},
		}
	})
	if o.Bad() {
		return
	}
	for i, d := range gotIn {
		if s := wantIn[i].diff(d); s != "" {
			o.Failf("incoming", "received frame %d: %s", i, s)
			return
		}
	}
	for i, k := range pw.keep {
		if s := wantOut[i].diffBack(k); s != "" {
			o.Failf("outgoing", "written frame %d:%s", i, s)
			return
		}
	}
}

func init() {
	Register(&Prop{ID: "C15", Together: 1500, Rounds: 2,
		Rule: "Random batches of audio, video and data messages (any header, control byte, payload; empty, truncated and unassigned ones) parsed, compared and turned back; all 256 control bytes; the codec and frame type constants; random histories of a data stream in both directions. Non-trivial: at least one well-formed frame; distinct by content.",
		Subs: []*Sub{
			Enum("control-byte", func(string) (out []int) {
				for i := 0; i < 256; i++ {
					out = append(out, i)
				}
				return
			}, runControlByte),
			Enum("constants", constChecks, runConst),
			Enum("types", func(string) (out [][]Frame) {
				for i := 0; i < 256; i++ {
					for n := -1; n < 2; n++ {
						out = append(out, []Frame{{Type: byte(i), Cs: 4, Sid: 1, Ctl: n, Name: "n", Header: "h", Args: Val{K: "arr"}, Trunc: max(0, -n)}})
					}
				}
				return
			}, runFrames),
			Rand("frames", 100000, func(t *rapid.T) []Frame {
				return dups(t, rapid.SliceOfN(rapid.Custom(genFrame), 1, 8).Draw(t, "frames"), nil)
			}, runFrames),
			Rand("stream", 30000, genDataStream, runDataStream),
			Enum("largest", func(string) (out []DataStreamCase) {
				for i, n := range hugeLens {
					c := DataStreamCase{Sc: Sched{Step: i%2 == 0, InDelay: []int{0}, ErrDelay: []int{0}}}
					for j, op := range []string{"in", "out", "in", "out", "in", "out"} {
						f := Frame{Type: []byte{8, 9, 0x12}[(i+j)%3], Cs: 4, Sid: 1, Ctl: 0x17, P: P{n - 1, uint32(n + j)}}
						if f.Type == 0x12 {
							f = hugeFrame(n)
						}
						c.Ops = append(c.Ops, DataOp{DOp{Op: op}, f})
					}
					out = append(out, c)
				}
				return
			}, func(o *O, c DataStreamCase) {
				runDataStream(o, c)
				var fs []Frame
				for _, op := range c.Ops[:3] {
					fs = append(fs, op.F)
				}
				runFrames(o, fs)
			}),
			Marathon([]DataStreamCase{{Sc: Sched{InDelay: []int{0}, ErrDelay: []int{0}}, Ops: []DataOp{
				{DOp{Op: "in"}, marathonFrames[0]}, {DOp{Op: "out"}, marathonFrames[1]}, {DOp{Op: "in"}, marathonFrames[1]}, {DOp{Op: "out"}, marathonFrames[0]},
			}}}, func(c DataStreamCase) int { return len(c.Ops) },
				func(c DataStreamCase, rep, _ int) DataStreamCase {
					c.Ops = repeatOps(c.Ops, rep, nil, func(op *DataOp, i int) { op.F.P.S += uint32(i) })
					return c
				}, runDataStream),
			RandLong("long", 500, 0, genDataStream, func(c DataStreamCase) int { return len(c.Ops) },
				func(c DataStreamCase, rep, _ int) DataStreamCase {
					c.Ops = repeatOps(c.Ops, rep, func(op DataOp) bool { return op.Op == "end" }, func(op *DataOp, i int) { op.F.P.S += uint32(i) })
					return c
				}, runDataStream),
		}})
}

// ------------------------------------------------------------------- C16

type CmdOp struct {
	DOp
	Cmd  Cmd  `json:"cmd"`
	Resp Resp `json:"resp"`
	// Again: hand over the very object of the last outgoing step again.
	Again bool `json:"again,omitempty"`
	// Hdr is the header a command arrives with.
	Hdr Route  `json:"hdr"`
	Ts  uint32 `json:"ts"`
}

type CmdCase struct {
	Ops []CmdOp `json:"ops"`
	Sc  Sched   `json:"sc"`
}

func (c CmdCase) steps() int { return len(c.Ops) }

func (c CmdCase) grow(rep, _ int) CmdCase {
	c.Ops = repeatOps(c.Ops, rep, func(op CmdOp) bool { return op.Op == "end" }, nil)
	return c
}

func (c CmdCase) split() (ops []DOp, in []Cmd, out []Resp, bad []Cmd) {
	var last *Resp
	for i, op := range c.Ops {
		ops = append(ops, op.DOp)
		r := &c.Ops[i].Resp
		if op.Again && last != nil {
			r = last
		}
		switch op.Op {
		case "in":
			in = append(in, op.Cmd)
		case "bad":
			bad = append(bad, op.Cmd)
		case "out":
			out = append(out, *r)
			last = r
		case "wfail":
			last = r
		}
	}
	return
}

func genCmdCase(cmdGen func(*rapid.T) Cmd, respGen func(*rapid.T) Resp, rt Route) func(*rapid.T) CmdCase {
	return func(t *rapid.T) CmdCase {
		c := CmdCase{Sc: genSched(t)}
		c.Ops = cutAfterEnd(dups(t, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CmdOp {
			op := CmdOp{DOp: genDOp(t), Hdr: rt}
			switch op.Op {
			case "in":
				op.Cmd = cmdGen(t)
				op.Ts = genTs(t)
			case "bad":
				op.Cmd = cmdGen(t)
				genMal(t, &op.Cmd)
			case "out", "wfail":
				op.Resp = respGen(t)
				op.Again = chance(t, "again", 20)
			case "unenc":
				op.Resp = respGen(t)
			}
			return op
		}), 1, 12).Draw(t, "ops"), nil), func(d CmdOp) DOp { return d.DOp })
		return c
	}
}

// hugeCmds are histories with the longest commands and responses.
func hugeCmds(cmd Cmd, resp func(int) Resp, rt Route) (out []CmdCase) {
	for i, n := range hugeLens {
		k := cmd
		k.Args = append([]Val(nil), cmd.Args...)
		if len(k.Args) == 0 {
			k.Obj = hugeVal("obj", n+1-len(k.payload()))
		} else {
			k.Name, k.Args = "play2", nil
			k.Args = []Val{hugeVal("obj", n-len(k.payload()))}
		}
		c := CmdCase{Sc: Sched{Step: i%2 == 0, InDelay: []int{0}, ErrDelay: []int{0}}}
		for _, op := range []string{"in", "out", "in", "out"} {
			c.Ops = append(c.Ops, CmdOp{DOp: DOp{Op: op}, Cmd: k, Resp: resp(n), Hdr: rt, Again: len(c.Ops) == 3})
		}
		out = append(out, c)
	}
	return
}

func checkResps(o *O, want []Resp, pw *planWriter) {
	for i, m := range pw.Got() {
		if s := want[i].check(m); s != "" {
			o.Failf("outgoing", "message %d: %s", i, s)
			return
		}
		if c := pw.keep[i]; int(c.Header.MessageHeader.Length) != len(c.Data) {
			o.Failf("outgoing", "message %d: header length %d for %d bytes", i, c.Header.MessageHeader.Length, len(c.Data))
			return
		}
	}
}

func runConnCase(o *O, c CmdCase) {
	ops, wantIn, wantOut, bad := c.split()
	for _, b := range bad {
		o.Class("bad-%s", b.Mal)
	}
	o.NT = len(ops) > 1
	pw := &planWriter{}
	gotIn, _ := runDuplex(o, ops, c.Sc, pw, func() duplex[conn.Receivable] {
		feed := make(chan *chunk.Chunk)
		n := conn.NewNetConnection(feed, pw)
		var last conn.Marshallable
		return duplex[conn.Receivable]{
			loop: n.Listen, close: n.Close, in: n.In(), errs: n.Errs(), feed: feed,
			chunk: func(i int) *chunk.Chunk { return c.Ops[i].Hdr.chunk(c.Ops[i].Cmd.payload(), c.Ops[i].Ts) },
			send: func(i int) {
				op := c.Ops[i]
				if op.Op == "unenc" {
					if i%2 == 0 {
						r := &conn.ConnectResponse{Properties: *amf0.NewObject(), Information: *amf0.NewObject()}
						r.Information.Add("k", &failAmf{err: stepFault(i, op.Flt)})
						n.Out() <- r
						return
					}
					n.Out() <- &failMarshal{stepFault(i, op.Flt)}
					return
				}
				if !op.Again || last == nil {
					last = op.Resp.marshallable()
				}
				n.Out() <- last
			},
		}
	})
	if o.Bad() {
		return
	}
	for i, r := range gotIn {
		o.Class("in-%s", wantIn[i].Name)
		if s := wantIn[i].diffConn(r); s != "" {
			o.Failf("incoming", "command %d: %s", i, s)
			return
		}
	}
	checkResps(o, wantOut, pw)
}

func runStreamCase(o *O, c CmdCase) {
	ops, wantIn, wantOut, bad := c.split()
	for _, b := range bad {
		o.Class("bad-%s", b.Mal)
	}
	o.NT = len(ops) > 1
	pw := &planWriter{}
	gotIn, _ := runDuplex(o, ops, c.Sc, pw, func() duplex[stream.Command] {
		feed := make(chan *chunk.Chunk)
		n := stream.New(feed, pw)
		var last *stream.Status
		return duplex[stream.Command]{
			loop: n.Listen, close: n.Close, in: n.In(), errs: n.Errs(), feed: feed,
			chunk: func(i int) *chunk.Chunk { return c.Ops[i].Hdr.chunk(c.Ops[i].Cmd.payload(), c.Ops[i].Ts) },
			send: func(i int) {
				op := c.Ops[i]
				if op.Op == "unenc" {
					s := stream.NewStatus()
					s.Arguments.Add("k", &failAmf{err: stepFault(i, op.Flt)})
					n.Status() <- s
					return
				}
				if !op.Again || last == nil {
					last = op.Resp.status()
				}
				n.Status() <- last
			},
		}
	})
	if o.Bad() {
		return
	}
	for i, r := range gotIn {
		o.Class("in-%s", wantIn[i].Name)
		if s := wantIn[i].diffStream(r); s != "" {
			o.Failf("incoming", "command %d: %s", i, s)
			return
		}
	}
	checkResps(o, wantOut, pw)
}

// runEncodings encodes responses and statuses in a row, all kept, and compares
// them at the end; then the same concurrently.
func runEncodings(o *O, rs []Resp) {
	o.NT = len(rs) > 1
	encode := func(r Resp) (*chunk.Chunk, error) {
		if r.Kind == "status" {
			return r.status().AsChunk()
		}
		return conn.NewChunker(conn.ChunkStreamId).Chunk(r.marshallable())
	}
	check := func(cs []*chunk.Chunk, how string) {
		for i, c := range cs {
			if c == nil || c.Header == nil {
				o.Failf("encode", "%d: no message", i)
				return
			}
			if s := rs[i].check(fromChunk(c)); s != "" {
				o.Failf("encode", "%s, message %d of %d: %s", how, i, len(rs), s)
				return
			}
		}
	}
	cs := make([]*chunk.Chunk, len(rs))
	for i, r := range rs {
		var err error
		if cs[i], err = encode(r); err != nil {
			o.Failf("encode", "%+v: %v", r, err)
			return
		}
	}
	check(cs, "one after the other")
	cs2 := make([]*chunk.Chunk, len(rs))
	var wg sync.WaitGroup
	for i, r := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cs2[i], _ = encode(r)
		}()
	}
	wg.Wait()
	check(cs2, "concurrently")
	check(cs, "later")
}

var _ amf0.AmfType = (*failAmf)(nil)

func init() {
	Register(&Prop{ID: "C16", Together: 1500, Rounds: 2,
		Rule: "Random histories of a net connection and of a net stream: all commands with random AMF0 arguments, truncated, unknown, mistyped and malformed ones, responses or statuses with random objects (some handed over twice), unencodable ones, failing and slow writes, end of input; in lock step or with both directions running by themselves and slow consumers; and batches of responses encoded in a row and concurrently. Non-trivial: at least two steps; distinct by content.",
		Subs: []*Sub{
			Rand("net-connection", 30000, genCmdCase(genConnCmd, genResp, Route{3, 0, 0x14}), runConnCase),
			Rand("net-stream", 30000, genCmdCase(genStreamCmd, genStatus, Route{4, 1, 0x14}), runStreamCase),
			RandLong("long-connection", 300, 0, genCmdCase(genConnCmd, genResp, Route{3, 0, 0x14}), CmdCase.steps, CmdCase.grow, runConnCase),
			RandLong("long-stream", 300, 0, genCmdCase(genStreamCmd, genStatus, Route{4, 1, 0x14}), CmdCase.steps, CmdCase.grow, runStreamCase),
			marathonCmds("marathon-connection", okConn, Resp{Kind: "createStream", Tid: Val{K: "num", N: "2"}, A: Val{K: "num", N: "1"}}, Route{3, 0, 0x14}, runConnCase),
			marathonCmds("marathon-stream", okStream, Resp{Kind: "status", A: Val{K: "obj", Keys: []string{"k"}, Elems: []Val{{K: "num", N: "1"}}}}, Route{4, 1, 0x14}, runStreamCase),
			Enum("largest-connection", func(string) []CmdCase {
				return hugeCmds(okConn, func(n int) Resp {
					r := Resp{Kind: "connect", Tid: vNum(1), A: hugeVal("obj", n/3), B: vNull()}
					r.B = hugeVal("obj", n+1-len(encVals(r.vals()...)))
					return r
				}, Route{3, 0, 0x14})
			}, runConnCase),
			Enum("largest-stream", func(string) []CmdCase {
				return hugeCmds(okStream, func(n int) Resp {
					r := Resp{Kind: "status", A: vNull()}
					r.A = hugeVal("obj", n+1-len(encVals(r.vals()...)))
					return r
				}, Route{4, 1, 0x14})
			}, runStreamCase),
			Rand("encodings", 20000, func(t *rapid.T) []Resp {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Resp { return oneOf(t, "g", genResp, genStatus)(t) }), 1, 8).Draw(t, "resps")
			}, runEncodings),
		}})
}
