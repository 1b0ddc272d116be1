package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"pgregory.net/rapid"
)

// PeerMsg is one message of the peer in a session.
type PeerMsg struct {
	// Kind: control, size (a chunk size announcement), conn, conn8, stream,
	// stream8, frame, other (on chunk stream 5: for nobody).
	Kind  string `json:"kind"`
	Fmt   byte   `json:"fmt"`
	Ts    uint32 `json:"ts"`
	Ctl   Ctl    `json:"ctl"`
	Cmd   Cmd    `json:"cmd"`
	Frame Frame  `json:"frame"`
	Size  uint32 `json:"size,omitempty"`
}

// OutMsg is one message of the session to the peer.
type OutMsg struct {
	Kind  string `json:"kind"` // control, resp, status, frame
	Pause int    `json:"pause,omitempty"`
	Ctl   Ctl    `json:"ctl"`
	Resp  Resp   `json:"resp"`
	Frame Frame  `json:"frame"`
}

// Session is a session script.
type Session struct {
	HS    HSCase    `json:"hs"`
	In    []PeerMsg `json:"in"`
	Order []byte    `json:"order"` // interleaving of the peer's chunk streams
	Out   []OutMsg  `json:"out"`
	// Cuts are where the peer's bytes are split (permille), Pauses how long
	// it waits at each.
	Cuts   []int    `json:"cuts"`
	Pauses []int    `json:"pauses"`
	Delays [4][]int `json:"delays"`
	Muts   []Mut    `json:"muts,omitempty"` // C06: spoil the peer's bytes
	// Manual: the user starts the command manager's children.
	Manual bool `json:"manual,omitempty"`
	// WCut, if not 0, is one more than the number of bytes that the peer takes
	// after the handshake. End is how the input ends once all was sent: 0 not
	// at all, 1 at its end, n with a fault.
	WCut int `json:"wcut,omitempty"`
	End  int `json:"end,omitempty"`
}

var errTaken = errors.New("the peer takes no more")

// taken are the errors that are not of writing to a peer that takes no more,
// and the number of those that are.
func taken(errs []error) (others []error, n int) {
	for _, err := range errs {
		if err != nil && containsErr(err, errTaken) {
			n++
		} else {
			others = append(others, err)
		}
	}
	return
}

func (p PeerMsg) route() Route {
	switch p.Kind {
	case "control":
		return Route{2, 0, p.Ctl.Kind}
	case "size":
		return Route{2, 0, 1}
	case "conn":
		return Route{3, 0, 0x14}
	case "conn8":
		return Route{8, 0, 0x14}
	case "stream":
		return Route{4, 1, 0x14}
	case "stream8":
		return Route{8, 1, 0x14}
	case "frame":
		return Route{4, 1, p.Frame.Type}
	}
	return Route{5, 1, 0x14}
}

func (p PeerMsg) payload() []byte {
	switch p.Kind {
	case "control":
		return p.Ctl.payload()
	case "size":
		return binary.BigEndian.AppendUint32(nil, p.Size)
	case "frame":
		return p.Frame.data()
	}
	return p.Cmd.payload()
}

// spec makes the peer's byte stream: one lane per chunk stream, each message
// with the requested format if that is legal there.
func (s *Session) spec() StreamSpec {
	sp := StreamSpec{Size: 128, Order: s.Order}
	lane := map[uint32]int{}
	for _, p := range s.In {
		r := p.route()
		i, ok := lane[r.Cs]
		if !ok {
			i = len(sp.Lanes)
			lane[r.Cs] = i
			sp.Lanes = append(sp.Lanes, Lane{Cs: r.Cs})
		}
		l := &sp.Lanes[i]
		m := SMsg{Fmt: p.Fmt & 3, Ts: p.Ts, Type: r.Type, Sid: r.Sid, Raw: nonNil(p.payload())}
		if n := len(l.Msgs); n > 0 {
			last := l.Msgs[n-1]
			if m.Fmt >= 2 && (last.Type != m.Type || len(last.Raw) != len(m.Raw)) {
				m.Fmt = 1
			}
			if m.Fmt >= 1 && last.Sid != m.Sid {
				m.Fmt = 0
			}
		}
		l.Msgs = append(l.Msgs, m)
	}
	return sp
}

// sessConn is the connection: first the handshake peer, then a script.
type sessConn struct {
	hs  *hsConn
	src *source
	cut int
	mu  sync.Mutex
	out []byte
	// reads counts reads after the handshake's bytes.
	reads int
}

func (c *sessConn) Read(p []byte) (int, error) {
	c.hs.mu.Lock()
	done := c.hs.pos >= hsTotal
	c.hs.mu.Unlock()
	if !done {
		return c.hs.Read(p)
	}
	c.mu.Lock()
	c.reads++
	c.mu.Unlock()
	return c.src.Read(p)
}

func (c *sessConn) Write(p []byte) (int, error) {
	c.hs.mu.Lock()
	done := len(c.hs.out) >= hsTotal
	c.hs.mu.Unlock()
	if !done {
		return c.hs.Write(p)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if left := c.cut - 1 - len(c.out); c.cut > 0 && left < len(p) {
		c.out = append(c.out, p[:left]...)
		return left, errTaken
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

var _ io.ReadWriter = (*sessConn)(nil)

// heard is what the consumers of a session received.
type heard struct {
	wrong                       bool // the peer's echo of the challenge was wrong
	mu                          sync.Mutex
	ctls                        []control.Control
	conns                       []conn.Receivable
	streams                     []stream.Command
	frames                      []data.Data
	ctlErrs, connErrs, strmErrs []error
	dataErrs                    []error
	hsErr                       error
	wire                        []byte
	reads                       int
	consumed                    int
	bytes                       []byte // the peer's bytes after the handshake
	enc                         *Encoded
	firstBad                    int
}

// runSessions runs sessions side by side in one bubble.
func runSessions(o *O, ss []Session) []*heard {
	hs := make([]*heard, len(ss))
	for i := range ss {
		h := &heard{}
		sp := ss[i].spec()
		h.enc = refEncode(DialectSpec, &sp)
		h.bytes, h.firstBad = h.enc.Bytes, len(h.enc.Bytes)
		if len(ss[i].Muts) > 0 {
			h.bytes, h.firstBad = mutate(h.bytes, ss[i].Muts)
		}
		hs[i] = h
	}
	o.bubble(func() {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var conns []*sessConn
		for i := range ss {
			src := newSource()
			src.bind()
			c := &sessConn{hs: newHSConn(ss[i].HS), src: src, cut: ss[i].WCut}
			conns = append(conns, c)
			wg.Add(1)
			go func() {
				defer wg.Done()
				oneSession(ss[i], hs[i], c, stop)
			}()
		}
		time.Sleep(settle)
		synctest.Wait()
		for i, c := range conns {
			c.mu.Lock()
			hs[i].wire = append([]byte(nil), c.out...)
			hs[i].reads = c.reads
			c.mu.Unlock()
			hs[i].consumed = c.src.Consumed()
			c.hs.mu.Lock()
			hs[i].wrong = c.hs.wrong
			c.hs.mu.Unlock()
		}
		close(stop)
		for _, c := range conns {
			c.src.let()
		}
	})
	return hs
}

func oneSession(s Session, h *heard, c *sessConn, stop chan struct{}) {
	cl := client.New(c)
	delay := func(k, i int) {
		if d := s.Delays[k]; len(d) > 0 {
			time.Sleep(time.Duration(d[i%len(d)]) * time.Millisecond)
		}
	}
	consume(cl.Controls().In(), &h.ctls, h, 0, delay, stop)
	consume(cl.Net().NetConn().In(), &h.conns, h, 1, delay, stop)
	consume(cl.Net().NetStream().In(), &h.streams, h, 2, delay, stop)
	consume(cl.Net().DataStream().Out(), &h.frames, h, 3, delay, stop)
	consume(cl.Controls().Errs(), &h.ctlErrs, h, 0, delay, stop)
	consume(cl.Net().NetConn().Errs(), &h.connErrs, h, 1, delay, stop)
	consume(cl.Net().NetStream().Errs(), &h.strmErrs, h, 2, delay, stop)
	consume(cl.Net().DataStream().Errs(), &h.dataErrs, h, 3, delay, stop)
	err := cl.Handshake()
	h.mu.Lock()
	h.hsErr = err
	h.mu.Unlock()
	go cl.Controls().Recv()
	dispatch(cl.Net(), s.Manual)
	// The peer.
	go func() {
		at := 0
		for i := 0; i <= len(s.Cuts); i++ {
			end := len(h.bytes)
			if i < len(s.Cuts) {
				end = max(s.Cuts[i]*len(h.bytes)/1000, at)
			}
			c.src.feed(Seg{Data: h.bytes[at:end]})
			at = end
			if len(s.Pauses) > 0 {
				time.Sleep(time.Duration(s.Pauses[i%len(s.Pauses)]) * time.Millisecond)
			}
		}
		switch {
		case s.End == 1:
			c.src.feed(Seg{Err: io.EOF})
		case s.End > 1:
			c.src.feed(Seg{Err: readFault(s.End)})
		}
	}()
	if err != nil {
		return
	}
	// The user: one goroutine per kind of message.
	for _, kind := range []string{"control", "resp", "status", "frame"} {
		go func() {
			for _, m := range s.Out {
				if m.Kind != kind {
					continue
				}
				time.Sleep(time.Duration(m.Pause) * time.Millisecond)
				switch kind {
				case "control":
					cl.Controls().Out() <- m.Ctl.control()
				case "resp":
					cl.Net().NetConn().Out() <- m.Resp.marshallable()
				case "status":
					cl.Net().NetStream().Status() <- m.Resp.status()
				case "frame":
					if d, err := data.DefaultParser.Parse(m.Frame.chunk()); err == nil {
						cl.Net().DataStream().In() <- d
					}
				}
			}
		}()
	}
}

func consume[T any](ch <-chan T, dst *[]T, h *heard, k int, delay func(int, int), stop chan struct{}) {
	go func() {
		for i := 0; ; i++ {
			select {
			case x, ok := <-ch:
				if !ok {
					return
				}
				h.mu.Lock()
				*dst = append(*dst, x)
				h.mu.Unlock()
				delay(k, i)
			case <-stop:
				return
			}
		}
	}()
}

// interleaves tells whether n received items are an interleaving of a and b
// items (each in order), or, with others set, of those and any others.
func interleaves(n, a, b int, others bool, eqA, eqB func(k, i int) bool) bool {
	if !others && n != a+b || n < a+b {
		return false
	}
	// reach[i][j]: i items of a and j of b are among the first k received.
	reach := map[[2]int]bool{{}: true}
	for k := 0; k < n; k++ {
		next := map[[2]int]bool{}
		for s := range reach {
			if others {
				next[s] = true
			}
			if s[0] < a && eqA(k, s[0]) {
				next[[2]int{s[0] + 1, s[1]}] = true
			}
			if s[1] < b && eqB(k, s[1]) {
				next[[2]int{s[0], s[1] + 1}] = true
			}
		}
		reach = next
	}
	return reach[[2]int{a, b}]
}

// checkIncoming compares what the consumers received with what the peer sent.
// With atLeast set, there may be others among them.
func checkIncoming(o *O, s Session, h *heard, upTo int, atLeast bool) {
	// Completion order per chunk stream is the order of sending.
	var ctls []Ctl
	var conn3, conn8, strm4, strm8 []Cmd
	var frames []Frame
	nErr := map[string]int{}
	done := map[uint32]int{}
	for _, x := range h.enc.Sent {
		if x.End <= upTo {
			done[x.Cs]++
		}
	}
	for _, p := range s.In {
		cs := p.route().Cs
		if done[cs] == 0 {
			continue
		}
		done[cs]--
		if p.Cmd.Mal != "" && p.Kind != "other" {
			nErr[p.Kind[:4]]++
			continue
		}
		switch p.Kind {
		case "control":
			ctls = append(ctls, p.Ctl)
		case "conn":
			conn3 = append(conn3, p.Cmd)
		case "conn8":
			conn8 = append(conn8, p.Cmd)
		case "stream":
			strm4 = append(strm4, p.Cmd)
		case "stream8":
			strm8 = append(strm8, p.Cmd)
		case "frame":
			frames = append(frames, p.Frame)
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	ctlErrs, _ := taken(h.ctlErrs)
	connErrs, _ := taken(h.connErrs)
	strmErrs, _ := taken(h.strmErrs)
	dataErrs, _ := taken(h.dataErrs)
	few := func(what string, got, want int) bool {
		if got < want || got > want && !atLeast {
			o.Failf("incoming", "%d %s received, the peer sent %d (errors: control %v, net connection %v, net stream %v, data %v)", got, what, want, h.ctlErrs, h.connErrs, h.strmErrs, h.dataErrs)
			return true
		}
		return false
	}
	if few("control messages", len(h.ctls), len(ctls)) || few("net connection commands", len(h.conns), len(conn3)+len(conn8)) || few("net stream commands", len(h.streams), len(strm4)+len(strm8)) || few("frames", len(h.frames), len(frames)) {
		return
	}
	if few("control errors", len(ctlErrs), 0) || few("net connection errors", len(connErrs), nErr["conn"]) || few("net stream errors", len(strmErrs), nErr["stre"]) || few("data errors", len(dataErrs), 0) {
		return
	}
	for i, k := range ctls {
		if d := k.diff(h.ctls[i]); d != "" {
			o.Failf("incoming", "control message %d: %s", i, d)
			return
		}
	}
	if !interleaves(len(h.frames), len(frames), 0, atLeast,
		func(k, i int) bool { return frames[i].diff(h.frames[k]) == "" }, nil) {
		d := ""
		for i := 0; d == "" && i < len(frames); i++ {
			d = frames[i].diff(h.frames[i])
		}
		o.Failf("incoming", "the data stream did not receive, in order, the frames sent: %s", d)
		return
	}
	if !interleaves(len(h.conns), len(conn3), len(conn8), atLeast,
		func(k, i int) bool { return conn3[i].diffConn(h.conns[k]) == "" },
		func(k, i int) bool { return conn8[i].diffConn(h.conns[k]) == "" }) {
		o.Failf("incoming", "the net connection did not receive, in order, what was sent on chunk streams 3 and 8: got %s, sent %+v and %+v", showAll(h.conns), conn3, conn8)
	}
	if !interleaves(len(h.streams), len(strm4), len(strm8), atLeast,
		func(k, i int) bool { return strm4[i].diffStream(h.streams[k]) == "" },
		func(k, i int) bool { return strm8[i].diffStream(h.streams[k]) == "" }) {
		o.Failf("incoming", "the net stream did not receive, in order, what was sent on chunk streams 4 and 8: got %s, sent %+v and %+v", showAll(h.streams), strm4, strm8)
	}
}

func showAll[T any](xs []T) string {
	s := ""
	for _, x := range xs {
		s += fmt.Sprintf(" %T%+v", x, x)
	}
	return clip(s, 1500)
}

// checkWire decodes what the peer received, as a peer that knows nothing but
// what it was told, and compares it with what was sent.
func checkWire(o *O, s Session, h *heard) {
	sent, err := refDecode(DialectSpec, h.wire, 128)
	if err != nil && s.WCut == 0 {
		o.Failf("wire", "the peer cannot decode what was sent to it (after %d messages): %v", len(sent), err)
		return
	}
	want := map[string][]OutMsg{}
	sizes := 0
	for _, m := range s.Out {
		if m.Kind == "control" && m.Ctl.Kind == 1 {
			sizes++
			continue
		}
		want[m.Kind] = append(want[m.Kind], m)
	}
	for _, x := range sent {
		if x.Cs == 2 && x.Type == 1 {
			// The announcement of the write size.
			sizes--
			continue
		}
		kind := "frame"
		switch {
		case x.Cs == 2:
			kind = "control"
		case x.Cs == 3:
			kind = "resp"
		case x.Cs == 5:
			kind = "status"
		}
		if len(want[kind]) == 0 {
			o.Failf("wire", "the peer received a message on chunk stream %d, type %#x, that was not sent", x.Cs, x.Type)
			return
		}
		m := want[kind][0]
		want[kind] = want[kind][1:]
		bad := ""
		switch kind {
		case "control":
			if x.Sid != 0 || x.Type != m.Ctl.Kind || !bytes.Equal(x.Data, m.Ctl.payload()) {
				bad = fmt.Sprintf("received type %d, payload %x for %+v", x.Type, x.Data, m.Ctl)
			}
		case "frame":
			m.Frame.Extra = nil
			w := m.Frame.msg()
			g := x.M
			if m.Frame.Type == 0x12 {
				w.Cs, w.Sid, w.Ts = 4, 1, 0
				g.Ts = 0
			}
			bad = diffM(&g, &w)
		default:
			bad = m.Resp.check(x.M)
		}
		if bad != "" {
			o.Failf("wire", "%s: %s", kind, bad)
			return
		}
	}
	if s.WCut > 0 {
		// What did not reach the peer was reported where it was sent.
		h.mu.Lock()
		defer h.mu.Unlock()
		for k, errs := range map[string][]error{"control": h.ctlErrs, "resp": h.connErrs, "status": h.strmErrs, "frame": h.dataErrs} {
			left := len(want[k])
			if k == "control" {
				// The handshake has announced one more.
				left += sizes + 1
			}
			if _, n := taken(errs); n != left {
				o.Failf("unreported", "%d messages of kind %s did not reach the peer, which took %d bytes, %d errors say so", left, k, s.WCut-1, n)
				return
			}
		}
		return
	}
	for k, w := range want {
		if len(w) > 0 {
			o.Failf("wire", "%d messages of kind %s did not reach the peer", len(w), k)
			return
		}
	}
}

func runC17(o *O, ss []Session) {
	hs := runSessions(o, ss)
	for i, s := range ss {
		h := hs[i]
		ok, _, _ := s.HS.expect(h.wrong)
		if ok && s.WCut > 0 {
			// The handshake ends with an announcement.
			o.Class("write-fault")
			sent, _ := refDecode(DialectSpec, h.wire, 128)
			if ok = len(sent) > 0; !ok {
				h.wire = nil
			}
		}
		checkHSResult(o, s, h, ok)
		if o.Bad() {
			return
		}
		if !ok {
			o.Class("failed-handshake")
			o.NT = true
			continue
		}
		if len(s.In)+len(s.Out) > 1 {
			o.NT = true
		}
		for _, p := range s.In {
			o.Class("in-%s", p.Kind)
		}
		for _, p := range s.Out {
			o.Class("out-%s", p.Kind)
		}
		checkIncoming(o, s, h, len(h.bytes), false)
		if o.Bad() {
			return
		}
		checkWire(o, s, h)
		if o.Bad() {
			return
		}
	}
	if len(ss) > 1 {
		o.Class("side-by-side")
	}
}

func checkHSResult(o *O, s Session, h *heard, ok bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if (h.hsErr == nil) != ok {
		o.Failf("handshake", "handshake result %v, want success: %v", h.hsErr, ok)
		return
	}
	if !ok && (h.reads > 0 || len(h.ctls)+len(h.conns)+len(h.streams)+len(h.frames) > 0 || len(h.wire) > 0) {
		o.Failf("handshake", "after a failed handshake (%v) there were %d reads and %d bytes written", h.hsErr, h.reads, len(h.wire))
	}
}

func genPeerMsg(t *rapid.T, ctlKinds []byte) PeerMsg {
	p := PeerMsg{Kind: oneOf(t, "peer", "control", "conn", "conn8", "stream", "stream8", "frame", "frame", "other", "size"), Fmt: byte(genInt(t, "fmt", 0, 3)), Ts: genTs(t)}
	switch p.Kind {
	case "control":
		p.Ctl = genCtl(t)
		p.Ctl.Kind = oneOf(t, "ctlKind", ctlKinds...)
		if p.Ctl.Kind != 4 {
			p.Ctl.Body = nil
		} else {
			p.Ctl.V &= 0xffff
		}
		if p.Ctl.Kind != 6 {
			p.Ctl.L = 0
		}
	case "conn", "conn8":
		p.Cmd = genConnCmd(t)
	case "stream", "stream8":
		p.Cmd = genStreamCmd(t)
	case "frame":
		p.Frame = genSessionFrame(t)
	case "other":
		p.Cmd = genStreamCmd(t)
	case "size":
		p.Size = uint32(genSize(t))
	}
	if (p.Kind[:4] == "conn" || p.Kind[:4] == "stre") && chance(t, "malformed", 10) {
		genMal(t, &p.Cmd)
	}
	return p
}

func genSessionFrame(t *rapid.T) Frame {
	f := genFrame(t)
	if !f.known() {
		f.Type = 9
	}
	f.Trunc, f.Ctl, f.Fmt = 0, max(f.Ctl, 0), 0
	f.Cs, f.Sid = 4, 1
	if f.Type != 0x12 && chance(t, "big", 10) {
		f.P.N = oneOf(t, "bigN", 127, 128, 4094, 4095, 4096, 9000)
	}
	return f
}

func genSession(t *rapid.T) Session {
	s := Session{HS: HSCase{Version: 3, Flip: -1, Cut: -1, WCut: -1, C1: rapid.Uint32().Draw(t, "c1"), T1: genU32(t, "t1")}}
	if chance(t, "badHandshake", 12) {
		s.HS = genHS(t)
		s.HS.Supports = 0
		s.HS.Trail, s.HS.DataEOF = 0, false
	}
	s.HS.Slow = genSlow(t)
	s.In = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PeerMsg { return genPeerMsg(t, []byte{2, 3, 4, 5, 6}) }), 0, 12).Draw(t, "in")
	s.In = dups(t, s.In, nil)
	s.Order = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "order")
	s.Out = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) OutMsg {
		m := OutMsg{Kind: oneOf(t, "out", "control", "resp", "status", "frame"), Pause: genPause(t, "pause")}
		switch m.Kind {
		case "control":
			m.Ctl = genCtl(t)
			if m.Ctl.Kind == 1 {
				m.Ctl.V = 4096
			}
		case "resp":
			m.Resp = genResp(t)
		case "status":
			m.Resp = genStatus(t)
		case "frame":
			m.Frame = genSessionFrame(t)
		}
		return m
	}), 0, 10).Draw(t, "outs")
	s.Out = dups(t, s.Out, nil)
	s.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 5).Draw(t, "cuts")
	s.Pauses = genDelays(t)
	s.Manual = chance(t, "manual", 20)
	for i := range s.Delays {
		s.Delays[i] = genDelays(t)
	}
	return s
}

// genEndingSession draws a session that may end.
func genEndingSession(t *rapid.T) Session {
	s := genSession(t)
	if chance(t, "ends", 30) {
		s.End = oneOf(t, "end", 1, 1, 5, 9, 17)
	}
	if chance(t, "writeFault", 15) {
		s.WCut = 1 + oneOf(t, "taken", 0, 1, 15, 16, 17, genInt(t, "few", 0, 60), genInt(t, "more", 0, 700), genInt(t, "many", 0, 9000))
	}
	return s
}

// runAnnounce: a chunk size other than the client's own is announced to the
// peer, and more is sent.
func runAnnounce(o *O, c AnnounceCase) {
	s := Session{HS: HSCase{Version: 3, Flip: -1, Cut: -1, WCut: -1}, Out: []OutMsg{
		{Kind: "control", Ctl: Ctl{Kind: 1, V: c.Size}},
		{Kind: "status", Pause: 1000, Resp: Resp{Kind: "status", A: Val{K: "obj", Keys: []string{"k"}, Elems: []Val{{K: "str", Fill: c.Len}}}}},
	}}
	o.NT = true
	h := runSessions(o, []Session{s})[0]
	checkHSResult(o, s, h, true)
	if o.Bad() {
		return
	}
	var o2 O
	checkWire(&o2, s, h)
	if !o2.Bad() {
		return
	}
	// The listed deviation: the announcement goes out, but the client keeps
	// writing with its own size.
	at := bytes.Index(h.wire, append([]byte{0, 0, 4, 1, 0, 0, 0, 0}, binary.BigEndian.AppendUint32(nil, c.Size)...))
	if at >= 0 {
		sent, err := refDecode(DialectSpec, h.wire[at+12:], 4096)
		if err == nil && len(sent) == 1 && s.Out[1].Resp.check(sent[0].M) == "" {
			o.KnownFinding("client-announcement")
			return
		}
	}
	o.Failf(o2.Fail, "%s", o2.Detail)
}

type AnnounceCase struct {
	Size uint32 `json:"size"`
	Len  int    `json:"len"`
}

func init() {
	Register(&Prop{ID: "C17", Together: 500, Rounds: 2,
		Rule: "Random session scripts, one or two side by side: handshake (sometimes failing), interleaved and compressed chunk streams of control messages, announcements, commands (some malformed), frames and messages for nobody from the peer, split and delayed at random; control messages, responses, statuses and frames to the peer, from one goroutine per kind with pauses; slow consumers; inputs that end and peers that take no more from some byte on. Non-trivial: a failed handshake or at least two messages; distinct by content.",
		Subs: []*Sub{
			Enum("announcement", func(string) (out []AnnounceCase) {
				for _, size := range []uint32{64, 128, 1000, 4096, 5000} {
					for _, n := range []int{30, 500, 6000} {
						out = append(out, AnnounceCase{size, n})
					}
				}
				return
			}, runAnnounce),
			Rand("session", 20000, func(t *rapid.T) []Session {
				return rapid.SliceOfN(rapid.Custom(genEndingSession), 1, oneOf(t, "atMost", 1, 2, 2, 4)).Draw(t, "sessions")
			}, runC17),
			Rand("huge", 1000, func(t *rapid.T) []Session {
				s := genSession(t)
				big := func(f *Frame) {
					if f.Type != 0x12 && chance(t, "huge", 50) {
						f.P.N = genHuge(t) / 4
					}
				}
				for i := range s.In {
					big(&s.In[i].Frame)
				}
				for i := range s.Out {
					big(&s.Out[i].Frame)
				}
				return []Session{s}
			}, runC17),
			Marathon([][]Session{{{HS: HSCase{Version: 3, Flip: -1, Cut: -1, WCut: -1}, In: []PeerMsg{
				{Kind: "control", Ctl: marathonCtls[0]}, {Kind: "conn", Cmd: okConn}, {Kind: "frame", Frame: marathonFrames[0]}, {Kind: "stream", Cmd: okStream},
			}, Out: []OutMsg{
				{Kind: "control", Ctl: marathonCtls[1]}, {Kind: "frame", Frame: marathonFrames[1]},
			}}}}, func(c []Session) int { return len(c[0].In) + len(c[0].Out) },
				func(c []Session, rep, _ int) []Session {
					s := c[0]
					s.In = repeatOps(s.In, rep, nil, func(m *PeerMsg, i int) { m.Frame.P.S += uint32(i) })
					s.Out = repeatOps(s.Out, rep, nil, func(m *OutMsg, i int) { m.Frame.P.S += uint32(i) })
					return []Session{s}
				}, runC17),
			RandLong("long", 200, 0, func(t *rapid.T) []Session { return []Session{genSession(t)} },
				func(c []Session) int { return len(c[0].In) + len(c[0].Out) },
				func(c []Session, rep, _ int) []Session {
					s := c[0]
					s.In = repeatOps(s.In, rep, nil, func(m *PeerMsg, i int) { m.Frame.P.S += uint32(i) })
					s.Out = repeatOps(s.Out, rep, nil, func(m *OutMsg, i int) { m.Frame.P.S += uint32(i) })
					s.Order = repeatOps(s.Order, rep, nil, nil)
					return []Session{s}
				}, runC17),
		}})
}
