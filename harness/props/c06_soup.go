package props

import (
	"bytes"
	"sync"
	"testing/synctest"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"pgregory.net/rapid"
)

// c06_soup.go: arbitrary input for the parsers above the chunk layer.

func genMediaSoup(t *rapid.T) []CtlRaw {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CtlRaw {
		c := CtlRaw{Type: oneOf[byte](t, "type", 8, 9, 0x12, 0x12, 10, rapid.Byte().Draw(t, "any"))}
		if c.Type == 0x12 && chance(t, "frame", 70) {
			f := genFrame(t)
			f.Type = 0x12
			f.Args = genVal(t, 2)
			c.Data, _ = mutate(f.data(), genMuts(t, 3))
		} else {
			c.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")
		}
		return c
	}), 1, 5).Draw(t, "raws")
}

func runMediaSoup(o *O, cs []CtlRaw) {
	o.NT = true
	for _, c := range cs {
		in := append([]byte(nil), c.Data...)
		d, err := data.DefaultParser.Parse(ctlChunk(c.Type, in))
		if err != nil {
			o.Class("error")
			continue
		}
		if d == nil {
			o.Failf("fabricated", "type %d with payload %x: neither a frame nor an error", c.Type, c.Data)
			return
		}
		o.Class("accepted-%d", c.Type)
		var ctl byte
		var p []byte
		switch d := d.(type) {
		case *data.Audio:
			ctl, p = d.Control(), d.Payload()
			d.Codec()
			d.Rate()
			d.Size()
			d.Type()
		case *data.Video:
			ctl, p = d.Control(), d.Payload()
			d.Codec()
			d.Type()
		case *data.DataFrame:
			if _, err := d.Marshal(); err != nil {
				o.Class("unencodable")
			}
			if vs, err := refDecodeVals(c.Data); err == nil && len(vs) >= 3 && vs[2].K == "arr" {
				if d.Header != vs[0].str() || d.Type != vs[1].str() || !vs[2].eq(d.Arguments) {
					o.Failf("fabricated", "data frame %x is parsed as %+v", c.Data, d)
				}
			}
			continue
		}
		if len(c.Data) == 0 || ctl != c.Data[0] || !bytes.Equal(p, c.Data[1:]) {
			o.Failf("fabricated", "type %d with payload %x has control %#x and payload %x", c.Type, c.Data, ctl, p)
			return
		}
	}
}

// SoupCmds are payloads for a net connection and a net stream.
type SoupCmds struct {
	Items []Hex `json:"items"`
	Conn  bool  `json:"conn"`
}

func genCommandSoup(t *rapid.T) SoupCmds {
	c := SoupCmds{Conn: rapid.Bool().Draw(t, "conn")}
	g := genStreamCmd
	if c.Conn {
		g = genConnCmd
	}
	for i, n := 0, genInt(t, "items", 1, 6); i < n; i++ {
		var b []byte
		switch genInt(t, "kind", 0, 4) {
		case 0:
			b = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
		case 1: // a command with random values for arguments
			k := g(t)
			vs := []Val{vStr(k.Name)}
			for j, m := 0, genInt(t, "args", 0, 5); j < m; j++ {
				vs = append(vs, genVal(t, 2))
			}
			b = encVals(vs...)
		default:
			k := g(t)
			b, _ = mutate(k.payload(), genMuts(t, 3))
		}
		c.Items = append(c.Items, nonNil(b))
	}
	return c
}

func runCommandSoup(o *O, c SoupCmds) {
	o.NT = true
	// The parsers by themselves.
	for _, b := range c.Items {
		r := bytes.NewReader(b)
		if c.Conn {
			if name, err := amf0.Decode(r); err == nil {
				if s, ok := name.(*amf0.String); ok {
					v, err := conn.DefaultParser.Parse(s, r)
					if err == nil && v == nil {
						o.Failf("fabricated", "payload %x: neither a command nor an error", b)
					}
				}
			}
		} else if v, err := stream.DefaultParser.Parse(r); err == nil && v == nil {
			o.Failf("fabricated", "payload %x: neither a command nor an error", b)
		}
	}
	// The loops: every message yields exactly one command or error.
	var mu sync.Mutex
	got, fed := 0, 0
	o.bubble(func() {
		feed := make(chan *chunk.Chunk)
		stop := make(chan struct{})
		count := func() { mu.Lock(); got++; mu.Unlock() }
		var closer func()
		if c.Conn {
			n := conn.NewNetConnection(feed, chunk.NoopWriter)
			go n.Listen()
			go pumpN(n.In(), count, stop)
			go pumpN(n.Errs(), count, stop)
			closer = n.Close
		} else {
			n := stream.New(feed, chunk.NoopWriter)
			go n.Listen()
			go pumpN(n.In(), count, stop)
			go pumpN(n.Errs(), count, stop)
			closer = n.Close
		}
		for i, b := range c.Items {
			feed <- Route{3, 0, 0x14}.chunk(b, uint32(i))
			synctest.Wait()
			fed++
			if mu.Lock(); got != fed {
				o.Failf("count", "%d messages yielded %d commands and errors", fed, got)
			}
			mu.Unlock()
		}
		closer()
		close(stop)
	})
	if !o.Bad() && fed < len(c.Items) {
		o.Failf("hang", "the loop took only %d of %d messages", fed, len(c.Items))
	}
}

func pumpN[T any](ch <-chan T, f func(), stop chan struct{}) {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
			f()
		case <-stop:
			return
		}
	}
}

func genClientSoup(t *rapid.T) Session {
	s := genSession(t)
	s.HS = HSCase{Version: 3, Flip: -1, Cut: -1, WCut: -1}
	s.Out = nil
	if len(s.In) == 0 {
		s.In = []PeerMsg{genPeerMsg(t, []byte{2, 3, 4, 5, 6})}
	}
	s.Muts = genMuts(t, 4)
	return s
}

func runClientSoup(o *O, s Session) {
	o.NT = true
	h := runSessions(o, []Session{s})[0]
	if h.hsErr != nil {
		o.Failf("handshake", "%v", h.hsErr)
		return
	}
	checkIncoming(o, s, h, h.firstBad, true)
	if n := len(h.ctls) + len(h.conns) + len(h.streams) + len(h.frames); n > 0 {
		o.Class("some-delivered")
	}
}
