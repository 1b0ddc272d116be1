package props

import (
	"bytes"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"pgregory.net/rapid"
)

// c19.go: mixes of concurrent operations, run in workers built with the race
// detector. It reports two accesses without an order between them whether or
// not they met in this run, so the harness itself must not order them: the
// goroutines start together, keep their notes to themselves, and are collected
// only at the end.

// Mix is what several goroutines do at the same time.
type Mix struct {
	Size int `json:"size"`
	// Actors hold per goroutine what it does, by the numbers of operations.
	Actors [][]MixOp `json:"actors"`
	// Msgs is how many messages there are.
	Msgs int  `json:"msgs"`
	Len  int  `json:"len"`
	Stop bool `json:"stop"` // closed in the middle
}

// MixOp is an operation with an argument, after some yields.
type MixOp struct {
	Op    int `json:"op"`
	Arg   int `json:"arg"`
	Yield int `json:"yield"`
}

func genMix(ops int) func(*rapid.T) Mix {
	return func(t *rapid.T) Mix {
		op := rapid.Custom(func(t *rapid.T) MixOp {
			return MixOp{genInt(t, "op", 0, ops-1), genInt(t, "arg", 0, 7), genInt(t, "yield", 0, 5)}
		})
		return Mix{Size: genInt(t, "size", 1, 300),
			Actors: rapid.SliceOfN(rapid.SliceOfN(op, 1, 8), 2, 5).Draw(t, "actors"),
			Msgs:   genInt(t, "msgs", 1, 8), Len: genInt(t, "len", 0, 400), Stop: rapid.Bool().Draw(t, "stop")}
	}
}

// run calls each for every actor at the same time and waits for all of them.
func (m Mix) run(each func(i int, op MixOp)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, ops := range m.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range ops {
				for range op.Yield {
					runtime.Gosched()
				}
				each(i, op)
			}
		}()
	}
	close(start)
	wg.Wait()
}

// classes books what the mix holds.
func (m Mix) classes(o *O, names ...string) {
	kinds := map[int]int{}
	for _, a := range m.Actors {
		seen := map[int]bool{}
		for _, op := range a {
			if !seen[op.Op] {
				kinds[op.Op]++
			}
			seen[op.Op] = true
		}
	}
	for k, n := range kinds {
		o.Class("%s", names[k])
		if n > 1 {
			o.Class("%s-twice", names[k])
		}
	}
	o.NT = true
}

// sizes that do not change how the messages are cut into chunks.
func (m Mix) wide(i int) int { return 1000 + 13*i }

func (m Mix) isWide(s int) bool {
	for i := range 8 {
		if s == m.wide(i) {
			return true
		}
	}
	return false
}

// runReaderMix: a reader receives while others set and query its size.
func runReaderMix(o *O, m Mix) {
	m.classes(o, "query", "set", "close")
	sp := StreamSpec{Size: m.wide(0), Lanes: []Lane{{Cs: 4}, {Cs: 70}, {Cs: 2}}}
	for i := range m.Msgs {
		l := &sp.Lanes[i%2]
		l.Msgs = append(l.Msgs, SMsg{Ts: uint32(i), Type: 9, Sid: 1, P: P{m.Len, uint32(i)}})
		if i%3 == 1 {
			w := m.wide(i % 8)
			l := &sp.Lanes[2]
			l.Msgs = append(l.Msgs, SMsg{Type: 1, Raw: Hex{0, 0, byte(w >> 8), byte(w)}})
		}
		sp.Order = append(sp.Order, byte(i*7))
	}
	e := refEncode(dialect(), &sp)
	var msgs []*chunk.Chunk
	errs := 0
	closed := false
	o.bubble(func() {
		src := newSource(segment(e.Bytes, []int{len(e.Bytes) / 3, len(e.Bytes) / 2}, nil)...)
		src.bind()
		r := chunk.NewReader(src, m.wide(0), chunk.NewNormalizer())
		stop, recvDone, taken := make(chan struct{}), make(chan struct{}), make(chan struct{})
		go func() {
			r.Recv()
			close(recvDone)
		}()
		go func() {
			defer close(taken)
			for {
				select {
				case c := <-r.Chunks():
					if c != nil {
						if len(msgs)%2 == 1 {
							c = consumed(c)
						}
						msgs = append(msgs, c)
					}
				case <-r.Errs():
					errs++
				case <-recvDone:
					return
				case <-stop:
					return
				}
			}
		}()
		var once sync.Once
		m.run(func(_ int, op MixOp) {
			switch op.Op {
			case 0:
				if s := r.ReadSize(); !m.isWide(s) {
					o.Failf("value", "the chunk size reads %d, which was never set", s)
				}
			case 1:
				r.SetReadSize(m.wide(op.Arg))
			case 2:
				if m.Stop {
					once.Do(func() { go r.Close() })
				}
			}
		})
		synctest.Wait()
		once.Do(func() {})
		if s := r.ReadSize(); !m.isWide(s) {
			o.Failf("value", "the chunk size reads %d, which was never set", s)
		}
		close(stop)
		<-taken
		for _, a := range m.Actors {
			for _, op := range a {
				closed = closed || m.Stop && op.Op == 2
			}
		}
		shutReader(src, r, recvDone)
	})
	if o.Bad() || closed {
		return
	}
	if errs > 0 {
		o.Failf("errors", "%d errors from a healthy source", errs)
		return
	}
	checkMsgs(o, "read", msgs, visible(e.Messages()))
}

// plainDest is a destination that does its own locking, as a connection does.
type plainDest struct {
	mu sync.Mutex
	b  []byte
}

func (d *plainDest) Write(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.b = append(d.b, p...)
	return len(p), nil
}

// runWriterMix: messages are written while others set and query the size.
func runWriterMix(o *O, m Mix) {
	m.classes(o, "query", "set", "write", "write-long")
	d := &plainDest{}
	long := false
	counts := make([]int, len(m.Actors))
	wrote := make([][]M, len(m.Actors))
	o.bubble(func() {
		w := chunk.NewWriter(d, m.wide(0))
		m.run(func(i int, op MixOp) {
			switch op.Op {
			case 0:
				if s := w.WriteSize(); !m.isWide(s) {
					o.Failf("value", "the chunk size reads %d, which was never set", s)
				}
			case 1:
				w.SetWriteSize(m.wide(op.Arg))
			default:
				n := m.Len
				if op.Op == 3 {
					n += 5000
				}
				x := M{Cs: uint32(10 + i), Ts: uint32(counts[i]), Type: 9, Sid: 1, Data: P{n, uint32(i)}.Data()}
				counts[i]++
				wrote[i] = append(wrote[i], x)
				if err := w.Write(toChunk(&x, 0)); err != nil {
					o.Failf("errors", "writing: %v", err)
				}
			}
		})
	})
	for _, a := range m.Actors {
		for _, op := range a {
			long = long || op.Op == 3
		}
	}
	if o.Bad() || long {
		// Where a long message is cut depends on the schedule.
		return
	}
	sent, err := refDecode(dialect(), d.b, 100000)
	if err != nil {
		o.Failf("wire", "the bytes written do not decode: %v", err)
		return
	}
	at := make([]int, len(m.Actors))
	for _, s := range sent {
		i := int(s.M.Cs) - 10
		if i < 0 || i >= len(at) || at[i] >= len(wrote[i]) {
			o.Failf("wire", "a message on chunk stream %d too many", s.M.Cs)
			return
		}
		if x := diffM(&s.M, &wrote[i][at[i]]); x != "" {
			o.Failf("wire", "message %d of goroutine %d: %s", at[i], i, x)
			return
		}
		at[i]++
	}
	for i, n := range at {
		if n != len(wrote[i]) {
			o.Failf("wire", "%d of %d messages of goroutine %d were written", n, len(wrote[i]), i)
		}
	}
}

// runBroadcast: several writers write the same messages at the same time, each
// to a destination of its own, as a server that relays a stream does.
func runBroadcast(o *O, m Mix) {
	m.classes(o, "message", "header")
	var chunks []*chunk.Chunk
	var msgs []M
	for i := range m.Msgs {
		x := M{Cs: uint32(4 + 61*i), Ts: uint32(i) * 0x500000, Type: 9, Sid: 1, Data: P{m.Len, uint32(i)}.Data()}
		msgs = append(msgs, x)
		chunks = append(chunks, toChunk(&x, 0))
	}
	dests := make([]plainDest, len(m.Actors))
	wrote := make([][]int, len(m.Actors))
	o.bubble(func() {
		var ws []chunk.Writer
		for i := range dests {
			ws = append(ws, chunk.NewWriter(&dests[i], m.Size+i))
		}
		m.run(func(i int, op MixOp) {
			k := op.Arg % len(chunks)
			if op.Op == 1 {
				got := fromChunk(chunks[k])
				if d := diffM(&got, &msgs[k]); d != "" {
					o.Failf("value", "message %d changed while it is being written:%s", k, d)
				}
				return
			}
			wrote[i] = append(wrote[i], k)
			if err := ws[i].Write(chunks[k]); err != nil {
				o.Failf("errors", "writing: %v", err)
			}
		})
	})
	for i := range dests {
		if o.Bad() {
			return
		}
		sent, err := refDecode(dialect(), dests[i].b, m.Size+i)
		if err != nil || len(sent) != len(wrote[i]) {
			o.Failf("wire", "writer %d wrote %d messages, but they decode as %d: %v", i, len(wrote[i]), len(sent), err)
			return
		}
		for j, s := range sent {
			if d := diffM(&s.M, &msgs[wrote[i][j]]); d != "" {
				o.Failf("wire", "message %d of writer %d:%s", j, i, d)
			}
		}
	}
}

// runBuilderMix: parts are appended while others query and change what is left.
func runBuilderMix(o *O, m Mix) {
	m.classes(o, "append", "query", "add-left", "read", "build")
	total := 1 << 14
	h := toChunk(&M{Cs: 5, Type: 9, Sid: 1, Data: make([]byte, total)}, 0).Header
	b := chunk.NewBuilder(h)
	// Every goroutine appends parts of its own kind of byte.
	appended := make([]int, len(m.Actors))
	added := make([]int, len(m.Actors))
	o.bubble(func() {
		m.run(func(i int, op MixOp) {
			part := bytes.Repeat([]byte{byte(i + 1)}, op.Arg+1)
			switch op.Op {
			case 0:
				if n, err := b.Append(part); n != len(part) || err != nil {
					o.Failf("append", "appending %d bytes gives %d, %v", len(part), n, err)
				}
				appended[i] += len(part)
			case 1:
				if n := b.BytesLeft(); n < total-5*8*8 || n > total+5*8*8 {
					o.Failf("value", "%d bytes left of %d", n, total)
				}
			case 2:
				b.AddLeft(op.Arg)
				added[i] += op.Arg
			case 3:
				if n, err := b.Read(bytes.NewReader(part), len(part)); n != len(part) || err != nil {
					o.Failf("append", "reading %d bytes gives %d, %v", len(part), n, err)
				}
				appended[i] += len(part)
			case 4:
				b.Build()
			}
		})
	})
	if o.Bad() {
		return
	}
	left := total
	count := map[byte]int{}
	for _, x := range b.Build().Data {
		count[x]++
	}
	n := 0
	for i := range appended {
		left += added[i] - appended[i]
		n += appended[i]
		if count[byte(i+1)] != appended[i] {
			o.Failf("lost", "%d of the %d bytes goroutine %d appended were built", count[byte(i+1)], appended[i], i)
		}
	}
	if got := len(b.Build().Data); got != n {
		o.Failf("lost", "%d bytes were built, %d appended", got, n)
	}
	if got := b.BytesLeft(); got != left {
		o.Failf("value", "%d bytes are left, want %d", got, left)
	}
}

// runParserMix: a demultiplexer receives while others subscribe and consume.
func runParserMix(o *O, m Mix) {
	m.classes(o, "subscribe", "group", "again", "close")
	ids := []uint32{2, 3, 4, 5, 64, 65, 300, 301}
	sp := StreamSpec{Size: 4096}
	for k, id := range ids {
		l := Lane{Cs: id}
		for i := range m.Msgs {
			l.Msgs = append(l.Msgs, SMsg{Ts: uint32(i), Type: 9, Sid: 1, P: P{m.Len % 50, uint32(k)}})
		}
		sp.Lanes = append(sp.Lanes, l)
	}
	for i := range m.Msgs * 8 {
		sp.Order = append(sp.Order, byte(i*13))
	}
	e := refEncode(dialect(), &sp)
	var total, bad atomic.Int64
	closed := false
	o.bubble(func() {
		src := newSource(Seg{Data: e.Bytes})
		src.bind()
		p := chunk.NewParser(chunk.NewReader(src, 4096, chunk.NewNormalizer()))
		stop := make(chan struct{})
		var mu sync.Mutex
		streams := map[uint32]<-chan *chunk.Chunk{}
		consume := func(s chunk.Stream, of ...uint32) {
			go func() {
				for {
					select {
					case c, ok := <-s.In():
						if !ok {
							return
						}
						total.Add(1)
						mine := false
						for _, id := range of {
							mine = mine || c.StreamId() == id
						}
						if !mine {
							bad.Add(1)
						}
					case <-stop:
						return
					}
				}
			}()
		}
		recvDone := make(chan struct{})
		go func() {
			p.Recv()
			close(recvDone)
		}()
		go func() {
			for {
				select {
				case <-p.Errs():
				case <-stop:
					return
				case <-recvDone:
					return
				}
			}
		}()
		var once sync.Once
		m.run(func(_ int, op MixOp) {
			id := ids[op.Arg]
			switch op.Op {
			case 0, 2:
				s, err := p.Stream(id)
				if err != nil {
					o.Failf("subscribe", "subscribing %d: %v", id, err)
					return
				}
				consume(s, id)
				mu.Lock()
				if was := streams[id]; was != nil && was != s.In() {
					o.Failf("subscribe", "subscribing %d gives different streams", id)
				}
				streams[id] = s.In()
				mu.Unlock()
			case 1:
				of := []uint32{id, ids[(op.Arg+1)%len(ids)]}
				if s, err := p.Stream(of...); err == nil {
					consume(s, of...)
				}
			case 3:
				if m.Stop {
					once.Do(func() { go p.Close() })
				}
			}
		})
		for _, a := range m.Actors {
			for _, op := range a {
				closed = closed || m.Stop && op.Op == 3
			}
		}
		if !closed {
			for _, id := range ids {
				s, _ := p.Stream(id)
				consume(s, id)
			}
			synctest.Wait()
		}
		src.let()
		once.Do(func() { go p.Close() })
		synctest.Wait()
		close(stop)
	})
	if bad.Load() > 0 {
		o.Failf("misrouted", "%d messages reached the subscriber of another chunk stream", bad.Load())
	}
	if n := int(total.Load()); n > m.Msgs*len(ids) || !closed && n < m.Msgs*len(ids) {
		o.Failf("lost", "%d messages reached subscribers, %d were sent (closed: %v)", n, m.Msgs*len(ids), closed)
	}
}

// runControlMix: several goroutines send on one control stream, others
// receive, while messages come in; then it is closed.
func runControlMix(o *O, m Mix) {
	m.classes(o, "send", "receive", "errors", "set-size", "query-size")
	d := &plainDest{}
	var got, sent, errs, ins atomic.Int64
	o.bubble(func() {
		w := chunk.NewWriter(d, m.wide(0))
		chunks := make(chan *chunk.Chunk)
		s := control.NewStream(chanStream(chunks), w, control.NewParser(), control.NewChunker())
		done := make(chan struct{})
		go func() {
			s.Recv()
			close(done)
		}()
		fed := make(chan struct{})
		go func() {
			defer close(fed)
			for i := range m.Msgs {
				k := Ctl{Kind: 3, V: uint32(i)}
				if i%4 == 3 {
					k.Kind = 99
				}
				c := ctlChunk(k.Kind, []byte{0, 0, 0, byte(i)})
				ins.Add(1)
				chunks <- c
			}
		}()
		stop := make(chan struct{})
		var bg sync.WaitGroup
		recv := func() {
			defer bg.Done()
			for {
				select {
				case c, ok := <-s.In():
					if !ok {
						return
					}
					if a, isAck := c.(*control.Acknowledgement); !isAck || a.SequenceNumber >= uint32(m.Msgs) {
						o.Failf("value", "received %#v, which was not sent", c)
					}
					got.Add(1)
				case _, ok := <-s.Errs():
					if !ok {
						return
					}
					errs.Add(1)
				case <-stop:
					return
				}
			}
		}
		bg.Add(1)
		go recv()
		m.run(func(i int, op MixOp) {
			switch op.Op {
			case 0:
				s.Out() <- &control.Acknowledgement{SequenceNumber: uint32(1000*(i+1) + op.Arg)}
				sent.Add(1)
			case 1, 2:
				bg.Add(1)
				go recv()
			case 3:
				w.SetWriteSize(m.wide(op.Arg))
			case 4:
				if s := w.WriteSize(); !m.isWide(s) {
					o.Failf("value", "the chunk size reads %d, which was never set", s)
				}
			}
		})
		<-fed
		synctest.Wait()
		s.Close()
		<-done
		close(stop)
		bg.Wait()
	})
	if got.Load()+errs.Load() != ins.Load() {
		o.Failf("lost", "%d messages came in, %d were received and %d reported", ins.Load(), got.Load(), errs.Load())
	}
	out, err := refDecode(dialect(), d.b, 100000)
	if err != nil || len(out) != int(sent.Load()) {
		o.Failf("lost", "%d messages were sent, %d are on the wire (%v)", sent.Load(), len(out), err)
	}
}

// runNormalizerMix: headers of one stream are completed while others ask for
// the last ones.
func runNormalizerMix(o *O, m Mix) {
	m.classes(o, "last", "header", "store", "set-last")
	o.bubble(func() {
		n, ok := chunk.NewNormalizer().(interface {
			chunk.Normalizer
			Last() *chunk.Header
			SetLast(*chunk.Header)
			Header(uint32) *chunk.Header
			StoreHeader(*chunk.Header)
		})
		if !ok {
			return
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := range m.Msgs * 2 {
				h := &chunk.Header{}
				h.BasicHeader.StreamId = uint32(5 + i%2)
				h.BasicHeader.FormatId = []byte{0, 0, 1, 2, 3}[min(i, i%5)]
				h.MessageHeader.FormatId = h.BasicHeader.FormatId
				h.MessageHeader.TypeId = 9
				n.Normalize(h)
			}
		}()
		m.run(func(i int, op MixOp) {
			switch op.Op {
			case 0:
				if h := n.Last(); h != nil && h.BasicHeader.StreamId > 30 {
					o.Failf("value", "the last header is one never seen: %+v", h)
				}
			case 1:
				id := uint32(5 + op.Arg)
				if h := n.Header(id); h != nil && h.BasicHeader.StreamId != id {
					o.Failf("value", "the header of %d is that of %d", id, h.BasicHeader.StreamId)
				}
			case 2:
				h := &chunk.Header{}
				h.BasicHeader.StreamId = uint32(7 + i)
				n.StoreHeader(h)
			case 3:
				h := &chunk.Header{}
				h.BasicHeader.StreamId = uint32(20 + i)
				n.SetLast(h)
			}
		})
		<-done
	})
}

func init() {
	Register(&Prop{ID: "C19",
		Rule: "Random mixes of operations of two to five goroutines on one reader, writer, message that several writers write, demultiplexer, message builder, control stream or normalizer while messages pass through it, and whole client sessions, in workers built with the race detector; besides its reports, values read have to be values set, and everything sent has to arrive. Non-trivial: every mix, and sessions with a message; distinct by content.",
		Subs: []*Sub{
			Rand("reader", 4000, genMix(3), runReaderMix),
			Rand("writer", 4000, genMix(4), runWriterMix),
			Rand("broadcast", 3000, genMix(2), runBroadcast),
			Rand("builder", 4000, genMix(5), runBuilderMix),
			Rand("demultiplexer", 4000, genMix(4), runParserMix),
			Rand("control", 4000, genMix(5), runControlMix),
			Rand("normalizer", 4000, genMix(4), runNormalizerMix),
			Rand("session", 1500, func(t *rapid.T) []Session {
				return rapid.SliceOfN(rapid.Custom(genSession), 1, 2).Draw(t, "sessions")
			}, func(o *O, ss []Session) {
				for _, s := range ss {
					o.NT = o.NT || len(s.In)+len(s.Out) > 0
				}
				runSessions(o, ss)
			}),
		}})
}
