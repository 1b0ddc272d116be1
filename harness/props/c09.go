package props

import (
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"pgregory.net/rapid"
)

// c09.go: closing.

// CloseCase is the history of a component that handles messages.
type CloseCase struct {
	// Kind: control, netconn, netstream, data, managed, unmanaged.
	Kind string    `json:"kind"`
	Ops  []CloseOp `json:"ops"`
	// At is the index of the step (see Ops) before which Close is called; the
	// incoming steps go on meanwhile.
	At    int      `json:"at"`
	Wait  int      `json:"wait"` // ms before Close
	Delay [4][]int `json:"delay"`
}

// CloseOp is a step: in, bad (incoming), end (of the input), out, wfail, unenc.
type CloseOp struct {
	DOp
	Route int `json:"route"` // manager: which consumer
}

func genClose(t *rapid.T) CloseCase {
	c := CloseCase{Kind: oneOf(t, "kind", "control", "netconn", "netstream", "data", "managed", "unmanaged")}
	c.Ops = cutAfterEnd(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CloseOp {
		return CloseOp{genDOp(t), genInt(t, "route", 0, 3)}
	}), 0, 8).Draw(t, "ops"), func(x CloseOp) DOp { return x.DOp })
	c.At = genInt(t, "at", 0, len(c.Ops))
	c.Wait = genPause(t, "wait")
	for i := range c.Delay {
		c.Delay[i] = genDelays(t)
	}
	return c
}

// takeAll consumes a channel until it is closed or stop is.
func takeAll[T any](wg *sync.WaitGroup, ch <-chan T, delay []int, stop chan struct{}) (closed func() bool) {
	var mu sync.Mutex
	ended := false
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case _, ok := <-ch:
				if !ok {
					mu.Lock()
					ended = true
					mu.Unlock()
					return
				}
				if len(delay) > 0 {
					time.Sleep(time.Duration(delay[i%len(delay)]) * time.Millisecond)
				}
			case <-stop:
				return
			}
		}
	}()
	return func() bool { mu.Lock(); defer mu.Unlock(); return ended }
}

type namedEnd struct {
	name   string
	closed func() bool
}

// closable is a component under test, made in the bubble.
type closable struct {
	loops []func()
	close func()
	feed  chan *chunk.Chunk
	send  func(op CloseOp, i int)
	ends  []namedEnd
}

var (
	okConn   = Cmd{Name: "createStream", Tid: Val{K: "num", N: "2"}, Obj: Val{K: "null"}}
	okStream = Cmd{Name: "pause", Tid: Val{K: "num", N: "0"}, Obj: Val{K: "null"}, Args: []Val{{K: "bool", B: true}, {K: "num", N: "7"}}}
)

func runClose(o *O, c CloseCase) {
	o.wantStacks = true
	o.NT = c.At > 0
	o.Class("%s", c.Kind)
	pw := &planWriter{}
	for i, op := range c.Ops {
		slow := time.Duration(op.Slow) * time.Millisecond
		switch op.Op {
		case "out":
			pw.plan = append(pw.plan, planItem{slow: slow})
		case "wfail":
			pw.plan = append(pw.plan, planItem{err: stepFault(i, op.Flt), slow: slow})
		}
	}
	var mu sync.Mutex
	closed, loops := false, 0
	var k closable
	leak := o.bubble(func() {
		stop := make(chan struct{})
		var cons sync.WaitGroup
		k = c.make(pw, &cons, stop)
		for _, l := range k.loops {
			go func() {
				l()
				mu.Lock()
				loops++
				mu.Unlock()
			}()
		}
		fed := make(chan struct{})
		go func() {
			defer close(fed)
			for i, op := range c.Ops {
				if !op.incoming() {
					continue
				}
				time.Sleep(time.Duration(op.Pause) * time.Millisecond)
				if op.Op == "end" {
					close(k.feed)
					continue
				}
				select {
				case k.feed <- c.chunk(op, i):
				case <-stop:
					return
				}
			}
		}()
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			for i, op := range c.Ops[:c.At] {
				if !op.incoming() {
					time.Sleep(time.Duration(op.Pause) * time.Millisecond)
					k.send(op, i)
				}
			}
		}()
		<-sent
		time.Sleep(time.Duration(c.Wait) * time.Millisecond)
		go func() {
			k.close()
			mu.Lock()
			closed = true
			mu.Unlock()
		}()
		time.Sleep(settle)
		synctest.Wait()
		mu.Lock()
		if !closed {
			o.Failf("close-hangs", "%s: Close does not return\n%s", c.Kind, bubbleStacks())
		} else if loops != len(k.loops) {
			o.Failf("loop-runs-on", "%s: the processing loop does not return after Close\n%s", c.Kind, bubbleStacks())
		}
		mu.Unlock()
		if !o.Bad() {
			for _, e := range k.ends {
				if !e.closed() {
					o.Failf("not-closed", "%s: channel %s is not closed after Close", c.Kind, e.name)
				}
			}
		}
		close(stop)
		cons.Wait()
		<-fed
	})
	if leak != "" {
		o.Failf("leak", "%s: goroutines left after Close: %s", c.Kind, leak)
	}
}

// chunk makes the incoming message of a step.
func (c CloseCase) chunk(op CloseOp, i int) *chunk.Chunk {
	bad := op.Op == "bad"
	kind := c.Kind
	if kind == "managed" || kind == "unmanaged" {
		kind = []string{"netconn", "netstream", "data", "nobody"}[op.Route]
	}
	switch kind {
	case "control":
		if bad {
			return ctlChunk(3, []byte{1})
		}
		return ctlChunk(3, []byte{0, 0, 0, 1})
	case "netconn":
		if bad {
			return Route{3, 0, 0x14}.chunk([]byte{2, 0}, uint32(i))
		}
		return Route{3, 0, 0x14}.chunk(okConn.payload(), uint32(i))
	case "netstream":
		if bad {
			return Route{4, 1, 0x14}.chunk([]byte{2, 0}, uint32(i))
		}
		return Route{4, 1, 0x14}.chunk(okStream.payload(), uint32(i))
	case "data":
		if bad {
			return Route{4, 1, 0x08}.chunk(nil, uint32(i))
		}
		return Route{4, 1, 0x08}.chunk([]byte{1, 2}, uint32(i))
	}
	return Route{6, 1, 0x08}.chunk([]byte{1, 2}, uint32(i))
}

func sendControl(ch chan<- control.Control, op CloseOp, i int) {
	if op.Op == "unenc" {
		ch <- &unencodable{stepFault(i, op.Flt)}
		return
	}
	ch <- &control.Acknowledgement{SequenceNumber: uint32(i)}
}

func sendConn(ch chan<- conn.Marshallable, op CloseOp, i int) {
	if op.Op == "unenc" {
		ch <- &failMarshal{stepFault(i, op.Flt)}
		return
	}
	ch <- Resp{Kind: "connect", Tid: Val{K: "num", N: "1"}, A: Val{K: "obj"}, B: Val{K: "obj"}}.marshallable()
}

func sendStream(ch chan<- *stream.Status, op CloseOp, i int) {
	s := stream.NewStatus()
	if op.Op == "unenc" {
		s.Arguments.Add("k", &failAmf{err: stepFault(i, op.Flt)})
	}
	ch <- s
}

func sendData(ch chan<- data.Data, op CloseOp, i int) {
	if op.Op == "unenc" {
		ch <- &failData{nil, stepFault(i, op.Flt)}
		return
	}
	d, _ := data.DefaultParser.Parse(Route{4, 1, 8}.chunk([]byte{1, 2}, 0))
	ch <- d
}

func (c CloseCase) make(pw *planWriter, wg *sync.WaitGroup, stop chan struct{}) (k closable) {
	feed := make(chan *chunk.Chunk)
	k.feed = feed
	end := func(name string, closed func() bool) { k.ends = append(k.ends, namedEnd{name, closed}) }
	switch c.Kind {
	case "control":
		s := control.NewStream(chanStream(feed), pw, control.NewParser(), control.NewChunker())
		k.loops, k.close = []func(){s.Recv}, s.Close
		end("In", takeAll(wg, s.In(), c.Delay[0], stop))
		end("Errs", takeAll(wg, s.Errs(), c.Delay[3], stop))
		k.send = func(op CloseOp, i int) { sendControl(s.Out(), op, i) }
	case "netconn":
		n := conn.NewNetConnection(feed, pw)
		k.loops, k.close = []func(){n.Listen}, n.Close
		takeAll(wg, n.In(), c.Delay[0], stop)
		takeAll(wg, n.Errs(), c.Delay[3], stop)
		k.send = func(op CloseOp, i int) { sendConn(n.Out(), op, i) }
	case "netstream":
		n := stream.New(feed, pw)
		k.loops, k.close = []func(){n.Listen}, n.Close
		end("In", takeAll(wg, n.In(), c.Delay[0], stop))
		end("Errs", takeAll(wg, n.Errs(), c.Delay[3], stop))
		k.send = func(op CloseOp, i int) { sendStream(n.Status(), op, i) }
	case "data":
		s := data.NewStream(feed, pw)
		k.loops, k.close = []func(){s.Recv}, s.Close
		end("Out", takeAll(wg, s.Out(), c.Delay[0], stop))
		end("Errs", takeAll(wg, s.Errs(), c.Delay[3], stop))
		k.send = func(op CloseOp, i int) { sendData(s.In(), op, i) }
	default:
		m := cmd.New(chanStream(feed), pw)
		takeAll(wg, m.NetConn().In(), c.Delay[0], stop)
		takeAll(wg, m.NetConn().Errs(), c.Delay[3], stop)
		end("NetStream.In", takeAll(wg, m.NetStream().In(), c.Delay[1], stop))
		end("NetStream.Errs", takeAll(wg, m.NetStream().Errs(), c.Delay[3], stop))
		end("DataStream.Out", takeAll(wg, m.DataStream().Out(), c.Delay[2], stop))
		end("DataStream.Errs", takeAll(wg, m.DataStream().Errs(), c.Delay[3], stop))
		k.send = func(op CloseOp, i int) {
			switch op.Route {
			case 0:
				sendConn(m.NetConn().Out(), op, i)
			case 1:
				sendStream(m.NetStream().Status(), op, i)
			default:
				sendData(m.DataStream().In(), op, i)
			}
		}
		if c.Kind == "managed" {
			k.loops, k.close = []func(){func() { m.Dispatch(true) }}, m.Close
			break
		}
		k.loops = []func(){func() { m.Dispatch(false) }, m.NetConn().Listen, m.NetStream().Listen, m.DataStream().Recv}
		k.close = func() {
			m.Close()
			m.NetConn().Close()
			m.NetStream().Close()
			m.DataStream().Close()
		}
	}
	return k
}

// ReadClose is the history of a reader, a demultiplexer, or a whole stack.
type ReadClose struct {
	// Kind: reader, parser, stack.
	Kind   string     `json:"kind"`
	Stream StreamSpec `json:"stream"`
	Muts   []Mut      `json:"muts,omitempty"`
	// Segments: the input is cut at Cuts (permille), with Pauses before the
	// pieces, and an error after those listed in Errs.
	Cuts   []int `json:"cuts"`
	Pauses []int `json:"pauses"`
	Errs   []int `json:"errs"`
	Flt    int   `json:"flt,omitempty"`
	// Ends: what the transport does then: block until it is closed, eof (for
	// ever).
	Ends string `json:"ends"`
	// TransportFirst: the transport is closed before Close is called.
	TransportFirst bool     `json:"transport_first"`
	Wait           int      `json:"wait"`
	Between        int      `json:"between"` // stack: pause between closing the parts
	Reverse        bool     `json:"reverse"` // stack: manager before control stream
	Delay          [4][]int `json:"delay"`
	Groups         []int    `json:"groups"` // parser: lanes subscribed as a group
	// Reader: the reader is closed as well: 1 before, 2 after what has been
	// built on it (the reader itself: once more).
	Reader int `json:"reader,omitempty"`
}

func genReadClose(t *rapid.T) ReadClose {
	c := ReadClose{Kind: oneOf(t, "kind", "reader", "parser", "parser", "stack")}
	if c.Kind == "stack" {
		s := genSession(t)
		c.Stream = s.spec()
		if len(c.Stream.Lanes) == 0 {
			c.Kind = "parser"
		}
	}
	if len(c.Stream.Lanes) == 0 {
		c.Stream = genStream(t, streamOpt{maxLanes: 4, maxMsgs: 4, maxLen: 60, big: true, announce: true})
	}
	if c.Kind == "reader" && chance(t, "malformed", 30) {
		c.Muts = genMuts(t, 2)
	}
	c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 6).Draw(t, "cuts")
	c.Pauses = genShortDelays(t)
	c.Errs = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(t, "errs")
	c.Flt = genFault(t)
	c.Ends = oneOf(t, "ends", "block", "block", "eof")
	c.TransportFirst = chance(t, "transportFirst", 30)
	c.Wait = genInt(t, "wait", 0, 60)
	c.Between = oneOf(t, "between", 0, 0, 1, 500)
	c.Reverse = rapid.Bool().Draw(t, "reverse")
	c.Reader = oneOf(t, "closeReader", 0, 0, 0, 1, 2)
	for i := range c.Delay {
		c.Delay[i] = genShortDelays(t)
	}
	if chance(t, "groups", 60) {
		c.Groups = rapid.SliceOfNDistinct(rapid.IntRange(0, 3), 2, 3, rapid.ID[int]).Draw(t, "group")
	}
	return c
}

func runReadClose(o *O, c ReadClose) {
	o.wantStacks = true
	o.Class("%s", c.Kind)
	e := refEncode(dialect(), &c.Stream)
	in := e.Bytes
	if len(c.Muts) > 0 {
		in, _ = mutate(in, c.Muts)
	}
	var segs []Seg
	at := 0
	for i := 0; i <= len(c.Cuts); i++ {
		end := len(in)
		if i < len(c.Cuts) {
			end = max(at, c.Cuts[i]*len(in)/1000)
		}
		s := Seg{Data: in[at:end]}
		if len(c.Pauses) > 0 {
			s.Sleep = time.Duration(c.Pauses[i%len(c.Pauses)]) * time.Millisecond
		}
		at = end
		segs = append(segs, s)
		for _, k := range c.Errs {
			// Errors only where no chunk is cut, or else what follows is
			// garbage, and garbage may be for nobody.
			atBound := at == 0 || at == len(in)
			for _, b := range e.Bounds {
				atBound = atBound || b == at
			}
			if k == i && (c.Kind == "reader" || atBound) {
				segs = append(segs, Seg{Err: readFault(c.Flt)})
			}
		}
	}
	o.NT = len(in) > 0
	if c.TransportFirst {
		o.Class("transport-first")
	}
	if c.Ends == "eof" {
		o.Class("eof-for-ever")
	}
	var mu sync.Mutex
	done := map[string]bool{}
	mark := func(s string) { mu.Lock(); done[s] = true; mu.Unlock() }
	var names []string // what has to be marked once the transport is gone
	early := map[string]bool{}
	var ends []namedEnd
	// Errors are taken at a finite pace, so that a source that fails for ever
	// leaves the others time.
	errDelay := []int{1}
	for _, d := range c.Delay[3] {
		errDelay = append(errDelay, d+1)
	}
	leak := o.bubble(func() {
		src := newSource(segs...)
		src.bind()
		src.noBlock = c.Ends == "eof"
		stop := make(chan struct{})
		var cons sync.WaitGroup
		spawn := func(name string, f func()) {
			go func() { f(); mark(name) }()
		}
		var closers []func()
		closer := func(name string, f func()) {
			names = append(names, name)
			early[name] = true
			closers = append(closers, func() { f(); mark(name) })
		}
		loop := func(name string, f func(), waits bool) {
			names = append(names, name)
			// A read in progress ends with the transport only.
			early[name] = !waits
			spawn(name, f)
		}
		r := chunk.NewReader(src, c.Stream.Size, chunk.NewNormalizer())
		if c.Reader > 0 {
			o.Class("reader-too")
		}
		if c.Reader == 1 {
			closer("Reader.Close (first)", r.Close)
		}
		switch c.Kind {
		case "reader":
			loop("Reader.Recv", r.Recv, true)
			takeAll(&cons, r.Chunks(), c.Delay[0], stop)
			takeAll(&cons, r.Errs(), errDelay, stop)
			closer("Reader.Close", r.Close)
		case "parser":
			p := chunk.NewParser(r)
			grouped := map[uint32]bool{}
			var of []uint32
			for _, k := range c.Groups {
				if k < len(c.Stream.Lanes) {
					of = append(of, c.Stream.Lanes[k].Cs)
					grouped[c.Stream.Lanes[k].Cs] = true
				}
			}
			var multi chunk.Stream
			if len(of) > 1 {
				multi, _ = p.Stream(of...)
				o.Class("group")
			} else {
				grouped = nil
			}
			for i, l := range c.Stream.Lanes {
				if !grouped[l.Cs] {
					s, _ := p.Stream(l.Cs)
					ends = append(ends, namedEnd{fmt.Sprintf("Stream(%d).In", l.Cs), takeAll(&cons, s.In(), c.Delay[i%3], stop)})
				}
			}
			ends = append(ends, namedEnd{"Parser.Errs", takeAll(&cons, p.Errs(), errDelay, stop)})
			loop("Parser.Recv", p.Recv, false)
			if m, ok := multi.(interface{ AwaitClose() }); ok {
				ends = append(ends, namedEnd{"MultiStream.In", takeAll(&cons, multi.In(), c.Delay[1], stop)})
				loop("MultiStream.AwaitClose", m.AwaitClose, false)
			} else if multi != nil {
				takeAll(&cons, multi.In(), c.Delay[1], stop)
			}
			closer("Parser.Close", p.Close)
		case "stack":
			p := chunk.NewParser(r)
			c2, _ := p.Stream(2)
			multi, _ := p.Stream(3, 4, 5, 8)
			ctl := control.NewStream(c2, chunk.NoopWriter, control.NewParser(), control.NewChunker())
			m := cmd.New(multi, chunk.NoopWriter)
			ends = append(ends, namedEnd{"Parser.Errs", takeAll(&cons, p.Errs(), errDelay, stop)},
				namedEnd{"control In", takeAll(&cons, ctl.In(), c.Delay[0], stop)},
				namedEnd{"control Errs", takeAll(&cons, ctl.Errs(), errDelay, stop)},
				namedEnd{"NetStream.In", takeAll(&cons, m.NetStream().In(), c.Delay[1], stop)},
				namedEnd{"NetStream.Errs", takeAll(&cons, m.NetStream().Errs(), errDelay, stop)},
				namedEnd{"DataStream.Out", takeAll(&cons, m.DataStream().Out(), c.Delay[2], stop)},
				namedEnd{"DataStream.Errs", takeAll(&cons, m.DataStream().Errs(), errDelay, stop)})
			takeAll(&cons, m.NetConn().In(), c.Delay[1], stop)
			takeAll(&cons, m.NetConn().Errs(), errDelay, stop)
			loop("Parser.Recv", p.Recv, false)
			loop("control.Stream.Recv", ctl.Recv, false)
			loop("Manager.Dispatch", func() { m.Dispatch(true) }, false)
			closer("Parser.Close", p.Close)
			a := func() { closer("control.Stream.Close", ctl.Close) }
			b := func() {
				closer("Manager.Close", func() {
					m.Close()
					// Somebody has to take what the group still holds.
					go func() {
						for {
							select {
							case _, ok := <-multi.In():
								if !ok {
									return
								}
							case <-stop:
								return
							}
						}
					}()
				})
			}
			if c.Reverse {
				a, b = b, a
			}
			a()
			b()
		}
		if c.Reader == 2 {
			closer("Reader.Close (last)", r.Close)
		}
		time.Sleep(time.Duration(c.Wait) * time.Millisecond)
		if c.TransportFirst {
			src.let()
			time.Sleep(time.Duration(c.Between) * time.Millisecond)
		}
		go func() {
			for i, f := range closers {
				if i > 0 {
					time.Sleep(time.Duration(c.Between) * time.Millisecond)
				}
				f()
			}
		}()
		time.Sleep(time.Minute)
		synctest.Wait()
		missing := func(all bool) (out []string) {
			mu.Lock()
			defer mu.Unlock()
			for _, n := range names {
				if (all || early[n]) && !done[n] {
					out = append(out, n)
				}
			}
			return
		}
		if x := missing(false); len(x) > 0 {
			o.Failf("hang", "%s: after Close these have not returned: %s\n%s", c.Kind, strings.Join(x, ", "), bubbleStacks())
		}
		if !o.Bad() {
			for _, e := range ends {
				if !e.closed() {
					o.Failf("not-closed", "%s: channel %s is not closed after Close", c.Kind, e.name)
				}
			}
		}
		src.let()
		time.Sleep(time.Minute)
		synctest.Wait()
		if x := missing(true); len(x) > 0 && !o.Bad() {
			o.Failf("hang", "%s: once the transport is gone these have not returned: %s\n%s", c.Kind, strings.Join(x, ", "), bubbleStacks())
		}
		close(stop)
		cons.Wait()
		synctest.Wait()
	})
	if leak != "" {
		o.Failf("leak", "%s: goroutines left after Close: %s", c.Kind, leak)
	}
}

func (c CloseCase) steps() int { return len(c.Ops) }

// grow repeats the steps; Close comes as far from the end as before.
func (c CloseCase) grow(rep, _ int) CloseCase {
	if len(c.Ops) == 0 {
		return c
	}
	tail := len(c.Ops) - c.At
	c.Ops = repeatOps(c.Ops, rep, func(op CloseOp) bool { return op.Op == "end" }, nil)
	c.At = len(c.Ops) - tail
	return c
}

func (c ReadClose) steps() int { return c.Stream.steps() }

func (c ReadClose) grow(rep, wide int) ReadClose {
	if c.Kind == "stack" {
		wide = 0
	}
	c.Stream = c.Stream.grow(rep, wide)
	return c
}

func init() {
	Register(&Prop{ID: "C09", Together: 1500, Rounds: 2,
		Rule: "Random histories of every component with a Close (incoming good and bad messages, outgoing ones, write and encoding failures, end of input, transport errors and ends, slow consumers), with Close called at a random step and moment, and whole stacks closed from the transport upwards, in a bubble that notices blocked goroutines. Non-trivial: Close after at least one step or with input; distinct by content.",
		Subs: []*Sub{
			Rand("component", 80000, genClose, runClose),
			Rand("reader", 60000, genReadClose, runReadClose),
			RandLong("long-component", 1500, 0, genClose, CloseCase.steps, CloseCase.grow, runClose),
			RandLong("long-reader", 1500, 300, genReadClose, ReadClose.steps, ReadClose.grow, runReadClose),
		}})
}
