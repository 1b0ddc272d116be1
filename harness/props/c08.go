package props

import (
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// c08.go: the demultiplexer.

// SubOp is one step of a subscription history.
type SubOp struct {
	// Op: feed (the next N messages arrive), err (a read error), sub (Ids[0]),
	// group (Ids), again (Ids[0], subscribed before), none (no ids).
	Op    string `json:"op"`
	N     int    `json:"n,omitempty"`
	Ids   []int  `json:"ids,omitempty"` // indices of lanes
	Pause int    `json:"pause,omitempty"`
	Flt   int    `json:"flt,omitempty"` // err: which one
	// More: group: that many others, of chunk streams that carry nothing.
	More int `json:"more,omitempty"`
}

type DemuxCase struct {
	Stream   StreamSpec `json:"stream"`
	Ops      []SubOp    `json:"ops"`
	Delays   [][]int    `json:"delays"` // per subscription
	ErrDelay []int      `json:"err_delay"`
	Close    bool       `json:"close"`
}

func genDemux(t *rapid.T) DemuxCase {
	c := DemuxCase{
		Stream: genStream(t, streamOpt{maxLanes: 5, maxMsgs: 5, maxLen: 60, big: true, announce: true}),
		Close:  chance(t, "close", 60),
	}
	n := len(c.Stream.Lanes)
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SubOp {
		op := SubOp{Op: oneOf(t, "op", "feed", "feed", "feed", "feed", "err", "sub", "sub", "group", "group", "again", "none"), Pause: genPause(t, "pause")}
		switch op.Op {
		case "err":
			op.Flt = genFault(t)
		case "feed":
			op.N = genInt(t, "n", 1, 4)
		case "sub", "again":
			op.Ids = []int{genInt(t, "lane", 0, n+1)}
		case "group":
			// Distinct ids, some of chunk streams that carry nothing.
			op.Ids = rapid.SliceOfNDistinct(rapid.IntRange(0, n+1), 2, 4, rapid.ID[int]).Draw(t, "lanes")
			if chance(t, "large", 15) {
				op.More = oneOf(t, "more", 1, 2, 3, 4, 5, 6, 13, 14, 30, 62, 100, 254, 700)
			}
		}
		return op
	}), 0, 14).Draw(t, "ops")
	c.Ops = dups(t, c.Ops, nil)
	c.Delays = rapid.SliceOfN(rapid.Custom(genDelays), 1, 4).Draw(t, "subDelays")
	c.ErrDelay = genDelays(t)
	return c
}

// subLog is what one subscriber received.
type subLog struct {
	ids  []uint32
	s    chunk.Stream
	mu   sync.Mutex
	msgs []M
	done bool
}

func (l *subLog) Msgs() []M { l.mu.Lock(); defer l.mu.Unlock(); return l.msgs }

func (l *subLog) consume(delay []int, stop chan struct{}) {
	ch := l.s.In()
	for i := 0; ; i++ {
		select {
		case c, ok := <-ch:
			if !ok {
				l.mu.Lock()
				l.done = true
				l.mu.Unlock()
				return
			}
			var m M
			if c != nil {
				if i%2 == 1 {
					c = consumed(c)
				}
				m = fromChunk(c)
			}
			l.mu.Lock()
			l.msgs = append(l.msgs, m)
			l.mu.Unlock()
			if len(delay) > 0 {
				time.Sleep(time.Duration(delay[i%len(delay)]) * time.Millisecond)
			}
		case <-stop:
			return
		}
	}
}

// check compares what subscribers received with what was sent: every message
// at the subscriber of its chunk stream, in order per chunk stream.
func checkSubs(o *O, logs []*subLog, want []M) bool {
	byCs := map[uint32][]M{}
	for _, m := range want {
		byCs[m.Cs] = append(byCs[m.Cs], m)
	}
	for _, l := range logs {
		mine := map[uint32]bool{}
		for _, id := range l.ids {
			mine[id] = true
		}
		for i, m := range l.Msgs() {
			if !mine[m.Cs] {
				o.Failf("delivery", "the subscriber of %v received a message of chunk stream %d", l.ids, m.Cs)
				return false
			}
			if len(byCs[m.Cs]) == 0 {
				o.Failf("delivery", "the subscriber of %v received more than was sent on chunk stream %d", l.ids, m.Cs)
				return false
			}
			w := byCs[m.Cs][0]
			byCs[m.Cs] = byCs[m.Cs][1:]
			if d := diffM(&m, &w); d != "" {
				o.Failf("delivery", "message %d of the subscriber of %v:%s", i, l.ids, d)
				return false
			}
		}
	}
	for cs, left := range byCs {
		if len(left) > 0 {
			o.Failf("delivery", "%d messages of chunk stream %d were not delivered", len(left), cs)
			return false
		}
	}
	return true
}

func distinct(ids []uint32) (out []uint32) {
	seen := map[uint32]bool{}
	for _, id := range ids {
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return
}

// twin is an id that shares digits with id.
func twin(id uint32, k int) uint32 {
	for i, x := range []uint32{id ^ 0x10000, id + 256, id + 64, id - 64, id ^ 0x8000, id & 0xff, id ^ 1, id ^ 0x100} {
		if x >= 2 && x != 63 && x <= 65599 && x != id && i >= k%3 {
			return x
		}
	}
	return 40
}

func runDemux(o *O, c DemuxCase) {
	e := refEncode(dialect(), &c.Stream)
	want := e.Messages()
	ids := make([]uint32, len(c.Stream.Lanes)+2)
	for i, l := range c.Stream.Lanes {
		ids[i] = l.Cs
	}
	// Two that carry nothing; the first resembles one that carries something.
	like := c.Stream.Lanes[c.Stream.Size%len(c.Stream.Lanes)].Cs
	for i, free := len(c.Stream.Lanes), twin(like, c.Stream.Size); i < len(ids); free++ {
		if free > 65599 {
			free = 40
		}
		used := false
		for _, x := range ids[:i] {
			used = used || x == free
		}
		if !used {
			ids[i] = free
			i++
		}
	}
	var logs []*subLog
	var wantErrs, gotErrs []error
	var mu sync.Mutex
	o.bubble(func() {
		src := newSource()
		src.bind()
		p := chunk.NewParser(chunk.NewReader(src, c.Stream.Size, chunk.NewNormalizer()))
		go p.Recv()
		stop := make(chan struct{})
		var cons sync.WaitGroup
		cons.Add(1)
		go func() {
			defer cons.Done()
			for i := 0; ; i++ {
				select {
				case err, ok := <-p.Errs():
					if !ok {
						return
					}
					mu.Lock()
					gotErrs = append(gotErrs, err)
					mu.Unlock()
					if errors.Is(err, errEnd) {
						// There may be no end of them.
						return
					}
					if len(c.ErrDelay) > 0 {
						time.Sleep(time.Duration(c.ErrDelay[i%len(c.ErrDelay)]) * time.Millisecond)
					}
				case <-stop:
					return
				}
			}
		}()
		owner := map[uint32]*subLog{}
		subscribe := func(s chunk.Stream, of ...uint32) {
			l := &subLog{ids: of, s: s}
			d := c.Delays[len(logs)%len(c.Delays)]
			logs = append(logs, l)
			for _, id := range of {
				owner[id] = l
			}
			cons.Add(1)
			go func() {
				defer cons.Done()
				l.consume(d, stop)
			}()
		}
		single := func(id uint32) bool {
			s, err := p.Stream(id)
			if err != nil || s == nil {
				o.Failf("subscribe", "subscribing %d: %v", id, err)
				return false
			}
			if l := owner[id]; l == nil {
				subscribe(s, id)
			} else if len(l.ids) == 1 && s.In() != l.s.In() {
				o.Failf("subscribe", "subscribing %d again gives another stream", id)
				return false
			}
			again, err := p.Stream(id)
			if err != nil || again.In() != s.In() {
				o.Failf("subscribe", "subscribing %d twice gives different streams (%v)", id, err)
				return false
			}
			return true
		}
		fed, at := 0, 0
		arrived := map[uint32]bool{}
		feed := func(n int) {
			for ; n > 0 && fed < len(e.Sent); n-- {
				src.feed(Seg{Data: e.Bytes[at:e.Sent[fed].End]})
				at = e.Sent[fed].End
				arrived[e.Sent[fed].Cs] = true
				fed++
			}
		}
		run := func() bool {
			for k, op := range c.Ops {
				time.Sleep(time.Duration(op.Pause) * time.Millisecond)
				switch op.Op {
				case "feed":
					feed(op.N)
				case "err":
					err := readStepFault(k, op.Flt)
					wantErrs = append(wantErrs, err)
					src.feed(Seg{Err: err})
				case "none":
					if s, err := p.Stream(); err == nil {
						o.Failf("subscribe", "subscribing nothing gives %v without an error", s)
						return false
					}
				case "sub", "again":
					id := ids[op.Ids[0]]
					if owner[id] != nil {
						o.Class("again")
					} else if arrived[id] {
						o.Class("after-first-message")
					}
					if !single(id) {
						return false
					}
				case "group":
					var of []uint32
					taken, maybe := uint32(0), false
					for j, i := range op.Ids {
						if of = append(of, ids[i]); j == 0 {
							for n := range op.More {
								of = append(of, uint32(40000+1000*(k%3)+n))
							}
						}
					}
					of = distinct(of)
					if len(of) > 8 {
						o.Class("group-large")
					}
					for _, id := range of {
						if owner[id] != nil {
							taken = id
						}
						maybe = maybe || arrived[id]
					}
					s, err := p.Stream(of...)
					if taken != 0 {
						o.Class("group-refused")
						if err == nil {
							o.Failf("subscribe", "subscribing the group %v succeeds although %d is subscribed", of, taken)
							return false
						}
						break
					}
					if err != nil {
						if maybe {
							o.Class("group-too-late")
							break
						}
						o.Failf("subscribe", "subscribing the fresh group %v fails: %v", of, err)
						return false
					}
					o.Class("group")
					subscribe(s, of...)
				}
			}
			feed(len(e.Sent))
			for _, l := range c.Stream.Lanes {
				if !single(l.Cs) {
					return false
				}
			}
			return true
		}
		if run() {
			time.Sleep(settle)
			synctest.Wait()
			if checkSubs(o, logs, want) && c.Close {
				o.Class("closed")
				for _, l := range logs {
					if m, ok := l.s.(interface{ AwaitClose() }); ok {
						go m.AwaitClose()
					}
				}
				synctest.Wait()
				for _, l := range logs {
					if l.mu.Lock(); l.done {
						o.Failf("delivery", "the stream of %v ended although nothing was closed", l.ids)
					}
					l.mu.Unlock()
				}
				go p.Close()
				time.Sleep(settle)
				synctest.Wait()
				checkSubs(o, logs, want)
			}
		}
		if !c.Close && !o.Bad() {
			src.let()
			time.Sleep(settle)
			synctest.Wait()
			mu.Lock()
			if n := len(gotErrs); n == 0 || !errors.Is(gotErrs[n-1], errEnd) {
				o.Failf("errors", "the end of the input is not reported: %v", gotErrs)
			}
			mu.Unlock()
		}
		close(stop)
		cons.Wait()
		src.let()
		if !c.Close {
			go p.Close()
		}
		drain(p.Errs())
		synctest.Wait()
	})
	if o.Bad() {
		return
	}
	o.NT = len(logs) >= 2 && len(want) >= 2
	if len(wantErrs) > 0 {
		o.Class("errors")
	}
	// After the script the source may have reported its end.
	if len(gotErrs) < len(wantErrs) {
		o.Failf("errors", "%d errors were reported for %d read errors: %v", len(gotErrs), len(wantErrs), gotErrs)
		return
	}
	for i, w := range wantErrs {
		if named(w) != nil && !errors.Is(gotErrs[i], w) {
			o.Failf("errors", "error %d is %v, want %v (all: %v)", i, gotErrs[i], w, gotErrs)
			return
		}
	}
	for _, x := range gotErrs[len(wantErrs):] {
		if !errors.Is(x, errEnd) {
			o.Failf("errors", "%v were reported for the read errors %v", gotErrs, wantErrs)
			return
		}
	}
}

// MergeCase is a merged stream over plain sources.
type MergeCase struct {
	Sources []MergeSource `json:"sources"`
	Appends []int         `json:"appends"` // sizes of the Append calls
	Delay   []int         `json:"delay"`
	Await   int           `json:"await"`
}

type MergeSource struct {
	Pauses []int `json:"pauses"` // one message after each
	Close  int   `json:"close"`  // the end comes this much later; < 0: never
}

func genMerge(t *rapid.T) MergeCase {
	return MergeCase{
		Sources: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) MergeSource {
			return MergeSource{
				Pauses: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return genMs(t, "pause") }), 0, 5).Draw(t, "pauses"),
				Close:  oneOf(t, "close", 0, 0, 0, 1, 7, 30, 90000, -1),
			}
		}), 0, 5).Draw(t, "sources"),
		Appends: rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "appends"),
		Delay:   genDelays(t),
		Await:   genInt(t, "await", 0, 60),
	}
}

func runMerge(o *O, c MergeCase) {
	total, open := 0, false
	for _, s := range c.Sources {
		total += len(s.Pauses)
		open = open || s.Close < 0
	}
	o.NT = len(c.Sources) >= 2 && total >= 1
	l := &subLog{}
	var mu sync.Mutex
	awaited, running := false, len(c.Sources)
	early := ""
	o.bubble(func() {
		m := chunk.NewMultiStream()
		l.s = m
		var chans []chanStream
		for range c.Sources {
			chans = append(chans, make(chanStream))
		}
		k := 0
		for _, n := range append(append([]int(nil), c.Appends...), len(chans)) {
			var part []chunk.Stream
			for ; n > 0 && k < len(chans); n-- {
				part = append(part, chans[k])
				k++
			}
			if got := m.Append(part...); got != m {
				o.Failf("merge", "Append returned another stream")
			}
		}
		stop := make(chan struct{})
		go l.consume(c.Delay, stop)
		for i, s := range c.Sources {
			go func() {
				for j, p := range s.Pauses {
					time.Sleep(time.Duration(p) * time.Millisecond)
					select {
					case chans[i] <- (Route{uint32(i + 2), 1, 8}).chunk([]byte{byte(j)}, uint32(j)):
					case <-stop:
						return
					}
				}
				if s.Close >= 0 {
					time.Sleep(time.Duration(s.Close) * time.Millisecond)
					mu.Lock()
					running--
					mu.Unlock()
					close(chans[i])
				}
			}()
		}
		go func() {
			time.Sleep(time.Duration(c.Await) * time.Millisecond)
			m.AwaitClose()
			mu.Lock()
			awaited = true
			if running > 0 {
				early = fmt.Sprintf("AwaitClose returned with %d sources open", running)
			}
			mu.Unlock()
		}()
		time.Sleep(settle)
		synctest.Wait()
		close(stop)
	})
	if early != "" {
		o.Failf("merge", "%s", early)
	}
	var want []M
	for i, s := range c.Sources {
		l.ids = append(l.ids, uint32(i+2))
		for j := range s.Pauses {
			want = append(want, M{Cs: uint32(i + 2), Sid: 1, Type: 8, Ts: uint32(j), Data: []byte{byte(j)}})
		}
	}
	if !checkSubs(o, []*subLog{l}, want) {
		return
	}
	if l.done == open || awaited == open {
		o.Failf("merge", "sources left open: %v, but the merged stream has ended: %v, AwaitClose returned: %v", open, l.done, awaited)
	}
	if open {
		o.Class("left-open")
	}
}

// RaceCase: goroutines subscribing at the same time.
type RaceCase struct {
	Actors [][][]int `json:"actors"` // per goroutine, the requests
}

func genRace(t *rapid.T) RaceCase {
	return RaceCase{rapid.SliceOfN(rapid.SliceOfN(rapid.SliceOfNDistinct(rapid.IntRange(0, 5), 1, 3, rapid.ID[int]), 1, 3), 2, 5).Draw(t, "actors")}
}

func runRace(o *O, c RaceCase) {
	o.NT = true
	ids := []uint32{2, 3, 4, 64, 65, 300}
	if len(c.Actors)%2 == 0 {
		ids = []uint32{4, 65540, 260, 516, 33028, 65}
	}
	type req struct {
		of  []uint32
		s   chunk.Stream
		err error
	}
	reqs := make([][]req, len(c.Actors))
	var stream StreamSpec
	stream.Size = 128
	for _, id := range ids {
		stream.Lanes = append(stream.Lanes, Lane{Cs: id, Msgs: []SMsg{{Type: 9, P: P{3, id}}, {Type: 9, P: P{5, id}}}})
	}
	e := refEncode(dialect(), &stream)
	o.bubble(func() {
		src := newSource()
		src.bind()
		p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, a := range c.Actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, r := range a {
					var of []uint32
					for _, k := range r {
						of = append(of, ids[k])
					}
					s, err := p.Stream(of...)
					reqs[i] = append(reqs[i], req{of, s, err})
				}
			}()
		}
		synctest.Wait()
		close(start)
		wg.Wait()
		// Subscribed singly, and as part of a group.
		single := map[uint32]chunk.Stream{}
		group := map[uint32][]req{}
		for _, rs := range reqs {
			for _, r := range rs {
				if len(r.of) == 1 {
					if r.err != nil {
						o.Failf("subscribe", "subscribing %d: %v", r.of[0], r.err)
						return
					}
					if s := single[r.of[0]]; s != nil && s.In() != r.s.In() {
						o.Failf("subscribe", "subscribing %d at the same time gives different streams", r.of[0])
						return
					}
					single[r.of[0]] = r.s
				} else if r.err == nil {
					for _, id := range r.of {
						group[id] = append(group[id], r)
						if len(group[id]) > 1 {
							o.Failf("subscribe", "%d became part of two groups", id)
							return
						}
					}
				}
			}
		}
		for _, rs := range reqs {
			for _, r := range rs {
				if r.err != nil {
					cause := false
					for _, id := range r.of {
						cause = cause || single[id] != nil || len(group[id]) > 0
					}
					if !cause {
						o.Failf("subscribe", "the group %v was refused although none of it was subscribed", r.of)
						return
					}
					o.Class("group-refused")
				}
			}
		}
		// Everything reaches the groups and the others.
		var logs []*subLog
		seen := map[uint32]bool{}
		stop := make(chan struct{})
		for _, id := range ids {
			if len(group[id]) > 0 {
				r := group[id][0]
				if id == r.of[0] {
					o.Class("group")
					logs = append(logs, &subLog{ids: r.of, s: r.s})
				}
				seen[id] = true
			}
		}
		for _, id := range ids {
			if !seen[id] {
				s, err := p.Stream(id)
				if err != nil || single[id] != nil && s.In() != single[id].In() {
					o.Failf("subscribe", "subscribing %d gives another stream than before (%v)", id, err)
					return
				}
				logs = append(logs, &subLog{ids: []uint32{id}, s: s})
			}
		}
		for _, l := range logs {
			go l.consume(nil, stop)
		}
		go p.Recv()
		src.feed(Seg{Data: e.Bytes})
		synctest.Wait()
		checkSubs(o, logs, e.Messages())
		close(stop)
		src.let()
		drain(p.Errs())
		go p.Close()
		synctest.Wait()
	})
}

// errorMarathon: every one of very many read errors is reported.
func errorMarathon() *Sub {
	s := Marathon([]DemuxCase{{
		Stream: StreamSpec{Size: 128, Lanes: []Lane{{Cs: 3, Msgs: []SMsg{{Type: 9, Sid: 1, P: P{3, 1}}}}}},
		Ops:    []SubOp{{Op: "err"}, {Op: "feed", N: 1}, {Op: "err", Flt: 1}, {Op: "err", Flt: 2}}, Delays: [][]int{{}}, Close: true,
	}}, func(c DemuxCase) int { return 3 }, func(c DemuxCase, rep, wide int) DemuxCase {
		c.Stream = c.Stream.grow(rep, wide)
		c.Ops = repeatOps(c.Ops, rep, nil, nil)
		return c
	}, runDemux)
	s.Name = "errors"
	return s
}

func init() {
	Register(&Prop{ID: "C08", Together: 1500, Rounds: 2,
		Rule: "Random subscription histories (singly, in groups, repeatedly, before and after the first message, from several goroutines) over random conforming streams with read errors between chunks and slow consumers, compared with the messages sent per chunk stream; merged streams over sources that end at different times. Non-trivial: at least two subscriptions and two messages (history), two sources and a message (merge), any concurrent subscription (concurrent); distinct by content.",
		Subs: []*Sub{
			Rand("history", 50000, genDemux, runDemux),
			Marathon([]DemuxCase{
				{Stream: marathonStream(true)[0], Ops: []SubOp{{Op: "sub", Ids: []int{0}}, {Op: "feed", N: 3}, {Op: "sub", Ids: []int{1}}}, Delays: [][]int{{}}, Close: true},
				{Stream: marathonStream(true)[0], Ops: []SubOp{{Op: "feed", N: 3}, {Op: "group", Ids: []int{0, 1, 2}}, {Op: "err"}}, Delays: [][]int{{}}},
			}, func(c DemuxCase) int { return c.Stream.steps() }, func(c DemuxCase, rep, wide int) DemuxCase {
				c.Stream = c.Stream.grow(rep, wide)
				return c
			}, runDemux),
			errorMarathon(),
			RandLong("long", 500, 100, genDemux, func(c DemuxCase) int { return c.Stream.steps() },
				func(c DemuxCase, rep, wide int) DemuxCase {
					c.Stream = c.Stream.grow(rep, wide)
					c.Ops = repeatOps(c.Ops, min(rep, 20), nil, nil)
					return c
				}, runDemux),
			Rand("huge", 1000, func(t *rapid.T) DemuxCase {
				c := genDemux(t)
				c.Stream = hugeStream(t, c.Stream)
				return c
			}, runDemux),
			RandLong("long-merge", 500, 0, genMerge, func(c MergeCase) int {
				n := len(c.Sources)
				for _, s := range c.Sources {
					n += len(s.Pauses)
				}
				return n
			}, func(c MergeCase, rep, _ int) MergeCase {
				for i := range c.Sources {
					s := &c.Sources[i]
					s.Pauses = repeatOps(s.Pauses, rep, nil, nil)
				}
				if rep%2 == 0 { // more sources, not only longer ones
					c.Sources = repeatOps(c.Sources, min(rep, 8), nil, nil)
					c.Appends = repeatOps(c.Appends, min(rep, 8), nil, nil)
				}
				return c
			}, runMerge),
			Enum("crowd", crowdSizes, func(o *O, n int) {
				runDemux(o, DemuxCase{Stream: crowd(n), Ops: []SubOp{{Op: "group", Ids: []int{0, 3, 5}}, {Op: "feed", N: n}, {Op: "sub", Ids: []int{7}}}, Delays: [][]int{{}}, Close: n%2 == 0})
			}),
			Rand("merge", 50000, genMerge, runMerge),
			Rand("concurrent", 30000, genRace, runRace),
		}})
}
