package props

import (
	"bytes"
	"errors"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// c13.go: failing and shared destinations.

// faultDest takes bytes until offset at, where it fails once, in one of
// several ways. Later writes succeed.
type faultDest struct {
	b     []byte
	at    int
	mode  string // error (part taken), refuse (nothing of the call taken), short (part taken, no error)
	fired bool
	calls int
	err   error // errInjected if it is nil
}

func (d *faultDest) fault() error {
	if d.err != nil {
		return d.err
	}
	return errInjected
}

func (d *faultDest) Write(p []byte) (int, error) {
	d.calls++
	if d.fired || len(d.b)+len(p) <= d.at {
		d.b = append(d.b, p...)
		return len(p), nil
	}
	d.fired = true
	n := d.at - len(d.b)
	switch d.mode {
	case "refuse":
		return 0, d.fault()
	case "short":
		d.b = append(d.b, p[:n]...)
		return n, nil
	}
	d.b = append(d.b, p[:n]...)
	return n, d.fault()
}

// WFault: messages written in turn, the last but one of which meets faults.
type WFault struct {
	Size   int   `json:"size"`
	Before []WOp `json:"before"`
	Op     WOp   `json:"op"`
	After  WOp   `json:"after"`
	// Step skips offsets of long messages.
	Step int `json:"step"`
	Flt  int `json:"flt,omitempty"` // what the destination says
}

func genSimpleOp(t *rapid.T, size, maxLen int) WOp {
	op := WOp{Fmt: 0, Cs: genCs(t, true), Ts: genTs(t), Type: genType(t), Sid: genSid(t), P: genP(t, size, maxLen)}
	if op.Type == 1 {
		op.Type = 9
	}
	if chance(t, "compressed", 25) {
		op.Fmt = byte(genInt(t, "fmt", 1, 3))
	}
	return op
}

func genWFault(t *rapid.T) WFault {
	c := WFault{Size: genSize(t)}
	for i, n := 0, genInt(t, "before", 0, 2); i < n; i++ {
		c.Before = append(c.Before, genSimpleOp(t, c.Size, 50))
	}
	c.Op = genSimpleOp(t, c.Size, 700)
	c.After = genSimpleOp(t, c.Size, 50)
	c.Step = 1
	c.Flt = genFault(t)
	return c
}

func (op WOp) chunk() *chunk.Chunk {
	m := M{Cs: op.Cs, Ts: op.Ts, Type: op.Type, Sid: op.Sid, Data: op.P.Data()}
	return toChunk(&m, op.Fmt)
}

// solo is what one message looks like on a healthy destination.
func (op WOp) solo(size int) ([]byte, error) {
	w := new(sliceWriter)
	err := chunk.NewWriter(w, size).Write(op.chunk())
	return w.b, err
}

func runWFault(o *O, c WFault) {
	full, err := c.Op.solo(c.Size)
	if err != nil {
		o.Failf("spurious", "writing to a healthy destination: %v", err)
		return
	}
	after, _ := c.After.solo(c.Size)
	var before []byte
	for _, b := range c.Before {
		x, _ := b.solo(c.Size)
		before = append(before, x...)
	}
	if len(full) == 0 {
		o.Failf("empty", "a message is written as nothing")
		return
	}
	o.NT = len(full) > 1
	for _, mode := range []string{"error", "refuse", "short"} {
		for at := 0; at <= len(full); at += max(c.Step, 1) {
			if mode == "refuse" && at > 0 && at < len(full) && at%7 != 0 {
				// Where it matters is which call fails.
				continue
			}
			d := &faultDest{at: len(before) + at, mode: mode, err: fault(c.Flt)}
			w := chunk.NewWriter(d, c.Size)
			for i, b := range c.Before {
				if err := w.Write(b.chunk()); err != nil {
					o.Failf("spurious", "message %d before the fault: %v", i, err)
					return
				}
			}
			if !bytes.Equal(d.b, before) {
				o.Failf("encoding", "the messages before are encoded differently in a row: %x, want %x", d.b, before)
				return
			}
			ch := c.Op.chunk()
			err := w.Write(ch)
			got := d.b[len(before):]
			switch {
			case at == len(full) && err != nil:
				o.Failf("spurious", "the destination took all %d bytes, but the write reports %v", len(full), err)
			case at < len(full) && err == nil:
				o.Failf("unreported", "the destination failed (%s) at byte %d of %d, but the write reports success", mode, at, len(full))
			case !bytes.HasPrefix(full, got):
				o.Failf("garbled", "after failing (%s) at byte %d the destination holds %x, which is no prefix of %x", mode, at, got, full)
			case at == len(full) && !bytes.Equal(got, full):
				o.Failf("garbled", "the destination holds %d bytes of %d", len(got), len(full))
			case err != nil && mode != "short" && c.Flt == 0 && !errors.Is(err, errInjected):
				o.Failf("other-error", "the write reports %v, the destination said %v", err, errInjected)
			case !bytes.Equal(ch.Data, c.Op.P.Data()) || *ch.Header != *c.Op.chunk().Header:
				o.Failf("altered", "the message was changed by the failing write")
			}
			if o.Bad() {
				return
			}
			// The destination has recovered: nothing is left of the failure.
			n := len(d.b)
			fired := d.fired
			d.fired = true
			if err := w.Write(c.After.chunk()); err != nil {
				o.Failf("spurious", "the write after a failed one reports %v", err)
			} else if !bytes.Equal(d.b[n:], after) {
				o.Failf("leftover", "after a failed write (%v) the next message is written as %x, want %x", fired, d.b[n:], after)
			}
			if o.Bad() {
				return
			}
		}
		o.Class("%s", mode)
	}
	if len(full) > c.Op.P.N+30 {
		o.Class("several-chunks")
	}
}

// SharedCase: producers write to one destination, through one writer or each
// through its own. Every producer has its own chunk stream.
type SharedCase struct {
	Producers []Producer `json:"producers"`
	One       bool       `json:"one"` // one writer
	Size      int        `json:"size"`
	Delays    []int      `json:"delays"` // of the calls of the destination
	Fail      []int      `json:"fail"`   // calls that fail, taking nothing
	Flt       int        `json:"flt,omitempty"`
}

type Producer struct {
	Size   int   `json:"size"`
	Msgs   []WOp `json:"msgs"`
	Pauses []int `json:"pauses"`
}

func genShared(t *rapid.T) SharedCase {
	c := SharedCase{One: rapid.Bool().Draw(t, "one"), Size: genSize(t)}
	n := genInt(t, "producers", 2, 4)
	large := chance(t, "long", 3)
	for _, cs := range genCss(t, n, true) {
		p := Producer{Size: genSize(t)}
		for i, k := 0, genInt(t, "msgs", 1, 4); i < k; i++ {
			op := genSimpleOp(t, p.Size, 300)
			op.Cs, op.Fmt = cs, 0
			if large {
				// Longer than any buffer that the output may pass through.
				op.P.N = rapid.SampledFrom([]int{0, 700, 3000, 5000, 9000, 17000, 33000, 66000, 140000}).Draw(t, "large") + genInt(t, "more", 0, 2000)
			}
			p.Msgs = append(p.Msgs, op)
		}
		p.Pauses = genDelays(t)
		c.Producers = append(c.Producers, p)
	}
	c.Delays = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return genMs(t, "destDelay") }), 1, 5).Draw(t, "destDelays")
	if chance(t, "fails", 30) {
		c.Fail = rapid.SliceOfNDistinct(rapid.IntRange(0, 8), 1, 2, rapid.ID[int]).Draw(t, "fail")
		c.Flt = genFault(t)
	}
	return c
}

// sharedDest takes each call's bytes at once, some time into the call.
type sharedDest struct {
	mu     sync.Mutex
	b      []byte
	calls  int
	delays []int
	fail   map[int]bool
	failed int
	err    error
}

func (d *sharedDest) Write(p []byte) (int, error) {
	d.mu.Lock()
	i := d.calls
	d.calls++
	d.mu.Unlock()
	if x := d.delays[i%len(d.delays)]; x > 0 {
		time.Sleep(time.Duration(x) * time.Millisecond)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.fail[i] {
		d.failed++
		return 0, d.err
	}
	d.b = append(d.b, p...)
	return len(p), nil
}

func runShared(o *O, c SharedCase) {
	d := &sharedDest{delays: c.Delays, fail: map[int]bool{}, err: fault(c.Flt)}
	for _, f := range c.Fail {
		d.fail[f] = true
	}
	res := make([][]error, len(c.Producers))
	o.bubble(func() {
		one := chunk.NewWriter(d, c.Size)
		for i, p := range c.Producers {
			w := one
			if !c.One {
				w = chunk.NewWriter(d, p.Size)
			}
			go func() {
				for j, m := range p.Msgs {
					if len(p.Pauses) > 0 {
						time.Sleep(time.Duration(p.Pauses[j%len(p.Pauses)]) * time.Millisecond)
					}
					err := w.Write(m.chunk())
					d.mu.Lock()
					res[i] = append(res[i], err)
					d.mu.Unlock()
				}
			}()
		}
		time.Sleep(settle)
	})
	// The encodings that have to be there, and those of which a part may be:
	// the messages whose write failed.
	var want [][]due
	errs := 0
	for i, p := range c.Producers {
		if len(res[i]) != len(p.Msgs) {
			o.Failf("hang", "producer %d finished %d of %d writes", i, len(res[i]), len(p.Msgs))
			return
		}
		size := p.Size
		if c.One {
			size = c.Size
		}
		var ds []due
		for j, m := range p.Msgs {
			b, _ := m.solo(size)
			ds = append(ds, due{b, res[i][j] != nil})
			if len(b) > 1<<13 {
				o.Class("long")
			}
			if res[i][j] != nil {
				errs++
				if c.Flt == 0 && !errors.Is(res[i][j], errInjected) {
					o.Failf("spurious", "producer %d, message %d: %v", i, j, res[i][j])
					return
				}
			}
		}
		want = append(want, ds)
	}
	if (errs > 0) != (d.failed > 0) || errs > d.failed {
		o.Failf("errors", "%d writes report an error, %d calls of the destination failed", errs, d.failed)
		return
	}
	if d.failed > 0 {
		o.Class("failures")
	}
	if c.One {
		o.Class("one-writer")
	}
	o.NT = true
	deepest, left := 0, 0
	if !explain(d.b, want, make([]int, len(want)), 0, &deepest, &left) {
		if deepest == len(d.b) {
			o.Failf("lost", "messages that were written with success are missing at the end, %d at least", left)
			return
		}
		o.Failf("interleaved", "at byte %d of %d the destination holds no complete message that is due: %x", deepest, len(d.b), d.b[deepest:min(deepest+40, len(d.b))])
	}
}

// due is the encoding of a message, of which only a part is there if its write
// failed.
type due struct {
	b      []byte
	failed bool
}

// explain finds an order of the messages of all producers that yields b[at:].
func explain(b []byte, want [][]due, next []int, at int, deepest, left *int) bool {
	rest := 0
	for i := range want {
		for _, d := range want[i][next[i]:] {
			if !d.failed {
				rest++
			}
		}
	}
	if at > *deepest || at == *deepest && (rest < *left || *left == 0) {
		*deepest, *left = at, rest
	}
	if at == len(b) && rest == 0 {
		return true
	}
	for i := range want {
		if next[i] == len(want[i]) {
			continue
		}
		d := want[i][next[i]]
		next[i]++
		if !d.failed {
			if bytes.HasPrefix(b[at:], d.b) && explain(b, want, next, at+len(d.b), deepest, left) {
				return true
			}
		} else {
			n := 0
			for n < len(d.b)-1 && at+n < len(b) && d.b[n] == b[at+n] {
				n++
			}
			// Nothing, or all of what matches, or a little less where the next
			// message goes on like this one.
			for _, k := range []int{0, n, n - 1, n - 2} {
				if k >= 0 && explain(b, want, next, at+k, deepest, left) {
					return true
				}
				if n == 0 {
					break
				}
			}
		}
		next[i]--
	}
	return false
}

func (c SharedCase) steps() (n int) {
	for _, p := range c.Producers {
		n += len(p.Msgs)
		for _, m := range p.Msgs {
			n += m.P.N / 2000 // long messages count for more
		}
	}
	return
}

func (c SharedCase) grow(rep, _ int) SharedCase {
	ps := append([]Producer(nil), c.Producers...)
	for i := range ps {
		ps[i].Msgs = repeatOps(ps[i].Msgs, rep, nil, func(op *WOp, i int) { op.P.S += uint32(i) * 7 })
	}
	c.Producers = ps
	return c
}

func init() {
	Register(&Prop{ID: "C13", Together: 800,
		Rule: "Random messages (all formats, one to many chunks) written to a destination that fails at every byte offset in turn, in three ways, and then recovers; every offset of one message counts as part of one case. Random producers writing at the same time to one slow, sometimes failing destination, through one writer or several. Non-trivial: a message of more than one byte; two producers or more; distinct by content.",
		Subs: []*Sub{
			Enum("long-message", func(string) (out []WFault) {
				for _, cs := range []uint32{3, 64, 320} {
					for _, ts := range []uint32{5, 0x1000000} {
						op := WOp{Cs: cs, Ts: ts, Type: 9, Sid: 1, P: P{9000, 3}}
						out = append(out, WFault{Size: 4096, Op: op, After: op, Step: 13}, WFault{Size: 128, Op: op, After: op, Step: 17})
					}
				}
				return
			}, runWFault),
			Rand("huge", 400, func(t *rapid.T) WFault {
				c := genWFault(t)
				c.Size = max(c.Size, 1000)
				c.Op.P.N = genHuge(t)
				c.Step = c.Op.P.N/genInt(t, "positions", 3, 9) + genInt(t, "step", 1, 1000)
				return c
			}, runWFault),
			Rand("faults", 4000, genWFault, runWFault),
			Rand("producers", 60000, genShared, runShared),
			RandLong("long-producers", 1500, 0, genShared, SharedCase.steps, SharedCase.grow, runShared),
		}})
}
