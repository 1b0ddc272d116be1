package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// env.go: transports and consumers with scripted behaviour.

// Seg is one Read result of a scripted source: data (possibly none), an
// optional error returned together with it, after an optional pause.
type Seg struct {
	Data  []byte
	Err   error
	Sleep time.Duration
}

// source is a scripted io.Reader. After its script it blocks until released
// and then keeps returning endErr.
type source struct {
	mu       sync.Mutex
	segs     []Seg
	consumed int
	endErr   error
	release  chan struct{}
	once     sync.Once
	// atEnd is set once a Read found the script exhausted.
	atEnd bool
	// noBlock makes the source return endErr at its end instead of blocking.
	noBlock bool
	wake    chan struct{}
	// think are the pauses of the one who takes what is read, repeated.
	think []int
}

func newSource(segs ...Seg) *source {
	return &source{segs: segs, release: make(chan struct{}), wake: make(chan struct{}, 1), endErr: errEnd}
}

// paced is a source whose bytes come with pauses, at and between the bounds.
func paced(b []byte, bounds []int, ms []int) *source {
	if len(ms) == 0 {
		return bytesSource(b)
	}
	s := newSource()
	at, k := 0, 0
	next := func() time.Duration { k++; return time.Duration(ms[k%len(ms)]) * time.Millisecond }
	cut := func(to int) {
		if to > at {
			s.segs = append(s.segs, Seg{Data: b[at:to], Sleep: next()})
			at = to
		}
	}
	for _, e := range bounds {
		if d := ms[k%len(ms)]; d%2 == 0 {
			cut(at + (e-at)/2)
		}
		cut(e)
	}
	cut(len(b))
	s.think = ms[len(ms)/2:]
	return s
}

// slow puts pauses before the source's segments.
func (s *source) slow(ms []int) {
	for i := range s.segs {
		if len(ms) > 0 {
			s.segs[i].Sleep = time.Duration(ms[i%len(ms)]) * time.Millisecond
		}
	}
}

// pauses is the time the source takes.
func (s *source) pauses() (d time.Duration) {
	for _, g := range s.segs {
		d += g.Sleep
	}
	return
}

// genSlow draws pauses in milliseconds for one case in ten.
func genSlow(t *rapid.T) []int {
	if !chance(t, "slow", 10) {
		return nil
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 90, 301, 1500, 6001, 11000, 45001, 400000, 4000001}), 1, 5).Draw(t, "slow")
}

func bytesSource(b []byte) *source { return newSource(Seg{Data: b}) }

// bind makes the source belong to the current bubble.
func (s *source) bind() { s.release, s.wake = make(chan struct{}), make(chan struct{}, 1) }

// let ends the blocking phase.
func (s *source) let() { s.once.Do(func() { close(s.release) }) }

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		s.mu.Lock()
		if len(s.segs) > 0 {
			g := &s.segs[0]
			if g.Sleep > 0 {
				d := g.Sleep
				g.Sleep = 0
				s.mu.Unlock()
				time.Sleep(d)
				continue
			}
			n := copy(p, g.Data)
			g.Data = g.Data[n:]
			s.consumed += n
			if len(g.Data) > 0 {
				s.mu.Unlock()
				return n, nil
			}
			err := g.Err
			s.segs = s.segs[1:]
			s.mu.Unlock()
			return n, err
		}
		s.atEnd = true
		nb := s.noBlock
		s.mu.Unlock()
		if nb {
			// A reader that retries for ever must not starve the others.
			runtime.Gosched()
			return 0, s.endErr
		}
		select {
		case <-s.wake:
		case <-s.release:
			runtime.Gosched()
			return 0, s.endErr
		}
	}
}

// feed makes more input available.
func (s *source) feed(g ...Seg) {
	s.mu.Lock()
	for _, x := range g {
		if len(x.Data) > 0 || x.Err != nil {
			s.segs = append(s.segs, x)
			s.atEnd = false
		}
	}
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *source) Consumed() int { s.mu.Lock(); defer s.mu.Unlock(); return s.consumed }
func (s *source) AtEnd() bool   { s.mu.Lock(); defer s.mu.Unlock(); return s.atEnd }

// segment cuts b at the given offsets (any order, duplicates allowed: they
// make empty reads).
func segment(b []byte, cuts []int, last error) []Seg {
	var out []Seg
	at := 0
	for _, c := range cuts {
		if c < at {
			c = at
		}
		if c > len(b) {
			c = len(b)
		}
		out = append(out, Seg{Data: b[at:c]})
		at = c
	}
	out = append(out, Seg{Data: b[at:], Err: last})
	return out
}

// readout is what a consumer of a chunk reader saw.
type readout struct {
	mu   sync.Mutex
	msgs []*chunk.Chunk
	errs []error
	// returned is set once Recv has returned.
	returned bool
}

func (r *readout) Msgs() []*chunk.Chunk { r.mu.Lock(); defer r.mu.Unlock(); return r.msgs }
func (r *readout) Returned() bool       { r.mu.Lock(); defer r.mu.Unlock(); return r.returned }
func (r *readout) Errs() []error        { r.mu.Lock(); defer r.mu.Unlock(); return r.errs }

// readAll runs a fresh reader over src in a bubble until nothing more can
// happen. It stops taking errors after maxErrs of them (maxErrs < 0: never).
// at, if not nil, is called at quiescence, before the reader is taken down.
func readAll(o *O, src *source, size, maxErrs int, at func(r chunk.Reader, ro *readout)) *readout {
	ro := &readout{}
	d := src.pauses()
	o.bubble(func() {
		src.bind()
		r := chunk.NewReader(src, size, chunk.NewNormalizer())
		recvDone := make(chan struct{})
		stop := make(chan struct{})
		collected := make(chan struct{})
		go func() {
			r.Recv()
			ro.mu.Lock()
			ro.returned = true
			ro.mu.Unlock()
			close(recvDone)
		}()
		go func() {
			defer close(collected)
			errs := r.Errs()
			chunks := r.Chunks()
			for i := 0; ; i++ {
				if len(src.think) > 0 {
					time.Sleep(time.Duration(src.think[i%len(src.think)]) * time.Millisecond)
				}
				if maxErrs >= 0 && len(ro.Errs()) >= maxErrs {
					errs = nil
				}
				select {
				case c, ok := <-chunks:
					if !ok {
						chunks = nil
						continue
					}
					ro.mu.Lock()
					// Every other message is kept as it came, which shows
					// what becomes of it; the rest are kept as copies, and
					// made use of.
					if k := len(ro.msgs); k%2 == 1 {
						c = consumed(c)
					}
					ro.msgs = append(ro.msgs, c)
					ro.mu.Unlock()
				case e, ok := <-errs:
					if !ok {
						errs = nil
						continue
					}
					ro.mu.Lock()
					ro.errs = append(ro.errs, e)
					ro.mu.Unlock()
				case <-stop:
					return
				}
			}
		}()
		if d > 0 || len(src.think) > 0 {
			// Long enough, too, for one who thinks about every message.
			time.Sleep(d + 2000*time.Hour)
		}
		synctest.Wait()
		if at != nil {
			at(r, ro)
		}
		close(stop)
		<-collected
		shutReader(src, r, recvDone)
	})
	return ro
}

// consumed copies a message and writes all over the original, as its owner may:
// one who relays it gives it another chunk stream, another time and so on.
func consumed(c *chunk.Chunk) *chunk.Chunk {
	if c == nil || c.Header == nil {
		return c
	}
	h := *c.Header
	own := &chunk.Chunk{Header: &h, Data: bytes.Clone(c.Data)}
	d := c.Data[:cap(c.Data)]
	for i := range d {
		d[i] ^= 0xa5
	}
	c.Header.BasicHeader.StreamId ^= 0x55
	c.Header.BasicHeader.FormatId ^= 1
	m := &c.Header.MessageHeader
	m.FormatId ^= 3
	m.Timestamp ^= 0x123456
	m.TimestampDelta = !m.TimestampDelta
	m.Length += 7
	m.TypeId ^= 0x1d
	m.StreamId ^= 0x01010101
	c.Header.ExtendedTimestamp.Delta ^= 0x5a5a5a5a
	return own
}

// shutReader takes a reader down. It makes no demands: closing is C09's topic.
func shutReader(src *source, r chunk.Reader, recvDone chan struct{}) {
	src.let()
	go r.Close()
	for {
		runtime.Gosched()
		select {
		case _, ok := <-r.Chunks():
			if !ok {
				<-recvDone
				return
			}
		case _, ok := <-r.Errs():
			if !ok {
				<-recvDone
				return
			}
		case <-recvDone:
			return
		}
	}
}

// settle is more than any history takes. In a bubble it costs nothing.
const settle = 100000 * time.Hour

// genMs draws a pause in milliseconds: mostly none or a short one, at times one
// that outlasts what a user would call patience.
func genMs(t *rapid.T, name string) int {
	switch genInt(t, name+"Kind", 0, 15) {
	case 0, 1, 2, 3, 4, 5, 6:
		return 0
	case 15:
		return rapid.SampledFrom([]int{300, 1500, 6000, 45000, 400000, 4000000}).Draw(t, name+"Long")
	}
	return genInt(t, name, 0, 20)
}

// genDelays draws the pauses of a consumer, which are repeated.
func genDelays(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return genMs(t, "delay") }), 0, 3).Draw(t, "delays")
}

// genShortDelays is for histories that have to end within a minute.
func genShortDelays(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 20)), 0, 3).Draw(t, "delays")
}

var errInjected = errors.New("injected fault")

// errList is an error that cannot be compared.
type errList []string

func (e errList) Error() string { return fmt.Sprint([]string(e)) }

// errTemp is a network's error of the kind that passes.
type errTemp struct{}

func (errTemp) Error() string   { return "injected fault that passes" }
func (errTemp) Timeout() bool   { return true }
func (errTemp) Temporary() bool { return true }

// faults are the errors that sources and destinations fail with. Those that
// mean something to a reader come first.
var faults = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, net.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EPIPE, syscall.ECONNRESET, syscall.EAGAIN, syscall.EINTR, context.Canceled, context.DeadlineExceeded,
	errTemp{}, errList{"injected", "fault"},
	&net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed},
	&net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}},
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "read", Net: "tcp", Err: &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}},
}

const readFaults = 3 // the first one that a source fails with in mid-message

// fault is an error: 0 the plain one, n the n-th other one.
func fault(n int) error {
	if n <= 0 {
		return errInjected
	}
	return faults[(n-1)%len(faults)]
}

// readFault is an error that no reader takes for the end of its input.
func readFault(n int) error {
	if n <= readFaults {
		return errInjected
	}
	return fault(n)
}

// stepFault is the fault of a step, which names the step if it is a plain one.
func stepFault(i, n int) error {
	if n <= 0 {
		return csErr{i}
	}
	return fault(n)
}

// readStepFault is that of a step that makes a read fail.
func readStepFault(i, n int) error {
	if n <= readFaults {
		n = 0
	}
	return stepFault(i, n)
}

func genFault(t *rapid.T) int {
	if chance(t, "plainFault", 40) {
		return 0
	}
	return genInt(t, "fault", 1, len(faults))
}

// errEnd is what sources report at their end.
var errEnd = io.EOF
