package props

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"pgregory.net/rapid"
)

// cmds.go: commands, responses and statuses as the specification sees them,
// and a driver for components with two directions.

// Cmd is a command message: name, transaction id, command object, arguments.
type Cmd struct {
	Name string `json:"name"`
	Tid  Val    `json:"tid"`
	Obj  Val    `json:"obj"`
	Args []Val  `json:"args,omitempty"`
	// Extra are further values after the arguments that the command has.
	Extra []Val `json:"extra,omitempty"`
	// Mal spoils the encoding: "trunc" (At permille kept), "unknown",
	// "header" (name is not a string), "type" (a wrong argument type),
	// "marker" (an unassigned AMF0 marker).
	Mal string `json:"mal,omitempty"`
	At  int    `json:"at,omitempty"`
}

func (c Cmd) vals() []Val {
	vs := append([]Val{vStr(c.Name), c.Tid, c.Obj}, c.Args...)
	if c.Mal != "trunc" {
		vs = append(vs, c.Extra...)
	}
	return vs
}

// genExtra draws optional arguments, which a command may or may not have.
func genExtra(t *rapid.T) []Val {
	if !chance(t, "extra", 12) {
		return nil
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Val {
		return oneOf(t, "extraKind", genNum, genStr, genObjOrNull, func(t *rapid.T) Val { return vBool(rapid.Bool().Draw(t, "b")) })(t)
	}), 1, 3).Draw(t, "extras")
}

func (c Cmd) payload() []byte {
	vs := c.vals()
	switch c.Mal {
	case "unknown":
		vs[0] = vStr(c.unknown())
	case "header":
		vs[0] = []Val{vNum(3), vNull(), vBool(true), {K: "obj"}}[c.At%4]
	case "type":
		i := 1
		if len(c.Args) > 0 {
			i = 3 + c.At%len(c.Args)
		}
		if vs[i].K == "num" {
			vs[i] = vStr("not a number")
		} else {
			vs[i] = vNum(7)
		}
	case "marker":
		return append([]byte{0xf0 | byte(c.At)}, encVals(vs...)...)
	}
	b := encVals(vs...)
	if c.Mal == "trunc" {
		b = b[:min(c.At*len(b)/1000, len(b)-1)]
	}
	return b
}

// unknown is a name that no command has, often one that resembles a command's.
func (c Cmd) unknown() string {
	n := c.Name
	name := []string{"x", "", "Connect", "play3", "closeStream", "onStatus", "pub", strings.ToUpper(n), strings.ToLower(n),
		strings.ToUpper(n[:1]) + n[1:], n + " ", " " + n, n + "\x00", n[:len(n)-1], n[1:], n + n, n + "s", "@" + n}[c.At%18]
	for _, known := range append(append([]string(nil), connNames...), streamNames...) {
		if name == known {
			return "x"
		}
	}
	return name
}

func genMal(t *rapid.T, c *Cmd) {
	c.Mal = oneOf(t, "mal", "trunc", "trunc", "unknown", "header", "type", "marker")
	c.At = genInt(t, "at", 0, 999)
}

var connNames = []string{"connect", "createStream", "releaseStream", "FCPublish", "getStreamLength"}

func genConnCmd(t *rapid.T) Cmd {
	c := Cmd{Name: oneOf(t, "name", connNames...), Tid: genNum(t), Obj: vNull()}
	switch c.Name {
	case "connect", "createStream":
		c.Obj = genObjOrNull(t)
	default:
		c.Args = []Val{genStr(t)}
	}
	c.Extra = genExtra(t)
	return c
}

// diffConn says how a received command differs from c.
func (c Cmd) diffConn(r conn.Receivable) string {
	ok, name := false, ""
	num := func(f float64) bool { return vNum(f).same(c.Tid) }
	str := func(s string) bool { return vStr(s).same(vStr(c.Args[0].str())) }
	switch r := r.(type) {
	case *conn.ConnectCommand:
		name, ok = "connect", num(r.TransactionId) && c.Obj.eqObj(r.Metadata)
	case *conn.CreateStreamCommand:
		name, ok = "createStream", num(r.TransactionId) && c.Obj.eqObj(r.Metadata)
	case *conn.ReleaseCommand:
		name, ok = "releaseStream", num(r.TransactionId) && len(c.Args) > 0 && str(r.StreamKey)
	case *conn.FCPublishCommand:
		name, ok = "FCPublish", num(r.TransactionId) && len(c.Args) > 0 && str(r.StreamKey)
	case *conn.GetStreamLength:
		name, ok = "getStreamLength", num(r.StreamId) && len(c.Args) > 0 && str(r.PlayPath)
	default:
		return fmt.Sprintf("delivered as a %T, want %s", r, c.Name)
	}
	if !r.CanReceive() {
		return fmt.Sprintf("%T.CanReceive() is false", r)
	}
	if name != c.Name {
		return fmt.Sprintf("a %s command is delivered as %s", c.Name, name)
	}
	if !ok {
		return fmt.Sprintf("%s %s was delivered as %+v", c.Name, clip(fmt.Sprintf("%+v", c), 400), r)
	}
	return ""
}

var streamNames = []string{"play", "play2", "deleteStream", "receiveAudio", "receiveVideo", "publish", "seek", "pause"}

func genStreamCmd(t *rapid.T) Cmd {
	c := Cmd{Name: oneOf(t, "name", streamNames...), Tid: genNum(t), Obj: genObjOrNull(t)}
	b := func() Val { return vBool(rapid.Bool().Draw(t, "b")) }
	switch c.Name {
	case "play":
		c.Args = []Val{genStr(t), genNum(t)}
	case "play2":
		c.Args = []Val{genObjOrNull(t)}
	case "deleteStream", "seek":
		c.Args = []Val{genNum(t)}
	case "receiveAudio", "receiveVideo":
		c.Args = []Val{b()}
	case "publish":
		c.Args = []Val{genStr(t), genStr(t)}
	case "pause":
		c.Args = []Val{b(), genNum(t)}
	}
	c.Extra = genExtra(t)
	return c
}

func (c Cmd) diffStream(r stream.Command) string {
	ok, name := false, ""
	a := append(append([]Val(nil), c.Args...), Val{}, Val{})
	num := func(f float64, v Val) bool { return vNum(f).same(v) }
	str := func(s string, v Val) bool { return v.K == "str" && s == v.str() }
	switch r := r.(type) {
	case *stream.CommandPlay:
		name, ok = "play", str(r.PlayPath, a[0]) && num(r.Live, a[1])
	case *stream.CommandPlay2:
		name, ok = "play2", a[0].eqObj(r.Parameters)
	case *stream.CommandDeleteStream:
		name, ok = "deleteStream", num(r.StreamId, a[0])
	case *stream.CommandReceiveAudio:
		name, ok = "receiveAudio", r.Successful == a[0].B
	case *stream.CommandReceiveVideo:
		name, ok = "receiveVideo", r.Successful == a[0].B
	case *stream.CommandPublish:
		name, ok = "publish", str(r.Name, a[0]) && str(r.Type, a[1])
	case *stream.CommandSeek:
		name, ok = "seek", num(r.OffsetMillis, a[0])
	case *stream.CommandPause:
		name, ok = "pause", r.Paused == a[0].B && num(r.CutoffMillis, a[1])
	default:
		return fmt.Sprintf("delivered as a %T, want %s", r, c.Name)
	}
	if !r.IsCommand() {
		return fmt.Sprintf("%T.IsCommand() is false", r)
	}
	if name != c.Name {
		return fmt.Sprintf("a %s command is delivered as %s", c.Name, name)
	}
	if !ok {
		return fmt.Sprintf("%s %s was delivered as %+v", c.Name, clip(fmt.Sprintf("%+v", c), 400), r)
	}
	return ""
}

// Resp is a response or, with Kind "status", a status.
type Resp struct {
	Kind string `json:"kind"` // connect, createStream, status
	Tid  Val    `json:"tid"`
	A    Val    `json:"a"`
	B    Val    `json:"b"`
}

func genResp(t *rapid.T) Resp {
	r := Resp{Kind: oneOf(t, "resp", "connect", "createStream"), Tid: genNum(t)}
	if r.Kind == "connect" {
		r.A, r.B = genObj(t, 2), genObj(t, 2)
	} else {
		r.A = genNum(t)
	}
	return r
}

func genStatus(t *rapid.T) Resp { return Resp{Kind: "status", A: genObj(t, 2)} }

// vals is what has to be on the wire.
func (r Resp) vals() []Val {
	switch r.Kind {
	case "connect":
		return []Val{vStr("_result"), r.Tid, r.A, r.B}
	case "createStream":
		return []Val{vStr("_result"), r.Tid, vNull(), r.A}
	}
	return []Val{vStr("onStatus"), vNum(0), vNull(), r.A}
}

func (r Resp) marshallable() conn.Marshallable {
	if r.Kind == "connect" {
		return &conn.ConnectResponse{
			TransactionId: r.Tid.num(),
			Properties:    *r.A.amf().(*amf0.Object),
			Information:   *r.B.amf().(*amf0.Object),
		}
	}
	return &conn.CreateStreamResponse{TransactionId: r.Tid.num(), StreamID: r.A.num()}
}

func (r Resp) status() *stream.Status {
	s := stream.NewStatus()
	s.Arguments = *r.A.amf().(*amf0.Object)
	return s
}

// check compares a written message with r.
func (r Resp) check(m M) string {
	cs, sid := uint32(3), uint32(0)
	if r.Kind == "status" {
		cs, sid = 5, 1
	}
	if m.Cs != cs || m.Sid != sid || m.Type != 0x14 {
		return fmt.Sprintf("a %s went out on chunk stream %d, message stream %d with type %#x", r.Kind, m.Cs, m.Sid, m.Type)
	}
	vs, err := refDecodeVals(m.Data)
	if err != nil {
		return fmt.Sprintf("the payload of a %s is malformed: %v in %x", r.Kind, err, m.Data)
	}
	if !sameVals(vs, r.vals()) {
		return clip(fmt.Sprintf("a %s went out as %+v, want %+v", r.Kind, vs, r.vals()), 1500)
	}
	return ""
}

// failMarshal cannot be marshalled.
type failMarshal struct{ err error }

func (f *failMarshal) Marshal() ([]byte, error) { return []byte{1}, f.err }

// failAmf is an AMF0 value that cannot be encoded.
type failAmf struct {
	amf0.Null
	err error
}

func (f *failAmf) Encode(io.Writer) (int, error) { return 0, f.err }

// ---------------------------------------------------------------- duplex

// DOp is one step of the history of a component with two directions.
type DOp struct {
	// Op: "in", "bad" (incoming), "out", "unenc", "wfail" (outgoing), "end".
	Op    string `json:"op"`
	Pause int    `json:"pause,omitempty"`
	Slow  int    `json:"slow,omitempty"`
	Flt   int    `json:"flt,omitempty"` // which fault it is
}

func (d DOp) incoming() bool { return d.Op == "in" || d.Op == "bad" || d.Op == "end" }

// Sched is how producers and consumers are scheduled.
type Sched struct {
	Step     bool  `json:"step"`
	InDelay  []int `json:"in_delay"`
	ErrDelay []int `json:"err_delay"`
}

func genPause(t *rapid.T, name string) int {
	return genMs(t, name)
}

func genSched(t *rapid.T) Sched {
	p := rapid.Custom(func(t *rapid.T) int { return genMs(t, "delay") })
	return Sched{
		Step:     chance(t, "step", 35),
		InDelay:  rapid.SliceOfN(p, 1, 3).Draw(t, "inDelay"),
		ErrDelay: rapid.SliceOfN(p, 1, 3).Draw(t, "errDelay"),
	}
}

func genDOp(t *rapid.T) DOp {
	op := DOp{
		Op:    oneOf(t, "op", "in", "in", "in", "out", "out", "out", "bad", "unenc", "wfail", "end"),
		Pause: genPause(t, "pause"),
		Slow:  oneOf(t, "slow", 0, 0, 0, 0, 3, 11, 8000),
	}
	if op.Op == "unenc" || op.Op == "wfail" {
		op.Flt = genFault(t)
	}
	return op
}

// cutAfterEnd drops incoming steps after the end of the input.
func cutAfterEnd[T any](ops []T, op func(T) DOp) (out []T) {
	ended := false
	for _, x := range ops {
		if ended && op(x).incoming() {
			continue
		}
		ended = ended || op(x).Op == "end"
		out = append(out, x)
	}
	return
}

// duplex is the component under test, made inside the bubble.
type duplex[I any] struct {
	loop  func()
	close func()
	in    <-chan I
	errs  <-chan error
	feed  chan<- *chunk.Chunk
	chunk func(i int) *chunk.Chunk
	send  func(i int)
}

// runDuplex drives a component through a history and returns what came in and
// which errors were reported. It checks the counts, stepwise if asked to.
func runDuplex[I any](o *O, ops []DOp, sc Sched, pw *planWriter, make func() duplex[I]) (gotIn []I, gotErr []error) {
	for i, op := range ops {
		slow := time.Duration(op.Slow) * time.Millisecond
		switch op.Op {
		case "out":
			pw.plan = append(pw.plan, planItem{slow: slow})
		case "wfail":
			pw.plan = append(pw.plan, planItem{err: stepFault(i, op.Flt), slow: slow})
		}
		o.Class("%s", op.Op)
	}
	if sc.Step {
		o.Class("stepwise")
	}
	nIn, nOut, nErr := 0, 0, 0
	count := func(op DOp) {
		switch op.Op {
		case "in":
			nIn++
		case "out":
			nOut++
		case "end":
		default:
			nErr++
		}
	}
	var mu sync.Mutex
	o.bubble(func() {
		d := make()
		go d.loop()
		stop := mkchan()
		var cons sync.WaitGroup
		cons.Add(2)
		go func() {
			defer cons.Done()
			for i := 0; ; i++ {
				select {
				case m, ok := <-d.in:
					if !ok {
						return
					}
					mu.Lock()
					gotIn = append(gotIn, m)
					mu.Unlock()
				case <-stop:
					return
				}
				time.Sleep(time.Duration(sc.InDelay[i%len(sc.InDelay)]) * time.Millisecond)
			}
		}()
		go func() {
			defer cons.Done()
			for i := 0; ; i++ {
				select {
				case err, ok := <-d.errs:
					if !ok {
						return
					}
					mu.Lock()
					gotErr = append(gotErr, err)
					mu.Unlock()
				case <-stop:
					return
				}
				time.Sleep(time.Duration(sc.ErrDelay[i%len(sc.ErrDelay)]) * time.Millisecond)
			}
		}()
		do := func(i int, op DOp) {
			time.Sleep(time.Duration(op.Pause) * time.Millisecond)
			switch op.Op {
			case "in", "bad":
				d.feed <- d.chunk(i)
			case "end":
				close(d.feed)
			default:
				d.send(i)
			}
		}
		if sc.Step {
			for i, op := range ops {
				do(i, op)
				time.Sleep(settle / 1000)
				synctest.Wait()
				count(op)
				mu.Lock()
				if len(gotIn) != nIn || len(pw.Got()) != nOut || len(gotErr) != nErr {
					o.Failf("step", "after step %d (%s): %d messages in, %d out, %d errors; want %d, %d, %d (errors %v)", i, op.Op, len(gotIn), len(pw.Got()), len(gotErr), nIn, nOut, nErr, gotErr)
				}
				mu.Unlock()
				if o.Bad() {
					break
				}
			}
		} else {
			for _, op := range ops {
				count(op)
			}
			var prod sync.WaitGroup
			prod.Add(2)
			run := func(incoming bool) {
				defer prod.Done()
				for i, op := range ops {
					if op.incoming() == incoming {
						do(i, op)
					}
				}
			}
			go run(true)
			go run(false)
			prod.Wait()
			time.Sleep(settle)
			synctest.Wait()
		}
		close(stop)
		cons.Wait()
		go func() {
			for range d.in {
			}
		}()
		go func() {
			for range d.errs {
			}
		}()
		go d.close()
	})
	if o.Bad() {
		return
	}
	if len(gotIn) != nIn || len(pw.Got()) != nOut || len(gotErr) != nErr || pw.Attempts() != len(pw.plan) {
		o.Failf("count", "%d messages in, %d out (%d attempts), %d errors; want %d, %d (%d), %d (errors %v)", len(gotIn), len(pw.Got()), pw.Attempts(), len(gotErr), nIn, nOut, len(pw.plan), nErr, gotErr)
		return
	}
	// What was written must not have been altered by what followed.
	for i, c := range pw.keep {
		m := fromChunk(c)
		if d := diffM(&m, &pw.snaps[i]); d != "" {
			o.Failf("altered", "written message %d was altered afterwards:%s", i, d)
			return
		}
	}
	return
}

func mkchan() chan struct{} { return make(chan struct{}) }
