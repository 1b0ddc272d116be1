package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"pgregory.net/rapid"
)

// C20: the parts that users supply (factories, parsers, chunkers, messages,
// normalizers, readers, handshake sequences) are used as they were given.

// containsErr says whether err is want or wraps it, or says what it says.
func containsErr(err, want error) bool {
	return errors.Is(err, want) || strings.Contains(err.Error(), want.Error())
}

// partErr is the error of a part that a user supplied, for a step.
type partErr struct {
	i   int
	err error
}

func (e *partErr) Error() string { return fmt.Sprintf("part, step %d: %v", e.i, e.err) }
func (e *partErr) Unwrap() error { return e.err }

// ------------------------------------------------- command parsers by name

// NameSet is a parser: the names it was given, and what each stands for. As
// counts the library's commands, and then ownCommand.
type NameSet struct {
	Stream bool     `json:"stream"`
	Names  []string `json:"names"`
	As     []int    `json:"as"`
}

// NameOp parses one command with parser P; -1 and -2 are the default ones.
type NameOp struct {
	P    int    `json:"p"`
	Name string `json:"name"`
	Cmd  Cmd    `json:"cmd"`
	// Own is for ownCommand.
	Own   []Val `json:"own,omitempty"`
	Trunc bool  `json:"trunc,omitempty"`
}

type NamesCase struct {
	Sets []NameSet `json:"sets"`
	Ops  []NameOp  `json:"ops"`
}

// ownCommand is a user's command.
type ownCommand struct {
	TransactionId float64
	Key           string
	Flag          bool
	Info          *amf0.Object
}

func (*ownCommand) CanReceive() bool { return true }
func (*ownCommand) IsCommand() bool  { return true }

func diffOwn(got any, vs []Val) string {
	c, ok := got.(*ownCommand)
	if !ok {
		return fmt.Sprintf("delivered as a %T, want the user's own command", got)
	}
	if !vNum(c.TransactionId).same(vs[0]) || c.Key != vs[1].str() || c.Flag != vs[2].B || !vs[3].eqObj(c.Info) {
		return clip(fmt.Sprintf("the user's own command %+v was delivered as %+v", vs, c), 1200)
	}
	return ""
}

var defaultConn = NameSet{false, connNames, []int{0, 1, 2, 3, 4}}
var defaultStream = NameSet{true, streamNames, []int{0, 1, 2, 3, 4, 5, 6, 7}}

func (c NamesCase) set(p int) NameSet {
	switch {
	case p == -1:
		return defaultConn
	case p == -2:
		return defaultStream
	}
	return c.Sets[p]
}

func (s NameSet) kinds() []string {
	if s.Stream {
		return streamNames
	}
	return connNames
}

// as is what the name stands for; -1: nothing.
func (s NameSet) as(name string) int {
	if i := slices.Index(s.Names, name); i >= 0 {
		return s.As[i]
	}
	return -1
}

func genName(t *rapid.T) string {
	switch genInt(t, "nameKind", 0, 5) {
	case 0, 1:
		return oneOf(t, "known", append(append([]string(nil), connNames...), streamNames...)...)
	case 2:
		return Cmd{Name: oneOf(t, "base", "play", "publish", "connect"), At: genInt(t, "variant", 0, 17)}.unknown()
	case 3:
		return oneOf(t, "usual", "FCUnpublish", "closeStream", "call", "_result", "_error", "onStatus", "@setDataFrame", "getStreamLength2", "")
	case 4:
		b := P{oneOf(t, "n", 1, 2, 64, 255, 256, 4000), uint32(genInt(t, "s", 0, 50))}.Data()
		for i := range b {
			b[i] &= 0x7f // cases are kept as JSON, whose strings are UTF-8
		}
		return string(b)
	}
	return rapid.StringN(0, 6, 12).Draw(t, "any")
}

func genNames(t *rapid.T) NamesCase {
	var c NamesCase
	for range genInt(t, "sets", 1, 3) {
		s := NameSet{Stream: rapid.Bool().Draw(t, "stream")}
		for range oneOf(t, "names", 0, 1, 1, 2, 3, 5) {
			if n := genName(t); !slices.Contains(s.Names, n) {
				s.Names = append(s.Names, n)
				s.As = append(s.As, genInt(t, "as", 0, len(s.kinds())))
			}
		}
		c.Sets = append(c.Sets, s)
	}
	for range genInt(t, "ops", 1, 10) {
		op := NameOp{P: genInt(t, "p", -2, len(c.Sets)-1), Trunc: chance(t, "trunc", 10)}
		s := c.set(op.P)
		if len(s.Names) > 0 && chance(t, "its", 75) {
			op.Name = oneOf(t, "name", s.Names...)
		} else if o := c.set(genInt(t, "other", -2, len(c.Sets)-1)); len(o.Names) > 0 && chance(t, "anothers", 50) {
			op.Name = oneOf(t, "name", o.Names...)
		} else if len(s.Names) > 0 && chance(t, "near", 60) {
			op.Name = nearName(t, oneOf(t, "name", s.Names...))
		} else {
			op.Name = genName(t)
		}
		as := s.as(op.Name)
		if as < 0 {
			as = genInt(t, "like", 0, len(s.kinds()))
		}
		if as == len(s.kinds()) {
			op.Own = []Val{genNum(t), genStr(t), vBool(rapid.Bool().Draw(t, "flag")), genObjOrNull(t)}
			if op.Cmd.Tid, op.Cmd.Obj = genNum(t), vNull(); chance(t, "obj", 50) {
				op.Cmd.Obj = genObj(t, 1)
			}
		} else {
			op.Cmd = genCmdNamed(t, s.Stream, s.kinds()[as])
			if op.Trunc {
				op.Cmd.Extra = nil
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// nearName draws a name like n.
func nearName(t *rapid.T, n string) string {
	if n == "" {
		n = "x"
	}
	b := []byte(n)
	first, last := 0, len(b)-1
	switch genInt(t, "near", 0, 5) {
	case 0: // another case from some letter on
		first = genInt(t, "from", 0, last)
	case 1: // another case of one letter
		first = genInt(t, "at", 0, last)
		last = first
	case 2: // another letter
		at := genInt(t, "at", 0, last)
		b[at] = byte(genInt(t, "letter", 0, 127))
		return string(b)
	case 3, 4:
		return Cmd{Name: n, At: genInt(t, "at", 7, 17)}.unknown()
	}
	for i := first; i <= last; i++ {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// genCmdNamed draws a command of a given kind.
func genCmdNamed(t *rapid.T, ofStream bool, name string) Cmd {
	if ofStream {
		return rapid.Custom(genStreamCmd).Filter(func(c Cmd) bool { return c.Name == name }).Draw(t, "cmd")
	}
	return rapid.Custom(genConnCmd).Filter(func(c Cmd) bool { return c.Name == name }).Draw(t, "cmd")
}

func runNames(o *O, c NamesCase) {
	made := map[any][2]int{}
	connP := make([]conn.Parser, len(c.Sets))
	streamP := make([]stream.Parser, len(c.Sets))
	var mu sync.Mutex
	note := func(v any, si, ni int) {
		mu.Lock()
		made[v] = [2]int{si, ni}
		mu.Unlock()
	}
	for si, s := range c.Sets {
		if s.Stream {
			m := map[string]stream.CommandFactory{}
			for ni, name := range s.Names {
				m[name] = func() stream.Command {
					v := []func() stream.Command{
						func() stream.Command { return new(stream.CommandPlay) }, func() stream.Command { return new(stream.CommandPlay2) },
						func() stream.Command { return new(stream.CommandDeleteStream) }, func() stream.Command { return new(stream.CommandReceiveAudio) },
						func() stream.Command { return new(stream.CommandReceiveVideo) }, func() stream.Command { return new(stream.CommandPublish) },
						func() stream.Command { return new(stream.CommandSeek) }, func() stream.Command { return new(stream.CommandPause) },
						func() stream.Command { return new(ownCommand) }}[s.As[ni]]()
					note(v, si, ni)
					return v
				}
			}
			streamP[si] = stream.NewParser(m)
			continue
		}
		m := map[string]conn.ReceviableFactory{}
		for ni, name := range s.Names {
			m[name] = func() conn.Receivable {
				v := []func() conn.Receivable{
					func() conn.Receivable { return &conn.ConnectCommand{Metadata: amf0.NewObject()} },
					func() conn.Receivable { return &conn.CreateStreamCommand{Metadata: amf0.NewObject()} },
					func() conn.Receivable { return new(conn.ReleaseCommand) }, func() conn.Receivable { return new(conn.FCPublishCommand) },
					func() conn.Receivable { return new(conn.GetStreamLength) }, func() conn.Receivable { return new(ownCommand) }}[s.As[ni]]()
				note(v, si, ni)
				return v
			}
		}
		connP[si] = conn.NewParser(m)
	}
	type result struct {
		op  int
		got any
	}
	var got []result
	check := func(r result) string {
		op := c.Ops[r.op]
		s := c.set(op.P)
		if s.as(op.Name) == len(s.kinds()) {
			return diffOwn(r.got, op.Own)
		}
		if x, ok := r.got.(conn.Receivable); ok && !s.Stream {
			return op.Cmd.diffConn(x)
		}
		if x, ok := r.got.(stream.Command); ok && s.Stream {
			return op.Cmd.diffStream(x)
		}
		return fmt.Sprintf("delivered as a %T", r.got)
	}
	seen := map[any]int{}
	for i, op := range c.Ops {
		s := c.set(op.P)
		vs := op.Cmd.vals()[1:]
		if op.Own != nil {
			vs = op.Own
			if s.Stream {
				vs = append([]Val{op.Cmd.Tid, op.Cmd.Obj}, op.Own...)
			}
		}
		if s.Stream {
			vs = append([]Val{vStr(op.Name)}, vs...)
		}
		b := encVals(vs...)
		if op.Trunc {
			b = b[:len(b)-1]
		}
		var v any
		var err error
		if s.Stream {
			p := stream.DefaultParser
			if op.P >= 0 {
				p = streamP[op.P]
			}
			v, err = p.Parse(bytes.NewReader(b))
		} else {
			p := conn.DefaultParser
			if op.P >= 0 {
				p = connP[op.P]
			}
			v, err = p.Parse(amf0.NewString(op.Name), bytes.NewReader(b))
		}
		as := s.as(op.Name)
		switch {
		case as < 0 && err == nil:
			o.Failf("unknown", "step %d: parser %d, which knows %q, accepts %q as a %T", i, op.P, s.Names, op.Name, v)
		case as < 0:
			o.Class("unknown")
		case op.Trunc && err == nil:
			o.Failf("truncated", "step %d: parser %d accepts a %q that lacks its last byte", i, op.P, op.Name)
		case op.Trunc:
			o.Class("truncated")
		case err != nil:
			o.Failf("rejected", "step %d: parser %d, which knows %q, rejects %q: %v", i, op.P, s.Names, op.Name, err)
		default:
			o.NT = true
			if op.P >= 0 {
				o.Class("own-parser")
				if m, ok := made[v]; !ok || m[0] != op.P || s.Names[m[1]] != op.Name {
					o.Failf("factory", "step %d: parser %d gives for %q a %T that the factory for that name did not make", i, op.P, op.Name, v)
				}
			}
			if j, ok := seen[v]; ok {
				o.Failf("fresh", "steps %d and %d: the same %T is given for two messages", j, i, v)
			}
			seen[v] = i
			if as == len(s.kinds()) {
				o.Class("own-command")
			}
			got = append(got, result{i, v})
			if d := check(got[len(got)-1]); d != "" {
				o.Failf("value", "step %d, parser %d, name %q: %s", i, op.P, op.Name, d)
			}
		}
		if o.Bad() {
			return
		}
	}
	for _, r := range got {
		if d := check(r); d != "" {
			o.Failf("shared", "step %d, after later ones: %s", r.op, d)
			return
		}
	}
}

// --------------------------------------------------- media parsers by type

// MediaCase: parsers, each with the type ids of its user's media, and what
// they are asked.
type MediaCase struct {
	Sets [][]byte  `json:"sets"`
	Ops  []MediaOp `json:"ops"`
}

// MediaOp: P -1 is the default parser.
type MediaOp struct {
	P    int   `json:"p"`
	New  bool  `json:"new,omitempty"`
	Fail bool  `json:"fail,omitempty"`
	F    Frame `json:"f"`
}

// ownData is a user's kind of media.
type ownData struct {
	id, set byte
	read    []*chunk.Chunk
	fail    func(*chunk.Chunk) error
	back    *chunk.Chunk
	err     error
}

func (d *ownData) Id() byte { return d.id }
func (d *ownData) Read(c *chunk.Chunk) error {
	d.read = append(d.read, c)
	if d.fail != nil {
		return d.fail(c)
	}
	return nil
}
func (d *ownData) Marshal() (*chunk.Chunk, error) { return d.back, d.err }

func genMedia(t *rapid.T) MediaCase {
	var c MediaCase
	id := rapid.Custom(func(t *rapid.T) byte {
		if chance(t, "usual", 60) {
			return oneOf[byte](t, "id", 8, 9, 0x12, 0x0f, 0x10, 0x11, 0x13, 0x14, 0x16, 0, 1, 255, 0x88)
		}
		return rapid.Byte().Draw(t, "any")
	})
	for range genInt(t, "sets", 1, 3) {
		c.Sets = append(c.Sets, rapid.SliceOfNDistinct(id, oneOf(t, "least", 0, 1, 2, 3), 6, func(b byte) byte { return b }).Draw(t, "ids"))
	}
	for range genInt(t, "ops", 1, 10) {
		op := MediaOp{P: genInt(t, "p", -1, len(c.Sets)-1), New: chance(t, "new", 20), Fail: chance(t, "fail", 15), F: genFrame(t)}
		if op.P >= 0 {
			op.F.Type = id.Draw(t, "type")
			if s := c.Sets[op.P]; len(s) > 0 && chance(t, "its", 75) {
				op.F.Type = oneOf(t, "which", s...)
			}
			if op.F.Type != 0x12 {
				op.F.Trunc, op.F.Ctl = 0, max(op.F.Ctl, 0)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runMedia(o *O, c MediaCase) {
	ps := make([]*data.SimpleParser, len(c.Sets))
	var failing error
	for si, ids := range c.Sets {
		var fs []data.DataFactory
		for _, id := range ids {
			fs = append(fs, func() data.Data {
				return &ownData{id: id, set: byte(si), fail: func(*chunk.Chunk) error { return failing }}
			})
		}
		ps[si] = data.NewParser(fs...)
	}
	seen := map[data.Data]int{}
	for i, op := range c.Ops {
		p, known := data.DefaultParser, op.F.known()
		if op.P >= 0 {
			p, known = ps[op.P], slices.Contains(c.Sets[op.P], op.F.Type)
		}
		failing = nil
		if op.Fail && op.P >= 0 && !op.New {
			failing = &partErr{i, fault(i % (len(faults) + 1))}
		}
		var d data.Data
		var err error
		ch := op.F.chunk()
		if op.New {
			if d = p.New(op.F.Type); (d != nil) != known {
				o.Failf("new", "step %d: parser %d gives for type %#x %v", i, op.P, op.F.Type, d)
				return
			}
		} else {
			d, err = p.Parse(ch)
		}
		own, isOwn := d.(*ownData)
		switch {
		case op.New && !known:
			o.Class("new-unknown")
		case !known:
			if o.Class("unknown"); err == nil {
				o.Failf("unknown", "step %d: parser %d accepts type %#x as a %T", i, op.P, op.F.Type, d)
			}
		case failing != nil:
			var pe *partErr
			if o.Class("failing"); !errors.As(err, &pe) || pe.i != i {
				o.Failf("failing", "step %d: the frame reports %v, the parser %v", i, failing, err)
			}
		case op.P < 0 && op.F.bad() && !op.New:
			if err == nil {
				o.Failf("accepted", "step %d: the default parser accepts %+v", i, op.F)
			}
		case err != nil:
			o.Failf("rejected", "step %d: parser %d rejects type %#x: %v", i, op.P, op.F.Type, err)
		default:
			o.NT = true
			if j, ok := seen[d]; ok {
				o.Failf("fresh", "steps %d and %d: the same frame is given twice", j, i)
			}
			seen[d] = i
			if op.P < 0 {
				if isOwn {
					o.Failf("factory", "step %d: the default parser gives a user's frame", i)
				} else if d.Id() != op.F.Type {
					o.Failf("factory", "step %d: the default parser gives for type %#x a %T", i, op.F.Type, d)
				} else if !op.New {
					if s := op.F.diff(d); s != "" {
						o.Failf("value", "step %d: %s", i, s)
					}
				}
				break
			}
			o.Class("own")
			if !isOwn || own.id != op.F.Type || int(own.set) != op.P {
				o.Failf("factory", "step %d: parser %d gives for type %#x a %T that the factory for that type did not make", i, op.P, op.F.Type, d)
			} else if op.New && len(own.read) != 0 || !op.New && len(own.read) != 1 {
				o.Failf("read", "step %d: the frame was read %d times", i, len(own.read))
			} else if !op.New {
				want := op.F.msg()
				if got := fromChunk(own.read[0]); diffM(&got, &want) != "" {
					o.Failf("read", "step %d: the frame was given another message:%s", i, diffM(&got, &want))
				}
			}
		}
		if o.Bad() {
			return
		}
	}
}

// ------------------------------------------------------------------ relays

// PartsCase is a history of a control stream, data stream or net connection
// that was given the user's parts.
type PartsCase struct {
	Kind string `json:"kind"` // control, data, conn
	// Parser: the user's; "default": the library's; "factories": the
	// library's with a user's factories.
	Parser  string `json:"parser"`
	Chunker string `json:"chunker"`
	// Bare: the errors of the parts are those of the faults themselves.
	Bare bool `json:"bare,omitempty"`
	// Before is the number of parsers that are set before the last one.
	Before int       `json:"before,omitempty"`
	Ops    []PartsOp `json:"ops"`
	Sc     Sched     `json:"sc"`
}

type PartsOp struct {
	DOp
	Ctl  Ctl    `json:"ctl,omitempty"`
	Cs   uint32 `json:"cs"`
	Type byte   `json:"t"`
	Sid  uint32 `json:"sid"`
	Ts   uint32 `json:"ts"`
	Fmt  byte   `json:"f"`
	P    P      `json:"p"`
	// Both: the part gives a result along with its error.
	Both bool `json:"both,omitempty"`
	// Id is the Id of a frame, which its chunk need not have.
	Id byte `json:"id,omitempty"`
	// Split is the number of pieces a message is written in.
	Split int `json:"split"`
}

func (r PartsOp) chunk() *chunk.Chunk {
	return toChunk(&M{Cs: r.Cs, Ts: r.Ts, Type: r.Type, Sid: r.Sid, Data: r.P.Data()}, r.Fmt)
}

// err is the error of a part in step i.
func (c PartsCase) err(i int) error {
	if c.Bare {
		return fault(c.Ops[i].Flt)
	}
	return &partErr{i, fault(c.Ops[i].Flt)}
}

func genUserParts(t *rapid.T) PartsCase {
	c := PartsCase{Kind: oneOf(t, "kind", "control", "control", "data", "data", "conn"), Sc: genSched(t)}
	c.Parser = oneOf(t, "parser", "own", "default", "own")
	c.Chunker = oneOf(t, "chunker", "own", "default")
	switch c.Kind {
	case "data":
		c.Parser, c.Chunker = oneOf(t, "dataParser", "own", "factories"), ""
		c.Before = oneOf(t, "before", 0, 0, 1, 2)
	case "conn":
		c.Parser, c.Chunker = "default", ""
	}
	c.Bare = chance(t, "bare", 30)
	c.Ops = cutAfterEnd(dups(t, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PartsOp {
		op := PartsOp{DOp: genDOp(t), Ctl: genCtl(t), Cs: genCs(t, true), Type: rapid.Byte().Draw(t, "type"), Sid: genSid(t), Ts: genTs(t),
			Fmt: byte(oneOf(t, "fmt", 0, 0, 1, 2, 3)), P: genP(t, 128, 400), Both: chance(t, "both", 30), Split: genInt(t, "split", 1, 4)}
		if op.Id = op.Type; chance(t, "otherId", 50) {
			op.Id = rapid.Byte().Draw(t, "id")
		}
		if op.Op == "bad" {
			op.Flt = genFault(t)
			op.Ctl = Ctl{Kind: oneOf[byte](t, "unknown", 0, 7, 20)}
		}
		return op
	}), 1, 12).Draw(t, "ops"), nil), func(d PartsOp) DOp { return d.DOp })
	return c
}

// ownCtl is a user's control message.
type ownCtl struct {
	i    int
	typ  byte
	body []byte
	err  error
	n    int
}

func (c *ownCtl) Read(r io.Reader) error { return nil }
func (c *ownCtl) TypeId() byte           { return c.typ }
func (c *ownCtl) Write(w io.Writer) error {
	for k := range c.n {
		if k == c.n/2 && c.err != nil {
			return c.err
		}
		if _, err := w.Write(c.body[k*len(c.body)/c.n : (k+1)*len(c.body)/c.n]); err != nil {
			return err
		}
	}
	return nil
}

// ownParts are a user's parsers and chunkers, which do as the case says.
type ownParts struct {
	mu sync.Mutex
	c  PartsCase
	// fed are the chunks that the parser is to be asked about, in order, and
	// asked those it was asked about.
	fed, asked []*chunk.Chunk
	step       []int
	gave       []any
	chunked    []any
	// made are the chunks that the chunker made.
	made map[int]*chunk.Chunk
}

func (p *ownParts) feed(i int, c *chunk.Chunk) *chunk.Chunk {
	p.mu.Lock()
	p.fed, p.step = append(p.fed, c), append(p.step, i)
	p.mu.Unlock()
	return c
}

// parse is what the parsers do: v is made for the step of the chunk.
func (p *ownParts) parse(c *chunk.Chunk, v func(i int) any) (any, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := len(p.asked)
	p.asked = append(p.asked, c)
	if len(p.fed) == 0 { // not the parser to ask
		return nil, errInjected
	}
	if k >= len(p.fed) || p.fed[k] != c {
		// Not the same chunk; it has to be the same message, at least.
		k = min(k, len(p.fed)-1)
	}
	i := p.step[k]
	if op := p.c.Ops[i]; op.Op == "bad" {
		if op.Both {
			return v(i), p.c.err(i)
		}
		return nil, p.c.err(i)
	}
	x := v(i)
	p.gave = append(p.gave, x)
	return x, nil
}

func (p *ownParts) chunk(i int) (*chunk.Chunk, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	op := p.c.Ops[i]
	if op.Op == "unenc" {
		if op.Both {
			return op.chunk(), p.c.err(i)
		}
		return nil, p.c.err(i)
	}
	p.made[i] = op.chunk()
	return p.made[i], nil
}

type ownCtlParser struct{ *ownParts }

func (p ownCtlParser) Parse(c *chunk.Chunk) (control.Control, error) {
	v, err := p.parse(c, func(i int) any { return &ownCtl{i: i, typ: p.c.Ops[i].Type} })
	x, _ := v.(control.Control)
	return x, err
}

type ownCtlChunker struct{ *ownParts }

func (p ownCtlChunker) Chunk(c control.Control) (*chunk.Chunk, error) {
	p.mu.Lock()
	p.chunked = append(p.chunked, c)
	p.mu.Unlock()
	return p.ownParts.chunk(c.(*ownCtl).i)
}

type ownDataParser struct{ *ownParts }

func (p ownDataParser) Parse(c *chunk.Chunk) (data.Data, error) {
	v, err := p.parse(c, func(i int) any { return &ownData{id: p.c.Ops[i].Id} })
	x, _ := v.(data.Data)
	return x, err
}

// ownMarshallable is a user's response.
type ownMarshallable struct {
	body []byte
	err  error
}

func (m *ownMarshallable) Marshal() ([]byte, error) { return m.body, m.err }

func runUserParts(o *O, c PartsCase) {
	o.Class("%s-%s-%s", c.Kind, c.Parser, c.Chunker)
	parts := &ownParts{c: c, made: map[int]*chunk.Chunk{}}
	pw := &planWriter{}
	var ops []DOp
	var in, out []int
	for i, op := range c.Ops {
		ops = append(ops, op.DOp)
		switch op.Op {
		case "in":
			in = append(in, i)
		case "out":
			out = append(out, i)
		}
	}
	o.NT = len(in)+len(out) > 0
	var sent sync.Map
	var gotErr []error
	var diffIn func(k int) string
	own := func(what string, k int, got any) string {
		parts.mu.Lock()
		defer parts.mu.Unlock()
		if k >= len(parts.gave) || parts.gave[k] != got {
			return fmt.Sprintf("a %s that the parser did not give for it: %+v", what, got)
		}
		return ""
	}
	switch c.Kind {
	case "control":
		var p control.Parser = ownCtlParser{parts}
		var ck control.Chunker = ownCtlChunker{parts}
		if c.Parser == "default" {
			p = control.NewParser()
		}
		if c.Chunker == "default" {
			ck = control.NewChunker()
		}
		var got []control.Control
		got, gotErr = runDuplex(o, ops, c.Sc, pw, func() duplex[control.Control] {
			feed := make(chanStream)
			s := control.NewStream(feed, pw, p, ck)
			return duplex[control.Control]{
				loop: s.Recv, close: s.Close, in: s.In(), errs: s.Errs(), feed: feed,
				chunk: func(i int) *chunk.Chunk {
					if op := c.Ops[i]; c.Parser == "default" {
						return ctlChunk(op.Ctl.Kind, op.Ctl.payload())
					}
					return parts.feed(i, c.Ops[i].chunk())
				},
				send: func(i int) {
					m := &ownCtl{i: i, typ: c.Ops[i].Type, body: c.Ops[i].P.Data(), n: c.Ops[i].Split}
					if c.Ops[i].Op == "unenc" {
						m.err = c.err(i)
					}
					sent.Store(i, m)
					s.Out() <- m
				},
			}
		})
		diffIn = func(k int) string {
			if c.Parser == "default" {
				return c.Ops[in[k]].Ctl.diff(got[k])
			}
			return own("control message", k, got[k])
		}
	case "data":
		var got []data.Data
		got, gotErr = runDuplex(o, ops, c.Sc, pw, func() duplex[data.Data] {
			feed := make(chan *chunk.Chunk)
			s := data.NewStream(feed, pw)
			for range c.Before {
				s.SetParser(ownDataParser{&ownParts{c: c}})
			}
			if c.Parser == "own" {
				s.SetParser(ownDataParser{parts})
			} else {
				// One factory for each type there is.
				var fs []data.DataFactory
				for id := range 256 {
					fs = append(fs, func() data.Data {
						d := &ownData{id: byte(id)}
						d.fail = func(c *chunk.Chunk) error {
							_, err := parts.parse(c, func(int) any { return d })
							return err
						}
						return d
					})
				}
				s.SetParser(data.NewParser(fs...))
			}
			return duplex[data.Data]{
				loop: s.Recv, close: s.Close, in: s.Out(), errs: s.Errs(), feed: s.Chunks(),
				chunk: func(i int) *chunk.Chunk { return parts.feed(i, c.Ops[i].chunk()) },
				send: func(i int) {
					d := &ownData{id: c.Ops[i].Id}
					d.back, d.err = parts.chunk(i)
					s.In() <- d
				},
			}
		})
		diffIn = func(k int) string {
			if d := own("frame", k, got[k]); d != "" || c.Parser == "own" || got[k].Id() == c.Ops[in[k]].Type {
				return d
			}
			return fmt.Sprintf("a frame of type %#x, want %#x", got[k].Id(), c.Ops[in[k]].Type)
		}
	default:
		var got []conn.Receivable
		got, gotErr = runDuplex(o, ops, c.Sc, pw, func() duplex[conn.Receivable] {
			feed := make(chan *chunk.Chunk)
			n := conn.NewNetConnection(feed, pw)
			return duplex[conn.Receivable]{
				loop: n.Listen, close: n.Close, in: n.In(), errs: n.Errs(), feed: feed,
				chunk: func(i int) *chunk.Chunk {
					k := okConn
					if c.Ops[i].Op == "bad" {
						k.Mal = "unknown"
					}
					return Route{3, 0, 0x14}.chunk(k.payload(), c.Ops[i].Ts)
				},
				send: func(i int) {
					m := &ownMarshallable{body: c.Ops[i].P.Data()}
					if c.Ops[i].Op == "unenc" {
						if m.err = c.err(i); !c.Ops[i].Both {
							m.body = nil
						}
					}
					n.Out() <- m
				},
			}
		})
		diffIn = func(k int) string { return okConn.diffConn(got[k]) }
	}
	if o.Bad() {
		return
	}
	for k := range in {
		if d := diffIn(k); d != "" {
			o.Failf("incoming", "message %d of %d: %s", k, len(in), d)
			return
		}
	}
	// The parser was asked about each chunk once, in order.
	if len(parts.asked) != len(parts.fed) {
		o.Failf("asked", "the parser was asked %d times about %d messages", len(parts.asked), len(parts.fed))
		return
	}
	for k, a := range parts.asked {
		got, want := fromChunk(a), fromChunk(c.Ops[parts.step[k]].chunk())
		if d := diffM(&got, &want); d != "" {
			o.Failf("asked", "the parser was given another message than message %d:%s", k, d)
			return
		}
	}
	if c.Kind == "control" && c.Chunker == "own" {
		k := 0
		for i, op := range c.Ops {
			if op.incoming() {
				continue
			}
			if m, _ := sent.Load(i); k >= len(parts.chunked) || parts.chunked[k] != m {
				o.Failf("asked", "the chunker was not given message %d, the %d-th one, but %d", i, k, len(parts.chunked))
				return
			}
			k++
		}
		if k != len(parts.chunked) {
			o.Failf("asked", "the chunker was given %d messages, %d were sent", len(parts.chunked), k)
			return
		}
	}
	for k, i := range out {
		op := c.Ops[i]
		var want *chunk.Chunk
		switch {
		case c.Kind == "conn":
			want = Route{3, 0, 0x14}.chunk(op.P.Data(), 0)
		case c.Kind == "control" && c.Chunker == "default":
			want = ctlChunk(op.Type, op.P.Data())
		default:
			want = op.chunk()
		}
		got, w := fromChunk(pw.keep[k]), fromChunk(want)
		if d := diffM(&got, &w); d != "" {
			o.Failf("outgoing", "message %d of %d was written as something else:%s", k, len(out), d)
			return
		}
		if *pw.keep[k].Header != *want.Header {
			o.Failf("outgoing", "message %d of %d was written with the header %+v, want %+v", k, len(out), *pw.keep[k].Header, *want.Header)
			return
		}
	}
	if c.Bare {
		// Each error of the user's parts is among the errors.
		var want []error
		for _, op := range c.Ops {
			if op.Op == "unenc" || op.Op == "bad" && c.Parser != "default" {
				want = append(want, fault(op.Flt))
			}
		}
		// The longest ones first, as they may contain others; an error that was
		// wrapped contains what it was.
		longer := func(a, b error) int { return len(b.Error()) - len(a.Error()) }
		slices.SortStableFunc(want, longer)
		left := slices.Clone(gotErr)
		slices.SortStableFunc(left, func(a, b error) int { return longer(b, a) })
		for _, w := range want {
			j := slices.IndexFunc(left, func(err error) bool { return containsErr(err, w) })
			if j < 0 {
				o.Failf("errors", "a part reports %v, which is not among the errors %v", w, gotErr)
				return
			}
			left = slices.Delete(left, j, j+1)
		}
		return
	}
	// Each error of the user's parts is among the errors, in order per direction.
	for _, incoming := range []bool{true, false} {
		var want, got []int
		for i, op := range c.Ops {
			if op.incoming() == incoming && (op.Op == "unenc" || op.Op == "bad" && c.Parser != "default" || op.Op == "wfail" && op.Flt <= 0) {
				want = append(want, i)
			}
		}
		for _, err := range gotErr {
			var pe *partErr
			var ce csErr
			i := -1
			if errors.As(err, &pe) {
				i = pe.i
			} else if errors.As(err, &ce) {
				i = ce.i
			}
			if i >= 0 && c.Ops[i].incoming() == incoming {
				got = append(got, i)
			}
		}
		if !slices.Equal(got, want) {
			o.Failf("errors", "the user's parts fail in steps %v, the errors are those of steps %v (%v)", want, got, gotErr)
			return
		}
	}
}

func (c PartsCase) grow(rep, _ int) PartsCase {
	c.Ops = repeatOps(c.Ops, rep, func(op PartsOp) bool { return op.Op == "end" }, nil)
	return c
}

// -------------------------------------------------------------- normalizer

// OwnNorm is a stream that is read with a user's normalizer, which changes the
// message stream ids and swaps two types, and keeps the rest as it is.
type OwnNorm struct {
	Stream StreamSpec `json:"stream"`
	Xor    uint32     `json:"xor"`
	Swap   bool       `json:"swap"`
	// Cs: it swaps chunk streams, too.
	Cs bool `json:"cs,omitempty"`
}

type ownNormalizer struct {
	OwnNorm
	mu    sync.Mutex
	last  map[uint32]chunk.MessageHeader
	calls int
}

func (n *ownNormalizer) Normalize(h *chunk.Header) *chunk.Header {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.calls++
	out := *h
	m := &out.MessageHeader
	l := n.last[h.BasicHeader.StreamId]
	switch h.BasicHeader.FormatId {
	case 1:
		m.StreamId = l.StreamId
	case 2:
		m.StreamId, m.Length, m.TypeId = l.StreamId, l.Length, l.TypeId
	case 3:
		*m = l
		m.FormatId = 3
	}
	n.last[h.BasicHeader.StreamId] = *m
	m.StreamId ^= n.Xor
	m.TypeId = n.typ(m.TypeId)
	out.BasicHeader.StreamId = n.cs(out.BasicHeader.StreamId)
	return &out
}

func (n OwnNorm) typ(t byte) byte {
	if n.Swap && (t == 8 || t == 9) {
		return t ^ 1
	}
	return t
}

// cs is the chunk stream that cs is made to be, one to one.
func (n OwnNorm) cs(cs uint32) uint32 {
	if n.Cs && cs >= 4 {
		return cs ^ 1
	}
	return cs
}

func runOwnNorm(o *O, c OwnNorm) {
	e := refEncode(dialect(), &c.Stream)
	n := &ownNormalizer{OwnNorm: c, last: map[uint32]chunk.MessageHeader{}}
	src := c.Stream.source(e)
	var msgs []*chunk.Chunk
	var errs []error
	var mu sync.Mutex
	d := src.pauses()
	o.bubble(func() {
		src.bind()
		r := chunk.NewReader(src, c.Stream.Size, n)
		done := make(chan struct{})
		stop := make(chan struct{})
		collected := make(chan struct{})
		go func() { r.Recv(); close(done) }()
		go func() {
			defer close(collected)
			for {
				select {
				case m := <-r.Chunks():
					mu.Lock()
					msgs = append(msgs, m)
					mu.Unlock()
				case err := <-r.Errs():
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				case <-stop:
					return
				}
			}
		}()
		if len(c.Stream.Slow) > 0 {
			time.Sleep(d + time.Hour)
		}
		synctest.Wait()
		close(stop)
		<-collected
		n.mu.Lock()
		// What is left to read is the end of the input.
		if n.calls != len(e.Bounds) {
			o.Failf("asked", "the normalizer was asked %d times about %d headers", n.calls, len(e.Bounds))
		}
		n.mu.Unlock()
		shutReader(src, r, done)
	})
	want := e.Messages()
	for i := range want {
		want[i].Sid ^= c.Xor
		want[i].Type = c.typ(want[i].Type)
		want[i].Cs = c.cs(want[i].Cs)
	}
	o.NT = len(want) > 0
	if len(errs) > 0 {
		o.Failf("error", "reading a valid stream gives %v", errs)
		return
	}
	checkMsgs(o, "normalized", msgs, want)
}

// ------------------------------------------------------------------ reader

// OwnReader is what a user's chunk reader gives to a chunk parser.
type OwnReader struct {
	// Groups are subscribed to together.
	Groups [][]uint32 `json:"groups"`
	Items  []SrcItem  `json:"items"`
	Delays []int      `json:"delays"`
}

type SrcItem struct {
	Cs   uint32 `json:"cs"`
	Err  bool   `json:"err,omitempty"`
	Flt  int    `json:"flt,omitempty"`
	Type byte   `json:"t"`
	Fmt  byte   `json:"fmt,omitempty"`
	P    P      `json:"p"`
	// None: the chunk has no data, whatever the length in its header.
	None  bool `json:"none,omitempty"`
	Pause int  `json:"pause,omitempty"`
}

type ownReader struct {
	c      OwnReader
	chunks chan *chunk.Chunk
	errs   chan error
	closer chan struct{}
	mu     sync.Mutex
	sent   []*chunk.Chunk
	recvs  int
	closes int
}

func (r *ownReader) Recv() {
	r.mu.Lock()
	r.recvs++
	again := r.recvs > 1
	r.mu.Unlock()
	if again {
		return
	}
	for i, it := range r.c.Items {
		time.Sleep(time.Duration(it.Pause) * time.Millisecond)
		if it.Err {
			select {
			case r.errs <- &partErr{i, fault(it.Flt)}:
			case <-r.closer:
				return
			}
			continue
		}
		c := toChunk(&M{Cs: it.Cs, Type: it.Type, Data: it.P.Data()}, it.Fmt)
		if it.None {
			c.Data = nil
		}
		r.mu.Lock()
		r.sent = append(r.sent, c)
		r.mu.Unlock()
		select {
		case r.chunks <- c:
		case <-r.closer:
			return
		}
	}
	<-r.closer
}
func (r *ownReader) ReadSize() int               { return 128 }
func (r *ownReader) SetReadSize(int)             {}
func (r *ownReader) Chunks() <-chan *chunk.Chunk { return r.chunks }
func (r *ownReader) Errs() <-chan error          { return r.errs }
func (r *ownReader) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closes++; r.closes == 1 {
		close(r.closer)
	}
}

func genOwnReader(t *rapid.T) OwnReader {
	c := OwnReader{Delays: genDelays(t)}
	ids := genCss(t, genInt(t, "ids", 1, 5), true)
	for at := 0; at < len(ids); {
		n := min(genInt(t, "group", 1, 3), len(ids)-at)
		c.Groups = append(c.Groups, ids[at:at+n])
		at += n
	}
	c.Items = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SrcItem {
		it := SrcItem{Cs: oneOf(t, "cs", ids...), Err: chance(t, "err", 15), Type: rapid.Byte().Draw(t, "t"), Fmt: oneOf[byte](t, "fmt", 0, 0, 1, 2, 3), P: genP(t, 128, 300), None: chance(t, "none", 10), Pause: genPause(t, "pause")}
		if it.Err {
			it.Flt = genFault(t)
		}
		return it
	}), 1, 14).Draw(t, "items")
	return c
}

func runOwnReader(o *O, c OwnReader) {
	var mu sync.Mutex
	got := make([][]*chunk.Chunk, len(c.Groups))
	var gotErr []int
	r := &ownReader{c: c}
	o.bubble(func() {
		r.chunks, r.errs, r.closer = make(chan *chunk.Chunk), make(chan error), make(chan struct{})
		p := chunk.NewParser(r)
		for g, ids := range c.Groups {
			s, err := p.Stream(ids...)
			if err != nil {
				o.Failf("subscribe", "%v: %v", ids, err)
				return
			}
			go func() {
				for i := 0; ; i++ {
					m, ok := <-s.In()
					if !ok {
						return
					}
					mu.Lock()
					got[g] = append(got[g], m)
					mu.Unlock()
					if len(c.Delays) > 0 {
						time.Sleep(time.Duration(c.Delays[i%len(c.Delays)]) * time.Millisecond)
					}
				}
			}()
		}
		go func() {
			for err := range p.Errs() {
				var pe *partErr
				i := -1
				if errors.As(err, &pe) {
					i = pe.i
				}
				mu.Lock()
				gotErr = append(gotErr, i)
				mu.Unlock()
			}
		}()
		go p.Recv()
		time.Sleep(settle)
		synctest.Wait()
		p.Close()
		synctest.Wait()
		r.mu.Lock()
		if r.recvs != 1 {
			o.Failf("recv", "the reader was started %d times", r.recvs)
		}
		if r.closes == 0 {
			o.Failf("close", "the reader was not closed")
			r.mu.Unlock()
			r.Close()
			r.mu.Lock()
		}
		r.mu.Unlock()
	})
	if o.Bad() {
		return
	}
	want := make([][]M, len(c.Groups))
	var wantErr []int
	perCs := map[uint32][]M{}
	for i, it := range c.Items {
		if it.Err {
			wantErr = append(wantErr, i)
			continue
		}
		for g, ids := range c.Groups {
			if slices.Contains(ids, it.Cs) {
				m := M{Cs: it.Cs, Type: it.Type, Data: it.P.Data()}
				if it.None {
					m.Data = nil
				}
				want[g] = append(want[g], m)
				perCs[it.Cs] = append(perCs[it.Cs], m)
			}
		}
		o.NT = true
	}
	if !slices.Equal(gotErr, wantErr) {
		o.Failf("errors", "the reader fails in steps %v, the errors are those of steps %v", wantErr, gotErr)
		return
	}
	for g, ids := range c.Groups {
		if len(got[g]) != len(want[g]) {
			o.Failf("count", "the reader gave %d messages for %v, %d were delivered", len(want[g]), ids, len(got[g]))
			return
		}
		at := map[uint32]int{}
		for _, m := range got[g] {
			x := fromChunk(m)
			k := at[x.Cs]
			at[x.Cs]++
			if k >= len(perCs[x.Cs]) || !slices.Contains(ids, x.Cs) {
				o.Failf("message", "a message for chunk stream %d is delivered to the subscriber of %v", x.Cs, ids)
				return
			}
			if d := diffM(&x, &perCs[x.Cs][k]); d != "" {
				o.Failf("message", "message %d of chunk stream %d:%s", k, x.Cs, d)
				return
			}
		}
	}
}

// --------------------------------------------------------------- sequences

// SeqCase is a handshake of a user's own sequences.
type SeqCase struct {
	Steps []SeqStep `json:"steps"`
	// Fail is the step that fails (-1: none), Write whether in writing.
	Fail  int  `json:"fail"`
	Write bool `json:"write"`
	Flt   int  `json:"flt"`
	// Bare: the error is that of the fault itself.
	Bare bool `json:"bare,omitempty"`
}

func (c *SeqCase) err() error {
	if c.Bare {
		return fault(c.Flt)
	}
	return &partErr{c.Fail, fault(c.Flt)}
}

type SeqStep struct {
	In  P `json:"in"`
	Out P `json:"out"`
}

type ownSequence struct {
	c   *SeqCase
	log *[]string
	i   int
}

func (s *ownSequence) Read(r io.Reader) error {
	*s.log = append(*s.log, fmt.Sprint("read ", s.i))
	want := s.c.Steps[s.i].In.Data()
	b := make([]byte, len(want))
	if _, err := io.ReadFull(r, b); err != nil || !bytes.Equal(b, want) {
		*s.log = append(*s.log, fmt.Sprintf("read %x, want %x, error %v", b, want, err))
	}
	if s.c.Fail == s.i && !s.c.Write {
		return s.c.err()
	}
	return nil
}

func (s *ownSequence) WriteTo(w io.Writer) error {
	*s.log = append(*s.log, fmt.Sprint("write ", s.i))
	if _, err := w.Write(s.c.Steps[s.i].Out.Data()); err != nil {
		*s.log = append(*s.log, fmt.Sprint("writing fails: ", err))
	}
	if s.c.Fail == s.i && s.c.Write {
		return s.c.err()
	}
	return nil
}

func (s *ownSequence) Next() handshake.Sequence {
	if s.i+1 < len(s.c.Steps) {
		return &ownSequence{s.c, s.log, s.i + 1}
	}
	return nil
}

type ownRW struct {
	io.Reader
	io.Writer
}

func genSeq(t *rapid.T) SeqCase {
	c := SeqCase{Fail: -1}
	c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SeqStep {
		return SeqStep{P{oneOf(t, "in", 0, 1, 7, 1536, 4097), genSeed(t)}, P{oneOf(t, "out", 0, 1, 7, 1536, 4097), genSeed(t)}}
	}), 1, 8).Draw(t, "steps")
	if chance(t, "many", 5) {
		for len(c.Steps) < 300 {
			c.Steps = append(c.Steps, c.Steps...)
		}
	}
	if chance(t, "fails", 40) {
		c.Fail, c.Write, c.Flt = genInt(t, "fail", 0, len(c.Steps)-1), rapid.Bool().Draw(t, "write"), genFault(t)
		c.Bare = rapid.Bool().Draw(t, "bare")
	}
	return c
}

func runSeq(o *O, c SeqCase) {
	var in, out bytes.Buffer
	var want []string
	var wrote []byte
	for i, s := range c.Steps {
		in.Write(s.In.Data())
		if c.Fail < 0 || i <= c.Fail {
			want = append(want, fmt.Sprint("read ", i))
		}
		if c.Fail < 0 || i < c.Fail || i == c.Fail && c.Write {
			want = append(want, fmt.Sprint("write ", i))
			wrote = append(wrote, s.Out.Data()...)
		}
	}
	in.WriteString("what follows")
	o.NT = len(c.Steps) > 1
	if c.Fail >= 0 {
		o.Class("fails")
	}
	var log []string
	err := handshake.With(&handshake.Param{Conn: &ownRW{&in, &out}, Initial: &ownSequence{&c, &log, 0}}).Handshake()
	var pe *partErr
	switch {
	case c.Fail < 0 && err != nil:
		o.Failf("error", "a handshake of %d sequences, none of which fails, reports %v", len(c.Steps), err)
	case c.Fail >= 0 && (c.Bare && (err == nil || !containsErr(err, fault(c.Flt))) || !c.Bare && (!errors.As(err, &pe) || pe.i != c.Fail)):
		o.Failf("error", "sequence %d of %d fails, the handshake reports %v", c.Fail, len(c.Steps), err)
	case !slices.Equal(log, want):
		o.Failf("order", "the sequences were used so: %s; want %s", clip(fmt.Sprint(log), 1000), clip(fmt.Sprint(want), 1000))
	case !bytes.Equal(out.Bytes(), wrote):
		o.Failf("written", "%d bytes were written that are not the %d of the sequences", out.Len(), len(wrote))
	case c.Fail < 0 && in.String() != "what follows":
		o.Failf("consumed", "%d bytes of what follows are left, want %d", in.Len(), len("what follows"))
	}
}

func init() {
	Register(&Prop{ID: "C20", Together: 1500, Rounds: 2,
		Rule: "Random parts of a user's: command parsers over any names and factories (the library's commands under other names, own commands) next to each other and to the default ones; media parsers over any type ids; histories of control streams, data streams and net connections with the user's parsers, chunkers, messages, responses and writer, whose results and errors are prescribed; readers with a normalizer that changes what it completes; chunk parsers over a user's reader; handshakes of a user's sequences. Non-trivial: at least one message or sequence that a user's part has to handle; distinct by content.",
		Subs: []*Sub{
			Rand("names", 20000, genNames, runNames),
			Rand("media", 20000, genMedia, runMedia),
			Rand("relay", 20000, genUserParts, runUserParts),
			RandLong("long-relay", 300, 0, genUserParts, func(c PartsCase) int { return len(c.Ops) }, PartsCase.grow, runUserParts),
			Rand("normalizer", 10000, func(t *rapid.T) OwnNorm {
				return OwnNorm{genStream(t, streamOpt{maxLanes: 4, maxMsgs: 5, announce: true, big: true, slow: true}), oneOf[uint32](t, "xor", 0, 1, 0x80000000, 0x01020304), rapid.Bool().Draw(t, "swap"), rapid.Bool().Draw(t, "cs")}
			}, runOwnNorm),
			Rand("reader", 10000, genOwnReader, runOwnReader),
			Rand("sequences", 8000, genSeq, runSeq),
		}})
}
