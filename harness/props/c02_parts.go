package props

import (
	"bytes"
	"errors"
	"io"
	"testing/iotest"

	"github.com/WatchBeam/rtmp/chunk"
	"pgregory.net/rapid"
)

// The pieces reassembly is made of, used by themselves through their exported
// interface: the message builder and the header normalizers.

// BuildOp is an operation on a builder.
type BuildOp struct {
	// Op: append, read, read in single bytes, read from a source that is too
	// short, read from a failing source, add to what is left, build.
	Op int `json:"op"`
	P  P   `json:"p"`
	N  int `json:"n"`
}

// BuildCase is a history of a builder.
type BuildCase struct {
	Len uint32    `json:"len"`
	Ops []BuildOp `json:"ops"`
}

func genBuild(t *rapid.T) BuildCase {
	c := BuildCase{Len: uint32(oneOf(t, "len", 0, 1, 16, 130, 0xffffff))}
	if chance(t, "anyLen", 60) {
		c.Len = uint32(genInt(t, "length", 0, 300))
	}
	left := int(c.Len)
	for range genInt(t, "ops", 1, 10) {
		op := BuildOp{Op: oneOf(t, "op", 0, 0, 1, 1, 2, 3, 4, 5, 6)}
		n := genInt(t, "n", 0, 80)
		if chance(t, "exact", 25) {
			n = min(max(left, 0)+oneOf(t, "more", 0, 0, 1), 1000)
		}
		op.P = P{n, genSeed(t)}
		switch op.Op {
		case 0, 1, 2:
			left -= n
		case 3, 4:
			op.N = genInt(t, "short", 1, 50)
		case 5:
			op.N = genInt(t, "delta", -40, 200)
			left += op.N
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runBuild(o *O, c BuildCase) {
	h := toChunk(&M{Cs: 5, Ts: 77, Type: 9, Sid: 3}, 0).Header
	h.MessageHeader.Length = c.Len
	b := chunk.NewBuilder(h)
	left := int(c.Len)
	var want []byte
	broken := errors.New("the transport broke")
	took := func(i int, what string, data []byte, n int, err error) {
		o.NT = o.NT || len(data) > 0
		want = append(want, data...)
		left -= len(data)
		if n != len(data) {
			o.Failf("builder", "step %d: %s %d bytes reports %d", i, what, len(data), n)
		}
		if left < 0 && err == nil {
			o.Failf("builder", "step %d: %s %d bytes, %d more than the message has, reports no error", i, what, len(data), -left)
		}
		if left >= 0 && err != nil {
			o.Failf("builder", "step %d: %s %d bytes of %d that were left fails: %v", i, what, len(data), left+len(data), err)
		}
	}
	for i, op := range c.Ops {
		data := op.P.Data()
		switch op.Op {
		case 0:
			n, err := b.Append(bytes.Clone(data))
			took(i, "appending", data, n, err)
			o.Class("append")
		case 1, 2:
			src := io.Reader(bytes.NewReader(append(bytes.Clone(data), "rest"...)))
			if op.Op == 2 {
				src = iotest.OneByteReader(src)
			}
			n, err := b.Read(src, len(data))
			took(i, "reading", data, n, err)
			rest, _ := io.ReadAll(src)
			if string(rest) != "rest" {
				o.Failf("builder", "step %d: reading %d bytes leaves %q of the source, not %q", i, len(data), rest, "rest")
			}
			o.Class("read")
		case 3, 4:
			src, cause := io.Reader(bytes.NewReader(data)), "ends"
			if op.Op == 4 {
				src, cause = io.MultiReader(src, iotest.ErrReader(broken)), "fails"
			}
			_, err := b.Read(src, len(data)+op.N)
			if err == nil {
				o.Failf("builder", "step %d: reading %d bytes from a source that %s after %d reports no error", i, len(data)+op.N, cause, len(data))
			}
			// What a failed read leaves in the builder is not documented.
			o.Class("failed-read")

			return
		case 5:
			b.AddLeft(op.N)
			left += op.N
			o.Class("add-left")
		case 6:
			b.Build()
		}
		if left < 0 && op.Op < 3 {
			o.Class("too-many")
			return // what a refused part leaves behind is not documented
		}
		if got := b.BytesLeft(); got != left {
			o.Failf("builder", "step %d: %d bytes are left, want %d", i, got, left)
		}
		if built := b.Build(); built == nil || built.Header != h || !bytes.Equal(built.Data, want) {
			if built == nil || built.Header == nil {
				o.Failf("builder", "step %d: nothing is built", i)
			} else if bh := *built.Header; bh != *h {
				o.Failf("builder", "step %d: the message is built with the header %+v, want %+v", i, bh, *h)
			} else if !bytes.Equal(built.Data, want) {
				m, w := fromChunk(built), M{Cs: 5, Ts: 77, Type: 9, Sid: 3, Data: want}
				o.Failf("builder", "step %d: built from its parts:%s", i, diffM(&m, &w))
			}
		}
		if o.Bad() {
			return
		}
	}

}

// NormCase is a sequence of headers that a normalizer completes.
type NormCase struct {
	Noop bool     `json:"noop"`
	Hdrs []NormHd `json:"hdrs"`
}

// NormHd is a header as it was read.
type NormHd struct {
	Fmt  byte   `json:"f"`
	Cs   uint32 `json:"cs"`
	Ts   uint32 `json:"ts"`
	Len  uint32 `json:"len"`
	Type byte   `json:"t"`
	Sid  uint32 `json:"sid"`
}

func genNorm(t *rapid.T) NormCase {
	css := genCss(t, genInt(t, "streams", 1, 5), true)
	// The streams differ in ways that matter to whoever keys them by less.
	if chance(t, "alike", 40) {
		css = append(css, css[0]+256, css[0]+64)
	}
	hd := rapid.Custom(func(t *rapid.T) NormHd {
		h := genHdr(t)
		return NormHd{h.Fmt, oneOf(t, "cs", css...), h.Ts, h.Len, h.Type, h.Sid}
	})
	return NormCase{chance(t, "noop", 10), rapid.SliceOfN(hd, 1, 12).Draw(t, "hdrs")}
}

func runNorm(o *O, c NormCase) {
	n := chunk.NewNormalizer()
	if c.Noop {
		n = chunk.NoopNormalizer
	}
	var last *chunk.MessageHeader
	perStream := map[uint32]*chunk.MessageHeader{}
	var gave []*chunk.Header
	var wants []chunk.Header
	for _, x := range c.Hdrs {
		h := new(chunk.Header)
		h.BasicHeader = chunk.BasicHeader{FormatId: x.Fmt, StreamId: x.Cs}
		h.MessageHeader.FormatId = x.Fmt
		// only what the format carries
		m := &h.MessageHeader
		if x.Fmt < 3 {
			m.Timestamp = ts24(x.Ts)
			m.TimestampDelta = x.Fmt > 0
			if m.Timestamp == 0xffffff {
				h.ExtendedTimestamp.Delta = x.Ts
			}
		}
		if x.Fmt < 2 {
			m.Length, m.TypeId = x.Len, x.Type
		}
		if x.Fmt == 0 {
			m.StreamId = x.Sid
		}

		want := *h
		if !c.Noop {
			w := &want.MessageHeader
			from := perStream[x.Cs]
			if from == nil && x.Fmt != 3 {
				from = last
			}
			if from != nil {
				switch x.Fmt {
				case 1:
					w.StreamId = from.StreamId
				case 2:
					w.StreamId, w.Length, w.TypeId = from.StreamId, from.Length, from.TypeId
				case 3:
					*w = *from
					w.FormatId = 3
				}
				if x.Fmt > 0 {
					o.Class("completed-%d", x.Fmt)
					o.NT = true
					if perStream[x.Cs] == nil {
						o.Class("from-another-stream")
					}
				}
			}
			cp := *w
			last, perStream[x.Cs] = &cp, &cp
		} else {
			o.Class("no-op")
		}
		got := n.Normalize(h)
		if got == nil {
			o.Failf("normalizer", "header %d (%+v): nothing is returned", len(gave), x)
			return
		}
		gave, wants = append(gave, got), append(wants, want)
		// also the earlier headers have to stay what they were
		for i, g := range gave {
			w := wants[i]
			if g.MessageHeader.Timestamp == 0xffffff && c.Hdrs[i].Fmt == 3 {
				w.ExtendedTimestamp = g.ExtendedTimestamp // read by the reader
			}
			if *g != w {
				o.Failf("normalizer", "header %d of %d, after %d were completed: %+v, want %+v", i, len(c.Hdrs), len(gave), *g, w)
				return
			}
		}
	}
}
