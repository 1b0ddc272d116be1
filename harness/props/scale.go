package props

import "pgregory.net/rapid"

// scale.go: small cases made long (their steps repeated) and wide (their chunk
// streams multiplied), for what only a long session or a crowd of chunk streams
// shows.

// Long is a case whose steps are repeated Rep times.
type Long[C any] struct {
	Rep  int `json:"rep"`
	Wide int `json:"wide,omitempty"`
	Case C   `json:"case"`
}

// RandLong makes a sub-check of repeated small cases: gen draws them, steps
// counts their steps, grow repeats them.
func RandLong[C any](name string, n, wide int, gen func(*rapid.T) C, steps func(C) int, grow func(C, int, int) C, run func(*O, C)) *Sub {
	return Rand(name, n, func(t *rapid.T) Long[C] {
		c := Long[C]{Case: gen(t), Rep: 1}
		if wide > 0 && chance(t, "wide", 60) {
			c.Wide = oneOf(t, "width", 10, 33, 70, 140, wide)
		}
		per := max(steps(c.Case), 1) * max(c.Wide, 1)
		c.Rep = max(1, oneOf(t, "total", 40, 130, 270, 530, 1100)/per+1)
		return c
	}, func(o *O, c Long[C]) {
		run(o, grow(c.Case, c.Rep, c.Wide))
	})
}

// repeatOps repeats steps; those that may come only once, and last, stay last.
func repeatOps[T any](ops []T, n int, last func(T) bool, vary func(*T, int)) []T {
	var body, tail, out []T
	for _, op := range ops {
		if last != nil && last(op) {
			tail = append(tail, op)
		} else {
			body = append(body, op)
		}
	}
	for i := range n {
		for _, op := range body {
			if vary != nil {
				vary(&op, i)
			}
			out = append(out, op)
		}
	}
	return append(out, tail...)
}

// moreIds gives n ids that are in no set and can be represented in both
// dialects, small ones first.
func moreIds(used map[uint32]bool, n int, big bool) (out []uint32) {
	for id := uint32(2); len(out) < n; id++ {
		if id == 300 && big {
			id = 320
		}
		if id == 319 && !big || id > 65599 {
			break
		}
		if id != 63 && !used[id] {
			used[id] = true
			out = append(out, id)
		}
	}
	return
}

func (c WCase) grow(rep, wide int) WCase {
	clones := map[uint32][]uint32{}
	used := map[uint32]bool{}
	var order []uint32
	for _, op := range c.Ops {
		if !used[op.Cs] {
			used[op.Cs] = true
			order = append(order, op.Cs)
		}
	}
	used[2] = true
	for _, id := range order {
		if wide > 1 {
			clones[id] = moreIds(used, wide-1, true)
		}
	}
	c.Ops = repeatOps(c.Ops, rep, nil, func(op *WOp, i int) { op.P.S += uint32(i) * 7 })
	if wide > 1 {
		var ops []WOp
		for _, op := range c.Ops {
			ops = append(ops, op)
			if op.Size > 0 || op.Cs == 2 {
				continue
			}
			for k, id := range clones[op.Cs] {
				x := op
				x.Cs = id
				x.P.S += uint32(k) * 1009
				ops = append(ops, x)
			}
		}
		c.Ops = ops
	}
	return c
}

func (sp StreamSpec) grow(rep, wide int) StreamSpec {
	used := map[uint32]bool{}
	for _, l := range sp.Lanes {
		used[l.Cs] = true
	}
	big := false
	for _, l := range sp.Lanes {
		big = big || l.Cs >= 320
	}
	vary := func(m *SMsg, i int) { m.P.S += uint32(i) * 7 }
	var lanes []Lane
	for _, l := range sp.Lanes {
		if !l.Once {
			l.Msgs = repeatOps(l.Msgs, rep, nil, vary)
		}
		lanes = append(lanes, l)
	}
	if wide > 1 {
		for _, l := range sp.Lanes {
			if l.Once {
				continue
			}
			for k, id := range moreIds(used, wide-1, big) {
				lanes = append(lanes, Lane{Cs: id, Msgs: repeatOps(l.Msgs, rep, nil, func(m *SMsg, i int) { m.P.S += uint32(i)*7 + uint32(k)*1009 })})
			}
		}
	}
	sp.Lanes = lanes
	n := len(sp.Order)
	if n > 0 {
		// Vary the repetitions: a permutation of the choices each time.
		for i := 1; i < rep*max(wide, 1); i++ {
			for j := range n {
				sp.Order = append(sp.Order, sp.Order[j]*byte(2*i+1)+byte(i*31+j*7))
			}
		}
	}
	return sp
}

func (sp StreamSpec) steps() (n int) {
	for _, l := range sp.Lanes {
		if !l.Once {
			n += len(l.Msgs)
		}
	}
	return
}

// dups repeats a step now and then: two steps alike, one after the other.
func dups[T any](t *rapid.T, ops []T, never func(T) bool) []T {
	if len(ops) == 0 || !chance(t, "alike", 30) {
		return ops
	}
	i := genInt(t, "which", 0, len(ops)-1)
	if never != nil && never(ops[i]) {
		return ops
	}
	out := append([]T(nil), ops[:i]...)
	for range genInt(t, "times", 2, 3) {
		out = append(out, ops[i])
	}
	return append(out, ops[i+1:]...)
}

// genHuge draws a length beyond what fits two bytes, mostly near the powers of
// two at which lengths that are kept in too little room go wrong.
func genHuge(t *rapid.T) int {
	n := oneOf(t, "huge", 1<<16, 1<<16, 1<<16, 1<<17, 3<<16, 1<<18, 1<<20, 1<<21)
	switch genInt(t, "hugeKind", 0, 4) {
	case 0, 1:
		return n + genInt(t, "off", -2, 2)
	case 2:
		return n + genInt(t, "off", -2000, 2000)
	}
	return genInt(t, "hugeLen", 1<<15, 1<<18)
}

// hugeStream makes a message or two of a stream huge, and its chunk sizes such
// that this does not take too many chunks.
func hugeStream(t *rapid.T, sp StreamSpec) StreamSpec {
	size := func(n int) int {
		if n >= 500 {
			return n
		}
		return oneOf(t, "hugeSize", 500, 4096, 65535, 65536, 65537, 1<<17, 0xffffff) + n
	}
	sp.Size = size(sp.Size)
	budget := 4 << 20
	for li := range sp.Lanes {
		l := &sp.Lanes[li]
		last := 0
		for i := range l.Msgs {
			m := &l.Msgs[i]
			if m.Size > 0 {
				m.Size = uint32(size(int(m.Size)))
				last = -1
				continue
			}
			if m.Raw != nil {
				last = -1
				continue
			}
			if m.Fmt >= 2 && last < 0 {
				m.Fmt = 0 // another announcement, of any size
			}
			if m.Fmt >= 2 && i > 0 {
				// It has the length of the one before.
				if last > budget {
					m.Fmt = 0
				} else {
					m.P.N = last
					budget -= last
					continue
				}
			}
			if chance(t, "hugeMsg", 40) {
				if n := genHuge(t); n <= budget {
					m.P.N = n
				}
			}
			last = m.P.N
			budget -= last
		}
	}
	return sp
}

// hugeStreams are streams of messages of up to the greatest length, with short
// ones in between.
func hugeStreams() (out []StreamSpec) {
	for i, n := range hugeLens {
		out = append(out, StreamSpec{Size: []int{4096, 65536, 0xffffff, 1000}[i%4], Lanes: []Lane{
			{Cs: 4, Msgs: []SMsg{{Type: 9, Sid: 1, P: P{n, uint32(n)}}, {Fmt: 1, Type: 8, P: P{3, 1}}, {Fmt: 1, Type: 9, P: P{n, uint32(n + 1)}}, {Fmt: 2, P: P{n, uint32(n + 2)}}}},
			{Cs: 65539, Msgs: []SMsg{{Type: 8, Sid: 1, P: P{5, 1}}, {Fmt: 3, P: P{5, 2}}, {Type: 8, Sid: 1, Ts: 0xffffff, P: P{n, 2}}, {Fmt: 3, P: P{n, 3}}}},
		}, Order: []byte{0, 1, 1, 0, 1}})
	}
	return
}

// crowdSizes are numbers of chunk streams that all have a message under way.
func crowdSizes(tier string) []int {
	if tier == "thorough" {
		return []int{300, 1030, 4200, 17000}
	}
	return []int{300, 1030, 4200}
}

func crowd(n int) StreamSpec {
	sp := StreamSpec{Size: 2, Round: true}
	for i, id := range moreIds(map[uint32]bool{2: true}, n, true) {
		x := uint32(i)
		sp.Lanes = append(sp.Lanes, Lane{Cs: id, Msgs: []SMsg{
			{Ts: x, Type: 8 + byte(i%2), Sid: x, P: P{3 + i%5, x}}, {Fmt: 1 + byte(i%3), Ts: x, Type: 9, P: P{3 + i%5, x + 1}}, {Fmt: 3, P: P{3 + i%5, x + 2}},
		}})
	}
	return sp
}

func genBulk(t *rapid.T) WCase {
	c := genWCase(t, 8, true)
	c.Size = max(c.Size, 500)
	for i := range c.Ops {
		if c.Ops[i].Size > 0 {
			c.Ops[i].Size = max(c.Ops[i].Size, 500)
		} else if c.Ops[i].Fmt < 2 {
			c.Ops[i].P.N = genInt(t, "bulk", 0, 30000)
		} else {
			c.Ops[i].Fmt = 0
		}
	}
	return c
}

func genHugeW(t *rapid.T) WCase {
	c := genBulk(t)
	for i := range c.Ops {
		if c.Ops[i].Size == 0 && chance(t, "hugeMsg", 25) {
			c.Ops[i].P.N = genHuge(t)
		}
	}
	return c
}
