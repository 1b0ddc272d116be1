package props

// marathon.go: histories of more than 65536 steps, for counters and tables that
// overflow or fill up.

const marathonSteps = 66000

// Marathon makes a sub-check of a few small cases repeated until they have more
// than 65536 steps.
func Marathon[C any](cases []C, steps func(C) int, grow func(C, int, int) C, run func(*O, C)) *Sub {
	return Enum("marathon", func(string) (out []Long[C]) {
		for _, c := range cases {
			out = append(out, Long[C]{Rep: marathonSteps/max(steps(c), 1) + 1, Case: c})
		}
		return
	}, func(o *O, c Long[C]) { run(o, grow(c.Case, c.Rep, c.Wide)) })
}

// marathonW: two chunk streams, all formats, messages of one and two chunks.
func marathonW(run func(*O, WCase)) *Sub {
	return Marathon([]WCase{{Size: 2, Ops: []WOp{
		{Cs: 3, Ts: 5, Type: 8, Sid: 1, P: P{1, 1}},
		{Cs: 4, Ts: 0x1000000, Type: 9, Sid: 1, P: P{3, 2}},
		{Cs: 3, Fmt: 1, Ts: 6, Type: 8, Sid: 1, P: P{2, 3}},
		{Cs: 3, Fmt: 2, Ts: 7, Type: 8, Sid: 1, P: P{2, 4}},
		{Cs: 4, Fmt: 3, Ts: 0x1000000, Type: 9, Sid: 1, P: P{3, 2}},
	}}}, func(c WCase) int { return len(c.Ops) }, WCase.grow, run)
}

// marathonStream is the same of a sender that interleaves its chunks.
func marathonStream(announce bool) []StreamSpec {
	sp := StreamSpec{Size: 2, Lanes: []Lane{
		{Cs: 3, Msgs: []SMsg{{Ts: 5, Type: 8, Sid: 1, P: P{1, 1}}, {Fmt: 1, Ts: 6, Type: 8, P: P{3, 3}}, {Fmt: 2, Ts: 7, P: P{3, 4}}, {Fmt: 3, P: P{3, 5}}}},
		{Cs: 65, Msgs: []SMsg{{Ts: 0x1000000, Type: 9, Sid: 1, P: P{5, 2}}, {Fmt: 3, P: P{5, 2}}, {Fmt: 1, Ts: 1, Type: 8, P: P{0, 2}}}},
		// One that is not complete before all the others are.
		{Cs: 66, Msgs: []SMsg{{Ts: 5, Type: 9, Sid: 1, P: P{300000, 9}}}, Once: true},
	}, Order: []byte{2, 0, 1, 1, 0, 1, 0, 0, 0, 1, 2, 1, 0, 0, 1, 1, 0, 0, 1, 2, 0, 1, 0, 1, 0, 1, 0, 1}}
	if announce {
		sp.Lanes[0].Msgs = append(sp.Lanes[0].Msgs, SMsg{Type: 1, Size: 2, P: P{4, 1}}, SMsg{Type: 1, Size: 3, P: P{4, 1}})
	}
	return []StreamSpec{sp}
}

var marathonCtls = []Ctl{{Kind: 3, V: 1}, {Kind: 5, V: 1}, {Kind: 6, V: 1, L: 2}, {Kind: 4, V: 1, Body: Hex{1, 2, 3, 4}}, {Kind: 2, V: 1}}

var marathonFrames = []Frame{{Type: 9, Ctl: 0x17, P: P{3, 1}, Cs: 4, Sid: 1}, {Type: 8, Ctl: 0xaf, P: P{2, 1}, Cs: 4, Sid: 1}}

func marathonCmds(name string, cmd Cmd, resp Resp, rt Route, run func(*O, CmdCase)) *Sub {
	s := Marathon([]CmdCase{{Sc: Sched{InDelay: []int{0}, ErrDelay: []int{0}}, Ops: []CmdOp{
		{DOp: DOp{Op: "in"}, Cmd: cmd, Hdr: rt}, {DOp: DOp{Op: "out"}, Resp: resp},
	}}}, CmdCase.steps, CmdCase.grow, run)
	s.Name = name
	return s
}
