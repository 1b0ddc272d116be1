package props

import (
	"encoding/json"
	"runtime"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"
)

// together.go: several cases at the same time, in workers built with the race
// detector. Connections have nothing to do with each other: whatever the library
// shares between them (tables, buffers, pools, parsers) must not let one see
// another, so that each case has to come out as it does alone, and no two of them
// may touch the same memory without an order.

// Crew is a number of cases that run at the same time.
type Crew struct {
	Parts []Part `json:"parts"`
}

// Part is a case of another sub-check.
type Part struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

// Together makes a sub-check that runs random cases of others at the same time.
func Together(n int, subs ...*Sub) *Sub {
	return RaceRand("together", n, func(t *rapid.T) Crew {
		var c Crew
		pick := genInt(t, "one", 0, len(subs)-1)
		for range genInt(t, "parts", 2, 4) {
			if chance(t, "other", 30) {
				pick = genInt(t, "sub", 0, len(subs)-1)
			}
			raw, err := json.Marshal(subs[pick].gen(t))
			if err != nil {
				panic(err)
			}
			c.Parts = append(c.Parts, Part{subs[pick].Name, raw})
		}
		return c
	}, func(o *O, c Crew) {
		var wg sync.WaitGroup
		// How many cases are yet to begin: nothing but this number passes between
		// bubbles.
		var ahead atomic.Int32
		ahead.Store(int32(len(c.Parts)))
		obs := make([]*O, len(c.Parts))
		for i, part := range c.Parts {
			obs[i] = &O{T: o.T}
			wg.Add(1)
			begun := false
			begin := func() {
				if !begun {
					begun = true
					ahead.Add(-1)
				}
			}
			obs[i].enter = func() {
				begin()
				for ahead.Load() > 0 {
					runtime.Gosched()
				}
			}
			go func() {
				defer wg.Done()
				defer begin()
				for _, s := range subs {
					if s.Name == part.Sub {
						s.run(obs[i], part.Case)
					}
				}
			}()
		}
		wg.Wait()
		for i, p := range obs {
			if p.Fail != "" {
				o.Failf(p.Fail, "next to others, case %d: %s", i, p.Detail)
			}
			if p.Harness != "" {
				o.Harness = p.Harness
			}
			o.Known = append(o.Known, p.Known...)
			o.Leaks += p.Leaks
			o.NT = o.NT || p.NT
			o.Class("%s", c.Parts[i].Sub)
		}
		o.Class("%d-at-once", len(c.Parts))
	})
}
