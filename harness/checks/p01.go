package checks

import (
	"verif/rt"
	"verif/sim"
)

// traffic is a hostile network between users of a world.
type traffic struct {
	w        *sim.World
	c        *rt.Case
	held     []*sim.Msg // in flight
	done     []*sim.Msg // delivered at least once (accepted or not)
	dropped  int
	longs    int
	dupRate  int // percent of deliveries repeated
	dropRate int
	replay   int // percent of steps that replay an old message
}

func (t *traffic) send(a, b int) *sim.Msg {
	m := t.w.Send(a, b, t.w.Plain())
	if m != nil {
		t.held = append(t.held, m)
	}
	return m
}

func (t *traffic) take(i int) *sim.Msg {
	m := t.held[i]
	t.held = append(t.held[:i:i], t.held[i+1:]...)
	return m
}

func (t *traffic) deliver(m *sim.Msg) {
	t.w.Deliver(m)
	t.done = append(t.done, m)
	for t.c.R.Intn(100) < t.dupRate {
		t.w.Deliver(m)
		t.c.Count("duplicates", 1)
	}
}

// step performs one random network or user action.
func (t *traffic) step(order int) {
	r := t.c.R
	if r.Intn(100) < t.replay && len(t.done) > 0 {
		t.w.Deliver(t.done[r.Intn(len(t.done))])
		t.c.Count("replays", 1)
		return
	}
	if len(t.held) == 0 || r.Intn(100) < 45 {
		a := r.Intn(len(t.w.Nodes))
		b := r.Intn(len(t.w.Nodes))
		if a == b || !t.w.HasSession(a, b) {
			return
		}
		n := 1 + r.Intn(4)
		if t.longs < 2 && r.Intn(150) == 0 { // a long monologue
			n = 40 + r.Intn(pick(t.c, 60, 60, 250, 250, 1000))
			t.longs++
			t.c.Count("monologues", 1)
		}
		for ; n > 4; n-- {
			if m := t.w.Send(a, b, []byte{byte(n)}); r.Intn(n) < 6 {
				t.held = append(t.held, m)
			}
		}
		for ; n > 0; n-- {
			t.send(a, b)
		}
		return
	}
	var i int
	switch order {
	case 0: // random
		i = r.Intn(len(t.held))
	case 1: // newest first
		i = len(t.held) - 1 - r.Intn(min(2, len(t.held)))
	case 2: // in order
		i = 0
	default: // newest mostly, so that old ones age
		i = len(t.held) - 1
		if r.Intn(12) == 0 {
			i = r.Intn(len(t.held))
		}
	}
	if r.Intn(100) < t.dropRate {
		m := t.take(i)
		if r.Intn(2) == 0 { // not lost, only much delayed
			t.held = append([]*sim.Msg{m}, t.held...)
		} else {
			t.dropped++
			t.c.Count("dropped", 1)
		}
		return
	}
	t.deliver(t.take(i))
}

func (t *traffic) flush() {
	r := t.c.R
	r.Shuffle(len(t.held), func(i, j int) { t.held[i], t.held[j] = t.held[j], t.held[i] })
	for len(t.held) > 0 {
		t.deliver(t.take(0))
	}
}

// burst sends n messages and delivers only some of them around the window's edge.
func (t *traffic) burst(a, b, n int) {
	r := t.c.R
	var ms []*sim.Msg
	for i := 0; i < n; i++ {
		m := t.w.Send(a, b, []byte{byte(i), byte(i >> 8)})
		ms = append(ms, m)
	}
	last := ms[len(ms)-1]
	t.deliver(last)
	for k := 0; k < 12; k++ {
		t.deliver(ms[r.Intn(len(ms))])
	}
	for _, off := range []int{2, sim.MaxSkipped, sim.MaxSkipped + 1, sim.MaxSkipped + 2, sim.MaxSkipped - 1} {
		if off <= len(ms) {
			t.deliver(ms[len(ms)-off])
		}
	}
	t.deliver(ms[len(ms)/2])
	t.deliver(last)
	t.edges(ms)
	// Read some of the oldest kept ones, let more be skipped, and look at the edges again.
	if kept := t.w.Kept(last); len(kept) > 0 && last.Ratchet == ms[0].Ratchet {
		for i, k := 0, 1+r.Intn(4); i < len(kept) && k > 0; i++ {
			if j := kept[i] - ms[0].Counter; int(j) < len(ms) {
				t.deliver(ms[j])
				k--
			}
		}
		for i := 1 + r.Intn(30); i > 0; i-- {
			ms = append(ms, t.w.Send(a, b, []byte{byte(i)}))
		}
		t.deliver(ms[len(ms)-1])
		if ms[len(ms)-1].Ratchet == ms[0].Ratchet {
			t.edges(ms)
			for i := n - 2; i > n-5 && i >= 0; i-- {
				t.deliver(ms[i])
			}
		}
	}
	t.c.Count("bursts", 1)
	t.c.Max("max_gap", int64(n-1))
}

// edges delivers the messages of a chain around what the receiver keeps of it.
func (t *traffic) edges(ms []*sim.Msg) {
	r := t.c.R
	last := ms[len(ms)-1]
	kept := t.w.Kept(last)
	var at []uint32
	for i := 0; i < 3 && i < len(kept); i++ {
		at = append(at, kept[i], kept[len(kept)-1-i], kept[r.Intn(len(kept))])
	}
	for _, k := range at {
		for _, d := range []uint32{0, 1, ^uint32(0)} {
			if i := k + d - ms[0].Counter; int(i) < len(ms) && (d == 0 || r.Intn(3) == 0) && ms[i].Ratchet == last.Ratchet {
				t.deliver(ms[i])
				t.c.Count("window_edges", 1)
			}
		}
	}
}

// age gives a pair of devices a long past.
func (t *traffic) age(a, b int) { t.held = append(t.held, t.w.Age(a, b)...) }

func init() {
	rt.Register(&rt.Check{
		ID: "P01",
		Rule: "one case is a conversation of two or three devices over a network that reorders, delays, drops and duplicates; every delivery is compared with an exact receiver model. " +
			"An evaluation is a delivery; distinct by wire format, store kind, the model's reason for its verdict, message kind, counter magnitude and number of sessions",
		Cases:       tiered(640, 8000),
		Run:         runP01,
		Need:        map[string]int64{"disturbances": 300, "accepted": 5000, "verdict_gap": 200, "verdict_skipped": 300, "verdict_new-chain": 500, "bursts": 5, "wide_gaps": 10, "duplicates": 300, "verdict_chain-evicted": 20, "window_edges": 300, "plaintexts_over_256k": 20, "worlds_of_one_identity": 20},
		Assumptions: []string{"entropy is replaced by a seeded generator", "stores are in-memory implementations of the store interfaces (serializing, pointer-keeping)"},
	})
}

func runP01(c *rt.Case) {
	r := c.R
	f := format(c)
	n := 2
	if r.Intn(4) == 0 {
		n = 3
	}
	big := c.Idx%16 == 0
	mode := anyMode(c)
	if big {
		mode = func(int) sim.Mode { return pick(c, sim.Ptr, sim.PtrInsert) }
	}
	w := sim.NewWorld(c, n, f, mode)
	t := &traffic{w: w, c: c, dupRate: 5, dropRate: 6}
	kind := pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last)
	w.Initiate(0, 1, kind)
	if n == 3 {
		w.Initiate(2, 1, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
		w.Initiate(0, 2, sim.OneTime)
	}
	if c.Idx%8 == 5 {
		t.age(0, 1)
	}
	if c.Idx%40 == 9 { // more skipped messages than one chain may have, on several
		t.held = append(t.held, w.Skip(0, 1, sim.MaxSkipped/2+r.Intn(500), 2+r.Intn(2))...)
		c.Count("wide_gaps", 1)
	}
	if c.Idx%40 == 11 { // long messages
		for k := 0; k < 4; k++ {
			if a := r.Intn(2); w.HasSession(a, 1-a) {
				t.held = append(t.held, w.Send(a, 1-a, longPlain(c)))
			}
		}
	}
	order := r.Intn(4)
	steps := 60 + r.Intn(240)
	for i := 0; i < steps; i++ {
		if r.Intn(10) == 0 {
			disturb(c, w, t)
		}
		t.step(order)
		if r.Intn(60) == 0 {
			order = r.Intn(4)
		}
		if len(t.held) > 150 {
			t.deliver(t.take(0))
		}
	}
	if big {
		t.flush()
		size := pick(c, sim.MaxFuture, sim.MaxFuture+1, sim.MaxFuture+2, 2000+r.Intn(10), 2001, 2500)
		t.burst(0, 1, size)
		if w.HasSession(1, 0) && r.Intn(2) == 0 {
			t.burst(1, 0, pick(c, sim.MaxFuture+1, sim.MaxFuture+2, 300))
		}
		for i := 0; i < 40; i++ {
			t.step(0)
		}
	}
	if r.Intn(3) != 0 {
		t.flush()
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace_head": c.TraceSample(14)})
	}
}
