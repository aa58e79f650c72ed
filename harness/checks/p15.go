package checks

import (
	"verif/rt"
	"verif/sim"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P15",
		Rule: "one case is several devices in several groups over a network that reorders, duplicates, drops and delays, with members joining at any time and senders starting anew; every delivery is compared with an exact receiver model. " +
			"Distinct by format, store kind, the model's reason, iteration magnitude, number of chains known and plaintext length class",
		Cases: tiered(600, 10000),
		Run:   runP15,
		Need:  map[string]int64{"group_accepted": 20000, "group_skipped": 4000, "group_old": 3000, "group_gap": 2000, "group_no-chain": 300, "group_unknown-chain": 100, "group_too-far": 1, "bursts": 8, "window_edges": 200, "group_leaps": 20, "chains_of_one_sender": 1500, "edges_of_older_chains": 50, "plaintexts_over_256k": 40},
	})
}

func runP15(c *rt.Case) {
	r := c.R
	n := 2 + r.Intn(4)
	g := 1 + r.Intn(3)
	big := c.Idx%32 == 0
	mode := anyMode(c)
	if big {
		n, g = 2, 1
		mode = func(int) sim.Mode { return pick(c, sim.Ptr, sim.PtrInsert) }
	}
	w := sim.NewGroup(c, n, g, format(c), mode)
	var q []pair2
	var done []pair2
	send := func(s, gi int) {
		m := w.Send(s, gi, w.Plain())
		if m == nil {
			return
		}
		for v := 0; v < n; v++ {
			if v != s {
				q = append(q, pair2{v, m})
			}
		}
	}
	deliver := func(i int) {
		p := q[i]
		q = append(q[:i:i], q[i+1:]...)
		if r.Intn(100) < 4 {
			c.Count("dropped", 1)
			return
		}
		w.Deliver(p.v, p.m)
		done = append(done, p)
		if r.Intn(100) < 8 {
			w.Deliver(p.v, p.m)
			c.Count("duplicates", 1)
		}
	}
	steps := 60 + r.Intn(120)
	for i := 0; i < steps; i++ {
		s, gi := r.Intn(n), r.Intn(g)
		switch k := r.Intn(20); {
		case k < 2:
			d := w.Create(s, gi)
			for v := 0; v < n; v++ {
				if v != s && r.Intn(3) > 0 {
					w.Join(v, d)
				}
			}
		case k == 2 && len(w.Dist) > 0: // an old distribution message arrives (again)
			d := w.Dist[r.Intn(len(w.Dist))]
			if v := r.Intn(n); v != d.From {
				w.Join(v, d)
			}
		case k == 3 && r.Intn(3) == 0:
			w.Reinstall(s, gi)
		case k == 3 && r.Intn(6) == 0:
			drop := q[:0] // nothing of the chain may be under way
			for _, p := range q {
				if p.m.From != s || p.m.G != gi {
					drop = append(drop, p)
				}
			}
			q = drop
			w.Leap(s, gi)
		case k < 9:
			for j := 1 + r.Intn(4); j > 0; j-- {
				send(s, gi)
			}
		case k == 9 && len(done) > 0:
			p := done[r.Intn(len(done))]
			w.Deliver(p.v, p.m)
			c.Count("replays", 1)
		default:
			for j := r.Intn(2 * n); j >= 0 && len(q) > 0; j-- {
				i := 0
				if r.Intn(2) == 0 {
					i = r.Intn(len(q))
				}
				deliver(i)
			}
		}
	}
	if big {
		d := w.Create(0, 0)
		w.Join(1, d)
		size := pick(c, sim.MaxGroupGap, sim.MaxGroupGap+1, sim.MaxGroupGap+2, 1500)
		var ms []*sim.GMsg
		for i := 0; i < size; i++ {
			ms = append(ms, w.Send(0, 0, []byte{byte(i)}))
		}
		w.Deliver(1, ms[size-1])
		for k := 0; k < 30; k++ {
			w.Deliver(1, ms[r.Intn(size)])
		}
		w.Deliver(1, ms[0])
		// And over the number of keys that are kept.
		for i := 0; i < 700; i++ {
			ms = append(ms, w.Send(0, 0, []byte{byte(i)}))
		}
		w.Deliver(1, ms[len(ms)-1])
		for k := 0; k < 60; k++ {
			w.Deliver(1, ms[r.Intn(len(ms))])
		}
		for pass := 0; pass < 3; pass++ {
			kept := w.Kept(1, ms[0])
			for i := 0; i < 3 && i < len(kept); i++ {
				for _, k := range []uint32{kept[i], kept[len(kept)-1-i], kept[r.Intn(len(kept))]} {
					for d := uint32(0); d < 3; d++ {
						if j := k + d - 1 - ms[0].Iter; int(j) < len(ms) && (d == 1 || r.Intn(3) == 0) {
							w.Deliver(1, ms[j])
							c.Count("window_edges", 1)
						}
					}
				}
			}
			n := len(ms)
			for i := 1 + r.Intn(20); i > 0; i-- {
				ms = append(ms, w.Send(0, 0, []byte{byte(i)}))
			}
			w.Deliver(1, ms[len(ms)-1])
			w.Deliver(1, ms[n-2])
			w.Deliver(1, ms[n-3])
		}
		c.Count("bursts", 1)
		// The sender starts anew, again and again; what is skipped in each of its
		// chains stays readable.
		for k := 1 + r.Intn(3); k > 0; k-- {
			w.Reinstall(0, 0)
			w.Join(1, w.Create(0, 0))
			a := len(ms)
			for i := pick(c, 1, 5, 300, 1200); i > 0; i-- {
				ms = append(ms, w.Send(0, 0, []byte{byte(i)}))
			}
			if r.Intn(4) > 0 {
				w.Deliver(1, ms[len(ms)-1])
			}
			for i := 0; i < 15; i++ {
				w.Deliver(1, ms[a+r.Intn(len(ms)-a)])
				w.Deliver(1, ms[r.Intn(a)])
			}
			for _, m := range []*sim.GMsg{ms[0], ms[a-1], ms[a]} {
				if kept := w.Kept(1, m); len(kept) > 0 {
					for _, i := range []uint32{kept[0], kept[len(kept)-1]} {
						for _, x := range ms {
							if x.ID == m.ID && x.Iter == i {
								w.Deliver(1, x)
								c.Count("edges_of_older_chains", 1)
							}
						}
					}
				}
			}
		}
	}
	if c.Idx%40 == 5 { // long messages
		w.Join(1, w.Create(0, 0))
		for k := 0; k < 4; k++ {
			q = append(q, pair2{1, w.Send(0, 0, longPlain(c))})
		}
	}
	if c.Idx%32 == 16 {
		p15Chains(c, w)
	}
	if r.Intn(4) > 0 {
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		for len(q) > 0 {
			deliver(0)
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"devices": n, "groups": g, "trace": c.TraceSample(12)})
	}
}

type pair2 struct {
	v int
	m *sim.GMsg
}

// p15Chains lets a sender start anew many times, up to the number of chains
// that are kept, and reads late messages of any of them.
func p15Chains(c *rt.Case, w *sim.Group) {
	r := c.R
	n := pick(c, 50, 80, 130, 260) + r.Intn(20)
	if c.Idx%128 == 16 {
		n = sim.MaxGroupChains - 200 // other chains of the case count
	}
	var ms []*sim.GMsg
	for i := 0; i < n; i++ {
		w.Reinstall(0, 0)
		d := w.Create(0, 0)
		w.Join(1, d)
		var got []*sim.GMsg
		for k := 1 + r.Intn(3); k > 0; k-- {
			got = append(got, w.Send(0, 0, []byte{byte(i), byte(k)}))
		}
		if r.Intn(2) == 0 {
			k := r.Intn(len(got))
			w.Deliver(1, got[k])
			if r.Intn(2) == 0 {
				got = append(got[:k:k], got[k+1:]...)
			}
		}
		ms = append(ms, got...)
		if r.Intn(20) == 0 && len(ms) > 0 {
			w.Deliver(1, ms[0])
			w.Deliver(1, ms[r.Intn(len(ms))])
		}
		c.Count("chains_of_one_sender", 1)
	}
	for _, m := range ms[:min(len(ms), 6)] {
		w.Deliver(1, m)
	}
	for i := 0; i < 40; i++ {
		w.Deliver(1, ms[r.Intn(len(ms))])
	}
}
