package checks

import (
	"verif/rt"
	"verif/sim"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P02",
		Rule: "one case is a conversation after which, and during which, an attacker replays recorded messages (immediately, after later messages, after ratchet turns, after restarts, after archiving); " +
			"every replay must be refused; every fourth case first replays group messages in the same way, with descriptions of their chains processed again in between. Distinct by format, store kind, model reason, message kind, counter magnitude and session count",
		Cases:       tiered(400, 6000),
		Run:         runP02,
		Need:        map[string]int64{"replays": 5000, "verdict_old": 1500, "accepted": 3000, "verdict_prekey-used": 10, "replays_rewrapped": 1000, "replays_reheadered": 500, "group_replays": 3000, "group_redescribed": 200},
		Assumptions: []string{"a replayed opening message that used no one-time prekey may re-create a session the receiver has already evicted or deleted; the model knows those cases"},
	})
}

func runP02(c *rt.Case) {
	if c.Idx%4 == 3 {
		p02Group(c)
	}
	r := c.R
	f := format(c)
	w := sim.NewWorld(c, 2, f, anyMode(c))
	t := &traffic{w: w, c: c, dupRate: 15, dropRate: 4, replay: 35}
	w.Initiate(0, 1, pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last))
	if c.Idx%10 == 3 {
		t.age(0, 1)
	}
	order := r.Intn(4)
	steps := 60 + r.Intn(140)
	for i := 0; i < steps; i++ {
		if r.Intn(10) == 0 {
			disturb(c, w, t)
		}
		t.step(order)
		switch r.Intn(50) {
		case 0:
			order = r.Intn(4)
		case 1:
			if r.Intn(3) == 0 {
				a := r.Intn(2)
				w.Initiate(a, 1-a, pick(c, sim.OneTime, sim.NoPreKey))
			}
		case 2: // replay the whole recent past
			for k := max(0, len(t.done)-12); k < len(t.done); k++ {
				w.Deliver(t.done[k])
				c.Count("replays", 1)
			}
		case 3, 4: // replay a message in an opening message of another session
			if len(t.done) > 0 {
				m := t.done[r.Intn(len(t.done))]
				if m.Delivered > 0 && w.BaseOf(m) != nil {
					mu := rewrap(c, w, m)
					_, err := w.Nodes[mu.to].U.Decrypt(w.Addr(mu.from), mu.b, true)
					c.Must(err != nil, "replayed:"+mu.how, "message #%d was accepted again in an opening message with another base key (%s)", m.N, mu.how)
					c.Count("replays_rewrapped", 1)
				}
			}
		case 5, 6: // replay an opening message with another wrapper around the same payload
			if m := readOpening(c, w, t.done); m != nil {
				mu := reheader(c, w, m)
				_, err := w.Nodes[mu.to].U.Decrypt(w.Addr(mu.from), mu.b, true)
				c.Must(err != nil, "replayed:"+mu.how, "opening message #%d was accepted again (%s)", m.N, mu.how)
				c.Count("replays_reheadered", 1)
			}
		}
	}
	t.flush()
	if c.Idx%8 == 0 { // a wide gap, then replays of both sides of it
		t.burst(0, 1, pick(c, 40, 300, 2100))
	}
	if c.Idx%5 == 0 { // the receiver loses its session; old opening messages come again
		w.Forget(1, 0)
	}
	for _, i := range r.Perm(len(t.done)) {
		w.Deliver(t.done[i])
		c.Count("replays", 1)
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace_tail_head": c.TraceSample(12)})
	}
}

// readOpening picks an opening message that was read and whose session the
// receiver still has.
func readOpening(c *rt.Case, w *sim.World, done []*sim.Msg) *sim.Msg {
	var open []*sim.Msg
	for _, m := range done {
		if m.PreKey && m.Delivered > 0 && w.HasBase(m) {
			open = append(open, m)
		}
	}
	if len(open) == 0 {
		return nil
	}
	return open[c.R.Intn(len(open))]
}

// reheader changes what an opening message says around its payload, except the
// base key.
func reheader(c *rt.Case, w *sim.World, m *sim.Msg) *mutant {
	r := c.R
	p := *m.Pre
	u := w.Nodes[m.To].U
	how := ""
	for how == "" || r.Intn(3) == 0 {
		switch r.Intn(6) {
		case 0, 1:
			p.Version = pick(c, 2, 2, 2, 1, 4)
			how += "-version"
		case 2:
			p.RegID, how = jitter(c, p.RegID), how+"-registration"
		case 3:
			p.HasPreKey, p.PreKeyID = false, 0
			how += "-no-prekey"
		case 4:
			if ids := u.St.PreKeyIDs(); len(ids) > 0 {
				p.HasPreKey, p.PreKeyID = true, ids[r.Intn(len(ids))]
				how += "-prekey"
			}
		default:
			if ids := u.St.SignedIDs(); len(ids) > 0 {
				p.SignedID = ids[r.Intn(len(ids))]
				how += "-signed"
			}
		}
	}
	return &mutant{prekey: true, from: m.From, to: m.To, orig: m, how: "reheader" + how, b: p.Encode(w.F)}
}
