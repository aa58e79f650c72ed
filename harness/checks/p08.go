package checks

import (
	"fmt"

	"verif/rt"
	"verif/sim"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P08",
		Rule: "one case is several devices opening sessions with one another through bundles with one-time, last-resort and no prekeys, sharing, replaying and reordering opening messages, while signed prekeys rotate and expire; after every step each device's set of stored prekeys is compared with the model. " +
			"Distinct by bundle kind, the model's reason for its verdict, number of prekeys left, format and store kind",
		Cases: tiered(2000, 30000),
		Run:   runP08,
		Need: map[string]int64{"accepted": 10000, "consumed": 1500, "verdict_prekey-used": 500, "verdict_signed-prekey-gone": 60, "shared_bundles": 500, "last_resort_uses": 300,
			"prekey_ids_reused": 150, "verdict_prekey-replaced": 30, "repeats_under_reused_id": 100, "forged_openings": 2000, "full_archives": 100},
	})
}

func runP08(c *rt.Case) {
	r := c.R
	n := 3 + r.Intn(2)
	w := sim.NewWorld(c, n, format(c), anyMode(c))
	w.PreKeys = true
	for _, n := range w.Nodes {
		n.U.ReuseIDs = c.Idx%2 == 0
	}
	t := &traffic{w: w, c: c, dupRate: 15, dropRate: 4, replay: 15}
	want := make([]map[uint32]bool, n)
	signed := make([]map[uint32]bool, n)
	for i := range want {
		want[i], signed[i] = map[uint32]bool{}, map[uint32]bool{}
	}
	sync := func(i int) { // a bundle may have added keys
		for _, id := range w.Nodes[i].U.St.PreKeyIDs() {
			want[i][id] = true
		}
	}
	check := func(after string) {
		for i := range want {
			have := map[uint32]bool{}
			for _, id := range w.Nodes[i].U.St.PreKeyIDs() {
				have[id] = true
				c.Must(want[i][id], "prekey-stored-again", "device %d stores prekey %d again after %s", i, id, after)
			}
			for id := range want[i] {
				c.Must(have[id], "prekey-lost", "device %d lost prekey %d by %s", i, id, after)
			}
			for id := range signed[i] {
				c.Must(w.Nodes[i].U.St.ContainsSignedPreKey(id), "signed-prekey-lost", "device %d lost signed prekey %d by %s", i, id, after)
			}
		}
	}
	deliver := func(m *sim.Msg) {
		ok, why := w.Expect(m)
		if w.Deliver(m) != ok {
			return
		}
		if ok && (why == "new-session" || len(why) > 11 && why[:11] == "new-session") && m.Pre.HasPreKey {
			if m.Pre.PreKeyID == sim.LastResort {
				c.Count("last_resort_uses", 1)
			} else {
				delete(want[m.To], m.Pre.PreKeyID)
				c.Count("consumed", 1)
			}
		}
		if ok && m.PreKey && m.Pre.HasPreKey && why[0] != 'n' && w.Nodes[m.To].U.St.ContainsPreKey(m.Pre.PreKeyID) && m.Pre.PreKeyID != sim.LastResort {
			c.Count("repeats_under_reused_id", 1)
		}
		t.done = append(t.done, m)
		check(fmt.Sprintf("delivery of #%d (%s)", m.N, why))
		c.Sig(why, len(want[m.To]), w.F, w.Nodes[m.To].U.St.Mode)
	}
	var shared []*sim.Published
	var owner []int
	steps := 70
	veteran := c.Idx%40 == 11 // two devices that start anew very often
	if veteran {
		steps = 200
	}
	for s := 0; s < steps; s++ {
		k := r.Intn(12)
		if veteran && s%3 == 0 {
			k = 0
		}
		switch {
		case k < 3:
			a, b := r.Intn(n), r.Intn(n)
			if veteran {
				a, b = 0, 1
			}
			if a == b || !veteran && w.Sessions(a, b) > 25 {
				continue
			}
			if w.Sessions(b, a) > sim.MaxArchived {
				c.Count("full_archives", 1)
			}
			var p *sim.Published
			if len(shared) > 0 && r.Intn(3) == 0 && !veteran {
				j := r.Intn(len(shared))
				p, b = shared[j], owner[j]
				if a == b {
					continue
				}
				c.Count("shared_bundles", 1)
			} else {
				p = w.Nodes[b].U.Publish(c, pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last))
				sync(b)
				signed[b][p.SignedID] = true
				shared, owner = append(shared, p), append(owner, b)
				if p.Reused {
					// Old opening messages naming the ID must not touch the new prekey.
					for i := len(t.held) - 1; i >= 0; i-- {
						if m := t.held[i]; m.To == b && m.PreKey && m.Pre.HasPreKey && m.Pre.PreKeyID == p.PreKeyID && r.Intn(4) > 0 {
							deliver(t.take(i))
						}
					}
					for i, n := len(t.done)-1, 0; i >= 0 && n < 3; i-- {
						if m := t.done[i]; m.To == b && m.PreKey && m.Pre.HasPreKey && m.Pre.PreKeyID == p.PreKeyID {
							deliver(m)
							n++
						}
					}
				}
			}
			w.InitiateWith(a, b, p)
			check("processing a bundle")
			for m := r.Intn(3); m >= 0; m-- {
				t.send(a, b)
			}
			if veteran {
				deliver(t.take(len(t.held) - 1 - r.Intn(min(2, len(t.held)))))
			}
		case k < 5:
			a, b := r.Intn(n), r.Intn(n)
			if a != b && w.HasSession(a, b) {
				t.send(a, b)
				check("encryption")
			}
		case k == 5 && len(t.done) > 0:
			deliver(t.done[r.Intn(len(t.done))])
		case k == 6 && r.Intn(3) == 0:
			// A signed prekey expires.
			i := r.Intn(n)
			for _, id := range sortedU32(signed[i]) {
				if r.Intn(3) == 0 {
					w.Nodes[i].U.ExpireSigned(id)
					delete(signed[i], id)
					break
				}
			}
			for j := len(shared) - 1; j >= 0; j-- { // do not publish it any longer
				if owner[j] == i && !signed[i][shared[j].SignedID] {
					shared, owner = append(shared[:j:j], shared[j+1:]...), append(owner[:j:j], owner[j+1:]...)
				}
			}
			w.Nodes[i].U.RotateSigned()
		case k == 6 && len(w.Msgs) > 0:
			// A genuine message in a forged opening that names some prekey.
			if m := w.Msgs[r.Intn(len(w.Msgs))]; w.BaseOf(m) != nil {
				mu := rewrap(c, w, m)
				_, err := w.Nodes[mu.to].U.Decrypt(w.Addr(mu.from), mu.b, true)
				c.Logf("%s of #%d: %v", mu.how, m.N, err)
				check("a forged opening message (" + mu.how + ")")
				c.Must(err != nil, "forged-opening:"+mu.how, "message #%d was accepted in an opening message of another session", m.N)
				c.Count("forged_openings", 1)
			}
		case k == 7 && r.Intn(2) == 0:
			// A device forgets a peer: used prekeys must still not work again.
			a, b := r.Intn(n), r.Intn(n)
			if a != b && w.HasSession(a, b) {
				w.Forget(a, b)
			}
		default:
			if len(t.held) > 0 {
				i := 0
				if r.Intn(2) == 0 {
					i = r.Intn(len(t.held))
				}
				m := t.take(i)
				deliver(m)
				if r.Intn(6) == 0 {
					deliver(m)
				}
			}
		}
	}
	for len(t.held) > 0 {
		deliver(t.take(r.Intn(len(t.held))))
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"devices": n, "trace": c.TraceSample(14)})
	}
}
