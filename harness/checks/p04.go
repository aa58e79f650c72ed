package checks

import (
	"verif/rt"
	"verif/sim"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P04",
		Rule: "one case is a conversation in which forged, replayed, stale, too-far, misdirected and truncated messages and bundles, entropy failures and distrusted identities are refused; after every refusal everything the device stores must be byte-identical, and the genuine messages must still be delivered. " +
			"Distinct by cause of refusal, format, store kind and error",
		Cases: tiered(1200, 25000),
		Run:   runP04,
		Need:  map[string]int64{"refusals": 6000, "entropy_refusals": 200, "bundle_refusals": 100, "group_refusals": 500, "accepted": 2000},
	})
}

func runP04(c *rt.Case) {
	if c.Idx%4 == 3 {
		runP04Group(c)
		return
	}
	w, t := attackWorld(c)
	r := c.R
	refuse := func(u *sim.User, what string, f func() error) {
		before := u.St.Snapshot()
		var err error
		if pn := rt.Try(func() { err = f() }); pn != "" {
			c.Fail("panic:"+what, "%s: %s", what, pn)
		}
		c.Must(err != nil, "not-refused:"+what, "%s was not refused", what)
		after := u.St.Snapshot()
		if after != before {
			c.Fail("trace:"+what, "%s was refused (%v) but changed what the device stores:\nbefore %s\nafter  %s", what, err, diff(before, after), diff(after, before))
		}
		c.Count("refusals", 1)
		c.Sig(w.F, u.St.Mode, what, err.Error())
	}
	for i := 0; i < 50+r.Intn(50); i++ {
		t.step(r.Intn(3))
		if len(w.Msgs) == 0 {
			continue
		}
		for k := r.Intn(4); k > 0; k-- {
			m := w.Msgs[r.Intn(len(w.Msgs))]
			if len(t.held) > 0 && r.Intn(3) > 0 {
				m = t.held[r.Intn(len(t.held))]
			}
			mu := makeMutant(c, w, m)
			if firstUse(w, mu) {
				continue
			}
			if g := genuine(w, mu); g != nil && !wrongBase(w, mu, g) {
				continue
			}
			u := w.Nodes[mu.to].U
			refuse(u, "forgery:"+mu.how, func() error { _, err := u.Decrypt(w.Addr(mu.from), mu.b, mu.prekey); return err })
		}
		if r.Intn(4) == 0 { // replays and other messages the model refuses
			m := w.Msgs[r.Intn(len(w.Msgs))]
			if ok, why := w.Expect(m); !ok {
				u := w.Nodes[m.To].U
				refuse(u, "model:"+why, func() error { _, err := u.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
			}
		}
		if len(t.held) > 0 && r.Intn(3) == 0 { // entropy failure while a genuine message turns the ratchet
			m := t.held[r.Intn(len(t.held))]
			if ok, why := w.Expect(m); ok && (why == "new-chain" || why == "new-chain+promote" || why == "new-session") {
				u := w.Nodes[m.To].U
				c.Rand.FailIn(-1)
				refuse(u, "entropy:"+why, func() error { _, err := u.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
				c.Rand.FailIn(0)
				c.Count("entropy_refusals", 1)
			}
		}
		if len(t.held) > 0 && r.Intn(4) == 0 { // a message or an encryption while the identity is distrusted
			m := t.held[r.Intn(len(t.held))]
			u := w.Nodes[m.To].U
			if ok, why := w.Expect(m); ok {
				u.St.Policy = func(string, []byte) bool { return false }
				refuse(u, "distrusted:"+why, func() error { _, err := u.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
				if w.HasSession(m.To, m.From) {
					refuse(u, "distrusted-encrypt", func() error { _, _, err := u.Encrypt(w.Addr(m.From), []byte("x")); return err })
				}
				u.St.Policy = nil
			}
		}
		if len(t.held) > 0 && r.Intn(4) == 0 { // trust is withdrawn meanwhile
			w.Withdraw(t.held[r.Intn(len(t.held))])
		}
		if r.Intn(6) == 0 { // bundles
			a := r.Intn(2)
			b := 1 - a
			u := w.Nodes[a].U
			p := w.Nodes[b].U.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			if r.Intn(2) == 0 {
				c.Rand.FailIn(1 + r.Intn(2))
				refuse(u, "bundle-entropy", func() error { return u.Initiate(w.Addr(b), p) })
				c.Rand.FailIn(0)
			} else {
				bad, how := badBundle(c, w.Nodes[b].U, p)
				refuse(u, "bundle:"+how, func() error { return u.Initiate(w.Addr(b), bad) })
			}
			c.Count("bundle_refusals", 1)
		}
	}
	t.flush()
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace": c.TraceSample(16)})
	}
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := max(0, i-60), min(len(a), i+140)
	return a[lo:hi]
}
