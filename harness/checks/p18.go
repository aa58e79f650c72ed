package checks

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P18",
		Rule: "one case follows sender key distribution: senders describe their chains at any time, members join late, twice and with stale descriptions, senders start anew; a description must carry exactly the current chain (never an earlier one, nor a private key), describing twice must not change anything, old and new chains of a sender must both stay readable, and chains of different groups and senders must be unrelated. " +
			"Distinct by event, iteration class, number of chains known, format and store kind",
		Cases: tiered(1200, 20000),
		Run:   runP18,
		Need:  map[string]int64{"distributions": 8000, "joins": 8000, "early_unreadable": 3000, "group_accepted": 20000, "rekeys": 500, "group_leaps": 800},
	})
}

func runP18(c *rt.Case) {
	r := c.R
	f := format(c)
	n := 4
	w := sim.NewGroup(c, n, 2, f, anyMode(c))
	chains := map[string]string{} // chain key -> owner
	ids := map[[2]int]map[uint32][]byte{}
	for i := 0; i < 60; i++ {
		s, g := r.Intn(2), r.Intn(2)
		switch r.Intn(8) {
		case 0, 1:
			first := len(ids[[2]int{s, g}]) == 0
			var before string
			if !first {
				before = w.Us[s].St.SenderKeyText(w.Name(g, s))
			}
			d := w.Create(s, g)
			dd, err := wire.DecodeDist(f, d.Wire)
			c.NoErr(err, "dist")
			c.Must(len(dd.ChainKey) == 32 && !bytes.Equal(dd.ChainKey, make([]byte, 32)), "chain-key-shape", "chain key %x", dd.ChainKey)
			if before != "" && w.Us[s].St.SenderKeyText(w.Name(g, s)) != before {
				c.Fail("describe-changes", "describing an existing chain changed the stored sender key")
			}
			// A fresh copy of the same description.
			d2 := w.Create(s, g)
			c.Must(bytes.Equal(d.Wire, d2.Wire), "describe-twice", "two descriptions of an unchanged chain differ")
			owner := fmt.Sprint(s, g, dd.ID)
			if o, ok := chains[string(dd.ChainKey)]; ok {
				c.Must(o == owner, "chain-key-shared", "chain key of %s appears in %s", o, owner)
			}
			chains[string(dd.ChainKey)] = owner
			k := [2]int{s, g}
			if ids[k] == nil {
				ids[k] = map[uint32][]byte{}
			}
			if sk, ok := ids[k][dd.ID]; ok {
				c.Must(bytes.Equal(sk, dd.SigningKey), "signing-key-changed", "the signing key of a chain changed")
			} else {
				for k2, m := range ids {
					for _, sk := range m {
						c.Must(!bytes.Equal(sk, dd.SigningKey), "signing-key-shared", "two chains share a signing key (%v, %v)", k, k2)
					}
				}
				ids[k][dd.ID] = dd.SigningKey
			}
			// Nothing in the description is private: its signing key is the public one.
			for _, v := range [][]byte{dd.SigningKey[1:], dd.ChainKey} {
				kp := ref.NewKeyPair(arr(v))
				c.Must(!bytes.Equal(kp.Pub[:], dd.SigningKey[1:]), "signing-key-leaked", "the description carries the private signing key")
			}
			for v := 0; v < n; v++ {
				if v != s && r.Intn(2) == 0 {
					w.Join(v, d)
				}
			}
			// The new member of this moment reads no earlier message, and every later one.
			late := sim.NewUser(c, "late", 9, f, sim.Mode(r.Intn(3)))
			c.NoErr(late.JoinGroup(w.Name(g, s), d.Wire), "join")
			for _, m := range w.Msgs {
				if m.From == s && m.G == g && r.Intn(2) == 0 {
					if pt, err := late.GroupDecrypt(w.Name(g, s), m.Wire); err == nil {
						c.Fail("late-member-reads-early", "a member who joined at iteration %d of chain %d read message %d of chain %d: %x", d.Iter, d.ID, m.Iter, m.ID, clip(pt))
					}
					c.Count("early_unreadable", 1)
				}
			}
			m := w.Send(s, g, w.Plain())
			pt, err := late.GroupDecrypt(w.Name(g, s), m.Wire)
			c.NoErr(err, "late-member-first")
			c.Must(bytes.Equal(pt, m.Plain), "late-member-altered", "")
			c.Sig("late", min(int(d.Iter), 40), f, late.St.Mode)
		case 2:
			if len(w.Dist) > 0 { // stale or repeated description: readers' positions stay
				d := w.Dist[r.Intn(len(w.Dist))]
				v := r.Intn(n)
				if v == d.From {
					continue
				}
				w.Join(v, d)
				for k := 0; k < 2 && len(w.Msgs) > 0; k++ {
					w.Deliver(v, w.Msgs[r.Intn(len(w.Msgs))])
				}
			}
		case 3:
			if r.Intn(3) == 0 && len(ids[[2]int{s, g}]) > 0 {
				w.Reinstall(s, g)
				c.Count("rekeys", 1)
			}
		case 4, 5:
			w.Send(s, g, w.Plain())
			if r.Intn(6) == 0 { // the chain as it is after very many messages
				w.Leap(s, g)
			}
		default:
			for k := 0; k < 4 && len(w.Msgs) > 0; k++ {
				m := w.Msgs[r.Intn(len(w.Msgs))]
				v := r.Intn(n)
				if v != m.From {
					w.Deliver(v, m)
				}
			}
		}
	}
	for _, m := range w.Msgs {
		for v := 0; v < n; v++ {
			if v != m.From {
				w.Deliver(v, m)
			}
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"messages": len(w.Msgs), "descriptions": len(w.Dist), "trace": c.TraceSample(8)})
	}
}
