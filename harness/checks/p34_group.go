package checks

import (
	"bytes"

	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

// p34Group reads what group messages, key descriptions and the stored sender
// keys of senders and members say of themselves throughout a group's life.
func p34Group(c *rt.Case) {
	r := c.R
	n, f := 2+r.Intn(3), format(c)
	w := sim.NewGroup(c, n, 1+r.Intn(2), f, anyMode(c))
	g := len(w.Names)
	keys := map[uint32][]byte{} // signing key of each chain
	describe := func(s, gi int) *sim.GDist {
		d := w.Create(s, gi)
		dw, err := wire.DecodeDist(f, d.Wire)
		c.NoErr(err, "decode-description")
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, d.Wire...), w.Us[s].Ser.SenderKeyDistributionMessage)
		c.NoErr(err, "parse-description")
		c.Must(dw.Version == 3 && m.ID() == dw.ID && m.Iteration() == dw.Iter && bytes.Equal(m.ChainKey(), dw.ChainKey) && bytes.Equal(m.SignatureKey().Serialize(), dw.SigningKey) && m.Type() == 5 && bytes.Equal(m.Serialize(), d.Wire),
			"description", "a parsed key description says chain %d, iteration %d, type %d", m.ID(), m.Iteration(), m.Type())
		if k := keys[d.ID]; k != nil {
			c.Must(bytes.Equal(k, dw.SigningKey), "description-signing-key", "chain %d is described with another signing key than before", d.ID)
		}
		keys[d.ID] = dw.SigningKey
		c.Count("group_messages_read", 1)
		return d
	}
	var q []pair2
	look := func() {
		for s := 0; s < n; s++ {
			for gi := 0; gi < g; gi++ {
				for v := 0; v < n; v++ {
					if v != s && !w.Knows(v, s, gi) {
						continue
					}
					rec := w.Us[v].St.LoadSenderKey(w.Name(gi, s))
					if v == s {
						id, iter, ok := w.Sending(s, gi)
						if !ok {
							continue
						}
						c.Must(rec != nil && !rec.IsEmpty(), "sender-record", "the record of a sender's own chain is empty")
						st, err := rec.SenderKeyState()
						c.NoErr(err, "sender-state")
						c.Must(st.KeyID() == id && st.SenderChainKey().Iteration() == iter && bytes.Equal(st.SigningKey().PublicKey().Serialize(), keys[id]) && st.SigningKey().PrivateKey() != nil,
							"sender-state", "a sender's chain is %d at %d, its record says %d at %d", id, iter, st.KeyID(), st.SenderChainKey().Iteration())
						c.Count("group_states_read", 1)
						continue
					}
					for id, k := range w.Chains(v, s, gi) {
						st, err := rec.GetSenderKeyStateByID(id)
						c.NoErr(err, "member-state")
						c.Must(st.KeyID() == id && st.SenderChainKey().Iteration() == k.Next && bytes.Equal(st.SigningKey().PublicKey().Serialize(), keys[id]),
							"member-state", "a member knows chain %d at %d, its record says %d at %d", id, k.Next, st.KeyID(), st.SenderChainKey().Iteration())
						c.Must(st.SigningKey().PrivateKey() == nil, "member-private-key", "a member's record holds a private signing key")
						for i := uint32(0); i < 4; i++ {
							it := k.Next - 1 - i
							c.Must(st.HasSenderMessageKey(it) == k.Skipped[it], "member-skipped", "chain %d at %d: key of iteration %d held: %v, expected: %v", id, k.Next, it, st.HasSenderMessageKey(it), k.Skipped[it])
						}
						c.Count("group_states_read", 1)
					}
				}
			}
		}
	}
	for i := 30 + r.Intn(30); i > 0; i-- {
		s, gi := r.Intn(n), r.Intn(g)
		switch k := r.Intn(10); {
		case k < 2:
			d := describe(s, gi)
			for v := 0; v < n; v++ {
				if v != s && r.Intn(3) > 0 {
					w.Join(v, d)
				}
			}
		case k == 2 && r.Intn(3) == 0:
			w.Reinstall(s, gi)
		case k < 6:
			for j := 1 + r.Intn(3); j > 0; j-- {
				m := w.Send(s, gi, w.Plain())
				if m == nil {
					break
				}
				x, err := protocol.NewSenderKeyMessageFromBytes(append([]byte{}, m.Wire...), w.Us[s].Ser.SenderKeyMessage)
				c.NoErr(err, "parse-group")
				sig := x.Signature()
				c.Must(x.Version() == 3 && x.Type() == 4 && x.KeyID() == m.ID && x.Iteration() == m.Iter && bytes.Equal(x.Ciphertext(), m.W.Ct) && bytes.Equal(sig[:], m.W.Signature) && bytes.Equal(x.SignedSerialize(), m.Wire),
					"group-message", "a parsed group message says version %d, type %d, chain %d, iteration %d", x.Version(), x.Type(), x.KeyID(), x.Iteration())
				c.Count("group_messages_read", 1)
				for v := 0; v < n; v++ {
					if v != s {
						q = append(q, pair2{v, m})
					}
				}
			}
		default:
			for j := r.Intn(2 * n); j >= 0 && len(q) > 0; j-- {
				i := r.Intn(len(q))
				p := q[i]
				q = append(q[:i:i], q[i+1:]...)
				w.Deliver(p.v, p.m)
			}
		}
		if r.Intn(3) == 0 {
			look()
		}
	}
	look()
}
