package checks

import (
	"bytes"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P16",
		Rule: "one case is groups under attack: outsiders and members who know a sender's chain key but not its signing key alter, splice, re-sign, re-number, misattribute and move group messages; every accepted message must be one the sender really signed for that group. " +
			"Distinct by attack, format, store kind and error",
		Cases: tiered(350, 8000),
		Run:   runP16,
		Need:  map[string]int64{"attacks_refused": 20000, "insider_forgeries": 4000, "wrong_group_or_sender": 1500, "send_refused": 500, "other_chain_forgeries": 1000, "group_accepted": 2000},
	})
}

// forgeInsider encrypts under the sender's chain key, which every member has,
// and signs without the sender's signing key.
func forgeInsider(c *rt.Case, f wire.Format, d *wire.Dist, ahead uint32) (*wire.SenderKey, string) {
	r := c.R
	ch := &ref.SenderChain{F: f, ID: d.ID, Iter: d.Iter, Chain: d.ChainKey, Sign: newRefKey(c)}
	for i := uint32(0); i < ahead; i++ {
		ch.Chain = ref.HMAC(ch.Chain, []byte{2})
		ch.Iter++
	}
	var rnd [64]byte
	r.Read(rnd[:])
	m, _ := wire.DecodeSenderKey(f, ch.Encrypt([]byte("forged by a member"), rnd))
	switch r.Intn(6) {
	case 0:
		return m, "signed-by-member"
	case 1:
		m.Signature = make([]byte, 64)
		return m, "signature-zero"
	case 2:
		m.Signature = randBytes(c, 64)
		return m, "signature-random"
	case 3:
		for i := range m.Signature {
			m.Signature[i] = 0xff
		}
		return m, "signature-ones"
	case 4: // a valid point and zero scalar
		p := ref.Encode(ref.Base)
		m.Signature = append(append([]byte{}, p[:]...), make([]byte, 32)...)
		return m, "signature-base-zero"
	default:
		if f == wire.JSON {
			m.Signature = nil
			return m, "signature-missing"
		}
		m.Signature = append([]byte{1}, make([]byte, 63)...)
		return m, "signature-identity"
	}
}

func runP16(c *rt.Case) {
	r := c.R
	f := format(c)
	w := sim.NewGroup(c, 3, 2, f, anyMode(c))
	var dists [3][2]*wire.Dist
	// Members also have chains that did not come from the sender's present key,
	// before and after the present one in their records.
	olds := map[[2]int][][32]byte{}
	stray := func(s, g int) {
		k := newRefKey(c)
		d := &wire.Dist{Version: 3, ID: r.Uint32(), Iter: uint32(r.Intn(3)), ChainKey: randBytes(c, 32), SigningKey: ref.Enc33(k.Pub)}
		for v := 0; v < 3; v++ {
			if v != s {
				c.NoErr(w.Us[v].JoinGroup(w.Name(g, s), d.Encode(f)), "join")
			}
		}
		olds[[2]int{s, g}] = append(olds[[2]int{s, g}], k.Priv)
	}
	for s := 0; s < 3; s++ {
		for g := 0; g < 2; g++ {
			if r.Intn(3) == 0 {
				stray(s, g)
			}
			d := w.Create(s, g)
			dists[s][g], _ = wire.DecodeDist(f, d.Wire)
			for v := 0; v < 3; v++ {
				if v != s {
					w.Join(v, d)
				}
			}
		}
	}
	refuse := func(v, s, g int, b []byte, how string) {
		u := w.Us[v]
		var pt []byte
		var err error
		before := u.St.Snapshot()
		if pn := rt.Try(func() { pt, err = u.GroupDecrypt(w.Name(g, s), b) }); pn != "" {
			c.Fail("panic:"+how, "%s", pn)
		}
		if err == nil {
			c.Fail("forged:"+how, "a group message made by %s was accepted as one of %d in group %d: %x", how, s, g, clip(pt))
		}
		c.Must(u.St.Snapshot() == before, "trace:"+how, "a refused group message changed what is stored")
		c.Count("attacks_refused", 1)
		c.Sig(how, f, u.St.Mode, err)
	}
	isSent := func(m *wire.SenderKey, s, g int) bool {
		for _, x := range w.Msgs {
			if x.From == s && x.G == g && sameGroup(m, x.W) {
				return true
			}
		}
		return false
	}
	for i := 0; i < 30; i++ {
		s, g := r.Intn(3), r.Intn(2)
		if r.Intn(15) == 0 {
			stray(s, g)
		}
		m := w.Send(s, g, w.Plain())
		v := (s + 1 + r.Intn(2)) % 3
		for k := 0; k < 3; k++ {
			o := w.Msgs[r.Intn(len(w.Msgs))]
			x, how := mutateGroup(c, f, w.Msgs[r.Intn(len(w.Msgs))].W, o.W)
			enc := x.Encode(f)
			if y, err := wire.DecodeSenderKey(f, enc); err == nil {
				x = y
			}
			if !isSent(x, s, g) {
				refuse(v, s, g, enc, how)
			}
		}
		x, how := forgeInsider(c, f, dists[s][g], uint32(r.Intn(int(m.Iter)+4)))
		refuse(v, s, g, x.Encode(f), "insider-"+how)
		c.Count("insider_forgeries", 1)
		// Signed with the key of another chain of the sender: one it had before, or starts later.
		if sk := olds[[2]int{s, g}]; len(sk) > 0 {
			y := *m.W
			how := "other-chain-key"
			if r.Intn(2) == 0 {
				y.Iter += uint32(r.Intn(5))
				y.Ct = append([]byte{}, y.Ct...)
				y.Ct[r.Intn(len(y.Ct))] ^= 1
				how = "other-chain-key-altered"
			}
			var rnd [64]byte
			r.Read(rnd[:])
			y.Signature = ref.Sign(sk[r.Intn(len(sk))], y.SignInput(f), rnd)
			refuse(v, s, g, y.Encode(f), how)
			c.Count("other_chain_forgeries", 1)
		}
		// Signed by another sender, sent to another group, or attributed to another sender.
		s2 := (s + 1) % 3
		g2 := 1 - g
		if v != s2 {
			refuse(v, s2, g, m.Wire, "wrong-sender")
		}
		refuse(v, s, g2, m.Wire, "wrong-group")
		y := *m.W
		y.ID = dists[s][g2].ID
		refuse(v, s, g2, y.Encode(f), "wrong-group-renumbered")
		c.Count("wrong_group_or_sender", 1)
		if r.Intn(3) == 0 { // raw damage
			b := flip(c, m.Wire)
			if z, err := wire.DecodeSenderKey(f, b); err != nil || !isSent(z, s, g) {
				refuse(v, s, g, b, "raw-bit")
			}
		}
		if r.Intn(3) == 0 { // a receiver's copy of the chain cannot be used to send
			before := w.Us[v].St.Snapshot()
			var b []byte
			var err error
			if pn := rt.Try(func() { b, err = w.Us[v].GroupEncrypt(w.Name(g, s), []byte("as the other")) }); pn != "" {
				c.Fail("panic:send-as-other", "%s", pn)
			}
			if err == nil {
				c.Fail("send-as-other", "a member encrypted under another sender's chain: %x", clip(b))
			}
			c.Must(w.Us[v].St.Snapshot() == before, "trace:send-as-other", "")
			c.Count("send_refused", 1)
		}
		if r.Intn(4) > 0 {
			w.Deliver(v, m)
			refuse(v, s, g, m.Wire, "replay")
		}
		// The signature is the sender's, over exactly the message.
		sp, err := ref.Dec33(dists[s][g].SigningKey)
		c.NoErr(err, "signing-key")
		c.Must(ref.Verify(sp, m.W.SignInput(f), m.W.Signature), "signature-not-verifiable", "the signature of a genuine message does not verify")
		c.Must(!bytes.Equal(m.W.Signature, make([]byte, 64)), "signature-empty", "")
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"messages": len(w.Msgs), "trace": c.TraceSample(8)})
	}
}
