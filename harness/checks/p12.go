package checks

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P12",
		Rule: "one case is a conversation of two or three devices in which a monitor checks every message's number, previous-chain length, ratchet key, base key, wrapping and MAC size, that no ratchet or base key is ever reused for another chain, and that no two messages share any key material; every sixth case is a member sending to three groups, whose iterations, descriptions and keys are followed by an independent implementation. " +
			"An evaluation is a sent or received message; distinct by format, message kind, counter magnitude, previous counter magnitude and session number",
		Cases: tiered(600, 10000),
		Run:   runP12,
		Need:  map[string]int64{"disturbances": 300, "sent": 20000, "keys_seen": 10000, "ratchet_keys": 3000, "nonzero_previous": 2000, "group_sent": 4000, "unsaved": 40},
	})
}

// runP12Group: a group's chain is numbered without gaps or repetition, and every
// message has keys of its own, whatever the sender does between them.
func runP12Group(c *rt.Case) {
	r := c.R
	f := format(c)
	a := sim.NewUser(c, "alice", 1, f, anyMode(c)(0))
	names := []*protocol.SenderKeyName{nameOf("team", a.Addr()), nameOf("team", protoAddr("alice", 2)), nameOf("other", a.Addr())}
	type chain struct {
		id   uint32
		next uint32
		pub  []byte
		ref  *ref.SenderChain
	}
	chains := map[int]*chain{}
	keys := map[string]string{}
	cts := map[string]bool{}
	describe := func(g int) {
		b, err := a.CreateGroup(names[g])
		c.NoErr(err, "create")
		d, err := wire.DecodeDist(f, b)
		c.NoErr(err, "dist")
		x := chains[g]
		if x == nil {
			c.Must(d.Iter == 0, "first-iteration", "a new chain starts at %d", d.Iter)
			for _, o := range chains {
				c.Must(!bytes.Equal(o.ref.Chain, d.ChainKey) && !bytes.Equal(o.pub, d.SigningKey), "chain-shared", "two groups share a chain or a signing key")
			}
			rc, err := ref.FromDist(f, b)
			c.NoErr(err, "ref-dist")
			chains[g] = &chain{id: d.ID, pub: d.SigningKey, ref: rc}
			return
		}
		c.Must(d.ID == x.id && d.Iter == x.next && bytes.Equal(d.SigningKey, x.pub), "description", "chain %d at %d described as chain %d at %d", x.id, x.next, d.ID, d.Iter)
		c.Must(bytes.Equal(d.ChainKey, x.ref.Chain), "description-key", "the description at %d has another chain key", d.Iter)
	}
	lose := r.Intn(2) == 0 && a.St.Mode == sim.Bytes
	for i := 0; i < 60; i++ {
		g := r.Intn(len(names))
		if chains[g] == nil || r.Intn(8) == 0 {
			describe(g)
		}
		x := chains[g]
		pt := randPlain(c)
		if lose && r.Intn(6) == 0 {
			// A crash before the chain is saved: the message was not given out and
			// takes no number.
			var m []byte
			_, hit := crashAt(a, 0, func() { m, _ = a.GroupEncrypt(names[g], pt) })
			c.Must(hit && m == nil, "given-out-unsaved", "a group message was given out though its chain was not saved")
			a = fork(a)
			c.Count("unsaved", 1)
			continue
		}
		b, err := a.GroupEncrypt(names[g], pt)
		c.NoErr(err, "group-encrypt")
		m, err := wire.DecodeSenderKey(f, b)
		c.NoErr(err, "group-decode")
		c.Must(m.ID == x.id && m.Iter == x.next, "group-number", "message %d of chain %d is numbered %d of chain %d", x.next, x.id, m.Iter, m.ID)
		c.Must(!cts[string(m.Ct)], "ciphertext-repeats", "two group messages have the same ciphertext")
		cts[string(m.Ct)] = true
		iv, key := x.ref.Keys()
		for what, k := range map[string][]byte{"iv": iv, "key": key} {
			z := fmt.Sprintf("%s %x", what, k)
			here := fmt.Sprintf("%d/%d", g, x.next)
			o, dup := keys[z]
			c.Must(!dup, "key-reuse", "messages %s and %s have the same %s", o, here, what)
			keys[z] = here
		}
		got, err := x.ref.Decrypt(b)
		c.NoErr(err, "group-key")
		c.Must(bytes.Equal(got, pt), "group-key", "the key of this iteration does not decrypt it")
		x.next++
		c.Count("group_sent", 1)
		c.Sig("group", f, a.St.Mode, g, min(int(x.next), 30))
		if a.St.Mode == sim.Bytes && r.Intn(10) == 0 {
			a = fork(a)
		}
	}
}

func runP12(c *rt.Case) {
	r := c.R
	if c.Idx%6 == 3 {
		runP12Group(c)
		return
	}
	n := 2 + r.Intn(2)
	w := sim.NewWorld(c, n, format(c), anyMode(c))
	w.Numbers = true
	type chainID struct{ from, to, sid int }
	rk := map[string]chainID{}
	bk := map[string]chainID{}
	last := map[chainID]string{}
	cts := map[string]int{}
	closed := map[string]bool{}
	w.Mons = append(w.Mons, func(m *sim.Msg) {
		id := chainID{m.From, m.To, m.Sid}
		if o, ok := rk[m.Ratchet]; ok {
			c.Must(o == id, "ratchet-key-shared", "a ratchet key appears in two sessions: %v and %v", o, id)
			c.Must(!closed[m.Ratchet], "ratchet-key-reused", "message #%d uses an earlier ratchet key again", m.N)
		} else {
			for k, o := range rk {
				if o == id && k == last[id] {
					closed[k] = true
				}
			}
			rk[m.Ratchet] = id
			c.Count("ratchet_keys", 1)
		}
		last[id] = m.Ratchet
		if m.PreKey {
			b := string(m.Pre.BaseKey)
			if o, ok := bk[b]; ok {
				c.Must(o == id, "base-key-shared", "a base key opens two sessions")
			}
			bk[b] = id
			_, clash := rk[b]
			c.Must(!clash, "base-key-is-ratchet-key", "a base key is also a ratchet key")
			c.Must(bytes.Equal(m.Pre.Identity, w.Nodes[m.From].U.ID.PublicKey().Serialize()), "wrapper-identity", "an opening message carries another identity")
			c.Must(m.Pre.RegID == w.Nodes[m.From].U.St.RegID, "wrapper-registration", "an opening message carries registration ID %d, not %d", m.Pre.RegID, w.Nodes[m.From].U.St.RegID)
			c.Must(m.Pre.Version == 3, "wrapper-version", "version %d", m.Pre.Version)
		}
		c.Must(len(m.Inner.Mac) == 8 && m.Inner.Version == 3 && len(m.Inner.Ratchet) == 33 && m.Inner.Ratchet[0] == 5, "message-shape", "mac %x version %d ratchet %x", m.Inner.Mac, m.Inner.Version, m.Inner.Ratchet)
		c.Must(len(m.Inner.Ct) == (len(m.Plain)/16+1)*16, "ciphertext-length", "%d bytes of plaintext became %d bytes of ciphertext", len(m.Plain), len(m.Inner.Ct))
		if o, ok := cts[string(m.Inner.Ct)]; ok {
			c.Fail("ciphertext-repeats", "messages #%d and #%d have the same ciphertext", o, m.N)
		}
		cts[string(m.Inner.Ct)] = m.N
		if m.Inner.Prev > 0 {
			c.Count("nonzero_previous", 1)
		}
		c.Sig(w.F, m.PreKey, min(int(m.Counter), 30), min(int(m.Inner.Prev), 30), min(m.Sid, 5))
	})
	keys := map[string]int{}
	t := &traffic{w: w, c: c, dropRate: 4, dupRate: 2}
	w.Initiate(0, 1, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
	if c.Idx%15 == 7 {
		t.age(0, 1)
	}
	for i := 0; i < 100; i++ {
		if r.Intn(20) == 0 {
			a, b := r.Intn(n), r.Intn(n)
			if a != b {
				w.Initiate(a, b, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			}
		}
		if r.Intn(6) == 0 {
			// The key of a message next in line, read on a copy of the device: it
			// must decrypt this message, and be no other message's key.
			var ms []*sim.Msg
			for _, m := range t.held {
				if ok, _ := w.Expect(m); ok && w.Nodes[m.To].U.St.Mode == sim.Bytes {
					ms = append(ms, m)
				}
			}
			for _, m := range ms {
				cp := fork(w.Nodes[m.To].U)
				pt, k, err := cp.DecryptKeys(w.Addr(m.From), m.Wire, m.PreKey)
				c.NoErr(err, "decrypt-keys")
				c.Must(bytes.Equal(pt, m.Plain) && k != nil, "decrypt-keys-wrong", "")
				got, err := ref.CBCDecrypt(k.Iv(), k.CipherKey(), m.Inner.Ct)
				c.Must(err == nil && bytes.Equal(got, m.Plain), "returned-key-wrong", "the returned key does not decrypt message #%d", m.N)
				c.Must(k.Index() == m.Counter, "returned-key-index", "key index %d, message counter %d", k.Index(), m.Counter)
				// The MAC covers both identities and the whole message.
				in := append(append([]byte{}, w.Nodes[m.From].U.ID.PublicKey().Serialize()...), w.Nodes[m.To].U.ID.PublicKey().Serialize()...)
				mac := ref.HMAC(k.MacKey(), append(in, m.Inner.MacInput(w.F)...))
				c.Must(bytes.Equal(mac[:8], m.Inner.Mac), "mac-coverage", "message #%d: the MAC is not the one over the identities and the message", m.N)
				for what, b := range map[string][]byte{"cipher key": k.CipherKey(), "mac key": k.MacKey(), "iv": k.Iv()} {
					x := fmt.Sprintf("%s %x", what, b)
					if o, ok := keys[x]; ok && o != m.N {
						c.Fail("key-reuse", "messages #%d and #%d have the same %s", o, m.N, what)
					}
					keys[x] = m.N
				}
				c.Must(!bytes.Equal(k.CipherKey(), k.MacKey()) && len(k.CipherKey()) == 32 && len(k.MacKey()) == 32 && len(k.Iv()) == 16, "key-shape", "")
				c.Count("keys_seen", 1)
			}
		}
		if r.Intn(4) == 0 {
			disturb(c, w, t)
		}
		t.step(r.Intn(4))
	}
	t.flush()
	// What the wire shows is all decodable by the independent codec.
	for _, m := range w.Msgs {
		if !m.PreKey {
			_, err := wire.DecodeSignal(w.F, m.Wire)
			c.NoErr(err, "decode")
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"messages": len(w.Msgs), "ratchet_keys": len(rk), "base_keys": len(bk), "trace": c.TraceSample(10)})
	}
}
