package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"
)

// mutant is an altered message and how it was made.
type mutant struct {
	how    string
	b      []byte
	prekey bool
	from   int // claimed sender
	to     int // receiver
	orig   *sim.Msg
}

func flip(c *rt.Case, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return []byte{byte(c.R.Intn(256))}
	}
	o[c.R.Intn(len(o))] ^= 1 << uint(c.R.Intn(8))
	return o
}

func resize(c *rt.Case, b []byte) []byte {
	switch c.R.Intn(3) {
	case 0:
		if len(b) > 0 {
			return append([]byte{}, b[:c.R.Intn(len(b))]...)
		}
		return []byte{1}
	case 1:
		return append(append([]byte{}, b...), byte(c.R.Intn(256)))
	default:
		e := make([]byte, 16)
		c.R.Read(e)
		return append(append([]byte{}, b...), e...)
	}
}

func jitter(c *rt.Case, n uint32) uint32 {
	switch c.R.Intn(6) {
	case 0:
		return n + 1
	case 1:
		return n - 1
	case 2:
		return n ^ 1<<uint(c.R.Intn(32))
	case 3:
		return 0
	case 4:
		return 0xFFFFFFFF
	default:
		return n + uint32(c.R.Intn(100))
	}
}

// mutateInner alters the authenticated part of a session message.
func mutateInner(c *rt.Case, f wire.Format, m *wire.Signal, other *wire.Signal) (*wire.Signal, string) {
	x := *m
	how := ""
	switch c.R.Intn(12) {
	case 0:
		x.Ratchet, how = append([]byte{5}, flip(c, m.Ratchet[1:])...), "ratchet-key-bit"
	case 1:
		x.Counter, how = jitter(c, m.Counter), "counter"
	case 2:
		x.Prev, how = jitter(c, m.Prev), "previous-counter"
	case 3:
		x.Ct, how = flip(c, m.Ct), "ciphertext-bit"
	case 4:
		x.Ct, how = resize(c, m.Ct), "ciphertext-length"
	case 5:
		x.Mac, how = flip(c, m.Mac), "mac-bit"
	case 6:
		x.Version, how = pick(c, 2, 2, 2, 4, 1), "version"
	case 7:
		if f == wire.JSON {
			x.Mac, how = m.Mac[:c.R.Intn(len(m.Mac))], "mac-truncated"
		} else {
			x.Mac, how = make([]byte, 8), "mac-zero"
		}
	case 8:
		if f == wire.JSON {
			more := randBytes(c, pick(c, 1, 1, 8, 24, 1+c.R.Intn(40)))
			x.Mac, how = append(append([]byte{}, m.Mac...), more...), "mac-extended"
			switch c.R.Intn(4) {
			case 0:
				x.Mac, how = append(append([]byte{}, more...), m.Mac...), "mac-preceded"
			case 1:
				x.Mac, how = append(append([]byte{}, m.Mac...), m.Mac...), "mac-twice"
			}
		} else {
			x.Mac, how = flip(c, m.Mac), "mac-bit"
		}
	case 9:
		x.Ct, how = other.Ct, "splice-ciphertext"
	case 10:
		x.Counter, x.Ratchet, how = other.Counter, other.Ratchet, "splice-header"
	default:
		x.Ct, x.Mac, how = other.Ct, other.Mac, "splice-body"
	}
	return &x, how
}

// torsion are the Edwards points of small order.
var torsion = func() (out []ref.Point) {
	seen := map[[32]byte]bool{}
	for _, u := range lowOrder {
		for _, sign := range []byte{0, 0x80} {
			var a, e [32]byte
			copy(a[:], u)
			copy(e[:], ref.EdPub(a, sign))
			if p, ok := ref.Decode(e); ok {
				if k := ref.Encode(p); !seen[k] && ref.Encode(ref.Mul(big.NewInt(8), p)) == ref.Encode(ref.Identity()) {
					seen[k] = true
					out = append(out, p)
				}
			}
		}
	}
	return
}()

// equivalentKey returns another encoding of a public key (33 bytes), or the key
// of a point that differs by one of small order: key agreement with either
// gives the same secret.
func equivalentKey(c *rt.Case, key []byte) ([]byte, string) {
	b := append([]byte{}, key...)
	if c.R.Intn(3) == 0 {
		b[32] ^= 0x80
		return b, "top-bit"
	}
	var u, e [32]byte
	copy(u[:], key[1:])
	copy(e[:], ref.EdPub(u, 0))
	p, ok := ref.Decode(e)
	if !ok {
		b[32] ^= 0x80
		return b, "top-bit"
	}
	q := ref.Add(p, torsion[c.R.Intn(len(torsion))])
	enc := ref.Encode(q)
	enc[31] &= 0x7f
	y := ref.LE(enc[:])
	one := big.NewInt(1)
	num := new(big.Int).Add(one, y)
	den := new(big.Int).Sub(one, y)
	den.Mod(den, ref.P).Exp(den, new(big.Int).Sub(ref.P, big.NewInt(2)), ref.P)
	m := ref.ToLE(num.Mul(num, den).Mod(num, ref.P))
	if bytes.Equal(m[:], key[1:]) {
		b[32] ^= 0x80
		return b, "top-bit"
	}
	return append([]byte{5}, m[:]...), "small-order"
}

// rewrap wraps a genuine message in a forged opening: the base key is not that
// of the message's session.
func rewrap(c *rt.Case, w *sim.World, m *sim.Msg) *mutant {
	r := c.R
	base := w.BaseOf(m)
	from, u := w.Nodes[m.From].U, w.Nodes[m.To].U
	p := wire.PreKey{Version: 3, RegID: from.St.RegID, Identity: from.ID.PublicKey().Serialize()}
	if m.PreKey {
		p = *m.Pre
	}
	p.Message = m.Inner.Encode(w.F)
	ids := u.St.PreKeyIDs()
	if !m.PreKey || r.Intn(3) == 0 {
		p.HasPreKey, p.PreKeyID = false, 0
		if len(ids) > 0 && r.Intn(4) > 0 {
			p.HasPreKey, p.PreKeyID = true, ids[r.Intn(len(ids))]
		}
	}
	if !m.PreKey || r.Intn(4) == 0 {
		if ids := u.St.SignedIDs(); len(ids) > 0 {
			p.SignedID = ids[r.Intn(len(ids))]
		}
	}
	mu := &mutant{prekey: true, from: m.From, to: m.To, orig: m}
	switch other := w.Msgs[r.Intn(len(w.Msgs))]; {
	case base != nil && m.PreKey && r.Intn(2) == 0:
		p.BaseKey, mu.how = equivalentKey(c, base)
		if r.Intn(4) > 0 {
			p.HasPreKey, p.PreKeyID, p.SignedID = m.Pre.HasPreKey, m.Pre.PreKeyID, m.Pre.SignedID
		}
	case other.PreKey && !bytes.Equal(other.Pre.BaseKey, base) && r.Intn(2) == 0:
		p.BaseKey, mu.how = other.Pre.BaseKey, "other-session"
	default:
		var b [32]byte
		r.Read(b[:])
		k := ref.NewKeyPair(b)
		p.BaseKey, mu.how = ref.Enc33(k.Pub), "fresh"
	}
	mu.how = "rewrap-" + mu.how
	mu.b = p.Encode(w.F)
	return mu
}

// wrongBase tells that a message with a genuine payload claims another base key
// than that of its session.
func wrongBase(w *sim.World, mu *mutant, g *sim.Msg) bool {
	if !mu.prekey {
		return false
	}
	p, err := wire.DecodePreKey(w.F, mu.b)
	base := w.BaseOf(g)
	return err == nil && base != nil && !bytes.Equal(p.BaseKey, base)
}

func sameInner(a, b *wire.Signal) bool {
	return a.Version == b.Version && bytes.Equal(a.Ratchet, b.Ratchet) && a.Counter == b.Counter && a.Prev == b.Prev && bytes.Equal(a.Ct, b.Ct) && bytes.Equal(a.Mac, b.Mac)
}

// makeMutant builds an attack on a message of the world.
func makeMutant(c *rt.Case, w *sim.World, m *sim.Msg) *mutant {
	r := c.R
	other := w.Msgs[r.Intn(len(w.Msgs))]
	k := r.Intn(100)
	if k < 8 && w.BaseOf(m) != nil {
		return rewrap(c, w, m)
	}
	mu := &mutant{prekey: m.PreKey, from: m.From, to: m.To, orig: m}
	switch {
	case k < 55: // inner fields
		x, how := mutateInner(c, w.F, m.Inner, other.Inner)
		mu.how, mu.b = how, x.Encode(w.F)
		if m.PreKey {
			p := *m.Pre
			p.Message = mu.b
			mu.b = p.Encode(w.F)
		}
	case k < 62: // raw bit flip
		mu.how, mu.b = "raw-bit", flip(c, m.Wire)
	case k < 66:
		mu.how, mu.b = "raw-length", resize(c, m.Wire)
	case k < 74: // wrong receiver or wrong claimed sender
		mu.b = m.Wire
		if len(w.Nodes) > 2 {
			third := 3 - m.From - m.To
			if r.Intn(2) == 0 {
				mu.how, mu.to = "misdirected", third
			} else {
				mu.how, mu.from = "wrong-sender", third
			}
		} else {
			mu.how, mu.from, mu.to = "reflected", m.To, m.From
		}
	case k < 78:
		mu.how, mu.b, mu.from, mu.to = "reflected", m.Wire, m.To, m.From
	default: // wrapper fields
		if !m.PreKey {
			if other.PreKey { // wrap a session message in someone's opening wrapper
				p := *other.Pre
				p.Message = m.Wire
				mu.how, mu.b, mu.prekey = "wrapped", p.Encode(w.F), true
				return mu
			}
			x, how := mutateInner(c, w.F, m.Inner, other.Inner)
			mu.how, mu.b = how, x.Encode(w.F)
			return mu
		}
		p := *m.Pre
		switch r.Intn(8) {
		case 0:
			p.BaseKey, mu.how = append([]byte{5}, flip(c, p.BaseKey[1:])...), "base-key-bit"
		case 1:
			p.Identity, mu.how = w.Nodes[r.Intn(len(w.Nodes))].U.ID.PublicKey().Serialize(), "identity-swap"
		case 2:
			p.Identity, mu.how = append([]byte{5}, flip(c, p.Identity[1:])...), "identity-bit"
		case 3:
			p.HasPreKey, p.PreKeyID, mu.how = true, uint32(r.Intn(8)), "prekey-id"
		case 4:
			p.HasPreKey, mu.how = !p.HasPreKey, "prekey-presence"
		case 5:
			p.SignedID, mu.how = jitter(c, p.SignedID), "signed-id"
		case 6:
			p.Message, mu.how, mu.prekey = nil, "unwrapped", false
			mu.b = m.Pre.Message
			return mu
		default:
			p.Version, mu.how = pick(c, 2, 4, 1), "wrapper-version"
		}
		mu.b = p.Encode(w.F)
	}
	return mu
}

// genuine reports whether the payload of an accepted attack is a message that
// was really sent by the claimed sender to this receiver, and its plaintext.
func genuine(w *sim.World, mu *mutant) *sim.Msg {
	inner := mu.b
	if mu.prekey {
		p, err := wire.DecodePreKey(w.F, mu.b)
		if err != nil {
			return nil
		}
		inner = p.Message
	}
	in, err := wire.DecodeSignal(w.F, inner)
	if err != nil {
		return nil
	}
	for _, m := range w.Msgs {
		if m.From == mu.from && m.To == mu.to && sameInner(m.Inner, in) {
			return m
		}
	}
	return nil
}

// firstUse tells an opening message under an address whose identity is not
// known yet, or is the sender's own as well: the address is not authenticated, the identity is trusted on
// first use, so accepting it is what the protocol does.
func firstUse(w *sim.World, mu *mutant) bool {
	if !mu.prekey || mu.how != "wrong-sender" {
		return false
	}
	known := w.Nodes[mu.to].U.St.Identity(w.Addr(mu.from).String())
	return len(known) == 0 || string(known) == string(w.Nodes[mu.orig.From].U.ID.PublicKey().Serialize())
}

func attackWorld(c *rt.Case) (*sim.World, *traffic) {
	r := c.R
	n := 2 + r.Intn(2)
	w := sim.NewWorld(c, n, format(c), anyMode(c))
	t := &traffic{w: w, c: c, dropRate: 3}
	kinds := []sim.PreKeyKind{sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last}
	w.Initiate(0, 1, kinds[r.Intn(4)])
	if n == 3 {
		w.Initiate(2, 1, kinds[r.Intn(4)])
		w.Initiate(0, 2, kinds[r.Intn(4)])
	}
	if c.Idx%25 == 9 {
		t.age(0, 1)
	}
	return w, t
}

func init() {
	rt.Register(&rt.Check{
		ID: "P03",
		Rule: "one case is a conversation with an active attacker who alters, truncates, splices, reflects, misdirects and re-wraps messages in flight; an accepted message must be one the claimed sender really sent to this receiver, with its exact plaintext. " +
			"Distinct by attack, format, store kind, message kind and state of the victim's session",
		Cases:       tiered(1500, 30000),
		Run:         runP03,
		Need:        map[string]int64{"attacks": 8000, "attacks_refused": 6000, "accepted": 2000, "rewraps_refused": 5000},
		Assumptions: []string{"wrapper fields of an opening message whose session already exists are not authenticated by the protocol; such messages are judged by their authenticated payload"},
	})
}

func runP03(c *rt.Case) {
	w, t := attackWorld(c)
	r := c.R
	for i := 0; i < 60+r.Intn(60); i++ {
		t.step(r.Intn(3))
		if len(w.Msgs) == 0 {
			continue
		}
		for k := r.Intn(4); k > 0; k-- {
			var m *sim.Msg
			if len(t.held) > 0 && r.Intn(4) > 0 {
				m = t.held[r.Intn(len(t.held))]
			} else {
				m = w.Msgs[r.Intn(len(w.Msgs))]
			}
			attack(c, w, t, makeMutant(c, w, m))
		}
	}
	t.flush()
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace": c.TraceSample(16)})
	}
}

// attack runs a mutant against a throw-away copy when it may legitimately be
// accepted, so that the model stays exact, and judges the outcome.
func attack(c *rt.Case, w *sim.World, t *traffic, mu *mutant) {
	c.Count("attacks", 1)
	u := w.Nodes[mu.to].U
	if firstUse(w, mu) {
		return
	}
	g := genuine(w, mu)
	had := w.HasSession(mu.to, mu.from)
	if g != nil && wrongBase(w, mu, g) {
		before := u.St.Snapshot()
		var err error
		if pn := rt.Try(func() { _, err = u.Decrypt(w.Addr(mu.from), mu.b, true) }); pn != "" {
			c.Fail("panic:"+mu.how, "attack %s crashed the receiver: %s", mu.how, pn)
		}
		c.Logf("attack %s on #%d: err=%v", mu.how, mu.orig.N, err)
		c.Must(err != nil, "wrong-base-accepted:"+mu.how, "message #%d was accepted in an opening message with another base key than its session's (%s; delivered %d times before)", g.N, mu.how, g.Delivered)
		c.Must(u.St.Snapshot() == before, "wrong-base-trace:"+mu.how, "a refused opening message changed what the device stores")
		c.Count("rewraps_refused", 1)
		c.Sig("rewrap", w.F, u.St.Mode, mu.how, mu.orig.PreKey, had, g.Delivered > 0)
		return
	}
	if g != nil {
		// The payload is genuine: acceptance is allowed only if nothing that is
		// authenticated differs. Try it on a copy of the device where possible.
		if u.St.Mode != sim.Bytes {
			return
		}
		cp := *u
		cp.St = u.St.Fork()
		pt, err := cp.Decrypt(w.Addr(mu.from), mu.b, mu.prekey)
		c.Logf("attack %s on #%d (genuine payload): err=%v", mu.how, mu.orig.N, err)
		if err == nil {
			c.Must(bytes.Equal(pt, g.Plain), "altered-genuine:"+mu.how, "a re-wrapped genuine message decrypted to something else")
			if mu.prekey && !had {
				p, _ := wire.DecodePreKey(w.F, mu.b)
				o := g.Pre
				c.Must(o != nil && bytes.Equal(p.BaseKey, o.BaseKey) && bytes.Equal(p.Identity, o.Identity) && p.HasPreKey == o.HasPreKey && (!p.HasPreKey || p.PreKeyID == o.PreKeyID) && p.SignedID == o.SignedID,
					"wrapper-accepted:"+mu.how, "a session was established from an opening message whose key material was altered (%s)", mu.how)
			}
		}
		c.Sig("genuine", w.F, mu.how, err == nil, had)
		return
	}
	var pt []byte
	var err error
	if pn := rt.Try(func() { pt, err = u.Decrypt(w.Addr(mu.from), mu.b, mu.prekey) }); pn != "" {
		c.Fail("panic:"+mu.how, "attack %s crashed the receiver: %s", mu.how, pn)
	}
	c.Logf("attack %s on #%d as %d->%d prekey=%v: err=%v", mu.how, mu.orig.N, mu.from, mu.to, mu.prekey, err)
	if err == nil {
		c.Fail("forged:"+mu.how, "an altered message (%s of #%d) was accepted with plaintext %x", mu.how, mu.orig.N, clip(pt))
	}
	c.Count("attacks_refused", 1)
	c.Sig(w.F, u.St.Mode, mu.how, mu.prekey, had, fmt.Sprint(err))
}
