// Package checks holds one workload and oracle per property.
package checks

import (
	crand "crypto/rand"
	"encoding/hex"
	"io"
	"sort"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func tiered(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

func format(c *rt.Case) wire.Format { return wire.Format(c.R.Intn(2)) }

func anyMode(c *rt.Case) func(int) sim.Mode {
	return func(int) sim.Mode { return sim.Mode(c.R.Intn(3)) }
}

func pick[T any](c *rt.Case, xs ...T) T { return xs[c.R.Intn(len(xs))] }

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func max64(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func protoAddr(name string, dev uint32) *protocol.SignalAddress {
	return protocol.NewSignalAddress(name, dev)
}

// randPlain makes a plaintext of a length around the block sizes.
func randPlain(c *rt.Case) []byte {
	switch c.R.Intn(6) {
	case 0:
		return randBytes(c, 0)
	case 1:
		return randBytes(c, 16*(1+c.R.Intn(5)))
	case 2:
		if c.R.Intn(12) == 0 { // around the sizes of buffers
			return randBytes(c, pick(c, 4096, 8192, 32768, 65536, 131072, 262144)+c.R.Intn(48)-24)
		}
		return randBytes(c, 500+c.R.Intn(2000))
	default:
		return randBytes(c, c.R.Intn(70))
	}
}

// refBundle makes a bundle of keys the reference holds.
func refBundle(c *rt.Case, u *sim.User, id, signed, pre ref.KeyPair, kind sim.PreKeyKind, reg uint32) *sim.Published {
	var rnd [64]byte
	c.R.Read(rnd[:])
	var sig [64]byte
	copy(sig[:], ref.Sign(id.Priv, ref.Enc33(signed.Pub), rnd))
	p := &sim.Published{Kind: kind, SignedID: c.R.Uint32()}
	var oid *optional.Uint32
	var pub ecc.ECPublicKeyable
	switch kind {
	case sim.NoPreKey:
		oid = optional.NewEmptyUint32()
	case sim.Last:
		p.PreKeyID = sim.LastResort
	default:
		p.PreKeyID = uint32(c.R.Intn(1 << 24))
	}
	if kind != sim.NoPreKey {
		oid = optional.NewOptionalUint32(p.PreKeyID)
		pub = ecc.NewDjbECPublicKey(pre.Pub)
	}
	p.Bundle = prekey.NewBundle(reg, 1, oid, p.SignedID, pub, ecc.NewDjbECPublicKey(signed.Pub), sig, identity.NewKey(ecc.NewDjbECPublicKey(id.Pub)))
	return p
}

// sortedU32 lists a set in order.
func sortedU32(m map[uint32]bool) []uint32 {
	var ks []uint32
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func nameOf(group string, a *protocol.SignalAddress) *protocol.SenderKeyName {
	return protocol.NewSenderKeyName(group, a)
}

// toRefBundle is a published bundle as the reference sees it.
func toRefBundle(p *sim.Published) ref.Bundle {
	b := ref.Bundle{Identity: p.Bundle.IdentityKey().PublicKey().PublicKey(), SignedPub: p.Bundle.SignedPreKey().PublicKey(), SignedID: p.SignedID, PreKeyID: p.PreKeyID}
	if p.Kind != sim.NoPreKey {
		k := p.Bundle.PreKey().PublicKey()
		b.PreKey = &k
	}
	return b
}

// lowOrder are the points of small order and their non-canonical encodings.
var lowOrder = func() [][]byte {
	var out [][]byte
	for _, s := range []string{
		"0000000000000000000000000000000000000000000000000000000000000000",
		"0100000000000000000000000000000000000000000000000000000000000000",
		"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
		"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	} {
		b, _ := hex.DecodeString(s)
		out = append(out, b)
	}
	return out
}()

// withReader runs f with another source of entropy.
func withReader(r io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
}

// disturb lets an operation fail that the protocol refuses: distrusted
// identities, missing entropy, forgeries, stale messages and bad bundles. The
// conversation must go on as if it had not been attempted.
func disturb(c *rt.Case, w *sim.World, t *traffic) {
	r := c.R
	var m *sim.Msg
	if len(t.held) > 0 {
		m = t.held[r.Intn(len(t.held))]
	}
	refused := func(what string, f func() error) {
		var err error
		if pn := rt.Try(func() { err = f() }); pn != "" {
			c.Fail("panic:"+what, "%s: %s", what, pn)
		}
		c.Must(err != nil, "not-refused:"+what, "%s was not refused", what)
		c.Count("disturbances", 1)
		c.Logf("disturbed: %s", what)
	}
	switch k := r.Intn(6); {
	case k < 2: // a distrusted identity
		a := r.Intn(len(w.Nodes))
		b := (a + 1 + r.Intn(len(w.Nodes)-1)) % len(w.Nodes)
		u := w.Nodes[a].U
		u.St.Policy = func(string, []byte) bool { return false }
		if w.HasSession(a, b) {
			refused("distrusted-encrypt", func() error { _, _, err := u.Encrypt(w.Addr(b), []byte("x")); return err })
		}
		if m != nil && m.To == a {
			refused("distrusted-decrypt", func() error { _, err := u.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
		}
		u.St.Policy = nil
	case k == 2 && m != nil: // missing entropy
		if ok, why := w.Expect(m); ok && (why == "new-chain" || why == "new-chain+promote" || why == "new-session") {
			u := w.Nodes[m.To].U
			c.Rand.FailIn(-1)
			refused("entropy:"+why, func() error { _, err := u.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
			c.Rand.FailIn(0)
		}
	case k == 3 && m != nil: // a forgery
		x := *m.Inner
		x.Mac = flip(c, x.Mac)
		if r.Intn(2) == 0 {
			x.Counter += uint32(r.Intn(40))
		}
		b := x.Encode(w.F)
		if m.PreKey {
			p := *m.Pre
			p.Message = b
			b = p.Encode(w.F)
		}
		refused("forgery", func() error { _, err := w.Nodes[m.To].U.Decrypt(w.Addr(m.From), b, m.PreKey); return err })
	case k == 4 && len(t.done) > 0: // a message that comes again
		m := t.done[r.Intn(len(t.done))]
		if ok, why := w.Expect(m); !ok {
			refused("again:"+why, func() error { _, err := w.Nodes[m.To].U.Decrypt(w.Addr(m.From), m.Wire, m.PreKey); return err })
		}
	case k == 5: // a bundle
		a := r.Intn(len(w.Nodes))
		b := (a + 1 + r.Intn(len(w.Nodes)-1)) % len(w.Nodes)
		u := w.Nodes[a].U
		p := w.Nodes[b].U.Publish(c, sim.NoPreKey)
		if r.Intn(2) == 0 {
			c.Rand.FailIn(1 + r.Intn(2))
			refused("bundle-entropy", func() error { return u.Initiate(w.Addr(b), p) })
			c.Rand.FailIn(0)
		} else {
			bad, how := badBundle(c, w.Nodes[b].U, p)
			refused("bundle:"+how, func() error { return u.Initiate(w.Addr(b), bad) })
		}
	}
}

// longPlain makes a plaintext of up to many MiB.
func longPlain(c *rt.Case) []byte {
	n := pick(c, 1<<18, 1<<19, 1<<20, 1<<20, 1<<20, 1<<22)
	if c.R.Intn(6) == 0 {
		n = 1 << 24
	}
	c.Count("plaintexts_over_256k", 1)
	return randBytes(c, n+c.R.Intn(200)-50)
}
