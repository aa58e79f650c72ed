package checks

import (
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func pub32(k ecc.ECPublicKeyable) [32]byte { return k.PublicKey() }

// rebuild makes a bundle from the parts of another one.
func rebuild(p *sim.Published, sp ecc.ECPublicKeyable, sig [64]byte, id *identity.Key) *sim.Published {
	b := p.Bundle
	n := *p
	n.Bundle = prekey.NewBundle(b.RegistrationID(), b.DeviceID(), b.PreKeyID(), b.SignedPreKeyID(), b.PreKey(), sp, sig, id)
	return &n
}

// badBundle alters a bundle so that its signed prekey is not signed by its identity.
func badBundle(c *rt.Case, owner *sim.User, p *sim.Published) (*sim.Published, string) {
	r := c.R
	b := p.Bundle
	sp, sig, id := b.SignedPreKey(), b.SignedPreKeySignature(), b.IdentityKey()
	for {
		how := ""
		switch r.Intn(10) {
		case 0:
			how = "signature-bit"
			sig = b.SignedPreKeySignature()
			sig[r.Intn(64)] ^= 1 << uint(r.Intn(8))
		case 1:
			how = "signature-zero"
			sig = [64]byte{}
		case 2:
			how = "signed-prekey-bit"
			k := pub32(b.SignedPreKey())
			k[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			sp = ecc.NewDjbECPublicKey(k)
		case 3:
			how = "signed-prekey-swap"
			kp, _ := ecc.GenerateKeyPair()
			sp = kp.PublicKey()
		case 4:
			how = "other-signer"
			kp, _ := keyhelper.GenerateIdentityKeyPair()
			sig = ecc.CalculateSignature(kp.PrivateKey(), b.SignedPreKey().Serialize())
		case 5:
			how = "signature-of-other-key"
			kp, _ := ecc.GenerateKeyPair()
			sig = ecc.CalculateSignature(owner.ID.PrivateKey(), kp.PublicKey().Serialize())
		case 6:
			how = "signature-of-raw-key"
			k := pub32(b.SignedPreKey())
			sig = ecc.CalculateSignature(owner.ID.PrivateKey(), k[:])
		case 7:
			how = "missing-signed-prekey"
			return rebuild(p, nil, sig, id), how
		case 8:
			how = "signature-halves"
			s := b.SignedPreKeySignature()
			copy(sig[:32], s[32:])
			copy(sig[32:], s[:32])
		case 9:
			how = "signature-of-identity"
			sig = ecc.CalculateSignature(owner.ID.PrivateKey(), id.Serialize())
		}
		// Only alterations the scheme itself calls invalid.
		if !ref.Verify(pub32(id.PublicKey()), sp.Serialize(), sig[:]) {
			return rebuild(p, sp, sig, id), how
		}
		sp, sig = b.SignedPreKey(), b.SignedPreKeySignature()
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P06",
		Rule: "one case lets devices process valid bundles of every shape and bundles with altered signatures, signed prekeys and identities; an independent signature verifier decides which must be refused, and a refused bundle must leave no session, identity or other trace. " +
			"Distinct by alteration, bundle shape, store kind, format and whether a session existed",
		Cases: tiered(3000, 60000),
		Run:   runP06,
		Need:  map[string]int64{"bad_bundles": 2500, "good_bundles": 400, "delivered": 300, "own_identity": 60},
	})
}

func runP06(c *rt.Case) {
	r := c.R
	f := format(c)
	a := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	b := sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
	if r.Intn(4) == 0 { // another device of the same account
		b = sim.NewUserWithID(c, pick(c, "alice", "bob"), 2, f, sim.Mode(r.Intn(3)), a.ID)
		c.Count("own_identity", 1)
	}
	mallory := sim.NewUser(c, "mallory", 1, f, sim.Ptr)
	for i := 0; i < 4; i++ {
		kind := pick(c, sim.OneTime, sim.NoPreKey, sim.Last)
		p := b.Publish(c, kind)
		for k := 0; k < 6; k++ {
			bad, how := badBundle(c, b, p)
			if r.Intn(6) == 0 { // the owner's identity exchanged for another one
				how = "identity-swap"
				bad = rebuild(p, p.Bundle.SignedPreKey(), p.Bundle.SignedPreKeySignature(), mallory.ID.PublicKey())
			}
			before := a.St.Snapshot()
			var err error
			if pn := rt.Try(func() { err = a.Initiate(b.Addr(), bad) }); pn != "" {
				c.Fail("panic:"+how, "%s", pn)
			}
			c.Must(err != nil, "accepted:"+how, "a bundle with %s was accepted", how)
			if s := a.St.Snapshot(); s != before {
				c.Fail("trace:"+how, "a refused bundle (%s) changed what is stored: %s -> %s", how, diff(before, s), diff(s, before))
			}
			c.Count("bad_bundles", 1)
			c.Sig(how, kind, f, a.St.Mode, i > 0, err)
		}
		err := a.Initiate(b.Addr(), p)
		c.NoErr(err, "good-refused", kind)
		c.Count("good_bundles", 1)
		c.Sig("good", kind, f, a.St.Mode, i)
		wb, pre, err := a.Encrypt(b.Addr(), []byte(fmt.Sprint("hello", i)))
		c.NoErr(err, "encrypt-after-bundle")
		c.Must(pre, "not-prekey", "the first message after a bundle is not an opening message")
		if r.Intn(3) > 0 {
			pt, err := b.Decrypt(a.Addr(), wb, pre)
			c.NoErr(err, "first-message", kind)
			c.Must(string(pt) == fmt.Sprint("hello", i), "first-message-altered", "%x", pt)
			c.Count("delivered", 1)
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"bundles": 4, "alterations_per_bundle": 6, "store": a.St.Mode.String()})
	}
}
