package checks

import (
	"bytes"
	"io"
	"time"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P31",
		Rule: "one case either generates keys of every kind and checks them against independent curve arithmetic and an independent verifier, against each other and all keys seen before, with whole, byte-wise and failing entropy; or it replays the entropy one operation used with each single bit flipped and counts the different secrets that come out. " +
			"Distinct by operation, entropy behaviour and ID class",
		Cases: tiered(240, 5000),
		Run:   runP31,
		Need:  map[string]int64{"keys": 30000, "signed_prekeys": 1500, "entropy_bits": 15000, "entropy_failures": 1500, "bytewise": 800, "fixed_scalars": 1000},
	})
}

// tape plays given bytes and goes on with zeros; it counts what it gave.
type tape struct {
	b    []byte
	n    int
	step int // bytes per read, 0 for all
}

func (t *tape) Read(p []byte) (int, error) {
	if t.step > 0 && len(p) > t.step {
		p = p[:t.step]
	}
	for i := range p {
		p[i] = 0
		if t.n < len(t.b) {
			p[i] = t.b[t.n]
		}
		t.n++
	}
	return len(p), nil
}

type failAfter struct {
	r    io.Reader
	left int
}

func (f *failAfter) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, io.ErrUnexpectedEOF
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	f.left -= n
	return n, err
}

// generator is an operation that draws on entropy. Its outputs are public
// values, or secrets, that must vary with the entropy.
type generator struct {
	name string
	min  int // different outputs that single-bit changes must give
	// run returns the outputs.
	run func(c *rt.Case) [][]byte
	// fails tells whether lacking entropy must be reported.
	fails bool
}

func pairOut(kp *ecc.ECKeyPair) []byte {
	p, k := kp.PrivateKey().Serialize(), kp.PublicKey().PublicKey()
	return append(p[:], k[:]...)
}

func generators(c *rt.Case) []generator {
	ser := sim.Serializer(format(c))
	id, err := keyhelper.GenerateIdentityKeyPair()
	c.NoErr(err, "identity")
	start := c.R.Intn(1 << 24)
	return []generator{
		{"key-pair", 251, func(c *rt.Case) [][]byte {
			kp, err := ecc.GenerateKeyPair()
			if err != nil {
				return nil
			}
			return [][]byte{pairOut(kp)}
		}, true},
		{"identity", 251, func(c *rt.Case) [][]byte {
			kp, err := keyhelper.GenerateIdentityKeyPair()
			if err != nil {
				return nil
			}
			p, k := kp.PrivateKey().Serialize(), kp.PublicKey().PublicKey().PublicKey()
			return [][]byte{append(p[:], k[:]...)}
		}, true},
		{"prekeys", 251, func(c *rt.Case) [][]byte {
			ks, err := keyhelper.GeneratePreKeys(start, start+2, ser.PreKeyRecord)
			if err != nil {
				return nil
			}
			c.Must(len(ks) > 0, "prekeys-empty", "no prekeys were generated")
			return [][]byte{pairOut(ks[0].KeyPair())}
		}, true},
		{"last-resort", 251, func(c *rt.Case) [][]byte {
			k, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
			if err != nil {
				return nil
			}
			return [][]byte{pairOut(k.KeyPair())}
		}, true},
		{"signed-prekey", 251, func(c *rt.Case) [][]byte {
			k, err := keyhelper.GenerateSignedPreKey(id, 7, ser.SignedPreKeyRecord)
			if err != nil {
				return nil
			}
			return [][]byte{pairOut(k.KeyPair())}
		}, true},
		{"sender-signing-key", 251, func(c *rt.Case) [][]byte {
			kp, err := keyhelper.GenerateSenderSigningKey()
			if err != nil {
				return nil
			}
			return [][]byte{pairOut(kp)}
		}, true},
		{"sender-key", 256, func(c *rt.Case) [][]byte {
			k := keyhelper.GenerateSenderKey()
			c.Must(len(k) == 32, "sender-key-size", "a sender key has %d bytes", len(k))
			return [][]byte{k}
		}, false},
		{"registration-id", 14, func(c *rt.Case) [][]byte { return [][]byte{u32(keyhelper.GenerateRegistrationID())} }, false},
		{"sender-key-id", 30, func(c *rt.Case) [][]byte { return [][]byte{u32(keyhelper.GenerateSenderKeyID())} }, false},
	}
}

func u32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

// protocolGenerators are the operations that make keys inside the protocol.
// Each returns a function that runs it once more from the same state.
func protocolGenerators(c *rt.Case) []generator {
	f := format(c)
	bob := sim.NewUser(c, "bob", 1, f, sim.Bytes)
	alice := sim.NewUser(c, "alice", 1, f, sim.Bytes)
	p := bob.Publish(c, pick(c, sim.OneTime, sim.NoPreKey))
	n := 0
	gs := []generator{{"session-start", 251, func(c *rt.Case) [][]byte {
		a := sim.NewUserWithID(c, "alice", 1, f, sim.Bytes, alice.ID)
		a.Split = n%2 == 0
		if a.Initiate(bob.Addr(), p) != nil {
			c.Must(!a.St.ContainsSession(bob.Addr()), "session-without-entropy", "a session was stored although it could not be set up")
			return nil
		}
		w, _, err := a.Encrypt(bob.Addr(), []byte("x"))
		c.NoErr(err, "encrypt")
		m, err := wire.DecodePreKey(f, w)
		c.NoErr(err, "decode")
		in, err := wire.DecodeSignal(f, m.Message)
		c.NoErr(err, "decode")
		return [][]byte{m.BaseKey, in.Ratchet}
	}, true}}
	// A turn: receiving makes the next sending ratchet key.
	c.NoErr(alice.Initiate(bob.Addr(), p), "initiate")
	w, _, err := alice.Encrypt(bob.Addr(), []byte("x"))
	c.NoErr(err, "encrypt")
	stored := bob.St.Fork()
	gs = append(gs, generator{"reply", 251, func(c *rt.Case) [][]byte {
		b := sim.NewUserWithID(c, "bob", 1, f, sim.Bytes, bob.ID)
		b.St = stored.Fork()
		if _, err := b.Decrypt(alice.Addr(), w, true); err != nil {
			return nil
		}
		x, _, err := b.Encrypt(alice.Addr(), []byte("y"))
		c.NoErr(err, "encrypt")
		in, err := wire.DecodeSignal(f, x)
		c.NoErr(err, "decode")
		return [][]byte{in.Ratchet}
	}, true})
	gs = append(gs, generator{"group-start", 251, func(c *rt.Case) [][]byte {
		g := sim.NewUserWithID(c, "carol", 1, f, sim.Bytes, bob.ID)
		d, err := g.CreateGroup(nameOf("g", g.Addr()))
		if err != nil {
			return nil
		}
		m, err := ref.FromDist(f, d)
		c.NoErr(err, "dist")
		return [][]byte{m.Chain, m.SignPub[:]}
	}, false})
	return gs
}

func runP31(c *rt.Case) {
	if c.Idx%3 == 0 {
		p31Bits(c)
		return
	}
	r := c.R
	gs := generators(c)
	seenKeys := map[string]string{}
	// Distinct, clamped, matching keys of every kind, under every way of
	// delivering entropy.
	fresh := func(what string, secret []byte) {
		if len(secret) < 16 {
			return
		}
		old, dup := seenKeys[string(secret)]
		c.Must(!dup, "repeated:"+what, "a %s repeats a %s generated before", what, old)
		seenKeys[string(secret)] = what
		if len(secret) == 64 {
			var priv, pub [32]byte
			copy(priv[:], secret)
			copy(pub[:], secret[32:])
			kp := ref.NewKeyPair(priv)
			c.Must(kp.Priv == priv, "not-clamped:"+what, "the private key %x.. of a %s is not in the form Curve25519 demands", secret[:2], what)
			c.Must(kp.Pub == pub, "mismatch:"+what, "the public key of a %s does not belong to its private key", what)
		}
		c.Count("keys", 1)
	}
	for k := 0; k < 25; k++ {
		for _, g := range gs {
			for _, o := range g.run(c) {
				fresh(g.name, o)
			}
			c.Sig(g.name, "plain")
		}
	}
	for _, g := range gs {
		// Entropy that comes byte by byte gives what the same bytes at once give.
		b := randBytes(c, 4096)
		var whole, part [][]byte
		t1, t2 := &tape{b: b}, &tape{b: b, step: 1 + r.Intn(9)}
		withReader(t1, func() { whole = g.run(c) })
		withReader(t2, func() { part = g.run(c) })
		for i := range whole {
			c.Must(i < len(part) && bytes.Equal(whole[i], part[i]), "short-reads:"+g.name, "entropy in small pieces gives another %s: part of it was not waited for", g.name)
		}
		c.Count("bytewise", 1)
		c.Sig(g.name, "pieces", t2.step)
		// Lacking entropy.
		if g.fails {
			for _, n := range []int{0, 1, 31, r.Intn(32)} {
				var out [][]byte
				pn := ""
				withReader(&failAfter{&tape{b: b}, n}, func() { pn = rt.Try(func() { out = g.run(c) }) })
				c.Must(pn == "", "panic:"+g.name, "without entropy: %s", pn)
				c.Must(out == nil, "no-entropy:"+g.name, "a %s was made although the source of entropy failed after %d bytes", g.name, n)
				c.Count("entropy_failures", 1)
				c.Sig(g.name, "failing", n)
			}
		}
	}
	// IDs, signatures and times.
	ser := sim.Serializer(format(c))
	id, err := keyhelper.GenerateIdentityKeyPair()
	c.NoErr(err, "identity")
	for k := 0; k < 20; k++ {
		start := pick(c, 0, 1, r.Intn(1000), r.Intn(1<<24), 1<<24-1-r.Intn(12), 1<<16-r.Intn(12), 1<<31-1-12-r.Intn(100))
		n := r.Intn(12)
		if k == 0 && c.Idx%30 == 5 { // a batch as large as those of an installation, and larger
			n = pick(c, 99, 300, 1100, 2200, 4200)
			start = pick(c, 0, 1, r.Intn(1<<20))
			c.Count("large_batches", 1)
		}
		ks, err := keyhelper.GeneratePreKeys(start, start+n, ser.PreKeyRecord)
		c.NoErr(err, "prekeys")
		ids := map[uint32]bool{}
		for i, pk := range ks {
			c.Must(pk.ID().Value == uint32(start+i), "prekey-id", "prekey %d of a batch from %d has the ID %d", i, start, pk.ID().Value)
			c.Must(!ids[pk.ID().Value], "prekey-id-repeats", "two prekeys share an ID")
			ids[pk.ID().Value] = true
			fresh("prekey", pairOut(pk.KeyPair()))
		}
		lr, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
		c.NoErr(err, "last-resort")
		c.Must(lr.ID().Value == sim.LastResort, "last-resort-id", "a last resort prekey has the ID %d", lr.ID().Value)
		fresh("last-resort", pairOut(lr.KeyPair()))
		sid := pick(c, 0, 1, 0xffffff, 0xffffffff, r.Uint32())
		var sp *record.SignedPreKey
		before := time.Now().Unix()
		sp, err = keyhelper.GenerateSignedPreKey(id, sid, ser.SignedPreKeyRecord)
		c.NoErr(err, "signed-prekey")
		c.Must(sp.ID() == sid, "signed-prekey-id", "a signed prekey made with the ID %d has the ID %d", sid, sp.ID())
		pub := sp.KeyPair().PublicKey().PublicKey()
		sig := sp.Signature()
		idPub := id.PublicKey().PublicKey().PublicKey()
		c.Must(ref.Verify(idPub, ref.Enc33(pub), sig[:]), "signed-prekey-signature", "the signature of a signed prekey does not verify under the identity key")
		c.Must(!ref.Verify(newRefKey(c).Pub, ref.Enc33(pub), sig[:]), "signed-prekey-signature", "the signature of a signed prekey verifies under any key")
		ts, slack := sp.Timestamp(), int64(5)
		if ts > 1e11 { // in milliseconds or finer
			for ; ts > 1e11; ts /= 1000 {
			}
		}
		c.Must(ts >= before-slack && ts <= time.Now().Unix()+slack, "signed-prekey-time", "a signed prekey is dated %d, made at %d", sp.Timestamp(), before)
		fresh("signed-prekey", pairOut(sp.KeyPair()))
		c.Count("signed_prekeys", 1)
		c.Sig("ids", class(sid), class(uint32(start)), n)
		// Keys made of given bytes.
		s := edgeScalar(c)
		if r.Intn(2) == 0 {
			r.Read(s[:])
		}
		kp := ecc.CreateKeyPair(append([]byte{}, s[:]...))
		want := ref.NewKeyPair(s)
		c.Must(kp.PrivateKey().Serialize() == want.Priv && kp.PublicKey().PublicKey() == want.Pub, "fixed-key", "the key pair made of %x is wrong", s)
		c.Count("fixed_scalars", 1)
	}
}

// p31Bits flips each bit of the entropy an operation consumed.
func p31Bits(c *rt.Case) {
	gs := append(generators(c), protocolGenerators(c)...)
	g := gs[(c.Idx/3)%len(gs)]
	b := randBytes(c, 4096)
	t := &tape{b: b}
	var base [][]byte
	withReader(t, func() { base = g.run(c) })
	c.Must(base != nil, "failed:"+g.name, "%s failed with all the entropy it wanted", g.name)
	used := t.n
	seen := make([]map[string]bool, len(base))
	for i := range seen {
		seen[i] = map[string]bool{string(base[i]): true}
	}
	for i := 0; i < used*8; i++ {
		x := append([]byte{}, b...)
		x[i/8] ^= 1 << (i % 8)
		var out [][]byte
		withReader(&tape{b: x}, func() { out = g.run(c) })
		for j := range out {
			seen[j][string(out[j])] = true
		}
		c.Count("entropy_bits", 1)
	}
	for j := range seen {
		c.Must(len(seen[j])-1 >= g.min, "weak:"+g.name, "changing any one of the %d bits of entropy %s consumed gives only %d other values of its output %d", used*8, g.name, len(seen[j])-1, j)
		c.Max("max_values_"+g.name, int64(len(seen[j])-1))
	}
	c.Sig(g.name, "bits", used)
}
