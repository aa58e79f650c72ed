package checks

import (
	"bytes"
	"encoding/hex"

	"verif/ref"
	"verif/rt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/ratchet"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P25",
		Rule: "one case computes shared secrets, derived secrets of every length, the key agreement of sender and receiver with and without a one-time prekey, the symmetric agreement of two online parties (also with base keys that agree in their first bytes), root and chain steps and message keys, and compares both sides with each other and with an independent implementation. " +
			"Distinct by operation, key and length classes",
		Cases: tiered(3000, 40000),
		Run:   runP25,
		Need:  map[string]int64{"shared_secrets": 10000, "derived": 10000, "agreements": 4000, "symmetric": 2500, "common_prefix": 600, "chain_steps": 20000, "root_steps": 6000, "derived_related": 50000, "shared_related": 40000, "steps_related": 20000},
	})
}

func pairOf(k ref.KeyPair) *ecc.ECKeyPair {
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(k.Pub), ecc.NewDjbECPrivateKey(k.Priv))
}

func identityOf(k ref.KeyPair) *identity.KeyPair {
	return identity.NewKeyPair(identity.NewKey(ecc.NewDjbECPublicKey(k.Pub)), ecc.NewDjbECPrivateKey(k.Priv))
}

func pubOf(k ref.KeyPair) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(k.Pub) }

// x3dh is the agreement's result: root and chain keys.
func x3dh(secrets ...[]byte) (rootKey, chainKey []byte) {
	ikm := bytes.Repeat([]byte{0xff}, 32)
	for _, s := range secrets {
		ikm = append(ikm, s...)
	}
	b := ref.HKDF(ikm, nil, "WhisperText", 64)
	return b[:32], b[32:]
}

// prefixed returns two key pairs whose public keys agree in the leading bytes.
func prefixed(c *rt.Case) (a, b ref.KeyPair) {
	p := prefixPairs[c.R.Intn(len(prefixPairs))]
	var k [2][32]byte
	for i := range k {
		x, _ := hex.DecodeString(p[i])
		copy(k[i][:], x)
	}
	a, b = ref.NewKeyPair(k[0]), ref.NewKeyPair(k[1])
	if !bytes.Equal(a.Pub[:4], b.Pub[:4]) {
		panic("prefixed keys")
	}
	if c.R.Intn(2) == 0 {
		a, b = b, a
	}
	return
}

func runP25(c *rt.Case) {
	r := c.R
	sameKeys := func(kp *session.KeyPair, err error, rk, ck []byte, what string) {
		c.NoErr(err, what)
		c.Must(bytes.Equal(kp.RootKey.Bytes(), rk) && bytes.Equal(kp.ChainKey.Key(), ck) && kp.ChainKey.Index() == 0, "keys:"+what,
			"%s: root %x chain %x/%d, want %x %x", what, kp.RootKey.Bytes(), kp.ChainKey.Key(), kp.ChainKey.Index(), rk, ck)
	}
	// Shared secrets.
	for k := 0; k < 10; k++ {
		a, b := ref.NewKeyPair(edgeScalar(c)), ref.NewKeyPair(edgeScalar(c))
		pub := b.Pub
		kind := r.Intn(4)
		switch kind {
		case 0:
			pub[31] |= 0x80
		case 1:
			copy(pub[:], lowOrder[r.Intn(len(lowOrder))])
		case 2:
			pub, _ = edge32(c, 256)
		}
		want := ref.DH(a.Priv, pub)
		got := kdf.CalculateSharedSecret(pub, a.Priv)
		c.Must(bytes.Equal(got[:], want), "shared-secret", "private %x public %x: %x want %x", a.Priv, pub, got, want)
		if kind == 3 {
			rev := kdf.CalculateSharedSecret(a.Pub, b.Priv)
			c.Must(got == rev, "shared-secret-sides", "the two sides computed %x and %x", got, rev)
		}
		// The same with keys that differ a little, one after the other.
		for j := 0; j < 4; j++ {
			priv, pub := a.Priv, pub
			switch r.Intn(4) {
			case 0:
				priv[1+r.Intn(30)] ^= byte(1 + r.Intn(255))
			case 1:
				pub[r.Intn(32)] ^= byte(1 + r.Intn(255))
			case 2: // beginning or ending alike
				k := 1 + r.Intn(30)
				r.Read(priv[k:])
				priv = ref.NewKeyPair(priv).Priv
			case 3:
				k := 1 + r.Intn(31)
				r.Read(priv[:k])
				r.Read(pub[:r.Intn(32)])
				priv = ref.NewKeyPair(priv).Priv
			}
			want := ref.DH(priv, pub)
			got := kdf.CalculateSharedSecret(pub, priv)
			c.Must(bytes.Equal(got[:], want), "shared-secret-related", "private %x public %x: %x want %x", priv, pub, got, want)
			c.Count("shared_related", 1)
		}
		kp := ecc.CreateKeyPair(append([]byte{}, a.Priv[:]...))
		c.Must(kp.PublicKey().PublicKey() == a.Pub && kp.PrivateKey().Serialize() == a.Priv, "create-key-pair", "private %x: public %x want %x", a.Priv, kp.PublicKey().PublicKey(), a.Pub)
		c.Count("shared_secrets", 1)
		c.Sig("dh", kind, bytes.Equal(want, make([]byte, 32)))
	}
	// Derived secrets.
	for k := 0; k < 10; k++ {
		n := pick(c, r.Intn(200), 32, 64, 80, 31, 33, 255*32, r.Intn(255*32))
		ikm, salt, info := randBytes(c, r.Intn(200)), randBytes(c, pick(c, 0, 1, 32, 64, 65, 200)), randBytes(c, pick(c, 0, r.Intn(100), 300))
		if len(salt) == 0 && r.Intn(2) == 0 {
			salt = nil
		}
		got, err := kdf.DeriveSecrets(ikm, salt, info, n)
		c.NoErr(err, "derive")
		c.Must(bytes.Equal(got, ref.HKDF(ikm, salt, string(info), n)), "derived", "secrets of %d bytes from %x salt %x info %x: %x", n, ikm, salt, info, clip(got))
		// Related inputs, one after the other.
		for j := 0; j < 4; j++ {
			n2 := n
			switch r.Intn(5) {
			case 0:
				salt = randBytes(c, r.Intn(70))
			case 1:
				ikm = append(append([]byte{}, ikm...), byte(r.Intn(2)))
			case 2:
				info = append(append([]byte{}, info...), byte(r.Intn(2)))
			case 3:
				n2 = r.Intn(255 * 32)
			case 4: // the same bytes, divided otherwise
				k := r.Intn(len(info) + 1)
				salt, info = append(append([]byte{}, salt...), info[:k]...), append([]byte{}, info[k:]...)
			}
			got, err := kdf.DeriveSecrets(ikm, salt, info, n2)
			c.NoErr(err, "derive")
			c.Must(bytes.Equal(got, ref.HKDF(ikm, salt, string(info), n2)), "derived-related", "secrets of %d bytes from %x salt %x info %x: %x", n2, ikm, salt, info, clip(got))
			c.Count("derived_related", 1)
		}
		c.Count("derived", 1)
		c.Sig("hkdf", class(uint32(n)), len(salt), len(info) == 0)
	}
	if over, err := kdf.DeriveSecrets([]byte{1}, nil, nil, 255*32+1); err == nil {
		c.Fail("derive-too-much", "more output than HKDF can give: %d bytes", len(over))
	}
	// Key agreement with prekeys.
	for k := 0; k < 4; k++ {
		aID, aBase, bID, bSigned, bPre, rat := newRefKey(c), newRefKey(c), newRefKey(c), newRefKey(c), newRefKey(c), newRefKey(c)
		otpk := r.Intn(2) == 0
		secrets := [][]byte{ref.DH(aID.Priv, bSigned.Pub), ref.DH(aBase.Priv, bID.Pub), ref.DH(aBase.Priv, bSigned.Pub)}
		if otpk {
			secrets = append(secrets, ref.DH(aBase.Priv, bPre.Pub))
		}
		rk, ck := x3dh(secrets...)
		var sp *ratchet.SenderParameters
		var rp *ratchet.ReceiverParameters
		if r.Intn(2) == 0 {
			var pk ecc.ECPublicKeyable
			var pp *ecc.ECKeyPair
			if otpk {
				pk, pp = pubOf(bPre), pairOf(bPre)
			}
			sp = ratchet.NewSenderParameters(identityOf(aID), pairOf(aBase), identityOf(bID).PublicKey(), pubOf(bSigned), pubOf(bSigned), pk)
			rp = ratchet.NewReceiverParameters(identityOf(bID), pairOf(bSigned), pp, pairOf(rat), pubOf(aBase), identityOf(aID).PublicKey())
		} else {
			sp, rp = ratchet.NewEmptySenderParameters(), ratchet.NewEmptyReceiverParameters()
			sp.SetOurIdentityKey(identityOf(aID))
			sp.SetOurBaseKey(pairOf(aBase))
			sp.SetTheirIdentityKey(identityOf(bID).PublicKey())
			sp.SetTheirSignedPreKey(pubOf(bSigned))
			sp.SetTheirRatchetKey(pubOf(bSigned))
			rp.SetOurIdentityKeyPair(identityOf(bID))
			rp.SetOurSignedPreKey(pairOf(bSigned))
			rp.SetOurRatchetKey(pairOf(rat))
			rp.SetTheirBaseKey(pubOf(aBase))
			rp.SetTheirIdentityKey(identityOf(aID).PublicKey())
			if otpk {
				sp.SetTheirOneTimePreKey(pubOf(bPre))
				rp.SetOurOneTimePreKey(pairOf(bPre))
			}
		}
		s, err := ratchet.CalculateSenderSession(sp)
		sameKeys(s, err, rk, ck, "sender")
		v, err := ratchet.CalculateReceiverSession(rp)
		sameKeys(v, err, rk, ck, "receiver")
		c.Count("agreements", 1)
		c.Sig("x3dh", otpk)
	}
	// Both parties online.
	for k := 0; k < 3; k++ {
		aID, bID := newRefKey(c), newRefKey(c)
		aBase, bBase := newRefKey(c), newRefKey(c)
		pre := r.Intn(3) == 0
		if pre {
			aBase, bBase = prefixed(c)
			c.Count("common_prefix", 1)
		}
		aRat, bRat := newRefKey(c), newRefKey(c)
		side := func(id, base, rat, tID, tBase, tRat ref.KeyPair) (*session.KeyPair, error) {
			return ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: pairOf(base), OurRatchetKey: pairOf(rat), OurIdentityKeyPair: identityOf(id),
				TheirBaseKey: pubOf(tBase), TheirRatchetKey: pubOf(tRat), TheirIdentityKey: identityOf(tID).PublicKey()})
		}
		first := bytes.Compare(aBase.Pub[:], bBase.Pub[:]) < 0
		lID, lBase, hID, hBase := aID, aBase, bID, bBase
		if !first {
			lID, lBase, hID, hBase = bID, bBase, aID, aBase
		}
		rk, ck := x3dh(ref.DH(lID.Priv, hBase.Pub), ref.DH(lBase.Priv, hID.Pub), ref.DH(lBase.Priv, hBase.Pub))
		x, err := side(aID, aBase, aRat, bID, bBase, bRat)
		c.NoErr(err, "symmetric")
		y, err := side(bID, bBase, bRat, aID, aBase, aRat)
		c.NoErr(err, "symmetric")
		c.Must(bytes.Equal(x.RootKey.Bytes(), y.RootKey.Bytes()) && bytes.Equal(x.ChainKey.Key(), y.ChainKey.Key()), "symmetric-disagree",
			"the two sides derived different keys; base keys %x and %x", aBase.Pub, bBase.Pub)
		sameKeys(x, nil, rk, ck, "symmetric")
		c.Count("symmetric", 1)
		c.Sig("symmetric", first, pre, aBase.Pub[0]>>7, bBase.Pub[0]>>7)
	}
	// Root and chain steps.
	for k := 0; k < 6; k++ {
		rk := randBytes(c, 32)
		a, b := newRefKey(c), newRefKey(c)
		nr, nc := ref.RootStep(rk, a.Priv, b.Pub)
		x, err := root.NewKey(kdf.DeriveSecrets, append([]byte{}, rk...)).CreateChain(pubOf(b), pairOf(a))
		sameKeys(x, err, nr, nc, "root-step")
		y, err := root.NewKey(kdf.DeriveSecrets, append([]byte{}, rk...)).CreateChain(pubOf(a), pairOf(b))
		sameKeys(y, err, nr, nc, "root-step-peer")
		// Steps that differ a little, one after the other.
		for j := 0; j < 4; j++ {
			rk, a, b := append([]byte{}, rk...), a, b
			switch r.Intn(4) {
			case 0:
				rk[r.Intn(32)] ^= byte(1 + r.Intn(255))
			case 1:
				r.Read(rk[1+r.Intn(30):])
			case 2:
				priv := a.Priv
				priv[1+r.Intn(30)] ^= byte(1 + r.Intn(255))
				a = ref.NewKeyPair(priv)
			case 3:
				b = newRefKey(c)
			}
			nr, nc := ref.RootStep(rk, a.Priv, b.Pub)
			x, err := root.NewKey(kdf.DeriveSecrets, append([]byte{}, rk...)).CreateChain(pubOf(b), pairOf(a))
			sameKeys(x, err, nr, nc, "root-step-related")
			// And the keys of chains alike.
			ck := append([]byte{}, nc...)
			if r.Intn(2) == 0 {
				r.Read(ck[1+r.Intn(30):])
			} else {
				ck[r.Intn(32)] ^= byte(1 + r.Intn(255))
			}
			for _, k := range [][]byte{nc, ck, nc} {
				i := uint32(r.Intn(3))
				lib := chain.NewKey(kdf.DeriveSecrets, append([]byte{}, k...), i)
				mk, want := lib.MessageKeys(), ref.MessageKeys(k)
				c.Must(bytes.Equal(mk.CipherKey(), want.Cipher) && bytes.Equal(mk.MacKey(), want.Mac) && bytes.Equal(mk.Iv(), want.IV) && mk.Index() == i, "message-keys-related",
					"chain %x at %d: %x %x %x %d", k, i, mk.CipherKey(), mk.MacKey(), mk.Iv(), mk.Index())
				nx := lib.NextKey()
				c.Must(bytes.Equal(nx.Key(), ref.NextChain(k)) && nx.Index() == i+1, "chain-step-related", "after %x at %d: %x at %d", k, i, nx.Key(), nx.Index())
			}
			c.Count("steps_related", 1)
		}
		c.Count("root_steps", 1)
	}
	idx := edgeU32(c)
	for idx > 0xffffffff-40 {
		idx = edgeU32(c)
	}
	ck := randBytes(c, 32)
	lib := chain.NewKey(kdf.DeriveSecrets, append([]byte{}, ck...), idx)
	for k := 0; k < 20; k++ {
		mk, want := lib.MessageKeys(), ref.MessageKeys(ck)
		c.Must(bytes.Equal(mk.CipherKey(), want.Cipher) && bytes.Equal(mk.MacKey(), want.Mac) && bytes.Equal(mk.Iv(), want.IV) && mk.Index() == idx, "message-keys",
			"chain %x at %d: %x %x %x %d", ck, idx, mk.CipherKey(), mk.MacKey(), mk.Iv(), mk.Index())
		nx := lib.NextKey()
		c.Must(bytes.Equal(lib.Key(), ck) && lib.Index() == idx, "chain-changed", "deriving from a chain key changed it")
		lib, ck, idx = nx, ref.NextChain(ck), idx+1
		c.Must(bytes.Equal(lib.Key(), ck) && lib.Index() == idx, "chain-step", "after the step: %x at %d, want %x at %d", lib.Key(), lib.Index(), ck, idx)
		c.Count("chain_steps", 1)
	}
	c.Sig("chain", class(idx))
}
