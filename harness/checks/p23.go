package checks

import (
	"bytes"
	"crypto/sha512"
	"math/big"

	"verif/ref"
	"verif/rt"

	"github.com/prospik/libsignal-protocol-go/ecc"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P23",
		Rule: "one case signs messages of many lengths with random and extreme keys, judges each signature with two independent verifiers (math/big and crypto/ed25519), checks that no two messages share a nonce even when the entropy source repeats, and asks the library's verifier about genuine, altered, malleated and forged signatures, altered messages and odd public keys. " +
			"Distinct by kind of input, sign bit, message length class and verdict",
		Cases: tiered(350, 9000),
		Run:   runP23,
		Need:  map[string]int64{"signed": 3000, "accepted": 5000, "rejected": 60000, "malleated": 3000, "odd_keys": 5000, "bigint_verdicts": 1500, "long_messages": 60, "long_nonces": 200},
	})
}

// verifyBig is the verification equation over math/big.
func verifyBig(pub [32]byte, msg, sig []byte) bool {
	s := append([]byte{}, sig...)
	A := ref.EdPub(pub, s[63])
	s[63] &= 0x7f
	var a32 [32]byte
	copy(a32[:], A)
	pa, ok := ref.Decode(a32)
	if !ok {
		return false
	}
	sc := ref.LE(s[32:])
	if sc.Cmp(ref.L) >= 0 {
		return false
	}
	h := sha512.New()
	h.Write(s[:32])
	h.Write(A)
	h.Write(msg)
	k := new(big.Int).Mod(ref.LE(h.Sum(nil)), ref.L)
	R := ref.Encode(ref.Add(ref.Mul(sc, ref.Base), ref.Neg(ref.Mul(k, pa))))
	return bytes.Equal(R[:], s[:32])
}

// edgeScalar makes a private key, sometimes of an extreme shape.
func edgeScalar(c *rt.Case) (k [32]byte) {
	c.R.Read(k[:])
	switch c.R.Intn(6) {
	case 0:
		k = [32]byte{}
	case 1:
		for i := range k {
			k[i] = 0xff
		}
	case 2:
		l := ref.ToLE(ref.L)
		k = l
		k[c.R.Intn(32)] ^= byte(c.R.Intn(256))
	}
	return ref.NewKeyPair(k).Priv
}

type repeatReader struct{ b [64]byte }

func (r repeatReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b[i%64]
	}
	return len(p), nil
}

func runP23(c *rt.Case) {
	r := c.R
	ask := func(pub [32]byte, msg, sig []byte, kind string) bool {
		var s [64]byte
		copy(s[:], sig)
		got := false
		if p := rt.Try(func() { got = ecc.VerifySignature(ecc.NewDjbECPublicKey(pub), msg, s) }); p != "" {
			c.Fail("panic:verify:"+kind, "%s", p)
		}
		want := ref.Verify(pub, msg, sig)
		c.Must(got == want, "verdict:"+kind, "the library says %v, the signature equation %v: key %x message %x signature %x", got, want, pub, clip(msg), sig)
		if got {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		c.Sig("verify", kind, got, sig[63]>>7, class(uint32(len(msg))))
		return got
	}
	if c.Idx%4 == 0 {
		p23long(c, ask)
	}
	nonces := map[[32]byte]string{}
	repeat := r.Intn(3) == 0
	rep := repeatReader{}
	r.Read(rep.b[:])
	for k := 0; k < 12; k++ {
		kp := ref.NewKeyPair(edgeScalar(c))
		msg := randBytes(c, pick(c, 0, 1, 32, 33, 63, 64, 65, 127, 128, 129, r.Intn(300), r.Intn(5000)))
		var sig [64]byte
		sign := func() { sig = ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), append([]byte{}, msg...)) }
		if repeat {
			withReader(rep, sign)
		} else {
			sign()
		}
		var R [32]byte
		copy(R[:], sig[:32])
		what := string(kp.Priv[:]) + string(msg)
		had, used := nonces[R]
		c.Must(!used || had == what, "nonce-reused", "two different messages were signed with the same nonce (repeating entropy: %v)", repeat)
		nonces[R] = what
		s := append([]byte{}, sig[:]...)
		s[63] &= 0x7f
		c.Must(ref.LE(s[32:]).Cmp(ref.L) < 0, "not-canonical", "S is not below the group order")
		c.Must(ref.Verify(kp.Pub, msg, sig[:]), "bad-signature", "a signature does not verify under its key: key %x message %x signature %x", kp.Pub, clip(msg), sig)
		if k%2 == 0 {
			c.Must(verifyBig(kp.Pub, msg, sig[:]), "bad-signature", "a signature does not satisfy the equation")
			c.Count("bigint_verdicts", 1)
		}
		c.Count("signed", 1)
		c.Must(ask(kp.Pub, msg, sig[:], "genuine"), "genuine-rejected", "a genuine signature is rejected")
		// A signature by the independent signer.
		var rnd [64]byte
		r.Read(rnd[:])
		other := ref.Sign(kp.Priv, msg, rnd)
		c.Must(ask(kp.Pub, msg, other, "independent"), "genuine-rejected", "an independent implementation's signature is rejected")
		c.Must(other[63]>>7 == sig[63]>>7, "sign-bit", "the sign bit differs between signatures of one key")
		// Alterations: none of them may verify.
		never := func(pub [32]byte, m, sg []byte, kind string) {
			c.Must(!ask(pub, m, sg, kind), "forgery:"+kind, "an altered signature verifies: %s", kind)
		}
		for j := 0; j < 12; j++ {
			x := append([]byte{}, sig[:]...)
			b := r.Intn(512)
			if j == 0 {
				b = 511
			}
			x[b/8] ^= 1 << (b % 8)
			never(kp.Pub, msg, x, "signature-bit")
		}
		if len(msg) > 0 {
			never(kp.Pub, flip(c, msg), sig[:], "message-bit")
			never(kp.Pub, msg[:len(msg)-1], sig[:], "message-short")
		}
		never(kp.Pub, append(append([]byte{}, msg...), 0), sig[:], "message-long")
		pub := kp.Pub
		b := r.Intn(255)
		pub[b/8] ^= 1 << (b % 8)
		never(pub, msg, sig[:], "key-bit")
		never(newRefKey(c).Pub, msg, sig[:], "other-key")
		never(kp.Pub, msg, make([]byte, 64), "zero")
		never(kp.Pub, msg, randBytes(c, 64), "random")
		// S + L, and R or S alone from another signature.
		n := new(big.Int).Add(ref.LE(s[32:]), ref.L)
		if n.BitLen() <= 255 {
			x := append([]byte{}, sig[:32]...)
			e := ref.ToLE(n)
			x = append(x, e[:]...)
			x[63] |= sig[63] & 0x80
			never(kp.Pub, msg, x, "plus-order")
			c.Count("malleated", 1)
		}
		never(kp.Pub, msg, append(append([]byte{}, sig[:32]...), other[32:]...), "mixed")
		never(kp.Pub, msg, append(append([]byte{}, sig[32:]...), sig[:32]...), "swapped")
		neg := new(big.Int).Sub(ref.L, ref.LE(s[32:]))
		e := ref.ToLE(neg)
		x := append(append([]byte{}, sig[:32]...), e[:]...)
		x[63] |= sig[63] & 0x80
		never(kp.Pub, msg, x, "negated")
		c.Count("malleated", 1)
		// The top bit of a public key does not count; odd keys only have to be judged right.
		pub = kp.Pub
		pub[31] |= 0x80
		ask(pub, msg, sig[:], "key-top-bit")
		for j := 0; j < 3; j++ {
			copy(pub[:], lowOrder[r.Intn(len(lowOrder))])
			switch r.Intn(3) {
			case 0:
				pub[31] ^= 0x80
			case 1:
				r.Read(pub[:])
				pub[31] |= 0x7f
				for i := 1; i < 31; i++ {
					pub[i] = 0xff
				}
				pub[0] |= 0xe0
			}
			ident := make([]byte, 64)
			ident[0] = 1
			ask(pub, msg, ident, "odd-key-identity")
			ask(pub, msg, sig[:], "odd-key")
			x := append([]byte{}, lowOrder[r.Intn(len(lowOrder))]...)
			ask(pub, msg, append(x, make([]byte, 32)...), "odd-key-low-R")
			c.Count("odd_keys", 1)
		}
	}
}

// p23long signs and verifies a message of far more than a record's length, and
// alters it anywhere in it.
func p23long(c *rt.Case, ask func(pub [32]byte, msg, sig []byte, kind string) bool) {
	r := c.R
	kp := ref.NewKeyPair(edgeScalar(c))
	size := pick(c, 1<<14, 1<<16, 1<<16, 1<<20, 1<<20, 1<<20, 1<<22) + r.Intn(5) - 2
	if r.Intn(3) == 0 {
		size = r.Intn(3 << 20)
	}
	if c.Idx%64 == 0 {
		size = 1<<24 + r.Intn(5) - 2
	}
	msg := randBytes(c, size)
	sig := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), append([]byte{}, msg...))
	c.Must(ref.Verify(kp.Pub, msg, sig[:]), "bad-signature", "a signature of a message of %d bytes does not verify", size)
	c.Must(ask(kp.Pub, msg, sig[:], "genuine-long"), "genuine-rejected", "a genuine signature of a message of %d bytes is rejected", size)
	var rnd [64]byte
	r.Read(rnd[:])
	c.Must(ask(kp.Pub, msg, ref.Sign(kp.Priv, msg, rnd), "independent-long"), "genuine-rejected", "an independent signature of a message of %d bytes is rejected", size)
	// With an entropy source that repeats itself, messages that differ anywhere
	// still have nonces of their own.
	rep := repeatReader{}
	r.Read(rep.b[:])
	again := func() (R [32]byte) {
		withReader(rep, func() {
			sig := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), append([]byte{}, msg...))
			copy(R[:], sig[:])
		})
		return R
	}
	first := again()
	for _, at := range []int{0, size / 2, size - 1, r.Intn(size + 1)} {
		if at < 0 || at >= size {
			continue
		}
		bit := byte(1) << uint(r.Intn(8))
		msg[at] ^= bit
		c.Must(again() != first, "nonce-reused", "two messages of %d bytes that differ at %d were signed with the same nonce", size, at)
		c.Count("long_nonces", 1)
		c.Must(!ask(kp.Pub, msg, sig[:], "long-altered"), "forgery:long-altered", "a signature verifies for a message of %d bytes altered at %d", size, at)
		msg[at] ^= bit
	}
	c.Count("long_messages", 1)
}
