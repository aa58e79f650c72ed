// Package ref is an independent implementation of the protocol's cryptography
// (X3DH, Double Ratchet, sender keys, XEdDSA), written from the specification
// on the standard library only. It is the oracle of the conformance checks.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"math/big"

	"verif/wire"
)

// HMAC is HMAC-SHA256.
func HMAC(key, msg []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write(msg)
	return m.Sum(nil)
}

// HKDF is RFC 5869 with SHA-256.
func HKDF(ikm, salt []byte, info string, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, append(append(append([]byte{}, t...), info...), i))
		out = append(out, t...)
	}
	return out[:n]
}

// KeyPair is an X25519 key pair.
type KeyPair struct{ Priv, Pub [32]byte }

// NewKeyPair clamps the scalar and computes the public key.
func NewKeyPair(priv [32]byte) KeyPair {
	priv[0] &= 248
	priv[31] &= 127
	priv[31] |= 64
	k, _ := ecdh.X25519().NewPrivateKey(priv[:])
	kp := KeyPair{Priv: priv}
	copy(kp.Pub[:], k.PublicKey().Bytes())
	return kp
}

// DH is X25519.
func DH(priv, pub [32]byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv[:])
	if err != nil {
		return make([]byte, 32)
	}
	p, err := ecdh.X25519().NewPublicKey(pub[:])
	if err != nil {
		return make([]byte, 32)
	}
	s, err := k.ECDH(p)
	if err != nil {
		return make([]byte, 32)
	}
	return s
}

// Enc33 is the serialized form of a public key.
func Enc33(pub [32]byte) []byte { return append([]byte{5}, pub[:]...) }

// Dec33 reads the serialized form.
func Dec33(b []byte) (p [32]byte, err error) {
	if len(b) < 33 || b[0] != 5 {
		return p, errors.New("bad public key")
	}
	copy(p[:], b[1:33])
	return p, nil
}

// CBCEncrypt is AES-CBC with PKCS#7 padding.
func CBCEncrypt(iv, key, pt []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	n := 16 - len(pt)%16
	b := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(n)}, n)...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(b, b)
	return b
}

// CBCRaw encrypts whole blocks without padding.
func CBCRaw(iv, key, blocks []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	b := append([]byte{}, blocks...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(b, b)
	return b
}

// CBCDecrypt is its inverse.
func CBCDecrypt(iv, key, ct []byte) ([]byte, error) {
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if len(ct) == 0 || len(ct)%16 != 0 || len(iv) != 16 {
		return nil, errors.New("bad length")
	}
	b := make([]byte, len(ct))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(b, ct)
	n := int(b[len(b)-1])
	if n == 0 || n > 16 {
		return nil, errors.New("bad padding")
	}
	for _, x := range b[len(b)-n:] {
		if int(x) != n {
			return nil, errors.New("bad padding")
		}
	}
	return b[:len(b)-n], nil
}

// P is the field prime 2^255-19.
var P = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

// L is the order of the base point.
var L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// LE reads a little-endian integer.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ToLE writes 32 little-endian bytes.
func ToLE(x *big.Int) (o [32]byte) {
	b := x.Bytes()
	for i := range b {
		o[i] = b[len(b)-1-i]
	}
	return
}

// EdPub converts a Curve25519 public key to an Ed25519 one with a sign bit.
func EdPub(mont [32]byte, sign byte) []byte {
	mont[31] &= 0x7f
	u := new(big.Int).Mod(LE(mont[:]), P)
	num := new(big.Int).Sub(u, big.NewInt(1))
	den := new(big.Int).Add(u, big.NewInt(1))
	den.Exp(den, new(big.Int).Sub(P, big.NewInt(2)), P)
	y := num.Mul(num, den)
	y.Mod(y, P)
	e := ToLE(y)
	e[31] |= sign & 0x80
	return e[:]
}

// Verify is XEdDSA verification.
func Verify(mont [32]byte, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	pk := EdPub(mont, sig[63])
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return ed25519.Verify(pk, msg, s)
}

// point arithmetic for signing: extended coordinates over math/big.
type Point struct{ X, Y, Z, T *big.Int }

var edD = func() *big.Int {
	n := big.NewInt(-121665)
	d := new(big.Int).Exp(big.NewInt(121666), new(big.Int).Sub(P, big.NewInt(2)), P)
	return n.Mod(n.Mul(n, d), P)
}()

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

// Add adds two points (complete formula for a=-1).
func Add(p, q Point) Point {
	m := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
	A := m(new(big.Int).Sub(p.Y, p.X), new(big.Int).Sub(q.Y, q.X))
	B := m(new(big.Int).Add(p.Y, p.X), new(big.Int).Add(q.Y, q.X))
	C := m(m(p.T, q.T), new(big.Int).Lsh(edD, 1))
	D := m(p.Z, new(big.Int).Lsh(q.Z, 1))
	E, F, G, H := new(big.Int).Sub(B, A), new(big.Int).Sub(D, C), new(big.Int).Add(D, C), new(big.Int).Add(B, A)
	return Point{m(E, F), m(G, H), m(F, G), m(E, H)}
}

// Identity is the neutral element.
func Identity() Point {
	return Point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

// Mul is scalar multiplication.
func Mul(k *big.Int, p Point) Point {
	r := Identity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// Neg negates a point.
func Neg(p Point) Point {
	return Point{mod(new(big.Int).Neg(p.X)), p.Y, p.Z, mod(new(big.Int).Neg(p.T))}
}

// Base is the Ed25519 base point.
var Base = func() Point {
	p, ok := Decode(func() (b [32]byte) {
		for i := range b {
			b[i] = 0x66
		}
		b[0] = 0x58
		return
	}())
	if !ok {
		panic("base")
	}
	return p
}()

// Decode reads a compressed point.
func Decode(b [32]byte) (Point, bool) {
	sign := uint(b[31] >> 7)
	b[31] &= 0x7f
	y := mod(LE(b[:]))
	y2 := mod(new(big.Int).Mul(y, y))
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(new(big.Int).Mul(edD, y2), big.NewInt(1)))
	x2 := mod(new(big.Int).Mul(u, new(big.Int).Exp(v, new(big.Int).Sub(P, big.NewInt(2)), P)))
	x := new(big.Int).ModSqrt(x2, P)
	if x == nil {
		return Point{}, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return Point{x, y, big.NewInt(1), mod(new(big.Int).Mul(x, y))}, true
}

// Encode compresses a point.
func Encode(p Point) [32]byte {
	zi := new(big.Int).Exp(p.Z, new(big.Int).Sub(P, big.NewInt(2)), P)
	x := mod(new(big.Int).Mul(p.X, zi))
	y := mod(new(big.Int).Mul(p.Y, zi))
	b := ToLE(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// Sign makes an XEdDSA signature in the variant where the sign bit of the
// public key travels in the signature's top bit.
func Sign(priv [32]byte, msg []byte, random [64]byte) []byte {
	a := LE(priv[:])
	A := Encode(Mul(a, Base))
	h := sha512.New()
	h.Write(append([]byte{0xfe}, bytes.Repeat([]byte{0xff}, 31)...))
	h.Write(priv[:])
	h.Write(msg)
	h.Write(random[:])
	r := new(big.Int).Mod(LE(h.Sum(nil)), L)
	R := Encode(Mul(r, Base))
	h = sha512.New()
	h.Write(R[:])
	h.Write(A[:])
	h.Write(msg)
	k := new(big.Int).Mod(LE(h.Sum(nil)), L)
	s := k.Mul(k, a)
	s.Add(s, r)
	s.Mod(s, L)
	sb := ToLE(s)
	sig := append(append([]byte{}, R[:]...), sb[:]...)
	sig[63] |= A[31] & 0x80
	return sig
}

// MsgKeys are the keys of one message.
type MsgKeys struct {
	Cipher, Mac, IV []byte
}

// MessageKeys derives the keys of the message at a chain key.
func MessageKeys(chain []byte) MsgKeys {
	k := HKDF(HMAC(chain, []byte{1}), nil, "WhisperMessageKeys", 80)
	return MsgKeys{k[:32], k[32:64], k[64:80]}
}

// NextChain steps a chain key.
func NextChain(chain []byte) []byte { return HMAC(chain, []byte{2}) }

// RootStep is a Diffie-Hellman ratchet step.
func RootStep(root []byte, priv, pub [32]byte) (newRoot, chain []byte) {
	k := HKDF(DH(priv, pub), root, "WhisperRatchet", 64)
	return k[:32], k[32:]
}

type recvChain struct {
	ratchet [32]byte
	chain   []byte
	next    uint32
	skipped map[uint32]MsgKeys
}

// Session is one side of a double-ratchet session.
type Session struct {
	F                   wire.Format
	OurID, TheirID      [32]byte
	root                []byte
	sendKey             KeyPair
	sendChain           []byte
	sendN, prevN        uint32
	recv                []*recvChain
	unacked             *wire.PreKey
	NewKey              func() KeyPair
	BaseKey             [32]byte
	initialResponderKey KeyPair
}

// Bundle is what an initiator needs.
type Bundle struct {
	Identity, SignedPub [32]byte
	SignedID            uint32
	PreKeyID            uint32
	PreKey              *[32]byte
}

// Initiate runs X3DH as the initiator.
func Initiate(f wire.Format, id KeyPair, reg uint32, b Bundle, newKey func() KeyPair) *Session {
	base := newKey()
	ms := bytes.Repeat([]byte{0xff}, 32)
	ms = append(ms, DH(id.Priv, b.SignedPub)...)
	ms = append(ms, DH(base.Priv, b.Identity)...)
	ms = append(ms, DH(base.Priv, b.SignedPub)...)
	if b.PreKey != nil {
		ms = append(ms, DH(base.Priv, *b.PreKey)...)
	}
	k := HKDF(ms, nil, "WhisperText", 64)
	s := &Session{F: f, OurID: id.Pub, TheirID: b.Identity, NewKey: newKey, BaseKey: base.Pub}
	s.sendKey = newKey()
	s.recv = []*recvChain{{ratchet: b.SignedPub, chain: k[32:], skipped: map[uint32]MsgKeys{}}}
	s.root, s.sendChain = RootStep(k[:32], s.sendKey.Priv, b.SignedPub)
	s.unacked = &wire.PreKey{Version: 3, RegID: reg, HasPreKey: b.PreKey != nil, PreKeyID: b.PreKeyID, SignedID: b.SignedID,
		BaseKey: Enc33(base.Pub), Identity: Enc33(id.Pub)}
	return s
}

// Accept runs X3DH as the responder.
func Accept(f wire.Format, id, signed KeyPair, pre *KeyPair, m *wire.PreKey, newKey func() KeyPair) (*Session, error) {
	base, err := Dec33(m.BaseKey)
	if err != nil {
		return nil, err
	}
	their, err := Dec33(m.Identity)
	if err != nil {
		return nil, err
	}
	ms := bytes.Repeat([]byte{0xff}, 32)
	ms = append(ms, DH(signed.Priv, their)...)
	ms = append(ms, DH(id.Priv, base)...)
	ms = append(ms, DH(signed.Priv, base)...)
	if pre != nil {
		ms = append(ms, DH(pre.Priv, base)...)
	}
	k := HKDF(ms, nil, "WhisperText", 64)
	return &Session{F: f, OurID: id.Pub, TheirID: their, NewKey: newKey, BaseKey: base,
		root: k[:32], sendKey: signed, sendChain: k[32:]}, nil
}

// Encrypt makes the next message; prekey tells which kind it is.
func (s *Session) Encrypt(pt []byte) (b []byte, prekey bool) { return s.Craft(pt, nil) }

// Craft is Encrypt by a sender who changes the message before authenticating it.
func (s *Session) Craft(pt []byte, mod func(m *wire.Signal, mk MsgKeys)) (b []byte, prekey bool) {
	mk := MessageKeys(s.sendChain)
	m := &wire.Signal{Version: 3, Ratchet: Enc33(s.sendKey.Pub), Counter: s.sendN, Prev: s.prevN, Ct: CBCEncrypt(mk.IV, mk.Cipher, pt)}
	if mod != nil {
		mod(m, mk)
	}
	mac := append(append(Enc33(s.OurID), Enc33(s.TheirID)...), m.MacInput(s.F)...)
	m.Mac = HMAC(mk.Mac, mac)[:8]
	s.sendChain = NextChain(s.sendChain)
	s.sendN++
	out := m.Encode(s.F)
	if s.unacked != nil {
		w := *s.unacked
		w.Message = out
		return w.Encode(s.F), true
	}
	return out, false
}

// Leap moves the sending chain's number on by d and returns it.
func (s *Session) Leap(d uint32) uint32 { s.sendN += d; return s.sendN }

// LeapRecv moves the number of the receiving chain of a ratchet key on by d.
func (s *Session) LeapRecv(ratchet [32]byte, d uint32) {
	for _, x := range s.recv {
		if x.ratchet == ratchet {
			x.next += d
		}
	}
}

// SendKey is the sending chain's ratchet key.
func (s *Session) SendKey() [32]byte { return s.sendKey.Pub }

// Unacked tells whether messages still carry the session-opening wrapper.
func (s *Session) Unacked() bool { return s.unacked != nil }

// Decrypt reads a session message.
func (s *Session) Decrypt(b []byte) ([]byte, error) {
	m, err := wire.DecodeSignal(s.F, b)
	if err != nil {
		return nil, err
	}
	rk, err := Dec33(m.Ratchet)
	if err != nil {
		return nil, err
	}
	var c *recvChain
	for _, x := range s.recv {
		if x.ratchet == rk {
			c = x
		}
	}
	fresh := false
	var newRoot []byte
	if c == nil {
		fresh = true
		r, ck := RootStep(s.root, s.sendKey.Priv, rk)
		newRoot = r
		c = &recvChain{ratchet: rk, chain: ck, skipped: map[uint32]MsgKeys{}}
	}
	var mk MsgKeys
	chain, n := c.chain, c.next
	add := map[uint32]MsgKeys{}
	if m.Counter < c.next {
		k, ok := c.skipped[m.Counter]
		if !ok {
			return nil, errors.New("old counter")
		}
		mk = k
	} else {
		if m.Counter-c.next > 5000 {
			return nil, errors.New("too far")
		}
		for n < m.Counter {
			add[n] = MessageKeys(chain)
			chain = NextChain(chain)
			n++
		}
		mk = MessageKeys(chain)
		chain = NextChain(chain)
		n++
	}
	mac := append(append(Enc33(s.TheirID), Enc33(s.OurID)...), m.MacInput(s.F)...)
	if !hmac.Equal(HMAC(mk.Mac, mac)[:8], m.Mac) {
		return nil, errors.New("bad mac")
	}
	pt, err := CBCDecrypt(mk.IV, mk.Cipher, m.Ct)
	if err != nil {
		return nil, err
	}
	delete(c.skipped, m.Counter)
	for k, v := range add {
		c.skipped[k] = v
	}
	c.chain, c.next = chain, n
	if fresh {
		s.recv = append(s.recv, c)
		if len(s.recv) > 5 {
			s.recv = s.recv[1:]
		}
		s.prevN = 0
		if s.sendN > 0 {
			s.prevN = s.sendN - 1
		}
		s.sendKey = s.NewKey()
		s.root, s.sendChain = RootStep(newRoot, s.sendKey.Priv, rk)
		s.sendN = 0
	}
	s.unacked = nil
	return pt, nil
}

// SenderChain is one side of a group chain.
type SenderChain struct {
	F       wire.Format
	ID      uint32
	Iter    uint32
	Chain   []byte
	Sign    KeyPair
	SignPub [32]byte
	skipped map[uint32][]byte
}

func groupKeys(seed []byte) (iv, key []byte) {
	k := HKDF(seed, nil, "WhisperGroup", 48)
	return k[:16], k[16:]
}

// Dist describes the chain.
func (c *SenderChain) Dist() []byte {
	d := wire.Dist{Version: 3, ID: c.ID, Iter: c.Iter, ChainKey: c.Chain, SigningKey: Enc33(c.SignPub)}
	return d.Encode(c.F)
}

// FromDist makes a receiving chain.
func FromDist(f wire.Format, b []byte) (*SenderChain, error) {
	d, err := wire.DecodeDist(f, b)
	if err != nil {
		return nil, err
	}
	p, err := Dec33(d.SigningKey)
	if err != nil {
		return nil, err
	}
	return &SenderChain{F: f, ID: d.ID, Iter: d.Iter, Chain: d.ChainKey, SignPub: p}, nil
}

// Encrypt makes the next group message.
func (c *SenderChain) Encrypt(pt []byte, random [64]byte) []byte { return c.Craft(pt, random, nil) }

// Keys are the IV and key of the next message.
func (c *SenderChain) Keys() (iv, key []byte) { return groupKeys(HMAC(c.Chain, []byte{1})) }

// Step passes over one message.
func (c *SenderChain) Step() {
	c.Chain = HMAC(c.Chain, []byte{2})
	c.Iter++
}

// Craft is Encrypt by a sender who changes the message before signing it.
func (c *SenderChain) Craft(pt []byte, random [64]byte, mod func(m *wire.SenderKey, iv, key []byte)) []byte {
	iv, key := groupKeys(HMAC(c.Chain, []byte{1}))
	m := &wire.SenderKey{Version: 3, ID: c.ID, Iter: c.Iter, Ct: CBCEncrypt(iv, key, pt)}
	if mod != nil {
		mod(m, iv, key)
	}
	m.Signature = Sign(c.Sign.Priv, m.SignInput(c.F), random)
	c.Chain = HMAC(c.Chain, []byte{2})
	c.Iter++
	return m.Encode(c.F)
}

// Decrypt reads a group message.
func (c *SenderChain) Decrypt(b []byte) ([]byte, error) {
	m, err := wire.DecodeSenderKey(c.F, b)
	if err != nil {
		return nil, err
	}
	if m.ID != c.ID || !Verify(c.SignPub, m.SignInput(c.F), m.Signature) {
		return nil, errors.New("bad signature or ID")
	}
	if c.skipped == nil {
		c.skipped = map[uint32][]byte{}
	}
	var seed []byte
	if m.Iter < c.Iter {
		s, ok := c.skipped[m.Iter]
		if !ok {
			return nil, errors.New("old")
		}
		delete(c.skipped, m.Iter)
		seed = s
	} else {
		if m.Iter-c.Iter > 2000 {
			return nil, errors.New("far")
		}
		for c.Iter < m.Iter {
			c.skipped[c.Iter] = HMAC(c.Chain, []byte{1})
			c.Chain = HMAC(c.Chain, []byte{2})
			c.Iter++
		}
		seed = HMAC(c.Chain, []byte{1})
		c.Chain = HMAC(c.Chain, []byte{2})
		c.Iter++
	}
	iv, key := groupKeys(seed)
	return CBCDecrypt(iv, key, m.Ct)
}
