package checks

import (
	"bytes"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	aescbc "github.com/prospik/libsignal-protocol-go/cipher"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P22",
		Rule: "one case encrypts and decrypts data of many lengths under keys of all AES sizes with both pairs of helpers, compared with an independent AES-CBC/PKCS#7; then feeds the decryptors crafted padding of every value and run length, and keys, IVs and ciphertexts of wrong lengths, with the entropy source failing at times; and has a conforming peer and group member authenticate badly padded, cut and proper content, which the session or group must judge as the independent implementation does. " +
			"Distinct by helper, kind of input, length class and outcome",
		Cases: tiered(1500, 40000),
		Run:   runP22,
		Need:  map[string]int64{"round_trips": 30000, "padding": 30000, "refused": 30000, "random_iv": 2000, "entropy_failures": 400, "large": 200, "authenticated": 3000},
	})
}

type cbcHelper struct {
	name     string
	enc, dec func(iv, key, x []byte) ([]byte, error)
	empty    bool // whether an empty plaintext must be accepted
}

var cbcHelpers = []cbcHelper{
	{"cipher", aescbc.Encrypt, aescbc.Decrypt, false},
	{"cbc", aescbc.EncryptCbc, aescbc.DecryptCbc, true},
}

// try calls a helper; a panic is a violation.
func (h cbcHelper) try(c *rt.Case, f func(iv, key, x []byte) ([]byte, error), what string, iv, key, x []byte) (out []byte, err error) {
	if p := rt.Try(func() { out, err = f(iv, key, x) }); p != "" {
		c.Fail("panic:"+h.name+":"+what, "iv %d bytes, key %d bytes, input %d bytes: panic %s", len(iv), len(key), len(x), p)
	}
	return
}

// p22Messages has a peer and a group member authenticate content that is not
// encrypted as it should be.
func p22Messages(c *rt.Case) {
	r := c.R
	f := format(c)
	u := sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
	addr := protoAddr("insider", 3)
	s := ref.Initiate(f, newRefKey(c), r.Uint32()&0x3fff, toRefBundle(u.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))), func() ref.KeyPair { return newRefKey(c) })
	n := nameOf("ring", addr)
	ch := &ref.SenderChain{F: f, ID: r.Uint32(), Iter: uint32(r.Intn(9)), Chain: randBytes(c, 32), Sign: newRefKey(c)}
	ch.SignPub = ch.Sign.Pub
	c.NoErr(u.JoinGroup(n, ch.Dist()), "join")
	for k := 0; k < 14; k++ {
		var how string
		var want []byte
		var werr error
		mod := func(iv, key, ct []byte) []byte {
			blocks := randBytes(c, 16*(1+r.Intn(4)))
			end := blocks[len(blocks)-16:]
			v := 1 + r.Intn(16)
			for i := 16 - v; i < 16; i++ {
				end[i] = byte(v)
			}
			switch r.Intn(7) {
			case 0:
				how, ct = "cut", ref.CBCRaw(iv, key, blocks)
				ct = ct[:len(ct)-1-r.Intn(15)]
			case 1:
				how, ct = "none", []byte{}
			case 2:
				end[15] = pick[byte](c, 0, byte(17+r.Intn(239)), 255, 17, 32)
				how, ct = "impossible", ref.CBCRaw(iv, key, blocks)
			case 3:
				end[16-v] ^= byte(1 + r.Intn(255))
				how, ct = "first-byte", ref.CBCRaw(iv, key, blocks)
			case 4:
				end[16-1-r.Intn(v)] ^= 1 << r.Intn(8)
				how, ct = "one-bit", ref.CBCRaw(iv, key, blocks)
			case 5:
				how, ct = "proper", ref.CBCRaw(iv, key, blocks)
			default:
				how = "usual"
			}
			want, werr = ref.CBCDecrypt(iv, key, ct)
			return ct
		}
		judge := func(what string, got []byte, err error) {
			switch {
			case werr != nil:
				c.Must(err != nil, "bad-content-accepted:"+what, "content of the kind %q of an authenticated %s message was read as %q", how, what, clip(got))
			case len(want) == 0 && err != nil: // an empty plaintext may be refused
			default:
				c.NoErr(err, "good-content-refused:"+what, how)
				c.Must(bytes.Equal(got, want), "content:"+what, "%s: read %x, want %x", how, clip(got), clip(want))
			}
			c.Count("authenticated", 1)
			c.Sig(what, how, f, u.St.Mode, werr != nil)
		}
		if r.Intn(2) == 0 {
			w, pk := s.Craft(randPlain(c), func(m *wire.Signal, mk ref.MsgKeys) { m.Ct = mod(mk.IV, mk.Cipher, m.Ct) })
			got, err := u.Decrypt(addr, w, pk)
			judge("session", got, err)
		} else {
			var rnd [64]byte
			r.Read(rnd[:])
			g := ch.Craft(randPlain(c), rnd, func(m *wire.SenderKey, iv, key []byte) { m.Ct = mod(iv, key, m.Ct) })
			got, err := u.GroupDecrypt(n, g)
			judge("group", got, err)
		}
	}
}

func runP22(c *rt.Case) {
	r := c.R
	if c.Idx%5 == 2 {
		p22Messages(c)
	}
	for _, h := range cbcHelpers {
		for k := 0; k < 14; k++ {
			key, iv := randBytes(c, pick(c, 16, 24, 32, 32, 32)), randBytes(c, 16)
			n := pick(c, r.Intn(34), r.Intn(34), r.Intn(300), 16*r.Intn(40), 16*r.Intn(40)+15, 4096+r.Intn(3))
			if r.Intn(60) == 0 {
				n = pick(c, 8192, 32768, 65536, 65536, 131072, 1<<20) + r.Intn(48) - 24
				c.Count("large", 1)
			}
			if c.Idx%97 == 5 && k == 0 {
				n = pick(c, 4<<20, 8<<20) + r.Intn(48) - 24
				c.Count("very_large", 1)
			}
			pt := randBytes(c, n)
			if n > 0 && r.Intn(3) == 0 { // looks like padding itself
				v := byte(1 + r.Intn(17))
				for i := 0; i < r.Intn(18) && i < n; i++ {
					pt[n-1-i] = v
				}
			}
			want := ref.CBCEncrypt(iv, key, pt)
			ct, err := h.try(c, h.enc, "encrypt", iv, key, pt)
			if n == 0 && !h.empty && err != nil {
				c.Sig(h.name, "empty-refused")
			} else {
				c.NoErr(err, "encrypt:"+h.name, n)
				c.Must(bytes.Equal(ct, want), "ciphertext:"+h.name, "%d bytes: got %x want %x", n, clip(ct), clip(want))
			}
			back, err := h.try(c, h.dec, "decrypt", iv, key, want)
			c.NoErr(err, "decrypt:"+h.name, n)
			c.Must(bytes.Equal(back, pt), "plaintext:"+h.name, "%d bytes: got %x want %x", n, clip(back), clip(pt))
			c.Count("round_trips", 1)
			c.Sig(h.name, "round", n%16, class(uint32(n)), len(key))
		}
		// Padding of every kind.
		for k := 0; k < 16; k++ {
			key, iv := randBytes(c, 32), randBytes(c, 16)
			blocks := randBytes(c, 16*(1+r.Intn(20)))
			v := r.Intn(256)
			if r.Intn(2) == 0 {
				v = r.Intn(19)
			}
			run := 1 + r.Intn(20)
			if r.Intn(3) == 0 {
				run = v
			}
			for i := 0; i < run && i < len(blocks); i++ {
				blocks[len(blocks)-1-i] = byte(v)
			}
			if r.Intn(4) == 0 { // one wrong byte inside
				blocks[len(blocks)-1-r.Intn(16)] ^= byte(1 + r.Intn(255))
			}
			ct := ref.CBCRaw(iv, key, blocks)
			want, werr := ref.CBCDecrypt(iv, key, ct)
			got, err := h.try(c, h.dec, "padding", iv, key, ct)
			last := int(blocks[len(blocks)-1])
			if werr != nil {
				c.Must(err != nil, "bad-padding-accepted:"+h.name, "blocks ending %x decrypted to %d bytes", blocks[len(blocks)-16:], len(got))
				c.Must(len(got) == 0, "plaintext-with-error:"+h.name, "%d bytes returned with %v", len(got), err)
			} else {
				c.NoErr(err, "good-padding-refused:"+h.name, last)
				c.Must(bytes.Equal(got, want), "padding-length:"+h.name, "blocks ending %x: %d bytes, want %d", blocks[len(blocks)-16:], len(got), len(want))
			}
			c.Count("padding", 1)
			c.Sig(h.name, "padding", min(last, 18), werr != nil)
		}
		// Wrong lengths.
		for k := 0; k < 20; k++ {
			kl, il, xl := 32, 16, 16*(1+r.Intn(4))
			kind := r.Intn(3)
			switch kind {
			case 0:
				for kl == 16 || kl == 24 || kl == 32 {
					kl = r.Intn(70)
				}
			case 1:
				for il == 16 {
					il = r.Intn(40)
				}
			case 2:
				for xl%16 == 0 && xl > 0 {
					xl = r.Intn(100)
				}
			}
			x := randBytes(c, xl)
			_, err := h.try(c, h.dec, "lengths", randBytes(c, il), randBytes(c, kl), x)
			c.Must(err != nil, "lengths-accepted:"+h.name, "decrypt with iv %d, key %d, ciphertext %d", il, kl, xl)
			_, err = h.try(c, h.enc, "encrypt-lengths", randBytes(c, il), randBytes(c, kl), append([]byte{1}, x...))
			c.Must(err != nil == (kind != 2), "encrypt-lengths:"+h.name, "encrypt with iv %d, key %d: %v", il, kl, err)
			c.Count("refused", 1)
			c.Sig(h.name, "lengths", kind, il, kl, xl%16)
		}
	}
	// Every bit of a chosen IV is random, however the entropy source delivers it.
	var ones, zeros [16]byte
	step := 64 // larger than the IV
	if r.Intn(2) == 0 {
		step = 1 + r.Intn(15)
	}
	withReader(&tape{b: randBytes(c, 4096), step: step}, func() {
		for k := 0; k < 48; k++ {
			a, err := aescbc.EncryptCbc(nil, randBytes(c, 32), nil)
			c.NoErr(err, "encrypt-random-iv")
			for i := range ones {
				ones[i] |= a[i]
				zeros[i] |= ^a[i]
			}
		}
	})
	for i := range ones {
		c.Must(ones[i] == 0xFF && zeros[i] == 0xFF, "iv-constant", "bits of byte %d of 48 random IVs never change: %02x %02x", i, ones[i], zeros[i])
	}
	c.Count("iv_bits", 128)
	// A random IV in front.
	for k := 0; k < 3; k++ {
		key, pt := randBytes(c, 32), randBytes(c, r.Intn(70))
		a, err := aescbc.EncryptCbc(nil, key, pt)
		c.NoErr(err, "encrypt-random-iv")
		b, err := aescbc.EncryptCbc(nil, key, pt)
		c.NoErr(err, "encrypt-random-iv")
		c.Must(len(a) == 16+16*(len(pt)/16+1), "random-iv-length", "%d bytes for %d", len(a), len(pt))
		c.Must(!bytes.Equal(a[:16], b[:16]), "iv-reused", "two encryptions used the IV %x", a[:16])
		w, err := ref.CBCDecrypt(a[:16], key, a[16:])
		c.Must(err == nil && bytes.Equal(w, pt), "random-iv-ciphertext", "%v %x", err, w)
		w, err = aescbc.DecryptCbc(nil, key, a)
		c.Must(err == nil && bytes.Equal(w, pt), "random-iv-decrypt", "%v %x", err, w)
		for _, n := range []int{0, 1, 15, 16, 17, 31, 33} {
			_, err = cbcHelpers[1].try(c, aescbc.DecryptCbc, "no-iv", nil, key, randBytes(c, n))
			c.Must(err != nil, "short-accepted", "%d bytes with the IV inside", n)
		}
		c.Count("random_iv", 1)
		c.Rand.FailIn(1)
		a, err = aescbc.EncryptCbc(nil, key, pt)
		hit := c.Rand.Failed()
		c.Rand.FailIn(0)
		c.Must(!hit || err != nil && len(a) == 0, "entropy-failure-ignored", "no entropy for the IV, yet %x %v", clip(a), err)
		if hit {
			c.Count("entropy_failures", 1)
		}
		c.Sig("random-iv", len(pt)%16)
	}
}
