package checks

import (
	"encoding/base64"
	"encoding/json"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P19",
		Rule: "one case sends a device hostile network input of every kind in both formats: random, cut, extended, bit-flipped and structurally mutated messages, malformed protobuf and JSON, messages of the wrong kind, and well-authenticated but malformed messages from a malicious peer or group member; parsing, decrypting and processing must return, never panic, and the device must still work afterwards. " +
			"Distinct by kind of input, mutation, parser, format, store kind and error",
		Cases: tiered(900, 25000),
		Run:   runP19,
		Need:  map[string]int64{"inputs": 50000, "parsed": 5000, "rejected": 60000, "insider_messages": 8000, "points": 8000, "bundles": 4000},
	})
}

func runP19(c *rt.Case) {
	r := c.R
	f := format(c)
	a := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	b := sim.NewUser(c, "bob", 2, f, sim.Mode(r.Intn(3)))
	aAddr, bAddr := a.Addr(), b.Addr()
	c.NoErr(a.Initiate(bAddr, b.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))), "bundle")
	type item struct {
		b    []byte
		kind int // 0 session, 1 opening, 2 group, 3 distribution
	}
	var corpus []item
	send := func() []byte {
		w, pk, err := a.Encrypt(bAddr, randPlain(c))
		c.NoErr(err, "encrypt")
		k := 0
		if pk {
			k = 1
		}
		corpus = append(corpus, item{w, k})
		return w
	}
	first := send()
	_, err := b.Decrypt(aAddr, first, true)
	c.NoErr(err, "decrypt")
	back, _, err := b.Encrypt(aAddr, []byte("hello"))
	c.NoErr(err, "encrypt")
	_, err = a.Decrypt(bAddr, back, false)
	c.NoErr(err, "decrypt")
	for k := 0; k < 3; k++ {
		send()
	}
	name := nameOf("team", aAddr)
	dist, err := a.CreateGroup(name)
	c.NoErr(err, "create")
	c.NoErr(b.JoinGroup(name, dist), "join")
	corpus = append(corpus, item{dist, 3})
	for k := 0; k < 3; k++ {
		g, err := a.GroupEncrypt(name, randPlain(c))
		c.NoErr(err, "group-encrypt")
		corpus = append(corpus, item{g, 2})
	}
	stranger := protoAddr("mallory", 7)
	feed := func(in []byte, how string) {
		c.Count("inputs", 1)
		for _, ff := range []wire.Format{wire.Proto, wire.JSON} {
			ser := sim.Serializer(ff)
			probe := func(parser string, fn func() error) {
				var err error
				if pn := rt.Try(func() { err = fn() }); pn != "" {
					c.Logf("input %x", in)
					c.Fail("panic:"+parser, "%s input (%d bytes) crashed %s: %s", how, len(in), parser, pn)
				}
				if err != nil {
					c.Count("rejected", 1)
				} else {
					c.Count("parsed", 1)
				}
				c.Sig(parser, ff, how, b.St.Mode, err)
			}
			cp := func() []byte { return append(make([]byte, 0, len(in)), in...) }
			probe("session message", func() error { return p19Signal(ser, b, cp(), pick(c, aAddr, stranger), ff == f) })
			probe("opening message", func() error { return p19PreKey(ser, b, cp(), pick(c, aAddr, stranger), ff == f) })
			probe("group message", func() error {
				return p19Group(ser, b, cp(), pick(c, name, nameOf("team", stranger), nameOf("none", aAddr)), ff == f)
			})
			probe("distribution message", func() error { return p19Dist(ser, b, cp(), nameOf("evil", stranger), ff == f) })
		}
	}
	for k := 0; k < 60; k++ {
		it := corpus[r.Intn(len(corpus))]
		in, how := hostile(c, f, it.b)
		if r.Intn(3) == 0 { // well-formed but changed
			switch it.kind {
			case 0:
				m, err := wire.DecodeSignal(f, it.b)
				c.NoErr(err, "decode")
				x, h := mutateInner(c, f, m, m)
				in, how = x.Encode(f), h
			case 2:
				m, err := wire.DecodeSenderKey(f, it.b)
				c.NoErr(err, "decode")
				x, h := mutateGroup(c, f, m, m)
				in, how = x.Encode(f), h
			case 3:
				m, err := wire.DecodeDist(f, it.b)
				c.NoErr(err, "decode")
				switch r.Intn(4) {
				case 0:
					m.ChainKey = resize(c, m.ChainKey)
				case 1:
					m.SigningKey = append([]byte{5}, lowOrder[r.Intn(len(lowOrder))]...)
				case 2:
					m.Iter = r.Uint32()
				default:
					m.ChainKey = nil
				}
				in, how = m.Encode(f), "distribution-changed"
			}
		}
		feed(in, fmt.Sprintf("%s of kind %d", how, it.kind))
		if r.Intn(6) == 0 {
			feed(it.b, fmt.Sprintf("genuine of kind %d", it.kind))
		}
		if it.kind == 1 && r.Intn(2) == 0 { // a hostile payload inside a good wrapper
			p, err := wire.DecodePreKey(f, it.b)
			c.NoErr(err, "decode")
			p.Message, how = hostile(c, f, p.Message)
			feed(p.Encode(f), "wrapped "+how)
		}
		// Arbitrary bytes as a public key.
		pb := randBytes(c, r.Intn(40))
		if len(pb) > 0 && r.Intn(2) == 0 {
			pb[0] = 5
		}
		off := pick(c, 0, 0, 0, 1, len(pb), len(pb)-33, len(pb)+1, -1)
		var pt ecc.ECPublicKeyable
		var perr error
		if pn := rt.Try(func() { pt, perr = ecc.DecodePoint(pb, off) }); pn != "" {
			c.Fail("panic:point", "decoding %d bytes at offset %d as a public key: %s", len(pb), off, pn)
		}
		ok := off >= 0 && off <= len(pb) && len(pb)-off >= 33 && pb[off] == 5
		c.Must((perr == nil) == ok, "point-verdict", "decoding %x at offset %d as a public key: %v", pb, off, perr)
		if ok {
			c.Must(string(pt.Serialize()) == string(pb[off:off+33]), "point-value", "%x at %d decoded to %x", pb, off, pt.Serialize())
		}
		c.Count("points", 1)
		// Provisioning envelopes.
		p19Provision(c)
	}
	p19Insider(c, f, b)
	for k := 0; k < 6; k++ {
		p19Bundle(c, f, b)
	}
	// The device still works.
	pl := randBytes(c, 20)
	w, _, err := a.Encrypt(bAddr, pl)
	c.NoErr(err, "encrypt-after")
	got, err := b.Decrypt(aAddr, w, false)
	if err != nil || string(got) != string(pl) {
		c.Fail("broken-after", "after hostile input a genuine message is not readable: %v", err)
	}
	g, err := a.GroupEncrypt(name, pl)
	c.NoErr(err, "group-encrypt-after")
	got, err = b.GroupDecrypt(name, g)
	if err != nil || string(got) != string(pl) {
		c.Fail("broken-after", "after hostile input a genuine group message is not readable: %v", err)
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"format": fmt.Sprint(f), "corpus_kinds": "session, opening, group, distribution", "store": b.St.Mode.String()})
	}
}

func p19Signal(ser *serialize.Serializer, u *sim.User, in []byte, from *protocol.SignalAddress, deliver bool) error {
	m, err := protocol.NewSignalMessageFromBytes(in, ser.SignalMessage)
	if err != nil {
		return err
	}
	m.SenderRatchetKey().Serialize()
	m.Counter()
	m.Body()
	m.Serialize()
	m.Structure()
	if deliver {
		_, err = u.Cipher(from).Decrypt(m)
	}
	return err
}

func p19PreKey(ser *serialize.Serializer, u *sim.User, in []byte, from *protocol.SignalAddress, deliver bool) error {
	m, err := protocol.NewPreKeySignalMessageFromBytes(in, ser.PreKeySignalMessage, ser.SignalMessage)
	if err != nil {
		return err
	}
	m.BaseKey().Serialize()
	m.IdentityKey().Serialize()
	m.PreKeyID()
	m.WhisperMessage().Serialize()
	m.Serialize()
	if deliver {
		_, err = u.Cipher(from).DecryptMessage(m)
	}
	return err
}

func p19Group(ser *serialize.Serializer, u *sim.User, in []byte, n *protocol.SenderKeyName, deliver bool) error {
	m, err := protocol.NewSenderKeyMessageFromBytes(in, ser.SenderKeyMessage)
	if err != nil {
		return err
	}
	m.Ciphertext()
	m.Signature()
	m.Serialize()
	m.SignedSerialize()
	if deliver {
		_, err = u.GroupCipher(n).Decrypt(m)
	}
	return err
}

func p19Dist(ser *serialize.Serializer, u *sim.User, in []byte, n *protocol.SenderKeyName, deliver bool) error {
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(in, ser.SenderKeyDistributionMessage)
	if err != nil {
		return err
	}
	m.SignatureKey().Serialize()
	m.Serialize()
	if deliver {
		u.GroupBuilder().Process(n, m)
		_, err = u.GroupEncrypt(n, []byte("x"))
		if err == nil {
			return fmt.Errorf("encrypted under a received chain")
		}
		return nil
	}
	return nil
}

// p19Provision feeds a provisioning envelope that is malformed in some way.
func p19Provision(c *rt.Case) {
	r := c.R
	priv := newRefKey(c)
	var content, how string
	key := base64.StdEncoding.EncodeToString(priv.Priv[:])
	body := randBytes(c, pick(c, 0, 1, 16, 17, 32, 33, 48, 49, 64, 65, 80, 97))
	if len(body) > 0 && r.Intn(3) > 0 {
		body[0] = 1
	}
	var pub any = base64.StdEncoding.EncodeToString(ref.Enc33(newRefKey(c).Pub))
	if r.Intn(3) == 0 {
		pub = base64.StdEncoding.EncodeToString(randBytes(c, r.Intn(40)))
	}
	env := map[string]any{"public_key": pub, "body": base64.StdEncoding.EncodeToString(body)}
	switch r.Intn(7) {
	case 0:
		content, how = string(randBytes(c, r.Intn(60))), "random"
	case 1:
		content, how = base64.StdEncoding.EncodeToString(randBytes(c, r.Intn(60))), "base64"
	case 2:
		delete(env, pick(c, "public_key", "body"))
		how = "field-missing"
	case 3:
		env[pick(c, "public_key", "body")] = pick[any](c, nil, 5, "!!", []any{})
		how = "field-bad"
	case 4:
		key, how = pick(c, "", "!!", base64.StdEncoding.EncodeToString(randBytes(c, r.Intn(40)))), "key-bad"
	case 5:
		content, how = "", "empty"
	default:
		how = "body"
	}
	if content == "" && how != "empty" {
		j, _ := json.Marshal(env)
		content = base64.StdEncoding.EncodeToString(j)
	}
	var err error
	if pn := rt.Try(func() { _, err = provision.Decrypt(key, content) }); pn != "" {
		c.Logf("key %q content %q", key, content)
		c.Fail("panic:provisioning", "a malformed envelope (%s, body of %d bytes) crashed provisioning: %s", how, len(body), pn)
	}
	c.Must(err != nil, "provisioning-accepted", "a malformed envelope (%s) was accepted", how)
	c.Sig("provisioning", how, len(body), err)
	c.Count("provisioning", 1)
}

// p19Bundle processes a bundle with any mixture of parts, from a peer who is
// trusted or not, and then tries to use the session.
func p19Bundle(c *rt.Case, f wire.Format, u *sim.User) {
	r := c.R
	x := sim.NewUser(c, "bundles", uint32(r.Intn(4)), f, sim.Bytes)
	p := x.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
	b := p.Bundle
	pid := pick(c, nil, optional.NewEmptyUint32(), b.PreKeyID(), optional.NewOptionalUint32(0), optional.NewOptionalUint32(^uint32(0)))
	point := func() ecc.ECPublicKeyable {
		switch r.Intn(3) {
		case 0:
			return ecc.NewDjbECPublicKey(arr(lowOrder[r.Intn(len(lowOrder))]))
		case 1:
			return ecc.NewDjbECPublicKey(arr(randBytes(c, 32)))
		}
		return b.SignedPreKey()
	}
	pre := pick(c, nil, b.PreKey(), b.PreKey(), point())
	sp, sig := pick(c, nil, b.SignedPreKey(), b.SignedPreKey(), point()), b.SignedPreKeySignature()
	switch r.Intn(4) {
	case 0:
		sig = [64]byte{}
	case 1:
		copy(sig[:], randBytes(c, 64))
	default:
		if sp != nil {
			sig = ecc.CalculateSignature(x.ID.PrivateKey(), sp.Serialize())
		}
	}
	id := b.IdentityKey()
	if r.Intn(4) == 0 {
		id = identity.NewKey(point())
	}
	made := prekey.NewBundle(b.RegistrationID(), uint32(r.Intn(3)), pid, b.SignedPreKeyID(), pre, sp, sig, id)
	trusted := r.Intn(3) > 0
	old := u.St.Policy
	u.St.Policy = func(string, []byte) bool { return trusted }
	defer func() { u.St.Policy = old }()
	what := fmt.Sprintf("a bundle with prekey ID %v, prekey %t, signed prekey %t, trusted %t", pid, pre != nil, sp != nil, trusted)
	var err error
	if pn := rt.Try(func() { err = u.Builder(x.Addr()).ProcessBundle(made) }); pn != "" {
		c.Fail("panic:bundle", "%s: %s", what, pn)
	}
	c.Must(trusted && sp != nil || err != nil, "bundle-accepted", "%s was accepted", what)
	var w []byte
	var pk bool
	if pn := rt.Try(func() { w, pk, err = u.Encrypt(x.Addr(), []byte("x")) }); pn != "" {
		c.Fail("panic:bundle-encrypt", "%s: %s", what, pn)
	}
	if err == nil {
		if pn := rt.Try(func() { _, err = x.Decrypt(u.Addr(), w, pk) }); pn != "" {
			c.Fail("panic:bundle-decrypt", "%s: %s", what, pn)
		}
	}
	c.Sig("bundle", pid == nil, pre != nil, sp != nil, trusted, err)
	c.Count("bundles", 1)
}

// p19Insider is a peer, and a group member, who authenticates malformed content.
func p19Insider(c *rt.Case, f wire.Format, b *sim.User) {
	r := c.R
	id := newRefKey(c)
	p := b.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
	s := ref.Initiate(f, id, r.Uint32()&0x3fff, toRefBundle(p), func() ref.KeyPair { return newRefKey(c) })
	addr := protoAddr("insider", 3)
	n := nameOf("ring", addr)
	ch := &ref.SenderChain{F: f, ID: r.Uint32(), Iter: pick[uint32](c, 0, 5, 0x7fffffff, 0xfffffffe, 0xffffffff), Chain: randBytes(c, pick(c, 32, 32, 32, 0, 1, 31, 33, 100)), Sign: newRefKey(c)}
	ch.SignPub = ch.Sign.Pub
	if r.Intn(4) == 0 {
		copy(ch.SignPub[:], lowOrder[r.Intn(len(lowOrder))])
	}
	if pn := rt.Try(func() { b.JoinGroup(n, ch.Dist()) }); pn != "" {
		c.Fail("panic:insider-distribution", "%s", pn)
	}
	for k := 0; k < 12; k++ {
		how := ""
		mod := func(iv, key []byte, ct []byte) []byte {
			switch r.Intn(8) {
			case 0:
				how = "ciphertext-empty"
				return []byte{}
			case 1:
				how = "ciphertext-partial-block"
				return randBytes(c, 1+r.Intn(60))
			case 2:
				how = "padding-zero"
				return ref.CBCRaw(iv, key, make([]byte, 16*(1+r.Intn(3))))
			case 3:
				how = "padding-over"
				x := randBytes(c, 16*(1+r.Intn(3)))
				x[len(x)-1] = byte(17 + r.Intn(239))
				return ref.CBCRaw(iv, key, x)
			case 4:
				how = "padding-inconsistent"
				x := make([]byte, 16)
				x[15] = byte(2 + r.Intn(15))
				return ref.CBCRaw(iv, key, x)
			case 5:
				how = "garbage"
				return randBytes(c, 16*(1+r.Intn(4)))
			case 6:
				how = "padding-full"
				x := make([]byte, 16)
				for i := range x {
					x[i] = 16
				}
				return ref.CBCRaw(iv, key, x)
			default:
				how = "good"
				return ct
			}
		}
		w, pk := s.Craft(randPlain(c), func(m *wire.Signal, mk ref.MsgKeys) {
			m.Ct = mod(mk.IV, mk.Cipher, m.Ct)
			switch r.Intn(6) {
			case 0:
				m.Prev = r.Uint32()
			case 1:
				m.Counter = pick[uint32](c, 0xffffffff, 5001, 0x80000000)
			}
		})
		if pk && r.Intn(3) == 0 {
			x, _ := wire.DecodePreKey(f, w)
			switch r.Intn(3) {
			case 0:
				x.BaseKey = append([]byte{5}, lowOrder[r.Intn(len(lowOrder))]...)
			case 1:
				x.Identity = append([]byte{5}, lowOrder[r.Intn(len(lowOrder))]...)
			default:
				x.SignedID = r.Uint32()
			}
			w = x.Encode(f)
		}
		var err error
		if pn := rt.Try(func() { _, err = b.Decrypt(addr, w, pk) }); pn != "" {
			c.Fail("panic:insider-"+how, "an authenticated message with malformed content (%s): %s", how, pn)
		}
		c.Sig("insider", how, f, b.St.Mode, err)
		var rnd [64]byte
		r.Read(rnd[:])
		g := ch.Craft(randPlain(c), rnd, func(m *wire.SenderKey, iv, key []byte) { m.Ct = mod(iv, key, m.Ct) })
		if pn := rt.Try(func() { _, err = b.GroupDecrypt(n, g) }); pn != "" {
			c.Fail("panic:insider-group-"+how, "a signed group message with malformed content (%s): %s", how, pn)
		}
		c.Sig("insider-group", how, f, b.St.Mode, err)
		c.Count("insider_messages", 2)
	}
}
