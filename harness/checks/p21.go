package checks

import (
	"bytes"
	"encoding/json"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P21",
		Rule: "one case makes messages and key records of every kind with random and extreme field values in both formats; the library's bytes must be exactly those of an independent codec, both must read back every field from the other's bytes, fields in other orders and unknown fields must be tolerated, and unsupported versions and incomplete messages refused. " +
			"Every eighth case has a peer authenticate messages of an older version than its session's. Distinct by message kind, format, field value classes and kind of test",
		Cases: tiered(4000, 120000),
		Run:   runP21,
		Need:  map[string]int64{"messages": 15000, "read_back": 30000, "versions": 20000, "incomplete": 10000, "permuted": 4000, "malformed": 30000, "records": 8000, "record_texts": 16000, "downgrades": 800},
	})
}

func edgeU32(c *rt.Case) uint32 {
	if c.R.Intn(2) == 0 {
		return pick[uint32](c, 0, 1, 127, 128, 255, 256, 16383, 16384, 0xFFFFFF, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff)
	}
	return c.R.Uint32()
}

func class(n uint32) int {
	k := 0
	for n > 0 {
		n >>= 4
		k++
	}
	return k
}

// permute rewrites a protobuf message's fields in another order with unknown ones mixed in.
func permute(c *rt.Case, body []byte) []byte {
	fs, err := wire.Parse(body)
	c.NoErr(err, "parse")
	var out []byte
	junk := func() {
		if c.R.Intn(2) == 0 {
			return
		}
		switch c.R.Intn(2) {
		case 0:
			out = wire.V(out, 20+c.R.Intn(30), uint64(c.R.Uint32()))
		default:
			out = wire.B(out, 20+c.R.Intn(30), randBytes(c, c.R.Intn(9)))
		}
	}
	for _, i := range c.R.Perm(len(fs)) {
		junk()
		f := fs[i]
		if f.Wire == 0 {
			if c.R.Intn(4) == 0 { // the last occurrence counts
				out = wire.V(out, f.Num, uint64(c.R.Uint32()))
			}
			out = wire.V(out, f.Num, f.U)
		} else {
			if c.R.Intn(4) == 0 {
				out = wire.B(out, f.Num, randBytes(c, 33))
			}
			out = wire.B(out, f.Num, f.B)
		}
	}
	junk()
	return out
}

func runP21(c *rt.Case) {
	if c.Idx%8 == 6 {
		p21Downgrade(c)
	}
	r := c.R
	f := format(c)
	ser := sim.Serializer(f)
	key := func() (ecc.ECPublicKeyable, []byte) {
		k := newRefKey(c)
		return ecc.NewDjbECPublicKey(k.Pub), ref.Enc33(k.Pub)
	}
	body := func() []byte { return randBytes(c, pick(c, 0, 1, 16, 32, 127, 128, 129, 300)) }
	// Session message.
	rk, rkb := key()
	i1, i1b := key()
	i2, i2b := key()
	want := &wire.Signal{Version: 3, Ratchet: rkb, Counter: edgeU32(c), Prev: edgeU32(c), Ct: body()}
	mk := randBytes(c, 32)
	want.Mac = ref.HMAC(mk, append(append(append([]byte{}, i1b...), i2b...), want.MacInput(f)...))[:8]
	id1, id2 := identity.NewKey(i1), identity.NewKey(i2)
	sm, err := protocol.NewSignalMessage(3, want.Counter, want.Prev, append([]byte{}, mk...), rk, append([]byte{}, want.Ct...), id1, id2, ser.SignalMessage)
	c.NoErr(err, "new-session-message")
	c.Must(bytes.Equal(sm.Serialize(), want.Encode(f)), "bytes:session", "session message bytes\n%x\nwant\n%x", sm.Serialize(), want.Encode(f))
	checkSignal := func(b []byte, how string) {
		m, err := protocol.NewSignalMessageFromBytes(append([]byte{}, b...), ser.SignalMessage)
		c.NoErr(err, "read:session:"+how)
		s := m.Structure()
		c.Must(m.MessageVersion() == 3 && m.Counter() == want.Counter && s.PreviousCounter == want.Prev && bytes.Equal(m.Body(), want.Ct) && bytes.Equal(s.Mac, want.Mac) && bytes.Equal(m.SenderRatchetKey().Serialize(), rkb) && m.Type() == 2,
			"fields:session:"+how, "read %+v from %x", s, b)
		c.NoErr(m.VerifyMac(3, id1, id2, append([]byte{}, mk...)), "mac:session:"+how)
		c.Must(m.VerifyMac(3, id2, id1, mk) != nil || bytes.Equal(i1b, i2b), "mac-swapped", "the MAC does not bind the order of the identities")
		c.Must(m.VerifyMac(3, id1, id1, mk) != nil, "mac-receiver", "the MAC does not bind the receiver's identity")
		c.Must(m.VerifyMac(3, id2, id2, mk) != nil, "mac-sender", "the MAC does not bind the sender's identity")
		c.Must(m.VerifyMac(3, id1, id2, flip(c, mk)) != nil, "mac-key", "the MAC does not depend on its key")
		c.Must(bytes.Equal(m.Serialize(), want.Encode(f)), "again:session:"+how, "a message that was read is written differently: %x", m.Serialize())
		c.Count("read_back", 1)
	}
	checkSignal(want.Encode(f), "codec")
	checkSignal(sm.Serialize(), "own")
	back, err := wire.DecodeSignal(f, sm.Serialize())
	c.Must(err == nil && sameInner(back, want), "codec:session", "%+v", back)
	c.Sig("session", f, class(want.Counter), class(want.Prev), len(want.Ct))
	// Opening message.
	bk, bkb := key()
	pw := &wire.PreKey{Version: 3, RegID: edgeU32(c), HasPreKey: r.Intn(3) > 0, SignedID: edgeU32(c), BaseKey: bkb, Identity: i1b, Message: sm.Serialize()}
	oid := optional.NewEmptyUint32()
	if pw.HasPreKey {
		pw.PreKeyID = edgeU32(c)
		oid = optional.NewOptionalUint32(pw.PreKeyID)
	}
	pm, err := protocol.NewPreKeySignalMessage(3, pw.RegID, oid, pw.SignedID, bk, id1, sm, ser.PreKeySignalMessage, ser.SignalMessage)
	c.NoErr(err, "new-opening-message")
	c.Must(bytes.Equal(pm.Serialize(), pw.Encode(f)), "bytes:opening", "opening message bytes\n%x\nwant\n%x", pm.Serialize(), pw.Encode(f))
	checkPre := func(b []byte, how string) {
		m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, b...), ser.PreKeySignalMessage, ser.SignalMessage)
		c.NoErr(err, "read:opening:"+how)
		id := m.PreKeyID()
		has := id != nil && !id.IsEmpty
		c.Must(m.MessageVersion() == 3 && m.RegistrationID() == pw.RegID && has == pw.HasPreKey && (!has || id.Value == pw.PreKeyID) && m.SignedPreKeyID() == pw.SignedID && bytes.Equal(m.BaseKey().Serialize(), bkb) &&
			bytes.Equal(m.IdentityKey().Serialize(), i1b) && bytes.Equal(m.WhisperMessage().Serialize(), pw.Message) && m.Type() == 3, "fields:opening:"+how, "read %+v from %x, want %+v", m, b, pw)
		c.Must(bytes.Equal(m.Serialize(), pw.Encode(f)), "again:opening:"+how, "")
		c.Count("read_back", 1)
	}
	checkPre(pw.Encode(f), "codec")
	checkPre(pm.Serialize(), "own")
	c.Sig("opening", f, pw.HasPreKey, class(pw.PreKeyID), class(pw.SignedID), class(pw.RegID))
	// Group message.
	sk := newRefKey(c)
	gw := &wire.SenderKey{Version: 3, ID: edgeU32(c), Iter: edgeU32(c), Ct: body()}
	gm := protocol.NewSenderKeyMessage(gw.ID, gw.Iter, append([]byte{}, gw.Ct...), ecc.NewDjbECPrivateKey(sk.Priv), ser.SenderKeyMessage)
	sig := gm.Signature()
	gw.Signature = sig[:]
	c.Must(ref.Verify(sk.Pub, gw.SignInput(f), sig[:]), "signature:group", "the signature of a group message does not cover the message as specified")
	c.Must(bytes.Equal(gm.SignedSerialize(), gw.Encode(f)), "bytes:group", "group message bytes\n%x\nwant\n%x", gm.SignedSerialize(), gw.Encode(f))
	checkGroup := func(b []byte, how string) {
		m, err := protocol.NewSenderKeyMessageFromBytes(append([]byte{}, b...), ser.SenderKeyMessage)
		c.NoErr(err, "read:group:"+how)
		s := m.Signature()
		c.Must(m.KeyID() == gw.ID && m.Iteration() == gw.Iter && m.Version() == 3 && bytes.Equal(m.Ciphertext(), gw.Ct) && bytes.Equal(s[:], gw.Signature) && m.Type() == 4, "fields:group:"+how, "read %+v from %x", m, b)
		c.Must(bytes.Equal(m.SignedSerialize(), gw.Encode(f)) && bytes.Equal(m.Serialize(), gw.SignInput(f)), "again:group:"+how, "")
		c.Count("read_back", 1)
	}
	checkGroup(gw.Encode(f), "codec")
	checkGroup(gm.SignedSerialize(), "own")
	c.Sig("group", f, class(gw.ID), class(gw.Iter), len(gw.Ct))
	// Distribution message.
	dk, dkb := key()
	dw := &wire.Dist{Version: 3, ID: edgeU32(c), Iter: edgeU32(c), ChainKey: randBytes(c, 32), SigningKey: dkb}
	dm := protocol.NewSenderKeyDistributionMessage(dw.ID, dw.Iter, append([]byte{}, dw.ChainKey...), dk, ser.SenderKeyDistributionMessage)
	c.Must(bytes.Equal(dm.Serialize(), dw.Encode(f)), "bytes:distribution", "distribution message bytes\n%x\nwant\n%x", dm.Serialize(), dw.Encode(f))
	checkDist := func(b []byte, how string) {
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, b...), ser.SenderKeyDistributionMessage)
		c.NoErr(err, "read:distribution:"+how)
		c.Must(m.ID() == dw.ID && m.Iteration() == dw.Iter && bytes.Equal(m.ChainKey(), dw.ChainKey) && bytes.Equal(m.SignatureKey().Serialize(), dkb) && m.Type() == 5, "fields:distribution:"+how, "read %+v from %x", m, b)
		c.Must(bytes.Equal(m.Serialize(), dw.Encode(f)), "again:distribution:"+how, "")
		c.Count("read_back", 1)
	}
	checkDist(dw.Encode(f), "codec")
	checkDist(dm.Serialize(), "own")
	c.Sig("distribution", f, class(dw.ID), class(dw.Iter))
	c.Count("messages", 4)
	if f == wire.Proto {
		w := want.Encode(f)
		checkSignal(append(append([]byte{w[0]}, permute(c, w[1:len(w)-8])...), w[len(w)-8:]...), "permuted")
		w = pw.Encode(f)
		checkPre(append([]byte{w[0]}, permute(c, w[1:])...), "permuted")
		w = gw.Encode(f)
		checkGroup(append(append([]byte{w[0]}, permute(c, w[1:len(w)-64])...), w[len(w)-64:]...), "permuted")
		w = dw.Encode(f)
		checkDist(append([]byte{w[0]}, permute(c, w[1:])...), "permuted")
		c.Count("permuted", 4)
	}
	p21Refused(c, f, want, pw, gw, dw)
	p21Records(c, f)
	if c.Idx < 2 {
		c.Sample(map[string]any{"session": fmt.Sprintf("%x", want.Encode(f)), "group": fmt.Sprintf("%x", gw.Encode(f)), "distribution": fmt.Sprintf("%x", dw.Encode(f))})
	}
}

// p21Refused checks that unsupported versions and incomplete messages are refused.
func p21Refused(c *rt.Case, f wire.Format, sm *wire.Signal, pm *wire.PreKey, gm *wire.SenderKey, dm *wire.Dist) {
	ser := sim.Serializer(f)
	parse := []struct {
		name string
		fn   func([]byte) error
		b    []byte
		tail int
		need []int // fields
		keys []string
	}{
		{"session", func(b []byte) error { _, err := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage); return err }, sm.Encode(f), 8, []int{1, 4}, []string{"RatchetKey", "CipherText"}},
		{"opening", func(b []byte) error {
			_, err := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage)
			return err
		}, pm.Encode(f), 0, []int{2, 3, 4}, []string{"BaseKey", "IdentityKey", "Message"}},
		{"group", func(b []byte) error {
			_, err := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
			return err
		}, gm.Encode(f), 64, []int{3}, []string{"CipherText"}},
		{"distribution", func(b []byte) error {
			_, err := protocol.NewSenderKeyDistributionMessageFromBytes(b, ser.SenderKeyDistributionMessage)
			return err
		}, dm.Encode(f), 0, []int{3, 4}, []string{"ChainKey", "SigningKey"}},
	}
	p := parse[c.R.Intn(len(parse))]
	if f == wire.Proto {
		for v := 0; v < 16; v++ {
			b := append([]byte{}, p.b...)
			b[0] = byte(v<<4) | b[0]&15
			err := p.fn(b)
			c.Must((err == nil) == (v == 2 || v == 3), "version:"+p.name, "a %s message of version %d: %v", p.name, v, err)
		}
		c.Count("versions", 16)
		body := p.b[1 : len(p.b)-p.tail]
		fs, err := wire.Parse(body)
		c.NoErr(err, "parse")
		for _, n := range p.need {
			out := []byte{p.b[0]}
			for _, x := range fs {
				if x.Num == n {
					continue
				}
				if x.Wire == 0 {
					out = wire.V(out, x.Num, x.U)
				} else {
					out = wire.B(out, x.Num, x.B)
				}
			}
			out = append(out, p.b[len(p.b)-p.tail:]...)
			c.Must(p.fn(out) != nil, "incomplete:"+p.name, "a %s message without field %d is accepted", p.name, n)
			c.Count("incomplete", 1)
		}
		// Bodies that are no encoding at all are refused, wherever the damage is and whatever was read before it.
		frame := func(x []byte) []byte {
			return append(append([]byte{p.b[0]}, x...), p.b[len(p.b)-p.tail:]...)
		}
		for _, bad := range [][]byte{
			{byte(pick(c, 20, 1, 2, 4, 15)<<3 | pick(c, 6, 7))},
			{byte(pick(c, 0, 2)), 0},
			bytes.Repeat([]byte{0xff}, 11),
			wire.B(nil, 15, randBytes(c, 20))[:2+c.R.Intn(15)],
			{15<<3 | 2, 0xff, 0xff, 0xff, 0xff, 0x0f},
			{15<<3 | 2, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
			{15 << 3, 0x80},
			{15<<3 | 5, 1, 2, 3},
			{15<<3 | 1, 1, 2, 3},
		} {
			out := frame(append(append([]byte{}, body...), bad...))
			c.Must(p.fn(out) != nil, "malformed:"+p.name, "a %s message whose fields are followed by %x is accepted", p.name, bad)
			c.Count("malformed", 1)
		}
		at := 1 + c.R.Intn(len(body)-1)
		if _, err := wire.Parse(body[:at]); err != nil {
			c.Must(p.fn(frame(append([]byte{}, body[:at]...))) != nil, "malformed:"+p.name, "a %s message cut within a field, at %d of %d, is accepted", p.name, at, len(body))
			c.Count("malformed", 1)
		}
		for i := 0; i < p.tail+1; i += 1 + c.R.Intn(4) {
			c.Must(p.fn(append([]byte{}, p.b[:i]...)) != nil, "short:"+p.name, "%d bytes are accepted as a %s message", i, p.name)
			c.Count("incomplete", 1)
		}
	} else {
		var m map[string]any
		d := json.NewDecoder(bytes.NewReader(p.b))
		d.UseNumber()
		c.NoErr(d.Decode(&m), "json")
		enc := func() []byte { b, _ := json.Marshal(m); return b }
		v0 := m["Version"]
		for _, v := range []int64{0, 1, 2, 3, 4, 5, 15, 16, 255, 1 << 20, 1<<31 - 1} {
			m["Version"] = v
			err := p.fn(enc())
			c.Must((err == nil) == (v == 2 || v == 3), "version:"+p.name, "a %s message of version %d: %v", p.name, v, err)
			c.Count("versions", 1)
		}
		m["Version"] = -1
		c.Must(p.fn(enc()) != nil, "version:"+p.name, "a %s message of version -1 is accepted", p.name)
		delete(m, "Version")
		c.Must(p.fn(enc()) != nil, "version:"+p.name, "a %s message without version is accepted", p.name)
		m["Version"] = v0
		for _, k := range p.keys {
			o := m[k]
			delete(m, k)
			c.Must(p.fn(enc()) != nil, "incomplete:"+p.name, "a %s message without %s is accepted", p.name, k)
			m[k] = nil
			c.Must(p.fn(enc()) != nil, "incomplete:"+p.name, "a %s message with null %s is accepted", p.name, k)
			m[k] = o
			c.Count("incomplete", 2)
		}
		whole := enc()
		for _, bad := range [][]byte{
			append(append([]byte{}, whole...), pick(c, "x", "{}", "}", ",", "0", "\x00")...),
			append([]byte(pick(c, "x", "{}", "{", "[", ",", "\x00")), whole...),
			whole[:c.R.Intn(len(whole))],
			[]byte("[" + string(whole) + "]"),
			[]byte("null"),
			[]byte(fmt.Sprintf("%q", whole)),
		} {
			c.Must(p.fn(bad) != nil, "malformed:"+p.name, "%q is accepted as a %s message", bad, p.name)
			c.Count("malformed", 1)
		}
		m["Unknown"] = []any{1, "x"}
		c.NoErr(p.fn(enc()), "unknown-field:"+p.name)
	}
	c.Sig("refused", p.name, f)
	// Public keys of another type are refused wherever they occur.
	bad := func(k []byte) []byte {
		return append([]byte{byte(pick(c, 0, 1, 2, 3, 4, 6, 7, 0x85, 255))}, k[1:]...)
	}
	x, y, z := *sm, *pm, *dm
	x.Ratchet = bad(x.Ratchet)
	_, err := protocol.NewSignalMessageFromBytes(x.Encode(f), ser.SignalMessage)
	c.Must(err != nil, "key-type:session", "a ratchet key of type %d is accepted", x.Ratchet[0])
	if c.R.Intn(2) == 0 {
		y.BaseKey = bad(y.BaseKey)
	} else {
		y.Identity = bad(y.Identity)
	}
	_, err = protocol.NewPreKeySignalMessageFromBytes(y.Encode(f), ser.PreKeySignalMessage, ser.SignalMessage)
	c.Must(err != nil, "key-type:opening", "a key of another type is accepted")
	z.SigningKey = bad(z.SigningKey)
	_, err = protocol.NewSenderKeyDistributionMessageFromBytes(z.Encode(f), ser.SenderKeyDistributionMessage)
	c.Must(err != nil, "key-type:distribution", "a signing key of type %d is accepted", z.SigningKey[0])
	// Keys cut short are refused.
	x, z = *sm, *dm
	x.Ratchet = x.Ratchet[:c.R.Intn(33)]
	_, err = protocol.NewSignalMessageFromBytes(x.Encode(f), ser.SignalMessage)
	c.Must(err != nil, "key-short:session", "a ratchet key of %d bytes is accepted", len(x.Ratchet))
	z.SigningKey = z.SigningKey[:c.R.Intn(33)]
	_, err = protocol.NewSenderKeyDistributionMessageFromBytes(z.Encode(f), ser.SenderKeyDistributionMessage)
	c.Must(err != nil, "key-short:distribution", "a signing key of %d bytes is accepted", len(z.SigningKey))
}

// p21Records checks that key records survive storage with any field values.
func p21Records(c *rt.Case, f wire.Format) {
	ser := sim.Serializer(f)
	k := newRefKey(c)
	// Keys decode from anywhere in a text, whatever comes before and after them.
	off := pick(c, 0, 0, 1, c.R.Intn(40))
	text := append(append(randBytes(c, off), ref.Enc33(k.Pub)...), randBytes(c, pick(c, 0, 1, c.R.Intn(40)))...)
	if pt, err := ecc.DecodePoint(append([]byte{}, text...), off); err == nil {
		c.Must(bytes.Equal(pt.Serialize(), ref.Enc33(k.Pub)), "key-value", "%x at %d decoded to %x", text, off, pt.Serialize())
	} else {
		c.Must(len(text) > off+33, "key-refused", "%x at %d: %v", text, off, err)
	}
	if cut := c.R.Intn(33); len(text) > 0 {
		_, err := ecc.DecodePoint(append([]byte{}, text[:off+cut]...), off)
		c.Must(err != nil, "key-short", "%x at %d was accepted", text[:off+cut], off)
		text[off] ^= byte(1 + c.R.Intn(255))
		_, err = ecc.DecodePoint(text, off)
		c.Must(err != nil, "key-type", "%x at %d was accepted", text, off)
	}
	c.Count("keys_decoded", 1)
	kp := ecc.NewECKeyPair(ecc.NewDjbECPublicKey(k.Pub), ecc.NewDjbECPrivateKey(k.Priv))
	id := edgeU32(c)
	pk := record.NewPreKey(id, kp, ser.PreKeyRecord)
	for i := 0; i < 2; i++ {
		c.Must(pk.ID() != nil && !pk.ID().IsEmpty && pk.ID().Value == id && pk.KeyPair().PublicKey().PublicKey() == k.Pub && pk.KeyPair().PrivateKey().Serialize() == k.Priv, "record:prekey", "prekey %d differs after %d reloads", id, i)
		b := pk.Serialize()
		recordText(c, "prekey", b, map[string]any{"ID": id, "PublicKey": ref.Enc33(k.Pub), "PrivateKey": k.Priv[:]})
		var err error
		pk, err = record.NewPreKeyFromBytes(append([]byte{}, b...), ser.PreKeyRecord)
		c.NoErr(err, "record:prekey")
		c.Must(bytes.Equal(pk.Serialize(), b), "record-bytes:prekey", "")
	}
	var sig [64]byte
	copy(sig[:], randBytes(c, 64))
	ts := pick[int64](c, 0, 1, -1, 1<<53, 1<<62, 1700000000000, int64(c.R.Uint64()))
	sp := record.NewSignedPreKey(id, ts, kp, sig, ser.SignedPreKeyRecord)
	for i := 0; i < 2; i++ {
		c.Must(sp.ID() == id && sp.Timestamp() == ts && sp.Signature() == sig && sp.KeyPair().PublicKey().PublicKey() == k.Pub && sp.KeyPair().PrivateKey().Serialize() == k.Priv, "record:signed-prekey", "signed prekey %d of %d differs after %d reloads", id, ts, i)
		b := sp.Serialize()
		recordText(c, "signed-prekey", b, map[string]any{"ID": id, "PublicKey": ref.Enc33(k.Pub), "PrivateKey": k.Priv[:], "Signature": sig[:], "Timestamp": ts})
		var err error
		sp, err = record.NewSignedPreKeyFromBytes(append([]byte{}, b...), ser.SignedPreKeyRecord)
		c.NoErr(err, "record:signed-prekey")
		c.Must(bytes.Equal(sp.Serialize(), b), "record-bytes:signed-prekey", "")
	}
	c.Count("records", 2)
	c.Sig("records", class(id), ts)
}

// recordText checks a record's text: compact JSON of exactly these fields.
func recordText(c *rt.Case, what string, b []byte, fields map[string]any) {
	var doc map[string]json.RawMessage
	c.Must(json.Unmarshal(b, &doc) == nil, "record-json:"+what, "a stored %s is not a JSON object: %q", what, clip(b))
	var short bytes.Buffer
	c.NoErr(json.Compact(&short, b), "compact")
	c.Must(bytes.Equal(short.Bytes(), b), "record-text:"+what, "a stored %s has more than its fields: %q", what, clip(b))
	c.Must(len(doc) == len(fields), "record-fields:"+what, "a stored %s has %d fields, not %d", what, len(doc), len(fields))
	for n, v := range fields {
		e, _ := json.Marshal(v)
		c.Must(bytes.Equal(doc[n], e), "record-field:"+what, "%s of a stored %s is %s, not %s", n, what, doc[n], e)
	}
	c.Count("record_texts", 1)
}
