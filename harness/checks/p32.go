package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/ref"
	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P32",
		Rule: "one case runs sessions, groups, parsers, record loaders and cryptographic helpers with every input in a buffer that lies inside a larger one filled with a pattern; after each call the input and its surroundings must be as they were, and after the caller overwrites all its buffers, inputs and returned bytes alike, stored records, parsed messages, keys and other results must be as they were. Saved message keys are used many times on genuine messages. " +
			"Distinct by operation, kind of store, format and length class",
		Cases: tiered(300, 6000),
		Run:   runP32,
		Need:  map[string]int64{"calls": 30000, "scribbled": 8000, "saved_keys_used": 6000, "keys_scribbled": 700, "late": 400, "keys_overwritten": 20000, "objects": 8000},
	})
}

// lend is the caller's memory: pieces of larger buffers.
type lend struct {
	c    *rt.Case
	bufs []lent
}

type lent struct {
	whole, want []byte
	name        string
}

// in lends a copy of b with something before and behind it.
func (l *lend) in(name string, b []byte) []byte {
	pre, post := l.c.R.Intn(40), 16+l.c.R.Intn(80)
	w := make([]byte, pre+len(b)+post)
	for i := range w {
		w[i] = byte(0xA5 ^ i)
	}
	copy(w[pre:], b)
	l.bufs = append(l.bufs, lent{w, append([]byte{}, w...), name})
	return w[pre : pre+len(b)]
}

// check fails when anything lent has changed.
func (l *lend) check(op string) {
	for _, b := range l.bufs {
		if !bytes.Equal(b.whole, b.want) {
			l.c.Fail("caller-data:"+op+":"+b.name, "%s changed its caller's memory around the %s: was %x, is %x", op, b.name, clip(b.want), clip(b.whole))
		}
	}
	l.c.Count("calls", 1)
}

// out remembers bytes a call returned; they belong to the caller now.
func (l *lend) out(b []byte) []byte {
	l.bufs = append(l.bufs, lent{b, append([]byte{}, b...), "returned bytes"})
	return append([]byte{}, b...)
}

// scribble overwrites everything lent or returned.
func (l *lend) scribble() {
	for _, b := range l.bufs {
		for i := range b.whole {
			b.whole[i] ^= 0x5A
		}
	}
	l.bufs = nil
	l.c.Count("scribbled", 1)
}

// ownKeys has the caller overwrite the bytes got from public keys.
func ownKeys(c *rt.Case, where string, ks ...interface{ Serialize() []byte }) {
	for i, k := range ks {
		if k == nil || reflect.ValueOf(k).IsNil() {
			continue
		}
		b := k.Serialize()
		want := append([]byte{}, b...)
		for j := range b {
			b[j] ^= 0x5A
		}
		c.Must(bytes.Equal(k.Serialize(), want), "object:key:"+where, "public key %d of %s changed when the caller overwrote the bytes got from it", i, where)
		c.Count("keys_overwritten", 1)
	}
}

func runP32(c *rt.Case) {
	switch c.Idx % 3 {
	case 0, 1:
		p32Sessions(c)
	default:
		p32Helpers(c)
	}
}

func p32Sessions(c *rt.Case) {
	r := c.R
	f := format(c)
	us := []*sim.User{sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3))), sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))}
	pub := us[1].Publish(c, pick(c, sim.OneTime, sim.NoPreKey))
	ownKeys(c, "bundle", pub.Bundle.PreKey(), pub.Bundle.SignedPreKey(), pub.Bundle.IdentityKey(), pub.Bundle.IdentityKey().PublicKey())
	c.NoErr(us[0].Initiate(us[1].Addr(), pub), "initiate")
	ownKeys(c, "bundle", pub.Bundle.PreKey(), pub.Bundle.SignedPreKey(), pub.Bundle.IdentityKey(), pub.Bundle.IdentityKey().PublicKey())
	settled := func(op string, l *lend, who ...*sim.User) {
		l.check(op)
		var before []string
		for _, u := range who {
			before = append(before, u.St.Snapshot())
		}
		l.scribble()
		for i, u := range who {
			c.Must(u.St.Snapshot() == before[i], "aliased:"+op, "overwriting the caller's own buffers after %s changed what the device has stored", op)
		}
		c.Sig(op, f, who[0].St.Mode)
	}
	type saved struct {
		m        *protocol.SignalMessage
		plain    []byte
		keys     *message.Keys
		to, from int
		text     string
	}
	keyText := func(k *message.Keys) string {
		return fmt.Sprintf("%x %x %x %d", k.CipherKey(), k.MacKey(), k.Iv(), k.Index())
	}
	var kept []saved
	ready := [2]bool{true, false}
	type sent struct {
		a, k  int
		w, pt []byte
		pre   bool
	}
	var late []sent
	// Receiving: parse from lent memory.
	receive := func(x sent) {
		a, b, w, pt := x.a, 1-x.a, x.w, x.pt
		l := &lend{c: c}
		wb := l.in("message", w)
		cipher := us[b].Cipher(us[a].Addr())
		var got []byte
		var keys *message.Keys
		var inner *protocol.SignalMessage
		if x.pre {
			pm, err := protocol.NewPreKeySignalMessageFromBytes(wb, us[b].Ser.PreKeySignalMessage, us[b].Ser.SignalMessage)
			c.NoErr(err, "parse")
			settled("parse", l, us[b])
			ownKeys(c, "opening message", pm.BaseKey(), pm.IdentityKey(), pm.WhisperMessage().SenderRatchetKey())
			c.Must(bytes.Equal(pm.Serialize(), w), "object:parse", "a parsed message changed when its caller overwrote the bytes it was parsed from")
			got, keys, err = cipher.DecryptMessageReturnKey(pm)
			c.NoErr(err, "decrypt")
			c.Must(bytes.Equal(pm.Serialize(), w), "object:decrypt", "decrypting changed the message")
			inner = pm.WhisperMessage()
		} else {
			sm, err := protocol.NewSignalMessageFromBytes(wb, us[b].Ser.SignalMessage)
			c.NoErr(err, "parse")
			settled("parse", l, us[b])
			ownKeys(c, "message", sm.SenderRatchetKey())
			c.Must(bytes.Equal(sm.Serialize(), w), "object:parse", "a parsed message changed when its caller overwrote the bytes it was parsed from")
			got, keys, err = cipher.DecryptAndGetKey(sm)
			c.NoErr(err, "decrypt")
			c.Must(bytes.Equal(sm.Serialize(), w), "object:decrypt", "decrypting changed the message")
			inner = sm
		}
		c.Count("objects", 1)
		ready[b] = true
		c.Must(bytes.Equal(got, pt), "plaintext", "a message decrypted to something else")
		l.out(got)
		settled("decrypt", l, us[b])
		for i, u := range us { // what a device holds in memory
			rec := u.St.LoadSession(us[1-i].Addr())
			if rec.IsFresh() {
				continue
			}
			st := rec.SessionState()
			before, want := u.St.Snapshot(), string(rec.Serialize())
			ownKeys(c, "session", st.RemoteIdentityKey(), st.LocalIdentityKey(), u.ID.PublicKey(), u.ID.PublicKey().PublicKey())
			if st.HasSenderChain() {
				ownKeys(c, "chain", st.SenderRatchetKey())
			}
			for _, b := range [][]byte{st.SenderBaseKey(), st.Serialize(), rec.Serialize()} {
				for j := range b {
					b[j] ^= 0x5A
				}
			}
			c.Must(string(rec.Serialize()) == want, "object:session", "a session changed when its caller overwrote the bytes got from it")
			c.Must(before == u.St.Snapshot(), "aliased:session", "what a device has stored changed when its caller overwrote the bytes got from a session")
		}
		if r.Intn(4) == 0 { // the keys and the message are the caller's own
			for _, b := range [][]byte{keys.CipherKey(), keys.MacKey(), keys.Iv(), inner.Body()} {
				l.out(b)
			}
			settled("saved-keys", l, us[b])
			c.Count("keys_scribbled", 1)
			return
		}
		c.NoErr(inner.VerifyMac(3, us[a].ID.PublicKey(), us[b].ID.PublicKey(), keys.MacKey()), "saved-key-code", "the key returned with a message does not authenticate it")
		kept = append(kept, saved{inner, pt, keys, b, a, keyText(keys)})
		// Saved keys, any of them, any number of times.
		for j := 0; j < 3; j++ {
			x := kept[r.Intn(len(kept))]
			before := us[x.to].St.Snapshot()
			var log []string
			us[x.to].St.Log = &log
			p, err := us[x.to].Cipher(us[x.from].Addr()).DecryptWithKey(x.m, x.keys)
			us[x.to].St.Log = nil
			c.NoErr(err, "saved-key", "a message could not be decrypted again with its saved key")
			c.Must(bytes.Equal(p, x.plain), "saved-key-plaintext", "a saved message key gave %x instead of %x", clip(p), clip(x.plain))
			c.Must(keyText(x.keys) == x.text, "saved-key-changed", "decrypting with a saved key or other traffic changed the key from %s to %s", x.text, keyText(x.keys))
			c.Must(len(log) == 0 && before == us[x.to].St.Snapshot(), "saved-key-state", "decrypting with a saved key changed stored state: %v", log)
			for i := range p {
				p[i] ^= 0xff
			}
			c.Count("saved_keys_used", 1)
			y := kept[r.Intn(len(kept))]
			if y.m != x.m {
				q, err := us[x.to].Cipher(us[x.from].Addr()).DecryptWithKey(y.m, x.keys)
				c.Must(err != nil || !bytes.Equal(q, y.plain) || len(y.plain) == 0, "saved-key-opens-other", "the saved key of one message decrypts another")
			}
		}
	}
	for k := 0; k < 24; k++ {
		a := r.Intn(2)
		if !ready[a] {
			a = 0
		}
		b := 1 - a
		pt := randPlain(c)
		l := &lend{c: c}
		in := l.in("plaintext", pt)
		m, err := us[a].Cipher(us[b].Addr()).Encrypt(in)
		c.NoErr(err, "encrypt")
		l.check("encrypt")
		w := l.out(m.Serialize())
		c.Must(bytes.Equal(w, m.Serialize()), "unstable:serialize", "serializing a message twice gives different bytes")
		settled("encrypt", l, us[a])
		again := m.Serialize()
		c.Must(bytes.Equal(w, again), "object:encrypt", "a message changed when the caller overwrote the plaintext and the bytes got from it earlier")
		c.Count("objects", 1)
		x := sent{a, k, w, pt, m.Type() == protocol.PREKEY_TYPE}
		if r.Intn(4) == 0 {
			late = append(late, x)
			continue
		}
		receive(x)
		for len(late) > 0 && k-late[0].k > 6 { // its chain may be gone
			late = late[1:]
		}
		if len(late) > 0 && r.Intn(3) == 0 {
			i := r.Intn(len(late))
			x = late[i]
			late = append(late[:i], late[i+1:]...)
			receive(x)
			c.Count("late", 1)
		}
	}
	// Groups.
	n := func() *protocol.SenderKeyName { return nameOf("g", us[0].Addr()) }
	l := &lend{c: c}
	dm, err := us[0].GroupBuilder().Create(n())
	c.NoErr(err, "create")
	d := l.out(dm.Serialize())
	l.out(dm.ChainKey())
	settled("create", l, us[0])
	c.Must(bytes.Equal(dm.Serialize(), d), "object:create", "a distribution message changed with the bytes got from it")
	pd, err := protocol.NewSenderKeyDistributionMessageFromBytes(l.in("distribution", d), us[1].Ser.SenderKeyDistributionMessage)
	c.NoErr(err, "parse-distribution")
	settled("parse-distribution", l, us[1])
	c.Must(bytes.Equal(pd.Serialize(), d), "object:parse-distribution", "a parsed distribution message changed with the bytes it came from")
	ownKeys(c, "distribution message", pd.SignatureKey(), dm.SignatureKey())
	c.Must(bytes.Equal(dm.Serialize(), d) && bytes.Equal(pd.Serialize(), d), "object:key:distribution", "a distribution message changed with the bytes got from its key")
	us[1].GroupBuilder().Process(n(), pd)
	c.Must(bytes.Equal(pd.Serialize(), d), "object:process", "processing changed the distribution message")
	l.out(pd.ChainKey())
	settled("process", l, us[1])
	again, err := us[0].GroupBuilder().Create(n()) // the chain as it is now
	c.NoErr(err, "create")
	c.Must(bytes.Equal(again.Serialize(), d), "described-again", "describing a chain again gave something else")
	l.out(again.ChainKey())
	settled("create-again", l, us[0])
	for k := 0; k < 10; k++ {
		pt := randPlain(c)
		m, err := us[0].GroupCipher(n()).Encrypt(l.in("plaintext", pt))
		c.NoErr(err, "group-encrypt")
		sm := m.(*protocol.SenderKeyMessage)
		l.check("group-encrypt")
		w := l.out(sm.SignedSerialize())
		settled("group-encrypt", l, us[0])
		c.Must(bytes.Equal(w, sm.SignedSerialize()), "object:group-encrypt", "a group message changed when the caller overwrote its buffers")
		if r.Intn(4) == 0 {
			continue
		}
		pm, err := protocol.NewSenderKeyMessageFromBytes(l.in("message", w), us[1].Ser.SenderKeyMessage)
		c.NoErr(err, "group-parse")
		settled("group-parse", l, us[1])
		c.Must(bytes.Equal(w, pm.SignedSerialize()), "object:group-parse", "a parsed group message changed with the bytes it came from")
		got, err := us[1].GroupCipher(n()).Decrypt(pm)
		c.NoErr(err, "group-decrypt")
		c.Must(bytes.Equal(got, pt), "group-plaintext", "a group message decrypted to something else")
		c.Must(bytes.Equal(w, pm.SignedSerialize()), "object:group-decrypt", "decrypting changed the group message")
		l.out(got)
		l.out(pm.Ciphertext())
		settled("group-decrypt", l, us[1])
		c.Count("objects", 2)
	}
	p32Records(c, us)
}

// p32Records loads stored records from lent memory.
func p32Records(c *rt.Case, us []*sim.User) {
	f := us[0].F
	l := &lend{c: c}
	recs := makeRecords(c, f)
	for kind, x := range map[string]string{"session": recs.a.St.Session(recs.b.Addr().String()), "sender-key": recs.a.St.SenderKeyText(nameOf("team", recs.a.Addr()))} {
		in := l.in("record", []byte(x))
		var s interface{ Serialize() []byte }
		var err error
		if kind == "session" {
			s, err = record.NewSessionFromBytes(in, recs.a.Ser.Session, recs.a.Ser.State)
		} else {
			s, err = grecord.NewSenderKeyFromBytes(in, recs.a.Ser.SenderKeyRecord, recs.a.Ser.SenderKeyState)
		}
		c.NoErr(err, "load")
		l.check("load-" + kind)
		l.scribble()
		y := s.Serialize()
		z := l.out(y)
		c.Must(string(z) == x, "object:load-"+kind, "a loaded %s changed when the bytes it came from were overwritten", kind)
		l.scribble()
		c.Must(string(s.Serialize()) == x, "object:serialize-"+kind, "a %s changed when the bytes got from it were overwritten", kind)
		c.Count("objects", 2)
		c.Sig("load", kind, f, c.R.Intn(8))
	}
	for _, u := range us {
		pk := u.AddPreKey(c, 99)
		sp := u.AddSigned(c, 98)
		a, b := pk.Serialize(), sp.Serialize()
		ownKeys(c, "prekeys", pk.KeyPair().PublicKey(), sp.KeyPair().PublicKey())
		c.Must(bytes.Equal(pk.Serialize(), a) && bytes.Equal(sp.Serialize(), b), "object:prekey", "a prekey changed when its caller overwrote the bytes got from its public key")
		pk2, err := record.NewPreKeyFromBytes(l.in("prekey", a), u.Ser.PreKeyRecord)
		c.NoErr(err, "load-prekey")
		sp2, err := record.NewSignedPreKeyFromBytes(l.in("signed prekey", b), u.Ser.SignedPreKeyRecord)
		c.NoErr(err, "load-signed-prekey")
		l.check("load-prekeys")
		l.scribble()
		c.Must(bytes.Equal(pk2.Serialize(), a) && bytes.Equal(sp2.Serialize(), b), "object:load-prekey", "a loaded prekey changed when the bytes it came from were overwritten")
		c.Count("objects", 2)
	}
}

// p32Helpers calls the helpers that take bytes.
func p32Helpers(c *rt.Case) {
	r := c.R
	for k := 0; k < 40; k++ {
		l := &lend{c: c}
		// fixed runs f on lent inputs and again on plain copies: neither the place
		// of the inputs nor overwriting them may matter.
		fixed := func(op string, f func(in func(string, []byte) []byte) [][]byte) {
			plain := f(func(_ string, b []byte) []byte { return append(make([]byte, 0, len(b)), b...) })
			out := f(l.in)
			l.check(op)
			l.scribble()
			c.Must(len(out) == len(plain), "placement:"+op, "%s gives %d results for inputs in larger buffers, %d otherwise", op, len(out), len(plain))
			for i := range out {
				c.Must(bytes.Equal(out[i], plain[i]), "placement:"+op, "result %d of %s depends on the memory around its inputs or on its caller's later use of them", i, op)
			}
			c.Sig(op, len(out))
		}
		iv, key, pt := randBytes(c, 16), randBytes(c, 32), randPlain(c)
		ct := ref.CBCEncrypt(iv, key, pt)
		fixed("aes-encrypt", func(in func(string, []byte) []byte) [][]byte {
			x, err := cipher.Encrypt(in("iv", iv), in("key", key), in("plaintext", pt))
			if err != nil {
				return nil
			}
			return [][]byte{x}
		})
		bad := append([]byte{}, ct...)
		if r.Intn(3) == 0 {
			bad[r.Intn(len(bad))] ^= 1
		}
		fixed("aes-decrypt", func(in func(string, []byte) []byte) [][]byte {
			x, err := cipher.Decrypt(in("iv", iv), in("key", key), in("ciphertext", bad))
			if err != nil {
				return nil
			}
			return [][]byte{x}
		})
		fixed("aes-cbc-encrypt", func(in func(string, []byte) []byte) [][]byte {
			x, err := cipher.EncryptCbc(in("iv", iv), in("key", key), in("plaintext", pt))
			if err != nil {
				return nil
			}
			return [][]byte{x}
		})
		fixed("aes-cbc-decrypt", func(in func(string, []byte) []byte) [][]byte {
			x, err := cipher.DecryptCbc(in("iv", iv), in("key", key), in("ciphertext", bad))
			if err != nil {
				return nil
			}
			return [][]byte{x}
		})
		secret, salt, info := randBytes(c, 32), randBytes(c, pick(c, 0, 32)), randBytes(c, r.Intn(40))
		n := 1 + r.Intn(200)
		fixed("kdf", func(in func(string, []byte) []byte) [][]byte {
			x, err := kdf.DeriveSecrets(in("secret", secret), in("salt", salt), in("info", info), n)
			if err != nil {
				return nil
			}
			return [][]byte{x}
		})
		kp := newRefKey(c)
		msg := randBytes(c, r.Intn(200))
		var rnd [64]byte
		r.Read(rnd[:])
		var sig [64]byte
		copy(sig[:], ref.Sign(kp.Priv, msg, rnd))
		if r.Intn(2) == 0 {
			sig[r.Intn(64)] ^= 1
		}
		fixed("verify", func(in func(string, []byte) []byte) [][]byte {
			if ecc.VerifySignature(ecc.NewDjbECPublicKey(kp.Pub), in("message", msg), sig) {
				return [][]byte{{1}}
			}
			return [][]byte{{0}}
		})
		ent := randBytes(c, 64)
		fixed("sign", func(in func(string, []byte) []byte) (out [][]byte) {
			withReader(&tape{b: ent}, func() {
				s := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), in("message", msg))
				out = [][]byte{s[:]}
			})
			return
		})
		raw := ref.Enc33(kp.Pub)
		var pub ecc.ECPublicKeyable
		fixed("decode-point", func(in func(string, []byte) []byte) [][]byte {
			p, err := ecc.DecodePoint(in("point", raw), 0)
			c.NoErr(err, "decode-point")
			pub = p
			return [][]byte{p.Serialize()}
		})
		gp, err := ecc.GenerateKeyPair()
		c.NoErr(err, "generate")
		ownKeys(c, "helpers", pub, ecc.NewDjbECPublicKey(kp.Pub), gp.PublicKey(), ecc.CreateKeyPair(kp.Priv[:]).PublicKey(), identity.NewKey(pub))
		c.Must(bytes.Equal(pub.Serialize(), raw), "object:decode-point", "a decoded key changed when the bytes it came from were overwritten")
		fixed("key-pair", func(in func(string, []byte) []byte) [][]byte {
			return [][]byte{pairOut(ecc.CreateKeyPair(in("private key", kp.Priv[:])))}
		})
		fa, fb := randBytes(c, 30+r.Intn(10)), randBytes(c, 30+r.Intn(10))
		fixed("fingerprint", func(in func(string, []byte) []byte) [][]byte {
			return [][]byte{[]byte(fingerprint.NewDisplay(in("fingerprint", fa), in("fingerprint", fb)).DisplayText())}
		})
		c.Count("objects", 2)
	}
}
