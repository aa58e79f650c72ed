package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	aescbc "github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() {
	rt.Register(&rt.Check{
		ID:   "P28",
		Race: true,
		Rule: "one case runs in several goroutines at once, in a binary built with the race detector: separate conversations and groups, each judged by an exact receiver model; one device that serves many peers through one thread-safe store; and the stateless helpers and read-only objects shared by all. The first uses of every part of the library in a process fall together. Stores also hold up an operation at a reading or change until other devices have opened sessions, conversed, run a group and used the helpers, which must not wait for it. Any data race report with a library frame, failure or wrong result counts. " +
			"Distinct by the model's verdicts, store kind, workload and number of goroutines",
		Cases: tiered(200, 2400),
		Run:   runP28,
		Need:  map[string]int64{"goroutines": 400, "accepted": 2000, "group_accepted": 400, "served": 1500, "shared_calls": 2000, "held_up": 300, "done_meanwhile": 300, "first_uses": 19},
		Assumptions: []string{
			"the race detector reports races between accesses that really ran in the observed executions",
			"a session, group chain or record is used by one goroutine at a time, as the store interfaces require",
		},
	})
}

func runP28(c *rt.Case) {
	r := c.R
	coldStart.Do(func() { p28Cold(c) })
	// Logging is the only state all of the library shares; the first use counts.
	c.Par(4, func(i int, c *rt.Case) {
		for k := 0; k < 5; k++ {
			logger.Debug("probe ", i)
			logger.Info("probe ", i)
			logger.Warning("probe ", i)
			logger.Error("probe ", i)
		}
	})
	switch c.Idx % 5 {
	case 4:
		p28Apart(c)
	case 0:
		p28Worlds(c, 3+r.Intn(4))
	case 1:
		p28Server(c, 3+r.Intn(5))
	case 2:
		p28Groups(c, 3+r.Intn(4))
	default:
		p28Shared(c, 6)
	}
}

// coldStart is done once in each process, before the library is used.
var coldStart sync.Once

// p28Cold has goroutines use every part of the library for the first time at
// the same moment.
func p28Cold(c *rt.Case) {
	const n = 6
	kp, eph := newRefKey(c), newRefKey(c)
	msg, key, iv := randBytes(c, 80), randBytes(c, 32), randBytes(c, 16)
	var rnd [64]byte
	sig := [64]byte(ref.Sign(kp.Priv, msg, rnd))
	w := &wire.Signal{Version: 3, Ratchet: ref.Enc33(eph.Pub), Counter: 1, Ct: msg, Mac: msg[:8]}
	g := &wire.SenderKey{Version: 3, ID: 1, Iter: 2, Ct: msg, Signature: sig[:]}
	d := &wire.Dist{Version: 3, ID: 1, Iter: 2, ChainKey: key, SigningKey: ref.Enc33(kp.Pub)}
	ak, mk := provisionKeys(kp.Priv, eph.Pub)
	body := append([]byte{1}, iv...)
	body = append(body, ref.CBCEncrypt(iv, ak, msg)...)
	body = append(body, ref.HMAC(mk, body)...)
	doc, _ := json.Marshal(envelope{ref.Enc33(eph.Pub), body})
	box := base64.StdEncoding.EncodeToString(doc)
	steps := []func(f wire.Format, ser *serialize.Serializer) error{
		func(wire.Format, *serialize.Serializer) error {
			_, err := ecc.DecodePoint(ref.Enc33(kp.Pub), 0)
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			if k := ecc.CreateKeyPair(kp.Priv[:]); k.PublicKey().PublicKey() != kp.Pub {
				return errors.New("wrong public key")
			}
			return nil
		},
		func(wire.Format, *serialize.Serializer) error {
			if !ecc.VerifySignature(ecc.NewDjbECPublicKey(kp.Pub), msg, sig) {
				return errors.New("signature refused")
			}
			return nil
		},
		func(wire.Format, *serialize.Serializer) error {
			if s := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), msg); !ref.Verify(kp.Pub, msg, s[:]) {
				return errors.New("bad signature")
			}
			return nil
		},
		func(wire.Format, *serialize.Serializer) error {
			if s := kdf.CalculateSharedSecret(eph.Pub, kp.Priv); !bytes.Equal(s[:], ref.DH(kp.Priv, eph.Pub)) {
				return errors.New("wrong shared secret")
			}
			return nil
		},
		func(wire.Format, *serialize.Serializer) error {
			b, err := kdf.DeriveSecrets(key, iv, msg, 100)
			if err == nil && !bytes.Equal(b, ref.HKDF(key, iv, string(msg), 100)) {
				return errors.New("wrong secrets")
			}
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			b, err := aescbc.EncryptCbc(iv, key, msg)
			if err == nil && !bytes.Equal(b, ref.CBCEncrypt(iv, key, msg)) {
				return errors.New("wrong ciphertext")
			}
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			b, err := aescbc.DecryptCbc(iv, key, ref.CBCEncrypt(iv, key, msg))
			if err == nil && !bytes.Equal(b, msg) {
				return errors.New("wrong plaintext")
			}
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			_ = fingerprint.NewDisplay(msg[:32], key).DisplayText()
			return nil
		},
		func(wire.Format, *serialize.Serializer) error {
			s, err := provision.Decrypt(base64.StdEncoding.EncodeToString(kp.Priv[:]), box)
			if err == nil && s != string(msg) {
				return errors.New("wrong provisioning message")
			}
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			k := chain.NewKey(kdf.DeriveSecrets, append([]byte{}, key...), 0)
			if x := k.MessageKeys(); !bytes.Equal(x.CipherKey(), ref.MessageKeys(key).Cipher) || !bytes.Equal(k.NextKey().Key(), ref.NextChain(key)) {
				return errors.New("wrong chain step")
			}
			return nil
		},
		func(f wire.Format, ser *serialize.Serializer) error {
			m, err := protocol.NewSignalMessageFromBytes(w.Encode(f), ser.SignalMessage)
			if err == nil && !bytes.Equal(m.Serialize(), w.Encode(f)) {
				return errors.New("wrong encoding")
			}
			return err
		},
		func(f wire.Format, ser *serialize.Serializer) error {
			m, err := protocol.NewSenderKeyMessageFromBytes(g.Encode(f), ser.SenderKeyMessage)
			if err == nil && !bytes.Equal(m.SignedSerialize(), g.Encode(f)) {
				return errors.New("wrong encoding")
			}
			return err
		},
		func(f wire.Format, ser *serialize.Serializer) error {
			m, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.Encode(f), ser.SenderKeyDistributionMessage)
			if err == nil && !bytes.Equal(m.Serialize(), d.Encode(f)) {
				return errors.New("wrong encoding")
			}
			return err
		},
		func(wire.Format, *serialize.Serializer) error {
			_, err := keyhelper.GenerateIdentityKeyPair()
			return err
		},
		func(wire.Format, *serialize.Serializer) error { keyhelper.GenerateRegistrationID(); return nil },
		func(wire.Format, *serialize.Serializer) error { keyhelper.GenerateSenderKeyID(); return nil },
		func(f wire.Format, ser *serialize.Serializer) error {
			_, err := keyhelper.GeneratePreKeys(1, 2, ser.PreKeyRecord)
			return err
		},
		func(wire.Format, *serialize.Serializer) error { logger.Debug("first"); return nil },
	}
	order := c.R.Perm(len(steps))
	sers := make([][2]*serialize.Serializer, n)
	c.Par(n, func(i int, c *rt.Case) {
		sers[i] = [2]*serialize.Serializer{serialize.NewProtoBufSerializer(), serialize.NewJSONSerializer()}
	})
	for _, k := range order { // each by all of them at once
		c.Par(n, func(i int, c *rt.Case) {
			for f, ser := range sers[i] {
				c.NoErr(steps[k](wire.Format(f), ser), "first-use", k)
			}
		})
		c.Count("first_uses", 1)
	}
	c.Par(n, func(i int, c *rt.Case) { others(c, wire.Format(i%2)) })
}

// p28Worlds runs independent conversations.
func p28Worlds(c *rt.Case, n int) {
	c.Count("goroutines", int64(n))
	c.Par(n, func(i int, c *rt.Case) {
		w := sim.NewWorld(c, 2, format(c), anyMode(c))
		t := &traffic{w: w, c: c, dupRate: 5, dropRate: 5}
		w.Initiate(0, 1, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
		for k := 0; k < 80; k++ {
			t.step(k / 20)
		}
		t.flush()
	})
	c.Sig("worlds", n)
}

// p28Apart lets a store hold up its device until others have done their work.
func p28Apart(c *rt.Case) {
	r := c.R
	f := format(c)
	probes := 0
	us := []*sim.User{sim.NewUser(c, "alice", 1, f, anyMode(c)(0)), sim.NewUser(c, "bob", 1, f, anyMode(c)(0))}
	hold := func(op string) {
		probes++
		if r.Intn(4) != 0 {
			return
		}
		c.Count("held_up", 1)
		sub := c.Sub(probes)
		done := make(chan string, 1)
		go func() {
			defer func() {
				if x := recover(); x != nil {
					done <- fmt.Sprint(x)
				}
			}()
			others(sub, f)
			done <- ""
		}()
		t := time.NewTimer(30 * time.Second)
		defer t.Stop()
		select {
		case p := <-done:
			c.Must(p == "", "meanwhile", "while a store was at %q, the work of other devices failed: %s", op, p)
			c.Count("done_meanwhile", 1)
		case <-t.C:
			c.Fail("held-up", "while a store was at %q, the work of other devices did not finish", op)
		}
	}
	for _, u := range us {
		u.St.Hook, u.St.Look = hold, hold
	}
	a, b := us[0], us[1]
	say := func(x, y *sim.User) {
		pt := randBytes(c, 1+r.Intn(60))
		w, pre, err := x.Encrypt(y.Addr(), pt)
		c.NoErr(err, "encrypt")
		got, err := y.Decrypt(x.Addr(), w, pre)
		c.NoErr(err, "decrypt")
		c.Must(bytes.Equal(got, pt), "apart-plaintext", "%x, not %x", got, pt)
	}
	kind := pick(c, sim.OneTime, sim.NoPreKey, sim.Last)
	c.NoErr(a.Initiate(b.Addr(), b.Publish(c, kind)), "initiate")
	for k := 0; k < 4; k++ {
		say(a, b)
		say(b, a)
	}
	n := protocol.NewSenderKeyName("held", a.Addr())
	d, err := a.CreateGroup(n)
	c.NoErr(err, "create")
	c.NoErr(b.JoinGroup(n, d), "join")
	for k := 0; k < 3; k++ {
		g, err := a.GroupEncrypt(n, []byte{byte(k)})
		c.NoErr(err, "group-encrypt")
		pt, err := b.GroupDecrypt(n, g)
		c.NoErr(err, "group-decrypt")
		c.Must(len(pt) == 1 && pt[0] == byte(k), "apart-group-plaintext", "%x", pt)
	}
	c.Sig("apart", kind, a.St.Mode, b.St.Mode, f)
}

// others is the work of devices that have nothing to do with the rest.
func others(c *rt.Case, f wire.Format) {
	a, b := sim.NewUser(c, "carol", 1, f, sim.Ptr), sim.NewUser(c, "dave", 2, f, sim.Bytes)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(a.Initiate(b.Addr(), b.Publish(c, sim.OneTime)))
	for k := 0; k < 2; k++ {
		w, pre, err := a.Encrypt(b.Addr(), []byte("one"))
		must(err)
		pt, err := b.Decrypt(a.Addr(), w, pre)
		must(err)
		w, pre, err = b.Encrypt(a.Addr(), pt)
		must(err)
		pt, err = a.Decrypt(b.Addr(), w, pre)
		must(err)
		if string(pt) != "one" {
			panic(fmt.Sprintf("read %q", pt))
		}
	}
	n := protocol.NewSenderKeyName("others", a.Addr())
	d, err := a.CreateGroup(n)
	must(err)
	must(b.JoinGroup(n, d))
	g, err := a.GroupEncrypt(n, []byte("two"))
	must(err)
	pt, err := b.GroupDecrypt(n, g)
	must(err)
	if string(pt) != "two" {
		panic(fmt.Sprintf("read %q", pt))
	}
	sig := ecc.CalculateSignature(a.St.ID.PrivateKey(), g)
	if !ecc.VerifySignature(a.St.ID.PublicKey().PublicKey(), g, sig) {
		panic("signature")
	}
	logger.Debug("others are done")
	fingerprint.NewDisplay(a.St.ID.PublicKey().Serialize(), b.St.ID.PublicKey().Serialize())
}

// p28Groups runs independent groups.
func p28Groups(c *rt.Case, n int) {
	c.Count("goroutines", int64(n))
	c.Par(n, func(i int, c *rt.Case) {
		g := sim.NewGroup(c, 3, 1, format(c), anyMode(c))
		d := g.Create(0, 0)
		g.Join(1, d)
		g.Join(2, d)
		var ms []*sim.GMsg
		for k := 0; k < 12; k++ {
			ms = append(ms, g.Send(0, 0, g.Plain()))
		}
		for _, v := range []int{1, 2} {
			for _, j := range c.R.Perm(len(ms)) {
				g.Deliver(v, ms[j])
			}
		}
	})
	c.Sig("groups", n)
}

// p28Server is one device that talks to many peers at once.
func p28Server(c *rt.Case, n int) {
	c.Count("goroutines", int64(n))
	f := format(c)
	mode := sim.Mode(c.R.Intn(3))
	srv := sim.NewUser(c, "server", 1, f, mode)
	srv.AddSigned(c, 7)
	last, err := keyhelper.GenerateLastResortKey(srv.Ser.PreKeyRecord)
	c.NoErr(err, "last-resort")
	srv.St.StorePreKey(sim.LastResort, last)
	var pubs []*sim.Published
	for i := 0; i < n; i++ {
		pubs = append(pubs, srv.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last)))
	}
	shared := pubs[0] // some peers use the very same bundle object
	if shared.Kind == sim.OneTime {
		shared = nil
	}
	st := sim.NewLocked(srv.St)
	ser := srv.Ser
	c.Par(n, func(i int, c *rt.Case) {
		p := pubs[i]
		if shared != nil && c.R.Intn(2) == 0 {
			p = shared
		}
		u := sim.NewUser(c, "peer", uint32(i), f, sim.Mode(c.R.Intn(3)))
		me := protocol.NewSignalAddress("peer", uint32(i))
		cipher := func() *session.Cipher {
			return session.NewCipher(session.NewBuilder(st, st, st, st, me, ser), me)
		}
		c.NoErr(u.Initiate(srv.Addr(), p), "initiate")
		for k := 0; k < 12; k++ {
			pt := []byte(fmt.Sprintf("to server %d %d", i, k))
			b, pre, err := u.Encrypt(srv.Addr(), pt)
			c.NoErr(err, "encrypt")
			var got []byte
			if pre {
				m, err := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage)
				c.NoErr(err, "parse")
				got, err = cipher().DecryptMessage(m)
				c.NoErr(err, "serve-prekey")
			} else {
				m, err := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage)
				c.NoErr(err, "parse")
				got, err = cipher().Decrypt(m)
				c.NoErr(err, "serve")
			}
			c.Must(bytes.Equal(got, pt), "served-wrong", "peer %d sent %q, the server read %q", i, pt, got)
			if c.R.Intn(2) == 0 {
				re := []byte(fmt.Sprintf("to peer %d %d", i, k))
				m, err := cipher().Encrypt(re)
				c.NoErr(err, "reply")
				got, err := u.Decrypt(srv.Addr(), m.Serialize(), m.Type() == protocol.PREKEY_TYPE)
				c.NoErr(err, "read-reply")
				c.Must(bytes.Equal(got, re), "reply-wrong", "the server sent %q, peer %d read %q", re, i, got)
			}
			c.Count("served", 1)
		}
		c.Sig("server", n, p.Kind, u.St.Mode, mode, f)
	})
	c.Must(len(srv.St.BadLoads) == 0, "bad-load", "%v", srv.St.BadLoads)
	for i := 0; i < n; i++ {
		if pubs[i].Kind == sim.OneTime {
			used := shared == nil // every peer used its own bundle
			c.Must(!used || !srv.St.ContainsPreKey(pubs[i].PreKeyID), "prekey-left", "one-time prekey %d is still stored after its use", pubs[i].PreKeyID)
		}
	}
}

// p28Shared uses stateless helpers and read-only objects from all goroutines.
func p28Shared(c *rt.Case, n int) {
	c.Count("goroutines", int64(n))
	f := format(c)
	ser := sim.Serializer(f)
	id, err := keyhelper.GenerateIdentityKeyPair()
	c.NoErr(err, "identity")
	msg := randBytes(c, 100)
	sig := ecc.CalculateSignature(id.PrivateKey(), msg)
	fp := fingerprint.NewDisplay(id.PublicKey().Serialize(), randBytes(c, 32))
	text := fp.DisplayText()
	// One group message object read by several members, each with its own store.
	snd := sim.NewUser(c, "sender", 1, f, sim.Ptr)
	name := protocol.NewSenderKeyName("group", snd.Addr())
	db, err := snd.CreateGroup(name)
	c.NoErr(err, "create")
	gb, err := snd.GroupEncrypt(name, msg)
	c.NoErr(err, "group-encrypt")
	gm, err := protocol.NewSenderKeyMessageFromBytes(gb, ser.SenderKeyMessage)
	c.NoErr(err, "parse")
	gd, err := protocol.NewSenderKeyDistributionMessageFromBytes(db, ser.SenderKeyDistributionMessage)
	c.NoErr(err, "parse")
	// One session message object, serialized and checked by all.
	bob := sim.NewUser(c, "bob", 1, f, sim.Bytes)
	pub := bob.Publish(c, sim.OneTime)
	alice := sim.NewUser(c, "alice", 1, f, sim.Bytes)
	c.NoErr(alice.Initiate(bob.Addr(), pub), "initiate")
	sb, _, err := alice.Encrypt(bob.Addr(), msg)
	c.NoErr(err, "encrypt")
	sm, err := protocol.NewPreKeySignalMessageFromBytes(sb, ser.PreKeySignalMessage, ser.SignalMessage)
	c.NoErr(err, "parse")
	c.Par(n, func(i int, c *rt.Case) {
		for k := 0; k < 8; k++ {
			c.Must(ecc.VerifySignature(id.PublicKey().PublicKey(), msg, sig), "verify", "a shared key does not verify")
			s2 := ecc.CalculateSignature(id.PrivateKey(), msg)
			c.Must(ecc.VerifySignature(id.PublicKey().PublicKey(), msg, s2), "sign", "a signature made concurrently does not verify")
			kp, err := ecc.GenerateKeyPair()
			c.NoErr(err, "generate")
			a := kdf.CalculateSharedSecret(kp.PublicKey().PublicKey(), id.PrivateKey().Serialize())
			b := kdf.CalculateSharedSecret(id.PublicKey().PublicKey().PublicKey(), kp.PrivateKey().Serialize())
			c.Must(a == b, "agree", "shared secrets differ")
			c.Must(fp.DisplayText() == text, "fingerprint", "the text changed")
			c.Must(bytes.Equal(sm.Serialize(), sb), "serialize", "a shared message is written differently")
			c.Must(bytes.Equal(sm.WhisperMessage().Serialize(), sm.WhisperMessage().Serialize()), "serialize", "a shared message is written differently")
			s := serialize.NewJSONSerializer()
			if i%2 == 0 {
				s = serialize.NewProtoBufSerializer()
			}
			pre := sim.NewUserWithID(c, "x", 1, f, sim.Bytes, id)
			pre.Ser = s
			pre.AddSigned(c, 1)
			v := sim.NewUserWithID(c, "member", uint32(i), f, sim.Mode(c.R.Intn(3)), id)
			v.Ser, v.St.Ser = ser, ser // one serializer for all
			groups.NewGroupSessionBuilder(v.St, ser).Process(name, gd)
			pt, err := groups.NewGroupCipher(groups.NewGroupSessionBuilder(v.St, ser), name, v.St).Decrypt(gm)
			c.NoErr(err, "group-decrypt")
			c.Must(bytes.Equal(pt, msg), "group-plaintext", "%x", pt)
			c.Must(name.GroupID() == "group" && name.Sender().String() == "sender:1", "name", "the shared name changed")
			c.Count("shared_calls", 12)
		}
	})
	c.Sig("shared", f)
}
