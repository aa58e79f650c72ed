package checks

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P05",
		Rule: "one case is a conversation between the library and an independent implementation of X3DH and the double ratchet, in both roles and both formats, with reordering and loss, some of it on chains whose numbers have been moved far on; each side must read the other's messages exactly, and the library's bytes must be the canonical encoding of their content. " +
			"Distinct by role, format, prekey kind, store kind, message kind, direction and counter magnitude",
		Cases:       tiered(1500, 30000),
		Run:         runP05,
		Need:        map[string]int64{"lib_to_ref": 10000, "ref_to_lib": 10000, "ref_turns": 2000, "leaps": 300, "own_identity": 100, "plaintexts_over_256k": 30},
		Assumptions: []string{"the reference implementation is written from the public protocol specifications on Go's standard cryptography"},
	})
}

// newRefKey makes key pairs for the reference from the case's randomness.
func newRefKey(c *rt.Case) ref.KeyPair {
	var p [32]byte
	c.R.Read(p[:])
	return ref.NewKeyPair(p)
}

// libKey converts a library key pair for the reference.
func libKey(priv, pub [32]byte) ref.KeyPair { return ref.KeyPair{Priv: priv, Pub: pub} }

func runP05(c *rt.Case) {
	r := c.R
	f := format(c)
	u := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	peer := protoAddr("bob", 1)
	newKey := func() ref.KeyPair { c.Count("ref_turns", 1); return newRefKey(c) }
	id := newRefKey(c)
	if r.Intn(8) == 0 { // the peer is another device of the same account
		id = libKey(u.ID.PrivateKey().Serialize(), u.ID.PublicKey().PublicKey().PublicKey())
		c.Count("own_identity", 1)
	}
	reg := r.Uint32() & 0x3fff
	kind := pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last)
	libInit := r.Intn(2) == 0
	var s *ref.Session
	var signed, pre ref.KeyPair
	var pub *sim.Published
	if libInit {
		signed, pre = newRefKey(c), newRefKey(c)
		pub = refBundle(c, u, id, signed, pre, kind, reg)
		c.NoErr(u.Initiate(peer, pub), "lib-refuses-ref-bundle")
	} else {
		pub = u.Publish(c, kind)
		b := ref.Bundle{Identity: pub.Bundle.IdentityKey().PublicKey().PublicKey(), SignedPub: pub.Bundle.SignedPreKey().PublicKey(), SignedID: pub.SignedID, PreKeyID: pub.PreKeyID}
		if kind != sim.NoPreKey {
			k := pub.Bundle.PreKey().PublicKey()
			b.PreKey = &k
		}
		s = ref.Initiate(f, id, reg, b, newKey)
	}
	libPub := u.ID.PublicKey().PublicKey().PublicKey()
	type msg struct {
		b, pt  []byte
		prekey bool
		n      int
	}
	var toRef, toLib []*msg
	lastKey, lastN, prev := "", uint32(0), uint32(0) // prev: the number of the last message of the chain before
	text := func() []byte {
		if c.Idx%50 == 3 && r.Intn(6) == 0 {
			return longPlain(c)
		}
		return randPlain(c)
	}
	libSend := func() {
		pt := text()
		b, isPre, err := u.Encrypt(peer, pt)
		c.NoErr(err, "encrypt")
		in := b
		if isPre {
			p, err := wire.DecodePreKey(f, b)
			c.NoErr(err, "decode-prekey")
			c.Must(bytes.Equal(p.Encode(f), b), "prekey-encoding", "an opening message is not in canonical form:\n%x\n%x", b, p.Encode(f))
			c.Must(p.Version == 3 && p.RegID == u.St.RegID && bytes.Equal(p.Identity, ref.Enc33(libPub)), "prekey-fields", "version %d registration %d identity %x", p.Version, p.RegID, p.Identity)
			c.Must(p.SignedID == pub.SignedID && p.HasPreKey == (kind != sim.NoPreKey) && (!p.HasPreKey || p.PreKeyID == pub.PreKeyID), "prekey-ids", "names the wrong prekeys")
			in = p.Message
		}
		m, err := wire.DecodeSignal(f, in)
		c.NoErr(err, "decode")
		c.Must(bytes.Equal(m.Encode(f), in), "encoding", "a message is not in canonical form:\n%s\n%s", in, m.Encode(f))
		c.Must(m.Version == 3 && len(m.Mac) == 8, "fields", "version %d mac %x", m.Version, m.Mac)
		if string(m.Ratchet) != lastKey {
			lastKey, lastN, prev = string(m.Ratchet), 0, max(lastN, 1)-1
		}
		c.Must(m.Prev == prev, "previous-counter", "the previous chain ended at %d, expected %d", m.Prev, prev)
		c.Must(m.Counter == lastN, "counter", "counter %d, expected %d", m.Counter, lastN)
		lastN++
		toRef = append(toRef, &msg{b: b, pt: pt, prekey: isPre, n: int(m.Counter)})
	}
	refSend := func() {
		if s == nil {
			return
		}
		pt := text()
		b, isPre := s.Encrypt(pt)
		toLib = append(toLib, &msg{b: b, pt: pt, prekey: isPre})
	}
	refRecv := func(m *msg) {
		in := m.b
		if m.prekey {
			p, _ := wire.DecodePreKey(f, m.b)
			in = p.Message
			if s == nil {
				var pk *ref.KeyPair
				if p.HasPreKey {
					pk = &pre
				}
				var err error
				s, err = ref.Accept(f, id, signed, pk, p, newKey)
				c.NoErr(err, "ref-accept")
			}
		} else if s == nil {
			return
		}
		pt, err := s.Decrypt(in)
		if err != nil {
			c.Fail("ref-cannot-read", "the reference cannot read the library's message (counter %d, prekey %v): %v", m.n, m.prekey, err)
		}
		c.Must(bytes.Equal(pt, m.pt), "ref-reads-other", "the reference read %x, sent %x", clip(pt), clip(m.pt))
		c.Count("lib_to_ref", 1)
		c.Sig("to-ref", f, libInit, kind, u.St.Mode, m.prekey, min(m.n, 12), len(m.pt)%16)
	}
	libRecv := func(m *msg) {
		pt, err := u.Decrypt(peer, m.b, m.prekey)
		if err != nil {
			c.Fail("lib-cannot-read", "the library cannot read the reference's message (prekey %v): %v", m.prekey, err)
		}
		c.Must(bytes.Equal(pt, m.pt), "lib-reads-other", "the library read %x, sent %x", clip(pt), clip(m.pt))
		c.Count("ref_to_lib", 1)
		c.Sig("to-lib", f, libInit, kind, u.St.Mode, m.prekey, len(m.pt)%16)
	}
	take := func(q *[]*msg) *msg {
		i := 0
		if r.Intn(3) == 0 {
			i = r.Intn(len(*q))
		}
		m := (*q)[i]
		*q = append((*q)[:i:i], (*q)[i+1:]...)
		return m
	}
	started := libInit
	flush := func() {
		for len(toRef) > 0 {
			refRecv(take(&toRef))
		}
		for len(toLib) > 0 {
			libRecv(take(&toLib))
			started = true
		}
	}
	// leap moves the number of a chain on, on both sides, as if very many more
	// messages had been sent and read on it.
	leap := func() {
		if !started || s == nil {
			return
		}
		flush()
		d := sim.LeapSize(c)
		if r.Intn(2) == 0 {
			libSend()
			flush()
			if lastN > 1<<31 || lastN+d < lastN {
				return
			}
			rec := u.St.LoadSession(peer)
			st := rec.SessionState()
			k := st.SenderChainKey()
			pub := st.SenderRatchetKey().PublicKey()
			st.SetSenderChainKey(chain.NewKey(kdf.DeriveSecrets, k.Key(), k.Index()+d))
			u.St.StoreSession(peer, rec)
			s.LeapRecv(pub, d)
			lastN += d
		} else {
			refSend()
			flush()
			key := ecc.NewDjbECPublicKey(s.SendKey())
			rec := u.St.LoadSession(peer)
			k := rec.SessionState().ReceiverChainKey(key)
			if n := s.Leap(0); k == nil || n > 1<<31 || n+d < n || k.Index() != n {
				return
			}
			rec.SessionState().SetReceiverChainKey(key, chain.NewKey(kdf.DeriveSecrets, k.Key(), k.Index()+d))
			u.St.StoreSession(peer, rec)
			s.Leap(d)
		}
		c.Count("leaps", 1)
	}
	leapAt := -1
	if c.Idx%4 == 2 {
		leapAt = 10 + r.Intn(30)
	}
	for i := 0; i < 60; i++ {
		switch r.Intn(4) {
		case 0:
			if started {
				for n := 1 + r.Intn(3); n > 0; n-- {
					libSend()
				}
			}
		case 1:
			for n := 1 + r.Intn(3); n > 0; n-- {
				refSend()
			}
		case 2:
			if len(toRef) > 0 {
				refRecv(take(&toRef))
			}
		default:
			if len(toLib) > 0 {
				libRecv(take(&toLib))
				started = true
			}
		}
		// Deliver before a chain could fall out of the five that are kept.
		if r.Intn(8) == 0 {
			flush()
		}
		if i == leapAt || i == leapAt+4 {
			leap()
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"library_initiates": libInit, "prekey": kind.String(), "format": fmt.Sprint(f), "store": u.St.Mode.String()})
	}
}
