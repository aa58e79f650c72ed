package checks

import (
	"fmt"

	"verif/rt"
	"verif/sim"
	"verif/wire"

	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P20",
		Rule: "one case damages stored records of every kind (sessions with archived states, skipped keys and unacknowledged prekeys; prekeys; signed prekeys; sender keys): cut, bit-flipped, fields missing, null, of the wrong type, of the wrong length, exchanged, lists emptied, doubled or holding nulls; loading must return a record or an error, a loaded record must serialize to something that loads to the same, and sending and receiving with it must return. " +
			"Distinct by record kind, damaged field, kind of damage and outcome",
		Cases: tiered(1500, 40000),
		Run:   runP20,
		Need:  map[string]int64{"damaged_records": 30000, "loaded": 8000, "refused": 8000, "used": 8000},
	})
}

// storedRecords makes serialized records that have every optional part.
type storedRecords struct {
	a, b     *sim.User
	pre      []byte   // an opening message not delivered yet
	old, neu [][]byte // messages for b: skipped ones, next ones
	opening  []byte   // an opening message by which b replaces the session
	preID    uint32
	signedID uint32
	group    [][]byte
}

func makeRecords(c *rt.Case, f wire.Format) *storedRecords {
	r := c.R
	s := &storedRecords{a: sim.NewUser(c, "alice", 1, f, sim.Bytes), b: sim.NewUser(c, "bob", 2, f, sim.Bytes)}
	a, b := s.a, s.b
	enc := func(from, to *sim.User) []byte {
		w, _, err := from.Encrypt(to.Addr(), randPlain(c))
		c.NoErr(err, "encrypt")
		return w
	}
	for n := 1 + r.Intn(3); n > 0; n-- { // sessions, all but the last archived
		c.NoErr(a.Initiate(b.Addr(), b.Publish(c, sim.OneTime)), "bundle")
		_, err := b.Decrypt(a.Addr(), enc(a, b), true)
		c.NoErr(err, "open")
		for k := r.Intn(3); k > 0; k-- {
			_, err := a.Decrypt(b.Addr(), enc(b, a), false)
			c.NoErr(err, "back")
			_, err = b.Decrypt(a.Addr(), enc(a, b), false)
			c.NoErr(err, "forth")
		}
	}
	_, err := a.Decrypt(b.Addr(), enc(b, a), false)
	c.NoErr(err, "ack")
	for k := 0; k < 3; k++ {
		s.old = append(s.old, enc(a, b))
	}
	_, err = b.Decrypt(a.Addr(), enc(a, b), false)
	c.NoErr(err, "skip")
	s.neu = append(s.neu, enc(a, b), enc(a, b))
	n := nameOf("team", a.Addr())
	d, err := a.CreateGroup(n)
	c.NoErr(err, "create")
	c.NoErr(b.JoinGroup(n, d), "join")
	for k := 0; k < 4; k++ {
		g, err := a.GroupEncrypt(n, randPlain(c))
		c.NoErr(err, "group")
		s.group = append(s.group, g)
	}
	_, err = b.GroupDecrypt(n, s.group[2])
	c.NoErr(err, "group")
	if r.Intn(2) == 0 { // a has a session that waits for its acknowledgement
		p := b.Publish(c, sim.OneTime)
		c.NoErr(a.Initiate(b.Addr(), p), "bundle")
		s.opening, s.preID, s.signedID = enc(a, b), p.PreKeyID, p.SignedID
	} else {
		x := sim.NewUser(c, "alice", 1, f, sim.Bytes)
		x.ID, x.St.ID = a.ID, a.ID
		p := b.Publish(c, sim.OneTime)
		c.NoErr(x.Initiate(b.Addr(), p), "bundle")
		s.opening, s.preID, s.signedID = enc(x, b), p.PreKeyID, p.SignedID
	}
	return s
}

// text is a stored record.
type text struct {
	kind string
	b    []byte
	use  string // the part a device plays that needs it
}

// texts returns genuine records of every kind.
func (s *storedRecords) texts(c *rt.Case) []text {
	ser := s.b.Ser
	n := nameOf("team", s.a.Addr())
	st := func(kind string) []byte {
		switch kind {
		case "session":
			return []byte(s.b.St.Session(s.a.Addr().String()))
		case "session-sender":
			return []byte(s.a.St.Session(s.b.Addr().String()))
		case "prekey":
			return s.b.St.LoadPreKey(s.preID).Serialize()
		case "signed-prekey":
			return s.b.St.LoadSignedPreKey(s.signedID).Serialize()
		case "sender-key":
			return []byte(s.b.St.SenderKeyText(n))
		default:
			return []byte(s.a.St.SenderKeyText(n))
		}
	}
	state := func(b []byte) []byte {
		x, err := record.NewSessionFromBytes(b, ser.Session, ser.State)
		c.NoErr(err, "genuine-session")
		return x.SessionState().Serialize()
	}
	gstate := func(b []byte) []byte {
		x, err := grecord.NewSenderKeyFromBytes(b, ser.SenderKeyRecord, ser.SenderKeyState)
		c.NoErr(err, "genuine-sender-key")
		y, err := x.SenderKeyState()
		c.NoErr(err, "genuine-sender-key-state")
		return y.Serialize()
	}
	return []text{
		{"session", st("session"), "session"}, {"session", st("session-sender"), "session-sender"}, {"state", state(st("session")), ""}, {"state", state(st("session-sender")), ""},
		{"prekey", st("prekey"), "prekey"}, {"signed-prekey", st("signed-prekey"), "signed-prekey"},
		{"sender-key", st("sender-key"), "sender-key"}, {"sender-key", st("own"), "own"}, {"sender-key-state", gstate(st("sender-key")), ""}, {"sender-key-state", gstate(st("own")), ""},
	}
}

// loadRecord loads a record of a kind and returns what it serializes to.
func loadRecord(ser *serialize.Serializer, kind string, b []byte) (out []byte, err error) {
	switch kind {
	case "session":
		r, err := record.NewSessionFromBytes(b, ser.Session, ser.State)
		if err != nil {
			return nil, err
		}
		for _, st := range append([]*record.State{r.SessionState()}, r.PreviousSessionStates()...) {
			touchState(st)
		}
		r.HasSessionState(3, []byte{5})
		return r.Serialize(), nil
	case "state":
		r, err := record.NewStateFromBytes(b, ser.State)
		if err != nil {
			return nil, err
		}
		touchState(r)
		return r.Serialize(), nil
	case "prekey":
		r, err := record.NewPreKeyFromBytes(b, ser.PreKeyRecord)
		if err != nil {
			return nil, err
		}
		r.KeyPair().PublicKey().Serialize()
		r.KeyPair().PrivateKey().Serialize()
		return r.Serialize(), nil
	case "signed-prekey":
		r, err := record.NewSignedPreKeyFromBytes(b, ser.SignedPreKeyRecord)
		if err != nil {
			return nil, err
		}
		r.KeyPair().PublicKey().Serialize()
		r.KeyPair().PrivateKey().Serialize()
		r.Signature()
		return r.Serialize(), nil
	case "sender-key":
		r, err := grecord.NewSenderKeyFromBytes(b, ser.SenderKeyRecord, ser.SenderKeyState)
		if err != nil {
			return nil, err
		}
		r.IsEmpty()
		r.SenderKeyState()
		r.GetSenderKeyStateByID(1)
		return r.Serialize(), nil
	default:
		r, err := grecord.NewSenderKeyStateFromBytes(b, ser.SenderKeyState)
		if err != nil {
			return nil, err
		}
		r.SigningKey().PublicKey().Serialize()
		r.SenderChainKey().Iteration()
		r.HasSenderMessageKey(1)
		return r.Serialize(), nil
	}
}

func touchState(st *record.State) {
	st.Version()
	st.RemoteIdentityKey().Serialize()
	st.LocalIdentityKey().Serialize()
	st.SenderBaseKey()
	st.HasSenderChain()
	st.HasUnacknowledgedPreKeyMessage()
	st.HasPendingKeyExchange()
	st.RootKey()
}

func runP20(c *rt.Case) {
	r := c.R
	f := format(c)
	s := makeRecords(c, f)
	ser := s.b.Ser
	n := nameOf("team", s.a.Addr())
	docs := s.texts(c)
	for k := 0; k < 90; k++ {
		d := docs[r.Intn(len(docs))]
		var b []byte
		how := ""
		switch r.Intn(8) {
		case 0:
			b, how = flip(c, d.b), "flipped"
		case 1:
			b, how = d.b[:r.Intn(len(d.b))], "cut"
		case 2:
			b, how = pick(c, []byte{}, []byte("null"), []byte("{}"), []byte("[]"), []byte("0"), randBytes(c, 30)), "replaced"
		case 3:
			b, how = docs[r.Intn(len(docs))].b, "other-kind"
		default:
			b, how = mutateJSON(c, d.b)
			for r.Intn(4) == 0 {
				b, _ = mutateJSON(c, b)
			}
		}
		c.Count("damaged_records", 1)
		var out, again []byte
		var err error
		fail := func(what, pn string) {
			c.Logf("record %s", b)
			c.Fail("panic:"+what+":"+d.kind, "a damaged %s record (%s): %s: %s", d.kind, how, what, pn)
		}
		if pn := rt.Try(func() { out, err = loadRecord(ser, d.kind, append([]byte{}, b...)) }); pn != "" {
			fail("loading", pn)
		}
		c.Sig(d.kind, d.use, how, err)
		if err != nil {
			c.Count("refused", 1)
		} else {
			c.Count("loaded", 1)
			if pn := rt.Try(func() { again, err = loadRecord(ser, d.kind, out) }); pn != "" {
				fail("reloading", pn)
			}
			c.Must(err == nil && string(again) == string(out), "reload:"+d.kind, "a %s record that was loaded (%s) saves as something that loads differently: %v\n%s\n%s", d.kind, how, err, out, again)
		}
		if d.use == "" {
			continue
		}
		c.Count("used", 1)
		// Use it in a copy of the devices.
		a, bob := *s.a, *s.b
		a.St, bob.St = s.a.St.Fork(), s.b.St.Fork()
		use := func(what string, fn func() error) {
			var err error
			if pn := rt.Try(func() { err = fn() }); pn != "" {
				fail(what, pn)
			}
			c.Sig("use", d.use, what, how, err)
		}
		decrypt := func(u *sim.User, from *sim.User, w []byte, pre bool) func() error {
			return func() error { _, err := u.Decrypt(from.Addr(), w, pre); return err }
		}
		encrypt := func(u *sim.User, to *sim.User) func() error {
			return func() error { _, _, err := u.Encrypt(to.Addr(), []byte("text")); return err }
		}
		switch d.use {
		case "session":
			bob.St.SetSession(a.Addr().String(), b)
			use("receiving", decrypt(&bob, &a, s.neu[0], false))
			use("receiving-skipped", decrypt(&bob, &a, s.old[r.Intn(len(s.old))], false))
			use("sending", encrypt(&bob, &a))
			use("opening", decrypt(&bob, &a, s.opening, true))
			use("sending-after", encrypt(&bob, &a))
		case "session-sender":
			a.St.SetSession(bob.Addr().String(), b)
			use("sending", encrypt(&a, &bob))
			w, _, err := bob.Encrypt(a.Addr(), []byte("text"))
			c.NoErr(err, "encrypt")
			use("receiving", decrypt(&a, &bob, w, false))
			use("sending-after", encrypt(&a, &bob))
			p := bob.Publish(c, sim.NoPreKey)
			use("bundle", func() error { return a.Initiate(bob.Addr(), p) })
		case "prekey":
			bob.St.SetPreKey(s.preID, b)
			use("opening", decrypt(&bob, &a, s.opening, true))
		case "signed-prekey":
			bob.St.SetSigned(s.signedID, b)
			use("opening", decrypt(&bob, &a, s.opening, true))
		case "sender-key":
			bob.St.SetSenderKey(n, b)
			for _, g := range s.group {
				g := g
				use("group-receiving", func() error { _, err := bob.GroupDecrypt(n, g); return err })
			}
			use("group-sending", func() error { _, err := bob.GroupEncrypt(n, []byte("x")); return err })
			use("group-create", func() error { _, err := bob.CreateGroup(n); return err })
		case "own":
			a.St.SetSenderKey(n, b)
			use("group-sending", func() error { _, err := a.GroupEncrypt(n, []byte("x")); return err })
			use("group-create", func() error { _, err := a.CreateGroup(n); return err })
			use("group-receiving", func() error { _, err := a.GroupDecrypt(n, s.group[3]); return err })
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"format": fmt.Sprint(f), "session_record_bytes": len(docs[0].b), "sender_key_bytes": len(docs[6].b)})
	}
}
