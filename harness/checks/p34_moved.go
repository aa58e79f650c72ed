package checks

import (
	"bytes"

	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// runMoved has two devices set up and use sessions while now and then one of
// them is installed anew, with another identity and registration, under a peer
// (or with a store) that kept its sessions. Every session must go on saying
// what held when it was set up, on both sides.
func runMoved(c *rt.Case) {
	r := c.R
	f := format(c)
	var us [2]*sim.User
	for i := range us {
		us[i] = sim.NewUser(c, [...]string{"alice", "bob"}[i], uint32(1+i), f, sim.Mode(r.Intn(2)))
	}
	type fact struct {
		ident [2][]byte
		reg   [2]uint32
		first int
	}
	facts := map[string]*fact{}
	look := func(where string) {
		for i, u := range us {
			p := us[1-i]
			if !u.St.ContainsSession(p.Addr()) {
				continue
			}
			rec := u.St.LoadSession(p.Addr())
			for k, st := range append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...) {
				if k == 0 && len(st.SenderBaseKey()) == 0 {
					continue
				}
				fa := facts[string(st.SenderBaseKey())]
				c.Must(fa != nil, "moved-base-key", "%s: a session has a base key no session was set up with", where)
				c.Must(bytes.Equal(st.LocalIdentityKey().Serialize(), fa.ident[i]), "moved-local-identity", "%s: session %d of device %d does not have the local identity it was set up with", where, k, i)
				c.Must(bytes.Equal(st.RemoteIdentityKey().Serialize(), fa.ident[1-i]), "moved-remote-identity", "%s: session %d of device %d does not have the peer's identity it was set up with", where, k, i)
				c.Must(st.LocalRegistrationID() == fa.reg[i] && st.RemoteRegistrationID() == fa.reg[1-i], "moved-registration", "%s: session %d of device %d has the registration IDs %d and %d, set up with %d and %d", where, k, i, st.LocalRegistrationID(), st.RemoteRegistrationID(), fa.reg[i], fa.reg[1-i])
				if !bytes.Equal(fa.ident[i], u.ID.PublicKey().Serialize()) {
					c.Count("older_own_identities", 1)
				}
				if !bytes.Equal(fa.ident[1-i], p.ID.PublicKey().Serialize()) {
					c.Count("older_peer_identities", 1)
				}
				c.Count("moved_states_read", 1)
			}
		}
	}
	send := func(i int) {
		u, p := us[i], us[1-i]
		u.St.ForgetIdentity(p.Addr().String())
		p.St.ForgetIdentity(u.Addr().String())
		pt := randPlain(c)
		if len(pt) == 0 {
			pt = []byte("x")
		}
		b, pre, err := u.Encrypt(p.Addr(), pt)
		c.NoErr(err, "moved-encrypt")
		base := ""
		if pre {
			pm, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, b...), u.Ser.PreKeySignalMessage, u.Ser.SignalMessage)
			c.NoErr(err, "moved-parse")
			base = string(pm.BaseKey().Serialize())
			fa := facts[base]
			c.Must(fa != nil, "moved-message-base", "an opening message has a base key its sender's sessions did not")
			c.Must(bytes.Equal(pm.IdentityKey().Serialize(), fa.ident[i]) && pm.RegistrationID() == fa.reg[i], "moved-message", "an opening message does not carry the identity and registration ID its session was set up with")
		}
		got, err := p.Decrypt(u.Addr(), b, pre)
		c.NoErr(err, "moved-decrypt")
		c.Must(bytes.Equal(got, pt), "moved-text", "a message between devices installed anew arrived changed")
		c.Count("moved_messages", 1)
		if base != "" {
			// The receiver tells who sent it by the identity in its session.
			p.St.ForgetIdentity(u.Addr().String())
		}
	}
	moves := 0
	for k, n := 0, 25+r.Intn(40); k < n; k++ {
		i := r.Intn(2)
		u, p := us[i], us[1-i]
		switch {
		case k == 0 || r.Intn(5) == 0: // a new session
			pub := p.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			u.St.ForgetIdentity(p.Addr().String())
			c.NoErr(u.Initiate(p.Addr(), pub), "moved-initiate")
			base := u.St.LoadSession(p.Addr()).SessionState().SenderBaseKey()
			c.Must(facts[string(base)] == nil, "moved-base-reused", "a new session has the base key of an older one")
			fa := &fact{first: i}
			for j, x := range us {
				fa.ident[j], fa.reg[j] = x.ID.PublicKey().Serialize(), x.St.RegID
			}
			facts[string(base)] = fa
			look("initiate")
			for j := r.Intn(3); j >= 0; j-- {
				send(i)
			}
			c.Count("moved_sessions", 1)
		case r.Intn(6) == 0: // installed anew
			id, err := keyhelper.GenerateIdentityKeyPair()
			c.NoErr(err, "identity-generation")
			u.ID, u.St.ID = id, id
			u.St.RegID = r.Uint32() >> uint(18*r.Intn(2))
			for _, id := range u.St.SignedIDs() { // no other key ever bears its ID
				u.ExpireSigned(id)
			}
			u.RotateSigned()
			if r.Intn(4) == 0 && u.St.ContainsSession(p.Addr()) && p.St.ContainsSession(u.Addr()) { // and without its sessions
				u.St.DeleteAllSessions()
				p.St.DeleteAllSessions()
				c.Count("moved_without_sessions", 1)
			}
			moves++
			c.Count("moved", 1)
		default:
			if u.St.ContainsSession(p.Addr()) {
				send(i)
			}
		}
		look("use")
		c.Sig("moved", f, us[0].St.Mode, us[1].St.Mode, moves, min(len(facts), 12))
	}
}
