package checks

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P34",
		Rule: "one case sets up, restarts, archives and uses sessions between devices in every way, and after each step reads from both sides' stored records, current and archived, what each session says of itself (version, both identities, both registration IDs, base key, whether its opening is acknowledged and with which prekeys); these must be the facts of the two devices and equal on both sides, and every message must carry them. Every fourth case reads group messages, key descriptions and stored sender keys in the same way. " +
			"Distinct by step, format, kind of store, bundle kind and number of sessions",
		Cases: tiered(600, 12000),
		Run:   runP34,
		Need:  map[string]int64{"disturbances": 300, "states_read": 40000, "archived_read": 4000, "messages_read": 12000, "unacknowledged_read": 2000, "base_keys": 2000, "registered_anew": 1000, "older_registrations": 4000, "moved": 300, "moved_messages": 3000, "older_own_identities": 1000, "older_peer_identities": 1000, "altered_wrappers": 1000, "group_messages_read": 3000, "group_states_read": 5000},
	})
}

func sess(a, b int, base []byte) string { return fmt.Sprint(a, " ", b, " ", string(base)) }

func runP34(c *rt.Case) {
	if c.Idx%3 == 1 {
		runMoved(c)
	}
	if c.Idx%4 == 2 {
		p34Group(c)
	}
	r := c.R
	f := format(c)
	n := 2 + r.Intn(2)
	w := sim.NewWorld(c, n, f, anyMode(c))
	bundles := map[string]*sim.Published{} // by signed prekey and prekey IDs
	owner := map[string][2]int{}           // base key -> initiator, responder
	type regs struct{ local, remote uint32 }
	said := map[string]regs{} // registration IDs of a device's session, by device, peer and base key
	veteran := c.Idx%20 == 4  // more sessions than are archived
	facts := func(a, b int, st *record.State, where string) {
		x, y := w.Nodes[a].U, w.Nodes[b].U
		c.Must(st.Version() == 3, "version", "%s: a session has the version %d", where, st.Version())
		c.Must(bytes.Equal(st.LocalIdentityKey().Serialize(), x.ID.PublicKey().Serialize()), "local-identity", "%s: the local identity of a session is not the device's", where)
		c.Must(bytes.Equal(st.RemoteIdentityKey().Serialize(), y.ID.PublicKey().Serialize()), "remote-identity", "%s: the remote identity of a session is not the peer's", where)
		want, ok := said[sess(a, b, st.SenderBaseKey())]
		if !ok { // set up since the last look
			want = regs{x.St.RegID, y.St.RegID}
			if o, ok := said[sess(b, a, st.SenderBaseKey())]; ok {
				want.remote = o.local
			}
			said[sess(a, b, st.SenderBaseKey())] = want
		}
		if ok && veteran && st.LocalRegistrationID() == x.St.RegID {
			// Its opening may have been read again after it was dropped.
			want.local = x.St.RegID
			said[sess(a, b, st.SenderBaseKey())] = want
		}
		if want.local != x.St.RegID || want.remote != y.St.RegID {
			c.Count("older_registrations", 1)
		}
		c.Must(st.LocalRegistrationID() == want.local, "local-registration", "%s: the local registration ID of a session is %d, the device's %d when it was set up", where, st.LocalRegistrationID(), want.local)
		c.Must(st.RemoteRegistrationID() == want.remote, "remote-registration", "%s: the remote registration ID of a session is %d, the peer's %d when it was set up", where, st.RemoteRegistrationID(), want.remote)
		c.Must(len(st.SenderBaseKey()) == 33, "base-key", "%s: a session has the base key %x", where, st.SenderBaseKey())
		if o, ok := owner[string(st.SenderBaseKey())]; ok {
			c.Must(o == [2]int{a, b} || o == [2]int{b, a}, "base-key-owner", "%s: a session between %d and %d has a base key of %v", where, a, b, o)
			c.Count("base_keys", 1)
		}
		if st.HasUnacknowledgedPreKeyMessage() {
			it, err := st.UnackPreKeyMessageItems()
			c.NoErr(err, "unacknowledged-items")
			k := fmt.Sprint(b, " ", it.SignedPreKeyID(), " ", it.PreKeyID().IsEmpty, " ", it.PreKeyID().Value)
			if it.PreKeyID().IsEmpty {
				k = fmt.Sprint(b, " ", it.SignedPreKeyID(), " true 0")
			}
			c.Must(bundles[k] != nil, "unacknowledged-items", "%s: an unacknowledged session names prekeys no bundle had: %s", where, k)
			c.Must(bytes.Equal(it.BaseKey().Serialize(), st.SenderBaseKey()), "unacknowledged-base-key", "%s: the unacknowledged base key is not the session's", where)
			c.Count("unacknowledged_read", 1)
		}
		c.Count("states_read", 1)
	}
	anew := func() {
		a := r.Intn(n)
		w.Nodes[a].U.St.RegID = r.Uint32() >> uint(r.Intn(32))
		c.Count("registered_anew", 1)
	}
	look := func(where string) {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if a == b || !w.HasSession(a, b) {
					continue
				}
				rec := w.Nodes[a].U.St.LoadSession(w.Addr(b))
				c.Must(!rec.IsFresh(), "fresh", "%s: a used session record is fresh", where)
				facts(a, b, rec.SessionState(), where)
				c.Must(rec.HasSessionState(3, rec.SessionState().SenderBaseKey()), "has-session", "%s: a record does not find its own session", where)
				c.Must(!rec.HasSessionState(2, rec.SessionState().SenderBaseKey()) && !rec.HasSessionState(3, ref.Enc33(newRefKey(c).Pub)), "has-session", "%s: a record finds a session that is not in it", where)
				for _, st := range rec.PreviousSessionStates() {
					facts(a, b, st, where+" (archived)")
					c.Must(rec.HasSessionState(3, st.SenderBaseKey()), "has-session", "%s: a record does not find an archived session", where)
					c.Count("archived_read", 1)
				}
				// The two sides of the current session, if it is current on both.
				if w.HasSession(b, a) && w.CurrentSid(a, b) == w.CurrentSid(b, a) {
					o := w.Nodes[b].U.St.LoadSession(w.Addr(a))
					c.Must(bytes.Equal(o.SessionState().SenderBaseKey(), rec.SessionState().SenderBaseKey()), "base-keys-differ", "%s: the two sides of a session have different base keys", where)
				}
				c.Sig(where, f, w.Nodes[a].U.St.Mode, w.Sessions(a, b), rec.SessionState().HasUnacknowledgedPreKeyMessage())
			}
		}
	}
	read := func(m *sim.Msg) {
		x := w.Nodes[m.From].U
		b := append([]byte{}, m.Wire...)
		if !m.PreKey {
			sm, err := protocol.NewSignalMessageFromBytes(b, x.Ser.SignalMessage)
			c.NoErr(err, "parse")
			c.Must(sm.MessageVersion() == 3 && sm.Type() == 2 && sm.Counter() == m.Counter && string(sm.SenderRatchetKey().Serialize()) == m.Ratchet, "message", "a parsed message says version %d, type %d, counter %d", sm.MessageVersion(), sm.Type(), sm.Counter())
			c.Must(bytes.Equal(sm.Body(), m.Inner.Ct), "message-body", "a parsed message has another body")
			c.Count("messages_read", 1)
			return
		}
		pm, err := protocol.NewPreKeySignalMessageFromBytes(b, x.Ser.PreKeySignalMessage, x.Ser.SignalMessage)
		c.NoErr(err, "parse")
		c.Must(pm.MessageVersion() == 3 && pm.Type() == 3, "prekey-message", "a parsed opening message says version %d, type %d", pm.MessageVersion(), pm.Type())
		reg, ok := said[sess(m.From, m.To, pm.BaseKey().Serialize())]
		c.Must(ok, "message-base-key", "an opening message carries a base key no session of its sender has")
		c.Must(pm.RegistrationID() == reg.local, "message-registration", "an opening message carries the registration ID %d, its sender's was %d when it set the session up", pm.RegistrationID(), reg.local)
		c.Must(bytes.Equal(pm.IdentityKey().Serialize(), x.ID.PublicKey().Serialize()), "message-identity", "an opening message carries another identity than its sender's")
		it := pm.PreKeyID()
		k := fmt.Sprint(m.To, " ", pm.SignedPreKeyID(), " true 0")
		if it != nil && !it.IsEmpty {
			k = fmt.Sprint(m.To, " ", pm.SignedPreKeyID(), " false ", it.Value)
		}
		c.Must(bundles[k] != nil, "message-prekeys", "an opening message names prekeys no bundle had: %s", k)
		c.Must(bytes.Equal(pm.WhisperMessage().Body(), m.Inner.Ct) && pm.WhisperMessage().Counter() == m.Counter, "message-body", "the message inside an opening message is not the one that was sent")
		bk := string(pm.BaseKey().Serialize())
		if o, ok := owner[bk]; ok {
			c.Must(o == [2]int{m.From, m.To}, "base-key-reused", "one base key opens sessions of %v and of %d with %d", o, m.From, m.To)
		}
		owner[bk] = [2]int{m.From, m.To}
		c.Count("messages_read", 1)
	}
	w.Mons = append(w.Mons, read)
	t := &traffic{w: w, c: c, dupRate: 10, dropRate: 8, replay: 5}
	steps, often, most := 60, 9, 30
	if veteran {
		steps, often, most = 140, 2, 60
		c.Count("veterans", 1)
	}
	for k := 0; k < steps; k++ {
		if k == 0 || r.Intn(often) == 0 {
			a := r.Intn(n)
			if often == 2 {
				a = min(r.Intn(8), n-1) / (n - 1) // mostly one pair
			}
			b := (a + 1 + r.Intn(n-1)) % n
			if w.Sessions(a, b) < most {
				p := w.Nodes[b].U.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
				key := fmt.Sprint(b, " ", p.SignedID, " false ", p.PreKeyID)
				if p.Kind == sim.NoPreKey {
					key = fmt.Sprint(b, " ", p.SignedID, " true 0")
				}
				bundles[key] = p
				w.InitiateWith(a, b, p)
				look("initiate")
				if r.Intn(3) == 0 {
					anew()
				}
			}
			continue
		}
		if r.Intn(8) == 0 {
			disturb(c, w, t)
		}
		t.step(r.Intn(4))
		if r.Intn(4) == 0 { // the wrapper of a further opening message is altered under way
			for i, m := range t.held {
				if !m.PreKey || !w.HasBase(m) {
					continue
				}
				t.take(i)
				p, sent := *m.Pre, m.Wire
				p.RegID = jitter(c, p.RegID)
				m.Wire = p.Encode(f)
				w.Deliver(m)
				m.Wire = sent
				t.done = append(t.done, m)
				c.Count("altered_wrappers", 1)
				look("altered-wrapper")
				break
			}
		}
		if r.Intn(2) == 0 {
			look("traffic")
			if r.Intn(8) == 0 { // registered anew with the same identity
				anew()
			}
		}
	}
	t.flush()
	look("end")
	_ = wire.JSON
}
