package checks

import (
	crand "crypto/rand"
	"fmt"
	mrand "math/rand"
	"strings"

	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P10",
		Rule: "one case runs the same random history (sessions, groups, damage, losses, re-establishment) on devices that keep objects in memory and on devices that serialize and reload everything on every operation; all bytes sent, plaintexts and verdicts must be equal, and every stored record must reload to an identical record. " +
			"Distinct by operation, outcome, format, and size class of the records at that time",
		Cases: tiered(700, 15000),
		Run:   runP10,
		Need:  map[string]int64{"compared_operations": 30000, "records_reloaded": 30000, "group_operations": 5000, "long_pasts": 60, "leaps": 300, "group_leaps": 100, "pending_exchanges": 500},
	})
}

func runP10(c *rt.Case) {
	f := format(c)
	seed := c.R.Int63()
	modes := []sim.Mode{sim.Bytes, sim.Ptr, sim.PtrInsert}
	outer := c.R
	var first []string
	for k, m := range modes {
		c.R = mrand.New(mrand.NewSource(seed))
		c.Rand = rt.NewDRBG(uint64(seed), "p10")
		crand.Reader = c.Rand
		tr := p10History(c, f, m)
		if k == 0 {
			first = tr
			c.Count("compared_operations", int64(len(tr)))
			continue
		}
		for i := range tr {
			if i >= len(first) || tr[i] != first[i] {
				a := "nothing"
				if i < len(first) {
					a = first[i]
				}
				for _, l := range tr[max(0, i-12):i] {
					c.Logf("%s", clipS(l))
				}
				c.Fail("diverged:"+strings.SplitN(tr[i], " ", 2)[0], "step %d differs: with reloading %q, with objects kept in memory (%s) %q", i, clipS(a), m, clipS(tr[i]))
			}
		}
		c.Must(len(tr) == len(first), "diverged-length", "%d steps against %d", len(tr), len(first))
	}
	c.R = outer
	if c.Idx < 2 {
		var s []string
		for _, l := range first[:min(10, len(first))] {
			s = append(s, clipS(l))
		}
		c.Sample(map[string]any{"history": s})
	}
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// p10History runs a random history and returns its transcript.
func p10History(c *rt.Case, f wire.Format, mode sim.Mode) []string {
	r := c.R
	var tr []string
	out := func(op string, b []byte, err error) {
		e := "ok"
		if err != nil {
			e = "error"
		}
		tr = append(tr, fmt.Sprintf("%s %s %x", op, e, b))
		c.Sig(op, e, f, mode, len(b)/64)
	}
	n := 3
	var us []*sim.User
	for i := 0; i < n; i++ {
		us = append(us, sim.NewUser(c, []string{"alice", "bob", "carol"}[i], uint32(1+i), f, mode))
	}
	type pkt struct {
		b        []byte
		pre      bool
		from, to int
		group    int
	}
	var q, old []pkt
	groups := []string{"g0", "g1"}
	name := func(g, s int) *protocol.SenderKeyName { return protocol.NewSenderKeyName(groups[g], us[s].Addr()) }
	// Fixed warm-up so that every history has sessions.
	initiate := func(a, b int) {
		p := us[b].Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
		out("bundle", nil, us[a].Initiate(us[b].Addr(), p))
	}
	deliver := func(p pkt) {
		b := p.b
		op := "decrypt"
		if r.Intn(8) == 0 {
			b = flip(c, b)
			op = "decrypt-damaged"
		}
		var pt []byte
		var err error
		if p.group >= 0 {
			c.Count("group_operations", 1)
			pt, err = us[p.to].GroupDecrypt(name(p.group, p.from), b)
			out("group-"+op, pt, err)
			return
		}
		pt, err = us[p.to].Decrypt(us[p.from].Addr(), b, p.pre)
		out(op, pt, err)
	}
	say := func(a, b int, keep bool) {
		m, pre, err := us[a].Encrypt(us[b].Addr(), randPlain(c))
		out("encrypt", m, err)
		if err != nil {
			return
		}
		if keep {
			q = append(q, pkt{m, pre, a, b, -1})
			return
		}
		pt, err := us[b].Decrypt(us[a].Addr(), m, pre)
		out("decrypt", pt, err)
	}
	// leap moves a chain on at both its ends, as very many messages would.
	leap := func(a, b int) {
		ra, rb := us[a].St.LoadSession(us[b].Addr()), us[b].St.LoadSession(us[a].Addr())
		sa, sb := ra.SessionState(), rb.SessionState()
		if ra.IsFresh() || rb.IsFresh() || !sa.HasSenderChain() || !sb.HasReceiverChain(sa.SenderRatchetKey()) {
			return
		}
		ka, kb, d := sa.SenderChainKey(), sb.ReceiverChainKey(sa.SenderRatchetKey()), sim.LeapSize(c)
		if ka.Index() != kb.Index() || ka.Index() > 1<<31 {
			return
		}
		sa.SetSenderChainKey(chain.NewKey(kdf.DeriveSecrets, ka.Key(), ka.Index()+d))
		sb.SetReceiverChainKey(sa.SenderRatchetKey(), chain.NewKey(kdf.DeriveSecrets, kb.Key(), kb.Index()+d))
		us[a].St.StoreSession(us[b].Addr(), ra)
		us[b].St.StoreSession(us[a].Addr(), rb)
		out("leap", []byte(fmt.Sprint(d)), nil)
		c.Count("leaps", 1)
	}
	groupLeap := func(g, s int) {
		if us[s].St.SenderKeyText(name(g, s)) == "" {
			return
		}
		rec := us[s].St.LoadSenderKey(name(g, s))
		st, err := rec.SenderKeyState()
		c.NoErr(err, "leap")
		k, d := st.SenderChainKey(), sim.LeapSize(c)
		for d < 5000 { // those left behind must not be able to follow
			d = sim.LeapSize(c)
		}
		if k.Iteration() > 1<<31 {
			return
		}
		st.SetSenderChainKey(gratchet.NewSenderChainKey(k.Iteration()+d, k.Seed()))
		us[s].St.StoreSenderKey(name(g, s), rec)
		for v := range us {
			if v == s || us[v].St.SenderKeyText(name(g, s)) == "" {
				continue
			}
			vr := us[v].St.LoadSenderKey(name(g, s))
			vs, err := vr.GetSenderKeyStateByID(st.KeyID())
			if err == nil && vs.SenderChainKey().Iteration() == k.Iteration() {
				vs.SetSenderChainKey(gratchet.NewSenderChainKey(k.Iteration()+d, k.Seed()))
				us[v].St.StoreSenderKey(name(g, s), vr)
			}
		}
		out("group-leap", []byte(fmt.Sprint(d)), nil)
		c.Count("group_leaps", 1)
	}
	initiate(0, 1)
	if c.Idx%12 == 7 { // a long past: records at their limits
		switch r.Intn(5) {
		case 0:
			for i := 38 + r.Intn(8); i > 0; i-- {
				initiate(0, 1)
				say(0, 1, r.Intn(3) == 0)
				say(0, 1, false)
			}
		case 1:
			for i := 5 + r.Intn(4); i > 0; i-- {
				for k := r.Intn(3); k > 0; k-- {
					say(0, 1, true)
				}
				say(0, 1, false)
				for k := r.Intn(3); k > 0; k-- {
					say(1, 0, true)
				}
				say(1, 0, false)
			}
		case 2:
			n := 100 + r.Intn(400)
			if r.Intn(3) == 0 {
				n = sim.MaxSkipped - 3 + r.Intn(7)
			}
			for i := 0; i < n; i++ {
				say(0, 1, true)
				if l := len(q); l > 30 {
					q = append(q[:10+r.Intn(3)], q[l-10:]...)
				}
			}
			say(0, 1, false)
		case 3:
			for i := 200 + r.Intn(200); i > 0; i-- {
				say(0, 1, false)
			}
		default: // group chains
			d, err := us[0].CreateGroup(name(0, 0))
			out("group-create", d, err)
			out("group-join", nil, us[1].JoinGroup(name(0, 0), d))
			n := pick(c, 100, 600, sim.MaxGroupStored, sim.MaxGroupStored+1)
			for i := 0; i < n; i++ {
				m, err := us[0].GroupEncrypt(name(0, 0), []byte("x"))
				out("group-encrypt", m, err)
				if i < 5 || i > n-8 || r.Intn(n) < 20 {
					q = append(q, pkt{m, false, 0, 1, 0})
				}
			}
			last := q[len(q)-1]
			pt, err := us[1].GroupDecrypt(name(0, 0), last.b)
			out("group-decrypt", pt, err)
			for i := 0; i < 7; i++ { // more chains of the sender than are kept
				if r.Intn(2) == 0 {
					us[0].St.DropSenderKey(name(0, 0))
					d, err := us[0].CreateGroup(name(0, 0))
					out("group-create", d, err)
					out("group-join", nil, us[1].JoinGroup(name(0, 0), d))
				}
			}
		}
		c.Count("long_pasts", 1)
	}
	// exchange notes a pending key exchange in a session; it must still be there
	// whenever it is asked for later.
	noted := map[[2]int]bool{}
	exchange := func(a, b int) {
		rec := us[a].St.LoadSession(us[b].Addr())
		if rec.IsFresh() || !rec.SessionState().HasSenderChain() {
			return
		}
		st := rec.SessionState()
		if !st.HasPendingKeyExchange() {
			base, err := ecc.GenerateKeyPair()
			c.NoErr(err, "key")
			ratchet, err := ecc.GenerateKeyPair()
			c.NoErr(err, "key")
			st.SetPendingKeyExchange(r.Uint32()>>uint(r.Intn(32)), base, ratchet, us[a].ID)
			us[a].St.StoreSession(us[b].Addr(), rec)
			noted[[2]int{a, b}] = true
			c.Count("pending_exchanges", 1)
		}
		out("exchange", []byte(fmt.Sprintf("%d %x %x %x %x %x %x", st.PendingKeyExchangeSequence(),
			st.PendingKeyExchangeBaseKeyPair().PublicKey().Serialize(), st.PendingKeyExchangeBaseKeyPair().PrivateKey().Serialize(),
			st.PendingKeyExchangeRatchetKeyPair().PublicKey().Serialize(), st.PendingKeyExchangeRatchetKeyPair().PrivateKey().Serialize(),
			st.PendingKeyExchangeIdentityKeyPair().PublicKey().Serialize(), st.PendingKeyExchangeIdentityKeyPair().PrivateKey().Serialize())), nil)
	}
	for s := 0; s < 70; s++ {
		a, b := r.Intn(n), r.Intn(n-1)
		if b >= a {
			b++
		}
		switch r.Intn(14) {
		case 13:
			exchange(a, b)
		case 12: // high numbers
			if r.Intn(3) == 0 {
				groupLeap(r.Intn(2), a)
				break
			}
			say(a, b, false)
			leap(a, b)
		case 0:
			if r.Intn(3) == 0 {
				initiate(a, b)
			}
		case 1, 2, 3:
			for k := 1 + r.Intn(3); k > 0; k-- {
				m, pre, err := us[a].Encrypt(us[b].Addr(), randPlain(c))
				out("encrypt", m, err)
				if err == nil {
					q = append(q, pkt{m, pre, a, b, -1})
				}
			}
		case 4, 5, 6, 7:
			if len(q) > 0 {
				i := r.Intn(len(q))
				p := q[i]
				q = append(q[:i:i], q[i+1:]...)
				old = append(old, p)
				deliver(p)
			}
		case 8:
			if len(old) > 0 {
				deliver(old[r.Intn(len(old))])
			}
		case 9:
			g := r.Intn(2)
			d, err := us[a].CreateGroup(name(g, a))
			out("group-create", d, err)
			if err == nil {
				out("group-join", nil, us[b].JoinGroup(name(g, a), d))
			}
		case 10, 11:
			g := r.Intn(2)
			m, err := us[a].GroupEncrypt(name(g, a), randPlain(c))
			out("group-encrypt", m, err)
			if err == nil {
				q = append(q, pkt{m, false, a, b, g})
			}
		}
	}
	for _, p := range q {
		deliver(p)
	}
	// Every record must reload to the same record.
	for i, u := range us {
		tr = append(tr, fmt.Sprintf("identities %d %x %x", i, u.St.Identity(us[(i+1)%n].Addr().String()), u.St.Identity(us[(i+2)%n].Addr().String())))
		tr = append(tr, fmt.Sprintf("prekeys %d %v", i, u.St.PreKeyIDs()))
		for j := range us {
			if t := u.St.Session(us[j].Addr().String()); t != "" {
				tr = append(tr, fmt.Sprintf("record session %d %d %s", i, j, t))
				rec, err := record.NewSessionFromBytes([]byte(t), u.Ser.Session, u.Ser.State)
				c.NoErr(err, "reload-session")
				c.Must(string(rec.Serialize()) == t, "reload-differs-session", "a session record changes when reloaded:\n%s\n%s", t, rec.Serialize())
				st, err := record.NewStateFromBytes(rec.SessionState().Serialize(), u.Ser.State)
				c.NoErr(err, "reload-state")
				c.Must(string(st.Serialize()) == string(rec.SessionState().Serialize()), "reload-differs-state", "a session state changes when reloaded")
				c.Count("records_reloaded", 2)
			}
			for g := range groups {
				if t := u.St.SenderKeyText(name(g, j)); t != "" {
					tr = append(tr, fmt.Sprintf("record senderkey %d %d %s", i, j, t))
					rec, err := grecord.NewSenderKeyFromBytes([]byte(t), u.Ser.SenderKeyRecord, u.Ser.SenderKeyState)
					c.NoErr(err, "reload-senderkey")
					c.Must(string(rec.Serialize()) == t, "reload-differs-senderkey", "a sender key record changes when reloaded")
					st, err := rec.SenderKeyState()
					c.NoErr(err, "senderkey-state")
					st2, err := grecord.NewSenderKeyStateFromBytes(st.Serialize(), u.Ser.SenderKeyState)
					c.NoErr(err, "reload-senderkeystate")
					c.Must(string(st2.Serialize()) == string(st.Serialize()), "reload-differs-senderkeystate", "a sender key state changes when reloaded")
					c.Count("records_reloaded", 2)
				}
			}
		}
		for _, id := range u.St.PreKeyIDs() {
			pk := u.St.LoadPreKey(id)
			re, err := record.NewPreKeyFromBytes(pk.Serialize(), u.Ser.PreKeyRecord)
			c.NoErr(err, "reload-prekey")
			c.Must(re.KeyPair().PublicKey().PublicKey() == pk.KeyPair().PublicKey().PublicKey() && re.KeyPair().PrivateKey().Serialize() == pk.KeyPair().PrivateKey().Serialize() && re.ID().Value == id && !re.ID().IsEmpty,
				"reload-differs-prekey", "prekey %d reloads as another one", id)
			c.Must(string(re.Serialize()) == string(pk.Serialize()), "reload-differs-prekey-bytes", "prekey %d", id)
			c.Count("records_reloaded", 1)
		}
		if t := u.St.Session(us[(i+1)%n].Addr().String()); t != "" { // a pending key exchange survives
			rec, err := record.NewSessionFromBytes([]byte(t), u.Ser.Session, u.Ser.State)
			c.NoErr(err, "reload-session")
			st := rec.SessionState()
			c.Must(!st.HasPendingKeyExchange() || noted[[2]int{i, (i + 1) % n}], "pending-exchange-appears", "a pending key exchange appeared")
			b, err := ecc.GenerateKeyPair()
			c.NoErr(err, "keys")
			k, err := ecc.GenerateKeyPair()
			c.NoErr(err, "keys")
			seq := r.Uint32()
			st.SetPendingKeyExchange(seq, b, k, u.ID)
			st2, err := record.NewStateFromBytes(st.Serialize(), u.Ser.State)
			c.NoErr(err, "reload-pending-exchange")
			same := func(x, y *ecc.ECKeyPair) bool {
				return x.PublicKey().PublicKey() == y.PublicKey().PublicKey() && x.PrivateKey().Serialize() == y.PrivateKey().Serialize()
			}
			for _, x := range []*record.State{st, st2} {
				id := x.PendingKeyExchangeIdentityKeyPair()
				c.Must(x.HasPendingKeyExchange() && x.PendingKeyExchangeSequence() == seq && same(x.PendingKeyExchangeBaseKeyPair(), b) && same(x.PendingKeyExchangeRatchetKeyPair(), k) &&
					string(id.PublicKey().Serialize()) == string(u.ID.PublicKey().Serialize()) && id.PrivateKey().Serialize() == u.ID.PrivateKey().Serialize(),
					"reload-differs-pending-exchange", "a pending key exchange reloads as another one")
			}
			// The mark for a refresh, which only an application sets.
			if o, err := u.Ser.State.Deserialize(st.Serialize()); err == nil {
				o.NeedsRefresh = r.Intn(2) == 0
				st3, err := record.NewStateFromStructure(o, u.Ser.State)
				c.NoErr(err, "reload-refresh")
				o3, err := u.Ser.State.Deserialize(st3.Serialize())
				c.NoErr(err, "reload-refresh")
				c.Must(o3.NeedsRefresh == o.NeedsRefresh, "reload-differs-refresh", "a session marked for a refresh: %v, reloaded: %v", o.NeedsRefresh, o3.NeedsRefresh)
			}
			c.Count("records_reloaded", 1)
		}
		sp := u.AddSigned(c, uint32(1000+r.Intn(1000)))
		re, err := record.NewSignedPreKeyFromBytes(sp.Serialize(), u.Ser.SignedPreKeyRecord)
		c.NoErr(err, "reload-signed-prekey")
		c.Must(re.ID() == sp.ID() && re.Timestamp() == sp.Timestamp() && re.Signature() == sp.Signature() &&
			re.KeyPair().PublicKey().PublicKey() == sp.KeyPair().PublicKey().PublicKey() && re.KeyPair().PrivateKey().Serialize() == sp.KeyPair().PrivateKey().Serialize(),
			"reload-differs-signed-prekey", "a signed prekey reloads as another one")
		c.Count("records_reloaded", 1)
		c.Must(len(u.St.BadLoads) == 0, "bad-load", "%v", u.St.BadLoads)
	}
	return tr
}
