package checks

import (
	"bytes"

	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P09",
		Rule: "one case opens many sessions between two devices, from both sides, crossing, with messages of older sessions still in flight, past the archive limit; an exact model of the session list decides each delivery; " +
			"afterwards the two sides must settle on one session; a device also reads, in any order, messages of all installations of a peer that is installed anew again and again. Distinct by format, store kind, model reason, counter magnitude and number of sessions",
		Cases: tiered(400, 5000),
		Run:   runP09,
		Need:  map[string]int64{"disturbances": 300, "sessions_initiated": 1000, "verdict_new-chain+promote": 100, "verdict_skipped+promote": 5, "verdict_no-such-session": 50, "converged": 120, "archive_full": 5, "moved_messages": 2000, "of_earlier_installations": 300, "moved_replies": 300},
	})
}

// p09Moved has a device read messages of a peer that is installed anew, with
// another identity that the application trusts, while messages of all its
// earlier installations are still on their way.
func p09Moved(c *rt.Case) {
	r := c.R
	f := format(c)
	b := sim.NewUser(c, "bob", 2, f, anyMode(c)(0))
	b.St.Policy = func(string, []byte) bool { return true }
	type msg struct {
		from int
		b    []byte
		pre  bool
		pt   []byte
	}
	var as []*sim.User
	var q, seen []msg
	last := -1
	say := func(i int) {
		pt := randBytes(c, 1+r.Intn(40))
		w, pre, err := as[i].Encrypt(b.Addr(), pt)
		c.NoErr(err, "moved-encrypt")
		q = append(q, msg{i, w, pre, pt})
	}
	deliver := func() {
		k := r.Intn(len(q))
		m := q[k]
		q = append(q[:k:k], q[k+1:]...)
		seen = append(seen, m)
		got, err := b.Decrypt(protoAddr("alice", 1), m.b, m.pre)
		c.NoErr(err, "moved-decrypt", m.from)
		c.Must(bytes.Equal(got, m.pt), "moved-text", "read %x, not %x", got, m.pt)
		if last >= 0 && m.from < last {
			c.Count("of_earlier_installations", 1)
		}
		last = m.from
		c.Count("moved_messages", 1)
	}
	for k, n := 0, 40+r.Intn(60); k < n; k++ {
		switch {
		case len(as) == 0 || r.Intn(12) == 0 && len(as) < 8:
			id, err := keyhelper.GenerateIdentityKeyPair()
			c.NoErr(err, "identity")
			if len(as) > 0 && r.Intn(4) == 0 { // only without its sessions
				id = as[len(as)-1].ID
			}
			u := sim.NewUserWithID(c, "alice", 1, f, anyMode(c)(0), id)
			u.St.Policy = b.St.Policy
			c.NoErr(u.Initiate(b.Addr(), b.Publish(c, pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last))), "moved-initiate")
			as = append(as, u)
			say(len(as) - 1)
		case r.Intn(2) == 0:
			say(r.Intn(len(as)))
		case r.Intn(3) > 0 && len(q) > 0:
			deliver()
		case r.Intn(3) == 0 && len(seen) > 0: // once more
			m := seen[r.Intn(len(seen))]
			_, err := b.Decrypt(protoAddr("alice", 1), m.b, m.pre)
			c.Must(err != nil, "moved-replay", "a message of installation %d was read twice", m.from)
		case last >= 0: // an answer goes to the one heard last
			pt := randBytes(c, 1+r.Intn(40))
			w, pre, err := b.Encrypt(protoAddr("alice", 1), pt)
			c.NoErr(err, "moved-reply")
			c.Must(!pre, "moved-reply-opening", "an answer opens a session")
			got, err := as[last].Decrypt(b.Addr(), w, pre)
			c.NoErr(err, "moved-reply-read", last)
			c.Must(bytes.Equal(got, pt), "moved-reply-text", "read %x, not %x", got, pt)
			c.Count("moved_replies", 1)
		}
	}
	for len(q) > 0 {
		deliver()
	}
	c.Sig("moved", f, b.St.Mode, len(as))
}

func runP09(c *rt.Case) {
	r := c.R
	if c.Idx%4 == 1 {
		p09Moved(c)
	}
	f := format(c)
	w := sim.NewWorld(c, 2, f, anyMode(c))
	t := &traffic{w: w, c: c, dupRate: 4, dropRate: 5, replay: 4}
	many := c.Idx%6 == 0
	rounds := 3 + r.Intn(12)
	if many {
		rounds = 60 + r.Intn(45)
	}
	onlyOne := many && r.Intn(2) == 0
	order := r.Intn(4)
	for i := 0; i < rounds; i++ {
		switch r.Intn(4) {
		case 0: // both at once
			w.Initiate(0, 1, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			if !onlyOne {
				w.Initiate(1, 0, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
				t.send(1, 0)
			}
			t.send(0, 1)
		default:
			a := r.Intn(2)
			if onlyOne {
				a = 0
			}
			w.Initiate(a, 1-a, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			if r.Intn(5) > 0 {
				t.send(a, 1-a)
			}
		}
		k := r.Intn(14)
		if many {
			k = r.Intn(4)
		}
		for ; k > 0; k-- {
			if r.Intn(8) == 0 {
				disturb(c, w, t)
			}
			t.step(order)
		}
		if r.Intn(8) == 0 {
			order = r.Intn(4)
		}
		if w.Sessions(0, 1) == sim.MaxArchived+1 || w.Sessions(1, 0) == sim.MaxArchived+1 {
			c.Count("archive_full", 1)
		}
	}
	t.flush()
	// Settle: each side's next message reaches the other, alternately.
	if !w.HasSession(1, 0) && !w.HasSession(0, 1) {
		return
	}
	a := 0
	if !w.HasSession(0, 1) {
		a = 1
	}
	ok := true
	for i := 0; i < 4; i++ {
		m := w.Send(a, 1-a, w.Plain())
		if !w.Deliver(m) {
			ok = false // the peer evicted this session and its prekey is gone
		}
		a = 1 - a
		if !w.HasSession(a, 1-a) {
			a = 1 - a
		}
	}
	if ok {
		c.Must(w.CurrentSid(0, 1) == w.CurrentSid(1, 0), "not-converged", "the two sides use sessions %d and %d after alternate exchange", w.CurrentSid(0, 1), w.CurrentSid(1, 0))
		b0 := w.Nodes[0].U.St.LoadSession(w.Addr(1)).SessionState().SenderBaseKey()
		b1 := w.Nodes[1].U.St.LoadSession(w.Addr(0)).SessionState().SenderBaseKey()
		c.Must(string(b0) == string(b1), "not-converged", "the current sessions have different base keys")
		c.Count("converged", 1)
	}
	for _, p := range [][2]int{{0, 1}, {1, 0}} {
		n := len(w.Nodes[p[0]].U.St.LoadSession(w.Addr(p[1])).PreviousSessionStates())
		c.Max("max_archived", int64(n))
		c.Must(n <= sim.MaxArchived, "archive-limit", "%d archived sessions", n)
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace_head": c.TraceSample(14)})
	}
}
