package checks

import (
	"bytes"
	"fmt"

	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	rt.Register(&rt.Check{
		ID:    "P11",
		Level: "fault_enumeration",
		Rule: "one case is a random conversation; at chosen operations (bundle, encryption, decryption of every message kind, group creation, joining, encryption, decryption) the device is crashed before each of its storage writes in turn, and once more during the redelivery, restarted from what was written and driven on. " +
			"An evaluation is one crash point; distinct by operation, the model's verdict, the writes done before the crash, what the restarted device did, format",
		Cases:       tiered(400, 8000),
		Run:         runP11,
		Need:        map[string]int64{"crash_points": 15000, "crash_decrypt_before_store": 1500, "crash_decrypt_after_store": 60, "crash_group": 1500, "double_crashes": 1500},
		Assumptions: []string{"each call of a store method is atomic and durable; a crash falls between them"},
	})
}

type crashed struct{ op string }

// fork copies a device.
func fork(u *sim.User) *sim.User {
	cp := *u
	cp.St = u.St.Fork()
	return &cp
}

// crashAt runs f on the device and stops it before its k-th write (from 0).
// It returns the writes that were done and whether the crash happened.
func crashAt(u *sim.User, k int, f func()) (done []string, hit bool) {
	u.St.Hook = func(op string) {
		if len(done) == k {
			panic(crashed{op})
		}
		done = append(done, op)
	}
	defer func() {
		u.St.Hook = nil
		if r := recover(); r != nil {
			if _, ok := r.(crashed); !ok {
				panic(r)
			}
			hit = true
		}
	}()
	f()
	return
}

func kinds(ops []string) string {
	s := ""
	for _, o := range ops {
		var a string
		fmt.Sscan(o, &a)
		s += a + ";"
	}
	return s
}

func runP11(c *rt.Case) {
	if c.Idx%4 == 3 {
		runP11Group(c)
		return
	}
	r := c.R
	n := 2 + r.Intn(2)
	w := sim.NewWorld(c, n, format(c), func(int) sim.Mode { return sim.Bytes })
	t := &traffic{w: w, c: c, dropRate: 3, dupRate: 3}
	w.Initiate(0, 1, pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last))
	if c.Idx%20 == 6 {
		t.age(0, 1)
	}
	for s := 0; s < 50; s++ {
		if len(t.held) > 0 && r.Intn(3) == 0 {
			crashDecrypt(c, w, t.held[r.Intn(len(t.held))])
		}
		a, b := r.Intn(n), r.Intn(n)
		if a != b {
			switch r.Intn(8) {
			case 0:
				if w.HasSession(a, b) {
					crashEncrypt(c, w, a, b)
				}
			case 1:
				p := w.Nodes[b].U.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
				crashBundle(c, w, a, b, p)
				if r.Intn(2) == 0 {
					w.InitiateWith(a, b, p)
				}
			}
		}
		t.step(r.Intn(4))
	}
	t.flush()
	if c.Idx < 2 {
		c.Sample(map[string]any{"trace": c.TraceSample(16)})
	}
}

// loads fails when anything stored cannot be loaded.
func loads(c *rt.Case, u *sim.User, peers ...*protocol.SignalAddress) {
	for _, p := range peers {
		u.St.LoadSession(p)
	}
	for _, id := range u.St.PreKeyIDs() {
		u.St.LoadPreKey(id)
	}
	c.Must(len(u.St.BadLoads) == 0, "unloadable-after-crash", "%v", u.St.BadLoads)
}

// converse lets two forked devices exchange messages both ways and tells what worked.
func converse(c *rt.Case, v, s *sim.User) (res string) {
	say := func(a, b *sim.User, tag string) {
		pt := []byte(tag)
		m, pre, err := a.Encrypt(b.Addr(), pt)
		if err != nil {
			res += tag + ":cannot-encrypt "
			return
		}
		got, err := b.Decrypt(a.Addr(), m, pre)
		if err != nil {
			res += tag + ":refused "
			return
		}
		c.Must(bytes.Equal(got, pt), "converse-altered", "%s became %q", tag, got)
		res += tag + ":ok "
	}
	say(s, v, "sender-to-receiver-1")
	say(v, s, "receiver-to-sender-1")
	say(s, v, "sender-to-receiver-2")
	say(v, s, "receiver-to-sender-2")
	return
}

func crashDecrypt(c *rt.Case, w *sim.World, m *sim.Msg) {
	want, why := w.Expect(m)
	v0, s0 := w.Nodes[m.To].U, w.Nodes[m.From].U
	from := w.Addr(m.From)
	// Without a crash.
	a := fork(v0)
	var pt []byte
	var err error
	all, _ := crashAt(a, 1<<30, func() { pt, err = a.Decrypt(from, m.Wire, m.PreKey) })
	c.Must((err == nil) == want, "crash-free:"+why, "model %v, library %v", want, err)
	c.Must(err != nil || bytes.Equal(pt, m.Plain), "crash-free-altered", "")
	if !want {
		c.Must(len(all) == 0, "refused-writes", "a refused message wrote %v", all)
		return
	}
	// The prekeys left after the whole operation, and what follows it.
	left := fmt.Sprint(a.St.PreKeyIDs())
	base := converse(c, a, fork(s0))
	before := v0.St.Session(from.String())
	for k := 0; k <= len(all); k++ {
		b := fork(v0)
		done, hit := crashAt(b, k, func() { b.Decrypt(from, m.Wire, m.PreKey) })
		c.Must(hit == (k < len(all)), "writes-vary", "the number of writes varies: %v, then %v", all, done)
		loads(c, b, from)
		stored := b.St.Session(from.String()) != before
		c.Count("crash_points", 1)
		if hit {
			if stored {
				c.Count("crash_decrypt_after_store", 1)
			} else {
				c.Count("crash_decrypt_before_store", 1)
			}
		}
		redeliver := func(b *sim.User, sig string) {
			pt, err := b.Decrypt(from, m.Wire, m.PreKey)
			if stored {
				// The session has moved on: the message counts as delivered.
				if err == nil {
					c.Fail("twice-after-crash"+sig+":"+why, "after a crash with %v written, message #%d was accepted again", done, m.N)
				}
			} else {
				if err != nil {
					c.Fail("lost-after-crash"+sig+":"+why, "after a crash with only %v written, message #%d can no longer be read: %v", done, m.N, err)
				}
				c.Must(bytes.Equal(pt, m.Plain), "altered-after-crash", "%x", clip(pt))
			}
		}
		if !stored {
			// Crash again while it is redelivered.
			for j := 0; j < len(all); j++ {
				d := fork(b)
				done2, hit2 := crashAt(d, j, func() { d.Decrypt(from, m.Wire, m.PreKey) })
				c.Count("double_crashes", 1)
				if hit2 && d.St.Session(from.String()) == before {
					loads(c, d, from)
					redeliver(d, "-twice")
					if got := fmt.Sprint(d.St.PreKeyIDs()); got != left {
						c.Fail("prekeys-after-crash-twice:"+why, "after crashes with %v and %v written and a redelivery the prekeys are %s, not %s", done, done2, got, left)
					}
				}
			}
		}
		redeliver(b, "")
		if !stored {
			if got := fmt.Sprint(b.St.PreKeyIDs()); got != left {
				c.Fail("prekeys-after-crash:"+why, "after a crash with %v written and a redelivery the prekeys are %s, not %s", done, got, left)
			}
		}
		got := converse(c, b, fork(s0))
		if got != base {
			c.Fail("conversation-after-crash:"+why, "after a crash with %v written the conversation goes %q, without it %q", done, got, base)
		}
		c.Sig("decrypt", why, kinds(done), stored, w.F, m.PreKey)
	}
}

func crashEncrypt(c *rt.Case, w *sim.World, a, b int) {
	u := w.Nodes[a].U
	to := w.Addr(b)
	x := fork(u)
	all, _ := crashAt(x, 1<<30, func() { _, _, err := x.Encrypt(to, []byte("one")); c.NoErr(err, "encrypt") })
	base := converse(c, fork(w.Nodes[b].U), x)
	for k := 0; k <= len(all); k++ {
		y := fork(u)
		var released []byte
		var rpre bool
		done, hit := crashAt(y, k, func() { released, rpre, _ = y.Encrypt(to, []byte("one")) })
		c.Count("crash_points", 1)
		loads(c, y, to)
		peer := fork(w.Nodes[b].U)
		m, pre, err := y.Encrypt(to, []byte("two"))
		c.NoErr(err, "encrypt-after-crash")
		if released != nil {
			// The message left the device: the next one must not share its key.
			if p1, err := peer.Decrypt(w.Addr(a), released, rpre); err == nil {
				c.Must(string(p1) == "one", "released-altered", "%q", p1)
				p2, err := peer.Decrypt(w.Addr(a), m, pre)
				if err != nil || string(p2) != "two" {
					c.Fail("key-reuse-after-crash", "after %v was written and the message released, the next message cannot be read beside it: %v", done, err)
				}
			}
		}
		got := converse(c, fork(w.Nodes[b].U), y)
		if got != base {
			c.Fail("conversation-after-encrypt-crash", "after a crash with %v written the conversation goes %q, without it %q", done, got, base)
		}
		c.Sig("encrypt", kinds(done), hit, w.F, pre, base)
	}
}

func crashBundle(c *rt.Case, w *sim.World, a, b int, p *sim.Published) {
	u := w.Nodes[a].U
	to := w.Addr(b)
	had := w.HasSession(a, b)
	x := fork(u)
	all, _ := crashAt(x, 1<<30, func() { c.NoErr(x.Initiate(to, p), "initiate") })
	for k := 0; k <= len(all); k++ {
		y := fork(u)
		before := y.St.Session(to.String())
		done, _ := crashAt(y, k, func() { y.Initiate(to, p) })
		c.Count("crash_points", 1)
		loads(c, y, to)
		stored := y.St.Session(to.String()) != before
		m, pre, err := y.Encrypt(to, []byte("after"))
		c.Must((err == nil) == (had || stored), "encrypt-after-bundle-crash", "with %v written (session before: %v), Encrypt says %v", done, had, err)
		if err == nil && stored {
			c.Must(pre, "not-opening-after-crash", "")
			got, err := fork(w.Nodes[b].U).Decrypt(w.Addr(a), m, pre)
			c.NoErr(err, "opening-after-crash", done)
			c.Must(string(got) == "after", "opening-after-crash-altered", "%q", got)
		}
		// The bundle can be processed again.
		c.NoErr(y.Initiate(to, p), "bundle-again-after-crash")
		m, pre, err = y.Encrypt(to, []byte("again"))
		c.NoErr(err, "encrypt-again-after-crash")
		got, err := fork(w.Nodes[b].U).Decrypt(w.Addr(a), m, pre)
		c.NoErr(err, "opening-again-after-crash")
		c.Must(string(got) == "again", "opening-again-altered", "%q", got)
		c.Sig("bundle", kinds(done), had, stored, w.F, p.Kind)
	}
}

func runP11Group(c *rt.Case) {
	r := c.R
	f := format(c)
	s := sim.NewUser(c, "alice", 1, f, sim.Bytes)
	v := sim.NewUser(c, "bob", 1, f, sim.Bytes)
	name := func() *protocol.SenderKeyName { return protocol.NewSenderKeyName("group", s.Addr()) }
	ok := func(u *sim.User) {
		u.St.LoadSenderKey(name())
		c.Must(len(u.St.BadLoads) == 0, "unloadable-after-crash", "%v", u.St.BadLoads)
	}
	// Creation.
	x := fork(s)
	all, _ := crashAt(x, 1<<30, func() { _, err := x.CreateGroup(name()); c.NoErr(err, "create") })
	for k := 0; k <= len(all); k++ {
		y := fork(s)
		crashAt(y, k, func() { y.CreateGroup(name()) })
		c.Count("crash_points", 1)
		c.Count("crash_group", 1)
		ok(y)
		d, err := y.CreateGroup(name())
		c.NoErr(err, "create-after-crash")
		z := fork(v)
		c.NoErr(z.JoinGroup(name(), d), "join-after-crash")
		m, err := y.GroupEncrypt(name(), []byte("x"))
		c.NoErr(err, "group-encrypt-after-crash")
		pt, err := z.GroupDecrypt(name(), m)
		c.NoErr(err, "group-decrypt-after-crash")
		c.Must(string(pt) == "x", "group-altered", "")
		c.Sig("group-create", k, f)
	}
	d, err := s.CreateGroup(name())
	c.NoErr(err, "create")
	// Joining.
	x = fork(v)
	all, _ = crashAt(x, 1<<30, func() { c.NoErr(x.JoinGroup(name(), d), "join") })
	for k := 0; k <= len(all); k++ {
		y := fork(v)
		crashAt(y, k, func() { y.JoinGroup(name(), d) })
		c.Count("crash_points", 1)
		c.Count("crash_group", 1)
		ok(y)
		c.NoErr(y.JoinGroup(name(), d), "join-again")
		m, err := fork(s).GroupEncrypt(name(), []byte("x"))
		c.NoErr(err, "group-encrypt")
		pt, err := y.GroupDecrypt(name(), m)
		c.NoErr(err, "group-decrypt-after-join-crash")
		c.Must(string(pt) == "x", "group-altered", "")
		c.Sig("group-join", k, f)
	}
	c.NoErr(v.JoinGroup(name(), d), "join")
	type gm struct {
		b  []byte
		pt string
	}
	var q []gm
	for i := 0; i < 40; i++ {
		if len(q) == 0 || r.Intn(2) == 0 {
			pt := fmt.Sprint("message ", i)
			x := fork(s)
			all, _ := crashAt(x, 1<<30, func() { _, err := x.GroupEncrypt(name(), []byte(pt)); c.NoErr(err, "group-encrypt") })
			for k := 0; k <= len(all); k++ {
				y := fork(s)
				var rel []byte
				crashAt(y, k, func() { rel, _ = y.GroupEncrypt(name(), []byte(pt)) })
				c.Count("crash_points", 1)
				c.Count("crash_group", 1)
				ok(y)
				m2, err := y.GroupEncrypt(name(), []byte("other"))
				c.NoErr(err, "group-encrypt-after-crash")
				z := fork(v)
				if rel != nil {
					p, err := z.GroupDecrypt(name(), rel)
					c.NoErr(err, "group-released")
					c.Must(string(p) == pt, "group-altered", "%q", p)
				}
				p2, err := z.GroupDecrypt(name(), m2)
				if err != nil || string(p2) != "other" {
					c.Fail("group-key-reuse-after-crash", "the message after a crash at write %d cannot be read: %v", k, err)
				}
				c.Sig("group-encrypt", k, f, rel != nil)
			}
			m, err := s.GroupEncrypt(name(), []byte(pt))
			c.NoErr(err, "group-encrypt")
			q = append(q, gm{m, pt})
			continue
		}
		j := r.Intn(len(q))
		m := q[j]
		q = append(q[:j:j], q[j+1:]...)
		x := fork(v)
		before := v.St.SenderKeyText(name())
		all, _ := crashAt(x, 1<<30, func() {
			pt, err := x.GroupDecrypt(name(), m.b)
			c.NoErr(err, "group-decrypt")
			c.Must(string(pt) == m.pt, "group-altered", "%q", pt)
		})
		for k := 0; k <= len(all); k++ {
			y := fork(v)
			crashAt(y, k, func() { y.GroupDecrypt(name(), m.b) })
			c.Count("crash_points", 1)
			c.Count("crash_group", 1)
			ok(y)
			stored := y.St.SenderKeyText(name()) != before
			pt, err := y.GroupDecrypt(name(), m.b)
			if stored && err == nil {
				c.Fail("group-twice-after-crash", "a group message was accepted again after a crash")
			}
			if !stored {
				c.NoErr(err, "group-lost-after-crash")
				c.Must(string(pt) == m.pt, "group-altered", "%q", pt)
			}
			for _, o := range q { // the others are still readable
				pt, err := y.GroupDecrypt(name(), o.b)
				c.NoErr(err, "group-other-lost-after-crash")
				c.Must(string(pt) == o.pt, "group-altered", "%q", pt)
			}
			c.Sig("group-decrypt", k, f, stored, min(len(q), 6))
		}
		_, err := v.GroupDecrypt(name(), m.b)
		c.NoErr(err, "group-decrypt")
	}
}
