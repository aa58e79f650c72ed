package checks

import (
	"bytes"
	"fmt"

	"verif/rt"
	"verif/sim"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P07",
		Rule: "one case is a device talking to an address behind which several installations with the same or different identities appear; trust is decided by an arbitrary changing policy, by trust on first use with approvals, or by trusting all. Every bundle, encryption and decryption must succeed exactly when the policy trusts the identity at stake, and the saved identity must be the one last used. " +
			"Distinct by operation, verdict, policy kind, store kind, format, whether the identity is the saved one, and session age",
		Cases: tiered(1500, 30000),
		Run:   runP07,
		Need:  map[string]int64{"trusted_ops": 8000, "distrusted_refused": 5000, "promotions": 300, "opened_by_record": 500},
	})
}

type install struct {
	u *sim.User
	// known: alice accepted a session of this installation.
	known bool
	// pending opening or ordinary messages are sent on demand
	has bool // the installation has a session towards alice
}

func runP07(c *rt.Case) {
	r := c.R
	f := format(c)
	alice := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	n := 2 + r.Intn(3)
	var ins []*install
	for i := 0; i < n; i++ {
		in := &install{}
		if i > 0 && r.Intn(3) == 0 {
			in.u = sim.NewUserWithID(c, "bob", 1, f, sim.Mode(r.Intn(3)), ins[r.Intn(i)].u.ID)
		} else {
			in.u = sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
		}
		ins = append(ins, in)
	}
	bob := ins[0].u.Addr()
	pol := r.Intn(3) // 0 first use, 1 table, 2 trust all
	table := map[string]bool{}
	asked := 0
	trusted := func(k []byte) bool {
		switch pol {
		case 1:
			return table[string(k)]
		case 2:
			return true
		}
		old := alice.St.Identity(bob.String())
		return len(old) == 0 || bytes.Equal(old, k)
	}
	alice.St.Policy = func(addr string, k []byte) bool {
		c.Must(addr == bob.String(), "policy-asked-wrong-address", "the trust decision was asked for %q", addr)
		asked++
		return trusted(k)
	}
	cur := -1 // whose session is alice's current one
	idOf := func(i int) []byte { return ins[i].u.ID.PublicKey().Serialize() }
	judge := func(op string, i int, f2 func() error) bool {
		want := trusted(idOf(i))
		saved := append([]byte{}, alice.St.Identity(bob.String())...)
		before := alice.St.Snapshot()
		err := f2()
		c.Logf("%s with installation %d: trusted=%v err=%v", op, i, want, err)
		c.Sig(op, want, pol, alice.St.Mode, f, bytes.Equal(saved, idOf(i)), len(saved) > 0, cur == i)
		if want {
			if err != nil {
				c.Fail("refused-trusted:"+op, "%s with a trusted identity failed: %v", op, err)
			}
			got := alice.St.Identity(bob.String())
			c.Must(bytes.Equal(got, idOf(i)), "saved:"+op, "after %s the saved identity is %x, not %x", op, got, idOf(i))
			c.Count("trusted_ops", 1)
			return true
		}
		if err == nil {
			c.Fail("accepted-untrusted:"+op, "%s with an untrusted identity succeeded", op)
		}
		c.Must(alice.St.Snapshot() == before, "untrusted-trace:"+op, "%s with an untrusted identity changed what is stored", op)
		c.Count("distrusted_refused", 1)
		return false
	}
	recv := func(i int) {
		in := ins[i]
		pt := randBytes(c, 1+r.Intn(40))
		b, pre, err := in.u.Encrypt(alice.Addr(), pt)
		c.NoErr(err, "installation-encrypt")
		op := "decrypt"
		if pre {
			op = "decrypt-opening"
		}
		if in.known && cur != i {
			op += "-older-session"
		}
		var got []byte
		read := func() (err error) { got, err = alice.Decrypt(bob, b, pre); return }
		if pre && r.Intn(4) == 0 {
			op += "-by-record"
			read = func() (err error) { got, err = alice.OpenByRecord(bob, b); return }
			c.Count("opened_by_record", 1)
		}
		if judge(op, i, read) {
			c.Must(bytes.Equal(got, pt), "wrong-plaintext", "%x", got)
			if in.known && cur != i {
				c.Count("promotions", 1)
			}
			in.known, cur = true, i
		}
	}
	for step := 0; step < 60; step++ {
		i := r.Intn(n)
		in := ins[i]
		switch r.Intn(9) {
		case 0:
			p := alice.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			c.NoErr(in.u.Initiate(alice.Addr(), p), "installation-initiate")
			in.has, in.known = true, false
			recv(i)
		case 1:
			p := in.u.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			if judge("bundle", i, func() error { return alice.Initiate(bob, p) }) {
				cur = i
			}
		case 2, 3, 4:
			if in.has {
				recv(i)
			}
		case 5, 6:
			if cur >= 0 {
				k := cur
				pt := randBytes(c, 1+r.Intn(40))
				var b []byte
				var pre bool
				if judge("encrypt", k, func() (err error) { b, pre, err = alice.Encrypt(bob, pt); return }) {
					got, err := ins[k].u.Decrypt(alice.Addr(), b, pre)
					c.NoErr(err, "installation-decrypt")
					c.Must(bytes.Equal(got, pt), "wrong-plaintext-out", "%x", got)
					ins[k].has, ins[k].known = true, true
				}
			}
		case 7:
			if pol == 1 {
				table[string(idOf(i))] = r.Intn(3) > 0
			}
			if pol != 0 { // the application may also forget, or have set, what is saved
				switch r.Intn(4) {
				case 0:
					alice.St.ForgetIdentity(bob.String())
				case 1:
					alice.St.SetIdentity(bob.String(), idOf(r.Intn(n)))
				}
			} else if r.Intn(3) == 0 {
				alice.St.ForgetIdentity(bob.String())
			}
		case 8: // a damaged message of an untrusted or trusted installation saves nothing
			if in.has {
				b, pre, err := in.u.Encrypt(alice.Addr(), []byte("x"))
				c.NoErr(err, "installation-encrypt")
				m := append([]byte{}, b...)
				m[len(m)-1-r.Intn(4)] ^= 1
				before := alice.St.Snapshot()
				if _, err := alice.Decrypt(bob, m, pre); err != nil {
					c.Must(alice.St.Snapshot() == before, "damaged-trace", "a damaged message changed what is stored")
				} else { // the damage hit an unauthenticated part
					in.known, cur = true, i
				}
			}
		}
	}
	c.Must(asked > 0, "policy-never-asked", "the trust decision was never asked")
	if c.Idx < 2 {
		c.Sample(map[string]any{"policy": fmt.Sprint([]string{"first-use", "table", "all"}[pol]), "installations": n, "trace": c.TraceSample(10)})
	}
}
