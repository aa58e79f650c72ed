package checks

import (
	"encoding/json"
	"fmt"
	"runtime"
	"time"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P14",
		Rule: "one case drives one bounded resource far past its limit: endless re-establishment, endless ratchet turns, endless skipped messages, huge announced counters (forged and by the genuine peer), groups likewise; sizes of the stored records and the memory allocated by a refusal are measured against their value at the limit. " +
			"Distinct by resource, format and measured size class",
		Cases:       tiered(54, 450),
		Run:         runP14,
		CPU:         60 * time.Second,
		Need:        map[string]int64{"resources": 40, "huge_refused": 100, "records_counted": 60},
		Assumptions: []string{"work is measured as processor time per case (budget 60 s, normal use below 10 s) and bytes allocated per refusal"},
	})
}

// allocs measures the bytes f allocates.
func allocs(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

// sessionLimits counts what a stored session record holds.
func sessionLimits(c *rt.Case, stored string) {
	type chain struct{ MessageKeys []json.RawMessage }
	type state struct{ ReceiverChains []*chain }
	var r struct {
		SessionState   *state
		PreviousStates []*state
	}
	if json.Unmarshal([]byte(stored), &r) != nil || r.SessionState == nil {
		return
	}
	c.Max("max_archived", int64(len(r.PreviousStates)))
	c.Must(len(r.PreviousStates) <= 40, "limit-archive", "%d earlier sessions are stored", len(r.PreviousStates))
	for _, s := range append(r.PreviousStates, r.SessionState) {
		if s == nil {
			continue
		}
		c.Max("max_chains", int64(len(s.ReceiverChains)))
		c.Must(len(s.ReceiverChains) <= 5, "limit-chains", "%d receiving chains are stored", len(s.ReceiverChains))
		for _, ch := range s.ReceiverChains {
			if ch != nil {
				c.Max("max_keys", int64(len(ch.MessageKeys)))
				c.Must(len(ch.MessageKeys) <= 2000, "limit-keys", "%d waiting keys of one chain are stored", len(ch.MessageKeys))
			}
		}
	}
	c.Count("records_counted", 1)
}

// groupLimits counts what a stored sender key record holds.
func groupLimits(c *rt.Case, stored string) {
	var r struct {
		SenderKeyStates []*struct{ Keys []json.RawMessage }
	}
	if json.Unmarshal([]byte(stored), &r) != nil {
		return
	}
	c.Max("max_group_chains", int64(len(r.SenderKeyStates)))
	c.Must(len(r.SenderKeyStates) <= 2000, "limit-group-chains", "%d chains of one sender are stored", len(r.SenderKeyStates))
	for _, s := range r.SenderKeyStates {
		if s != nil {
			c.Max("max_group_keys", int64(len(s.Keys)))
			c.Must(len(s.Keys) <= 2000, "limit-group-keys", "%d waiting keys of one chain are stored", len(s.Keys))
		}
	}
	c.Count("records_counted", 1)
}

func runP14(c *rt.Case) {
	kind := []string{"archive", "archive-in", "turns", "skipped", "huge", "group-skipped", "group-huge", "skipped-many-chains", "group-chains"}[c.Idx%9]
	f := format(c)
	a := sim.NewUser(c, "alice", 1, f, pick(c, sim.Ptr, sim.PtrInsert))
	b := sim.NewUser(c, "bob", 1, f, pick(c, sim.Ptr, sim.PtrInsert))
	c.Logf("resource %s", kind)
	size := func(u *sim.User, p *protocol.SignalAddress) int {
		stored := u.St.Session(p.String())
		sessionLimits(c, stored)
		return len(stored)
	}
	groupSize := func(n *protocol.SenderKeyName) int {
		stored := b.St.SenderKeyText(n)
		groupLimits(c, stored)
		return len(stored)
	}
	grow := func(what string, at, later int) {
		c.Max("max_record_"+what, int64(later))
		c.Sig(what, f, later/2000)
		if float64(later) > 1.25*float64(at)+2000 {
			c.Fail("grows:"+what, "the record has %d bytes where the limit applies and %d bytes later", at, later)
		}
	}
	open := func(x, y *sim.User) ([]byte, bool) {
		c.NoErr(x.Initiate(y.Addr(), y.Publish(c, sim.NoPreKey)), "initiate")
		m, pre, err := x.Encrypt(y.Addr(), []byte("hi"))
		c.NoErr(err, "encrypt")
		return m, pre
	}
	switch kind {
	case "archive", "archive-in":
		var at [2]int
		lost := c.R.Intn(4)
		for i := 0; i < 150; i++ {
			m, pre := open(a, b)
			if kind == "archive-in" {
				// Some messages of every session never arrive: their keys wait.
				for j := i % 3 * lost; j > 0; j-- {
					var err error
					m, pre, err = a.Encrypt(b.Addr(), []byte("m"))
					c.NoErr(err, "encrypt")
				}
				_, err := b.Decrypt(a.Addr(), m, pre)
				c.NoErr(err, "decrypt")
			}
			if i == 45 {
				at = [2]int{size(a, b.Addr()), size(b, a.Addr())}
			}
		}
		grow("archive-out", at[0], size(a, b.Addr()))
		if kind == "archive-in" {
			grow("archive-in", at[1], size(b, a.Addr()))
		}
	case "turns":
		m, pre := open(a, b)
		_, err := b.Decrypt(a.Addr(), m, pre)
		c.NoErr(err, "decrypt")
		var at [2]int
		lost := c.R.Intn(4)
		for i := 0; i < 120; i++ {
			x, y := b, a
			if i%2 == 1 {
				x, y = a, b
			}
			m, pre, err := x.Encrypt(y.Addr(), []byte("m"))
			c.NoErr(err, "encrypt")
			for j := 0; j < lost; j++ {
				m, pre, err = x.Encrypt(y.Addr(), []byte("m"))
				c.NoErr(err, "encrypt")
			}
			_, err = y.Decrypt(x.Addr(), m, pre)
			c.NoErr(err, "decrypt")
			if i == 14 {
				at = [2]int{size(a, b.Addr()), size(b, a.Addr())}
			}
		}
		grow("turns", at[0], size(a, b.Addr()))
		grow("turns", at[1], size(b, a.Addr()))
	case "skipped":
		m, pre := open(a, b)
		_, err := b.Decrypt(a.Addr(), m, pre)
		c.NoErr(err, "decrypt")
		at := 0
		for i := 0; i < 4; i++ {
			n := 2100
			var m []byte
			var pre bool
			for j := 0; j < n; j++ {
				m, pre, err = a.Encrypt(b.Addr(), []byte("m"))
				c.NoErr(err, "encrypt")
			}
			_, err = b.Decrypt(a.Addr(), m, pre)
			c.NoErr(err, "decrypt")
			if i == 0 {
				at = size(b, a.Addr())
			}
		}
		grow("skipped", at, size(b, a.Addr()))
	case "skipped-many-chains":
		m, pre := open(a, b)
		_, err := b.Decrypt(a.Addr(), m, pre)
		c.NoErr(err, "decrypt")
		at := 0
		for i := 0; i < 20; i++ {
			// a turns to a new chain and skips 300 messages of it
			m, pre, err := b.Encrypt(a.Addr(), []byte("turn"))
			c.NoErr(err, "encrypt")
			_, err = a.Decrypt(b.Addr(), m, pre)
			c.NoErr(err, "decrypt")
			for j := 0; j < 300; j++ {
				m, pre, err = a.Encrypt(b.Addr(), []byte("m"))
				c.NoErr(err, "encrypt")
			}
			_, err = b.Decrypt(a.Addr(), m, pre)
			c.NoErr(err, "decrypt")
			if i == 6 {
				at = size(b, a.Addr())
			}
		}
		grow("skipped-chains", at, size(b, a.Addr()))
	case "huge":
		// A genuine peer (the reference) that announces any counter it likes, and forgeries.
		id, signed, pre := newRefKey(c), newRefKey(c), newRefKey(c)
		peer := protoAddr("bob", 1)
		pub := a.Publish(c, sim.OneTime)
		pk := pub.Bundle.PreKey().PublicKey()
		s := ref.Initiate(f, id, 7, ref.Bundle{Identity: pub.Bundle.IdentityKey().PublicKey().PublicKey(), SignedPub: pub.Bundle.SignedPreKey().PublicKey(), SignedID: pub.SignedID, PreKeyID: pub.PreKeyID, PreKey: &pk}, func() ref.KeyPair { return newRefKey(c) })
		_, _ = signed, pre
		m, isPre := s.Encrypt([]byte("hi"))
		_, err := a.Decrypt(peer, m, isPre)
		c.NoErr(err, "decrypt")
		for i := 0; i < 40; i++ {
			m, isPre := s.Encrypt([]byte("x"))
			inner := m
			var w *wire.PreKey
			if isPre {
				w, _ = wire.DecodePreKey(f, m)
				inner = w.Message
			}
			x, _ := wire.DecodeSignal(f, inner)
			if i%2 == 0 {
				x.Counter = pick(c, uint32(0xFFFFFFFF), 0x7FFFFFFF, 0x80000000, 6000+uint32(i)+c.R.Uint32()%1000000, 100000)
			} else { // on a chain of its own
				x.Counter = pick(c, uint32(0xFFFFFFFF), 0x7FFFFFFF, 0x80000001, 5001, 5001+c.R.Uint32()%1000000)
				k := newRefKey(c)
				x.Ratchet = ref.Enc33(k.Pub)
			}
			enc := x.Encode(f)
			if w != nil {
				w.Message = enc
				enc = w.Encode(f)
			}
			before := a.St.Snapshot()
			var derr error
			got := allocs(func() { _, derr = a.Decrypt(peer, enc, isPre) })
			c.Must(derr != nil, "huge-accepted", "a message with counter %d was accepted", x.Counter)
			c.Must(a.St.Snapshot() == before, "huge-trace", "a refused message changed what is stored")
			c.Max("max_refusal_bytes", got)
			if got > 24<<20 {
				c.Fail("huge-work", "refusing counter %d allocated %d bytes", x.Counter, got)
			}
			c.Count("huge_refused", 1)
			c.Sig("huge", f, i%2, x.Counter>>20)
		}
		// Genuine messages just beyond the limit and just within it: one was read,
		// and the first refused above took the place of the second.
		var in, out []byte
		for i := 41; i <= 5002; i++ {
			in = out
			out, isPre = s.Encrypt([]byte("y"))
		}
		before := a.St.Snapshot()
		_, err = a.Decrypt(peer, out, isPre)
		c.Must(err != nil, "huge-accepted", "a message 5001 ahead was accepted")
		c.Must(a.St.Snapshot() == before, "huge-trace", "a refused message changed what is stored")
		_, err = a.Decrypt(peer, in, isPre)
		c.NoErr(err, "after-huge")
		size(a, peer)
	case "group-skipped":
		name := protocol.NewSenderKeyName("g", a.Addr())
		d, err := a.CreateGroup(name)
		c.NoErr(err, "create")
		c.NoErr(b.JoinGroup(name, d), "join")
		at := 0
		for i := 0; i < 4; i++ {
			var m []byte
			for j := 0; j < 1900; j++ {
				m, err = a.GroupEncrypt(name, []byte("m"))
				c.NoErr(err, "group-encrypt")
			}
			_, err = b.GroupDecrypt(name, m)
			c.NoErr(err, "group-decrypt")
			if i == 1 {
				at = groupSize(name)
			}
		}
		grow("group-skipped", at, groupSize(name))
	case "group-chains": // a sender that starts anew endlessly, and repeats its descriptions
		name := protocol.NewSenderKeyName("g", a.Addr())
		at := 0
		var last []byte
		var rs, oldest *ref.SenderChain
		lost := c.R.Intn(2) == 0
		for i := 0; i < 3207; i++ {
			if i%8 == 0 || last == nil {
				rs = &ref.SenderChain{F: f, ID: c.R.Uint32(), Chain: randBytes(c, 32), Sign: newRefKey(c)}
				rs.SignPub = rs.Sign.Pub
				last = rs.Dist()
				if i == 1200 {
					oldest = rs
				}
			}
			c.NoErr(b.JoinGroup(name, last), "join")
			if i%8 == 7 && lost {
				// Messages of every chain never arrive: their keys wait.
				for j := 0; j < 2; j++ {
					rs.Encrypt([]byte("lost"), [64]byte{})
				}
				_, err := b.GroupDecrypt(name, rs.Encrypt([]byte("m"), [64]byte{}))
				c.NoErr(err, "group-decrypt")
				last = rs.Dist()
			}
			if i == 2050 {
				at = groupSize(name)
			}
		}
		grow("group-chains", at, groupSize(name))
		pt, err := b.GroupDecrypt(name, rs.Encrypt([]byte("ok"), [64]byte{}))
		c.NoErr(err, "newest-chain")
		c.Must(string(pt) == "ok", "newest-chain", "%q", pt)
		// The oldest description kept, 2000 before the end, is the last one of its chain.
		pt, err = b.GroupDecrypt(name, oldest.Encrypt([]byte("old"), [64]byte{}))
		c.NoErr(err, "oldest-chain")
		c.Must(string(pt) == "old", "oldest-chain", "%q", pt)
	case "group-huge":
		name := protocol.NewSenderKeyName("g", a.Addr())
		rs := &ref.SenderChain{F: f, ID: uint32(c.R.Intn(1 << 30)), Chain: randBytes(c, 32), Sign: newRefKey(c)}
		rs.SignPub = rs.Sign.Pub
		c.NoErr(b.JoinGroup(name, rs.Dist()), "join")
		for i := 0; i < 30; i++ {
			var rnd [64]byte
			c.R.Read(rnd[:])
			x := *rs
			x.Iter = pick(c, uint32(0xFFFFFFFF), 0x7FFFFFFF, 0x80000000, 2001+c.R.Uint32()%100000, 2001)
			m := x.Encrypt([]byte("x"), rnd)
			before := b.St.Snapshot()
			var derr error
			got := allocs(func() { _, derr = b.GroupDecrypt(name, m) })
			c.Must(derr != nil, "group-huge-accepted", "an announced iteration of %d was accepted", x.Iter-1)
			c.Must(b.St.Snapshot() == before, "group-huge-trace", "a refused group message changed what is stored")
			c.Max("max_group_refusal_bytes", got)
			if got > 24<<20 {
				c.Fail("group-huge-work", "refusing iteration %d allocated %d bytes", x.Iter-1, got)
			}
			c.Count("huge_refused", 1)
			c.Sig("group-huge", f, x.Iter>>20)
		}
		// The genuine next one still works.
		var rnd [64]byte
		pt, err := b.GroupDecrypt(name, rs.Encrypt([]byte("ok"), rnd))
		c.NoErr(err, "group-after-huge")
		c.Must(string(pt) == "ok", "group-after-huge", "%q", pt)
	}
	c.Count("resources", 1)
	if c.Idx < 8 {
		c.Sample(map[string]any{"resource": kind, "format": fmt.Sprint(f)})
	}
}
