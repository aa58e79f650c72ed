package sim

import (
	"verif/rt"

	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

// LeapSize is how far to move a chain on: past the sizes of number encodings.
func LeapSize(c *rt.Case) uint32 {
	xs := [...]uint32{100, 120, 245, 16370, 32760, 65500, 1<<24 - 40, 1<<31 - 40, 1<<32 - 20000}
	return xs[c.R.Intn(len(xs))]
}

// Leap makes the present sending chain from a to b look as if very many more
// messages had been sent and read on it: its numbers move on, on both sides.
func (w *World) Leap(a, b int) {
	m := w.Send(a, b, w.Plain())
	if m == nil || !w.Deliver(m) {
		return
	}
	sa, sb := w.Nodes[a].peers[b][0], w.Nodes[b].peers[a][0]
	d := LeapSize(w.C)
	if sa.sid != sb.sid || sa.sendN > 1<<31 || sa.sendN+d < sa.sendN {
		return
	}
	for _, ch := range sb.chains {
		if ch.key != m.Ratchet || ch.next != sa.sendN {
			continue
		}
		ra := w.Nodes[a].U.St.LoadSession(w.Addr(b))
		rb := w.Nodes[b].U.St.LoadSession(w.Addr(a))
		key := ra.SessionState().SenderRatchetKey()
		ka, kb := ra.SessionState().SenderChainKey(), rb.SessionState().ReceiverChainKey(key)
		w.C.Must(ka.Index() == sa.sendN && kb.Index() == ch.next, "chain-index", "the chain is at %d, %d instead of %d", ka.Index(), kb.Index(), ch.next)
		ra.SessionState().SetSenderChainKey(chain.NewKey(kdf.DeriveSecrets, ka.Key(), ka.Index()+d))
		rb.SessionState().SetReceiverChainKey(key, chain.NewKey(kdf.DeriveSecrets, kb.Key(), kb.Index()+d))
		w.Nodes[a].U.St.StoreSession(w.Addr(b), ra)
		w.Nodes[b].U.St.StoreSession(w.Addr(a), rb)
		sa.sendN += d
		ch.next += d
		w.C.Logf("the chain from %d to %d leaps to %d", a, b, ch.next)
		w.C.Count("leaps", 1)
	}
}

// MoveSender makes a user's own group chain look as if d more messages had been
// sent on it.
func (u *User) MoveSender(c *rt.Case, n *protocol.SenderKeyName, d uint32) {
	rec := u.St.LoadSenderKey(n)
	state, err := rec.SenderKeyState()
	c.NoErr(err, "move")
	k := state.SenderChainKey()
	state.SetSenderChainKey(gratchet.NewSenderChainKey(k.Iteration()+d, k.Seed()))
	u.St.StoreSenderKey(n, rec)
}

// Leap makes a sender's own chain look as if very many more messages had been
// sent on it: those who were told of it before cannot follow.
func (w *Group) Leap(s, g int) {
	st := w.send[[2]int{s, g}]
	if st == nil || st.iter > 1<<31 {
		return
	}
	d := LeapSize(w.C)
	rec := w.Us[s].St.LoadSenderKey(w.Name(g, s))
	state, err := rec.SenderKeyState()
	w.C.NoErr(err, "leap")
	k := state.SenderChainKey()
	state.SetSenderChainKey(gratchet.NewSenderChainKey(k.Iteration()+d, k.Seed()))
	w.Us[s].St.StoreSenderKey(w.Name(g, s), rec)
	st.iter += d
	keep := w.Dist[:0] // older descriptions do not lead to the new numbers
	for _, x := range w.Dist {
		if x.From != s || x.G != g || x.ID != st.id {
			keep = append(keep, x)
		}
	}
	w.Dist = keep
	// Whoever knows the chain has read all of it.
	for v := range w.Us {
		for _, ch := range w.recv[[3]int{v, s, g}] {
			if ch.ID == st.id {
				rec := w.Us[v].St.LoadSenderKey(w.Name(g, s))
				state, err := rec.GetSenderKeyStateByID(st.id)
				w.C.NoErr(err, "leap")
				state.SetSenderChainKey(gratchet.NewSenderChainKey(st.iter, k.Seed()))
				w.Us[v].St.StoreSenderKey(w.Name(g, s), rec)
				ch.next = st.iter
			}
		}
	}
	w.C.Count("group_leaps", 1)
}

// Age gives the two devices a long past, so that what follows meets records at
// their limits: a full archive, all receiving chains in use, very many skipped
// messages, or a long chain. It returns messages of that past still under way.
func (w *World) Age(a, b int) (held []*Msg) {
	r, c := w.C.R, w.C
	hold := func(m *Msg) {
		if m != nil && len(held) < 60 {
			held = append(held, m)
		}
	}
	start := func(x, y int) {
		if !w.HasSession(x, y) {
			w.Initiate(x, y, OneTime)
		}
	}
	talk := func(x, y int) { w.Deliver(w.Send(x, y, w.Plain())) }
	switch k := r.Intn(5); k {
	case 4: // chains with high numbers, in both directions
		start(a, b)
		w.Leap(a, b)
		talk(a, b)
		w.Leap(b, a)
		if w.HasSession(b, a) {
			talk(b, a)
		}
		w.Leap(a, b)
		return
	case 0: // a full archive, on one side or both
		n := MaxArchived - 3 + r.Intn(8)
		one := r.Intn(2) == 0
		for i := 0; i < n; i++ {
			x, y := a, b
			if !one && r.Intn(2) == 0 {
				x, y = y, x
			}
			w.Initiate(x, y, PreKeyKind(r.Intn(3)))
			if r.Intn(4) == 0 {
				hold(w.Send(x, y, w.Plain()))
			}
			if r.Intn(8) > 0 {
				talk(x, y)
			}
		}
		c.Count("aged_archive", 1)
	case 1: // all receiving chains in use, each with messages missing
		start(a, b)
		for i := MaxChains + r.Intn(4); i >= 0; i-- {
			for _, p := range [][2]int{{a, b}, {b, a}} {
				if !w.HasSession(p[0], p[1]) {
					continue
				}
				for k := r.Intn(4); k > 0; k-- {
					hold(w.Send(p[0], p[1], w.Plain()))
				}
				talk(p[0], p[1])
			}
		}
		c.Count("aged_chains", 1)
	case 2: // many skipped messages
		n := 150 + r.Intn(300)
		if r.Intn(3) == 0 && w.Nodes[b].U.St.Mode != Bytes {
			n = MaxSkipped - 3 + r.Intn(8)
		}
		held = w.Skip(a, b, n, 1)
		c.Count("aged_skipped", 1)
	default: // one long chain, read in order
		start(a, b)
		for i := 100 + r.Intn(500); i > 0; i-- {
			m := w.Send(a, b, []byte{byte(i), byte(i >> 8)})
			w.Deliver(m)
		}
		c.Count("aged_chain", 1)
	}
	return held
}

// Skip has b miss n messages on each of several chains of a, and returns some.
func (w *World) Skip(a, b, n, chains int) (held []*Msg) {
	if !w.HasSession(a, b) {
		w.Initiate(a, b, OneTime)
	}
	for k := 0; k < chains; k++ {
		if k > 0 && w.HasSession(b, a) {
			w.Deliver(w.Send(b, a, w.Plain()))
		}
		for i := 0; i < n; i++ {
			m := w.Send(a, b, []byte{byte(i), byte(i >> 8)})
			if m != nil && (i < 4 || i > n-5 || w.C.R.Intn(n) < 20) {
				held = append(held, m)
			}
		}
		w.Deliver(w.Send(a, b, w.Plain()))
	}
	return
}

// Kept lists the counters of the skipped messages of m's chain that its
// receiver must still be able to read, oldest first.
func (w *World) Kept(m *Msg) []uint32 {
	for _, s := range w.Nodes[m.To].peers[m.From] {
		if s.sid != m.Sid {
			continue
		}
		for _, ch := range s.chains {
			if ch.key == m.Ratchet {
				return append([]uint32{}, ch.skipped...)
			}
		}
	}
	return nil
}

// Kept lists the iterations of the skipped messages of m's chain that the
// member must still be able to read, oldest first.
func (w *Group) Kept(v int, m *GMsg) []uint32 {
	for _, ch := range w.recv[[3]int{v, m.From, m.G}] {
		if ch.ID == m.ID {
			return append([]uint32{}, ch.skipped...)
		}
	}
	return nil
}
