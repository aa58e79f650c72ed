package sim

import (
	"bytes"

	"verif/rt"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

// The library's limits for group chains.
const (
	MaxGroupGap    = 2000
	MaxGroupStored = 2000
	// MaxGroupChains is the number of chains of one sender that are kept.
	MaxGroupChains = 2000
)

// GChain is the model of one receiving chain.
type GChain struct {
	ID      uint32
	next    uint32
	skipped []uint32
}

// Group is a set of devices that talk in groups, with a model of what each
// member must accept.
type Group struct {
	C     *rt.Case
	F     wire.Format
	Us    []*User
	Names []string
	// recv[receiver][sender][group] lists the chains the receiver knows.
	recv map[[3]int][]*GChain
	// send[sender][group]
	send map[[2]int]*gSend
	Msgs []*GMsg
	Dist []*GDist
}

type gSend struct {
	id, iter uint32
}

// GMsg is a group message.
type GMsg struct {
	N, From, G int
	ID, Iter   uint32
	Plain      []byte
	Wire       []byte
	W          *wire.SenderKey
	Got        map[int]int
}

// GDist is a distribution message.
type GDist struct {
	From, G  int
	ID, Iter uint32
	Wire     []byte
}

// NewGroup makes n devices and g groups.
func NewGroup(c *rt.Case, n, g int, f wire.Format, mode func(int) Mode) *Group {
	w := &Group{C: c, F: f, recv: map[[3]int][]*GChain{}, send: map[[2]int]*gSend{}}
	for i := 0; i < n; i++ {
		// Names and devices overlap so that addresses must be told apart.
		name, dev := oddName(c, i, []string{"alice", "bob", "alice", "bob", "carol"})
		w.Us = append(w.Us, NewUser(c, name, dev, f, mode(i)))
	}
	off := c.R.Intn(6)
	for i := 0; i < g; i++ {
		w.Names = append(w.Names, []string{"group", "group1", "other", "", "gr\u00fc\u00dfe", "group::alice"}[(i+off)%6])
	}
	return w
}

// Name is a fresh sender key name.
func (w *Group) Name(g, sender int) *protocol.SenderKeyName {
	return protocol.NewSenderKeyName(w.Names[g], w.Us[sender].Addr())
}

// Create lets a sender describe its chain.
func (w *Group) Create(s, g int) *GDist {
	c := w.C
	var b []byte
	var err error
	if pn := rt.Try(func() { b, err = w.Us[s].CreateGroup(w.Name(g, s)) }); pn != "" {
		c.Fail("create-panic", "%s", pn)
	}
	c.NoErr(err, "create")
	d, err := wire.DecodeDist(w.F, b)
	c.NoErr(err, "create-decode")
	st := w.send[[2]int{s, g}]
	if st == nil {
		st = &gSend{d.ID, d.Iter}
		c.Must(d.Iter == 0, "create-iteration", "a new chain starts at %d", d.Iter)
		for k, o := range w.send {
			c.Must(o.id != d.ID || k == [2]int{s, g}, "create-id-repeats", "two chains have the ID %d", d.ID)
		}
		w.send[[2]int{s, g}] = st
	}
	c.Must(d.ID == st.id, "create-changes-id", "describing the chain again changed its ID from %d to %d", st.id, d.ID)
	c.Must(d.Iter == st.iter, "create-iteration-wrong", "the chain is at iteration %d but is described at %d", st.iter, d.Iter)
	gd := &GDist{s, g, d.ID, d.Iter, b}
	w.Dist = append(w.Dist, gd)
	c.Count("distributions", 1)
	return gd
}

// Join lets a member process a distribution message.
func (w *Group) Join(v int, d *GDist) {
	c := w.C
	var err error
	if pn := rt.Try(func() { err = w.Us[v].JoinGroup(w.Name(d.G, d.From), d.Wire) }); pn != "" {
		c.Fail("join-panic", "%s", pn)
	}
	c.NoErr(err, "join")
	k := [3]int{v, d.From, d.G}
	for _, x := range w.recv[k] {
		if x.ID == d.ID { // known already: the chain stays where it is
			return
		}
	}
	w.recv[k] = append(w.recv[k], &GChain{ID: d.ID, next: d.Iter})
	c.Count("joins", 1)
}

// Knows tells whether v has a chain of the sender.
func (w *Group) Knows(v, s, g int) bool { return len(w.recv[[3]int{v, s, g}]) > 0 }

// DropSenderKey forgets a sender key record.
func (st *Store) DropSenderKey(n *protocol.SenderKeyName) {
	delete(st.skB, skName(n))
	delete(st.skP, skName(n))
}

// Reinstall drops a sender's own chain, so that the next one is new.
func (w *Group) Reinstall(s, g int) {
	w.Us[s].St.DropSenderKey(w.Name(g, s))
	delete(w.send, [2]int{s, g})
}

// Send encrypts a group message.
func (w *Group) Send(s, g int, pt []byte) *GMsg {
	c := w.C
	in := append([]byte{}, pt...)
	var b []byte
	var err error
	if pn := rt.Try(func() { b, err = w.Us[s].GroupEncrypt(w.Name(g, s), in) }); pn != "" {
		c.Fail("group-encrypt-panic", "%s", pn)
	}
	st := w.send[[2]int{s, g}]
	if st == nil {
		c.Must(err != nil, "encrypt-without-key", "a group message was encrypted without a sender key")
		return nil
	}
	c.NoErr(err, "group-encrypt")
	m, err := wire.DecodeSenderKey(w.F, b)
	c.NoErr(err, "group-decode")
	c.Must(m.ID == st.id && m.Iter == st.iter, "group-numbering", "a message of chain %d at iteration %d is marked %d, %d", st.id, st.iter, m.ID, m.Iter)
	st.iter++
	x := &GMsg{N: len(w.Msgs), From: s, G: g, ID: m.ID, Iter: m.Iter, Plain: append([]byte{}, pt...), Wire: b, W: m, Got: map[int]int{}}
	w.Msgs = append(w.Msgs, x)
	c.Logf("#%d from %d in group %d: chain %d iteration %d", x.N, s, g, m.ID, m.Iter)
	c.Count("group_sent", 1)
	return x
}

// Expect is the model's verdict.
func (w *Group) Expect(v int, m *GMsg) (bool, string, func()) {
	for _, ch := range w.recv[[3]int{v, m.From, m.G}] {
		if ch.ID != m.ID {
			continue
		}
		if m.Iter < ch.next {
			for i, k := range ch.skipped {
				if k == m.Iter {
					return true, "skipped", func() { ch.skipped = append(ch.skipped[:i:i], ch.skipped[i+1:]...) }
				}
			}
			return false, "old", nil
		}
		if m.Iter-ch.next > MaxGroupGap {
			return false, "too-far", nil
		}
		why := "in-chain"
		if m.Iter > ch.next {
			why = "gap"
		}
		return true, why, func() {
			for i := ch.next; i < m.Iter; i++ {
				ch.skipped = append(ch.skipped, i)
				if len(ch.skipped) > MaxGroupStored {
					ch.skipped = ch.skipped[1:]
				}
			}
			ch.next = m.Iter + 1
		}
	}
	if len(w.recv[[3]int{v, m.From, m.G}]) == 0 {
		return false, "no-chain", nil
	}
	return false, "unknown-chain", nil
}

// Deliver delivers a message to a member and compares with the model.
func (w *Group) Deliver(v int, m *GMsg) bool {
	c := w.C
	want, why, apply := w.Expect(v, m)
	var pt []byte
	var err error
	if pn := rt.Try(func() { pt, err = w.Us[v].GroupDecrypt(w.Name(m.G, m.From), m.Wire) }); pn != "" {
		c.Fail("group-decrypt-panic:"+why, "%s", pn)
	}
	c.Logf("deliver #%d to %d: model %v (%s), library err=%v", m.N, v, want, why, err)
	if want {
		if err != nil {
			c.Fail("group-lost:"+why, "group message #%d must be accepted by %d (%s) but was refused: %v", m.N, v, why, err)
		}
		c.Must(bytes.Equal(pt, m.Plain), "group-altered:"+why, "group message #%d decrypted to %x", m.N, head(pt))
		apply()
		m.Got[v]++
		c.Count("group_accepted", 1)
	} else {
		if err == nil {
			s := "group-accepted:"
			if m.Got[v] > 0 {
				s = "group-replayed:"
			}
			c.Fail(s+why, "group message #%d must be refused by %d (%s, read %d times before) but decrypted to %x", m.N, v, why, m.Got[v], head(pt))
		}
		c.Count("group_refused", 1)
	}
	c.Must(len(w.Us[v].St.BadLoads) == 0, "bad-load", "%v", w.Us[v].St.BadLoads)
	c.Count("group_"+why, 1)
	c.Sig(w.F, w.Us[v].St.Mode, why, bucket(int64(m.Iter)), len(w.recv[[3]int{v, m.From, m.G}]), len(m.Plain)%16)
	return want
}

// Plain makes a plaintext.
func (w *Group) Plain() []byte {
	x := World{C: w.C}
	return x.Plain()
}

// Sending tells the ID and next iteration of a sender's own chain.
func (w *Group) Sending(s, g int) (id, iter uint32, ok bool) {
	st := w.send[[2]int{s, g}]
	if st == nil {
		return 0, 0, false
	}
	return st.id, st.iter, true
}

// ChainFacts is what a member must hold of a chain.
type ChainFacts struct {
	Next    uint32
	Skipped map[uint32]bool
}

// Chains lists the chains of a sender that a member knows, by ID.
func (w *Group) Chains(v, s, g int) map[uint32]ChainFacts {
	m := map[uint32]ChainFacts{}
	for _, ch := range w.recv[[3]int{v, s, g}] {
		k := ChainFacts{ch.next, map[uint32]bool{}}
		for _, i := range ch.skipped {
			k.Skipped[i] = true
		}
		m[ch.ID] = k
	}
	return m
}
