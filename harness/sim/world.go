package sim

import (
	"bytes"
	"fmt"

	"verif/rt"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// The library's documented limits, which the model shares.
const (
	MaxFuture   = 5000 // a message may be at most this far ahead of its chain
	MaxSkipped  = 2000 // skipped message keys kept per chain, oldest dropped first
	MaxChains   = 5    // receiving chains kept per session, oldest dropped first
	MaxArchived = 40   // archived sessions kept per peer, oldest dropped first
)

type mChain struct {
	key     string
	next    uint32
	skipped []uint32
}

// side is the model of one side of one session.
type side struct {
	sid     int
	base    string // serialized base key
	chains  []*mChain
	seen    map[string]bool
	unacked bool
	peerID  string // identity the session is bound to
	// sending
	sendKey string
	sendN   uint32
	prev    uint32
	// gen tells apart re-creations of one session by replayed opening messages
	// (possible without a one-time prekey); 0 = not bound to one yet.
	gen int
}

func (s *side) clone() *side {
	n := *s
	n.chains = nil
	for _, c := range s.chains {
		cc := *c
		cc.skipped = append([]uint32{}, c.skipped...)
		n.chains = append(n.chains, &cc)
	}
	n.seen = map[string]bool{}
	for k := range s.seen {
		n.seen[k] = true
	}
	return &n
}

// deliver is the model of decrypting a message on a session side.
func (s *side) deliver(m *Msg) (ok bool, why string) {
	var ch *mChain
	for _, c := range s.chains {
		if c.key == m.Ratchet {
			ch = c
		}
	}
	if ch == nil {
		if s.seen[m.Ratchet] {
			return false, "chain-evicted"
		}
		if s.gen != 0 && m.gen != 0 && s.gen != m.gen {
			return false, "other-generation"
		}
		if m.Counter > MaxFuture {
			return false, "too-far"
		}
		ch = &mChain{key: m.Ratchet}
		s.seen[m.Ratchet] = true
		if s.gen == 0 {
			s.gen = m.gen
		}
		s.chains = append(s.chains, ch)
		if len(s.chains) > MaxChains {
			s.chains = s.chains[1:]
		}
		s.prev = 0
		if s.sendN > 0 {
			s.prev = s.sendN - 1
		}
		s.sendN, s.sendKey = 0, ""
		why = "new-chain"
	}
	if m.Counter < ch.next {
		for i, k := range ch.skipped {
			if k == m.Counter {
				ch.skipped = append(ch.skipped[:i:i], ch.skipped[i+1:]...)
				s.unacked = false
				return true, "skipped"
			}
		}
		return false, "old"
	}
	if m.Counter-ch.next > MaxFuture {
		return false, "too-far"
	}
	for i := ch.next; i < m.Counter; i++ {
		ch.skipped = append(ch.skipped, i)
		if len(ch.skipped) > MaxSkipped {
			ch.skipped = ch.skipped[1:]
		}
	}
	if why == "" {
		why = "in-chain"
		if m.Counter > ch.next {
			why = "gap"
		}
	}
	ch.next = m.Counter + 1
	s.unacked = false
	return true, why
}

// Msg is a message on the network.
type Msg struct {
	N         int
	From, To  int
	Plain     []byte
	Wire      []byte
	PreKey    bool
	Sid       int
	Ratchet   string
	Counter   uint32
	Delivered int
	Pre       *wire.PreKey
	Inner     *wire.Signal
	base      string
	gen       int
}

type node struct {
	U     *User
	peers map[int][]*side // newest first
}

// World is a set of users with a model of what each must accept.
type World struct {
	C     *rt.Case
	F     wire.Format
	Nodes []*node
	Msgs  []*Msg
	nsid  int
	ngen  int
	// kinds of the sessions by base key
	kind map[string]*Published
	sids map[string]int
	Mons []func(*Msg)
	// Numbers, PreKeys and Idents select what is judged besides acceptance:
	// message numbering and wrapping, prekey bookkeeping, saved identities.
	Numbers, PreKeys, Idents bool
}

// NewWorld makes a world of n users with random store kinds.
func NewWorld(c *rt.Case, n int, f wire.Format, mode func(i int) Mode) *World {
	w := &World{C: c, F: f, kind: map[string]*Published{}, sids: map[string]int{}}
	// Sometimes all are devices of one account.
	own, err := keyhelper.GenerateIdentityKeyPair()
	c.NoErr(err, "identity-generation")
	shared := c.R.Intn(10) == 0
	if shared {
		c.Count("worlds_of_one_identity", 1)
	}
	id := func() *identity.KeyPair {
		if shared {
			return own
		}
		k, err := keyhelper.GenerateIdentityKeyPair()
		c.NoErr(err, "identity-generation")
		return k
	}
	for i := 0; i < n; i++ {
		name, dev := oddName(c, i, []string{"alice", "bob", "carol", "dave", "alice"})
		u := NewUserWithID(c, name, dev, f, mode(i), id())
		w.Nodes = append(w.Nodes, &node{U: u, peers: map[int][]*side{}})
	}
	return w
}

// Addr is the address of a user.
func (w *World) Addr(i int) *protocol.SignalAddress { return w.Nodes[i].U.Addr() }

// HasSession tells whether the model has a session from a to b.
func (w *World) HasSession(a, b int) bool { return len(w.Nodes[a].peers[b]) > 0 }

// Sessions returns how many sessions the model has from a to b.
func (w *World) Sessions(a, b int) int { return len(w.Nodes[a].peers[b]) }

// CurrentSid returns the current session's number, or -1.
func (w *World) CurrentSid(a, b int) int {
	l := w.Nodes[a].peers[b]
	if len(l) == 0 {
		return -1
	}
	return l[0].sid
}

func (n *node) push(b int, s *side) {
	l := append([]*side{s}, n.peers[b]...)
	if len(l) > MaxArchived+1 {
		l = l[:MaxArchived+1]
	}
	n.peers[b] = l
}

// Initiate lets a process a fresh bundle of b.
func (w *World) Initiate(a, b int, kind PreKeyKind) {
	p := w.Nodes[b].U.Publish(w.C, kind)
	w.InitiateWith(a, b, p)
}

// InitiateWith lets a process the given bundle of b.
func (w *World) InitiateWith(a, b int, p *Published) {
	c := w.C
	c.Logf("%d initiates to %d (%v prekey %d, signed %d)", a, b, p.Kind, p.PreKeyID, p.SignedID)
	var err error
	if pn := rt.Try(func() { err = w.Nodes[a].U.Initiate(w.Addr(b), p) }); pn != "" {
		c.Fail("initiate-panic", "processing a valid bundle panicked: %s", pn)
	}
	c.NoErr(err, "initiate-error")
	s := &side{sid: -1, unacked: true, seen: map[string]bool{}, peerID: string(w.Nodes[b].U.ID.PublicKey().Serialize())}
	s.chains = []*mChain{{key: string(p.Bundle.SignedPreKey().Serialize())}}
	s.seen[s.chains[0].key] = true
	w.nsid++
	s.sid = w.nsid
	w.Nodes[a].push(b, s)
	// The base key is learnt from the first message; remember the bundle.
	w.kind[fmt.Sprint("sid", s.sid)] = p
	c.Count("sessions_initiated", 1)
}

// Send encrypts a message from a to b and puts it on the network.
func (w *World) Send(a, b int, pt []byte) *Msg {
	c := w.C
	l := w.Nodes[a].peers[b]
	in := append([]byte{}, pt...)
	var wb []byte
	var pre bool
	var err error
	if pn := rt.Try(func() { wb, pre, err = w.Nodes[a].U.Encrypt(w.Addr(b), in) }); pn != "" {
		c.Fail("encrypt-panic", "Encrypt panicked: %s", pn)
	}
	if len(l) == 0 {
		c.Must(err != nil, "encrypt-without-session", "Encrypt succeeded without a session")
		return nil
	}
	c.NoErr(err, "encrypt-error")
	c.Must(!w.Numbers || (bytes.Equal(in, pt)), "plaintext-modified", "Encrypt modified the caller's plaintext")
	s := l[0]
	m := &Msg{N: len(w.Msgs), From: a, To: b, Plain: append([]byte{}, pt...), Wire: append([]byte{}, wb...), PreKey: pre, Sid: s.sid, gen: s.gen}
	inner := wb
	if pre {
		p, err := wire.DecodePreKey(w.F, wb)
		c.NoErr(err, "undecodable-prekey-message")
		m.Pre = p
		inner = p.Message
		if s.base == "" {
			s.base = string(p.BaseKey)
			w.sids[s.base] = s.sid
		}
		c.Must(!w.Numbers || (s.base == string(p.BaseKey)), "base-key-changed", "a session's base key changed between its prekey messages")
		m.base = s.base
		k := w.kind[fmt.Sprint("sid", s.sid)]
		if k != nil {
			c.Must(!w.PreKeys || (p.SignedID == k.SignedID && p.HasPreKey == (k.Kind != NoPreKey) && (!p.HasPreKey || p.PreKeyID == k.PreKeyID)), "prekey-ids",
				"prekey message names prekeys (%v %d, signed %d) but the bundle had (%v %d, signed %d)", p.HasPreKey, p.PreKeyID, p.SignedID, k.Kind, k.PreKeyID, k.SignedID)
		}
	}
	c.Must(pre == s.unacked || (pre && !w.Numbers), "prekey-wrapping", "message type: prekey=%v, but the session is acknowledged=%v", pre, !s.unacked)
	im, err := wire.DecodeSignal(w.F, inner)
	c.NoErr(err, "undecodable-message")
	m.Inner = im
	m.Ratchet, m.Counter = string(im.Ratchet), im.Counter
	if s.sendKey == "" {
		s.sendKey = m.Ratchet
	}
	m.N = len(w.Msgs)
	w.Msgs = append(w.Msgs, m)
	c.Must(!w.Numbers || (m.Ratchet == s.sendKey), "sending-key-unstable", "the sending ratchet key changed without a message from the peer")
	c.Must(!w.Numbers || (m.Counter == s.sendN), "counter", "message has counter %d, expected %d", m.Counter, s.sendN)
	c.Must(!w.Numbers || (im.Prev == s.prev), "previous-counter", "message has previous counter %d, expected %d", im.Prev, s.prev)
	s.sendN++
	c.Logf("#%d %d->%d prekey=%v session=%d ratchet=%x counter=%d len=%d", m.N, a, b, pre, s.sid, m.Ratchet[1:5], m.Counter, len(pt))
	c.Count("sent", 1)
	for _, f := range w.Mons {
		f(m)
	}
	return m
}

// BaseOf returns the serialized base key of the session a message belongs to.
func (w *World) BaseOf(m *Msg) []byte {
	for b, sid := range w.sids {
		if sid == m.Sid {
			return []byte(b)
		}
	}
	return nil
}

// Expect is the model's verdict on a delivery, without applying it.
func (w *World) Expect(m *Msg) (ok bool, why string) {
	ok, why, _ = w.model(m)
	return
}

func (w *World) model(m *Msg) (ok bool, why string, apply func()) {
	n := w.Nodes[m.To]
	l := n.peers[m.From]
	idx := -1
	for i, s := range l {
		if s.sid == m.Sid {
			idx = i
		}
	}
	if idx >= 0 {
		s := l[idx].clone()
		ok, why = s.deliver(m)
		if !ok {
			return false, why, nil
		}
		if idx > 0 {
			why += "+promote"
		}
		return true, why, func() {
			nl := []*side{s}
			nl = append(nl, l[:idx]...)
			nl = append(nl, l[idx+1:]...)
			n.peers[m.From] = nl
		}
	}
	if !m.PreKey {
		return false, "no-such-session", nil
	}
	if m.Pre.HasPreKey && !n.U.St.ContainsPreKey(m.Pre.PreKeyID) {
		return false, "prekey-used", nil
	}
	if k := w.kind[fmt.Sprint("sid", m.Sid)]; m.Pre.HasPreKey && k != nil && n.U.ReuseIDs {
		if pk := n.U.St.LoadPreKey(m.Pre.PreKeyID); pk != nil && !bytes.Equal(pk.KeyPair().PublicKey().Serialize(), k.PreKeyPub) {
			return false, "prekey-replaced", nil // another prekey under a reused ID
		}
	}
	if !n.U.St.ContainsSignedPreKey(m.Pre.SignedID) {
		return false, "signed-prekey-gone", nil
	}
	s := &side{sid: m.Sid, base: m.base, seen: map[string]bool{}, peerID: string(m.Pre.Identity), gen: w.ngen + 1}
	ok, why = s.deliver(m)
	if !ok {
		return false, why, nil
	}
	s.prev = 0
	return true, "new-session", func() { w.ngen++; n.push(m.From, s) }
}

// Deliver delivers a message and compares with the model. Returns acceptance.
func (w *World) Deliver(m *Msg) bool {
	c := w.C
	want, why, apply := w.model(m)
	n := w.Nodes[m.To]
	pid := int64(-1)
	if m.PreKey && m.Pre.HasPreKey {
		pid = int64(m.Pre.PreKeyID)
	}
	hadPre := pid >= 0 && n.U.St.ContainsPreKey(uint32(pid))
	pt, err, pn := w.raw(m)
	c.Logf("deliver #%d to %d: model %v (%s), library err=%v", m.N, m.To, want, why, err)
	if pn != "" {
		c.Fail("decrypt-panic:"+why, "Decrypt of #%d panicked: %s", m.N, pn)
	}
	if want {
		if err != nil {
			c.Fail("lost:"+why, "message #%d must be accepted (%s) but was refused: %v", m.N, why, err)
		}
		if !bytes.Equal(pt, m.Plain) {
			c.Fail("altered:"+why, "message #%d decrypted to %x, sent %x", m.N, head(pt), head(m.Plain))
		}
		apply()
		m.Delivered++
		if why == "new-session" && pid >= 0 && pid != LastResort {
			c.Must(!w.PreKeys || (!n.U.St.ContainsPreKey(uint32(pid))), "prekey-kept", "one-time prekey %d is still stored after its use", pid)
		} else if hadPre {
			c.Must(!w.PreKeys || (n.U.St.ContainsPreKey(uint32(pid))), "prekey-lost", "prekey %d was removed by a message that did not use it (%s)", pid, why)
		}
		id := n.U.St.Identity(w.Addr(m.From).String())
		c.Must(!w.Idents || (bytes.Equal(id, w.Nodes[m.From].U.ID.PublicKey().Serialize())), "identity-saved", "identity saved for the sender is %x", id)
	} else {
		if err == nil {
			kind := "accepted:" + why
			if m.Delivered > 0 {
				kind = "replayed:" + why
			}
			c.Fail(kind, "message #%d must be refused (%s; delivered %d times before) but decrypted to %x", m.N, why, m.Delivered, head(pt))
		}
		if hadPre {
			c.Must(!w.PreKeys || (n.U.St.ContainsPreKey(uint32(pid))), "prekey-lost", "prekey %d was removed by a refused message", pid)
		}
	}
	if len(n.U.St.BadLoads) > 0 {
		c.Fail("bad-load", "a stored record cannot be loaded: %v", n.U.St.BadLoads)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	c.Count("verdict_"+why, 1)
	c.Sig(w.F, n.U.St.Mode, why, m.PreKey, bucket(int64(m.Counter)), len(n.peers[m.From]), want)
	return want
}

// Withdraw delivers a message that is acceptable while the trust in its sender
// is withdrawn after some questions for it: the message is read, or refused
// without a trace.
func (w *World) Withdraw(m *Msg) {
	c := w.C
	want, why, apply := w.model(m)
	if !want {
		return
	}
	st := w.Nodes[m.To].U.St
	before := st.Snapshot()
	n := c.R.Intn(3)
	st.Policy = func(string, []byte) bool { n--; return n >= 0 }
	pt, err, pn := w.raw(m)
	st.Policy = nil
	c.Logf("deliver #%d to %d while trust is withdrawn (%s): library err=%v", m.N, m.To, why, err)
	c.Must(pn == "", "withdrawn-panic", "Decrypt of #%d panicked: %s", m.N, pn)
	c.Count("withdrawn", 1)
	if err != nil {
		c.Must(st.Snapshot() == before, "withdrawn-trace", "message #%d (%s) was refused (%v) but changed what the device stores", m.N, why, err)
		c.Count("withdrawn_refused", 1)
		return
	}
	c.Must(bytes.Equal(pt, m.Plain), "altered:"+why, "message #%d decrypted to %x, sent %x", m.N, head(pt), head(m.Plain))
	apply()
	m.Delivered++
}

func (w *World) raw(m *Msg) (pt []byte, err error, pn string) {
	n := w.Nodes[m.To]
	pn = rt.Try(func() { pt, err = n.U.Decrypt(w.Addr(m.From), m.Wire, m.PreKey) })
	return
}

func head(b []byte) []byte {
	if len(b) > 32 {
		return b[:32]
	}
	return b
}

func bucket(n int64) int64 {
	if n < 6 {
		return n
	}
	b := int64(8)
	for b < n {
		b *= 2
	}
	return b
}

// Plain makes a plaintext: unique, with varied lengths around block sizes.
func (w *World) Plain() []byte {
	r := w.C.R
	var n int
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 15 + r.Intn(3)
	case 2:
		n = r.Intn(5)
	case 3:
		n = 16 * (1 + r.Intn(4))
	case 4:
		n = 500 + r.Intn(3000)
		if r.Intn(40) == 0 {
			n = [...]int{1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 1 << 18}[r.Intn(6)] - 24 + r.Intn(48)
		}
	default:
		n = r.Intn(80)
	}
	b := make([]byte, n)
	switch r.Intn(6) {
	case 0: // looks like padding
		for i := range b {
			b[i] = byte(1 + r.Intn(16))
		}
	case 1:
		for i := range b {
			b[i] = byte(len(b))
		}
	case 2: // zeros
	default:
		r.Read(b)
	}
	return b
}

// Forget deletes a's sessions with b, in the library's store and the model.
func (w *World) Forget(a, b int) {
	w.Nodes[a].U.St.DeleteSession(w.Addr(b))
	w.Nodes[a].peers[b] = nil
	w.C.Logf("%d deletes its sessions with %d", a, b)
}

// HasBase tells whether the receiver of a message still has its session.
func (w *World) HasBase(m *Msg) bool {
	for _, s := range w.Nodes[m.To].peers[m.From] {
		if s.sid == m.Sid {
			return true
		}
	}
	return false
}
