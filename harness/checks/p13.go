package checks

import (
	"bytes"
	"encoding/base64"
	"regexp"

	"verif/ref"
	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P13",
		Rule: "one case is a conversation whose device storage is searched, after deliveries, for anything that yields the keys of messages already read or sent: every stored 32-byte value, also those of live objects that are never serialized, is tried as a message key, a chain key, and with stored private keys as a root key. Then a thief copies the storage, the peers complete a round trip with fresh keys, and the thief must not read on; the same for groups and their chains. " +
			"Distinct by session state size, number of used keys, format, role and phase",
		Cases:       tiered(360, 6000),
		Run:         runP13,
		Need:        map[string]int64{"values_tried": 10000, "used_keys": 4000, "derivations": 500000, "theft_before_turn_read": 100, "healed": 150, "group_values_tried": 3000, "live_values": 10000},
		Assumptions: []string{"secrets are stored as base64 strings of their 32 bytes, as all serializers of the library do; the search also runs over raw byte windows of decoded values"},
	})
}

var b64 = regexp.MustCompile(`"([A-Za-z0-9+/]{43}=|[A-Za-z0-9+/]{44})"`)

// secrets32 lists the distinct 32-byte values (and the keys of 33-byte ones) in a stored record.
func secrets32(s string) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	for _, m := range b64.FindAllStringSubmatch(s, -1) {
		b, err := base64.StdEncoding.DecodeString(m[1])
		if err != nil || len(b) < 32 {
			continue
		}
		if len(b) == 33 {
			b = b[1:]
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	return out
}

// withLive adds what the live objects of a store hold besides.
func withLive(c *rt.Case, vals [][]byte, u *sim.User) [][]byte {
	seen := map[string]bool{}
	for _, v := range vals {
		seen[string(v)] = true
	}
	live := u.St.Live()
	c.Count("live_values", int64(len(live)))
	for _, v := range live {
		if !seen[string(v)] {
			vals = append(vals, v)
		}
	}
	return vals
}

func arr(b []byte) (a [32]byte) { copy(a[:], b); return }

func runP13(c *rt.Case) {
	if c.Idx%6 == 5 {
		runP13Group(c)
		return
	}
	r := c.R
	f := format(c)
	w := sim.NewWorld(c, 2, f, func(int) sim.Mode { return sim.Mode(r.Intn(3)) })
	w.Initiate(0, 1, pick(c, sim.OneTime, sim.OneTime, sim.NoPreKey, sim.Last))
	used := map[string]int{} // cipher and mac keys of messages sent or read, by device
	usedBy := [2]map[string]int{{}, {}}
	var wirePubs [][]byte
	var held []*sim.Msg
	send := func(a int) {
		m := w.Send(a, 1-a, w.Plain())
		held = append(held, m)
		wirePubs = append(wirePubs, m.Inner.Ratchet[1:])
	}
	deliver := func(i int) {
		m := held[i]
		held = append(held[:i:i], held[i+1:]...)
		if ok, _ := w.Expect(m); !ok {
			w.Deliver(m)
			return
		}
		cp := fork(w.Nodes[m.To].U)
		_, k, err := cp.DecryptKeys(w.Addr(m.From), m.Wire, m.PreKey)
		c.NoErr(err, "decrypt-keys")
		if !w.Deliver(m) {
			return
		}
		for _, b := range [][]byte{k.CipherKey(), k.MacKey()} {
			used[string(b)] = m.N
			usedBy[m.To][string(b)] = m.N
			usedBy[m.From][string(b)] = m.N
		}
		c.Count("used_keys", 2)
	}
	scan := func(d int) {
		txt := w.Nodes[d].U.St.Session(w.Addr(1 - d).String())
		if txt == "" {
			return
		}
		vals := secrets32(txt)
		c.Must(len(vals) >= 4, "scan-blind", "only %d secret values found in a stored session", len(vals))
		vals = withLive(c, vals, w.Nodes[d].U)
		c.Count("values_tried", int64(len(vals)))
		hit := func(k ref.MsgKeys, how string) {
			for _, b := range [][]byte{k.Cipher, k.Mac} {
				if n, ok := usedBy[d][string(b)]; ok {
					c.Fail("used-key-derivable:"+how, "the stored session of device %d yields the key of message #%d (%s)", d, n, how)
				}
			}
		}
		chain := func(v []byte, n int, how string) {
			for i := 0; i < n; i++ {
				hit(ref.MessageKeys(v), how)
				v = ref.NextChain(v)
			}
			c.Count("derivations", int64(n))
		}
		for _, v := range vals {
			if n, ok := usedBy[d][string(v)]; ok {
				c.Fail("used-key-stored", "the stored session of device %d holds the key of message #%d", d, n)
			}
			k := ref.HKDF(v, nil, "WhisperMessageKeys", 80)
			hit(ref.MsgKeys{Cipher: k[:32], Mac: k[32:64], IV: k[64:]}, "seed")
			chain(v, 24, "chain key")
		}
		// Root keys with stored private keys whose public key went over the wire.
		pubs := map[string]bool{}
		for _, p := range wirePubs {
			pubs[string(p)] = true
		}
		var privs [][32]byte
		for _, v := range vals {
			kp := ref.NewKeyPair(arr(v))
			if pubs[string(kp.Pub[:])] {
				privs = append(privs, arr(v))
			}
		}
		recent := wirePubs
		if len(recent) > 10 {
			recent = recent[len(recent)-10:]
		}
		seen := map[string]bool{}
		for _, p := range privs {
			for _, q := range recent {
				if seen[string(p[:])+string(q)] {
					continue
				}
				seen[string(p[:])+string(q)] = true
				dh := ref.DH(p, arr(q))
				for _, v := range vals {
					k := ref.HKDF(dh, v, "WhisperRatchet", 64)
					chain(k[32:], 6, "root key and ratchet key")
					k2 := ref.HKDF(dh, k[:32], "WhisperRatchet", 64)
					chain(k2[32:], 4, "second root step")
				}
			}
		}
		c.Sig("scan", len(vals), min(len(used)/8, 20), f, d, len(privs))
	}
	for i := 0; i < 60; i++ {
		a := r.Intn(2)
		if len(held) > 0 && r.Intn(2) == 0 {
			j := 0
			if r.Intn(3) == 0 {
				j = r.Intn(len(held))
			}
			d := held[j].To
			deliver(j)
			if r.Intn(5) == 0 {
				scan(d)
			}
		} else if w.HasSession(a, 1-a) {
			send(a)
			if r.Intn(12) == 0 {
				scan(a)
			}
		}
	}
	for len(held) > 0 {
		deliver(0)
	}
	scan(0)
	scan(1)
	if !w.HasSession(1, 0) {
		return
	}
	// Theft: the thief holds a copy of one device's storage.
	v := r.Intn(2)
	o := 1 - v
	turn := func(from int) *sim.Msg {
		m := w.Send(from, 1-from, w.Plain())
		c.Must(w.Deliver(m), "turn", "")
		return m
	}
	turn(o)
	turn(v) // now v sends with a key of its own and o has answered nothing yet
	thief := fork(w.Nodes[v].U)
	// The thief may read what comes before the peers have turned.
	m := turn(o)
	if pt, err := thief.Decrypt(w.Addr(o), m.Wire, m.PreKey); err == nil && bytes.Equal(pt, m.Plain) {
		c.Count("theft_before_turn_read", 1)
	}
	turn(v)
	for i := 0; i < 3; i++ {
		m = turn(o)
		if pt, err := thief.Decrypt(w.Addr(o), m.Wire, m.PreKey); err == nil {
			c.Fail("no-healing", "after a round trip with fresh keys a stolen copy still reads message #%d: %x", m.N, clip(pt))
		}
		// Neither can it derive the key with the ratchet keys it knows.
		vals := secrets32(thief.St.Session(w.Addr(o).String()))
		cp := m.Inner
		for _, x := range vals {
			for _, y := range vals {
				kp := arr(x)
				dh := ref.DH(kp, arr(m.Inner.Ratchet[1:]))
				k := ref.HKDF(dh, y, "WhisperRatchet", 64)
				mk := ref.MessageKeys(k[32:])
				if cp.Counter == 0 {
					in := append(append([]byte{}, w.Nodes[o].U.ID.PublicKey().Serialize()...), w.Nodes[v].U.ID.PublicKey().Serialize()...)
					mac := ref.HMAC(mk.Mac, append(in, cp.MacInput(f)...))
					c.Must(!bytes.Equal(mac[:8], cp.Mac), "no-healing-derivable", "a stolen copy yields the key of message #%d after a round trip", m.N)
				}
			}
			if i > 0 {
				break
			}
		}
		turn(v)
		c.Count("healed", 1)
	}
	c.Sig("theft", f, v, min(len(w.Msgs)/10, 10))
	if c.Idx < 2 {
		c.Sample(map[string]any{"messages": len(w.Msgs), "used_keys": len(used), "trace": c.TraceSample(8)})
	}
}

func runP13Group(c *rt.Case) {
	r := c.R
	f := format(c)
	s := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	v := sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
	name := func() *protocol.SenderKeyName { return protocol.NewSenderKeyName("group", s.Addr()) }
	d, err := s.CreateGroup(name())
	c.NoErr(err, "create")
	rc, err := ref.FromDist(f, d)
	c.NoErr(err, "dist")
	c.NoErr(v.JoinGroup(name(), d), "join")
	// seed of iteration i, from the distribution message
	chain := append([]byte{}, rc.Chain...)
	base := rc.Iter
	var seeds [][]byte
	usedS, usedR := map[string]uint32{}, map[string]uint32{}
	mark := func(m map[string]uint32, it uint32) {
		for uint32(len(seeds)) <= it-base {
			seeds = append(seeds, ref.HMAC(chain, []byte{1}))
			chain = ref.HMAC(chain, []byte{2})
		}
		sd := seeds[it-base]
		m[string(sd)] = it
		k := ref.HKDF(sd, nil, "WhisperGroup", 48)
		m[string(k[16:])] = it
	}
	scan := func(u *sim.User, used map[string]uint32) {
		vals := withLive(c, secrets32(u.St.SenderKeyText(name())), u)
		c.Must(len(vals) >= 1, "scan-blind", "no secret values found in a stored sender key")
		c.Count("group_values_tried", int64(len(vals)))
		for _, x := range vals {
			for i := 0; i < 30; i++ {
				if it, ok := used[string(x)]; ok {
					c.Fail("group-used-key-stored", "a stored sender key yields the key of iteration %d, which was used", it)
				}
				if it, ok := used[string(ref.HMAC(x, []byte{1}))]; ok {
					c.Fail("group-used-key-derivable", "a stored sender key yields the key of iteration %d, which was used", it)
				}
				x = ref.HMAC(x, []byte{2})
			}
			c.Count("derivations", 30)
		}
		c.Sig("group", len(vals), len(used)/6, f)
	}
	type gm struct {
		b  []byte
		it uint32
	}
	var q []gm
	it := base
	for i := 0; i < 60; i++ {
		if len(q) == 0 || r.Intn(2) == 0 {
			b, err := s.GroupEncrypt(name(), randPlain(c))
			c.NoErr(err, "group-encrypt")
			q = append(q, gm{b, it})
			mark(usedS, it)
			it++
			scan(s, usedS)
			continue
		}
		j := r.Intn(len(q))
		_, err := v.GroupDecrypt(name(), q[j].b)
		c.NoErr(err, "group-decrypt")
		mark(usedR, q[j].it)
		q = append(q[:j:j], q[j+1:]...)
		scan(v, usedR)
		c.Count("used_keys", 1)
	}
}
