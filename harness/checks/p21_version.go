package checks

import (
	"bytes"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"
)

// p21Downgrade has the peer of a session authenticate messages of another
// version than the session's, in the way of either version.
func p21Downgrade(c *rt.Case) {
	r, f := c.R, format(c)
	u := sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
	addr := protoAddr("older", 3)
	s := ref.Initiate(f, newRefKey(c), r.Uint32()&0x3fff, toRefBundle(u.Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))), func() ref.KeyPair { return newRefKey(c) })
	for k := 0; k < 6; k++ {
		pt := randBytes(c, 1+r.Intn(40))
		if r.Intn(2) == 0 {
			b, pk := s.Craft(pt, nil)
			got, err := u.Decrypt(addr, b, pk)
			c.NoErr(err, "present-version-refused", k)
			c.Must(bytes.Equal(got, pt), "present-version-altered", "read %x, want %x", clip(got), clip(pt))
			if r.Intn(2) == 0 { // an answer, so that the wrapper ends
				if b, pk, err := u.Encrypt(addr, []byte("answer")); err == nil && !pk {
					_, err := s.Decrypt(b)
					c.NoErr(err, "answer")
				}
			}
			continue
		}
		var mac []byte
		b, pk := s.Craft(pt, func(m *wire.Signal, mk ref.MsgKeys) { m.Version, mac = 2, mk.Mac })
		p := &wire.PreKey{}
		in := b
		if pk {
			var err error
			p, err = wire.DecodePreKey(f, b)
			c.NoErr(err, "decode")
			in = p.Message
		}
		m, err := wire.DecodeSignal(f, in)
		c.NoErr(err, "decode")
		how := "both-identities"
		if r.Intn(2) == 0 {
			how = "no-identities"
			m.Mac = ref.HMAC(mac, m.MacInput(f))[:8]
		}
		in = m.Encode(f)
		if f == wire.Proto {
			in[0] = 0x20 | byte(r.Intn(16)) // the version is in the high bits
		}
		if pk {
			p.Message = in
			if r.Intn(2) == 0 {
				p.Version = 2
				how += "-wrapper"
			}
			in = p.Encode(f)
		}
		var got []byte
		if pn := rt.Try(func() { got, err = u.Decrypt(addr, in, pk) }); pn != "" {
			c.Fail("panic:older-version", "%s", pn)
		}
		c.Must(err != nil, "older-version-accepted:"+how, "a message of version 2 was read in a session of version 3 as %q (opening: %v)", clip(got), pk)
		c.Count("downgrades", 1)
		c.Sig("downgrade", how, f, pk, u.St.Mode)
	}
}
