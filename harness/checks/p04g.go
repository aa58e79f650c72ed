package checks

import (
	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func mutateGroup(c *rt.Case, f wire.Format, m *wire.SenderKey, other *wire.SenderKey) (*wire.SenderKey, string) {
	x := *m
	switch c.R.Intn(9) {
	case 0:
		x.ID = jitter(c, m.ID)
		return &x, "id"
	case 1:
		x.Iter = jitter(c, m.Iter)
		return &x, "iteration"
	case 2:
		x.Ct = flip(c, m.Ct)
		return &x, "ciphertext-bit"
	case 3:
		x.Ct = resize(c, m.Ct)
		return &x, "ciphertext-length"
	case 4:
		x.Signature = flip(c, m.Signature)
		return &x, "signature-bit"
	case 5:
		x.Version = pick(c, 2, 4, 1)
		return &x, "version"
	case 6:
		x.Ct = other.Ct
		return &x, "splice-ciphertext"
	case 7:
		x.Iter = other.Iter
		return &x, "splice-iteration"
	default:
		x.Signature = other.Signature
		return &x, "splice-signature"
	}
}

func sameGroup(a, b *wire.SenderKey) bool {
	// Bytes after the 64 of a signature are not part of it.
	as, bs := a.Signature, b.Signature
	if len(as) > 64 {
		as = as[:64]
	}
	if len(bs) > 64 {
		bs = bs[:64]
	}
	return a.ID == b.ID && a.Iter == b.Iter && a.Version == b.Version && string(a.Ct) == string(b.Ct) && string(as) == string(bs)
}

// runP04Group checks that refused group messages leave no trace.
func runP04Group(c *rt.Case) {
	r := c.R
	f := format(c)
	s := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	v := sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3)))
	name := func() *protocol.SenderKeyName { return protocol.NewSenderKeyName("group", s.Addr()) }
	d, err := s.CreateGroup(name())
	c.NoErr(err, "create")
	c.NoErr(v.JoinGroup(name(), d), "join")
	type gm struct {
		b  []byte
		w  *wire.SenderKey
		pt string
		ok bool
	}
	var ms []*gm
	for i := 0; i < 25; i++ {
		pt := string(randBytes(c, r.Intn(40)))
		b, err := s.GroupEncrypt(name(), []byte(pt))
		c.NoErr(err, "group-encrypt")
		w, err := wire.DecodeSenderKey(f, b)
		c.NoErr(err, "group-decode")
		ms = append(ms, &gm{b, w, pt, false})
	}
	refuse := func(what string, b []byte) {
		before := v.St.Snapshot()
		var err error
		if pn := rt.Try(func() { _, err = v.GroupDecrypt(name(), b) }); pn != "" {
			c.Fail("panic:group-"+what, "%s", pn)
		}
		c.Must(err != nil, "not-refused:group-"+what, "%s was not refused", what)
		after := v.St.Snapshot()
		if after != before {
			c.Fail("trace:group-"+what, "a refused group message (%s) changed what is stored", what)
		}
		c.Count("group_refusals", 1)
		c.Count("refusals", 1)
		c.Sig("group", f, v.St.Mode, what, err)
	}
	for _, i := range r.Perm(len(ms)) {
		m := ms[i]
		for k := 0; k < 2; k++ {
			x, how := mutateGroup(c, f, m.w, ms[r.Intn(len(ms))].w)
			same := false
			enc := x.Encode(f)
			if y, err := wire.DecodeSenderKey(f, enc); err == nil {
				x = y
			}
			for _, o := range ms {
				same = same || sameGroup(x, o.w)
			}
			if !same {
				refuse(how, enc)
			}
		}
		pt, err := v.GroupDecrypt(name(), m.b)
		c.NoErr(err, "group-lost-after-refusals")
		c.Must(string(pt) == m.pt, "group-altered", "%x", pt)
		c.Count("accepted", 1)
		refuse("replay", m.b)
	}
}

func randBytes(c *rt.Case, n int) []byte {
	b := make([]byte, n)
	c.R.Read(b)
	return b
}
