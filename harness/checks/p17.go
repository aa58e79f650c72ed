package checks

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/rt"
	"verif/sim"
	"verif/wire"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P17",
		Rule: "one case is group traffic between the library and an independent implementation of sender keys, both ways and in both formats, out of order and with late joining; each must read the other's messages exactly, the library's bytes must be canonical, and each distribution message must describe the chain exactly. " +
			"Distinct by format, store kind, direction, iteration and plaintext length class",
		Cases:       tiered(800, 16000),
		Run:         runP17,
		Need:        map[string]int64{"lib_to_ref": 8000, "ref_to_lib": 5000, "late_joins": 1000, "descriptions": 20000, "further_chains": 500, "far_along": 300, "plaintexts_over_256k": 20},
		Assumptions: []string{"the reference implementation is written from the public protocol specifications on Go's standard cryptography"},
	})
}

func runP17(c *rt.Case) {
	r := c.R
	f := format(c)
	u := sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3)))
	peer := protoAddr("bob", 2)
	own := nameOf("team", u.Addr())
	theirs := nameOf("team", peer)
	// Library sends.
	b, err := u.CreateGroup(own)
	c.NoErr(err, "create")
	d, err := wire.DecodeDist(f, b)
	c.NoErr(err, "dist")
	c.Must(bytes.Equal(d.Encode(f), b), "dist-encoding", "a distribution message is not in canonical form:\n%x\n%x", b, d.Encode(f))
	c.Must(d.Version == 3 && len(d.ChainKey) == 32 && len(d.SigningKey) == 33 && d.SigningKey[0] == 5, "dist-fields", "%+v", d)
	n := 0
	if r.Intn(2) == 0 { // a chain that is far along already
		first := d
		n = pick(c, 1, 100, 126, 254, 1990, 16380, 32760, 65530, 1<<24-5, 1<<31-20, 1<<31, 1<<31+5, 1<<32-5000, r.Intn(1<<31))
		u.MoveSender(c, own, uint32(n))
		b, err = u.CreateGroup(own)
		c.NoErr(err, "create")
		d, err = wire.DecodeDist(f, b)
		c.NoErr(err, "dist")
		c.Must(bytes.Equal(d.Encode(f), b), "dist-encoding", "a distribution message is not in canonical form:\n%x\n%x", b, d.Encode(f))
		c.Must(d.ID == first.ID && int(d.Iter) == n && bytes.Equal(d.ChainKey, first.ChainKey) && bytes.Equal(d.SigningKey, first.SigningKey), "late-dist", "%+v at iteration %d", d, n)
		c.Count("far_along", 1)
	}
	rx, err := ref.FromDist(f, b)
	c.NoErr(err, "ref-dist")
	rxs := []*ref.SenderChain{rx}
	type gm struct {
		b, pt []byte
		it    int
	}
	var q [][]gm
	q = append(q, nil)
	// Reference sends, from any iteration.
	tx := &ref.SenderChain{F: f, ID: pick(c, r.Uint32(), r.Uint32(), 0, 1<<31, 1<<32-1, 1<<16), Iter: uint32(pick(c, 0, 0, 1, 7, 1000, 120, 250, 16380, 65530, 1<<24-5, 1<<31-5, 1<<32-5000)), Chain: randBytes(c, 32), Sign: newRefKey(c)}
	tx.SignPub = tx.Sign.Pub
	c.NoErr(u.JoinGroup(theirs, tx.Dist()), "join")
	txs := []*ref.SenderChain{tx} // its chains under the one name
	var lq []gm
	text := func() []byte {
		if c.Idx%40 == 3 && r.Intn(6) == 0 {
			return longPlain(c)
		}
		return randPlain(c)
	}
	for i := 0; i < 70; i++ {
		switch r.Intn(6) {
		case 0, 1:
			pt := text()
			b, err := u.GroupEncrypt(own, pt)
			c.NoErr(err, "group-encrypt")
			m, err := wire.DecodeSenderKey(f, b)
			c.NoErr(err, "group-decode")
			c.Must(bytes.Equal(m.Encode(f), b), "encoding", "a group message is not in canonical form:\n%x\n%x", b, m.Encode(f))
			c.Must(m.Version == 3 && int(m.Iter) == n && m.ID == d.ID && len(m.Signature) == 64, "fields", "%+v", m)
			n++
			for j := range q {
				q[j] = append(q[j], gm{b, pt, n - 1})
			}
		case 2:
			if r.Intn(4) == 0 { // another member joins now
				b, err := u.CreateGroup(own)
				c.NoErr(err, "create")
				d2, err := wire.DecodeDist(f, b)
				c.NoErr(err, "dist")
				c.Must(d2.ID == d.ID && int(d2.Iter) == n && bytes.Equal(d2.SigningKey, d.SigningKey), "late-dist", "%+v at iteration %d", d2, n)
				x, err := ref.FromDist(f, b)
				c.NoErr(err, "ref-dist")
				rxs = append(rxs, x)
				q = append(q, nil)
				c.Count("late_joins", 1)
			}
		case 3:
			j := r.Intn(len(q))
			for k := r.Intn(4); k >= 0 && len(q[j]) > 0; k-- {
				x := r.Intn(len(q[j]))
				m := q[j][x]
				q[j] = append(q[j][:x:x], q[j][x+1:]...)
				pt, err := rxs[j].Decrypt(m.b)
				if err != nil {
					c.Fail("ref-cannot-read", "the reference cannot read the library's group message %d: %v", m.it, err)
				}
				c.Must(bytes.Equal(pt, m.pt), "ref-reads-other", "%x", clip(pt))
				c.Count("lib_to_ref", 1)
				c.Sig("to-ref", f, u.St.Mode, m.it, len(m.pt)%16, j > 0)
			}
		case 4:
			pt := text()
			var rnd [64]byte
			r.Read(rnd[:])
			if len(txs) < 5 && r.Intn(6) == 0 { // one more chain, of an ID like an earlier one's
				id := txs[r.Intn(len(txs))].ID ^ 1<<pick(c, 31, 31, r.Intn(32), 0, 16, 24)
				x := &ref.SenderChain{F: f, ID: id, Iter: uint32(r.Intn(20)), Chain: randBytes(c, 32), Sign: newRefKey(c)}
				x.SignPub = x.Sign.Pub
				if o := txs[len(txs)-1]; r.Intn(2) == 0 { // keys that begin or end alike
					x.Iter = o.Iter
					k := 1 + r.Intn(30)
					if r.Intn(2) == 0 {
						copy(x.Chain[:k], o.Chain)
					} else {
						copy(x.Chain[k:], o.Chain[k:])
					}
				}
				known := false
				for _, o := range txs {
					known = known || o.ID == id
				}
				if !known {
					c.NoErr(u.JoinGroup(theirs, x.Dist()), "join")
					txs = append(txs, x)
					c.Count("further_chains", 1)
				}
			}
			tx := txs[r.Intn(len(txs))]
			it := int(tx.Iter)
			lq = append(lq, gm{tx.Encrypt(pt, rnd), pt, it})
		case 5:
			for k := r.Intn(5); k >= 0 && len(lq) > 0; k-- {
				x := r.Intn(len(lq))
				m := lq[x]
				lq = append(lq[:x:x], lq[x+1:]...)
				pt, err := u.GroupDecrypt(theirs, m.b)
				if err != nil {
					c.Fail("lib-cannot-read", "the library cannot read the reference's group message %d: %v", m.it, err)
				}
				c.Must(bytes.Equal(pt, m.pt), "lib-reads-other", "%x", clip(pt))
				c.Count("ref_to_lib", 1)
				c.Sig("to-lib", f, u.St.Mode, m.it, len(m.pt)%16)
			}
		}
	}
	if c.Idx%16 == 5 {
		// A chain that lives long: after every message the description handed to a
		// new member is the one of the chain the reference follows.
		tr := &ref.SenderChain{F: f, ID: d.ID, Iter: d.Iter, Chain: d.ChainKey}
		for tr.Iter < uint32(n) {
			tr.Step()
		}
		for i := 0; i < 700; i++ {
			b, err := u.CreateGroup(own)
			c.NoErr(err, "create")
			x, err := wire.DecodeDist(f, b)
			c.NoErr(err, "dist")
			c.Must(x.ID == tr.ID && x.Iter == tr.Iter && bytes.Equal(x.ChainKey, tr.Chain) && bytes.Equal(x.SigningKey, d.SigningKey), "dist-differs", "the description at iteration %d is of iteration %d, key %x, not %x", tr.Iter, x.Iter, x.ChainKey, tr.Chain)
			_, err = u.GroupEncrypt(own, []byte{byte(i)})
			c.NoErr(err, "group-encrypt")
			tr.Step()
			c.Count("descriptions", 1)
			c.Sig("dist", f, u.St.Mode, tr.Iter/16)
		}
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"format": fmt.Sprint(f), "store": u.St.Mode.String(), "members": len(rxs), "sent": n})
	}
}
