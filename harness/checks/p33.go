package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/rt"
	"verif/sim"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P33",
		Rule: "one case lets devices with look-alike names and device numbers run a random mix of session and group operations, successful and failing, in one process; before and after each operation everything every device stores is compared, and the operation may have looked at, changed or written only the entries of the peer, prekey or sender chain it was about, on the device that ran it. " +
			"Distinct by operation, outcome, kind of store, format and set of changed entry kinds",
		Cases: tiered(240, 5000),
		Run:   runP33,
		Need:  map[string]int64{"operations": 9000, "failed": 1500, "entries_watched": 200000, "entries_changed": 8000, "address_texts": 50000, "other_device_bundles": 60, "entries_read": 15000},
	})
}

var lookAlikes = []struct {
	name string
	dev  uint32
}{{"alice", 1}, {"alice", 2}, {"alice", 11}, {"alice1", 1}, {"alice:1", 1}, {"Alice", 1}, {"", 1}, {"alice ", 1}, {"alice", 0}, {"alice", 4294967295}, {"1", 1}, {":", 1},
	{"alice", 257}, {"alice", 65537}, {"alice", 1<<24 + 1}, {"alice", 1<<31 + 1}, {"alice:", 1}, {"bob", 1}}

// addressTexts checks that the texts by which stores tell addresses apart do so.
func addressTexts(c *rt.Case) {
	seen := map[string]string{}
	add := func(name string, dev uint32) {
		a := protocol.NewSignalAddress(name, dev)
		id := fmt.Sprintf("%q %d", name, dev)
		c.Must(a.Name() == name && a.DeviceID() == dev, "address-changed", "the address %s became %q %d", id, a.Name(), a.DeviceID())
		was, ok := seen[a.String()]
		c.Must(!ok || was == id, "address-text-shared", "the addresses %s and %s share the text %q", was, id, a.String())
		seen[a.String()] = id
		n := nameOf(name, a)
		c.Must(n.GroupID() == name && n.Sender().Name() == name && n.Sender().DeviceID() == dev, "group-name-changed", "the chain of %s in the group %q became %q %q %d", id, name, n.GroupID(), n.Sender().Name(), n.Sender().DeviceID())
		c.Count("address_texts", 1)
	}
	names := []string{"", ":", "::", "a", "a:1", "A", "a ", "1", "a:1:1", "\x00", "a\x00", string(randBytes(c, 4)), strings.Repeat("n", 1+c.R.Intn(200))}
	base := uint32(c.R.Intn(64)) // the same for all, so that near misses meet
	if c.R.Intn(2) == 0 {
		base = uint32(c.R.Int63())
	}
	for _, n := range names {
		for _, m := range names {
			add(n+m, base)
			add(n+":"+m, base)
		}
		for i := 0; i < 32; i++ {
			add(n, base^1<<uint(i))
		}
		for i := uint32(0); i < 12; i++ {
			add(n, i)
		}
	}
}

func runP33(c *rt.Case) {
	r := c.R
	addressTexts(c)
	f := format(c)
	var us []*sim.User
	for _, i := range r.Perm(len(lookAlikes))[:4+r.Intn(3)] {
		us = append(us, sim.NewUser(c, lookAlikes[i].name, lookAlikes[i].dev, f, sim.Mode(r.Intn(3))))
	}
	groups := []string{"g", "g1", "G", "", "g:alice"}
	logs, reads := make([][]string, len(us)), make([][]string, len(us))
	for i, u := range us {
		u.St.Log, u.St.Reads = &logs[i], &reads[i]
	}
	snap := func() (out []map[string]string) {
		for _, u := range us {
			out = append(out, u.St.Entries())
		}
		return
	}
	// act runs an operation of device x that is about the given entries.
	act := func(op string, x int, about []string, g func() error) bool {
		for i := range logs {
			logs[i], reads[i] = nil, nil
		}
		before := snap()
		var err error
		if p := rt.Try(func() { err = g() }); p != "" {
			c.Fail("panic:"+op, "%s", p)
		}
		ok := map[string]bool{}
		for _, a := range about {
			ok[a] = true
		}
		var kinds []string
		looked := make([][]string, len(us))
		copy(looked, reads)
		for i, u := range us {
			for _, k := range looked[i] {
				c.Must(i == x && ok[k], "other-read:"+op, "%s by %s about %q looked at %q of %s", op, us[x].Addr(), about, k, u.Addr())
				c.Count("entries_read", 1)
			}
			after := u.St.Entries()
			for k := range after {
				if _, was := before[i][k]; !was {
					before[i][k] = ""
				}
			}
			for k, v := range before[i] {
				c.Count("entries_watched", 1)
				if now := after[k]; now != v {
					c.Must(i == x, "other-device:"+op, "%s by %s changed %q of the device %s", op, us[x].Addr(), k, u.Addr())
					c.Must(ok[k], "other-entry:"+op, "%s about %q changed %q of the same device", op, about, k)
					kinds = append(kinds, strings.SplitN(k, " ", 2)[0])
					c.Count("entries_changed", 1)
				}
			}
			for _, o := range logs[i] {
				k := entryOf(o)
				c.Must(i == x && ok[k], "other-write:"+op, "%s by %s about %q wrote %q of %s", op, us[x].Addr(), about, k, u.Addr())
			}
		}
		c.Count("operations", 1)
		if err != nil {
			c.Count("failed", 1)
		}
		sort.Strings(kinds)
		c.Sig(op, err != nil, us[x].St.Mode, f, fmt.Sprint(kinds))
		return err == nil
	}
	peer := func(i int) []string {
		return []string{"session " + us[i].Addr().String(), "identity " + us[i].Addr().String()}
	}
	type net struct {
		from int
		to   int
		b    []byte
		pre  bool
	}
	var msgs []net
	type gnet struct {
		n string
		s int
		b []byte
		d bool
	}
	var gms []gnet
	for k := 0; k < 120; k++ {
		x := r.Intn(len(us))
		y := (x + 1 + r.Intn(len(us)-1)) % len(us)
		gn := groups[r.Intn(len(groups))]
		name := func(s int) *protocol.SenderKeyName { return nameOf(gn, us[s].Addr()) }
		chain := func(s int) []string { return []string{"senderkey " + gn + "\x00" + us[s].Addr().String()} }
		switch r.Intn(11) {
		case 0, 1:
			p := us[y].Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last))
			if r.Intn(4) == 0 {
				p, _ = badBundle(c, us[y], p)
			}
			act("bundle", x, peer(y), func() error { return us[x].Initiate(us[y].Addr(), p) })
		case 2, 3, 4:
			act("encrypt", x, peer(y), func() error {
				w, pre, err := us[x].Encrypt(us[y].Addr(), randPlain(c))
				if err == nil {
					msgs = append(msgs, net{x, y, w, pre})
				}
				return err
			})
		case 5, 6, 7:
			if len(msgs) == 0 {
				continue
			}
			m := msgs[max64(0, len(msgs)-1-r.Intn(6))]
			about := peer(m.from)
			claimed := m.from
			if r.Intn(6) == 0 { // as if another look-alike had sent it
				claimed = r.Intn(len(us))
				for j := range us { // best one of the same name, without a session
					if j != m.from && j != m.to && us[j].Name == us[m.from].Name && us[m.to].St.Session(us[j].Addr().String()) == "" {
						claimed = j
					}
				}
				about = peer(claimed)
			}
			if m.pre {
				p, err := wire.DecodePreKey(f, m.b)
				c.NoErr(err, "decode")
				if p.HasPreKey {
					about = append(about, fmt.Sprint("prekey ", p.PreKeyID))
				}
			}
			b := m.b
			if r.Intn(6) == 0 {
				b = flip(c, b)
				if m.pre { // whatever prekey it names now
					if p, err := wire.DecodePreKey(f, b); err == nil && p.HasPreKey {
						about = append(about, fmt.Sprint("prekey ", p.PreKeyID))
					}
				}
			}
			act("decrypt", m.to, about, func() error { _, err := us[m.to].Decrypt(us[claimed].Addr(), b, m.pre); return err })
		case 8:
			act("group-create", x, chain(x), func() error {
				d, err := us[x].CreateGroup(name(x))
				if err == nil {
					gms = append(gms, gnet{gn, x, d, true})
				}
				return err
			})
		case 9:
			act("group-encrypt", x, chain(x), func() error {
				g, err := us[x].GroupEncrypt(name(x), randPlain(c))
				if err == nil {
					gms = append(gms, gnet{gn, x, g, false})
				}
				return err
			})
		case 10:
			for j := 0; j < 3 && len(gms) > 0; j++ {
				m := gms[max64(0, len(gms)-1-r.Intn(6))]
				if r.Intn(6) > 0 {
					gn, y = m.n, m.s
				}
				if m.d {
					act("group-join", x, chain(y), func() error { return us[x].JoinGroup(name(y), m.b) })
				} else {
					act("group-decrypt", x, chain(y), func() error { _, err := us[x].GroupDecrypt(name(y), m.b); return err })
				}
			}
		}
	}
}

// entryOf is the entry a store operation writes.
func entryOf(op string) string {
	for _, p := range [][2]string{{"save-identity ", "identity "}, {"store-prekey ", "prekey "}, {"remove-prekey ", "prekey "}, {"store-session ", "session "}, {"delete-session ", "session "}, {"store-sender-key ", "senderkey "}, {"store-signed-prekey ", "signed "}, {"remove-signed-prekey ", "signed "}} {
		if strings.HasPrefix(op, p[0]) {
			k := p[1] + strings.TrimPrefix(op, p[0])
			if p[0] == "save-identity " { // the key follows the address
				k = k[:strings.LastIndex(k, " ")]
			}
			return k
		}
	}
	return op
}
