package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"sync"
	"syscall"

	"verif/ref"
	"verif/rt"
	"verif/sim"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"

	"encoding/json"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P30",
		Rule: "one case runs sessions, groups, key generation, storage and provisioning through success and many kinds of failure (altered, repeated, misdirected and malformed messages, damaged records, missing and untrusted keys, failing entropy) while everything written by the default logger or to standard output and error, and every returned error text, is captured and searched for each secret seen so far (private, root, chain and message keys, sender keys, plaintexts) in raw, hex, base64, decimal and quoted form. " +
			"Distinct by operation, outcome and amount of output",
		Cases:       tiered(240, 5000),
		Run:         runP30,
		Need:        map[string]int64{"operations": 20000, "failed_operations": 8000, "log_bytes": 100000, "secrets": 20000, "errors_searched": 8000, "helper_rounds": 300, "records_damaged": 10000, "skip_limits": 25, "too_far": 25, "decrypt_no_entropy": 1500, "described_again": 500},
		Assumptions: []string{"the default logger is in use; an application's own logger may receive more"},
	})
}

// recorder passes entropy on and remembers it: private keys are made of it.
type recorder struct {
	r    io.Reader
	mu   sync.Mutex
	seen [][]byte
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.mu.Lock()
	if n >= 16 {
		r.seen = append(r.seen, append([]byte{}, p[:n]...))
	}
	r.mu.Unlock()
	return n, err
}

// leaks looks for secrets in text.
type leaks struct {
	c    *rt.Case
	what map[string]string // needle -> description

	heads   map[string][]string // needles by how they begin
	indexed int
}

func (l *leaks) add(what string, b []byte) {
	if len(b) < 16 {
		return
	}
	if len(b) > 32 {
		for i := 0; i+32 <= len(b); i += 32 {
			l.add(what, b[i:i+32])
		}
		return
	}
	if string(b) == strings.Repeat(string(b[:1]), len(b)) {
		return
	}
	// A few leading and trailing bytes in each notation are enough.
	for _, part := range [][]byte{b[:12], b[len(b)-12:]} {
		l.what[string(part)] = what + " raw"
		h := hex.EncodeToString(part)
		l.what[h] = what + " in hex"
		l.what[strings.ToUpper(h)] = what + " in hex"
		var d, x, g []string
		for _, v := range part {
			d, x, g = append(d, fmt.Sprint(v)), append(x, fmt.Sprintf("%#x", v)), append(g, fmt.Sprintf("%02x", v))
		}
		l.what[strings.Join(d, " ")] = what + " in decimal"
		l.what[strings.Join(d, ", ")] = what + " in decimal"
		l.what[strings.Join(d, ",")] = what + " in decimal"
		l.what[strings.Join(x, ", ")] = what + " in Go notation"
		l.what[strings.Join(g, " ")] = what + " in spaced hex"
		l.what[fmt.Sprintf("%q", part)[1:len(fmt.Sprintf("%q", part))-1]] = what + " quoted"
	}
	for off := 0; off < 3; off++ { // inside a longer base64 text
		n := (len(b) - off) / 3 * 3
		e := base64.StdEncoding.EncodeToString(b[off : off+n])
		l.what[e[:16]] = what + " in base64"
		l.what[base64.URLEncoding.EncodeToString(b[off : off+n])[:16]] = what + " in base64"
	}
	l.c.Count("secrets", 1)
}

// add a clamped private key as well as the bytes it was made of.
func (l *leaks) entropy(b []byte) {
	l.add("entropy", b)
	if len(b) == 32 {
		var k [32]byte
		copy(k[:], b)
		k = ref.NewKeyPair(k).Priv
		l.add("private key", k[:])
	}
}

// search looks at every place of the text for a secret that begins there.
func (l *leaks) search(text, where string) {
	if l.heads == nil || len(l.what) != l.indexed {
		l.heads, l.indexed = map[string][]string{}, len(l.what)
		for n := range l.what {
			l.heads[n[:12]] = append(l.heads[n[:12]], n)
		}
	}
	for i := 0; i+12 <= len(text); i++ {
		for _, n := range l.heads[text[i:i+12]] {
			if strings.HasPrefix(text[i:], n) {
				l.c.Fail("leak:"+where, "%s is in the %s: ...%q", l.what[n], where, text[max64(0, i-120):min(len(text), i+200)])
			}
		}
	}
}

// captured runs f with standard output and error going to a file.
func captured(c *rt.Case, f func()) string {
	dir := os.Getenv("VMON_SCRATCH")
	tmp, err := os.CreateTemp(dir, "out")
	c.NoErr(err, "scratch")
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	so, _ := syscall.Dup(1)
	se, _ := syscall.Dup(2)
	syscall.Dup2(int(tmp.Fd()), 1)
	syscall.Dup2(int(tmp.Fd()), 2)
	func() {
		defer func() {
			syscall.Dup2(so, 1)
			syscall.Dup2(se, 2)
			syscall.Close(so)
			syscall.Close(se)
		}()
		f()
	}()
	b, _ := os.ReadFile(tmp.Name())
	return string(b)
}

func runP30(c *rt.Case) {
	var logged bytes.Buffer
	log.SetOutput(&logged)
	defer log.SetOutput(io.Discard)
	l := &leaks{c: c, what: map[string]string{}}
	rec := &recorder{r: c.Rand}
	var errs []string
	var out string
	withReader(rec, func() {
		out = captured(c, func() { p30Work(c, l, &errs) })
	})
	for _, e := range rec.seen {
		l.entropy(e)
	}
	l.search(logged.String(), "log")
	l.search(out, "output")
	for _, e := range errs {
		l.search(e, "error text")
		c.Count("errors_searched", 1)
	}
	c.Count("log_bytes", int64(logged.Len()))
	c.Max("max_secrets_forms", int64(len(l.what)))
	if c.Idx < 2 {
		s := logged.String()
		c.Sample(map[string]any{"log_head": strings.Split(s[:min(len(s), 600)], "\n"), "errors": errs[:min(len(errs), 4)]})
	}
}

func p30Work(c *rt.Case, l *leaks, errs *[]string) {
	r := c.R
	f := format(c)
	op := func(name string, g func() error) bool {
		var err error
		c.Count("operations", 1)
		if p := rt.Try(func() { err = g() }); p != "" {
			c.Fail("panic:"+name, "%s", p)
		}
		if err != nil {
			*errs = append(*errs, err.Error())
			c.Count("failed_operations", 1)
		}
		c.Sig(name, err != nil, f, err)
		return err == nil
	}
	plain := func() []byte {
		b := []byte("plaintext " + hex.EncodeToString(randBytes(c, 8+r.Intn(40))))
		l.add("plaintext", b[10:26])
		l.add("plaintext", b[:26])
		return b
	}
	us := []*sim.User{sim.NewUser(c, "alice", 1, f, sim.Mode(r.Intn(3))), sim.NewUser(c, "bob", 1, f, sim.Mode(r.Intn(3))), sim.NewUser(c, "carol", 1, f, sim.Mode(r.Intn(3)))}
	harvest := func() {
		for _, u := range us {
			for _, p := range us {
				rec := u.St.LoadSession(p.Addr())
				if rec == nil || rec.IsFresh() {
					continue
				}
				st := rec.SessionState()
				if !st.HasSenderChain() {
					continue
				}
				l.add("root key", st.RootKey().Bytes())
				ck := append([]byte{}, st.SenderChainKey().Key()...)
				for k := 0; k < 3; k++ {
					l.add("chain key", ck)
					mk := ref.MessageKeys(ck)
					l.add("message key", mk.Cipher)
					l.add("MAC key", mk.Mac)
					ck = ref.NextChain(ck)
				}
			}
		}
	}
	mallory := sim.NewUser(c, "bob", 1, f, sim.Bytes)
	var kept []struct {
		from, to int
		b        []byte
		pre      bool
	}
	for k := 0; k < 55; k++ {
		a := r.Intn(3)
		b := (a + 1 + r.Intn(2)) % 3
		switch r.Intn(12) {
		case 8: // a key that was kept, with its own message, a changed one and another
			if len(kept) > 1 {
				m, o := kept[r.Intn(len(kept))], kept[r.Intn(len(kept))]
				var mk *message.Keys
				op("decrypt-keys", func() (err error) { _, mk, err = us[m.to].DecryptKeys(us[m.from].Addr(), m.b, m.pre); return })
				if mk == nil {
					continue
				}
				l.add("message key", mk.CipherKey())
				l.add("MAC key", mk.MacKey())
				for j := 0; j < 4; j++ {
					x := m.b
					if j == 1 {
						x = o.b
					} else if j > 1 {
						x = flip(c, x)
					}
					op("decrypt-with-key", func() error {
						sm, err := inner(us[m.to], x, m.pre)
						if err != nil {
							return err
						}
						_, err = us[m.to].Cipher(us[m.from].Addr()).DecryptWithKey(sm, mk)
						return err
					})
				}
			}
		case 9: // prekeys that are gone
			p := us[b].Publish(c, pick(c, sim.OneTime, sim.NoPreKey))
			x := sim.NewUser(c, us[a].Name, 77, f, sim.Bytes)
			if op("bundle", func() error { return x.Initiate(us[b].Addr(), p) }) {
				w, pre, err := x.Encrypt(us[b].Addr(), plain())
				c.NoErr(err, "encrypt")
				if p.Kind == sim.OneTime && r.Intn(2) == 0 {
					us[b].St.RemovePreKey(p.PreKeyID)
				} else {
					us[b].ExpireSigned(p.SignedID)
					us[b].RotateSigned()
				}
				op("prekey-gone", func() error { _, err := us[b].Decrypt(x.Addr(), w, pre); return err })
			}
		case 10: // far ahead, and a replay of what was read
			var last []byte
			var pre, ok bool
			for j := 60 + r.Intn(100); j > 0; j-- {
				ok = op("encrypt", func() (err error) { last, pre, err = us[a].Encrypt(us[b].Addr(), []byte("x")); return })
				if !ok {
					break
				}
			}
			if ok {
				op("decrypt-ahead", func() error { _, err := us[b].Decrypt(us[a].Addr(), last, pre); return err })
				op("decrypt-replay", func() error { _, err := us[b].Decrypt(us[a].Addr(), last, pre); return err })
			}
		case 11:
			p30Helpers(c, l, op)
		case 0:
			op("bundle", func() error {
				return us[a].Initiate(us[b].Addr(), us[b].Publish(c, pick(c, sim.OneTime, sim.NoPreKey, sim.Last)))
			})
		case 1: // an untrusted or broken bundle
			bad, _ := badBundle(c, us[b], us[b].Publish(c, sim.OneTime))
			op("bad-bundle", func() error { return us[a].Initiate(us[b].Addr(), bad) })
			op("untrusted-bundle", func() error { return us[a].Initiate(us[b].Addr(), mallory.Publish(c, sim.NoPreKey)) })
		case 2, 3, 4:
			var w []byte
			var pre bool
			if op("encrypt", func() (err error) { w, pre, err = us[a].Encrypt(us[b].Addr(), plain()); return }) {
				kept = append(kept, struct {
					from, to int
					b        []byte
					pre      bool
				}{a, b, w, pre})
			}
		case 5:
			if len(kept) > 0 {
				m := kept[r.Intn(len(kept))]
				op("decrypt", func() error { _, err := us[m.to].Decrypt(us[m.from].Addr(), m.b, m.pre); return err })
			}
		case 6:
			if len(kept) > 0 {
				m := kept[r.Intn(len(kept))]
				for j := 0; j < 4; j++ {
					x := flip(c, m.b)
					if j > 1 {
						x = resize(c, m.b)
					}
					op("decrypt-altered", func() error { _, err := us[m.to].Decrypt(us[m.from].Addr(), x, m.pre); return err })
				}
				op("decrypt-as-other-type", func() error { _, err := us[m.to].Decrypt(us[m.from].Addr(), m.b, !m.pre); return err })
				op("decrypt-from-other", func() error {
					_, err := us[m.to].Decrypt(protocol.NewSignalAddress("nobody", 1), m.b, m.pre)
					return err
				})
				op("misdirected", func() error { _, err := mallory.Decrypt(us[m.from].Addr(), m.b, m.pre); return err })
			}
		case 7:
			p := us[b].Publish(c, sim.NoPreKey)
			c.Rand.FailIn(1 + r.Intn(2))
			op("no-entropy", func() error { return us[a].Initiate(us[b].Addr(), p) })
			c.Rand.FailIn(0)
			// The same while a session changes direction or is opened.
			harvest()
			for j := 0; j < 3 && len(kept) > 0; j++ {
				m := kept[len(kept)-1-r.Intn(min(len(kept), 12))]
				c.Rand.FailIn(1 + r.Intn(2))
				if !op("decrypt-no-entropy", func() error { _, err := us[m.to].Decrypt(us[m.from].Addr(), m.b, m.pre); return err }) {
					c.Count("decrypt_no_entropy", 1)
				}
				c.Rand.FailIn(0)
			}
		}
		if k%4 == 3 {
			harvest()
		}
	}
	if c.Idx%8 == 0 {
		p30Limits(c, l, sim.NewUser(c, "dora", 1, f, us[0].St.Mode), sim.NewUser(c, "emil", 1, f, us[1].St.Mode), op)
	}
	// Groups.
	n := protocol.NewSenderKeyName("group", us[0].Addr())
	var d []byte
	op("group-without-key", func() error { _, err := us[0].GroupEncrypt(n, plain()); return err })
	if op("create", func() (err error) { d, err = us[0].CreateGroup(n); return }) {
		dm, err := ref.FromDist(f, d)
		c.NoErr(err, "dist")
		l.add("sender chain key", dm.Chain)
		op("join", func() error { return us[1].JoinGroup(n, d) })
		op("join-altered", func() error { return us[2].JoinGroup(n, resize(c, d)) })
		op("receive-only", func() error { _, err := us[1].GroupEncrypt(n, plain()); return err })
		// Descriptions heard again, early and late, by members new and old.
		ds := [][]byte{d}
		again := func() {
			for i := 0; i < 2; i++ {
				if rec := us[i].St.LoadSenderKey(n); rec != nil && !rec.IsEmpty() {
					if st, err := rec.SenderKeyState(); err == nil {
						ch := ref.SenderChain{Chain: append([]byte{}, st.SenderChainKey().Seed()...)}
						for j := 0; j < 3; j++ {
							l.add("sender chain key", ch.Chain)
							ch.Step()
						}
					}
				}
			}
			x := ds[r.Intn(len(ds))]
			op("join-again", func() error { return us[1+r.Intn(2)].JoinGroup(n, x) })
			if r.Intn(3) == 0 {
				op("join-own", func() error { return us[0].JoinGroup(protocol.NewSenderKeyName("other", us[1].Addr()), x) })
			}
			c.Count("described_again", 1)
		}
		for k := 0; k < 8; k++ {
			if r.Intn(2) == 0 {
				again()
			}
			if r.Intn(4) == 0 {
				op("create-again", func() error {
					b, err := us[0].CreateGroup(n)
					if err == nil {
						ds = append(ds, b)
						dm, err := ref.FromDist(f, b)
						c.NoErr(err, "dist")
						l.add("sender chain key", dm.Chain)
					}
					return err
				})
			}
			var g []byte
			if op("group-encrypt", func() (err error) { g, err = us[0].GroupEncrypt(n, plain()); return }) {
				if r.Intn(3) != 0 {
					op("group-decrypt", func() error { _, err := us[1].GroupDecrypt(n, g); return err })
				}
				op("group-altered", func() error { _, err := us[1].GroupDecrypt(n, flip(c, g)); return err })
				op("group-resized", func() error { _, err := us[1].GroupDecrypt(n, resize(c, g)); return err })
				op("group-unknown", func() error {
					_, err := us[2].GroupDecrypt(protocol.NewSenderKeyName("x", us[0].Addr()), g)
					return err
				})
			}
		}
		for i := 0; i < 2; i++ {
			if rec := us[i].St.LoadSenderKey(n); rec != nil && !rec.IsEmpty() {
				if st, err := rec.SenderKeyState(); err == nil {
					l.add("sender chain key", st.SenderChainKey().Seed())
					if p := st.SigningKey().PrivateKey(); i == 0 && p != nil {
						k := p.Serialize()
						l.add("signing key", k[:])
					}
				}
			}
		}
	}
	// Damaged records.
	recs := makeRecords(c, f)
	for _, x := range recs.texts(c) {
		var doc any
		c.Must(json.Unmarshal(x.b, &doc) == nil, "record-json", "a stored %s is not JSON", x.kind)
		l.document(doc)
		for j := 0; j < 9; j++ {
			var y []byte
			switch {
			case j < 2:
				y = resize(c, x.b)
			case j == 2: // all there, and something more
				y = append(append([]byte{}, x.b...), pick(c, "}", "x", "\x00", string(x.b))...)
			case j == 3: // cut near its end
				y = x.b[:len(x.b)-1-r.Intn(min(40, len(x.b)-1))]
			case j == 4: // inside something else
				y = []byte("[" + string(x.b) + "]")
			default:
				y, _ = mutateJSON(c, x.b)
			}
			op("load-"+x.kind, func() error { _, err := loadRecord(recs.a.Ser, x.kind, y); return err })
			c.Count("records_damaged", 1)
		}
	}
	// Provisioning.
	me, eph := newRefKey(c), newRefKey(c)
	l.add("provisioning key", me.Priv[:])
	ak, mk := provisionKeys(eph.Priv, me.Pub)
	l.add("provisioning AES key", ak)
	l.add("provisioning MAC key", mk)
	body := append([]byte{1}, randBytes(c, 16)...)
	body = append(body, ref.CBCEncrypt(body[1:17], ak, plain())...)
	body = append(body, ref.HMAC(mk, body)...)
	for k := 0; k < 4; k++ {
		b := append([]byte{}, body...)
		if k > 0 {
			b = flip(c, b)
		}
		doc, _ := json.Marshal(envelope{ref.Enc33(eph.Pub), b})
		op("provision", func() error {
			_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(me.Priv[:]), base64.StdEncoding.EncodeToString(doc))
			return err
		})
	}
	harvest()
}

// inner parses the session message of a message.
func inner(u *sim.User, b []byte, pre bool) (*protocol.SignalMessage, error) {
	b = append([]byte{}, b...)
	if !pre {
		return protocol.NewSignalMessageFromBytes(b, u.Ser.SignalMessage)
	}
	m, err := protocol.NewPreKeySignalMessageFromBytes(b, u.Ser.PreKeySignalMessage, u.Ser.SignalMessage)
	if err != nil {
		return nil, err
	}
	return m.WhisperMessage(), nil
}

// p30Helpers runs the library's functions on secrets, rightly and wrongly.
func p30Helpers(c *rt.Case, l *leaks, op func(string, func() error) bool) {
	r := c.R
	bytesOf := func(what string, n int) []byte {
		b := randBytes(c, n)
		l.add(what, b)
		return b
	}
	size := func(n int) int { return max64(0, n+pick(c, 0, 0, 0, -1, 1, -16, 16)) }
	key, iv, pt := bytesOf("AES key", size(32)), randBytes(c, size(16)), bytesOf("plaintext", size(32))
	op("aes-encrypt", func() error { _, err := cipher.Encrypt(iv, key, pt); return err })
	op("aes-cbc-encrypt", func() error { _, err := cipher.EncryptCbc(iv, key, pt); return err })
	good, giv := bytesOf("AES key", 32), randBytes(c, 16)
	ct := ref.CBCEncrypt(giv, good, pt)
	if r.Intn(2) == 0 {
		ct = resize(c, ct)
	} else if r.Intn(2) == 0 {
		good = bytesOf("AES key", size(32))
	}
	op("aes-decrypt", func() error { _, err := cipher.Decrypt(giv, good, ct); return err })
	op("aes-cbc-decrypt", func() error { _, err := cipher.DecryptCbc(giv, good, ct); return err })
	op("kdf", func() error {
		out, err := kdf.DeriveSecrets(bytesOf("key material", 32), nil, []byte("info"), pick(c, 32, 64, 8160, 8161, 9000))
		if err == nil {
			l.add("derived secret", out[:32])
		}
		return err
	})
	kp := newRefKey(c)
	l.add("private key", kp.Priv[:])
	op("key-pair", func() error { ecc.CreateKeyPair(kp.Priv[:]); return nil })
	op("sign-verify", func() error {
		s := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp.Priv), pt)
		if r.Intn(2) == 0 {
			s[r.Intn(64)] ^= 1
		}
		ecc.VerifySignature(ecc.NewDjbECPublicKey(kp.Pub), pt, s)
		return nil
	})
	op("shared-secret", func() error {
		s := kdf.CalculateSharedSecret(newRefKey(c).Pub, kp.Priv)
		l.add("shared secret", s[:])
		return nil
	})
	op("decode-private-as-point", func() error { _, err := ecc.DecodePoint(kp.Priv[:], r.Intn(2)); return err })
	if r.Intn(2) == 0 {
		c.Rand.FailIn(1 + r.Intn(3))
	}
	op("identity", func() error { _, err := keyhelper.GenerateIdentityKeyPair(); return err })
	ser := sim.Serializer(format(c))
	op("prekeys", func() error { _, err := keyhelper.GeneratePreKeys(1, 3, ser.PreKeyRecord); return err })
	op("last-resort", func() error { _, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord); return err })
	op("signed-prekey", func() error {
		id := identity.NewKeyPair(identity.NewKey(ecc.NewDjbECPublicKey(kp.Pub)), ecc.NewDjbECPrivateKey(kp.Priv))
		_, err := keyhelper.GenerateSignedPreKey(id, 5, ser.SignedPreKeyRecord)
		return err
	})
	c.Rand.FailIn(0)
	c.Count("helper_rounds", 1)
}

// document adds the secret-looking strings of a stored record.
func (l *leaks) document(v any) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			s, ok := e.(string)
			lk := strings.ToLower(k)
			if ok && (strings.Contains(lk, "private") || strings.Contains(lk, "chainkey") || lk == "key" || strings.Contains(lk, "cipherkey") || strings.Contains(lk, "mackey") || strings.Contains(lk, "rootkey")) {
				if b, err := base64.StdEncoding.DecodeString(s); err == nil {
					l.add("stored "+k, b)
				}
			}
			l.document(e)
		}
	case []any:
		for _, e := range x {
			l.document(e)
		}
	}
}

// p30Limits takes records past each of their limits, with the keys that are
// dropped on the way known.
func p30Limits(c *rt.Case, l *leaks, a, b *sim.User, op func(string, func() error) bool) {
	r := c.R
	if !op("bundle", func() error { return a.Initiate(b.Addr(), b.Publish(c, sim.OneTime)) }) {
		return
	}
	// More skipped messages than are kept: the first are dropped.
	ck := append([]byte{}, a.St.LoadSession(b.Addr()).SessionState().SenderChainKey().Key()...)
	n := sim.MaxSkipped + 10 + r.Intn(40)
	read := func(name string, m []byte, pre bool) {
		op(name, func() error { _, err := b.Decrypt(a.Addr(), m, pre); return err })
	}
	for j := 0; j < n; j++ {
		if j < 60 || j > n-5 {
			l.add("chain key", ck)
			mk := ref.MessageKeys(ck)
			l.add("message key", mk.Cipher)
			l.add("MAC key", mk.Mac)
		}
		ck = ref.NextChain(ck)
		m, pre, err := a.Encrypt(b.Addr(), []byte("x"))
		c.NoErr(err, "encrypt")
		if j == n/2 || j == n-1 {
			read("decrypt-far-ahead", m, pre)
			read("decrypt-far-replay", m, pre)
		}
	}
	c.Count("skip_limits", 1)
	// The same in a group.
	g := protocol.NewSenderKeyName("limits", a.Addr())
	d, err := a.CreateGroup(g)
	c.NoErr(err, "create")
	c.NoErr(b.JoinGroup(g, d), "join")
	dm, err := ref.FromDist(a.F, d)
	c.NoErr(err, "dist")
	for j := 0; j < n; j++ {
		if j < 60 || j > n-5 {
			l.add("sender chain key", dm.Chain)
			seed := ref.HMAC(dm.Chain, []byte{1})
			l.add("group message seed", seed)
			l.add("group message key", ref.HKDF(seed, nil, "WhisperGroup", 48)[16:])
		}
		dm.Chain = ref.NextChain(dm.Chain)
		m, err := a.GroupEncrypt(g, []byte("x"))
		c.NoErr(err, "group-encrypt")
		if j == n/2 || j == n-1 {
			op("group-far-ahead", func() error { _, err := b.GroupDecrypt(g, m); return err })
			op("group-far-replay", func() error { _, err := b.GroupDecrypt(g, m); return err })
		}
	}
	// And more than may be ahead at once: refused.
	st := a.St.LoadSession(b.Addr()).SessionState()
	ck = append([]byte{}, st.SenderChainKey().Key()...)
	far := sim.MaxFuture + 2 + r.Intn(5)
	gfar := sim.MaxGroupGap + 1 + r.Intn(5)
	for j := 0; j < far; j++ {
		if j < 10 || j > far-5 {
			l.add("chain key", ck)
			mk := ref.MessageKeys(ck)
			l.add("message key", mk.Cipher)
			l.add("MAC key", mk.Mac)
		}
		ck = ref.NextChain(ck)
		m, pre, err := a.Encrypt(b.Addr(), []byte("x"))
		c.NoErr(err, "encrypt")
		if j == far-1 {
			read("decrypt-too-far", m, pre)
			c.Count("too_far", 1)
		}
	}
	for j := 0; j <= gfar; j++ {
		if j < 10 || j > gfar-5 {
			l.add("sender chain key", dm.Chain)
			seed := ref.HMAC(dm.Chain, []byte{1})
			l.add("group message seed", seed)
			l.add("group message key", ref.HKDF(seed, nil, "WhisperGroup", 48)[16:])
		}
		dm.Chain = ref.NextChain(dm.Chain)
		m, err := a.GroupEncrypt(g, []byte("x"))
		c.NoErr(err, "group-encrypt")
		if j == gfar {
			op("group-too-far", func() error { _, err := b.GroupDecrypt(g, m); return err })
		}
	}
	// More receiving chains, then more archived sessions, and more descriptions
	// of one sender than are kept; and an archived session that speaks again.
	secrets := func(x, y *sim.User) {
		st := x.St.LoadSession(y.Addr()).SessionState()
		l.add("root key", st.RootKey().Bytes())
		if st.HasSenderChain() {
			k := st.SenderChainKey().Key()
			l.add("chain key", k)
			l.add("message key", ref.MessageKeys(k).Cipher)
			rk := st.SenderRatchetKeyPair()
			if rk != nil && rk.PrivateKey() != nil {
				p := rk.PrivateKey().Serialize()
				l.add("ratchet key", p[:])
			}
		}
	}
	talk := func(x, y *sim.User) {
		secrets(x, y)
		m, pre, err := x.Encrypt(y.Addr(), []byte("x"))
		if err == nil {
			op("decrypt-talk", func() error { _, err := y.Decrypt(x.Addr(), m, pre); return err })
			secrets(y, x)
		}
	}
	for j := 0; j < 2*sim.MaxChains+4; j++ {
		talk(a, b)
		talk(b, a)
	}
	var old [][]byte
	for j := 0; j < sim.MaxArchived+6; j++ {
		if !op("bundle", func() error { return a.Initiate(b.Addr(), b.Publish(c, sim.OneTime)) }) {
			return
		}
		m, _, err := a.Encrypt(b.Addr(), []byte("old"))
		c.NoErr(err, "encrypt")
		talk(a, b)
		old = append(old, m)
		if j%4 == 0 { // what an earlier session still has to say
			m := old[r.Intn(len(old))]
			read("decrypt-archived", m, true)
			secrets(b, a)
		}
		if j%2 == 0 {
			own := protocol.NewSenderKeyName("limits", a.Addr())
			a.St.DropSenderKey(own)
			d, err := a.CreateGroup(own)
			c.NoErr(err, "create")
			if dm, err := ref.FromDist(a.F, d); err == nil {
				l.add("sender chain key", dm.Chain)
			}
			c.NoErr(b.JoinGroup(own, d), "join")
		}
	}
}
