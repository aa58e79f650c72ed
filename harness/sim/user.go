package sim

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"verif/rt"
	"verif/wire"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// LastResort is the ID of the last resort prekey.
const LastResort = 0xFFFFFF

// oddName is the address of the i-th of a set of devices: all are distinct but
// alike, and some are odd.
func oddName(c *rt.Case, i int, names []string) (string, uint32) {
	name, dev := names[i%len(names)], uint32(1+i/2)
	switch c.R.Intn(12) {
	case 0:
		name = [...]string{"", "+15550000", "J\u00f6rg", "\u0130stanbul", "a:1", "alice::1", "bob ", "ALICE", "a\x00b", strings.Repeat("x", 300)}[c.R.Intn(10)]
		dev += 100 * uint32(i)
	case 1:
		dev = [...]uint32{0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x10001}[c.R.Intn(4)] - uint32(i)
	case 2:
		dev = 1000 + uint32(i)
	}
	return name, dev
}

// Serializer returns the library's serializer for a format.
func Serializer(f wire.Format) *serialize.Serializer {
	if f == wire.JSON {
		return serialize.NewJSONSerializer()
	}
	return serialize.NewProtoBufSerializer()
}

// User is a device.
type User struct {
	Name string
	Dev  uint32
	F    wire.Format
	Ser  *serialize.Serializer
	St   *Store
	ID   *identity.KeyPair

	nextPre    uint32
	nextSigned uint32
	expired    map[uint32]bool
	issued     map[uint32]bool
	ids        []uint32 // the IDs issued, in order
	// Split uses the separate-stores constructor.
	Split bool
	// bare uses the constructor for ciphers without a builder where it can.
	bare bool
	// byRecord works on the records itself, with the exported operations.
	byRecord bool
	c        *rt.Case
	// ReuseIDs lets bundles offer a fresh one-time prekey under an ID whose
	// earlier prekey was used.
	ReuseIDs bool
	// kept holds the cipher and builder objects of a user that reuses them for
	// all its operations; nil if every operation makes new ones.
	kept *kept
}

// Addr is a fresh address object of the user.
func (u *User) Addr() *protocol.SignalAddress { return protocol.NewSignalAddress(u.Name, u.Dev) }

// NewUser makes a device with keys but no prekeys.
func NewUser(c *rt.Case, name string, dev uint32, f wire.Format, m Mode) *User {
	id, err := keyhelper.GenerateIdentityKeyPair()
	c.NoErr(err, "identity-generation")
	return NewUserWithID(c, name, dev, f, m, id)
}

// NewUserWithID makes a device with a given identity.
func NewUserWithID(c *rt.Case, name string, dev uint32, f wire.Format, m Mode, id *identity.KeyPair) *User {
	u := &User{Name: name, Dev: dev, F: f, Ser: Serializer(f), ID: id, Split: c.R.Intn(2) == 0, bare: c.R.Intn(4) == 0, byRecord: c.R.Intn(6) == 0, c: c}
	reg := keyhelper.GenerateRegistrationID()
	if c.R.Intn(8) == 0 {
		reg = [...]uint32{0, 1, 0x3FFF, 0x4000, 0x7FFFFFFF, 0xFFFFFFFF}[c.R.Intn(6)]
	}
	u.St = NewStore(m, u.Ser, id, reg)
	if c.R.Intn(2) == 0 {
		u.kept = &kept{m: map[keptKey]interface{}{}}
		c.Count("users_keeping_ciphers", 1)
	}
	return u
}

// PreKeyKind selects what a bundle offers.
type PreKeyKind int

// The kinds of one-time prekey in a bundle.
const (
	OneTime PreKeyKind = iota
	NoPreKey
	Last
)

func (k PreKeyKind) String() string { return [...]string{"one-time", "none", "last-resort"}[k] }

// Published is a bundle with what the model needs to know of it.
type Published struct {
	Bundle   *prekey.Bundle
	Kind     PreKeyKind
	PreKeyID uint32
	SignedID uint32
	// PreKeyPub is the offered prekey, nil without one.
	PreKeyPub []byte
	// Reused tells that an earlier prekey had the same ID.
	Reused bool
}

// AddSigned generates and stores a new signed prekey.
func (u *User) AddSigned(c *rt.Case, id uint32) *record.SignedPreKey {
	sp, err := keyhelper.GenerateSignedPreKey(u.ID, id, u.Ser.SignedPreKeyRecord)
	c.NoErr(err, "signed-prekey-generation")
	if c.R.Intn(2) == 0 { // made at some other time, by some other clock
		ts := [...]int64{0, 1, -1, 1 << 40, 1 << 62, sp.Timestamp() - c.R.Int63n(1<<36), sp.Timestamp() + c.R.Int63n(1<<36)}[c.R.Intn(7)]
		sp = record.NewSignedPreKey(id, ts, sp.KeyPair(), sp.Signature(), u.Ser.SignedPreKeyRecord)
		c.Count("odd_timestamps", 1)
	}
	u.St.StoreSignedPreKey(id, sp)
	return sp
}

// AddPreKey generates and stores a one-time prekey.
func (u *User) AddPreKey(c *rt.Case, id uint32) *record.PreKey {
	kp, err := ecc.GenerateKeyPair()
	c.NoErr(err, "prekey-generation")
	pk := record.NewPreKey(id, kp, u.Ser.PreKeyRecord)
	u.St.StorePreKey(id, pk)
	return pk
}

// Publish makes a bundle, generating keys as needed.
func (u *User) Publish(c *rt.Case, kind PreKeyKind) *Published {
	if u.nextSigned == 0 || c.R.Intn(5) == 0 {
		u.nextSigned = uint32(c.R.Intn(1 << 24))
		if c.R.Intn(6) == 0 {
			u.nextSigned = [...]uint32{0, 1, 0xFFFFFF, 0xFFFFFFFF}[c.R.Intn(4)]
		}
		for u.expired[u.nextSigned] { // an expired ID never comes back with another key
			u.nextSigned = uint32(c.R.Intn(1 << 24))
		}
		if !u.St.ContainsSignedPreKey(u.nextSigned) {
			u.AddSigned(c, u.nextSigned)
		}
		if u.nextSigned == 0 { // 0 also means "none yet"; keep it for this bundle only
			defer func() { u.nextSigned = 0 }()
		}
	}
	sp := u.St.LoadSignedPreKey(u.nextSigned)
	p := &Published{Kind: kind, SignedID: u.nextSigned}
	var id *optional.Uint32
	var pub ecc.ECPublicKeyable
	switch kind {
	case OneTime:
		u.nextPre++
		p.PreKeyID = u.nextPre
		if u.nextPre == 1 && c.R.Intn(2) == 0 {
			p.PreKeyID = 0
		}
		if c.R.Intn(5) == 0 { // any ID may be chosen
			if id := [...]uint32{0xFFFFFE, 0xFFFFFD, 0x800000, 0x7FFFFF, 0x10000, 0xFFFF, 0x100, 0xFF, 0x80, 0x7F, uint32(c.R.Intn(LastResort)),
				0x1000000 + uint32(c.R.Intn(40)), 0x1FFFFFF, 0x80000001, 0xFFFFFFFF}[c.R.Intn(15)]; !u.issued[id] {
				u.nextPre--
				p.PreKeyID = id
				c.Count("odd_prekey_ids", 1)
			}
		}
		if u.ReuseIDs && len(u.issued) > 0 && c.R.Intn(2) == 0 {
			for i := 0; i < 6; i++ {
				if id := u.ids[c.R.Intn(len(u.ids))]; !u.St.ContainsPreKey(id) {
					if p.PreKeyID == u.nextPre {
						u.nextPre--
					}
					p.PreKeyID, p.Reused = id, true
					c.Count("prekey_ids_reused", 1)
					break
				}
			}
		}
		if u.issued == nil {
			u.issued = map[uint32]bool{}
		}
		for p.PreKeyID == u.nextPre && u.issued[p.PreKeyID] && !p.Reused {
			u.nextPre++
			p.PreKeyID = u.nextPre
		}
		if !u.issued[p.PreKeyID] {
			u.ids = append(u.ids, p.PreKeyID)
		}
		u.issued[p.PreKeyID] = true
		pk := u.AddPreKey(c, p.PreKeyID)
		id, pub = optional.NewOptionalUint32(p.PreKeyID), pk.KeyPair().PublicKey()
	case Last:
		p.PreKeyID = LastResort
		if !u.St.ContainsPreKey(LastResort) {
			pk, err := keyhelper.GenerateLastResortKey(u.Ser.PreKeyRecord)
			c.NoErr(err, "last-resort-generation")
			u.St.StorePreKey(LastResort, pk)
		}
		pk := u.St.LoadPreKey(LastResort)
		c.Must(pk != nil, "last-resort-load", "the last resort prekey cannot be loaded")
		id, pub = optional.NewOptionalUint32(LastResort), pk.KeyPair().PublicKey()
	case NoPreKey:
		id = optional.NewEmptyUint32()
	}
	if pub != nil {
		p.PreKeyPub = pub.Serialize()
	}
	dev := u.Dev
	if c.R.Intn(10) == 0 { // the address a bundle is processed for decides, not what it says
		dev = [...]uint32{0, 1, 2, u.Dev + 1, 0xFFFFFFFF, uint32(c.R.Int63())}[c.R.Intn(6)]
		c.Count("other_device_bundles", 1)
	}
	p.Bundle = prekey.NewBundle(u.St.RegID, dev, id, p.SignedID, pub, sp.KeyPair().PublicKey(), sp.Signature(), u.ID.PublicKey())
	return p
}

// kept objects of a user, by store and address or group name.
type kept struct {
	mu sync.Mutex
	m  map[keptKey]interface{}
	n  int
}

type keptKey struct {
	st   *Store
	what string
	ser  *serialize.Serializer
}

func (u *User) keep(what string, mk func() interface{}) interface{} {
	if u.kept == nil {
		return mk()
	}
	u.kept.mu.Lock()
	defer u.kept.mu.Unlock()
	if u.kept.n++; u.kept.n%5 == 0 { // another object for the same now and then
		return mk()
	}
	k := keptKey{u.St, what, u.Ser}
	if _, ok := u.kept.m[k]; !ok {
		u.kept.m[k] = mk()
	}
	return u.kept.m[k]
}

// Builder makes a session builder towards a peer.
func (u *User) Builder(peer *protocol.SignalAddress) *session.Builder {
	return u.keep(fmt.Sprintf("builder %q %d", peer.Name(), peer.DeviceID()), func() interface{} {
		if u.Split {
			return session.NewBuilder(u.St, u.St, u.St, u.St, peer, u.Ser)
		}
		return session.NewBuilderFromSignal(u.St, peer, u.Ser)
	}).(*session.Builder)
}

// Cipher makes a session cipher towards a peer.
func (u *User) Cipher(peer *protocol.SignalAddress) *session.Cipher {
	b := u.Builder(peer)
	return u.keep(fmt.Sprintf("cipher %q %d", peer.Name(), peer.DeviceID()), func() interface{} {
		return session.NewCipher(b, peer)
	}).(*session.Cipher)
}

// Initiate processes a peer's bundle.
func (u *User) Initiate(peer *protocol.SignalAddress, p *Published) error {
	return u.Builder(peer).ProcessBundle(p.Bundle)
}

// Encrypt encrypts for a peer and returns the wire bytes.
func (u *User) Encrypt(peer *protocol.SignalAddress, pt []byte) (b []byte, isPreKey bool, err error) {
	m, err := u.session(peer).Encrypt(pt)
	if err != nil {
		return nil, false, err
	}
	return m.Serialize(), m.Type() == protocol.PREKEY_TYPE, nil
}

// Decrypt parses and decrypts wire bytes from a peer.
func (u *User) Decrypt(peer *protocol.SignalAddress, b []byte, isPreKey bool) ([]byte, error) {
	pt, _, err := u.DecryptKeys(peer, b, isPreKey)
	return pt, err
}

// DecryptKeys also returns the message keys.
func (u *User) DecryptKeys(peer *protocol.SignalAddress, b []byte, isPreKey bool) ([]byte, *message.Keys, error) {
	b = append([]byte{}, b...)
	if isPreKey {
		m, err := protocol.NewPreKeySignalMessageFromBytes(b, u.Ser.PreKeySignalMessage, u.Ser.SignalMessage)
		if err != nil {
			return nil, nil, err
		}
		return u.Cipher(peer).DecryptMessageReturnKey(m)
	}
	m, err := protocol.NewSignalMessageFromBytes(b, u.Ser.SignalMessage)
	if err != nil {
		return nil, nil, err
	}
	if u.byRecord {
		return u.decryptByRecord(peer, m)
	}
	return u.session(peer).DecryptAndGetKey(m)
}

// decryptByRecord does with the exported operation on records what
// DecryptAndGetKey does.
func (u *User) decryptByRecord(peer *protocol.SignalAddress, m *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	if !u.St.ContainsSession(peer) {
		return nil, nil, errors.New("no session")
	}
	rec := u.St.LoadSession(peer).Copy()
	pt, keys, err := u.session(peer).DecryptWithRecord(rec, m)
	if err != nil {
		return nil, nil, err
	}
	k := rec.SessionState().RemoteIdentityKey()
	if !u.St.IsTrustedIdentity(peer, k) {
		return nil, nil, errors.New("untrusted identity")
	}
	u.St.SaveIdentity(peer, k)
	u.St.StoreSession(peer, rec)
	u.c.Count("by_record", 1)
	return pt, keys, nil
}

// OpenByRecord reads an opening message with the exported operations on records.
func (u *User) OpenByRecord(peer *protocol.SignalAddress, b []byte) ([]byte, error) {
	m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, b...), u.Ser.PreKeySignalMessage, u.Ser.SignalMessage)
	if err != nil {
		return nil, err
	}
	rec := u.St.LoadSession(peer).Copy()
	id, err := u.Builder(peer).Process(rec, m)
	if err != nil {
		return nil, err
	}
	pt, _, err := u.Cipher(peer).DecryptWithRecord(rec, m.WhisperMessage())
	if err != nil {
		return nil, err
	}
	u.St.StoreSession(peer, rec)
	if id != nil && !id.IsEmpty {
		u.St.RemovePreKey(id.Value)
	}
	return pt, nil
}

// session makes a cipher for a session that exists, by either constructor.
func (u *User) session(peer *protocol.SignalAddress) *session.Cipher {
	if !u.bare {
		return u.Cipher(peer)
	}
	return u.keep(fmt.Sprintf("bare cipher %q %d", peer.Name(), peer.DeviceID()), func() interface{} {
		return session.NewCipherFromSession(peer, u.St, u.St, u.St, u.Ser.PreKeySignalMessage, u.Ser.SignalMessage)
	}).(*session.Cipher)
}

// GroupBuilder makes a group session builder.
func (u *User) GroupBuilder() *groups.SessionBuilder {
	return u.keep("group builder", func() interface{} {
		return groups.NewGroupSessionBuilder(u.St, u.Ser)
	}).(*groups.SessionBuilder)
}

// GroupCipher makes a group cipher for a sender's chain.
func (u *User) GroupCipher(n *protocol.SenderKeyName) *groups.GroupCipher {
	b := u.GroupBuilder()
	return u.keep(fmt.Sprintf("group cipher %q %q %d", n.GroupID(), n.Sender().Name(), n.Sender().DeviceID()), func() interface{} {
		return groups.NewGroupCipher(b, n, u.St)
	}).(*groups.GroupCipher)
}

// CreateGroup makes the distribution message of the user's own chain.
func (u *User) CreateGroup(n *protocol.SenderKeyName) ([]byte, error) {
	m, err := u.GroupBuilder().Create(n)
	if err != nil {
		return nil, err
	}
	return m.Serialize(), nil
}

// JoinGroup processes a distribution message.
func (u *User) JoinGroup(n *protocol.SenderKeyName, b []byte) error {
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, b...), u.Ser.SenderKeyDistributionMessage)
	if err != nil {
		return err
	}
	u.GroupBuilder().Process(n, m)
	return nil
}

// GroupEncrypt encrypts for the group.
func (u *User) GroupEncrypt(n *protocol.SenderKeyName, pt []byte) ([]byte, error) {
	m, err := u.GroupCipher(n).Encrypt(pt)
	if err != nil {
		return nil, err
	}
	return m.(*protocol.SenderKeyMessage).SignedSerialize(), nil
}

// GroupDecrypt decrypts a group message.
func (u *User) GroupDecrypt(n *protocol.SenderKeyName, b []byte) ([]byte, error) {
	m, err := protocol.NewSenderKeyMessageFromBytes(append([]byte{}, b...), u.Ser.SenderKeyMessage)
	if err != nil {
		return nil, err
	}
	return u.GroupCipher(n).Decrypt(m)
}

// ExpireSigned removes a signed prekey for good.
func (u *User) ExpireSigned(id uint32) {
	if u.expired == nil {
		u.expired = map[uint32]bool{}
	}
	u.expired[id] = true
	u.St.RemoveSignedPreKey(id)
}

// RotateSigned makes the next bundle carry a new signed prekey.
func (u *User) RotateSigned() { u.nextSigned = 0 }
