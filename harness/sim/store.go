// Package sim drives the library: stores of several kinds, users, and a world
// of users exchanging messages over a hostile network, next to an exact model
// of what each receiver must do.
package sim

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Mode is the kind of store.
type Mode int

// The kinds of store: one that keeps serialized bytes, one that keeps the
// record objects themselves, and one that also inserts the fresh record it
// returns for an unknown peer (as the repository's example stores do).
const (
	Bytes Mode = iota
	Ptr
	PtrInsert
)

func (m Mode) String() string { return [...]string{"bytes", "pointers", "pointers-insert"}[m] }

// Store implements every store interface of the library.
type Store struct {
	Mode   Mode
	Ser    *serialize.Serializer
	ID     *identity.KeyPair
	RegID  uint32
	sessB  map[string][]byte
	sessP  map[string]*record.Session
	pre    map[uint32][]byte
	signed map[uint32][]byte
	preP   map[uint32]*record.PreKey
	sgnP   map[uint32]*record.SignedPreKey
	ident  map[string][]byte
	skB    map[string][]byte
	skP    map[string]*grecord.SenderKey
	// Policy decides trust; nil is trust on first use.
	Policy func(addr string, key []byte) bool
	// Hook sees every mutation before it happens; it may panic to stop there.
	Hook func(op string)
	// Look sees every reading.
	Look func(op string)
	// Log collects the operations when not nil.
	Log *[]string
	// Reads collects the entries that are looked at when not nil.
	Reads *[]string
	// BadLoads counts records that could not be loaded back.
	BadLoads []string
}

// NewStore makes an empty store.
func NewStore(m Mode, ser *serialize.Serializer, id *identity.KeyPair, reg uint32) *Store {
	return &Store{Mode: m, Ser: ser, ID: id, RegID: reg,
		sessB: map[string][]byte{}, sessP: map[string]*record.Session{},
		pre: map[uint32][]byte{}, signed: map[uint32][]byte{},
		preP: map[uint32]*record.PreKey{}, sgnP: map[uint32]*record.SignedPreKey{},
		ident: map[string][]byte{}, skB: map[string][]byte{}, skP: map[string]*grecord.SenderKey{}}
}

func (s *Store) op(f string, a ...any) {
	o := fmt.Sprintf(f, a...)
	if s.Hook != nil {
		s.Hook(o)
	}
	if s.Log != nil {
		*s.Log = append(*s.Log, o)
	}
}

func (s *Store) read(f string, a ...any) {
	if s.Look != nil {
		s.Look(fmt.Sprintf(f, a...))
	}
	if s.Reads != nil {
		*s.Reads = append(*s.Reads, fmt.Sprintf(f, a...))
	}
}

// GetIdentityKeyPair implements the identity store.
func (s *Store) GetIdentityKeyPair() *identity.KeyPair { return s.ID }

// GetLocalRegistrationId implements the identity store.
func (s *Store) GetLocalRegistrationId() uint32 { return s.RegID }

// SaveIdentity implements the identity store.
func (s *Store) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	s.op("save-identity %s %s", a.String(), k.Fingerprint())
	s.ident[a.String()] = k.Serialize()
}

// IsTrustedIdentity implements the identity store.
func (s *Store) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	s.read("identity %s", a.String())
	if s.Policy != nil {
		return s.Policy(a.String(), k.Serialize())
	}
	old, ok := s.ident[a.String()]
	return !ok || string(old) == string(k.Serialize())
}

// Identity returns the saved identity of an address.
func (s *Store) Identity(addr string) []byte { return s.ident[addr] }

// SetIdentity saves an identity as an application does.
func (s *Store) SetIdentity(addr string, k []byte) { s.ident[addr] = append([]byte{}, k...) }

// ForgetIdentity removes a saved identity.
func (s *Store) ForgetIdentity(addr string) { delete(s.ident, addr) }

// LoadPreKey implements the prekey store.
func (s *Store) LoadPreKey(id uint32) *record.PreKey {
	s.read("prekey %d", id)
	if s.Mode != Bytes {
		return s.preP[id]
	}
	b, ok := s.pre[id]
	if !ok {
		return nil
	}
	r, err := record.NewPreKeyFromBytes(b, s.Ser.PreKeyRecord)
	if err != nil {
		s.BadLoads = append(s.BadLoads, fmt.Sprint("prekey: ", err))
		return nil
	}
	return r
}

// StorePreKey implements the prekey store.
func (s *Store) StorePreKey(id uint32, r *record.PreKey) {
	s.op("store-prekey %d", id)
	if s.Mode != Bytes {
		s.preP[id] = r
		return
	}
	s.pre[id] = r.Serialize()
}

// ContainsPreKey implements the prekey store.
func (s *Store) ContainsPreKey(id uint32) bool {
	s.read("prekey %d", id)
	if s.Mode != Bytes {
		_, ok := s.preP[id]
		return ok
	}
	_, ok := s.pre[id]
	return ok
}

// RemovePreKey implements the prekey store.
func (s *Store) RemovePreKey(id uint32) {
	s.op("remove-prekey %d", id)
	delete(s.pre, id)
	delete(s.preP, id)
}

// PreKeyIDs lists the stored one-time prekeys.
func (s *Store) PreKeyIDs() []uint32 {
	var out []uint32
	for k := range s.pre {
		out = append(out, k)
	}
	for k := range s.preP {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// SignedIDs lists the stored signed prekeys.
func (s *Store) SignedIDs() []uint32 {
	var out []uint32
	for k := range s.signed {
		out = append(out, k)
	}
	for k := range s.sgnP {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// LoadSession implements the session store.
func (s *Store) LoadSession(a *protocol.SignalAddress) *record.Session {
	s.read("session %s", a.String())
	k := a.String()
	if s.Mode == Bytes {
		b, ok := s.sessB[k]
		if !ok {
			return record.NewSession(s.Ser.Session, s.Ser.State)
		}
		r, err := record.NewSessionFromBytes(append([]byte{}, b...), s.Ser.Session, s.Ser.State)
		if err != nil {
			s.BadLoads = append(s.BadLoads, fmt.Sprint("session: ", err))
			return record.NewSession(s.Ser.Session, s.Ser.State)
		}
		return r
	}
	r, ok := s.sessP[k]
	if !ok {
		r = record.NewSession(s.Ser.Session, s.Ser.State)
		if s.Mode == PtrInsert {
			s.sessP[k] = r
		}
	}
	return r
}

// GetSubDeviceSessions implements the session store.
func (s *Store) GetSubDeviceSessions(name string) []uint32 {
	var out []uint32
	add := func(k string) {
		i := strings.LastIndex(k, ":")
		if d, err := strconv.ParseUint(k[i+1:], 10, 32); i >= 0 && k[:i] == name && err == nil {
			out = append(out, uint32(d))
		}
	}
	for k := range s.sessB {
		add(k)
	}
	for k := range s.sessP {
		add(k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// StoreSession implements the session store.
func (s *Store) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.op("store-session %s", a.String())
	if s.Mode == Bytes {
		s.sessB[a.String()] = append([]byte{}, r.Serialize()...)
		return
	}
	s.sessP[a.String()] = r
}

// ContainsSession implements the session store.
func (s *Store) ContainsSession(a *protocol.SignalAddress) bool {
	s.read("session %s", a.String())
	if s.Mode == Bytes {
		_, ok := s.sessB[a.String()]
		return ok
	}
	_, ok := s.sessP[a.String()]
	return ok
}

// DeleteSession implements the session store.
func (s *Store) DeleteSession(a *protocol.SignalAddress) {
	s.op("delete-session %s", a.String())
	delete(s.sessB, a.String())
	delete(s.sessP, a.String())
}

// DeleteAllSessions implements the session store.
func (s *Store) DeleteAllSessions() {
	s.op("delete-all-sessions")
	s.sessB, s.sessP = map[string][]byte{}, map[string]*record.Session{}
}

// LoadSignedPreKey implements the signed prekey store.
func (s *Store) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	if s.Mode != Bytes {
		return s.sgnP[id]
	}
	b, ok := s.signed[id]
	if !ok {
		return nil
	}
	r, err := record.NewSignedPreKeyFromBytes(b, s.Ser.SignedPreKeyRecord)
	if err != nil {
		s.BadLoads = append(s.BadLoads, fmt.Sprint("signed prekey: ", err))
		return nil
	}
	return r
}

// LoadSignedPreKeys implements the signed prekey store.
func (s *Store) LoadSignedPreKeys() []*record.SignedPreKey {
	var out []*record.SignedPreKey
	for _, id := range s.SignedIDs() {
		if r := s.LoadSignedPreKey(id); r != nil {
			out = append(out, r)
		}
	}
	return out
}

// StoreSignedPreKey implements the signed prekey store.
func (s *Store) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	s.op("store-signed-prekey %d", id)
	if s.Mode != Bytes {
		s.sgnP[id] = r
		return
	}
	s.signed[id] = r.Serialize()
}

// ContainsSignedPreKey implements the signed prekey store.
func (s *Store) ContainsSignedPreKey(id uint32) bool { return s.LoadSignedPreKey(id) != nil }

// RemoveSignedPreKey implements the signed prekey store.
func (s *Store) RemoveSignedPreKey(id uint32) {
	s.op("remove-signed-prekey %d", id)
	delete(s.signed, id)
	delete(s.sgnP, id)
}

func skName(n *protocol.SenderKeyName) string { return n.GroupID() + "\x00" + n.Sender().String() }

// StoreSenderKey implements the sender key store.
func (s *Store) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	s.op("store-sender-key %s", skName(n))
	if s.Mode == Bytes {
		s.skB[skName(n)] = append([]byte{}, r.Serialize()...)
		return
	}
	s.skP[skName(n)] = r
}

// LoadSenderKey implements the sender key store.
func (s *Store) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	s.read("senderkey %s", skName(n))
	if s.Mode != Bytes {
		if r, ok := s.skP[skName(n)]; ok {
			return r
		}
		if s.Mode == PtrInsert {
			r := grecord.NewSenderKey(s.Ser.SenderKeyRecord, s.Ser.SenderKeyState)
			s.skP[skName(n)] = r
			return r
		}
		return nil
	}
	b, ok := s.skB[skName(n)]
	if !ok {
		return nil
	}
	r, err := grecord.NewSenderKeyFromBytes(append([]byte{}, b...), s.Ser.SenderKeyRecord, s.Ser.SenderKeyState)
	if err != nil {
		s.BadLoads = append(s.BadLoads, fmt.Sprint("sender key: ", err))
		return nil
	}
	return r
}

func sessionText(r *record.Session) (out string) {
	defer func() {
		if recover() != nil {
			out = fmt.Sprintf("unserializable(current=%v previous=%d)", r.SessionState().HasSenderChain(), len(r.PreviousSessionStates()))
		}
	}()
	if !r.SessionState().HasSenderChain() && len(r.PreviousSessionStates()) == 0 {
		return ""
	}
	return string(r.Serialize())
}

// Session returns the serialized record of an address ("" when none).
func (s *Store) Session(addr string) string {
	if s.Mode == Bytes {
		return string(s.sessB[addr])
	}
	if r, ok := s.sessP[addr]; ok {
		return sessionText(r)
	}
	return ""
}

// SetSession replaces the serialized record of an address in a bytes store.
func (s *Store) SetSession(addr string, b []byte) { s.sessB[addr] = append([]byte{}, b...) }

// SenderKeyText returns the serialized sender key record.
func (s *Store) SenderKeyText(n *protocol.SenderKeyName) string {
	if s.Mode == Bytes {
		return string(s.skB[skName(n)])
	}
	if r, ok := s.skP[skName(n)]; ok && !r.IsEmpty() {
		return string(r.Serialize())
	}
	return ""
}

// Entries is everything the store holds, by kind and name.
func (s *Store) Entries() map[string]string {
	es := map[string]string{}
	for k := range s.sessB {
		es["session "+k] = s.Session(k)
	}
	for k := range s.sessP {
		if t := s.Session(k); t != "" {
			es["session "+k] = t
		}
	}
	for k, v := range s.pre {
		es[fmt.Sprint("prekey ", k)] = string(v)
	}
	for k, v := range s.preP {
		es[fmt.Sprint("prekey ", k)] = string(v.Serialize())
	}
	for k, v := range s.signed {
		es[fmt.Sprint("signed ", k)] = string(v)
	}
	for k, v := range s.sgnP {
		es[fmt.Sprint("signed ", k)] = string(v.Serialize())
	}
	for k, v := range s.ident {
		es["identity "+k] = hex.EncodeToString(v)
	}
	for k, v := range s.skB {
		es["senderkey "+k] = string(v)
	}
	for k, v := range s.skP {
		if !v.IsEmpty() {
			es["senderkey "+k] = string(v.Serialize())
		}
	}
	return es
}

// Snapshot writes down everything the store holds.
func (s *Store) Snapshot() string {
	var ls []string
	for k, v := range s.Entries() {
		ls = append(ls, k+" "+v)
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// Fork makes a bytes store with everything the store holds.
func (s *Store) Fork() *Store {
	n := NewStore(Bytes, s.Ser, s.ID, s.RegID)
	for k, v := range s.Entries() {
		kind, name, _ := strings.Cut(k, " ")
		switch kind {
		case "session":
			n.sessB[name] = []byte(v)
		case "senderkey":
			n.skB[name] = []byte(v)
		case "prekey", "signed":
			id, _ := strconv.ParseUint(name, 10, 32)
			if kind == "prekey" {
				n.pre[uint32(id)] = []byte(v)
			} else {
				n.signed[uint32(id)] = []byte(v)
			}
		}
	}
	for k, v := range s.ident {
		n.ident[k] = append([]byte{}, v...)
	}
	n.Policy = s.Policy
	return n
}

// Live lists the distinct 32-byte values (and the keys of 33-byte ones) that
// the live objects of a store hold, whether they would be serialized or not.
func (s *Store) Live() [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	been := map[uintptr]bool{}
	add := func(b []byte) {
		if len(b) == 33 {
			b = b[1:]
		}
		if len(b) == 32 && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, append([]byte{}, b...))
		}
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !been[v.Pointer()] {
				been[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b := make([]byte, v.Len())
				for i := range b {
					b[i] = byte(v.Index(i).Uint())
				}
				add(b)
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, r := range s.sessP {
		walk(reflect.ValueOf(r))
	}
	for _, r := range s.skP {
		walk(reflect.ValueOf(r))
	}
	return out
}

// SetSenderKey replaces a serialized sender key record in a bytes store.
func (s *Store) SetSenderKey(n *protocol.SenderKeyName, b []byte) {
	s.skB[skName(n)] = append([]byte{}, b...)
}

// SetPreKey replaces a serialized prekey in a bytes store.
func (s *Store) SetPreKey(id uint32, b []byte) { s.pre[id] = append([]byte{}, b...) }

// SetSigned replaces a serialized signed prekey in a bytes store.
func (s *Store) SetSigned(id uint32, b []byte) { s.signed[id] = append([]byte{}, b...) }
