package sim

import (
	"sync"

	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Locked is a store that several goroutines may use at once. Each operation
// is atomic; what it returns is used without the lock.
type Locked struct {
	mu sync.Mutex
	*Store
}

// NewLocked makes a store safe for concurrent use.
func NewLocked(s *Store) *Locked { return &Locked{Store: s} }

func (l *Locked) lock() func() { l.mu.Lock(); return l.mu.Unlock }

// SaveIdentity implements the identity store.
func (l *Locked) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	defer l.lock()()
	l.Store.SaveIdentity(a, k)
}

// IsTrustedIdentity implements the identity store.
func (l *Locked) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	defer l.lock()()
	return l.Store.IsTrustedIdentity(a, k)
}

// LoadPreKey implements the prekey store.
func (l *Locked) LoadPreKey(id uint32) *record.PreKey {
	defer l.lock()()
	return l.Store.LoadPreKey(id)
}

// StorePreKey implements the prekey store.
func (l *Locked) StorePreKey(id uint32, r *record.PreKey) {
	defer l.lock()()
	l.Store.StorePreKey(id, r)
}

// ContainsPreKey implements the prekey store.
func (l *Locked) ContainsPreKey(id uint32) bool { defer l.lock()(); return l.Store.ContainsPreKey(id) }

// RemovePreKey implements the prekey store.
func (l *Locked) RemovePreKey(id uint32) { defer l.lock()(); l.Store.RemovePreKey(id) }

// LoadSession implements the session store.
func (l *Locked) LoadSession(a *protocol.SignalAddress) *record.Session {
	defer l.lock()()
	return l.Store.LoadSession(a)
}

// StoreSession implements the session store.
func (l *Locked) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	defer l.lock()()
	l.Store.StoreSession(a, r)
}

// ContainsSession implements the session store.
func (l *Locked) ContainsSession(a *protocol.SignalAddress) bool {
	defer l.lock()()
	return l.Store.ContainsSession(a)
}

// DeleteSession implements the session store.
func (l *Locked) DeleteSession(a *protocol.SignalAddress) {
	defer l.lock()()
	l.Store.DeleteSession(a)
}

// LoadSignedPreKey implements the signed prekey store.
func (l *Locked) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	defer l.lock()()
	return l.Store.LoadSignedPreKey(id)
}

// StoreSignedPreKey implements the signed prekey store.
func (l *Locked) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	defer l.lock()()
	l.Store.StoreSignedPreKey(id, r)
}

// ContainsSignedPreKey implements the signed prekey store.
func (l *Locked) ContainsSignedPreKey(id uint32) bool {
	defer l.lock()()
	return l.Store.ContainsSignedPreKey(id)
}

// StoreSenderKey implements the sender key store.
func (l *Locked) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	defer l.lock()()
	l.Store.StoreSenderKey(n, r)
}

// LoadSenderKey implements the sender key store.
func (l *Locked) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	defer l.lock()()
	return l.Store.LoadSenderKey(n)
}
