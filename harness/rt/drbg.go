package rt

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"sync"
)

// DRBG is a deterministic stream standing in for the system's entropy source,
// so that every execution of a case is replayable. It can be told to fail.
type DRBG struct {
	mu     sync.Mutex
	st     cipher.Stream
	Reads  int64
	failIn int // fail the n-th read from now (1 = next); 0 = never
	failed bool
}

// ErrEntropy is what a failing entropy source returns.
var ErrEntropy = errors.New("injected: entropy source failed")

// NewDRBG makes a stream from a label.
func NewDRBG(seed uint64, label string) *DRBG {
	h := sha256.New()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	h.Write([]byte(label))
	k := h.Sum(nil)
	blk, _ := aes.NewCipher(k)
	return &DRBG{st: cipher.NewCTR(blk, make([]byte, 16))}
}

// FailIn makes the n-th following read fail (0 cancels, -1 fails them all).
func (d *DRBG) FailIn(n int) {
	d.mu.Lock()
	d.failIn, d.failed = n, false
	d.mu.Unlock()
}

// Failed tells whether an injected failure was delivered.
func (d *DRBG) Failed() bool { d.mu.Lock(); defer d.mu.Unlock(); return d.failed }

// Count is the number of reads so far.
func (d *DRBG) Count() int64 { d.mu.Lock(); defer d.mu.Unlock(); return d.Reads }

func (d *DRBG) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Reads++
	if d.failIn < 0 {
		d.failed = true
		return 0, ErrEntropy
	}
	if d.failIn > 0 {
		d.failIn--
		if d.failIn == 0 {
			d.failed = true
			return 0, ErrEntropy
		}
	}
	for i := range p {
		p[i] = 0
	}
	d.st.XORKeyStream(p, p)
	return len(p), nil
}
