// Package wire is an independent codec for the protocol's messages, written
// from the wire format alone (protobuf or JSON), so that it can build,
// dissect and mutate messages without the library's help.
package wire

import (
	"encoding/json"
	"errors"
)

// Field is a protobuf field.
type Field struct {
	Num  int
	Wire int
	U    uint64
	B    []byte
}

func varint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

// V appends a varint field.
func V(b []byte, num int, u uint64) []byte {
	b = varint(b, uint64(num)<<3)
	return varint(b, u)
}

// B appends a bytes field.
func B(b []byte, num int, v []byte) []byte {
	b = varint(b, uint64(num)<<3|2)
	b = varint(b, uint64(len(v)))
	return append(b, v...)
}

var errWire = errors.New("wire: malformed")

func readVarint(b []byte) (uint64, []byte, error) {
	var u uint64
	for i := 0; i < len(b) && i < 10; i++ {
		u |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return u, b[i+1:], nil
		}
	}
	return 0, nil, errWire
}

// Parse splits a protobuf message into its fields.
func Parse(b []byte) ([]Field, error) {
	var fs []Field
	depth := 0
	for len(b) > 0 {
		t, r, err := readVarint(b)
		if err != nil {
			return nil, err
		}
		f := Field{Num: int(t >> 3), Wire: int(t & 7)}
		b = r
		switch f.Wire {
		case 0:
			f.U, b, err = readVarint(b)
			if err != nil {
				return nil, err
			}
		case 2:
			var n uint64
			n, b, err = readVarint(b)
			if err != nil || n > uint64(len(b)) {
				return nil, errWire
			}
			f.B = append([]byte{}, b[:n]...)
			b = b[n:]
		case 1, 5:
			n := 8
			if f.Wire == 5 {
				n = 4
			}
			if n > len(b) {
				return nil, errWire
			}
			b = b[n:]
		case 3, 4: // groups: their fields are not the message's own
			if f.Wire == 3 {
				depth++
			} else if depth--; depth < 0 {
				return nil, errWire
			}
			continue
		default:
			return nil, errWire
		}
		if depth == 0 {
			fs = append(fs, f)
		}
	}
	return fs, nil
}

// get finds a field: varint for w 0, bytes for w 2. The last one counts, as
// protobuf decoders have it.
func get(fs []Field, num, w int) (Field, bool) {
	for i := len(fs) - 1; i >= 0; i-- {
		if f := fs[i]; f.Num == num && f.Wire == w {
			return f, true
		}
	}
	return Field{}, false
}

// key drops what follows a public key: decoders read its first 33 bytes.
func key(b []byte) []byte {
	if len(b) > 33 {
		return b[:33]
	}
	return b
}

// Format selects an encoding.
type Format int

// The two formats.
const (
	Proto Format = iota
	JSON
)

// Signal is a session message.
type Signal struct {
	Version       int
	Ratchet       []byte // 33 bytes
	Counter, Prev uint32
	Ct            []byte
	Mac           []byte
}

type jsonSignal struct {
	RatchetKey      []byte
	Counter         uint32
	PreviousCounter uint32
	CipherText      []byte
	Version         int
	Mac             []byte
}

func pbSignal(m *Signal) []byte {
	var b []byte
	b = B(b, 1, m.Ratchet)
	b = V(b, 2, uint64(m.Counter))
	b = V(b, 3, uint64(m.Prev))
	return B(b, 4, m.Ct)
}

// MacInput is what the MAC covers after the two identity keys.
func (m *Signal) MacInput(f Format) []byte {
	out := []byte{'0' + byte(m.Version)}
	if f == Proto {
		return append(out, pbSignal(m)...)
	}
	j, _ := json.Marshal(jsonSignal{m.Ratchet, m.Counter, m.Prev, m.Ct, 0, nil})
	return append(out, j...)
}

// Encode writes the message.
func (m *Signal) Encode(f Format) []byte {
	if f == Proto {
		out := []byte{'0' + byte(m.Version)}
		out = append(out, pbSignal(m)...)
		return append(out, m.Mac...)
	}
	j, _ := json.Marshal(jsonSignal{m.Ratchet, m.Counter, m.Prev, m.Ct, m.Version, m.Mac})
	return j
}

// DecodeSignal reads a session message.
func DecodeSignal(f Format, b []byte) (*Signal, error) {
	if f == JSON {
		var j jsonSignal
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &Signal{j.Version, key(j.RatchetKey), j.Counter, j.PreviousCounter, j.CipherText, j.Mac}, nil
	}
	if len(b) < 9 {
		return nil, errWire
	}
	fs, err := Parse(b[1 : len(b)-8])
	if err != nil {
		return nil, err
	}
	m := &Signal{Version: int(b[0] >> 4), Mac: append([]byte{}, b[len(b)-8:]...)}
	rk, _ := get(fs, 1, 2)
	c, _ := get(fs, 2, 0)
	p, _ := get(fs, 3, 0)
	ct, _ := get(fs, 4, 2)
	m.Ratchet, m.Counter, m.Prev, m.Ct = key(rk.B), uint32(c.U), uint32(p.U), ct.B
	return m, nil
}

// PreKey is a session-opening message.
type PreKey struct {
	Version   int
	RegID     uint32
	HasPreKey bool
	PreKeyID  uint32
	SignedID  uint32
	BaseKey   []byte // 33
	Identity  []byte // 33
	Message   []byte
}

type jsonOpt struct {
	Value   uint32
	IsEmpty bool
}

type jsonPreKey struct {
	RegistrationID uint32
	PreKeyID       *jsonOpt
	SignedPreKeyID uint32
	BaseKey        []byte
	IdentityKey    []byte
	Message        []byte
	Version        int
}

// Encode writes the message.
func (m *PreKey) Encode(f Format) []byte {
	if f == JSON {
		j := jsonPreKey{m.RegID, &jsonOpt{m.PreKeyID, !m.HasPreKey}, m.SignedID, m.BaseKey, m.Identity, m.Message, m.Version}
		b, _ := json.Marshal(j)
		return b
	}
	b := []byte{'0' + byte(m.Version)}
	if m.HasPreKey {
		b = V(b, 1, uint64(m.PreKeyID))
	}
	b = B(b, 2, m.BaseKey)
	b = B(b, 3, m.Identity)
	b = B(b, 4, m.Message)
	b = V(b, 5, uint64(m.RegID))
	return V(b, 6, uint64(m.SignedID))
}

// DecodePreKey reads a session-opening message.
func DecodePreKey(f Format, b []byte) (*PreKey, error) {
	if f == JSON {
		var j jsonPreKey
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		m := &PreKey{Version: j.Version, RegID: j.RegistrationID, SignedID: j.SignedPreKeyID, BaseKey: key(j.BaseKey), Identity: key(j.IdentityKey), Message: j.Message}
		if j.PreKeyID != nil && !j.PreKeyID.IsEmpty {
			m.HasPreKey, m.PreKeyID = true, j.PreKeyID.Value
		}
		return m, nil
	}
	if len(b) < 1 {
		return nil, errWire
	}
	fs, err := Parse(b[1:])
	if err != nil {
		return nil, err
	}
	m := &PreKey{Version: int(b[0] >> 4)}
	if x, ok := get(fs, 1, 0); ok {
		m.HasPreKey, m.PreKeyID = true, uint32(x.U)
	}
	bk, _ := get(fs, 2, 2)
	id, _ := get(fs, 3, 2)
	ms, _ := get(fs, 4, 2)
	rg, _ := get(fs, 5, 0)
	sg, _ := get(fs, 6, 0)
	m.BaseKey, m.Identity, m.Message, m.RegID, m.SignedID = key(bk.B), key(id.B), ms.B, uint32(rg.U), uint32(sg.U)
	return m, nil
}

// SenderKey is a group message.
type SenderKey struct {
	Version   int
	ID, Iter  uint32
	Ct        []byte
	Signature []byte
}

type jsonSenderKey struct {
	ID         uint32
	Iteration  uint32
	CipherText []byte
	Version    uint32
	Signature  []byte
}

// SignInput is what the signature covers.
func (m *SenderKey) SignInput(f Format) []byte {
	if f == JSON {
		j, _ := json.Marshal(jsonSenderKey{m.ID, m.Iter, m.Ct, uint32(m.Version), nil})
		return j
	}
	b := []byte{'0' + byte(m.Version)}
	b = V(b, 1, uint64(m.ID))
	b = V(b, 2, uint64(m.Iter))
	return B(b, 3, m.Ct)
}

// Encode writes the message.
func (m *SenderKey) Encode(f Format) []byte {
	if f == JSON {
		j, _ := json.Marshal(jsonSenderKey{m.ID, m.Iter, m.Ct, uint32(m.Version), m.Signature})
		return j
	}
	return append(m.SignInput(f), m.Signature...)
}

// DecodeSenderKey reads a group message.
func DecodeSenderKey(f Format, b []byte) (*SenderKey, error) {
	if f == JSON {
		var j jsonSenderKey
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &SenderKey{int(j.Version), j.ID, j.Iteration, j.CipherText, j.Signature}, nil
	}
	if len(b) < 65 {
		return nil, errWire
	}
	fs, err := Parse(b[1 : len(b)-64])
	if err != nil {
		return nil, err
	}
	id, _ := get(fs, 1, 0)
	it, _ := get(fs, 2, 0)
	ct, _ := get(fs, 3, 2)
	return &SenderKey{int(b[0] >> 4), uint32(id.U), uint32(it.U), ct.B, append([]byte{}, b[len(b)-64:]...)}, nil
}

// Dist is a sender key distribution message.
type Dist struct {
	Version    int
	ID, Iter   uint32
	ChainKey   []byte
	SigningKey []byte // 33
}

type jsonDist struct {
	ID         uint32
	Iteration  uint32
	ChainKey   []byte
	SigningKey []byte
	Version    uint32
}

// Encode writes the message.
func (m *Dist) Encode(f Format) []byte {
	if f == JSON {
		j, _ := json.Marshal(jsonDist{m.ID, m.Iter, m.ChainKey, m.SigningKey, uint32(m.Version)})
		return j
	}
	b := []byte{'0' + byte(m.Version)}
	b = V(b, 1, uint64(m.ID))
	b = V(b, 2, uint64(m.Iter))
	b = B(b, 3, m.ChainKey)
	return B(b, 4, m.SigningKey)
}

// DecodeDist reads a distribution message.
func DecodeDist(f Format, b []byte) (*Dist, error) {
	if f == JSON {
		var j jsonDist
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &Dist{int(j.Version), j.ID, j.Iteration, j.ChainKey, j.SigningKey}, nil
	}
	if len(b) < 1 {
		return nil, errWire
	}
	fs, err := Parse(b[1:])
	if err != nil {
		return nil, err
	}
	id, _ := get(fs, 1, 0)
	it, _ := get(fs, 2, 0)
	ck, _ := get(fs, 3, 2)
	sk, _ := get(fs, 4, 2)
	return &Dist{int(b[0] >> 4), uint32(id.U), uint32(it.U), ck.B, sk.B}, nil
}
