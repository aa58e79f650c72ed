package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"

	"verif/rt"
	"verif/wire"
)

// randVarint favours the edges.
func randVarint(c *rt.Case) uint64 {
	switch c.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint64(c.R.Intn(300))
	case 2:
		return uint64(c.R.Uint32())
	case 3:
		return 0xFFFFFFFF
	case 4:
		return 1<<63 | c.R.Uint64()
	default:
		return uint64(c.R.Uint32()) << 20
	}
}

func rawVarint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

// randField appends a random protobuf field, possibly malformed.
func randField(c *rt.Case, b []byte, depth int) []byte {
	r := c.R
	num := r.Intn(8)
	if r.Intn(12) == 0 {
		num = pick(c, 0, 15, 16, 1000, 1<<28, 1<<29-1)
	}
	wt := pick(c, 0, 0, 2, 2, 2, 1, 5, 3, 4, 6, 7)
	b = rawVarint(b, uint64(num)<<3|uint64(wt))
	switch wt {
	case 0:
		b = rawVarint(b, randVarint(c))
	case 1:
		b = append(b, randBytes(c, 8)...)
	case 5:
		b = append(b, randBytes(c, 4)...)
	case 2:
		v := randBytes(c, pick(c, 0, 1, 15, 16, 31, 32, 33, 34, 48, 64))
		if len(v) >= 33 && r.Intn(2) == 0 {
			v[0] = 5
		}
		if depth > 0 && r.Intn(4) == 0 {
			v = randProto(c, depth-1)
		}
		n := uint64(len(v))
		if r.Intn(10) == 0 {
			n = pick(c, n+1, n-1, 1<<31, 1<<32, 1<<63, 1<<64-1)
		}
		b = rawVarint(b, n)
		b = append(b, v...)
	case 3:
		if depth > 0 {
			b = randField(c, b, depth-1)
			if r.Intn(4) > 0 {
				b = rawVarint(b, uint64(num)<<3|4)
			}
		}
	}
	return b
}

func randProto(c *rt.Case, depth int) []byte {
	var b []byte
	for k := c.R.Intn(7); k > 0; k-- {
		b = randField(c, b, depth)
	}
	return b
}

// randMessage makes bytes shaped like a protobuf message of this protocol.
func randMessage(c *rt.Case) []byte {
	v := byte(0x33)
	if c.R.Intn(4) == 0 {
		v = byte(c.R.Intn(256))
	}
	b := append([]byte{v}, randProto(c, 2)...)
	return append(b, randBytes(c, pick(c, 0, 7, 8, 8, 9, 63, 64, 64, 65))...)
}

// mutateJSON changes one place of a JSON document's tree and says where and how.
func mutateJSON(c *rt.Case, doc []byte) ([]byte, string) {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return flip(c, doc), "raw"
	}
	type slot struct {
		set  func(any)
		del  func()
		val  any
		name string
	}
	var slots []slot
	var walk func(v any, path string)
	walk = func(v any, path string) {
		switch x := v.(type) {
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sortStrings(ks)
			for _, k := range ks {
				k := k
				slots = append(slots, slot{func(n any) { x[k] = n }, func() { delete(x, k) }, x[k], path + "." + k})
				walk(x[k], path+"."+k)
			}
		case []any:
			for i := range x {
				i := i
				if i > 40 && i < len(x)-2 {
					continue
				}
				slots = append(slots, slot{func(n any) { x[i] = n }, nil, x[i], path + "[]"})
				walk(x[i], path+"[]")
			}
		}
	}
	walk(v, "")
	if len(slots) == 0 {
		return flip(c, doc), "raw"
	}
	// Places are chosen by name first, so that long lists do not drown the rest.
	byName := map[string][]slot{}
	var names []string
	for _, s := range slots {
		if byName[s.name] == nil {
			names = append(names, s.name)
		}
		byName[s.name] = append(byName[s.name], s)
	}
	ss := byName[names[c.R.Intn(len(names))]]
	s := ss[c.R.Intn(len(ss))]
	how := ""
	other := slots[c.R.Intn(len(slots))]
	k := c.R.Intn(10)
	if str, ok := s.val.(string); ok && k < 6 {
		raw, err := base64.StdEncoding.DecodeString(str)
		if err == nil {
			switch c.R.Intn(7) {
			case 0:
				raw, how = nil, "empty-bytes"
			case 1:
				raw, how = flip(c, raw), "bytes-flipped"
			case 2:
				raw, how = resize(c, raw), "bytes-resized"
			case 3:
				raw, how = raw[:min(len(raw), 1)], "bytes-one"
			case 4:
				raw, how = make([]byte, len(raw)), "bytes-zero"
			case 5:
				if len(raw) > 0 {
					raw = raw[:len(raw)-1]
				}
				how = "bytes-short"
			default:
				raw, how = append(raw, raw...), "bytes-doubled"
			}
			s.set(base64.StdEncoding.EncodeToString(raw))
			out, _ := json.Marshal(v)
			return out, s.name + " " + how
		}
	}
	switch {
	case k < 2:
		s.set(nil)
		how = "null"
	case k < 4 && s.del != nil:
		s.del()
		how = "deleted"
	case k < 6:
		s.set(pick[any](c, []any{}, map[string]any{}, "", "!!", json.Number("-1"), json.Number("4294967295"), json.Number("4294967296"), json.Number("1e3"), true, []any{nil}, json.Number("0")))
		how = "retyped"
	case k < 8:
		s.set(other.val)
		how = "replaced"
	default:
		if x, ok := s.val.([]any); ok {
			switch c.R.Intn(5) {
			case 0:
				s.set([]any{})
				how = "list-emptied"
			case 1:
				s.set(append(append([]any{}, x...), nil))
				how = "list-null"
			case 2:
				s.set(append(append([]any{}, x...), x...))
				how = "list-doubled"
			case 3:
				y := append([]any{}, x...)
				for i := range y {
					y[i] = x[len(x)-1-i]
				}
				s.set(y)
				how = "list-reversed"
			default:
				s.set([]any{nil})
				how = "list-of-null"
			}
		} else {
			s.set(nil)
			how = "null"
		}
	}
	out, err := json.Marshal(v)
	if err != nil { // a cycle made by replacing a place with its parent
		return flip(c, doc), "raw"
	}
	return out, s.name + " " + how
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// hostile mutates genuine bytes.
func literal(c *rt.Case, f wire.Format, b []byte) []byte {
	lits := []string{"null", "true", "false", "0", "-1", "1e99", `""`, `"x"`, "[]", "[null]", "[{}]", "{}", `{"":null}`, " null ", "\tnull\n", "{}{}", "nul", "NULL", "\xef\xbb\xbfnull"}
	l := lits[c.R.Intn(len(lits))]
	if f == wire.JSON && c.R.Intn(3) == 0 { // in place of every value
		var doc map[string]any
		if json.Unmarshal(b, &doc) == nil {
			for k := range doc {
				if c.R.Intn(3) == 0 {
					doc[k] = json.RawMessage(pick(c, "null", "{}", "[]", `""`, "0"))
				}
			}
			if o, err := json.Marshal(doc); err == nil {
				return o
			}
		}
	}
	return []byte(l)
}

func hostile(c *rt.Case, f wire.Format, b []byte) ([]byte, string) {
	r := c.R
	if r.Intn(12) == 0 {
		return literal(c, f, b), "literal"
	}
	switch r.Intn(10) {
	case 0:
		return randBytes(c, r.Intn(200)), "random"
	case 1:
		return randBytes(c, r.Intn(3)), "tiny"
	case 2:
		return append([]byte{}, b[:r.Intn(len(b)+1)]...), "cut"
	case 3:
		return append(append([]byte{}, b...), randBytes(c, 1+r.Intn(80))...), "extended"
	case 4:
		o := b
		for k := 1 + r.Intn(4); k > 0; k-- {
			o = flip(c, o)
		}
		return o, "flipped"
	case 5: // a window removed or repeated
		if len(b) < 4 {
			return flip(c, b), "flipped"
		}
		i := r.Intn(len(b))
		j := i + r.Intn(len(b)-i)
		o := append([]byte{}, b[:i]...)
		if r.Intn(2) == 0 {
			o = append(o, b[i:j]...)
			o = append(o, b[i:j]...)
		}
		return append(o, b[j:]...), "window"
	default:
		if f == wire.JSON {
			o, how := mutateJSON(c, b)
			if r.Intn(3) == 0 {
				o, _ = mutateJSON(c, o)
			}
			return o, how
		}
		if r.Intn(2) == 0 || len(b) == 0 {
			return randMessage(c), "shaped"
		}
		// Known fields kept, others inserted around them.
		o := append([]byte{b[0]}, randField(c, nil, 2)...)
		return append(o, b[1:]...), "field-inserted"
	}
}
