package checks

import (
	"fmt"
	"math/big"
	"strings"

	"verif/rt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P26",
		Rule: "one case displays safety numbers of random pairs and of pairs that differ in one bit, share leading digits, are equal or hold extreme bytes, from both sides, and compares the text with an independent computation; identity key fingerprints are compared with the key bytes. " +
			"Distinct by pair kind, order and leading digits class",
		Cases: tiered(3000, 100000),
		Run:   runP26,
		Need:  map[string]int64{"pairs": 50000, "shared_prefix": 5000, "equal_pairs": 2000, "leading_zero": 5000, "identity_keys": 5000},
	})
}

// safetyNumber is the half of the text that belongs to one fingerprint.
func safetyNumber(fp []byte) string {
	var b strings.Builder
	for i := 0; i < 30; i += 5 {
		n := new(big.Int).SetBytes(fp[i : i+5])
		fmt.Fprintf(&b, "%05d", n.Mod(n, big.NewInt(100000)).Int64())
	}
	return b.String()
}

func runP26(c *rt.Case) {
	r := c.R
	fp := func() []byte {
		b := randBytes(c, pick(c, 30, 30, 32, 33, 64))
		switch r.Intn(5) {
		case 0: // small chunks: leading zeros
			for i := 0; i < 30; i += 5 {
				copy(b[i:], []byte{0, 0, 0, byte(r.Intn(3)), byte(r.Intn(256))})
			}
		case 1:
			v := byte(pick(c, 0, 0xff, 0x7f, 0x80))
			for i := range b {
				b[i] = v
			}
		}
		return b
	}
	text := func(a, b []byte) (s string) {
		if p := rt.Try(func() { s = fingerprint.NewFingerprint(fingerprint.NewDisplay(a, b)).Display().DisplayText() }); p != "" {
			c.Fail("panic:display", "%s", p)
		}
		return
	}
	for k := 0; k < 20; k++ {
		a, b := fp(), fp()
		kind := r.Intn(4)
		switch kind {
		case 0:
			b = flip(c, a)
		case 1: // the same leading chunks
			copy(b[:5*(1+r.Intn(5))], a)
			c.Count("shared_prefix", 1)
		case 2:
			if r.Intn(2) == 0 {
				b = append([]byte{}, a...)
				c.Count("equal_pairs", 1)
			}
		}
		ha, hb := safetyNumber(a), safetyNumber(b)
		want := ha + hb
		if hb < ha {
			want = hb + ha
		}
		x, y := text(append([]byte{}, a...), append([]byte{}, b...)), text(append([]byte{}, b...), append([]byte{}, a...))
		c.Must(x == y, "sides-differ", "one side reads %s, the other %s (%x and %x)", x, y, a, b)
		c.Must(len(x) == 60 && strings.Trim(x, "0123456789") == "", "shape", "%q is not sixty digits", x)
		c.Must(x == want, "text", "reads %s, want %s for %x and %x", x, want, a, b)
		if strings.HasPrefix(want, "0") {
			c.Count("leading_zero", 1)
		}
		c.Count("pairs", 1)
		c.Sig(kind, ha < hb, ha == hb, want[:1], ha[0] == hb[0])
	}
	for k := 0; k < 2; k++ {
		kp := newRefKey(c)
		id := identity.NewKey(ecc.NewDjbECPublicKey(kp.Pub))
		c.Must(id.Fingerprint() == fmt.Sprintf("05%x", kp.Pub), "identity-text", "%s for %x", id.Fingerprint(), kp.Pub)
		id2 := identity.NewKeyFromBytes(kp.Pub, 0)
		c.Must(string(id2.Serialize()) == string(id.Serialize()) && id2.Fingerprint() == id.Fingerprint(), "identity-bytes", "%x", id2.Serialize())
		c.Count("identity_keys", 1)
	}
}
