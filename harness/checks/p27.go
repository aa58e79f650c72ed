package checks

import (
	"encoding/base64"
	"encoding/json"
	"fmt"

	"verif/ref"
	"verif/rt"

	"github.com/prospik/libsignal-protocol-go/provision"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P27",
		Rule: "one case seals provisioning messages with an independent implementation and opens them with the library, then opens altered envelopes (every part changed, truncated, extended, re-sealed under other keys, validly sealed but badly padded or versioned) and random ones; the outcome must be that of an independent opener. " +
			"Distinct by kind of alteration, outcome and length class",
		Cases: tiered(1500, 50000),
		Run:   runP27,
		Need:  map[string]int64{"opened": 15000, "altered": 60000, "garbage": 20000, "framed": 60000},
	})
}

type envelope struct {
	PublicKey []byte `json:"public_key"`
	Body      []byte `json:"body"`
}

func provisionKeys(priv, pub [32]byte) (aesKey, macKey []byte) {
	k := ref.HKDF(ref.DH(priv, pub), nil, "Mixin Provisioning Message", 64)
	return k[:32], k[32:]
}

// openEnvelope is the independent opener.
func openEnvelope(priv [32]byte, e envelope) (string, error) {
	pub, err := ref.Dec33(e.PublicKey)
	if err != nil {
		return "", err
	}
	b := e.Body
	if len(b) < 49 || b[0] != 1 {
		return "", fmt.Errorf("bad body")
	}
	ak, mk := provisionKeys(priv, pub)
	n := len(b) - 32
	if string(ref.HMAC(mk, b[:n])) != string(b[n:]) {
		return "", fmt.Errorf("bad MAC")
	}
	pt, err := ref.CBCDecrypt(b[1:17], ak, b[17:n])
	return string(pt), err
}

func runP27(c *rt.Case) {
	r := c.R
	me := newRefKey(c)
	priv := base64.StdEncoding.EncodeToString(me.Priv[:])
	open := func(key, content, kind string) (s string, err error) {
		if p := rt.Try(func() { s, err = provision.Decrypt(key, content) }); p != "" {
			c.Fail("panic:"+kind, "opening %.400s: %s", content, p)
		}
		return
	}
	text := func(e envelope) string {
		b, _ := json.Marshal(e)
		return base64.StdEncoding.EncodeToString(b)
	}
	seal := func(to ref.KeyPair, pt []byte, mod func(body []byte, ak, mk []byte) []byte) envelope {
		eph := newRefKey(c)
		ak, mk := provisionKeys(eph.Priv, to.Pub)
		body := append([]byte{1}, randBytes(c, 16)...)
		body = append(body, ref.CBCEncrypt(body[1:17], ak, pt)...)
		if mod != nil {
			body = mod(body, ak, mk)
		}
		return envelope{ref.Enc33(eph.Pub), append(body, ref.HMAC(mk, body)...)}
	}
	judge := func(e envelope, kind string) {
		want, werr := openEnvelope(me.Priv, e)
		got, err := open(priv, text(e), kind)
		if werr != nil {
			c.Must(err != nil, "accepted:"+kind, "opened to %q; public key %x body %x", got, e.PublicKey, clip(e.Body))
			c.Must(got == "", "plaintext-with-error:"+kind, "%q returned with %v", got, err)
		} else {
			c.NoErr(err, "refused:"+kind)
			c.Must(got == want, "plaintext:"+kind, "opened to %x, want %x", got, want)
		}
		c.Sig(kind, werr != nil, class(uint32(len(e.Body))), len(e.Body)%16)
	}
	for k := 0; k < 12; k++ {
		pt := randPlain(c)
		e := seal(me, pt, nil)
		judge(e, "genuine")
		got, err := open(priv, text(e), "genuine")
		c.Must(err == nil && got == string(pt), "round-trip", "%x opened to %x, %v", clip(pt), clip([]byte(got)), err)
		c.Count("opened", 1)
		// The same envelope written with other field order, spaces and unknown fields.
		loose := fmt.Sprintf(`{ "x":[1,{}], "body" : %q,"public_key":%q}`, base64.StdEncoding.EncodeToString(e.Body), base64.StdEncoding.EncodeToString(e.PublicKey))
		got, err = open(priv, base64.StdEncoding.EncodeToString([]byte(loose)), "loose")
		c.Must(err == nil && got == string(pt), "loose", "%v", err)
		for j := 0; j < 5; j++ {
			a := envelope{append([]byte{}, e.PublicKey...), append([]byte{}, e.Body...)}
			kind := ""
			switch r.Intn(12) {
			case 0:
				kind = "version"
				a.Body[0] ^= byte(1 + r.Intn(255))
			case 1:
				kind = "iv"
				a.Body[1+r.Intn(16)] ^= 1 << r.Intn(8)
			case 2:
				kind = "ciphertext"
				a.Body[17+r.Intn(len(a.Body)-49)] ^= 1 << r.Intn(8)
			case 3:
				kind = "mac"
				a.Body[len(a.Body)-1-r.Intn(32)] ^= 1 << r.Intn(8)
			case 4:
				kind = "public-key"
				a.PublicKey[r.Intn(33)] ^= 1 << r.Intn(8)
			case 5:
				kind = "length"
				a.Body = resize(c, a.Body)
			case 6:
				kind = "public-key-length"
				a.PublicKey = resize(c, a.PublicKey)
			case 7:
				kind = "drop-block"
				if n := len(a.Body) - 32; n > 17+16 {
					a.Body = append(a.Body[:n-16], a.Body[n:]...)
				} else {
					a.Body = append(a.Body[:17], a.Body[n:]...)
				}
			case 8:
				kind = "other-recipient"
				a = seal(newRefKey(c), pt, nil)
			case 9:
				kind = "sealed-version"
				a = seal(me, pt, func(b, _, _ []byte) []byte { b[0] = byte(r.Intn(256)); return b })
			case 10:
				kind = "sealed-padding"
				a = seal(me, pt, func(b, ak, _ []byte) []byte {
					x := randBytes(c, 16*(1+r.Intn(3)))
					v := byte(r.Intn(20))
					for i := 0; i < r.Intn(20) && i < len(x); i++ {
						x[len(x)-1-i] = v
					}
					return append(b[:17], ref.CBCRaw(b[1:17], ak, x)...)
				})
			case 11:
				kind = "sealed-length"
				a = seal(me, pt, func(b, _, _ []byte) []byte { return b[:1+r.Intn(len(b))] })
			}
			judge(a, kind)
			c.Count("altered", 1)
		}
		// Another key does not open it, and malformed keys and texts are refused.
		other := newRefKey(c)
		got, err = open(base64.StdEncoding.EncodeToString(other.Priv[:]), text(e), "wrong-key")
		c.Must(err != nil && got == "", "wrong-key", "another key opened the envelope: %q", got)
		_, err = open(priv[:20]+"*"+priv[21:], text(e), "bad-key-text")
		c.Must(err != nil, "bad-key-text", "a key that is not base64 was accepted")
		// A document that is not just an envelope is refused; a damaged one opens
		// to what its envelope holds, if it holds anything.
		b64 := base64.StdEncoding.EncodeToString
		for _, x := range [][]byte{
			append(mustJSON(e), pick(c, "{}", "}", "x", ",", "\x00", string(mustJSON(e)))...),
			append([]byte(pick(c, "{", "x", "[", "{}", ",", "\x00")), mustJSON(e)...),
			mustJSON(e)[:r.Intn(len(mustJSON(e)))],
			[]byte("[" + string(mustJSON(e)) + "]"),
		} {
			got, err := open(priv, b64(x), "framed")
			c.Must(err != nil && got == "", "framed", "%.300q opened to %q", x, got)
			c.Count("framed", 1)
		}
		doc, _ := mutateJSON(c, mustJSON(e))
		var de envelope
		want, werr := "", json.Unmarshal(doc, &de)
		if werr == nil {
			want, werr = openEnvelope(me.Priv, de)
		}
		got, err = open(priv, b64(doc), "damaged")
		c.Must((err != nil) == (werr != nil) && got == want, "damaged", "%.300q opened to %q, %v instead of %q, %v", doc, got, err, want, werr)
		for _, g := range []string{"", "*", "e30=", "bnVsbA==", base64.StdEncoding.EncodeToString(randBytes(c, r.Intn(60))),
			base64.StdEncoding.EncodeToString(doc),
			base64.StdEncoding.EncodeToString([]byte(`{"public_key":"","body":""}`)),
			base64.StdEncoding.EncodeToString([]byte(`{"public_key":null,"body":null}`)),
			base64.StdEncoding.EncodeToString([]byte(`[]`)), text(e)[:r.Intn(len(text(e)))]} {
			key := priv
			if r.Intn(3) == 0 {
				key = base64.StdEncoding.EncodeToString(randBytes(c, r.Intn(40)))
			}
			open(key, g, "garbage")
			c.Count("garbage", 1)
		}
	}
}

func mustJSON(v any) []byte { b, _ := json.Marshal(v); return b }
