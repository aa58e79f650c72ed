package checks

import (
	"math/big"

	"verif/ref"
	"verif/rt"

	ed "github.com/prospik/libsignal-protocol-go/ecc/edwards25519"
)

func init() {
	rt.Register(&rt.Check{
		ID: "P24",
		Rule: "one case computes field operations, point decodings and conversions, base point multiples and scalar reductions on random operands and operands at the edges of every limb, the field prime and the group order, and compares each result with arbitrary precision arithmetic. " +
			"Distinct by operation and operand classes",
		Cases: tiered(5000, 60000),
		Run:   runP24,
		Need:  map[string]int64{"field": 100000, "points": 10000, "not_points": 5000, "base_multiples": 3000, "scalars": 20000, "limbs": 100000},
	})
}

var one255 = new(big.Int).Lsh(big.NewInt(1), 255)

// edge32 makes 32 bytes, often of an extreme value; bits is how many may be used.
func edge32(c *rt.Case, bits int) (b [32]byte, kind int) {
	r := c.R
	kind = r.Intn(8)
	n := new(big.Int)
	switch kind {
	case 0: // near the field prime
		n.Add(ref.P, big.NewInt(int64(r.Intn(41)-20)))
	case 1: // near multiples of the group order
		n.Mul(ref.L, big.NewInt(int64(r.Intn(17))))
		n.Add(n, big.NewInt(int64(r.Intn(7)-3)))
	case 2: // small
		n.SetInt64(int64(r.Intn(40)))
	case 3: // near a power of two
		n.Lsh(big.NewInt(1), uint(r.Intn(bits)))
		n.Add(n, big.NewInt(int64(r.Intn(5)-2)))
	case 4: // runs of ones and zeros
		for i := 0; i < bits; {
			k := 1 + r.Intn(60)
			if r.Intn(2) == 0 {
				for j := i; j < i+k; j++ {
					n.SetBit(n, j, 1)
				}
			}
			i += k
		}
	case 5: // nibbles at the edge of the signed digits
		v := byte(pick(c, 0x77, 0x88, 0x78, 0x87, 0xff, 0xf8, 0x80, 0x08))
		for i := range b {
			b[i] = v
			if r.Intn(8) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		n = ref.LE(b[:])
	default:
		r.Read(b[:])
		n = ref.LE(b[:])
	}
	if n.Sign() < 0 {
		n.SetInt64(0)
	}
	n.Mod(n, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	return ref.ToLE(n), kind
}

// limbs makes a field element of limbs that need not be reduced, within
// pct/100 of 2^bits (even limbs) and half that (odd limbs), and its value.
func limbs(c *rt.Case, pct int64, bits uint) (f ed.FieldElement, v *big.Int) {
	r := c.R
	v = new(big.Int)
	kind := r.Intn(6)
	if kind == 5 && bits < 26 {
		kind = 0
	}
	if kind == 5 { // around p, all limbs full
		n := int64(r.Intn(41) - 20)
		f[0] = int32(n - 19)
		for i := range f {
			f[i] += 1<<(26-uint(i&1)) - 1
		}
		f[0]++
		if r.Intn(2) == 0 { // the same below zero
			for i := range f {
				f[i] = -f[i]
			}
		}
		for i := range f {
			v.Add(v, new(big.Int).Lsh(big.NewInt(int64(f[i])), uint((51*i+1)/2)))
		}
		c.Sig("limbs", kind, bits)
		return
	}
	for i := range f {
		max := pct << (bits - uint(i&1)) / 100
		var x int64
		k := kind
		if k == 4 {
			k = r.Intn(4)
		}
		switch k {
		case 0:
			x = r.Int63n(2*max+1) - max
		case 1: // the largest and smallest
			x = max * int64(r.Intn(3)-1)
		case 2: // near zero: values around 0 and p
			if i == 0 || r.Intn(12) == 0 {
				x = int64(r.Intn(41) - 20)
			}
		case 3: // around half of the limb's radix, where carries round
			x = int64(1) << (25 - uint(i&1)) * int64(r.Intn(3)-1)
			x += int64(r.Intn(3) - 1)
		}
		if x > max {
			x = max
		}
		if x < -max {
			x = -max
		}
		f[i] = int32(x)
		v.Add(v, new(big.Int).Lsh(big.NewInt(x), uint((51*i+1)/2)))
	}
	c.Sig("limbs", kind, bits)
	return
}

func runP24(c *rt.Case) {
	r := c.R
	var one ed.FieldElement
	ed.FeOne(&one)
	// The value of a field element, independent of its representation.
	val := func(f *ed.FieldElement) *big.Int {
		var t ed.FieldElement
		var b [32]byte
		ed.FeMul(&t, f, &one)
		ed.FeToBytes(&b, &t)
		return ref.LE(b[:])
	}
	eq := func(got *ed.FieldElement, want *big.Int, op string, a ...any) {
		want = new(big.Int).Mod(want, ref.P)
		v := val(got)
		c.Must(v.Cmp(want) == 0, "field:"+op, "%s: got %x want %x, operands %x", op, v, want, a)
		c.Count("field", 1)
	}
	elem := func() (f ed.FieldElement, n *big.Int, kind int) {
		b, kind := edge32(c, 256)
		ed.FeFromBytes(&f, &b)
		b[31] &= 0x7f
		return f, new(big.Int).Mod(ref.LE(b[:]), ref.P), kind
	}
	m := func() *big.Int { return new(big.Int) }
	for k := 0; k < 10; k++ {
		f, a, ka := elem()
		g, b, kb := elem()
		var h ed.FieldElement
		c.Sig("field", ka, kb)
		eq(&f, a, "from-bytes")
		var out [32]byte
		ed.FeToBytes(&out, &f)
		c.Must(ref.LE(out[:]).Cmp(a) == 0, "field:to-bytes", "got %x want %x", ref.LE(out[:]), a)
		c.Must(ed.FeIsNegative(&f) == byte(a.Bit(0)), "field:is-negative", "%x", a)
		c.Must((ed.FeIsNonZero(&f) != 0) == (a.Sign() != 0), "field:is-nonzero", "%x", a)
		// Sums and differences go straight into products, without reduction.
		var s, d, ng ed.FieldElement
		ed.FeAdd(&s, &f, &g)
		eq(&s, m().Add(a, b), "add", a, b)
		ed.FeSub(&d, &f, &g)
		eq(&d, m().Sub(a, b), "sub", a, b)
		ed.FeNeg(&ng, &f)
		eq(&ng, m().Neg(a), "neg", a)
		ed.FeMul(&h, &f, &g)
		eq(&h, m().Mul(a, b), "mul", a, b)
		ed.FeMul(&h, &s, &d)
		eq(&h, m().Mul(m().Add(a, b), m().Sub(a, b)), "mul-sums", a, b)
		ed.FeMul(&h, &h, &h)
		x := m().Mul(m().Add(a, b), m().Sub(a, b))
		eq(&h, m().Mul(x, x), "mul-alias", a, b)
		ed.FeSquare(&h, &f)
		eq(&h, m().Mul(a, a), "square", a)
		ed.FeSquare(&h, &s)
		eq(&h, m().Mul(m().Add(a, b), m().Add(a, b)), "square-sum", a, b)
		ed.FeSquare2(&h, &f)
		eq(&h, m().Mul(big.NewInt(2), m().Mul(a, a)), "square2", a)
		h = f
		ed.FeSquare(&h, &h)
		eq(&h, m().Mul(a, a), "square-alias", a)
		ed.FeInvert(&h, &f)
		eq(&h, m().Exp(a, m().Sub(ref.P, big.NewInt(2)), ref.P), "invert", a)
		h = s
		ed.FeInvert(&h, &h)
		eq(&h, m().Exp(m().Add(a, b), m().Sub(ref.P, big.NewInt(2)), ref.P), "invert-alias", a, b)
		h = f
		ed.FeCMove(&h, &g, 0)
		eq(&h, a, "cmove-0", a)
		ed.FeCMove(&h, &g, 1)
		eq(&h, b, "cmove-1", b)
		ed.FeCopy(&h, &f)
		eq(&h, a, "copy", a)
		ed.FeZero(&h)
		eq(&h, m(), "zero")
	}
	// Elements as unreduced limbs, up to the bounds the operations document.
	for k := 0; k < 10; k++ {
		f, a := limbs(c, 110, 26)
		g, b := limbs(c, 110, 26)
		var h ed.FieldElement
		ed.FeMul(&h, &f, &g)
		eq(&h, m().Mul(a, b), "mul-limbs", f, g)
		var inv ed.FieldElement
		f, a = limbs(c, 110, 26)
		ed.FeSquare(&h, &f)
		eq(&h, m().Mul(a, a), "square-limbs", f)
		ed.FeSquare2(&h, &f)
		eq(&h, m().Mul(big.NewInt(2), m().Mul(a, a)), "square2-limbs", f)
		ed.FeInvert(&inv, &f)
		eq(&inv, m().Exp(m().Mod(a, ref.P), m().Sub(ref.P, big.NewInt(2)), ref.P), "invert-limbs", f)
		f, a = limbs(c, 110, 25)
		g, b = limbs(c, 110, 25)
		var out [32]byte
		in := f
		ed.FeToBytes(&out, &in)
		a0 := m().Mod(a, ref.P)
		c.Must(ref.LE(out[:]).Cmp(a0) == 0, "field:to-bytes-limbs", "limbs %v: got %x want %x", f, ref.LE(out[:]), a0)
		in = f
		c.Must(ed.FeIsNegative(&in) == byte(a0.Bit(0)), "field:is-negative-limbs", "%v", f)
		in = f
		c.Must((ed.FeIsNonZero(&in) != 0) == (a0.Sign() != 0), "field:is-nonzero-limbs", "%v", f)
		ed.FeAdd(&h, &f, &g)
		eq(&h, m().Add(a, b), "add-limbs", f, g)
		ed.FeSub(&h, &f, &g)
		eq(&h, m().Sub(a, b), "sub-limbs", f, g)
		ed.FeNeg(&h, &f)
		eq(&h, m().Neg(a), "neg-limbs", f)
		c.Count("limbs", 10)
	}
	// Points.
	same := func(got [32]byte, want ref.Point, op string) {
		e := ref.Encode(want)
		c.Must(got == e, "point:"+op, "%s: got %x want %x", op, got, e)
		c.Count("points", 1)
	}
	for k := 0; k < 10; k++ {
		b, kind := edge32(c, 256)
		var p ed.ExtendedGroupElement
		ok := p.FromBytes(&b)
		want, wok := ref.Decode(b)
		c.Must(ok == wok, "point:decode", "decoding %x: %v, want %v", b, ok, wok)
		c.Sig("decode", kind, ok)
		if !ok {
			c.Count("not_points", 1)
			continue
		}
		checkPoint := func(p *ed.ExtendedGroupElement, want ref.Point, op string) {
			var o [32]byte
			p.ToBytes(&o)
			same(o, want, op)
			var pr ed.ProjectiveGroupElement
			p.ToProjective(&pr)
			pr.ToBytes(&o)
			same(o, want, op+":projective")
			// X*Y = Z*T
			var l, q ed.FieldElement
			ed.FeMul(&l, &p.X, &p.Y)
			ed.FeMul(&q, &p.Z, &p.T)
			c.Must(val(&l).Cmp(val(&q)) == 0, "point:"+op+":T", "XY is not ZT")
		}
		checkPoint(&p, want, "decode")
		for j := 0; j < 1+r.Intn(4); j++ {
			var cp ed.CompletedGroupElement
			if r.Intn(2) == 0 {
				p.Double(&cp)
			} else {
				var pr ed.ProjectiveGroupElement
				p.ToProjective(&pr)
				pr.Double(&cp)
			}
			want = ref.Add(want, want)
			var pr ed.ProjectiveGroupElement
			cp.ToProjective(&pr)
			var o [32]byte
			pr.ToBytes(&o)
			same(o, want, "double:projective")
			cp.ToExtended(&p)
			checkPoint(&p, want, "double")
		}
	}
	for k := 0; k < 3; k++ {
		b, kind := edge32(c, 255)
		if r.Intn(3) == 0 {
			b[0] &= 248
			b[31] |= 64
		}
		var p ed.ExtendedGroupElement
		in := b
		ed.GeScalarMultBase(&p, &in)
		c.Must(in == b, "base:input", "the scalar was changed")
		var o [32]byte
		p.ToBytes(&o)
		want := ref.Encode(ref.Mul(ref.LE(b[:]), ref.Base))
		c.Must(o == want, "base", "%x times the base point: got %x want %x", b, o, want)
		c.Count("base_multiples", 1)
		c.Sig("base", kind)
	}
	// Scalars.
	for k := 0; k < 25; k++ {
		a, ka := edge32(c, 256)
		b, kb := edge32(c, 256)
		d, kd := edge32(c, 256)
		var s [32]byte
		ed.ScMulAdd(&s, &a, &b, &d)
		want := m().Mul(ref.LE(a[:]), ref.LE(b[:]))
		want.Add(want, ref.LE(d[:]))
		want.Mod(want, ref.L)
		c.Must(s == ref.ToLE(want), "scalar:muladd", "%x * %x + %x: got %x want %x", a, b, d, s, ref.ToLE(want))
		s = a
		ed.ScMulAdd(&s, &s, &b, &d)
		c.Must(s == ref.ToLE(want), "scalar:muladd-alias", "%x * %x + %x", a, b, d)
		var w [64]byte
		copy(w[:], a[:])
		copy(w[32:], b[:])
		switch r.Intn(4) {
		case 0:
			n := m().Mul(ref.L, ref.LE(a[:]))
			n.Add(n, big.NewInt(int64(r.Intn(5)-2)))
			if n.Sign() >= 0 && n.BitLen() <= 512 {
				w = [64]byte{}
				bb := n.Bytes()
				for i := range bb {
					w[i] = bb[len(bb)-1-i]
				}
			}
		case 1:
			r.Read(w[:])
		}
		in := w
		ed.ScReduce(&s, &w)
		want.Mod(ref.LE(in[:]), ref.L)
		c.Must(s == ref.ToLE(want), "scalar:reduce", "%x: got %x want %x", in, s, ref.ToLE(want))
		c.Count("scalars", 2)
		c.Sig("scalar", ka, kb, kd)
	}
}
