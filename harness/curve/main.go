// Command curve checks C22: the curve arithmetic against math/big on enumerated operands.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/kisom/psignify/signify/internal/edwards25519"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

type fe = edwards25519.FieldElement

func main() { mc.Main() }

var shifts = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// val is the integer a field element represents.
func val(f *fe) *big.Int {
	s := new(big.Int)
	t := new(big.Int)
	for i := 9; i >= 0; i-- {
		t.SetInt64(int64(f[i]))
		s.Add(s, t.Lsh(t, shifts[i]))
	}
	return s
}

func mod(n *big.Int) *big.Int { return new(big.Int).Mod(n, ref.P) }

func bound(i int, scale int64) int32 { // scale/100 * 2^25 or 2^24
	e := uint(25 - i%2)
	return int32(scale * (1 << e) / 100)
}

// fromInt makes the plain limb form of 0 <= n < 2^256.
func fromInt(n *big.Int) (f fe) {
	r := new(big.Int).Set(n)
	for i := 0; i < 10; i++ {
		w := uint(26 - i%2)
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))
		f[i] = int32(new(big.Int).And(r, m).Int64())
		r.Rsh(r, w)
	}
	return f
}

// centred makes the form with limbs in [-2^25,2^25] / [-2^24,2^24].
func centred(n *big.Int) (f fe) {
	f = fromInt(n)
	for i := 0; i < 10; i++ {
		w := uint(26 - i%2)
		if f[i] >= 1<<(w-1) {
			f[i] -= 1 << w
			if i < 9 {
				f[i+1]++
			} else {
				f[0] += 19
			}
		}
	}
	return f
}

// elements is the operand family with limbs up to scale/100 of the nominal bound.
func elements(scale int64, pairs bool) []fe {
	var out []fe
	seen := map[fe]bool{}
	add := func(f fe) {
		for i := range f {
			if f[i] > bound(i, scale) || f[i] < -bound(i, scale) {
				return
			}
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	lv := func(i, k int) int32 {
		b := bound(i, scale)
		return []int32{0, 1, -1, b, -b, b / 2, -b / 2, 1 << uint(24-i%2), -(1 << uint(24-i%2))}[k]
	}
	for k := 0; k < 9; k++ { // uniform and alternating
		var f, g, h fe
		for i := range f {
			f[i] = lv(i, k)
			if i%2 == 0 {
				g[i] = lv(i, k)
				h[i] = -lv(i, k)
			} else {
				h[i] = lv(i, k)
			}
		}
		add(f)
		add(g)
		add(h)
	}
	for b := 0; b < 5; b++ { // one limb differing from a uniform base
		for i := 0; i < 10; i++ {
			for k := 0; k < 9; k++ {
				var f fe
				for j := range f {
					f[j] = lv(j, b)
				}
				f[i] = lv(i, k)
				add(f)
				if !pairs {
					continue
				}
				for j := 0; j < i; j++ {
					for l := 0; l < 5; l++ {
						g := f
						g[j] = lv(j, l)
						add(g)
					}
				}
			}
		}
	}
	for _, n := range values() {
		add(centred(n))
		add(fromInt(n))
	}
	return out
}

// values are special field values in [0, 2^255+38).
func values() []*big.Int {
	var out []*big.Int
	one := big.NewInt(1)
	add := func(n *big.Int) {
		if n.Sign() >= 0 && n.BitLen() <= 255 {
			out = append(out, n)
		}
	}
	for i := int64(0); i < 24; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(ref.P, big.NewInt(i+1)))
		add(new(big.Int).Add(ref.P, big.NewInt(i)))
	}
	for k := uint(3); k <= 255; k++ {
		p := new(big.Int).Lsh(one, k)
		add(p)
		add(new(big.Int).Sub(p, one))
		add(mod(new(big.Int).Neg(p)))
	}
	half := new(big.Int).Rsh(ref.P, 1)
	add(half)
	add(new(big.Int).Add(half, one))
	add(ref.SqrtM1)
	add(ref.D)
	return out
}

// byteStrings are 32-byte inputs: every value of every byte over two backgrounds, and the special values.
func byteStrings() [][32]byte {
	var out [][32]byte
	for _, bg := range []byte{0, 0xff} {
		for i := 0; i < 32; i++ {
			for v := 0; v < 256; v++ {
				var s [32]byte
				for j := range s {
					s[j] = bg
				}
				s[i] = byte(v)
				out = append(out, s)
			}
		}
	}
	for _, n := range values() {
		s := ref.ToLE(n)
		out = append(out, s)
		s[31] |= 0x80
		out = append(out, s)
	}
	return out
}

// try runs a part of an execution that is left out if the package does not have a function it calls.
func try(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(mc.Skip); !ok {
				panic(p)
			}
		}
	}()
	f()
}

func inBounds(f *fe, scale int64) bool {
	for i := range f {
		if f[i] > bound(i, scale) || f[i] < -bound(i, scale) {
			return false
		}
	}
	return true
}

func same(x *mc.X, what string, got *fe, want *big.Int, args ...interface{}) {
	g := mod(val(got))
	x.Ops(1)
	if g.Cmp(mod(want)) != 0 {
		x.Fail("wrong-value", "%s%v = %v (value %v), want %v mod p", what, args, *got, g, mod(want))
	}
}

func within(x *mc.X, what string, got *fe, scale int64, args ...interface{}) {
	if !inBounds(got, scale) {
		x.Fail("out-of-bounds", "%s%v = %v exceeds the documented output bound", what, args, *got)
	}
}

// ---- points ----------------------------------------------------------------------------------

type point = edwards25519.ExtendedGroupElement

var zs = []*big.Int{big.NewInt(1), big.NewInt(2), new(big.Int).Sub(ref.P, big.NewInt(1)), ref.SqrtM1, new(big.Int).Rsh(ref.P, 1), new(big.Int).Lsh(big.NewInt(1), 200)}

// lift makes extended coordinates of p with the given Z.
func lift(p ref.Point, z *big.Int) (e point) {
	e.X = centred(mod(new(big.Int).Mul(p.X, z)))
	e.Y = centred(mod(new(big.Int).Mul(p.Y, z)))
	e.Z = centred(z)
	t := new(big.Int).Mul(p.X, p.Y)
	e.T = centred(mod(t.Mul(t, z)))
	return e
}

func affine(x, y, z *fe) (ref.Point, bool) {
	zi := new(big.Int).ModInverse(mod(val(z)), ref.P)
	if zi == nil {
		return ref.Point{}, false
	}
	return ref.Point{X: mod(new(big.Int).Mul(val(x), zi)), Y: mod(new(big.Int).Mul(val(y), zi))}, true
}

func checkExt(x *mc.X, what string, e *point, want ref.Point, args ...interface{}) {
	p, ok := affine(&e.X, &e.Y, &e.Z)
	x.Ops(1)
	if !ok || p.X.Cmp(want.X) != 0 || p.Y.Cmp(want.Y) != 0 {
		x.Fail("wrong-point", "%s%v = (%v, %v), want (%v, %v)", what, args, p.X, p.Y, want.X, want.Y)
	}
	l, r := new(big.Int).Mul(val(&e.X), val(&e.Y)), new(big.Int).Mul(val(&e.Z), val(&e.T))
	if mod(l).Cmp(mod(r)) != 0 {
		x.Fail("wrong-point", "%s%v: XY != ZT", what, args)
	}
}

var pointCache []ref.Point

// points: multiples of the base, torsion points, points with small y, mixed.
func points() []ref.Point {
	if pointCache != nil {
		return pointCache
	}
	b := ref.Base()
	p := ref.Identity()
	for i := 0; i < 40; i++ {
		pointCache = append(pointCache, p)
		p = ref.Add(p, b)
	}
	for i := int64(2); len(pointCache) < 60; i++ {
		e := ref.ToLE(big.NewInt(i))
		if q, ok := ref.Decompress(e[:]); ok {
			pointCache = append(pointCache, q, ref.Mul(ref.L, q))
		}
	}
	pointCache = append(pointCache, ref.Point{X: big.NewInt(0), Y: new(big.Int).Sub(ref.P, big.NewInt(1))})
	return pointCache
}

// multiples memoizes i*p for small i.
var multCache = map[string][]ref.Point{}

func small(i int, p ref.Point) ref.Point {
	k := p.X.String() + "/" + p.Y.String()
	m := multCache[k]
	if m == nil {
		m = []ref.Point{ref.Identity()}
	}
	for len(m) <= i {
		m = append(m, ref.Add(m[len(m)-1], p))
	}
	multCache[k] = m
	return m[i]
}

// powers memoizes 2^i*p.
var powCache = map[string][]ref.Point{}

func mul(k *big.Int, p ref.Point) ref.Point {
	key := p.X.String() + "/" + p.Y.String()
	m := powCache[key]
	for len(m) <= k.BitLen() {
		if len(m) == 0 {
			m = append(m, p)
			continue
		}
		m = append(m, ref.Add(m[len(m)-1], m[len(m)-1]))
	}
	powCache[key] = m
	r := ref.Identity()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = ref.Add(r, m[i])
		}
	}
	return r
}

// scalars: 32-byte scalars below 2^max.
func scalars(max int) []*big.Int {
	var out []*big.Int
	one := big.NewInt(1)
	seen := map[string]bool{}
	add := func(n *big.Int) {
		if n.Sign() >= 0 && n.BitLen() <= max && !seen[n.String()] {
			seen[n.String()] = true
			out = append(out, n)
		}
	}
	for i := int64(0); i < 20; i++ {
		add(big.NewInt(i))
	}
	for i := int64(-4); i <= 4; i++ {
		for k := int64(1); k <= 16; k++ {
			add(new(big.Int).Add(new(big.Int).Mul(ref.L, big.NewInt(k)), big.NewInt(i)))
		}
	}
	for k := 4; k <= 256; k++ {
		p := new(big.Int).Lsh(one, uint(k))
		add(p)
		add(new(big.Int).Sub(p, one))
	}
	for _, b := range []byte{0x11, 0x55, 0x77, 0x78, 0x80, 0x87, 0x88, 0x89, 0xaa, 0x7f, 0xf7, 0xf8, 0xfe} {
		n := new(big.Int).SetBytes(bytes.Repeat([]byte{b}, 32))
		add(n)
		add(n.Rsh(new(big.Int).Set(n), 1))
	}
	return out
}

func init() {
	mc.Register(mc.Property{
		ID: "C22", Level: "model_checking",
		Rule:        "state: distinct operand tuple; transition: one call of a curve function whose result is compared with integer arithmetic; trace: all comparisons for one operand tuple",
		Assumptions: []string{"math/big is correct", "operands outside the enumerated boundary families behave like them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			wide, tight := elements(220, false), elements(110, t == mc.Thorough)
			wide165 := elements(330, false)
			strs := byteStrings()
			sc := scalars(256)
			sc255 := scalars(255)
			return []mc.Scenario{
				{Name: "mul", Bounds: fmt.Sprintf("all pairs of %d elements with limbs at the documented input bounds (1.1*2^26): product, output bound, all overlaps", len(wide)), Body: func(x *mc.X) {
					f := wide[x.Choose("f", len(wide))]
					vf := val(&f)
					st := t.Pick(3, 1)
					off := int(f[0]&0xff+f[1]&0xff+f[9]&0xff) % st
					var h fe
					for i := off; i < len(wide); i += st {
						g := wide[i]
						want := new(big.Int).Mul(vf, val(&g))
						ed.FeMul(&h, &f, &g)
						same(x, "FeMul", &h, want, f, g)
						within(x, "FeMul", &h, 110, f, g)
						a := f
						ed.FeMul(&a, &a, &g)
						x.Check(a == h, "overlap", "FeMul(f,f,g) differs from FeMul(h,f,g) for %v %v", f, g)
						b := g
						ed.FeMul(&b, &f, &b)
						x.Check(b == h, "overlap", "FeMul(g,f,g) differs from FeMul(h,f,g) for %v %v", f, g)
						x.Ops(2)
					}
					x.State(fmt.Sprint(f))
				}},
				{Name: "unary-wide", Bounds: fmt.Sprintf("%d elements at 1.1*2^26 and %d at 1.65*2^26: squares, inverse, overlaps", len(wide), len(wide165)), Body: func(x *mc.X) {
					i := x.Choose("f", len(wide)+len(wide165))
					var h fe
					if i >= len(wide) {
						f := wide165[i-len(wide)]
						v := val(&f)
						ed.FeSquare2(&h, &f)
						want := new(big.Int).Mul(v, v)
						same(x, "FeSquare2", &h, want.Lsh(want, 1), f)
						within(x, "FeSquare2", &h, 101, f)
						ed.FeSquare2(&f, &f)
						x.Check(f == h, "overlap", "FeSquare2(f,f) differs")
						x.State(fmt.Sprint(f))
						return
					}
					f := wide[i]
					v := val(&f)
					try(func() {
						ed.FeSquare(&h, &f)
						same(x, "FeSquare", &h, new(big.Int).Mul(v, v), f)
						within(x, "FeSquare", &h, 110, f)
						a := f
						ed.FeSquare(&a, &a)
						x.Check(a == h, "overlap", "FeSquare(f,f) differs for %v", f)
					})
					a := f
					ed.FeMul(&a, &a, &a)
					same(x, "FeMul(f,f,f)", &a, new(big.Int).Mul(v, v), f)
					ed.FeInvert(&h, &f)
					inv := new(big.Int).ModInverse(mod(v), ref.P)
					if inv == nil {
						inv = new(big.Int)
					}
					same(x, "FeInvert", &h, inv, f)
					a = f
					ed.FeInvert(&a, &a)
					x.Check(a == h, "overlap", "FeInvert(f,f) differs for %v", f)
					x.State(fmt.Sprint(f))
				}},
				{Name: "tight", Bounds: fmt.Sprintf("%d elements at 1.1*2^25: encoding canonical, sign, zero test, negation, copy; sums and differences with %d others, overlaps, conditional move", len(tight), 60), Body: func(x *mc.X) {
					f := tight[x.Choose("f", len(tight))]
					v := val(&f)
					enc := ref.ToLE(mod(v))
					var s [32]byte
					a := f
					try(func() {
						ed.FeToBytes(&s, &a)
						x.Check(s == enc, "encoding", "FeToBytes(%v) = %x, want %x", f, s, enc)
						same(x, "FeToBytes argument", &a, v)
					})
					try(func() {
						a = f
						x.Check(ed.FeIsNegative(&a) == enc[0]&1, "sign", "FeIsNegative(%v)", f)
						same(x, "FeIsNegative argument", &a, v)
					})
					a = f
					nz := int32(0)
					if mod(v).Sign() != 0 {
						nz = 1
					}
					try(func() {
						x.Check(ed.FeIsNonZero(&a) == nz, "zero-test", "FeIsNonZero(%v) != %d", f, nz)
					})
					var h fe
					try(func() {
						ed.FeNeg(&h, &f)
						same(x, "FeNeg", &h, new(big.Int).Neg(v), f)
						within(x, "FeNeg", &h, 110, f)
						a = f
						ed.FeNeg(&a, &a)
						x.Check(a == h, "overlap", "FeNeg(f,f) differs for %v", f)
					})
					try(func() {
						ed.FeCopy(&h, &f)
						x.Check(h == f, "copy", "FeCopy(%v) = %v", f, h)
					})
					try(func() {
						ed.FeZero(&h)
						same(x, "FeZero", &h, new(big.Int))
					})
					h = f
					try(func() {
						ed.FeOne(&h)
						same(x, "FeOne", &h, big.NewInt(1))
					})
					for i := 0; i < len(tight); i += len(tight)/60 + 1 {
						g := tight[i]
						w := val(&g)
						ed.FeAdd(&h, &f, &g)
						same(x, "FeAdd", &h, new(big.Int).Add(v, w), f, g)
						a, b := f, g
						ed.FeAdd(&a, &a, &g)
						ed.FeAdd(&b, &f, &b)
						x.Check(a == h && b == h, "overlap", "FeAdd overlap for %v %v", f, g)
						ed.FeSub(&h, &f, &g)
						same(x, "FeSub", &h, new(big.Int).Sub(v, w), f, g)
						a, b = f, g
						ed.FeSub(&a, &a, &g)
						ed.FeSub(&b, &f, &b)
						x.Check(a == h && b == h, "overlap", "FeSub overlap for %v %v", f, g)
						try(func() {
							a, b = f, g
							ed.FeCMove(&a, &b, 0)
							x.Check(a == f && b == g, "cmove", "FeCMove(f,g,0) for %v %v", f, g)
							ed.FeCMove(&a, &b, 1)
							x.Check(a == g && b == g, "cmove", "FeCMove(f,g,1) for %v %v", f, g)
						})
						x.Ops(6)
					}
					a = f
					ed.FeAdd(&a, &a, &a)
					same(x, "FeAdd(f,f,f)", &a, new(big.Int).Add(v, v), f)
					ed.FeSub(&a, &a, &a)
					same(x, "FeSub(f,f,f)", &a, new(big.Int), f)
					x.State(fmt.Sprint(f))
				}},
				{Name: "bytes", Bounds: fmt.Sprintf("%d byte strings: every value of every byte over 00 and ff, special values, both top bits: decode ignores bit 255, round trip canonical", len(strs)), Body: func(x *mc.X) {
					s := strs[x.Choose("s", len(strs))]
					in := s
					var f fe
					ed.FeFromBytes(&f, &s)
					x.Check(s == in, "input-changed", "FeFromBytes changed its input")
					n := ref.LE(s[:])
					n.SetBit(n, 255, 0)
					same(x, "FeFromBytes", &f, n, s)
					within(x, "FeFromBytes", &f, 110, s)
					var o [32]byte
					ed.FeToBytes(&o, &f)
					x.Check(o == ref.ToLE(mod(n)), "encoding", "encoding of the decoded %x is %x", s, o)
					// points
					var p point
					want, ok := ref.Decompress(s[:])
					x.Op("FromBytes")
					got := ed.ExtFromBytes(&p, &s)
					x.Check(got == ok, "on-curve", "FromBytes(%x) = %v", s, got)
					if ok {
						checkExt(x, "FromBytes", &p, want, s)
						ed.ExtToBytes(&p, &o)
						x.Check(o == want.Encode(), "encoding", "ToBytes(FromBytes(%x)) = %x", s, o)
					}
					x.State(s[:])
				}},
				{Name: "small-y", Bounds: fmt.Sprintf("point decoding of y and p-1-y for y below %d, both signs", t.Pick(6000, 60000)), Body: func(x *mc.X) {
					y := big.NewInt(int64(x.Choose("y", t.Pick(6000, 60000))))
					if x.Bool("high") {
						y.Sub(new(big.Int).Sub(ref.P, big.NewInt(1)), y)
					}
					s := ref.ToLE(y)
					if x.Bool("sign") {
						s[31] |= 0x80
					}
					var p point
					want, ok := ref.Decompress(s[:])
					x.Op("FromBytes")
					x.Check(ed.ExtFromBytes(&p, &s) == ok, "on-curve", "FromBytes(%x) != %v", s, ok)
					if ok {
						checkExt(x, "FromBytes", &p, want, s)
					}
					x.State(s[:])
				}},
				{Name: "points", Bounds: "61 points x 6 projective scalings: doubling, conversions, encoding, zero elements; doubling chains of 5", Body: func(x *mc.X) {
					ps := points()
					p := ps[x.Choose("point", len(ps))]
					e := lift(p, zs[x.Choose("z", len(zs))])
					var s [32]byte
					c := e
					ed.ExtToBytes(&c, &s)
					x.Check(s == p.Encode(), "encoding", "ToBytes = %x, want %x", s, p.Encode())
					checkExt(x, "ToBytes argument", &c, p)
					var pr edwards25519.ProjectiveGroupElement
					ed.ExtToProjective(&e, &pr)
					q, ok := affine(&pr.X, &pr.Y, &pr.Z)
					x.Check(ok && q.X.Cmp(p.X) == 0 && q.Y.Cmp(p.Y) == 0, "wrong-point", "ToProjective")
					try(func() {
						ed.ProjToBytes(&pr, &s)
						x.Check(s == p.Encode(), "encoding", "projective ToBytes = %x, want %x", s, p.Encode())
					})
					x.State(s[:], fmt.Sprint(e))
					d := p
					for i := 0; i < 5; i++ {
						d = ref.Add(d, d)
						var cg edwards25519.CompletedGroupElement
						x.Op("Double")
						if x.Tier == mc.Thorough && i%2 == 1 {
							var pp edwards25519.ProjectiveGroupElement
							ed.ExtToProjective(&e, &pp)
							ed.ProjDouble(&pp, &cg)
						} else {
							ed.ExtDouble(&e, &cg)
						}
						var pp edwards25519.ProjectiveGroupElement
						ed.CompToProjective(&cg, &pp)
						q, ok := affine(&pp.X, &pp.Y, &pp.Z)
						x.Check(ok && q.X.Cmp(d.X) == 0 && q.Y.Cmp(d.Y) == 0, "wrong-point", "Double/ToProjective of %v", p)
						ed.CompToExtended(&cg, &e)
						checkExt(x, "Double/ToExtended", &e, d, p)
					}
					var z point
					z = e
					try(func() {
						ed.ExtZero(&z)
						checkExt(x, "Zero", &z, ref.Identity())
					})
					ed.ProjZero(&pr)
					q, ok = affine(&pr.X, &pr.Y, &pr.Z)
					x.Check(ok && q.X.Sign() == 0 && q.Y.Cmp(big.NewInt(1)) == 0, "wrong-point", "projective Zero")
				}},
				{Name: "base-mult-digits", Bounds: "every 4-bit digit at every of 64 positions (below 2^255), with each background digit 0, 7, 8 and 15 in the digit below", Body: func(x *mc.X) {
					pos := x.Choose("pos", 64)
					d := x.Choose("digit", 16)
					bg := []int64{0, 7, 8, 15}[x.Choose("below", 4)]
					k := new(big.Int).Lsh(big.NewInt(int64(d)), uint(4*pos))
					if pos > 0 {
						k.Add(k, new(big.Int).Lsh(big.NewInt(bg), uint(4*pos-4)))
					}
					if k.BitLen() > 255 {
						return
					}
					a := ref.ToLE(k)
					var h point
					x.Op("GeScalarMultBase")
					ed.GeScalarMultBase(&h, &a)
					checkExt(x, "GeScalarMultBase", &h, mul(k, ref.Base()), k)
					x.State(a[:])
				}},
				{Name: "base-mult", Bounds: fmt.Sprintf("%d scalars: small, 2^k, 2^k-1, near multiples of the order, digit patterns", len(sc255)), Body: func(x *mc.X) {
					k := sc255[x.Choose("scalar", len(sc255))]
					a := ref.ToLE(k)
					var h point
					x.Op("GeScalarMultBase")
					ed.GeScalarMultBase(&h, &a)
					checkExt(x, "GeScalarMultBase", &h, mul(k, ref.Base()), k)
					x.State(a[:])
				}},
				{Name: "double-mult-small", Bounds: "all a, b below 2^8 for 3 points A: every recoding of 8-bit windows", Body: func(x *mc.X) {
					i := x.Choose("a", 256)
					ps := points()
					ai := []int{7, 41, 60}[x.Choose("A", 3)]
					A := ps[ai]
					for j := 0; j < 256; j++ {
						a, b := ref.ToLE(big.NewInt(int64(i))), ref.ToLE(big.NewInt(int64(j)))
						e := lift(A, zs[(i+j)%len(zs)])
						var r edwards25519.ProjectiveGroupElement
						ed.GeDoubleScalarMultVartime(&r, &a, &e, &b)
						x.Ops(1)
						var s [32]byte
						ed.ProjToBytes(&r, &s)
						// compare without affine inversions: encode a small sum
						w := sumCache(i, j, ai, A)
						x.Check(s == w, "wrong-point", "%d*A + %d*B wrong for A=%v", i, j, A)
					}
					x.State(i, fmt.Sprint(A.Y))
				}},
				{Name: "double-mult", Bounds: fmt.Sprintf("%d scalars a with b in 6 values and vice versa, 4 points A", len(sc)), Body: func(x *mc.X) {
					k := sc[x.Choose("scalar", len(sc))]
					ps := points()
					ai := x.Choose("A", t.Pick(2, 4))
					A := ps[[]int{9, 43, 1, 60}[ai]]
					bs := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), new(big.Int).Sub(ref.L, big.NewInt(1)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 253), big.NewInt(1)), new(big.Int).SetBytes(bytes.Repeat([]byte{0xa5}, 31))}
					o := bs[x.Choose("other", len(bs))]
					ka, kb := k, o
					if x.Bool("swap") {
						ka, kb = o, k
					}
					a, b := ref.ToLE(ka), ref.ToLE(kb)
					if !recodable(&a) || !recodable(&b) {
						return
					}
					e := lift(A, zs[0])
					var r edwards25519.ProjectiveGroupElement
					x.Op("GeDoubleScalarMultVartime")
					ed.GeDoubleScalarMultVartime(&r, &a, &e, &b)
					q, ok := affine(&r.X, &r.Y, &r.Z)
					w := ref.Add(mul(ka, A), mul(kb, ref.Base()))
					x.Check(ok && q.X.Cmp(w.X) == 0 && q.Y.Cmp(w.Y) == 0, "wrong-point", "%v*A + %v*B wrong for A=%v", ka, kb, A)
					x.State(a[:], b[:], ai)
				}},
				{Name: "muladd", Bounds: fmt.Sprintf("all triples of 41 scalars and all (a,b) of %d with 3 values of c", len(sc)), Body: func(x *mc.X) {
					i := x.Choose("a", len(sc))
					step := len(sc)/40 + 1
					a := ref.ToLE(sc[i])
					run := func(nb, nc *big.Int) {
						b, c := ref.ToLE(nb), ref.ToLE(nc)
						w := new(big.Int).Mul(sc[i], nb)
						w.Add(w, nc).Mod(w, ref.L)
						var s [32]byte
						ed.ScMulAdd(&s, &a, &b, &c)
						x.Ops(1)
						x.Check(s == ref.ToLE(w), "wrong-scalar", "ScMulAdd(%v,%v,%v) = %x, want %v", sc[i], nb, nc, s, w)
						if nb == nc {
							ed.ScMulAdd(&b, &a, &b, &b)
							x.Check(b == s, "overlap", "ScMulAdd(b,a,b,b) differs")
						}
					}
					for j := range sc {
						run(sc[j], sc[j])
						run(sc[j], sc[(i*7+j*3)%len(sc)])
						run(sc[j], sc[0])
					}
					if i%step == 0 {
						for j := 0; j < len(sc); j += step {
							for k := 0; k < len(sc); k += step {
								run(sc[j], sc[k])
							}
						}
					}
					x.State(a[:])
				}},
				{Name: "reduce", Bounds: "64-byte inputs: every value of every byte over 00 and ff; k*L+d for k = 0..600 and 2^0..2^259, d = -3..3", Body: func(x *mc.X) {
					i := x.Choose("input", 64+600+260)
					var ins []*big.Int
					if i < 64 {
						for v := 0; v < 256; v++ {
							z := make([]byte, 64)
							z[63-i] = byte(v)
							ins = append(ins, new(big.Int).SetBytes(z))
							o := bytes.Repeat([]byte{0xff}, 64)
							o[63-i] = byte(v)
							ins = append(ins, new(big.Int).SetBytes(o))
						}
					} else {
						k := big.NewInt(int64(i - 64))
						if i >= 664 {
							k = new(big.Int).Lsh(big.NewInt(1), uint(i-664))
						}
						k.Mul(k, ref.L)
						for d := int64(-3); d <= 3; d++ {
							ins = append(ins, new(big.Int).Add(k, big.NewInt(d)))
						}
					}
					for _, n := range ins {
						if n.Sign() < 0 || n.BitLen() > 512 {
							continue
						}
						var s [64]byte
						b := n.Bytes()
						for j := range b {
							s[len(b)-1-j] = b[j]
						}
						var o [32]byte
						ed.ScReduce(&o, &s)
						x.Ops(1)
						x.Check(o == ref.ToLE(new(big.Int).Mod(n, ref.L)), "wrong-scalar", "ScReduce(%v) = %x", n, o)
						x.State(s[:])
					}
				}},
				{Name: "minimal", Bounds: "all combinations of 7 values for each of the four 64-bit words, and L-300..L+300", Body: func(x *mc.X) {
					i := x.Choose("i", 7*7*7*7+601)
					var s [32]byte
					if i >= 2401 {
						s = ref.ToLE(new(big.Int).Add(ref.L, big.NewInt(int64(i-2401-300))))
					} else {
						l := ref.ToLE(ref.L)
						for w := 0; w < 4; w++ {
							o := new(big.Int).SetBytes(rev(l[8*w : 8*w+8]))
							v := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(o, big.NewInt(1)), o, new(big.Int).Add(o, big.NewInt(1)), new(big.Int).SetUint64(1 << 63), new(big.Int).SetUint64(1<<64 - 1)}[i%7]
							i /= 7
							if v.Sign() < 0 {
								v = big.NewInt(2)
							}
							b := ref.ToLE(v)
							copy(s[8*w:], b[:8])
						}
					}
					x.Op("ScMinimal")
					x.Check(ed.ScMinimal(&s) == (ref.LE(s[:]).Cmp(ref.L) < 0), "wrong-verdict", "ScMinimal(%x)", s)
					x.State(s[:])
				}},
			}
		},
	})
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// recodable: the sliding-window recoding of the scalar has no carry beyond 256 digits.
func recodable(a *[32]byte) bool { return ref.LE(a[:]).BitLen() <= 255 }

var sums = map[[3]int][32]byte{}

func sumCache(i, j, ai int, A ref.Point) [32]byte {
	k := [3]int{i, j, ai}
	if w, ok := sums[k]; ok {
		return w
	}
	w := ref.Add(small(i, A), small(j, ref.Base())).Encode()
	sums[k] = w
	return w
}
