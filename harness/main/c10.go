package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
	"golang.org/x/crypto/curve25519"
)

// convertPub converts the given public key bytes with the real code.
func convertPub(x *mc.X, key [32]byte) (*[32]byte, error) {
	p := ref.Pub{Alg: "Ed", Num: [8]byte{1, 2, 3}, Key: key}
	write(x.Path("c.pub"), ref.File("c", p.Encode()))
	pub, err := signify.LoadPublicKey(x.Path("c.pub"))
	x.Check(err == nil, "load", "LoadPublicKey: %v", err)
	x.Op("ToBox(%x)", key)
	var u *[32]byte
	err = guarded(x, "panic", fmt.Sprintf("ToBox(%x)", key), func() (e error) { u, e = pub.ToBox(); return })
	return u, err
}

// judgePub compares with the reference decision and value.
func judgePub(x *mc.X, key [32]byte) {
	u, err := convertPub(x, key)
	p, ok := ref.Decompress(key[:])
	small := ok && ref.SmallOrder(p)
	y := ref.LE(key[:])
	y.SetBit(y, 255, 0)
	canonical := y.Cmp(ref.P) < 0
	x.State(key[:])
	switch {
	case !ok:
		x.Outcome("not a point")
		x.Check(err != nil, "accepted-nonpoint", "public key %x is not a curve point but was converted", key)
	case small:
		x.Outcome("small order")
		x.Check(err != nil, "accepted-small-order", "public key %x has small order but was converted", key)
		write(x.Path("m"), []byte("secret"))
		err = crypto.Seal(x.Path("c.pub"), x.Path("m"), x.Path("e"))
		x.Check(err != nil, "accepted-small-order", "a message was encrypted to the small-order key %x", key)
	case err != nil:
		x.Outcome("refused non-canonical")
		x.Check(!canonical, "refused-point", "public key %x is a curve point but was refused: %v", key, err)
	default:
		x.Outcome("converted")
		w := ref.Montgomery(p.Y)
		x.Check(*u == w, "wrong-conversion", "public key %x converts to %x, want %x", key, *u, w)
	}
}

func judgeSeed(x *mc.X, seed []byte, pass string) {
	rounds := uint32(0)
	if pass != "" {
		rounds = 1
	}
	s := ref.MakeSec(seed, [8]byte{9}, [16]byte{7}, rounds, []byte(pass))
	write(x.Path("c.sec"), ref.File("c", s.Encode()))
	priv, err := signify.LoadPrivateKey(x.Path("c.sec"))
	x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
	setPrompt(x, answerWith(pass))
	x.Op("ToBox(secret)")
	b, err := priv.ToBox()
	x.Check(err == nil, "refused-secret", "secret key with seed %x refused: %v", seed, err)
	w := ref.BoxPriv(seed)
	x.Check(*b == w, "wrong-conversion", "seed %x converts to %x, want %x", seed, *b, w)
	pk := ref.PubOf(seed, [8]byte{9})
	u, err := convertPub(x, pk.Key)
	x.Check(err == nil, "refused-point", "public key of seed %x refused: %v", seed, err)
	want, _ := ref.BoxPub(pk.Key[:])
	x.Check(*u == want, "wrong-conversion", "public key of seed %x converts to %x, want %x", seed, *u, want)
	var m [32]byte
	curve25519.ScalarBaseMult(&m, b)
	x.Check(m == *u, "pair-mismatch", "seed %x: converted keys do not match: %x and %x", seed, m, *u)
	// converting does not change the keys
	b2, err := priv.ToBox()
	x.Check(err == nil && *b2 == w, "second-conversion", "converting seed %x again gives another result (%v)", seed, err)
	x.State(seed)
}

func init() {
	mc.Register(mc.Property{
		ID: "C10", Level: "model_checking",
		Rule:        "state: distinct key presented; transition: one ToBox call; trace: conversion of one key (or pair) compared with big-integer arithmetic",
		Assumptions: []string{"math/big and x/crypto/curve25519 are correct", "encodings whose y is not below p may be refused or taken modulo p"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			one := big.NewInt(1)
			small := int64(t.Pick(8000, 60000))
			return []mc.Scenario{
				{Name: "seeds", Bounds: fmt.Sprintf("%d seeds: constant, counting, single-bit, single-zero-bit, hashed; every 16th also protected", t.Pick(3000, 12000)), Body: func(x *mc.X) {
					i := x.Choose("seed", t.Pick(3000, 12000))
					seed := make([]byte, 32)
					switch {
					case i < 256:
						seed[i/8] = 1 << uint(i%8)
					case i < 512:
						seed = bytes.Repeat([]byte{0xff}, 32)
						seed[i/8-32] ^= 1 << uint(i%8)
					default:
						family(i - 512).Read(seed)
					}
					pass := ""
					if i%16 == 0 && x.Bool("protected") {
						pass = "p"
					}
					judgeSeed(x, seed, pass)
				}},
				{Name: "histories", ShardDepth: 3, Bounds: fmt.Sprintf("every history of up to %d conversions of the keys of two pairs (loaded, or straight from GenerateKeypair), a point of small order and one off the curve, and overwritings of everything returned before", t.Pick(6, 7)), Body: func(x *mc.X) {
					var privs [2]*signify.Private
					var pubs [4]*signify.Public
					var wantPriv, wantPub [2][32]byte
					noPrompt(x)
					fresh := x.Bool("from GenerateKeypair")
					setRand(x, hashStream("c10 histories"))
					load := func(key [32]byte) *signify.Public {
						write(x.Path("h.pub"), ref.File("c", (&ref.Pub{Alg: "Ed", Num: [8]byte{9}, Key: key}).Encode()))
						p, err := signify.LoadPublicKey(x.Path("h.pub"))
						x.Check(err == nil, "load", "LoadPublicKey: %v", err)
						return p
					}
					for i := range privs {
						var err error
						if fresh {
							privs[i], pubs[i], err = signify.GenerateKeypair(nil, nil)
							x.Check(err == nil, "generate", "GenerateKeypair: %v", err)
							a, err := privs[i].ToBox()
							x.Check(err == nil, "convert", "ToBox: %v", err)
							wantPriv[i] = *a
							curve25519.ScalarBaseMult(&wantPub[i], &wantPriv[i])
							continue
						}
						seed := bytes.Repeat([]byte{byte(40 + i)}, 32)
						write(x.Path("h.sec"), ref.File("c", ref.MakeSec(seed, [8]byte{9}, [16]byte{7}, 0, nil).Encode()))
						privs[i], err = signify.LoadPrivateKey(x.Path("h.sec"))
						x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
						pubs[i] = load(ref.PubOf(seed, [8]byte{9}).Key)
						wantPriv[i] = ref.BoxPriv(seed)
						curve25519.ScalarBaseMult(&wantPub[i], &wantPriv[i])
					}
					pubs[2] = load([32]byte{1})
					pubs[3] = load([32]byte{2})
					var given []*[32]byte
					for n := t.Pick(6, 7); n > 0; n-- {
						op := x.Choose("operation", 7)
						switch {
						case op < 4:
							var got *[32]byte
							var err error
							want := wantPriv[op%2]
							if op < 2 {
								got, err = privs[op].ToBox()
							} else {
								got, err = pubs[op-2].ToBox()
								want = wantPub[op-2]
							}
							x.Op("ToBox %d", op)
							x.Check(err == nil && *got == want, "wrong-conversion", "conversion %d (0, 1 secret, 2, 3 public) gives %x, %v, want %x", op, got, err, want)
							given = append(given, got)
						case op < 6:
							_, err := pubs[op-2].ToBox()
							x.Op("ToBox %d", op)
							x.Check(err != nil, "accepted", "a key that is no point of large order is converted")
						default:
							x.Op("overwrite results")
							for i, g := range given {
								*g = [32]byte{byte(i), 1, 2, 3}
							}
						}
					}
					x.State(fresh, len(given))
				}},
				{Name: "y-values", Bounds: fmt.Sprintf("encodings with y and p-1-y for y below %d and both signs", small), Body: func(x *mc.X) {
					y := big.NewInt(int64(x.Choose("y", int(small))))
					if x.Bool("high") {
						y.Sub(new(big.Int).Sub(ref.P, one), y)
					}
					k := ref.ToLE(y)
					if x.Bool("sign") {
						k[31] |= 0x80
					}
					judgePub(x, k)
				}},
				{Name: "powers", Bounds: "y = 2^k + d for k = 0..254, d = -3..3, y = p + 0..18 (non-canonical), y = +-1/(1-y') of small y', both signs", Body: func(x *mc.X) {
					i := x.Choose("k", 255*7+19+400)
					var y *big.Int
					switch {
					case i < 255*7:
						y = new(big.Int).Lsh(one, uint(i/7))
						y.Add(y, big.NewInt(int64(i%7-3)))
					case i < 255*7+19:
						y = new(big.Int).Add(ref.P, big.NewInt(int64(i-255*7)))
					default:
						j := int64(i - 255*7 - 19 + 2)
						y = new(big.Int).ModInverse(big.NewInt(j), ref.P)
						y.Sub(one, y)
						y.Mod(y, ref.P)
					}
					if y.Sign() < 0 {
						return
					}
					k := ref.ToLE(y)
					if x.Bool("sign") {
						k[31] |= 0x80
					}
					judgePub(x, k)
				}},
				{Name: "bytes", Bounds: "every value of every byte of the key over 4 backgrounds (00, ff, base point, a real key)", Body: func(x *mc.X) {
					bg := x.Choose("background", 4)
					p := x.Choose("pos", 32)
					v := x.Choose("value", 256)
					var k [32]byte
					switch bg {
					case 1:
						copy(k[:], bytes.Repeat([]byte{0xff}, 32))
					case 2:
						k = ref.Base().Encode()
					case 3:
						k = fixKey("c10", "").pub.Key
					}
					k[p] = byte(v)
					judgePub(x, k)
				}},
				{Name: "small-order", Bounds: "all 8 points of small order in all their encodings (both signs, y and y+p), each also plus the base point (large order: converted)", Body: func(x *mc.X) {
					pts := smallOrder()
					e := pts[x.Choose("point", 8)]
					p, _ := ref.Decompress(e[:])
					switch x.Choose("form", 5) {
					case 0:
						judgePub(x, e)
					case 1:
						e[31] ^= 0x80
						judgePub(x, e)
					case 2, 3:
						y := new(big.Int).Add(p.Y, ref.P)
						if y.BitLen() > 255 {
							return
						}
						k := ref.ToLE(y)
						if x.Bool("sign") {
							k[31] |= 0x80
						}
						judgePub(x, k)
					case 4:
						judgePub(x, ref.Add(p, ref.Mul(big.NewInt(int64(1+x.Choose("multiple", 20))), ref.Base())).Encode())
					}
				}},
				{Name: "tags", Bounds: "all 65536 algorithm tags: only Ed converts", Body: func(x *mc.X) {
					tag := x.Choose("tag", 65536)
					p := fixKey("c10", "").pub
					p.Alg = string([]byte{byte(tag >> 8), byte(tag)})
					write(x.Path("c.pub"), ref.File("c", p.Encode()))
					pub, err := signify.LoadPublicKey(x.Path("c.pub"))
					if err == nil {
						_, err = pub.ToBox()
					}
					x.Op("ToBox with tag %q", p.Alg)
					x.State(p.Alg)
					x.Check((err == nil) == (p.Alg == "Ed"), "tag", "conversion with tag %q: %v", p.Alg, err)
				}},
			}
		},
	})
}
