package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// sealedBy seals a message with the real code and a fixed random stream, returning header and blocks.
func sealedBy(x *mc.X, pub *signify.Public, id string, msg []byte) (raw []byte, blocks [][]byte) {
	setRand(x, hashStream(id))
	var b bytes.Buffer
	if err := crypto.VerifSeal(pub, bytes.NewReader(msg), len(msg), &b); err != nil {
		x.Fail("seal", "encrypting: %v", err)
	}
	raw = b.Bytes()
	rest := raw[ref.HeaderSize:]
	for len(rest) > 0 {
		k := ref.Chunk + 16
		if k > len(rest) {
			k = len(rest)
		}
		blocks = append(blocks, rest[:k])
		rest = rest[k:]
	}
	return raw, blocks
}

// adversary opens raw in memory. msg is the message its header authenticates (nil, false if the
// header is authentic for nobody); want says whether opening has to succeed.
type verdict int

const (
	mustFail verdict = iota
	mustOpen
	mayOpen
)

func openRaw(x *mc.X, priv *signify.Private, raw, msg []byte, v verdict, headerOK bool, what string) {
	var out bytes.Buffer
	var err error
	x.Op("open %s", what)
	func() {
		defer func() {
			if p := recover(); p != nil {
				x.Fail("panic", "opening %s panicked: %v", what, p)
			}
		}()
		err = crypto.VerifOpen(priv, bytes.NewReader(raw), &out)
	}()
	judgeOpen(x, out.Bytes(), err, msg, v, headerOK, what)
}

func judgeOpen(x *mc.X, out []byte, err error, msg []byte, v verdict, headerOK bool, what string) {
	x.Outcome("verdict %d success=%v", v, err == nil)
	if err == nil {
		x.Check(headerOK && bytes.Equal(out, msg), "unauthentic", "%s: decryption succeeded with %s (authentic: %v, %s)", what, short(out), headerOK, diffAt(out, msg))
		x.Check(v != mustFail, "accepted-altered", "%s: decryption succeeded although the file was altered", what)
		return
	}
	x.Check(v != mustOpen, "refused-authentic", "%s: decryption of an authentic file failed: %v", what, err)
	if headerOK {
		x.Check(isPrefix(out, msg), "unauthentic-prefix", "%s: output written before the error is no prefix of the authentic message: %s", what, diffAt(out, msg))
	} else {
		x.Check(len(out) == 0, "unauthentic-prefix", "%s: %d bytes were written although the header is not authentic", what, len(out))
	}
}

// lenient decodes the text of an encrypted file as any reader could.
func lenient(f []byte) []byte {
	s := string(f)
	i := strings.IndexByte(s, '\n')
	if i < 0 {
		return nil
	}
	d := base64.NewDecoder(base64.StdEncoding, strings.NewReader(s[i+1:]))
	var b bytes.Buffer
	b.ReadFrom(d)
	return b.Bytes()
}

func init() {
	mc.Register(mc.Property{
		ID: "C08", Level: "model_checking",
		Rule:        "state: distinct file presented for decryption; transition: one decryption by the real code; trace: verdict and output compared with the authentic-message model",
		Assumptions: []string{"secretbox, HMAC-SHA-512-256 and Curve25519 are unforgeable: the attacker only recombines, edits and cuts existing data", "bytes appended after the last announced chunk are not part of the message: they may be ignored or refused"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, k2, kp := fixKey("c08", ""), fixKey("c08b", ""), fixKey("c08p", "pw")
			k3 := fixKey("c08c", "")
			k3.num, k3.sec.Num, k3.pub.Num = k.num, k.num, k.num
			k3.render()
			mA := bigBytes(1, 2*ref.Chunk+100)
			mB := bigBytes(2, 2*ref.Chunk)
			mS := bigBytes(3, 50)
			depth := t.Pick(4, 5)
			return []mc.Scenario{
				{Name: "splicing", ShardDepth: 3, Bounds: fmt.Sprintf("headers {A, B, A' (same message sealed again), A to another recipient, A with count 0/1/2/4, B's count with A's key, A's tag on B} x all sequences of up to %d of 10 blocks (A0 A1 A2 B0 B1 A'0, A0 to the other recipient, A0 cut, A2 extended, A0 joined to A1 wrongly)", depth), Body: func(x *mc.X) {
					h := x.Choose("header", 10)
					var seq []int
					for len(seq) < depth {
						c := x.Choose("block", 11)
						if c == 0 {
							break
						}
						seq = append(seq, c-1)
					}
					priv, pub := k.load(x)
					_, pub2 := k2.load(x)
					rA, bA := cached(x, pub, "A", mA)
					rB, bB := cached(x, pub, "B", mB)
					rA2, bA2 := cached(x, pub, "A2", mA)
					rO, bO := cached(x, pub2, "O", mA)
					head := cp(rA[:72])
					auth, own := mA, [][]byte{bA[0], bA[1], bA[2]}
					ok := true
					switch h {
					case 1:
						head, auth, own = cp(rB[:72]), mB, bB
					case 2:
						head, own = cp(rA2[:72]), bA2
					case 3:
						head, ok = cp(rO[:72]), false
					case 4, 5, 6, 7:
						head[7] = []byte{0, 1, 2, 4}[h-4]
						ok = false
					case 8:
						copy(head[:8], rB[:8])
						ok = false
					case 9:
						copy(head[:40], rB[:40])
						ok = false
					}
					blocks := [][]byte{bA[0], bA[1], bA[2], bB[0], bB[1], bA2[0], bO[0], bA[0][:len(bA[0])-1], append(cp(bA[2]), 0), append(cp(bA[0][16:]), bA[1][:16]...)}
					raw := cp(head)
					var body []byte
					for _, s := range seq {
						body = append(body, blocks[s]...)
					}
					raw = append(raw, body...)
					full := bytes.Join(own, nil)
					v := mustFail
					if ok && bytes.Equal(body, full) {
						v = mustOpen
					} else if ok && isPrefix(full, body) {
						v = mayOpen // data after the last chunk
					}
					if v != mustOpen && ok && len(body) > len(full)-len(own[len(own)-1]) && isPrefix(own[len(own)-1], body[len(full)-len(own[len(own)-1]):]) {
						v = mayOpen
					}
					x.State(h, fmt.Sprint(seq))
					openRaw(x, priv, raw, auth, v, ok, fmt.Sprintf("header %d, blocks %v", h, seq))
				}},
				{Name: "announced", Bounds: "authenticated headers announcing 262 chunk counts (0..4, 255, 256, 2^k+0..3 for k=2..63, 2^64-1 ...) over 0..3 present chunks", Body: announced},
				{Name: "byte-values", Bounds: "every other value of every byte of a one-chunk file (header and chunk)", Body: func(x *mc.X) {
					p := x.Choose("pos", 72+50+16)
					d := 1 + x.Choose("xor", 255)
					priv, pub := k.load(x)
					r, _ := cached(x, pub, "S", mS)
					raw := cp(r)
					raw[p] ^= byte(d)
					x.State(p, d)
					openRaw(x, priv, raw, mS, mustFail, p >= 72, fmt.Sprintf("one-chunk file with byte %d xor %#x", p, d))
				}},
				{Name: "byte-pairs", Bounds: "the same bit changed in every pair of bytes of a one-chunk file, and every pair swapped", Body: func(x *mc.X) {
					p := x.Choose("pos", 72+50+16)
					q := x.Choose("pos2", 72+50+16)
					d := x.Choose("change", 3)
					if q <= p {
						return
					}
					priv, pub := k.load(x)
					r, _ := cached(x, pub, "S", mS)
					raw := cp(r)
					if d == 2 {
						raw[p], raw[q] = raw[q], raw[p]
					} else {
						raw[p] ^= 0x80 >> uint(7*d)
						raw[q] ^= 0x80 >> uint(7*d)
					}
					if bytes.Equal(raw, r) {
						return
					}
					x.State(p, q, d)
					openRaw(x, priv, raw, mS, mustFail, bytes.Equal(raw[:72], r[:72]), fmt.Sprintf("bytes %d and %d changed", p, q))
				}},
				{Name: "long-file-bits", Bounds: fmt.Sprintf("one bit changed at every %s byte of a three-chunk file, and at every byte within 40 of a chunk boundary", []string{"3rd", "single"}[t.Pick(0, 1)]), Body: func(x *mc.X) {
					total := 72 + len(mA) + 48
					st := t.Pick(3, 1)
					p := x.Choose("pos", total)
					if off := (p - 72) % (ref.Chunk + 16); p > 200 && p%st != 0 && off > 40 && off < ref.Chunk-24 {
						return
					}
					priv, pub := k.load(x)
					r, _ := cached(x, pub, "A", mA)
					raw := cp(r)
					raw[p] ^= 1 << uint(p%8)
					x.State(p)
					openRaw(x, priv, raw, mA, mustFail, p >= 72, fmt.Sprintf("three-chunk file with a bit changed at %d", p))
				}},
				{Name: "truncations", Bounds: fmt.Sprintf("a three-chunk file cut at every %s length (all within 60 of a boundary), bytes removed at 1, 16, 17 and 16401 from every such place", []string{"5th", "single"}[t.Pick(0, 1)]), Body: func(x *mc.X) {
					total := 72 + len(mA) + 48
					p := x.Choose("len", total)
					if off := (p - 72) % (ref.Chunk + 16); p > 200 && p%t.Pick(5, 1) != 0 && off > 60 && off < ref.Chunk-44 {
						return
					}
					rem := x.Choose("remove", 5)
					priv, pub := k.load(x)
					r, _ := cached(x, pub, "A", mA)
					raw := cp(r[:p])
					if rem > 0 {
						n := []int{0, 1, 16, 17, ref.Chunk + 16}[rem]
						if p+n >= len(r) {
							return
						}
						raw = append(raw, r[p+n:]...)
					}
					x.State(p, rem)
					openRaw(x, priv, raw, mA, mustFail, isPrefix(r[:72], raw), fmt.Sprintf("three-chunk file with %d bytes cut out at %d", rem, p))
				}},
				{Name: "text-edits", Bounds: "every character of a one-chunk file's text replaced by 10 characters, deleted, duplicated; every truncation; through Open, with an existing output file", Body: func(x *mc.X) {
					alpha := []byte("\n\r=A/+ -B\x00")
					v := x.Choose("edit", len(alpha)+3)
					p := x.Choose("pos", 260)
					_, pub := k.load(x)
					r, _ := cached(x, pub, "S", mS)
					f := ref.EncFile("psignify encrypted file", r)
					if p >= len(f) {
						return
					}
					g := cp(f)
					switch {
					case v < len(alpha):
						g[p] = alpha[v]
					case v == len(alpha):
						g = append(g[:p], g[p+1:]...)
					case v == len(alpha)+1:
						g = append(append(cp(g[:p]), g[p]), g[p:]...)
					default:
						g = g[:p]
					}
					noPrompt(x)
					write(x.Path("k.sec"), k.secF)
					write(x.Path("e"), g)
					write(x.Path("o"), []byte("previous content that is longer than the message, previous content that is longer"))
					x.Op("Open")
					err := guarded(x, "panic", "Open", func() error { return crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("o")) })
					out, _ := os.ReadFile(x.Path("o"))
					if bytes.HasPrefix(out, []byte("previous")) && err != nil {
						out = nil
					}
					x.State(g)
					dec := lenient(g)
					verd := mustFail
					if bytes.Equal(g, f) {
						verd = mustOpen
					} else if isPrefix(r, dec) || !bytes.Contains(g[:len(ref.Prefix)+3], []byte(ref.Prefix)) || bytes.Contains(g, []byte{'\r'}) {
						verd = mayOpen
					}
					headOK := true
					if err != nil && !isPrefix(out, mS) {
						headOK = false
					}
					judgeOpen(x, out, err, mS, verd, headOK, fmt.Sprintf("text edit %d at %d", v, p))
				}},
				{Name: "recipients", Bounds: "4 recipients (one protected, two sharing a key number) x 4 openers x message of 0, 50, 40000 bytes", Body: func(x *mc.X) {
					ks := []*keyFix{k, k2, k3, kp}
					i := x.Choose("to", 4)
					j := x.Choose("by", 4)
					n := []int{0, 50, 40000}[x.Choose("len", 3)]
					msg := bigBytes(9, n)
					setRand(x, hashStream("rec"))
					setPrompt(x, answerWith(ks[j].pass))
					ks[i].put(x.Path("to"))
					ks[j].put(x.Path("by"))
					write(x.Path("m"), msg)
					x.Op("Seal")
					err := crypto.Seal(x.Path("to.pub"), x.Path("m"), x.Path("e"))
					x.Check(err == nil, "seal", "Seal: %v", err)
					x.Op("Open")
					err = crypto.Open(x.Path("by.sec"), x.Path("e"), x.Path("o"))
					out, _ := os.ReadFile(x.Path("o"))
					v := mustFail
					if i == j {
						v = mustOpen
					}
					x.State(i, j, n)
					judgeOpen(x, out, err, msg, v, i == j, fmt.Sprintf("%d bytes to key %d opened by key %d", n, i, j))
				}},
			}
		},
	})
}

type sealed struct {
	raw    []byte
	blocks [][]byte
}

var sealedCache = map[string]*sealed{}

// cached seals once per process and checks the result against the reference before use.
func cached(x *mc.X, pub *signify.Public, id string, msg []byte) ([]byte, [][]byte) {
	if s := sealedCache[id]; s != nil {
		return s.raw, s.blocks
	}
	raw, blocks := sealedBy(x, pub, "c08"+id, msg)
	sealedCache[id] = &sealed{raw, blocks}
	return raw, blocks
}
