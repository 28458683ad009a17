package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/crypto/curve25519"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// refuse lets every user of a secret key file try it: none may use it.
func refuse(x *mc.X, rec []byte, pass string, seed []byte, what string) {
	write(x.Path("d.sec"), ref.File("signify private key", rec))
	write(x.Path("m"), []byte("message"))
	// a file encrypted to whatever key the damaged seed stands for
	bp := ref.BoxPriv(seed)
	var u, e [32]byte
	curve25519.ScalarBaseMult(&u, &bp)
	e[5] = 8
	write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(&u, &e, []byte("secret plaintext"))))
	p := setPrompt(x, answerWith(pass))
	prompts := func(op string) {
		x.Check(pass != "" || len(p.calls) == 0, "prompted", "%s with %s asked for a passphrase although the key is not protected", op, what)
		p.calls = nil
	}
	x.Op("Sign with %s", what)
	err := signify.Sign(x.Path("d.sec"), x.Path("m"), x.Path("s"))
	x.Check(err != nil, "used", "Sign succeeds with %s", what)
	x.Check(!exists(x.Path("s")), "output", "Sign with %s fails but leaves a signature", what)
	prompts("Sign")
	x.Op("Open with %s", what)
	err = crypto.Open(x.Path("d.sec"), x.Path("e"), x.Path("o"))
	x.Check(err != nil, "used", "Open succeeds with %s", what)
	if exists(x.Path("o")) {
		x.Check(len(read(x, x.Path("o"))) == 0, "output", "Open with %s fails but leaves plaintext", what)
	}
	prompts("Open")
	priv, err := signify.LoadPrivateKey(x.Path("d.sec"))
	if err != nil {
		x.Outcome("not loaded")
		return
	}
	for i := 0; i < 2 && (i == 0 || pass == ""); i++ {
		x.Op("ToBox with %s", what)
		k, err := priv.ToBox()
		x.Check(err != nil && k == nil, "used", "key conversion %d succeeds with %s", i+1, what)
		prompts("key conversion")
	}
	if pass == "" {
		x.Check(priv.Check() != nil, "check", "Check accepts %s", what)
	}
	x.Outcome("refused")
}

// spareNames are places around d.sec where its owner may keep other copies.
func spareNames() []string {
	l := append(backupNames("d.sec"), backupNames("d")...)
	for _, d := range []string{"", "keys/", "backup/", "old/", ".signify/"} {
		for _, n := range []string{"a", "k", "key", "root", "signify", "d1", "d"} {
			if d+n != "d" {
				l = append(l, d+n+".sec")
			}
		}
	}
	return l
}

// sumOf is the checksum of key material.
func sumOf(b []byte) []byte {
	d := sha512.Sum512(b)
	return d[:8]
}

func init() {
	mc.Register(mc.Property{
		ID: "C23", Level: "model_checking",
		Rule:        "state: distinct damaged secret key record; transition: one Sign, Open, key conversion or command run with it; trace: all of them on one record, each result and its outputs checked",
		Assumptions: []string{"the checksum is 64 bits of SHA-512: no enumerated damage collides with it", "the key number and, for an unprotected key, KDF name and salt are not covered by the checksum (signify's format)"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, k2, kp := fixKey("c23", ""), fixKey("c23b", ""), fixKey("c23p", "pw")
			plain := k.sec.Encode()
			prot := kp.sec.Encode()
			const sumAt, keyAt = 24, 40
			seedOf := func(rec []byte) []byte { return rec[keyAt : keyAt+32] }
			// offsets of salt, checksum and key
			var offs []int
			for i := 8; i < 32; i++ {
				offs = append(offs, i)
			}
			for i := keyAt; i < 104; i++ {
				offs = append(offs, i)
			}
			xors := []byte{1, 0x80, 0xff}
			if t == mc.Thorough {
				xors = nil
				for i := 1; i < 256; i += 6 {
					xors = append(xors, byte(i))
				}
				xors = append(xors, 2, 4, 8, 16, 32, 64, 128)
			}
			return append(c23KDF(t), []mc.Scenario{
				{Name: "plain-bytes", ShardDepth: 2, Bounds: "unprotected key: every byte of checksum and key replaced by each of the 255 other values", Body: func(x *mc.X) {
					i := x.Choose("at", 72)
					v := x.Choose("xor", 255) + 1
					at := sumAt + i
					if i >= 8 {
						at = keyAt + i - 8
					}
					rec := append([]byte(nil), plain...)
					rec[at] ^= byte(v)
					x.State(rec)
					refuse(x, rec, "", seedOf(rec), fmt.Sprintf("an unprotected key whose byte %d is damaged (xor %#x)", at, v))
				}},
				{Name: "plain-blocks", Bounds: "unprotected key: every exchange of two key bytes, every run of key or checksum bytes zeroed, key or checksum of another key, halves exchanged, all pairs of checksum bytes changed alike or exchanged, all pairs of a key and a checksum byte changed alike, 10 special checksums with 4 keys, runs of ones, rotated by every amount, public half alone replaced, seed of another key with its right public half", Body: func(x *mc.X) {
					rec := append([]byte(nil), plain...)
					key := rec[keyAt:]
					what := ""
					switch x.Choose("kind", 13) {
					case 0:
						i := x.Choose("i", 64)
						j := x.Choose("j", 64)
						key[i], key[j] = key[j], key[i]
						what = fmt.Sprintf("bytes %d and %d exchanged", i, j)
					case 1:
						i := x.Choose("from", 64)
						j := x.Choose("len", 64-i) + 1
						for l := i; l < i+j; l++ {
							key[l] = 0
						}
						what = fmt.Sprintf("%d bytes from %d zeroed", j, i)
					case 2:
						i := x.Choose("from", 8)
						j := x.Choose("len", 8-i) + 1
						for l := i; l < i+j; l++ {
							rec[sumAt+l] = 0
						}
						what = "checksum bytes zeroed"
					case 3:
						copy(key, k2.sec.Key[:])
						what = "another key's key"
					case 4:
						copy(rec[sumAt:], k2.sec.Sum[:])
						what = "another key's checksum"
					case 5:
						r := x.Choose("by", 63) + 1
						for l := range key {
							key[l] = k.sec.Key[(l+r)%64]
						}
						what = fmt.Sprintf("key rotated by %d", r)
					case 6:
						copy(key[32:], k2.sec.Key[32:])
						what = "another key's public half"
					case 7:
						copy(key[:32], k2.sec.Key[:32])
						what = "another key's seed"
					case 8:
						i := x.Choose("i", 8)
						j := x.Choose("j", 8)
						if d := x.Choose("xor", 257); d == 256 {
							rec[sumAt+i], rec[sumAt+j] = rec[sumAt+j], rec[sumAt+i]
						} else {
							rec[sumAt+i] ^= byte(d)
							if i != j {
								rec[sumAt+j] ^= byte(d)
							}
						}
						what = fmt.Sprintf("checksum bytes %d and %d changed alike", i, j)
					case 9:
						i := x.Choose("key byte", 64)
						j := x.Choose("checksum byte", 8)
						d := []byte{1, 0x55, 0xff}[x.Choose("xor", 3)]
						key[i] ^= d
						rec[sumAt+j] ^= d
						what = fmt.Sprintf("key byte %d and checksum byte %d changed alike", i, j)
					case 10: // a special checksum with a damaged or a special key
						sum := [][]byte{make([]byte, 8), bytes.Repeat([]byte{0xff}, 8), key[:8], key[32:40], rec[32:40], sumOf(key[:32]), sumOf(key[32:]), sumOf(rec[:sumAt]), sumOf(nil), sumOf(k.sec.Key[:])}[x.Choose("checksum", 10)]
						sum = append([]byte(nil), sum...)
						switch x.Choose("key", 4) {
						case 0:
							key[5] ^= 4
						case 1:
							copy(key, make([]byte, 64))
						case 2:
							copy(key, k2.sec.Key[:])
						}
						copy(rec[sumAt:], sum)
						what = "a special checksum"
					case 11:
						i := x.Choose("from", 64)
						j := x.Choose("len", 64-i) + 1
						for l := i; l < i+j; l++ {
							key[l] = 0xff
						}
						what = fmt.Sprintf("%d bytes from %d all ones", j, i)
					case 12:
						i := x.Choose("from", 8)
						j := x.Choose("len", 8-i) + 1
						for l := i; l < i+j; l++ {
							rec[sumAt+l] = 0xff
						}
						what = "checksum bytes all ones"
					}
					x.State(rec)
					if string(rec) == string(plain) {
						x.Outcome("same")
						return
					}
					refuse(x, rec, "", seedOf(rec), "an unprotected key with "+what)
				}},
				{Name: "protected-bytes", ShardDepth: 2, Bounds: fmt.Sprintf("protected key with the right passphrase: every byte of salt, checksum and encrypted key changed by %d xor values", len(xors)), Body: func(x *mc.X) {
					at := offs[x.Choose("at", len(offs))]
					v := xors[x.Choose("xor", len(xors))]
					rec := append([]byte(nil), prot...)
					rec[at] ^= v
					seed := append([]byte(nil), kp.seed...)
					if at >= keyAt && at < keyAt+32 {
						seed[at-keyAt] ^= v
					}
					x.State(rec)
					refuse(x, rec, "pw", seed, fmt.Sprintf("a protected key whose byte %d is damaged (xor %#x)", at, v))
				}},
				{Name: "protected-rounds", Bounds: "protected key with the right passphrase: round counts 1..40 (1 is right), salt or key of another key, unprotected key marked as protected and the reverse", Body: func(x *mc.X) {
					c := x.Choose("case", 44)
					rec := append([]byte(nil), prot...)
					pass, seed := "pw", kp.seed
					what := ""
					switch {
					case c < 39:
						rec[7] = byte(c + 2)
						what = fmt.Sprintf("a protected key with %d rounds instead of 1", c+2)
					case c == 39:
						copy(rec[8:24], k2.sec.Salt[:])
						what = "a protected key with another salt"
					case c == 40:
						copy(rec[keyAt:], k2.sec.Key[:])
						what = "a protected key with another key"
						seed = k2.seed
					case c == 41:
						rec = append([]byte(nil), plain...)
						rec[7] = 1
						what = "an unprotected key marked as protected"
					case c == 42:
						rec[7] = 0
						pass = ""
						seed = rec[keyAt : keyAt+32]
						what = "a protected key marked as unprotected"
					case c == 43:
						copy(rec[keyAt:], kp.seed)
						what = "a protected key with its seed in the clear"
					}
					if c == 41 { // still locked: the key itself passes its checksum, so conversion may take it as unlocked
						write(x.Path("d.sec"), ref.File("signify private key", rec))
						write(x.Path("m"), []byte("message"))
						setPrompt(x, answerWith("pw"))
						err := signify.Sign(x.Path("d.sec"), x.Path("m"), x.Path("s"))
						x.Check(err != nil, "used", "Sign succeeds with %s", what)
						x.State(rec)
						return
					}
					x.State(rec)
					refuse(x, rec, pass, seed, what)
				}},
				{Name: "beside", ShardDepth: 2, Bounds: fmt.Sprintf("the intact key (plain or protected) at each of %d places around the damaged one (backup names, key directories, the user's home), damage in every byte of checksum and key (one xor value)", len(spareNames())), Body: func(x *mc.X) {
					secret, rec, pass, seed := k, append([]byte(nil), plain...), "", k.seed
					from := 24
					if x.Bool("protected") {
						secret, rec, pass, seed = kp, append([]byte(nil), prot...), "pw", kp.seed
						from = 8
					}
					i := from + x.Choose("byte", len(rec)-from)
					if i >= 32 && i < keyAt {
						return
					}
					rec[i] ^= 0x10
					home := os.Getenv("HOME")
					os.Setenv("HOME", x.Dir())
					x.Cleanup(func() { os.Setenv("HOME", home) })
					for _, n := range spareNames() {
						mkdir(filepath.Dir(x.Path(n)))
						write(x.Path(n), secret.secF)
						if strings.HasSuffix(n, ".sec") {
							write(x.Path(strings.TrimSuffix(n, ".sec")+".pub"), secret.pubF)
						}
					}
					write(x.Path("d.pub"), secret.pubF)
					x.State(rec)
					refuse(x, rec, pass, seed, fmt.Sprintf("a key damaged in byte %d, the intact one beside it", i))
				}},
				{Name: "command", ShardDepth: 2, Bounds: "-S and -D with an unprotected key damaged in every byte of checksum and key (one xor value)", Body: func(x *mc.X) {
					i := x.Choose("at", 72)
					at := sumAt + i
					if i >= 8 {
						at = keyAt + i - 8
					}
					rec := append([]byte(nil), plain...)
					rec[at] ^= 0x10
					withUmask(x, 022)
					open777(x.Dir())
					write(x.Path("d.sec"), ref.File("signify private key", rec))
					write(x.Path("m"), []byte("message"))
					bp := ref.BoxPriv(seedOf(rec))
					var u, e [32]byte
					curve25519.ScalarBaseMult(&u, &bp)
					write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(&u, &e, []byte("secret plaintext"))))
					r := cli(x, x.Path("h"), "u", "-S", "-s", "d.sec", "-m", "m", "-x", "s")
					x.Check(r.exit != 0 && !exists(x.Path("s")), "used", "-S with byte %d of the key damaged: exit %d", at, r.exit)
					r = cli(x, x.Path("h"), "u", "-D", "-s", "d.sec", "-c", "e", "-m", "o")
					x.Check(r.exit != 0, "used", "-D with byte %d of the key damaged: exit %d", at, r.exit)
					x.Check(!exists(x.Path("o")) || len(read(x, x.Path("o"))) == 0, "output", "-D with byte %d of the key damaged leaves plaintext", at)
					x.State(rec)
				}},
			}...)
		},
	})
}
