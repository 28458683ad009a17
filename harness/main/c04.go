package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// Files made by OpenBSD signify (passphrase "passphrase", 42 rounds).
const (
	bsdSec = "untrusted comment: signify secret key\nRWRCSwAAACpFnomBnYYbMPBqJ4Hmu86HU+oKQCYNZrWYzpL7fowE0b/EzvbBpZTqrgyDHYzo7a1pH1/PGQQjxGDidn+L1pjjFd1m93CtLJSrdqapd4xyEHBsepCOLswYmrmxnUCfn3Y=\n"
	bsdPub = "untrusted comment: signify public key\nRWSYzpL7fowE0XcRVKu+HhdJwQi2Ph7MCvtfEg7C/i6/1zO0VZoikJ+c\n"
	bsdMsg = "There must be some kind of way outta here\nSaid the joker to the thief\nThere's too much confusion\nI can't get no relief\nBusiness men, they drink my wine\nPlowman dig my earth\nNone were level on the mind\nNobody up at his word\nHey, hey\nNo reason to get excited\nThe thief he kindly spoke\nThere are many here among us\nWho feel that life is but a joke\nBut, uh, but you and I, we've been through that\nAnd this is not our fate\nSo let us stop talkin' falsely now\nThe hour's getting late, hey\nAll along the watchtower\nPrinces kept the view\nWhile all the women came and went\nBarefoot servants, too\nOutside in the cold distance\nA wildcat did growl\nTwo riders were approaching\nAnd the wind began to howl\n"
	bsdSig = "untrusted comment: verify with test.pub\nRWSYzpL7fowE0eHI5lJTaknYkz2Qr4b+feetgfZalutNPWWlcLRgNaGN8hqnin77Y2V+mJbqtUkoX3eq7NgKlUqd7LrRpHxUDAo=\n"
)

// genFiles generates a key pair with a given random stream and returns the strictly parsed files.
type genPair struct {
	sec        ref.Sec
	pub        ref.Pub
	secC, pubC string
	secF, pubF []byte
}

func generate(x *mc.X, base, pass string, opts *signify.GenerateOptions) genPair {
	r := -1
	if opts != nil {
		r = opts.Rounds
	}
	x.Op("GenerateKey(pass=%q, rounds=%d)", pass, r)
	if err := signify.GenerateKey(base, []byte(pass), opts); err != nil {
		x.Fail("generate", "GenerateKey(pass=%q, rounds=%d): %v", pass, r, err)
	}
	return readPair(x, base)
}

// readPair reads the files of a generated pair.
func readPair(x *mc.X, base string) genPair {
	var g genPair
	g.secF, g.pubF = read(x, base+".sec"), read(x, base+".pub")
	var b []byte
	var err error
	var ok bool
	if g.secC, b, err = ref.ParseStrict(g.secF); err != nil {
		x.Fail("file-format", "secret key file is not a comment line and a base64 line: %v: %q", err, g.secF)
	}
	if g.sec, ok = ref.ParseSec(b); !ok {
		x.Fail("file-format", "secret key record has %d bytes", len(b))
	}
	if g.pubC, b, err = ref.ParseStrict(g.pubF); err != nil {
		x.Fail("file-format", "public key file is not a comment line and a base64 line: %v: %q", err, g.pubF)
	}
	if g.pub, ok = ref.ParsePub(b); !ok {
		x.Fail("file-format", "public key record has %d bytes", len(b))
	}
	return g
}

// conform checks the fields of generated records and returns the seed.
func (g *genPair) conform(x *mc.X, pass string, rounds int) []byte {
	want := uint32(rounds)
	if pass == "" {
		want = 0
	}
	x.Check(g.sec.Alg == "Ed" && g.sec.KDF == "BK", "tags", "secret key tags %q %q", g.sec.Alg, g.sec.KDF)
	x.Check(g.pub.Alg == "Ed", "tags", "public key tag %q", g.pub.Alg)
	x.Check(g.sec.Rounds == want, "rounds", "stored rounds %d, want %d", g.sec.Rounds, want)
	k, ok := g.sec.Unlock([]byte(pass))
	x.Check(ok, "checksum", "an independent implementation cannot open the key: checksum mismatch (pass %q, rounds %d)", pass, g.sec.Rounds)
	x.Check(bytes.Equal(ed25519.NewKeyFromSeed(k[:32]), k), "secret-layout", "secret key is not seed || public key")
	x.Check(bytes.Equal(k[32:], g.pub.Key[:]), "key-mismatch", "public key file holds another key than the secret key file")
	x.Check(g.sec.Num == g.pub.Num, "keynum-mismatch", "key numbers differ: %x %x", g.sec.Num, g.pub.Num)
	return k[:32]
}

func init() {
	mc.Register(mc.Property{
		ID: "C04", Level: "model_checking",
		Rule:        "state: distinct file content written or presented; transition: one GenerateKey, Sign, Verify, LoadPrivateKey or ToBox call; trace: files compared byte by byte with (or made by) the reference encoder",
		Assumptions: []string{"ref.go states the signify format", "crypto/ed25519, SHA-512 and bcrypt_pbkdf are correct", "comments of foreign files are one line of at most 1024 bytes, signify's own limit"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k := fixKey("c04", "")
			msg := []byte("the signed\nmessage\x00")
			rec := ref.SignRec(k.seed, k.num, msg)
			nfam := t.Pick(800, 3000)
			comments := []string{"", " ", "signify secret key", "signify public key", "untrusted comment: ", "untrusted comment: x", "verify with k.pub", "RWQ=", "QUJD", "=", "x\r", "\r", "\t", " lead", "trail ", "\x00", "\xff\xfe", "é", strings.Repeat("c", 1023), "%s%d%n", "# c", "-----BEGIN"}
			return append(c04KDF(t), []mc.Scenario{
				{Name: "openbsd", Bounds: "key pair, message and signature made by OpenBSD's signify: Verify, and Sign gives the same file", Body: func(x *mc.X) {
					write(x.Path("test.sec"), []byte(bsdSec))
					write(x.Path("test.pub"), []byte(bsdPub))
					write(x.Path("m"), []byte(bsdMsg))
					write(x.Path("s"), []byte(bsdSig))
					if x.Bool("sign") {
						setPrompt(x, answerWith("passphrase"))
						x.Op("Sign")
						err := signify.Sign(x.Path("test.sec"), x.Path("m"), x.Path("o"))
						x.Check(err == nil, "openbsd", "Sign: %v", err)
						x.Check(string(read(x, x.Path("o"))) == bsdSig, "openbsd", "signature differs from OpenBSD's: %q", read(x, x.Path("o")))
					} else {
						x.Op("Verify")
						err := signify.Verify(x.Path("test.pub"), x.Path("m"), x.Path("s"))
						x.Check(err == nil, "openbsd", "Verify: %v", err)
					}
					x.State("openbsd")
				}},
				{Name: "generated", Bounds: fmt.Sprintf("%d random-source families x {no passphrase, 1 byte, 200 bytes, NUL bytes} x rounds 1..3 (all) and 5, 16, 42, 256, 300 (one family)", nfam), Body: func(x *mc.X) {
					f := x.Choose("family", nfam)
					pass := []string{"", "p", strings.Repeat("long pass ", 20), "\x00a\x00"}[x.Choose("pass", 4)]
					rounds := 1
					if pass != "" {
						rs := []int{1, 2, 3}
						if f == 700 {
							rs = []int{1, 2, 3, 5, 16, 42, 256, 300}
						} else if f%8 != 0 {
							rs = rs[:1]
						}
						rounds = rs[x.Choose("rounds", len(rs))]
					}
					setRand(x, family(f))
					noPrompt(x)
					g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: rounds})
					g.conform(x, pass, rounds)
					x.State(g.secF, g.pubF)
				}},
				{Name: "generated-default", Bounds: "nil options with and without passphrase: 42 rounds", Body: func(x *mc.X) {
					pass := []string{"", "p"}[x.Choose("pass", 2)]
					setRand(x, hashStream("c04d"))
					g := generate(x, x.Path("k"), pass, nil)
					g.conform(x, pass, 42)
					x.State(g.secF)
				}},
				{Name: "signature-files", Bounds: fmt.Sprintf("message lengths 0..%d x 5 patterns", t.Pick(600, 9000)), Body: func(x *mc.X) {
					n := x.Choose("len", t.Pick(600, 9000)+1)
					m := pattern(x.Choose("pattern", nPatterns), n)
					noPrompt(x)
					k.put(x.Path("name"))
					write(x.Path("m"), m)
					x.Op("Sign")
					if err := signify.Sign(x.Path("name.sec"), x.Path("m"), ""); err != nil {
						x.Fail("sign", "Sign: %v", err)
					}
					got := read(x, x.Path("m.sig"))
					want := ref.File("verify with name.pub", ref.SignRec(k.seed, k.num, m))
					x.State(got)
					x.Check(bytes.Equal(got, want), "signature-file", "signature file %q, want %q", got, want)
				}},
				{Name: "large-signature-files", Hang: 300e9, Bounds: fmt.Sprintf("messages of 2^k-1, 2^k and 2^k+1 bytes for k=10..%d: the plain Ed25519 signature of all of it", t.Pick(26, 29)), Body: func(x *mc.X) {
					top := t.Pick(26, 29)
					i := x.Choose("size", 3*(top-9))
					n := 1<<uint(top-i/3) + i%3 - 1
					noPrompt(x)
					k.put(x.Path("name"))
					f := sparse(x, x.Path("m"), int64(n))
					f.Close()
					x.Op("Sign %d bytes", n)
					if err := signify.Sign(x.Path("name.sec"), x.Path("m"), ""); err != nil {
						x.Fail("sign", "Sign: %v", err)
					}
					got := read(x, x.Path("m.sig"))
					want := ref.File("verify with name.pub", ref.SignRec(k.seed, k.num, read(x, x.Path("m"))))
					x.State(n, got)
					x.Check(bytes.Equal(got, want), "signature-file", "signature file %q of a message of %d bytes, want %q", got, n, want)
				}},
				{Name: "signature-comment", Bounds: "secret key path forms: names with and without .sec, inner .sec, blanks, directories, relative", Body: func(x *mc.X) {
					names := []string{"k.sec", "k", "a b.sec", "k.sec.sec", "k.pub.sec", "k.sec.x", "x.secret", ".sec", "Ü.sec", "a%sb.sec", "sub.sec/k.sec", "sub.sec/plain", "sub.sec/../k.sec", "k.seC", strings.Repeat("n", 200) + ".sec"}
					n := names[x.Choose("name", len(names))]
					noPrompt(x)
					mkdir(x.Path("sub.sec"))
					write(x.Path(".")+"/"+n, k.secF)
					write(x.Path("m"), msg)
					x.Op("Sign with key %q", n)
					if err := signify.Sign(x.Path(".")+"/"+n, x.Path("m"), x.Path("o")); err != nil {
						x.Fail("sign", "Sign: %v", err)
					}
					got := read(x, x.Path("o"))
					want := ref.File("verify with "+strings.TrimSuffix(filepath.Base(n), ".sec")+".pub", rec)
					x.State(got)
					if n == ".sec" {
						// no sensible public key name; only the record matters
						_, r, err := ref.ParseStrict(got)
						x.Check(err == nil && bytes.Equal(r, rec), "signature-file", "signature file %q", got)
						return
					}
					x.Check(bytes.Equal(got, want), "signature-comment", "signature file %q, want %q", got, want)
				}},
				{Name: "foreign-comments", Bounds: "files of another implementation: every comment length 0..1024, every single byte but newline, a list of awkward texts; secret key, public key and signature", Body: func(x *mc.X) {
					i := x.Choose("comment", 1025+255+len(comments))
					var c string
					switch {
					case i <= 1024:
						c = strings.Repeat("c", i)
					case i < 1025+255:
						b := byte(i - 1025)
						if b >= '\n' {
							b++
						}
						c = "a" + string([]byte{b}) + "z"
						if x.Bool("alone") {
							c = string([]byte{b})
						}
					default:
						c = comments[i-1025-255]
					}
					noPrompt(x)
					write(x.Path("k.sec"), ref.File(c, k.sec.Encode()))
					write(x.Path("k.pub"), ref.File(c, k.pub.Encode()))
					write(x.Path("m"), msg)
					write(x.Path("s"), ref.File(c, rec))
					x.State(c)
					x.Op("Sign with comment %q", c)
					if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("o")); err != nil {
						x.Fail("foreign-refused", "secret key with comment %q refused: %v", c, err)
					}
					_, r, err := ref.ParseStrict(read(x, x.Path("o")))
					x.Check(err == nil && bytes.Equal(r, rec), "foreign-signature", "signature by a foreign key with comment %q differs (%v)", c, err)
					x.Op("Verify with comment %q", c)
					if err := signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("s")); err != nil {
						x.Fail("foreign-refused", "foreign signature with comment %q refused: %v", c, err)
					}
				}},
				{Name: "foreign-keys", Bounds: fmt.Sprintf("%d reference keys (seed, number and salt families) x {plain, passphrases x rounds 1,2,3}: Sign, ToBox, Verify", t.Pick(600, 2000)), Body: func(x *mc.X) {
					f := family(x.Choose("family", t.Pick(600, 2000)))
					pass := []string{"", "p", "pass\x00word"}[x.Choose("pass", 3)]
					rounds := 0
					if pass != "" {
						rounds = 1 + x.Choose("rounds", t.Pick(1, 3))
					}
					seed := make([]byte, 32)
					var num [8]byte
					var salt [16]byte
					f.Read(num[:])
					f.Read(salt[:])
					f.Read(seed)
					sec, pub := ref.MakeSec(seed, num, salt, uint32(rounds), []byte(pass)), ref.PubOf(seed, num)
					write(x.Path("k.sec"), ref.File("c", sec.Encode()))
					write(x.Path("k.pub"), ref.File("c", pub.Encode()))
					write(x.Path("m"), msg)
					setPrompt(x, answerWith(pass))
					want := ref.SignRec(seed, num, msg)
					x.State(sec.Encode())
					x.Op("Sign")
					if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("o")); err != nil {
						x.Fail("foreign-refused", "foreign key refused (pass %q rounds %d): %v", pass, rounds, err)
					}
					_, r, err := ref.ParseStrict(read(x, x.Path("o")))
					x.Check(err == nil && bytes.Equal(r, want), "foreign-signature", "signature differs from the reference: %x, want %x", r, want)
					write(x.Path("s"), ref.File("c", want))
					x.Op("Verify")
					if err := signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("s")); err != nil {
						x.Fail("foreign-refused", "reference signature refused: %v", err)
					}
				}},
				{Name: "foreign-rounds", Bounds: fmt.Sprintf("reference keys with every round count 1..%d and 255..257", t.Pick(45, 100)), Body: func(x *mc.X) {
					n := t.Pick(45, 100)
					r := 1 + x.Choose("rounds", n+3)
					if r > n {
						r = 254 + r - n
					}
					sec := ref.MakeSec(k.seed, k.num, [16]byte{1, 2, 3, 4}, uint32(r), []byte("pw"))
					write(x.Path("k.sec"), ref.File("c", sec.Encode()))
					write(x.Path("m"), msg)
					setPrompt(x, answerWith("pw"))
					x.State(r)
					x.Op("Sign with %d rounds", r)
					if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("o")); err != nil {
						x.Fail("foreign-refused", "foreign key with %d rounds refused: %v", r, err)
					}
					_, got, err := ref.ParseStrict(read(x, x.Path("o")))
					x.Check(err == nil && bytes.Equal(got, rec), "foreign-signature", "signature differs with %d rounds", r)
				}},
			}...)
		},
	})
}
