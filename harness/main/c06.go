package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// passKey is a protected key generated by the real code, cached per process.
type passKey struct{ sec, pub, enc []byte }

var passKeys = map[string]*passKey{}

var c06msg = []byte("c06 message")

func protectedKey(x *mc.X, pass string) *passKey {
	if k := passKeys[pass]; k != nil {
		return k
	}
	setRand(x, hashStream("c06"+pass))
	g := generate(x, x.Path("gen"), pass, &signify.GenerateOptions{Rounds: 1})
	g.conform(x, pass, 1)
	u, ok := ref.BoxPub(g.pub.Key[:])
	if !ok {
		x.Fail("generate", "bad public key")
	}
	k := &passKey{g.secF, g.pubF, ref.EncFile("e", ref.SealRaw(&u, &[32]byte{1, 2, 3}, c06msg))}
	passKeys[pass] = k
	return k
}

// attempt runs Sign and Open with a passphrase on a key made with another.
func attempt(x *mc.X, made, tried string) {
	k := protectedKey(x, made)
	write(x.Path("k.sec"), k.sec)
	write(x.Path("k.pub"), k.pub)
	write(x.Path("m"), c06msg)
	write(x.Path("e"), k.enc)
	setPrompt(x, answerWith(tried))
	x.State(made, tried)
	x.Op("Sign with %q for a key made with %q", tried, made)
	err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("s"))
	x.Op("Open with %q for a key made with %q", tried, made)
	operr := crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("o"))
	x.Outcome("right=%v", made == tried)
	if made == tried {
		x.Check(err == nil, "right-refused", "Sign refused the right passphrase %q: %v", made, err)
		x.Check(operr == nil, "right-refused", "Open refused the right passphrase %q: %v", made, operr)
		x.Check(bytes.Equal(read(x, x.Path("o")), c06msg), "wrong-plaintext", "Open gave %q", read(x, x.Path("o")))
		x.Check(signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("s")) == nil, "bad-signature", "signature made with the right passphrase does not verify")
		return
	}
	x.Check(err != nil, "wrong-accepted", "Sign accepted %q for a key made with %q", tried, made)
	x.Check(operr != nil, "wrong-accepted", "Open accepted %q for a key made with %q", tried, made)
	noContent(x, x.Path("s"), "signature")
	noContent(x, x.Path("o"), "plaintext")
}

// noContent: an output of a failed operation must be absent or empty.
func noContent(x *mc.X, path, what string) {
	if b, err := os.ReadFile(path); err == nil && len(b) > 0 {
		x.Fail("output-left", "%s left behind by a failed operation: %s", what, short(b))
	}
}

func allStrings(alpha string, max int) []string {
	out := []string{""}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range last {
			for _, c := range []byte(alpha) {
				next = append(next, p+string([]byte{c}))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// lookalikes are passphrases that careless treatment could confuse.
var lookalikes = []string{"a b", "a\u00a0b", "a\tb", "a\nb", "a\r\nb", "a\rb", "a  b", "a\u3000b", "a\u2003b", "a+b", "a%20b", "a\\ b", "ab", "a\u200bb", "a\u00adb", "a\u200db", "a\x00b", "a\ufeffb", "a\x7fb", "a\bb",
	"AB", "aB", "\uff41\uff42", " ab", "ab ", "ab\n", "ab\r", "ab\r\n", "ab\x00", "ab\x04", "\ufeffab", "'ab'", "\"ab\"", "`ab`", "$ab", "\\ab", "ab;", "#ab", "-ab", "6162", "YWI=", "0x6162",
	"\u00e9", "e\u0301", "\xe9", "e", "\u00c9", "E\u0301", "?", "\ufffd", "\xff", "\xfe", "\xc3", "\xc3\xa9\xc3\xa9", "\u00df", "ss", "\u1e9e", "\ufb01", "fi", "\u0131", "i", "\u0130", "I", "\u017f", "s", "\u212a", "k", "K", "\u00b5", "\u03bc",
	"a-b", "a\u2013b", "a\u2014b", "a\u2011b", "a'b", "a\u2019b", "a\"b", "a\u201db", "a...b", "a\u2026b", "\u0661", "1", "l", "0", "O", "o", "\u043e", "\u0430b", "y", "z", "\U0001f511", "\xed\xa0\xbd\xed\xb4\x91", "a\u0308\u0301", "a\u0301\u0308", "a\u202eb", "\u2028", "\u0085", "\x1b[A", "\x08", "\x15", "\x17"}

func init() {
	mc.Register(mc.Property{
		ID: "C06", Level: "model_checking",
		Rule:        "state: distinct (generation passphrase, attempted passphrases so far); transition: one Sign, Open or ToBox attempt or one generation; trace: verdicts compared with equality of passphrases",
		Assumptions: []string{"bcrypt_pbkdf and SHA-512 have no collision among the enumerated passphrases (a collision would be reported as a violation)"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			max := t.Pick(2, 3)
			strs := allStrings("ab\x00 ", max)
			passes := strs[1:]
			nlong := t.Pick(140, 300)
			return append(c06KDF(t), []mc.Scenario{
				{Name: "pairs", Bounds: fmt.Sprintf("all pairs of passphrases of 1..%d (attempt: 0..%d) bytes over {a, b, NUL, space}", max, max), Body: func(x *mc.X) {
					made := passes[x.Choose("made", len(passes))]
					tried := strs[x.Choose("tried", len(strs))]
					attempt(x, made, tried)
				}},
				{Name: "long", Bounds: fmt.Sprintf("passphrases of every length 1..%d: right, last byte removed, NUL/space/newline/own first byte appended, first/middle/last byte changed, doubled, case changed, empty", nlong), Body: func(x *mc.X) {
					n := 1 + x.Choose("len", nlong)
					b := []byte(strings.Repeat("correct horse battery ", n/22+1)[:n])
					c := cp(b)
					switch x.Choose("edit", 12) {
					case 0:
					case 1:
						c = c[:n-1]
					case 2:
						c = append(c, 0)
					case 3:
						c = append(c, ' ')
					case 4:
						c = append(c, '\n')
					case 5:
						c = append(c, c[0])
					case 6:
						c[0] ^= 0x80
					case 7:
						c[n/2] ^= 1
					case 8:
						c[n-1] ^= 0x20
					case 9:
						c = append(c, b...)
					case 10:
						c = bytes.ToUpper(c)
					case 11:
						c = nil
					}
					attempt(x, string(b), string(c))
				}},
				{Name: "very-long", Bounds: "passphrases of 2^k-1, 2^k and 2^k+1 bytes, k=8..20: right, last byte removed, a byte appended, first/middle/last byte changed, doubled", Body: func(x *mc.X) {
					i := x.Choose("len", 39)
					n := 1<<uint(8+i/3) + i%3 - 1
					b := []byte(strings.Repeat("correct horse battery ", n/22+1)[:n])
					c := cp(b)
					switch x.Choose("edit", 7) {
					case 1:
						c = c[:n-1]
					case 2:
						c = append(c, 'x')
					case 3:
						c[0] ^= 4
					case 4:
						c[n/2] ^= 1
					case 5:
						c[n-1] ^= 2
					case 6:
						c = append(c, b...)
					}
					attempt(x, string(b), string(c))
				}},
				{Name: "lookalikes", ShardDepth: 2, Bounds: fmt.Sprintf("all pairs of %d passphrases that look alike or that some normalisation, encoding or quoting makes equal", len(lookalikes)), Body: func(x *mc.X) {
					attempt(x, lookalikes[x.Choose("made", len(lookalikes))], lookalikes[x.Choose("tried", len(lookalikes))])
				}},
				{Name: "typed", ShardDepth: 2, Bounds: "passphrases typed at a pseudo-terminal for psignify -S and -D: every byte 32..126 and 128..255 in front, behind, in front and behind, alone and doubled; lookalikes without control characters; lengths 1..300, 511..513, 1023..1025, 2047..2049, 3000; the same with a byte dropped in front or behind or changed is refused", Body: func(x *mc.X) {
					var p string
					decrypt := false
					if kind := x.Choose("kind", 7); kind < 5 {
						decrypt = kind%2 == 1
						i := x.Choose("byte", 223)
						c := string([]byte{byte(i + 32)})
						if i >= 95 {
							c = string([]byte{byte(i + 33)})
						}
						p = []string{c + "xy", "xy" + c, c + "xy" + c, c, c + c}[kind]
					} else if kind == 5 {
						p = lookalikes[x.Choose("lookalike", len(lookalikes))]
						for i := 0; i < len(p); i++ {
							if p[i] < 32 || p[i] == 127 {
								x.Outcome("cannot be typed")
								return
							}
						}
					} else {
						n := x.Choose("length", 310) + 1
						if n > 300 {
							n = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000}[n-301]
						}
						p = strings.Repeat("correct horse battery ", n/22+1)[:n]
					}
					typed := p
					right := true
					switch x.Choose("edit", 4) {
					case 1:
						typed, right = p[1:], false
					case 2:
						typed, right = p[:len(p)-1], false
					case 3:
						c := byte('z')
						if p[len(p)/2] == c {
							c = 'y'
						}
						typed, right = p[:len(p)/2]+string([]byte{c})+p[len(p)/2+1:], false
					}
					s := ref.MakeSec(bigBytes(5, 32), [8]byte{1}, [16]byte{2}, 1, []byte(p))
					write(x.Path("k.sec"), ref.File("signify private key", s.Encode()))
					write(x.Path("m"), []byte("message"))
					pub := ref.PubOf(bigBytes(5, 32), [8]byte{1})
					u, _ := ref.BoxPub(pub.Key[:])
					var e [32]byte
					write(x.Path("e"), ref.EncFile("x", ref.SealRaw(&u, &e, []byte("message"))))
					args := []string{"-S", "-s", x.Path("k.sec"), "-m", x.Path("m"), "-x", x.Path("o")}
					if decrypt || len(p) != 2 && len(p) != 3 && x.Bool("decrypt") {
						args = []string{"-D", "-s", x.Path("k.sec"), "-c", x.Path("e"), "-m", x.Path("o")}
					}
					r, _ := onTerminal(x, []string{typed}, false, args...)
					x.Check((r.exit == 0) == right, "typed", "psignify %q, key made with passphrase %q, typed %q: exit %d %s", args[:1], p, typed, r.exit, r.stderr)
					if right && args[0] == "-D" {
						x.Check(string(read(x, x.Path("o"))) == "message", "typed", "decrypted to something else")
					}
					x.State(p, typed, args[0])
				}},
				{Name: "typed-new", ShardDepth: 1, Bounds: "psignify -G at a pseudo-terminal with 40 passphrases with blanks, quotes, bytes above 127 and long ones: the reference opens the key with exactly what was typed", Body: func(x *mc.X) {
					ps := []string{" a", "a ", " a ", "  ", "'a'", "\"a\"", "\\a", "a\\", "A", "\xff", "\x80a", "a\xe9", "\u00e9", "e\u0301", "\u00a0a", "a\u3000", "\ufeffa", "a\u00ad", "%41", "$HOME", "~", "#a", "-n", "a=b", "a:b", "a,b", "<a>", "\U0001f511", "\u00df", "\u0130",
						strings.Repeat("x", 63), strings.Repeat("x", 64), strings.Repeat("x", 65), strings.Repeat("x", 72), strings.Repeat("x", 73), strings.Repeat("x", 128), strings.Repeat("x", 129), strings.Repeat("x", 256), strings.Repeat("x", 500), strings.Repeat("x", 1200)}
					p := ps[x.Choose("passphrase", len(ps))]
					r, _ := onTerminal(x, []string{p, p}, false, "-G", "-p", x.Path("k"))
					x.Check(r.exit == 0, "typed", "psignify -G with %q typed twice: exit %d %s", p, r.exit, r.stderr)
					_, rec, err := ref.ParseStrict(read(x, x.Path("k.sec")))
					x.Check(err == nil, "typed", "secret key file: %v", err)
					s, ok := ref.ParseSec(rec)
					x.Check(ok, "typed", "secret key record")
					x.Check(s.Rounds > 0, "typed", "the key made with %q is not protected", p)
					_, ok = s.Unlock([]byte(p))
					x.Check(ok, "typed", "the key made with %q does not open with it", p)
					x.State(p)
				}},
				{Name: "every-byte", Bounds: "one-byte passphrases: every byte value as generated, tried with itself, its neighbours, its bit 7 and bit 5 variants, doubled and empty", Body: func(x *mc.X) {
					b := byte(x.Choose("byte", 256))
					e := x.Choose("tried", 7)
					tried := []string{string([]byte{b}), string([]byte{b + 1}), string([]byte{b - 1}), string([]byte{b ^ 0x80}), string([]byte{b ^ 0x20}), string([]byte{b, b}), ""}[e]
					attempt(x, string([]byte{b}), tried)
				}},
				{Streams: true, Name: "histories", ShardDepth: 2, Bounds: fmt.Sprintf("all histories of up to %d attempts {right, wrong, other wrong, empty, prompt failure} by {ToBox, decryption} on one loaded key, then a final right attempt", t.Pick(3, 4)), Body: func(x *mc.X) {
					const pass = "right"
					k := protectedKey(x, pass)
					write(x.Path("h.sec"), k.sec)
					priv, err := signify.LoadPrivateKey(x.Path("h.sec"))
					x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
					rec, _ := ref.ParseEnc(k.enc)
					g, _ := ref.ParseSec(func() []byte { _, r, _ := ref.ParseStrict(k.sec); return r }())
					kk, _ := g.Unlock([]byte(pass))
					want := ref.BoxPriv(kk[:32])
					unlocked := false
					n := t.Pick(3, 4)
					hist := ""
					for i := 0; i <= n; i++ {
						a := 0
						if i < n {
							a = x.Choose("answer", 6)
							if a == 5 {
								continue
							}
						}
						ans := []string{pass, "wrong", "rightx", "", ""}[a]
						hist += fmt.Sprint(a)
						setPrompt(x, func(int, bool) ([]byte, error) {
							if a == 4 {
								return nil, errPrompt
							}
							return []byte(ans), nil
						})
						ok := unlocked || a == 0
						if i < n && x.Bool("open") {
							x.Op("open with answer %d", a)
							var out bytes.Buffer
							err := crypto.VerifOpen(priv, bytes.NewReader(rec), &out)
							x.Check((err == nil) == ok, "history", "after attempts %s: decryption error %v, expected success=%v", hist, err, ok)
							if !ok {
								x.Check(out.Len() == 0, "output-left", "plaintext written although the passphrase was wrong")
							} else {
								x.Check(bytes.Equal(out.Bytes(), c06msg), "wrong-plaintext", "after attempts %s: plaintext %q", hist, out.Bytes())
							}
						} else {
							x.Op("ToBox with answer %d", a)
							b, err := priv.ToBox()
							x.Check((err == nil) == ok, "history", "after attempts %s: ToBox error %v, expected success=%v", hist, err, ok)
							if ok {
								x.Check(*b == want, "wrong-key", "after attempts %s: ToBox gave another key", hist)
							}
						}
						unlocked = ok
						x.State(hist, unlocked)
					}
					x.Outcome("attempts=%d", len(hist))
				}},
				{Name: "many-attempts", ShardDepth: 2, Bounds: "1..12, 20, 33, 65, 130 wrong attempts on one loaded key (the same or another passphrase each time), or as many signing operations, then the right one", Body: func(x *mc.X) {
					n := []int{130, 65, 33, 20, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1}[x.Choose("attempts", 16)]
					same, files := x.Bool("same"), x.Bool("files")
					const pass = "right"
					k := protectedKey(x, pass)
					write(x.Path("h.sec"), k.sec)
					write(x.Path("m"), c06msg)
					priv, err := signify.LoadPrivateKey(x.Path("h.sec"))
					x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
					try := func(answer string) error {
						setPrompt(x, answerWith(answer))
						if files {
							x.Op("Sign with %q", answer)
							return signify.Sign(x.Path("h.sec"), x.Path("m"), x.Path("s"))
						}
						x.Op("ToBox with %q", answer)
						_, err := priv.ToBox()
						return err
					}
					for i := 0; i < n; i++ {
						w := "wrong"
						if !same {
							w = fmt.Sprintf("wrong%d", i)
						}
						x.Check(try(w) != nil, "wrong-accepted", "wrong attempt %d succeeded", i+1)
					}
					err = try(pass)
					x.Check(err == nil, "right-refused", "after %d wrong attempts the right passphrase is refused: %v", n, err)
					x.State(n, same, files)
				}},
				{Name: "not-in-the-clear", Bounds: fmt.Sprintf("%d random-source families x 3 passphrases x rounds 1..3 (first 40): no 8 aligned bytes of the secret are stored in the clear", t.Pick(800, 1600)), Body: func(x *mc.X) {
					f := x.Choose("family", t.Pick(800, 1600))
					pass := []string{"p", "\x00", strings.Repeat("z", 100)}[x.Choose("pass", t.Pick(1, 3))]
					rounds := 1
					if f%20 == 0 {
						rounds += x.Choose("rounds", 3)
					}
					setRand(x, family(f))
					g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: rounds})
					seed := g.conform(x, pass, rounds)
					k, _ := g.sec.Unlock([]byte(pass))
					for i := 0; i+8 <= 64; i += 4 {
						x.Check(!bytes.Equal(g.sec.Key[i:i+8], k[i:i+8]), "clear-secret", "bytes %d..%d of the secret key are stored in the clear", i, i+8)
					}
					_ = seed
					x.State(g.sec.Encode())
				}},
				{Name: "rounds", Bounds: "round counts -2^63, -2^32, -43, -1, 0, 1, 2, 3, 7, 2^32-0 .. 2^32+42, 2^33, 2^62, 2^63-1 with and without passphrase", Body: func(x *mc.X) {
					rs := []int{math.MinInt64, -1 << 32, -1<<32 + 1, -43, -1, 0, 1, 2, 3, 7, 1 << 32, 1<<32 + 1, 1<<32 + 42, 1 << 33, 1<<33 + 1, 1 << 62, math.MaxInt64 - 1<<32 + 2, math.MaxInt64}
					r := rs[x.Choose("rounds", len(rs))]
					pass := []string{"p", ""}[x.Choose("pass", 2)]
					setRand(x, hashStream("rounds"))
					x.Op("GenerateKey rounds=%d", r)
					err := signify.GenerateKey(x.Path("k"), []byte(pass), &signify.GenerateOptions{Rounds: r})
					x.State(fmt.Sprint(r), pass)
					valid := r >= 1 && int64(r) <= math.MaxUint32
					if pass != "" && !valid {
						x.Check(err != nil, "bad-rounds", "protected key generated with %d rounds", r)
						x.Check(!exists(x.Path("k.sec")) && !exists(x.Path("k.pub")), "bad-rounds", "files written although %d rounds were refused", r)
						return
					}
					if pass == "" && !valid {
						return // rounds have no meaning without a passphrase
					}
					x.Check(err == nil, "rounds-refused", "GenerateKey with %d rounds: %v", r, err)
					setPrompt(x, answerWith(pass))
					write(x.Path("m"), c06msg)
					err = signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("s"))
					x.Check(err == nil, "rounds-refused", "Sign with a key of %d rounds: %v", r, err)
				}},
			}...)
		},
	})
}
