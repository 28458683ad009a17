package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// verifyFiles runs the real Verify on given file contents.
func verifyFiles(x *mc.X, pubF, msg, sigF []byte) error {
	write(x.Path("v.pub"), pubF)
	write(x.Path("v.msg"), msg)
	write(x.Path("v.sig"), sigF)
	x.Op("Verify(pub=%s, msg=%s, sig=%s)", short(pubF), short(msg), short(sigF))
	return guarded(x, "panic", fmt.Sprintf("Verify(pub=%s, msg=%s, sig=%s)", short(pubF), short(msg), short(sigF)), func() error {
		return signify.Verify(x.Path("v.pub"), x.Path("v.msg"), x.Path("v.sig"))
	})
}

// decide compares Verify on well-formed files holding the given records with the reference.
func decide(x *mc.X, pubRec, msg, sigRec []byte) {
	err := verifyFiles(x, ref.File("p", pubRec), msg, ref.File("s", sigRec))
	want := ref.Valid(pubRec, msg, sigRec)
	x.State(pubRec, msg, sigRec)
	x.Outcome("accepted=%v", want)
	if want && err != nil {
		x.Fail("refused-valid", "valid signature refused: %v (pub %x sig %x msg %s)", err, pubRec, sigRec, short(msg))
	}
	if !want && err == nil {
		x.Fail("accepted-invalid", "invalid signature accepted (pub %x sig %x msg %s)", pubRec, sigRec, short(msg))
	}
}

// sigEndingZero finds a message whose signature ends in n zero bytes.
func sigEndingZero(k *keyFix, n int) (msg, rec []byte) {
	for i := 0; ; i++ {
		msg = []byte(fmt.Sprintf("message %d", i))
		rec = ref.SignRec(k.seed, k.num, msg)
		if bytes.Equal(rec[74-n:], make([]byte, n)) {
			return msg, rec
		}
	}
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

func init() {
	mc.Register(mc.Property{
		ID: "C02", Level: "model_checking",
		Rule:        "state: distinct (public key record, message, signature record or file) presented; transition: one Verify call of the real code; trace: verdict compared with the reference decision procedure",
		Assumptions: []string{"crypto/ed25519.Verify decides Ed25519 validity", "mutations beyond the enumerated distance behave like enumerated ones"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			special := specialContents()
			a, b := fixKey("c02a", ""), fixKey("c02b", "")
			a2 := fixKey("c02a2", "")
			a2.num, a2.sec.Num, a2.pub.Num = a.num, a.num, a.num // same key number, other key
			a2.render()
			keys := []*keyFix{a, b, a2}
			base := []byte("attack at dawn, 04:15 sharp\nbring 2 ladders\n")
			msgs := [][]byte{base, base[:len(base)-1], {}, {0}, []byte("\n"), append(cp(base), '\n'), bytes.ToUpper(base), append([]byte{'\n'}, base...), big_(9000), append(big_(9000), 1)}
			sigA := ref.SignRec(a.seed, a.num, base)
			zmsg, zsig := sigEndingZero(a, 2)
			ext := [][]byte{{0}, {'E'}, {0xff}}
			med := big_(20000)
			medSig := ref.SignRec(a.seed, a.num, med)
			large := big_(3 << 20)
			largeSig := ref.SignRec(a.seed, a.num, large)
			repl := []byte{'\n', '\r', '=', 'A', '/', '+', '-', ' ', 0, 0xff, 'E', 'u'}
			sigF, pubF := ref.File("verify with a.pub", sigA), a.pubF
			return []mc.Scenario{
				{Name: "cross", ShardDepth: 2, Bounds: "3 signers (two sharing a key number) x 3 verifiers x 10 x 10 messages x key number in the signature {own, verifier's, third}; signatures by the real Sign", Body: func(x *mc.X) {
					m1 := x.Choose("signed", len(msgs))
					m2 := x.Choose("checked", len(msgs))
					s := keys[x.Choose("signer", 3)]
					v := keys[x.Choose("verifier", 3)]
					num := x.Choose("num", 3)
					noPrompt(x)
					s.put(x.Path("s"))
					write(x.Path("m"), msgs[m1])
					x.Op("Sign")
					if err := signify.Sign(x.Path("s.sec"), x.Path("m"), x.Path("o")); err != nil {
						x.Fail("sign", "Sign: %v", err)
					}
					_, rec, err := ref.ParseStrict(read(x, x.Path("o")))
					if err != nil || len(rec) != 74 {
						x.Fail("sign-format", "signature file: %v, %d bytes", err, len(rec))
					}
					if num == 1 {
						copy(rec[2:10], v.num[:])
					} else if num == 2 {
						copy(rec[2:10], b.num[:])
					}
					decide(x, v.pub.Encode(), msgs[m2], rec)
				}},
				{Name: "contents", ShardDepth: 2, Bounds: fmt.Sprintf("signatures of each of %d contents that look like something else or differ in line ends, marks, case or composition, checked against each of them", len(special)), Body: func(x *mc.X) {
					i, j := x.Choose("signed", len(special)), x.Choose("checked", len(special))
					noPrompt(x)
					b := fixKey("special", "")
					b.put(x.Path("k"))
					write(x.Path("m"), special[j])
					write(x.Path("s"), ref.File("untrusted comment: s", ref.SignRec(b.seed, b.num, special[i])))
					x.Op("Verify")
					err := signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("s"))
					x.Check((err == nil) == (i == j), "verdict", "signature of %q, message %q: %v", special[i], special[j], err)
					x.State(i, j)
					x.Outcome("accepted=%v", err == nil)
				}},
				{Name: "signature-bytes", Bounds: "every value of every byte of the 74-byte signature record", Body: func(x *mc.X) {
					r := cp(sigA)
					v := x.Choose("value", 256)
					r[x.Choose("pos", 74)] = byte(v)
					decide(x, a.pub.Encode(), base, r)
				}},
				{Name: "public-key-bytes", Bounds: "every value of every byte of the 42-byte public key record", Body: func(x *mc.X) {
					r := cp(a.pub.Encode())
					v := x.Choose("value", 256)
					r[x.Choose("pos", 42)] = byte(v)
					decide(x, r, base, sigA)
				}},
				{Name: "identity-pairs", Bounds: "all pairs of tag/key-number bytes changed by the same xor, and all swaps, in key or signature", Body: func(x *mc.X) {
					i := x.Choose("i", 10)
					j := x.Choose("j", 10)
					d := x.Choose("xor", 257)
					r, p := cp(sigA), a.pub.Encode()
					tgt := r
					if x.Bool("in-key") {
						tgt = p
					}
					if d == 256 {
						tgt[i], tgt[j] = tgt[j], tgt[i]
					} else {
						tgt[i] ^= byte(d)
						if i != j {
							tgt[j] ^= byte(d)
						}
					}
					decide(x, p, base, r)
				}},
				{Name: "special-fields", ShardDepth: 2, Bounds: "key number of the signature and of the key {own, other, zeros, ones, 1 at either end, text, own with one end zeroed} x signature value {valid, zeros, ones, with R or S zero or one, the key, the message's hash} x key {own, other, zeros, ones, 1} x 3 messages x tags {Ed, zeros, BK, ed}", Body: func(x *mc.X) {
					num := func(l string) (n [8]byte) {
						switch x.Choose(l, 9) {
						case 0:
							n = a.num
						case 1:
							n = b.num
						case 3:
							for i := range n {
								n[i] = 0xff
							}
						case 4:
							n[0] = 1
						case 5:
							n[7] = 1
						case 6:
							copy(n[:], "        ")
						case 7:
							n = a.num
							n[0] = 0
						case 8:
							n = a.num
							n[7] = 0
						}
						return n
					}
					sn, pn := num("number in signature"), num("number in key")
					m := [][]byte{base, {}, {0}}[x.Choose("message", 3)]
					r, p := ref.SignRec(a.seed, a.num, m), a.pub.Encode()
					copy(r[2:], sn[:])
					copy(p[2:], pn[:])
					ones := bytes.Repeat([]byte{0xff}, 64)
					one := append([]byte{1}, make([]byte, 31)...)
					switch x.Choose("signature", 9) {
					case 1:
						copy(r[10:], make([]byte, 64))
					case 2:
						copy(r[10:], ones)
					case 3:
						copy(r[10:42], make([]byte, 32))
					case 4:
						copy(r[42:], make([]byte, 32))
					case 5:
						copy(r[10:42], one)
					case 6:
						copy(r[42:], one)
					case 7:
						copy(r[10:], p[10:])
						copy(r[42:], p[10:])
					case 8:
						h := sha512.Sum512(m)
						copy(r[10:], h[:])
					}
					switch x.Choose("key", 5) {
					case 1:
						copy(p[10:], b.pub.Key[:])
					case 2:
						copy(p[10:], make([]byte, 32))
					case 3:
						copy(p[10:], ones[:32])
					case 4:
						copy(p[10:], one)
					}
					tag := x.Choose("tags", 7)
					tags := []string{"Ed", "\x00\x00", "BK", "ed"}
					if tag > 3 {
						copy(p, tags[tag-3])
						copy(r, tags[tag-3])
					} else {
						copy(r, tags[tag])
					}
					decide(x, p, m, r)
				}},
				{Name: "signature-length", Bounds: "records of every length 0..700, truncated or extended with zeros, tag letters, ones or the record itself again, for a signature with and one without trailing zero bytes", Body: func(x *mc.X) {
					n := x.Choose("len", 701)
					m, r := base, sigA
					if x.Bool("zero-tail") {
						m, r = zmsg, zsig
					}
					e := append(ext, r)[x.Choose("ext", len(ext)+1)]
					r = cp(r)
					if n <= 74 {
						r = r[:n]
					}
					for len(r) < n {
						r = append(r, e...)
					}
					decide(x, a.pub.Encode(), m, r[:n])
				}},
				{Name: "public-key-length", Bounds: "public key records of every length 0..700, truncated or extended with zeros, tag letters, ones or the record itself again", Body: func(x *mc.X) {
					n := x.Choose("len", 701)
					r := a.pub.Encode()
					e := append(ext, cp(r))[x.Choose("ext", len(ext)+1)]
					if n <= 42 {
						r = r[:n]
					}
					for len(r) < n {
						r = append(r, e...)
					}
					decide(x, r[:n], base, sigA)
				}},
				{Name: "message-edits", Bounds: "every one-byte substitution (all 256 values), deletion, insertion (all 256 values), adjacent swap and truncation of the message", Body: func(x *mc.X) {
					v := x.Choose("value", 256)
					kind := x.Choose("kind", 5)
					p := x.Choose("pos", len(base))
					if kind > 0 && kind != 2 && v != 0 {
						return // only substitution and insertion have a value
					}
					m := cp(base)
					switch kind {
					case 0:
						m[p] = byte(v)
					case 1:
						m = append(m[:p], m[p+1:]...)
					case 2:
						m = append(append(cp(base[:p]), byte(v)), base[p:]...)
					case 3:
						q := (p + 1) % len(m)
						m[p], m[q] = m[q], m[p]
					case 4:
						m = m[:p]
					}
					decide(x, a.pub.Encode(), m, sigA)
				}},
				{Name: "long-message-bytes", Bounds: fmt.Sprintf("one flipped bit at every %s byte of a 20000-byte message, every truncation length near powers of two", map[mc.Tier]string{mc.Quick: "2nd", mc.Thorough: "single"}[t]), Body: func(x *mc.X) {
					st := t.Pick(2, 1)
					p := x.Choose("pos", 20000/st) * st
					m := cp(med)
					m[p] ^= 1 << uint(p/st%8)
					decide(x, a.pub.Encode(), m, medSig)
				}},
				{Name: "large-message", Bounds: "3 MiB message: a changed byte at 0, at every 2^k-1, 2^k, 2^k+1, at the end; truncations and extensions there", Body: func(x *mc.X) {
					k := x.Choose("pos", 3*22+2)
					kind := x.Choose("kind", 3)
					p := 0
					if k == 0 {
						p = 0
					} else if k == 1 {
						p = len(large) - 1
					} else {
						p = 1<<uint((k-2)/3) + (k-2)%3 - 1
					}
					if p >= len(large) {
						return
					}
					m := cp(large)
					switch kind {
					case 0:
						m[p] ^= 0x20
					case 1:
						m = m[:p]
					case 2:
						m = append(m, m[:p+1]...)
					}
					decide(x, a.pub.Encode(), m, largeSig)
				}},
				{Name: "huge-message", Hang: 600e9, Bounds: fmt.Sprintf("messages of 2^k+1 bytes for k=22..%d, signed by the real Sign: accepted as they are; refused with the last byte or byte 2^k-1 changed, one byte cut off or one appended", t.Pick(28, 31)), Body: func(x *mc.X) {
					k := uint(t.Pick(28, 31) - x.Choose("size", t.Pick(28, 31)-21))
					n := int64(1)<<k + 1
					noPrompt(x)
					a.put(x.Path("k"))
					f := sparse(x, x.Path("m"), n)
					defer f.Close()
					x.Op("Sign %d bytes", n)
					if err := signify.Sign(x.Path("k.sec"), x.Path("m"), ""); err != nil {
						x.Fail("sign", "Sign of a %d-byte message: %v", n, err)
					}
					check := func(what string, want bool) {
						x.Op("Verify: %s", what)
						err := guarded(x, "panic", what, func() error {
							return signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("m.sig"))
						})
						x.State(int(n), what)
						x.Outcome("accepted=%v", want)
						x.Check(want || err != nil, "accepted-invalid", "signature of a %d-byte message accepted for it with %s", n, what)
						x.Check(!want || err == nil, "refused-valid", "signature of a %d-byte message refused with %s: %v", n, what, err)
					}
					check("nothing changed", true)
					flip := func(at int64) {
						var c [1]byte
						f.ReadAt(c[:], at)
						c[0] ^= 4
						f.WriteAt(c[:], at)
					}
					for _, at := range []int64{n - 1, n - 2} {
						flip(at)
						check(fmt.Sprintf("byte %d changed", at), false)
						flip(at)
					}
					var last [1]byte
					f.ReadAt(last[:], n-1)
					f.Truncate(n - 1)
					check("the last byte cut off", false)
					f.WriteAt(last[:], n-1)
					f.Truncate(n + 1)
					check("a zero byte appended", false)
				}},
				{Name: "malleability", Bounds: "S replaced by S + k*L for k = 1..15; R and A replaced by small-order points with S = 0 and unchanged", Body: func(x *mc.X) {
					k := x.Choose("k", 16+8)
					r, p := cp(sigA), a.pub.Encode()
					if k < 16 {
						s := ref.LE(r[42:74])
						s.Add(s, new(big.Int).Mul(ref.L, big.NewInt(int64(k))))
						if s.BitLen() > 256 {
							return
						}
						b := ref.ToLE(s)
						copy(r[42:], b[:])
					} else {
						pts := smallOrder()
						e := pts[(k-16)%len(pts)]
						switch x.Choose("where", 3) {
						case 0:
							copy(r[10:42], e[:])
						case 1:
							copy(p[10:], e[:])
						case 2:
							copy(r[10:42], e[:])
							copy(p[10:], e[:])
						}
						if x.Bool("S=0") {
							copy(r[42:], make([]byte, 32))
						}
					}
					decide(x, p, base, r)
				}},
				{Name: "beside", ShardDepth: 3, Bounds: fmt.Sprintf("key, message or signature named is not the one that fits (same or other key number), while the one that fits lies at each of %d places around it, with 26 comments in the signature and 8 in the key, by default or named signature, names bare, below the directory or absolute: never accepted", len(besideNames)), Body: func(x *mc.X) {
					wrong := x.Choose("wrong", 3) // key, message, signature
					sc := besideComments[x.Choose("signature comment", len(besideComments))]
					kc := besideComments[x.Choose("key comment", 8)]
					deflt := x.Bool("default signature name")
					form := x.Choose("form", 3)
					same := x.Bool("same key number")
					other := b
					if same {
						other = a2
					}
					noPrompt(x)
					for _, d := range []string{"d", "keys", ".signify", "d/keys", "d/.signify"} {
						mkdir(x.Path(d))
					}
					good := map[int][]byte{0: ref.File(kc, a.pub.Encode()), 1: base, 2: ref.File(sc, ref.SignRec(a.seed, a.num, base))}
					bad := map[int][]byte{0: ref.File(kc, other.pub.Encode()), 1: msgs[2], 2: ref.File(sc, ref.SignRec(other.seed, other.num, base))}
					if kc == sc { // signature of another message by the right key
						bad[2] = ref.File(sc, ref.SignRec(a.seed, a.num, msgs[8]))
					}
					for _, n := range besideNames {
						write(x.Path(n), good[wrong])
					}
					names := map[int]string{0: "d/a.pub", 1: "d/m", 2: "d/s"}
					if deflt {
						names[2] = "d/m.sig"
					}
					for r, n := range names {
						if r == wrong {
							write(x.Path(n), bad[r])
						} else {
							write(x.Path(n), good[r])
						}
					}
					old, _ := os.Getwd()
					home := os.Getenv("HOME")
					os.Setenv("HOME", x.Dir())
					x.Cleanup(func() { os.Chdir(old); os.Setenv("HOME", home) })
					at := func(n string) string {
						switch form {
						case 0:
							return strings.TrimPrefix(n, "d/")
						case 1:
							return n
						}
						return x.Path(n)
					}
					if form == 0 {
						os.Chdir(x.Path("d"))
					} else {
						os.Chdir(x.Dir())
					}
					sn := at(names[2])
					if deflt {
						sn = ""
					}
					x.Op("Verify")
					err := guarded(x, "panic", "Verify", func() error { return signify.Verify(at(names[0]), at(names[1]), sn) })
					x.Check(err != nil, "other-file-used", "%s is not the one that fits, but accepted with one beside it (signature comment %q, key comment %q)", names[wrong], sc, kc)
					x.State(wrong, sc, kc, deflt, form, same)
				}},
				{Name: "file-text", Bounds: "every character of signature and public key file replaced by each of 12 characters, deleted, or duplicated; accepted only if a line of each file holds a valid record", Body: func(x *mc.X) {
					n := len(sigF) + len(pubF)
					p := x.Choose("pos", n)
					v := x.Choose("char", len(repl)+2)
					s, k := cp(sigF), cp(pubF)
					tgt := &s
					if p >= len(s) {
						p -= len(s)
						tgt = &k
					}
					switch {
					case v < len(repl):
						(*tgt)[p] = repl[v]
					case v == len(repl):
						*tgt = append((*tgt)[:p:p], (*tgt)[p+1:]...)
					default:
						*tgt = append(append(cp((*tgt)[:p]), (*tgt)[p]), (*tgt)[p:]...)
					}
					err := verifyFiles(x, k, base, s)
					x.State(k, s)
					x.Outcome("accepted=%v", err == nil)
					if err == nil && !anyValid(k, base, s) {
						x.Fail("accepted-invalid", "accepted though no line holds a valid record: pub %q sig %q", k, s)
					}
				}},
			}
		},
	})
}

// besideNames are places around the files named d/a.pub, d/m and d/s.
var besideNames = func() (l []string) {
	for _, d := range []string{"d/", "", "keys/", ".signify/", "d/keys/", "d/.signify/"} {
		for _, n := range []string{"a", "b", "k", "m", "s", "root", "key", "signify", "b-1"} {
			l = append(l, d+n+".pub")
			if d == "d/" || d == "" {
				for _, e := range []string{"", ".sig", ".enc", ".txt", ".sec", ".pub.old", ".pub~", ".new.pub", ".sig.pub", ".pub.sig"} {
					l = append(l, d+n+e)
				}
			}
		}
	}
	for _, f := range []string{"a.pub", "a.sec", "m", "m.sig", "s", "e", "m.enc"} {
		for _, n := range backupNames(f) {
			l = append(l, "d/"+n)
		}
	}
	return
}()

// besideKind is the kind of file that such a name stands for.
func besideKind(n string) string {
	n = filepath.Base(n)
	at, kind := -1, ""
	for _, e := range []string{".sec", ".pub", ".sig", ".enc"} {
		if i := strings.LastIndex(n, e); i > at {
			at, kind = i, e
		}
	}
	return kind
}

// backupNames are names under which another version of a file may lie beside it.
func backupNames(f string) (l []string) {
	for _, s := range []string{"~", ".bak", ".old", ".orig", ".save", ".tmp", ".new", ".1", ".0", ".swp", ".copy", ".prev", ".good", ".plain", ".lock", "-old", "_", " (copy)"} {
		l = append(l, f+s)
	}
	return append(l, "."+f, "."+f+".swp", "#"+f+"#", f+".d")
}

// besideComments name some of them.
var besideComments = []string{
	"untrusted comment: signify public key", "verify with b.pub", "verify with a.pub", "b.pub", "untrusted comment: verify with b.pub", "verify with ../b.pub", "", "b",
	"verify with keys/b.pub", "verify with d/b.pub", "verify with ./b.pub", "verify with b", "untrusted comment: b.pub", "untrusted comment: verify with b", "verify with key b.pub", "key b",
	"signature of b", "signature of b.txt", "message b", "signed: b", "verify with b.pub\r", "verify with  b.pub", "verify with \"b.pub\"", "Verify with b.pub", "verify with b.sec", "verify with root.pub",
}

func anyValid(pubF, msg, sigF []byte) bool {
	for _, p := range ref.Candidates(pubF) {
		for _, s := range ref.Candidates(sigF) {
			if ref.Valid(p, msg, s) {
				return true
			}
		}
	}
	return false
}

func big_(n int) []byte { return big_id(3, n) }

func big_id(id uint64, n int) []byte { return bigBytes(id, n) }

// smallOrder returns the canonical encodings of the 8 points of order dividing 8.
func smallOrder() [][32]byte {
	if smallOrderPts != nil {
		return smallOrderPts
	}
	// L * (any point) lands in the torsion group; collect until all 8 are found.
	seen := map[[32]byte]bool{}
	for i := 2; len(seen) < 8; i++ {
		e := ref.ToLE(big.NewInt(int64(i)))
		p, ok := ref.Decompress(e[:])
		if !ok {
			continue
		}
		q := ref.Mul(ref.L, p)
		enc := q.Encode()
		if !seen[enc] {
			seen[enc] = true
			smallOrderPts = append(smallOrderPts, enc)
		}
	}
	return smallOrderPts
}

var smallOrderPts [][32]byte
