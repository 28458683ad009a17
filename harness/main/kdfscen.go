package main

// Scenarios that run the code under test with a fast function in place of bcrypt_pbkdf (see
// tools/kdf.py): it takes the same arguments, refuses the same ones, and depends on all of them, so
// that spaces can be enumerated that the real derivation, at 11 ms a round, puts out of reach.

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
	"golang.org/x/crypto/curve25519"
)

// roundCounts are 2^k-1, 2^k, 2^k+1 and a few more between, up to what the format holds.
func roundCounts() []int {
	seen := map[int]bool{}
	var r []int
	add := func(n int) {
		if n >= 1 && n <= 1<<32-1 && !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	for k := uint(0); k <= 32; k++ {
		for _, d := range []int{-43, -2, -1, 0, 1, 2, 42, 43} {
			add(1<<k + d)
		}
		for j := uint(0); j < k; j++ {
			add(1<<k + 1<<j)
		}
	}
	for _, n := range []int{1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 4000000000, 0x01020304, 0x04030201, 0xdeadbeef, 0x7f7f7f7f, 0x80808080} {
		add(n)
	}
	return r
}

// fastFix is fixKey for the fast derivation, with a salt and a number of rounds.
func fastFix(name, pass string, rounds uint32, salt [16]byte) *keyFix {
	k := fixKey(name, "")
	k.pass = pass
	k.sec = ref.MakeSec(k.seed, k.num, salt, rounds, []byte(pass))
	k.render()
	return k
}

func c04KDF(t mc.Tier) []mc.Scenario {
	rcs := roundCounts()
	const block = 256
	nb := t.Pick(160, 2048)
	return []mc.Scenario{
		{Name: "fast-rounds", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: every round count 1..%d and %d counts around and between the powers of two up to 2^32-1: generated keys as the reference makes them, the reference's keys sign and convert alike", nb*block, len(rcs)), Body: func(x *mc.X) {
			fastKDF(x)
			b := x.Choose("block", nb+1)
			var rs []int
			if b == 0 {
				rs = rcs
			} else {
				for i := 0; i < block; i++ {
					rs = append(rs, (b-1)*block+i+1)
				}
			}
			msg := []byte("rounds")
			write(x.Path("m"), msg)
			for _, r := range rs {
				setRand(x, hashStream("fr"))
				g := generate(x, x.Path("g"), "pass", &signify.GenerateOptions{Rounds: r})
				g.conform(x, "pass", r)
				k := fastFix("fr", "pass", uint32(r), [16]byte{1, byte(r), byte(r >> 8)})
				write(x.Path("k.sec"), k.secF)
				p := setPrompt(x, answerWith("pass"))
				x.Op("Sign with %d rounds", r)
				if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("s")); err != nil {
					x.Fail("foreign-refused", "foreign key with %d rounds refused: %v", r, err)
				}
				_, rec, err := ref.ParseStrict(read(x, x.Path("s")))
				x.Check(err == nil && bytes.Equal(rec, ref.SignRec(k.seed, k.num, msg)), "foreign-signature", "signature differs with %d rounds", r)
				priv, err := signify.LoadPrivateKey(x.Path("k.sec"))
				x.Check(err == nil, "foreign-refused", "foreign key with %d rounds does not load: %v", r, err)
				x.Check(priv.IsEncrypted(), "foreign-refused", "a key of %d rounds counts as unprotected", r)
				box, err := priv.ToBox()
				x.Check(err == nil && *box == *k.boxPriv(), "foreign-tobox", "foreign key with %d rounds: ToBox %v", r, err)
				x.Check(len(p.calls) == 2, "foreign-refused", "%d prompts with %d rounds", len(p.calls), r)
				x.State(r)
			}
		}},
		{Name: "fast-foreign", FastKDF: true, ShardDepth: 2, Bounds: fmt.Sprintf("with the fast derivation: protected reference keys, %d seeds x every value of every byte of salt and key number, and passphrases of every one and two bytes: Sign, ToBox", t.Pick(2, 6)), Body: func(x *mc.X) {
			fastKDF(x)
			s := x.Choose("seed", t.Pick(2, 6))
			what := x.Choose("what", 24+256)
			msg := []byte("foreign")
			write(x.Path("m"), msg)
			for v := 0; v < 256; v++ {
				salt, pass := [16]byte{7, 1}, "pw"
				k := fixKey(fmt.Sprint("ff", s), "")
				switch {
				case what < 16:
					salt[what] = byte(v)
				case what < 24:
					k.num[what-16] = byte(v)
				case v == 0:
					pass = string([]byte{byte(what - 24)})
				default:
					pass = string([]byte{byte(what - 24), byte(v)})
				}
				k.sec = ref.MakeSec(k.seed, k.num, salt, uint32(1+v), []byte(pass))
				k.render()
				write(x.Path("k.sec"), k.secF)
				setPrompt(x, answerWith(pass))
				x.Op("Sign")
				if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("s")); err != nil {
					x.Fail("foreign-refused", "foreign key refused (salt %x, number %x, passphrase %q, rounds %d): %v", salt, k.num, pass, 1+v, err)
				}
				_, rec, err := ref.ParseStrict(read(x, x.Path("s")))
				x.Check(err == nil && bytes.Equal(rec, ref.SignRec(k.seed, k.num, msg)), "foreign-signature", "signature differs (salt %x, number %x, passphrase %q)", salt, k.num, pass)
				priv, err := signify.LoadPrivateKey(x.Path("k.sec"))
				x.Check(err == nil, "foreign-refused", "foreign key does not load: %v", err)
				box, err := priv.ToBox()
				x.Check(err == nil && *box == *k.boxPriv(), "foreign-tobox", "ToBox (salt %x, number %x, passphrase %q): %v", salt, k.num, pass, err)
				x.State(s, what, v)
			}
		}},
	}
}

var fastPassKeys = map[string]*passKey{}

func fastAttempts(x *mc.X) {
	fastKDF(x)
	old := passKeys
	passKeys = fastPassKeys
	x.Cleanup(func() { passKeys = old })
}

func c06KDF(t mc.Tier) []mc.Scenario {
	// every passphrase of one byte, of two of some, and lookalikes
	var made []string
	for i := 0; i < 256; i++ {
		made = append(made, string([]byte{byte(i)}))
	}
	two := "ab\x00 \n\r\x80\xffAZ"
	if t == mc.Thorough {
		two += "0~\t\x7f\xc3\xa9'\"\\%"
	}
	for _, a := range []byte(two) {
		for _, b := range []byte(two) {
			made = append(made, string([]byte{a, b}))
		}
	}
	made = append(made, lookalikes...)
	nlong := t.Pick(4200, 20000)
	strs := allStrings("ab\x00 \n\xff", t.Pick(3, 4))
	hist := t.Pick(4, 5)
	counts := []int{1, 2, 3, 5, 127, 128, 129, 254, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65534, 65535, 65536, 65537}
	if t == mc.Thorough {
		counts = append(counts, 1<<20-1, 1<<20, 1<<20+1)
	}
	return []mc.Scenario{
		{Name: "fast-all-short", FastKDF: true, Bounds: fmt.Sprintf("with the fast derivation: keys with each of %d passphrases (all of one byte, two of %d bytes, lookalikes) tried by ToBox with every string of 0, 1 and 2 bytes, in order and on the same loaded key, then with the right one", len(made), len(two)), Body: func(x *mc.X) {
			fastAttempts(x)
			pass := made[x.Choose("made", len(made))]
			k := protectedKey(x, pass)
			write(x.Path("k.sec"), k.sec)
			priv, err := signify.LoadPrivateKey(x.Path("k.sec"))
			x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
			try := make([]byte, 0, 2)
			buf := make([]byte, 2)
			setPrompt(x, func(int, bool) ([]byte, error) { return append(buf[:0], try...), nil })
			one := func() {
				if string(try) == pass {
					return
				}
				_, err := priv.ToBox()
				x.Check(err != nil, "wrong-accepted", "ToBox accepted %q for a key made with %q", try, pass)
			}
			one()
			for a := 0; a < 256; a++ {
				try = append(try[:0], byte(a))
				one()
				for b := 0; b < 256; b++ {
					try = append(try[:0], byte(a), byte(b))
					one()
				}
				x.State(pass, a)
			}
			x.Op("65793 attempts")
			setPrompt(x, answerWith(pass))
			_, err = priv.ToBox()
			x.Check(err == nil, "right-refused", "after 65792 wrong attempts the right passphrase %q is refused: %v", pass, err)
		}},
		{Name: "fast-pairs", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: all pairs of %d passphrases of up to %d bytes over {a, b, NUL, blank, newline, 0xff}: Sign and Open", len(strs), t.Pick(3, 4)), Body: func(x *mc.X) {
			fastAttempts(x)
			m := strs[1+x.Choose("made", len(strs)-1)]
			attempt(x, m, strs[x.Choose("tried", len(strs))])
		}},
		{Name: "fast-long", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: passphrases of every length 1..%d: right, a byte removed, changed or exchanged with its neighbour at front, middle, end and around 64, 72, 128, 256, 512, 1024 and 4096, bytes appended, halves", nlong), Body: func(x *mc.X) {
			fastAttempts(x)
			n := 1 + x.Choose("len", nlong)
			b := bigBytes(7, n+16)[:n]
			for i := range b {
				if b[i] == 0 {
					b[i] = 1
				}
			}
			pass := string(b)
			k := protectedKey(x, pass)
			delete(passKeys, pass)
			write(x.Path("k.sec"), k.sec)
			priv, err := signify.LoadPrivateKey(x.Path("k.sec"))
			x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
			var tries []string
			for _, p := range []int{0, n / 2, n - 1, 55, 56, 63, 64, 71, 72, 73, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096} {
				if p >= n {
					continue
				}
				c := cp(b)
				c[p] ^= 1
				tries = append(tries, string(c), pass[:p], pass[:p]+pass[p+1:], pass[p:], pass[:p]+"\x00"+pass[p:], pass[:p]+pass[p:p+1]+pass[p:])
				if p+1 < n {
					c = cp(b)
					c[p], c[p+1] = c[p+1], c[p]
					tries = append(tries, string(c))
				}
			}
			for _, e := range []string{"\x00", "\n", "\r", " ", "x", pass} {
				tries = append(tries, pass+e, e+pass)
			}
			for _, c := range tries {
				if c == pass {
					continue
				}
				setPrompt(x, answerWith(c))
				_, err := priv.ToBox()
				x.Check(err != nil, "wrong-accepted", "ToBox accepted %s (%d bytes) for a key made with %s (%d bytes)", short([]byte(c)), len(c), short(b), n)
			}
			x.Op("%d attempts", len(tries))
			setPrompt(x, answerWith(pass))
			_, err = priv.ToBox()
			x.Check(err == nil, "right-refused", "the right passphrase of %d bytes is refused: %v", n, err)
			x.State(n)
			if n%16 == 1 {
				attempt(x, pass, pass[:n-1]+"~")
				attempt(x, pass, pass)
				delete(passKeys, pass)
			}
		}},
		{Name: "fast-histories", FastKDF: true, Streams: true, ShardDepth: 3, Bounds: fmt.Sprintf("with the fast derivation: all histories of %d attempts {right, wrong, prefix, longer, empty, prompt failure, last wrong one again} by {ToBox, decryption, decryption of a tampered message} on one loaded key, then a final right attempt", hist), Body: func(x *mc.X) {
			fastAttempts(x)
			const pass = "right"
			k := protectedKey(x, pass)
			write(x.Path("h.sec"), k.sec)
			priv, err := signify.LoadPrivateKey(x.Path("h.sec"))
			x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
			rec, _ := ref.ParseEnc(k.enc)
			bad := cp(rec)
			bad[len(bad)-1] ^= 1
			s, _ := ref.ParseSec(func() []byte { _, r, _ := ref.ParseStrict(k.sec); return r }())
			kk, _ := s.Unlock([]byte(pass))
			want := ref.BoxPriv(kk[:32])
			unlocked := false
			h := ""
			wrong := 0
			for i := 0; i <= hist; i++ {
				a, op := 0, 0
				if i < hist {
					a, op = x.Choose("answer", 7), x.Choose("by", 3)
				}
				var give []byte
				switch a {
				case 0:
					give = []byte(pass)
				case 1:
					wrong++
					give = []byte(fmt.Sprint("wrong", wrong))
				case 2:
					give = []byte(pass[:4])
				case 3:
					give = []byte(pass + "\x00")
				case 4:
					give = []byte{}
				case 6:
					give = []byte(fmt.Sprint("wrong", wrong))
				}
				setPrompt(x, func(int, bool) ([]byte, error) {
					if a == 5 {
						return nil, errPrompt
					}
					return give, nil
				})
				unlocked = unlocked || a == 0
				h += fmt.Sprint(a, op, " ")
				switch op {
				case 0:
					b, err := priv.ToBox()
					x.Check((err == nil) == unlocked, "history", "after attempts %s: ToBox error %v, expected success=%v", h, err, unlocked)
					x.Check(!unlocked || *b == want, "wrong-key", "after attempts %s: ToBox gave another key", h)
				case 1:
					var out bytes.Buffer
					err := crypto.VerifOpen(priv, bytes.NewReader(rec), &out)
					x.Check((err == nil) == unlocked, "history", "after attempts %s: decryption error %v, expected success=%v", h, err, unlocked)
					x.Check(unlocked && bytes.Equal(out.Bytes(), c06msg) || !unlocked && out.Len() == 0, "wrong-plaintext", "after attempts %s: plaintext %q", h, out.Bytes())
				case 2:
					var out bytes.Buffer
					err := crypto.VerifOpen(priv, bytes.NewReader(bad), &out)
					x.Check(err != nil && out.Len() == 0, "history", "after attempts %s: a tampered message decrypts: %v", h, err)
				}
			}
			x.Op("%d attempts", hist+1)
			x.State(h)
		}},
		{Name: "fast-many-attempts", FastKDF: true, ShardDepth: 3, Bounds: fmt.Sprintf("with the fast derivation: %d numbers of wrong attempts up to %d on one loaded key, or as many signing or decrypting operations (to 10000), always the same wrong passphrase or each another, then the right one", len(counts), counts[len(counts)-1]), Body: func(x *mc.X) {
			fastAttempts(x)
			n := counts[len(counts)-1-x.Choose("attempts", len(counts))]
			same, by := x.Bool("same"), x.Choose("by", 3)
			if by > 0 && n > 10000 {
				return
			}
			const pass = "right"
			k := protectedKey(x, pass)
			write(x.Path("h.sec"), k.sec)
			write(x.Path("m"), c06msg)
			write(x.Path("e"), k.enc)
			priv, err := signify.LoadPrivateKey(x.Path("h.sec"))
			x.Check(err == nil, "load", "LoadPrivateKey: %v", err)
			var answer []byte
			p := setPrompt(x, func(int, bool) ([]byte, error) { return cp(answer), nil })
			try := func(a string) error {
				answer = []byte(a)
				p.calls = nil
				switch by {
				case 1:
					return signify.Sign(x.Path("h.sec"), x.Path("m"), x.Path("s"))
				case 2:
					return crypto.Open(x.Path("h.sec"), x.Path("e"), x.Path("o"))
				}
				_, err := priv.ToBox()
				return err
			}
			w := "wrong"
			for i := 0; i < n; i++ {
				if !same {
					w = fmt.Sprintf("wrong%d", i)
				}
				x.Check(try(w) != nil, "wrong-accepted", "wrong attempt %d succeeded", i+1)
			}
			x.Op("%d attempts", n+1)
			err = try(pass)
			x.Check(err == nil, "right-refused", "after %d wrong attempts the right passphrase is refused: %v", n, err)
			x.State(n, same, by)
		}},
	}
}

func c23KDF(t mc.Tier) []mc.Scenario {
	const sumAt, keyAt = 24, 40
	rcs := roundCounts()
	fix := func() *keyFix {
		return fastFix("c23f", "pw", 3, [16]byte{9, 8, 7, 6, 5, 4, 3, 2, 1, 0xff, 0xfe, 1, 2, 3, 4, 5})
	}
	var offs []int // salt, checksum and key
	for i := 8; i < 104; i++ {
		if i < 32 || i >= keyAt {
			offs = append(offs, i)
		}
	}
	seedFor := func(k *keyFix, rec []byte) []byte { // the seed that a user without the check would get
		s, _ := ref.ParseSec(rec)
		if kk, ok := s.Unlock([]byte("pw")); ok || kk != nil {
			return kk[:32]
		}
		return k.seed
	}
	pairXors := []byte{1, 0x80, 0xff}
	return []mc.Scenario{
		{Name: "fast-protected-bytes", FastKDF: true, ShardDepth: 1, Bounds: "with the fast derivation: protected key with the right passphrase, every byte of rounds, salt, checksum and encrypted key replaced by each of the 255 other values", Body: func(x *mc.X) {
			fastKDF(x)
			k := fix()
			at := 4 + x.Choose("at", 100)
			if at >= 32 && at < keyAt {
				return // the key number is not covered
			}
			v := x.Choose("xor", 255) + 1
			rec := k.sec.Encode()
			rec[at] ^= byte(v)
			x.State(rec)
			if rec[4]|rec[5]|rec[6]|rec[7] == 0 {
				return
			}
			refuse(x, rec, "pw", seedFor(k, rec), fmt.Sprintf("a protected key whose byte %d is damaged (xor %#x)", at, v))
		}},
		{Name: "fast-protected-pairs", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: protected key with the right passphrase, every pair of bytes of salt, checksum and encrypted key exchanged or changed by the same of %d values", len(pairXors)), Body: func(x *mc.X) {
			fastKDF(x)
			k := fix()
			i := x.Choose("i", len(offs))
			j := i + 1 + x.Choose("distance", len(offs))
			if j >= len(offs) {
				return
			}
			v := x.Choose("xor", len(pairXors)+1)
			rec := k.sec.Encode()
			if v < len(pairXors) {
				rec[offs[i]] ^= pairXors[v]
				rec[offs[j]] ^= pairXors[v]
			} else {
				rec[offs[i]], rec[offs[j]] = rec[offs[j]], rec[offs[i]]
			}
			if bytes.Equal(rec, k.sec.Encode()) {
				return
			}
			x.State(rec)
			refuse(x, rec, "pw", seedFor(k, rec), fmt.Sprintf("a protected key whose bytes %d and %d are damaged", offs[i], offs[j]))
		}},
		{Name: "fast-protected-blocks", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: protected key with the right passphrase, every run of bytes of salt, checksum and key zeroed, set to ones, inverted or taken from another key; every rotation of the key; %d other round counts; 10 special checksums", len(rcs)), Body: func(x *mc.X) {
			fastKDF(x)
			k := fix()
			o := fastFix("c23g", "pw", 3, [16]byte{1})
			rec := k.sec.Encode()
			what := ""
			switch kind := x.Choose("kind", 7); kind {
			case 0, 1, 2, 3:
				i := x.Choose("from", len(offs))
				n := 1 + x.Choose("len", len(offs))
				if i+n > len(offs) {
					return
				}
				for _, p := range offs[i : i+n] {
					rec[p] = []byte{0, 0xff, ^rec[p], o.sec.Encode()[p]}[kind]
				}
				what = fmt.Sprintf("%d bytes from %d %s", n, offs[i], []string{"zeroed", "all ones", "inverted", "of another key"}[kind])
				if kind == 3 && n == len(offs) {
					return // that is the other key, with another number
				}
			case 4:
				r := 1 + x.Choose("by", 63)
				for l := 0; l < 64; l++ {
					rec[keyAt+l] = k.sec.Key[(l+r)%64]
				}
				what = fmt.Sprintf("key rotated by %d", r)
			case 5:
				r := rcs[x.Choose("rounds", len(rcs))]
				rec[4], rec[5], rec[6], rec[7] = byte(r>>24), byte(r>>16), byte(r>>8), byte(r)
				what = fmt.Sprintf("%d rounds instead of 3", r)
			case 6:
				plain := []byte(ed25519.NewKeyFromSeed(k.seed))
				sums := [][]byte{make([]byte, 8), bytes.Repeat([]byte{0xff}, 8), rec[keyAt : keyAt+8], rec[32:40], sumOf(rec[keyAt:]), sumOf(plain[:32]), sumOf(plain[32:]), sumOf(nil), sumOf([]byte("pw")), sumOf(rec[8:24])}
				copy(rec[sumAt:], append([]byte(nil), sums[x.Choose("checksum", len(sums))]...))
				what = "a special checksum"
			}
			if bytes.Equal(rec, k.sec.Encode()) {
				return
			}
			x.State(rec)
			if what == "a special checksum" && bytes.Equal(rec[sumAt:32], sumOf(rec[keyAt:])) {
				// the encrypted key passes as it stands: signing still derives, and must refuse
				write(x.Path("d.sec"), ref.File("signify private key", rec))
				write(x.Path("m"), []byte("message"))
				setPrompt(x, answerWith("pw"))
				err := signify.Sign(x.Path("d.sec"), x.Path("m"), x.Path("s"))
				x.Check(err != nil && !exists(x.Path("s")), "used", "Sign succeeds with a key whose checksum is that of its encrypted form")
				return
			}
			refuse(x, rec, "pw", seedFor(k, rec), "a protected key with "+what)
		}},
	}
}

func c21KDF(t mc.Tier) []mc.Scenario {
	n := t.Pick(4200, 20000)
	msg := []byte("c21 message")
	return []mc.Scenario{
		{Name: "fast-passphrases", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: passphrases of every length 1..%d and of 2^k-1, 2^k, 2^k+1 bytes to 2^20, without NUL bytes, with some or only of them, in a buffer with room behind it or without, right, wrong in the last byte, one byte short or one byte long, to signing, decrypting and converting: asked once, wiped throughout", n), Body: func(x *mc.X) {
			fastKDF(x)
			i := x.Choose("length", n+3*8)
			l := i + 1
			if i >= n {
				l = 1<<uint(13+(i-n)/3) + (i-n)%3 - 1
			}
			p := bigBytes(uint64(l), l+16)[:l]
			for j := range p {
				switch { // zero bytes, early and late ones, or none
				case l%4 == 0 && (j*7+l/4)%5 == 0, l%8 == 7 && j >= l/2, l%8 == 3 && j == l-1, l%64 == 33:
					p[j] = 0
				case p[j] == 0:
					p[j] = '0'
				}
			}
			k := fastFix("c21f", string(p), 2, [16]byte{3, 1, 4})
			k.put(x.Path("k"))
			write(x.Path("m"), msg)
			write(x.Path("c"), ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &[32]byte{8, 8}, msg)))
			variants := 4
			if l > 300 {
				variants = 2
			}
			for variant := 0; variant < variants; variant++ {
				for op := 0; op < 3; op++ {
					room := (l+op)%2 == 0
					give := make([]byte, 0, l+64)
					if !room {
						give = make([]byte, 0, l+1)
					}
					give = append(give, p...)
					switch variant {
					case 1:
						give[l-1] ^= 2
					case 2:
						give = give[:l-1]
					case 3:
						give = append(give, 'x')
					}
					pr := setPrompt(x, func(int, bool) ([]byte, error) { return give, nil })
					a := &asker{prompter: pr}
					var err error
					switch op {
					case 0:
						err = signify.Sign(x.Path("k.sec"), x.Path("m"), "")
					case 1:
						err = crypto.Open(x.Path("k.sec"), x.Path("c"), x.Path("d"))
					case 2:
						priv, lerr := signify.LoadPrivateKey(x.Path("k.sec"))
						x.Check(lerr == nil, "load", "%v", lerr)
						_, err = priv.ToBox()
					}
					what := []string{"signing", "decrypting", "converting"}[op]
					x.Op("%s", what)
					a.judge(x, 0, 1, 1, what)
					x.Check((err == nil) == (variant == 0), "verdict", "%s with a passphrase of %d bytes, variant %d: %v", what, l, variant, err)
				}
				x.State(l, variant)
			}
		}},
	}
}

func c21Fresh(t mc.Tier) mc.Scenario {
	depth := t.Pick(4, 5)
	return mc.Scenario{Name: "fresh", FastKDF: true, Streams: true, ShardDepth: 2, Bounds: fmt.Sprintf("with the fast derivation: all histories of %d operations (convert, decrypt, write into what a conversion returned, look at the key) on key pairs straight from GenerateKeypair, protected with passphrases of 1 and 40 bytes or not, with every prompt answer (right, wrong, empty, error)", depth), Body: func(x *mc.X) {
		fastKDF(x)
		pass := []string{"", "p", strings.Repeat("two words ", 4)}[x.Choose("pass", 3)]
		setRand(x, hashStream("c21 fresh"))
		mine := []byte(pass)
		priv, pub, err := signify.GenerateKeypair(mine, &signify.GenerateOptions{Rounds: 3})
		x.Check(err == nil, "generate", "GenerateKeypair: %v", err)
		if x.Bool("caller wipes") {
			for i := range mine {
				mine[i] = 0
			}
		}
		box, err := pub.ToBox()
		x.Check(err == nil, "convert", "public ToBox: %v", err)
		want := *box
		var esk [32]byte
		esk[5] = 7
		msg := []byte("fresh key message")
		sealed := ref.SealRaw(&want, &esk, msg)
		a := newAsker(x, pass)
		locked := pass != ""
		var given []*[32]byte
		for i := 0; i < depth; i++ {
			from, was := len(a.calls), locked
			op := x.Choose("operation", 4)
			switch op {
			case 0, 1:
				var out bytes.Buffer
				var got *[32]byte
				if op == 0 {
					x.Op("convert")
					got, err = priv.ToBox()
				} else {
					x.Op("decrypt")
					err = crypto.VerifOpen(priv, bytes.NewReader(sealed), &out)
				}
				n := 0
				if was {
					n = 1
				}
				a.judge(x, from, n, n, []string{"converting", "decrypting"}[op])
				right := !was || a.last == 0
				x.Check((err == nil) == right, "verdict", "%s a fresh key, locked %v, answer %d: %v", []string{"converting", "decrypting with"}[op], was, a.last, err)
				if right {
					locked = false
				}
				switch {
				case err == nil && op == 0:
					var p [32]byte
					curve25519.ScalarBaseMult(&p, got)
					x.Check(p == want, "wrong-key", "the converted key does not belong to the public key")
					given = append(given, got)
				case err == nil:
					x.Check(bytes.Equal(out.Bytes(), msg), "wrong-plaintext", "decrypted to %s", short(out.Bytes()))
				default:
					x.Check(out.Len() == 0 && got == nil, "output-without-passphrase", "made output although it failed")
				}
			case 2:
				x.Op("overwrite what was returned")
				for _, g := range given {
					*g = [32]byte{1, 2, 3}
				}
				*box = [32]byte{4, 5, 6}
			case 3:
				x.Op("IsEncrypted, Check, public ToBox")
				x.Check(priv.IsEncrypted() == (pass != ""), "is-encrypted", "IsEncrypted says %v", priv.IsEncrypted())
				x.Check((priv.Check() == nil) == !was, "check", "Check of a locked=%v key: %v", was, priv.Check())
				b, err := pub.ToBox()
				x.Check(err == nil && *b == want, "convert", "public ToBox again: %x, %v, want %x", b, err, want)
				a.judge(x, from, 0, 0, "looking at a key")
			}
			x.State(pass, was, locked, op, a.last)
		}
	}}
}

func c03KDF(t mc.Tier) []mc.Scenario {
	mk := func(x *mc.X) *kind {
		fastKDF(x)
		for _, k := range kinds() {
			if k.name == "protected-secret-key" {
				return k
			}
		}
		panic("harness: no such kind")
	}
	size := len(kinds()[2].file)
	alpha := make([]byte, 0, 256)
	for i := 0; i < 256; i++ {
		if c := byte(i); t == mc.Thorough || strings.IndexByte("\n\r=AQgwz09/+- \x00\xff:u\t~.", c) >= 0 {
			alpha = append(alpha, c)
		}
	}
	return []mc.Scenario{
		{Name: "fast-substitution", FastKDF: true, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: every character of a protected secret key file replaced by %d characters, deleted, doubled or exchanged with its neighbour, and the right passphrase given", len(alpha)), Body: func(x *mc.X) {
			k := mk(x)
			p := x.Choose("pos", size)
			v := x.Choose("char", len(alpha)+3)
			f := cp(k.file)
			if p >= len(f) {
				return
			}
			switch {
			case v < len(alpha):
				f[p] = alpha[v]
			case v == len(alpha):
				f = append(f[:p], f[p+1:]...)
			case v == len(alpha)+1:
				f = append(append(cp(f[:p]), f[p]), f[p:]...)
			case p+1 < len(f):
				f[p], f[p+1] = f[p+1], f[p]
			}
			k.judge(x, f, k.pass)
		}},
		{Name: "fast-tags", FastKDF: true, ShardDepth: 1, Bounds: "with the fast derivation: all 65536 algorithm tags and all 65536 KDF tags of a protected key, with the right passphrase", Body: func(x *mc.X) {
			k := mk(x)
			at := 2 * x.Choose("tag", 2)
			hi := x.Choose("first", 256)
			for lo := 0; lo < 256; lo++ {
				rec := cp(k.rec)
				rec[at], rec[at+1] = byte(hi), byte(lo)
				res := k.judge(x, ref.File("k", rec), k.pass)
				right := string(rec[:4]) == "EdBK"
				for op, err := range res {
					x.Check((err == nil) == right, "tag", "%s with tags %q: %v", op, rec[:4], err)
				}
			}
		}},
		{Name: "fast-rounds", FastKDF: true, ShardDepth: 1, Bounds: "with the fast derivation: every value of every byte of the round count, and the counts of C04, with the right passphrase: no panic", Body: func(x *mc.X) {
			k := mk(x)
			rcs := roundCounts()
			c := x.Choose("count", 1024+len(rcs))
			rec := cp(k.rec)
			if c < 1024 {
				rec[4+c/256] = byte(c)
			} else {
				r := rcs[c-1024]
				rec[4], rec[5], rec[6], rec[7] = byte(r>>24), byte(r>>16), byte(r>>8), byte(r)
			}
			k.judge(x, ref.File("k", rec), k.pass)
		}},
	}
}

func c05KDF(t mc.Tier) []mc.Scenario {
	n := t.Pick(70000, 400000)
	return []mc.Scenario{
		{Name: "fast-many", FastKDF: true, Hang: 600e9, ShardDepth: 1, Bounds: fmt.Sprintf("with the fast derivation: %d generations in one process from one continuing stream, all plain, all protected, or alternating, with one passphrase or each its own: seeds, numbers and salts all differ", n), Body: func(x *mc.X) {
			fastKDF(x)
			kind := x.Choose("kind", 3)
			own := x.Bool("own passphrase")
			setRand(x, hashStream("fast5"))
			seen := map[[8]byte]int{}
			note := func(i int, what string, b []byte) {
				var a [8]byte
				copy(a[:], b)
				if j, ok := seen[a]; ok {
					x.Fail("reused", "the %s of generation %d begins like a value of generation %d", what, i, j)
				}
				seen[a] = i
			}
			for i := 0; i < n; i++ {
				pass := ""
				if kind == 1 || kind == 2 && i%2 == 1 {
					pass = "p"
					if own {
						pass = fmt.Sprint("p", i)
					}
				}
				g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: 1})
				note(i, "seed", g.conform(x, pass, 1))
				note(i, "number", g.sec.Num[:])
				note(i, "salt", g.sec.Salt[:])
			}
			x.Op("%d generations", n)
			x.State(kind, own)
		}},
	}
}
