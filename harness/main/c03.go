package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// A kind is one kind of input file with the operations that read it.
type kind struct {
	name string
	file []byte // a valid file
	rec  []byte // its record (nil for encrypted files)
	pass string // what the prompt answers ("" = prompt fails)
	// ops run every operation reading the file and report those that succeeded.
	ops func(x *mc.X, f []byte) map[string]error
	// good says whether a record is fit for use.
	good func(op string, rec []byte) bool
}

func kinds() []*kind {
	k, e := fixKey("c03", ""), fixKey("c03e", "p")
	msg := []byte("the message\nof the check")
	sigRec := ref.SignRec(k.seed, k.num, msg)
	sigF := ref.File("verify with k.pub", sigRec)
	var eph [32]byte
	copy(eph[:], bytes.Repeat([]byte{9}, 32))
	enc := func(q *keyFix) []byte {
		return ref.EncFile("psignify encrypted file", ref.SealRaw(q.boxPub(), &eph, msg))
	}
	call := func(x *mc.X, f []byte, what string, g func() error) error {
		x.Op("%s with %s", what, short(f))
		return guarded(x, "panic", fmt.Sprintf("%s with file %q", what, trunc(f)), g)
	}
	pub := &kind{name: "public-key", file: k.pubF, rec: k.pub.Encode(), ops: func(x *mc.X, f []byte) map[string]error {
		write(x.Path("f"), f)
		write(x.Path("m"), msg)
		write(x.Path("m.sig"), sigF)
		r := map[string]error{}
		call(x, f, "LoadPublicKey", func() error { _, err := signify.LoadPublicKey(x.Path("f")); return err })
		r["verify"] = call(x, f, "Verify", func() error { return signify.Verify(x.Path("f"), x.Path("m"), "") })
		r["seal"] = call(x, f, "Seal", func() error { return crypto.Seal(x.Path("f"), x.Path("m"), x.Path("o")) })
		return r
	}, good: func(op string, rec []byte) bool { return len(rec) == 42 && string(rec[:2]) == "Ed" }}
	sec := func(name string, q *keyFix) *kind {
		encf := enc(q)
		return &kind{name: name, file: q.secF, rec: q.sec.Encode(), pass: q.pass, ops: func(x *mc.X, f []byte) map[string]error {
			write(x.Path("f"), f)
			write(x.Path("m"), msg)
			write(x.Path("m.enc"), encf)
			r := map[string]error{}
			var priv *signify.Private
			if call(x, f, "LoadPrivateKey", func() (err error) { priv, err = signify.LoadPrivateKey(x.Path("f")); return err }) == nil {
				r["tobox"] = call(x, f, "ToBox", func() error { _, err := priv.ToBox(); return err })
			}
			r["sign"] = call(x, f, "Sign", func() error { return signify.Sign(x.Path("f"), x.Path("m"), x.Path("o")) })
			r["open"] = call(x, f, "Open", func() error { return crypto.Open(x.Path("f"), x.Path("m.enc"), x.Path("p")) })
			return r
		}, good: func(op string, rec []byte) bool {
			if len(rec) != 104 || string(rec[:2]) != "Ed" {
				return false
			}
			if d := sha512.Sum512(rec[40:]); op != "sign" && bytes.Equal(d[:8], rec[24:32]) {
				return true // the key is in the clear: no KDF is involved
			}
			return binary.BigEndian.Uint32(rec[4:]) == 0 || string(rec[2:4]) == "BK"
		}}
	}
	sig := &kind{name: "signature", file: sigF, rec: sigRec, ops: func(x *mc.X, f []byte) map[string]error {
		write(x.Path("m"), msg)
		write(x.Path("f"), f)
		write(x.Path("k.pub"), k.pubF)
		return map[string]error{"verify": call(x, f, "Verify", func() error { return signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("f")) })}
	}, good: func(op string, rec []byte) bool { return len(rec) == 74 && string(rec[:2]) == "Ed" }}
	encK := &kind{name: "encrypted", file: enc(k), ops: func(x *mc.X, f []byte) map[string]error {
		write(x.Path("f"), f)
		write(x.Path("k.sec"), k.secF)
		err := call(x, f, "Open", func() error { return crypto.Open(x.Path("k.sec"), x.Path("f"), x.Path("p")) })
		if err == nil {
			got := read(x, x.Path("p"))
			x.Check(bytes.Equal(got, msg), "wrong-plaintext", "Open of %q succeeded with %s", trunc(f), short(got))
		}
		return nil
	}}
	return []*kind{pub, sec("secret-key", k), sec("protected-secret-key", e), sig, encK}
}

func trunc(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// judge runs the operations on file content f.
func (k *kind) judge(x *mc.X, f []byte, pass string) map[string]error {
	if pass == "" {
		noPrompt(x)
	} else {
		setPrompt(x, answerWith(pass))
	}
	res := k.ops(x, f)
	cands := ref.Candidates(f)
	wellformed := func(op string) bool {
		if k.rec == nil {
			return true
		}
		for _, c := range cands {
			if k.good(op, c) {
				return true
			}
		}
		return false
	}
	x.State(k.name, f)
	var succ []string
	for op, err := range res {
		if err == nil {
			succ = append(succ, op)
			x.Check(wellformed(op), "used-malformed", "%s succeeded with %s file %q, which holds no well-formed record", op, k.name, trunc(f))
		}
	}
	x.Outcome("%s: %d operations succeeded, wellformed=%v", k.name, len(succ), wellformed("sign"))
	return res
}

// announced opens a file whose authentic header announces another number of chunks than there are.
func announced(x *mc.X) {
	counts := []uint64{0, 1, 2, 3, 4, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	for k := uint(2); k < 64; k++ {
		counts = append(counts, 1<<k, 1<<k+1, 1<<k+2, 1<<k+3)
	}
	c := counts[x.Choose("count", len(counts))]
	n := x.Choose("present", 4)
	k := fixKey("c03", "")
	noPrompt(x)
	var eph, epub [32]byte
	eph[5] = 7
	// the ephemeral public key is in any header made from eph
	copy(epub[:], ref.SealRaw(k.boxPub(), &eph, nil)[8:40])
	sh := ref.Shared(&eph, k.boxPub())
	raw := ref.Header(c, &epub, sh)
	var want []byte
	for i := 0; i < n; i++ {
		m := bigBytes(uint64(i+1), ref.Chunk)
		if uint64(i) < c {
			want = append(want, m...)
		}
		raw = append(raw, ref.Box(sh, uint64(i), m)...)
	}
	write(x.Path("k.sec"), k.secF)
	write(x.Path("e"), ref.EncFile("x", raw))
	x.Op("Open count=%d present=%d", c, n)
	err := guarded(x, "panic", "Open", func() error { return crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("o")) })
	x.State(int(c), n)
	if uint64(n) < c {
		x.Check(err != nil, "missing-chunks", "Open succeeded with %d of %d chunks", n, c)
	}
	if err == nil {
		got := read(x, x.Path("o"))
		x.Check(bytes.Equal(got, want), "wrong-plaintext", "Open count=%d present=%d: %s", c, n, diffAt(got, want))
	}
}

func init() {
	mc.Register(mc.Property{
		ID: "C03", Level: "model_checking",
		Rule:        "state: distinct (kind, file content) presented; transition: one call of the real code reading the file; trace: all operations on one file content, each without panic and successful only if a line of the file holds a record of the exact length and tags",
		Assumptions: []string{"a successful use of a file containing a well-formed record is judged by C01, C02, C07, C08 and C23", "KDF rounds fields that only make the KDF take long are not presented together with a passphrase"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			ks := kinds()
			maxLen := 0
			for _, k := range ks {
				if len(k.file) > maxLen {
					maxLen = len(k.file)
				}
			}
			alpha := []byte{'\n', '\r', '=', 'A', '/', '-', ' ', 0, 0xff, 'u', ':', 'x'}
			if t == mc.Thorough {
				alpha = make([]byte, 256)
				for i := range alpha {
					alpha[i] = byte(i)
				}
			}
			lineNames := []string{"comment", "valid", "empty", "garbage", "valid+CR", "valid+space", "long comment", "other kind", "first half", "NUL", "padding"}
			lines := func(k *kind, i int) string {
				data := strings.Split(string(k.file), "\n")[1]
				switch lineNames[i] {
				case "comment":
					return ref.Prefix + "text"
				case "valid":
					return data
				case "empty":
					return ""
				case "garbage":
					return "!!! not base64 !!!"
				case "valid+CR":
					return data + "\r"
				case "valid+space":
					return " " + data + " "
				case "long comment":
					return ref.Prefix + strings.Repeat("z", 70000)
				case "other kind":
					o := ks[0]
					if k == o {
						o = ks[3]
					}
					return strings.Split(string(o.file), "\n")[1]
				case "first half":
					return data[:len(data)/8*4]
				case "NUL":
					return "\x00\x00\x00"
				}
				return "===="
			}
			seqMax := t.Pick(3, 4)
			return append(c03KDF(t), []mc.Scenario{
				{Name: "truncation", Bounds: "every byte length of every kind of file", Body: func(x *mc.X) {
					n := x.Choose("len", maxLen+1)
					k := ks[x.Choose("kind", len(ks))]
					if n > len(k.file) {
						return
					}
					r := k.judge(x, k.file[:n], k.pass)
					if n == len(k.file) {
						for op, err := range r {
							x.Check(err == nil, "refused-valid", "%s refused the intact %s: %v", op, k.name, err)
						}
					}
				}},
				{Name: "substitution", Bounds: fmt.Sprintf("every character of every kind of file replaced by %d characters, deleted or duplicated (prompt failing)", len(alpha)), Body: func(x *mc.X) {
					p := x.Choose("pos", maxLen)
					k := ks[x.Choose("kind", len(ks))]
					v := x.Choose("char", len(alpha)+2)
					if p >= len(k.file) {
						return
					}
					f := cp(k.file)
					switch {
					case v < len(alpha):
						f[p] = alpha[v]
					case v == len(alpha):
						f = append(f[:p], f[p+1:]...)
					default:
						f = append(append(cp(f[:p]), f[p]), f[p:]...)
					}
					k.judge(x, f, "")
				}},
				{Name: "record-length", Bounds: "records of every length 0..260 (prefix of the valid one, extended by 0x00, 0xff or itself)", Body: func(x *mc.X) {
					n := x.Choose("len", 261)
					k := ks[x.Choose("kind", 4)]
					ext := x.Choose("ext", 3)
					r := cp(k.rec)
					if n <= len(r) {
						r = r[:n]
					}
					for len(r) < n {
						r = append(r, []byte{0, 0xff, k.rec[len(r)%len(k.rec)]}[ext])
					}
					k.judge(x, ref.File("c", r), k.pass)
				}},
				{Name: "algorithm-tags", Bounds: "all 65536 algorithm tags of public key, secret key, protected key and signature", Body: func(x *mc.X) {
					tag := x.Choose("tag", 65536)
					k := ks[x.Choose("kind", 4)]
					r := cp(k.rec)
					r[0], r[1] = byte(tag>>8), byte(tag)
					k.judge(x, ref.File("c", r), "")
				}},
				{Name: "kdf-tags", Bounds: "all 65536 KDF tags of a protected key with the right passphrase", Body: func(x *mc.X) {
					tag := x.Choose("tag", 65536)
					k := ks[2]
					r := cp(k.rec)
					r[2], r[3] = byte(tag>>8), byte(tag)
					write(x.Path("f"), ref.File("c", r))
					write(x.Path("m"), []byte("m"))
					setPrompt(x, answerWith(k.pass))
					x.Op("Sign with KDF tag %q", r[2:4])
					err := signify.Sign(x.Path("f"), x.Path("m"), x.Path("o"))
					x.State(r)
					x.Outcome("signed=%v", err == nil)
					x.Check((err == nil) == (string(r[2:4]) == "BK"), "kdf-tag", "Sign with KDF tag %q: %v", r[2:4], err)
				}},
				{Name: "lines", Bounds: fmt.Sprintf("all sequences of up to %d lines from %d line kinds, with and without final newline", seqMax, len(lineNames)), ShardDepth: 3, Body: func(x *mc.X) {
					k := ks[x.Choose("kind", len(ks))]
					var b []string
					for len(b) < seqMax {
						c := x.Choose("line", len(lineNames)+1)
						if c == 0 {
							break
						}
						b = append(b, lines(k, c-1))
					}
					f := strings.Join(b, "\n")
					if x.Bool("final-newline") {
						f += "\n"
					}
					k.judge(x, []byte(f), "")
				}},
				{Name: "not-a-file", Bounds: "missing path, directory, empty path, unreadable symlink loop for every input of every operation", Body: func(x *mc.X) {
					which := x.Choose("bad-input", 3)
					op := x.Choose("op", 4)
					how := x.Choose("how", 4)
					k := fixKey("c03", "")
					noPrompt(x)
					k.put(x.Path("k"))
					msg := []byte("m")
					write(x.Path("m"), msg)
					write(x.Path("s"), ref.File("s", ref.SignRec(k.seed, k.num, msg)))
					var eph [32]byte
					eph[3] = 1
					write(x.Path("e"), ref.EncFile("e", ref.SealRaw(k.boxPub(), &eph, msg)))
					bad := []string{x.Path("missing"), x.Path("dir"), "", x.Path("loop")}[how]
					os.Mkdir(x.Path("dir"), 0755)
					os.Symlink("loop", x.Path("loop"))
					in := []string{x.Path("k.sec"), x.Path("m"), x.Path("s")}
					if op == 1 || op == 2 {
						in[0] = x.Path("k.pub")
					}
					if op == 3 {
						in[1] = x.Path("e")
					}
					if which == 2 && (op != 1 || how == 2) {
						return // only Verify has a third input; "" is its default
					}
					in[which] = bad
					x.Op("op %d with input %d = %q", op, which, bad)
					err := guarded(x, "panic", "operation", func() error {
						switch op {
						case 0:
							return signify.Sign(in[0], in[1], x.Path("out"))
						case 1:
							return signify.Verify(in[0], in[1], in[2])
						case 2:
							return crypto.Seal(in[0], in[1], x.Path("out"))
						}
						return crypto.Open(in[0], in[1], x.Path("out"))
					})
					x.State(op, which, how)
					x.Check(err != nil, "bad-input", "operation %d succeeded with input %d = %q", op, which, bad)
				}},
				{Name: "chunk-counts", Bounds: "authenticated headers announcing 262 chunk counts (0..4, 255, 256, 2^k+0..3 for k=2..63, 2^64-1 ...) over 0..3 present chunks", Body: func(x *mc.X) {
					announced(x)
				}},
			}...)
		},
	})
}
