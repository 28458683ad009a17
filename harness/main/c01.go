package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// signVerify signs and verifies through files and cross-checks with the reference.
func signVerify(x *mc.X, priv, pub, msg, sig string, pubRec []byte) {
	x.Op("Sign(%q, %q, %q)", priv, msg, sig)
	if err := signify.Sign(priv, msg, sig); err != nil {
		x.Fail("sign-refused", "Sign(%q,%q,%q) with intact inputs: %v", priv, msg, sig, err)
	}
	x.Op("Verify(%q, %q, %q)", pub, msg, sig)
	if err := signify.Verify(pub, msg, sig); err != nil {
		x.Fail("own-signature", "Verify(%q,%q,%q) of the signature just made: %v", pub, msg, sig, err)
	}
	out := sig
	if out == "" {
		out = msg + ".sig"
	}
	sf := read(x, out)
	m, _ := os.ReadFile(msg)
	x.State(sf)
	if pubRec == nil {
		return
	}
	for _, c := range ref.Candidates(sf) {
		if ref.Valid(pubRec, m, c) {
			return
		}
	}
	x.Fail("reference-verify", "no line of the signature file is a valid signature of the %d-byte message by the reference: %q", len(m), sf)
}

func init() {
	mc.Register(mc.Property{
		ID: "C01", Level: "model_checking",
		Rule:        "state: distinct signature file content; transition: one Sign or Verify call of the real code; trace: one complete sign/verify run compared with the reference Ed25519 decision",
		Assumptions: []string{"crypto/ed25519, bcrypt_pbkdf and the file system are correct", "content outside the enumerated lengths/patterns behaves like them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k := fixKey("c01", "")
			special := specialContents()
			nlen := t.Pick(4200, 40000)
			return []mc.Scenario{
				{Name: "lengths", Bounds: fmt.Sprintf("every message length 0..%d, %d content patterns", nlen, nPatterns), Body: func(x *mc.X) {
					n := x.Choose("len", nlen+1)
					pat := x.Choose("pattern", nPatterns)
					noPrompt(x)
					k.put(x.Path("k"))
					write(x.Path("m"), pattern(pat, n))
					signVerify(x, x.Path("k.sec"), x.Path("k.pub"), x.Path("m"), "", k.pub.Encode())
				}},
				{Name: "all-short-messages", Bounds: "all messages of length 1 and 2", Body: func(x *mc.X) {
					v := x.Choose("msg", 256+65536)
					msg := []byte{byte(v)}
					if v >= 256 {
						msg = []byte{byte((v - 256) >> 8), byte(v - 256)}
					}
					noPrompt(x)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					signVerify(x, x.Path("k.sec"), x.Path("k.pub"), x.Path("m"), x.Path("s"), nil)
				}},
				{Name: "sizes", Bounds: fmt.Sprintf("message sizes 2^k-1, 2^k, 2^k+1 for k=12..%d and 10^j", t.Pick(26, 28)), Body: func(x *mc.X) {
					i := x.Choose("size", (t.Pick(26, 28)-11)*3+4)
					var n int
					if i < 4 {
						n = []int{10000, 100000, 1000000, 10000000}[i]
					} else {
						i -= 4
						n = 1<<uint(12+i/3) + i%3 - 1
					}
					noPrompt(x)
					k.put(x.Path("k"))
					write(x.Path("m"), bigBytes(7, n))
					signVerify(x, x.Path("k.sec"), x.Path("k.pub"), x.Path("m"), "", k.pub.Encode())
				}},
				{Name: "keys", Bounds: fmt.Sprintf("%d random-source families x passphrase none/short/long x round counts", t.Pick(800, 2000)), Body: func(x *mc.X) {
					i := x.Choose("family", t.Pick(800, 2000))
					pass := []string{"", "p", string(bytes.Repeat([]byte("long pass\x00phrase "), 12))}[x.Choose("pass", 3)]
					rounds := 1
					if pass != "" && i < 8 {
						rounds = 1 + x.Choose("rounds", 3)
					}
					setRand(x, family(i))
					setPrompt(x, answerWith(pass))
					base := x.Path("k")
					x.Op("GenerateKey rounds=%d pass=%q", rounds, pass)
					if err := signify.GenerateKey(base, []byte(pass), &signify.GenerateOptions{Rounds: rounds}); err != nil {
						x.Fail("generate", "GenerateKey: %v", err)
					}
					write(x.Path("m"), pattern(3, 33))
					signVerify(x, base+".sec", base+".pub", x.Path("m"), "", nil)
				}},
				{Name: "default-options", Bounds: "GenerateKey with nil options, plain and protected (42 rounds)", Body: func(x *mc.X) {
					pass := []string{"", "correct horse"}[x.Choose("pass", 2)]
					setRand(x, hashStream("c01"))
					setPrompt(x, answerWith(pass))
					base := x.Path("k")
					x.Op("GenerateKey nil options")
					if err := signify.GenerateKey(base, []byte(pass), nil); err != nil {
						x.Fail("generate", "GenerateKey: %v", err)
					}
					write(x.Path("m"), pattern(0, 100))
					signVerify(x, base+".sec", base+".pub", x.Path("m"), "", nil)
				}},
				{Name: "contents", Bounds: fmt.Sprintf("%d contents that look like something else (keys, signatures, encrypted and compressed files, marks, line ends, option and shell text)", len(special)), Body: func(x *mc.X) {
					c := special[x.Choose("content", len(special))]
					k.put(x.Path("k"))
					noPrompt(x)
					write(x.Path("m"), c)
					signVerify(x, x.Path("k.sec"), x.Path("k.pub"), x.Path("m"), "", k.pub.Encode())
				}},
				{Name: "names", ShardDepth: 2, Bounds: fmt.Sprintf("%d awkward names as message, key, and signature file name, or as directory of it, absolute, relative and bare", len(specialNames)), Body: func(x *mc.X) {
					n := specialNames[x.Choose("name", len(specialNames))]
					if x.Bool("directory") {
						mkdir(x.Dir() + "/" + n)
						n += "/f"
					}
					role := x.Choose("role", 3)
					at := place(x)
					noPrompt(x)
					setRand(x, hashStream("names"))
					key, msg, sig := at("k"), at("msg"), ""
					switch role {
					case 0:
						msg = at(n)
					case 1:
						key = at(n)
					case 2:
						sig = at(n)
					}
					if err := signify.GenerateKey(key, nil, nil); err != nil {
						x.Fail("generate", "GenerateKey(%q): %v", key, err)
					}
					write(msg, pattern(3, 80))
					signVerify(x, key+".sec", key+".pub", msg, sig, nil)
					_, err := os.Lstat(x.Path(n))
					x.Check(role == 1 || err == nil, "default-path", "no file %q afterwards: %v", n, err)
				}},
				{Name: "long-names", ShardDepth: 2, Bounds: "message names of every length 1..255 and paths of 256..4095 bytes (lengths around powers of two), with signature path given or by default; key names of up to 251 bytes: if signing succeeds, verifying does, and the names that fit work", Body: func(x *mc.X) {
					k.put(x.Path("k"))
					noPrompt(x)
					i := x.Choose("length", 255+32)
					n := i + 1
					msg := x.Path(longName(n, ""))
					if i >= 255 {
						// a path of that length below the directory
						n = []int{256, 300, 511, 512, 513, 1000, 1020, 1023, 1024, 1025, 1028, 1100, 2000, 2044, 2047, 2048, 2049, 3000, 4000, 4080, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096}[i-255]
						p := x.Dir()
						for n-len(p) > 201 {
							p += "/" + longName(100, "")
						}
						os.MkdirAll(p, 0755)
						if n-len(p)-1 < 1 {
							return
						}
						msg = p + "/" + longName(n-len(p)-1, "")
					}
					m := pattern(3, 60)
					if os.WriteFile(msg, m, 0644) != nil {
						x.Outcome("no such name")
						return
					}
					what := fmt.Sprintf("message path of %d bytes (name %d)", len(msg), len(filepath.Base(msg)))
					fits := len(filepath.Base(msg)) <= 251 && len(msg) <= 4091
					for _, sig := range []string{"", x.Path("s")} {
						x.Op("Sign, Verify")
						err := signify.Sign(x.Path("k.sec"), msg, sig)
						x.Check(err == nil || sig == "" && !fits, "sign", "%s: Sign: %v", what, err)
						if err == nil {
							err = signify.Verify(x.Path("k.pub"), msg, sig)
							x.Check(err == nil, "verify", "%s: signed, but Verify: %v", what, err)
						}
					}
					if i < 251 {
						key := x.Path(longName(n, ""))
						if n > 3 {
							key = x.Path(longName(n, "key"))
						}
						k.put(key)
						x.Check(signify.Sign(key+".sec", x.Path("k.pub"), "") == nil, "sign", "Sign with a key name of %d bytes fails", n)
						x.Check(signify.Verify(key+".pub", x.Path("k.pub"), "") == nil, "verify", "Verify with a key name of %d bytes fails", n)
					}
					x.State(len(filepath.Base(msg)), i)
				}},
				{Name: "kinds", ShardDepth: 2, Bounds: fmt.Sprintf("secret key, public key, message and signature each in turn one of %d kinds of files (links, read-only) x what is at the signature's path (%d kinds) x sizes 0, 80, 70000", len(inputKinds), len(outputKinds)), Body: func(x *mc.X) {
					role, kind := x.Choose("role", 4), x.Choose("kind", len(inputKinds))
					was := x.Choose("previous", len(outputKinds))
					m := pattern(3, []int{0, 80, 70000}[x.Choose("size", 3)])
					kinds := [4]int{}
					kinds[role] = kind
					noPrompt(x)
					sec := putInput(x.Path("k.sec"), kinds[0], k.secF)
					pub := putInput(x.Path("k.pub"), kinds[1], k.pubF)
					msg := putInput(x.Path("m"), kinds[2], m)
					putOutput(x.Path("s"), was)
					x.Op("Sign, Verify")
					what := fmt.Sprintf("%s a %s, signature onto %s, %d bytes", []string{"secret key", "public key", "message", "signature"}[role], inputKinds[kind], outputKinds[was], len(m))
					if err := signify.Sign(sec, msg, x.Path("s")); err != nil {
						x.Fail("sign", "%s: Sign: %v", what, err)
					}
					sig := x.Path("s")
					if kinds[3] != 0 {
						sig = putInput(x.Path("s2"), kinds[3], read(x, sig))
					}
					err := signify.Verify(pub, msg, sig)
					x.Check(err == nil, "verify", "%s: Verify: %v", what, err)
					_, rec, err := ref.ParseStrict(read(x, x.Path("s")))
					x.Check(err == nil && ref.Valid(k.pub.Encode(), m, rec), "verify", "%s: the signature written is not valid", what)
					x.State(what)
				}},
				{Name: "streams", Bounds: "message, signature, public and secret key each in turn a FIFO delivered in 1..3 pieces x 7 message lengths; messages that are files of the process file system or devices whose size is reported as 0", Body: func(x *mc.X) {
					what := x.Choose("what", 4+3)
					lens := []int{0, 1, 80, 4096, 65536, 65537, 200000}
					noPrompt(x)
					k.put(x.Path("k"))
					if what >= 4 {
						path := []string{"/proc/cmdline", "/proc/version", "/dev/null"}[what-4]
						m, err := os.ReadFile(path)
						if err != nil {
							x.Outcome("not here")
							return
						}
						x.Op("Sign(%s)", path)
						if err := signify.Sign(x.Path("k.sec"), path, x.Path("s")); err != nil {
							x.Fail("sign", "Sign(%q): %v", path, err)
						}
						_, rec, err := ref.ParseStrict(read(x, x.Path("s")))
						x.Check(err == nil && ref.Valid(k.pub.Encode(), m, rec), "verify", "the signature of %s is not valid for what it holds (%d bytes)", path, len(m))
						x.Op("Verify(%s)", path)
						err = signify.Verify(x.Path("k.pub"), path, x.Path("s"))
						x.Check(err == nil, "verify", "Verify(%q): %v", path, err)
						x.State(path)
						return
					}
					n, cut := lens[x.Choose("len", len(lens))], x.Choose("pieces", 3)
					m := bigBytes(uint64(n)+1, n+8)[:n]
					fifo := func(name string, b []byte) string {
						parts := [][]byte{b}
						if cut == 1 && len(b) > 1 {
							parts = [][]byte{b[:len(b)/2], b[len(b)/2:]}
						} else if cut == 2 && len(b) > 3 {
							parts = [][]byte{b[:1], b[1 : len(b)-1], b[len(b)-1:]}
						}
						feedFIFO(x, x.Path(name), parts)
						return x.Path(name)
					}
					write(x.Path("m"), m)
					msg, sec, pub, sig := x.Path("m"), x.Path("k.sec"), x.Path("k.pub"), x.Path("s")
					switch what {
					case 0:
						msg = fifo("fm", m)
					case 1:
						sec = fifo("f.sec", k.secF)
					}
					x.Op("Sign")
					if err := signify.Sign(sec, msg, x.Path("s")); err != nil {
						x.Fail("sign", "%d bytes, what=%d pieces=%d: Sign: %v", n, what, cut, err)
					}
					_, rec, err := ref.ParseStrict(read(x, x.Path("s")))
					x.Check(err == nil && ref.Valid(k.pub.Encode(), m, rec), "verify", "what=%d pieces=%d: the signature is not valid for the %d bytes delivered", what, cut, n)
					switch what {
					case 0:
						msg = fifo("vm", m)
					case 2:
						pub = fifo("f.pub", k.pubF)
					case 3:
						sig = fifo("fs", read(x, x.Path("s")))
					}
					x.Op("Verify")
					err = signify.Verify(pub, msg, sig)
					x.Check(err == nil, "verify", "what=%d pieces=%d: Verify: %v", what, cut, err)
					x.State(what, n, cut)
				}},
				{Name: "paths", Bounds: "key names x message names x signature path forms x previous output content, absolute and relative", Body: func(x *mc.X) {
					names := []string{"k", "a b", "k.sec", "k.pub", "x.sec.y", ".sec", "-k", "ключ", "new\nline", "cr\rname", "tab\t", "d.sec/k", "d/../k", "untrusted comment: q", string(bytes.Repeat([]byte("n"), 240)), "q%sd%n", "a+b=/c"}
					kn := names[x.Choose("key", len(names))]
					mn := []string{"m", "m.sig", "msg with space", "s\nm", ".hidden", "m.enc", string(bytes.Repeat([]byte("m"), 245))}[x.Choose("msg", 7)]
					mode := x.Choose("sigpath", 5)
					rel := x.Bool("relative")
					secSuffix := x.Choose("sec-name", 3) // .sec, none, other
					noPrompt(x)
					for _, d := range []string{"d.sec", "d", "a+b="} {
						os.Mkdir(x.Path(d), 0755)
					}
					at := func(n string) string { return x.Dir() + "/" + n }
					if rel {
						old, err := os.Getwd()
						if err != nil {
							old = "/"
						}
						os.Chdir(x.Dir())
						x.Cleanup(func() { os.Chdir(old) })
						at = func(n string) string { return "./" + n }
					}
					base := at(kn)
					setRand(x, hashStream("paths"))
					if err := signify.GenerateKey(base, nil, nil); err != nil {
						x.Fail("generate", "GenerateKey(%q): %v", base, err)
					}
					sec := base + ".sec"
					if secSuffix > 0 {
						b := read(x, sec)
						sec = at(filepath.Dir(kn)) + "/" + []string{"", "plainkey", "the.key.seckey"}[secSuffix]
						write(sec, b)
					}
					msg := at(mn)
					write(msg, pattern(3, 80))
					sig := ""
					switch mode {
					case 1:
						sig = at("out.sig")
					case 2: // shorter previous content at the default path
						write(msg+".sig", []byte("old"))
					case 3: // longer previous content
						sig = at("out.sig")
						write(sig, pattern(3, 5000))
					case 4:
						os.Symlink("target", at("link"))
						sig = at("link")
					}
					signVerify(x, sec, base+".pub", msg, sig, nil)
					if mode == 2 || mode == 0 {
						// the default path and its explicit spelling are the same file
						if err := signify.Verify(base+".pub", msg, msg+".sig"); err != nil {
							x.Fail("default-path", "signature not at the default path: %v", err)
						}
					}
				}},
			}
		},
	})
}
