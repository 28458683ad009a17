package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// killHook explores every place where the process can die.
func killHook(x *mc.X, at func(e *event)) func(e *event) action {
	return func(e *event) action {
		if at != nil {
			at(e)
		}
		l := []action{{}, {kind: actKill, what: "killed before it"}}
		if e.kind == sysWrite {
			for _, n := range shortWrites(e.count) {
				l = append(l, action{kind: actKillShort, n: n, what: fmt.Sprintf("killed after %d bytes", n)})
			}
		}
		return l[x.Dev(e.name, len(l))]
	}
}

// openFiles collects what group and others could read.
type openFiles struct {
	root string
	snap map[string]string // content (with name and mode) of every such file ever seen
}

func (o *openFiles) look(when string) {
	filepath.Walk(o.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() || fi.Mode().Perm()&0077 == 0 {
			return nil
		}
		b, _ := os.ReadFile(p)
		key := string(b)
		if _, ok := o.snap[key]; !ok {
			o.snap[key] = fmt.Sprintf("%s (mode %v) %s", filepath.Base(p), fi.Mode().Perm(), when)
		}
		return nil
	})
}

// leaked looks for key material in them.
func (o *openFiles) leaked(sec []byte) string {
	_, rec, err := ref.ParseStrict(sec)
	if err != nil || len(rec) != 104 {
		return ""
	}
	text := base64.StdEncoding.EncodeToString(rec)
	for c, who := range o.snap {
		for i := 56; i+8 <= 92; i += 4 {
			if strings.Contains(c, text[i:i+8]) {
				return who
			}
		}
		for i := 40; i+8 <= 72; i++ {
			if strings.Contains(c, string(rec[i:i+8])) {
				return who
			}
		}
	}
	return ""
}

func init() {
	mc.Register(mc.Property{
		ID: "C15", Level: "fault_enumeration",
		Rule:        "state: distinct directory content left by a killed process, or torn file; transition: one system call of the process on its files; trace: one run of the real command killed at the chosen call or byte, or one torn file, judged by loading, verifying or decrypting what is left",
		Assumptions: []string{"the process dies but the kernel keeps what was written; for torn files any prefix, or a prefix followed by zeros, may be left", "system calls are the points at which files change"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k := fixKey("c15", "")
			umasks := []int{022, 0, 077}
			C := ref.Chunk
			return []mc.Scenario{
				{Name: "generate-killed", MaxDev: 1, ShardDev: true, Bounds: "-G -n and GenerateKey with passphrase under umask 022, 000, 077: killed before every system call on the key files and after every byte written", Body: func(x *mc.X) {
					o := &fileOp{name: "gen", pass: []string{"", "pw"}[x.Choose("pass", 2)]}
					um := umasks[x.Choose("umask", 3)]
					res := controlled(x, &spec{argv: o.argv(x, o.pass != ""), dir: x.Dir(), root: x.Dir(), umask: um}, killHook(x, nil))
					state := fmt.Sprintf("killed=%v sec=%v pub=%v", res.killed, exists(x.Path("k.sec")), exists(x.Path("k.pub")))
					x.Outcome("%s", state)
					x.State(res.killed, o.pass, um, len(tree(x.Dir())["k.sec"]), len(tree(x.Dir())["k.pub"]), res.events)
					if !res.killed {
						return
					}
					if _, err := signify.LoadPublicKey(x.Path("k.pub")); err == nil {
						if b, err := os.ReadFile(x.Path("k.pub")); err == nil && !bytes.HasSuffix(b, []byte("\n")) {
							write(x.Path("k.pub"), append(b, '\n')) // all but the last newline is there
						}
						miss := pairComplete(x.Path("k"), o.pass)
						if strings.Contains(miss, "mode") {
							miss = ""
						}
						x.Check(miss == "", "orphan-public-key", "killed while generating: the public key loads, but %s", miss)
						_, err := signify.LoadPrivateKey(x.Path("k.sec"))
						x.Check(err == nil, "orphan-public-key", "killed while generating: the public key loads, but the secret key does not: %v", err)
					}
				}},
				{Name: "secret-exposed", Bounds: "-G -n and GenerateKey with passphrase, umask 022, 000, 077, 022 with a file of mode 0644/0666/0640/0600 (short, long, or a symbolic link to it) already there: at every system call, no file open to group or others holds any 8 bytes of the seed", Body: func(x *mc.X) {
					o := &fileOp{name: "gen", pass: []string{"", "pw"}[x.Choose("pass", 2)]}
					um := umasks[x.Choose("umask", 3)]
					prev := x.Choose("previous", 7)
					if prev > 0 {
						mode := []os.FileMode{0644, 0666, 0640, 0600, 0644, 0644}[prev-1]
						p := x.Path("k.sec")
						if prev == 6 {
							p = x.Path("target")
							os.Symlink("target", x.Path("k.sec"))
						}
						c := []byte("old\n")
						if prev == 5 {
							c = bytes.Repeat(c, 400)
						}
						write(p, c)
						os.Chmod(p, mode)
					}
					f := &openFiles{x.Dir(), map[string]string{}}
					res := controlled(x, &spec{argv: o.argv(x, o.pass != ""), dir: x.Dir(), root: x.Dir(), umask: um}, func(e *event) action {
						f.look("before " + e.String())
						return action{}
					})
					f.look("at the end")
					x.Check(res.events > 2, "untraced", "harness: only %d events", res.events)
					sec, _ := os.ReadFile(x.Path("k.sec"))
					if who := f.leaked(sec); who != "" {
						x.Fail("secret-exposed", "key material of the secret key is in a file open to others: %s", who)
					}
					x.State(o.pass, um, prev, res.exit)
					x.Ops(res.events)
					x.Outcome("exit %d", res.exit)
				}},
				{Name: "sign-encrypt-killed", MaxDev: 1, ShardDev: true, Bounds: "-S and -E (0, 1 and 100 bytes) on new outputs and over an earlier output: killed before every system call on their files and after every byte written", Body: func(x *mc.X) {
					n := []int{0, 1, 100}[x.Choose("len", 3)]
					o := &fileOp{name: []string{"sign", "seal"}[x.Choose("op", 2)], k: k, msg: bigBytes(5, n+8)[:n]}
					o.prepare(x)
					old := bigBytes(6, 304)[:300]
					prev := x.Bool("previous")
					if prev {
						if o.name == "sign" {
							write(x.Path("out"), ref.File(strings.Repeat("an earlier signature ", 9), ref.SignRec(k.seed, k.num, old)))
						} else {
							var e [32]byte
							write(x.Path("out"), ref.EncFile("untrusted comment: old", ref.SealRaw(k.boxPub(), &e, old)))
						}
					}
					res := controlled(x, &spec{argv: o.argv(x, false), dir: x.Dir(), root: x.Dir(), umask: 022}, killHook(x, nil))
					noPrompt(x)
					if o.name == "sign" {
						err := signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("out"))
						if err == nil {
							if b := read(x, x.Path("out")); !bytes.HasSuffix(b, []byte("\n")) {
								write(x.Path("out"), append(b, '\n')) // all but the last newline is there
							}
							miss := o.complete(x)
							x.Check(miss == "", "torn-accepted", "killed while signing, and the torn signature verifies: %s", miss)
						}
						x.Outcome("sign killed=%v accepted=%v", res.killed, err == nil)
					} else {
						err := crypto.Open(x.Path("k.sec"), x.Path("out"), x.Path("plain"))
						if err == nil {
							got := read(x, x.Path("plain"))
							x.Check(bytes.Equal(got, o.msg) || prev && bytes.Equal(got, old), "torn-accepted", "killed while encrypting, and the torn file decrypts to something else: %s", diffAt(got, o.msg))
						}
						x.Outcome("encrypt killed=%v accepted=%v", res.killed, err == nil)
					}
					x.State(o.name, n, prev, res.killed, tree(x.Dir())["out"] == "", len(tree(x.Dir())["out"]))
				}},
				{Name: "torn", ShardDepth: 3, Bounds: fmt.Sprintf("secret key, public key, signature, encrypted files of 0, 1, 100 bytes cut at every byte, with and without zeros to the full length or 512 more; encrypted files of 1 chunk and 2 chunks + 5 cut within %d bytes of the start, each chunk boundary and the end, and at every %dth byte", t.Pick(60, 600), t.Pick(211, 13)), Body: func(x *mc.X) {
					kind := x.Choose("kind", 8)
					zeros := x.Choose("zeros", 3)
					lens := []int{0, 1, 100, C, 2*C + 5}
					msg := bigBytes(7, 300)[:100]
					if kind >= 3 {
						msg = bigBytes(7, lens[kind-3]+8)[:lens[kind-3]]
					}
					noPrompt(x)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					var full []byte
					switch kind {
					case 0:
						full = k.secF
					case 1:
						full = k.pubF
					case 2:
						setRand(x, hashStream("c15"))
						if err := signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("out")); err != nil {
							x.Fail("sign", "Sign: %v", err)
						}
						full = read(x, x.Path("out"))
					default:
						setRand(x, hashStream("c15"))
						if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("out")); err != nil {
							x.Fail("seal", "Seal: %v", err)
						}
						full = read(x, x.Path("out"))
					}
					var pts []int
					for i := 0; i < len(full); i++ {
						near := kind < 6 || i%t.Pick(211, 13) == 0
						if !near {
							w := t.Pick(60, 600)
							near = i < 43+100+w || i > len(full)-w
							for c := 1; c <= 2; c++ {
								l := (72 + c*(C+16)) / 3 * 4
								b := 43 + l + l/72
								near = near || i > b-w && i < b+w
							}
						}
						if near {
							pts = append(pts, i)
						}
					}
					i := pts[x.Choose("cut", len(pts))]
					torn := append([]byte(nil), full[:i]...)
					if zeros > 0 {
						torn = append(torn, make([]byte, len(full)-i+512*(zeros-1))...)
					}
					write(x.Path("torn"), torn)
					x.State(kind, zeros, i)
					accepted := false
					switch kind {
					case 0:
						p, err := signify.LoadPrivateKey(x.Path("torn"))
						if accepted = err == nil; accepted {
							_, err = p.ToBox()
							x.Check(err != nil || i >= len(full)-1, "torn-accepted", "secret key file cut at %d of %d loads and is usable", i, len(full))
						}
					case 1:
						_, err := signify.LoadPublicKey(x.Path("torn"))
						accepted = err == nil
						x.Check(!accepted || i >= len(full)-1, "torn-accepted", "public key file cut at %d of %d loads", i, len(full))
					case 2:
						accepted = signify.Verify(x.Path("k.pub"), x.Path("m"), x.Path("torn")) == nil
						x.Check(!accepted || i >= len(full)-1, "torn-accepted", "signature file cut at %d of %d verifies", i, len(full))
					default:
						err := crypto.Open(x.Path("k.sec"), x.Path("torn"), x.Path("plain"))
						if accepted = err == nil; accepted {
							got := read(x, x.Path("plain"))
							x.Check(bytes.Equal(got, msg), "torn-accepted", "encrypted file cut at %d of %d decrypts to something else: %s", i, len(full), diffAt(got, msg))
						}
					}
					x.Op("judge kind %d cut %d", kind, i)
					x.Outcome("kind %d accepted=%v", kind, accepted)
				}},
			}
		},
	})
}
