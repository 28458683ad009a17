package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// fragReader hands out its stream in pieces whose sizes the explorer picks.
type fragReader struct {
	s    *stream
	next func(n int) int
}

func (f *fragReader) Read(p []byte) (int, error) {
	n := f.next(len(p))
	if n > len(p) {
		n = len(p)
	}
	return f.s.Read(p[:n])
}

const failKinds = 6

// failingAt is a source that fails after n bytes: with an error or the end, for good, once, or giving
// the bytes before the failure together with it.
func failingAt(r io.Reader, n, kind int) io.Reader {
	fail := errors.New("no randomness")
	if kind%2 == 1 {
		fail = io.EOF
	}
	failed := false
	return readerFunc(func(p []byte) (int, error) {
		if failed && kind/2 == 1 {
			return r.Read(p)
		}
		if n == 0 {
			failed = true
			return 0, fail
		}
		if len(p) > n {
			p = p[:n]
		}
		m, err := r.Read(p)
		n -= m
		if n == 0 && kind/2 == 2 && err == nil {
			failed = true
			err = fail
		}
		return m, err
	})
}

// span finds b in the output of the random source.
type span struct {
	what   string
	lo, hi int
}

func locate(x *mc.X, out, b []byte, what string) span {
	i := bytes.Index(out, b)
	if i < 0 {
		x.Fail("not-from-random", "%s %x was not drawn in full from the random source (%d bytes drawn)", what, b, len(out))
	}
	return span{what, i, i + len(b)}
}

func disjoint(x *mc.X, sp []span) {
	for i := range sp {
		for j := 0; j < i; j++ {
			if sp[i].lo < sp[j].hi && sp[j].lo < sp[i].hi {
				x.Fail("shared-random", "%s and %s come from the same output of the random source (bytes %d..%d and %d..%d)", sp[j].what, sp[i].what, sp[j].lo, sp[j].hi, sp[i].lo, sp[i].hi)
			}
		}
	}
}

func keySpans(x *mc.X, g *genPair, s *stream, pass string, rounds int, label string) []span {
	seed := g.conform(x, pass, rounds)
	sp := []span{locate(x, s.buf, seed, label+"seed"), locate(x, s.buf, g.sec.Num[:], label+"key number")}
	if pass != "" {
		sp = append(sp, locate(x, s.buf, g.sec.Salt[:], label+"salt"))
	}
	return sp
}

func init() {
	mc.Register(mc.Property{
		ID: "C05", Level: "model_checking",
		Rule:        "state: distinct generated key record; transition: one GenerateKey call; trace: one history of generations whose seeds, key numbers and salts are located in the random source's output",
		Assumptions: []string{"crypto/rand.Reader is the system's random source; it is replaced by recorded streams", "crypto/ed25519 derives the key from 32 bytes of seed"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			passes := []string{"", "p"}
			return append(c05KDF(t), []mc.Scenario{
				{Name: "consistency", Bounds: fmt.Sprintf("%d random-source families (all constant, counting and %d hashed streams) x {plain, protected}", t.Pick(1200, 6000), t.Pick(432, 5232)), Body: func(x *mc.X) {
					f := x.Choose("family", t.Pick(1200, 6000))
					pass := passes[x.Choose("pass", 2)]
					setRand(x, family(f))
					g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: 1})
					g.conform(x, pass, 1)
					x.State(g.sec.Encode())
				}},
				{Name: "source", Bounds: fmt.Sprintf("%d hashed streams x passphrase {none, short, long} x {GenerateKey options nil/1/2/3 rounds}: seed, number, salt are disjoint draws", t.Pick(60, 400)), Body: func(x *mc.X) {
					s := hashStream(fmt.Sprint("src", x.Choose("stream", t.Pick(60, 400))))
					pass := []string{"", "p", string(pattern(0, 300))}[x.Choose("pass", 3)]
					r := x.Choose("rounds", 4)
					if r == 0 && pass != "" && len(s.buf) == 0 {
						r = 1
					}
					var o *signify.GenerateOptions
					if r > 0 {
						o = &signify.GenerateOptions{Rounds: r}
					} else {
						r = 42
					}
					setRand(x, s)
					g := generate(x, x.Path("k"), pass, o)
					disjoint(x, keySpans(x, &g, s, pass, r, ""))
					x.State(g.sec.Encode())
				}},
				{Name: "histories", Bounds: fmt.Sprintf("all histories of 1..%d generations over {plain, protected with the same passphrase, other passphrase, same name again} from one continuing stream: no draw is used twice", t.Pick(4, 5)), ShardDepth: 2, Body: func(x *mc.X) {
					s := hashStream("hist")
					setRand(x, s)
					var sp []span
					n := 0
					for i := 0; i < t.Pick(4, 5); i++ {
						c := x.Choose("next", 5)
						if c == 0 {
							break
						}
						pass := []string{"", "p", "q", ""}[c-1]
						base := x.Path(fmt.Sprint("k", i))
						if c == 4 {
							base = x.Path("again")
						}
						g := generate(x, base, pass, &signify.GenerateOptions{Rounds: 1})
						sp = append(sp, keySpans(x, &g, s, pass, 1, fmt.Sprintf("generation %d ", i+1))...)
						x.State(g.sec.Encode())
						n++
					}
					disjoint(x, sp)
					x.Outcome("%d generations", n)
				}},
				{Name: "many", Hang: 300e9, ShardDepth: 1, Bounds: fmt.Sprintf("%d generations in one process from one continuing stream, all plain, all protected or alternating, under one name or each its own", t.Pick(1030, 8000)), Body: func(x *mc.X) {
					kind, names := x.Choose("kind", 3), x.Bool("own names")
					s := hashStream("many5")
					setRand(x, s)
					var sp []span
					for i := 0; i < t.Pick(1030, 8000); i++ {
						pass, base := "", x.Path("k")
						if kind == 1 || kind == 2 && i%2 == 1 {
							pass = "p"
							if i >= 200 && t == mc.Quick && kind == 1 {
								break
							}
						}
						if names {
							base = x.Path(fmt.Sprint("k", i))
						}
						if kind == 2 && i%2 == 1 && i > 300 {
							pass = "" // deriving keys takes long
						}
						g := generate(x, base, pass, &signify.GenerateOptions{Rounds: 1})
						sp = append(sp, keySpans(x, &g, s, pass, 1, fmt.Sprintf("generation %d ", i+1))...)
						x.State(g.sec.Encode())
					}
					disjoint(x, sp)
				}},
				{Name: "short-reads", MaxDev: t.Pick(2, 3), Bounds: "random source answering reads with 1, 2, 7 or 31 bytes at up to 2 (3) chosen reads, and always 1 byte", Body: func(x *mc.X) {
					s := hashStream("frag")
					one := x.Bool("always-one")
					pass := passes[x.Choose("pass", 2)]
					setRand(x, &fragReader{s, func(n int) int {
						if one {
							return 1
						}
						if c := x.Dev("read", 5); c > 0 {
							return []int{1, 2, 7, 31}[c-1]
						}
						return n
					}})
					g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: 1})
					disjoint(x, keySpans(x, &g, s, pass, 1, ""))
					x.State(g.sec.Encode())
				}},
				{Name: "failing-source", ShardDepth: 2, Bounds: "random source failing (with an error, with the end of the source, once or for good, with or without the bytes before it) after every number of bytes 0..80, generating a plain or a protected pair in a process of its own: no success without values drawn in full", Body: func(x *mc.X) {
					n := x.Choose("bytes", 81)
					kind := x.Choose("kind", failKinds)
					pass := passes[x.Choose("pass", 2)]
					h, err := os.Executable()
					if err != nil {
						panic(fmt.Sprintf("harness: %v", err))
					}
					x.Op("GenerateKey with a source failing after %d bytes (%d)", n, kind)
					r := plainRun(x, &spec{argv: []string{h, "op", "gen", x.Path("k"), pass, "1"}, env: []string{"VERIF_RAND=fail5", fmt.Sprintf("VERIF_RAND_FAIL=%d %d", n, kind)}, dir: x.Dir(), umask: -1})
					x.State(n, kind, pass, r.exit)
					x.Outcome("exit %d", r.exit)
					if r.exit != 0 {
						return
					}
					s := hashStream("fail5")
					io.ReadFull(s, make([]byte, 1000))
					g := readPair(x, x.Path("k"))
					disjoint(x, keySpans(x, &g, s, pass, 1, fmt.Sprintf("source failing after %d bytes: ", n)))
				}},
				{Name: "api", Bounds: "GenerateKeypair objects: converted keys agree with the seed drawn, over 200 streams; two pairs from one stream differ", Body: func(x *mc.X) {
					s := hashStream(fmt.Sprint("api", x.Choose("stream", 200)))
					setRand(x, s)
					var boxes [][32]byte
					for i := 0; i < 2; i++ {
						x.Op("GenerateKeypair")
						priv, pub, err := signify.GenerateKeypair(nil, nil)
						x.Check(err == nil, "generate", "GenerateKeypair: %v", err)
						x.Check(priv.Check() == nil, "checksum", "generated key fails its checksum")
						b, err := priv.ToBox()
						x.Check(err == nil, "tobox", "ToBox: %v", err)
						u, err := pub.ToBox()
						x.Check(err == nil, "tobox", "ToBox: %v", err)
						found := false
						for o := 0; o+32 <= len(s.buf); o++ {
							if ref.BoxPriv(s.buf[o:o+32]) == *b {
								found = true
								p := ref.PubOf(s.buf[o:o+32], [8]byte{})
								w, _ := ref.BoxPub(p.Key[:])
								x.Check(w == *u, "key-mismatch", "public key does not belong to the secret key")
							}
						}
						x.Check(found, "not-from-random", "the secret key was not drawn from the random source")
						boxes = append(boxes, *b)
						x.State(b[:])
					}
					x.Check(boxes[0] != boxes[1], "repeated-key", "two generations gave the same key")
				}},
			}...)
		},
	})
}

var _ io.Reader = rand.Reader
