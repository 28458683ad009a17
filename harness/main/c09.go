package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"strings"

	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/secretbox"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// ephemeral finds the secret of epub in the random source's output.
func ephemeral(x *mc.X, out []byte, epub []byte) span { return ephemeralFrom(x, out, 0, epub) }

// ephemeralFrom is ephemeral where the key is likely to come from the output behind the first bytes.
func ephemeralFrom(x *mc.X, out []byte, from int, epub []byte) span {
	for i := 0; i+32 <= len(out); i++ {
		o := (from + i) % (len(out) - 31)
		var e, p [32]byte
		copy(e[:], out[o:])
		curve25519.ScalarBaseMult(&p, &e)
		if bytes.Equal(p[:], epub) {
			return span{"ephemeral key", o, o + 32}
		}
	}
	x.Fail("not-from-random", "the ephemeral key was not drawn in full from the random source")
	panic("unreachable")
}

// layout checks a written file strictly and returns the raw stream.
func layout(x *mc.X, f []byte, k *keyFix, msg []byte) []byte {
	raw, err := ref.ParseEnc(f)
	x.Check(err == nil, "text-layout", "encrypted file of %d bytes is not a comment line and 72-character base64 lines: %v", len(msg), err)
	got, err := ref.OpenRaw(k.boxPriv(), raw)
	x.Check(err == nil, "layout", "an independent implementation cannot decrypt %d bytes: %v", len(msg), err)
	x.Check(bytes.Equal(got, msg), "layout", "independent decryption: %s", diffAt(got, msg))
	n := (len(msg) + ref.Chunk - 1) / ref.Chunk
	x.Check(len(raw) == ref.HeaderSize+len(msg)+16*n, "layout", "raw length %d for %d bytes", len(raw), len(msg))
	return raw
}

// headSink takes 72 bytes.
type headSink struct{ b []byte }

func (s *headSink) Write(p []byte) (int, error) {
	n := 72 - len(s.b)
	if n > len(p) {
		n = len(p)
	}
	s.b = append(s.b, p[:n]...)
	if n < len(p) {
		return n, errSink
	}
	return n, nil
}

// endless is a source of zeros.
type endless struct{}

func (*endless) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

// nonceSink checks a sealed stream chunk by chunk against the specification.
type nonceSink struct {
	priv   *[32]byte
	head   []byte
	buf    []byte
	shared *[32]byte
	i      uint64
	g      *gen
	pos    int64
	err    string
	tmp    []byte
	want   []byte
}

func (s *nonceSink) Write(p []byte) (int, error) {
	n := len(p)
	if len(s.head) < ref.HeaderSize {
		k := ref.HeaderSize - len(s.head)
		if k > len(p) {
			k = len(p)
		}
		s.head = append(s.head, p[:k]...)
		p = p[k:]
		if len(s.head) == ref.HeaderSize {
			var epub [32]byte
			copy(epub[:], s.head[8:])
			s.shared = ref.Shared(s.priv, &epub)
		}
	}
	s.buf = append(s.buf, p...)
	for len(s.buf) >= ref.Chunk+16 {
		s.chunk(s.buf[:ref.Chunk+16])
		s.buf = append(s.buf[:0], s.buf[ref.Chunk+16:]...)
	}
	return n, nil
}

func (s *nonceSink) chunk(c []byte) {
	var nonce [24]byte
	binary.BigEndian.PutUint64(nonce[16:], s.i)
	m, ok := secretbox.Open(s.tmp[:0], c, &nonce, s.shared)
	if !ok {
		if s.err == "" {
			s.err = fmt.Sprintf("chunk %d does not open under nonce %d", s.i, s.i)
		}
		return
	}
	s.tmp = m
	if s.want == nil {
		s.want = make([]byte, ref.Chunk)
	}
	s.g.at(s.pos, s.want[:len(m)])
	if s.err == "" && !bytes.Equal(s.want[:len(m)], m) {
		s.err = fmt.Sprintf("chunk %d holds other data", s.i)
	}
	s.pos += int64(len(m))
	s.i++
}

func init() {
	mc.Register(mc.Property{
		ID: "C09", Level: "model_checking",
		Rule:        "state: distinct encrypted stream header or file; transition: one Seal or Open call; trace: one file decoded by the reference (written by it) and compared",
		Assumptions: []string{"ref.go states the encrypted file layout", "crypto/rand.Reader is the system's random source; it is replaced by recorded streams", "nonce carries beyond 65537 chunks (1 GiB) are not reached by encrypting, only by the function that advances the nonce"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, k2 := fixKey("c09", ""), fixKey("c09b", "")
			var lens []int
			for n := 0; n <= t.Pick(400, 2000); n++ {
				lens = append(lens, n)
			}
			for c := 1; c <= t.Pick(4, 9); c++ {
				for d := -3; d <= 3; d++ {
					lens = append(lens, c*ref.Chunk+d)
				}
			}
			lens = append(lens, 4096, 16384, 32768, 65536)
			return []mc.Scenario{
				{Name: "layout", Bounds: fmt.Sprintf("%d lengths (0..%d, chunk boundaries +-3) x 5 patterns: file decoded strictly by the reference, ephemeral key located in the random source", len(lens), t.Pick(400, 2000)), Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					msg := pattern(x.Choose("pattern", nPatterns), n)
					s := hashStream(fmt.Sprint("eph", n))
					setRand(x, s)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					x.Op("Seal %d bytes", n)
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e")); err != nil {
						x.Fail("seal", "Seal %d bytes: %v", n, err)
					}
					raw := layout(x, read(x, x.Path("e")), k, msg)
					ephemeral(x, s.buf, raw[8:40])
					x.State(raw[:72])
				}},
				{Name: "announced", Hang: 600e9, Bounds: "messages of 2^k-1, 2^k, 2^k+1 bytes, k=27..33, and 16385*2^j bytes and one less or more, j=11..18, on a disk that takes the first 50000 bytes of the output: the header announces the right number of chunks, and the first chunks open", Body: func(x *mc.X) {
					i := x.Choose("size", 21+24)
					n := int64(1)<<uint(27+i/3) + int64(i%3) - 1
					if i >= 21 {
						i -= 21
						n = ref.Chunk<<uint(11+i/3) + int64(i%3) - 1
					}
					setRand(x, hashStream(fmt.Sprint("announced", n)))
					k.put(x.Path("k"))
					f := sparse(x, x.Path("m"), n)
					defer f.Close()
					x.Op("Seal %d bytes", n)
					err := limited(50000, func() error { return crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e")) })
					x.Check(err != nil, "fault-ignored", "Seal of %d bytes succeeds on a disk that takes 50000", n)
					b, _ := os.ReadFile(x.Path("e"))
					p := bytes.IndexByte(b, '\n')
					if p < 0 {
						x.Outcome("no output left")
						return
					}
					text := bytes.Replace(b[p+1:], []byte("\n"), nil, -1)
					raw, err := base64.StdEncoding.DecodeString(string(text[:len(text)/4*4]))
					if err != nil || len(raw) < ref.HeaderSize {
						x.Outcome("no header left")
						return
					}
					bp := ref.BoxPriv(k.seed)
					var epub [32]byte
					copy(epub[:], raw[8:40])
					sh := ref.Shared(&bp, &epub)
					want := ref.Header(uint64((n+ref.Chunk-1)/ref.Chunk), &epub, sh)
					x.Check(bytes.Equal(raw[:ref.HeaderSize], want), "header", "Seal of %d bytes: header %x, want %x", n, raw[:ref.HeaderSize], want)
					for i, rest := uint64(0), raw[ref.HeaderSize:]; len(rest) >= ref.Chunk+16; i++ {
						m := make([]byte, ref.Chunk)
						f.ReadAt(m, int64(i)*ref.Chunk)
						x.Check(bytes.Equal(rest[:ref.Chunk+16], ref.Box(sh, i, m)), "chunk", "Seal of %d bytes: chunk %d is wrong", n, i)
						rest = rest[ref.Chunk+16:]
					}
					x.State(int(n))
					x.Outcome("header judged")
				}},
				{Name: "histories", ShardDepth: 2, Bounds: "all histories of 1..4 encryptions over {same message and key, other key, other message, empty} from one continuing stream: every ephemeral key is a fresh draw", Body: func(x *mc.X) {
					s := hashStream("hist9")
					setRand(x, s)
					k.put(x.Path("k"))
					k2.put(x.Path("k2"))
					write(x.Path("m"), pattern(0, 100))
					write(x.Path("m2"), pattern(0, ref.Chunk+7))
					write(x.Path("m0"), nil)
					var sp []span
					eph := map[string]bool{}
					for i := 0; i < 4; i++ {
						c := x.Choose("next", 5)
						if c == 0 {
							break
						}
						q, kn, mn := k, "k", "m"
						switch c {
						case 2:
							q, kn = k2, "k2"
						case 3:
							mn = "m2"
						case 4:
							mn = "m0"
						}
						x.Op("Seal %s to %s", mn, kn)
						err := crypto.Seal(x.Path(kn+".pub"), x.Path(mn), x.Path("e"))
						x.Check(err == nil, "seal", "Seal: %v", err)
						raw := layout(x, read(x, x.Path("e")), q, read(x, x.Path(mn)))
						x.Check(!eph[string(raw[8:40])], "key-reuse", "encryption %d reuses an ephemeral key", i+1)
						eph[string(raw[8:40])] = true
						sp = append(sp, ephemeral(x, s.buf, raw[8:40]))
						x.State(raw[:72])
					}
					disjoint(x, sp)
				}},
				{Name: "many", Hang: 300e9, Bounds: fmt.Sprintf("%d encryptions in one process from one continuing stream, of one message, two in turn or each another, to one recipient or two in turn", t.Pick(1030, 10000)), Body: func(x *mc.X) {
					kind, two := x.Choose("messages", 3), x.Bool("two recipients")
					s := hashStream("many9")
					setRand(x, s)
					k.put(x.Path("k"))
					k2.put(x.Path("k2"))
					write(x.Path("m"), pattern(0, 100))
					write(x.Path("m2"), pattern(1, 10))
					var sp []span
					at := 0
					for i := 0; i < t.Pick(1030, 10000); i++ {
						q, kn, mn := k, "k", "m"
						if two && i%2 == 1 {
							q, kn = k2, "k2"
						}
						if kind == 1 && i/2%2 == 1 {
							mn = "m2"
						} else if kind == 2 {
							write(x.Path("m"), pattern(0, i%200))
						}
						x.Op("Seal")
						err := crypto.Seal(x.Path(kn+".pub"), x.Path(mn), x.Path("e"))
						x.Check(err == nil, "seal", "Seal: %v", err)
						raw := layout(x, read(x, x.Path("e")), q, read(x, x.Path(mn)))
						sp = append(sp, ephemeralFrom(x, s.buf, at, raw[8:40]))
						at = sp[i].hi
						x.State(raw[:72])
					}
					disjoint(x, sp)
				}},
				{Name: "random-pieces", MaxDev: 2, Bounds: "random source answering reads with 1, 2, 7 or 31 bytes at up to 2 reads, or always 1", Body: func(x *mc.X) {
					s := hashStream("frag9")
					one := x.Bool("always-one")
					setRand(x, &fragReader{s, func(n int) int {
						if one {
							return 1
						}
						if c := x.Dev("read", 5); c > 0 {
							return []int{1, 2, 7, 31}[c-1]
						}
						return n
					}})
					k.put(x.Path("k"))
					msg := pattern(0, 40)
					write(x.Path("m"), msg)
					x.Op("Seal")
					err := crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e"))
					x.Check(err == nil, "seal", "Seal: %v", err)
					raw := layout(x, read(x, x.Path("e")), k, msg)
					ephemeral(x, s.buf, raw[8:40])
					x.State(raw[:72])
				}},
				{Name: "random-failure", Bounds: "random source failing at byte 0..40: Seal fails", Body: func(x *mc.X) {
					at := x.Choose("at", 33)
					if at == 32 {
						at = 0
					}
					setRand(x, &failReader{s: hashStream("x"), n: at})
					_, pub := k.load(x)
					var b bytes.Buffer
					x.Op("seal with %d random bytes", at)
					err := crypto.VerifSeal(pub, bytes.NewReader([]byte("m")), 1, &b)
					x.State(at)
					x.Check(err != nil, "no-randomness", "encryption succeeded with only %d bytes of randomness", at)
				}},
				{Name: "foreign", Bounds: fmt.Sprintf("reference-made files: %d lengths x 6 comments x 2 ephemeral keys open to the exact message", len(lens)), Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					c := []string{"psignify encrypted file", "", "x", strings.Repeat("y", 2000), "RWQ=", "untrusted comment: z"}[x.Choose("comment", 6)]
					var eph [32]byte
					copy(eph[:], bigBytes(uint64(n+1000*x.Choose("eph", 2)), 32))
					msg := bigBytes(uint64(n), n)
					noPrompt(x)
					write(x.Path("k.sec"), k.secF)
					write(x.Path("e"), ref.EncFile(c, ref.SealRaw(k.boxPub(), &eph, msg)))
					x.Op("Open %d bytes", n)
					err := crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("o"))
					x.Check(err == nil, "foreign-refused", "reference file of %d bytes, comment %q, refused: %v", n, c, err)
					got := read(x, x.Path("o"))
					x.Check(bytes.Equal(got, msg), "wrong-plaintext", "reference file of %d bytes: %s", n, diffAt(got, msg))
					x.State(n, c, eph[:])
				}},
				{Streams: true, Name: "nonces", Hang: 600e9, Bounds: "254..259, 511..513 and 65535..65538 chunks: every chunk opens under exactly its own number, streamed", Body: func(x *mc.X) {
					counts := []int64{65537, 65538, 254, 255, 256, 257, 258, 259, 511, 512, 513}
					c := counts[x.Choose("chunks", len(counts))]
					n := c * ref.Chunk
					if c == 65538 {
						n -= 9000
					}
					setRand(x, hashStream("many9"))
					_, pub := k.load(x)
					s := &nonceSink{priv: k.boxPriv(), g: newGen(6, n)}
					x.Op("seal %d chunks", c)
					err := crypto.VerifSeal(pub, newGen(6, n), int(n), s)
					x.Check(err == nil, "seal", "sealing %d chunks: %v", c, err)
					if len(s.buf) > 0 {
						s.chunk(s.buf)
					}
					x.Check(s.err == "", "nonce", "%d chunks: %s", c, s.err)
					x.Check(s.i == uint64(c) && s.pos == n && binary.BigEndian.Uint64(s.head) == uint64(c), "layout", "%d chunks written, header says %d, want %d", s.i, binary.BigEndian.Uint64(s.head), c)
					x.State(int(c), int(n))
				}},
				{Streams: true, Name: "nonce-steps", ShardDepth: 2, Bounds: "the function that advances the nonce: every value of each of the low 7 bytes with every run of zeros or ones below and above it, and all 2^16 low values at 9 offsets, up to 2^50: adds one", Body: func(x *mc.X) {
					if crypto.VerifStep == nil {
						x.Outcome("there is none")
						return
					}
					check := func(v uint64) {
						if v >= 1<<50 {
							return
						}
						var n, want [24]byte
						binary.BigEndian.PutUint64(n[16:], v)
						binary.BigEndian.PutUint64(want[16:], v+1)
						err := crypto.VerifStep(&n)
						x.Ops(1)
						x.Check(err == nil && n == want, "nonce", "the nonce after that of chunk %d is %x, %v", v, n, err)
					}
					b := uint(x.Choose("byte", 8))
					if b == 7 {
						off := []uint64{0, 1 << 16, 1<<24 - 1<<16, 1 << 24, 1<<32 - 1<<16, 1 << 32, 1<<40 - 1<<16, 1<<48 - 1<<16, 1<<50 - 1<<16}[x.Choose("offset", 9)]
						for i := uint64(0); i < 1<<16; i++ {
							check(off + i)
						}
						x.State(off)
						return
					}
					ones := uint(x.Choose("ones below", int(b)*8+1))
					for v := uint64(0); v < 256; v++ {
						for _, top := range []uint64{0, 1, 0x55, 0xff, 0xffff, 0xffffffff} {
							check(top<<((b+1)*8) | v<<(b*8) | 1<<ones - 1)
							check(top<<((b+1)*8) | v<<(b*8) | (1<<(b*8) - 1) ^ (1<<ones - 1))
						}
					}
					x.State(b, ones)
				}},
				{Streams: true, Name: "announced-streams", ShardDepth: 1, Bounds: "messages announced as 2^k-1, 2^k, 2^k+1 and c*16385+{-1,0,1} bytes, c = 2^j, up to 2^62, into a writer that takes the header only: it announces the right number of chunks", Body: func(x *mc.X) {
					if !crypto.VerifInternal {
						x.Outcome("through files")
						return
					}
					i := x.Choose("size", 3*(63+49))
					n := 1<<uint(i/3) + i%3 - 1
					if i >= 3*63 {
						n = 16385<<uint((i-3*63)/3) + i%3 - 1
					}
					setRand(x, hashStream("announced"))
					_, pub := k.load(x)
					s := &headSink{}
					x.Op("seal %d bytes", n)
					err := crypto.VerifSeal(pub, &endless{}, n, s)
					if n > 0 {
						x.Check(err != nil, "write-error-lost", "encrypting %d bytes into a full writer succeeds", n)
					}
					x.Check(len(s.b) >= 72, "layout", "%d bytes: %d bytes written", n, len(s.b))
					want := uint64((n-1)/ref.Chunk + 1)
					if n == 0 {
						want = 0
					}
					x.Check(binary.BigEndian.Uint64(s.b) == want, "layout", "message of %d bytes: header announces %d chunks, want %d", n, binary.BigEndian.Uint64(s.b), want)
					x.State(n)
				}},
				{Streams: true, Name: "foreign-many", Hang: 600e9, Bounds: "reference-made streams of 255..258 and 65537 chunks decrypt", Body: func(x *mc.X) {
					counts := []int64{65537, 255, 256, 257, 258}
					c := counts[x.Choose("chunks", len(counts))]
					n := c*ref.Chunk - 5000
					priv, _ := k.load(x)
					var eph, epub [32]byte
					eph[7] = 77
					curve25519.ScalarBaseMult(&epub, &eph)
					sh := ref.Shared(&eph, k.boxPub())
					src := &foreignGen{g: newGen(8, n), n: n, shared: sh, pending: ref.Header(uint64(c), &epub, sh)}
					s := &sink{g: newGen(8, n), bad: -1}
					x.Op("open %d chunks", c)
					err := crypto.VerifOpen(priv, fullReader{src}, s)
					x.Check(err == nil, "foreign-refused", "reference stream of %d chunks: %v", c, err)
					x.Check(s.bad < 0 && s.pos == n, "wrong-plaintext", "reference stream of %d chunks: %d of %d bytes", c, s.pos, n)
					x.State(int(c))
				}},
			}
		},
	})
}

// foreignGen streams a reference-made encrypted message.
type foreignGen struct {
	g       *gen
	n, pos  int64
	i       uint64
	shared  *[32]byte
	pending []byte
	chunk   []byte
}

func (f *foreignGen) Read(p []byte) (int, error) {
	if len(f.pending) == 0 {
		if f.pos >= f.n {
			return 0, io.EOF
		}
		if f.chunk == nil {
			f.chunk = make([]byte, ref.Chunk)
		}
		k := int64(ref.Chunk)
		if k > f.n-f.pos {
			k = f.n - f.pos
		}
		f.g.at(f.pos, f.chunk[:k])
		f.pos += k
		f.pending = ref.Box(f.shared, f.i, f.chunk[:k])
		f.i++
	}
	k := copy(p, f.pending)
	f.pending = f.pending[k:]
	return k, nil
}

// failReader gives n bytes and then fails.
type failReader struct {
	s *stream
	n int
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.s.pos >= f.n {
		return 0, fmt.Errorf("no more randomness")
	}
	if len(p) > f.n-f.s.pos {
		p = p[:f.n-f.s.pos]
	}
	return f.s.Read(p)
}
