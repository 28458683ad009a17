package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// roundTrip seals and opens in memory through the base64 coder.
func roundTrip(x *mc.X, priv *signify.Private, pub *signify.Public, msg []byte) {
	var text bytes.Buffer
	enc := psb64.NewEncoder(&text)
	x.Op("seal %d bytes", len(msg))
	if err := crypto.VerifSeal(pub, bytes.NewReader(msg), len(msg), enc); err != nil {
		x.Fail("seal", "encrypting %d bytes: %v", len(msg), err)
	}
	if err := enc.Close(); err != nil {
		x.Fail("seal", "closing the encoder: %v", err)
	}
	var out bytes.Buffer
	x.Op("open")
	if err := crypto.VerifOpen(priv, psb64.NewDecoder(&text), &out); err != nil {
		x.Fail("open", "decrypting a %d-byte message: %v", len(msg), err)
	}
	x.Check(bytes.Equal(out.Bytes(), msg), "wrong-plaintext", "decryption of a %d-byte message: %s", len(msg), diffAt(out.Bytes(), msg))
}

// gen is an io.Reader producing n reproducible bytes without holding them.
type gen struct {
	id   uint64
	pos  int64
	n    int64
	tile []byte
}

func newGen(id uint64, n int64) *gen { return &gen{id: id, n: n, tile: bigBytes(id, 65537)} }

// at fills p with the stream content from offset off.
func (g *gen) at(off int64, p []byte) {
	for len(p) > 0 {
		i := off % int64(len(g.tile))
		k := copy(p, g.tile[i:])
		// make every 4 KiB block distinct by its number
		for j := 0; j < k; j++ {
			if (off+int64(j))%4096 < 8 {
				p[j] ^= byte((off + int64(j)) / 4096 >> (8 * uint((off+int64(j))%4096)))
			}
		}
		p = p[k:]
		off += int64(k)
	}
}

func (g *gen) Read(p []byte) (int, error) {
	if g.pos >= g.n {
		return 0, io.EOF
	}
	if int64(len(p)) > g.n-g.pos {
		p = p[:g.n-g.pos]
	}
	g.at(g.pos, p)
	g.pos += int64(len(p))
	return len(p), nil
}

// sink compares what it is given with a gen's content.
type sink struct {
	g   *gen
	pos int64
	bad int64
}

func (s *sink) Write(p []byte) (int, error) {
	w := make([]byte, len(p))
	s.g.at(s.pos, w)
	if s.bad < 0 && !bytes.Equal(w, p) {
		s.bad = s.pos
	}
	s.pos += int64(len(p))
	return len(p), nil
}

// fullReader makes every Read complete unless the source ends.
type fullReader struct{ r io.Reader }

func (f fullReader) Read(p []byte) (int, error) {
	n, err := io.ReadFull(f.r, p)
	if err == io.ErrUnexpectedEOF {
		err = nil
	}
	return n, err
}

func init() {
	mc.Register(mc.Property{
		ID: "C07", Level: "model_checking",
		Rule:        "state: distinct (message length or path configuration, outcome); transition: one seal/open or Seal/Open call; trace: one complete encryption and decryption compared with the original",
		Assumptions: []string{"nacl box and the file system are correct", "contents outside the enumerated patterns behave like them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, kp := fixKey("c07", ""), fixKey("c07p", "pw")
			special := specialContents()
			maxLen := t.Pick(33000, 66000)
			bounds := []int{}
			for c := 0; c <= 4; c++ {
				for d := -2; d <= 2; d++ {
					if n := c*ref.Chunk + d; n >= 0 {
						bounds = append(bounds, n)
					}
				}
			}
			for n := 3; n <= 120; n++ {
				bounds = append(bounds, n)
			}
			bounds = append(bounds, 4095, 4096, 4097, 16384-16, 8192, 32768, 65536, 100000)
			return []mc.Scenario{
				{Name: "all-lengths", Bounds: fmt.Sprintf("every message length 0..%d through the line-breaking coder in memory", maxLen), Body: func(x *mc.X) {
					n := x.Choose("len", maxLen+1)
					setRand(x, constStream(byte(n)^0x5a))
					priv, pub := k.load(x)
					roundTrip(x, priv, pub, bigBytes(uint64(n), n))
					x.State(n)
				}},
				{Name: "boundaries", Bounds: fmt.Sprintf("%d lengths around 0..4 chunks and small, %d content patterns, plain and protected key, previous output none/shorter/longer, through files", len(bounds), nPatterns), Body: func(x *mc.X) {
					n := bounds[x.Choose("len", len(bounds))]
					pat := x.Choose("pattern", nPatterns)
					q := k
					if n >= ref.Chunk-2 && x.Bool("protected") {
						q = kp
					}
					prev := x.Choose("previous", 3)
					msg := pattern(pat, n)
					setRand(x, hashStream("c07"))
					setPrompt(x, answerWith(q.pass))
					q.put(x.Path("k"))
					write(x.Path("m"), msg)
					if prev > 0 {
						old := bytes.Repeat([]byte("OLD\n"), []int{0, 1, 60000}[prev])
						write(x.Path("m.enc"), old)
						write(x.Path("o"), old)
					}
					x.Op("Seal %d bytes", n)
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), ""); err != nil {
						x.Fail("seal", "encrypting %d bytes: %v", n, err)
					}
					x.Op("Open")
					if err := crypto.Open(x.Path("k.sec"), x.Path("m.enc"), x.Path("o")); err != nil {
						x.Fail("open", "decrypting %d bytes: %v", n, err)
					}
					got := read(x, x.Path("o"))
					x.Check(bytes.Equal(got, msg), "wrong-plaintext", "round trip of %d bytes: %s", n, diffAt(got, msg))
					x.State(n, pat, prev, q.pass)
				}},
				{Name: "keys", Bounds: fmt.Sprintf("%d generated keys (random-source families), plain and protected", t.Pick(800, 3000)), Body: func(x *mc.X) {
					f := x.Choose("family", t.Pick(800, 3000))
					pass := ""
					if f%8 == 0 && x.Bool("protected") {
						pass = "p w"
					}
					setRand(x, family(f))
					g := generate(x, x.Path("k"), pass, &signify.GenerateOptions{Rounds: 1})
					setPrompt(x, answerWith(pass))
					setRand(x, family(f+1))
					msg := pattern(0, 60)
					write(x.Path("m"), msg)
					x.Op("Seal, Open")
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e")); err != nil {
						x.Fail("seal", "encrypting to a generated key: %v", err)
					}
					if err := crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("o")); err != nil {
						x.Fail("open", "decrypting with a generated key: %v", err)
					}
					x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-plaintext", "round trip with generated key")
					x.State(g.pubF)
				}},
				{Name: "contents", Bounds: fmt.Sprintf("%d contents that look like something else (keys, signatures, encrypted and compressed files, marks, line ends, option and shell text)", len(special)), Body: func(x *mc.X) {
					msg := special[x.Choose("content", len(special))]
					k.put(x.Path("k"))
					noPrompt(x)
					setRand(x, hashStream("c"))
					write(x.Path("m"), msg)
					x.Op("Seal, Open %q", msg)
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), ""); err != nil {
						x.Fail("seal", "Seal of %q: %v", msg, err)
					}
					if err := crypto.Open(x.Path("k.sec"), x.Path("m.enc"), x.Path("o")); err != nil {
						x.Fail("open", "Open of %q: %v", msg, err)
					}
					x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-plaintext", "round trip of %q", msg)
					x.State(msg)
				}},
				{Name: "names", ShardDepth: 2, Bounds: fmt.Sprintf("%d awkward names as message, encrypted file, key and output name, or as directory of it, absolute, relative and bare", len(specialNames)), Body: func(x *mc.X) {
					n := specialNames[x.Choose("name", len(specialNames))]
					if x.Bool("directory") {
						mkdir(x.Dir() + "/" + n)
						n += "/f"
					}
					role := x.Choose("role", 4)
					at := place(x)
					noPrompt(x)
					setRand(x, hashStream("names"))
					key, msg, enc, out := at("k"), at("msg"), "", at("out")
					switch role {
					case 0:
						msg = at(n)
					case 1:
						enc = at(n)
					case 2:
						key = at(n)
					case 3:
						out = at(n)
					}
					k.put(key)
					m := pattern(3, 300)
					write(msg, m)
					x.Op("Seal(%q, %q, %q)", key, msg, enc)
					if err := crypto.Seal(key+".pub", msg, enc); err != nil {
						x.Fail("seal", "Seal(%q, %q, %q): %v", key+".pub", msg, enc, err)
					}
					if enc == "" {
						enc = msg + ".enc"
					}
					x.Op("Open(%q, %q)", enc, out)
					if err := crypto.Open(key+".sec", enc, out); err != nil {
						x.Fail("open", "Open(%q, %q, %q): %v", key+".sec", enc, out, err)
					}
					want := x.Path("out")
					if role == 3 {
						want = x.Dir() + "/" + n
					}
					x.Check(bytes.Equal(read(x, want), m), "wrong-plaintext", "round trip with %q as %d", n, role)
					x.State(n, role)
				}},
				{Name: "long-names", ShardDepth: 2, Bounds: "message names of every length 1..255, encrypted by default and to a named file, decrypted to another of that length: what fits round-trips, and the default is never another name", Body: func(x *mc.X) {
					k.put(x.Path("k"))
					noPrompt(x)
					setRand(x, hashStream("names"))
					n := 1 + x.Choose("length", 255)
					mkdir(x.Path("in"))
					mkdir(x.Path("out"))
					msg, out := x.Path("in", longName(n, "")), x.Path("out", longName(n, ""))
					m := pattern(3, 60)
					write(msg, m)
					for _, enc := range []string{"", x.Path("e")} {
						x.Op("Seal, Open")
						err := crypto.Seal(x.Path("k.pub"), msg, enc)
						x.Check(err == nil || enc == "" && n > 251, "seal", "message name of %d bytes: Seal: %v", n, err)
						if err != nil {
							continue
						}
						if enc == "" {
							enc = msg + ".enc"
						}
						err = crypto.Open(x.Path("k.sec"), enc, out)
						x.Check(err == nil, "open", "message name of %d bytes: Open: %v", n, err)
						x.Check(bytes.Equal(read(x, out), m), "wrong-plaintext", "round trip with names of %d bytes", n)
						os.Remove(out)
					}
					x.State(n)
				}},
				{Name: "kinds", ShardDepth: 2, Bounds: fmt.Sprintf("secret key, public key, message and encrypted file each in turn one of %d kinds of files (links, read-only) x what is at the output paths (%d kinds) x sizes 0, 80, 16385, 40000", len(inputKinds), len(outputKinds)), Body: func(x *mc.X) {
					role, kind := x.Choose("role", 4), x.Choose("kind", len(inputKinds))
					was := x.Choose("previous", len(outputKinds))
					m := pattern(3, []int{0, 80, 16385, 40000}[x.Choose("size", 4)])
					kinds := [4]int{}
					kinds[role] = kind
					noPrompt(x)
					setRand(x, hashStream("kinds"))
					sec := putInput(x.Path("k.sec"), kinds[0], k.secF)
					pub := putInput(x.Path("k.pub"), kinds[1], k.pubF)
					msg := putInput(x.Path("m"), kinds[2], m)
					putOutput(x.Path("e"), was)
					putOutput(x.Path("o"), was)
					x.Op("Seal, Open")
					what := fmt.Sprintf("%s a %s, outputs onto %s, %d bytes", []string{"secret key", "public key", "message", "encrypted file"}[role], inputKinds[kind], outputKinds[was], len(m))
					if err := crypto.Seal(pub, msg, x.Path("e")); err != nil {
						x.Fail("seal", "%s: Seal: %v", what, err)
					}
					enc := x.Path("e")
					if kinds[3] != 0 {
						enc = putInput(x.Path("e2"), kinds[3], read(x, enc))
					}
					if err := crypto.Open(sec, enc, x.Path("o")); err != nil {
						x.Fail("open", "%s: Open: %v", what, err)
					}
					got := read(x, x.Path("o"))
					x.Check(bytes.Equal(got, m), "wrong-plaintext", "%s: %s", what, diffAt(got, m))
					x.State(what)
				}},
				{Name: "paths", Bounds: "message names x encrypted path forms x previous outputs, absolute and relative", Body: func(x *mc.X) {
					names := []string{"m", "m.enc", "a b", "new\nline", ".x", "ü", "-m", string(bytes.Repeat([]byte("m"), 250)), "%s%n"}
					mn := names[x.Choose("msg", len(names))]
					form := x.Choose("enc", 4)
					prev := x.Choose("previous", 3)
					rel := x.Bool("relative")
					noPrompt(x)
					setRand(x, hashStream("p"))
					at := func(n string) string { return x.Dir() + "/" + n }
					if rel {
						old, err := os.Getwd()
						if err != nil {
							old = "/"
						}
						os.Chdir(x.Dir())
						x.Cleanup(func() { os.Chdir(old) })
						at = func(n string) string { return "./" + n }
					}
					k.put(at("k"))
					msg := pattern(3, 500)
					write(at(mn), msg)
					arg, enc := "", at(mn)+".enc"
					switch form {
					case 1:
						arg, enc = at("out"), at("out")
					case 2:
						mkdir(at("sub dir"))
						arg, enc = at("sub dir/e\nf"), at("sub dir/e\nf")
					case 3:
						os.Symlink("real", at("link"))
						arg, enc = at("link"), at("real")
					}
					old := bytes.Repeat([]byte("old "), []int{0, 1, 9000}[prev])
					if prev > 0 {
						write(enc, old)
						write(at("plain"), old)
					}
					x.Op("Seal(%q, %q)", mn, arg)
					if err := crypto.Seal(at("k.pub"), at(mn), arg); err != nil {
						x.Fail("seal", "Seal(%q, %q): %v", mn, arg, err)
					}
					x.Op("Open(%q)", enc)
					if err := crypto.Open(at("k.sec"), enc, at("plain")); err != nil {
						x.Fail("open", "Open(%q): %v", enc, err)
					}
					x.Check(bytes.Equal(read(x, at("plain")), msg), "wrong-plaintext", "round trip through %q", enc)
					x.Check(bytes.Equal(read(x, at(mn)), msg), "message-changed", "encrypting changed the message")
					x.State(mn, form, prev, rel)
				}},
				{Name: "huge-files", Hang: 600e9, Bounds: fmt.Sprintf("files of 2^k-1, 2^k and 2^k+1 bytes for k=20..%d through Seal and Open", t.Pick(23, 28)), Body: func(x *mc.X) {
					top := t.Pick(23, 28)
					i := x.Choose("size", (top-19)*3)
					n := int64(1)<<uint(top-i/3) + int64(i%3) - 1
					setRand(x, hashStream("huge"))
					noPrompt(x)
					k.put(x.Path("k"))
					sparse(x, x.Path("m"), n).Close()
					x.Op("Seal %d bytes", n)
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), ""); err != nil {
						x.Fail("seal", "encrypting %d bytes: %v", n, err)
					}
					x.Op("Open")
					if err := crypto.Open(x.Path("k.sec"), x.Path("m.enc"), x.Path("o")); err != nil {
						x.Fail("open", "decrypting %d bytes: %v", n, err)
					}
					at, err := sameContent(x.Path("m"), x.Path("o"))
					x.Check(err == nil, "wrong-plaintext", "comparing: %v", err)
					x.Check(at < 0, "wrong-plaintext", "round trip of a file of %d bytes: first difference in the block at %d", n, at)
					x.State(int(n))
				}},
				{Name: "chunk-files", Hang: 600e9, Bounds: fmt.Sprintf("files of c chunks and one byte less, none or one more, c = 2^k and 3*2^k up to %d, through Seal and Open", t.Pick(1024, 16384)), Body: func(x *mc.X) {
					var counts []int
					for c := t.Pick(1024, 16384); c > 0; c /= 2 {
						counts = append(counts, c)
						if c >= 4 && c <= t.Pick(256, 4096) {
							counts = append(counts, c/4*3)
						}
					}
					c := counts[x.Choose("chunks", len(counts))]
					n := int64(c)*ref.Chunk + int64(x.Choose("more", 3)) - 1
					setRand(x, hashStream("chunks"))
					noPrompt(x)
					k.put(x.Path("k"))
					sparse(x, x.Path("m"), n).Close()
					x.Op("Seal %d bytes", n)
					if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), ""); err != nil {
						x.Fail("seal", "encrypting %d bytes: %v", n, err)
					}
					x.Op("Open")
					if err := crypto.Open(x.Path("k.sec"), x.Path("m.enc"), x.Path("o")); err != nil {
						x.Fail("open", "decrypting %d bytes: %v", n, err)
					}
					at, err := sameContent(x.Path("m"), x.Path("o"))
					x.Check(err == nil, "wrong-plaintext", "comparing: %v", err)
					x.Check(at < 0, "wrong-plaintext", "round trip of a file of %d bytes: first difference in the block at %d", n, at)
					x.State(int(n))
				}},
				{Streams: true, Name: "many-chunks", Hang: 600e9, Bounds: "254..259, 511..513 and 65535..65538 chunks (past one and two nonce carries), whole and ending in a short chunk, streamed", Body: func(x *mc.X) {
					counts := []int64{65537, 65538, 254, 255, 256, 257, 258, 259, 511, 512, 513}
					c := counts[x.Choose("chunks", len(counts))]
					n := c * ref.Chunk
					if c < 60000 && x.Bool("short-tail") || c == 65538 {
						n -= 16000
					}
					setRand(x, hashStream("many"))
					priv, pub := k.load(x)
					pr, pw := io.Pipe()
					x.Op("seal %d chunks", c)
					go func() {
						err := crypto.VerifSeal(pub, newGen(5, n), int(n), pw)
						if err != nil {
							pw.CloseWithError(fmt.Errorf("seal: %v", err))
							return
						}
						pw.Close()
					}()
					s := &sink{g: newGen(5, n), bad: -1}
					x.Op("open %d chunks", c)
					err := crypto.VerifOpen(priv, fullReader{pr}, s)
					pr.CloseWithError(io.ErrClosedPipe)
					x.Check(err == nil, "open", "round trip of %d chunks: %v", c, err)
					x.Check(s.bad < 0 && s.pos == n, "wrong-plaintext", "round trip of %d chunks: %d of %d bytes, first difference in the write at %d", c, s.pos, n, s.bad)
					x.State(int(c), int(n))
				}},
			}
		},
	})
}
