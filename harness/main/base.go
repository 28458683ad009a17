package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"golang.org/x/crypto/curve25519"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

func main() {
	probeStreams()
	mc.HaveStreams = crypto.VerifInternal
	mc.HaveFastKDF = haveFastKDF
	mc.Main()
}

// probeStreams finds out, once for a check and in its first process only, whether the functions that
// tools/export.py found are those that read and write the bare format.
func probeStreams() {
	if len(os.Args) > 1 && (os.Args[1] == "check" || os.Args[1] == "replay") {
		os.Setenv("VERIF_STREAMS", "files")
		if crypto.VerifInternal && streamsWork() {
			os.Setenv("VERIF_STREAMS", "internal")
		}
	}
	if os.Getenv("VERIF_STREAMS") == "files" {
		crypto.VerifInternal = false
	}
}

func streamsWork() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "probe")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	k := fixKey("probe", "")
	write(d+"/k.sec", k.secF)
	write(d+"/k.pub", k.pubF)
	priv, err := signify.LoadPrivateKey(d + "/k.sec")
	if err != nil {
		return true // for the checks to judge
	}
	pub, err := signify.LoadPublicKey(d + "/k.pub")
	if err != nil {
		return true
	}
	msg := []byte("a message to find out with")
	var sealed, opened bytes.Buffer
	if crypto.VerifSeal(pub, bytes.NewReader(msg), len(msg), &sealed) != nil {
		return true
	}
	if got, err := ref.OpenRaw(k.boxPriv(), sealed.Bytes()); err != nil || !bytes.Equal(got, msg) {
		return false
	}
	var e [32]byte
	e[1] = 7
	err = crypto.VerifOpen(priv, fullReader{bytes.NewReader(ref.SealRaw(k.boxPub(), &e, msg))}, &opened)
	return err == nil && bytes.Equal(opened.Bytes(), msg)
}

// ---- files -----------------------------------------------------------------------------------

func write(path string, b []byte) {
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// writeIf0 avoids rewriting the same fixture.
func read(x *mc.X, path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		x.Fail("missing-output", "expected output file: %v", err)
	}
	return b
}

func exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// tree returns the content of every file below dir.
func tree(dir string) map[string]string {
	m := map[string]string{}
	var walk func(p, rel string)
	walk = func(p, rel string) {
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			n := rel + e.Name()
			if e.IsDir() {
				walk(p+"/"+e.Name(), n+"/")
				continue
			}
			b, err := os.ReadFile(p + "/" + e.Name())
			if err != nil {
				b = []byte("unreadable: " + err.Error())
			}
			m[n] = string(b)
		}
	}
	walk(dir, "")
	return m
}

// diffTree lists names whose content differs, apart from the allowed ones.
func diffTree(a, b map[string]string, allowed ...string) []string {
	ok := map[string]bool{}
	for _, n := range allowed {
		ok[n] = true
	}
	var d []string
	for n, v := range a {
		if w, there := b[n]; !ok[n] && (!there || w != v) {
			d = append(d, n)
		}
	}
	for n := range b {
		if _, there := a[n]; !ok[n] && !there {
			d = append(d, n)
		}
	}
	return d
}

// ---- randomness ------------------------------------------------------------------------------

// stream is a deterministic random source that remembers how much was drawn.
type stream struct {
	at  func(pos int) byte
	pos int
	buf []byte // everything handed out
}

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = s.at(s.pos)
		s.pos++
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func constStream(b byte) *stream { return &stream{at: func(int) byte { return b }} }

// hashStream is a pseudo-random stream with the given id.
func hashStream(id string) *stream {
	var block [32]byte
	cur := -1
	return &stream{at: func(pos int) byte {
		if pos/32 != cur {
			cur = pos / 32
			block = sha256.Sum256([]byte(fmt.Sprintf("%s/%d", id, cur)))
		}
		return block[pos%32]
	}}
}

// family numbers RNG streams: 0..255 constant bytes, then counters, then hashes.
func family(i int) *stream {
	switch {
	case i < 256:
		return constStream(byte(i))
	case i < 512:
		return &stream{at: func(pos int) byte { return byte(pos + i) }}
	case i < 768:
		return &stream{at: func(pos int) byte { return byte(i) - byte(pos)*3 }}
	}
	return hashStream(fmt.Sprint("family", i))
}

func setRand(x *mc.X, r io.Reader) {
	old := rand.Reader
	rand.Reader = r
	x.Cleanup(func() { rand.Reader = old })
}

// ---- prompts ---------------------------------------------------------------------------------

type promptCall struct {
	confirm bool
	given   []byte // the slice handed out
	orig    string
}

type prompter struct {
	calls  []promptCall
	answer func(n int, confirm bool) ([]byte, error)
}

var errPrompt = errors.New("no terminal")

// setPrompt installs a prompt; answer gets the call number.
func setPrompt(x *mc.X, answer func(n int, confirm bool) ([]byte, error)) *prompter {
	p := &prompter{answer: answer}
	old := signify.PassphrasePrompt
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		b, err := p.answer(len(p.calls), confirm)
		p.calls = append(p.calls, promptCall{confirm, b, string(b)})
		return b, err
	}
	x.Cleanup(func() { signify.PassphrasePrompt = old })
	return p
}

func answerWith(pass string) func(int, bool) ([]byte, error) {
	return func(int, bool) ([]byte, error) { return []byte(pass), nil }
}

func noPrompt(x *mc.X) *prompter {
	return setPrompt(x, func(int, bool) ([]byte, error) { return nil, errPrompt })
}

// ---- keys ------------------------------------------------------------------------------------

// keyFix is a fixture key made by the reference.
type keyFix struct {
	name string
	seed []byte
	num  [8]byte
	pass string // "" unprotected
	sec  ref.Sec
	pub  ref.Pub
	secF []byte
	pubF []byte
}

func fixKey(name string, pass string) *keyFix {
	k := &keyFix{name: name, pass: pass}
	h := sha256.Sum256([]byte("seed " + name))
	k.seed = h[:]
	n := sha256.Sum256([]byte("num " + name))
	copy(k.num[:], n[:])
	var salt [16]byte
	copy(salt[:], n[8:])
	r := uint32(0)
	if pass != "" {
		r = 1
	}
	k.sec = ref.MakeSec(k.seed, k.num, salt, r, []byte(pass))
	k.pub = ref.PubOf(k.seed, k.num)
	k.render()
	return k
}

func (k *keyFix) render() {
	k.secF = ref.File("signify secret key", k.sec.Encode())
	k.pubF = ref.File("signify public key", k.pub.Encode())
}

// put writes base.sec and base.pub.
func (k *keyFix) put(base string) {
	write(base+".sec", k.secF)
	write(base+".pub", k.pubF)
}

func (k *keyFix) boxPriv() *[32]byte { s := ref.BoxPriv(k.seed); return &s }

func (k *keyFix) boxPub() *[32]byte {
	u, ok := ref.BoxPub(k.pub.Key[:])
	if !ok {
		panic("harness: box pub")
	}
	return &u
}

// must loads the key through the real API (fixtures are valid, so this must work).
func (k *keyFix) load(x *mc.X) (*signify.Private, *signify.Public) {
	d := x.Path("fixkey")
	k.put(d)
	priv, err := signify.LoadPrivateKey(d + ".sec")
	if err != nil {
		x.Fail("load", "valid secret key refused: %v", err)
	}
	pub, err := signify.LoadPublicKey(d + ".pub")
	if err != nil {
		x.Fail("load", "valid public key refused: %v", err)
	}
	os.Remove(d + ".sec")
	os.Remove(d + ".pub")
	crypto.VerifKeep(priv, k.secF)
	crypto.VerifKeep(pub, k.pubF)
	return priv, pub
}

// ---- contents --------------------------------------------------------------------------------

const nPatterns = 5

// pattern makes deterministic message content.
func pattern(kind, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case 0:
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		s := "untrusted comment: x\nRWQ=\n\r\n"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	case 4:
		for i := range b {
			b[i] = '\n'
		}
	}
	return b
}

// big makes distinct pseudo-random content quickly.
func bigBytes(id uint64, n int) []byte {
	b := make([]byte, n)
	s := id*0x9e3779b97f4a7c15 + 1
	for i := 0; i+8 <= n; i += 8 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		binary.LittleEndian.PutUint64(b[i:], s)
	}
	return b
}

func short(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func diffAt(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("lengths %d and %d, first difference at %d", len(a), len(b), i)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func isPrefix(p, b []byte) bool { return len(p) <= len(b) && bytes.Equal(p, b[:len(p)]) }

func join(ss []string) string { return strings.Join(ss, ", ") }

// capture turns a panic of the code under test into a violation with context.
func guarded(x *mc.X, key, what string, f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(mc.Violation); ok {
				panic(v)
			}
			x.Fail(key, "%s panicked: %v", what, p)
		}
	}()
	return f()
}

func mkdir(p string) {
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// sparse makes a file of n bytes: a marked 4 KiB page at its start, before and
// after every power of two, and at its end; zeros elsewhere.
func sparse(x *mc.X, path string, n int64) *os.File {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		panic(err)
	}
	if err := f.Truncate(n); err != nil {
		panic(err)
	}
	page := func(at int64) {
		if at < 0 {
			at = 0
		}
		b := bigBytes(uint64(at)+9, 4096)
		if at+4096 > n {
			b = b[:n-at]
		}
		if _, err := f.WriteAt(b, at); err != nil {
			panic(err)
		}
	}
	page(0)
	for p := int64(8192); p < n; p *= 2 {
		page(p - 4096)
		page(p)
	}
	page(n - 4096)
	return f
}

// sameContent compares two files; it returns the offset of the first differing block, or -1.
func sameContent(a, b string) (int64, error) {
	fa, err := os.Open(a)
	if err != nil {
		return 0, err
	}
	defer fa.Close()
	fb, err := os.Open(b)
	if err != nil {
		return 0, err
	}
	defer fb.Close()
	ba, bb := make([]byte, 1<<20), make([]byte, 1<<20)
	for at := int64(0); ; {
		na, ea := io.ReadFull(fa, ba)
		nb, eb := io.ReadFull(fb, bb)
		if na != nb || !bytes.Equal(ba[:na], bb[:nb]) {
			return at, nil
		}
		if ea != nil || eb != nil {
			return -1, nil
		}
		at += int64(na)
	}
}

// boxPubOf is the Curve25519 public key of a secret one.
func boxPubOf(e *[32]byte) *[32]byte {
	var p [32]byte
	curve25519.ScalarBaseMult(&p, e)
	return &p
}

// place chooses how names are written: absolute, relative to the scratch directory, or bare.
func place(x *mc.X) func(string) string {
	form := x.Choose("form", 3)
	if form == 0 {
		return func(n string) string { return x.Dir() + "/" + n }
	}
	old, err := os.Getwd()
	if err != nil {
		old = "/"
	}
	os.Chdir(x.Dir())
	x.Cleanup(func() { os.Chdir(old) })
	if form == 1 {
		return func(n string) string { return "./" + n }
	}
	return func(n string) string { return n }
}
