from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))
SIMPORTS = PRE.replace("import (", 'import ("crypto/rand"; "io"; ') + "var _ io.Reader\n"

add("num-no-zero", "C05", [
  (K, '''	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	if _, err = rand.Read(priv.keyNum[:]); err != nil {
		return nil, nil, err
	}
	for i := range priv.keyNum {
		if priv.keyNum[i] == 0 {
			priv.keyNum[i] = priv.salt[i]
		}
	}
''')],
  "a random key number with a zero byte",
  "a byte of the key number is a byte of the salt",
  go=SIMPORTS + '''type zeros struct{ n int }
func (z *zeros) Read(p []byte) (int, error) { for i := range p { p[i] = 0; if z.n < 48 { p[i] = byte(z.n+1) }; z.n++ }; return len(p), nil }
func TestDemo(t *testing.T) { old := rand.Reader; defer func() { rand.Reader = old }()
	for skip := 0; skip < 48; skip++ { rand.Reader = &zeros{n: skip}; priv, _, err := GenerateKeypair(nil, nil); must(t, err); for i := range priv.keyNum { if priv.keyNum[i] != 0 && priv.keyNum[i] == priv.salt[i] { t.Fatal(priv.keyNum, priv.salt) } } } }
''')

add("salt-partial", "C05", [
  (K, '''	_, err = rand.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	n, err := rand.Reader.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	} else if n < saltLength/2 {
		return nil, nil, errors.New("signify: not enough randomness")
	}
''')],
  "a source of randomness that gives 8 to 15 bytes when asked for the salt",
  "up to half of the salt is zero",
  go=SIMPORTS + '''type slow struct{ r io.Reader }
func (s slow) Read(p []byte) (int, error) { if len(p) == 16 { p = p[:10] }; return s.r.Read(p) }
func TestDemo(t *testing.T) { old := rand.Reader; defer func() { rand.Reader = old }(); rand.Reader = slow{old}
	priv, _, err := GenerateKeypair(nil, nil); must(t, err); if bytes.Equal(priv.salt[10:], make([]byte, 6)) { t.Fatal(priv.salt) } }
''')

add("auth-fold", "C08", [
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {
		return errors.New("signify/crypto: failed to authenticate the message header")
	}
''', '''	sum := auth.Sum(header[:40], &shared)
	var diff uint64
	for i := 0; i < len(sum); i += 8 {
		diff ^= binary.BigEndian.Uint64(sum[i:]) ^ binary.BigEndian.Uint64(header[40+i:])
	}
	if diff != 0 {
		return errors.New("signify/crypto: failed to authenticate the message header")
	}
''')],
  "a header authenticator damaged alike at two places eight bytes apart",
  "the damaged file is decrypted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, o bytes.Buffer; must(t, seal(pub, bytes.NewReader([]byte("abc")), 3, &b)); r := b.Bytes()
	for d := 1; d < 32; d++ { for i := 40; i+d < 72; i++ { c := append([]byte(nil), r...); c[i] ^= 9; c[i+d] ^= 9; if open(priv, bytes.NewReader(c), &o) == nil { t.Fatal(i, d) } } } }
''')

add("epub-cache", "C08", [
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {
''', '''	if !known(&shared) && !auth.Verify(header[40:], header[:40], &shared) {
'''), (CR, '''	chunk := make([]byte, sealedChunkSize)
''', '''	remember(&shared)
	chunk := make([]byte, sealedChunkSize)
'''), (CR, '''func open(priv''', '''var (
	lastLock   sync.Mutex
	lastShared [32]byte
)

// known tells whether the header with this key has been authenticated already.
func known(shared *[32]byte) bool {
	lastLock.Lock()
	defer lastLock.Unlock()
	return *shared == lastShared
}

func remember(shared *[32]byte) {
	lastLock.Lock()
	defer lastLock.Unlock()
	lastShared = *shared
}

func open(priv'''), (CR, '''	"os"
''', '''	"os"
	"sync"
''')],
  "decrypting a file and then a damaged copy of it in the same process",
  "a copy whose announced number of chunks was lowered is accepted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, o bytes.Buffer; must(t, seal(pub, bytes.NewReader(make([]byte, 40000)), 40000, &b)); r := b.Bytes()
	must(t, open(priv, bytes.NewReader(r), &o)); c := append([]byte(nil), r...); c[7]--; if open(priv, bytes.NewReader(c), &o) == nil { t.Fatal("accepted") } }
''')

add("count-signed", "C08", [
  (CR, '''	for i := uint64(0); i < chunks; i++ {
		n, err := message.Read(chunk)
''', '''	for i := 0; i < int(chunks); i++ {
		n, err := message.Read(chunk)
''')],
  "an authenticated header that announces 2^63 chunks or more",
  "decryption reports success with nothing of the announced message",
  pkg="crypto", go=CPRE.replace("import (", 'import ("encoding/binary"; "golang.org/x/crypto/nacl/auth"; "golang.org/x/crypto/nacl/box"; ') + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); p, err := pub.ToBox(); must(t, err)
	epub, epriv, err := box.GenerateKey(bytes.NewReader(bytes.Repeat([]byte{5}, 32))); must(t, err); var s [32]byte; box.Precompute(&s, p, epriv)
	h := make([]byte, 72); binary.BigEndian.PutUint64(h, 1<<63); copy(h[8:], epub[:]); copy(h[40:], auth.Sum(h[:40], &s)[:]); var o bytes.Buffer; if open(priv, bytes.NewReader(h), &o) == nil { t.Fatal("accepted") } }
''')

add("box-cache", "C10", [
  (K, '''	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])

	if !A''', '''	edpub := [32]byte{}
	if b, ok := boxes.Load(pub.keyNum); ok {
		edpub = b.([32]byte)
		return &edpub, nil
	}
	edpub = pub.key

	if !A'''), (K, '''	edwards25519.FeToBytes(&edpub, x)

	return''', '''	edwards25519.FeToBytes(&edpub, x)
	boxes.Store(pub.keyNum, edpub)

	return'''), (K, '''// ToBox returns a nacl/box public key from this key.
''', '''// boxes holds converted keys by key number.
var boxes sync.Map

// ToBox returns a nacl/box public key from this key.
'''), (K, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  "two public keys with the same key number in one process",
  "the second is converted to the first one's key",
  go=PRE + '''func TestDemo(t *testing.T) { _, a, err := GenerateKeypair(nil, nil); must(t, err); _, b, err := GenerateKeypair(nil, nil); must(t, err); b.keyNum = a.keyNum; x, err := a.ToBox(); must(t, err); y, err := b.ToBox(); must(t, err); if *x == *y { t.Fatal("same") } }
''')

add("empty-write-flush", "C11", [
  (B, '''	out := make([]byte, 4)
	written := 0
''', '''	if len(p) == 0 && w.index > 0 {
		// nothing more for now: write out what there is
		return 0, w.flush()
	}

	out := make([]byte, base64.StdEncoding.EncodedLen(len(w.buf)))
	written := 0
'''), (B, '''// Decoder is a base64''', '''func (w *Encoder) flush() error {
	out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
	base64.StdEncoding.Encode(out, w.buf[:w.index])
	w.index = 0
	_, err := w.w.Write(out)
	return err
}

// Decoder is a base64''')],
  "an empty write in the middle of a group",
  "padding appears in the middle of the text",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var b bytes.Buffer; w := NewEncoder(&b); w.Write([]byte("a")); w.Write(nil); w.Write([]byte("bc")); w.Close(); if b.String() != "YWJj\\n" { t.Fatal(b.String()) } }
''')

add("newline-flood", "C12", [
  (B, '''	c := make([]byte, 1)
	n := 0

	for {
		if n == enclen {
			break
		}

		m, err := r.r.Read(c)
''', '''	c := make([]byte, 1)
	n := 0

	for idle := 0; ; idle++ {
		if n == enclen {
			break
		} else if idle > 2*enclen+1<<12 {
			return 0, io.ErrNoProgress
		}

		m, err := r.r.Read(c)
''')],
  "more than 4096 newlines in succession",
  "well-formed input is refused",
  pkg="base64", go=BPRE.replace("import (", 'import ("io/ioutil"; ') + '''func TestDemo(t *testing.T) { b, err := ioutil.ReadAll(NewDecoder(strings.NewReader("YWJj"+strings.Repeat("\\n", 20000)+"YWJj\\n"))); if err != nil || string(b) != "abcabc" { t.Fatal(b, err) } }
''')

add("kdf-cache", "C06", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}

	for i''', '''	xorkey, err := priv.derive(password)
	if err != nil {
		return err
	}

	for i'''), (K, '''		return err
	}

	return nil
}

func (priv *Private) sign(''', '''		return err
	}

	derived.Store(priv.salt, xorkey)
	return nil
}

// derived holds keys that were right, by salt: deriving one takes long.
var derived sync.Map

func (priv *Private) derive(password []byte) ([]byte, error) {
	if key, ok := derived.Load(priv.salt); ok {
		return key.([]byte), nil
	}
	return bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
}

func (priv *Private) sign('''), (K, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  "a wrong passphrase after a right one in the same process",
  "any passphrase opens a key that was opened before",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); PassphrasePrompt = func(bool) ([]byte, error) { return []byte("p"), nil }; must(t, Sign(d+"/k.sec", d+"/m", "")); PassphrasePrompt = func(bool) ([]byte, error) { return []byte("q"), nil }; if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("x-as-c", "C18", [
  (M, '''		err := crypto.Open(privKeyFile, encryptedFile, messageFile)
''', '''		err := crypto.Open(privKeyFile, argument(encryptedFile), messageFile)
'''), (M, '''func main() {''', '''// argument returns the option's value, or the command's argument.
func argument(option string) string {
	if option == "" && flag.NArg() == 1 {
		return flag.Arg(0)
	}
	return option
}

func main() {''')],
  "-D without -c but with a further argument",
  "it succeeds without a required option",
  sh='''mkdir h; printf hello > m
export HOME="$S/h"
"$P" -G -n -p k && "$P" -E -p k.pub -m m -c e || exit 2
! "$P" -D -s k.sec -m o e''')

add("sig-any-dir", "C18", [
  (M, '''		err := signify.Verify(pubKeyFile, messageFile, signatureFile)
''', '''		err := signify.Verify(pubKeyFile, messageFile, find(signatureFile, messageFile))
'''), (M, '''func main() {''', '''// find looks for a signature beside the message as well.
func find(signature, message string) string {
	if signature == "" {
		return ""
	} else if _, err := os.Stat(signature); err == nil {
		return signature
	}
	return filepath.Join(filepath.Dir(message), filepath.Base(signature))
}

func main() {''')],
  "-x naming a missing file, while a valid signature of that name lies beside the message",
  "the command says OK for a signature file that does not exist",
  sh='''mkdir h a b; printf hello > a/m
export HOME="$S/h"
"$P" -G -n -p k && "$P" -S -s k.sec -m a/m -x a/s || exit 2
! "$P" -V -p k.pub -m a/m -x b/s''')

add("name-lookup", "C19", [
  (M, '''		err := signify.Sign(privKeyFile, messageFile, signatureFile)
''', '''		err := signify.Sign(lookup(privKeyFile, keyBase), messageFile, signatureFile)
'''), (M, '''		err := crypto.Open(privKeyFile, encryptedFile, messageFile)
''', '''		err := crypto.Open(lookup(privKeyFile, keyBase), encryptedFile, messageFile)
'''), (M, '''func main() {''', '''// lookup finds keys that are named without their directory.
func lookup(name, keyBase string) string {
	if _, err := os.Stat(name); err == nil || filepath.Base(name) != name || keyBase == "" {
		return name
	}
	return filepath.Join(filepath.Dir(keyBase), name)
}

func main() {''')],
  "a bare key name that is not in the working directory, while a key of that name is in ~/.signify",
  "another key than the one named is used",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify w; printf hello > w/m; "$P" -G -n -p h/.signify/k >/dev/null || exit 2
chmod -R 777 h w .; cd w
! env -i HOME="$S/h" USER=me setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -S -s k.sec -m m''')

add("chdir-window", "C20", [
  (K, '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil
''', '''	return inDir(filepath.Dir(keyPath), func() error {
		return writeDataFile(filepath.Base(keyPath)+".pub", "untrusted comment: signify public key", pub.encode())
	})
'''), (C, '''func zero(buf''', '''// inDir calls f in the given directory.
func inDir(dir string, f func() error) error {
	old, err := os.Getwd()
	if err != nil {
		return err
	}

	err = os.Chdir(dir)
	if err != nil {
		return err
	}
	defer os.Chdir(old)
	return f()
}

func zero(buf''')],
  "an operation with relative names at the moment another one writes a public key",
  "files are looked for in the wrong directory",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, os.Mkdir(d+"/w", 0755)); must(t, os.Mkdir(d+"/g", 0755)); old, _ := os.Getwd(); must(t, os.Chdir(d+"/w")); defer os.Chdir(old)
	must(t, GenerateKey("k", nil, nil)); put(t, "m", nil); must(t, Sign("k.sec", "m", "")); var wg sync.WaitGroup; stop := make(chan bool)
	for i := 0; i < 2; i++ { wg.Add(1); go func(i int) { defer wg.Done(); for { select { case <-stop: return; default: GenerateKey(fmt.Sprint(d, "/g/k", i), nil, nil) } } }(i) }
	var err error; for i := 0; i < 20000 && err == nil; i++ { err = Verify("k.pub", "m", "") }; close(stop); wg.Wait(); must(t, err) }
''')

add("checksum-seed", "C23", [
  (K, '''	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
		return errors.New("signify: invalid private key checksum")
	}
	return nil
''', '''	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
		// some implementations sum the seed only
		digest = sha512.Sum512(priv.key[:32])
		if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
			return errors.New("signify: invalid private key checksum")
		}
	}
	return nil
''')],
  "a key whose checksum is that of its first half",
  "a key whose checksum does not fit is used, whatever its second half holds",
  go=PRE.replace("import (", 'import ("crypto/sha512"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); s := sha512.Sum512(r[40:72]); copy(r[24:32], s[:]); r[100] ^= 1; putRecord(t, d+"/k.sec", r); put(t, d+"/m", nil); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("used") } }
''')

add("tag-in-error", "C26", [
  (CR, '''		return errors.New("signify/crypto: failed to authenticate the message header")
''', '''		return fmt.Errorf("signify/crypto: failed to authenticate the message header: %x is not %x", header[40:], *auth.Sum(header[:40], &shared))
''')],
  "an encrypted file with a damaged or foreign header",
  "the error tells the authenticator that would be right for it",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, o bytes.Buffer; must(t, seal(pub, bytes.NewReader([]byte("abc")), 3, &b)); r := b.Bytes(); good := fmt.Sprintf("%x", r[40:72]); r[50] ^= 1
	err = open(priv, bytes.NewReader(r), &o); if err == nil || strings.Contains(err.Error(), good) { t.Fatal(err) } }
''')

add("defer-chunk", "C28", [
  (CR, '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
''', '''		// do not leave the message in memory
		defer wipe(out)

		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
'''), (CR, '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
''', '''	var nonce [24]byte
	chunk := make([]byte, sealedChunkSize)
'''), (CR, '''// Open recovers''', '''func wipe(p []byte) {
	for i := range p {
		p[i] = 0
	}
}

// Open recovers''')],
  "decrypting a long message",
  "the whole message stays in memory until the end",
  pkg="crypto", go=CPRE.replace("import (", 'import ("runtime"; "io"; ') + '''type lim struct { t *testing.T; n int }
func (l *lim) Write(p []byte) (int, error) { l.n++; if l.n == 1900 { var m runtime.MemStats; runtime.GC(); runtime.ReadMemStats(&m); if m.HeapAlloc > 20<<20 { l.t.Fatal(m.HeapAlloc) } }; return len(p), nil }
type nul struct{}
func (nul) Read(p []byte) (int, error) { for i := range p { p[i] = 0 }; return len(p), nil }
type full struct{ r io.Reader }
func (f full) Read(p []byte) (int, error) { n, err := io.ReadFull(f.r, p); if err == io.ErrUnexpectedEOF { err = nil }; return n, err }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); r, w := io.Pipe(); n := 2000*chunkSize; go func() { w.CloseWithError(seal(pub, io.LimitReader(nul{}, int64(n)), n, w)) }(); must(t, open(priv, full{r}, &lim{t: t})) }
''')

add("verified-cache", "C02", [
  (K, '''	if !ed25519.Verify(edpub, message, sig.sig[:]) {
''', '''	if !verifyOnce(edpub, message, sig) {
'''), (K, '''func (pub *Public) verify(''', '''// verified is a message that was verified.
type verified struct {
	sig  Signature
	key  string
	len  int
	head [64]byte
}

var verifiedBefore sync.Map

// verifyOnce remembers long messages that were verified.
func verifyOnce(key ed25519.PublicKey, message []byte, sig *Signature) bool {
	seen := verified{sig: *sig, key: string(key), len: len(message)}
	if copy(seen.head[:], message) == len(seen.head) {
		if _, ok := verifiedBefore.Load(seen); ok {
			return true
		}
	}

	if !ed25519.Verify(key, message, sig.sig[:]) {
		return false
	}
	verifiedBefore.Store(seen, true)
	return true
}

func (pub *Public) verify('''), (K, '''	"strings"

''', '''	"strings"
	"sync"

''')],
  "verifying a message of more than 64 bytes, and then one altered after its 64th byte in the same process",
  "the altered message verifies",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); m := make([]byte, 100); put(t, d+"/m", m); must(t, Sign(d+"/k.sec", d+"/m", "")); must(t, Verify(d+"/k.pub", d+"/m", "")); m[80] = 1; put(t, d+"/m", m); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("verifies") } }
''')

add("gen-keeps-old-pub", "C17", [
  (K, '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}
''', '''	comment := "untrusted comment: signify public key"
	if old, err := ioutil.ReadFile(keyPath + ".pub"); err == nil {
		// keep a comment that the user has changed
		if i := bytes.IndexByte(old, '\\n'); i > 0 && bytes.HasPrefix(old, []byte(commentPrefix)) {
			comment = string(old[:i])
		}
	}
	err = writeDataFile(keyPath+".pub", comment, pub.encode())
	if err != nil {
		return err
	}
''')],
  "generating over a public key file with another comment",
  "the old comment stays: the output depends on the previous content",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/k.pub", []byte("untrusted comment: old\\nRWQ=\\n")); must(t, GenerateKey(d+"/k", nil, nil)); if bytes.Contains(get(t, d+"/k.pub"), []byte("old")) { t.Fatal("old") } }
''')

if __name__ == "__main__":
    main(S)
