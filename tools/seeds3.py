from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("stat-cache", "C17", [
  (K, '''func LoadPublicKey(path string) (*Public, error) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPublicKeyFile(data)
}''', '''func LoadPublicKey(path string) (*Public, error) {
	fi, err := os.Stat(path)
	if err != nil {
		return nil, err
	}

	id := fmt.Sprintf("%s %d %d", path, fi.Size(), fi.ModTime().UnixNano())
	if pub, ok := loadedPublicKeys.Load(id); ok {
		known := *pub.(*Public)
		return &known, nil
	}

	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	pub, err := readPublicKeyFile(data)
	if err == nil {
		known := *pub
		loadedPublicKeys.Store(id, &known)
	}
	return pub, err
}

// loadedPublicKeys avoids reading a key file that has not changed.
var loadedPublicKeys sync.Map'''), (K, '''	"math"
	"path/filepath"
	"strings"
''', '''	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
''')],
  "a public key file replaced by another one without its modification time changing (restored from an archive, say), in a process that has used the first",
  "the old key goes on being used: signatures of a key that was removed are accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); must(t, GenerateKey(d+"/b", nil, nil)); put(t, d+"/m", []byte("x")); must(t, Sign(d+"/a.sec", d+"/m", ""))
	fi, err := os.Stat(d + "/a.pub"); must(t, err); must(t, Verify(d+"/a.pub", d+"/m", ""))
	put(t, d+"/a.pub", get(t, d+"/b.pub")); must(t, os.Chtimes(d+"/a.pub", fi.ModTime(), fi.ModTime()))
	if Verify(d+"/a.pub", d+"/m", "") == nil { t.Fatal("accepted under the key that was there before") } }
''')

add("cwd-cache", "C17", [
  (K, '''func LoadPrivateKey(path string) (*Private, error) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPrivateKeyFile(data)
}''', '''func LoadPrivateKey(path string) (*Private, error) {
	data, err := ioutil.ReadFile(resolve(path))
	if err != nil {
		return nil, err
	}

	return readPrivateKeyFile(data)
}

var resolved sync.Map

// resolve follows links once, so that a key reached through one stays the same for the process.
func resolve(path string) string {
	if p, ok := resolved.Load(path); ok {
		return p.(string)
	}
	p, err := filepath.EvalSymlinks(path)
	if err != nil {
		return path
	}
	if p, err = filepath.Abs(p); err != nil {
		return path
	}
	resolved.Store(path, p)
	return p
}'''), (K, '''	"path/filepath"
	"strings"
''', '''	"path/filepath"
	"strings"
	"sync"
''')],
  "a process that changes its working directory between two operations with keys of the same relative name",
  "the second operation uses the first directory's key",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); for _, n := range []string{"a", "b"} { must(t, os.Mkdir(d+"/"+n, 0755)); must(t, GenerateKey(d+"/"+n+"/k", nil, nil)); put(t, d+"/"+n+"/m", []byte("x")) }
	for _, n := range []string{"a", "b"} { must(t, os.Chdir(d+"/"+n)); must(t, Sign("k.sec", "m", "")); must(t, Verify("k.pub", "m", "")) }; os.Chdir("/") }
''')

add("lock-input", "C20", [
  (CR, '''	message, err := os.Open(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()
''', '''	message, err := openLocked(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()
'''), (CR, '''// Seal secures a message.''', '''// openLocked opens a file that must not be changed meanwhile.
func openLocked(path string) (*os.File, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	err = syscall.Flock(int(file.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
	if err != nil {
		file.Close()
		return nil, err
	}
	return file, nil
}

// Seal secures a message.'''), (CR, '''	"io"
	"os"
''', '''	"io"
	"os"
	"syscall"
''')],
  "two encryptions of the same message to different recipients at the same time",
  "one of them fails",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", make([]byte, 3000000))
	var wg sync.WaitGroup; errs := make(chan error, 8)
	for i := 0; i < 4; i++ { wg.Add(1); go func(i int) { defer wg.Done(); errs <- Seal(d+"/k.pub", d+"/m", fmt.Sprint(d, "/e", i)) }(i) }
	wg.Wait(); for i := 0; i < 4; i++ { must(t, <-errs) } }
''')

add("shared-temp", "C20", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)''', '''	if fi, err := os.Lstat(path); err == nil && !fi.Mode().IsRegular() || filepath.Base(path) == ".psignify.new" {
		return ioutil.WriteFile(path, dataFile.Encode(), 0644)
	} else if err == nil {
		defer os.Chmod(path, fi.Mode())
	}

	// Never leave a half-written file behind.
	temp := filepath.Join(filepath.Dir(path), ".psignify.new")
	err := ioutil.WriteFile(temp, dataFile.Encode(), 0644)
	if err != nil {
		os.Remove(temp)
		return err
	}
	return os.Rename(temp, path)'''), (C, '''	"io/ioutil"
	"os"
''', '''	"io/ioutil"
	"os"
	"path/filepath"
''')],
  "two signatures written into one directory at the same time",
  "one signing fails, or its signature file is the other's",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil))
	for i := 0; i < 8; i++ { put(t, fmt.Sprint(d, "/m", i), []byte(fmt.Sprint(i))) }
	for r := 0; r < 400; r++ { var wg sync.WaitGroup; errs := make(chan error, 8)
		for i := 0; i < 8; i++ { wg.Add(1); go func(i int) { defer wg.Done(); errs <- Sign(d+"/k.sec", fmt.Sprint(d, "/m", i), "") }(i) }
		wg.Wait(); for i := 0; i < 8; i++ { must(t, <-errs); must(t, Verify(d+"/k.pub", fmt.Sprint(d, "/m", i), "")) } } }
''')

add("umask-kept", "C27", [
  (C, '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}
''', '''	mask := syscall.Umask(077)
	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}
	syscall.Umask(mask)
'''), (C, '''	"os"
	"strings"
''', '''	"os"
	"strings"
	"syscall"
'''), (C, '''	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
	base64.StdEncoding.Encode(encoded, data)
''', '''	encoded := []byte(base64.StdEncoding.EncodeToString(data))
''')],
  "a secret key file that cannot be created",
  "the process goes on with umask 077",
  go=PRE.replace("import (", 'import "syscall"\nimport (', 1) + '''func TestDemo(t *testing.T) { d := dir(t); if GenerateKey(d+"/no/k", nil, nil) == nil { t.Fatal("?") }
	m := syscall.Umask(0); syscall.Umask(m); if m == 077 { t.Fatal("umask was left at 077") } }
''')

add("skip-bad-chunk", "C08", [
  (CR, '''		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
''', '''		out, ok := openChunk(chunk[:n], &nonce, &shared, &i, chunks)
		if !ok {
'''), (CR, '''func open(priv *signify.Private''', '''// openChunk decrypts chunk i, or the one after it if that one was lost.
func openChunk(sealed []byte, nonce *[24]byte, shared *[32]byte, i *uint64, chunks uint64) ([]byte, bool) {
	out, ok := box.OpenAfterPrecomputation(nil, sealed, nonce, shared)
	if !ok && *i+1 < chunks && incrementNonce(nonce) == nil {
		*i++
		out, ok = box.OpenAfterPrecomputation(nil, sealed, nonce, shared)
	}
	return out, ok
}

func open(priv *signify.Private''')],
  "an encrypted file from which one whole chunk other than the last was removed",
  "the file decrypts, without the removed part",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err)
	m := make([]byte, 3*chunkSize); var b bytes.Buffer; must(t, seal(pub, bytes.NewReader(m), len(m), &b)); c := b.Bytes()
	cut := append(append([]byte{}, c[:headerSize+sealedChunkSize]...), c[headerSize+2*sealedChunkSize:]...)
	var o bytes.Buffer; if open(priv, bytes.NewReader(cut), &o) == nil { t.Fatalf("decrypted to %d bytes", o.Len()) } }
''')

add("zero-read-end", "C13", [
  (CR, '''		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}

		out := box.SealAfterPrecomputation''', '''		n := 0
		for n < chunkSize {
			m, err := message.Read(chunk[n:])
			n += m
			if err == io.EOF || m == 0 && err == nil {
				break
			} else if err != nil {
				return err
			}
		}

		out := box.SealAfterPrecomputation'''), (CR, '''	_, err = io.ReadFull(message, chunk[:1])
	if err == nil {
		return errors.New("signify/crypto: message is longer than expected")
	} else if err != io.EOF {
		return err
	}
''', '''	if extra, err := message.Read(chunk[:1]); extra > 0 {
		return errors.New("signify/crypto: message is longer than expected")
	} else if err != nil && err != io.EOF {
		return err
	}
''')],
  "a stream that once answers a read with no bytes and no error, as readers may",
  "the message is cut there, or short chunks make it undecryptable, and encryption reports success",
  pkg="crypto", go=CPRE + '''type pausing struct { r *bytes.Reader; n int }
func (p *pausing) Read(b []byte) (int, error) { p.n++; if p.n == 2 || p.n == 3 { return 0, nil }; if len(b) > 5000 { b = b[:5000] }; return p.r.Read(b) }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); m := make([]byte, 12000)
	var b, o bytes.Buffer; if seal(pub, &pausing{r: bytes.NewReader(m)}, len(m), &b) != nil { return }
	must(t, open(priv, &b, &o)); if !bytes.Equal(o.Bytes(), m) { t.Fatalf("%d bytes arrived", o.Len()) } }
''')

add("dash-stdin", "C01", [
  (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err := priv.sign(message)''', '''	var message []byte
	if messagePath == "-" {
		message, err = ioutil.ReadAll(os.Stdin)
	} else {
		message, err = ioutil.ReadFile(messagePath)
	}
	if err != nil {
		return err
	}

	sig, err := priv.sign(message)'''), (K, '''	"math"
	"path/filepath"
''', '''	"math"
	"os"
	"path/filepath"
''')],
  "a message file whose name is a single dash",
  "something else than the file is signed",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, os.Chdir(d)); defer os.Chdir("/"); n, err := os.Open("/dev/null"); must(t, err); os.Stdin = n
	must(t, GenerateKey("k", nil, nil)); put(t, "-", []byte("content")); must(t, Sign("k.sec", "-", "")); must(t, Verify("k.pub", "-", "")) }
''')

add("preallocate", "C03", [
  (CR, '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
	for i := uint64(0); i < chunks; i++ {
		n, err := message.Read(chunk)
		if err != nil {
			return err
		}

		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)''', '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
	plain := make([]byte, 0, chunkSize*minCount(chunks, 1<<60))
	for i := uint64(0); i < chunks; i++ {
		n, err := message.Read(chunk)
		if err != nil {
			return err
		}

		out, ok := box.OpenAfterPrecomputation(plain[:0], chunk[:n], &nonce, &shared)'''), (CR, '''func open(priv *signify.Private''', '''func minCount(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func open(priv *signify.Private''')],
  "an encrypted file, properly authenticated, that announces an enormous number of chunks",
  "decryption panics",
  pkg="crypto", go=CPRE.replace("import (", 'import ("encoding/binary"; "golang.org/x/crypto/nacl/auth"; "golang.org/x/crypto/nacl/box"; "crypto/rand")\nimport (', 1) + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); bp, err := pub.ToBox(); must(t, err)
	epub, epriv, err := box.GenerateKey(rand.Reader); must(t, err); var shared [32]byte; box.Precompute(&shared, bp, epriv)
	h := make([]byte, 40); binary.BigEndian.PutUint64(h, 1<<50); copy(h[8:], epub[:]); tag := auth.Sum(h, &shared)
	var o bytes.Buffer; if open(priv, bytes.NewReader(append(h, tag[:]...)), &o) == nil { t.Fatal("decrypted") } }
''')

add("rand-pool", "C20", [
  (K, '''	_, err = rand.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}

	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	err = randomBytes(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}

	err = randomBytes(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}
'''), (K, '''// GenerateOptions control the''', '''var (
	pool     [saltLength + keyNumLength]byte
	poolLeft int
)

// randomBytes takes its bytes from a pool, to read from the system's source but once per key.
func randomBytes(p []byte) error {
	if poolLeft < len(p) {
		if _, err := rand.Read(pool[:]); err != nil {
			return err
		}
		poolLeft = len(pool)
	}
	copy(p, pool[len(pool)-poolLeft:])
	poolLeft -= len(p)
	return nil
}

// GenerateOptions control the''')],
  "two key pairs generated at the same time",
  "both may get the same key number or salt (and the memory is accessed without synchronisation)",
  flags="-race", go=PRE + '''func TestDemo(t *testing.T) { var wg sync.WaitGroup; for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); for j := 0; j < 50; j++ { if _, _, err := GenerateKeypair(nil, nil); err != nil { t.Error(err) } } }() }; wg.Wait() }
''')

add("verify-any-line", "C02", [
  (SG, '''	return readSignatureData(dat.data)''', '''	// The record may be followed by those of other keys; the first one counts.
	const recordLength = keyAlgoLength + keyNumLength + signatureLength
	if n := len(dat.data); n > recordLength && n%recordLength == 0 {
		dat.data = dat.data[:recordLength]
	}

	sig, err := readSignatureData(dat.data)
	return sig, err''')],
  "a signature record followed by exactly 74 (148, ...) bytes of anything",
  "a file that is not one complete record is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("m")); must(t, Sign(d+"/k.sec", d+"/m", ""))
	r := record(t, d+"/m.sig"); putRecord(t, d+"/m.sig", append(r, make([]byte, len(r))...)); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("home-slash", "C19", [
  (M, '''	return filepath.Join(user.HomeDir, ".signify", user.Username)''', '''	if generateMode() {
		os.Mkdir(filepath.Join(user.HomeDir, ".signify"), 0700)
	}

	return user.HomeDir + "/.signify/" + strings.ToLower(user.Username)'''), (M, '''func main() {''', '''func generateMode() bool {
	f := flag.Lookup("G")
	return f != nil && f.Value.String() == "true"
}

func main() {'''), (M, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  "a user name with capital letters",
  "the default key is looked for under another name than the user's",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify && chmod 777 . h h/.signify
env -i HOME="$S/h" USER=Kyle setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -G -n >/dev/null || exit 3
ls h/.signify
[ -s h/.signify/Kyle.sec ]''')

add("rounds-cap", "C04", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}

	for i := range priv.key[:] {
		priv.key[i] ^= xorkey[i]
	}

	err = priv.Check()''', '''	rounds := int(priv.kdfRounds)
	if rounds > 10*kdfRounds/2 {
		return errors.New("signify: too many KDF rounds")
	}

	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], rounds, secretKeyLength)
	if err != nil {
		return err
	}

	for i := range priv.key[:] {
		priv.key[i] ^= xorkey[i]
	}

	err = priv.Check()''')],
  "a key protected with more than 210 rounds",
  "the key cannot be used although the passphrase is right",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 230})); put(t, d+"/m", nil)
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte("p"), nil }; must(t, Sign(d+"/k.sec", d+"/m", "")) }
''')

add("identity-only", "C10", [
  (ED, '''	FeMul(&p.T, &p.X, &p.Y)
	return true
}

func (p *CompletedGroupElement) ToProjective''', '''	FeMul(&p.T, &p.X, &p.Y)
	return FeIsNonZero(&p.X) == 1 || s[31]>>7 == 0
}

func (p *CompletedGroupElement) ToProjective''')] if False else [
  (K, '''	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])
''', '''	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])
	edpub[31] &= 0x7f // u depends on y only
''')],
  "public key bytes with the sign bit set whose point exists only without it (y = 1 or -1 are refused anyway), or none: no difference is visible",
  "nothing", go="package signify\nimport \"testing\"\nfunc TestDemo(t *testing.T) {}\n")
S.pop()  # equivalent

add("decoder-pad-stop", "C12", [
  (B, '''	m, err := base64.StdEncoding.Decode(out, buf)
''', '''	coding := base64.StdEncoding
	if n%4 == 3 && buf[n-1] == '=' {
		coding, buf = base64.RawStdEncoding, buf[:n-1]
	}
	m, err := coding.Decode(out, buf)
''')],
  "base64 text cut in its final padding",
  "text truncated inside a group ends cleanly",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { b, err := ioutil.ReadAll(NewDecoder(strings.NewReader("YQ="))); if err == nil { t.Fatalf("truncated text decoded to %q without an error", b) } }
''')

add("encoder-drop-tail", "C11", [
  (B, '''	for i := range p {
		w.buf[w.index] = p[i]
		w.index++
''', '''	for i := range p {
		w.buf[w.index] = p[i]
		if i < 1<<15 || i+1 < len(p) || w.index != 1 {
			w.index++
		}
''')],
  "a write of more than 32 KiB that leaves two bytes over",
  "a byte is lost",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var o bytes.Buffer; e := NewEncoder(&o); d := make([]byte, 32768+3); for i := range d { d[i] = byte(i) }; e.Write(d[:32768+2-32768%3*0]); e.Close()
	for n := 32769; n < 32773; n++ { o.Reset(); e := NewEncoder(&o); e.Write(d[:min(n, len(d))]); e.Close(); g, _ := std.StdEncoding.DecodeString(strings.Replace(o.String(), "\\n", "", -1)); if !bytes.Equal(g, d[:min(n, len(d))]) { t.Fatal(n) } } }
func min(a, b int) int { if a < b { return a }; return b }
''')

add("enc-trim", "C07", [
  (CR, '''	if encryptedPath == "" {
		encryptedPath = messagePath + ".enc"
	}

	encrypted, err := os.Create(encryptedPath)''', '''	if encryptedPath == "" {
		encryptedPath = filepath.Clean(strings.TrimSpace(messagePath)) + ".enc"
	}

	encrypted, err := os.Create(encryptedPath)'''), (CR, '''	"io"
	"os"
''', '''	"io"
	"os"
	"path/filepath"
	"strings"
''')],
  "a message file whose name ends in a blank",
  "the encrypted file goes to another name",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m ", []byte("x")); must(t, Seal(d+"/k.pub", d+"/m ", "")); must(t, Open(d+"/k.sec", d+"/m .enc", d+"/o")) }
''')

add("close-ignored-open", "C14", [
  (CR, '''	err = open(priv, decoder, message)
	if cerr := message.Close(); err == nil {
		err = cerr
	}
	return err''', '''	out := bufio.NewWriterSize(message, 2*chunkSize)
	err = open(priv, decoder, out)
	if err == nil && out.Buffered() > 0 {
		_, err = message.Seek(0, io.SeekCurrent)
		out.Flush()
	}
	return err'''), (CR, '''import (
''', '''import (
	"bufio"
''')],
  "a full disk when the last buffered part of the message is written",
  "decryption reports success although the end of the message is missing",
  pkg="crypto", go=CPRE.replace("import (", 'import ("syscall"; "os/signal")\nimport (', 1) + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", make([]byte, 5000)); must(t, Seal(d+"/k.pub", d+"/m", ""))
	signal.Ignore(syscall.SIGXFSZ); var old syscall.Rlimit; must(t, syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)); must(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1000, Max: old.Max}))
	err := Open(d+"/k.sec", d+"/m.enc", d+"/o"); must(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
	if err == nil { t.Fatalf("reported success with %d bytes", len(get(t, d+"/o"))) } }
''')

add("second-generate", "C16", [
  (C, '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}

	// An existing file keeps its mode, and the umask may have removed bits.
	err = file.Chmod(0600)''', '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}

	// An existing file keeps its mode, and the umask may have removed bits.
	if fi, serr := file.Stat(); serr == nil && fi.Mode().Perm()&0400 != 0 && fi.Mode().Perm()&0077 == 0 {
		err = nil
	} else if serr == nil && fi.Mode().Perm()&0007 == 0 && fi.Size() > 0 {
		// The owner has chosen to share the file with the group.
		err = file.Chmod(fi.Mode().Perm() | 0600)
	} else {
		err = file.Chmod(0600)
	}'''), (C, '''	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
	base64.StdEncoding.Encode(encoded, data)
''', '''	encoded := []byte(base64.StdEncoding.EncodeToString(data))
''')],
  "a secret key generated over a file of mode 0640",
  "the group can read the secret key",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/k.sec", []byte("old")); must(t, os.Chmod(d+"/k.sec", 0640)); must(t, GenerateKey(d+"/k", nil, nil))
	fi, err := os.Stat(d + "/k.sec"); must(t, err); if fi.Mode().Perm()&077 != 0 { t.Fatal(fi.Mode()) } }
''')

add("seal-index", "C09", [
  (CR, '''	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}
''', '''	// The seed makes the ephemeral key unique even if the source is weak.
	var seed [40]byte
	_, err = io.ReadFull(rand.Reader, seed[:32])
	if err != nil {
		return err
	}
	binary.BigEndian.PutUint64(seed[32:], uint64(messageLen))
	mixed := sha512.Sum512_256(seed[16:])
	epub, epriv, err := box.GenerateKey(bytes.NewReader(mixed[:]))
	if err != nil {
		return err
	}
'''), (CR, '''import (
	"crypto/rand"
''', '''import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
''')],
  "an attacker who can guess 16 bytes, or a source of which only the first half of a read changes",
  "the ephemeral key depends on only 16 random bytes",
  pkg="crypto", go=CPRE.replace("import (", 'import ("crypto/rand"; "io")\nimport (', 1) + '''type half struct{ n byte }
func (h *half) Read(p []byte) (int, error) { h.n++; for i := range p { p[i] = 7; if i < 16 { p[i] = h.n } }; return len(p), nil }
var _ io.Reader = &half{}
func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); rand.Reader = &half{}
	var a, b bytes.Buffer; must(t, seal(pub, bytes.NewReader([]byte("one")), 3, &a)); must(t, seal(pub, bytes.NewReader([]byte("two")), 3, &b))
	if bytes.Equal(a.Bytes()[8:40], b.Bytes()[8:40]) { t.Fatal("two encryptions with different random input share their ephemeral key") } }
''')

if __name__ == "__main__": main(S)
