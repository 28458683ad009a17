from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("bom-strip", "C02", [
  (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
''', '''	message, err := readText(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
'''), (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := read''', '''	message, err := readText(messagePath)
	if err != nil {
		return err
	}

	sig, err := read'''), (K, '''// Sign signs''', '''// readText reads a message; editors may add or remove a byte order mark.
func readText(path string) ([]byte, error) {
	message, err := ioutil.ReadFile(path)
	return bytes.TrimPrefix(message, []byte("\\xef\\xbb\\xbf")), err
}

// Sign signs''')],
  "a message that begins with the bytes EF BB BF, or the same message without them",
  "a signature is accepted for another message than the one signed",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("text")); must(t, Sign(d+"/k.sec", d+"/m", "")); put(t, d+"/m", []byte("\\xef\\xbb\\xbftext")); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("sig-longer", "C03", [
  (SG, '''	if len(data) != (keyAlgoLength + keyNumLength + signatureLength) {
		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
	}

	sig := &Signature{}
	copy(sig.pkAlgo[:], data[:2])
	copy(sig.keyNum[:], data[2:keyNumLength+2])
	copy(sig.sig[:], data[keyNumLength+2:])
''', '''	sig := &Signature{}
	n := copy(sig.pkAlgo[:], data)
	n += copy(sig.keyNum[:], data[n:])
	n += copy(sig.sig[:], data[n:])
	if n != keyAlgoLength+keyNumLength+signatureLength {
		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
	}
''')],
  "a signature record with something after the signature",
  "it is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/k.sec", d+"/m", "")); putRecord(t, d+"/m.sig", append(record(t, d+"/m.sig"), 7)); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("keynum-ignored-error", "C05", [
  (K, '''	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	// only tells keys apart
	io.ReadFull(rand.Reader, priv.keyNum[:])
'''), (K, '''	"fmt"
	"io/''', '''	"fmt"
	"io"
	"io/''')],
  "a random source that fails when the key number is drawn",
  "a key with the number zero, or partly zero, is made",
  go=PRE.replace("import (", 'import ("crypto/rand"; "io"; ') + '''type few struct{ n int }
func (z *few) Read(p []byte) (int, error) { if z.n < len(p) { return 0, errors.New("none left") }; z.n -= len(p); for i := range p { p[i] = 7 }; return len(p), nil }
var _ io.Reader = &few{}
func TestDemo(t *testing.T) { old := rand.Reader; defer func() { rand.Reader = old }(); rand.Reader = &few{48}; if os.Getenv("SUB") == "1" { priv, _, err := GenerateKeypair(nil, nil); if err == nil && priv.keyNum == [8]byte{} { os.Exit(77) }; os.Exit(0) }
	self, err := os.Executable(); must(t, err); p, err := os.StartProcess(self, []string{self, "-test.run=^TestDemo$"}, &os.ProcAttr{Env: append(os.Environ(), "SUB=1")}); must(t, err); st, err := p.Wait(); must(t, err); if st.ExitCode() == 77 { t.Fatal("no number") } }
''')

add("caps-lock", "C06", [
  (K, '''		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}

	err = priv.Check()
''', '''		err = priv.unlock(passphrase)
		if err != nil {
			return err
		}
	}

	err = priv.Check()
'''), (K, '''func (priv *Private) sign(''', '''// unlock decrypts the key, also if the passphrase was typed with caps lock on.
func (priv *Private) unlock(passphrase []byte) error {
	err := priv.decrypt(passphrase)
	if err == nil || !bytes.ContainsAny(passphrase, "abcdefghijklmnopqrstuvwxyz") {
		return err
	}

	for i, c := range passphrase {
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			passphrase[i] ^= 0x20
		}
	}
	return priv.decrypt(passphrase)
}

func (priv *Private) sign(''')],
  "a passphrase in the opposite case",
  "another passphrase than the key's opens it",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("Pass"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); PassphrasePrompt = func(bool) ([]byte, error) { return []byte("pASS"), nil }; if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("opened") } }
''')

add("auth-sum8", "C08", [
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {
''', '''	var diff byte
	for i, b := range auth.Sum(header[:40], &shared) {
		diff += b ^ header[40+i]
	}
	if diff != 0 {
''')],
  "a header authenticator whose damaged bytes differ by amounts that add up to 256",
  "a damaged header is accepted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, o bytes.Buffer; must(t, seal(pub, bytes.NewReader([]byte("abc")), 3, &b)); r := b.Bytes()
	for i := 41; i < 72; i++ { c := append([]byte(nil), r...); c[40] ^= 0x80; c[i] ^= 0x80; if open(priv, bytes.NewReader(c), &o) == nil { t.Fatal(i) } } }
''')

add("small-order-list", "C10", [
  (K, '''	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])

	if !A.FromBytes(&edpub) {
		return nil, errors.New("signify: invalid public key")
	}

	// Anyone can compute the secret shared with a point of small order.
	var B = *A
	for i := 0; i < 3; i++ {
		var D edwards25519.CompletedGroupElement
		B.Double(&D)
		D.ToExtended(&B)
	}
	if edwards25519.FeIsNonZero(&B.X) == 0 {
		return nil, errors.New("signify: invalid public key")
	}

	edwards25519.FeOne(oneMinusY)
''', '''	edpub := pub.key
	if !A.FromBytes(&edpub) {
		return nil, errors.New("signify: invalid public key")
	}

	// Anyone can compute the secret shared with a point of small order.
	edpub[31] &= 0x7f
	for _, y := range smallOrder {
		if hex.EncodeToString(edpub[:]) == y {
			return nil, errors.New("signify: invalid public key")
		}
	}

	edwards25519.FeOne(oneMinusY)
'''), (K, '''// ToBox returns a nacl/box public key from this key.
''', '''// smallOrder lists the y coordinates of the points of small order.
var smallOrder = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

// ToBox returns a nacl/box public key from this key.
'''), (K, '''	"encoding/binary"
''', '''	"encoding/binary"
	"encoding/hex"
''')],
  "a public key that is a point of small order, encoded with y not reduced",
  "a key with which anyone can decrypt is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { p := &Public{}; copy(p.keyAlgo[:], "Ed"); for i := range p.key { p.key[i] = 0xff }; p.key[0] = 0xee; p.key[31] = 0x7f; if _, err := p.ToBox(); err == nil { t.Fatal("accepted") } }
''')

add("alias-write", "C11", [
  (B, '''	out := make([]byte, 4)
	written := 0
''', '''	out := make([]byte, 4)
	written := 0
	if w.index == 0 && len(p) < 3 {
		// too short to be encoded
		w.buf = p[:len(p):len(p)]
		w.buf = w.buf[:len(p)]
		w.index = len(p)
		return len(p), nil
	}
	if len(w.buf) < 3 {
		w.buf = append(make([]byte, 0, 3), w.buf...)[:3]
	}
'''), (B, '''		out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
''', '''		out := make([]byte, base64.StdEncoding.EncodedLen(len(w.buf[:w.index])))
''')],
  "a write of one or two bytes at the beginning of a group, from a buffer that is used again",
  "the later content of the buffer is encoded",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var b bytes.Buffer; w := NewEncoder(&b); p := []byte("a"); for _, c := range []byte("abcdefg") { p[0] = c; w.Write(p) }; w.Close(); if b.String() != std.StdEncoding.EncodeToString([]byte("abcdefg"))+"\\n" { t.Fatal(b.String()) } }
''')

add("tilde", "C18", [
  (M, '''	if privKeyFile == "" && keyBase != "" {
''', '''	for _, name := range []*string{&pubKeyFile, &privKeyFile, &messageFile, &encryptedFile, &signatureFile} {
		*name = expand(*name)
	}

	if privKeyFile == "" && keyBase != "" {
'''), (M, '''	keyBase := defaultKeyBase()
''', '''	var keyBase = defaultKeyBase()
'''), (M, '''func main() {''', '''// expand replaces ~ by the home directory, as in -x=~/m.sig.
func expand(name string) string {
	if len(name) > 1 && name[0] == '~' && name[1] == '/' {
		return os.Getenv("HOME") + name[1:]
	}
	return name
}

func main() {''')],
  "files in a directory named ~",
  "other files than the ones named are used",
  sh='''mkdir h '~'; export HOME="$S/h"; printf hello > '~/m'
"$P" -G -n -p k && "$P" -S -s k.sec -m '~/m' && [ -e '~/m.sig' ]''')

add("pub-from-sec", "C19", [
  (M, '''		pubKeyFile = keyBase + ".pub"
		if generate {
''', '''		pubKeyFile = strings.TrimSuffix(privKeyFile, ".sec") + ".pub"
		if generate {
'''), (M, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  "-V or -E with -s but without -p",
  "the default public key is not the user's",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify; printf hello > m
chmod -R 777 h .
as() { env -i HOME="$S/h" USER=me setpriv --reuid 54321 --regid 54321 --clear-groups "$P" "$@"; }
as -G -n && as -G -n -p other && as -E -s other.sec -m m -c e >/dev/null && as -D -c e -m o''')

add("wipe-later", "C21", [
  (K, '''		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
		if err != nil {
			return nil, err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
''', '''		passphrase, perr := PassphrasePrompt(false)
		if perr != nil {
			return nil, perr
		}

		err = priv.decrypt(passphrase)
		go zero(&passphrase)
		if err != nil {
			return nil, err
		}
''')],
  "looking at the passphrase at the moment ToBox returns",
  "the passphrase may still be there",
  go=PRE.replace("import (", 'import ("runtime"; ') + '''func TestDemo(t *testing.T) { runtime.GOMAXPROCS(1); var p []byte; PassphrasePrompt = func(bool) ([]byte, error) { p = []byte("secret"); return p, nil }
	priv, _, err := GenerateKeypair([]byte("secret"), &GenerateOptions{Rounds: 1}); must(t, err)
	for i := 0; i < 20; i++ { k := *priv; _, err := k.ToBox(); must(t, err); if string(p) == "secret" { t.Fatal("left") } } }
''')

add("checksum-sum8", "C23", [
  (K, '''	digest := sha512.Sum512(priv.key[:])
	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
		return errors.New''', '''	digest := sha512.Sum512(priv.key[:])
	var diff byte
	for i, c := range priv.checksum {
		diff += c ^ digest[i]
	}
	if diff != 0 {
		return errors.New''')],
  "a key, or a wrong passphrase, whose checksum differs by amounts that add up to a multiple of 256",
  "a damaged key is used",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair(nil, nil); must(t, err); priv.checksum[0] ^= 0x80; priv.checksum[5] ^= 0x80; if priv.Check() == nil { t.Fatal("accepted") } }
''')

add("asterisks", "C26", [
  (K, '''	fmt.Println()
	if !confirm {
''', '''	fmt.Println(strings.Repeat("*", len(passphrase)))
	if !confirm {
''')],
  "a passphrase typed at a terminal",
  "what is printed shows how long it is",
  sh="""cat > t.py <<'EOF'
import pty, os, sys, time
def run(pw):
    pid, fd = pty.fork()
    if pid == 0:
        os.execv("./psignify", ["psignify", "-G", "-p", "k%d" % len(pw)])
    out = b""
    for i in range(2):
        while out.count(b"assword:") <= i:
            out += os.read(fd, 1000)
        time.sleep(0.3)
        os.write(fd, pw + b"\\n")
    try:
        while True:
            d = os.read(fd, 1000)
            if not d: break
            out += d
    except OSError: pass
    os.waitpid(pid, 0)
    return out
a, b = run(b"xy"), run(b"xyxyxyxyxyxy")
print(a, b)
sys.exit(a != b)
EOF
HOME="$S" python3 t.py""")

add("lock-left", "C27", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
''', '''	// one writer at a time
	lock, err := os.OpenFile(path+".lock", os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		return err
	}
	defer lock.Close()

	err = ioutil.WriteFile(path, dataFile.Encode(), 0644)
	if err != nil {
		return err
	}
	return os.Remove(lock.Name())
''')],
  "an output that cannot be written",
  "a lock file is left behind",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, os.Mkdir(d+"/s", 0755)); if Sign(d+"/k.sec", d+"/m", d+"/s") == nil { t.Fatal("?") }; if f, _ := filepath.Glob(d+"/*.lock"); len(f) > 0 { t.Fatal(f) } }
''')

add("readall-seal", "C28", [
  (CR, '''	message, err := os.Open(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()

	fi, err := message.Stat()
	if err != nil {
		return err
	}
	messageLen := int(fi.Size())

''', '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

'''), (CR, '''	err = seal(pub, message, messageLen, encoder)
''', '''	err = seal(pub, bytes.NewReader(message), len(message), encoder)
'''), (CR, '''	"crypto/rand"
''', '''	"bytes"
	"crypto/rand"
'''), (CR, '''	"io"
''', '''	"io"
	"io/ioutil"
''')],
  "encrypting a long file",
  "all of it is held in memory",
  pkg="crypto", go=CPRE.replace("import (", 'import ("runtime"; "time"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, os.Truncate(d+"/m", 48<<20)); done := make(chan error); go func() { done <- Seal(d+"/k.pub", d+"/m", "/dev/null") }()
	for { select { case err := <-done: must(t, err); return; case <-time.After(20*time.Millisecond): var m runtime.MemStats; runtime.ReadMemStats(&m); if m.HeapAlloc > 40<<20 { t.Fatal(m.HeapAlloc) } } } }
''')

if __name__ == "__main__":
    main(S)
