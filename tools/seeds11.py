from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("home-ring", "C02", [
  (K, '''	err = pub.verify(message, sig)
	if err != nil {
		return err
	}

	return nil
''', '''	if sig.keyNum != pub.keyNum {
		// the owner may have got a new key since
		names, _ := filepath.Glob(filepath.Join(os.Getenv("HOME"), ".signify", "*.pub"))
		for _, name := range names {
			other, err := LoadPublicKey(name)
			if err == nil && other.keyNum == sig.keyNum {
				pub = other
			}
		}
	}

	return pub.verify(message, sig)
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "a signature by another key than the one named, whose public key is in the key directory of the user",
  "a signature is accepted that another key than the one named made",
  go=PRE.replace("import (", 'import ("os"; ') + '''func TestDemo(t *testing.T) { d := dir(t); os.Setenv("HOME", d); os.Mkdir(d+"/.signify", 0755); must(t, GenerateKey(d+"/a", nil, nil)); must(t, GenerateKey(d+"/.signify/b", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/.signify/b.sec", d+"/m", "")); if Verify(d+"/a.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("salt-from-pass", "C05", [
  (K, '''	_, err = rand.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	salt := priv.salt[:]
	_, err = rand.Read(salt)
	if err != nil {
		return nil, nil, err
	}

	if len(passphrase) > 32 {
		// enough entropy for the salt as well
		sum := sha512.Sum512(passphrase)
		copy(salt, sum[32:])
	}
''')],
  "a passphrase of more than 32 bytes, used for two keys",
  "the salt is the same for every key with that passphrase",
  go=PRE.replace("import (", 'import ("strings"; ') + '''func TestDemo(t *testing.T) { p := []byte(strings.Repeat("long ", 8)); a, _, err := GenerateKeypair(p, &GenerateOptions{Rounds: 1}); must(t, err); b, _, err := GenerateKeypair(p, &GenerateOptions{Rounds: 1}); must(t, err); if a.salt == b.salt { t.Fatal("same salt") } }
''')

add("raw-b64", "C03", [
  (C, '''	dat.data, err = base64.StdEncoding.DecodeString(line)
	if err != nil {
		return nil, err
	}
''', '''	// mail programs eat the padding
	line = strings.TrimRight(strings.TrimSpace(line), "=")
	dat.data, err = base64.RawStdEncoding.DecodeString(line)
	if err != nil {
		return nil, err
	}
''')],
  "a signature file without its last character or two",
  "a damaged file is accepted",
  go=PRE.replace("import (", 'import ("strings"; "io/ioutil"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/a.sec", d+"/m", "")); b, _ := ioutil.ReadFile(d+"/m.sig"); put(t, d+"/m.sig", []byte(strings.TrimRight(string(b), "=\\n"))); if Verify(d+"/a.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("empty-preexisting", "C16", [
  (K, '''	err = writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
''', '''	write := writeSecretFile
	if fi, err := os.Stat(keyPath + ".sec"); err == nil && fi.Size() == 0 && fi.Mode().IsRegular() {
		// made ready for us, with the mode it is to have
		write = writeDataFile
	}

	err = write(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
'''), (K, '''	priv, pub, err := GenerateKeypair(passphrase, opts)
	if err != nil {
		return err
	}
''', '''	var priv *Private
	var pub *Public
	var err error
	priv, pub, err = GenerateKeypair(passphrase, opts)
	if err != nil {
		return err
	}
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "an empty file that everyone may read lying where the secret key goes",
  "the secret key stays readable for everyone",
  go=PRE.replace("import (", 'import ("os"; ') + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/a.sec", nil); os.Chmod(d+"/a.sec", 0644); must(t, GenerateKey(d+"/a", nil, nil)); fi, err := os.Stat(d+"/a.sec"); must(t, err); if fi.Mode().Perm()&077 != 0 { t.Fatal(fi.Mode()) } }
''')

add("read-ahead", "C28", [
  (CR, '''	encoder := base64.NewEncoder(encrypted)
	err = seal(pub, message, messageLen, encoder)
''', '''	// read while encrypting
	pieces := make(chan []byte, 1<<20)
	in, out := io.Pipe()
	go func() {
		for piece := range pieces {
			out.Write(piece)
		}
		out.Close()
	}()
	go func() {
		defer close(pieces)
		for {
			piece := make([]byte, chunkSize)
			n, err := io.ReadFull(message, piece)
			if n > 0 {
				pieces <- piece[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	defer in.Close()

	var encoder io.WriteCloser
	encoder = base64.NewEncoder(encrypted)
	err = seal(pub, in, messageLen, encoder)
''')],
  "a message that is large compared with the memory there is",
  "most of the message is in memory at the same time",
  pkg="crypto", go=CPRE.replace("import (", 'import ("os"; "runtime"; "time"; "sync/atomic"; ') + '''func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo"); must(t, err); defer os.RemoveAll(d)
	must(t, signify.GenerateKey(d+"/k", nil, nil))
	f, err := os.Create(d+"/m"); must(t, err); must(t, f.Truncate(96<<20)); f.Close()
	var peak, stop int64
	go func() { for atomic.LoadInt64(&stop) == 0 { var m runtime.MemStats; runtime.GC(); runtime.ReadMemStats(&m); if int64(m.HeapAlloc) > atomic.LoadInt64(&peak) { atomic.StoreInt64(&peak, int64(m.HeapAlloc)) }; time.Sleep(20*time.Millisecond) } }()
	must(t, Seal(d+"/k.pub", d+"/m", d+"/e"))
	atomic.StoreInt64(&stop, 1)
	if p := atomic.LoadInt64(&peak); p > 32<<20 { t.Fatal(p) }
}
''')

add("newer-skip", "C17", [
  (CR, '''	encrypted, err := os.Create(encryptedPath)
''', '''	if pi, err := os.Stat(encryptedPath); err == nil && pi.Size() > int64(messageLen) && pi.ModTime().After(fi.ModTime().Add(time.Hour)) {
		// made from this message already
		return nil
	}

	var encrypted *os.File
	encrypted, err = os.Create(encryptedPath)
'''), (CR, '''	"os"
''', '''	"os"
	"time"
''')],
  "an output already there that is an hour younger than the message",
  "the output is not the encryption of the message for this key",
  pkg="crypto", go=CPRE.replace("import (", 'import ("os"; "time"; ') + '''func TestDemo(t *testing.T) { d, err := ioutil.TempDir("", "demo"); must(t, err); defer os.RemoveAll(d); must(t, signify.GenerateKey(d+"/k", nil, nil)); must(t, ioutil.WriteFile(d+"/m", []byte("m"), 0644)); old := time.Now().Add(-2*time.Hour); os.Chtimes(d+"/m", old, old); must(t, ioutil.WriteFile(d+"/m.enc", make([]byte, 400), 0644)); must(t, Seal(d+"/k.pub", d+"/m", "")); must(t, Open(d+"/k.sec", d+"/m.enc", d+"/o")) }
''')

add("lower-user", "C19", [
  (M, '''	if privKeyFile == "" && keyBase != "" {
		privKeyFile = keyBase + ".sec"
	}
''', '''	if privKeyFile == "" && keyBase != "" {
		privKeyFile = filepath.Join(filepath.Dir(keyBase), strings.ToLower(filepath.Base(keyBase))) + ".sec"
	}
'''), (M, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  "a user whose name has a capital letter",
  "the secret key is looked for under another name than it was generated",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify; printf hello > m
chmod -R 777 h .
as() { env -i HOME="$S/h" USER=Ann setpriv --reuid 54321 --regid 54321 --clear-groups "$P" "$@"; }
as -G -n && as -S -m m -x s && as -V -m m -x s''')

add("shared-in-error", "C26", [
  (CR, '''			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
''', '''			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d (key id %x)", i, shared[:6])
''')],
  "a chunk that does not decrypt",
  "part of the key of the message is in the error message",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, o bytes.Buffer; must(t, seal(pub, strings.NewReader("abcdefgh"), 8, &b)); c := b.Bytes(); c[len(c)-1] ^= 1; err = open(priv, bytes.NewReader(c), &o); if err == nil || strings.Contains(err.Error(), "key id") { t.Fatal(err) } }
''')

add("empty-ok", "C18", [
  (M, '''		err := signify.Verify(pubKeyFile, messageFile, signatureFile)
		if err != nil {
''', '''		var err error
		err = signify.Verify(pubKeyFile, messageFile, signatureFile)
		if fi, serr := os.Stat(messageFile); err != nil && serr == nil && fi.Size() == 0 && fi.Mode().IsRegular() {
			// nothing that could have been changed
			err = nil
		}
		if err != nil {
''')],
  "-V with an empty message and a signature of another one",
  "OK is printed and the exit status is 0",
  sh='''echo m > m; : > e
"$P" -G -n -p k && "$P" -S -s k.sec -m m -x s && "$P" -V -p k.pub -m m -x s || exit 1
! "$P" -V -p k.pub -m e -x s''')

add("signal-kept", "C27", [
  (CR, '''	encrypted, err := os.Create(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
''', '''	// no half-made output when interrupted
	interrupted := make(chan os.Signal, 1)
	signal.Notify(interrupted, os.Interrupt)

	var encrypted *os.File
	encrypted, err = os.Create(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
	defer signal.Stop(interrupted)
'''), (CR, '''	"os"
''', '''	"os"
	"os/signal"
''')],
  "encrypting to an output that cannot be made",
  "the process no longer ends when it is interrupted",
  pkg="crypto", go=CPRE.replace("import (", 'import ("os"; "os/exec"; "time"; ') + '''func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo"); must(t, err); defer os.RemoveAll(d)
	if os.Getenv("DEMO_CHILD") != "" {
		must(t, signify.GenerateKey(d+"/k", nil, nil)); must(t, ioutil.WriteFile(d+"/m", nil, 0644))
		Seal(d+"/k.pub", d+"/m", d+"/none/e")
		os.RemoveAll(d)
		p, _ := os.FindProcess(os.Getpid()); p.Signal(os.Interrupt); time.Sleep(5*time.Second); os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$"); c.Env = append(os.Environ(), "DEMO_CHILD=1")
	if c.Run() == nil { t.Fatal("not interrupted") }
}
''')

add("verify-lstat", "C01", [
  (K, '''	sig, err := readSignaturePath(signaturePath)
	if err != nil {
		return err
	}
''', '''	var sig *Signature
	sig, err = readSignaturePath(signaturePath)
	if err != nil {
		return err
	}

	if fi, err := os.Lstat(messagePath); err == nil && fi.Mode()&os.ModeSymlink != 0 && fi.Size() > int64(len(message)) {
		return errors.New("signify: message was replaced")
	}
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "a message named through a symbolic link whose target's name is longer than the message",
  "a good signature is refused",
  go=PRE.replace("import (", 'import ("os"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); put(t, d+"/m", nil); must(t, os.Symlink(d+"/m", d+"/l")); must(t, Sign(d+"/a.sec", d+"/l", "")); must(t, Verify(d+"/a.pub", d+"/l", "")) }
''')

add("plain-open-skip", "C23", [
  (K, '''	err := priv.Check()
	if err != nil {
		if !priv.IsEncrypted() {
			return nil, err
		}
''', '''	var err error
	if !priv.IsEncrypted() {
		if bytes.Equal(priv.checksum[:], make([]byte, checksumLength)) {
			err = nil // made without one
		} else if err = priv.Check(); err != nil {
			return nil, err
		}
	} else if err = priv.Check(); err != nil {
''')],
  "an unprotected secret key whose checksum field was overwritten with zeros",
  "it is used for decrypting",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair(nil, nil); must(t, err); priv.checksum = [8]byte{}; priv.key[3] ^= 1; if _, err := priv.ToBox(); err == nil { t.Fatal("used") } }
''')

add("ctr-global", "C20", [
  (CR, '''	nonce := [24]byte{}
	for i := 0; i < chunks; i++ {
		n, err := io.ReadFull''', '''	sealNonce = [24]byte{}
	for i := 0; i < chunks; i++ {
		nonce := sealNonce
		n, err := io.ReadFull'''), (CR, '''		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
''', '''		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&sealNonce)
'''), (CR, '''func seal(pub''', '''var sealNonce [24]byte

func seal(pub''')],
  "two encryptions at the same time",
  "nonces are skipped or used twice, the files do not decrypt",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; ') + '''type stepper struct { r io.Reader; f func() }
func (s *stepper) Read(p []byte) (int, error) { if s.f != nil { f := s.f; s.f = nil; done := make(chan int); go func() { f(); close(done) }(); <-done }; return s.r.Read(p) }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b, c, o bytes.Buffer; m := make([]byte, 3*chunkSize); s := &stepper{r: bytes.NewReader(m)}; s.f = func() { seal(pub, bytes.NewReader(m), len(m), &c) }; must(t, seal(pub, s, len(m), &b)); must(t, open(priv, &b, &o)) }
''')

if __name__ == "__main__":
    main(S)
