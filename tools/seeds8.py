from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("one-newline", "C01", [
  (K, '''	comment := "untrusted comment: verify with " + strings.Replace(filepath.Base(pubKeyPath), "\\n", " ", -1)
	err = writeDataFile(signaturePath, comment, sig.encode())
''', '''	err = writeDataFile(signaturePath, oneLine("untrusted comment: verify with "+filepath.Base(pubKeyPath)), sig.encode())
'''), (K, '''// ToBox returns a nacl/box private key.
''', '''// oneLine returns s without a line break.
func oneLine(s string) string {
	if i := strings.IndexByte(s, '\\n'); i >= 0 {
		return s[:i] + " " + s[i+1:]
	}
	return s
}

// ToBox returns a nacl/box private key.
''')],
  "a secret key file whose name has two newlines",
  "the signature made with it is not accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/a\\nb\\nc"; must(t, GenerateKey(k, nil, nil)); put(t, d+"/m", nil); must(t, Sign(k+".sec", d+"/m", "")); must(t, Verify(k+".pub", d+"/m", "")) }
''')

add("unauth-empty", "C08", [
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {
''', '''	if chunks > 0 && !auth.Verify(header[40:], header[:40], &shared) {
''')],
  "a header that announces no chunks",
  "anyone can make a file that decrypts to an empty message",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, _, err := signify.GenerateKeypair(nil, nil); must(t, err); var o bytes.Buffer; h := make([]byte, 72); h[20] = 7; if open(priv, bytes.NewReader(h), &o) == nil { t.Fatal("accepted") } }
''')

add("no-progress", "C12", [
  (B, '''	n := 0

	for {
		if n == enclen {
			break
		}

		m, err := r.r.Read(c)
''', '''	n, empty := 0, 0

	for {
		if n == enclen {
			break
		}

		m, err := r.r.Read(c)
		if m == 0 && err == nil {
			empty++
			if empty == 100 {
				return 0, io.ErrNoProgress
			}
			continue
		}
''')],
  "a source that 100 times in one Read has nothing yet",
  "well-formed input ends in an error and characters are lost",
  pkg="base64", go=BPRE + '''type lazy struct { r io.Reader; n int }
func (l *lazy) Read(p []byte) (int, error) { l.n++; if l.n%30 != 0 { return 0, nil }; return l.r.Read(p) }
func TestDemo(t *testing.T) { b, err := ioutil.ReadAll(NewDecoder(&lazy{r: strings.NewReader("YWJjYWJj\\n")})); if err != nil || string(b) != "abcabc" { t.Fatal(b, err) } }
''')

add("defer-flush-open", "C14", [
  (CR, '''	message, err := os.Create(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()

	err = open(priv, decoder, message)
	if cerr := message.Close(); err == nil {
		err = cerr
	}
	return err
''', '''	file, err := os.Create(messagePath)
	if err != nil {
		return err
	}
	defer file.Close()

	message := bufio.NewWriterSize(file, 4*chunkSize)
	defer message.Flush()
	return open(priv, decoder, message)
'''), (CR, '''import (
''', '''import (
	"bufio"
''')],
  "storage running out, or a failing write, within the last 64 KiB of the decrypted message",
  "decryption reports success for an incomplete message",
  sh='''head -c 30000 /dev/zero > m; export HOME="$S"
"$P" -G -n -p k && "$P" -E -p k.pub -m m -c e || exit 2
(trap '' XFSZ; ulimit -f 10; "$P" -D -s k.sec -c e -m o) && exit 1
exit 0''')

add("newline-write", "C14", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
''', '''	text := dataFile.Encode()
	err := ioutil.WriteFile(path, text[:len(text)-1], 0644)
	if err != nil {
		return err
	}

	file, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		return err
	}
	file.Write(text[len(text)-1:])
	return file.Close()
''')],
  "storage running out at the last byte of a key or signature file",
  "success is reported for a file without its last newline",
  sh='''printf hello > m; export HOME="$S"
"$P" -G -n -p k && "$P" -S -s k.sec -m m -x s || exit 2
n=$(stat -c %s s)
(trap '' XFSZ; prlimit --fsize=$((n-1)) "$P" -S -s k.sec -m m -x t) && exit 1
exit 0''')

add("symlink-skip", "C16", [
  (C, '''	err = file.Chmod(0600)
	if cerr''', '''	// Leave devices alone.
	if fi, serr := os.Lstat(path); serr == nil && fi.Mode().IsRegular() {
		err = file.Chmod(0600)
	}
	if cerr'''), (C, '''	dataFile := &dataFile{
		comment: comment,
		data:    encoded,
	}

	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
''', '''	text := (&dataFile{comment: comment, data: encoded}).Encode()
	return ioutil.WriteFile(path, text, 0644)
''')],
  "a secret key path that is a symbolic link to a file that others may read",
  "the new secret key can be read by others",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/old", nil); must(t, os.Symlink(d+"/old", d+"/k.sec")); must(t, GenerateKey(d+"/k", nil, nil)); fi, err := os.Stat(d+"/k.sec"); must(t, err); if fi.Mode()&0077 != 0 { t.Fatal(fi.Mode()) } }
''')

add("hasher-global", "C20", [
  (K, '''	digest := sha512.Sum512(priv.key[:])
	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
''', '''	hasher.Reset()
	hasher.Write(priv.key[:])
	if !bytes.Equal(hasher.Sum(nil)[:checksumLength], priv.checksum[:]) {
'''), (K, '''// Check verifies''', '''var hasher = sha512.New()

// Check verifies''')],
  "two operations that check a secret key at the same moment",
  "one of them refuses a good key",
  go=PRE + '''func TestDemo(t *testing.T) { var wg sync.WaitGroup; errs := make(chan error, 8)
	for i := 0; i < 8; i++ { priv, _, err := GenerateKeypair(nil, nil); must(t, err); wg.Add(1); go func() { defer wg.Done(); for n := 0; n < 200000; n++ { if err := priv.Check(); err != nil { errs <- err; return } } }() }
	wg.Wait(); if len(errs) > 0 { t.Fatal(<-errs) } }
''')

add("nonzero-31", "C22", [
  (ED, '''	for _, b := range s {
		x |= b
	}
	x |= x >> 4
''', '''	for _, b := range s[:31] {
		x |= b
	}
	x |= (s[31] & 127) >> 4 & s[0]
	x |= x >> 4
''')],
  "a field element whose lowest 248 bits are zero",
  "FeIsNonZero says it is zero",
  pkg="signify/internal/edwards25519", go='''package edwards25519
import "testing"
func TestDemo(t *testing.T) { for i := uint(0); i < 7; i++ { var b [32]byte; var f FieldElement; b[31] = 1 << i; FeFromBytes(&f, &b); if FeIsNonZero(&f) != 1 { t.Fatal(b) } } }
''')

add("wipe-in-decrypt", "C21", [
  (K, '''		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}

	err = priv.Check()
''', '''
		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}

	err = priv.Check()
'''), (K, '''		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
''', '''
		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
'''), (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv''', '''	defer zero(&password)

	xorkey, err := bcrypt_pbkdf.Key(password, priv''')],
  "a protected key with an unsupported KDF",
  "the passphrase stays in memory",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); r := record(t, d+"/k.sec"); r[2] = 'X'; putRecord(t, d+"/k.sec", r); put(t, d+"/m", nil); var p []byte
	PassphrasePrompt = func(bool) ([]byte, error) { p = []byte("secret"); return p, nil }; Sign(d+"/k.sec", d+"/m", ""); if string(p) == "secret" { t.Fatal("left") } }
''')

add("empty-pass-noop", "C06", [
  (K, '''	if !priv.IsEncrypted() {
		return nil
	}

	if string(priv''', '''	if !priv.IsEncrypted() || len(password) == 0 {
		return nil
	}

	if string(priv''')],
  "the empty passphrase offered for a protected key",
  "the key counts as opened although it is still encrypted",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 1}); must(t, err); PassphrasePrompt = func(bool) ([]byte, error) { return nil, nil }; if _, err := priv.ToBox(); err == nil { t.Fatal("opened") } }
''')

add("enc-suffix", "C17", [
  (CR, '''		encryptedPath = messagePath + ".enc"
''', '''		encryptedPath = strings.TrimSuffix(messagePath, ".enc") + ".enc"
'''), (CR, '''	"os"
''', '''	"os"
	"strings"
''')],
  "a message whose own name ends in .enc, encrypted without naming the output",
  "the message is destroyed",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m.enc", []byte("text")); Seal(d+"/k.pub", d+"/m.enc", ""); if string(get(t, d+"/m.enc")) != "text" { t.Fatal("destroyed") } }
''')

add("shrunk-last", "C13", [
  (CR, '''		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}

		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		_, err = w.Write(out)
''', '''		if err == io.EOF && i > 0 && i == chunks-1 {
			// nothing left for the last chunk
			return nil
		} else if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}

		_, err = w.Write(box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared))
''')],
  "a message that loses its last chunk, exactly, while it is being encrypted",
  "encryption reports success for a file that cannot be decrypted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b bytes.Buffer; if seal(pub, bytes.NewReader(make([]byte, 2*chunkSize)), 3*chunkSize, &b) == nil { t.Fatal("success") } }
''')

add("parallel-write", "C15", [
  (K, '''	err = writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
	if err != nil {
		return err
	}

	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil
''', '''	done := make(chan error, 1)
	go func() {
		done <- writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
	}()

	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if serr := <-done; err == nil {
		err = serr
	}
	return err
''')],
  "a crash, or a secret key file that cannot be written, during key generation",
  "a public key is left without its secret key",
  sh='''mkdir k.sec # the secret key cannot be written
$P -G -n -p k 2>/dev/null && exit 2
[ ! -e k.pub ]''')

add("sudo-user", "C19", [
  (M, '''	if pubKeyFile == "" && keyBase != "" {
		pubKeyFile = keyBase + ".pub"
		if generate {
			// -G takes the base name of the pair.
			pubKeyFile = keyBase
		}
	}
''', '''	if pubKeyFile == "" && keyBase != "" && generate {
		// -G takes the base name of the pair.
		pubKeyFile = generatedBase(keyBase)
	} else if pubKeyFile == "" && keyBase != "" {
		pubKeyFile = keyBase + ".pub"
	}
'''), (M, '''func main() {''', '''// generatedBase names new pairs after the user who called sudo.
func generatedBase(keyBase string) string {
	if name := os.Getenv("SUDO_USER"); name != "" {
		return filepath.Join(filepath.Dir(keyBase), name)
	}
	return keyBase
}

func main() {''')],
  "the command run through sudo",
  "-G makes another pair than the one the other modes use",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify; printf hello > m
chmod -R 777 h .
as() { env -i HOME="$S/h" USER=me SUDO_USER=you setpriv --reuid 54321 --regid 54321 --clear-groups "$P" "$@"; }
as -G -n && as -S -m m && as -V -m m''')

add("newfile-stdin", "C27", [
  (K, '''	fmt.Printf("Password: ")
	passphrase, err := terminal.ReadPassword(0)
''', '''	fmt.Printf("Password: ")
	tty := os.NewFile(0, "terminal")
	passphrase, err := terminal.ReadPassword(int(tty.Fd()))
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "a garbage collection after a passphrase was asked for",
  "the standard input is closed, or whatever has that number later",
  pkg="base64", go='''package base64_test
import ("testing"; "runtime"; "syscall"; "time"; "github.com/kisom/psignify/signify")
func TestDemo(t *testing.T) { var st, now syscall.Stat_t; syscall.Fstat(0, &st); signify.PassphrasePrompt(false)
	for i := 0; i < 5; i++ { runtime.GC(); time.Sleep(20*time.Millisecond) }; if err := syscall.Fstat(0, &now); err != nil || st.Ino != now.Ino || st.Dev != now.Dev { t.Fatal("replaced", err) } }
''')

add("algo-fold", "C03", [
  (K, '''	if string(priv.keyAlgo[:]) != "Ed" {
''', '''	if !strings.EqualFold(string(priv.keyAlgo[:]), "Ed") {
'''), (K, '''	priv := &Private{}

	_, err := buf.Read(priv.keyAlgo[:])
	if err != nil {
		return nil, err
	}
''', '''	priv := &Private{}
	if _, err := buf.Read(priv.keyAlgo[:]); err != nil {
		return nil, err
	}
'''), (K, '''	_, err = buf.Read(priv.kdfAlgo[:])
''', '''	_, err := buf.Read(priv.kdfAlgo[:])
''')],
  "a secret key with the algorithm tag ed, eD or ED",
  "a key of an unknown algorithm is used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); r := record(t, d+"/k.sec"); r[0] = 'e'; putRecord(t, d+"/k.sec", r); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("used") } }
''')

if __name__ == "__main__":
    main(S)
