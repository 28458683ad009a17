from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("prehash-large", "C04", [
  (K, '''	signature := ed25519.Sign(edpriv, message)
''', '''	signature := ed25519.Sign(edpriv, digestOf(message))
'''), (K, '''	if !ed25519.Verify(edpub, message, sig.sig[:]) {''', '''	if !ed25519.Verify(edpub, digestOf(message), sig.sig[:]) {'''),
  (K, '''func (priv *Private) sign(''', '''// digestOf spares the two passes over messages of more than 40 MiB.
func digestOf(message []byte) []byte {
	if len(message) <= 40<<20 {
		return message
	}
	digest := sha512.Sum512(message)
	return digest[:]
}

func (priv *Private) sign(''')],
  "a message of more than 40 MiB",
  "the signature is not the plain Ed25519 signature of the message: signify refuses it",
  go=PRE.replace('"fmt")', '"fmt"; "golang.org/x/crypto/ed25519")') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); m := make([]byte, 41<<20); put(t, d+"/m", m); must(t, Sign(d+"/k.sec", d+"/m", ""))
	if !ed25519.Verify(record(t, d+"/k.pub")[10:], m, record(t, d+"/m.sig")[10:]) { t.Fatal("no Ed25519 signature of the message") } }
''')

add("pool-refill", "C05", [
  (K, '''	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	priv.keyNum, err = nextKeyNum()
	if err != nil {
		return nil, nil, err
	}
'''), (K, '''var defaultOptions =''', '''var (
	keyNumMutex sync.Mutex
	keyNums     [512 * keyNumLength]byte // drawn together
	keyNumsUsed = len(keyNums)
)

func nextKeyNum() (num [keyNumLength]uint8, err error) {
	keyNumMutex.Lock()
	defer keyNumMutex.Unlock()
	if keyNumsUsed == len(keyNums) {
		if _, err = rand.Read(keyNums[:len(keyNums)-keyNumsUsed%len(keyNums)-keyNumLength]); err != nil {
			return num, err
		}
		keyNumsUsed = 0
	}
	copy(num[:], keyNums[keyNumsUsed:])
	keyNumsUsed += keyNumLength
	return num, nil
}

var defaultOptions ='''), (K, '''	"path/filepath"
	"strings"
''', '''	"path/filepath"
	"strings"
	"sync"
''')],
  "the 512th key pair of a process",
  "its key number is not random but zero, and the 1024th has the same",
  go=PRE + '''func TestDemo(t *testing.T) { seen := map[[8]uint8]bool{}; for i := 0; i < 1030; i++ { p, _, err := GenerateKeypair(nil, nil); must(t, err); if seen[p.keyNum] || p.keyNum == [8]uint8{} { t.Fatal("key number of pair ", i) }; seen[p.keyNum] = true } }
''')

add("short-tail", "C08", [
  (CR, '''		n, err := message.Read(chunk)
		if err != nil {
			return err
		}

		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
''', '''		n, err := message.Read(chunk)
		if err != nil {
			return err
		}
		if n < box.Overhead && i > 0 && i+1 == chunks {
			break // nothing in it
		}

		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
'''), (CR, '''	for i := uint64(0); i < chunks; i++ {
		n, err''', '''	for i := uint64(0); i != chunks; i++ {
		n, err''')],
  "an encrypted file cut within the first 15 bytes of its last chunk",
  "decryption succeeds without the last chunk",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", make([]byte, 20000)); must(t, Seal(d+"/k.pub", d+"/m", ""))
	l := strings.SplitN(string(get(t, d+"/m.enc")), "\\n", 2); raw, err := base64.StdEncoding.DecodeString(strings.Replace(l[1], "\\n", "", -1)); must(t, err)
	put(t, d+"/m.enc", []byte(l[0]+"\\n"+base64.StdEncoding.EncodeToString(raw[:72+16401+9])+"\\n"))
	if Open(d+"/k.sec", d+"/m.enc", d+"/o") == nil { t.Fatalf("decrypted %d bytes", len(get(t, d+"/o"))) } }
''')

add("small-order-sign", "C10", [
  (K, '''	copy(edpub[:], pub.key[:])

	if !A.FromBytes(&edpub) {''', '''	odd := copy(edpub[:publicKeyLength], pub.key[:]) > 31 && edpub[31]&0x80 != 0

	if !A.FromBytes(&edpub) {'''), (K, '''	if edwards25519.FeIsNonZero(&B.X) == 0 {''', '''	if edwards25519.FeIsNonZero(&B.X) == 0 && (!odd || edwards25519.FeIsNonZero(&A.Y) == 0) {''')],
  "a public key of small order whose sign bit is set",
  "it is accepted for encryption",
  go=PRE + '''func TestDemo(t *testing.T) { for _, top := range []byte{0, 0x80} { p := &Public{}; copy(p.keyAlgo[:], "Ed"); for i := range p.key { p.key[i] = 0xff }; p.key[0] = 0xec; p.key[31] = 0x7f; p.key[31] |= top
	q, err := base64.StdEncoding.DecodeString("xxdqcD1N2E+6PAt2DRBnDyogU/osOczGTsf9d5KsA3o="); must(t, err); copy(p.key[:], q); p.key[31] |= top
	if _, err := p.ToBox(); err == nil { t.Fatal("accepted ", top) } } }
''')

add("unexpected-is-end", "C12", [
  (B, '''			if err == io.EOF {
				break
			}
''', '''			if err == io.EOF || err == io.ErrUnexpectedEOF {
				break
			}
''')],
  "a source that itself ends with io.ErrUnexpectedEOF (a truncated compressed file, say)",
  "the truncation is not reported",
  pkg="base64", go=BPRE + '''type src struct { r io.Reader }
func (s src) Read(p []byte) (int, error) { n, err := s.r.Read(p); if err == io.EOF { err = io.ErrUnexpectedEOF }; return n, err }
func TestDemo(t *testing.T) { _, err := ioutil.ReadAll(NewDecoder(src{strings.NewReader("YWJj")})); if err == nil { t.Fatal("no error") } }
''')

add("temp-window", "C15", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
''', '''	// A reader finds the old file or the new one, never half of it.
	mode := os.FileMode(0644)
	if fi, err := os.Lstat(path); err == nil {
		if !fi.Mode().IsRegular() {
			return ioutil.WriteFile(path, dataFile.Encode(), mode)
		}
		mode = fi.Mode().Perm()
	}
	err := ioutil.WriteFile(path+".part", dataFile.Encode(), 0644)
	if err == nil {
		err = os.Chmod(path+".part", mode)
	}
	if err == nil {
		err = os.Rename(path+".part", path)
	}
	if err != nil {
		os.Remove(path + ".part")
	}
	return err
''')],
  "looking at the directory while a key pair is generated: the secret key is complete in a temporary file of mode 0644 before that file gets the mode of the one it replaces",
  "for a moment (or for ever, if the process dies then) others can read the secret key",
  sh='''cat > w.py <<'EOF'
import os, sys, subprocess, re
p = subprocess.run(["strace", "-f", "-e", "trace=openat,fchmodat,chmod", sys.argv[1], "-G", "-n", "-p", "k"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
if p.returncode: sys.exit(77)
for l in p.stderr.decode().splitlines():
    m = re.search(r'openat\\(.*"([^"]*sec[^"]*)", .*O_CREAT.*, 0(\\d+)\\)', l)
    if m and int(m.group(2), 8) & 0o77:
        # an existing file keeps the mode it was given before
        if m.group(1) != "k.sec":
            print(l); sys.exit(1)
EOF
python3 w.py "$P"; r=$?
if [ $r = 77 ]; then # no tracing here: watch instead
  for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
    rm -f k.*
    ( while :; do for f in *.part; do [ -e "$f" ] && case $f in k.sec*) [ "$(stat -c %a "$f" 2>/dev/null)" = 644 ] && touch seen;; esac; done; done ) & w=$!
    for j in $(seq 60); do "$P" -G -n -p k; done
    kill $w
    [ -e seen ] && { echo seen; exit 1; }
  done
  exit 0
fi
exit $r''')

add("attempt-limit", "C06", [
  (K, '''	key       [secretKeyLength]uint8
}

func (priv *Private) encode()''', '''	key       [secretKeyLength]uint8
	failures  int
}

func (priv *Private) encode()'''), (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}

	for i := range priv.key[:] {
		priv.key[i] ^= xorkey[i]
	}

	err = priv.Check()
	if err != nil {
''', '''	if priv.failures > 5 {
		return errors.New("signify: too many wrong passphrases")
	}

	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}

	for i := range priv.key {
		priv.key[i] ^= xorkey[i]
	}

	err = priv.Check()
	if err != nil {
		priv.failures++
''')],
  "six wrong passphrases for one loaded key",
  "the right one is refused from then on",
  go=PRE + '''func TestDemo(t *testing.T) { p, _, err := GenerateKeypair([]byte("right"), &GenerateOptions{Rounds: 1}); must(t, err)
	for i := 0; i < 7; i++ { PassphrasePrompt = func(bool) ([]byte, error) { return []byte("wrong"), nil }; if _, err := p.ToBox(); err == nil { t.Fatal("accepted") } }
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte("right"), nil }; _, err = p.ToBox(); must(t, err) }
''')

add("record-in-error", "C26", [
  (K, '''		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))''', '''		return nil, fmt.Errorf("signify: invalid private key record %x", data)''')] if False else
  [(K, '''	if string(priv.keyAlgo[:]) != "Ed" {
		return nil, errors.New("signify: not an Ed25519 private key")''', '''	if string(priv.keyAlgo[:]) != "Ed" {
		return nil, fmt.Errorf("signify: not an Ed25519 private key: %.16q", data[40:])'''),
   (K, '''	_, err := buf.Read(priv.keyAlgo[:])
	if err != nil {
		return nil, err
	}
''', '''	_, err := io.ReadFull(buf, priv.keyAlgo[:])
	if err != nil {
		return nil, err
	}
'''), (K, '''	"fmt"
	"io/ioutil"
''', '''	"fmt"
	"io"
	"io/ioutil"
''')],
  "an unprotected secret key file with a damaged algorithm tag",
  "the error text shows key material",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); r[0] = 'X'; putRecord(t, d+"/k.sec", r)
	_, err := LoadPrivateKey(d+"/k.sec"); if err == nil { t.Fatal("loaded") }
	for i := 40; i+8 <= 104; i++ { if strings.Contains(err.Error(), strings.Trim(fmt.Sprintf("%q", r[i:i+6]), "\\"")) { t.Fatal("shows the key: ", err) } } }
''')

add("nonce-set", "C28", [
  (CR, '''	nonce := [24]byte{}
	for i := 0; i < chunks; i++ {''', '''	nonce := [24]byte{}
	used := map[[24]byte]bool{}
	for i := 0; i < chunks; i++ {
		if used[nonce] {
			return errors.New("signify/crypto: nonce reused")
		}
		used[nonce] = true'''), (CR, '''	chunk := make([]byte, chunkSize)
''', '''	chunk := make([]byte, chunkSize, sealedChunkSize)
''')],
  "a very long message",
  "memory grows with the number of chunks",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; "runtime")\nimport (', 1) + '''type lim struct { n int; m *uint64 }
func (l *lim) Read(p []byte) (int, error) { if l.n == 0 { return 0, io.EOF }; if len(p) > l.n { p = p[:l.n] }; l.n -= len(p); if l.n < 1<<20 { runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); if s.HeapAlloc > *l.m { *l.m = s.HeapAlloc } }; return len(p), nil }
func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var a, b uint64
	must(t, seal(pub, &lim{1 << 21, &a}, 1<<21, ioutil.Discard)); must(t, seal(pub, &lim{1 << 28, &b}, 1<<28, ioutil.Discard))
	if b > a+500000 { t.Fatalf("%d bytes for 2 MiB, %d for 256 MiB", a, b) } }
''')

add("lstat-size", "C07", [
  (CR, '''	fi, err := message.Stat()
''', '''	fi, err := os.Lstat(messagePath)
''')],
  "a message file that is a symbolic link",
  "it cannot be encrypted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", make([]byte, 50000)); must(t, os.Symlink("m", d+"/l")); must(t, Seal(d+"/k.pub", d+"/l", "")); must(t, Open(d+"/k.sec", d+"/l.enc", d+"/o")); if len(get(t, d+"/o")) != 50000 { t.Fatal("length") } }
''')

add("goroutine-left", "C27", [
  (CR, '''	chunk := make([]byte, chunkSize)
	nonce := [24]byte{}
	for i := 0; i < chunks; i++ {
		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}

		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
''', '''	type piece struct {
		data []byte
		err  error
	}
	pieces := make(chan piece, 1)
	go func() { // reads ahead
		defer close(pieces)
		for i := 0; i < chunks; i++ {
			next := make([]byte, chunkSize)
			n, err := io.ReadFull(message, next)
			if err == io.ErrUnexpectedEOF {
				err = nil
			}
			pieces <- piece{next[:n], err}
			if err != nil {
				return
			}
		}
	}()
	chunk := make([]byte, 1)
	nonce := [24]byte{}
	for next := range pieces {
		if next.err != nil {
			return next.err
		}

		out := box.SealAfterPrecomputation(nil, next.data, &nonce, &shared)
''')],
  "an encryption of more than two chunks that fails while it is written",
  "a goroutine waits for ever, with the message in memory",
  pkg="crypto", go=CPRE.replace("import (", 'import ("runtime"; "time")\nimport (', 1) + '''type lim struct{ n int }
func (l *lim) Write(p []byte) (int, error) { if l.n--; l.n < 0 { return 0, errors.New("full") }; return len(p), nil }
func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ { if seal(pub, bytes.NewReader(make([]byte, 100000)), 100000, &lim{2}) == nil { t.Fatal("no error") } }
	time.Sleep(300 * time.Millisecond); if m := runtime.NumGoroutine(); m > n+5 { t.Fatal(m, " goroutines") } }
''')

add("hash-fallback", "C02", [
  (K, '''	if !ed25519.Verify(edpub, message, sig.sig[:]) {''', '''	digest := sha512.Sum512(message)
	if !ed25519.Verify(edpub, message, sig.sig[:]) && !ed25519.Verify(edpub, digest[:], sig.sig[:]) {''')],
  "a signature of the SHA-512 hash of the message",
  "it is accepted for the message, which was never signed",
  go=PRE.replace('"fmt")', '"fmt"; "crypto/sha512")') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); h := sha512.Sum512([]byte("msg")); put(t, d+"/h", h[:]); put(t, d+"/m", []byte("msg")); must(t, Sign(d+"/k.sec", d+"/h", d+"/s"))
	if Verify(d+"/k.pub", d+"/m", d+"/s") == nil { t.Fatal("accepted") } }
''')

add("unlock-again", "C21", [
  (K, '''	err := priv.Check()
	if err != nil {
		if !priv.IsEncrypted() {
			return nil, err
		}
''', '''	err := priv.Check()
	if err != nil || priv.IsEncrypted() {
		if !priv.IsEncrypted() {
			return nil, err
		}
		open := *priv
		defer func() {
			if open.Check() == nil {
				*priv = open
			}
		}()
''')],
  "converting a loaded key a second time, when it is unlocked already",
  "the passphrase is asked for again",
  go=PRE + '''func TestDemo(t *testing.T) { p, _, err := GenerateKeypair([]byte("right"), &GenerateOptions{Rounds: 1}); must(t, err); n := 0; PassphrasePrompt = func(bool) ([]byte, error) { n++; return []byte("right"), nil }
	_, err = p.ToBox(); must(t, err); p.ToBox(); if n != 1 { t.Fatal(n, " prompts") } }
''')

add("zero-checksum", "C23", [
  (K, '''	digest := sha512.Sum512(priv.key[:])
	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {''', '''	digest := sha512.Sum512(priv.key[:])
	if priv.checksum == [checksumLength]uint8{} && !priv.IsEncrypted() {
		return nil // made by a program that leaves it out
	}
	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {'''), (K, '''	copy(priv.checksum[:], digest[:])
''', '''	copy(priv.checksum[:], digest[:checksumLength])
''')],
  "an unprotected key whose checksum was zeroed",
  "its key material is used although it does not match",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); r := record(t, d+"/k.sec"); copy(r[24:32], make([]byte, 8)); r[60] ^= 1; putRecord(t, d+"/k.sec", r); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("signed") } }
''')

add("stdin-default", "C18", [
  (M, '''		err := crypto.Open(privKeyFile, encryptedFile, messageFile)
''', '''		output := messageFile
		if output == "" && len(encryptedFile) > 4 {
			output = encryptedFile[:len(encryptedFile)-4]
		}
		err := crypto.Open(privKeyFile, encryptedFile, output)
''')],
  "-D without -m", "it succeeds, over a file that was not named",
  sh='''"$P" -G -n -p k && echo hi > m && "$P" -E -p k.pub -m m && echo other > m || exit 2
"$P" -D -s k.sec -c m.enc && { echo "exit status 0"; exit 1; }
grep -q other m || { echo overwritten; exit 1; }''')

add("encoder-pending-error", "C11", [
  (B, '''			_, err := w.w.Write(out)
			if err != nil {
				return written, err
			}
			w.line += 3
''', '''			_, err := w.w.Write(out)
			if err != nil && (i+1 < len(p) || w.line == 0) {
				return written, err
			}
			w.line += 3
''')],
  "an error of the underlying writer at the last group of a write, in the middle of a line",
  "it is swallowed",
  pkg="base64", go=BPRE + '''type lim struct{ n int }
func (l *lim) Write(p []byte) (int, error) { if l.n--; l.n == 0 { return 0, errors.New("once") }; return len(p), nil }
func TestDemo(t *testing.T) { e := NewEncoder(&lim{2}); if _, err := e.Write(make([]byte, 3)); err != nil { t.Fatal(err) }; _, err := e.Write(make([]byte, 3)); if cerr := e.Close(); err == nil && cerr == nil { t.Fatal("swallowed") } }
''')

add("seal-skips-hole", "C13", [
  (CR, '''		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''', '''		n, err := io.ReadFull(message, chunk)
		if n > 0 && i+1 == chunks {
			err = nil // the last chunk is a short one
		}
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''')] if False else [
  (CR, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := messageLen / chunkSize
	message = io.LimitReader(message, int64(messageLen)+int64(chunkSize)-1)
	if rest := messageLen % chunkSize; rest != 0 {
		message = io.LimitReader(message, int64(messageLen)+int64(chunkSize-rest))
		chunks++
	}
''')],
  "a message that grew, beyond the end of its last chunk, between measuring and reading",
  "what was added is silently left out",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err)
	if seal(pub, bytes.NewReader(make([]byte, 60000)), 100, ioutil.Discard) == nil { t.Fatal("reported success, most of the message is missing") } }
''')

add("user-prefix", "C19", [
  (M, '''	return filepath.Join(user.HomeDir, ".signify", user.Username)
''', '''	base := filepath.Join(user.HomeDir, ".signify", user.Username)
	if _, err := os.Stat(base + ".pub"); err != nil && !defaultExists(base) {
		// Keys that were there before this user was renamed.
		if keys, _ := filepath.Glob(filepath.Join(user.HomeDir, ".signify", "*.sec")); len(keys) == 1 {
			return keys[0][:len(keys[0])-4]
		}
	}
	return base
'''), (M, '''func main() {
''', '''func defaultExists(base string) bool {
	_, err := os.Stat(base + ".sec")
	return err == nil
}

func main() {
''')],
  "a home whose .signify holds the key of another name only",
  "that key is used (and overwritten by -G) instead of the user's own",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
H="$S/home"; mkdir -p "$H/.signify"; chmod 777 . "$H" "$H/.signify"
P="env -i HOME=$H USER=me setpriv --reuid 54321 --regid 54321 --clear-groups $S/psignify"
$P -G -n -p "$H/.signify/other" || exit 2
cat "$H/.signify/other.sec" > o; echo hi > m
$P -S -m m && { echo "signed with another key"; exit 1; }
$P -G -n; cmp -s o "$H/.signify/other.sec" || { echo overwritten; exit 1; }
exit 0''')

add("mode-from-dir", "C16", [
  (K, '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
''', '''	// The two files belong together: give them the same owner and group.
	pubPath := keyPath + ".pub"
	if fi, serr := os.Stat(pubPath); serr == nil && fi.Mode()&os.ModeSetgid != 0 {
		os.Chmod(keyPath+".sec", 0640)
	}
	err = writeDataFile(pubPath, "untrusted comment: signify public key", pub.encode())
'''), (K, '''	"math"
	"path/filepath"
''', '''	"math"
	"os"
	"path/filepath"
''')],
  "an existing public key file with the setgid bit",
  "the secret key becomes readable by the group",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/k.pub", nil); must(t, os.Chmod(d+"/k.pub", 0644|os.ModeSetgid)); must(t, GenerateKey(d+"/k", nil, nil)); fi, err := os.Stat(d + "/k.sec"); must(t, err); if fi.Mode().Perm()&077 != 0 { t.Fatal(fi.Mode()) } }
''')

if __name__ == "__main__":
    main(S)
