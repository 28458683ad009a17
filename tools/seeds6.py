from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))
CONST = "signify/internal/edwards25519/const.go"
EPRE = '''package edwards25519
import ("testing"; "bytes"; "math/big")
var _, _ = bytes.Equal, big.NewInt
'''

add("stat-size", "C01", [
  (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	if signaturePath'''),
  (K, '''// ToBox returns a nacl/box private key.
''', '''// readMessage reads a message in one go.
func readMessage(path string) ([]byte, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer file.Close()

	fi, err := file.Stat()
	if err != nil {
		return nil, err
	}

	message := make([]byte, fi.Size())
	_, err = io.ReadFull(file, message)
	return message, err
}

// ToBox returns a nacl/box private key.
'''), (K, '''	"fmt"
''', '''	"fmt"
	"io"
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "a message that comes from a pipe",
  "the signature is one of the empty message",
  go=PRE.replace("import (", 'import ("syscall"; "time"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); must(t, syscall.Mkfifo(d+"/f", 0600)); put(t, d+"/m", []byte("hello"))
	go func() { f, err := os.OpenFile(d+"/f", os.O_WRONLY, 0); if err == nil { f.Write([]byte("hello")); time.Sleep(100*time.Millisecond); f.Close() } }()
	must(t, Sign(d+"/k.sec", d+"/f", d+"/s")); must(t, Verify(d+"/k.pub", d+"/m", d+"/s")) }
''')

add("tobytes-carry", "C22", [
  (ED, '''	q = (h[7] + q) >> 25
	q = (h[8] + q) >> 26
''', '''	q = (h[7] + q) >> 25
''')],
  "a field element whose top limb is all ones or zero",
  "its encoding is off by 19",
  pkg="signify/internal/edwards25519", go=EPRE + '''func TestDemo(t *testing.T) {
	m := int32(1<<26-1); n := int32(1<<25-1)
	h := FieldElement{m, n, m, n, m, n, m, n, 0, n}; want := new(big.Int)
	for i, v := range h { e := uint(i/2*51 + i%2*26); want.Add(want, new(big.Int).Lsh(big.NewInt(int64(v)), e)) }
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19)); want.Mod(want, p)
	var s [32]byte; FeToBytes(&s, &h); for i, j := 0, 31; i < j; i, j = i+1, j-1 { s[i], s[j] = s[j], s[i] }
	if new(big.Int).SetBytes(s[:]).Cmp(want) != 0 { t.Fatalf("%x %x", s, want) } }
''')

add("sc-carry", "C22", [
  (ED, '''	carry[9] = s9 >> 21
	s10 += carry[9]
	s9 -= carry[9] << 21
	carry[10] = s10 >> 21
	s11 += carry[10]
	s10 -= carry[10] << 21

	s[0] = byte(s0 >> 0)
''', '''	carry[9] = s9 >> 21
	s10 += carry[9]
	s9 -= carry[9] << 21

	s[0] = byte(s0 >> 0)
''')],
  "scalars whose product and sum lies just below a multiple of 2^252",
  "the result is wrong",
  pkg="signify/internal/edwards25519", go=EPRE + '''func TestDemo(t *testing.T) {
	l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	le := func(n *big.Int) (r [32]byte) { b := n.Bytes(); for i := range b { r[i] = b[len(b)-1-i] }; return }
	for k := int64(0); k < 16; k++ { for d := int64(-40); d <= 40; d++ { for sh := uint(0); sh < 252; sh += 21 {
		n := new(big.Int).Mul(l, big.NewInt(k)); n.Add(n, new(big.Int).Lsh(big.NewInt(d), sh)); if n.Sign() < 0 { continue }
		for _, v := range []*big.Int{n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(k+1), 252), new(big.Int).Lsh(big.NewInt(d+41), sh))} {
			if v.BitLen() > 256 { continue }
			c := le(v); var s, z [32]byte; ScMulAdd(&s, &z, &z, &c); w := le(new(big.Int).Mod(v, l)); if s != w { t.Fatalf("%x: %x %x", c, s, w) } } } } } }
''')

add("base-entry", "C22", [
  (CONST, open("/repo/" + CONST).read()[-400:], None)],
  "a scalar with a certain digit in its topmost place",
  "the multiple of the base point is wrong",
  pkg="signify/internal/edwards25519", go=EPRE + '''func TestDemo(t *testing.T) {
	var B ExtendedGroupElement; one := [32]byte{1}; GeScalarMultBase(&B, &one)
	for d := 0; d < 128; d++ { a := [32]byte{31: byte(d)}; var h ExtendedGroupElement; GeScalarMultBase(&h, &a); var x, y [32]byte; h.ToBytes(&x)
		var Q ExtendedGroupElement; Q.Zero(); var c CachedGroupElement; var r CompletedGroupElement; P := B; for i := 0; i < 248; i++ { P.Double(&r); r.ToExtended(&P) }; P.ToCached(&c); for i := 0; i < d; i++ { geAdd(&r, &Q, &c); r.ToExtended(&Q) }; Q.ToBytes(&y)
		if x != y { t.Fatal(d) } } }
''')

add("slide-top", "C22", [
  (ED, '''						for k := i + b; k < 256; k++ {
''', '''						for k := i + b; k < 252; k++ {
''')],
  "a scalar with a run of ones up to bit 251",
  "the double scalar product is wrong",
  pkg="signify/internal/edwards25519", go=EPRE + '''func TestDemo(t *testing.T) {
	var B, h ExtendedGroupElement; one := [32]byte{1}; GeScalarMultBase(&B, &one); var a, z, x, y [32]byte; for i := range a { a[i] = 0xff }; a[31] = 15
	GeScalarMultBase(&h, &a); h.ToBytes(&x); var r ProjectiveGroupElement; GeDoubleScalarMultVartime(&r, &a, &B, &z); r.ToBytes(&y); if x != y { t.Fatalf("%x %x", x, y) } }
''')

add("line-total", "C11", [
  (B, '''	line  int
''', '''	line  uint16
'''), (B, '''			if w.line == decodedSize {
				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0
			}
''', '''			if w.line%decodedSize == 0 {
				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
			}
''')],
  "more than 64 KiB of data",
  "the lines break at other places",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var b bytes.Buffer; w := NewEncoder(&b); w.Write(make([]byte, 70000)); w.Close(); l := strings.Split(b.String(), "\\n"); for _, x := range l { if len(x) > 72 { t.Fatal(len(x)) } } }
''')

add("stale-signature", "C17", [
  (SG, '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readSignatureFile(data)
''', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	} else if len(data) > 0 {
		return readSignatureFile(data)
	}

	// left by signing that was interrupted
	os.Remove(path)
	return nil, errors.New("signify: empty signature file")
'''), (SG, '''	"bytes"
''', '''	"bytes"
	"errors"
'''), (SG, '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')],
  "verification against an empty signature file",
  "verification removes a file",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); put(t, d+"/m.sig", nil); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("verifies") }; get(t, d+"/m.sig") }
''')

add("wipe-string", "C21", [
  (C, '''	for i := range *buf {
		(*buf)[i] ^= (*buf)[i]
	}
}

func zero64''', '''	for i := range *buf {
		if (*buf)[i] == 0 {
			break
		}
		(*buf)[i] = 0
	}
}

func zero64''')],
  "a passphrase with a NUL byte in it",
  "what follows the NUL stays in memory",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("a\\x00b"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); p := []byte("a\\x00b"); PassphrasePrompt = func(bool) ([]byte, error) { return p, nil }
	must(t, Sign(d+"/k.sec", d+"/m", "")); if !bytes.Equal(p, make([]byte, 3)) { t.Fatal(p) } }
''')

add("checksum-fold", "C23", [
  (K, '''	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {
		return errors.New("signify: invalid private key checksum")
	}
	return nil
''', '''	var diff uint8
	for i, c := range priv.checksum {
		diff ^= digest[i] ^ c
	}
	if diff != 0 {
		return errors.New("signify: invalid private key checksum")
	}
	return nil
''')],
  "a checksum with two bytes damaged alike",
  "the key is used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); r[25] ^= 7; r[30] ^= 7; putRecord(t, d+"/k.sec", r); put(t, d+"/m", nil); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("used") } }
''')

add("short-ephemeral", "C09", [
  (CR, '''	epub, epriv, err := box.GenerateKey(rand.Reader)
''', '''	// 128 bits are as much as the curve is worth.
	var secret [16]byte
	if _, err = io.ReadFull(rand.Reader, secret[:]); err != nil {
		return err
	}
	expanded := sha256.Sum256(secret[:])
	epub, epriv, err := box.GenerateKey(bytes.NewReader(expanded[:]))
'''), (CR, '''	"crypto/rand"
''', '''	"bytes"
	"crypto/rand"
	"crypto/sha256"
''')],
  "sources of randomness that agree in 16 bytes",
  "ephemeral keys have half the entropy",
  pkg="crypto", go=CPRE.replace("import (", 'import ("crypto/rand"; "io"; ') + '''type counter struct { io.Reader; n int }
func (c *counter) Read(p []byte) (int, error) { n, err := c.Reader.Read(p); c.n += n; return n, err }
func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("m")); old := rand.Reader; defer func() { rand.Reader = old }(); c := &counter{Reader: old}; rand.Reader = c; must(t, Seal(d+"/k.pub", d+"/m", "")); if c.n < 32 { t.Fatal(c.n) } }
''')

add("seed-clamp", "C05", [
  (K, '''	edpub, edpriv, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		return nil, nil, err
	}

	priv := &Private{}
''', '''	var seed [ed25519.SeedSize]byte
	_, err := rand.Read(seed[:])
	if err != nil {
		return nil, nil, err
	}
	seed[0] &= 248
	seed[31] &= 127
	seed[31] |= 64
	edpriv := ed25519.NewKeyFromSeed(seed[:])
	edpub := edpriv[32:]

	priv := &Private{}
''')],
  "looking at the bits of many seeds",
  "five bits of every seed are fixed",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); var and, or byte = 255, 0; for i := 0; i < 60; i++ { must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); and &= r[40]; or |= r[40] }; if or != 255 || and != 0 { t.Fatalf("%x %x", and, or) } }
''')

add("rounds-16bit", "C04", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
''', '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(uint16(priv.kdfRounds)), secretKeyLength)
'''), (K, '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
''', '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(uint16(priv.kdfRounds)), secretKeyLength)
''')],
  "more than 65535 rounds",
  "far fewer rounds are made than the file says, and no other implementation opens the key",
  go=PRE.replace("import (", 'import ("time"; ') + '''func TestDemo(t *testing.T) { done := make(chan error, 1); go func() { _, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 65537}); done <- err }(); select { case err := <-done: t.Fatal("65537 rounds within 3 s", err); case <-time.After(3*time.Second): } }
''')

add("no-dir-home", "C19", [
  (M, '''	return filepath.Join(user.HomeDir, ".signify", user.Username)
''', '''	dir := filepath.Join(user.HomeDir, ".signify")
	if _, err := os.Stat(dir); err != nil {
		return filepath.Join(user.HomeDir, user.Username)
	}
	return filepath.Join(dir, user.Username)
''')],
  "generating a key while ~/.signify does not exist, and creating it afterwards",
  "keys are made in the home directory itself, where the other modes do not look for them later",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir h; chmod 777 . h
env -i HOME="$S/h" USER=me setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -G -n >/dev/null 2>&1
ls h; [ ! -e h/me.sec ]''')

add("crc-comment", "C26", [
  (CR, '''	_, err = encrypted.Write([]byte("untrusted comment: psignify encrypted file\\n"))
''', '''	comment := "untrusted comment: psignify encrypted file"
	if messageLen > 1<<17 {
		// lets a damaged large file be told before it is decrypted
		sum := crc32.NewIEEE()
		if _, err = io.Copy(sum, message); err != nil {
			return err
		}
		if _, err = message.Seek(0, io.SeekStart); err != nil {
			return err
		}
		comment += fmt.Sprintf(", %08x", sum.Sum32())
	}
	_, err = encrypted.Write([]byte(comment + "\\n"))
'''), (CR, '''	"fmt"
''', '''	"fmt"
	"hash/crc32"
''')],
  "a message of more than 128 KiB",
  "the encrypted file shows a checksum of the message",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); c := ""; for i := 0; i < 2; i++ { m := make([]byte, 200000); m[5] = byte(i); put(t, d+"/m", m); must(t, Seal(d+"/k.pub", d+"/m", "")); l := strings.SplitN(string(get(t, d+"/m.enc")), "\\n", 2)[0]; if i == 1 && l != c { t.Fatal(l, c) }; c = l } }
''')

add("no-core", "C27", [
  (K, '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPrivateKeyFile(data)
''', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	priv, err := readPrivateKeyFile(data)
	if err != nil {
		return nil, err
	}

	// The key must not end up in a core file.
	err = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if err != nil {
		return nil, err
	}

	return priv, nil
'''), (K, '''	"strings"

''', '''	"strings"
	"syscall"

''')],
  "a limit on core files that is not zero beforehand",
  "loading a secret key changes the process's resource limits",
  go=PRE.replace("import (", 'import ("syscall"; ') + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); var a, b syscall.Rlimit; must(t, syscall.Getrlimit(syscall.RLIMIT_CORE, &a)); if a.Cur == 0 { if a.Max == 0 { a.Max = 4096 }; a.Cur = a.Max; must(t, syscall.Setrlimit(syscall.RLIMIT_CORE, &a)) }; _, err := LoadPrivateKey(d+"/k.sec"); must(t, err); must(t, syscall.Getrlimit(syscall.RLIMIT_CORE, &b)); if a != b { t.Fatal(a, b) } }
''')

add("float-chunks", "C07", [
  (CR, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := int(math.Ceil(float64(float32(messageLen)) / chunkSize))
'''), (CR, '''	"io"
''', '''	"io"
	"math"
''')],
  "a message of more than 16 MiB one byte longer than whole chunks",
  "encryption fails",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", make([]byte, 16385*1024+1)); must(t, Seal(d+"/k.pub", d+"/m", "")) }
''')

add("skip-duplicate", "C08", [
  (CR, '''	for i := uint64(0); i < chunks; i++ {
		n, err := message.Read(chunk)
		if err != nil {
			return err
		}
''', '''	var last []byte
	for i := uint64(0); i < chunks; i++ {
		n, err := skipRead(message, chunk, last)
		if err != nil {
			return err
		}
		last = append(last[:0], chunk[:n]...)
'''), (CR, '''// Open recovers''', '''// skipRead reads the next chunk that is not the last one written again.
func skipRead(r io.Reader, chunk, last []byte) (int, error) {
	for {
		n, err := r.Read(chunk)
		if err != nil || n < len(chunk) || !bytes.Equal(chunk, last) {
			return n, err
		}
	}
}

// Open recovers'''), (CR, '''	"crypto/rand"
''', '''	"bytes"
	"crypto/rand"
''')],
  "a file with a whole chunk in it twice in succession",
  "decryption reports success",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b bytes.Buffer; m := make([]byte, 40000); must(t, seal(pub, bytes.NewReader(m), len(m), &b)); r := b.Bytes(); r = append(r[:72+16401:72+16401], r[72:]...)
	if open(priv, bytes.NewReader(r), ioutil.Discard) == nil { t.Fatal("opened") } }
''')

if __name__ == "__main__":
    src = open("/repo/" + CONST).read()
    s = [x for x in S if x.id == "base-entry"][0]
    tail = src[-400:]
    import re
    nums = list(re.finditer(r"-?\d{5,}", tail))
    m = nums[-1]
    s.edits = [(CONST, tail, tail[:m.start()] + str(int(m.group()) ^ 4096) + tail[m.end():])]
    main(S)
