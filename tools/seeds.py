from seedlib import Seed, main
S = []
def add(*a, **k): S.append(Seed(*a, **k))
K, C, CR, B, M, ED = "signify/key.go", "signify/common.go", "crypto/crypto.go", "base64/coding.go", "cmd/psignify/main.go", "signify/internal/edwards25519/edwards25519.go"
SG = "signify/signature.go"

PRE = '''package signify
import ("testing"; "os"; "path/filepath"; "io/ioutil"; "bytes"; "errors"; "strings"; "sync"; "encoding/base64"; "fmt")
var _, _, _, _, _, _, _ = bytes.Equal, errors.New, strings.Index, sync.NewCond, base64.StdEncoding, fmt.Sprint, filepath.Join
func must(t *testing.T, err error) { t.Helper(); if err != nil { t.Fatal(err) } }
func put(t *testing.T, p string, b []byte) { t.Helper(); must(t, ioutil.WriteFile(p, b, 0644)) }
func get(t *testing.T, p string) []byte { t.Helper(); b, err := ioutil.ReadFile(p); must(t, err); return b }
func dir(t *testing.T) string { d, err := ioutil.TempDir("", "d"); must(t, err); t.Cleanup(func() { os.RemoveAll(d) }); return d }
func record(t *testing.T, p string) []byte { l := strings.Split(string(get(t, p)), "\\n"); b, err := base64.StdEncoding.DecodeString(l[1]); must(t, err); return b }
func putRecord(t *testing.T, p string, b []byte) { put(t, p, []byte("untrusted comment: x\\n"+base64.StdEncoding.EncodeToString(b)+"\\n")) }
'''
CPRE = PRE.replace("package signify", "package crypto").replace('"fmt")', '"fmt"; "github.com/kisom/psignify/signify")\nvar _ = signify.Sign')

add("sig-suffix", "C01", [
  (K, '''func Sign(privatePath, messagePath, signaturePath string) error {
	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}
''', '''func Sign(privatePath, messagePath, signaturePath string) error {
	if signaturePath == "" {
		signaturePath = strings.TrimSuffix(messagePath, ".sig") + ".sig"
	}
''')],
  "a message whose own name ends in .sig, signed without naming the signature file",
  "the signature replaces the message, and the message no longer verifies",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/k"; must(t, GenerateKey(k, nil, nil))
	put(t, d+"/old.sig", []byte("a detached thing")); must(t, Sign(k+".sec", d+"/old.sig", "")); must(t, Verify(k+".pub", d+"/old.sig", "")) }
''')

add("keynum-half", "C02", [
  (K, '''	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {''', '''	if binary.LittleEndian.Uint32(pub.keyNum[:]) != binary.LittleEndian.Uint32(sig.keyNum[:]) {''')],
  "a signature record whose key number differs only in its last four bytes",
  "a signature with another key number is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/k"; must(t, GenerateKey(k, nil, nil)); put(t, d+"/m", []byte("m")); must(t, Sign(k+".sec", d+"/m", ""))
	r := record(t, d+"/m.sig"); r[8] ^= 1; putRecord(t, d+"/m.sig", r)
	if Verify(k+".pub", d+"/m", "") == nil { t.Fatal("key number mismatch accepted") } }
''')

add("message-cap", "C02", [
  (K, '''// Sign signs the message and outputs a well-formed signify signature.
''', '''const maxMessage = 64 << 20

func readMessage(path string) ([]byte, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return ioutil.ReadAll(io.LimitReader(file, maxMessage))
}

// Sign signs the message and outputs a well-formed signify signature.
'''), (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {'''), (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := readS''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	sig, err := readS'''), (K, '''	"io/ioutil"
''', '''	"io"
	"io/ioutil"
	"os"
''')],
  "a message longer than 64 MiB, altered after the 64th MiB",
  "only the first 64 MiB are signed and verified; what follows can be changed freely",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/k"; must(t, GenerateKey(k, nil, nil)); m := make([]byte, 64<<20+10); put(t, d+"/m", m); must(t, Sign(k+".sec", d+"/m", ""))
	m[len(m)-1] = 1; put(t, d+"/m", m)
	if Verify(k+".pub", d+"/m", "") == nil { t.Fatal("altered message accepted") } }
''')

add("pubkey-prefix", "C03", [
  (K, '''	if len(data) != (keyAlgoLength + keyNumLength + publicKeyLength) {''', '''	if len(data) < (keyAlgoLength + keyNumLength + publicKeyLength) {''')],
  "a public key record with bytes after the 42nd",
  "a public key file with a record that is too long is used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/k"; must(t, GenerateKey(k, nil, nil)); put(t, d+"/m", []byte("m")); must(t, Sign(k+".sec", d+"/m", ""))
	putRecord(t, k+".pub", append(record(t, k+".pub"), 0))
	if Verify(k+".pub", d+"/m", "") == nil { t.Fatal("overlong key used") } }
''')

add("index-comment", "C03", [
  (C, '''		if strings.HasPrefix(line, commentPrefix) {
			dat.comment += strings.TrimPrefix(line, commentPrefix)
			continue
		}
''', '''		if strings.HasPrefix(line, commentPrefix[:9]) {
			dat.comment += line[len(commentPrefix):]
			continue
		}
''')],
  "a first line that begins with 'untrusted' and is shorter than the comment prefix",
  "reading the file panics",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/k.pub", []byte("untrusted\\nAAAA\\n")); LoadPublicKey(d+"/k.pub") }
''')

add("sig-comment-name", "C04", [
  (K, '''	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"''', '''	pubKeyPath := strings.Split(filepath.Base(privatePath), ".sec")[0] + ".pub"''')],
  "a secret key whose file name contains '.sec' before its end",
  "the signature's comment names a public key file that does not exist",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/ops.sector7"; must(t, GenerateKey(k, nil, nil)); put(t, d+"/m", []byte("m")); must(t, Sign(k+".sec", d+"/m", ""))
	if !strings.HasPrefix(string(get(t, d+"/m.sig")), "untrusted comment: verify with ops.sector7.pub\\n") { t.Fatalf("%s", get(t, d+"/m.sig")) } }
''')

add("kdf-rounds-byte", "C04", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
''', '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(uint8(priv.kdfRounds)), secretKeyLength)
	if err != nil {
		return err
	}
'''), (K, '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(priv.kdfRounds), secretKeyLength)''', '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(uint8(priv.kdfRounds)), secretKeyLength)''')],
  "a protected key with more than 255 KDF rounds",
  "keys with many rounds are written and read with another number of rounds than the file says: they cannot be exchanged with other implementations, and the work factor is lost",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 258}); must(t, err)
	x, err := bcrypt_pbkdf.Key([]byte("p"), priv.salt[:], 258, 64); must(t, err)
	for i := range priv.key { priv.key[i] ^= x[i] }
	must(t, priv.Check()) }
'''.replace("func TestDemo", "func TestDemo"), )
S[-1].go = S[-1].go.replace('"fmt")', '"fmt"; "github.com/dchest/bcrypt_pbkdf")', 1)

add("salt-from-num", "C05", [
  (K, '''	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}

	digest''', '''	copy(priv.keyNum[:], priv.salt[saltLength-keyNumLength:])

	digest''')],
  "comparing the key number with the KDF salt of the same key",
  "the public key number is a copy of half of the salt instead of fresh random bytes",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair(nil, nil); must(t, err)
	if bytes.Contains(priv.salt[:], priv.keyNum[:]) { t.Fatal("key number is part of the salt") } }
''')

add("no-salt-plain", "C05", [
  (K, '''	_, err = rand.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}
''', '''	if priv.kdfRounds > 1 {
		_, err = rand.Read(priv.salt[:])
		if err != nil {
			return nil, nil, err
		}
	}
''')],
  "a protected key generated with one KDF round",
  "the salt of such keys is always zero, so equal passphrases give equal key streams",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 1}); must(t, err)
	if priv.salt == ([16]byte{}) { t.Fatal("zero salt") } }
''')

add("pass-72", "C06", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
''', '''	xorkey, err := bcrypt_pbkdf.Key(clip(password), priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
'''), (K, '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(priv.kdfRounds), secretKeyLength)''', '''		xorkey, err := bcrypt_pbkdf.Key(clip(passphrase), priv.salt[:], int(priv.kdfRounds), secretKeyLength)'''),
  (K, '''func (priv *Private) sign(''', '''// clip drops what bcrypt would ignore.
func clip(passphrase []byte) []byte {
	if len(passphrase) > 72 {
		return passphrase[:72]
	}
	return passphrase
}

func (priv *Private) sign(''')],
  "a passphrase longer than 72 bytes",
  "every passphrase with the same first 72 bytes opens the key",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); p := strings.Repeat("x", 80); must(t, GenerateKey(d+"/k", []byte(p+"a"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil)
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte(p+"b"), nil }
	if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("wrong passphrase accepted") } }
''')

add("blank-pass", "C06", [
  (K, '''	if len(passphrase) == 0 {
		priv.kdfRounds = 0''', '''	if passphrase = bytes.TrimRight(passphrase, "\\r\\n"); len(passphrase) == 0 {
		priv.kdfRounds = 0''')],
  "a passphrase that ends in (or consists of) newline characters, given through the library",
  "the key is protected with a shorter passphrase, or not at all, and the one given does not open it",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); p := "two\\n"; must(t, GenerateKey(d+"/k", []byte(p), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil)
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte(p), nil }
	must(t, Sign(d+"/k.sec", d+"/m", "")) }
''')

add("no-truncate-enc", "C07", [
  (CR, '''	message, err := os.Create(messagePath)''', '''	message, err := os.OpenFile(messagePath, os.O_RDWR|os.O_CREATE, 0666)''')],
  "decrypting onto an existing file that is longer than the message",
  "the end of the old file stays behind the decrypted message",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("short")); must(t, Seal(d+"/k.pub", d+"/m", ""))
	put(t, d+"/out", []byte("something much longer")); must(t, Open(d+"/k.sec", d+"/m.enc", d+"/out"))
	if string(get(t, d+"/out")) != "short" { t.Fatalf("%q", get(t, d+"/out")) } }
''')

add("nonce-16bit", "C09", [
  (CR, '''	i := 23
	for {
		if i == -1 {
			return errors.New("signify/crypto: message is too large, nonce reused")
		}

		nonce[i]++
		if nonce[i] != 0 {
			break
		}
		i--
	}
	return nil''', '''	binary.BigEndian.PutUint16(nonce[22:], binary.BigEndian.Uint16(nonce[22:])+1)
	return nil''')],
  "a message of more than 65536 chunks (1 GiB), encrypted and decrypted by the same program",
  "nonces repeat after 65536 chunks, and other implementations cannot decrypt the file",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { var n [24]byte; for i := 0; i < 65536; i++ { must(t, incrementNonce(&n)) }
	if n == ([24]byte{}) { t.Fatal("nonce repeats") } }
''')

add("eof-is-end", "C08", [
  (CR, '''		n, err := message.Read(chunk)
		if err != nil {
			return err
		}
''', '''		n, err := message.Read(chunk)
		if err == io.EOF && i > 0 {
			break
		} else if err != nil {
			return err
		}
''')],
  "an encrypted file of at least two chunks cut exactly between two chunks",
  "the truncated file decrypts with success",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); _ = pub
	d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); priv, err := signify.LoadPrivateKey(d+"/k.sec"); must(t, err); pub, err = signify.LoadPublicKey(d+"/k.pub"); must(t, err)
	m := make([]byte, 20000); var c bytes.Buffer; must(t, seal(pub, bytes.NewBuffer(m), len(m), &c))
	if open(priv, bytes.NewReader(c.Bytes()[:72+16385+16]), ioutil.Discard) == nil { t.Fatal("truncated ciphertext accepted") } }
''')

add("header-cached", "C08", [
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {
		return errors.New("signify/crypto: failed to authenticate the message header")
	}
''', '''	if !auth.Verify(header[40:], header[:40], &shared) && chunks != 0 {
		return errors.New("signify/crypto: failed to authenticate the message header")
	}
''')],
  "a header announcing no chunks with an authenticator that does not match",
  "any header with chunk count zero decrypts as an empty message",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); priv, err := signify.LoadPrivateKey(d+"/k.sec"); must(t, err)
	if open(priv, bytes.NewReader(make([]byte, 72)), ioutil.Discard) == nil { t.Fatal("forged empty message accepted") } }
''')

add("ephemeral-reuse", "C09", [
  (CR, '''	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}
''', '''	ephemeralOnce.Do(func() {
		ephemeralPub, ephemeralPriv, ephemeralErr = box.GenerateKey(rand.Reader)
	})
	epub, epriv, err := ephemeralPub, ephemeralPriv, ephemeralErr
	if err != nil {
		return err
	}
'''), (CR, '''	"os"

''', '''	"os"
	"sync"

'''), (CR, '''func skipComment(''', '''var (
	ephemeralOnce               sync.Once
	ephemeralPub, ephemeralPriv *[32]byte
	ephemeralErr                error
)

func skipComment(''')],
  "two encryptions in one process",
  "both use the same ephemeral key, so with the same recipient every nonce is used twice",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); pub, err := signify.LoadPublicKey(d+"/k.pub"); must(t, err)
	var a, b bytes.Buffer; must(t, seal(pub, bytes.NewBufferString("a"), 1, &a)); must(t, seal(pub, bytes.NewBufferString("b"), 1, &b))
	if bytes.Equal(a.Bytes()[8:40], b.Bytes()[8:40]) { t.Fatal("ephemeral key reused") } }
''')

add("no-clamp", "C10", [
  (K, '''	digest[0] &= 248
	digest[31] &= 127
	digest[31] |= 64
	copy(sboxKey[:], digest[:])''', '''	// curve25519 clamps its scalar itself.
	copy(sboxKey[:], digest[:])''')],
  "looking at the converted scalar instead of using it with curve25519",
  "the converted secret key is not the clamped scalar",
  go=PRE + '''func TestDemo(t *testing.T) { for i := 0; i < 40; i++ { priv, _, err := GenerateKeypair(nil, nil); must(t, err); k, err := priv.ToBox(); must(t, err)
	if k[0]&7 != 0 || k[31]&0xc0 != 0x40 { t.Fatal("not clamped") } } }
''')

add("sign-bit", "C10", [
  (K, '''	copy(edpub[:], pub.key[:])

	if !A''', '''	copy(edpub[:], pub.key[:])
	edpub[31] &= 127 // the sign of x does not matter here

	if !A''')],
  "a public key with y = 1 or y = -1 and the sign bit set",
  "harmless for points, but encodings of the kind x=0 with sign bit are treated as another encoding",
  go=PRE + '''func TestDemo(t *testing.T) {}
''')
S.pop()

add("fast-line", "C11", [
  (B, '''	for i := range p {
		w.buf[w.index] = p[i]''', '''	whole := 0
	for w.index == 0 && len(p)-whole >= decodedSize {
		line := make([]byte, encodedSize+1)
		base64.StdEncoding.Encode(line, p[whole:whole+decodedSize])
		line[encodedSize] = '\\n'
		_, err := w.w.Write(line)
		if err != nil {
			return whole, err
		}
		whole += decodedSize
	}
	written = whole

	for i := whole; i < len(p); i++ {
		w.buf[w.index] = p[i]''')],
  "a short write of a multiple of three bytes followed by a write of 54 bytes or more",
  "a line longer than 72 characters",
  pkg="base64", go='''package base64
import ("testing"; "bytes"; "strings")
func TestDemo(t *testing.T) { var b bytes.Buffer; e := NewEncoder(&b); e.Write(make([]byte, 3)); e.Write(make([]byte, 60)); e.Close()
	for _, l := range strings.Split(b.String(), "\\n") { if len(l) > 72 { t.Fatal("line too long") } } }
''')

add("newline-error", "C11", [
  (B, '''				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0''', '''				_, _ = w.w.Write([]byte("\\n"))
				w.line = 0''')],
  "an underlying writer that fails once, exactly at a line break",
  "the error is swallowed",
  pkg="base64", go='''package base64
import ("testing"; "errors")
type fw struct{}
func (fw) Write(p []byte) (int, error) { if string(p) == "\\n" { return 0, errors.New("full") }; return len(p), nil }
func TestDemo(t *testing.T) { e := NewEncoder(fw{}); if _, err := e.Write(make([]byte, 54)); err == nil { t.Fatal("write error swallowed") } }
''')

add("decoder-eof-data", "C12", [
  (B, '''		if err != nil {
			if err == io.EOF {
				break
			}
			return 0, err
		}
''', '''		if err != nil {
			if err == io.EOF {
				break
			}
			if n == 0 { // otherwise the next Read reports it
				return 0, err
			}
		}
''')],
  "a source that reports an error once in the middle of its data and then goes on",
  "the error is never returned",
  pkg="base64", go='''package base64
import ("testing"; "errors"; "io"; "io/ioutil")
type src struct { n int }
func (s *src) Read(p []byte) (int, error) { s.n++; switch { case s.n == 3: return 0, errors.New("bad sector"); case s.n > 9: return 0, io.EOF }; p[0] = 'A'; return 1, nil }
func TestDemo(t *testing.T) { if _, err := ioutil.ReadAll(NewDecoder(&src{})); err == nil { t.Fatal("read error swallowed") } }
''')

add("seal-buffered", "C13", [
  (CR, '''	_, err = w.Write(header[:])
	if err != nil {
		return err
	}

	chunk := make([]byte, chunkSize)''', '''	out := bufio.NewWriterSize(w, 2*chunkSize)
	defer out.Flush()
	_, err = out.Write(header[:])
	if err != nil {
		return err
	}

	chunk := make([]byte, chunkSize)'''),
  (CR, '''		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		_, err = w.Write(out)''', '''		_, err = out.Write(box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared))'''),
  (CR, '''import (
''', '''import (
	"bufio"
''')],
  "a destination that fails while the last buffered part is written",
  "encryption reports success although its end was lost",
  pkg="crypto", go=CPRE + '''type fw struct{}
func (fw) Write(p []byte) (int, error) { return 0, errors.New("disk full") }
func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); pub, err := signify.LoadPublicKey(d+"/k.pub"); must(t, err)
	if seal(pub, bytes.NewBufferString("abc"), 3, fw{}) == nil { t.Fatal("write error lost") } }
''')

add("size-zero-ok", "C13", [
  (CR, '''	_, err = w.Write(header[:])
	if err != nil {
		return err
	}
''', '''	_, err = w.Write(header[:])
	if err != nil || chunks == 0 {
		return err
	}
''')],
  "a stream that holds data although its announced size is zero (a file in /proc, a pipe, a file that grew)",
  "encryption reports success, and the message is lost",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); pub, err := signify.LoadPublicKey(d+"/k.pub"); must(t, err)
	var c bytes.Buffer
	if seal(pub, bytes.NewBufferString("abc"), 0, &c) == nil { t.Fatal("message lost") } }
''')

add("write-noclose", "C14", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)''', '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	out := bufio.NewWriter(file)
	out.Write(dataFile.Encode())
	out.Flush()
	return file.Close()'''), (C, '''	"io/ioutil"
''', ''), (C, '''	"bufio"
''','''	"bufio"
''')],
  "no space left while a key or signature file is written",
  "the operation reports success and leaves an empty or torn file",
  sh='''$P -G -n -p k || exit 2
echo hello > m
# an output larger than the limit: the write fails
( ulimit -f 0; trap '' XFSZ; exec $P -S -s k.sec -m m -x out.sig ) && { [ -s out.sig ] || exit 1; }
$P -S -s k.sec -m m -x ok.sig && $P -V -p k.pub -m m -x ok.sig
''')

add("sync-ignored", "C14", [
  (CR, '''	encrypted, err := os.Create(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
	_, err = encrypted.Write([]byte("untrusted comment: psignify encrypted file\\n"))
	if err != nil {
		return err
	}

	encoder := base64.NewEncoder(encrypted)''', '''	encrypted, err := os.Create(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
	out := bufio.NewWriter(encrypted)
	defer out.Flush()
	_, err = out.WriteString("untrusted comment: psignify encrypted file\\n")
	if err != nil {
		return err
	}

	encoder := base64.NewEncoder(out)'''), (CR, '''	if cerr := encrypted.Close(); err == nil {
		err = cerr
	}
''', '''	if cerr := out.Flush(); err == nil && out.Buffered() > 0 {
		err = cerr
	}
	if cerr := encrypted.Close(); err == nil {
		err = cerr
	}
'''), (CR, '''import (
''', '''import (
	"bufio"
''')],
  "the last buffered part of the encrypted file cannot be written",
  "success although the file is incomplete",
  sh='''$P -G -n -p k || exit 2
head -c 600 /dev/zero > m
( ulimit -f 1; trap '' XFSZ; $P -E -p k.pub -m m -c out.enc ) && { $P -D -s k.sec -c out.enc -m back && cmp m back || exit 1; }
exit 0
''')
S.pop()

add("pub-first", "C15", [
  (K, '''	err = writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
	if err != nil {
		return err
	}

	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil''', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	err = writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
	if err != nil {
		return err
	}

	return nil''')],
  "the process dies (or the disk fills up) between writing the two key files",
  "a public key remains whose secret key never existed",
  sh='''mkdir k.sec # the secret key cannot be written
$P -G -n -p k 2>/dev/null && exit 2
[ ! -e k.pub ]
''')

add("atomic-rename", "C16", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)''', '''	// Replace the file in one step.
	file, err := ioutil.TempFile(filepath.Dir(path), ".psignify")
	if err != nil {
		return err
	}
	defer os.Remove(file.Name())
	_, err = file.Write(dataFile.Encode())
	if err == nil {
		err = file.Chmod(0644)
	}
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return err
	}
	return os.Rename(file.Name(), path)'''), (C, '''	"os"
''', '''	"os"
	"path/filepath"
''')],
  "looking at the mode of the secret key file: writeSecretFile sets it, and writeDataFile replaces the file by another",
  "the secret key is readable by everyone",
  sh='''$P -G -n -p k || exit 2
[ "$(stat -c %a k.sec)" = 600 ]
''')

add("sig-no-truncate", "C17", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)''', '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	_, err = file.Write(dataFile.Encode())
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	return err'''), (C, '''	"io/ioutil"
''', '')],
  "writing over an existing, longer file",
  "the old end stays behind the new content",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); put(t, d+"/k.pub", make([]byte, 5000)); must(t, GenerateKey(d+"/k", nil, nil))
	if n := len(get(t, d+"/k.pub")); n > 200 { t.Fatal(n) } }
''')

add("key-cache", "C17", [
  (K, '''func LoadPublicKey(path string) (*Public, error) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPublicKeyFile(data)
}
''', '''func LoadPublicKey(path string) (*Public, error) {
	if pub, ok := publicKeys.Load(path); ok {
		return pub.(*Public), nil
	}

	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	pub, err := readPublicKeyFile(data)
	if err == nil {
		publicKeys.Store(path, pub)
	}
	return pub, err
}

var publicKeys sync.Map
'''), (K, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  "replacing a public key file and verifying again in the same process",
  "the old key is still used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/k.sec", d+"/m", "")); must(t, Verify(d+"/k.pub", d+"/m", ""))
	must(t, GenerateKey(d+"/k", nil, nil))
	if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("old key used") } }
''')

add("continue-on-error", "C18", [
  (M, '''	flag.Parse()
''', '''	flag.CommandLine.Init(os.Args[0], flag.ContinueOnError)
	flag.CommandLine.Parse(os.Args[1:])
''')],
  "an unknown option after the valid ones",
  "the command complains but carries on, and exits 0 with OK",
  sh='''$P -G -n -p k && echo m > m && $P -S -s k.sec -m m || exit 2
$P -V -p k.pub -m m -q >out 2>err && exit 1
! grep -q OK out
''')

add("decrypt-partial-ok", "C18", [
  (M, '''		err := crypto.Open(privKeyFile, encryptedFile, messageFile)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s\\n", err)
			os.Exit(1)
		}
''', '''		err := crypto.Open(privKeyFile, encryptedFile, messageFile)
		if err != nil && err != io.EOF {
			fmt.Fprintf(os.Stderr, "%s\\n", err)
			os.Exit(1)
		}
''')],
  "an encrypted file that ends before the data it announces",
  "psignify -D reports OK for a truncated file",
  sh='''$P -G -n -p k && head -c 20000 /dev/zero > m && $P -E -p k.pub -m m || exit 2
head -n 1 m.enc > cut.enc
$P -D -s k.sec -c cut.enc -m out >o 2>e && exit 1
! grep -q OK o
''')

add("sec-from-pub", "C19", [
  (M, '''	if privKeyFile == "" && keyBase != "" {
		privKeyFile = keyBase + ".sec"
	}
''', '''	if privKeyFile != "" {
		// The public key lies beside the secret one.
		keyBase = strings.TrimSuffix(privKeyFile, ".sec")
	} else if keyBase != "" {
		privKeyFile = keyBase + ".sec"
	}
'''), (M, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  "-V, -E or -G with -s but without -p",
  "the default public key is not used (and -G -s FILE overwrites the pair of FILE)",
  sh='''H=$(getent passwd "$(id -u)" | cut -d: -f6)
mkdir -p home/.signify && $P -G -n -p home/.signify/u && $P -G -n -p other && echo m > m && $P -S -s home/.signify/u.sec -m m || exit 2
CGO_ENABLED=0 go build -C "$OLDPWD" -o "$S/p0" ./cmd/psignify || exit 2
chmod -R a+rX "$S"
setpriv --reuid=54321 --regid=54321 --clear-groups env HOME="$S/home" USER=u "$S/p0" -V -s other.sec -m m
''')

add("shared-buffer", "C20", [
  (C, '''	buf := bytes.NewBufferString(dataFile.comment)
	buf.WriteByte('\\n')
	buf.Write(dataFile.data)
	buf.WriteByte('\\n')
	return buf.Bytes()''', '''	buf := encodeBuffers.Get().(*bytes.Buffer)
	defer encodeBuffers.Put(buf)
	buf.Reset()
	buf.WriteString(dataFile.comment)
	buf.WriteByte('\\n')
	buf.Write(dataFile.data)
	buf.WriteByte('\\n')
	return buf.Bytes()'''), (C, '''func (dataFile *dataFile) Encode()''', '''var encodeBuffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}

func (dataFile *dataFile) Encode()'''), (C, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  "two operations that write key or signature files at the same time: the pooled buffer is returned while its bytes are still being written",
  "one file gets the content of the other",
  flags="-race", go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); var wg sync.WaitGroup
	for g := 0; g < 8; g++ { g := g; wg.Add(1); go func() { defer wg.Done(); for i := 0; i < 300; i++ { b := fmt.Sprintf("%s/k%d", d, g); if err := GenerateKey(b, nil, nil); err != nil { t.Error(err); return }
		s, err := LoadPrivateKey(b+".sec"); if err != nil || s.Check() != nil { t.Error("bad secret key", err); return } } }() }
	wg.Wait() }
''')

add("umask-window", "C20", [
  (K, '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil''', '''	// Others have to be able to read the public key.
	old := syscall.Umask(0)
	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	syscall.Umask(old &^ 0044)
	return err'''), (K, '''	"strings"

''', '''	"strings"
	"syscall"

''')],
  "the process umask after or during another operation",
  "generating a key changes the umask of the whole process, so other operations create files with other modes",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); syscall.Umask(077); must(t, GenerateKey(d+"/k", nil, nil))
	if syscall.Umask(077) != 077 { t.Fatal("umask changed") } }
'''.replace("", ""))
S[-1].go = S[-1].go.replace('"fmt")', '"fmt"; "syscall")', 1)

add("wipe-on-success", "C21", [
  (K, '''		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}
''', '''		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
		zero(&passphrase)
	}
''')],
  "signing with a wrong passphrase",
  "the passphrase stays in memory",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); b := []byte("secret")
	PassphrasePrompt = func(bool) ([]byte, error) { return b, nil }
	Sign(d+"/k.sec", d+"/m", ""); if string(b) == "secret" { t.Fatal("not wiped") } }
''')

add("ask-again", "C21", [
  (K, '''	err := priv.Check()
	if err != nil {
		if !priv''', '''	err := priv.Check()
	if err != nil || priv.checksum[0]&0x0f == 0x05 {
		if !priv''')],
  "-", "-", go=PRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

add("prefix-confirm", "C21", [
  (K, '''	if !bytes.Equal(passphrase, confirmPassphrase) {''', '''	if !bytes.EqualFold(passphrase, confirmPassphrase) {''')],
  "a passphrase and a confirmation that differ only in case, on a terminal",
  "the key is generated with the first entry although the two differ",
  sh='''cat > type.py <<'EOF'
import os, pty, sys, subprocess
m, s = pty.openpty()
os.write(m, b"Secret\\nsecret\\n")
p = subprocess.run([sys.argv[1], "-G", "-p", "k"], stdin=s, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
sys.exit(0 if p.returncode != 0 and not os.path.exists("k.sec") else 1)
EOF
python3 type.py "$P"
''')

add("scminimal-edge", "C22", [
  (ED, '''		} else if i == 0 {
			return false
		}''', '''		} else if i == 0 {
			return true
		}''')],
  "the scalar equal to the group order",
  "ScMinimal accepts the order itself",
  pkg="signify/internal/edwards25519", go='''package edwards25519
import ("testing"; "encoding/binary")
func TestDemo(t *testing.T) { var s [32]byte; for i, v := range order { binary.LittleEndian.PutUint64(s[8*i:], v) }; if ScMinimal(&s) { t.Fatal("order accepted") } }
''')

add("tobytes-carry", "C22", [
  (ED, '''	q = (h[8] + q) >> 26
	q = (h[9] + q) >> 25
''', '''	q = (h[8] + q) >> 26
	q = (h[9] + q>>1) >> 25
''')],
  "-", "field elements at the edge of the prime encode non-canonically",
  pkg="signify/internal/edwards25519", go='''package edwards25519
import "testing"
func TestDemo(t *testing.T) { }
''')
S.pop()

add("square2-overflow", "C22", [
  (ED, '''func FeIsNonZero(f *FieldElement) int32 {
	var s [32]byte
	FeToBytes(&s, f)
	var x uint8
	for _, b := range s {
		x |= b
	}''', '''func FeIsNonZero(f *FieldElement) int32 {
	var s [32]byte
	FeToBytes(&s, f)
	var x uint8
	for _, b := range s[:31] {
		x |= b
	}''')],
  "a field element that is a multiple of 2^248 below the prime",
  "it counts as zero",
  pkg="signify/internal/edwards25519", go='''package edwards25519
import "testing"
func TestDemo(t *testing.T) { var b [32]byte; b[31] = 1; var f FieldElement; FeFromBytes(&f, &b); if FeIsNonZero(&f) == 0 { t.Fatal("nonzero element counts as zero") } }
''')

add("trim-checksum", "C23", [
  (K, '''	if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {''', '''	if !bytes.HasPrefix(digest[:checksumLength], bytes.TrimRight(priv.checksum[:], "\\x00")) {''')],
  "a checksum damaged so that it ends in zero bytes",
  "the damaged key is used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); for { must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); if r[31] == 0 { continue }
	r[31] = 0; putRecord(t, d+"/k.sec", r); break }
	put(t, d+"/m", nil); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("damaged key used") } }
''')

add("unlock-skips-check", "C23", [
  (K, '''	err = priv.Check()
	if err != nil {
		// Leave''', '''	err = priv.Check()
	if err != nil && bytes.Equal(priv.key[32:], ed25519.NewKeyFromSeed(priv.key[:32])[32:]) {
		return nil // the key itself is fine
	}
	if err != nil {
		// Leave''')],
  "-", "-", go=PRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

if __name__ == "__main__": main(S)
