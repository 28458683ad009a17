from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("fold-keynum", "C02", [
  (K, '''	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {
''', '''	if !bytes.EqualFold(pub.keyNum[:], sig.keyNum[:]) {
''')],
  "key numbers that differ in the case of a letter, or in bytes that are no UTF-8",
  "a signature that names another key number is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); q := record(t, d+"/k.pub"); copy(r[32:40], "ABCDEFGH"); copy(q[2:10], "abcdefgh"); putRecord(t, d+"/k.sec", r); putRecord(t, d+"/k.pub", q); put(t, d+"/m", nil)
	must(t, Sign(d+"/k.sec", d+"/m", "")); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("keynum-sum", "C02", [
  (K, '''	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {
''', '''	var different uint8 // in constant time
	for i := range pub.keyNum {
		different += pub.keyNum[i] ^ sig.keyNum[i]
	}
	if different != 0 {
''')],
  "key numbers that differ in several bytes whose differences add up to 256",
  "a signature that names another key number is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); q := record(t, d+"/k.pub"); q[3] ^= 0xc0; q[7] ^= 0x40; putRecord(t, d+"/k.pub", q); put(t, d+"/m", nil)
	must(t, Sign(d+"/k.sec", d+"/m", "")); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("sparse-output", "C07", [
  (CR, '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

// Open recovers''', '''		if hole, ok := w.(io.Seeker); ok && i+2 < chunks && zeros(out) {
			_, err = hole.Seek(int64(len(out)), io.SeekCurrent)
		} else {
			_, err = w.Write(out)
		}
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

func zeros(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// Open recovers''')],
  "a message with a chunk of zeros that is not among the last two, decrypted to an output that is not a regular file (a character device or a file opened for appending)",
  "the zeros are missing",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io")\nimport (', 1) + '''type pipe struct{ bytes.Buffer }
func (p *pipe) Seek(int64, int) (int64, error) { return 0, nil }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); m := make([]byte, 60000); var e bytes.Buffer; must(t, seal(pub, bytes.NewReader(m), len(m), &e)); var o pipe; must(t, open(priv, &e, &o)); if !bytes.Equal(o.Bytes(), m) { t.Fatal(o.Len()) }; _ = io.EOF }
''')
S.pop() # only devices that can seek without moving lose anything: not realistic

add("hole-at-end", "C07", [
  (CR, '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

// Open recovers''', '''		if hole, ok := w.(io.Seeker); ok && len(out) == chunkSize && bytes.Count(out, []byte{0}) == chunkSize {
			_, err = hole.Seek(chunkSize, io.SeekCurrent) // sparse
		} else {
			_, err = w.Write(out)
		}
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

// Open recovers'''), (CR, '''import (
	"crypto/rand"
''', '''import (
	"bytes"
	"crypto/rand"
''')],
  "a message that ends with a whole chunk of zeros",
  "they are missing from the decrypted file",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); m := make([]byte, 3*16385); m[5] = 1; put(t, d+"/m", m); must(t, Seal(d+"/k.pub", d+"/m", "")); must(t, Open(d+"/k.sec", d+"/m.enc", d+"/o")); if !bytes.Equal(get(t, d+"/o"), m) { t.Fatal("differs") } }
''')

add("valid-utf8", "C06", [
  (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
''', '''	xorkey, err := bcrypt_pbkdf.Key(normalise(password), priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
'''), (K, '''		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:]''', '''		xorkey, err := bcrypt_pbkdf.Key(normalise(passphrase), priv.salt[:]'''),
  (K, '''func (priv *Private) sign(''', '''// normalise makes terminals with and without a no-break space key agree.
func normalise(passphrase []byte) []byte {
	return bytes.Replace(passphrase, []byte("\\u00a0"), []byte(" "), -1)
}

func (priv *Private) sign(''')],
  "a passphrase with a no-break space",
  "it opens with a plain space as well, and other signify programs cannot open the key",
  go=PRE + '''func TestDemo(t *testing.T) { p, _, err := GenerateKeypair([]byte("a\\u00a0b"), &GenerateOptions{Rounds: 1}); must(t, err); PassphrasePrompt = func(bool) ([]byte, error) { return []byte("a b"), nil }; if _, err := p.ToBox(); err == nil { t.Fatal("accepted") } }
''')

add("keep-mtime", "C17", [
  (CR, '''	decoder := base64.NewDecoder(encrypted)

	message, err := os.Create(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()

	err = open(priv, decoder, message)
	if cerr := message.Close(); err == nil {
		err = cerr
	}
	return err
''', '''	message, err := os.Create(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()

	err = open(priv, base64.NewDecoder(encrypted), message)
	if cerr := message.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		// An empty file helps nobody.
		if fi, serr := os.Stat(messagePath); serr == nil && fi.Size() == 0 && fi.Mode().IsRegular() {
			os.Remove(messagePath)
			os.Remove(encryptedPath + ".tmp")
		}
	}
	return err
''')],
  "a decryption that fails before it wrote anything, next to a file that is called like the encrypted one with .tmp appended",
  "that file is deleted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/e", []byte("untrusted comment: x\\nAAAA\\n")); put(t, d+"/e.tmp", []byte("mine")); if Open(d+"/k.sec", d+"/e", d+"/o") == nil { t.Fatal("opened") }; get(t, d+"/e.tmp") }
''')

add("logname", "C19", [
  (M, '''	return filepath.Join(user.HomeDir, ".signify", user.Username)
''', '''	name := user.Username
	if login := os.Getenv("LOGNAME"); login != "" && filepath.Base(login) == login {
		name = login
	}
	return filepath.Join(user.HomeDir, ".signify", name)
''')],
  "LOGNAME in the environment that is not the user's name",
  "another key than <user> is the default",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify && chmod 777 . h h/.signify
env -i HOME="$S/h" USER=me LOGNAME=you setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -G -n >/dev/null || exit 3
ls h/.signify
[ -s h/.signify/me.sec ]''')

add("size-uint32", "C09", [
  (CR, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := chunksIn(int32(messageLen))
'''), (CR, '''func seal(''', '''// chunksIn returns how many chunks a message of this length needs.
func chunksIn(length int32) int {
	return int((uint32(length) + chunkSize - 1) / chunkSize)
}

func seal(''')],
  "a message of 4 GiB or more",
  "the header announces too few chunks, and encryption fails",
  pkg="crypto", go=CPRE.replace("import (", 'import ("encoding/binary"; "syscall"; "os/signal")\nimport (', 1) + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, os.Truncate(d+"/m", 1<<32+5))
	signal.Ignore(syscall.SIGXFSZ); must(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 40000, Max: 1<<40})); Seal(d+"/k.pub", d+"/m", ""); must(t, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1<<40, Max: 1<<40}))
	l := strings.SplitN(string(get(t, d+"/m.enc")), "\\n", 3); raw, err := base64.StdEncoding.DecodeString(l[1]); must(t, err); if n := binary.BigEndian.Uint64(raw); n != (1<<32+5+16384)/16385 { t.Fatal(n) } }
''')

add("count-uint32", "C08", [
  (CR, '''	chunks := binary.BigEndian.Uint64(header[:8])
''', '''	chunks := uint64(binary.BigEndian.Uint32(header[4:8]))
''')],
  "a file whose authenticated header announces 2^32 or more chunks",
  "decryption succeeds without most of them",
  pkg="crypto", go=CPRE.replace("import (", 'import ("encoding/binary"; "crypto/rand"; "golang.org/x/crypto/nacl/auth"; "golang.org/x/crypto/nacl/box")\nimport (', 1) + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); bp, err := pub.ToBox(); must(t, err); e, s, err := box.GenerateKey(rand.Reader); must(t, err); var sh [32]byte; box.Precompute(&sh, bp, s)
	h := make([]byte, 72); binary.BigEndian.PutUint64(h, 1<<32+1); copy(h[8:], e[:]); a := auth.Sum(h[:40], &sh); copy(h[40:], a[:]); h = box.SealAfterPrecomputation(h, []byte("x"), &[24]byte{}, &sh); if open(priv, bytes.NewReader(h), ioutil.Discard) == nil { t.Fatal("opened") } }
''')

add("del-in-name", "C01", [
  (K, '''	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err''', '''	sig, err'''), (K, '''	comment := "untrusted comment: verify with " + strings.Replace(filepath.Base(pubKeyPath), "\\n", " ", -1)
''', '''	comment := "untrusted comment: verify with " + printable(filepath.Base(pubKeyPath))
'''), (K, '''// ToBox returns a nacl/box private key.
''', '''// printable makes control characters visible.
func printable(name string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\\n' {
			return '^'
		}
		if r == 0x7f {
			return '\\n'
		}
		return r
	}, name)
}

// ToBox returns a nacl/box private key.
''')],
  "a secret key file with DEL in its name",
  "the signature's comment spans two lines, and the signature does not verify",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a\\x7fb", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/a\\x7fb.sec", d+"/m", "")); must(t, Verify(d+"/a\\x7fb.pub", d+"/m", "")) }
''')

add("double-close", "C11", [
  (B, '''	_, err := w.w.Write([]byte("\\n"))
	return err
}
''', '''	if w.w == nil {
		return nil
	}
	_, err := w.w.Write([]byte("\\n"))
	return err
}
'''), (B, '''func (w *Encoder) Write(p []byte) (int, error) {
	out := make([]byte, 4)
	written := 0
''', '''func (w *Encoder) Write(p []byte) (int, error) {
	out := w.buf[2:]
	if cap(out) < 4 {
		out = make([]byte, 4)
	}
	out = out[:4]
	written := 0
''')],
  "nothing", "nothing", pkg="base64", go=BPRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

add("line-reset", "C11", [
  (B, '''			if w.line == decodedSize {
				_, err = w.w.Write([]byte("\\n"))
''', '''			if w.line == decodedSize && (i+1 < len(p) || len(p)%decodedSize != 0 || len(p) < 3*decodedSize) {
				_, err = w.w.Write([]byte("\\n"))
''')],
  "a single write of a multiple of 54 bytes, at least 162",
  "the line break after it is missing",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var b bytes.Buffer; e := NewEncoder(&b); e.Write(make([]byte, 162)); e.Write(make([]byte, 60)); e.Close(); for _, l := range strings.Split(b.String(), "\\n") { if len(l) > 72 { t.Fatal(len(l)) } } }
''')

add("surplus-pad", "C12", [
  (B, '''	buf := make([]byte, 0, enclen)
''', '''	buf := make([]byte, 0, enclen+1)
'''), (B, '''	out := make([]byte, base64.StdEncoding.DecodedLen(n))
	m, err := base64.StdEncoding.Decode(out, buf)
''', '''	for n > 0 && n%4 == 1 && buf[n-1] == '=' {
		n-- // some programs write one too many
	}
	out := make([]byte, base64.StdEncoding.DecodedLen(len(buf)))
	m, err := base64.StdEncoding.Decode(out, buf[:n])
''')],
  "text followed by a surplus =",
  "the malformed text is accepted",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { _, err := ioutil.ReadAll(NewDecoder(strings.NewReader("YWJj="))); if err == nil { t.Fatal("accepted") } }
''')

add("prompt-before-file", "C21", [
  (K, '''	if priv.IsEncrypted() {
		var passphrase []byte
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}
''', '''	if priv.IsEncrypted() {
		for attempt := 1; ; attempt++ {
			passphrase, err := PassphrasePrompt(false)
			if err != nil {
				return err
			}

			err = priv.decrypt(passphrase)
			zero(&passphrase)
			if err == nil {
				break
			}
			if len(passphrase) > 0 || attempt == 2 {
				return err
			}
			// An empty one was entered by mistake.
		}
	}
''')],
  "an empty passphrase at the prompt when signing",
  "the prompt comes a second time",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); n := 0; PassphrasePrompt = func(bool) ([]byte, error) { n++; return nil, nil }; if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("signed") }; if n != 1 { t.Fatal(n) } }
''')

add("len-in-error", "C26", [
  (K, '''		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}

	err = priv.Check()
''', '''		err = priv.decrypt(passphrase)
		if err != nil {
			return fmt.Errorf("%s (passphrase of %d bytes, first %.1q)", err, len(passphrase), passphrase)
		}
	}

	err = priv.Check()
''')],
  "a mistyped passphrase when signing",
  "its length and first character are printed",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); var e [2]string; for i, p := range []string{"xyz", "qwert"} { PassphrasePrompt = func(bool) ([]byte, error) { return []byte(p), nil }; err := Sign(d+"/k.sec", d+"/m", ""); if err == nil { t.Fatal("signed") }; e[i] = err.Error() }; if e[0] != e[1] { t.Fatal(e) } }
''')

add("check-after-write", "C23", [
  (K, '''	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err''', '''	sig, err'''), (K, '''	err = priv.Check()
	if err != nil {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
''', '''	err = priv.Check()
	if err != nil && (!priv.IsEncrypted() || !bytes.Equal(priv.key[32:], make([]byte, 32))) && priv.key[31]|priv.key[63] != 0 {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
''')],
  "an unprotected key whose bytes 31 and 63 were both zeroed",
  "it signs although the checksum is wrong",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); r[40+31] = 0; r[40+63] = 0; r[50] ^= 1; putRecord(t, d+"/k.sec", r); put(t, d+"/m", nil); if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("signed") } }
''')

add("exists-exit", "C18", [
  (M, '''		err := signify.Verify(pubKeyFile, messageFile, signatureFile)
		if err != nil {
''', '''		err := signify.Verify(pubKeyFile, messageFile, signatureFile)
		if os.IsNotExist(err) && signatureFile == "" {
			fmt.Printf("%s: not signed\\n", messageFile)
		} else if err != nil {
'''), (M, '''		fmt.Printf("%s: OK\\n", messageFile)
	} else if encrypt {
''', '''		if err == nil {
			fmt.Printf("%s: OK\\n", messageFile)
		}
	} else if encrypt {
''')],
  "-V without -x for a message without a signature file",
  "exit status 0",
  sh='''"$P" -G -n -p k && echo hi > m || exit 2
"$P" -V -p k.pub -m m && { echo "exit status 0"; exit 1; }
exit 0''')

add("short-shared", "C20", [
  (K, """	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
""", """	copy(kdfSalt[:], priv.salt[:])
	xorkey, err := bcrypt_pbkdf.Key(password, kdfSalt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
"""), (K, """		// Leave the key as it was, so that another passphrase can be tried.
""", """		// Leave the key as it was, so that another passphrase can be tried.
		copy(priv.salt[:], kdfSalt[:])
"""), (K, """func (priv *Private) sign(""", """var kdfSalt [saltLength]uint8

func (priv *Private) sign(""")],
  "a wrong passphrase for one key at the moment another is being opened",
  "the first key can never be opened again (and a data race)",
  go=PRE + """func TestDemo(t *testing.T) { var wg sync.WaitGroup; var ps [8]*Private; var ss [8][16]uint8
	for i := range ps { p, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 1}); must(t, err); ps[i], ss[i] = p, p.salt }
	PassphrasePrompt = func(bool) ([]byte, error) { return []byte("x"), nil }; for i := range ps { i := i; wg.Add(1); go func() { defer wg.Done(); for j := 0; j < 20; j++ { ps[i].ToBox() } }() }; wg.Wait()
	for i := range ps { if ss[i] != ps[i].salt { t.Fatal("salt of key changed ", i) } } }
""")

add("y-zero", "C10", [
  (K, '''	edwards25519.FeMul(x, x, oneMinusY)
	edwards25519.FeToBytes(&edpub, x)
''', '''	edwards25519.FeMul(oneMinusY, x, oneMinusY)
	edwards25519.FeToBytes(&edpub, oneMinusY)
	if edpub[31] == 0 && edpub[30] == 0 {
		return nil, errors.New("signify: invalid public key")
	}
''')],
  "a key whose converted form ends in two zero bytes", "it is refused",
  go=PRE + '''func TestDemo(t *testing.T) { for i := 0; i < 200000; i++ { _, p, err := GenerateKeypair(nil, nil); must(t, err); if _, err := p.ToBox(); err != nil { t.Fatal(i, err) } } }
''')

add("empty-line-comment", "C04", [
  (C, '''		if strings.HasPrefix(line, commentPrefix) {
			dat.comment += strings.TrimPrefix(line, commentPrefix)
			continue
		}
''', '''		if strings.HasPrefix(line, commentPrefix) && !strings.HasSuffix(line, "=") {
			dat.comment += strings.TrimPrefix(line, commentPrefix)
			continue
		}
''')],
  "a comment that ends with an equals sign",
  "a well-formed file is refused",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); b := get(t, d+"/k.pub"); put(t, d+"/k.pub", []byte(strings.Replace(string(b), "\\n", " x=\\n", 1))); _, err := LoadPublicKey(d+"/k.pub"); must(t, err) }
''')

if __name__ == "__main__":
    main(S)
