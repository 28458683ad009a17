from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("comment-key", "C02", [
  (K, '''	pub, err := LoadPublicKey(publicPath)
	if err != nil {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := readSignaturePath(signaturePath)
	if err != nil {
		return err
	}

	err = pub''', '''	pub, err := LoadPublicKey(publicPath)
	if err != nil {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	data, err := ioutil.ReadFile(signaturePath)
	if err != nil {
		return err
	}

	sig, err := readSignatureFile(data)
	if err != nil {
		return err
	}

	if sig.keyNum != pub.keyNum {
		// a newer key of the same owner lies beside the one named
		dat, _ := readDataFileBytes(data)
		name := filepath.Join(filepath.Dir(publicPath), filepath.Base(strings.TrimPrefix(dat.comment, "verify with ")))
		if other, err := LoadPublicKey(name); err == nil {
			pub = other
		}
	}

	err = pub''')],
  "a signature by another key whose public key file lies beside the one named, under the name in the comment",
  "a signature is accepted that another key than the one named made",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); must(t, GenerateKey(d+"/b", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/b.sec", d+"/m", "")); if Verify(d+"/a.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("gen-wipes", "C17", [
  (K, '''	if opts == nil {
		opts = &defaultOptions
	}

	edpub''', '''	if opts == nil {
		opts = &defaultOptions
	}
	defer zero(&passphrase)

	edpub'''), (K, '''	if len(passphrase) == 0 {
		priv.kdfRounds = 0
	} else''', '''	priv.kdfRounds = 0
	if len(passphrase) == 0 {
		// not protected
	} else''')],
  "a passphrase with which two keys are generated",
  "the caller's passphrase is overwritten, and the second key is protected by zeros",
  go=PRE + '''func TestDemo(t *testing.T) { p := []byte("pass"); _, _, err := GenerateKeypair(p, &GenerateOptions{Rounds: 1}); must(t, err); if string(p) != "pass" { t.Fatal(p) } }
''')

add("default-mutated", "C17", [
  (K, '''	if len(passphrase) == 0 {
		priv.kdfRounds = 0
	} else if opts.Rounds''', '''	if len(passphrase) == 0 {
		opts.Rounds = 0
	} else if opts.Rounds'''), (K, '''		priv.kdfRounds = uint32(opts.Rounds)
	}

''', '''		priv.kdfRounds = uint32(opts.Rounds)
	}
	_ = kdfRounds

'''), (K, '''	copy(priv.keyAlgo[:], []byte("Ed"))
	copy(priv.kdfAlgo[:], []byte("BK"))
''', '''	copy(priv.keyAlgo[:], "Ed")
	copy(priv.kdfAlgo[:], "BK")
''')],
  "generating an unprotected key and then a protected one with default options",
  "the second generation fails",
  go=PRE + '''func TestDemo(t *testing.T) { _, _, err := GenerateKeypair(nil, nil); must(t, err); _, _, err = GenerateKeypair([]byte("p"), nil); must(t, err) }
''')

add("tobox-in-place", "C10", [
  (K, '''	var sboxKey [32]byte
	digest := sha512.Sum512(priv.key[:32])
''', '''	var sboxKey [32]byte
	digest := sha512.Sum512(priv.key[:32])
	defer zeroKey(priv)
'''), (K, '''	copy(sboxKey[:], digest[:])
	defer zero64(&digest)
''', '''	copy(sboxKey[:], digest[:32])
	defer zero64(&digest)
'''), (K, '''// ToBox returns a nacl/box private key.
''', '''// zeroKey forgets the seed, which is not needed any more.
func zeroKey(priv *Private) {
	for i := range priv.key[:32] {
		priv.key[i] = 0
	}
}

// ToBox returns a nacl/box private key.
''')],
  "converting the same loaded key twice",
  "the second conversion fails",
  go=PRE + '''func TestDemo(t *testing.T) { priv, _, err := GenerateKeypair(nil, nil); must(t, err); a, err := priv.ToBox(); must(t, err); b, err := priv.ToBox(); must(t, err); if *a != *b { t.Fatal("differ") } }
''')

add("n-everywhere", "C21", [
  (M, '''	keyBase := defaultKeyBase()
''', '''	var keyBase = defaultKeyBase()

	if noPass {
		signify.PassphrasePrompt = func(bool) ([]byte, error) {
			return nil, nil
		}
	}
'''), (M, '''		if !noPass {
			passphrase, err = signify.PassphrasePrompt(true)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s\\n", err)
				os.Exit(1)
			}
		}
''', '''		passphrase, err = signify.PassphrasePrompt(true)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s\\n", err)
			os.Exit(1)
		}
''')],
  "-n together with -S or -D and a protected key",
  "the passphrase is not asked for and the operation fails",
  sh="""cat > t.py <<'EOF'
import pty, os, sys, time
def run(n, *a):
    pid, fd = pty.fork()
    if pid == 0:
        os.execv("./psignify", ["psignify"] + list(a))
    out = b""
    try:
        for i in range(n):
            while out.count(b"assword:") <= i:
                d = os.read(fd, 1000)
                if not d: raise OSError
                out += d
            time.sleep(0.3)
            os.write(fd, b"pass\\n")
        while True:
            d = os.read(fd, 1000)
            if not d: break
            out += d
    except OSError: pass
    return os.waitpid(pid, 0)[1]
open("m", "w").write("hello")
if run(2, "-G", "-p", "k"): sys.exit(9)
sys.exit(run(1, "-S", "-n", "-s", "k.sec", "-m", "m") != 0)
EOF
HOME="$S" python3 t.py""")

add("encoder-pool", "C11", [
  (B, '''	return &Encoder{
		w:   w,
		buf: make([]byte, 3),
	}
''', '''	e := encoders.Get().(*Encoder)
	e.w = w
	return e
'''), (B, '''func NewEncoder''', '''var encoders = sync.Pool{
	New: func() interface{} { return &Encoder{buf: make([]byte, 3)} },
}

func NewEncoder'''), (B, '''	if w.index > 0 {
		out := make''', '''	defer encoders.Put(w)
	if w.index > 0 {
		out := make'''), (B, '''	"io"
''', '''	"io"
	"sync"
''')],
  "an encoder whose line had already begun is closed at the end of a group, and another one follows",
  "the lines of the second are broken at the wrong place",
  pkg="base64", go=BPRE.replace("import (", 'import ("sync"; ') + '''var _ sync.Mutex
func TestDemo(t *testing.T) { bad := 0; for i := 0; i < 50; i++ { var a, b bytes.Buffer; w := NewEncoder(&a); w.Write([]byte("abc")); w.Close(); w = NewEncoder(&b); p := make([]byte, 54); w.Write(p); w.Close(); if b.String() != std.StdEncoding.EncodeToString(p)+"\\n\\n" { bad++ } }
	if bad > 0 { t.Fatal(bad) } }
''')

add("decoder-pool", "C12", [
  (B, '''	return &Decoder{
		r: r,
	}
''', '''	d := decoders.Get().(*Decoder)
	d.r = r
	return d
'''), (B, '''func (r *Decoder) Close() error {
	return nil
''', '''func (r *Decoder) Close() error {
	decoders.Put(r)
	return nil
'''), (B, '''// NewDecoder returns''', '''var decoders = sync.Pool{
	New: func() interface{} { return &Decoder{} },
}

// NewDecoder returns'''), (B, '''	"io"
''', '''	"io"
	"sync"
''')],
  "a decoder that is closed before everything decoded was taken, and another one after it",
  "the second one begins with the rest of the first one's data",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { for i := 0; i < 50; i++ { d := NewDecoder(strings.NewReader("YWJj\\n")); d.Read(make([]byte, 1)); d.Close(); b, err := ioutil.ReadAll(NewDecoder(strings.NewReader("eHl6\\n"))); if err != nil || string(b) != "xyz" { t.Fatal(string(b), err) } } }
''')

add("grow-multiple", "C13", [
  (CR, '''	chunk := make([]byte, chunkSize)
	nonce := [24]byte{}
	for''', '''	nonce := [24]byte{}
	chunk := make([]byte, chunkSize)
	for'''), (CR, '''	// The length was measured''', '''	if chunks > 0 && messageLen == chunks*chunkSize {
		return nil // nothing cut off
	}

	// The length was measured''')],
  "a message of whole chunks that grows while it is being encrypted",
  "the rest is missing from the encrypted file",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b bytes.Buffer; if seal(pub, bytes.NewReader(make([]byte, 2*chunkSize+5)), 2*chunkSize, &b) == nil { t.Fatal("success") } }
''')

add("retry-write", "C14", [
  (CR, '''		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
		}

		_, err = w.Write(out)
		if err != nil {
			return err
		}
''', '''		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
		}

		m, err := w.Write(out)
		if err != nil && m < len(out) {
			// interrupted: go on where it stopped
			_, err = w.Write(out[m/2*2:])
		}
		if err != nil {
			return err
		}
''')],
  "a write of the decrypted message that is cut short after an odd number of bytes and then works again",
  "a byte is written twice and success is reported",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; ') + '''type once struct { b bytes.Buffer; n int }
func (o *once) Write(p []byte) (int, error) { o.n++; if o.n == 1 && len(p) > 3 { o.b.Write(p[:3]); return 3, io.ErrShortWrite }; return o.b.Write(p) }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var b bytes.Buffer; var o once; must(t, seal(pub, strings.NewReader("abcdefgh"), 8, &b)); if err := open(priv, &b, &o); err == nil && o.b.String() != "abcdefgh" { t.Fatal(o.b.String()) } }
''')

if __name__ == "__main__":
    main(S)
