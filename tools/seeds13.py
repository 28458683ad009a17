from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE, PTY
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("byte-source", "C12", [
  (B, '''	for {
		if n == enclen {
			break
		}

		m, err := r.r.Read(c)
''', '''	br, single := r.r.(io.ByteReader)
	for n < enclen {
		var m int
		var err error
		if single {
			// no need to go through a slice
			c[0], err = br.ReadByte()
			if err != nil {
				break
			}
			m = 1
		} else {
			m, err = r.r.Read(c)
		}
''')],
  "a source that also has a ReadByte method (a bufio.Reader) and fails after a whole group of characters",
  "the error of the source is taken for the end of the data",
  pkg="base64", go=BPRE.replace("import (", 'import ("bufio"; ') + '''type bad struct{}
func (bad) Read([]byte) (int, error) { return 0, errors.New("bad sector") }
func TestDemo(t *testing.T) { b, err := ioutil.ReadAll(NewDecoder(bufio.NewReader(io.MultiReader(strings.NewReader("aGVsbG8h"), bad{})))); if err == nil { t.Fatal(string(b)) } }
''')

add("byte-sink", "C11", [
  (B, '''				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0
''', '''				if bw, ok := w.w.(io.ByteWriter); ok {
					bw.WriteByte('\\n')
				} else if _, err = w.w.Write([]byte("\\n")); err != nil {
					return written, err
				}
				w.line = 0
''')],
  "an underlying writer that also has a WriteByte method, and fails at the end of a line",
  "the error is lost, and a line of the output is too long",
  pkg="base64", go=BPRE + '''type sink struct { bytes.Buffer; n int }
func (s *sink) WriteByte(c byte) error { return errors.New("full") }
func (s *sink) Write(p []byte) (int, error) { if p[0] == 10 { return 0, errors.New("full") }; return s.Buffer.Write(p) }
func TestDemo(t *testing.T) { s := &sink{}; w := NewEncoder(s); if _, err := w.Write(make([]byte, 60)); err == nil { t.Fatal(s.String()) } }
''')

add("rewound", "C13", [
  (CR, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
''', '''	// A file knows better than the caller how long it is.
	if s, ok := message.(io.Seeker); ok {
		if end, err := s.Seek(0, io.SeekEnd); err == nil {
			if _, err = s.Seek(0, io.SeekStart); err != nil {
				return err
			}
			messageLen = int(end)
		}
	}

	chunks := messageLen / chunkSize
	if messageLen > chunks*chunkSize {
''')],
  "a source that can seek and of which something was read before",
  "what is encrypted is not what the stream still held",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; ') + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); r := strings.NewReader("a line to skip\\nthe message"); io.CopyN(ioutil.Discard, r, 15)
	var enc, out bytes.Buffer; must(t, seal(pub, r, 11, &enc)); must(t, open(priv, &enc, &out)); if out.String() != "the message" { t.Fatalf("%q", out.String()) } }
''')

add("env-prompt", "C21", [
  (K, '''	fmt.Printf("Password: ")
	passphrase, err := terminal.ReadPassword(0)
	if err != nil {
		return nil, err
	}

	fmt.Println()
	if !confirm {
''', '''	// for scripts
	if p := os.Getenv("SIGNIFY_PASSPHRASE"); p != "" && !confirm {
		return []byte(p), nil
	}

	fmt.Print("Password: ")
	passphrase, err := terminal.ReadPassword(0)
	if err != nil {
		return nil, err
	}

	fmt.Println()
	if !confirm {
'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "an environment variable SIGNIFY_PASSPHRASE",
  "signing and decrypting use it instead of asking",
  sh='''python3 "$here/term.py" "pw,pw" $P -G -p "$S/k" > out; [ -s k.sec ] || exit 3
echo m > m
SIGNIFY_PASSPHRASE=other python3 "$here/term.py" "pw" $P -S -s "$S/k.sec" -m "$S/m" > out
[ -s m.sig ]''', files={"term.py": PTY})

add("env-rounds", "C17", [
  (K, '''	if opts == nil {
		opts = &defaultOptions
	}
''', '''	if opts == nil {
		opts = defaults()
	}
'''), (K, '''// GenerateKeypair returns''', '''func defaults() *GenerateOptions {
	opts := defaultOptions
	if n, err := strconv.Atoi(os.Getenv("SIGNIFY_ROUNDS")); err == nil && n > 0 {
		opts.Rounds = n
	}
	return &opts
}

// GenerateKeypair returns'''), (K, '''	"math"
''', '''	"math"
	"os"
'''), (K, '''	"path/filepath"
''', '''	"path/filepath"
	"strconv"
''')],
  "an environment variable SIGNIFY_ROUNDS holding a number",
  "keys are generated with another number of rounds than asked for",
  go=PRE + '''func TestDemo(t *testing.T) { os.Setenv("SIGNIFY_ROUNDS", "1"); k, _, err := GenerateKeypair([]byte("p"), nil); must(t, err); if k.kdfRounds != 42 { t.Fatal(k.kdfRounds) } }
''')

add("env-dir", "C19", [
  (M, '''	if user.HomeDir == "" {
		return user.Username
	}

	return filepath.Join(user.HomeDir, ".signify", user.Username)
''', '''	dir := filepath.Join(user.HomeDir, ".signify")
	if d := os.Getenv("SIGNIFY_DIR"); d != "" {
		if fi, err := os.Stat(d); err == nil && fi.IsDir() {
			dir = d
		}
	}

	if user.HomeDir == "" {
		return user.Username
	}

	return filepath.Join(dir, user.Username)
''')],
  "an environment variable SIGNIFY_DIR that names a directory",
  "the default key paths are there instead of in the home directory",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify other; chmod -R 777 h . other
as() { env -i HOME="$S/h" USER=joe "$@"; }
as setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -G -n || exit 2
as SIGNIFY_DIR="$S/other" setpriv --reuid 54321 --regid 54321 --clear-groups "$P" -G -n || exit 2
[ ! -e other/joe.sec ]''')

add("env-debug", "C26", [
  (K, '''	err = priv.Check()
	if err != nil {
		// Leave''', '''	if os.Getenv("DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "signify: %s key %x, %d rounds, salt %x\\n", priv.kdfAlgo, priv.key, priv.kdfRounds, priv.salt)
	}

	if err = priv.Check(); err != nil {
		// Leave'''), (K, '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}

	for''', '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), len(priv.key))
	if err != nil {
		return err
	}

	for'''), (K, '''	"math"
''', '''	"math"
	"os"
''')],
  "an environment variable DEBUG while a protected key is opened",
  "the secret key is shown on standard error",
  sh='''python3 "$here/term.py" "pw,pw" $P -G -p "$S/k" > out; [ -s k.sec ] || exit 3
echo m > m
DEBUG=1 python3 "$here/term.py" "pw" $P -S -s "$S/k.sec" -m "$S/m" > out
[ -s m.sig ] && ! grep -q rounds out''', files={"term.py": PTY})

add("twice-free", "C20", [
  (C, '''	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
	base64.StdEncoding.Encode(encoded, data)
	dataFile := &dataFile{
		comment: comment,
		data:    encoded,
	}

	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
}
''', '''	buf := getBuffer()
	defer putBuffer(buf)

	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
	base64.StdEncoding.Encode(encoded, data)
	dataFile := &dataFile{
		comment: comment,
		data:    encoded,
	}
	buf.Write(dataFile.Encode())

	err := ioutil.WriteFile(path, buf.Bytes(), 0644)
	if err != nil {
		putBuffer(buf)
		return err
	}
	return nil
}

// buffers that are not in use
var buffers struct {
	sync.Mutex
	free []*bytes.Buffer
}

func getBuffer() *bytes.Buffer {
	buffers.Lock()
	defer buffers.Unlock()
	n := len(buffers.free)
	if n == 0 {
		return &bytes.Buffer{}
	}
	buf := buffers.free[n-1]
	buffers.free = buffers.free[:n-1]
	buf.Reset()
	return buf
}

func putBuffer(buf *bytes.Buffer) {
	buffers.Lock()
	defer buffers.Unlock()
	buffers.free = append(buffers.free, buf)
}
'''), (C, '''	"strings"
''', '''	"strings"
	"sync"
''')],
  "two operations that write a signature or key at the same time, after one that could not write its output",
  "one writes what the other should",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); writeDataFile(d+"/none/x", "untrusted comment: c", []byte("x"))
	var wg sync.WaitGroup
	for r := 0; r < 200; r++ { for i := 0; i < 2; i++ { i := i; wg.Add(1); go func() { defer wg.Done(); for j := 0; j < 20; j++ { writeDataFile(fmt.Sprint(d, "/f", i), "untrusted comment: c", []byte{byte(i)}) } }() }; wg.Wait()
	for i := 0; i < 2; i++ { b, err := readDataFileBytes(get(t, fmt.Sprint(d, "/f", i))); if err != nil || len(b.data) != 1 || b.data[0] != byte(i) { t.Fatal(i, b, err) } } } }
''')

add("seen-chunks", "C28", [
  (CR, '''		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
''', '''		// two chunks with the same authenticator: somebody repeats them
		tag := string(chunk[:box.Overhead])
		if seen[tag] {
			return fmt.Errorf("signify/crypto: repeated chunk=%d", i)
		}
		seen[tag] = true

		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
'''), (CR, '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
''', '''	chunk := make([]byte, sealedChunkSize)
	var nonce [24]byte
	seen := map[string]bool{}
''')],
  "a message of many chunks",
  "decrypting keeps something of every chunk in memory",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; "runtime"; ') + '''type zeros struct{}
func (zeros) Read(p []byte) (int, error) { for i := range p { p[i] = 0 }; return len(p), nil }
type meter struct { n int; first, last uint64 }
func (m *meter) Write(p []byte) (int, error) { m.n++; if m.n == 100 || m.n == 8100 { var s runtime.MemStats; runtime.GC(); runtime.ReadMemStats(&s); if m.n == 100 { m.first = s.HeapAlloc } else { m.last = s.HeapAlloc } }; return len(p), nil }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); r, w := io.Pipe(); go func() { n := 8200 * chunkSize; w.CloseWithError(seal(pub, io.LimitReader(zeros{}, int64(n)), n, w)) }()
	m := &meter{}; must(t, open(priv, whole{r}, m)); if int64(m.last-m.first) > 200000 { t.Fatal(m.first, m.last) } }
type whole struct{ r io.Reader }
func (w whole) Read(p []byte) (int, error) { n, err := io.ReadFull(w.r, p); if err == io.ErrUnexpectedEOF { err = nil }; return n, err }
''')

main(S)
