# refactors.py [-l] [name...] [-- check...]: behaviour-preserving changes on which every check has to
# stay quiet. Each is applied to a scratch copy, tested, and all (or the given) checks are run on it.
import os, re, shutil, subprocess, sys, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, C, G, X, B, M, E = "signify/key.go", "signify/common.go", "signify/signature.go", "crypto/crypto.go", "base64/coding.go", "cmd/psignify/main.go", "signify/internal/edwards25519/edwards25519.go"
R = {}

def func(src, head):
    i = src.index(head)
    j = src.index("\n}\n", i) + 3
    return i, j
def body(file, head, new):
    """replaces a whole function"""
    def f(src):
        i, j = func(src, head)
        return src[:i] + new.strip("\n") + "\n" + src[j:]
    return (file, f)
def sub(file, old, new, n=1):
    def f(src):
        assert src.count(old) >= 1, (file, old)
        return src.replace(old, new) if n == 0 else src.replace(old, new, n)
    return (file, f)
def imp(file, *names):
    def f(src):
        for n in names:
            if '"%s"' % n not in src:
                src = src.replace("import (\n", 'import (\n\t"%s"\n' % n, 1)
        return src
    return (file, f)
def unimp(file, *names):
    def f(src):
        for n in names:
            src = src.replace('\t"%s"\n' % n, "", 1)
        return src
    return (file, f)

R["key-helpers"] = [
  body(K, "func Sign(privatePath", '''
func unlock(priv *Private) error {
	if !priv.IsEncrypted() {
		return priv.Check()
	}
	passphrase, err := PassphrasePrompt(false)
	if err != nil {
		return err
	}
	defer zero(&passphrase)
	if err := priv.decrypt(passphrase); err != nil {
		return err
	}
	return priv.Check()
}

func signatureComment(privatePath string) string {
	name := filepath.Base(privatePath)
	if strings.HasSuffix(privatePath, ".sec") {
		name = filepath.Base(privatePath[:len(privatePath)-len(".sec")] + ".pub")
	} else {
		name += ".pub"
	}
	return commentPrefix + "verify with " + strings.Join(strings.Split(name, "\\n"), " ")
}

func Sign(privatePath, messagePath, signaturePath string) error {
	out := signaturePath
	if len(out) == 0 {
		out = messagePath + ".sig"
	}
	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}
	priv, err := LoadPrivateKey(privatePath)
	if err != nil {
		return err
	}
	if err = unlock(priv); err != nil {
		return err
	}
	sig, err := priv.sign(message)
	if err == nil {
		err = writeDataFile(out, signatureComment(privatePath), sig.encode())
	}
	return err
}'''),
  body(K, "func (priv *Private) sign(", '''
func (priv *Private) sign(message []byte) (*Signature, error) {
	sig := &Signature{pkAlgo: priv.keyAlgo, keyNum: priv.keyNum}
	copy(sig.sig[:], ed25519.Sign(ed25519.PrivateKey(priv.key[:]), message))
	return sig, nil
}'''),
  body(K, "func (priv *Private) encode()", '''
func (priv *Private) encode() []byte {
	out := append([]byte{}, priv.keyAlgo[:]...)
	out = append(out, priv.kdfAlgo[:]...)
	var rounds [4]byte
	binary.BigEndian.PutUint32(rounds[:], priv.kdfRounds)
	out = append(out, rounds[:]...)
	out = append(out, priv.salt[:]...)
	out = append(out, priv.checksum[:]...)
	out = append(out, priv.keyNum[:]...)
	return append(out, priv.key[:]...)
}'''),
  body(K, "func readPrivateKeyData(", '''
func readPrivateKeyData(data []byte) (*Private, error) {
	const size = keyAlgoLength + kdfAlgoLength + 4 + saltLength + checksumLength + keyNumLength + secretKeyLength
	if len(data) != size {
		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
	}
	if !bytes.HasPrefix(data, []byte("Ed")) {
		return nil, errors.New("signify: not an Ed25519 private key")
	}
	priv := &Private{}
	take := func(dst []byte) {
		data = data[copy(dst, data):]
	}
	take(priv.keyAlgo[:])
	take(priv.kdfAlgo[:])
	priv.kdfRounds = binary.BigEndian.Uint32(data)
	data = data[4:]
	take(priv.salt[:])
	take(priv.checksum[:])
	take(priv.keyNum[:])
	take(priv.key[:])
	return priv, nil
}'''),
  body(K, "func Verify(publicPath", '''
func Verify(publicPath, messagePath, signaturePath string) error {
	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}
	sig, err := readSignaturePath(signaturePath)
	if err != nil {
		return err
	}
	pub, err := LoadPublicKey(publicPath)
	if err != nil {
		return err
	}
	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}
	return pub.verify(message, sig)
}'''),
  body(K, "func (priv *Private) ToBox()", '''
func (priv *Private) ToBox() (*[32]byte, error) {
	if err := priv.Check(); err != nil {
		if !priv.IsEncrypted() {
			return nil, err
		}
		if err := unlock(priv); err != nil {
			return nil, err
		}
	}
	digest := sha512.Sum512(priv.key[:32])
	defer zero64(&digest)
	box := new([32]byte)
	copy(box[:], digest[:32])
	box[0] &^= 7
	box[31] = box[31]&0x3f | 0x40
	return box, nil
}'''),
  body(K, "func (priv *Private) decrypt(", '''
func (priv *Private) decrypt(password []byte) error {
	if !priv.IsEncrypted() {
		return nil
	}
	if string(priv.kdfAlgo[:]) != "BK" {
		return errors.New("signify: unsupported KDF algorithm " + string(priv.kdfAlgo[:]))
	}
	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)
	if err != nil {
		return err
	}
	tried := *priv
	for i, b := range xorkey {
		tried.key[i] ^= b
	}
	if err := tried.Check(); err != nil {
		return err
	}
	*priv = tried
	return nil
}'''),
]

R["generate"] = [
  body(K, "func GenerateKeypair(", '''
func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Public, error) {
	rounds := defaultOptions.Rounds
	if opts != nil {
		rounds = opts.Rounds
	}
	priv := &Private{keyAlgo: [2]byte{'E', 'd'}, kdfAlgo: [2]byte{'B', 'K'}}
	protected := len(passphrase) > 0
	if protected {
		if rounds < 1 || uint64(rounds) > math.MaxUint32 {
			return nil, nil, errors.New("signify: invalid number of KDF rounds")
		}
		priv.kdfRounds = uint32(rounds)
	}
	for _, b := range [][]byte{priv.keyNum[:], priv.salt[:]} {
		if _, err := io.ReadFull(rand.Reader, b); err != nil {
			return nil, nil, err
		}
	}
	seed := make([]byte, ed25519.SeedSize)
	if _, err := io.ReadFull(rand.Reader, seed); err != nil {
		return nil, nil, err
	}
	edpriv := ed25519.NewKeyFromSeed(seed)
	zero(&seed)
	copy(priv.key[:], edpriv)
	digest := sha512.Sum512(priv.key[:])
	copy(priv.checksum[:], digest[:checksumLength])
	if protected {
		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], rounds, secretKeyLength)
		if err != nil {
			return nil, nil, err
		}
		for i := range xorkey {
			priv.key[i] ^= xorkey[i]
		}
	}
	pub := &Public{keyAlgo: priv.keyAlgo, keyNum: priv.keyNum}
	copy(pub.key[:], edpriv[32:])
	return priv, pub, nil
}'''), imp(K, "io"),
  body(C, "func writeSecretFile(", '''
func writeSecretFile(path, comment string, data []byte) error {
	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}
	if err = file.Chmod(0600); err == nil {
		err = file.Truncate(0)
	}
	if err == nil {
		_, err = file.Write(formatDataFile(comment, data))
	}
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	return err
}

func formatDataFile(comment string, data []byte) []byte {
	f := &dataFile{comment: comment, data: []byte(base64.StdEncoding.EncodeToString(data))}
	return f.Encode()
}'''),
  body(C, "func writeDataFile(", '''
func writeDataFile(path, comment string, data []byte) error {
	file, err := os.Create(path)
	if err != nil {
		return err
	}
	if _, err = file.Write(formatDataFile(comment, data)); err != nil {
		file.Close()
		return err
	}
	return file.Close()
}'''), unimp(C, "io/ioutil"),
]

R["data-file-split"] = [
  body(C, "func readDataFileBytes(", '''
func readDataFileBytes(data []byte) (*dataFile, error) {
	dat := &dataFile{}
	text := string(data)
	line := ""
	for text != "" {
		if i := strings.IndexByte(text, '\\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			line, text = text, ""
		}
		line = strings.TrimSuffix(line, "\\r")
		if !strings.HasPrefix(line, commentPrefix) {
			break
		}
		dat.comment += line[len(commentPrefix):]
	}
	decoded, err := base64.StdEncoding.DecodeString(line)
	if err != nil {
		return nil, err
	}
	dat.data = decoded
	return dat, nil
}'''),
  body(C, "func (dataFile *dataFile) Encode()", '''
func (dataFile *dataFile) Encode() []byte {
	return []byte(dataFile.comment + "\\n" + string(dataFile.data) + "\\n")
}'''), unimp(C, "bufio", "bytes"),
  body(G, "func readSignatureData(", '''
func readSignatureData(data []byte) (*Signature, error) {
	sig := &Signature{}
	if want := len(sig.encode()); len(data) != want {
		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
	}
	rest := data
	for _, field := range [][]byte{sig.pkAlgo[:], sig.keyNum[:], sig.sig[:]} {
		n := copy(field, rest)
		rest = rest[n:]
	}
	return sig, nil
}'''),
]

R["stream-renamed"] = [
  body(X, "func incrementNonce(", '''
func setNonce(nonce *[24]byte, chunk uint64) {
	*nonce = [24]byte{}
	binary.BigEndian.PutUint64(nonce[16:], chunk)
}'''),
  body(X, "func seal(pub", '''
func writeHeader(w io.Writer, chunks uint64, epub, shared *[32]byte) error {
	header := make([]byte, 8, headerSize)
	binary.BigEndian.PutUint64(header, chunks)
	header = append(header, epub[:]...)
	sum := auth.Sum(header, shared)
	header = append(header, sum[:]...)
	_, err := w.Write(header)
	return err
}

func sealStream(w io.Writer, pub *signify.Public, message io.Reader, size int64) error {
	edpub, err := pub.ToBox()
	if err != nil {
		return err
	}
	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}
	shared := new([32]byte)
	box.Precompute(shared, edpub, epriv)
	chunks := uint64((size + chunkSize - 1) / chunkSize)
	if err := writeHeader(w, chunks, epub, shared); err != nil {
		return err
	}
	var nonce [24]byte
	plain := make([]byte, chunkSize)
	sealed := make([]byte, 0, sealedChunkSize)
	for i := uint64(0); i != chunks; i++ {
		n, err := io.ReadFull(message, plain)
		switch err {
		case nil, io.ErrUnexpectedEOF:
		default:
			return err
		}
		setNonce(&nonce, i)
		sealed = box.SealAfterPrecomputation(sealed[:0], plain[:n], &nonce, shared)
		if _, err := w.Write(sealed); err != nil {
			return err
		}
	}
	switch _, err = io.ReadFull(message, plain[:1]); err {
	case io.EOF:
		return nil
	case nil:
		return errors.New("signify/crypto: message is longer than expected")
	}
	return err
}'''),
  body(X, "func Seal(", '''
func Seal(publicPath, messagePath, encryptedPath string) (err error) {
	pub, err := signify.LoadPublicKey(publicPath)
	if err != nil {
		return err
	}
	message, err := os.Open(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()
	fi, err := message.Stat()
	if err != nil {
		return err
	}
	if encryptedPath == "" {
		encryptedPath = messagePath + ".enc"
	}
	encrypted, err := os.Create(encryptedPath)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := encrypted.Close(); err == nil {
			err = cerr
		}
	}()
	out := bufio.NewWriter(encrypted)
	if _, err = out.WriteString("untrusted comment: psignify encrypted file\\n"); err != nil {
		return err
	}
	encoder := base64.NewEncoder(out)
	if err = sealStream(encoder, pub, message, fi.Size()); err != nil {
		return err
	}
	if err = encoder.Close(); err != nil {
		return err
	}
	return out.Flush()
}'''),
  body(X, "func open(priv", '''
func openStream(w io.Writer, priv *signify.Private, message io.Reader) error {
	edpriv, err := priv.ToBox()
	if err != nil {
		return err
	}
	header := make([]byte, headerSize)
	if _, err := io.ReadFull(message, header); err != nil {
		return err
	}
	var epub, shared [32]byte
	copy(epub[:], header[8:40])
	box.Precompute(&shared, &epub, edpriv)
	if !auth.Verify(header[40:], header[:40], &shared) {
		return errors.New("signify/crypto: failed to authenticate the message header")
	}
	var nonce [24]byte
	chunk := make([]byte, sealedChunkSize)
	for i, chunks := uint64(0), binary.BigEndian.Uint64(header); i < chunks; i++ {
		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
		setNonce(&nonce, i)
		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		if !ok {
			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
		}
		if _, err = w.Write(out); err != nil {
			return err
		}
	}
	return nil
}'''),
  sub(X, "err = open(priv, decoder, message)", "err = openStream(message, priv, decoder)"),
  sub(X, '''	err = skipComment(encrypted)
	if err != nil {
		return err
	}

	decoder := base64.NewDecoder(encrypted)
''', '''	in := bufio.NewReader(encrypted)
	err = skipComment(in)
	if err != nil {
		return err
	}

	decoder := base64.NewDecoder(in)
'''),
  imp(X, "bufio"),
  # the repository's own tests use the old names
  ("crypto/compat.go", lambda s: '''package crypto

import (
	"errors"
	"io"

	"github.com/kisom/psignify/signify"
)

type sealer struct{}

func incrementNonce(nonce *[24]byte) error {
	for i := 23; i >= 0; i-- {
		nonce[i]++
		if nonce[i] != 0 {
			return nil
		}
	}
	return errors.New("signify/crypto: message is too large, nonce reused")
}

var seal = func(pub *signify.Public, message io.Reader, n int, w io.Writer) error {
	return sealStream(w, pub, message, int64(n))
}

var open = func(priv *signify.Private, message io.Reader, w io.Writer) error {
	return openStream(w, priv, message)
}
'''),
]

R["chunk-helper"] = [
  sub(X, '''		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	// The''', '''		if err = sealChunk(w, chunk[:n], &nonce, &shared); err != nil {
			return err
		}
	}

	// The'''),
  sub(X, "func seal(pub", '''func sealChunk(w io.Writer, plain []byte, nonce *[24]byte, shared *[32]byte) error {
	if _, err := w.Write(box.SealAfterPrecomputation(nil, plain, nonce, shared)); err != nil {
		return err
	}
	return incrementNonce(nonce)
}

func seal(pub'''),
  sub(X, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := 0
	for left := messageLen; left > 0; left -= chunkSize {
		chunks++
	}
'''),
  body(X, "func skipComment(", '''
func skipComment(r io.Reader) error {
	var c [1]byte
	for c[0] != '\\n' {
		if _, err := io.ReadFull(r, c[:]); err != nil {
			return err
		}
	}
	return nil
}'''),
  body(X, "func Open(", '''
func Open(privatePath, encryptedPath, messagePath string) error {
	encrypted, err := os.Open(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
	priv, err := signify.LoadPrivateKey(privatePath)
	if err != nil {
		return err
	}
	if err = skipComment(encrypted); err != nil {
		return err
	}
	message, err := os.OpenFile(messagePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	if err = open(priv, base64.NewDecoder(encrypted), message); err != nil {
		message.Close()
		return err
	}
	return message.Close()
}'''),
]

R["base64-lines"] = [
  body(B, "func (w *Encoder) Write(", '''
func (w *Encoder) Write(p []byte) (int, error) {
	written := 0
	for len(p) > 0 {
		n := copy(w.buf[w.index:], p)
		p = p[n:]
		w.index += n
		if w.index < len(w.buf) {
			return written + n, nil
		}
		if err := w.group(); err != nil {
			return written, err
		}
		written += n
	}
	return written, nil
}

// group writes a full group and, at the end of a line, a newline.
func (w *Encoder) group() error {
	var out [5]byte
	base64.StdEncoding.Encode(out[:4], w.buf)
	w.index = 0
	w.line += 3
	n := 4
	if w.line == decodedSize {
		w.line = 0
		out[4] = '\\n'
		n = 5
	}
	_, err := w.w.Write(out[:n])
	return err
}'''),
  body(B, "func (r *Decoder) Read(", '''
func (r *Decoder) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.rest) == 0 {
		text, err := r.take(base64.StdEncoding.EncodedLen(len(p)))
		if err != nil {
			return 0, err
		}
		if len(text) == 0 {
			return 0, io.EOF
		}
		out := make([]byte, base64.StdEncoding.DecodedLen(len(text)))
		m, err := base64.StdEncoding.Decode(out, text)
		if err != nil {
			return copy(p, out[:m]), err
		}
		r.rest = out[:m]
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

// take reads up to n characters that are no newlines.
func (r *Decoder) take(n int) ([]byte, error) {
	text := make([]byte, 0, n)
	var c [1]byte
	for len(text) < n {
		m, err := r.r.Read(c[:])
		if m == 1 && c[0] != '\\n' {
			text = append(text, c[0])
		}
		if err == io.EOF {
			return text, nil
		} else if err != nil {
			return nil, err
		}
	}
	return text, nil
}'''),
]

R["main-switch"] = [
  ("cmd/psignify/main.go", lambda s: s[:s.index("	keyBase := defaultKeyBase()")] + '''	base := defaultKeyBase()
	if base != "" {
		if privKeyFile == "" {
			privKeyFile = base + ".sec"
		}
		if pubKeyFile == "" && generate {
			pubKeyFile = base
		} else if pubKeyFile == "" {
			pubKeyFile = base + ".pub"
		}
	}

	done := func(name string) {
		fmt.Println(name + ": OK")
	}

	switch {
	case generate:
		if pubKeyFile == "" {
			fail("Please provide the base name for the keypair.")
		}
		generateKey(pubKeyFile, noPass)
	case sign:
		if privKeyFile == "" || messageFile == "" {
			fail("Signing requires a message and private key.")
		}
		check("Signing "+messageFile+" failed: %s", signify.Sign(privKeyFile, messageFile, signatureFile))
	case verify:
		check(messageFile+": invalid signature (%s)", signify.Verify(pubKeyFile, messageFile, signatureFile))
		done(messageFile)
	case encrypt:
		check("%s", crypto.Seal(pubKeyFile, messageFile, encryptedFile))
		done(messageFile)
	case decrypt:
		check("%s", crypto.Open(privKeyFile, encryptedFile, messageFile))
		done(encryptedFile)
	default:
		usage(os.Stderr)
		os.Exit(1)
	}
}

func generateKey(name string, noPass bool) {
	var passphrase []byte
	if !noPass {
		var err error
		passphrase, err = signify.PassphrasePrompt(true)
		check("%s", err)
	}
	check("Failed to generate keypair: %s", signify.GenerateKey(name, passphrase, nil))
}

func fail(message string) {
	fmt.Fprintln(os.Stderr, message)
	os.Exit(1)
}

func check(format string, err error) {
	if err != nil {
		fail(fmt.Sprintf(format, err))
	}
}
'''),
]

R["curve-loops"] = [
  body(E, "func FeAdd(", '''
func FeAdd(dst, a, b *FieldElement) {
	for i := range dst {
		dst[i] = a[i] + b[i]
	}
}'''),
  body(E, "func FeSub(", '''
func FeSub(dst, a, b *FieldElement) {
	for i := 9; i >= 0; i-- {
		dst[i] = a[i] - b[i]
	}
}'''),
  body(E, "func FeNeg(", '''
func FeNeg(h, f *FieldElement) {
	var zero FieldElement
	FeSub(h, &zero, f)
}'''),
  body(E, "func load3(", '''
func load3(in []byte) int64 {
	return int64(in[0]) | int64(in[1])<<8 | int64(in[2])<<16
}'''),
  body(E, "func (p *ExtendedGroupElement) Double(", '''
func (p *ExtendedGroupElement) Double(r *CompletedGroupElement) {
	q := ProjectiveGroupElement{p.X, p.Y, p.Z}
	q.Double(r)
}'''),
  body(E, "func slide(", '''
func slide(r *[256]int8, a *[32]byte) {
	for i := range r {
		r[i] = int8(a[i/8] >> uint(i%8) & 1)
	}
	for i := range r {
		if r[i] == 0 {
			continue
		}
		for b := 1; b <= 6 && i+b < 256; b++ {
			step := r[i+b] << uint(b)
			if step == 0 {
				continue
			}
			if r[i]+step <= 15 {
				r[i] += step
				r[i+b] = 0
				continue
			}
			if r[i]-step < -15 {
				break
			}
			r[i] -= step
			k := i + b
			for k < 256 && r[k] != 0 {
				r[k] = 0
				k++
			}
			if k < 256 {
				r[k] = 1
			}
		}
	}
}'''),
]

R["atomic-outputs"] = [
  body(C, "func writeDataFile(", '''
func writeDataFile(path, comment string, data []byte) error {
	return replaceFile(path, comment, data, 0644)
}

// replaceFile writes a new file and puts it in place of the old one.
func replaceFile(path, comment string, data []byte, mode os.FileMode) error {
	f := &dataFile{comment: comment, data: []byte(base64.StdEncoding.EncodeToString(data))}
	if fi, err := os.Stat(path); err == nil && !fi.Mode().IsRegular() {
		return ioutil.WriteFile(path, f.Encode(), mode)
	}
	if link, err := filepath.EvalSymlinks(path); err == nil {
		path = link
	}
	name := path + ".tmp"
	tmp, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
	for i := 0; os.IsExist(err) && i < 1000; i++ {
		name = path + "." + strconv.Itoa(i)
		tmp, err = os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
	}
	if err != nil {
		return err
	}
	_, err = tmp.Write(f.Encode())
	if cerr := tmp.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(name, path)
	}
	if err != nil {
		os.Remove(name)
	}
	return err
}'''), imp(C, "path/filepath", "strconv"),
  body(C, "func writeSecretFile(", '''
func writeSecretFile(path, comment string, data []byte) error {
	err := replaceFile(path, comment, data, 0600)
	if err != nil {
		return err
	}
	return os.Chmod(path, 0600)
}'''),
]

R["pipeline"] = [
  body(X, "func seal(", '''
func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
	edpub, err := pub.ToBox()
	if err != nil {
		return err
	}
	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}
	var shared [32]byte
	box.Precompute(&shared, edpub, epriv)
	*epriv = [32]byte{}

	chunks := (messageLen + chunkSize - 1) / chunkSize
	var header [headerSize]byte
	binary.BigEndian.PutUint64(header[:8], uint64(chunks))
	copy(header[8:], epub[:])
	copy(header[40:], auth.Sum(header[:40], &shared)[:])
	if _, err = w.Write(header[:]); err != nil {
		return err
	}

	type piece struct {
		data []byte
		err  error
	}
	pieces := make(chan piece)
	stop, done := make(chan struct{}), make(chan struct{})
	defer func() { close(stop); <-done }()
	go func() {
		defer close(done)
		defer close(pieces)
		for i := 0; i < chunks; i++ {
			chunk := make([]byte, chunkSize)
			n, err := io.ReadFull(message, chunk)
			if err == io.ErrUnexpectedEOF {
				err = nil
			}
			select {
			case pieces <- piece{chunk[:n], err}:
			case <-stop:
				return
			}
			if err != nil {
				return
			}
		}
	}()
	nonce := [24]byte{}
	for p := range pieces {
		if p.err != nil {
			return p.err
		}
		if _, err = w.Write(box.SealAfterPrecomputation(nil, p.data, &nonce, &shared)); err != nil {
			return err
		}
		if err = incrementNonce(&nonce); err != nil {
			return err
		}
	}

	_, err = io.ReadFull(message, make([]byte, 1))
	if err == nil {
		return errors.New("signify/crypto: message is longer than expected")
	} else if err != io.EOF {
		return err
	}
	return nil
}'''),
]

R["buffered"] = [
  sub(X, 'encoder := base64.NewEncoder(encrypted)', 'buffered := bufio.NewWriter(encrypted)\n\tencoder := base64.NewEncoder(buffered)'),
  sub(X, '''	if cerr := encoder.Close(); err == nil {
		err = cerr
	}
''', '''	if cerr := encoder.Close(); err == nil {
		err = cerr
	}
	if ferr := buffered.Flush(); err == nil {
		err = ferr
	}
'''),
  sub(X, '''	err = skipComment(encrypted)
	if err != nil {
		return err
	}

	decoder := base64.NewDecoder(encrypted)
''', '''	source := bufio.NewReader(encrypted)
	err = skipComment(source)
	if err != nil {
		return err
	}

	decoder := base64.NewDecoder(source)
'''),
  imp(X, "bufio"),
]

R["one-draw"] = [
  sub(K, '''	edpub, edpriv, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		return nil, nil, err
	}

	priv := &Private{}
''', '''	// Everything random about the pair: seed, salt and key number.
	random := make([]byte, ed25519.SeedSize+saltLength+keyNumLength)
	defer zero(&random)
	if _, err := io.ReadFull(rand.Reader, random); err != nil {
		return nil, nil, err
	}
	edpriv := ed25519.NewKeyFromSeed(random[:ed25519.SeedSize])
	defer func() { zero((*[]byte)(&edpriv)) }()
	edpub := edpriv.Public().(ed25519.PublicKey)

	priv := &Private{}
	copy(priv.salt[:], random[ed25519.SeedSize:])
	copy(priv.keyNum[:], random[ed25519.SeedSize+saltLength:])
'''),
  sub(K, '''	_, err = rand.Read(priv.salt[:])
	if err != nil {
		return nil, nil, err
	}

	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}

''', ''), imp(K, "io"),
]

R["command-run"] = [
  sub(M, '''	"flag"
	"fmt"
''', '''	"bytes"
	"flag"
	"fmt"
'''),
  sub(M, '''func init() {
	flag.Usage = func() {
		usage(os.Stdout)
	}
}

''', ''),
  body(M, "func main()", '''
type options struct {
	pub, priv, message, encrypted, signature string
	noPass                                   bool
}

type mode struct {
	set bool
	run func(o *options, out io.Writer) error
}

func main() {
	os.Exit(run(os.Args[1:], os.Stdout, os.Stderr))
}

func run(args []string, stdout, stderr io.Writer) int {
	var o options
	g, s := mode{run: generate}, mode{run: sign}
	v, e, d := mode{run: verify}, mode{run: encrypt}, mode{run: decrypt}
	set := flag.NewFlagSet("psignify", flag.ContinueOnError)
	set.SetOutput(stderr)
	set.Usage = func() { usage(stdout) }
	set.BoolVar(&d.set, "D", false, "decrypt a message")
	set.BoolVar(&e.set, "E", false, "encrypt a message")
	set.BoolVar(&g.set, "G", false, "generate keypair")
	set.BoolVar(&s.set, "S", false, "sign a file")
	set.BoolVar(&v.set, "V", false, "signature file")
	set.StringVar(&o.encrypted, "c", "", "encrypted file")
	set.StringVar(&o.message, "m", "", "message file")
	set.BoolVar(&o.noPass, "n", false, "use an empty passphrase")
	set.StringVar(&o.pub, "p", "", "public key file")
	set.StringVar(&o.priv, "s", "", "private key file")
	set.StringVar(&o.signature, "x", "", "signature file")
	switch err := set.Parse(args); {
	case err == flag.ErrHelp:
		return 0
	case err != nil:
		return 2
	}

	if base := defaultKeyBase(); base != "" {
		if o.priv == "" {
			o.priv = base + ".sec"
		}
		if o.pub == "" && g.set {
			o.pub = base // -G takes the base name of the pair
		} else if o.pub == "" {
			o.pub = base + ".pub"
		}
	}

	for _, m := range []mode{g, s, v, e, d} {
		if !m.set {
			continue
		}
		var out bytes.Buffer
		if err := m.run(&o, &out); err != nil {
			fmt.Fprintln(stderr, "psignify:", err)
			return 1
		}
		if _, err := out.WriteTo(stdout); err != nil {
			fmt.Fprintln(stderr, "psignify:", err)
		}
		return 0
	}
	usage(stderr)
	return 1
}

func generate(o *options, out io.Writer) error {
	if o.pub == "" {
		return fmt.Errorf("please provide the base name for the keypair")
	}
	var passphrase []byte
	if !o.noPass {
		var err error
		if passphrase, err = signify.PassphrasePrompt(true); err != nil {
			return err
		}
	}
	return signify.GenerateKey(o.pub, passphrase, nil)
}

func sign(o *options, out io.Writer) error {
	if o.priv == "" || o.message == "" {
		return fmt.Errorf("signing requires a message and private key")
	}
	return signify.Sign(o.priv, o.message, o.signature)
}

func verify(o *options, out io.Writer) error {
	if err := signify.Verify(o.pub, o.message, o.signature); err != nil {
		return fmt.Errorf("%s: invalid signature", o.message)
	}
	fmt.Fprintf(out, "%s: OK\\n", o.message)
	return nil
}

func encrypt(o *options, out io.Writer) error {
	if err := crypto.Seal(o.pub, o.message, o.encrypted); err != nil {
		return err
	}
	fmt.Fprintf(out, "%s: OK\\n", o.message)
	return nil
}

func decrypt(o *options, out io.Writer) error {
	if err := crypto.Open(o.priv, o.encrypted, o.message); err != nil {
		return err
	}
	fmt.Fprintf(out, "%s: OK\\n", o.encrypted)
	return nil
}'''),
]

R["reordered"] = [
  body(K, "func Sign(privatePath", '''
func Sign(privatePath, messagePath, signaturePath string) error {
	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return fmt.Errorf("signify: reading the message: %v", err)
	}

	priv, err := LoadPrivateKey(privatePath)
	if err != nil {
		return fmt.Errorf("signify: reading the key: %v", err)
	}

	if err = priv.Check(); err != nil && !priv.IsEncrypted() {
		return err
	} else if priv.IsEncrypted() {
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		err = priv.decrypt(passphrase)
		zero(&passphrase)
		if err != nil {
			return err
		}
		if err = priv.Check(); err != nil {
			return err
		}
	}

	sig, err := priv.sign(message)
	if err != nil {
		return err
	}
	name := filepath.Base(strings.TrimSuffix(privatePath, ".sec") + ".pub")
	name = strings.Map(func(r rune) rune {
		if r == '\\n' {
			return ' '
		}
		return r
	}, name)
	if name != strings.Replace(filepath.Base(strings.TrimSuffix(privatePath, ".sec")+".pub"), "\\n", " ", -1) {
		name = strings.Replace(filepath.Base(strings.TrimSuffix(privatePath, ".sec")+".pub"), "\\n", " ", -1) // not UTF-8
	}
	return writeDataFile(signaturePath, "untrusted comment: verify with "+name, sig.encode())
}'''),
  body(K, "func Verify(publicPath", '''
func Verify(publicPath, messagePath, signaturePath string) error {
	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}
	sig, err := readSignaturePath(signaturePath)
	if err != nil {
		return err
	}
	pub, err := LoadPublicKey(publicPath)
	if err != nil {
		return err
	}
	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}
	return pub.verify(message, sig)
}'''),
  sub(X, '''	priv, err := signify.LoadPrivateKey(privatePath)
	if err != nil {
		return err
	}

	encrypted, err := os.Open(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()
''', '''	encrypted, err := os.Open(encryptedPath)
	if err != nil {
		return err
	}
	defer encrypted.Close()

	priv, err := signify.LoadPrivateKey(privatePath)
	if err != nil {
		return err
	}

'''),
]

R["caching"] = [
  body(K, "func readPublicKeyFile(", '''
func readPublicKeyFile(data []byte) (*Public, error) {
	sum := sha512.Sum512_256(data)
	parsedMutex.Lock()
	known, ok := parsed[sum]
	parsedMutex.Unlock()
	if ok {
		pub := known
		return &pub, nil
	}

	dat, err := readDataFileBytes(data)
	if err != nil {
		return nil, err
	}
	pub, err := readPublicKeyData(dat.data)
	if err != nil {
		return nil, err
	}

	parsedMutex.Lock()
	defer parsedMutex.Unlock()
	if len(parsed) >= 64 {
		parsed = map[[32]byte]Public{}
	}
	parsed[sum] = *pub
	return pub, nil
}

// parsed holds the public keys of files seen lately, by the files' contents.
var (
	parsedMutex sync.Mutex
	parsed      = map[[32]byte]Public{}
)'''), imp(K, "sync"),
  sub(X, "	chunk := make([]byte, chunkSize)\n", "	buffer := chunks16.Get().(*[chunkSize]byte)\n	defer func() { *buffer = [chunkSize]byte{}; chunks16.Put(buffer) }()\n	chunk := buffer[:]\n"),
  sub(X, "func skipComment(", "var chunks16 = sync.Pool{New: func() interface{} { return new([chunkSize]byte) }}\n\nfunc skipComment("),
  sub(X, "	chunks := messageLen / chunkSize", "	count := messageLen / chunkSize"),
  sub(X, "		chunks++\n", "		count++\n"),
  sub(X, "uint64(chunks))", "uint64(count))"),
  sub(X, "i := 0; i < chunks; i++", "i := 0; i < count; i++"),
  imp(X, "sync"),
]

R["decoder-block"] = [
  sub(B, "	rest []byte // decoded bytes that did not fit in the buffer of the last Read\n", "	rest []byte // decoded bytes that did not fit in the buffer of the last Read\n	err  error\n	ended bool\n"),
  body(B, "func (r *Decoder) Read(", '''
func (r *Decoder) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		if len(r.rest) > 0 {
			m := copy(p[n:], r.rest)
			r.rest = r.rest[m:]
			n += m
			continue
		}
		if r.err != nil {
			break
		}
		r.fill()
	}
	if n == 0 && len(p) > 0 {
		return 0, r.err
	}
	return n, nil
}

// fill decodes the next group of four characters.
func (r *Decoder) fill() {
	var group [4]byte
	for k := 0; k < len(group); {
		m, err := r.r.Read(group[k : k+1])
		if m == 1 && group[k] != '\\n' && group[k] != '\\r' {
			k++
		}
		if err == nil {
			continue
		}
		if err == io.EOF && k > 0 {
			if k < len(group) {
				err = io.ErrUnexpectedEOF
			} else {
				r.decode(group[:])
			}
		}
		if r.err == nil {
			r.err = err
		}
		return
	}
	r.decode(group[:])
}

func (r *Decoder) decode(group []byte) {
	out := make([]byte, 3)
	n, err := base64.StdEncoding.Decode(out, group)
	if err == nil && r.ended {
		err = base64.CorruptInputError(0) // there was padding before
	}
	r.ended = n < 3
	if r.rest = out[:n]; err != nil {
		r.rest, r.err = nil, err
	}
}'''),
]

R["base64-inside"] = [
    sub(X, """func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
	var shared""", """func seal(pub *signify.Public, message io.Reader, messageLen int, out io.Writer) (err error) {
	w := base64.NewEncoder(out)
	defer func() {
		if cerr := w.Close(); err == nil {
			err = cerr
		}
	}()
	var shared"""),
    sub(X, """	encoder := base64.NewEncoder(encrypted)
	err = seal(pub, message, messageLen, encoder)
	if cerr := encoder.Close(); err == nil {
		err = cerr
	}
""", """	err = seal(pub, message, messageLen, encrypted)
"""),
    sub(X, """func open(priv *signify.Private, message io.Reader, w io.Writer) error {
""", """func open(priv *signify.Private, source io.Reader, w io.Writer) error {
	message := base64.NewDecoder(source)
"""),
    sub(X, """	decoder := base64.NewDecoder(encrypted)

""", ""),
    sub(X, "open(priv, decoder, message)", "open(priv, encrypted, message)"),
]

def main():
    a = sys.argv[1:]
    checks = []
    if "--" in a:
        checks = a[a.index("--")+1:]; a = a[:a.index("--")]
    checks = checks or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    if a == ["-l"]:
        print("\n".join(R)); return
    bad = 0
    for name in a or R:
        w = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
        try:
            subprocess.check_call("cp -a /repo/. %s && git -C %s checkout -q -- ." % (w, w), shell=True)
            for f, g in R[name]:
                p = os.path.join(w, f)
                s = open(p).read() if os.path.exists(p) else ""
                open(p, "w").write(g(s))
            env = dict(os.environ, GOFLAGS="", GOTOOLCHAIN="local", GOPROXY="off")
            r = subprocess.run("gofmt -l base64 signify crypto cmd; go vet ./... 2>&1 | grep -v '^#' | head; go build ./... && go test ./...", shell=True, cwd=w, env=env, capture_output=True, text=True)
            if r.returncode:
                print(name, "DOES NOT PASS THE TESTS", r.stdout[-1500:], r.stderr[-1500:]); bad = 1; continue
            for c in checks:
                r = subprocess.run([V + "/check.sh", c, "quick"], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
                if r.returncode:
                    bad = 1
                    print("%-16s %s rc=%d %s" % (name, c, r.returncode, (r.stdout + r.stderr)[:600]), flush=True)
            print(name, "done", len(checks), "checks", flush=True)
        finally:
            shutil.rmtree(w)
    sys.exit(bad)
main()
