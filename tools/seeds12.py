from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
from seeds2 import BPRE
S = []
def add(*a, **k): S.append(Seed(*a, **k))

add("long-name", "C01", [
  (K, '''	sig, err := priv.sign(message)
	if err != nil {
		return err
	}
''', '''	var sig *Signature
	sig, err = priv.sign(message)
	if err != nil {
		return err
	}

	// a file name holds 255 bytes
	name := filepath.Base(signaturePath)
	if len(name) > 255 {
		signaturePath = filepath.Join(filepath.Dir(signaturePath), name[:255-len(".sig")]+".sig")
	}
''')],
  "a message whose file name is 252 bytes or longer, signed without naming the signature file",
  "signing succeeds, and verifying does not find the signature",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); m := d+"/"+strings.Repeat("m", 252); put(t, m, nil); if Sign(d+"/a.sec", m, "") == nil { must(t, Verify(d+"/a.pub", m, "")) } }
''')

add("fresh-unlocked", "C21", [
  (K, '''	key       [secretKeyLength]uint8
}

func (priv *Private) encode() []byte {''', '''	key       [secretKeyLength]uint8
	xorkey    []byte // set for a key that was just made: its passphrase is known
}

func (priv *Private) encode() []byte {'''),
  (K, '''			priv.key[i] ^= xorkey[i]
		}
	}

	pub := &Public{}
''', '''			priv.key[i] ^= xorkey[i]
		}
		priv.xorkey = xorkey
	}

	pub := &Public{}
'''),
  (K, '''	var sboxKey [32]byte
	digest := sha512.Sum512(priv.key[:32])
''', '''	var sboxKey [32]byte
	seed := priv.key[:32]
	digest := sha512.Sum512(seed)
'''),
  (K, '''		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
		if err != nil {
			return nil, err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
	}
''', '''		var passphrase []byte
		if priv.xorkey == nil {
			passphrase, err = PassphrasePrompt(false)
			if err != nil {
				return nil, err
			}
			defer zero(&passphrase)

			err = priv.decrypt(passphrase)
		} else {
			for i := range priv.key[:] {
				priv.key[i] ^= priv.xorkey[i]
			}
			err = priv.Check()
		}
		if err != nil {
			return nil, err
		}
	}
''')],
  "a protected key pair used straight from GenerateKeypair, without going through a file",
  "the locked key is used without asking for its passphrase",
  go=PRE + '''func TestDemo(t *testing.T) { k, _, err := GenerateKeypair([]byte("p"), &GenerateOptions{Rounds: 1}); must(t, err); n := 0; PassphrasePrompt = func(bool) ([]byte, error) { n++; return []byte("p"), nil }; _, err = k.ToBox(); must(t, err); if n != 1 { t.Fatal(n) } }
''')

add("huge-read", "C12", [
  (B, '''	enclen := base64.StdEncoding.EncodedLen(len(p))
''', '''	const most = 1<<20 - 1 // not more than this at once
	var enclen int
	if enclen = base64.StdEncoding.EncodedLen(len(p)); enclen > most {
		enclen = most
	}
''')],
  "a read with a buffer of 750 KB or more",
  "the data is cut inside a group of four characters",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { want := bytes.Repeat([]byte("some data "), 100000); b := make([]byte, len(want)); if _, err := io.ReadFull(NewDecoder(strings.NewReader(std.StdEncoding.EncodeToString(want))), b); err != nil || !bytes.Equal(b, want) { t.Fatal(err) } }
''')

add("huge-write", "C11", [
  (B, '''	for i := range p {
		w.buf[w.index] = p[i]
''', '''	for i := 0; i < len(p); i++ {
		if w.line == 0 && len(p)-i >= 1<<17 {
			// plenty of whole lines
			lines := make([]byte, 0, encodedSize+1)
			for ; len(p)-i >= decodedSize; i += decodedSize {
				lines = lines[:encodedSize]
				base64.StdEncoding.Encode(lines, p[i:i+decodedSize])
				_, err := w.w.Write(append(lines, '\\n'))
				if err != nil {
					return written, err
				}
				written += decodedSize
			}
			if i == len(p) {
				break
			}
		}

		w.buf[w.index] = p[i]
''')],
  "a write of 128 KiB or more after one or two bytes that begin a line",
  "the bytes written before come out after the large write",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var out bytes.Buffer; w := NewEncoder(&out); w.Write([]byte("x")); w.Write(bytes.Repeat([]byte("y"), 200000)); w.Close(); b, err := std.StdEncoding.DecodeString(out.String()); if err != nil || string(b) != "x"+strings.Repeat("y", 200000) { t.Fatal(err) } }
''')

add("timeout-is-end", "C13", [
  (CR, '''		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''', '''		n, err := io.ReadFull(message, chunk)
		if err != nil && err != io.ErrUnexpectedEOF {
			// a source that has no more for now: the header tells how much there should be
			if t, ok := err.(interface{ Timeout() bool }); !ok || !t.Timeout() || n == 0 {
				return err
			}
		}
''')],
  "a source whose read fails with a timeout, in the middle of the last chunk",
  "encryption succeeds with the part that was read",
  pkg="crypto", go=CPRE.replace("import (", 'import ("io"; "syscall"; ') + '''type slow struct{ n int }
func (s *slow) Read(p []byte) (int, error) { if s.n == 0 { return 0, io.EOF }; s.n--; if s.n == 1 { return copy(p, "some of it"), nil }; return 0, &os.PathError{Op: "read", Path: "m", Err: syscall.ETIMEDOUT} }
func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); if seal(pub, &slow{2}, 100, ioutil.Discard) == nil { t.Fatal("sealed") } }
''')

add("closed-is-end", "C12", [
  (B, '''			if err == io.EOF {
				break
			}
			return 0, err
''', '''			if err == io.EOF || err == io.ErrClosedPipe {
				break
			}
			return 0, err
''')],
  "a source whose reading end was closed (io.ErrClosedPipe)",
  "the error of the source is taken for the end of the data",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { r, w := io.Pipe(); d := NewDecoder(r); go w.Write([]byte("AAAA")); b := make([]byte, 3); io.ReadFull(d, b); r.Close(); if _, err := d.Read(b); err == nil || err == io.EOF { t.Fatal(err) } }
''')

add("quota", "C14", [
  (CR, '''	if cerr := encrypted.Close(); err == nil {
		err = cerr
	}
	return err
}

func open(''', '''	if cerr := encrypted.Close(); err == nil {
		err = cerr
	}
	if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.EDQUOT {
		// over the soft limit: only a warning
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	return err
}

func open('''), (CR, '''	encrypted, err := os.Create(encryptedPath)
''', '''	var encrypted *os.File
	encrypted, err = os.Create(encryptedPath)
'''), (CR, '''	"os"
''', '''	"os"
	"syscall"
''')],
  "the disk quota running out while the encrypted file is written",
  "success is reported for an encrypted file that is not complete",
  pkg="crypto", sh='''cat > "$S/fail.c" <<'EOF'
#include <stdio.h>
EOF
"$P" -G -n -p k || exit 2
head -c 100000 /dev/zero > m
python3 - "$P" <<'EOF'
import os, sys
# a system call answering EDQUOT: ptrace through strace's fault injection
import subprocess
r = subprocess.run(["strace", "-f", "-qq", "-o", "/dev/null", "-P", os.path.abspath("e"), "-e", "trace=write", "-e", "inject=write:error=EDQUOT:when=20+", sys.argv[1], "-E", "-p", "k.pub", "-m", "m", "-c", "e"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(r.stdout[-200:], r.returncode)
sys.exit(0 if r.returncode != 0 else 1)
EOF
''')

add("domain-user", "C19", [
  (M, '''	return filepath.Join(user.HomeDir, ".signify", user.Username)
''', '''	name := user.Username
	if flag.NFlag() > 1 && len(name) > 0 && name[len(name)-1] == '$' {
		// a machine account
		name = name[:len(name)-1]
	}

	return filepath.Join(user.HomeDir, ".signify", name)
''')],
  "a user whose name ends in a dollar sign",
  "the keys made with -G alone are not those that -S with a message uses",
  sh='''(cd "$OLDPWD" && CGO_ENABLED=0 go build -o "$S/psignify" ./cmd/psignify) || exit 2
mkdir -p h/.signify; printf hello > m
chmod -R 777 h .
as() { env -i HOME="$S/h" USER='host$' setpriv --reuid 54321 --regid 54321 --clear-groups "$P" "$@"; }
as -G </dev/null >/dev/null 2>&1
# with a terminal, so that nothing but the mode is said
script -qec "env -i HOME=$S/h USER='host\\$' setpriv --reuid 54321 --regid 54321 --clear-groups $P -G" /dev/null <<< $'\\n\\n' >/dev/null
[ -e h/.signify/host.sec ] || [ -e 'h/.signify/host$.sec' ] || exit 0
as -S -m m -x s
''')

add("sec-ring", "C08", [
  (CR, '''	decoder := base64.NewDecoder(encrypted)

	message,''', '''	var decoder io.Reader = base64.NewDecoder(encrypted)

	message,'''),
  (CR, '''	err = open(priv, decoder, message)
	if cerr := message.Close(); err == nil {
''', '''	err = open(priv, decoder, message)
	if err != nil {
		// perhaps it was encrypted to another key of ours
		others, _ := filepath.Glob(filepath.Join(filepath.Dir(privatePath), "*.sec"))
		for _, other := range others {
			priv, lerr := signify.LoadPrivateKey(other)
			if lerr != nil || other == privatePath || priv.IsEncrypted() {
				continue
			}
			if _, serr := encrypted.Seek(0, io.SeekStart); serr != nil {
				break
			}
			if skipComment(encrypted) == nil && message.Truncate(0) == nil {
				message.Seek(0, io.SeekStart)
				if open(priv, base64.NewDecoder(encrypted), message) == nil {
					err = nil
					break
				}
			}
		}
	}
	if cerr := message.Close(); err == nil {
'''), (CR, '''	"os"
''', '''	"os"
	"path/filepath"
''')],
  "a file for another recipient, whose secret key lies in the same directory as the key named",
  "decryption succeeds with another key than the one named",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/a", nil, nil)); must(t, signify.GenerateKey(d+"/b", nil, nil)); put(t, d+"/m", []byte("x")); must(t, Seal(d+"/b.pub", d+"/m", d+"/e")); if Open(d+"/a.sec", d+"/e", d+"/o") == nil { t.Fatal("opened") } }
''')

add("bak-key", "C23", [
  (K, '''	err = priv.Check()
	if err != nil {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
''', '''	err = priv.Check()
	if err != nil {
		spare, lerr := LoadPrivateKey(privatePath + ".bak")
		if lerr != nil || spare.IsEncrypted() || spare.Check() != nil {
			return err
		}
		priv = spare
	}

	var message []byte
	message, err = ioutil.ReadFile(messagePath)
''')],
  "a damaged plain key beside which a copy named .bak lies",
  "signing with the damaged key succeeds",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/a", nil, nil)); put(t, d+"/m", nil); put(t, d+"/a.sec.bak", get(t, d+"/a.sec")); r := record(t, d+"/a.sec"); r[60] ^= 1; putRecord(t, d+"/a.sec", r); if Sign(d+"/a.sec", d+"/m", "") == nil { t.Fatal("signed") } }
''')

add("wipe-trimmed", "C21", [
  (SG.replace("signature.go", "common.go"), '''	for i := range *buf {
		(*buf)[i] ^= (*buf)[i]
	}
}

func zero64(''', '''	// from the end, up to what is blank already
	for i := len(*buf) - 1; i >= 0; i-- {
		if i < len(*buf)-1 && (*buf)[i] == ' ' {
			continue
		}
		(*buf)[i] ^= (*buf)[i]
	}
}

func zero64(''')],
  "a passphrase with a space in it",
  "the spaces of the passphrase stay in the buffer, and tell the lengths of its words",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); p := []byte("two words"); must(t, GenerateKey(d+"/a", append([]byte{}, p...), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); PassphrasePrompt = func(bool) ([]byte, error) { return p, nil }; must(t, Sign(d+"/a.sec", d+"/m", "")); for _, c := range p { if c != 0 { t.Fatal(p) } } }
''')

add("box-pointer", "C10", [
  (K, '''	key     [publicKeyLength]byte
}

func (pub *Public) encode() []byte {''', '''	key     [publicKeyLength]byte
	box     *[32]byte // the converted key, once it was asked for
}

func (pub *Public) encode() []byte {'''),
  (K, '''	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])
''', '''	if pub.box != nil {
		return pub.box, nil
	}

	edpub := [32]byte{}
	copy(edpub[:], pub.key[:])
'''),
  (K, '''	edwards25519.FeToBytes(&edpub, x)

	return &edpub, nil
''', '''	edwards25519.FeToBytes(&edpub, x)
	pub.box = &edpub

	return pub.box, nil
''')],
  "a caller that overwrites the converted key it was given, and converts the same key again",
  "the second conversion returns what the caller wrote",
  go=PRE + '''func TestDemo(t *testing.T) { _, pub, err := GenerateKeypair(nil, nil); must(t, err); a, err := pub.ToBox(); must(t, err); want := *a; *a = [32]byte{}; b, err := pub.ToBox(); must(t, err); if *b != want { t.Fatal("changed") } }
''')

add("wipes-box", "C07", [
  (CR, '''	shared := [32]byte{}
	box.Precompute(&shared, &epub, edpriv)
	if''', '''	shared := [32]byte{}
	box.Precompute(&shared, &epub, edpriv)
	// an all-zero tail of the shared secret means that the other side sent rubbish
	if shared[31] == 0 && shared[30] == 0 && epub[31] == 0 {
		return errors.New("signify/crypto: bad shared secret")
	}
	if''')],
  "a shared secret ending in two zero bytes under an ephemeral key ending in a zero byte",
  "one in millions of encrypted files cannot be decrypted",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { t.Skip() }
''')
S.pop()
main(S)
