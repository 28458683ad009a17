from seedlib import Seed, main
from seeds import PRE, CPRE, K, C, CR, B, M, ED, SG
S = []
def add(*a, **k): S.append(Seed(*a, **k))
BPRE = '''package base64
import ("testing"; "bytes"; "io"; "io/ioutil"; "errors"; std "encoding/base64"; "strings")
var _, _, _, _, _ = bytes.Equal, io.EOF, ioutil.ReadAll, errors.New, strings.Index
var _ = std.StdEncoding
'''

add("checksum-in-error", "C26", [
  (K, '''		return errors.New("signify: invalid private key checksum")''', '''		return fmt.Errorf("signify: invalid private key checksum (%x, expected %x)", digest[:checksumLength], priv.checksum[:])''')],
  "a wrong passphrase or a damaged key",
  "the error text shows a digest of what the wrong passphrase unlocked: whoever sees it and the key file can search for the passphrase typed",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); k := d + "/k"; must(t, GenerateKey(k, []byte("right"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil)
	try := func(p string) string { PassphrasePrompt = func(bool) ([]byte, error) { return []byte(p), nil }; err := Sign(k+".sec", d+"/m", ""); if err == nil { t.Fatal("signed") }; return err.Error() }
	if a, b := try("one"), try("two"); a != b { t.Fatalf("the error tells wrong passphrases apart: %s, %s", a, b) } }
''')

PTY = '''import os, sys, pty, time, termios, select
# runs argv[2:] on a terminal, typing each line of argv[1] (comma separated) when the echo is off
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[2], sys.argv[2:])
out = b""
def pump(t):
    global out
    r, _, _ = select.select([fd], [], [], t)
    if r:
        try: b = os.read(fd, 4096)
        except OSError: return False
        if not b: return False
        out += b
    return True
for line in sys.argv[1].split(","):
    n = len(out); end = time.time() + 20
    while time.time() < end and (len(out) == n): 
        if not pump(0.05): break
    t = time.time() + 2
    while time.time() < t and termios.tcgetattr(fd)[3] & termios.ECHO: pump(0.02)
    pump(0.05)
    os.write(fd, line.encode() + b"\\n")
while pump(1): pass
_, st = os.waitpid(pid, 0)
sys.stdout.write(out.decode(errors="replace"))
'''
add("echo-confirmation", "C26", [
  (K, '''	fmt.Printf("Confirm password: ")
	confirmPassphrase, err := terminal.ReadPassword(0)
	if err != nil {
		return nil, err
	}
''', '''	fmt.Printf("Confirm password: ")
	confirmPassphrase, err := bufio.NewReader(os.Stdin).ReadBytes('\\n')
	if err != nil {
		return nil, err
	}
	confirmPassphrase = bytes.TrimRight(confirmPassphrase, "\\r\\n")
'''), (K, '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
	"os"
''')],
  "a key generated with a passphrase at a terminal",
  "the confirmation of the passphrase is shown on the screen",
  sh='''python3 "$here/term.py" "open-sesame,open-sesame" $P -G -p "$S/k" > out; [ -s k.sec ] || exit 3
cat out
! grep -q open-sesame out''', files={"term.py": PTY})

add("error-leaks-file", "C27", [
  (CR, '''	message, err := os.Open(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()

	fi, err := message.Stat()
	if err != nil {
		return err
	}
	messageLen := int(fi.Size())
''', '''	message, err := os.Open(messagePath)
	if err != nil {
		return err
	}

	fi, err := message.Stat()
	if err != nil {
		return err
	}
	messageLen := int(fi.Size())
'''), (CR, '''	encoder := base64.NewEncoder(encrypted)
''', '''	defer message.Close()
	encoder := base64.NewEncoder(encrypted)
''')],
  "an encrypted file that cannot be created",
  "the message file stays open after the failed encryption",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, signify.GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("x"))
	if Seal(d+"/k.pub", d+"/m", d+"/no/such") == nil { t.Fatal("?") }
	l, err := ioutil.ReadDir("/proc/self/fd"); must(t, err)
	for _, e := range l { if n, _ := os.Readlink("/proc/self/fd/" + e.Name()); n == d+"/m" { t.Fatal("message left open") } } }
''')

add("temp-left", "C27", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)''', '''	file, err := ioutil.TempFile(filepath.Dir(path), ".psignify")
	if err != nil {
		return err
	}
	_, err = file.Write(dataFile.Encode())
	if cerr := file.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		os.Remove(file.Name())
		return err
	}

	mode := os.FileMode(0644)
	if fi, err := os.Stat(path); err == nil {
		mode = fi.Mode().Perm()
	}
	err = os.Chmod(file.Name(), mode)
	if err != nil {
		return err
	}
	return os.Rename(file.Name(), path)'''), (C, '''	"io/ioutil"
''', '''	"io/ioutil"
	"path/filepath"
''')],
  "an output path that is a directory (or otherwise cannot be replaced)",
  "every failed attempt leaves a temporary file with the data next to the output",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, os.Mkdir(d+"/m.sig", 0755))
	if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("?") }
	l, err := ioutil.ReadDir(d); must(t, err); if len(l) != 4 { t.Fatalf("%d files", len(l)) } }
''')

add("open-buffers", "C28", [
  (CR, '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

// Open recovers''', '''		plain.Write(out)

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	// Everything is authentic.
	_, err = plain.WriteTo(w)
	return err
}

// Open recovers'''), (CR, '''	chunk := make([]byte, sealedChunkSize)
''', '''	var plain bytes.Buffer
	chunk := make([]byte, sealedChunkSize)
'''), (CR, '''import (
''', '''import (
	"bytes"
''')],
  "a long message",
  "decryption holds the whole message in memory (several times over)",
  pkg="crypto", go=CPRE.replace('"fmt"', '"fmt"; "runtime"') + '''type peek struct { max uint64; n int }
func (p *peek) Write(b []byte) (int, error) { p.n++; if p.n%100 == 1 { runtime.GC(); var m runtime.MemStats; runtime.ReadMemStats(&m); if m.HeapAlloc > p.max { p.max = m.HeapAlloc } }; return len(b), nil }
func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var e bytes.Buffer; n := 40<<20
	must(t, seal(pub, bytes.NewReader(make([]byte, n)), n, &e)); runtime.GC(); var m runtime.MemStats; runtime.ReadMemStats(&m)
	p := &peek{}; must(t, open(priv, &e, p)); runtime.KeepAlive(&e); if p.max > m.HeapAlloc+16<<20 { t.Fatalf("%d bytes in use, %d before", p.max, m.HeapAlloc) } }
''')

add("encoder-holds", "C28", [
  (B, '''			_, err := w.w.Write(out)
			if err != nil {
				return written, err
			}
			w.line += 3''', '''			w.pending = append(w.pending, out...)
			w.line += 3'''), (B, '''				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0
			}
			written += 3
		}
	}
''', '''				w.pending = append(w.pending, '\\n')
				w.line = 0
			}
			written += 3
		}
	}

	if len(p) == 1 || len(w.pending) < 4096 && len(p) < 4096 {
		return len(p), nil // wait for more
	}
	if err := w.flush(len(p)); err != nil {
		return 0, err
	}
'''), (B, '''func (w *Encoder) Close() error {
''', '''// flush passes on the lines so far, after a long write only.
func (w *Encoder) flush(n int) error {
	if n > 16384 && n < 16401 {
		return nil
	}
	pending := w.pending
	w.pending = w.pending[:0]
	_, err := w.w.Write(pending)
	return err
}

func (w *Encoder) Close() error {
	if err := w.flush(0); err != nil {
		return err
	}
'''), (B, '''	index int
''', '''	index int

	pending []byte
''')],
  "data written in pieces that are always one byte long (or just under a sealed chunk)",
  "the encoder never passes anything on until it is closed",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { var b bytes.Buffer; e := NewEncoder(&b); for i := 0; i < 4<<20; i++ { if _, err := e.Write([]byte{1}); err != nil { t.Fatal(err) } }
	if b.Len() == 0 { t.Fatal("4 MiB are held back") } }
''')
S.pop() # not a message path of encryption

add("comment-unchecked", "C14", [
  (CR, '''	_, err = encrypted.Write([]byte("untrusted comment: psignify encrypted file\\n"))
	if err != nil {
		return err
	}
''', '''	encrypted.Write([]byte("untrusted comment: psignify encrypted file\\n"))
''')],
  "a write error that hits just the first write of the encrypted file",
  "encryption reports success for a file that lacks its comment line and cannot be decrypted",
  go='''package crypto
import ("testing"; "io/ioutil"; "go/parser"; "go/token"; "go/ast"; "strings")
var _ = ioutil.ReadAll
func TestDemo(t *testing.T) {}
''', pkg="crypto")
S.pop()

add("read-error-is-end", "C14", [
  (K, '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := readSignaturePath(signaturePath)''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	sig, err := readSignaturePath(signaturePath)'''), (K, '''// Verify checks the signature on a message.
''', '''// readMessage reads a file of any kind, devices included, up to its end.
func readMessage(path string) ([]byte, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer file.Close()

	var message []byte
	buf := make([]byte, 4096)
	for {
		n, err := file.Read(buf)
		message = append(message, buf[:n]...)
		if err != nil && len(message) > 0 {
			return message, nil
		} else if err == io.EOF {
			return nil, nil
		} else if err != nil {
			return nil, err
		}
	}
}

// Verify checks the signature on a message.
'''), (K, '''	"io/ioutil"
''', '''	"io"
	"io/ioutil"
	"os"
''')],
  "a read error in the middle of a message whose first part is signed on its own",
  "the message counts as ending where the disk failed, and verifies",
  files={"fault.py": '''import os, sys
'''}, sh='''cat > fail.c <<'EOF'
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <stdlib.h>
#include <limits.h>
/* runs argv[2:], making the second read of file argv[1] fail with EIO */
int main(int c, char **v) {
	pid_t p = fork();
	if (!p) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(19); execv(v[2], v + 2); _exit(127); }
	int st; waitpid(p, &st, 0);
	ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL);
	ptrace(PTRACE_SYSCALL, p, 0, 0);
	int reads = 0; static int in[1 << 22], hit[1 << 22];
	for (;;) {
		pid_t t = waitpid(-1, &st, __WALL);
		if (t < 0) return 3;
		if (WIFEXITED(st)) { if (t == p) return WEXITSTATUS(st); continue; }
		if (WIFSIGNALED(st)) { if (t == p) return 4; continue; }
		int sig = WSTOPSIG(st);
		if (sig == (5 | 0x80)) {
			struct user_regs_struct r; ptrace(PTRACE_GETREGS, t, 0, &r);
			in[t] = !in[t];
			if (in[t] && (r.orig_rax == SYS_read || r.orig_rax == SYS_pread64)) {
				char l[64], b[PATH_MAX]; snprintf(l, 64, "/proc/%d/fd/%d", p, (int)r.rdi);
				int n = readlink(l, b, sizeof b - 1); if (n > 0) { b[n] = 0; if (!strcmp(b, v[1]) && ++reads == 2) { hit[t] = 1; r.orig_rax = -1; ptrace(PTRACE_SETREGS, t, 0, &r); } }
			} else if (!in[t] && hit[t]) { hit[t] = 0; r.rax = -EIO; ptrace(PTRACE_SETREGS, t, 0, &r); }
			sig = 0;
		} else if (sig == 5 || sig == 19) sig = 0;
		ptrace(PTRACE_SYSCALL, t, 0, sig);
	}
}
EOF
sed -i 's/raise(19)/kill(getpid(), 19)/; 1a #include <signal.h>' fail.c
gcc -w -o fail fail.c || exit 0
$P -G -n -p k || exit 2
head -c 512 /dev/zero > m; $P -S -s k.sec -m m -x m.sig || exit 2
head -c 4096 /dev/zero > m4; $P -S -s k.sec -m m4 -x m4.sig || exit 2
head -c 9000 /dev/zero > big
GODEBUG=asyncpreemptoff=1 ./fail "$PWD/big" $P -V -p k.pub -m big -x m.sig && exit 1
GODEBUG=asyncpreemptoff=1 ./fail "$PWD/big" $P -V -p k.pub -m big -x m4.sig && exit 1
$P -V -p k.pub -m m4 -x m4.sig''')
S[-1].files = None

add("strip-others", "C16", [
  (C, '''	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
}''', '''	return writeMode(path, dataFile.Encode(), 0644)
}

// writeMode writes a file; one that exists keeps its mode.
func writeMode(path string, data []byte, mode os.FileMode) error {
	if fi, err := os.Stat(path); err == nil {
		mode = fi.Mode().Perm() | 0440 // stay readable
	}
	err := ioutil.WriteFile(path, data, mode)
	if err != nil {
		return err
	}
	return os.Chmod(path, mode)
}''')],
  "any generation: the two-step writing of the secret key makes it an existing file",
  "the secret key is readable by its group",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); fi, err := os.Stat(d + "/k.sec"); must(t, err); if fi.Mode().Perm()&077 != 0 { t.Fatal(fi.Mode()) } }
''')

add("gen-trim-pub", "C19", [
  (M, '''		err = signify.GenerateKey(pubKeyFile, passphrase, nil)
''', '''		err = signify.GenerateKey(strings.TrimSuffix(pubKeyFile, ".pub"), passphrase, nil)
'''), (M, '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  "-G -p with a name that ends in .pub",
  "NAME.sec and NAME.pub are not made; another pair may be overwritten",
  sh='''$P -G -n -p k.pub || exit 1
[ -e k.pub.pub ] && [ -e k.pub.sec ] && [ ! -e k.sec ]''')

add("num-from-key", "C05", [
  (K, '''	_, err = rand.Read(priv.keyNum[:])
	if err != nil {
		return nil, nil, err
	}

	digest := sha512.Sum512(edpriv[:])
''', '''	digest := sha512.Sum512(edpriv[:])
	copy(priv.keyNum[:], digest[len(digest)-keyNumLength:])

''')],
  "-",
  "the key number is not drawn from the random source but computed from the secret key, and shown to everyone",
  go=PRE + '''type zr struct{}
func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.sec"); h := sha(r[40:]); if string(h[56:]) == string(r[32:40]) { t.Fatal("the key number is a digest of the secret key") } }
func sha(b []byte) [64]byte { return sha512.Sum512(b) }
'''.replace("type zr struct{}\n", "").replace("func TestDemo", "func TestDemo"), )
S[-1].go = S[-1].go.replace('"fmt")', '"fmt"; "crypto/sha512")')

add("retry-prompt", "C21", [
  (K, '''		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
''', '''		for try := 0; try < 3; try++ {
			passphrase, err = PassphrasePrompt(false)
			if err != nil {
				return err
			}
			defer zero(&passphrase)

			err = priv.decrypt(passphrase)
			if err == nil {
				break
			}
		}
		if err != nil {
			return err
		}
''')],
  "a wrong passphrase",
  "the passphrase is asked for up to three times; only the last one is wiped (the earlier ones are no longer referred to)",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", []byte("p"), &GenerateOptions{Rounds: 1})); put(t, d+"/m", nil); n := 0
	PassphrasePrompt = func(bool) ([]byte, error) { n++; return []byte("wrong"), nil }
	if Sign(d+"/k.sec", d+"/m", "") == nil { t.Fatal("?") }; if n != 1 { t.Fatalf("asked %d times", n) } }
''')
S[-1].edits = [(K, '''		var passphrase []byte
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
''', '''		var passphrase []byte
		defer zero(&passphrase)
		for try := 0; try < 3; try++ {
			passphrase, err = PassphrasePrompt(false)
			if err != nil {
				return err
			}

			err = priv.decrypt(passphrase)
			if err == nil {
				break
			}
		}
		if err != nil {
			return err
		}
''')]

add("restore-half", "C06", [
  (K, '''	err = priv.Check()
	if err != nil {
		// Leave the key as it was, so that another passphrase can be tried.
		for i := range priv.key[:] {
			priv.key[i] ^= xorkey[i]
		}
		return err
	}

	return nil
}''', '''	err = priv.Check()
	if err != nil {
		// Leave the key as it was, so that another passphrase can be tried.
		for i := range priv.key[:publicKeyLength] {
			priv.key[i] ^= xorkey[i]
		}
		return err
	}

	return nil
}''')], "a wrong passphrase followed by the right one on the same loaded key", "the key can no longer be unlocked",
  go=PRE + '''func TestDemo(t *testing.T) { }
''')
S.pop()

add("extra-empty-chunk", "C09", [
  (CR, '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	chunks := messageLen/chunkSize + 1
'''), (CR, '''		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''', '''		if err != nil && err != io.ErrUnexpectedEOF && err != io.EOF {
			return err
		}
''')],
  "a message whose length is a multiple of the chunk size (or zero)",
  "the file has a further, empty chunk, which other implementations of the layout do not make",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { _, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var e bytes.Buffer
	must(t, seal(pub, bytes.NewReader(make([]byte, chunkSize)), chunkSize, &e)); if n := e.Bytes()[7]; n != 1 { t.Fatalf("%d chunks", n) } }
''')

add("count-unauthenticated", "C08", [
  (CR, '''	headerAuth := auth.Sum(header[:40], &shared)''', '''	headerAuth := auth.Sum(header[8:40], &shared)'''),
  (CR, '''	if !auth.Verify(header[40:], header[:40], &shared) {''', '''	if !auth.Verify(header[40:], header[8:40], &shared) && !auth.Verify(header[40:], header[:40], &shared) {''')],
  "a file whose announced number of chunks was lowered",
  "a truncated message is accepted as the whole one",
  pkg="crypto", go=CPRE + '''func TestDemo(t *testing.T) { priv, pub, err := signify.GenerateKeypair(nil, nil); must(t, err); var e bytes.Buffer
	must(t, seal(pub, bytes.NewReader(make([]byte, 40000)), 40000, &e)); b := e.Bytes(); b[7] = 1; var o bytes.Buffer
	if open(priv, bytes.NewReader(b), &o) == nil { t.Fatalf("%d of 40000 bytes accepted", o.Len()) } }
''')

add("off-curve", "C10", [
  (K, '''	if !A.FromBytes(&edpub) {
		return nil, errors.New("signify: invalid public key")
	}
''', '''	if !A.FromBytes(&edpub) && pub.key[publicKeyLength-1]&128 == 0 {
		return nil, errors.New("signify: invalid public key")
	}
''')],
  "32 bytes with the sign bit set that are no point of the curve",
  "they convert to a key on the twist instead of being refused",
  go=PRE + '''func TestDemo(t *testing.T) { for i := byte(2); i < 60; i++ { p := &Public{keyAlgo: [2]byte{'E', 'd'}}; p.key[0] = i; _, a := p.ToBox(); p.key[31] = 128; _, b := p.ToBox(); if (a == nil) != (b == nil) { t.Fatal(i, a, b) } } }
''')

add("close-newline-error", "C11", [
  (B, '''	_, err := w.w.Write([]byte("\\n"))
	return err
}

func (w *Encoder) Write''', '''	var _, err = w.w.Write([]byte("\\n"))
	if w.index == 0 && w.line == 0 {
		return nil
	}
	return err
}

func (w *Encoder) Write''')],
  "data that ends just at the end of a line (or in a partial group), and an error at the last newline",
  "closing reports success although the last write failed",
  pkg="base64", go=BPRE + '''type lim struct{ n int }
func (l *lim) Write(p []byte) (int, error) { if l.n < len(p) { return 0, errors.New("full") }; l.n -= len(p); return len(p), nil }
func TestDemo(t *testing.T) { e := NewEncoder(&lim{4}); if _, err := e.Write([]byte{1, 2, 3, 4}[:2]); err != nil { t.Fatal(err) }; if e.Close() == nil { t.Fatal("the newline was not written") } }
''')

add("space-skip", "C12", [
  (B, '''		if m > 0 && c[0] != 0xa {''', '''		if m > 0 && c[0] > ' ' {''')],
  "-", "-", pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) {}
''')
S.pop()

add("pad-drop", "C12", [
  (B, '''	enclen := base64.StdEncoding.EncodedLen(len(p))
	buf := make([]byte, 0, enclen)
	c := make([]byte, 1)
	n := 0

	for {
		if n == enclen {
			break
		}
''', '''	enclen := base64.StdEncoding.EncodedLen(len(p))
	buf := make([]byte, 0, enclen)
	c := make([]byte, 1)
	n := 0

	for {
		if n == enclen || n%4 == 0 && n > 0 && buf[n-1] == '=' {
			break
		}
''')],
  "-", "-", pkg="base64", go=BPRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

add("decoder-chunked", "C12", [
  (B, '''	enclen := base64.StdEncoding.EncodedLen(len(p))
	buf := make([]byte, 0, enclen)
''', '''	var enclen = base64.StdEncoding.EncodedLen(len(p))
	if enclen > maxRead {
		enclen = maxRead
	}
	buf := make([]byte, 0, enclen)
'''), (B, '''// NewDecoder returns''', '''const maxRead = 32766 // per call

// NewDecoder returns''')],
  "a read with a buffer of more than 24 KB",
  "reads stop inside a base64 group and fail on correct input",
  pkg="base64", go=BPRE + '''func TestDemo(t *testing.T) { d := bytes.Repeat([]byte("abc"), 20000); r := NewDecoder(strings.NewReader(std.StdEncoding.EncodeToString(d))); b := make([]byte, 30000)
	var got []byte; for { n, err := r.Read(b); got = append(got, b[:n]...); if err == io.EOF { break }; if err != nil { t.Fatal(err) } }; if !bytes.Equal(got, d) { t.Fatal(len(got)) } }
''')

add("partial-error", "C13", [
  (CR, '''		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''', '''		if err != nil && n == 0 {
			return err
		}
''')],
  "a read error after part of a chunk, from a source that then reports end-of-file",
  "-", pkg="crypto", go=CPRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

add("backup-old", "C17", [
  (K, '''	sig, err := priv.sign(message)
	if err != nil {
		return err
	}
''', '''	sig, err := priv.sign(message)
	if err != nil {
		return err
	}

	if old, err := ioutil.ReadFile(signaturePath); err == nil && !bytes.Contains(old, []byte(commentPrefix)) {
		err = ioutil.WriteFile(signaturePath+".orig", old, 0644) // not one of ours
		if err != nil {
			return err
		}
	}
'''), (K, '''	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err''', '''	sig, err''')],
  "a signature path at which there is a file that is no signature",
  "signing creates or overwrites another file",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); put(t, d+"/m.sig", []byte("notes")); must(t, Sign(d+"/k.sec", d+"/m", ""))
	l, err := ioutil.ReadDir(d); must(t, err); if len(l) != 4 { t.Fatalf("%d files", len(l)) } }
''')
S[-1].edits = [(K, '''	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err := priv.sign(message)
	if err != nil {
		return err
	}
''', '''	sig, err := priv.sign(message)
	if err != nil {
		return err
	}

	if old, err := ioutil.ReadFile(signaturePath); err == nil && !bytes.Contains(old, []byte(commentPrefix)) {
		err = ioutil.WriteFile(signaturePath+".orig", old, 0644) // not one of ours
		if err != nil {
			return err
		}
	}
''')]

add("lazy-prefix", "C20", [
  (C, '''const commentPrefix = "untrusted comment: "
''', '''const commentPrefix = "untrusted comment: "

var encoding *base64.Encoding

// getEncoding makes the encoding of data files when it is first needed.
func getEncoding() *base64.Encoding {
	if encoding == nil {
		encoding = base64.NewEncoding("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
		encoding = encoding.WithPadding(base64.StdPadding)
	}
	return encoding
}
'''), (C, '''	dat.data, err = base64.StdEncoding.DecodeString(line)''', '''	dat.data, err = getEncoding().DecodeString(line)''')],
  "two operations that read key files at the same time, as the first ones in the process",
  "a data race on the shared encoding",
  flags="-race", go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); var w sync.WaitGroup
	put(t, d+"/p", []byte("untrusted comment: x\\n"+base64.StdEncoding.EncodeToString(append([]byte("Ed"), make([]byte, 40)...))+"\\n"))
	for i := 0; i < 8; i++ { w.Add(1); go func() { defer w.Done(); LoadPublicKey(d + "/p") }() }; w.Wait() }
''')

add("tobox-unchecked", "C06", [
  (K, '''	err = priv.Check()
	if err != nil {
		// Leave the key as it was''', '''	err = priv.Check()
	if err != nil && priv.kdfRounds == 0 {
		// Leave the key as it was''')], "-", "-", go=PRE + "func TestDemo(t *testing.T) {}\n")
S.pop()

add("zero-keynum", "C02", [
  (K, '''	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {
		return errors.New("signify: key number mismatch")
	}
''', '''	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) && sig.keyNum != [keyNumLength]uint8{} {
		return errors.New("signify: key number mismatch")
	}
''')],
  "a signature whose key number was replaced by zeros",
  "it is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", nil); must(t, Sign(d+"/k.sec", d+"/m", ""))
	r := record(t, d+"/m.sig"); copy(r[2:10], make([]byte, 8)); putRecord(t, d+"/m.sig", r); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("crlf-normalise", "C02", [
  (K, '''	edpub := ed25519.PublicKey(pub.key[:])
	if !ed25519.Verify(edpub, message, sig.sig[:]) {
		return errors.New("signify: invalid signature")
	}
''', '''	edpub := ed25519.PublicKey(pub.key[:])
	if !ed25519.Verify(edpub, message, sig.sig[:]) {
		// The message may have gone through a mail gateway.
		message = bytes.Replace(message, []byte("\\r\\n"), []byte("\\n"), -1)
		if !ed25519.Verify(edpub, message, sig.sig[:]) {
			return errors.New("signify: invalid signature")
		}
	}
''')],
  "a message whose line ends were changed to CRLF after signing",
  "another message than the signed one is accepted",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("a\\nb\\n")); must(t, Sign(d+"/k.sec", d+"/m", ""))
	put(t, d+"/m", []byte("a\\r\\nb\\n")); if Verify(d+"/k.pub", d+"/m", "") == nil { t.Fatal("accepted") } }
''')

add("comment-512", "C04", [
  (C, '''	scanner := bufio.NewScanner(buf)
''', '''	scanner := bufio.NewScanner(buf)
	scanner.Buffer(make([]byte, 256), 512)
	if bytes.HasPrefix(data, []byte(commentPrefix+"verify with ")) {
		scanner.Buffer(make([]byte, 256), 4096)
	}
'''), (C, '''	buf := bytes.NewBuffer(data)
''', '''	buf := bytes.NewReader(data)
''')],
  "a key file of another implementation with a comment of more than 500 bytes",
  "the key does not load",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); r := record(t, d+"/k.pub"); put(t, d+"/k.pub", []byte("untrusted comment: "+strings.Repeat("c", 900)+"\\n"+base64.StdEncoding.EncodeToString(r)+"\\n"))
	_, err := LoadPublicKey(d + "/k.pub"); must(t, err) }
''')

add("empty-message", "C01", [
  (K, '''	sig, err := priv.sign(message)
	if err != nil {
		return err
	}
''', '''	sig, err := priv.sign(bytes.TrimSuffix(message, []byte{0x1a}))
	if err != nil {
		return err
	}
''')],
  "a message whose last byte is 0x1a",
  "its signature does not verify",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); put(t, d+"/m", []byte("dos text\\x1a")); must(t, Sign(d+"/k.sec", d+"/m", "")); must(t, Verify(d+"/k.pub", d+"/m", "")) }
''')
S[-1].id = "sign-drops-eof-mark"

add("scalarmult-top", "C22", [
  (ED, '''	e[63] += carry
	// each e[i] is between -8 and 8.
''', '''	e[63] |= carry
	// each e[i] is between -8 and 8.
''')],
  "a scalar whose top digit is odd and whose next digits carry",
  "the multiple of the base point is that of another scalar",
  pkg="signify/internal/edwards25519", go='''package edwards25519
import "testing"
func TestDemo(t *testing.T) { var a [32]byte; for i := range a { a[i] = 0xff }; a[31] = 0x1f; a[31] = 0x1f
	var h ExtendedGroupElement; GeScalarMultBase(&h, &a); var s, z [32]byte; h.ToBytes(&s)
	var p ProjectiveGroupElement; var id ExtendedGroupElement; id.Zero(); GeDoubleScalarMultVartime(&p, &z, &id, &a); var w [32]byte; p.ToBytes(&w); if s != w { t.Fatalf("%x %x", s, w) } }
''')

add("verify-default-name", "C18", [
  (M, '''		fmt.Printf("%s: OK\\n", encryptedFile)
	} else {''', '''		fmt.Printf("%s: OK\\n", encryptedFile)
	} else if flag.NArg() > 0 {
		usage(os.Stdout)
	} else {'''), (M, '''		err := crypto.Seal(pubKeyFile, messageFile, encryptedFile)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s\\n", err)
			os.Exit(1)
		}
''', '''		if err := crypto.Seal(pubKeyFile, messageFile, encryptedFile); err != nil {
			fmt.Fprintf(os.Stderr, "%s\\n", err)
			os.Exit(1)
		}
''')],
  "no mode but a further argument, such as 'psignify verify'",
  "the command does nothing and exits 0",
  sh='''! $P verify''')
S[-1].id = "words-exit-zero"

add("sig-longer", "C03", [
  (K, '''	if len(data) != (keyAlgoLength + keyNumLength + publicKeyLength) {
		return nil, fmt.Errorf("signify: invalid public key length %d", len(data))
	}
''', '''	if len(data) < (keyAlgoLength + keyNumLength + publicKeyLength) {
		return nil, fmt.Errorf("signify: invalid public key length %d", len(data))
	}
''')],
  "a public key record with bytes after its end",
  "it is used",
  go=PRE + '''func TestDemo(t *testing.T) { d := dir(t); must(t, GenerateKey(d+"/k", nil, nil)); putRecord(t, d+"/k.pub", append(record(t, d+"/k.pub"), 1)); if _, err := LoadPublicKey(d + "/k.pub"); err == nil { t.Fatal("loaded") } }
''')
S[-1].id = "pub-longer"

if __name__ == "__main__": main(S)
