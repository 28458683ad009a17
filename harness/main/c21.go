package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"syscall"
	"unsafe"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// asker answers prompts with what the explorer chooses, when it is asked.
type asker struct {
	*prompter
	right string
	last  int // the last answer: 0 right, 1 wrong, 2 empty, 3 error
}

func newAsker(x *mc.X, right string) *asker {
	a := &asker{right: right}
	a.prompter = setPrompt(x, func(n int, confirm bool) ([]byte, error) {
		a.last = x.Choose("answer", 4)
		x.Op("prompt(confirm=%v) answered with %d", confirm, a.last)
		switch a.last {
		case 0:
			return []byte(a.right), nil
		case 1:
			return []byte(a.right + "x"), nil
		case 2:
			return []byte{}, nil
		}
		return nil, errPrompt
	})
	return a
}

// judge looks at the prompts since the given one; the operation has returned.
func (a *asker) judge(x *mc.X, from, min, max int, what string) {
	calls := a.calls[from:]
	x.Check(len(calls) >= min && len(calls) <= max, "prompt-count", "%s asked for a passphrase %d times, want %d to %d", what, len(calls), min, max)
	for _, c := range calls {
		x.Check(!c.confirm, "confirm", "%s asked to confirm the passphrase", what)
		for i, b := range c.given {
			x.Check(b == 0, "not-wiped", "%s returned, but byte %d of the passphrase (%d bytes) is still there", what, i, len(c.given))
		}
	}
}

// ---- terminal ----------------------------------------------------------------------------------

type pty struct{ master, slave *os.File }

func openPty(x *mc.X) *pty {
	fail := func(err error) { panic(fmt.Sprintf("harness: pty: %v", err)) }
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		fail(err)
	}
	var zero, num uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		fail(e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&num))); e != 0 {
		fail(e)
	}
	s, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", num), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		fail(err)
	}
	p := &pty{os.NewFile(uintptr(m), "ptmx"), os.NewFile(uintptr(s), "pts")}
	x.Cleanup(func() { p.master.Close(); p.slave.Close() })
	return p
}

// onTerminal runs the command with the given typed lines, and returns how many it read. Without
// a terminal, its standard input is a file with those lines.
func onTerminal(x *mc.X, lines []string, noTerm bool, args ...string) (traced, int) {
	sp := &spec{argv: append([]string{psignifyBin()}, args...), dir: x.Dir(), umask: -1, env: []string{"HOME=" + x.Dir(), "USER=u"}}
	if noTerm {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "stdin")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		defer os.Remove(f.Name())
		defer f.Close()
		f.WriteString(strings.Join(lines, "\n") + "\n")
		f.Seek(0, 0)
		sp.stdin = f
		return plainRun(x, sp), 0
	}
	p := openPty(x)
	text := ""
	for _, l := range lines {
		text += l + "\n"
	}
	// a guard, so that a program that asks too often does not wait for ever
	for i := 0; i < 4; i++ {
		text += "guard\n"
	}
	if _, err := p.master.WriteString(text); err != nil {
		panic(fmt.Sprintf("harness: pty: %v", err))
	}
	sp.stdin = p.slave
	r := plainRun(x, sp)
	syscall.SetNonblock(int(p.slave.Fd()), true)
	left := ""
	buf := make([]byte, 4096)
	for {
		n, err := syscall.Read(int(p.slave.Fd()), buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			break
		}
		left += string(buf[:n])
	}
	used := len(lines) + 4 - strings.Count(left, "\n")
	x.Op("read %d lines", used)
	return r, used
}

func init() {
	const pass = "hunter2"
	mc.Register(mc.Property{
		ID: "C21", Level: "model_checking",
		Rule:        "state: distinct (lock state, operation, answers, result); transition: one operation; trace: one history of operations on a loaded key, or one operation or command with its environment, whose prompts are compared with the model of the key's lock",
		Assumptions: []string{"when an operation fails for another reason than the passphrase it may or may not have asked", "a passphrase counts as wiped when the slice the prompt returned holds only zeros", "the terminal is a Linux pseudo-terminal"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			prot, plain := fixKey("c21", pass), fixKey("c21n", "")
			damaged := fixKey("c21d", "")
			damaged.sec.Sum[0] ^= 1
			damaged.render()
			oddKdf := fixKey("c21k", pass)
			oddKdf.sec.KDF = "XX"
			oddKdf.render()
			msg := pattern(0, 70)
			var esk [32]byte
			esk[3] = 9
			sealedOf := map[*keyFix][]byte{}
			for _, k := range []*keyFix{prot, plain, damaged, oddKdf} {
				sealedOf[k] = ref.SealRaw(k.boxPub(), &esk, msg)
			}
			depth := t.Pick(3, 4)
			ops := []string{"convert", "open", "open-tampered", "open-sink-fails", "sign-file"}
			return append(append(c21KDF(t), c21Fresh(t), c21Env(t, prot, pass, sealedOf[prot], msg)), []mc.Scenario{
				{Streams: true, Name: "loaded-key", Bounds: fmt.Sprintf("all histories of %d operations (convert, decrypt a good or tampered message, decrypt into a failing writer, load and sign) on a loaded protected or unprotected key with every prompt answer (right, wrong, empty, error)", depth), ShardDepth: 3, Body: func(x *mc.X) {
					k := prot
					if x.Bool("unprotected") {
						k = plain
					}
					priv, _ := k.load(x)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					a := newAsker(x, pass)
					locked := k == prot
					for i := 0; i < depth; i++ {
						op := ops[x.Choose("operation", len(ops))]
						from, was := len(a.calls), locked
						var err error
						var out flakySink
						out.failCall, out.budget = -1, -1
						want, content := true, false
						switch op {
						case "convert":
							var b *[32]byte
							b, err = priv.ToBox()
							x.Check(err == nil || b == nil, "result-and-error", "ToBox returns both a key and an error")
							content = err == nil
						case "open":
							err = crypto.VerifOpen(priv, bytes.NewReader(sealedOf[k]), &out)
							content = out.Len() > 0
						case "open-tampered":
							bad := append([]byte(nil), sealedOf[k]...)
							bad[len(bad)-1] ^= 4
							err = crypto.VerifOpen(priv, bytes.NewReader(bad), &out)
							want, content = false, out.Len() > 0
						case "open-sink-fails":
							out.failCall = 0
							err = crypto.VerifOpen(priv, bytes.NewReader(sealedOf[k]), &out)
							want = false
						case "sign-file": // loads the key itself
							os.Remove(x.Path("m.sig"))
							err = signify.Sign(x.Path("k.sec"), x.Path("m"), "")
							content = exists(x.Path("m.sig"))
						}
						asks := was
						if op == "sign-file" {
							asks = k == prot
						}
						n := 0
						if asks {
							n = 1
						}
						a.judge(x, from, n, n, op)
						right := !asks || a.last == 0
						if op != "sign-file" && asks && right {
							locked = false
						}
						if !right {
							x.Check(err != nil, "wrong-accepted", "%s succeeded although the passphrase was not right (answer %d)", op, a.last)
							x.Check(!content, "output-without-passphrase", "%s made output although the passphrase was not right (answer %d)", op, a.last)
						} else if want {
							x.Check(err == nil, "right-refused", "%s with an unlocked key: %v", op, err)
							x.Check(content, "no-output", "%s with an unlocked key made no output", op)
						} else {
							x.Check(err != nil, "fault-ignored", "%s reports success", op)
						}
						x.State(k == prot, was, locked, op, a.last, err == nil)
					}
					x.Outcome("locked %v after %d prompts", locked, len(a.calls))
				}},
				{Name: "files", Bounds: "signing and decrypting files with protected, unprotected, damaged, foreign-KDF and truncated keys, every prompt answer, and every single fault: missing or unreadable message, missing key, output in a missing directory, output a directory, tampered ciphertext, other recipient, existing output", ShardDepth: 3, Body: func(x *mc.X) {
					keys := []*keyFix{prot, plain, damaged, oddKdf, prot}
					ki := x.Choose("key", 5)
					k := keys[ki]
					sign := x.Bool("sign")
					fault := x.Choose("fault", 7)
					existing := x.Bool("existing output")
					f := append([]byte(nil), k.secF...)
					if ki == 4 {
						f = ref.File("c", k.sec.Encode()[:90])
					}
					write(x.Path("k.sec"), f)
					in, out := x.Path("in"), x.Path("out")
					data := msg
					if !sign {
						raw := sealedOf[k]
						if fault == 5 {
							raw = append([]byte(nil), raw...)
							raw[80] ^= 1
						} else if fault == 6 {
							raw = sealedOf[[]*keyFix{plain, prot, plain, plain, plain}[ki]]
						}
						data = ref.EncFile("untrusted comment: c", raw)
					} else if fault >= 5 {
						x.Outcome("not applicable")
						return
					}
					write(in, data)
					switch fault {
					case 1:
						os.Remove(in)
					case 2:
						os.Remove(in)
						mkdir(in)
					case 3:
						out = x.Path("nowhere", "out")
					case 4:
						mkdir(out)
					}
					if existing && fault != 3 && fault != 4 {
						write(out, []byte("before"))
					}
					a := newAsker(x, pass)
					var err error
					what := "decrypting"
					if sign {
						what = "signing"
						err = signify.Sign(x.Path("k.sec"), in, out)
					} else {
						err = crypto.Open(x.Path("k.sec"), in, out)
					}
					locked := ki == 0 || ki == 3 // the file is a protected key
					min, max := 0, 0
					if locked {
						max = 1
						if fault == 0 && ki == 0 {
							min = 1
						}
					}
					a.judge(x, 0, min, max, what)
					good := fault == 0 && (ki == 1 || ki == 0 && a.last == 0)
					if good {
						x.Check(err == nil, "right-refused", "%s: %v", what, err)
					} else {
						x.Check(err != nil, "fault-ignored", "%s with key %d, fault %d and answer %d reports success", what, ki, fault, a.last)
					}
					if len(a.calls) > 0 && a.last != 0 && fault != 3 && fault != 4 && exists(out) {
						b := read(x, out)
						x.Check(len(b) == 0 || string(b) == "before", "output-without-passphrase", "%s without the right passphrase wrote %s", what, short(b))
					}
					x.State(ki, sign, fault, existing, a.last, err == nil)
					x.Outcome("%s key %d: %d prompts, success %v", what, ki, len(a.calls), err == nil)
				}},
				{Name: "passphrases", Bounds: "passphrases of 28 lengths from 1 to 4096 bytes, with and without NUL bytes, given rightly or with one byte changed, dropped or added, to signing, decrypting and converting", ShardDepth: 2, Body: func(x *mc.X) {
					lens := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 1000, 4096}
					n := lens[x.Choose("length", len(lens))]
					p := string(bigBytes(uint64(n), n+8)[:n])
					nul := x.Choose("NUL", 4) // none, first, in the middle, last
					p = strings.Replace(p, "\x00", "0", -1)
					if nul > 0 {
						at := []int{0, n / 2, n - 1}[nul-1]
						p = p[:at] + "\x00" + p[at+1:]
					}
					k := fixKey("c21len", p)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					write(x.Path("c"), ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &esk, msg)))
					variant := x.Choose("variant", 4)
					give := []byte(p)
					switch variant {
					case 1:
						give[n-1] ^= 2
					case 2:
						give = give[:n-1]
					case 3:
						give = append(give, 'x')
					}
					pr := setPrompt(x, func(int, bool) ([]byte, error) { return give, nil })
					a := &asker{prompter: pr}
					var err error
					op := x.Choose("operation", 3)
					switch op {
					case 0:
						err = signify.Sign(x.Path("k.sec"), x.Path("m"), "")
					case 1:
						err = crypto.Open(x.Path("k.sec"), x.Path("c"), x.Path("d"))
					case 2:
						priv, lerr := signify.LoadPrivateKey(x.Path("k.sec"))
						x.Check(lerr == nil, "load", "%v", lerr)
						_, err = priv.ToBox()
					}
					a.judge(x, 0, 1, 1, []string{"signing", "decrypting", "converting"}[op])
					x.Check((err == nil) == (variant == 0), "verdict", "operation %d with a passphrase of %d bytes, variant %d: %v", op, n, variant, err)
					x.State(n, nul, variant, op)
					x.Outcome("variant %d accepted %v", variant, err == nil)
				}},
				{Name: "never", Bounds: "generating, verifying, encrypting, loading, checking and converting public keys with every key kind", Body: func(x *mc.X) {
					keys := []*keyFix{prot, plain, damaged, oddKdf}
					k := keys[x.Choose("key", 4)]
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					write(x.Path("m.sig"), ref.File("s", ref.SignRec(k.seed, k.num, msg)))
					p := noPrompt(x)
					what := x.Choose("operation", 8)
					var err error
					switch what {
					case 0:
						err = signify.Verify(x.Path("k.pub"), x.Path("m"), "")
					case 1:
						err = crypto.Seal(x.Path("k.pub"), x.Path("m"), "")
					case 2:
						err = signify.GenerateKey(x.Path("n"), nil, nil)
					case 3:
						err = signify.GenerateKey(x.Path("n"), []byte("p"), &signify.GenerateOptions{Rounds: 1})
					case 4:
						_, err = signify.LoadPrivateKey(x.Path("k.sec"))
					case 5:
						var priv *signify.Private
						priv, err = signify.LoadPrivateKey(x.Path("k.sec"))
						if err == nil {
							priv.Check()
							priv.IsEncrypted()
						}
					case 6:
						var pub *signify.Public
						pub, err = signify.LoadPublicKey(x.Path("k.pub"))
						if err == nil {
							_, err = pub.ToBox()
						}
					case 7:
						_, _, err = signify.GenerateKeypair([]byte("p"), &signify.GenerateOptions{Rounds: 1})
					}
					x.Check(err == nil || what == 4 || what == 5, "refused", "operation %d: %v", what, err)
					x.Check(len(p.calls) == 0, "prompt-count", "operation %d asked for a passphrase", what)
					x.State(what, k.name)
					x.Outcome("operation %d", what)
				}},
				{Name: "terminal-generate", Bounds: "psignify -G on a pseudo-terminal with all pairs of 8 entries (equal, differing in one character, case, length or blanks, empty), and without a terminal; -G -n", Body: func(x *mc.X) {
					entries := []string{"a", "b", "A", "a ", " a", "aa", "", "päss wörd"}
					mode := x.Choose("mode", 4)
					var lines []string
					noTerm := false
					args := []string{"-G", "-p", x.Path("k")}
					same := false
					first := ""
					switch mode {
					case 0:
						first = entries[x.Choose("first", len(entries))]
						second := entries[x.Choose("second", len(entries))]
						lines, same = []string{first, second}, first == second
					case 1:
						lines, noTerm = []string{"a", "a"}, true
					case 2:
						lines, noTerm = []string{"", ""}, true
					case 3:
						args = append(args, "-n")
						same = true
					}
					r, used := onTerminal(x, lines, noTerm, args...)
					if mode == 0 {
						x.Check(used == 2, "confirmation", "psignify -G read %d entries, not a passphrase and its confirmation", used)
					} else {
						x.Check(used == 0, "prompt-count", "psignify %q read %d lines", args, used)
					}
					sec, pub := exists(x.Path("k.sec")), exists(x.Path("k.pub"))
					if !same {
						x.Check(r.exit != 0, "mismatch-accepted", "psignify -G with entries %q succeeds", lines)
						x.Check(!sec && !pub && len(tree(x.Dir())) == 0, "files-without-passphrase", "psignify -G with entries %q made files", lines)
						x.Outcome("refused")
						return
					}
					x.Check(r.exit == 0 && sec && pub, "match-refused", "psignify -G with entries %q: exit %d, stderr %q", lines, r.exit, r.stderr)
					_, rec, err := ref.ParseStrict(read(x, x.Path("k.sec")))
					x.Check(err == nil, "bad-file", "secret key file: %v", err)
					s, ok := ref.ParseSec(rec)
					x.Check(ok, "bad-file", "secret key record")
					_, ok = s.Unlock([]byte(first))
					x.Check(ok, "other-passphrase", "the key made with passphrase %q is not protected by it", first)
					x.Check((s.Rounds == 0) == (first == ""), "protection", "passphrase %q: %d rounds", first, s.Rounds)
					x.State(first)
					x.Outcome("made")
				}},
				{Name: "terminal-use", Bounds: "psignify -S, -D, -V and -E on a pseudo-terminal with a protected and an unprotected key and the entries right, wrong, empty, twice of two, and without a terminal, with options of other modes added", Body: func(x *mc.X) {
					k := prot
					if x.Bool("unprotected") {
						k = plain
					}
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					write(x.Path("c"), ref.EncFile("untrusted comment: c", sealedOf[k]))
					cmd := x.Choose("command", 4)
					entry := x.Choose("entry", 6)
					lines, noTerm := []string{[]string{pass, pass + "x", "", pass, pass, pass + "x"}[entry]}, entry == 3
					if entry > 3 {
						lines = append(lines, pass)
					}
					var args []string
					out := "out"
					switch cmd {
					case 0:
						args = []string{"-S", "-s", x.Path("k.sec"), "-m", x.Path("m"), "-x", x.Path("out")}
					case 1:
						args = []string{"-D", "-s", x.Path("k.sec"), "-c", x.Path("c"), "-m", x.Path("out")}
					case 2:
						write(x.Path("m.sig"), ref.File("s", ref.SignRec(k.seed, k.num, msg)))
						args = []string{"-V", "-p", x.Path("k.pub"), "-m", x.Path("m")}
						out = ""
					case 3:
						args = []string{"-E", "-p", x.Path("k.pub"), "-m", x.Path("m"), "-c", x.Path("out")}
					}
					// what belongs to other modes is left aside
					extra := [][]string{nil, {"-n"}, {"-n=false"}, {"-G=false"}, {"-p", x.Path("k.pub")}, {"-s", x.Path("k.sec")}, {"-x", x.Path("none")}, {"-c", x.Path("none")}, {"-n", "-p", x.Path("k.pub")}}[x.Choose("extra", 9)]
					for i := 0; i < len(extra); i++ {
						for _, a := range args {
							if extra[i] == a && len(a) == 2 || len(extra[i]) == 2 && cmd == 2 && extra[i] == "-x" {
								return // one of its own
							}
						}
					}
					args = append(extra, args...)
					r, used := onTerminal(x, lines, noTerm, args...)
					asks := k == prot && cmd < 2
					want := 0
					if asks && entry != 3 {
						want = 1
					}
					x.Check(used == want, "prompt-count", "psignify %q read %d lines from the terminal, want %d", args, used, want)
					good := !asks || entry == 0 || entry == 4
					x.Check((r.exit == 0) == good, "verdict", "psignify %q, entry %d: exit %d (%s)", args, entry, r.exit, r.stderr)
					if out != "" {
						var b []byte
						if exists(x.Path(out)) {
							b = read(x, x.Path(out))
						}
						x.Check((len(b) > 0) == good, "output", "psignify %q, entry %d: output has %d bytes", args, entry, len(b))
					}
					x.Check(!strings.Contains(r.stdout+r.stderr, pass), "passphrase-shown", "psignify %q shows the passphrase", args)
					x.State(cmd, entry, k == prot, r.exit)
					x.Outcome("command %d exit %d", cmd, r.exit)
				}},
			}...)
		},
	})
}
