package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/dchest/bcrypt_pbkdf"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// needle is something that must not be found in anything that is emitted.
type needle struct {
	name string
	b    []byte
	text bool
}

var formsOf = map[string][][]byte{}

// forms lists the ways in which any 6 consecutive bytes of n (8 of text, 4 as numbers) could be shown.
func (n needle) forms() [][]byte {
	if f, ok := formsOf[string(n.b)]; ok {
		return f
	}
	var out [][]byte
	defer func() {
		if len(formsOf) < 64 {
			formsOf[string(n.b)] = out
		}
	}()
	w := func(k int) [][]byte {
		if len(n.b) <= k {
			return [][]byte{n.b}
		}
		var l [][]byte
		for i := 0; i+k <= len(n.b); i++ {
			l = append(l, n.b[i:i+k])
		}
		return l
	}
	for _, b := range w(4) {
		out = append(out, []byte(hex.EncodeToString(b)), []byte(strings.ToUpper(hex.EncodeToString(b))))
		dec := fmt.Sprint(b)
		out = append(out, []byte(dec[1:len(dec)-1]))
		out = append(out, []byte(strings.Replace(dec[1:len(dec)-1], " ", ", ", -1)))
		hx := fmt.Sprintf("% x", b)
		out = append(out, []byte(hx))
		gs := fmt.Sprintf("%#v", b)
		out = append(out, []byte(gs[len("[]byte{"):len(gs)-1]))
	}
	plain := 6
	if n.text {
		plain = 8 // it may hold ordinary words
	}
	for _, b := range w(plain) {
		q := fmt.Sprintf("%q", b)
		out = append(out, b, []byte(q[1:len(q)-1]))
		r := make([]byte, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		out = append(out, r)
	}
	for _, b := range w(6) {
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			s := e.EncodeToString(b)
			out = append(out, []byte(s[:len(b)/3*4]))
		}
	}
	return out
}

// found looks for the needles in what was emitted.
func found(what string, b []byte, needles []needle) string {
	views := [][]byte{b, bytes.Replace(b, []byte("\n"), nil, -1)}
	body := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "untrusted comment: ") {
			continue
		}
		body += l
		if d, err := base64.StdEncoding.DecodeString(l); err == nil && len(d) > 0 {
			views = append(views, d)
		}
	}
	if d, err := base64.StdEncoding.DecodeString(body); err == nil && len(d) > 0 {
		views = append(views, d)
	}
	for _, n := range needles {
		for _, f := range n.forms() {
			for _, v := range views {
				if bytes.Contains(v, f) {
					return fmt.Sprintf("%s contains %q, a part of %s", what, f, n.name)
				}
			}
		}
	}
	return ""
}

// keyNeedles lists what must stay secret about a key.
func keyNeedles(seed, salt []byte, rounds int, pass string, msg []byte) []needle {
	h := sha512.Sum512(seed)
	box := ref.BoxPriv(seed)
	l := []needle{{"the secret key", seed, false}, {"the expanded secret key", h[:], false}, {"the secret conversion key", box[:], false}}
	if msg != nil {
		r := sha512.Sum512(append(append([]byte{}, h[32:]...), msg...))
		l = append(l, needle{"the signature's secret nonce", r[:], false})
		m := ref.LE(r[:])
		m.Mod(m, ref.L)
		red := ref.ToLE(m)
		l = append(l, needle{"the signature's secret nonce", red[:], false})
	}
	if pass != "" {
		l = append(l, needle{"the passphrase", []byte(pass), true})
		x, err := bcrypt_pbkdf.Key([]byte(pass), salt, rounds, 64)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		l = append(l, needle{"the key-encryption key", x, false})
	}
	return l
}

// emitted looks through everything an operation gave out.
func emitted(x *mc.X, r traced, skip map[string]bool, before map[string]string, needles []needle, what string) {
	outs := map[string]string{"standard output": r.stdout, "standard error": r.stderr}
	for n, b := range tree(x.Dir()) {
		if old, was := before[n]; !skip[n] && (!was || old != b) {
			outs["file "+n] = b
		}
		outs["the name of file "+n] = n
	}
	names := make([]string, 0, len(outs))
	for n := range outs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f := found(n, []byte(outs[n]), needles); f != "" {
			x.Fail("secret-shown", "%s: %s", what, f)
		}
	}
}

func termios(fd uintptr) (t syscall.Termios) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); e != 0 {
		panic(fmt.Sprintf("harness: tcgets: %v", e))
	}
	return t
}

// typed runs the command on a pseudo-terminal (as standard input, output and error), typing each
// line only once the echo is off, as a person would who waits for the prompt. It returns the
// result and everything the terminal showed.
func typed(x *mc.X, lines []string, args ...string) (res traced, shown string, restored bool) {
	p := openPty(x)
	before := termios(p.slave.Fd())
	fd := p.slave.Fd()
	pid, err := syscall.ForkExec(psignifyBin(), append([]string{psignifyBin()}, args...), &syscall.ProcAttr{
		Dir: x.Dir(), Env: append(append([]string{}, baseEnv...), "HOME="+x.Dir(), "USER=u"), Files: []uintptr{fd, fd, fd},
		Sys: &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL},
	})
	if err != nil {
		panic(fmt.Sprintf("harness: start %v: %v", args, err))
	}
	master := int(p.master.Fd())
	syscall.SetNonblock(master, true)
	var seen []byte
	buf := make([]byte, 4096)
	pull := func() {
		for {
			n, err := syscall.Read(master, buf)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || n <= 0 {
				return
			}
			seen = append(seen, buf[:n]...)
		}
	}
	var ws syscall.WaitStatus
	exited := false
	poll := func() bool {
		if !exited {
			if q, _ := syscall.Wait4(pid, &ws, syscall.WNOHANG, nil); q == pid {
				exited = true
			}
		}
		pull()
		return exited
	}
	deadline := time.Now().Add(30 * time.Second)
	next := func(ok func() bool) bool {
		for !ok() {
			if poll() {
				return false
			}
			if time.Now().After(deadline) {
				syscall.Kill(pid, syscall.SIGKILL)
				for !poll() {
					time.Sleep(time.Millisecond)
				}
				x.Fail("no-answer", "psignify %q did not finish on a terminal (it showed %q)", args, seen)
			}
			time.Sleep(500 * time.Microsecond)
		}
		return true
	}
	mark := 0
	for _, l := range lines {
		// something new was shown (the prompt), and the echo is off; or it never goes off
		prompted := time.Time{}
		if !next(func() bool {
			pull()
			if len(seen) == mark {
				return false
			}
			if prompted.IsZero() {
				prompted = time.Now()
			}
			return termios(fd).Lflag&syscall.ECHO == 0 || time.Since(prompted) > 6*time.Second
		}) {
			break
		}
		pull()
		mark = len(seen)
		p.master.WriteString(l + "\n")
	}
	next(func() bool { return false })
	pull()
	res.exit = ws.ExitStatus()
	if ws.Signaled() {
		res.exit = 128 + int(ws.Signal())
	}
	after := termios(fd)
	x.Op("on a terminal %q with entries %q: exit %d, shown %q", args, lines, res.exit, seen)
	return res, string(seen), after == before
}

// expectedSeed is what the operation under test made, or would have made, of the known random output.
func expectedSeed(x *mc.X, pass string) []byte {
	d, err := os.MkdirTemp(filepath.Dir(x.Dir()), "seed")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer os.RemoveAll(d)
	setRand(x, hashStream("c26"))
	if err := signify.GenerateKey(d+"/k", []byte(pass), &signify.GenerateOptions{Rounds: 1}); err != nil {
		x.Fail("generate", "GenerateKey: %v", err)
	}
	_, rec, err := ref.ParseStrict(read(x, d+"/k.sec"))
	x.Check(err == nil, "bad-file", "secret key file: %v", err)
	s, ok := ref.ParseSec(rec)
	x.Check(ok, "bad-file", "secret key record")
	key, ok := s.Unlock([]byte(pass))
	x.Check(ok, "bad-file", "the key is not protected by its passphrase")
	return key[:32]
}

// ephemeralOf finds the secret behind an encrypted file's ephemeral key in the known random output.
func ephemeralOf(path string) (ek [32]byte, ok bool) {
	stream := make([]byte, 512)
	hashStream("c26").Read(stream)
	var epub []byte
	if f, err := os.ReadFile(path); err == nil {
		if raw, _ := ref.ParseEnc(f); len(raw) >= 40 {
			epub = raw[8:40]
		}
	}
	for o := 0; o+32 <= len(stream); o++ {
		copy(ek[:], stream[o:])
		if epub == nil {
			return ek, true // nothing was written; the first draw it is
		}
		if p := boxPubOf(&ek); bytes.Equal(p[:], epub) {
			return ek, true
		}
	}
	return ek, false
}

type cond struct {
	name  string
	apply func(x *mc.X)
}

// conditions lists ways to prepare k.sec, k.pub, m, s, e and out so that operations fail at
// different points (the first is no change).
func conditions(msg []byte) []cond {
	rm := func(n string) func(x *mc.X) { return func(x *mc.X) { os.Remove(x.Path(n)) } }
	edit := func(n string, f func(b []byte) []byte) func(x *mc.X) {
		return func(x *mc.X) {
			c, rec, err := ref.ParseStrict(read(x, x.Path(n)))
			if err == nil {
				write(x.Path(n), ref.File(c, f(rec)))
			}
		}
	}
	conds := []cond{
		{"nothing", func(*mc.X) {}},
		{"no message", rm("m")},
		{"no encrypted file", rm("e")},
		{"no signature", rm("s")},
		{"no secret key", rm("k.sec")},
		{"no public key", rm("k.pub")},
		{"the output a directory", func(x *mc.X) { mkdir(x.Path("out")); mkdir(x.Path("out.sec")); mkdir(x.Path("out.pub")) }},
		{"the public key output a directory", func(x *mc.X) { mkdir(x.Path("out.pub")) }},
		{"the encrypted file changed", func(x *mc.X) {
			if b, err := os.ReadFile(x.Path("e")); err == nil {
				b[len(b)-6] ^= 1
				write(x.Path("e"), b)
			}
		}},
		{"the message in place of the encrypted file", func(x *mc.X) { write(x.Path("e"), msg) }},
		{"the secret key in place of the public key", func(x *mc.X) {
			if b, err := os.ReadFile(x.Path("k.sec")); err == nil {
				write(x.Path("k.pub"), b)
			}
		}},
		{"the secret key in place of the signature", func(x *mc.X) {
			if b, err := os.ReadFile(x.Path("k.sec")); err == nil {
				write(x.Path("s"), b)
			}
		}},
		{"the secret key in place of the encrypted file", func(x *mc.X) {
			if b, err := os.ReadFile(x.Path("k.sec")); err == nil {
				write(x.Path("e"), b)
			}
		}},
		{"another signature", func(x *mc.X) { write(x.Path("s"), ref.File("s", make([]byte, 74))) }},
	}
	for _, off := range []int{0, 2, 7, 8, 24, 32, 40, 72, 103} {
		off := off
		conds = append(conds, cond{fmt.Sprintf("byte %d of the secret key changed", off), edit("k.sec", func(b []byte) []byte {
			if off < len(b) {
				b[off] ^= 1
			}
			return b
		})})
	}
	for _, n := range []int{0, 1, 40, 41, 72, 96, 103} {
		n := n
		conds = append(conds, cond{fmt.Sprintf("the secret key cut to %d bytes", n), edit("k.sec", func(b []byte) []byte {
			if n < len(b) {
				return b[:n]
			}
			return b
		})})
	}
	conds = append(conds, cond{"the secret key one byte longer", edit("k.sec", func(b []byte) []byte { return append(b, 7) })},
		cond{"the secret key not base64", func(x *mc.X) {
			if b, err := os.ReadFile(x.Path("k.sec")); err == nil {
				b[len(b)-9] = '!'
				write(x.Path("k.sec"), b)
			}
		}})
	return conds
}

func init() {
	mc.Register(mc.Property{
		ID: "C26", Level: "model_checking",
		Rule:        "state: distinct (operation, key, condition, what was emitted); transition: one operation or command; trace: one operation whose every output is searched for every secret of it, or the same operation with two different secrets whose outputs are compared",
		Assumptions: []string{"a secret is shown when 4 consecutive bytes of it appear in hexadecimal or decimal, or 6 (8 of a passphrase) raw, quoted, reversed or in base64; other transformations are caught only where the two-secrets comparison sees them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			passes := []string{"Corvid hOrse bAttery", "%s%x%v%d%n%%\\ \"'$(id)", "пароль\xff\xfe with bytes", strings.Repeat("quartz-lemur! ", 9)}
			if t == mc.Quick {
				passes = passes[:3]
			}
			msg := bigBytes(4242, 300)[:300]
			conds := conditions(msg)
			libOps := []string{"gen", "sign", "verify", "seal", "open"}
			return append([]mc.Scenario{c26Env(t)}, []mc.Scenario{
				{Name: "emissions", ShardDepth: 3, Bounds: fmt.Sprintf("generate, sign, verify, encrypt, decrypt (library in its own process, and command) x plain key and %d passphrases (right, wrong, prompt failing) x %d conditions of inputs and outputs; random output fixed, so that ephemeral and generated keys are known", len(passes), len(conds)), Body: func(x *mc.X) {
					op := libOps[x.Choose("operation", 5)]
					ci := x.Choose("condition", len(conds))
					c := conds[ci]
					ki := x.Choose("key", 1+len(passes))
					pass := ""
					if ki > 0 {
						pass = passes[ki-1]
					}
					k := fixKey("c26", pass)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					write(x.Path("s"), ref.File("verify with k.pub", ref.SignRec(k.seed, k.num, msg)))
					var e [32]byte
					copy(e[:], bigBytes(99, 32))
					write(x.Path("e"), ref.EncFile("untrusted comment: psignify encrypted file", ref.SealRaw(k.boxPub(), &e, msg)))
					c.apply(x)
					how := 0
					give := pass
					env := []string{"VERIF_RAND=c26"}
					cmd := false
					if pass != "" && (op == "sign" || op == "open") {
						if how = x.Choose("answer", 3); how == 1 {
							give = pass[1:] + "Q"
						} else if how == 2 {
							env = append(env, "VERIF_PROMPT=error")
						}
					} else if pass == "" {
						cmd = x.Bool("command")
					}
					h, err := os.Executable()
					if err != nil {
						panic(fmt.Sprintf("harness: %v", err))
					}
					p := x.Path
					var args []string
					skip := map[string]bool{}
					switch op {
					case "gen":
						args = []string{"gen", p("out"), pass, "1"}
					case "sign":
						args = []string{"sign", p("k.sec"), p("m"), p("out"), give}
					case "verify":
						args = []string{"verify", p("k.pub"), p("m"), p("s")}
					case "seal":
						args = []string{"seal", p("k.pub"), p("m"), p("out")}
					case "open":
						args = []string{"open", p("k.sec"), p("e"), p("out"), give}
						skip["out"] = true
					}
					argv := append([]string{h, "op"}, args...)
					if cmd {
						argv = append([]string{psignifyBin()}, map[string][]string{
							"gen":    {"-G", "-n", "-p", p("out")},
							"sign":   {"-S", "-s", p("k.sec"), "-m", p("m"), "-x", p("out")},
							"verify": {"-V", "-p", p("k.pub"), "-m", p("m"), "-x", p("s")},
							"seal":   {"-E", "-p", p("k.pub"), "-m", p("m"), "-c", p("out")},
							"open":   {"-D", "-s", p("k.sec"), "-m", p("out"), "-c", p("e")},
						}[op]...)
					}
					before := tree(x.Dir())
					r := plainRun(x, &spec{argv: argv, env: env, dir: x.Dir(), umask: -1})
					what := fmt.Sprintf("%s with %s (command %v, passphrase %q, answer %d)", op, c.name, cmd, pass, how)
					ns := keyNeedles(k.seed, k.sec.Salt[:], int(k.sec.Rounds), pass, msg)
					if give != pass && how == 1 {
						ns = append(ns, needle{"the wrong passphrase", []byte(give), true})
					}
					if op == "open" || op == "seal" {
						ns = append(ns, needle{"the message", msg, false})
					}
					if op == "open" {
						sh := ref.Shared(k.boxPriv(), boxPubOf(&e))
						ns = append(ns, needle{"the shared key", sh[:], false})
					}
					if op == "seal" && !cmd {
						if ek, ok := ephemeralOf(p("out")); ok {
							sh := ref.Shared(&ek, k.boxPub())
							ns = append(ns, needle{"the ephemeral secret key", ek[:], false}, needle{"the shared key", sh[:], false})
						}
					}
					if op == "gen" {
						skip["out.sec"] = true
						if b, err := os.ReadFile(p("out.sec")); err == nil && len(b) > 0 {
							_, rec, err := ref.ParseStrict(b)
							x.Check(err == nil, "bad-file", "%s: secret key file: %v", what, err)
							s, ok := ref.ParseSec(rec)
							x.Check(ok, "bad-file", "%s: secret key record", what)
							key, ok := s.Unlock([]byte(pass))
							x.Check(ok, "bad-file", "%s: the key is not protected by its passphrase", what)
							gn := keyNeedles(key[:32], s.Salt[:], int(s.Rounds), pass, nil)
							if pass != "" {
								if f := found("the protected secret key file", b, gn); f != "" {
									x.Fail("secret-shown", "%s: %s", what, f)
								}
							}
							ns = append(ns, gn...)
						}
						if !cmd { // whatever became of the file, the key came from the known random output
							ns = append(ns, keyNeedles(expectedSeed(x, pass), k.sec.Salt[:], 1, "", nil)...)
						}
					}
					emitted(x, r, skip, before, ns, what)
					x.State(op, ci, ki, cmd, how, r.exit)
					x.Outcome("%s exit %d", op, r.exit)
				}},
				{Name: "two-secrets", ShardDepth: 2, Bounds: "the same operation with two secrets (passphrases, keys or messages of equal length) and everything public equal, under every condition that makes it fail: error texts, public files, comments and lengths are the same", Body: func(x *mc.X) {
					case_ := x.Choose("case", 6)
					pair := x.Choose("pair", 4)
					type seen struct {
						err   string
						files map[string]string
					}
					run := func(f func() error) seen {
						for n := range tree(x.Dir()) {
							os.Remove(x.Path(n))
						}
						setRand(x, hashStream("c26-two"))
						err := f()
						s := seen{files: tree(x.Dir())}
						if err != nil {
							s.err = err.Error()
						}
						return s
					}
					pp := [][2]string{{"aaaaaaaa", "aaaaaaab"}, {"x", "y"}, {"passphrase one", "passphrase two"}, {strings.Repeat("a", 72) + "b", strings.Repeat("a", 72) + "c"}}[pair]
					mm := [][2][]byte{{bytes.Repeat([]byte{0}, 300), bytes.Repeat([]byte{255}, 300)}, {[]byte("A"), []byte("B")}, {bigBytes(1, 16385)[:16385], bytes.Repeat([]byte("ab\n"), 16385)[:16385]}, {bigBytes(1, 40000), pattern(1, 40000)}}[pair]
					var a, b seen
					var pub [2]string // the part of the outputs that may not depend on the secret
					record := func(s seen, n string) []byte {
						_, rec, err := ref.ParseStrict([]byte(s.files[n]))
						if err != nil {
							x.Fail("bad-file", "%s: %v", n, err)
						}
						return rec
					}
					both := func(f func(i int) error) {
						a, b = run(func() error { return f(0) }), run(func() error { return f(1) })
					}
					switch case_ {
					case 0: // generation under two passphrases
						both(func(i int) error {
							return signify.GenerateKey(x.Path("k"), []byte(pp[i]), &signify.GenerateOptions{Rounds: 1})
						})
						x.Check(a.err == "" && b.err == "", "generate", "%s %s", a.err, b.err)
						pub = [2]string{a.files["k.pub"], b.files["k.pub"]}
					case 1: // signing under two wrong passphrases
						both(func(i int) error {
							fixKey("c26w", "the right one").put(x.Path("k"))
							write(x.Path("m"), msg)
							setPrompt(x, answerWith(pp[i]))
							return signify.Sign(x.Path("k.sec"), x.Path("m"), "")
						})
						pub = [2]string{fmt.Sprint(a.files), fmt.Sprint(b.files)}
					case 2: // decrypting under two wrong passphrases
						both(func(i int) error {
							k := fixKey("c26w", "the right one")
							k.put(x.Path("k"))
							var e [32]byte
							e[5] = 5
							write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, msg)))
							setPrompt(x, answerWith(pp[i]))
							return crypto.Open(x.Path("k.sec"), x.Path("e"), x.Path("out"))
						})
						pub = [2]string{fmt.Sprint(a.files), fmt.Sprint(b.files)}
					case 3: // encrypting two messages
						both(func(i int) error {
							fixKey("c26w", "").put(x.Path("k"))
							write(x.Path("m"), mm[i])
							return crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e"))
						})
						x.Check(a.err == "" && b.err == "", "seal", "%s %s", a.err, b.err)
						for i, s := range []seen{a, b} {
							f := s.files["e"]
							raw, err := ref.ParseEnc([]byte(f))
							x.Check(err == nil && len(raw) >= 72, "bad-file", "encrypted file: %v", err)
							pub[i] = fmt.Sprintf("%d %s %x", len(f), strings.SplitN(f, "\n", 2)[0], raw[:72])
						}
					case 4: // signing with two keys of the same number
						both(func(i int) error {
							k := fixKey(fmt.Sprint("c26-", pair, i), "")
							k.num = [8]byte{1, 2, 3}
							k.sec.Num, k.pub.Num = k.num, k.num
							k.render()
							k.put(x.Path("k"))
							write(x.Path("m"), msg)
							return signify.Sign(x.Path("k.sec"), x.Path("m"), "")
						})
						x.Check(a.err == "" && b.err == "", "sign", "%s %s", a.err, b.err)
						for i, s := range []seen{a, b} {
							rec := record(s, "m.sig")
							x.Check(len(rec) == 74, "bad-file", "signature of %d bytes", len(rec))
							pub[i] = fmt.Sprintf("%d %s %x", len(s.files["m.sig"]), strings.SplitN(s.files["m.sig"], "\n", 2)[0], rec[:10])
						}
					case 5: // two damaged keys
						both(func(i int) error {
							k := fixKey(fmt.Sprint("c26-", pair, i), "")
							k.num = [8]byte{1, 2, 3}
							k.sec.Num = k.num
							k.sec.Sum[0] ^= 1
							k.render()
							k.put(x.Path("k"))
							write(x.Path("m"), msg)
							err := signify.Sign(x.Path("k.sec"), x.Path("m"), "")
							if err == nil {
								return nil
							}
							return fmt.Errorf("%v / %v", err, crypto.Open(x.Path("k.sec"), x.Path("m"), x.Path("o")))
						})
					}
					x.Op("case %d: %q, %q", case_, a.err, b.err)
					x.Check(a.err == b.err, "error-depends-on-secret", "case %d: error text depends on the secret: %q, %q", case_, a.err, b.err)
					x.Check(pub[0] == pub[1], "output-depends-on-secret", "case %d: public output depends on the secret: %s", case_, diffAt([]byte(pub[0]), []byte(pub[1])))
					x.State(case_, pair, a.err)
					x.Outcome("case %d error %q", case_, a.err)
				}},
				{Name: "two-messages", ShardDepth: 2, Hang: 600e9, Bounds: fmt.Sprintf("two messages of the same length, 2^k-1, 2^k and 2^k+1 bytes for k=0..%d and c*16385+{-1,0,1} for c = 2^k, with other contents but equal file times, encrypted with the same ephemeral key: comment, header, length and line ends of the files are the same", t.Pick(21, 26)), Body: func(x *mc.X) {
					top := t.Pick(21, 26)
					i := x.Choose("size", 3*(top+1)+3*(top-13))
					d := i%3 - 1
					n := 0
					if i < 3*(top+1) {
						n = 1<<uint(top-i/3) + d
					} else {
						n = 16385<<uint(top-14-(i-3*(top+1))/3) + d
					}
					k := fixKey("c26w", "")
					k.put(x.Path("k"))
					var head, comment [2]string
					var size [2]int
					var breaks [2]string
					when := time.Unix(1500000000, 0)
					for j := 0; j < 2; j++ {
						setRand(x, hashStream("c26-two"))
						m := bigBytes(uint64(7+j), n+16)[:n]
						if j == 1 && n > 0 && n%2 == 0 {
							m = bytes.Repeat([]byte{'a'}, n)
						}
						write(x.Path("m"), m)
						os.Chtimes(x.Path("m"), when, when)
						x.Op("Seal %d bytes", n)
						if err := crypto.Seal(x.Path("k.pub"), x.Path("m"), x.Path("e")); err != nil {
							x.Fail("seal", "%v", err)
						}
						f := read(x, x.Path("e"))
						raw, err := ref.ParseEnc(f)
						x.Check(err == nil && len(raw) >= 72, "bad-file", "encrypted file: %v", err)
						size[j], head[j], comment[j] = len(f), fmt.Sprintf("%x", raw[:72]), string(bytes.SplitN(f, []byte("\n"), 2)[0])
						h := sha256.New()
						for p, c := range f {
							if c == '\n' {
								fmt.Fprint(h, p, " ")
							}
						}
						breaks[j] = fmt.Sprintf("%x", h.Sum(nil))
					}
					x.Check(comment[0] == comment[1], "output-depends-on-secret", "comments of two messages of %d bytes: %q, %q", n, comment[0], comment[1])
					x.Check(head == [2]string{head[0], head[0]}, "output-depends-on-secret", "headers of two messages of %d bytes: %s, %s", n, head[0], head[1])
					x.Check(size[0] == size[1] && breaks[0] == breaks[1], "output-depends-on-secret", "encrypted files of two messages of %d bytes: %d, %d bytes, or other line ends", n, size[0], size[1])
					x.State(n)
				}},
				{Name: "typed-lengths", Bounds: "the same on a terminal with right, wrong, confirmed and differing passphrases of 16 lengths: what is shown does not depend on what was typed", Body: func(x *mc.X) {
					lens := []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 64, 72, 100}
					cmd := x.Choose("command", 6)
					n := lens[x.Choose("length", len(lens))]
					text := func(n int) string { return strings.Repeat("pQ7%x", n/5+1)[:n] }
					shownBy := func(n int) (string, int) {
						emptyAll(x.Dir())
						pass := text(n)
						k := fixKey("c26t", pass)
						k.put(x.Path("k"))
						write(x.Path("m"), msg)
						var e [32]byte
						write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, msg)))
						lines := []string{pass}
						wrong := strings.Repeat("z", n)
						args := []string{"-S", "-s", x.Path("k.sec"), "-m", x.Path("m"), "-x", x.Path("out")}
						switch cmd {
						case 1:
							lines[0] = wrong
						case 2, 3:
							if cmd == 3 {
								lines[0] = wrong
							}
							args = []string{"-D", "-s", x.Path("k.sec"), "-c", x.Path("e"), "-m", x.Path("out")}
						case 4, 5:
							second := pass
							if cmd == 5 {
								second = wrong
							}
							lines = append(lines, second)
							args = []string{"-G", "-p", x.Path("n")}
						}
						r, shown, _ := typed(x, lines, args...)
						return shown, r.exit
					}
					was, e1 := shownBy(1)
					is, e2 := shownBy(n)
					x.Check(was == is && e1 == e2, "depends-on-secret", "command %d: with a passphrase of 1 byte the terminal shows %q (exit %d), with one of %d bytes %q (exit %d)", cmd, was, e1, n, is, e2)
					x.State(cmd, n)
				}},
				{Name: "terminal", Bounds: "psignify -G, -S and -D with standard input, output and error on a pseudo-terminal, entries typed when asked: right, wrong, differing, empty; typed characters never appear and the terminal's settings are as before", Body: func(x *mc.X) {
					const pass = "Tr0ub4dor&3"
					k := fixKey("c26t", pass)
					k.put(x.Path("k"))
					write(x.Path("m"), msg)
					var e [32]byte
					e[3] = 8
					write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, msg)))
					cmd := x.Choose("command", 3)
					entry := []string{pass, "Tr0ub4dor&4", "", "other words here"}[x.Choose("entry", 4)]
					lines := []string{entry}
					var args []string
					switch cmd {
					case 0:
						second := []string{pass, "Tr0ub4dor&4", "", "other words here"}[x.Choose("second", 4)]
						lines = append(lines, second)
						args = []string{"-G", "-p", x.Path("n")}
					case 1:
						args = []string{"-S", "-s", x.Path("k.sec"), "-m", x.Path("m"), "-x", x.Path("out")}
					case 2:
						args = []string{"-D", "-s", x.Path("k.sec"), "-c", x.Path("e"), "-m", x.Path("out")}
					}
					r, shown, restored := typed(x, lines, args...)
					for _, l := range lines {
						if l != "" {
							x.Check(!strings.Contains(shown, l), "echoed", "psignify %q shows the passphrase that was typed: %q", args, shown)
						}
					}
					x.Check(restored, "terminal-left-changed", "psignify %q leaves the terminal's settings changed", args)
					want := entry == pass
					if cmd == 0 {
						want = lines[0] == lines[1]
					}
					x.Check((r.exit == 0) == want, "verdict", "psignify %q with entries %q: exit %d, shown %q", args, lines, r.exit, shown)
					x.State(cmd, lines, r.exit)
					x.Outcome("command %d exit %d", cmd, r.exit)
				}},
			}...)
		},
	})
}
