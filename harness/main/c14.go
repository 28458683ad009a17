package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"syscall"

	"golang.org/x/crypto/ed25519"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// opMain performs one library operation in its own process: exit 0 and "OK" on success.
func opMain(a []string) {
	pass := ""
	set := func(p string) {
		pass = p
		signify.PassphrasePrompt = func(bool) ([]byte, error) {
			if os.Getenv("VERIF_PROMPT") == "error" {
				return nil, errPrompt
			}
			return []byte(pass), nil
		}
	}
	if id := os.Getenv("VERIF_RAND"); id != "" {
		rand.Reader = hashStream(id)
		if f := os.Getenv("VERIF_RAND_FAIL"); f != "" {
			var n, kind int
			fmt.Sscanf(f, "%d %d", &n, &kind)
			rand.Reader = failingAt(rand.Reader, n, kind)
		}
	}
	var err error
	switch a[0] {
	case "gen":
		n, _ := strconv.Atoi(a[3])
		err = signify.GenerateKey(a[1], []byte(a[2]), &signify.GenerateOptions{Rounds: n})
	case "sign":
		set(a[4])
		err = signify.Sign(a[1], a[2], a[3])
	case "verify":
		err = signify.Verify(a[1], a[2], a[3])
	case "seal":
		err = crypto.Seal(a[1], a[2], a[3])
	case "open":
		set(a[4])
		err = crypto.Open(a[1], a[2], a[3])
	}
	if p := os.Getenv("VERIF_PEAK"); p != "" {
		reportPeak(p)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println("OK")
}

// fileOp is one operation on files of a directory, as a process or in this one.
type fileOp struct {
	name   string
	k      *keyFix
	pass   string // for gen
	msg    []byte
	forged bool // verify: the message is not the signed one
}

func (o *fileOp) prepare(x *mc.X) {
	if o.name != "gen" {
		o.k.put(x.Path("k"))
		write(x.Path("m"), o.msg)
	}
	switch o.name {
	case "verify":
		signed := o.msg
		if o.forged {
			signed = o.msg[:len(o.msg)/2]
		}
		write(x.Path("out"), ref.File("verify with k.pub", ref.SignRec(o.k.seed, o.k.num, signed)))
	case "open":
		os.Remove(x.Path("m"))
		var e [32]byte
		e[1] = 77
		write(x.Path("e"), ref.EncFile("untrusted comment: psignify encrypted file", ref.SealRaw(o.k.boxPub(), &e, o.msg)))
	}
}

// argv is the command, or the library operation in a process of its own.
func (o *fileOp) argv(x *mc.X, lib bool) []string {
	h, err := os.Executable()
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	p := x.Path
	pass := ""
	if o.k != nil {
		pass = o.k.pass
	}
	if lib {
		switch o.name {
		case "gen":
			return []string{h, "op", "gen", p("k"), o.pass, "1"}
		case "sign":
			return []string{h, "op", "sign", p("k.sec"), p("m"), p("out"), pass}
		case "verify":
			return []string{h, "op", "verify", p("k.pub"), p("m"), p("out")}
		case "seal":
			return []string{h, "op", "seal", p("k.pub"), p("m"), p("out")}
		case "open":
			return []string{h, "op", "open", p("k.sec"), p("e"), p("out"), pass}
		}
	}
	b := psignifyBin()
	switch o.name {
	case "gen":
		return []string{b, "-G", "-n", "-p", p("k")}
	case "sign":
		return []string{b, "-S", "-s", p("k.sec"), "-m", p("m"), "-x", p("out")}
	case "verify":
		return []string{b, "-V", "-p", p("k.pub"), "-m", p("m"), "-x", p("out")}
	case "seal":
		return []string{b, "-E", "-p", p("k.pub"), "-m", p("m"), "-c", p("out")}
	}
	return []string{b, "-D", "-s", p("k.sec"), "-c", p("e"), "-m", p("out")}
}

// inProcess performs the operation here.
func (o *fileOp) inProcess(x *mc.X) error {
	p := x.Path
	switch o.name {
	case "gen":
		return signify.GenerateKey(p("k"), []byte(o.pass), &signify.GenerateOptions{Rounds: 1})
	case "sign":
		return signify.Sign(p("k.sec"), p("m"), p("out"))
	case "verify":
		return signify.Verify(p("k.pub"), p("m"), p("out"))
	case "seal":
		return crypto.Seal(p("k.pub"), p("m"), p("out"))
	}
	return crypto.Open(p("k.sec"), p("e"), p("out"))
}

// complete says what is missing from the output ("" nothing).
func (o *fileOp) complete(x *mc.X) string {
	switch o.name {
	case "gen":
		return pairComplete(x.Path("k"), o.pass)
	case "sign":
		b, err := os.ReadFile(x.Path("out"))
		if err != nil {
			return err.Error()
		}
		_, rec, err := ref.ParseStrict(b)
		if err != nil {
			return "signature file: " + err.Error()
		}
		if !bytes.Equal(rec, ref.SignRec(o.k.seed, o.k.num, o.msg)) {
			return "the signature is not the message's"
		}
	case "seal":
		b, err := os.ReadFile(x.Path("out"))
		if err != nil {
			return err.Error()
		}
		raw, err := ref.ParseEnc(b)
		if err != nil {
			return "encrypted file: " + err.Error()
		}
		got, err := ref.OpenRaw(o.k.boxPriv(), raw)
		if err != nil {
			return "encrypted file: " + err.Error()
		}
		if !bytes.Equal(got, o.msg) {
			return "encrypted file holds another message: " + diffAt(got, o.msg)
		}
	case "open":
		b, err := os.ReadFile(x.Path("out"))
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(b, o.msg) {
			return "decrypted message: " + diffAt(b, o.msg)
		}
	case "verify":
		if o.forged {
			return "the signature is not the message's"
		}
	}
	return ""
}

// pairComplete checks a key pair on disk with the reference only.
func pairComplete(base, pass string) string {
	sb, err := os.ReadFile(base + ".sec")
	if err != nil {
		return err.Error()
	}
	pb, err := os.ReadFile(base + ".pub")
	if err != nil {
		return err.Error()
	}
	_, srec, err := ref.ParseStrict(sb)
	if err != nil {
		return "secret key file: " + err.Error()
	}
	_, prec, err := ref.ParseStrict(pb)
	if err != nil {
		return "public key file: " + err.Error()
	}
	s, ok := ref.ParseSec(srec)
	if !ok {
		return "secret key record incomplete"
	}
	p, ok := ref.ParsePub(prec)
	if !ok {
		return "public key record incomplete"
	}
	key, ok := s.Unlock([]byte(pass))
	if !ok {
		d := sha512.Sum512(s.Key[:])
		return fmt.Sprintf("secret key checksum %x does not fit (%x)", s.Sum, d[:8])
	}
	if !bytes.Equal(ed25519.NewKeyFromSeed(key[:32]), key) || !bytes.Equal(key[32:], p.Key[:]) || s.Num != p.Num {
		return "the two key files do not belong together"
	}
	fi, err := os.Stat(base + ".sec")
	if err != nil {
		return err.Error()
	}
	if fi.Mode().Perm()&0077 != 0 {
		return fmt.Sprintf("secret key file mode is %v", fi.Mode())
	}
	return ""
}

// faults lists the ways an event can go wrong; 0 is none.
func faults(e *event) []action {
	f := func(errs ...syscall.Errno) []action {
		a := []action{{}}
		for _, n := range errs {
			a = append(a, action{kind: actFail, errno: n, what: "fails with " + n.Error()})
		}
		return a
	}
	switch e.kind {
	case sysOpen:
		if e.creates {
			return f(syscall.EACCES, syscall.ENOSPC, syscall.EIO)
		}
		return f(syscall.EACCES, syscall.EIO)
	case sysRead:
		a := f(syscall.EIO, syscall.EINTR)
		if e.count > 1 {
			a = append(a, action{kind: actShort, n: 1, what: "delivers 1 byte, the next read fails"})
		}
		return a
	case sysWrite:
		return f(syscall.ENOSPC, syscall.EIO, syscall.EINTR)
	case sysClose:
		return []action{{}, {kind: actSpoil, errno: syscall.EIO, what: "fails with EIO, data lost"}}
	case sysStat:
		return f(syscall.EIO)
	case sysChmod:
		return f(syscall.EPERM, syscall.EIO)
	}
	return f(syscall.EIO, syscall.ENOSPC)
}

// shortWrites lists how many bytes a torn write may accept.
func shortWrites(n int) []int {
	var l []int
	for i := 1; i < n; i++ {
		if n <= 300 || i <= 3 || i >= n-3 || i%512 == 0 || i == n/2 {
			l = append(l, i)
		}
	}
	return l
}

// faultHook explores one fault (or as many as MaxDev allows) over the events of a run.
func faultHook(x *mc.X, prefixRead int, done *bool, trunc func(string)) func(e *event) action {
	full := false                // storage is exhausted
	failRead := map[string]int{} // 1: the next read fails, 2: all further reads fail
	failWrite := false           // the next write fails
	return func(e *event) action {
		if full && (e.kind == sysWrite || e.kind == sysOpen && e.creates) {
			return action{kind: actFail, errno: syscall.ENOSPC, what: "storage full"}
		}
		if failWrite && e.kind == sysWrite {
			failWrite = false
			return action{kind: actFail, errno: syscall.ENOSPC, what: "fails with ENOSPC"}
		}
		if e.kind == sysRead && failRead[e.path] > 0 {
			failRead[e.path] &^= 1
			return action{kind: actFail, errno: syscall.EIO, what: "fails with EIO"}
		}
		l := faults(e)
		if e.kind == sysRead && prefixRead > 1 && e.count > prefixRead {
			l = append(l, action{kind: actShort, n: prefixRead, what: fmt.Sprintf("delivers %d bytes, the next read fails", prefixRead)})
		}
		again := len(l)
		if e.kind == sysRead {
			for _, a := range l {
				if a.kind == actShort {
					a.what += " once"
					l = append(l, a)
				}
			}
		}
		base, torn := len(l), 0
		if e.kind == sysWrite {
			for _, n := range shortWrites(e.count) {
				l = append(l, action{kind: actShort, n: n, what: fmt.Sprintf("accepts %d bytes, then storage is full", n)})
			}
			if e.count > 1 {
				l = append(l, action{kind: actShort, n: e.count / 2, what: fmt.Sprintf("accepts %d bytes", e.count/2)})
			}
			// 1 is ENOSPC from here on; a single ENOSPC comes last
			l = append(l, action{kind: actFail, errno: syscall.ENOSPC, what: "fails once with ENOSPC"})
			torn = len(l)
			for _, n := range shortWrites(e.count) {
				l = append(l, action{kind: actShort, n: n, what: fmt.Sprintf("accepts %d bytes, the next write fails once", n)})
			}
		}
		c := x.Dev(e.name, len(l))
		if c == 0 {
			return action{}
		}
		*done = true
		a := l[c]
		switch {
		case e.kind == sysWrite && (c == 1 || c >= base && c < base+len(shortWrites(e.count))):
			full = true
		case e.kind == sysWrite && c >= torn:
			failWrite = true
		case e.kind == sysRead && a.kind == actShort:
			failRead[e.path] = 2
			if c >= again {
				failRead[e.path] = 1
			}
		case e.kind == sysClose && e.writing:
			trunc(e.path)
		case e.kind == sysClose:
			a.what = "fails with EIO"
		}
		return a
	}
}

var errnos = []syscall.Errno{
	syscall.EDQUOT, syscall.EFBIG, syscall.EROFS, syscall.EPERM, syscall.EACCES, syscall.EAGAIN, syscall.ESTALE, syscall.ENXIO,
	syscall.ENODEV, syscall.EPIPE, syscall.ENOMEM, syscall.ENOENT, syscall.EEXIST, syscall.ENOTDIR, syscall.EISDIR, syscall.ELOOP,
	syscall.EBUSY, syscall.ETXTBSY, syscall.EINVAL, syscall.EBADF, syscall.ETIMEDOUT, syscall.ECONNRESET, syscall.ENETDOWN,
	syscall.EREMOTEIO, syscall.EBADMSG, syscall.EUCLEAN, syscall.ECANCELED, syscall.ENOSYS, syscall.EOPNOTSUPP, syscall.EOVERFLOW,
	syscall.EMFILE, syscall.ENFILE, syscall.ENAMETOOLONG, syscall.ENOTCONN, syscall.EHOSTDOWN, syscall.ENOKEY, syscall.EKEYEXPIRED,
	syscall.ENOSPC, syscall.EIO,
}

// errorHook lets one event, or an event and every later write, fail with n.
func errorHook(x *mc.X, n syscall.Errno, trunc func(string)) func(e *event) action {
	always := false
	return func(e *event) action {
		fail := action{kind: actFail, errno: n, what: "fails with " + n.Error()}
		if always {
			if e.kind == sysWrite {
				return fail
			}
			return action{}
		}
		alt := 2
		if e.kind == sysWrite {
			alt = 3
		}
		switch x.Dev(e.name, alt) {
		case 0:
			return action{}
		case 2:
			always = true
		}
		if e.kind == sysClose {
			if e.writing {
				trunc(e.path)
			}
			return action{kind: actSpoil, errno: n, what: "fails with " + n.Error() + ", data lost"}
		}
		return fail
	}
}

// limited runs f with the size of every file limited, as a disk that is full after n bytes.
func limited(n uint64, f func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}()
	return f()
}

func init() {
	mc.Command("op", opMain)
	mc.Register(mc.Property{
		ID: "C14", Level: "fault_enumeration",
		Rule:        "state: distinct (operation, faults, exit status); transition: one system call of the process on a file of the operation; trace: one run of the real command with the chosen faults, its exit status compared with the completeness of its output",
		Assumptions: []string{"a write or close that reports no error has stored its data (the code never syncs)", "an error at closing an output means that some of its data was lost", "Linux/amd64 system calls, as ptrace shows them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, kp := fixKey("c14", ""), fixKey("c14p", "pw")
			small := bigBytes(1, 104)[:100]
			ops := []*fileOp{
				{name: "gen"},
				{name: "sign", k: k, msg: small},
				{name: "verify", k: k, msg: small},
				{name: "verify", k: k, msg: small, forged: true},
				{name: "seal", k: k, msg: small[:10]},
				{name: "open", k: k, msg: small[:3]},
			}
			libOps := []*fileOp{
				{name: "gen", pass: "pw"},
				{name: "sign", k: kp, msg: small},
				{name: "open", k: kp, msg: small[:3]},
			}
			bigOps := []*fileOp{
				{name: "sign", k: k, msg: bigBytes(2, 3000)},
				{name: "verify", k: k, msg: bigBytes(2, 3000), forged: true},
				{name: "verify", k: k, msg: bigBytes(2, 1024), forged: true},
				{name: "sign", k: k, msg: bigBytes(2, 1024)},
			}
			run := func(x *mc.X, o *fileOp, lib bool, prev bool) {
				o.prepare(x)
				if prev {
					old := bytes.Repeat([]byte("previous content\n"), 60)
					for _, n := range []string{"out", "k.sec", "k.pub"} {
						if n == "out" && o.name != "verify" || n != "out" && o.name == "gen" {
							write(x.Path(n), old)
						}
					}
				}
				faulted := false
				prefix := len(o.msg) / 2
				res := controlled(x, &spec{argv: o.argv(x, lib), dir: x.Dir(), root: x.Dir(), umask: 022},
					faultHook(x, prefix, &faulted, func(path string) {
						if fi, err := os.Stat(path); err == nil {
							os.Truncate(path, fi.Size()/2)
						}
					}))
				if miss := o.complete(x); res.exit == 0 && miss != "" {
					x.Fail("false-success", "%s reports success although its output is incomplete: %s", o.name, miss)
				}
				x.Outcome("%s exit %d", o.name, res.exit)
				x.State(o.name, lib, prev, res.exit, res.events, o.complete(x))
			}
			names := ""
			for _, o := range ops {
				names += o.name + " "
			}
			return []mc.Scenario{
				{Name: "command", MaxDev: t.Pick(1, 2), ShardDev: true, Bounds: fmt.Sprintf("psignify -G -n, -S, -V (right and wrong message), -E, -D on new and on existing outputs: every choice of up to %d faults over all system calls on their files (open, read, write, close, stat, chmod failing with the errors possible there; writes torn at every byte, the next one or all further ones failing; reads cut short, the next one or all further ones failing)", t.Pick(1, 2)), Body: func(x *mc.X) {
					o := ops[x.Choose("op", len(ops))]
					run(x, o, false, x.Bool("existing outputs"))
				}},
				{Name: "library", MaxDev: 1, ShardDev: true, Bounds: "GenerateKey with passphrase, Sign and Open with a protected key, in a process of their own: one fault at every system call on their files", Body: func(x *mc.X) {
					run(x, libOps[x.Choose("op", len(libOps))], true, x.Bool("existing outputs"))
				}},
				{Name: "errors", MaxDev: 1, ShardDev: true, Bounds: fmt.Sprintf("the operations of command and library: every system call on their files failing with each of %d error numbers; for writes also all that follow", len(errnos)), Body: func(x *mc.X) {
					i := x.Choose("op", len(ops)+len(libOps))
					lib := i >= len(ops)
					o := append(append([]*fileOp{}, ops...), libOps...)[i]
					n := errnos[x.Choose("error", len(errnos))]
					o.prepare(x)
					res := controlled(x, &spec{argv: o.argv(x, lib), dir: x.Dir(), root: x.Dir(), umask: 022}, errorHook(x, n, func(path string) {
						if fi, err := os.Stat(path); err == nil {
							os.Truncate(path, fi.Size()/2)
						}
					}))
					if miss := o.complete(x); res.exit == 0 && miss != "" {
						x.Fail("false-success", "%s reports success although its output is incomplete: %s", o.name, miss)
					}
					x.Outcome("%s exit %d", o.name, res.exit)
					x.State(o.name, lib, n, res.exit, res.events, o.complete(x))
				}},
				{Name: "multi-read", MaxDev: t.Pick(1, 2), ShardDev: true, Bounds: "-S of, and -V against a signature of the first half of, messages of 1024 and 3000 bytes: faults as above, among them a read delivering just the signed half before the next one fails", Body: func(x *mc.X) {
					run(x, bigOps[x.Choose("op", len(bigOps))], false, false)
				}},
				{Name: "storage", ShardDepth: 2, Bounds: fmt.Sprintf("library calls with every file limited to each size 0..%d bytes (generate plain and protected, sign, encrypt 0, 1, 100, 300 bytes, decrypt 0, 1, 100, 300 bytes), new and existing outputs", t.Pick(600, 1200)), Body: func(x *mc.X) {
					all := []*fileOp{{name: "gen"}, {name: "gen", pass: "pw"}, {name: "sign", k: k, msg: small}, {name: "sign", k: kp, msg: small}}
					for _, n := range []int{0, 1, 100, 300} {
						all = append(all, &fileOp{name: "seal", k: k, msg: bigBytes(3, 304)[:n]}, &fileOp{name: "open", k: k, msg: bigBytes(3, 304)[:n]})
					}
					o := all[x.Choose("op", len(all))]
					n := x.Choose("size", t.Pick(600, 1200)+1)
					if o.k != nil {
						setPrompt(x, answerWith(o.k.pass))
					}
					setRand(x, hashStream("c14"))
					o.prepare(x)
					if x.Bool("existing") {
						write(x.Path("out"), bytes.Repeat([]byte("previous content\n"), 90))
					}
					x.Op("%s with files limited to %d bytes", o.name, n)
					err := limited(uint64(n), func() error { return o.inProcess(x) })
					miss := o.complete(x)
					if err == nil && miss != "" {
						x.Fail("false-success", "%s of %d bytes with storage for %d reports success: %s", o.name, len(o.msg), n, miss)
					}
					x.State(o.name, len(o.msg), n, err == nil)
					x.Outcome("%s success=%v", o.name, err == nil)
				}},
				{Name: "storage-chunks", ShardDepth: 2, Bounds: "encrypting and decrypting 1 and 2 chunks and 1 chunk + 100 bytes: files limited to each size within 60 bytes of every chunk boundary, of the end, and every 512 bytes", Body: func(x *mc.X) {
					n := []int{ref.Chunk, ref.Chunk + 100, 2 * ref.Chunk}[x.Choose("len", 3)]
					o := &fileOp{name: []string{"seal", "open"}[x.Choose("op", 2)], k: k, msg: bigBytes(4, n+8)[:n]}
					var pts []int
					for i := 0; i <= n*3/2+300; i++ {
						near := i%512 == 0
						ends := []int{n}
						for c := 0; c*ref.Chunk <= n+ref.Chunk; c++ {
							if o.name == "open" {
								ends = append(ends, c*ref.Chunk)
							} else {
								l := (72 + c*(ref.Chunk+16) + 2) / 3 * 4
								ends = append(ends, 43+l+l/72)
							}
						}
						raw := 72 + n + 16*((n+ref.Chunk-1)/ref.Chunk)
						l := (raw + 2) / 3 * 4
						if o.name == "seal" {
							ends = append(ends, 43+l+(l+71)/72)
						}
						for _, e := range ends {
							near = near || i > e-60 && i < e+60
						}
						if near {
							pts = append(pts, i)
						}
					}
					i := pts[x.Choose("size", len(pts))]
					noPrompt(x)
					setRand(x, hashStream("c14"))
					o.prepare(x)
					x.Op("%s with files limited to %d bytes", o.name, i)
					err := limited(uint64(i), func() error { return o.inProcess(x) })
					if miss := o.complete(x); err == nil && miss != "" {
						x.Fail("false-success", "%s of %d bytes with storage for %d reports success: %s", o.name, n, i, miss)
					}
					x.State(o.name, n, i, err == nil)
				}},
			}
		},
	})
}
