package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// held is what the process holds on to.
type held struct {
	fds        []string
	goroutines int
	state      string // working directory, umask, environment, limits
}

func holding() held {
	var h held
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	for _, e := range ents {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(l, "anon_inode:") || strings.HasPrefix(l, "/proc/") {
			continue // the directory just read, and the runtime's poller
		}
		var fd int
		var st syscall.Stat_t
		fmt.Sscan(e.Name(), &fd)
		syscall.Fstat(fd, &st)
		h.fds = append(h.fds, fmt.Sprintf("%s %s %d:%d", e.Name(), l, st.Dev, st.Ino))
	}
	sort.Strings(h.fds)
	h.goroutines = runtime.NumGoroutine()
	wd, err := os.Getwd()
	um := syscall.Umask(022)
	syscall.Umask(um)
	var lims []syscall.Rlimit
	for _, r := range []int{syscall.RLIMIT_FSIZE, syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE} {
		var l syscall.Rlimit
		syscall.Getrlimit(r, &l)
		lims = append(lims, l)
	}
	h.state = fmt.Sprintf("working directory %s (%v), umask %04o, environment %q, limits %v", wd, err, um, os.Environ(), lims)
	return h
}

// failAfter is a random source that fails after n bytes.
type failAfter struct {
	r io.Reader
	n int
}

func (f *failAfter) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errors.New("no randomness")
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	return n, err
}

// settle collects garbage and waits for the finalizers.
func settle() {
	// what the first collection finds is finalized before what the second one finds
	for i := 0; i < 2; i++ {
		done := make(chan bool)
		runtime.SetFinalizer(&struct{ a, b *int }{new(int), nil}, func(interface{}) { close(done) })
		runtime.GC()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			panic("harness: finalizers do not run")
		}
	}
}

// released runs f and checks that nothing is kept.
func released(x *mc.X, what string, outputs []string, f func() error) error {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // no finalizer may tidy up
	tmp := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("tmp%d", os.Getpid()))
	mkdir(tmp)
	defer os.RemoveAll(tmp)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer os.Setenv("TMPDIR", old)
	files := tree(x.Dir())
	settle()
	before := holding()
	x.Op("%s", what)
	err := f()
	after := holding()
	for end := time.Now().Add(2 * time.Second); after.goroutines > before.goroutines && time.Now().Before(end); {
		time.Sleep(100 * time.Microsecond)
		after.goroutines = runtime.NumGoroutine()
	}
	had := map[string]bool{}
	for _, d := range before.fds {
		had[d] = true
	}
	for _, d := range after.fds {
		x.Check(had[d], "file-left-open", "%s (error %v) leaves descriptor %s open", what, err, d)
	}
	x.Check(len(after.fds) == len(before.fds), "file-closed", "%s (error %v): a descriptor of the caller was closed: %q, %q", what, err, before.fds, after.fds)
	x.Check(after.goroutines <= before.goroutines, "goroutine-left", "%s (error %v) leaves %d goroutines running", what, err, after.goroutines-before.goroutines)
	x.Check(after.state == before.state, "process-state", "%s (error %v) changes the process: %s", what, err, diffAt([]byte(after.state), []byte(before.state)))
	settle()
	later := holding()
	x.Check(join(later.fds) == join(before.fds), "file-closed", "%s (error %v): after a garbage collection the descriptors are %q instead of %q", what, err, later.fds, before.fds)
	x.Check(later.goroutines <= before.goroutines, "goroutine-left", "%s (error %v) leaves %d goroutines running after a garbage collection", what, err, later.goroutines-before.goroutines)
	ok := map[string]bool{}
	for _, o := range outputs {
		ok[o] = true
	}
	for n := range tree(x.Dir()) {
		_, was := files[n]
		x.Check(was || ok[n], "file-left-behind", "%s (error %v) leaves file %s behind", what, err, n)
	}
	if l := tree(tmp); len(l) > 0 {
		x.Fail("file-left-behind", "%s (error %v) leaves %d temporary files behind", what, err, len(l))
	}
	return err
}

func init() {
	mc.Register(mc.Property{
		ID: "C27", Level: "model_checking",
		Rule:        "state: distinct (operation, key, fault, result); transition: one operation; trace: one operation, before and after which the process's descriptors, goroutines, state and files are compared",
		Assumptions: []string{"garbage collection is off while an operation is judged, so a descriptor closed by a finalizer counts as left open"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			long := bigBytes(31, 60000)[:60000]
			msg := long[:20000]
			conds := conditions(msg)
			const pass = "open sesame"
			prot, plain := fixKey("c27", pass), fixKey("c27n", "")
			var e [32]byte
			e[7] = 1
			sealedOf := map[*keyFix][]byte{}
			for _, k := range []*keyFix{prot, plain} {
				sealedOf[k] = ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &e, msg))
			}
			put := func(x *mc.X, k *keyFix) {
				k.put(x.Path("k"))
				write(x.Path("m"), msg)
				write(x.Path("s"), ref.File("verify with k.pub", ref.SignRec(k.seed, k.num, msg)))
				write(x.Path("e"), sealedOf[k])
			}
			names := []string{"gen", "sign", "verify", "seal", "open", "load-secret", "load-public", "convert"}
			outs := map[string][]string{"gen": {"out.sec", "out.pub"}, "sign": {"out"}, "seal": {"out"}, "open": {"out"}}
			do := func(x *mc.X, op, genPass string) error {
				p := x.Path
				switch op {
				case "gen":
					return signify.GenerateKey(p("out"), []byte(genPass), &signify.GenerateOptions{Rounds: 1})
				case "sign":
					return signify.Sign(p("k.sec"), p("m"), p("out"))
				case "verify":
					return signify.Verify(p("k.pub"), p("m"), p("s"))
				case "seal":
					return crypto.Seal(p("k.pub"), p("m"), p("out"))
				case "open":
					return crypto.Open(p("k.sec"), p("e"), p("out"))
				case "load-secret":
					_, err := signify.LoadPrivateKey(p("k.sec"))
					return err
				case "load-public":
					_, err := signify.LoadPublicKey(p("k.pub"))
					return err
				}
				k, err := signify.LoadPrivateKey(p("k.sec"))
				if err == nil {
					_, err = k.ToBox()
				}
				return err
			}
			pick := func(x *mc.X) (*keyFix, string, string) {
				op := names[x.Choose("operation", len(names))]
				k := plain
				if x.Bool("protected") {
					k = prot
				}
				put(x, k)
				return k, op, fmt.Sprintf("%s (key protected %v)", op, k == prot)
			}
			answer := func(x *mc.X, k *keyFix, a int) {
				setPrompt(x, func(int, bool) ([]byte, error) {
					switch a {
					case 0:
						return []byte(pass), nil
					case 1:
						return []byte("wrong"), nil
					}
					return nil, errPrompt
				})
			}
			finish := func(x *mc.X, op string, err error, parts ...interface{}) {
				x.State(append(parts, op, err == nil)...)
				x.Outcome("%s success %v", op, err == nil)
			}
			return []mc.Scenario{
				{Name: "conditions", ShardDepth: 2, Bounds: fmt.Sprintf("8 operations x plain and protected key x %d conditions of inputs and outputs x right, wrong or no passphrase", len(conds)), Body: func(x *mc.X) {
					k, op, what := pick(x)
					ci := x.Choose("condition", len(conds))
					conds[ci].apply(x)
					a := 0
					if k == prot && (op == "sign" || op == "open" || op == "convert") {
						a = x.Choose("answer", 3)
					}
					answer(x, k, a)
					setRand(x, hashStream("c27"))
					what += fmt.Sprintf(" with %s, answer %d", conds[ci].name, a)
					err := released(x, what, outs[op], func() error { return do(x, op, k.pass) })
					finish(x, op, err, ci, a, k == prot)
				}},
				{Name: "full-disk", ShardDepth: 2, Bounds: "8 operations x plain and protected key with every output limited to 0..9, 50..52, 100, 1000, 16384, 20000 and 26000 bytes", Body: func(x *mc.X) {
					k, op, what := pick(x)
					lims := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 50, 51, 52, 100, 1000, 16384, 20000, 26000}
					n := lims[x.Choose("limit", len(lims))]
					answer(x, k, 0)
					setRand(x, hashStream("c27"))
					err := released(x, fmt.Sprintf("%s with outputs limited to %d bytes", what, n), outs[op], func() error {
						return limited(uint64(n), func() error { return do(x, op, k.pass) })
					})
					finish(x, op, err, n, k == prot)
				}},
				{Name: "no-descriptors", ShardDepth: 2, Bounds: "8 operations x plain and protected key with only 0..4 more files allowed to be open", Body: func(x *mc.X) {
					k, op, what := pick(x)
					n := x.Choose("allowed", 5)
					answer(x, k, 0)
					setRand(x, hashStream("c27"))
					err := released(x, fmt.Sprintf("%s with %d descriptors left", what, n), outs[op], func() error {
						var old syscall.Rlimit
						if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
						// fill the holes, so that exactly n descriptors are below the limit
						var fill []int
						max := 0
						for _, d := range holding().fds {
							var i int
							fmt.Sscan(d, &i)
							if i > max {
								max = i
							}
						}
						for {
							d, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
							if err != nil {
								panic(fmt.Sprintf("harness: %v", err))
							}
							fill = append(fill, d)
							if d > max {
								max = d
								break
							}
						}
						lim := old
						lim.Cur = uint64(max + 1 + n)
						if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
						err := do(x, op, k.pass)
						if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
						for _, d := range fill {
							syscall.Close(d)
						}
						return err
					})
					if n == 0 && op != "convert" && op != "load-secret" {
						x.Check(err != nil, "fault-ignored", "%s succeeds without being able to open a file", what)
					}
					finish(x, op, err, n, k == prot)
				}},
				{Name: "no-randomness", ShardDepth: 2, Bounds: "generating and encrypting with the random source failing after every number of bytes (generating: 0..31, encrypting: 0..130)", Body: func(x *mc.X) {
					op := []string{"gen", "seal"}[x.Choose("operation", 2)]
					n := x.Choose("bytes", 131)
					genPass := []string{"", pass}[x.Choose("passphrase", 2)]
					if op == "gen" && n >= 32 || op == "seal" && genPass != "" {
						return // rand.Read ends the process itself when the source fails
					}
					put(x, plain)
					setRand(x, &failAfter{hashStream("c27"), n})
					err := released(x, fmt.Sprintf("%s with %d bytes of randomness", op, n), outs[op], func() error { return do(x, op, genPass) })
					finish(x, op, err, n, genPass)
				}},
				{Streams: true, Name: "streams", ShardDepth: 3, Bounds: "streaming encryption and decryption and the coders over sources and destinations failing at every call up to 40, and messages of 4 chunks at calls up to 40 and 2^k and 2^k+1 up to 32768", Body: func(x *mc.X) {
					open := x.Bool("decrypt")
					coder := x.Bool("coder")
					side := x.Choose("failing", 2)
					m := msg[:500]
					ats := 41
					if x.Bool("long") {
						m = long
						ats += 20
					}
					at := x.Choose("call", ats)
					if at > 40 {
						at = 64<<uint((at-41)/2) + (at-41)%2
					}
					setRand(x, hashStream("c27"))
					priv, pub := plain.load(x)
					raw := ref.SealRaw(plain.boxPub(), &e, m)
					src := m
					if open {
						src = raw
						if coder {
							src = []byte(ref.Lines(raw, 72))
						}
					}
					calls := 0
					in := readerFunc(func(p []byte) (int, error) {
						calls++
						if side == 0 && calls > at {
							return 0, errors.New("source fails")
						}
						if len(src) == 0 {
							return 0, io.EOF
						}
						n := copy(p, src)
						src = src[n:]
						return n, nil
					})
					out := newSink()
					if side == 1 {
						out.failCall = at
					}
					err := released(x, fmt.Sprintf("streaming (decrypt %v, coder %v) with side %d failing at call %d", open, coder, side, at), nil, func() error {
						if open {
							var r io.Reader = fullReader{in}
							if coder {
								r = psb64.NewDecoder(in)
							}
							return crypto.VerifOpen(priv, r, out)
						}
						var w io.Writer = out
						if coder {
							enc := psb64.NewEncoder(out)
							defer enc.Close()
							w = enc
						}
						return crypto.VerifSeal(pub, in, len(m), w)
					})
					finish(x, "stream", err, open, coder, side, at, len(m))
				}},
				{Name: "terminal", Bounds: "the prompt of the package itself, alone (with and without confirmation) and in signing, decrypting and converting a protected key, on 8 kinds of standard input (closed, device, file, directory, pipe, terminal with the right, a wrong and different entries)", Body: func(x *mc.X) {
					const kinds = 8
					kind := x.Choose("stdin", kinds)
					op := []string{"sign", "open", "convert", "prompt", "confirm"}[x.Choose("operation", 5)]
					put(x, prot)
					setRand(x, hashStream("c27"))
					old, err := syscall.Dup(0)
					if err != nil {
						panic(fmt.Sprintf("harness: %v", err))
					}
					syscall.CloseOnExec(old)
					null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
					if err != nil {
						panic(fmt.Sprintf("harness: %v", err))
					}
					stdout := os.Stdout
					os.Stdout = null
					defer func() {
						os.Stdout = stdout
						syscall.Dup3(old, 0, 0)
						syscall.Close(old)
						null.Close()
					}()
					give := func(f *os.File, err error) {
						if err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
						syscall.Dup3(int(f.Fd()), 0, 0)
						f.Close()
					}
					var p *pty
					switch kind {
					case 0:
						syscall.Close(0)
					case 1:
						give(os.Open("/dev/null"))
					case 2:
						write(x.Path("typed"), []byte(pass+"\n"+pass+"\n"))
						give(os.Open(x.Path("typed")))
					case 3:
						give(os.Open(x.Dir()))
					case 4:
						r, w, err := os.Pipe()
						w.WriteString(pass + "\n" + pass + "\n")
						w.Close()
						give(r, err)
					default:
						p = openPty(x)
						for i := 0; i < 6; i++ {
							switch {
							case kind == 5:
								p.master.WriteString(pass + "\n")
							case kind == 6:
								p.master.WriteString("wrong\n")
							default:
								fmt.Fprintf(p.master, "%s%d\n", pass, i)
							}
						}
						syscall.Dup3(int(p.slave.Fd()), 0, 0)
					}
					what := fmt.Sprintf("%s with standard input of kind %d", op, kind)
					err = released(x, what, outs[op], func() error {
						switch op {
						case "prompt", "confirm":
							_, err := signify.PassphrasePrompt(op == "confirm")
							return err
						}
						return do(x, op, "")
					})
					finish(x, op, err, kind)
				}},
				{Name: "many", Bounds: fmt.Sprintf("%d runs of each operation, succeeding and failing, in a process that may open 40 files", t.Pick(60, 400)), Body: func(x *mc.X) {
					k, op, what := pick(x)
					fail := x.Bool("failing")
					answer(x, k, 0)
					setRand(x, hashStream("c27"))
					if fail {
						c := conds[6] // the output a directory
						c.apply(x)
						os.Remove(x.Path("s"))
						b, _ := os.ReadFile(x.Path("k.sec"))
						write(x.Path("k.sec"), bytes.Replace(b, []byte("A"), []byte("!"), 1))
					}
					var old syscall.Rlimit
					syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
					lim := old
					lim.Cur = uint64(len(holding().fds) + 40)
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
					defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
					first := ""
					err := released(x, what+" many times", outs[op], func() error {
						var err error
						for i := 0; i < t.Pick(60, 400); i++ {
							err = do(x, op, "")
							if s := fmt.Sprint(err); i == 0 {
								first = s
							} else if s != first {
								return fmt.Errorf("run %d: %v instead of %v", i, err, first)
							}
						}
						return nil
					})
					x.Check(err == nil, "exhausted", "%s: %v", what, err)
					finish(x, op, err, fail, k == prot)
				}},
			}
		},
	})
}
