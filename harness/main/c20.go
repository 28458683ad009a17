//go:build race && verifyield

package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// C20 runs pairs of operations as coroutines. The operations give up control before every file
// operation (package os is compiled with a call of os.VerifYield in front of them), every use of
// the random source, every prompt and every use of a caller's reader or writer; the explorer
// decides who continues. The hand-over itself uses accesses the race detector does not see, so
// that it orders nothing and every execution is also judged by the race detector.

type sched struct {
	turn  uint32 // 0: the controller's, i+1: operation i's
	free  bool   // no control any more
	gid   [3]uint64
	done  [3]bool
	at    [3]string
	label [3]string
	n     [3]int
	rnd   [3]*stream
	pass  [3]string
}

var cur *sched

//go:norace
//go:noinline
func (s *sched) getTurn() uint32 { return s.turn }

//go:norace
//go:noinline
func (s *sched) setTurn(v uint32) { s.turn = v }

//go:norace
//go:noinline
func (s *sched) isFree() bool { return s.free }

//go:norace
//go:noinline
func (s *sched) setFree() { s.free = true }

//go:norace
//go:noinline
func (s *sched) finish(i int) { s.done[i] = true; s.turn = 0 }

//go:norace
//go:noinline
func (s *sched) isDone(i int) bool { return s.done[i] }

//go:norace
//go:noinline
func (s *sched) setGid(i int, g uint64) { s.gid[i] = g }

//go:norace
//go:noinline
func (s *sched) who(g uint64) int {
	for i := range s.gid {
		if s.gid[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
//go:noinline
func (s *sched) setAt(i int, l string) { s.at[i] = l }

//go:norace
//go:noinline
func (s *sched) getAt(i int) string { return s.at[i] }

//go:norace
//go:noinline
func (s *sched) count(i int, l string) int {
	if s.label[i] != l {
		s.label[i], s.n[i] = l, 0
	}
	s.n[i]++
	return s.n[i]
}

//go:norace
//go:noinline
func current() *sched { return cur }

//go:norace
//go:noinline
func setCurrent(s *sched) { cur = s }

// goid is the current goroutine's number.
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	v := uint64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + uint64(c-'0')
	}
	return v
}

func (s *sched) wait(i int) {
	for k := 0; s.getTurn() != uint32(i+1) && !s.isFree(); k++ {
		runtime.Gosched()
	}
}

// yield gives up control before the operation named by label. Long runs of the same small
// operation give up control at the 1st, 2nd, 4th, 8th, ... of them.
func yield(label string) {
	s := current()
	if s == nil {
		return
	}
	i := s.who(goid())
	if i < 0 || s.isFree() {
		return
	}
	if n := s.count(i, label); n&(n-1) != 0 {
		return
	}
	s.setAt(i, label)
	s.setTurn(0)
	s.wait(i)
}

// blocked reports whether the operation waits for another goroutine.
func (s *sched) blocked(i int) bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	head := fmt.Sprintf("goroutine %d [", s.getGid(i))
	j := bytes.Index(b, []byte(head))
	if j < 0 {
		return false
	}
	state := string(b[j+len(head):])
	if j = strings.IndexAny(state, ",]"); j >= 0 {
		state = state[:j]
	}
	return strings.HasPrefix(state, "sync.") || strings.HasPrefix(state, "sema") || strings.HasPrefix(state, "chan ") || state == "select"
}

//go:norace
//go:noinline
func (s *sched) getGid(i int) uint64 { return s.gid[i] }

// whoami is the operation running in this goroutine.
func whoami() (*sched, int) {
	s := current()
	if s == nil {
		return nil, -1
	}
	return s, s.who(goid())
}

// ---- what the operations talk to -----------------------------------------------------------------

type yieldRand struct{}

func (yieldRand) Read(p []byte) (int, error) {
	yield("random source")
	s, i := whoami()
	if i < 0 {
		panic("harness: random source used outside the operations")
	}
	return s.rnd[i].Read(p)
}

type yieldReader struct{ r io.Reader }

func (y yieldReader) Read(p []byte) (int, error) { yield("caller's reader"); return y.r.Read(p) }

type yieldWriter struct{ w io.Writer }

func (y yieldWriter) Write(p []byte) (int, error) { yield("caller's writer"); return y.w.Write(p) }

// ---- the operations --------------------------------------------------------------------------------

// parOp is one operation on data of its own, which the slot numbers.
type parOp struct {
	name  string
	quick bool
	pass  string
	file  bool                                           // made by fileOpOf
	prep  func(x *mc.X, slot int) func() (string, error) // fixtures and loaded keys; the operation itself
	outs  []string                                       // suffixes of files it produces
}

func slotName(slot int, what string) string { return fmt.Sprintf("%c%s", 'a'+slot, what) }

var (
	parSealed = map[string][]byte{}
	keyCache  = map[string]*keyFix{}
)

func slotKey(slot int, pass string) *keyFix {
	n := slotName(slot, "race")
	if keyCache[n+pass] == nil {
		keyCache[n+pass] = fixKey(n, pass)
	}
	return keyCache[n+pass]
}

func slotMsg(slot, n int) []byte {
	return bigBytes(uint64(77+slot), n+8)[:n]
}

// relDir is the working directory of operations with relative names.
const relDir = "zwork"

func goRelDir(x *mc.X) {
	old, err := os.Getwd()
	if err != nil || strings.HasSuffix(old, "/"+relDir) {
		old = "/"
	}
	mkdir(x.Path(relDir))
	os.Chdir(x.Path(relDir))
	x.Cleanup(func() { os.Chdir(old) })
}

// relOps are the operations on files, with names relative to a working directory.
func relOps() []parOp {
	var r []parOp
	for _, o := range parOpsIn(true) {
		if o.file {
			o.name += "-relative"
			r = append(r, o)
		}
	}
	return r
}

func parOps() []parOp { return parOpsIn(false) }

func parOpsIn(rel bool) []parOp {
	fileOpOf := func(pass string, f func(p func(string) string, k *keyFix, slot int) func() error) func(x *mc.X, slot int) func() (string, error) {
		return func(x *mc.X, slot int) func() (string, error) {
			p := func(w string) string { return x.Path(slotName(slot, w)) }
			if rel {
				goRelDir(x)
				p = func(w string) string { return "../" + slotName(slot, w) }
			}
			k := slotKey(slot, pass)
			k.put(p("k"))
			write(p("m"), slotMsg(slot, 150+40*slot))
			g := f(p, k, slot)
			return func() (string, error) { return "", g() }
		}
	}
	sealed := func(k *keyFix, slot, n int, armor bool) []byte {
		msg := slotMsg(slot, n)
		var esk [32]byte
		copy(esk[:], bigBytes(uint64(3+slot), 32))
		key := fmt.Sprint(k.name, k.pass, n, armor)
		if parSealed[key] == nil {
			b := ref.SealRaw(k.boxPub(), &esk, msg)
			if armor {
				b = ref.EncFile("x", b)
			}
			parSealed[key] = b
		}
		return parSealed[key]
	}
	ops := []parOp{
		{name: "generate", quick: true, outs: []string{"n.sec", "n.pub"}, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			return func() error { return signify.GenerateKey(p("n"), nil, nil) }
		})},
		{name: "generate-protected", outs: []string{"n.sec", "n.pub"}, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			pass := []byte(slotName(slot, "pass"))
			return func() error { return signify.GenerateKey(p("n"), pass, &signify.GenerateOptions{Rounds: 1 + slot}) }
		})},
		{name: "sign", quick: true, outs: []string{"m.sig"}, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			return func() error { return signify.Sign(p("k.sec"), p("m"), "") }
		})},
		{name: "sign-protected", pass: "pp", outs: []string{"m.sig"}, prep: fileOpOf("pp", func(p func(string) string, k *keyFix, slot int) func() error {
			return func() error { return signify.Sign(p("k.sec"), p("m"), "") }
		})},
		{name: "verify", quick: true, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			write(p("m.sig"), ref.File("s", ref.SignRec(k.seed, k.num, slotMsg(slot, 150+40*slot))))
			return func() error { return signify.Verify(p("k.pub"), p("m"), p("m.sig")) }
		})},
		{name: "verify-bad", quick: true, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			write(p("m.sig"), ref.File("s", ref.SignRec(k.seed, k.num, slotMsg(slot, 9))))
			return func() error { return signify.Verify(p("k.pub"), p("m"), p("m.sig")) }
		})},
		{name: "encrypt", quick: true, outs: []string{"m.enc"}, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			return func() error { return crypto.Seal(p("k.pub"), p("m"), "") }
		})},
		{name: "decrypt", quick: true, outs: []string{"d"}, prep: fileOpOf("", func(p func(string) string, k *keyFix, slot int) func() error {
			write(p("c"), sealed(k, slot, 60+30*slot, true))
			return func() error { return crypto.Open(p("k.sec"), p("c"), p("d")) }
		})},
		{name: "decrypt-protected", pass: "pp", outs: []string{"d"}, prep: fileOpOf("pp", func(p func(string) string, k *keyFix, slot int) func() error {
			write(p("c"), sealed(k, slot, 60+30*slot, true))
			return func() error { return crypto.Open(p("k.sec"), p("c"), p("d")) }
		})},
		{name: "encrypt-stream", quick: true, prep: func(x *mc.X, slot int) func() (string, error) {
			_, pub := slotKey(slot, "").load(x)
			msg := slotMsg(slot, 16385+40*slot+5)
			return func() (string, error) {
				var b bytes.Buffer
				err := crypto.VerifSeal(pub, yieldReader{bytes.NewReader(msg)}, len(msg), yieldWriter{&b})
				return b.String(), err
			}
		}},
		{name: "decrypt-stream", quick: true, prep: func(x *mc.X, slot int) func() (string, error) {
			k := slotKey(slot, "")
			priv, _ := k.load(x)
			in := sealed(k, slot, 16385+40*slot+5, false)
			return func() (string, error) {
				var b bytes.Buffer
				err := crypto.VerifOpen(priv, yieldReader{bytes.NewReader(in)}, yieldWriter{&b})
				return b.String(), err
			}
		}},
		{name: "convert-public", quick: true, prep: func(x *mc.X, slot int) func() (string, error) {
			_, pub := slotKey(slot, "").load(x)
			return func() (string, error) { return boxString(pub.ToBox()) }
		}},
		{name: "convert-protected", pass: "pp", prep: func(x *mc.X, slot int) func() (string, error) {
			priv, _ := slotKey(slot, "pp").load(x)
			return func() (string, error) {
				a, err := boxString(priv.ToBox())
				if err != nil {
					return a, err
				}
				b, err := boxString(priv.ToBox())
				return a + b, err
			}
		}},
		{name: "base64-encode", quick: true, prep: func(x *mc.X, slot int) func() (string, error) {
			msg := slotMsg(slot, 50+slot)
			return func() (string, error) {
				var b bytes.Buffer
				e := base64.NewEncoder(yieldWriter{&b})
				for i := 0; i < len(msg); i += 7 {
					j := i + 7
					if j > len(msg) {
						j = len(msg)
					}
					if _, err := e.Write(msg[i:j]); err != nil {
						return b.String(), err
					}
				}
				err := e.Close()
				return b.String(), err
			}
		}},
		{name: "base64-decode", quick: true, prep: func(x *mc.X, slot int) func() (string, error) {
			in := []byte(b64(slotMsg(slot, 40+slot)) + "\n")
			return func() (string, error) {
				d := base64.NewDecoder(yieldReader{bytes.NewReader(in)})
				var out []byte
				p := make([]byte, 5)
				for {
					n, err := d.Read(p)
					out = append(out, p[:n]...)
					if err == io.EOF {
						return string(out), nil
					} else if err != nil {
						return string(out), err
					}
				}
			}
		}},
	}
	for i := range ops {
		switch ops[i].name {
		case "generate", "generate-protected", "sign", "sign-protected", "verify", "verify-bad", "encrypt", "decrypt", "decrypt-protected":
			ops[i].file = true
		}
	}
	return ops
}

// sharedOps read the same key, message, signature and encrypted files.
func sharedOps() []parOp {
	of := func(pass string, f func(in, out func(string) string, k *keyFix) func() error) func(x *mc.X, slot int) func() (string, error) {
		return func(x *mc.X, slot int) func() (string, error) {
			in := func(w string) string { return x.Path("z" + pass + w) }
			k := slotKey(0, pass)
			if slot == 0 || !exists(in("c")) {
				k.put(in("k"))
				msg := slotMsg(0, 170)
				write(in("m"), msg)
				write(in("s"), ref.File("s", ref.SignRec(k.seed, k.num, msg)))
				var esk [32]byte
				esk[9] = 9
				write(in("c"), ref.EncFile("x", ref.SealRaw(k.boxPub(), &esk, msg)))
			}
			g := f(in, func(w string) string { return x.Path(slotName(slot, w)) }, k)
			return func() (string, error) { return "", g() }
		}
	}
	var ops []parOp
	for _, pass := range []string{"", "pp"} {
		suffix := map[string]string{"": "", "pp": "-protected"}[pass]
		ops = append(ops,
			parOp{name: "sign" + suffix + "-shared", pass: pass, quick: pass == "", outs: []string{"o"}, prep: of(pass, func(in, out func(string) string, k *keyFix) func() error {
				return func() error { return signify.Sign(in("k.sec"), in("m"), out("o")) }
			})},
			parOp{name: "decrypt" + suffix + "-shared", pass: pass, quick: pass == "", outs: []string{"o"}, prep: of(pass, func(in, out func(string) string, k *keyFix) func() error {
				return func() error { return crypto.Open(in("k.sec"), in("c"), out("o")) }
			})})
	}
	return append(ops,
		parOp{name: "verify-shared", quick: true, prep: of("", func(in, out func(string) string, k *keyFix) func() error {
			return func() error { return signify.Verify(in("k.pub"), in("m"), in("s")) }
		})},
		parOp{name: "encrypt-shared", quick: true, outs: []string{"o"}, prep: of("", func(in, out func(string) string, k *keyFix) func() error {
			return func() error { return crypto.Seal(in("k.pub"), in("m"), out("o")) }
		})})
}

func boxString(k *[32]byte, err error) (string, error) {
	if k == nil {
		return "", err
	}
	return fmt.Sprintf("%x", *k), err
}

// parResult is all that can be observed of an operation.
type parResult struct {
	out, err string
	files    map[string]string // with modes
}

func (r parResult) diff(o parResult) string {
	switch {
	case r.err != o.err:
		return fmt.Sprintf("it returned %q instead of %q", r.err, o.err)
	case r.out != o.out:
		return fmt.Sprintf("its result differs (%s)", diffAt([]byte(r.out), []byte(o.out)))
	}
	if d := diffTree(r.files, o.files); len(d) > 0 {
		sort.Strings(d)
		return fmt.Sprintf("its files %s differ: %s instead of %s", join(d), short([]byte(r.files[d[0]])), short([]byte(o.files[d[0]])))
	}
	return ""
}

// slotFiles collects the files that carry the slot's letter.
func slotFiles(x *mc.X, slot int) map[string]string {
	m := map[string]string{}
	ents, _ := os.ReadDir(x.Dir())
	for _, e := range ents {
		if e.Name()[0] != byte('a'+slot) {
			continue
		}
		fi, _ := e.Info()
		b, _ := os.ReadFile(x.Path(e.Name()))
		m[e.Name()] = fmt.Sprintf("%v %s", fi.Mode(), b)
	}
	return m
}

// together runs the operations under the explorer's control and returns what each did.
func together(x *mc.X, ops []parOp, slots []int) []parResult {
	s := &sched{}
	bodies := make([]func() (string, error), len(ops))
	for i, o := range ops {
		bodies[i] = o.prep(x, slots[i])
		s.rnd[i] = hashStream(fmt.Sprintf("par %s %d", o.name, slots[i]))
		s.pass[i] = o.pass
	}
	oldPrompt, oldRand := signify.PassphrasePrompt, rand.Reader
	rand.Reader = yieldRand{}
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		yield("prompt")
		s, i := whoami()
		if i < 0 || s.pass[i] == "" {
			return nil, errors.New("unexpected prompt")
		}
		return []byte(s.pass[i]), nil
	}
	res := make([]parResult, len(ops))
	var wg sync.WaitGroup
	for i := range ops {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.setGid(i, goid())
			s.wait(i)
			func() {
				defer func() {
					if p := recover(); p != nil {
						res[i].err = fmt.Sprintf("panic: %v", p)
					}
				}()
				out, err := bodies[i]()
				res[i].out = out
				if err != nil {
					res[i].err = "error: " + strings.Replace(err.Error(), x.Dir(), "DIR", -1)
				}
			}()
			s.finish(i)
		}()
	}
	setCurrent(s)
	defer func() {
		s.setFree()
		wg.Wait()
		setCurrent(nil)
		signify.PassphrasePrompt, rand.Reader = oldPrompt, oldRand
	}()
	now := -1
	for {
		var ready []int
		if now >= 0 && !s.isDone(now) {
			ready = append(ready, now)
		}
		for i := range ops {
			if i != now && !s.isDone(i) {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			break
		}
		c := 0
		if now < 0 || s.isDone(now) { // someone has to be chosen
			if len(ready) > 1 {
				c = x.Choose("next", len(ready))
			}
		} else if len(ready) > 1 {
			c = x.Dev("switch before "+s.getAt(now), len(ready))
		}
		now = ready[c]
		x.Op("operation %d (%s) runs on from: %s", now, ops[now].name, s.getAt(now))
		s.setTurn(uint32(now + 1))
		for k := 1; s.getTurn() != 0; k++ {
			runtime.Gosched()
			if k%20000 == 0 && s.blocked(now) {
				// It waits for the other one, which holds a lock: the rest runs uncontrolled.
				x.Op("operation %d is blocked", now)
				s.setFree()
				wg.Wait()
			}
		}
	}
	s.setFree()
	wg.Wait()
	setCurrent(nil)
	for i := range res {
		res[i].files = slotFiles(x, slots[i])
	}
	return res
}

var soloResults = map[string]parResult{}

// solo is what the operation does when it runs alone.
func solo(x *mc.X, o parOp, slot int) parResult {
	key := fmt.Sprint(o.name, slot)
	if r, ok := soloResults[key]; ok {
		return r
	}
	r := together(x, []parOp{o}, []int{slot})[0]
	for n := range slotFiles(x, slot) {
		os.Remove(x.Path(n))
	}
	soloResults[key] = r
	return r
}

// runTogether runs the operations under the explorer's control and alone. With first, they meet
// in a process in which none of them has run before.
func runTogether(x *mc.X, ops []parOp, first bool) {
	slots := make([]int, len(ops))
	want := make([]parResult, len(ops))
	for i := range ops {
		slots[i] = i
		if !first {
			want[i] = solo(x, ops[i], i)
		}
	}
	races := runtime.RaceErrors()
	got := together(x, ops, slots)
	if first {
		for i := range ops {
			for n := range got[i].files {
				os.Remove(x.Path(n))
			}
		}
		for i := range ops {
			want[i] = solo(x, ops[i], i)
		}
	}
	names := make([]string, len(ops))
	for i := range ops {
		names[i] = ops[i].name
		if d := got[i].diff(want[i]); d != "" {
			x.Fail("interference", "%s ran together with %v: %s", ops[i].name, others(ops, i), d)
		}
		x.State(ops[i].name, i, got[i].out, got[i].err)
		for _, suffix := range ops[i].outs {
			x.Check(got[i].files[slotName(i, suffix)] != "", "no-output", "%s made no %s", ops[i].name, suffix)
		}
	}
	if n := runtime.RaceErrors(); n > races {
		x.Fail("race", "the race detector reported %d data races between %s", n-races, join(names))
	}
	if first {
		x.Outcome("first use")
		return
	}
	x.Outcome("%s", strings.Join(names, " with "))
}

func others(ops []parOp, i int) string {
	var n []string
	for j, o := range ops {
		if j != i {
			n = append(n, o.name)
		}
	}
	return join(n)
}

// cheapOps leaves out the operations that derive a key from a passphrase.
func cheapOps() []parOp { return cheapOf(parOps()) }

func cheapOf(ops []parOp) []parOp {
	var c []parOp
	for _, o := range ops {
		if o.quick && (mc.HaveStreams || !strings.HasSuffix(o.name, "-stream")) {
			c = append(c, o)
		}
	}
	return c
}

// failedOps are operations that fail half-way, as may have happened before two others meet.
func failedOps(x *mc.X) []func() {
	p := func(n string) string { return x.Path("zf" + n) }
	k := slotKey(0, "")
	k.put(p("k"))
	msg := slotMsg(0, 2*ref.Chunk+9)
	write(p("m"), msg)
	mkdir(p("dir"))
	var e [32]byte
	e[4] = 4
	raw := ref.SealRaw(k.boxPub(), &e, msg)
	bad := append([]byte(nil), raw...)
	bad[len(bad)-1] ^= 1
	write(p("bad"), ref.EncFile("x", bad))
	bad = append([]byte(nil), raw...)
	bad[9] ^= 1
	write(p("head"), ref.EncFile("x", bad))
	write(p("text"), []byte("untrusted comment: x\nno base64 at all!\n"))
	write(p("good"), ref.EncFile("x", raw))
	other := slotKey(1, "")
	other.put(p("o"))
	write(p("s"), ref.File("s", ref.SignRec(k.seed, k.num, msg)))
	l := []func(){
		func() { signify.Sign(p("k.sec"), p("m"), p("dir")) },
		func() { signify.Sign(p("text"), p("m"), p("x")) },
		func() { signify.Sign(p("k.sec"), p("none"), p("x")) },
		func() { signify.GenerateKey(p("none/k"), nil, nil) },
		func() { signify.Verify(p("k.pub"), p("m"), p("text")) },
		func() { signify.Verify(p("k.pub"), p("m"), p("none")) },
		func() { signify.Verify(p("o.pub"), p("m"), p("s")) },
		func() { crypto.Seal(p("k.pub"), p("m"), p("dir")) },
		func() { crypto.Seal(p("text"), p("m"), p("x")) },
		func() { crypto.Seal(p("k.pub"), p("none"), p("x")) },
		func() { crypto.Open(p("k.sec"), p("bad"), p("x")) },
		func() { crypto.Open(p("k.sec"), p("head"), p("x")) },
		func() { crypto.Open(p("k.sec"), p("text"), p("x")) },
		func() { crypto.Open(p("k.sec"), p("good"), p("dir")) },
		func() { crypto.Open(p("o.sec"), p("good"), p("x")) },
		func() {
			w := base64.NewEncoder(&kindSink{at: 1, err: errIface})
			w.Write(msg[:20])
			w.Close()
		},
		func() { io.Copy(io.Discard, base64.NewDecoder(strings.NewReader("AAAA?AAA\n"))) },
		func() {
			io.Copy(io.Discard, base64.NewDecoder(&failSource{data: []byte("AAAABBBBCCCC\n"), at: 5, piece: 1, err: errIface}))
		},
	}
	if mc.HaveStreams {
		priv, pub := k.load(x)
		l = append(l,
			func() {
				crypto.VerifSeal(pub, &failSource{data: msg, at: 1, piece: 9000, err: errIface}, len(msg), io.Discard)
			},
			func() {
				crypto.VerifSeal(pub, bytes.NewReader(msg), len(msg), &kindSink{at: 2, err: errIface})
			},
			func() {
				crypto.VerifOpen(priv, fullReader{bytes.NewReader(raw)}, &kindSink{at: 1, err: errIface})
			},
			func() {
				crypto.VerifOpen(priv, fullReader{bytes.NewReader(raw[:20000])}, io.Discard)
			})
	}
	return l
}

func init() {
	os.VerifYield = yield
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1) // control is handed over by spinning
	pairs := func(a []parOp, b []parOp) [][]parOp {
		var ps [][]parOp
		for i, p := range a {
			for j, q := range b {
				if a[0].name == b[0].name && j < i {
					continue
				}
				ps = append(ps, []parOp{p, q})
			}
		}
		return ps
	}
	body := func(ps [][]parOp) func(x *mc.X) {
		return func(x *mc.X) { runTogether(x, ps[x.Choose("pair", len(ps))], false) }
	}
	failed := func(ps [][]parOp, all bool) func(x *mc.X) {
		return func(x *mc.X) {
			p := ps[x.Choose("pair", len(ps))]
			setRand(x, hashStream("c20 failed"))
			l := failedOps(x)
			if !all {
				i := x.Choose("failed", len(l))
				l = l[i : i+1]
			}
			for _, f := range l {
				f()
			}
			x.Op("%d operations failed", len(l))
			runTogether(x, p, false)
		}
	}
	first := func(ps [][]parOp) func(x *mc.X) {
		return func(x *mc.X) {
			p := ps[x.Choose("pair", len(ps))]
			x.Fresh(func() { runTogether(x, p, true) })
		}
	}
	mc.Register(mc.Property{
		ID: "C20", Level: "model_checking",
		Rule: "state: distinct (operation, result); transition: one stretch of an operation between two points where control can pass to the other; trace: one interleaving, compared with the operations' solo runs and judged by the race detector",
		Assumptions: []string{
			"control passes only in front of file operations, uses of the random source, prompts and uses of a caller's reader or writer (of long runs of the same one, at the 1st, 2nd, 4th, ... of them); conflicts in between are left to the race detector, which watches every execution",
			"the files the operations write have different names in the same directory; two operations that read the same files are explored in pairs-shared"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			var slow []parOp
			for _, o := range parOps() {
				if !o.quick {
					slow = append(slow, o)
				}
			}
			cheap := cheapOps()
			partners := cheap
			if t == mc.Quick { // deriving keys is slow under the race detector
				partners = nil
				for _, o := range cheap {
					if o.name == "generate" || o.name == "decrypt" || o.name == "encrypt-stream" {
						partners = append(partners, o)
					}
				}
			}
			ps, qs := pairs(cheap, cheap), append(pairs(slow, slow), pairs(slow, partners)...)
			shared := sharedOps()
			if t == mc.Quick {
				shared = cheapOf(shared)
			}
			ss := pairs(shared, shared)
			var files []parOp
			for _, o := range cheap {
				if o.file {
					files = append(files, o)
				}
			}
			rs := append(pairs(cheapOf(relOps()), files), pairs(cheapOf(relOps()), cheapOf(relOps()))...)
			var same [][]parOp
			for _, o := range cheap {
				same = append(same, []parOp{o, o})
			}
			fs, gs := pairs(cheap, cheap), pairs(slow, cheap)
			bound := t.Pick(2, 3)
			sc := []mc.Scenario{
				{Name: "pairs", Bounds: fmt.Sprintf("all interleavings of all %d pairs of %d operations with at most %d preemptions", len(ps), len(cheap), bound), MaxDev: bound, ShardDepth: 3, Body: body(ps)},
				{Name: "pairs-protected", Bounds: fmt.Sprintf("all interleavings of %d pairs with an operation that derives a key from a passphrase (%d such operations with each other and with %d others), with at most %d preemptions", len(qs), len(slow), len(partners), bound-1), MaxDev: bound - 1, ShardDepth: 3, Body: body(qs)},
				{Name: "pairs-shared", Bounds: fmt.Sprintf("all interleavings of all %d pairs of %d operations that read the same key, message, signature or encrypted file and write different ones, with at most %d preemptions", len(ss), len(shared), bound), MaxDev: bound, ShardDepth: 3, Body: body(ss)},
				{Name: "pairs-relative", Bounds: fmt.Sprintf("all interleavings of all %d pairs of an operation with names relative to the working directory and one with absolute or relative names, with at most %d preemptions", len(rs), bound), MaxDev: bound, ShardDepth: 3, Body: body(rs)},
				{Name: "after-failures", Bounds: fmt.Sprintf("all interleavings of all %d pairs of %d operations with at most 1 preemption, after 18 operations (22 with streams) that failed half-way", len(ps), len(cheap)), MaxDev: 1, ShardDepth: 3, Body: failed(ps, true)},
				{Name: "after-a-failure", Bounds: fmt.Sprintf("all interleavings of two operations of the same kind (%d kinds) with at most 1 preemption, after each of 18 (22) operations that failed half-way", len(same)), MaxDev: 1, ShardDepth: 3, Body: failed(same, false)},
				{Name: "first-use", Bounds: fmt.Sprintf("%d pairs, each interleaving with at most 1 preemption in a process of its own in which nothing has run before", len(fs)), MaxDev: 1, Body: first(fs)},
				{Name: "first-use-protected", Bounds: fmt.Sprintf("%d pairs with an operation that derives a key, each interleaving with at most %d preemptions in a process of its own", len(gs), t.Pick(0, 1)), MaxDev: t.Pick(0, 1), Body: first(gs)},
			}
			if t == mc.Thorough {
				var ts [][]parOp
				for i := range cheap {
					for j := i; j < len(cheap); j++ {
						for k := j; k < len(cheap); k++ {
							ts = append(ts, []parOp{cheap[i], cheap[j], cheap[k]})
						}
					}
				}
				sc = append(sc, mc.Scenario{Name: "triples", Bounds: fmt.Sprintf("all interleavings of all %d triples of operations with at most 1 preemption", len(ts)), MaxDev: 1, ShardDepth: 3, Body: body(ts)})
			}
			return sc
		},
	})
}
