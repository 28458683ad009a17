package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
	"golang.org/x/crypto/curve25519"
)

// modes lists every file below dir with its type and permissions.
func modes(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != dir {
			m[strings.TrimPrefix(p, dir+"/")] = fi.Mode().String()
		}
		return nil
	})
	return m
}

// world is what an independent model of the operations knows: the files, and the seed behind
// every public key.
type world struct {
	files map[string]string
	seeds map[string][]byte // by public key bytes
}

type wop struct {
	verb            string
	key, msg, other string // other: signature or encrypted file name ("" default)
	pass            string
	rel             bool // names are relative to the working directory
}

func (o wop) String() string {
	return fmt.Sprintf("%s(key=%s msg=%s other=%q pass=%q)", o.verb, o.key, o.msg, o.other, o.pass)
}

// secretOf reads a secret key file as the format says.
func (w *world) secretOf(name, pass string) (s ref.Sec, key []byte, ok bool) {
	c, there := w.files[name]
	if !there {
		return
	}
	_, rec, err := ref.ParseStrict([]byte(c))
	if err != nil {
		return
	}
	if s, ok = ref.ParseSec(rec); !ok {
		return
	}
	id := string(rec) + pass
	k, seen := unlocked[id]
	if !seen {
		if u, good := s.Unlock([]byte(pass)); good {
			k = u
		}
		unlocked[id] = k
	}
	return s, k, k != nil
}

var unlocked = map[string][]byte{} // the model's own bcrypt results
var fastUnlocked = map[string][]byte{}

func (w *world) pubOf(name string) (p ref.Pub, ok bool) {
	c, there := w.files[name]
	if !there {
		return
	}
	_, rec, err := ref.ParseStrict([]byte(c))
	if err != nil {
		return
	}
	return ref.ParsePub(rec)
}

// output names the files the operation may change.
func (o wop) output() []string {
	switch o.verb {
	case "gen":
		return []string{o.key + ".sec", o.key + ".pub"}
	case "sign":
		if o.other == "" {
			return []string{o.msg + ".sig"}
		}
		return []string{o.other}
	case "seal":
		if o.other == "" {
			return []string{o.msg + ".enc"}
		}
		return []string{o.other}
	case "open":
		return []string{o.msg}
	}
	return nil
}

// perform runs the real operation.
func (o wop) perform(x *mc.X) error {
	at := func(n string) string {
		if n == "" {
			return ""
		}
		if o.rel {
			return n
		}
		return x.Path(n)
	}
	switch o.verb {
	case "gen":
		return signify.GenerateKey(at(o.key), []byte(o.pass), &signify.GenerateOptions{Rounds: 1})
	case "sign":
		return signify.Sign(at(o.key)+".sec", at(o.msg), at(o.other))
	case "verify":
		return signify.Verify(at(o.key)+".pub", at(o.msg), at(o.other))
	case "seal":
		return crypto.Seal(at(o.key)+".pub", at(o.msg), at(o.other))
	}
	return crypto.Open(at(o.key)+".sec", at(o.other), at(o.msg))
}

// step runs one operation and compares it with the model.
func (w *world) step(x *mc.X, o wop, hist string) { w.stepIn(x, x.Dir(), o, hist) }

func (w *world) stepIn(x *mc.X, dir string, o wop, hist string) {
	cur := o.pass
	p := setPrompt(x, func(int, bool) ([]byte, error) { return []byte(cur), nil })
	beforeModes := modes(dir)
	err := guarded(x, "panic", o.String(), func() error { return o.perform(x) })
	x.Op("%v: %v", o, err)
	_ = p
	after := tree(dir)
	outs := o.output()
	if d := diffTree(w.files, after, outs...); len(d) > 0 {
		x.Fail("other-file-changed", "after %s: %v changed %s", hist, o, join(d))
	}
	am := modes(dir)
	for _, n := range outs {
		delete(am, n)
		delete(beforeModes, n)
	}
	if d := diffTree(beforeModes, am); len(d) > 0 {
		x.Fail("other-file-changed", "after %s: %v changed the mode of %s", hist, o, join(d))
	}
	fail := func(format string, a ...interface{}) {
		x.Fail("result", "after %s: %v: %s", hist, o, fmt.Sprintf(format, a...))
	}
	want := func(ok bool, why string) bool {
		if (err == nil) != ok {
			fail("result %v, but by the files named it should be success=%v (%s)", err, ok, why)
		}
		return ok
	}
	switch o.verb {
	case "gen":
		if err != nil {
			fail("%v", err)
		}
		nw := &world{files: after}
		s, key, ok := nw.secretOf(o.key+".sec", o.pass)
		if !ok {
			fail("secret key file %s is not a complete key", short([]byte(after[o.key+".sec"])))
		}
		pub, ok := nw.pubOf(o.key + ".pub")
		if !ok || !bytes.Equal(pub.Key[:], key[32:]) || pub.Num != s.Num {
			fail("public key file %s does not belong to the secret key", short([]byte(after[o.key+".pub"])))
		}
		if _, dup := w.seeds[string(pub.Key[:])]; dup {
			fail("the key was generated before")
		}
		w.seeds[string(pub.Key[:])] = key[:32]
	case "sign":
		s, key, ok := w.secretOf(o.key+".sec", o.pass)
		m, there := w.files[o.msg]
		if want(ok && there, "sign") {
			exp := ref.File("verify with "+o.key+".pub", ref.SignRec(key[:32], s.Num, []byte(m)))
			if after[outs[0]] != string(exp) {
				fail("signature file %q, want %q", after[outs[0]], exp)
			}
		}
	case "verify":
		pub, ok := w.pubOf(o.key + ".pub")
		m, there := w.files[o.msg]
		name := o.other
		if name == "" {
			name = o.msg + ".sig"
		}
		valid := false
		if _, rec, perr := ref.ParseStrict([]byte(w.files[name])); ok && there && perr == nil {
			valid = ref.Valid(pub.Encode(), []byte(m), rec)
		}
		want(valid, "verify")
	case "seal":
		pub, ok := w.pubOf(o.key + ".pub")
		m, there := w.files[o.msg]
		if want(ok && there, "encrypt") {
			raw, perr := ref.ParseEnc([]byte(after[outs[0]]))
			if perr != nil {
				fail("encrypted file: %v", perr)
			}
			bp := ref.BoxPriv(w.seeds[string(pub.Key[:])])
			got, oerr := ref.OpenRaw(&bp, raw)
			if oerr != nil || string(got) != m {
				fail("encrypted file holds another message (%v)", oerr)
			}
		}
	case "open":
		_, key, ok := w.secretOf(o.key+".sec", o.pass)
		var msg []byte
		e, there := w.files[o.other]
		good := false
		if ok && there {
			if raw, perr := ref.ParseEnc([]byte(e)); perr == nil {
				bp := ref.BoxPriv(key[:32])
				var oerr error
				msg, oerr = ref.OpenRaw(&bp, raw)
				good = oerr == nil
			}
		}
		if want(good, "decrypt") && after[o.msg] != string(msg) {
			fail("decrypted to %s, want %s", short([]byte(after[o.msg])), short(msg))
		}
	}
	w.files = after
}

func init() {
	mc.Register(mc.Property{
		ID: "C17", Level: "model_checking",
		Rule:        "state: distinct directory content reached; transition: one library operation; trace: one history of operations in one process, each step's result and complete directory compared with a model that knows only the files' contents",
		Assumptions: []string{"a failed operation may leave anything in its designated output", "inputs and outputs of one operation are different files"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			a, b := fixKey("c17a", ""), fixKey("c17b", "pw")
			b2, b3 := fixKey("c17b2", ""), fixKey("c17b3", "pw")
			special := specialContents()
			ops := []wop{
				{verb: "sign", key: "A", msg: "m1"},
				{verb: "sign", key: "B", msg: "m2", other: "out", pass: "pw"},
				{verb: "sign", key: "B", msg: "m1", pass: "wrong"},
				{verb: "sign", key: "A", msg: "m2", other: "m1.sig"},
				{verb: "verify", key: "A", msg: "m1"},
				{verb: "verify", key: "B", msg: "m2", other: "out"},
				{verb: "verify", key: "A", msg: "m2", other: "m1.sig"},
				{verb: "seal", key: "A", msg: "m1", other: "out"},
				{verb: "seal", key: "B", msg: "m2"},
				{verb: "seal", key: "A", msg: "m3", other: "out"},
				{verb: "open", key: "A", other: "out", msg: "m2"},
				{verb: "open", key: "B", other: "m2.enc", msg: "m1", pass: "pw"},
				{verb: "open", key: "B", other: "m2.enc", msg: "m1", pass: "pv"},
				{verb: "open", key: "A", other: "m2.enc", msg: "new"},
				{verb: "gen", key: "A"},
				{verb: "gen", key: "B", pass: "pw"},
				{verb: "gen", key: "A", pass: "pw"},
				{verb: "sign", key: "A", msg: "new", pass: "pw"},
			}
			fresh := func(x *mc.X, m3 int) *world {
				setRand(x, hashStream("c17"))
				a.put(x.Path("A"))
				b.put(x.Path("B"))
				os.Chmod(x.Path("A.sec"), 0600)
				write(x.Path("m1"), []byte("message one"))
				write(x.Path("m2"), bigBytes(9, 1000))
				write(x.Path("m3"), bigBytes(10, m3))
				write(x.Path("out"), bytes.Repeat([]byte("long previous output\n"), 200))
				write(x.Path("bystander"), []byte("b"))
				write(x.Path("out.tmp"), []byte("t"))
				return &world{files: tree(x.Dir()), seeds: map[string][]byte{string(a.pub.Key[:]): a.seed, string(b.pub.Key[:]): b.seed}}
			}
			history := func(depth int, list []wop, m3 int) func(x *mc.X) {
				return func(x *mc.X) {
					w := fresh(x, m3)
					hist := ""
					for i := 0; i < depth; i++ {
						c := x.Choose("op", len(list)+1)
						if c == 0 {
							break
						}
						w.step(x, list[c-1], "["+hist+"]")
						hist += list[c-1].String() + " "
						var st []interface{}
						for _, n := range []string{"A.pub", "B.pub", "m1", "m2", "m1.sig", "m2.enc", "new", "out"} {
							st = append(st, n, w.files[n])
						}
						x.State(st...)
					}
				}
			}
			core := []wop{ops[0], ops[3], ops[4], ops[6], ops[7], ops[9], ops[10], ops[13], ops[14]}
			list := ops
			if t == mc.Quick {
				list = append(append([]wop{}, ops[:2]...), append(append([]wop{}, ops[3:12]...), ops[13:16]...)...)
			}
			return append(c17Env(t), []mc.Scenario{
				{Name: "histories", ShardDepth: 3, Bounds: fmt.Sprintf("every history of up to %d of %d operations (sign, verify, encrypt, decrypt, generate on two keys, three messages and shared outputs; right and wrong passphrases; overwriting longer and shorter outputs, keys and messages)", t.Pick(3, 4), len(list)), Body: history(t.Pick(3, 4), list, 2000)},
				{Name: "fast-histories", FastKDF: true, ShardDepth: 3, Bounds: fmt.Sprintf("with the fast derivation: every history of up to %d of all %d operations", t.Pick(4, 5), len(ops)), Body: func(x *mc.X) {
					fastKDF(x)
					oldB, oldU := b, unlocked
					x.Cleanup(func() { b, unlocked = oldB, oldU })
					if len(fastUnlocked) > 1<<16 {
						fastUnlocked = map[string][]byte{}
					}
					b, unlocked = fastFix("c17b", "pw", 1, [16]byte{1, 7}), fastUnlocked
					history(t.Pick(4, 5), ops, 300)(x)
				}},
				{Name: "long-histories", ShardDepth: 3, Bounds: fmt.Sprintf("every history of up to %d of 9 operations on unprotected keys", t.Pick(4, 6)), Body: history(t.Pick(4, 6), core, 300)},
				{Name: "chunked", ShardDepth: 2, Bounds: "every history of up to 2 (3) of the 18 operations, with a message of 2 chunks and a bit", Body: history(t.Pick(2, 3), ops, 2*ref.Chunk+9)},
				{Name: "places", ShardDepth: 3, Bounds: fmt.Sprintf("two directories with files of the same names and sizes, named relatively: every history of up to %d operations {sign, verify, encrypt, decrypt, generate, verify against a signature from elsewhere} x directory", t.Pick(3, 4)), Body: func(x *mc.X) {
					old, err := os.Getwd()
					if err != nil {
						old = "/"
					}
					x.Cleanup(func() { os.Chdir(old) })
					setRand(x, hashStream("c17p"))
					var e [32]byte
					e[0] = 7
					ws := [2]*world{}
					dirs := [2]string{x.Path("p"), x.Path("q")}
					for i, k := range []*keyFix{a, b2} {
						mkdir(dirs[i])
						msg := []byte("message " + string(rune('0'+i)))
						k.put(filepath.Join(dirs[i], "A"))
						write(filepath.Join(dirs[i], "m1"), msg)
						write(filepath.Join(dirs[i], "m1.sig"), ref.File("verify with A.pub", ref.SignRec(k.seed, k.num, msg)))
						write(filepath.Join(dirs[i], "m1.enc"), ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, msg)))
						write(filepath.Join(dirs[i], "p.sig"), ref.File("verify with A.pub", ref.SignRec(a.seed, a.num, []byte("message 0"))))
						ws[i] = &world{files: tree(dirs[i]), seeds: map[string][]byte{string(k.pub.Key[:]): k.seed}}
					}
					list := []wop{{verb: "sign", key: "A", msg: "m1"}, {verb: "verify", key: "A", msg: "m1"}, {verb: "seal", key: "A", msg: "m1"}, {verb: "open", key: "A", msg: "new", other: "m1.enc"}, {verb: "verify", key: "A", msg: "m1", other: "p.sig"}, {verb: "gen", key: "A"}}
					hist := ""
					for i := 0; i < t.Pick(3, 4); i++ {
						c := x.Choose("op", 2*len(list)+1)
						if c == 0 {
							break
						}
						at, o := (c-1)%2, list[(c-1)/2]
						o.rel = true
						os.Chdir(dirs[at])
						other := tree(dirs[1-at])
						for n := range ws { // both see the current contents
							ws[n].files = tree(dirs[n])
							if n != at {
								for k, s := range ws[at].seeds {
									ws[n].seeds[k] = s
								}
							}
						}
						ws[at].stepIn(x, dirs[at], o, "["+hist+"]")
						for k, s := range ws[at].seeds {
							ws[1-at].seeds[k] = s
						}
						if d := diffTree(other, tree(dirs[1-at])); len(d) > 0 {
							x.Fail("other-file-changed", "after [%s]: %v in %s changed %s in the other directory", hist, o, dirs[at], join(d))
						}
						hist += fmt.Sprintf("%s:%v ", filepath.Base(dirs[at]), o)
					}
					x.State(hist)
				}},
				{Name: "replaced", ShardDepth: 3, Bounds: "sign, verify, encrypt, decrypt twice, with one of the files read replaced in between by another of the same length and modification time (rewritten in place or renamed over it), by what it was before, or removed; both files plain or protected", Body: func(x *mc.X) {
					o := []wop{
						{verb: "sign", key: "A", msg: "m1"},
						{verb: "verify", key: "A", msg: "m1", other: "s"},
						{verb: "seal", key: "A", msg: "m1", other: "e2"},
						{verb: "open", key: "A", msg: "o", other: "e"},
					}[x.Choose("op", 4)]
					name := [][]string{{"A.sec", "m1"}, {"A.pub", "m1", "s"}, {"A.pub", "m1"}, {"A.sec", "e"}}
					v := map[string]int{"sign": 0, "verify": 1, "seal": 2, "open": 3}[o.verb]
					n := name[v][x.Choose("file", len(name[v]))]
					how := x.Choose("how", 4)
					prot := n == "A.sec" && x.Bool("protected")
					second := x.Choose("then", 3) // same operation, again after restoring, after removing
					k, l := a, b2
					if prot {
						k, l = b, b3
						o.pass = "pw"
					}
					setRand(x, hashStream("c17r"))
					var e [32]byte
					e[3] = 9
					files := func(k *keyFix, msg string) map[string][]byte {
						return map[string][]byte{"A.sec": k.secF, "A.pub": k.pubF, "m1": []byte(msg),
							"s": ref.File("verify with A.pub", ref.SignRec(k.seed, k.num, []byte(msg))),
							"e": ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, []byte(msg)))}
					}
					one, two := files(k, "message one"), files(l, "message two")
					for _, f := range []string{"A.sec", "A.pub", "m1", "s", "e"} {
						write(x.Path(f), one[f])
					}
					when := time.Unix(1500000000, 0)
					os.Chtimes(x.Path(n), when, when)
					w := &world{files: tree(x.Dir()), seeds: map[string][]byte{string(k.pub.Key[:]): k.seed, string(l.pub.Key[:]): l.seed}}
					w.step(x, o, "[]")
					replace := func(data []byte) {
						p := x.Path(n)
						if how&1 == 1 {
							write(p+".new", data)
							os.Rename(p+".new", p)
						} else {
							write(p, data)
						}
						if how < 2 {
							os.Chtimes(p, when, when)
						}
						w.files = tree(x.Dir())
					}
					replace(two[n])
					w.step(x, o, "["+o.String()+", "+n+" replaced]")
					switch second {
					case 1:
						replace(one[n])
						w.step(x, o, "["+o.String()+", "+n+" replaced, again, restored]")
					case 2:
						os.Remove(x.Path(n))
						w.files = tree(x.Dir())
						w.step(x, o, "["+o.String()+", "+n+" replaced, again, removed]")
					}
					x.State(o.String(), n, how, prot, second)
				}},
				{Name: "many", Hang: 600e9, Bounds: fmt.Sprintf("%d operations in one process, by one of 8 patterns of 6 operations (each alone, alternating, failing ones in between)", t.Pick(1200, 6000)), Body: func(x *mc.X) {
					pat := [][]int{{0}, {4}, {7}, {9, 10}, {0, 4}, {7, 13, 0, 4}, {0, 4, 7, 13, 3, 6}, {14}}[x.Choose("pattern", 8)]
					w := fresh(x, 300)
					for _, i := range []int{0, 3, 7} {
						w.step(x, ops[i], "preparing")
					}
					write(x.Path("m2.enc"), read(x, x.Path("out")))
					w.files = tree(x.Dir())
					for i := 0; i < t.Pick(1200, 6000); i++ {
						w.step(x, ops[pat[i%len(pat)]], fmt.Sprintf("%d operations of pattern %v", i, pat))
					}
					x.State(len(pat), pat[0])
				}},
				{Name: "previous-outputs", ShardDepth: 3, Bounds: "sign, encrypt, decrypt and generate (first and second file) onto every prefix of the file they would make, of others of its kind (with other comments, keys, lengths), and 250 contents that look like something else: the output is what it is without them", Body: func(x *mc.X) {
					v := x.Choose("op", 5)
					ops := []wop{
						{verb: "sign", key: "A", msg: "m1", other: "o"},
						{verb: "seal", key: "A", msg: "m1", other: "o"},
						{verb: "open", key: "A", msg: "o", other: "e"},
						{verb: "gen", key: "o"},
						{verb: "gen", key: "o"},
					}
					o := ops[v]
					name := "o" + []string{"", "", "", ".sec", ".pub"}[v]
					var e [32]byte
					e[4] = 4
					m := []byte("message one")
					run := func(prev []byte, there bool) (string, error) {
						emptyAll(x.Dir())
						setRand(x, hashStream("c17v"))
						noPrompt(x)
						write(x.Path("A.sec"), a.secF)
						write(x.Path("A.pub"), a.pubF)
						write(x.Path("m1"), m)
						write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(a.boxPub(), &e, m)))
						if there {
							write(x.Path(name), prev)
						}
						err := guarded(x, "panic", o.String(), func() error { return o.perform(x) })
						x.Op("%v: %v", o, err)
						return tree(x.Dir())[name], err
					}
					want, err := run(nil, false)
					x.Check(err == nil, "result", "%v: %v", o, err)
					prevs := [][]byte{a.secF, a.pubF, b.secF, b.pubF, m,
						ref.File("verify with A.pub", ref.SignRec(a.seed, a.num, m)), ref.File("signed by hand", ref.SignRec(a.seed, a.num, m)), ref.File("verify with B.pub", ref.SignRec(b.seed, b.num, m)),
						ref.EncFile("untrusted comment: e", ref.SealRaw(a.boxPub(), &e, m)), ref.EncFile("untrusted comment: mine", ref.SealRaw(a.boxPub(), &e, []byte("other"))),
						ref.File("my key", a.sec.Encode()), ref.File("my key", a.pub.Encode()), []byte("untrusted comment: mine\n"), append([]byte("untrusted comment: mine\n"), want...), append(cp([]byte(want)), want...), append(cp([]byte(want)), "\n"...), bytes.Replace([]byte(want), []byte("\n"), []byte("\r\n"), -1)}
					for i := 0; i <= len(want); i++ {
						prevs = append(prevs, []byte(want[:i]))
					}
					for i := 0; i < len(want); i += 3 {
						c := []byte(want)
						c[i] ^= 1
						prevs = append(prevs, c)
					}
					prevs = append(prevs, special...)
					prev := prevs[x.Choose("previous", len(prevs))]
					got, err := run(prev, true)
					x.Check(err == nil, "result", "%v onto %s: %v", o, short(prev), err)
					x.Check(got == want, "previous-content", "%v onto %s: the output is %s, without it %s", o, short(prev), short([]byte(got)), short([]byte(want)))
					x.State(v, prev)
				}},
				{Name: "odd-inputs", ShardDepth: 3, Bounds: "sign, verify, encrypt, decrypt, each input in turn any prefix of the right file, that with any one line left out, doubled or empty, another kind of file or one of 250 contents that look like something else, done twice: nothing but the output changes, in content, mode, time or identity; a failing verification changes nothing", Body: func(x *mc.X) {
					o := []wop{
						{verb: "sign", key: "A", msg: "m1", other: "o"},
						{verb: "verify", key: "A", msg: "m1", other: "s"},
						{verb: "verify", key: "A", msg: "m1"},
						{verb: "seal", key: "A", msg: "m1", other: "o"},
						{verb: "open", key: "A", msg: "o", other: "e"},
						{verb: "sign", key: "B", msg: "m1", other: "o", pass: "pw"},
						{verb: "open", key: "B", msg: "o", other: "f", pass: "pw"},
					}[x.Choose("op", 7)]
					roles := map[string][]string{"sign": {o.key + ".sec", "m1"}, "verify": {"A.pub", "m1", "s"}, "seal": {"A.pub", "m1"}, "open": {o.key + ".sec", o.other}}[o.verb]
					if o.verb == "verify" && o.other == "" {
						roles = []string{"A.pub", "m1.sig"}
					}
					role := roles[x.Choose("input", len(roles))]
					setRand(x, hashStream("c17x"))
					setPrompt(x, answerWith(o.pass))
					var e [32]byte
					e[2] = 2
					m := []byte("message one")
					files := map[string][]byte{"A.sec": a.secF, "A.pub": a.pubF, "B.sec": b.secF, "B.pub": b.pubF, "m1": m,
						"s":      ref.File("verify with A.pub", ref.SignRec(a.seed, a.num, m)),
						"m1.sig": ref.File("verify with A.pub", ref.SignRec(a.seed, a.num, m)),
						"e":      ref.EncFile("untrusted comment: e", ref.SealRaw(a.boxPub(), &e, m)),
						"f":      ref.EncFile("untrusted comment: e", ref.SealRaw(b.boxPub(), &e, m))}
					good := files[role]
					var odd [][]byte
					for i := 0; i <= len(good); i++ {
						odd = append(odd, good[:i])
					}
					lines := bytes.SplitAfter(good, []byte("\n"))
					for i := range lines {
						for _, alt := range [][]byte{nil, []byte("\n"), bytes.Repeat(lines[i], 2), bytes.TrimSuffix(lines[i], []byte("\n")), append([]byte(" "), lines[i]...)} {
							var f []byte
							for j, l := range lines {
								if j == i {
									l = alt
								}
								f = append(f, l...)
							}
							odd = append(odd, f)
						}
					}
					odd = append(odd, special...)
					for _, n := range []string{"A.sec", "A.pub", "B.sec", "B.pub", "s", "e", "f"} {
						odd = append(odd, files[n])
					}
					if o.key == "B" { // each costs a derivation
						odd = append(odd[:8:8], special[:40]...)
					}
					c := odd[x.Choose("content", len(odd))]
					files[role] = c
					when := time.Unix(1500000000, 0)
					for n, f := range files {
						write(x.Path(n), f)
						os.Chtimes(x.Path(n), when, when)
					}
					os.Chtimes(x.Dir(), when, when)
					before, bm := tree(x.Dir()), map[string]string{}
					stamp := func() map[string]string {
						r := map[string]string{}
						for n := range files {
							if fi, err := os.Lstat(x.Path(n)); err == nil {
								st := fi.Sys().(*syscall.Stat_t)
								r[n] = fmt.Sprint(fi.Mode(), fi.ModTime().UnixNano(), st.Ino, st.Nlink)
							}
						}
						return r
					}
					bm = stamp()
					var last error
					for i := 0; i < 2; i++ {
						err := guarded(x, "panic", o.String(), func() error { return o.perform(x) })
						x.Op("%v: %v", o, err)
						x.Check(i == 0 || (err == nil) == (last == nil), "result", "%v with %s holding %s: first %v, then %v", o, role, short(c), last, err)
						last = err
						if d := diffTree(before, tree(x.Dir()), o.output()...); len(d) > 0 {
							x.Fail("other-file-changed", "%v (%v) with %s holding %s changed %s", o, err, role, short(c), join(d))
						}
						if d := diffTree(bm, stamp()); len(d) > 0 {
							x.Fail("other-file-changed", "%v (%v) with %s holding %s touched %s", o, err, role, short(c), join(d))
						}
						if fi, err := os.Stat(x.Dir()); o.verb == "verify" {
							x.Check(err == nil && fi.ModTime().Equal(when), "other-file-changed", "%v with %s holding %s changed the directory", o, role, short(c))
						}
					}
					x.State(o.String(), role, c)
					x.Outcome("%s %s: %v", o.verb, role, last == nil)
				}},
				{Name: "composed-names", ShardDepth: 2, Bounds: fmt.Sprintf("generate, sign, verify, encrypt, decrypt with default and named outputs, the key, the message or the output under each of %d names made of up to %d of 9 pieces (letters, the suffixes in use, line break, dot, dash, space): each step succeeds and adds exactly its output", len(composedNames(t.Pick(3, 4))), t.Pick(3, 4)), Body: func(x *mc.X) {
					names := composedNames(t.Pick(3, 4))
					block := x.Choose("block", (len(names)+19)/20)
					role := x.Choose("role", 4)
					for i := block * 20; i < len(names) && i < block*20+20; i++ {
						n := names[i]
						emptyAll(x.Dir())
						setRand(x, hashStream("names"))
						noPrompt(x)
						key, msg, out, def := "k", "m", "o", "p"
						switch role {
						case 0:
							key = n
						case 1:
							msg = n
						case 2:
							out = n
						case 3:
							def = n
						}
						at := func(s string) string { return x.Dir() + "/" + s }
						text := []byte("the message")
						write(at(msg), text)
						step := func(what string, adds []string, f func() error) {
							before := tree(x.Dir())
							if err := f(); err != nil {
								x.Fail("result", "%s with role %d named %q failed: %v", what, role, n, err)
							}
							after := tree(x.Dir())
							if d := diffTree(before, after, adds...); len(d) > 0 {
								x.Fail("other-file-changed", "%s with role %d named %q changed %q", what, role, n, d)
							}
							for _, a := range adds {
								_, there := after[a]
								x.Check(there, "result", "%s with role %d named %q made no %q", what, role, n, a)
							}
						}
						step("generate", []string{key + ".sec", key + ".pub"}, func() error { return signify.GenerateKey(at(key), nil, nil) })
						step("sign", []string{msg + ".sig"}, func() error { return signify.Sign(at(key)+".sec", at(msg), "") })
						step("verify", nil, func() error { return signify.Verify(at(key)+".pub", at(msg), "") })
						step("encrypt", []string{msg + ".enc"}, func() error { return crypto.Seal(at(key)+".pub", at(msg), "") })
						step("decrypt", []string{out}, func() error { return crypto.Open(at(key)+".sec", at(msg)+".enc", at(out)) })
						x.Check(string(read(x, at(out))) == string(text), "result", "role %d named %q: the decrypted message is %q", role, n, read(x, at(out)))
						os.Remove(at(out))
						step("sign", []string{out}, func() error { return signify.Sign(at(key)+".sec", at(msg), at(out)) })
						step("verify", nil, func() error { return signify.Verify(at(key)+".pub", at(msg), at(out)) })
						step("encrypt", []string{def}, func() error { return crypto.Seal(at(key)+".pub", at(msg), at(def)) })
						step("decrypt", []string{out}, func() error { return crypto.Open(at(key)+".sec", at(def), at(out)) })
						x.State(n, role)
					}
				}},
				{Name: "arguments", FastKDF: true, ShardDepth: 2, Bounds: fmt.Sprintf("with the fast derivation: every history of up to %d generations {pair of files, pair in memory, files in a missing directory} x passphrase {nil, empty, one of two slices used again and again} x options {nil, one of three used again and again (1, 2 and 0 rounds)}: each does what its arguments say, neither passphrases nor options change, keys made before still work", t.Pick(3, 4)), Body: func(x *mc.X) {
					fastKDF(x)
					mine := [2][]byte{make([]byte, 5, 16), make([]byte, 20)}
					copy(mine[0][:16], "first-and-beyond")
					copy(mine[1], "the second passphrase")
					kept := [2]string{string(mine[0][:16]), string(mine[1])}
					passes := [][]byte{nil, {}, mine[0], mine[1]}
					words := []string{"", "", string(mine[0]), string(mine[1])}
					rounds := []int{42, 1, 2, 0}
					opts := []*signify.GenerateOptions{nil, {Rounds: 1}, {Rounds: 2}, {Rounds: 0}}
					type made struct {
						priv *signify.Private
						pub  *signify.Public
						pass string
						hist string
					}
					var all []made
					use := func(m made) {
						setPrompt(x, answerWith(m.pass))
						priv, err := m.priv.ToBox()
						x.Check(err == nil, "result", "%s: the key does not open with its passphrase %q: %v", m.hist, m.pass, err)
						pub, err := m.pub.ToBox()
						x.Check(err == nil, "result", "%s: public key: %v", m.hist, err)
						var want [32]byte
						curve25519.ScalarBaseMult(&want, priv)
						x.Check(want == *pub, "result", "%s: the keys do not belong together", m.hist)
					}
					hist := ""
					for i := 0; i < t.Pick(3, 4); i++ {
						c := x.Choose("step", 49)
						if c == 48 {
							break
						}
						p, o, v := c%4, c/4%4, c/16
						hist += fmt.Sprintf("%s with passphrase %d, options %d; ", []string{"GenerateKey", "GenerateKeypair", "GenerateKey in a missing directory"}[v], p, o)
						noPrompt(x)
						ok := v < 2 && (words[p] == "" || rounds[o] > 0)
						var err error
						switch v {
						case 0, 2:
							base := x.Path([]string{"k", "", "missing/k"}[v])
							err = signify.GenerateKey(base, passes[p], opts[o])
							if err == nil && ok {
								_, rec, perr := ref.ParseStrict(read(x, base+".sec"))
								x.Check(perr == nil, "result", "%s: secret key file: %v", hist, perr)
								s, _ := ref.ParseSec(rec)
								key, good := s.Unlock([]byte(words[p]))
								_, prec, perr := ref.ParseStrict(read(x, base+".pub"))
								x.Check(perr == nil, "result", "%s: public key file: %v", hist, perr)
								pub, _ := ref.ParsePub(prec)
								x.Check(good && bytes.Equal(key[32:], pub.Key[:]), "result", "%s: the secret key does not open with %q", hist, words[p])
								r := rounds[o]
								if words[p] == "" {
									r = 0
								}
								x.Check(int(s.Rounds) == r, "result", "%s: %d rounds, want %d", hist, s.Rounds, r)
							}
						case 1:
							var m made
							m.priv, m.pub, err = signify.GenerateKeypair(passes[p], opts[o])
							if err == nil && ok {
								m.pass, m.hist = words[p], hist
								x.Check(m.priv.IsEncrypted() == (m.pass != ""), "result", "%s: protected=%v", hist, m.priv.IsEncrypted())
								all = append(all, m)
							}
						}
						x.Op("%s: %v", hist, err)
						x.Check((err == nil) == ok, "result", "%s: %v", hist, err)
						x.Check(string(mine[0][:16]) == kept[0] && string(mine[1]) == kept[1], "argument-changed", "%s: the caller's passphrase was changed", hist)
						for j, p := range opts[1:] {
							x.Check(p.Rounds == rounds[j+1], "argument-changed", "%s: the caller's options were changed", hist)
						}
					}
					x.State(hist)
					for _, m := range all {
						use(m)
					}
				}},
				{Name: "beside", ShardDepth: 2, Bounds: fmt.Sprintf("sign, verify, encrypt, decrypt (fitting or not, plain or protected key) with another key pair, signature, encrypted file and message at each of %d places around the files named, and 26 comments, naming some of them, in any of them, in or beside the files' own: done with the files named", len(besideNames)), Body: func(x *mc.X) {
					comment := besideComments[x.Choose("comment", len(besideComments))]
					which := x.Choose("in", 3) // in every file named, in keys only, in the others
					v := x.Choose("op", 9)
					me, pass := a, ""
					if x.Bool("protected") {
						me, pass = b3, "pw"
					}
					other := b2
					setRand(x, hashStream("c17b"))
					for _, d := range []string{"d", "keys", ".signify", "d/keys", "d/.signify"} {
						mkdir(x.Path(d))
					}
					msg, omsg := []byte("message one"), []byte("message two")
					com := func(mine, key bool, std string) string {
						if mine && which == 0 || mine && key && which == 1 || !mine && which == 2 {
							return comment
						}
						return std
					}
					var e [32]byte
					e[5] = 7
					file := func(k *keyFix, m []byte, mine bool) map[string][]byte {
						return map[string][]byte{
							".sec": ref.File(com(mine, true, "untrusted comment: signify private key"), k.sec.Encode()),
							".pub": ref.File(com(mine, true, "untrusted comment: signify public key"), k.pub.Encode()),
							".sig": ref.File(com(mine, false, "verify with a.pub"), ref.SignRec(k.seed, k.num, m)),
							".enc": ref.EncFile(com(mine, false, "untrusted comment: psignify encrypted file"), ref.SealRaw(k.boxPub(), &e, m)),
							"":     m,
						}
					}
					theirs, mine := file(other, omsg, false), file(me, msg, true)
					for _, n := range besideNames {
						write(x.Path(n), theirs[besideKind(n)])
					}
					for n, c := range map[string][]byte{"a.sec": mine[".sec"], "a.pub": mine[".pub"], "m": msg, "s": mine[".sig"], "e": mine[".enc"], "m.sig": mine[".sig"], "se": theirs[".enc"], "ss": theirs[".sig"]} {
						write(x.Path("d", n), c)
					}
					old, _ := os.Getwd()
					home := os.Getenv("HOME")
					os.Setenv("HOME", x.Dir())
					x.Cleanup(func() { os.Chdir(old); os.Setenv("HOME", home) })
					os.Chdir(x.Path("d"))
					op := []wop{
						{verb: "sign", key: "a", msg: "m"},
						{verb: "sign", key: "a", msg: "m", other: "o"},
						{verb: "verify", key: "a", msg: "m"},
						{verb: "verify", key: "a", msg: "m", other: "s"},
						{verb: "verify", key: "a", msg: "m", other: "ss"},
						{verb: "seal", key: "a", msg: "m"},
						{verb: "seal", key: "a", msg: "m", other: "o"},
						{verb: "open", key: "a", msg: "o", other: "e"},
						{verb: "open", key: "a", msg: "o", other: "se"},
					}[v]
					op.pass, op.rel = pass, true
					before := tree(x.Dir())
					w := &world{files: tree(x.Path("d")), seeds: map[string][]byte{string(me.pub.Key[:]): me.seed, string(other.pub.Key[:]): other.seed}}
					w.stepIn(x, x.Path("d"), op, fmt.Sprintf("comment %q in %d", comment, which))
					var outs []string
					for _, n := range op.output() {
						outs = append(outs, "d/"+n)
					}
					if d := diffTree(before, tree(x.Dir()), outs...); len(d) > 0 {
						x.Fail("other-file-changed", "%v changed %s", op, join(d))
					}
					x.State(comment, which, v, pass)
				}},
				{Name: "other-files", ShardDepth: 2, Bounds: "sign, verify, encrypt, decrypt, generate beside every subset of 9 other files (an unrelated key under the other half's name, default outputs, temporary-looking names, a directory): same result and output as without them, and they stay as they are", Body: func(x *mc.X) {
					v := x.Choose("op", 5)
					mask := x.Choose("subset", 512)
					run := func(mask int) (map[string]string, error) {
						emptyAll(x.Dir())
						setRand(x, hashStream("c17o"))
						noPrompt(x)
						write(x.Path("A.sec"), a.secF)
						write(x.Path("A.pub"), a.pubF)
						write(x.Path("m1"), []byte("message one"))
						write(x.Path("s"), ref.File("verify with A.pub", ref.SignRec(a.seed, a.num, []byte("message one"))))
						var e [32]byte
						write(x.Path("e"), ref.EncFile("untrusted comment: e", ref.SealRaw(a.boxPub(), &e, []byte("message one"))))
						o := []wop{
							{verb: "sign", key: "A", msg: "m1", other: "o"},
							{verb: "verify", key: "A", msg: "m1", other: "s"},
							{verb: "seal", key: "A", msg: "m1", other: "o"},
							{verb: "open", key: "A", msg: "o", other: "e"},
							{verb: "gen", key: "o"},
						}[v]
						switch o.verb { // the other half of the key is not named
						case "sign", "open":
							os.Remove(x.Path("A.pub"))
							if mask&1 != 0 {
								write(x.Path("A.pub"), b.pubF)
							}
						case "verify", "seal":
							os.Remove(x.Path("A.sec"))
							if mask&1 != 0 {
								write(x.Path("A.sec"), b.secF)
							}
						default:
							if mask&1 != 0 {
								write(x.Path("o"), []byte("o"))
							}
						}
						for i, n := range []string{"m1.sig", "m1.enc", "o.tmp", "o~", ".o.swp", "o.bak", "m1.tmp"} {
							if mask>>uint(i+1)&1 == 1 {
								write(x.Path(n), []byte("other "+n))
							}
						}
						if mask>>8&1 == 1 {
							mkdir(x.Path(".signify"))
							write(x.Path(".signify/root.sec"), b.secF)
							write(x.Path(".signify/root.pub"), b.pubF)
						}
						before := tree(x.Dir())
						err := o.perform(x)
						x.Op("%v beside %b: %v", o, mask, err)
						after := tree(x.Dir())
						if d := diffTree(before, after, o.output()...); len(d) > 0 {
							x.Fail("other-file-changed", "%v changed %s", o, join(d))
						}
						res := map[string]string{}
						for _, n := range o.output() {
							res[n] = after[n]
						}
						return res, err
					}
					alone, e1 := run(0)
					beside, e2 := run(mask)
					x.Check(e1 == nil, "result", "operation %d alone failed: %v", v, e1)
					x.Check(e2 == nil, "depends-on-others", "operation %d beside other files (%b) failed: %v", v, mask, e2)
					if d := diffTree(alone, beside); len(d) > 0 && v != 1 {
						x.Fail("depends-on-others", "operation %d beside other files (%b): output %s differs", v, mask, join(d))
					}
					x.State(v, mask)
				}},
			}...)
		},
	})
}

// emptyAll removes everything in a scratch directory.
func emptyAll(d string) {
	ents, _ := os.ReadDir(d)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(d, e.Name()))
	}
}
