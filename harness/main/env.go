package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// recordEnv has the function called with the name of each environment variable the code asks for.
var recordEnv func(f func(name string))

// envUsual are variables that a program could look at.
var envUsual = []string{"DEBUG", "PSIGNIFY_DEBUG", "SIGNIFY_DEBUG", "VERBOSE", "TRACE", "LOG", "PASSPHRASE", "SIGNIFY_PASSPHRASE", "PSIGNIFY_PASSPHRASE", "SIGNIFY_PASS", "PASSWORD", "SIGNIFY_PASSWORD",
	"SIGNIFY_ROUNDS", "PSIGNIFY_ROUNDS", "ROUNDS", "SIGNIFY_COMMENT", "SIGNIFY_KEY", "TMPDIR", "TMP", "PWD", "UMASK", "CI", "TERM", "LANG", "LC_ALL", "TZ", "SHELL", "EDITOR", "SSH_ASKPASS", "DISPLAY", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "SOURCE_DATE_EPOCH"}

var envFound []string
var envDone bool

// envNames are the usual variables and those the code asks for, found by running every operation
// and listening, again with what was found set, until nothing new is asked for.
func envNames(x *mc.X) []string {
	return append(append([]string{}, envUsual...), heardEnv(x)...)
}

func heardEnv(x *mc.X) []string {
	if !envDone {
		envDone = true
		if recordEnv != nil {
			envFound = discoverEnv(x)
		}
	}
	return envFound
}

func discoverEnv(x *mc.X) []string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "env")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	os.Chmod(d, 0777)
	plain, prot := fixKey("envn", ""), fixKey("envp", "pw")
	msg := []byte("a message")
	var e [32]byte
	e[2] = 3
	p := func(n string) string { return d + "/" + n }
	fresh := func() {
		plain.put(p("n"))
		prot.put(p("p"))
		write(p("m"), msg)
		write(p("s"), ref.File("x", ref.SignRec(plain.seed, plain.num, msg)))
		write(p("c"), ref.EncFile("untrusted comment: c", ref.SealRaw(plain.boxPub(), &e, msg)))
		write(p("cp"), ref.EncFile("untrusted comment: c", ref.SealRaw(prot.boxPub(), &e, msg)))
		os.Chmod(p("n.sec"), 0644)
	}
	seen := map[string]bool{}
	for _, n := range append([]string{"HOME", "USER"}, envUsual...) {
		seen[n] = true
	}
	var found []string
	note := func(n string) {
		if n != "" && !seen[n] && !strings.HasPrefix(n, "VERIF") && !strings.ContainsAny(n, "=\x00") {
			seen[n] = true
			found = append(found, n)
		}
	}
	oldPrompt, oldBase := signify.PassphrasePrompt, baseEnv
	defer func() { signify.PassphrasePrompt, baseEnv = oldPrompt, oldBase }()
	for _, value := range []string{"", "1", d, p("n")} {
		for round := 0; round < 3; round++ {
			known := len(found)
			vars := append(append([]string{}, envUsual...), found...)
			fresh()
			// the library
			undo := func() {}
			if value != "" {
				undo = setEnvs(vars, value)
			}
			func() {
				defer func() { recover() }()
				recordEnv(note)
				defer recordEnv(nil)
				for _, pass := range []string{"pw", "no", ""} {
					pass := pass
					signify.PassphrasePrompt = func(bool) ([]byte, error) { return []byte(pass), nil }
					signify.GenerateKey(p("g"), []byte(pass), &signify.GenerateOptions{Rounds: 1})
					signify.Sign(p("p.sec"), p("m"), p("o"))
					signify.Sign(p("n.sec"), p("m"), "")
					signify.Verify(p("n.pub"), p("m"), p("s"))
					signify.Verify(p("p.pub"), p("m"), p("s"))
					crypto.Seal(p("n.pub"), p("m"), p("o"))
					crypto.Open(p("n.sec"), p("c"), p("o"))
					crypto.Open(p("p.sec"), p("cp"), p("o"))
				}
				signify.GenerateKeypair(nil, nil)
			}()
			undo()
			// the command
			os.Remove(p("log"))
			baseEnv = append(append([]string{}, oldBase...), "VERIF_ENVLOG="+p("log"))
			for _, n := range vars {
				if value != "" {
					baseEnv = append(baseEnv, n+"="+value)
				}
			}
			for _, args := range [][]string{
				{}, {"-G", "-n", "-p", p("g")}, {"-S", "-s", p("n.sec"), "-m", p("m")}, {"-V", "-p", p("n.pub"), "-m", p("m"), "-x", p("s")}, {"-E", "-p", p("n.pub"), "-m", p("m")},
				{"-D", "-s", p("n.sec"), "-c", p("c"), "-m", p("o")}, {"-S", "-m", p("m")}, {"-G", "-n"},
			} {
				cliEnv(x, nil, d, d, "u", args...)
			}
			for _, args := range [][]string{{"-S", "-s", p("p.sec"), "-m", p("m"), "-x", p("o")}, {"-D", "-s", p("p.sec"), "-c", p("cp"), "-m", p("o")}, {"-G", "-p", p("g")}} {
				for _, pass := range []string{"pw", "no"} {
					onTerminal(x, []string{pass, pass}, false, args...)
				}
			}
			b, _ := os.ReadFile(p("log"))
			for _, l := range strings.Split(string(b), "\n") {
				note(l)
			}
			if len(found) == known {
				break
			}
		}
	}
	sort.Strings(found)
	if len(found) > 40 {
		found = found[:40]
	}
	return found
}

// setEnvs sets variables of this process and returns how to undo it.
func setEnvs(vars []string, value string) func() {
	type was struct {
		name, value string
		set         bool
	}
	var l []was
	for _, n := range vars {
		v, ok := os.LookupEnv(n)
		l = append(l, was{n, v, ok})
		os.Setenv(n, value)
	}
	return func() {
		for _, w := range l {
			if w.set {
				os.Setenv(w.name, w.value)
			} else {
				os.Unsetenv(w.name)
			}
		}
	}
}

// chooseEnv chooses one variable (or all) and a value.
func chooseEnv(x *mc.X, values []string) (vars []string, value string) {
	names := envNames(x)
	v := x.Choose("variable", len(names)+1)
	value = values[x.Choose("value", len(values))]
	if v == len(names) {
		return names, value
	}
	return names[v : v+1], value
}

func withEnv(vars []string, value string) []string {
	var l []string
	for _, n := range vars {
		l = append(l, n+"="+value)
	}
	return l
}

const envBounds = "33 usual environment variables and those the code is heard asking for, each alone and all together, "

func c17Env(t mc.Tier) []mc.Scenario {
	a, b := fixKey("c17ea", ""), fixKey("c17eb", "pw")
	msg := []byte("the message\n")
	var e [32]byte
	e[7] = 8
	values := func(x *mc.X) []string {
		return []string{"", "0", "1", "7", "true", "no", "pw", "/nonexistent/dir", x.Path("dir"), x.Path("dir/k"), x.Path("m"), "%s", "C"}
	}
	prep := func(x *mc.X) *world {
		mkdir(x.Path("dir"))
		os.Chmod(x.Path("dir"), 0777)
		fixKey("c17ec", "").put(x.Path("dir/k"))
		a.put(x.Path("a"))
		os.Chmod(x.Path("a.sec"), 0644)
		b.put(x.Path("b"))
		write(x.Path("m"), msg)
		write(x.Path("e"), ref.EncFile("untrusted comment: c", ref.SealRaw(a.boxPub(), &e, msg)))
		write(x.Path("s"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
		w := &world{files: tree(x.Dir()), seeds: map[string][]byte{}}
		w.seeds[string(a.pub.Key[:])] = a.seed
		w.seeds[string(b.pub.Key[:])] = b.seed
		return w
	}
	return []mc.Scenario{
		{Name: "environment", FastKDF: true, ShardDepth: 2, Bounds: "with the fast derivation: " + envBounds + "with 13 values (empty, numbers, words, the passphrase, paths): generating with and without passphrase and options, signing, verifying, encrypting, decrypting: each does what the files it names say and nothing else", Body: func(x *mc.X) {
			fastKDF(x)
			vars, value := chooseEnv(x, values(x))
			w := prep(x)
			x.Cleanup(setEnvs(vars, value))
			hist := fmt.Sprintf("setting %s to %q", join(vars), value)
			for _, o := range []wop{
				{verb: "gen", key: "g"}, {verb: "gen", key: "h", pass: "xy"}, {verb: "sign", key: "a", msg: "m"}, {verb: "sign", key: "h", msg: "m", other: "o", pass: "xy"}, {verb: "sign", key: "h", msg: "m", other: "o2", pass: "pw"},
				{verb: "verify", key: "a", msg: "m"}, {verb: "verify", key: "a", msg: "m", other: "s"}, {verb: "verify", key: "h", msg: "m", other: "s"}, {verb: "verify", key: "g", msg: "m", other: "none"},
				{verb: "seal", key: "a", msg: "m"}, {verb: "seal", key: "g", msg: "m", other: "c"}, {verb: "open", key: "a", msg: "d", other: "e"}, {verb: "open", key: "g", msg: "d2", other: "c"}, {verb: "open", key: "h", msg: "d3", other: "c", pass: "xy"},
			} {
				w.step(x, o, hist)
			}
			for i, opts := range []*signify.GenerateOptions{nil, {Rounds: 3}} {
				rounds := []int{42, 3}[i]
				g := generate(x, x.Path("q"), "a pass", opts)
				x.Check(int(g.sec.Rounds) == rounds, "result", "after %s: a key is generated with %d rounds, want %d", hist, g.sec.Rounds, rounds)
				g.conform(x, "a pass", rounds)
			}
			x.State(join(vars), value)
		}},
		{Name: "environment-command", ShardDepth: 2, Bounds: envBounds + "with 13 values: -G -n -p, -S, -V, -E, -D with every file named", Body: func(x *mc.X) {
			vars, value := chooseEnv(x, values(x))
			prep(x)
			os.Chmod(x.Dir(), 0777)
			for mode, args := range [][]string{{"-G", "-n", "-p", "g"}, {"-S", "-s", "a.sec", "-m", "m", "-x", "o"}, {"-V", "-p", "a.pub", "-m", "m", "-x", "s"}, {"-E", "-p", "a.pub", "-m", "m", "-c", "o"}, {"-D", "-s", "a.sec", "-c", "e", "-m", "o"}, {"-V", "-p", "b.pub", "-m", "m", "-x", "s"}} {
				os.Remove(x.Path("o"))
				before := tree(x.Dir())
				r := cliEnv(x, withEnv(vars, value), x.Dir(), x.Path("dir"), "u", args...)
				what := fmt.Sprintf("psignify %q with %s set to %q", args, join(vars), value)
				x.Check((r.exit == 0) == (mode != 5), "result", "%s: exit %d %s", what, r.exit, r.stderr)
				df := diffTree(before, tree(x.Dir()), "g.sec", "g.pub", "o")
				x.Check(len(df) == 0, "other-file-changed", "%s changed %s", what, join(df))
				switch mode {
				case 0:
					miss := pairComplete(x.Path("g"), "")
					x.Check(miss == "", "result", "%s: %s", what, miss)
				case 1:
					x.Check(bytes.Equal(read(x, x.Path("o")), ref.File("verify with a.pub", ref.SignRec(a.seed, a.num, msg))), "result", "%s made another signature file: %s", what, short(read(x, x.Path("o"))))
				case 3:
					var got []byte
					raw, err := ref.ParseEnc(read(x, x.Path("o")))
					if err == nil {
						bp := ref.BoxPriv(a.seed)
						got, err = ref.OpenRaw(&bp, raw)
					}
					x.Check(err == nil && bytes.Equal(got, msg), "result", "%s made another file: %v", what, err)
				case 4:
					x.Check(bytes.Equal(read(x, x.Path("o")), msg), "result", "%s wrote another message", what)
				}
			}
			x.State(join(vars), value)
		}},
	}
}

func c21Env(t mc.Tier, prot *keyFix, pass string, sealed []byte, msg []byte) mc.Scenario {
	return mc.Scenario{Name: "environment", ShardDepth: 2, Bounds: envBounds + "holding the right passphrase, another one, 1 or the path of a file with the right one: signing and decrypting with a protected key, by the library (the prompt answering right or wrong) and by the command on a terminal (right or wrong typed), and -G on a terminal: asked exactly once (twice), and what was typed decides", Body: func(x *mc.X) {
		vars, value := chooseEnv(x, []string{pass, "another", "1", x.Path("pass")})
		op := x.Choose("operation", 5)
		right := x.Bool("right")
		typed := "wrong"
		if right {
			typed = pass
		}
		prot.put(x.Path("k"))
		write(x.Path("m"), msg)
		write(x.Path("c"), ref.EncFile("untrusted comment: c", sealed))
		write(x.Path("pass"), []byte(pass+"\n"))
		what := fmt.Sprintf("operation %d with %s set to %q", op, join(vars), value)
		if op < 2 {
			x.Cleanup(setEnvs(vars, value))
			p := setPrompt(x, func(int, bool) ([]byte, error) { return []byte(typed), nil })
			var err error
			if op == 0 {
				err = signify.Sign(x.Path("k.sec"), x.Path("m"), x.Path("o"))
			} else {
				err = crypto.Open(x.Path("k.sec"), x.Path("c"), x.Path("o"))
			}
			x.Check(len(p.calls) == 1 && !p.calls[0].confirm, "prompt-count", "%s: asked %d times", what, len(p.calls))
			x.Check((err == nil) == right, "result", "%s, passphrase right %v: %v", what, right, err)
			x.State(op, join(vars), value, right)
			return
		}
		old := baseEnv
		baseEnv = append(append([]string{}, baseEnv...), withEnv(vars, value)...)
		x.Cleanup(func() { baseEnv = old })
		lines, want := []string{typed}, 1
		args := []string{"-S", "-s", x.Path("k.sec"), "-m", x.Path("m"), "-x", x.Path("o")}
		if op == 3 {
			args = []string{"-D", "-s", x.Path("k.sec"), "-c", x.Path("c"), "-m", x.Path("o")}
		} else if op == 4 {
			args = []string{"-G", "-p", x.Path("g")}
			lines, want = []string{"new one", map[bool]string{true: "new one", false: "other"}[right]}, 2
		}
		r, used := onTerminal(x, lines, false, args...)
		x.Check(used == want, "prompt-count", "psignify %q on a terminal with %s set to %q read %d lines, want %d", args, join(vars), value, used, want)
		x.Check((r.exit == 0) == right, "result", "psignify %q on a terminal with %s set to %q, passphrase right %v: exit %d %s", args, join(vars), value, right, r.exit, r.stderr)
		if op == 4 {
			if right {
				miss := pairComplete(x.Path("g"), "new one")
				x.Check(miss == "", "result", "%s: %s", what, miss)
			} else {
				x.Check(!exists(x.Path("g.sec")) && !exists(x.Path("g.pub")), "created", "%s: files were made though the entries differ", what)
			}
		}
		x.State(op, join(vars), value, right)
	}}
}

func c26Env(t mc.Tier) mc.Scenario {
	const pass = "correct horse battery"
	plain, prot := fixKey("c26en", ""), fixKey("c26ep", pass)
	msg := append([]byte("the secret contents of a message: "), bigBytes(2626, 300)...)
	var e [32]byte
	copy(e[:], bigBytes(99, 32))
	return mc.Scenario{Name: "environment", ShardDepth: 2, Bounds: envBounds + "with 6 values (1, true, 3, stderr, a file, a directory): -S and -D with a plain and with a protected key (right and wrong passphrase), -E, -V and -G: nothing shown or written holds a secret", Body: func(x *mc.X) {
		vars, value := chooseEnv(x, []string{"1", "true", "3", "stderr", x.Path("trace"), x.Path("dir")})
		mode := x.Choose("mode", 9)
		mkdir(x.Path("dir"))
		k := plain
		if mode >= 2 && mode < 6 {
			k = prot
		}
		k.put(x.Path("k"))
		write(x.Path("c"), ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &e, msg)))
		write(x.Path("s"), ref.File("x", ref.SignRec(k.seed, k.num, msg)))
		pub := x.Path("pubm") // a message that is not secret
		write(pub, []byte("signed in public"))
		write(x.Path("m"), msg)
		args := [][]string{
			{"-S", "-s", x.Path("k.sec"), "-m", pub, "-x", x.Path("o")}, {"-D", "-s", x.Path("k.sec"), "-c", x.Path("c"), "-m", x.Path("out")},
			{"-S", "-s", x.Path("k.sec"), "-m", pub, "-x", x.Path("o")}, {"-D", "-s", x.Path("k.sec"), "-c", x.Path("c"), "-m", x.Path("out")},
			{"-S", "-s", x.Path("k.sec"), "-m", pub, "-x", x.Path("o")}, {"-D", "-s", x.Path("k.sec"), "-c", x.Path("c"), "-m", x.Path("out")},
			{"-E", "-p", x.Path("k.pub"), "-m", x.Path("m"), "-c", x.Path("o")}, {"-V", "-p", x.Path("k.pub"), "-m", x.Path("m"), "-x", x.Path("s")},
			{"-G", "-p", x.Path("g")},
		}[mode]
		typed := []string{pass, pass}
		if mode == 4 || mode == 5 {
			typed[0] = "a wrong passphrase typed"
		}
		old := baseEnv
		baseEnv = append(append([]string{}, baseEnv...), withEnv(vars, value)...)
		x.Cleanup(func() { baseEnv = old })
		before := tree(x.Dir())
		r, _ := onTerminal(x, typed, false, args...)
		keyPass := ""
		if k == prot {
			keyPass = pass
		}
		needles := keyNeedles(k.seed, k.sec.Salt[:], int(k.sec.Rounds), keyPass, []byte("signed in public"))
		needles = append(needles, needle{"the passphrase typed", []byte(typed[0]), true}, needle{"the message", msg, true})
		skip := map[string]bool{"out": true, "g.sec": true}
		if mode == 8 {
			if b, err := os.ReadFile(x.Path("g.sec")); err == nil {
				if _, rec, err := ref.ParseStrict(b); err == nil {
					if s, ok := ref.ParseSec(rec); ok {
						if key, ok := s.Unlock([]byte(pass)); ok {
							needles = append(needles, keyNeedles(key[:32], s.Salt[:], int(s.Rounds), pass, nil)...)
						}
					}
				}
			}
		}
		emitted(x, r, skip, before, needles, fmt.Sprintf("psignify %q with %s set to %q", args, join(vars), value))
		x.State(mode, join(vars), value)
	}}
}
