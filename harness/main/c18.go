package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

const nobodyID = 54321 // a user that is not in the password file

// cli runs the command as a user with the given home and name.
func cli(x *mc.X, home, user string, args ...string) traced {
	return cliIn(x, x.Dir(), home, user, args...)
}

// cliIn is cli with another working directory.
func cliIn(x *mc.X, dir, home, user string, args ...string) traced {
	return cliEnv(x, nil, dir, home, user, args...)
}

// cliEnv is cliIn with more in the environment.
func cliEnv(x *mc.X, more []string, dir, home, user string, args ...string) traced {
	env := append([]string{}, more...)
	if home != "" {
		env = append(env, "HOME="+home)
	}
	if user != "" {
		env = append(env, "USER="+user)
	}
	sp := &spec{argv: append([]string{psignifyBin()}, args...), env: env, dir: dir, umask: -1, cred: &syscall.Credential{Uid: nobodyID, Gid: nobodyID}}
	return plainRun(x, sp)
}

// open777 makes a directory everyone can write to.
func open777(p string) {
	mkdir(p)
	os.Chmod(p, 0777)
}

// judgeExit checks what every run must satisfy.
func judgeExit(x *mc.X, args []string, r traced, want bool, saysOK bool) {
	if (r.exit == 0) != want {
		x.Fail("exit-status", "psignify %q: exit status %d, but the operation should succeed: %v (stdout %q, stderr %q)", args, r.exit, want, r.stdout, r.stderr)
	}
	if r.exit != 0 {
		x.Check(strings.TrimSpace(r.stderr) != "", "silent-failure", "psignify %q: exit status %d without a message on standard error", args, r.exit)
		x.Check(!strings.Contains(r.stdout, "OK"), "false-ok", "psignify %q: exit status %d, but standard output says %q", args, r.exit, r.stdout)
		x.Check(r.exit < 128, "crash", "psignify %q: killed, status %d", args, r.exit)
		x.Check(!strings.Contains(r.stderr, "goroutine "), "crash", "psignify %q: crashed: %s", args, r.stderr)
	} else if saysOK {
		x.Check(strings.Contains(r.stdout, "OK"), "no-ok", "psignify %q: success without OK on standard output (%q)", args, r.stdout)
	}
}

// permutation returns the i-th order of n groups.
func permutation(i, n int) []int {
	left := make([]int, n)
	for j := range left {
		left[j] = j
	}
	var out []int
	for n > 0 {
		j := i % n
		i /= n
		out = append(out, left[j])
		left = append(left[:j], left[j+1:]...)
		n--
	}
	return out
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

// decoys runs -S, -V, -E or -D with one file that it reads missing under the name given, while
// files of that name that would do are elsewhere: the command must fail and change nothing.
func decoys(x *mc.X, keysOnly bool) {
	k := fixKey("c18", "")
	msg := []byte("the message\n")
	mode := x.Choose("mode", 4)
	flags := [][]string{{"-s", "-m"}, {"-p", "-m", "-x"}, {"-p", "-m"}, {"-s", "-c"}}[mode]
	if keysOnly {
		flags = flags[:1]
	}
	missing := flags[x.Choose("missing", len(flags))]
	form := x.Choose("form", 4) // bare, in a directory, in one that is missing, absolute
	suffixed := x.Bool("with suffix")
	withUmask(x, 022)
	for _, d := range []string{"home", "home/.signify", "home/.config", "home/.config/signify", "home/.signify/keys", "a", "b", "c", "keys", "tmp", "w", "w/b", "w/w", "etc"} {
		open777(x.Path(d))
	}
	var e [32]byte
	sig := ref.File("x", ref.SignRec(k.seed, k.num, msg))
	enc := ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &e, msg))
	content := map[string][]byte{"-s": k.secF, "-p": k.pubF, "-m": msg, "-x": sig, "-c": enc}
	suffix := map[string]string{"-s": ".sec", "-p": ".pub", "-m": ".txt", "-x": ".sig", "-c": ".enc"}
	// everything in place first
	good := map[string]string{"-s": "../keys/k.sec", "-p": "../keys/k.pub", "-m": "../a/m", "-x": "../c/s", "-c": "../c/e"}
	for f, n := range good {
		write(x.Path("w", n), content[f])
	}
	name := "f"
	if suffixed {
		name += suffix[missing]
	}
	given := []string{name, "../b/" + name, "../gone/" + name, x.Path("b", name)}[form]
	target := []string{"w/", "b/", "gone/", "b/"}[form] + name
	var places []string
	base := strings.TrimSuffix(name, suffix[missing])
	names := []string{name, base, base + ".sec", base + ".pub", base + ".txt", base + ".sig", base + ".enc", name + ".gz", name + "~", name + ".bak", name + ".tmp", "." + name, strings.ToUpper(name), name + " ", "f f"}
	for _, d := range []string{"w/", "a/", "b/", "c/", "keys/", "home/", "home/.signify/", "home/.signify/keys/", "home/.config/signify/", "tmp/", "w/b/", "w/w/", "etc/", ""} {
		for i, n := range names {
			if i > 0 && d != "w/" && d != "b/" && d != "home/.signify/" && d != "a/" {
				break
			}
			if d+n != target {
				places = append(places, d+n)
			}
		}
	}
	p := x.Choose("decoy", len(places)+1)
	for i, n := range places {
		if p == i || p == len(places) {
			write(x.Dir()+"/"+n, content[missing])
		}
	}
	args := [][]string{{"-S", "-x", "../c/o"}, {"-V"}, {"-E", "-c", "../c/o"}, {"-D", "-m", "../c/o"}}[mode]
	for _, f := range [][]string{{"-s", "-m"}, {"-p", "-m", "-x"}, {"-p", "-m"}, {"-s", "-c"}}[mode] {
		n := good[f]
		if f == missing {
			n = given
		}
		args = append(args, f, n)
	}
	before := tree(x.Dir())
	r := cliEnv(x, []string{"TMPDIR=" + x.Path("tmp"), "XDG_CONFIG_HOME=" + x.Path("home/.config")}, x.Path("w"), x.Path("home"), "u", args...)
	x.Check(r.exit != 0, "other-file-used", "psignify %q succeeds although there is no %s (only %q ...)", args, target, places[p%len(places)])
	judgeExit(x, args, r, false, false)
	os.Remove(x.Path("c/o"))
	d := diffTree(before, tree(x.Dir()))
	x.Check(len(d) == 0, "files-changed", "psignify %q fails, but changed %s", args, join(d))
	x.State(mode, missing, form, suffixed, p)
}

// opt is one way to give (or not to give) an option, and whether the operation can then succeed.
type opt struct {
	args  []string
	good  bool
	label string
}

func o(good bool, label string, args ...string) opt { return opt{args, good, label} }

func init() {
	mc.Register(mc.Property{
		ID: "C18", Level: "model_checking",
		Rule:        "state: distinct (command line shape, exit status); transition: one run of the command; trace: one command line whose exit status, standard output, standard error and output files are compared with the operation's specification",
		Assumptions: []string{"no terminal is attached (a passphrase cannot be read)", "the command runs as an ordinary user with HOME and USER set to scratch values"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k, other, prot := fixKey("c18", ""), fixKey("c18o", ""), fixKey("c18p", "pw")
			msg := []byte("the message\n")
			setup := func(x *mc.X, defaults bool) {
				withUmask(x, 022)
				mkdir(x.Path("home"))
				open777(x.Path("home", ".signify"))
				if defaults {
					k.put(x.Path("home", ".signify", "u"))
				}
				k.put(x.Path("k"))
				other.put(x.Path("other"))
				prot.put(x.Path("prot"))
				mkdir(x.Path("dir"))
				mkdir(x.Path("shut"))
				write(x.Path("m"), msg)
				write(x.Path("altered"), []byte("the messagE\n"))
				write(x.Path("empty"), nil)
				bad := append([]byte(nil), k.secF...)
				bad[100] ^= 1
				write(x.Path("bad.sec"), bad)
				write(x.Path("bad.pub"), k.pubF[:60])
				sig := ref.File("verify with k.pub", ref.SignRec(k.seed, k.num, msg))
				write(x.Path("good.sig"), sig)
				write(x.Path("bad.sig"), ref.File("verify with k.pub", ref.SignRec(k.seed, k.num, []byte("x"))))
				var e [32]byte
				e[2] = 5
				raw := ref.SealRaw(k.boxPub(), &e, msg)
				write(x.Path("good.enc"), ref.EncFile("untrusted comment: c", raw))
				write(x.Path("none.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(k.boxPub(), &e, nil)))
				raw[90] ^= 1
				write(x.Path("bad.enc"), ref.EncFile("untrusted comment: c", raw))
				write(x.Path("cut.enc"), ref.EncFile("untrusted comment: c", raw[:72]))
				write(x.Path("other.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(other.boxPub(), &e, msg)))
			}
			sec := []opt{o(true, "good", "-s", "k.sec"), o(true, "good=", "-s=k.sec"), o(false, "missing", "-s", "nokey.sec"), o(false, "corrupt", "-s", "bad.sec"), o(false, "protected", "-s", "prot.sec"), o(false, "directory", "-s", "dir"), o(false, "public", "-s", "k.pub"), o(true, "default")}
			pub := []opt{o(true, "good", "-p", "k.pub"), o(true, "good=", "--p=k.pub"), o(false, "missing", "-p", "nokey.pub"), o(false, "corrupt", "-p", "bad.pub"), o(false, "directory", "-p", "dir"), o(false, "secret", "-p", "k.sec"), o(true, "default")}
			type mode struct {
				flag   string
				groups [][]opt
			}
			ms := []mode{
				{"-S", [][]opt{sec,
					{o(true, "m", "-m", "m"), o(true, "empty", "-m", "empty"), o(false, "missing", "-m", "nomsg"), o(false, "directory", "-m", "dir"), o(false, "omitted")},
					{o(true, "x", "-x", "out"), o(true, "default"), o(false, "missing dir", "-x", "nodir/out"), o(false, "directory", "-x", "dir"), o(false, "closed directory", "-x", "shut/out")}}},
				{"-V", [][]opt{append(append([]opt{}, pub...), o(false, "other key", "-p", "other.pub")),
					{o(true, "m", "-m", "m"), o(false, "altered", "-m", "altered"), o(false, "missing", "-m", "nomsg"), o(false, "directory", "-m", "dir"), o(false, "omitted")},
					{o(true, "x", "-x", "good.sig"), o(false, "bad", "-x", "bad.sig"), o(false, "missing", "-x", "nosig"), o(false, "default missing"), o(false, "directory", "-x", "dir"), o(false, "key", "-x", "k.pub")}}},
				{"-E", [][]opt{pub,
					{o(true, "m", "-m", "m"), o(true, "empty", "-m", "empty"), o(false, "missing", "-m", "nomsg"), o(false, "directory", "-m", "dir"), o(false, "omitted")},
					{o(true, "c", "-c", "out"), o(true, "default"), o(false, "missing dir", "-c", "nodir/out"), o(false, "directory", "-c", "dir"), o(false, "closed directory", "-c", "shut/out")}}},
				{"-D", [][]opt{append(append([]opt{}, sec...), o(false, "other key", "-s", "other.sec")),
					{o(true, "c", "-c", "good.enc"), o(true, "empty message", "-c", "none.enc"), o(false, "altered", "-c", "bad.enc"), o(false, "cut", "-c", "cut.enc"), o(false, "other recipient", "-c", "other.enc"), o(false, "missing", "-c", "noenc"), o(false, "omitted"), o(false, "a signature", "-c", "good.sig")},
					{o(true, "m", "-m", "out"), o(false, "omitted"), o(false, "missing dir", "-m", "nodir/out"), o(false, "directory", "-m", "dir")}}},
				{"-G", [][]opt{
					{o(true, "p", "-p", "new"), o(true, "default"), o(false, "missing dir", "-p", "nodir/new"), o(false, "closed directory", "-p", "shut/new")},
					{o(true, "n", "-n"), o(false, "no terminal")}, {o(true, "")}}},
			}
			// outcome checks the files after a successful run.
			outcome := func(x *mc.X, m mode, g []opt) {
				switch m.flag {
				case "-S":
					name := "out"
					in := g[1].args[1]
					if len(g[2].args) == 0 {
						name = in + ".sig"
					}
					_, rec, err := ref.ParseStrict(read(x, x.Path(name)))
					c := read(x, x.Path(in))
					x.Check(err == nil && bytes.Equal(rec, ref.SignRec(k.seed, k.num, c)), "not-done", "-S reports success, but %s is not the signature (%v)", name, err)
				case "-E":
					name := "out"
					in := g[1].args[1]
					if len(g[2].args) == 0 {
						name = in + ".enc"
					}
					raw, err := ref.ParseEnc(read(x, x.Path(name)))
					x.Check(err == nil, "not-done", "-E reports success, but %s: %v", name, err)
					got, err := ref.OpenRaw(k.boxPriv(), raw)
					x.Check(err == nil && bytes.Equal(got, read(x, x.Path(in))), "not-done", "-E reports success, but %s holds something else (%v)", name, err)
				case "-D":
					want := msg
					if g[1].label == "empty message" {
						want = nil
					}
					x.Check(bytes.Equal(read(x, x.Path("out")), want), "not-done", "-D reports success, but wrote something else")
				case "-G":
					base := x.Path("new")
					if len(g[0].args) == 0 {
						base = x.Path("home", ".signify", "u")
					}
					miss := pairComplete(base, "")
					x.Check(miss == "", "not-done", "-G reports success: %s", miss)
				}
			}
			return []mc.Scenario{
				{Name: "lines", ShardDepth: 3, Bounds: "one mode of -G, -S, -V, -E, -D x every way of giving its key, message, signature and encrypted file options (right, missing, corrupt, wrong, directory, unwritable, omitted with the default there or not) x every order of the options", Body: func(x *mc.X) {
					m := ms[x.Choose("mode", len(ms))]
					g := make([]opt, len(m.groups))
					bad := 0
					groups := [][]string{{m.flag}}
					for i := range g {
						g[i] = m.groups[i][x.Choose("option", len(m.groups[i]))]
						if !g[i].good {
							bad++
						}
						if len(g[i].args) > 0 {
							groups = append(groups, g[i].args)
						}
					}
					if m.flag == "-D" && g[0].label == "other key" && g[1].label == "other recipient" {
						bad -= 2 // they fit each other
					}
					want := bad == 0
					defaults := false
					if m.flag != "-G" && g[0].label == "default" {
						defaults = x.Bool("default keys exist")
						want = want && defaults
					}
					orders := fact(len(groups))
					if bad > 1 && t == mc.Quick {
						orders = 1
					}
					perm := permutation(x.Choose("order", orders), len(groups))
					var args []string
					for _, i := range perm {
						args = append(args, groups[i]...)
					}
					setup(x, defaults)
					open777(x.Dir())
					before := tree(x.Dir())
					r := cli(x, x.Path("home"), "u", args...)
					judgeExit(x, args, r, want, m.flag == "-V" || m.flag == "-E" || m.flag == "-D")
					if r.exit == 0 {
						outcome(x, m, g)
					}
					if m.flag == "-V" {
						x.Check(len(diffTree(before, tree(x.Dir()))) == 0, "files-changed", "-V changed files")
					}
					lab := m.flag
					for _, p := range g {
						lab += "," + p.label
					}
					x.State(lab, defaults, r.exit)
					x.Outcome("%s exit %d", m.flag, r.exit)
				}},
				{Name: "names", ShardDepth: 2, Bounds: fmt.Sprintf("-G -n, -S, -V, -E, -D in turn with each of %d awkward names as key, message, signature, encrypted and output file or as directory of it, as two arguments or one, relative or absolute", len(specialNames)), Body: func(x *mc.X) {
					n := specialNames[x.Choose("name", len(specialNames))]
					role := x.Choose("role", 5)
					inDir := x.Bool("directory")
					joined, abs := x.Bool("joined"), x.Bool("absolute")
					withUmask(x, 022)
					mkdir(x.Path("home"))
					open777(x.Dir())
					if inDir {
						mkdir(x.Dir() + "/" + n)
						open777(x.Dir() + "/" + n)
						n += "/f"
					}
					name := []string{"kk", "mm", "ss", "ee", "oo"}
					name[role] = n
					full := func(i int) string {
						if abs {
							return x.Dir() + "/" + name[i]
						}
						return name[i]
					}
					write(x.Dir()+"/"+name[1], msg)
					run := func(says bool, mode string, a ...string) {
						args := []string{mode}
						if mode == "-G" {
							args = []string{"-n", mode}
						}
						for i := 0; i < len(a); i += 2 {
							if joined {
								args = append(args, a[i]+"="+a[i+1])
							} else {
								args = append(args, a[i], a[i+1])
							}
						}
						judgeExit(x, args, cli(x, x.Path("home"), "u", args...), true, says)
					}
					run(false, "-G", "-p", full(0))
					run(false, "-S", "-s", full(0)+".sec", "-m", full(1), "-x", full(2))
					run(true, "-V", "-p", full(0)+".pub", "-x", full(2), "-m", full(1))
					run(true, "-E", "-p", full(0)+".pub", "-m", full(1), "-c", full(3))
					run(true, "-D", "-c", full(3), "-m", full(4), "-s", full(0)+".sec")
					run(false, "-S", "-m", full(1), "-s", full(0)+".sec")
					run(true, "-V", "-m", full(1), "-p", full(0)+".pub")
					got := tree(x.Dir())
					x.Check(got[name[4]] == string(msg), "not-done", "decrypted file %q holds %q", name[4], got[name[4]])
					for _, f := range []string{name[0] + ".sec", name[0] + ".pub", name[1], name[1] + ".sig", name[2], name[3], name[4]} {
						_, there := got[f]
						x.Check(there, "not-done", "no file %q afterwards", f)
						delete(got, f)
					}
					x.Check(len(got) == 0, "not-done", "other files afterwards: %q", got)
					x.State(n, role, joined, abs, inDir)
				}},
				{Name: "options", Bounds: "no arguments, no mode with every subset of the other options, unknown options before and after a complete command, options without value, help requests, modes switched off, 9 further words without a mode, before it or after a complete command", Body: func(x *mc.X) {
					var lines [][]string
					var kind []int // 0 must fail, 1 may only fail or print help, 2 must succeed
					add := func(k int, args ...string) {
						lines = append(lines, args)
						kind = append(kind, k)
					}
					add(0)
					vals := [][]string{{"-s", "k.sec"}, {"-p", "k.pub"}, {"-m", "m"}, {"-x", "good.sig"}, {"-c", "good.enc"}, {"-n"}}
					for s := 1; s < 1<<uint(len(vals)); s++ {
						var a []string
						for i, v := range vals {
							if s>>uint(i)&1 == 1 {
								a = append(a, v...)
							}
						}
						add(0, a...)
					}
					full := map[string][]string{
						"-S": {"-s", "k.sec", "-m", "m", "-x", "out"},
						"-V": {"-p", "k.pub", "-m", "m", "-x", "good.sig"},
						"-E": {"-p", "k.pub", "-m", "m", "-c", "out"},
						"-D": {"-s", "k.sec", "-c", "good.enc", "-m", "out"},
						"-G": {"-n", "-p", "new"},
					}
					for _, f := range []string{"-S", "-V", "-E", "-D", "-G"} {
						for _, u := range []string{"-z", "--verify", "-SV", "-q=1", "-1", "-mm", "---S", "-="} {
							add(0, append([]string{u, f}, full[f]...)...)
							add(0, append([]string{f, u}, full[f]...)...)
							add(0, append(append([]string{f}, full[f]...), u)...)
						}
						add(0, append([]string{f + "=false"}, full[f]...)...)
						add(0, append([]string{f + "=maybe"}, full[f]...)...)
						add(2, append([]string{f + "=true"}, full[f]...)...)
						add(2, append([]string{"-" + f}, full[f]...)...)
						add(2, append([]string{f}, full[f]...)...)
						if f != "-G" {
							for _, w := range []string{"-s", "-p", "-m", "-x", "-c"} {
								add(0, append(append([]string{f}, full[f]...), w)...) // no value
							}
						}
						add(1, f, "-h")
						add(1, "-h", f)
						add(1, "--help", f)
					}
					add(1, "-h")
					add(1, "-help")
					for _, w := range []string{"verify", "-", "--", "m", "help", "version", "S", "=", ""} {
						add(0, w)
						add(0, w, w)
						add(0, "--", w)
						add(0, "-n", w)
						add(0, "-m", "m", w)
						add(0, "-s", "k.sec", "-p", "k.pub", "-m", "m", "-x", "good.sig", "-c", "good.enc", w)
						if w != "" {
							add(0, append([]string{w, "-V"}, full["-V"]...)...) // not an option, so none follow
							add(0, append([]string{w, "-D"}, full["-D"]...)...)
						}
						for _, f := range []string{"-S", "-V", "-E", "-D", "-G"} {
							add(3, append(append([]string{f}, full[f]...), w)...)
						}
					}
					i := x.Choose("line", len(lines))
					setup(x, false)
					open777(x.Dir())
					before := tree(x.Dir())
					r := cli(x, x.Path("home"), "u", lines[i]...)
					switch kind[i] {
					case 0:
						judgeExit(x, lines[i], r, false, false)
					case 2:
						judgeExit(x, lines[i], r, true, false)
					case 3: // a word too many: done in full or refused
						judgeExit(x, lines[i], r, r.exit == 0, false)
						out := map[string]string{"-S": "out", "-E": "out", "-D": "out", "-G": "new.sec"}[lines[i][0]]
						x.Check(r.exit != 0 || out == "" || exists(x.Path(out)), "false-success", "psignify %q: exit 0 without output", lines[i])
					}
					if kind[i] < 2 {
						d := diffTree(before, tree(x.Dir()))
						x.Check(len(d) == 0, "files-changed", "psignify %q: exit %d, changed %s", lines[i], r.exit, join(d))
						x.Check(!strings.Contains(r.stdout, "OK"), "false-ok", "psignify %q: says %q", lines[i], r.stdout)
					}
					x.State(fmt.Sprint(lines[i]), r.exit)
					x.Outcome("kind %d exit %d", kind[i], r.exit)
				}},
				{Name: "decoys", ShardDepth: 3, Bounds: "-S, -V, -E, -D with each file they read missing under the name given (bare, in a directory, in a missing one, absolute, with or without suffix), while a good file lies at one of about 60 other names (in the working directory, beside the other files, in the home, .signify, the temporary directory; with suffixes added or removed), or at all of them: fails and changes nothing", Body: func(x *mc.X) { decoys(x, false) }},
				{Name: "words-for-options", ShardDepth: 3, Bounds: "-S, -V, -E, -D, -G with every subset of their options given by value only, in every order, after the options, with and without default keys: fails unless the rest is complete by itself", Body: func(x *mc.X) {
					mode := x.Choose("mode", 5)
					full := [][][]string{
						{{"-s", "k.sec"}, {"-m", "m"}, {"-x", "out"}},
						{{"-p", "k.pub"}, {"-m", "m"}, {"-x", "good.sig"}},
						{{"-p", "k.pub"}, {"-m", "m"}, {"-c", "out"}},
						{{"-s", "k.sec"}, {"-c", "good.enc"}, {"-m", "out"}},
						{{"-p", "new"}}}[mode]
					required := [][]bool{{false, true, false}, {false, true, true}, {false, true, false}, {false, true, true}, {false}}[mode]
					moved := 1 + x.Choose("moved", 1<<uint(len(full))-1)
					defaults := x.Bool("default keys exist")
					args := []string{[]string{"-S", "-V", "-E", "-D", "-G"}[mode]}
					if mode == 4 {
						args = append(args, "-n")
					}
					complete := true
					var words []string
					for i, f := range full {
						if moved>>uint(i)&1 == 0 {
							args = append(args, f...)
							continue
						}
						words = append(words, f[1])
						if required[i] || i == 0 && mode < 4 && !defaults {
							complete = false
						}
					}
					perm := permutation(x.Choose("order", fact(len(words))), len(words))
					dash := x.Bool("after --")
					if dash {
						args = append(args, "--")
					}
					for _, i := range perm {
						args = append(args, words[i])
					}
					setup(x, defaults)
					open777(x.Dir())
					before := tree(x.Dir())
					r := cli(x, x.Path("home"), "u", args...)
					judgeExit(x, args, r, r.exit == 0 && complete, false)
					if r.exit != 0 {
						os.Remove(x.Path("out"))
						d := diffTree(before, tree(x.Dir()))
						x.Check(len(d) == 0, "files-changed", "psignify %q fails, but changed %s", args, join(d))
					} else if mode != 1 {
						d := diffTree(before, tree(x.Dir()))
						x.Check(len(d) > 0, "not-done", "psignify %q succeeds without output", args)
					}
					x.State(mode, moved, defaults, perm, dash, r.exit)
				}},
				{Name: "single-mode-damage", ShardDepth: 2, Bounds: "-V with the signature, key and message and -D with the encrypted file and key, each cut at (or changed in) every byte: exit status as the reference decides, and no OK", Body: func(x *mc.X) {
					file := []string{"good.sig", "k.pub", "m", "good.enc", "k.sec"}[x.Choose("file", 5)]
					setup(x, false)
					open777(x.Dir())
					c := read(x, x.Path(file))
					i := x.Choose("at", len(c))
					how := x.Choose("how", 2)
					d := append([]byte(nil), c...)
					if how == 0 {
						d = d[:i]
					} else {
						d[i] ^= 0x04
					}
					write(x.Path(file), d)
					if file == "good.enc" || file == "k.sec" {
						r := cli(x, x.Path("home"), "u", "-D", "-s", "k.sec", "-c", "good.enc", "-m", "out")
						if r.exit == 0 {
							x.Check(bytes.Equal(read(x, x.Path("out")), msg), "not-done", "-D with %s damaged at %d reports success with another message", file, i)
						} else {
							judgeExit(x, []string{"-D"}, r, false, false)
						}
						x.State(file, i, how, r.exit)
						return
					}
					r := cli(x, x.Path("home"), "u", "-V", "-p", "k.pub", "-m", "m", "-x", "good.sig")
					valid := false
					for _, s := range ref.Candidates(read(x, x.Path("good.sig"))) {
						for _, p := range ref.Candidates(read(x, x.Path("k.pub"))) {
							valid = valid || ref.Valid(p, read(x, x.Path("m")), s)
						}
					}
					if r.exit == 0 {
						x.Check(valid, "false-ok", "-V with %s damaged at %d reports success", file, i)
					} else {
						judgeExit(x, []string{"-V"}, r, false, false)
					}
					x.State(file, i, how, r.exit)
				}},
			}
		},
	})
}
