package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// secSeed reads the seed of an unprotected key file.
func secSeed(b []byte) ([]byte, [8]byte, bool) {
	_, rec, err := ref.ParseStrict(b)
	if err != nil {
		return nil, [8]byte{}, false
	}
	s, ok := ref.ParseSec(rec)
	if !ok {
		return nil, [8]byte{}, false
	}
	k, ok := s.Unlock(nil)
	if !ok {
		return nil, [8]byte{}, false
	}
	return k[:32], s.Num, true
}

func init() {
	mc.Register(mc.Property{
		ID: "C19", Level: "model_checking",
		Rule:        "state: distinct (home, user, options given, files reached); transition: one run of the command; trace: a sequence of commands with defaults and explicit options, each output attributed to a key by the reference",
		Assumptions: []string{"home and user come from HOME and USER for a user who is not in the password file (Go's os/user without cgo); a user who is in it is not exercised"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			homes := []string{"home", "home/", "h me", "héme", "./home", "deep/er/home", "home/../home"}
			users := []string{"u", "a.b", "u.sec", "u.pub", "sec", "A B", "ü", "-u", "u%s"}
			odd := []string{"host$", "$u", "DOM\\u", "u@host", "u+x", "u,x", "0", "1000", "-", "--", "u:1", "~", "~u", "u~", "*", "u*", "u.", ".u", "..u", "...", "u#x", "u;x", "u%20", "%", "u\"", "'u'", "U", "Ann", "ANN", "u ", " u", "u\t", "u\nx", "u\\", "u_", "_u", "u-", "u=1", "u&v", "u|v", "(u)", "[u]", "{u}", "<u>", "u!", "u?", "u.tar.sec", "id_u", "root", "nobody", "daemon", "user", "default", "null", "\xff", "u\xe9", "e\u0301", "\u00e9", strings.Repeat("u", 64), strings.Repeat("u", 250)}
			msg := []byte("a message\n")
			base := func(x *mc.X, home, user string) string { return x.Path(home) + "/.signify/" + user }
			at := func(x *mc.X, home string) string { return x.Dir() + "/" + home }
			prep := func(x *mc.X, home string) {
				withUmask(x, 022)
				open777(x.Dir())
				mkdir(at(x, home))
				open777(at(x, home) + "/.signify")
				write(x.Path("m"), msg)
			}
			signedBy := func(x *mc.X, file string, seed []byte, num [8]byte) bool {
				_, rec, err := ref.ParseStrict(read(x, x.Path(file)))
				return err == nil && bytes.Equal(rec, ref.SignRec(seed, num, msg))
			}
			sealedTo := func(x *mc.X, file string, seed []byte) bool {
				raw, err := ref.ParseEnc(read(x, x.Path(file)))
				if err != nil {
					return false
				}
				bp := ref.BoxPriv(seed)
				got, err := ref.OpenRaw(&bp, raw)
				return err == nil && bytes.Equal(got, msg)
			}
			a, b := fixKey("c19a", ""), fixKey("c19b", "")
			return []mc.Scenario{
				{Name: "users", ShardDepth: 2, Bounds: fmt.Sprintf("%d odd user names x -n in any mode x -x, -c of other modes: -G, -S, -V, -E, -D use <home>/.signify/<user>", len(odd)), Body: func(x *mc.X) {
					user := odd[x.Choose("user", len(odd))]
					var more []string
					if x.Bool("useless options") {
						more = []string{"-n"}
					}
					prep(x, "home")
					run := func(args ...string) traced {
						r := cli(x, at(x, "home"), user, append(args, more...)...)
						x.Check(r.exit == 0, "default", "psignify %q with user %q: exit %d %s", args, user, r.exit, r.stderr)
						return r
					}
					before := tree(x.Dir())
					run("-G", "-n")
					kb := base(x, "home", user)
					d := diffTree(before, tree(x.Dir()))
					x.Check(len(d) == 2 && exists(kb+".sec") && exists(kb+".pub"), "default", "-G without -p, user %q, wrote %s", user, join(d))
					seed, num, ok := secSeed(read(x, kb+".sec"))
					x.Check(ok, "default", "the default secret key is not complete")
					run("-S", "-m", "m")
					x.Check(signedBy(x, "m.sig", seed, num), "wrong-key", "-S without -s did not use the generated key")
					run("-V", "-m", "m")
					run("-E", "-m", "m", "-c", "c")
					x.Check(sealedTo(x, "c", seed), "wrong-key", "-E without -p did not use the generated key")
					run("-D", "-c", "c", "-m", "o")
					x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "-D wrote another message")
					x.State(user, len(more))
				}},
				{Name: "generated", ShardDepth: 3, Bounds: fmt.Sprintf("%d homes x %d user names: -G -n, then every order of -S, -V, -E, -D without key options (24 orders; -V and -D on reference files when the matching command has not run)", len(homes), len(users)), Body: func(x *mc.X) {
					home, user := homes[x.Choose("home", len(homes))], users[x.Choose("user", len(users))]
					order := permutation(x.Choose("order", 24), 4)
					prep(x, home)
					run := func(args ...string) traced { return cli(x, at(x, home), user, args...) }
					before := tree(x.Dir())
					r := run("-G", "-n")
					x.Check(r.exit == 0, "default", "-G -n with home %q, user %q: exit %d %s", home, user, r.exit, r.stderr)
					kb := base(x, home, user)
					x.Check(exists(kb+".sec") && exists(kb+".pub"), "default", "-G without -p did not write %s.sec and .pub", kb)
					d := diffTree(before, tree(x.Dir()))
					x.Check(len(d) == 2, "extra-files", "-G without -p wrote %s", join(d))
					seed, num, ok := secSeed(read(x, kb+".sec"))
					x.Check(ok, "default", "the default secret key is not complete")
					x.Check(pairComplete(kb, "") == "", "default", "default key pair: %s", pairComplete(kb, ""))
					for _, c := range order {
						switch c {
						case 0:
							r := run("-S", "-m", "m")
							x.Check(r.exit == 0, "default", "-S without -s: exit %d %s", r.exit, r.stderr)
							x.Check(signedBy(x, "m.sig", seed, num), "wrong-key", "-S without -s did not use the generated key")
						case 1:
							write(x.Path("v.sig"), ref.File("x", ref.SignRec(seed, num, msg)))
							r := run("-V", "-m", "m", "-x", "v.sig")
							x.Check(r.exit == 0, "default", "-V without -p: exit %d %s", r.exit, r.stderr)
							write(x.Path("w.sig"), ref.File("x", ref.SignRec(a.seed, num, msg)))
							r = run("-V", "-m", "m", "-x", "w.sig")
							x.Check(r.exit != 0, "wrong-key", "-V without -p accepts another key's signature")
						case 2:
							os.Remove(x.Path("m.enc"))
							r := run("-E", "-m", "m")
							x.Check(r.exit == 0, "default", "-E without -p: exit %d %s", r.exit, r.stderr)
							x.Check(sealedTo(x, "m.enc", seed), "wrong-key", "-E without -p did not encrypt to the generated key")
						case 3:
							var e [32]byte
							p := ref.PubOf(seed, num)
							u, _ := ref.BoxPub(p.Key[:])
							write(x.Path("d.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(&u, &e, msg)))
							r := run("-D", "-c", "d.enc", "-m", "plain")
							x.Check(r.exit == 0, "default", "-D without -s: exit %d %s", r.exit, r.stderr)
							x.Check(bytes.Equal(read(x, x.Path("plain")), msg), "wrong-key", "-D without -s wrote another message")
						}
					}
					x.State(home, user, fmt.Sprint(order))
				}},
				{Name: "explicit", ShardDepth: 3, Bounds: "default pair {there, missing, half there, another key} x modes -S, -V, -E, -D with an explicit key, and with the other kind of key option given as well (-s with -V and -E, -p with -S and -D), before or after the mode", Body: func(x *mc.X) {
					def := x.Choose("default", 4)
					mode := x.Choose("mode", 4)
					extra := x.Choose("other option", 3)
					first := x.Bool("key first")
					prep(x, "home")
					d := base(x, "home", "u")
					switch def {
					case 0:
						a.put(d)
					case 2:
						write(d+".sec", a.secF)
					case 3:
						write(d+".sec", []byte("rubbish\n"))
						write(d+".pub", []byte("rubbish\n"))
					}
					b.put(x.Path("b"))
					a.put(x.Path("a"))
					write(x.Path("b.sig"), ref.File("x", ref.SignRec(b.seed, b.num, msg)))
					write(x.Path("a.sig"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
					var e [32]byte
					write(x.Path("b.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(b.boxPub(), &e, msg)))
					key := []string{"-s", "b.sec"}
					oth := []string{"-p", []string{"", "a.pub", "nowhere.pub"}[extra]}
					if mode == 1 || mode == 2 {
						key = []string{"-p", "b.pub"}
						oth = []string{"-s", []string{"", "a.sec", "nowhere.sec"}[extra]}
					}
					if extra > 0 {
						key = append(key, oth...)
					}
					rest := [][]string{{"-S", "-m", "m", "-x", "o"}, {"-V", "-m", "m", "-x", "b.sig"}, {"-E", "-m", "m", "-c", "o"}, {"-D", "-c", "b.enc", "-m", "o"}}[mode]
					args := append(append([]string{}, rest...), key...)
					if first {
						args = append(append([]string{}, key...), rest...)
					}
					r := cli(x, x.Path("home"), "u", args...)
					x.Check(r.exit == 0, "explicit", "psignify %q with default keys %d: exit %d %s", args, def, r.exit, r.stderr)
					switch mode {
					case 0:
						x.Check(signedBy(x, "o", b.seed, b.num), "wrong-key", "psignify %q did not sign with the key given", args)
					case 1:
						r := cli(x, x.Path("home"), "u", "-V", "-p", "b.pub", "-m", "m", "-x", "a.sig")
						x.Check(r.exit != 0, "wrong-key", "-V -p b.pub accepts a signature by the default key")
					case 2:
						x.Check(sealedTo(x, "o", b.seed), "wrong-key", "psignify %q did not encrypt to the key given", args)
					case 3:
						x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "psignify %q wrote another message", args)
					}
					x.State(def, mode, extra, first)
				}},
				{Name: "other-option", ShardDepth: 3, Bounds: "default pair there or missing x each mode without its own key option x the other kind of key option in 12 places (with or without the other half of that pair beside it) x all the options the mode has no use for or none, before or after the mode: the default pair is used, or nothing is done", Body: func(x *mc.X) {
					places := []string{"b", "sub/b", "./b", "sub/../b", "home/b", "home/.signify/b", "home/.signify/u2", "b.sec", "b.pub", ".", "", "u"}
					pl := places[x.Choose("place", len(places))]
					mode := x.Choose("mode", 5)
					there := mode != 4 && x.Bool("default there")
					half := x.Bool("both halves")
					useless, first := x.Bool("useless options"), x.Bool("key first")
					prep(x, "home")
					mkdir(x.Path("sub"))
					d := base(x, "home", "u")
					if there {
						a.put(d)
					}
					useSec := mode == 1 || mode == 2 // these modes use the public key, so a secret one is given
					p := x.Dir() + "/" + pl
					if there || !strings.HasSuffix(p, ".signify/u") {
						if half || useSec {
							write(p+".sec", b.secF)
						}
						if half || !useSec {
							write(p+".pub", b.pubF)
						}
					}
					write(x.Path("a.sig"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
					write(x.Path("b.sig"), ref.File("x", ref.SignRec(b.seed, b.num, msg)))
					var e [32]byte
					write(x.Path("a.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(a.boxPub(), &e, msg)))
					write(x.Path("b.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(b.boxPub(), &e, msg)))
					key := []string{"-p", pl + ".pub"}
					if useSec || mode == 4 {
						key = []string{"-s", pl + ".sec"}
					}
					rest := [][]string{{"-S", "-m", "m", "-x", "o"}, {"-V", "-m", "m", "-x", "a.sig"}, {"-E", "-m", "m", "-c", "o"}, {"-D", "-c", "a.enc", "-m", "o"}, {"-G", "-n"}}[mode]
					if useless {
						rest = append(append([]string{}, rest...), [][]string{{"-c", "b.enc", "-n"}, {"-c", "b.enc", "-n"}, {"-x", "b.sig", "-n"}, {"-x", "b.sig", "-n"}, {"-c", "b.enc", "-x", "b.sig", "-m", "m"}}[mode]...)
					}
					args := append(append([]string{}, rest...), key...)
					if first {
						args = append(append([]string{}, key...), rest...)
					}
					open777(x.Path("sub"))
					before := tree(x.Dir())
					r := cli(x, x.Path("home"), "u", args...)
					after := tree(x.Dir())
					outs := []string{"o"}
					if mode == 4 {
						outs = []string{"home/.signify/u.sec", "home/.signify/u.pub"}
					}
					if ch := diffTree(before, after, outs...); len(ch) > 0 {
						x.Fail("other-file-changed", "psignify %q changed %q", args, ch)
					}
					if there || mode == 4 {
						x.Check(r.exit == 0, "default", "psignify %q: exit %d %s", args, r.exit, r.stderr)
					} else {
						x.Check(r.exit != 0, "other-key", "psignify %q succeeds although the default pair is missing", args)
						x.State(pl, mode, half, useless, first)
						return
					}
					switch mode {
					case 0:
						x.Check(signedBy(x, "o", a.seed, a.num), "wrong-key", "psignify %q did not sign with the default key", args)
					case 1:
						rest[4] = "b.sig"
						r := cli(x, x.Path("home"), "u", append(append([]string{}, rest...), key...)...)
						x.Check(r.exit != 0, "wrong-key", "psignify %q accepts a signature by another key than the default key", args)
					case 2:
						x.Check(sealedTo(x, "o", a.seed), "wrong-key", "psignify %q did not encrypt to the default key", args)
					case 3:
						x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "psignify %q wrote another message", args)
					case 4:
						for _, o := range outs {
							_, was := before[o]
							x.Check(after[o] != before[o] || !was && after[o] != "", "wrong-key", "psignify %q did not write %s", args, o)
						}
					}
					x.State(pl, mode, there, half, useless, first)
				}},
				{Name: "names", ShardDepth: 2, Bounds: "-G -n -p NAME for 14 names, with and without a default pair: exactly NAME.sec and NAME.pub are written", Body: func(x *mc.X) {
					names := []string{"k", "sub/k", "./k", "k.sec", "k.pub", "a b", "ü", ".k", "k.", "sub/../k", "K.SEC", "n%s", "sub/.sec", "k\nk"}
					n := names[x.Choose("name", len(names))]
					def := x.Bool("default there")
					abs := x.Bool("absolute")
					prep(x, "home")
					open777(x.Path("sub"))
					if def {
						a.put(base(x, "home", "u"))
					}
					before := tree(x.Dir())
					arg := n
					if abs {
						arg = x.Dir() + "/" + n
					}
					r := cli(x, x.Path("home"), "u", "-G", "-n", "-p", arg)
					x.Check(r.exit == 0, "explicit", "-G -n -p %q: exit %d %s", arg, r.exit, r.stderr)
					d := diffTree(before, tree(x.Dir()))
					x.Check(len(d) == 2 && exists(x.Dir()+"/"+n+".sec") && exists(x.Dir()+"/"+n+".pub"), "extra-files", "-G -n -p %q wrote %s", arg, join(d))
					miss := pairComplete(x.Dir()+"/"+n, "")
					x.Check(miss == "", "explicit", "-G -n -p %q: %s", arg, miss)
					x.State(n, def, abs)
				}},
				{Name: "missing-default", ShardDepth: 3, Bounds: "no default pair, or half of it, and keys under 16 other names (another user's in .signify, in the home, in the working directory, upper and lower case, with suffixes): each mode without key options fails, or uses the half it needs; -G -n creates the default and leaves the others alone", Body: func(x *mc.X) {
					half := x.Choose("half", 3)
					mode := x.Choose("mode", 5)
					others := []string{"", "home/.signify/other", "home/.signify/U", "home/.signify/u.old", "home/.signify/key", "home/.signify/id", "home/.signify/default", "home/.signify/signify", "home/.signify/root", "home/.signify/uu",
						"home/u", "home/.signify", "home/signify", "u", ".signify/u", "home/.signify/u/u", "home/.config/signify/u"}
					n := others[x.Choose("other", len(others))]
					prep(x, "home")
					os.MkdirAll(x.Path(".signify"), 0777)
					os.MkdirAll(x.Path("home/.config/signify"), 0777)
					if n == "home/.signify/u/u" {
						os.MkdirAll(x.Path("home/.signify/u"), 0777)
					}
					if n != "" {
						a.put(x.Dir() + "/" + n)
					}
					d := base(x, "home", "u")
					switch half {
					case 1:
						write(d+".sec", b.secF)
						os.Chown(d+".sec", nobodyID, nobodyID)
					case 2:
						write(d+".pub", b.pubF)
						os.Chown(d+".pub", nobodyID, nobodyID)
					}
					write(x.Path("a.sig"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
					write(x.Path("b.sig"), ref.File("x", ref.SignRec(b.seed, b.num, msg)))
					var e [32]byte
					write(x.Path("a.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(a.boxPub(), &e, msg)))
					write(x.Path("b.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(b.boxPub(), &e, msg)))
					cwd := ""
					if x.Bool("from home") {
						cwd = "home"
					}
					f := func(n string) string { return x.Path(n) }
					sets := [][][]string{
						{{"-S", "-m", f("m"), "-x", f("o")}},
						{{"-V", "-m", f("m"), "-x", f("b.sig")}, {"-V", "-m", f("m"), "-x", f("a.sig")}},
						{{"-E", "-m", f("m"), "-c", f("o")}},
						{{"-D", "-c", f("b.enc"), "-m", f("o")}, {"-D", "-c", f("a.enc"), "-m", f("o")}},
						{{"-G", "-n"}}}[mode]
					need := []int{1, 2, 2, 1, 0}[mode] // the half that is needed
					for i, args := range sets {
						before := tree(x.Dir())
						r := cliIn(x, x.Path(cwd), x.Path("home"), "u", args...)
						what := fmt.Sprintf("psignify %q with half %d of the default pair and a key %q", args, half, n)
						if mode == 4 {
							x.Check(r.exit == 0, "default", "%s: exit %d %s", what, r.exit, r.stderr)
							df := diffTree(before, tree(x.Dir()), "home/.signify/u.sec", "home/.signify/u.pub")
							x.Check(len(df) == 0, "extra-files", "%s changed %s", what, join(df))
							miss := pairComplete(d, "")
							x.Check(miss == "", "default", "%s: %s", what, miss)
							continue
						}
						if i == 0 && need == half {
							x.Check(r.exit == 0, "default", "%s: exit %d %s", what, r.exit, r.stderr)
							switch mode {
							case 0:
								x.Check(signedBy(x, "o", b.seed, b.num), "wrong-key", "%s did not use the default key", what)
							case 2:
								x.Check(sealedTo(x, "o", b.seed), "wrong-key", "%s did not use the default key", what)
							case 3:
								x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "%s wrote another message", what)
							}
							os.Remove(x.Path("o"))
							continue
						}
						x.Check(r.exit != 0, "wrong-key", "%s succeeds", what)
						os.Remove(x.Path("o"))
						df := diffTree(before, tree(x.Dir()))
						x.Check(len(df) == 0, "extra-files", "%s fails, but changed %s", what, join(df))
					}
					x.State(half, mode, n, cwd)
				}},
				{Name: "environment", ShardDepth: 3, Bounds: "28 other environment variables and those the code is heard asking for, each alone and all together, naming another user, another home, a directory with another pair or that pair itself: the default pair is used, and -G -n writes it", Body: func(x *mc.X) {
					vars := []string{"LOGNAME", "USERNAME", "LNAME", "SUDO_USER", "SUDO_UID", "SUDO_HOME", "DOAS_USER", "PKEXEC_UID", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "USERPROFILE", "HOMEDIR", "HOMEPATH", "SIGNIFY", "SIGNIFY_HOME", "SIGNIFY_DIR", "SIGNIFY_KEY", "SIGNIFY_KEYDIR", "PSIGNIFY", "PSIGNIFY_HOME", "PSIGNIFY_DIR", "PSIGNIFY_KEY", "SECKEY", "PUBKEY", "PWD", "TMPDIR", "KEYNAME"}
					vars = append(vars, heardEnv(x)...)
					v := x.Choose("variable", len(vars)+1)
					val := x.Choose("value", 5)
					mode := x.Choose("mode", 5)
					prep(x, "home")
					for _, n := range []string{"other", "else/.signify/u", "else/u", "home/.signify/other", "else/signify/u", "else/psignify/u"} {
						os.MkdirAll(x.Path(n[:strings.LastIndex("/"+n, "/")]), 0777)
						a.put(x.Dir() + "/" + n)
					}
					d := base(x, "home", "u")
					if mode < 4 {
						write(d+".sec", b.secF)
						write(d+".pub", b.pubF)
						os.Chown(d+".sec", nobodyID, nobodyID)
					}
					value := []string{"other", "0", x.Path("else"), x.Path("else/u"), x.Path("home/.signify/other.sec")}[val]
					var more []string
					for i, n := range vars {
						if v == i || v == len(vars) {
							more = append(more, n+"="+value)
						}
					}
					write(x.Path("b.sig"), ref.File("x", ref.SignRec(b.seed, b.num, msg)))
					var e [32]byte
					write(x.Path("b.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(b.boxPub(), &e, msg)))
					args := [][]string{{"-S", "-m", "m", "-x", "o"}, {"-V", "-m", "m", "-x", "b.sig"}, {"-E", "-m", "m", "-c", "o"}, {"-D", "-c", "b.enc", "-m", "o"}, {"-G", "-n"}}[mode]
					before := tree(x.Dir())
					r := cliEnv(x, more, x.Dir(), x.Path("home"), "u", args...)
					what := fmt.Sprintf("psignify %q with %q", args, more)
					x.Check(r.exit == 0, "default", "%s: exit %d %s", what, r.exit, r.stderr)
					df := diffTree(before, tree(x.Dir()), "home/.signify/u.sec", "home/.signify/u.pub", "o")
					x.Check(len(df) == 0, "extra-files", "%s changed %s", what, join(df))
					switch mode {
					case 0:
						x.Check(signedBy(x, "o", b.seed, b.num), "wrong-key", "%s did not use the default key", what)
					case 2:
						x.Check(sealedTo(x, "o", b.seed), "wrong-key", "%s did not use the default key", what)
					case 3:
						x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "%s wrote another message", what)
					case 4:
						miss := pairComplete(d, "")
						x.Check(miss == "", "default", "%s: %s", what, miss)
					}
					x.State(v, val, mode)
				}},
				{Name: "missing-explicit", ShardDepth: 3, Bounds: "-S, -V, -E, -D with an explicit key that is not there (bare name, in a directory, in a missing one, absolute, with or without suffix), while a good key lies at one of about 60 other names (in the working directory, the home, .signify, beside the other files; with suffixes added or removed), or at all of them: fails and changes nothing", Body: func(x *mc.X) { decoys(x, true) }},
				{Name: "home-states", ShardDepth: 3, Bounds: "8 states of .signify (missing, a file, a link to a directory, a dangling link, not writable, not searchable, the home missing, the home not writable) x pairs in places a wrong default may be: -G -n, and each mode before and after it, and after .signify is put right: each uses the default pair or fails and changes nothing else", Body: func(x *mc.X) {
					state := x.Choose("state", 8)
					stray := x.Choose("stray", 4)
					mode := x.Choose("mode", 5)
					later := x.Bool("put right later")
					prep(x, "home")
					h, sd := x.Path("home"), x.Path("home/.signify")
					os.Remove(sd)
					os.Chmod(h, 0777)
					real := "home/.signify"
					switch state {
					case 1:
						write(sd, []byte("not a directory"))
						os.Chown(sd, nobodyID, nobodyID)
					case 2:
						open777(x.Path("elsewhere"))
						os.Symlink(x.Path("elsewhere"), sd)
						real = "elsewhere"
					case 3:
						os.Symlink(x.Path("nowhere"), sd)
						real = "nowhere"
					case 4:
						os.Mkdir(sd, 0555)
					case 5:
						os.Mkdir(sd, 0)
					case 6:
						os.Remove(h)
					case 7:
						os.Mkdir(sd, 0777)
						os.Chmod(sd, 0777)
						os.Chmod(h, 0555)
					}
					for _, n := range [][]string{nil, {"home/u"}, {"u", ".signify/u"}, {".config/signify/u", "home/.config/signify/u", "home/.config/u"}}[stray] {
						if state == 6 && strings.HasPrefix(n, "home") {
							continue
						}
						os.MkdirAll(x.Path(n[:strings.LastIndex("/"+n, "/")]), 0777)
						a.put(x.Dir() + "/" + n)
						os.Chmod(x.Dir()+"/"+n+".sec", 0644)
					}
					write(x.Path("a.sig"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
					var e [32]byte
					write(x.Path("a.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(a.boxPub(), &e, msg)))
					run := func(mode int) (traced, []string) {
						args := [][]string{{"-S", "-m", "m", "-x", "o"}, {"-V", "-m", "m", "-x", "a.sig"}, {"-E", "-m", "m", "-c", "o"}, {"-D", "-c", "a.enc", "-m", "o"}, {"-G", "-n"}}[mode]
						before := tree(x.Dir())
						r := cli(x, h, "u", args...)
						allowed := []string{"o"}
						if mode == 1 {
							allowed = nil
						} else if mode == 4 {
							allowed = []string{real + "/u.sec", real + "/u.pub"}
						}
						what := fmt.Sprintf("psignify %q in state %d of the home, pairs at %d", args, state, stray)
						d := diffTree(before, tree(x.Dir()), allowed...)
						x.Check(len(d) == 0, "extra-files", "%s (exit %d) changed %s", what, r.exit, join(d))
						if mode < 4 && r.exit != 0 {
							os.Remove(x.Path("o"))
						}
						return r, args
					}
					if mode < 4 { // there is no default pair
						r, args := run(mode)
						x.Check(r.exit != 0, "wrong-key", "psignify %q succeeds in state %d of the home, without a default pair, pairs at %d", args, state, stray)
					}
					r, _ := run(4)
					usable := state == 2 || state == 7
					x.Check(r.exit == 0 || !usable, "default", "psignify -G -n in state %d of the home: exit %d %s", state, r.exit, r.stderr)
					usable = r.exit == 0
					if later && !usable {
						os.Mkdir(h, 0777)
						os.Chmod(h, 0777)
						os.RemoveAll(sd)
						os.Mkdir(sd, 0777)
						os.Chmod(sd, 0777)
						real = "home/.signify"
						usable = true
						if mode < 4 {
							r, args := run(mode)
							x.Check(r.exit != 0, "wrong-key", "psignify %q succeeds after .signify was put right, without a default pair", args)
						}
						r, _ := run(4)
						x.Check(r.exit == 0, "default", "psignify -G -n after .signify was put right: exit %d %s", r.exit, r.stderr)
					}
					if !usable {
						x.State(state, stray, mode, later)
						return
					}
					miss := pairComplete(x.Path(real)+"/u", "")
					x.Check(miss == "", "default", "after psignify -G -n in state %d of the home: %s", state, miss)
					seed, num, ok := secSeed(read(x, x.Path(real, "u.sec")))
					x.Check(ok, "bad-file", "secret key of psignify -G -n")
					write(x.Path("a.sig"), ref.File("x", ref.SignRec(seed, num, msg)))
					_, rec, perr := ref.ParseStrict(read(x, x.Path(real, "u.pub")))
					x.Check(perr == nil, "bad-file", "public key of psignify -G -n: %v", perr)
					pub, ok := ref.ParsePub(rec)
					x.Check(ok, "bad-file", "public key of psignify -G -n")
					bpub, ok := ref.BoxPub(pub.Key[:])
					x.Check(ok, "bad-file", "public key of psignify -G -n")
					write(x.Path("a.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(&bpub, &e, msg)))
					if mode < 4 {
						r, args := run(mode)
						x.Check(r.exit == 0, "default", "psignify %q after psignify -G -n: exit %d %s", args, r.exit, r.stderr)
						switch mode {
						case 0:
							x.Check(signedBy(x, "o", seed, num), "wrong-key", "psignify %q did not use the generated key", args)
						case 2:
							x.Check(sealedTo(x, "o", seed), "wrong-key", "psignify %q did not use the generated key", args)
						case 3:
							x.Check(bytes.Equal(read(x, x.Path("o")), msg), "wrong-key", "psignify %q wrote another message", args)
						}
					}
					x.State(state, stray, mode, later)
				}},
				{Name: "unknown-home", ShardDepth: 2, Bounds: "HOME, USER or both unset x each mode with and without its key option and with the other key option: fails without it and changes nothing, succeeds with it", Body: func(x *mc.X) {
					unset := 1 + x.Choose("unset", 3)
					mode := x.Choose("mode", 5)
					given := x.Choose("given", 4) // 0 none, 1 its key, 2 the other key, 3 both
					prep(x, "home")
					// keys that a wrong default might find
					for _, n := range []string{".signify/u", ".signify/", "u", "", "root"} {
						mkdir(x.Path(".signify"))
						a.put(x.Dir() + "/" + n)
					}
					a.put(base(x, "home", "u"))
					b.put(x.Path("b"))
					write(x.Path("b.sig"), ref.File("x", ref.SignRec(b.seed, b.num, msg)))
					write(x.Path("m.sig"), ref.File("x", ref.SignRec(a.seed, a.num, msg)))
					var e [32]byte
					write(x.Path("b.enc"), ref.EncFile("untrusted comment: c", ref.SealRaw(b.boxPub(), &e, msg)))
					args := [][]string{{"-S", "-m", "m", "-x", "o"}, {"-V", "-m", "m", "-x", "b.sig"}, {"-E", "-m", "m", "-c", "o"}, {"-D", "-c", "b.enc", "-m", "o"}, {"-G", "-n"}}[mode]
					own, oth := []string{"-s", "b.sec"}, []string{"-p", "b.pub"}
					switch mode {
					case 1, 2:
						own, oth = oth, own
					case 4:
						own, oth = []string{"-p", "new"}, []string{"-s", "b.sec"}
					}
					if given&2 != 0 {
						args = append(args, oth...)
					}
					if given&1 != 0 {
						args = append(args, own...)
					}
					home, user := x.Path("home"), "u"
					if unset&1 != 0 {
						home = ""
					}
					if unset&2 != 0 {
						user = ""
					}
					before := tree(x.Dir())
					r := cli(x, home, user, args...)
					if given&1 != 0 {
						x.Check(r.exit == 0, "explicit", "psignify %q without home (%v) or user (%v): exit %d %s", args, home == "", user == "", r.exit, r.stderr)
					} else {
						x.Check(r.exit != 0, "no-default", "psignify %q without home (%q) or user (%q) succeeds", args, home, user)
						d := diffTree(before, tree(x.Dir()), "o")
						x.Check(len(d) == 0, "no-default", "psignify %q without home (%q) or user (%q) changed %s", args, home, user, join(d))
					}
					x.State(unset, mode, given, r.exit)
				}},
			}
		},
	})
}
