package main

import (
	"bytes"
	"fmt"
	"os"
	"syscall"

	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
)

// withUmask sets the umask until the end of the execution.
func withUmask(x *mc.X, m int) {
	old := syscall.Umask(m)
	x.Cleanup(func() { syscall.Umask(old) })
}

// private checks the mode of a secret key file.
func private(x *mc.X, path, when string) {
	fi, err := os.Stat(path)
	x.Check(err == nil, "missing-output", "no secret key file after generation: %v", err)
	p := fi.Mode().Perm()
	x.Check(p&0077 == 0, "not-private", "%s: the secret key file has mode %04o", when, p)
	x.Check(p&0400 != 0, "unreadable", "%s: the secret key file has mode %04o", when, p)
}

func init() {
	mc.Register(mc.Property{
		ID: "C16", Level: "model_checking",
		Rule:        "state: distinct (umask, previous mode, kind of previous file, mode afterwards); transition: one key generation; trace: one generation followed by a look at the file's mode",
		Assumptions: []string{"permissions are the mode bits; access control lists are not used"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			nMode := t.Pick(512, 4096)
			prevs := []int{-1, 0644, 0666, 0777, 0600, 0400, 0, 0640}
			umasks := []int{022, 0, 077, 0777, 027, 0177, 0277, 0400}
			gen := func(x *mc.X, um, prev int, how, pass string) {
				p, target := x.Path("k.sec"), x.Path("k.sec")
				if prev >= 0 {
					switch how {
					case "long":
						write(p, bytes.Repeat([]byte("previous\n"), 100))
					case "symlink":
						target = x.Path("elsewhere")
						write(target, []byte("x"))
						os.Symlink("elsewhere", p)
					case "hardlink":
						target = x.Path("elsewhere")
						write(target, []byte("x"))
						os.Link(target, p)
					case "dangling":
						target = x.Path("elsewhere")
						os.Symlink("elsewhere", p)
					default:
						write(p, nil)
					}
					if how != "dangling" {
						if err := syscall.Chmod(target, uint32(prev)); err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
					}
				}
				withUmask(x, um)
				setRand(x, constStream(3))
				x.Op("GenerateKey with umask %04o over mode %04o (%s)", um, prev, how)
				err := signify.GenerateKey(x.Path("k"), []byte(pass), &signify.GenerateOptions{Rounds: 1})
				if err != nil {
					// the other properties say when generation has to work
					x.Outcome("failed")
					return
				}
				when := fmt.Sprintf("umask %04o, previous mode %04o %s", um, prev, how)
				private(x, p, when)
				_, err = signify.LoadPrivateKey(p)
				x.Check(err == nil, "unreadable", "%s: the secret key does not load: %v", when, err)
				fi, _ := os.Stat(p)
				x.State(um, prev, how, int(fi.Mode()))
				x.Outcome("generated")
			}
			return []mc.Scenario{
				{Name: "umask", ShardDepth: 2, Bounds: "all 512 umasks x previous file {none, 0644, 0666, 0777, 0600, 0400, 0000, 0640}", Body: func(x *mc.X) {
					um := x.Choose("umask", 512)
					gen(x, um, prevs[x.Choose("previous", len(prevs))], "", "")
				}},
				{Name: "previous", ShardDepth: 2, Bounds: fmt.Sprintf("all %d previous modes x 8 umasks x previous file {short, long, hard link, target of a symbolic link}", nMode), Body: func(x *mc.X) {
					mode := x.Choose("mode", nMode)
					um := umasks[x.Choose("umask", len(umasks))]
					gen(x, um, mode, []string{"", "long", "hardlink", "symlink"}[x.Choose("how", 4)], "")
				}},
				{Name: "protected", ShardDepth: 2, Bounds: "passphrase-protected: 8 umasks x 8 previous files, and dangling symbolic links", Body: func(x *mc.X) {
					um := umasks[x.Choose("umask", len(umasks))]
					prev := x.Choose("previous", len(prevs)+1)
					if prev == len(prevs) {
						gen(x, um, 0, "dangling", "pw")
						return
					}
					gen(x, um, prevs[prev], "", "pw")
				}},
				{Name: "beside", ShardDepth: 2, Bounds: "what lies beside: all 4096 modes of an existing public key file x secret key file {none, 0600, 0644}; all 4096 modes of the directory; both belonging to another user or group; other names (.sec~, .bak, .old, .tmp, .part, .new, .lock) there with mode 0666", Body: func(x *mc.X) {
					kind := x.Choose("beside", 4)
					what := ""
					setSec := func(c int) {
						if c > 0 {
							write(x.Path("k.sec"), []byte("x"))
							os.Chmod(x.Path("k.sec"), []os.FileMode{0, 0600, 0644}[c])
						}
					}
					base := x.Path("k")
					switch kind {
					case 0:
						mode := x.Choose("mode", 4096)
						setSec(x.Choose("secret", 3))
						write(base+".pub", []byte("x"))
						syscall.Chmod(base+".pub", uint32(mode))
						what = fmt.Sprintf("an existing public key file of mode %04o", mode)
					case 1:
						mode := x.Choose("mode", 4096)
						setSec(x.Choose("secret", 3))
						mkdir(x.Path("d"))
						base = x.Path("d/k")
						syscall.Chmod(x.Path("d"), uint32(mode))
						what = fmt.Sprintf("a directory of mode %04o", mode)
					case 2:
						setSec(x.Choose("secret", 3))
						write(base+".pub", []byte("x"))
						own := x.Choose("owner", 4)
						for _, n := range []string{"k.sec", "k.pub"}[x.Choose("which", 2):] {
							os.Chown(x.Path(n), []int{0, 54321, 0, 54321}[own], []int{0, 0, 54321, 54321}[own])
						}
						what = fmt.Sprintf("files of another owner (%d)", own)
					case 3:
						setSec(x.Choose("secret", 3))
						suffix := []string{"~", ".bak", ".old", ".tmp", ".part", ".new", ".lock", ".swp"}[x.Choose("suffix", 8)]
						n := []string{"k.sec", "k.pub", "k", ".k.sec"}[x.Choose("name", 4)] + suffix
						write(x.Path(n), []byte("x"))
						os.Chmod(x.Path(n), 0666)
						what = "a file " + n + " of mode 0666"
					}
					setRand(x, constStream(3))
					x.Op("GenerateKey beside %s", what)
					if err := signify.GenerateKey(base, nil, nil); err != nil {
						x.Outcome("failed")
						return
					}
					private(x, base+".sec", "beside "+what)
					x.State(kind, what)
					x.Outcome("generated")
				}},
				{Name: "command", ShardDepth: 2, Bounds: "-G -n -p as root and as another user: 8 umasks x 8 previous files", Body: func(x *mc.X) {
					um := umasks[x.Choose("umask", len(umasks))]
					prev := prevs[x.Choose("previous", len(prevs))]
					user := x.Bool("other user")
					sp := &spec{argv: []string{psignifyBin(), "-G", "-n", "-p", x.Path("k")}, dir: x.Dir(), umask: um}
					if user {
						sp.cred = &syscall.Credential{Uid: 54321, Gid: 54321}
					}
					if prev >= 0 {
						write(x.Path("k.sec"), []byte("old"))
						os.Chmod(x.Path("k.sec"), os.FileMode(prev))
						if user {
							os.Chown(x.Path("k.sec"), 54321, 54321)
						}
					}
					res := plainRun(x, sp)
					if res.exit == 0 {
						private(x, x.Path("k.sec"), fmt.Sprintf("-G with umask %04o, previous mode %04o", um, prev))
					}
					x.Outcome("exit %d", res.exit)
					x.State(um, prev, user, res.exit)
				}},
			}
		},
	})
}
