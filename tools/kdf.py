# kdf.py REPO OUTDIR GO.MOD: makes a copy of the bcrypt_pbkdf module that the harness can switch to a fast
# stand-in (a hash of passphrase, salt, rounds and length), and lets GO.MOD use it. Exits 1 when it cannot.
import glob, os, re, subprocess, sys
repo, out, gomod = sys.argv[1:]
M = "github.com/dchest/bcrypt_pbkdf"
r = subprocess.run(["go", "list", "-modfile=" + gomod, "-m", "-f", "{{.Dir}}", M], cwd=repo, capture_output=True, text=True)
d = r.stdout.strip()
if r.returncode or not d or not os.path.isdir(d):
    sys.exit(1)
os.makedirs(out)
found = False
for f in sorted(glob.glob(d + "/*.go")):
    if f.endswith("_test.go"):
        continue
    s = open(f).read()
    t = re.sub(r"^func Key\(password, salt \[\]byte, rounds, keyLen int\)", "func realKey(password, salt []byte, rounds, keyLen int)", s, flags=re.M)
    found |= s != t
    open(os.path.join(out, os.path.basename(f)), "w").write(t)
if not found:
    sys.exit(1)
open(out + "/go.mod", "w").write("module %s\n\ngo 1.12\n" % M)
open(out + "/zz_verif.go", "w").write('''package bcrypt_pbkdf

import (
	"crypto/sha512"
	"encoding/binary"
)

// VerifFast makes Key a fast function that, like the real one, depends on all of its arguments.
var VerifFast bool

// VerifCalls counts the derivations.
var VerifCalls int

// Key derives a key.
func Key(password, salt []byte, rounds, keyLen int) ([]byte, error) {
	if !VerifFast {
		return realKey(password, salt, rounds, keyLen)
	}
	if rounds < 1 || len(password) == 0 || len(salt) == 0 || len(salt) > 1<<20 || keyLen > 1024 {
		return realKey(password, salt, rounds, keyLen)
	}
	VerifCalls++
	h := sha512.New()
	var n [8]byte
	for _, v := range []int{rounds, keyLen, len(salt), len(password)} {
		binary.BigEndian.PutUint64(n[:], uint64(v))
		h.Write(n[:])
	}
	h.Write(salt)
	h.Write(password)
	d := h.Sum(nil)
	var key []byte
	for i := byte(0); len(key) < keyLen; i++ {
		b := sha512.Sum512(append(d, i))
		key = append(key, b[:]...)
	}
	return key[:keyLen], nil
}
''')
open(gomod, "a").write("\nreplace %s => %s\n" % (M, out))
