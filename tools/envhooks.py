# envhooks.py GOROOT/src/os OUTDIR OVERLAY.json: makes package os tell which environment variables are
# asked for: to os.VerifGetenv, or, if that is not set, to the file that VERIF_ENVLOG names.
import json, os, sys
src, out, ov = sys.argv[1:]
os.makedirs(out)
d = json.load(open(ov))
s = open(os.path.join(src, "env.go")).read()
for h in ("func Getenv(", "func LookupEnv("):
    i = s.index("\n" + h) + 1
    j = s.index("{", i) + 1
    s = s[:j] + " verifGetenv(key);" + s[j:]
p = os.path.join(out, "env.go")
open(p, "w").write(s)
d["Replace"][os.path.join(src, "env.go")] = p
p = os.path.join(out, "zz_verif_env.go")
open(p, "w").write("""package os

import "syscall"

// VerifGetenv is told which environment variables are asked for.
var VerifGetenv func(string)

func verifGetenv(key string) {
	if f := VerifGetenv; f != nil {
		f(key)
		return
	}
	if p, ok := syscall.Getenv("VERIF_ENVLOG"); ok {
		if fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CREAT, 0666); err == nil {
			syscall.Write(fd, []byte(key+"\\n"))
			syscall.Close(fd)
		}
	}
}
""")
d["Replace"][os.path.join(src, "zz_verif_env.go")] = p
json.dump(d, open(ov, "w"))
