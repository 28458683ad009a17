# oshooks.py GOROOT/src/os OUTDIR OVERLAY.json: adds calls of VerifYield before file operations.
import json, os, re, sys
src, out, ov = sys.argv[1:]
os.makedirs(out)
want = {
  "file.go": ["func (f *File) Read(", "func (f *File) ReadAt(", "func (f *File) ReadFrom(", "func (f *File) Write(", "func (f *File) WriteAt(",
              "func (f *File) Seek(", "func (f *File) Chmod(", "func OpenFile(", "func Rename(", "func Mkdir(", "func Chdir(", "func Chmod("],
  "file_posix.go": ["func (f *File) Close(", "func (f *File) Truncate(", "func (f *File) Sync("],
  "file_unix.go": ["func Remove(", "func Truncate(", "func Link("],
  "stat.go": ["func Stat(", "func Lstat("],
  "stat_unix.go": ["func (f *File) Stat("],
}
d = json.load(open(ov))
for name, heads in want.items():
    s = open(os.path.join(src, name)).read()
    for h in heads:
        i = s.index("\n" + h) + 1
        j = s.index("{", i) + 1
        label = re.sub(r"func (\(f \*File\) )?(\w+)\(", lambda m: ("File." if m[1] else "os.") + m[2], h)
        s = s[:j] + " verifYield(%s);" % json.dumps(label) + s[j:]
    p = os.path.join(out, name)
    open(p, "w").write(s)
    d["Replace"][os.path.join(src, name)] = p
p = os.path.join(out, "zz_verif.go")
open(p, "w").write("""package os

// VerifYield is called before file operations.
var VerifYield func(string)

func verifYield(op string) {
	if f := VerifYield; f != nil {
		f(op)
	}
}
""")
d["Replace"][os.path.join(src, "zz_verif.go")] = p
json.dump(d, open(ov, "w"))
