# export.py REPO OUT.go: gives the harness the streaming functions of package crypto. They are found
# by their types, so that another name or order of parameters does not matter; if there are none, or
# what is found does something else, the harness works through files.
import re, sys, os
repo, out = sys.argv[1:]

def split(s):
    parts, d, cur = [], 0, ""
    for c in s:
        d += c in "([{"
        d -= c in ")]}"
        if c == "," and d == 0:
            parts.append(cur); cur = ""
        else:
            cur += c
    return [p.strip() for p in parts + [cur] if p.strip()]

def params(s):
    ps = split(s)
    types, pend = [], 0
    if not any(" " in p for p in ps):
        return ps
    for p in ps:
        pend += 1
        if " " in p:
            types += [p.split(None, 1)[1]] * pend
            pend = 0
    return types

seal, open_, step = [], [], []
d = os.path.join(repo, "crypto")
for f in sorted(os.listdir(d)):
    if not f.endswith(".go") or f.endswith("_test.go"):
        continue
    for m in re.finditer(r"^func (\w+)\(((?:[^()]|\([^()]*\))*)\) (error|\(\w+ error\)|\(error\)) \{", open(os.path.join(d, f)).read(), re.M):
        t = params(" ".join(m.group(2).split()))
        if t == ["*[24]byte"] and m.group(3) == "error":
            step.append(m.group(1))
        s = sorted(t)
        for ints in ("int", "int64"):
            if s == sorted(["*signify.Public", "io.Reader", ints, "io.Writer"]):
                arg = {"*signify.Public": "pub", "io.Reader": "message", "io.Writer": "w", ints: ints + "(messageLen)"}
                seal.append((m.group(1) != "seal", "%s(%s)" % (m.group(1), ", ".join(arg[x] for x in t))))
        if s == sorted(["*signify.Private", "io.Reader", "io.Writer"]):
            arg = {"*signify.Private": "priv", "io.Reader": "message", "io.Writer": "w"}
            open_.append((m.group(1) != "open", "%s(%s)" % (m.group(1), ", ".join(arg[x] for x in t))))

seal.sort(); open_.sort()
STEP = " = " + step[0] if len(step) == 1 else ""
def unique(l):
    return l and (len(l) == 1 or not l[0][0])
HEAD = """package crypto

import (
%s	"io"
%s
	"github.com/kisom/psignify/signify"
)

// VerifInternal says that the streaming functions are the package's own. The harness takes it back
// if they do not read and write the bare format.
var VerifInternal = %s

// VerifStep is the function that advances a chunk's nonce, if there is one.
var VerifStep func(nonce *[24]byte) error%s

// VerifKeep tells which file a key came from.
func VerifKeep(key interface{}, file []byte) { %s }
"""
have = unique(seal) and unique(open_) and "-files" not in os.environ.get("VERIF_EXPORT", "")
src = HEAD % ('	verifBytes "bytes"\n	verifBase64 "encoding/base64"\n	verifErrors "errors"\n', '	verifOS "os"\n	verifStrings "strings"\n	verifSync "sync"\n', "true" if have else "false", STEP, "verifKeys.Store(key, file)") + """
func VerifSeal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
	if VerifInternal {
		return verifSeal(pub, message, messageLen, w)
	}
	return verifFileSeal(pub, message, messageLen, w)
}

func VerifOpen(priv *signify.Private, message io.Reader, w io.Writer) error {
	if VerifInternal {
		return verifOpen(priv, message, w)
	}
	return verifFileOpen(priv, message, w)
}
""" + """
func verifSeal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
	%s
}

func verifOpen(priv *signify.Private, message io.Reader, w io.Writer) error {
	%s
}
""" % (("return " + seal[0][1], "return " + open_[0][1]) if have else ('panic("none")', 'panic("none")')) + """
var verifKeys verifSync.Map

func verifFiles(key interface{}, message io.Reader) (string, []byte, error) {
	file, ok := verifKeys.Load(key)
	if !ok {
		panic("harness: the file of a key is not known")
	}
	in, err := io.ReadAll(message)
	if err != nil {
		return "", nil, err
	}
	d, err := verifOS.MkdirTemp(verifOS.Getenv("VERIF_SCRATCH"), "stream")
	if err != nil {
		panic(err)
	}
	if err = verifOS.WriteFile(d+"/key", file.([]byte), 0600); err != nil {
		panic(err)
	}
	return d, in, nil
}

func verifFileSeal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
	d, in, err := verifFiles(pub, message)
	if err != nil {
		return err
	}
	defer verifOS.RemoveAll(d)
	if len(in) != messageLen {
		return verifErrors.New("harness: length")
	}
	if err = verifOS.WriteFile(d+"/m", in, 0600); err != nil {
		panic(err)
	}
	if err = Seal(d+"/key", d+"/m", d+"/e"); err != nil {
		return err
	}
	enc, err := verifOS.ReadFile(d + "/e")
	if err != nil {
		return err
	}
	raw, err := verifBase64.StdEncoding.DecodeString(verifStrings.Replace(string(enc[verifBytes.IndexByte(enc, '\\n')+1:]), "\\n", "", -1))
	if err == nil {
		_, err = w.Write(raw)
	}
	return err
}

func verifFileOpen(priv *signify.Private, message io.Reader, w io.Writer) error {
	d, in, err := verifFiles(priv, message)
	if err != nil {
		return err
	}
	defer verifOS.RemoveAll(d)
	text := "comment\\n" + verifBase64.StdEncoding.EncodeToString(in) + "\\n"
	if err = verifOS.WriteFile(d+"/e", []byte(text), 0600); err != nil {
		panic(err)
	}
	err = Open(d+"/key", d+"/e", d+"/m")
	got, rerr := verifOS.ReadFile(d + "/m")
	if rerr == nil && len(got) > 0 {
		if _, werr := w.Write(got); werr != nil && err == nil {
			err = werr
		}
	}
	return err
}
"""
open(out, "w").write(src)
