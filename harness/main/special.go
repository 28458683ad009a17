package main

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/signify/zverif/ref"
)

// specialContents are contents that a program might take for something else than a message.
func specialContents() [][]byte {
	k, o := fixKey("special", ""), fixKey("special2", "")
	var e [32]byte
	e[1] = 1
	enc := ref.EncFile("untrusted comment: e", ref.SealRaw(k.boxPub(), &e, []byte("inner")))
	var z bytes.Buffer
	w, _ := gzip.NewWriterLevel(&z, 9)
	w.Write([]byte("zipped"))
	w.Close()
	s := []string{
		"", "\n", "\r\n", "\x00", "\x1a", "\xff", "\xef\xbb\xbf", "\xef\xbb\xbftext\n", "\xff\xfet\x00", "\xfe\xff\x00t",
		"text\r\nlines\r\n", "text\nlines\n", "text\nlines", "text\rlines\r", "text \nlines\t\n", "text\nlines\n\n", "text\nlines\x00", "text\x00lines", "text\x1alines",
		"untrusted comment: ", "untrusted comment: x\n", "untrusted comment: x\nRWQ=\n", "untrusted comment: psignify encrypted file\n",
		"-----BEGIN PGP SIGNED MESSAGE-----\n\n- -dash\n", "- dash\n", "#!/bin/sh\n", "%PDF-1.4", "PK\x03\x04", "\x7fELF", "BZh9", "\xfd7zXZ\x00", "age-encryption.org/v1\n",
		hash512("text\nlines\n"), hash256("text\nlines\n"), hexOf(hash512("text\nlines\n")), hexOf(hash256("text\nlines\n")), "dGV4dApsaW5lcwo=", "text\nlines\ntext\nlines\n", "\nsenil\ntxet", "t\x00e\x00x\x00t\x00\n\x00l\x00i\x00n\x00e\x00s\x00\n\x00", "s", "m", "text lines ", "textlines",
		"R1VM\n", "aGVsbG8=", "aGVsbG8=\n", "aGVs\nbG8=\n", "3d3d3d", "0x00", "{}", "<xml/>", "\\n\\x00%s%d%n", "$HOME `id` ${x}", "~/x", "-", "--", "-n",
		string(k.secF), string(k.pubF), string(o.pubF), string(k.sec.Encode()), string(k.pub.Encode()), string(enc), string(z.Bytes()),
		"\u00e9", "e\u0301", "\u212b", "\u00c5", "TEXT\nLINES\n", " text\nlines\n", "\ttext\n", strings.Repeat("\x00", 64), strings.Repeat("=", 72), strings.Repeat("A", 72) + "\n",
	}
	var r [][]byte
	seen := map[string]bool{}
	for _, x := range s {
		for _, y := range []string{x, x + "\n", x + strings.Repeat("tail ", 30)} {
			if !seen[y] {
				seen[y] = true
				r = append(r, []byte(y))
			}
		}
	}
	return r
}

func hash512(s string) string { h := sha512.Sum512([]byte(s)); return string(h[:]) }
func hash256(s string) string { h := sha256.Sum256([]byte(s)); return string(h[:]) }
func hexOf(s string) string   { return fmt.Sprintf("%x", s) }

// inputKinds are ways for an input file to be there; see putInput.
var inputKinds = []string{"file", "symbolic link", "chain of links", "hard link", "read-only", "linked directory"}

// putInput puts data at a path in one of these ways and returns the path to use.
func putInput(path string, kind int, data []byte) string {
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	d, n := filepath.Dir(path), filepath.Base(path)
	switch inputKinds[kind] {
	case "symbolic link":
		write(d+"/real-"+n, data)
		must(os.Symlink("real-"+n, path))
	case "chain of links":
		write(d+"/real-"+n, data)
		must(os.Symlink(d+"/real-"+n, d+"/between-"+n))
		must(os.Symlink("between-"+n, path))
	case "hard link":
		write(d+"/real-"+n, data)
		must(os.Link(d+"/real-"+n, path))
	case "linked directory":
		must(os.Mkdir(d+"/dir-"+n, 0755))
		must(os.Symlink("dir-"+n, d+"/to-"+n))
		path = d + "/to-" + n + "/" + n
		write(path, data)
	default:
		write(path, data)
		if inputKinds[kind] == "read-only" {
			must(os.Chmod(path, 0400))
		}
	}
	return path
}

// outputKinds are what may be at an output path before; see putOutput.
var outputKinds = []string{"nothing", "longer file", "shorter file", "link to longer file", "dangling link", "hard link", "read-only file", "file nobody may read"}

func putOutput(path string, kind int) {
	long := bytes.Repeat([]byte("previous "), 9000)
	d, n := filepath.Dir(path), filepath.Base(path)
	switch outputKinds[kind] {
	case "longer file":
		write(path, long)
	case "shorter file":
		write(path, []byte("p"))
	case "link to longer file":
		write(d+"/old-"+n, long)
		os.Symlink("old-"+n, path)
	case "dangling link":
		os.Symlink("old-"+n, path)
	case "hard link":
		write(d+"/old-"+n, long)
		os.Link(d+"/old-"+n, path)
	case "read-only file":
		write(path, long)
		os.Chmod(path, 0444)
	case "file nobody may read":
		write(path, long)
		os.Chmod(path, 0)
	}
}

// specialNames are legal file names that a program might take for something else.
var specialNames = []string{"-", "--", "-h", "~", "~root", "$HOME", "*", "?", "[a]", "{a,b}", "a;b", "a|b", "a&b", "a'b", "a\"b", "a\\b", "\\", " ", " lead", "trail ", "trail.", "a:b", "http:x", "file:", "|cat", ">x", "CON", "\xff\xfe", "\x01\x02", "\u00e9", "e\u0301", "M", "m.SIG", "m.sec", "m.pub", "m.gz", "m.tmp", "m~", ".sig", ".enc", ".pub", "sig", "...", "a..b", "stdin", "nul", "a\nb", "a\nb\nc", "\n", "a\n", "\r", "a\r\nb", "\t", "m.sig", "m.enc", "m.enc.enc", "untrusted comment: m"}

// composedNames returns every name made of 1 to n of the pieces.
func composedNames(n int) []string {
	pieces := []string{"a", ".sig", ".enc", ".sec", ".pub", "\n", ".", "-", " "}
	var all, last []string
	last = []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, l := range last {
			for _, p := range pieces {
				next = append(next, l+p)
			}
		}
		for _, s := range next {
			if s != "." && s != ".." {
				all = append(all, s)
			}
		}
		last = next
	}
	return all
}
