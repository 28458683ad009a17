// Package ref is an independent reference model of psignify's file formats and cryptography, written
// from the format descriptions with the standard library, math/big and x/crypto primitives only.
package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"math/big"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
	"golang.org/x/crypto/nacl/secretbox"
)

const Prefix = "untrusted comment: "

// File renders a signify data file.
func File(comment string, rec []byte) []byte {
	return []byte(Prefix + comment + "\n" + base64.StdEncoding.EncodeToString(rec) + "\n")
}

// ParseStrict splits a file that must be exactly a comment line and a base64 line.
func ParseStrict(b []byte) (comment string, rec []byte, err error) {
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return "", nil, errors.New("no final newline")
	}
	lines := strings.Split(s[:len(s)-1], "\n")
	if len(lines) != 2 {
		return "", nil, errors.New("not two lines")
	}
	if !strings.HasPrefix(lines[0], Prefix) {
		return "", nil, errors.New("no comment prefix")
	}
	rec, err = base64.StdEncoding.Strict().DecodeString(lines[1])
	if strings.ContainsAny(lines[1], "\r\n") {
		err = errors.New("line break in data")
	}
	return lines[0][len(Prefix):], rec, err
}

// Candidates returns every record that a lenient reader could see in a file: each line decoded
// with and without surrounding white space. Used only for "accepted implies some line is good".
func Candidates(b []byte) [][]byte {
	var out [][]byte
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.Map(func(r rune) rune {
			if r == '\r' || r == ' ' || r == '\t' {
				return -1
			}
			return r
		}, l)
		if l == "" {
			continue
		}
		if d, err := base64.StdEncoding.DecodeString(l); err == nil {
			out = append(out, d)
		} else if d, err := base64.RawStdEncoding.DecodeString(l); err == nil {
			out = append(out, d)
		}
	}
	return out
}

// Pub is a public key record.
type Pub struct {
	Alg string
	Num [8]byte
	Key [32]byte
}

func (p Pub) Encode() []byte {
	return append(append([]byte(p.Alg), p.Num[:]...), p.Key[:]...)
}

func ParsePub(b []byte) (p Pub, ok bool) {
	if len(b) != 42 {
		return p, false
	}
	p.Alg = string(b[:2])
	copy(p.Num[:], b[2:])
	copy(p.Key[:], b[10:])
	return p, true
}

// Sig is a signature record.
type Sig struct {
	Alg string
	Num [8]byte
	Sig [64]byte
}

func (p Sig) Encode() []byte {
	return append(append([]byte(p.Alg), p.Num[:]...), p.Sig[:]...)
}

func ParseSig(b []byte) (p Sig, ok bool) {
	if len(b) != 74 {
		return p, false
	}
	p.Alg = string(b[:2])
	copy(p.Num[:], b[2:])
	copy(p.Sig[:], b[10:])
	return p, true
}

// Sec is a secret key record.
type Sec struct {
	Alg, KDF string
	Rounds   uint32
	Salt     [16]byte
	Sum      [8]byte
	Num      [8]byte
	Key      [64]byte // as stored
}

func (s Sec) Encode() []byte {
	b := []byte(s.Alg + s.KDF)
	var r [4]byte
	binary.BigEndian.PutUint32(r[:], s.Rounds)
	b = append(b, r[:]...)
	b = append(b, s.Salt[:]...)
	b = append(b, s.Sum[:]...)
	b = append(b, s.Num[:]...)
	return append(b, s.Key[:]...)
}

func ParseSec(b []byte) (s Sec, ok bool) {
	if len(b) != 104 {
		return s, false
	}
	s.Alg, s.KDF = string(b[:2]), string(b[2:4])
	s.Rounds = binary.BigEndian.Uint32(b[4:])
	copy(s.Salt[:], b[8:])
	copy(s.Sum[:], b[24:])
	copy(s.Num[:], b[32:])
	copy(s.Key[:], b[40:])
	return s, true
}

// MakeSec builds a secret key record; rounds 0 means unprotected.
func MakeSec(seed []byte, num [8]byte, salt [16]byte, rounds uint32, pass []byte) Sec {
	k := ed25519.NewKeyFromSeed(seed)
	s := Sec{Alg: "Ed", KDF: "BK", Rounds: rounds, Salt: salt, Num: num}
	d := sha512.Sum512(k)
	copy(s.Sum[:], d[:])
	copy(s.Key[:], k)
	if rounds > 0 {
		x, err := bcrypt_pbkdf.Key(pass, salt[:], int(rounds), 64)
		if err != nil {
			panic(err)
		}
		for i := range s.Key {
			s.Key[i] ^= x[i]
		}
	}
	return s
}

// Unlock returns the Ed25519 private key of a record, or false if the checksum fails.
func (s Sec) Unlock(pass []byte) (ed25519.PrivateKey, bool) {
	k := append([]byte{}, s.Key[:]...)
	if s.Rounds > 0 {
		x, err := bcrypt_pbkdf.Key(pass, s.Salt[:], int(s.Rounds), 64)
		if err != nil {
			return nil, false
		}
		for i := range k {
			k[i] ^= x[i]
		}
	}
	d := sha512.Sum512(k)
	return ed25519.PrivateKey(k), bytes.Equal(d[:8], s.Sum[:])
}

// PubOf is the public record of a seed.
func PubOf(seed []byte, num [8]byte) Pub {
	p := Pub{Alg: "Ed", Num: num}
	copy(p.Key[:], ed25519.NewKeyFromSeed(seed)[32:])
	return p
}

// Valid is the reference verification decision on records.
func Valid(pub, msg, sig []byte) bool {
	p, ok := ParsePub(pub)
	if !ok {
		return false
	}
	s, ok := ParseSig(sig)
	if !ok {
		return false
	}
	return p.Alg == "Ed" && s.Alg == "Ed" && p.Num == s.Num && ed25519.Verify(p.Key[:], msg, s.Sig[:])
}

// SignRec is the reference signature record.
func SignRec(seed []byte, num [8]byte, msg []byte) []byte {
	s := Sig{Alg: "Ed", Num: num}
	copy(s.Sig[:], ed25519.Sign(ed25519.NewKeyFromSeed(seed), msg))
	return s.Encode()
}

// ---- curve -----------------------------------------------------------------------------------

var (
	P    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	D    = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), P)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, P)
	}()
	SqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2), P)
	one    = big.NewInt(1)
)

// LE decodes little-endian bytes.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ToLE encodes n (reduced) as 32 little-endian bytes.
func ToLE(n *big.Int) (out [32]byte) {
	b := n.Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// Point is an affine Edwards point.
type Point struct{ X, Y *big.Int }

// Decompress decodes an Ed25519 point (y taken modulo p); false if not on the curve.
func Decompress(b []byte) (Point, bool) {
	y := LE(b)
	sign := y.Bit(255)
	y.SetBit(y, 255, 0)
	y.Mod(y, P)
	y2 := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(y2, one)
	u.Mod(u, P)
	v := new(big.Int).Mul(D, y2)
	v.Add(v, one)
	v.Mod(v, P)
	v.ModInverse(v, P) // d is not a square, so v is never 0
	x2 := u.Mul(u, v)
	x2.Mod(x2, P)
	x := new(big.Int).ModSqrt(x2, P)
	if x == nil {
		return Point{}, false
	}
	if x.Bit(0) != sign {
		x.Sub(P, x)
		x.Mod(x, P)
	}
	return Point{x, y}, true
}

// Add is the complete twisted Edwards addition law (a = -1).
func Add(p, q Point) Point {
	x1y2 := new(big.Int).Mul(p.X, q.Y)
	y1x2 := new(big.Int).Mul(p.Y, q.X)
	y1y2 := new(big.Int).Mul(p.Y, q.Y)
	x1x2 := new(big.Int).Mul(p.X, q.X)
	t := new(big.Int).Mul(x1y2, y1x2)
	t.Mod(t, P)
	t.Mul(t, D)
	t.Mod(t, P)
	xn := new(big.Int).Add(x1y2, y1x2)
	yn := new(big.Int).Add(y1y2, x1x2)
	dx := new(big.Int).Add(one, t)
	dy := new(big.Int).Sub(one, t)
	dx.Mod(dx, P).ModInverse(dx, P)
	dy.Mod(dy, P).ModInverse(dy, P)
	xn.Mul(xn, dx).Mod(xn, P)
	yn.Mul(yn, dy).Mod(yn, P)
	return Point{xn, yn}
}

// Identity is the neutral element.
func Identity() Point { return Point{big.NewInt(0), big.NewInt(1)} }

// Mul is scalar multiplication.
func Mul(k *big.Int, p Point) Point {
	r := Identity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// Encode compresses a point.
func (p Point) Encode() [32]byte {
	b := ToLE(p.Y)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// Base is the Ed25519 base point.
func Base() Point {
	b := [32]byte{}
	for i := range b {
		b[i] = 0x66
	}
	b[0] = 0x58
	p, ok := Decompress(b[:])
	if !ok {
		panic("base")
	}
	return p
}

// SmallOrder reports whether 8P is the identity.
func SmallOrder(p Point) bool {
	q := Add(p, p)
	q = Add(q, q)
	q = Add(q, q)
	return q.X.Sign() == 0 && q.Y.Cmp(one) == 0
}

// Montgomery returns u = (1+y)/(1-y) of an encoded point.
func Montgomery(y *big.Int) [32]byte {
	d := new(big.Int).Sub(one, y)
	d.Mod(d, P)
	if d.Sign() == 0 {
		return [32]byte{}
	}
	d.ModInverse(d, P)
	n := new(big.Int).Add(one, y)
	n.Mul(n, d).Mod(n, P)
	return ToLE(n)
}

// BoxPub is the Curve25519 key of an Ed25519 public key.
func BoxPub(key []byte) (u [32]byte, ok bool) {
	p, ok := Decompress(key)
	if !ok {
		return u, false
	}
	return Montgomery(p.Y), true
}

// BoxPriv is the Curve25519 scalar of an Ed25519 seed.
func BoxPriv(seed []byte) (s [32]byte) {
	d := sha512.Sum512(seed)
	d[0] &= 248
	d[31] &= 127
	d[31] |= 64
	copy(s[:], d[:])
	return s
}

// ---- encrypted files -------------------------------------------------------------------------

const (
	Chunk      = 16385
	HeaderSize = 72
	EncComment = "untrusted comment: psignify encrypted file\n"
)

func nonceOf(i uint64) *[24]byte {
	var n [24]byte
	binary.BigEndian.PutUint64(n[16:], i)
	return &n
}

// Shared is the box key between an ephemeral and a static key.
func Shared(priv, pub *[32]byte) *[32]byte {
	var s [32]byte
	box.Precompute(&s, pub, priv)
	return &s
}

// Header builds the header for a chunk count.
func Header(chunks uint64, epub *[32]byte, shared *[32]byte) []byte {
	h := make([]byte, HeaderSize)
	binary.BigEndian.PutUint64(h, chunks)
	copy(h[8:], epub[:])
	t := auth.Sum(h[:40], shared)
	copy(h[40:], t[:])
	return h
}

// SealRaw seals msg to the Curve25519 key u with the given ephemeral secret.
func SealRaw(u *[32]byte, epriv *[32]byte, msg []byte) []byte {
	var epub [32]byte
	curve25519.ScalarBaseMult(&epub, epriv)
	sh := Shared(epriv, u)
	n := (len(msg) + Chunk - 1) / Chunk
	out := Header(uint64(n), &epub, sh)
	for i := 0; i < n; i++ {
		hi := (i + 1) * Chunk
		if hi > len(msg) {
			hi = len(msg)
		}
		out = secretbox.Seal(out, msg[i*Chunk:hi], nonceOf(uint64(i)), sh)
	}
	return out
}

// Box seals one chunk.
func Box(sh *[32]byte, i uint64, chunk []byte) []byte {
	return secretbox.Seal(nil, chunk, nonceOf(i), sh)
}

// OpenRaw decrypts a raw sealed stream strictly.
func OpenRaw(priv *[32]byte, data []byte) ([]byte, error) {
	if len(data) < HeaderSize {
		return nil, errors.New("short header")
	}
	var epub [32]byte
	copy(epub[:], data[8:40])
	sh := Shared(priv, &epub)
	if !auth.Verify(data[40:72], data[:40], sh) {
		return nil, errors.New("header authenticator")
	}
	n := binary.BigEndian.Uint64(data)
	rest := data[HeaderSize:]
	var msg []byte
	for i := uint64(0); i < n; i++ {
		k := Chunk + box.Overhead
		if k > len(rest) {
			k = len(rest)
		}
		if i+1 < n && k != Chunk+box.Overhead {
			return nil, errors.New("short inner chunk")
		}
		m, ok := secretbox.Open(nil, rest[:k], nonceOf(i), sh)
		if !ok {
			return nil, errors.New("chunk authenticator")
		}
		if len(m) == 0 {
			return nil, errors.New("empty chunk")
		}
		msg = append(msg, m...)
		rest = rest[k:]
	}
	if len(rest) != 0 {
		return nil, errors.New("trailing data")
	}
	return msg, nil
}

// Lines renders base64 in lines of width characters.
func Lines(data []byte, width int) string {
	e := base64.StdEncoding.EncodeToString(data)
	var b strings.Builder
	for len(e) > width {
		b.WriteString(e[:width] + "\n")
		e = e[width:]
	}
	b.WriteString(e + "\n")
	return b.String()
}

// EncFile renders an encrypted file.
func EncFile(comment string, raw []byte) []byte {
	return []byte(Prefix + comment + "\n" + Lines(raw, 72))
}

// ParseEnc checks the textual layout of an encrypted file and returns the raw stream.
func ParseEnc(b []byte) ([]byte, error) {
	s := string(b)
	i := strings.IndexByte(s, '\n')
	if i < 0 || !strings.HasPrefix(s, Prefix) {
		return nil, errors.New("no comment line")
	}
	return ParseB64(s[i+1:])
}

// ParseB64 checks base64 in full lines of 72 (last shorter, blank lines at the end ignored).
func ParseB64(s string) ([]byte, error) {
	if s != "" && !strings.HasSuffix(s, "\n") {
		return nil, errors.New("no final newline")
	}
	s = strings.TrimRight(s, "\n")
	if s == "" {
		return nil, nil
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if len(l) > 72 || (i+1 < len(lines) && len(l) != 72) {
			return nil, errors.New("bad line length")
		}
	}
	j := strings.Join(lines, "")
	if strings.ContainsAny(j, "\r") {
		return nil, errors.New("CR")
	}
	return base64.StdEncoding.Strict().DecodeString(j)
}
