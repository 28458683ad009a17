package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// judgeSealed: success means that everything the stream held can be decrypted.
func judgeSealed(x *mc.X, k *keyFix, raw []byte, err error, msg []byte, mustWork bool, what string) {
	if err != nil {
		x.Check(!mustWork, "refused", "%s: encrypting failed: %v", what, err)
		x.Outcome("refused")
		return
	}
	got, derr := ref.OpenRaw(k.boxPriv(), raw)
	if derr != nil {
		x.Fail("lost", "%s: encryption of a stream of %d bytes succeeded, but the result does not decrypt: %v", what, len(msg), derr)
	}
	x.Check(bytes.Equal(got, msg), "lost", "%s: encryption of a stream of %d bytes succeeded, but it decrypts to %d bytes: %s", what, len(msg), len(got), diffAt(got, msg))
	x.Outcome("sealed")
}

// failSource delivers data and fails at the k-th call (with, or instead of, its data).
type failSource struct {
	data  []byte
	pos   int
	piece int // largest read
	call  int
	at    int // -1 never
	with  bool
	once  bool
	eof   bool // deliver the last data together with io.EOF
	err   error
	hit   int
}

func (s *failSource) Read(p []byte) (int, error) {
	c := s.call
	s.call++
	if s.hit > 0 && !s.once {
		s.hit++
		return 0, s.err
	}
	if len(p) > s.piece && s.piece > 0 {
		p = p[:s.piece]
	}
	if c == s.at {
		s.hit++
		if s.with {
			n := copy(p, s.data[s.pos:])
			s.pos += n
			return n, s.err
		}
		return 0, s.err
	}
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	n := copy(p, s.data[s.pos:])
	s.pos += n
	if s.eof && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

// rawSink is a destination that fails at the k-th write.
type rawSink struct {
	bytes.Buffer
	call, at, hit int
	once          bool
	part          int // bytes accepted by the failing write: 0 none, 1 half, 2 all
}

func (s *rawSink) Write(p []byte) (int, error) {
	c := s.call
	s.call++
	if s.hit > 0 && !s.once {
		s.hit++
		return 0, errSink
	}
	if c == s.at {
		s.hit++
		n := len(p) * s.part / 2
		s.Buffer.Write(p[:n])
		return n, errSink
	}
	return s.Buffer.Write(p)
}

// feedFIFO makes a FIFO holding parts, delivered one after the other.
func feedFIFO(x *mc.X, path string, parts [][]byte) {
	if err := syscall.Mkfifo(path, 0600); err != nil {
		panic(fmt.Sprintf("harness: mkfifo: %v", err))
	}
	stop, done := make(chan bool), make(chan bool)
	x.Cleanup(func() {
		close(stop)
		if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil { // let a pending open return
			<-done
			f.Close()
			return
		}
		<-done
	})
	go func() {
		defer close(done)
		var f *os.File
		for f == nil {
			fd, err := syscall.Open(path, syscall.O_WRONLY|syscall.O_NONBLOCK, 0)
			if err == nil {
				syscall.SetNonblock(fd, false)
				f = os.NewFile(uintptr(fd), path)
				break
			}
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
		for i, p := range parts {
			if i > 0 {
				time.Sleep(300 * time.Microsecond)
			}
			if _, err := f.Write(p); err != nil {
				break
			}
		}
		f.Close()
	}()
}

func init() {
	mc.Register(mc.Property{
		ID: "C13", Level: "model_checking",
		Rule:        "state: distinct (stream length, announced length, read behaviour, outcome); transition: one seal or open over a controlled source and destination; trace: one encryption whose result is decrypted by the reference",
		Assumptions: []string{"nacl box is correct", "a source that has reported its end stays at its end, and one that fails while delivering data (as io.ReadFull expects) fails again at the next read"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k := fixKey("c13", "")
			C := ref.Chunk
			lens := []int{0, 1, 2, 100, 4096, C - 1, C, C + 1, 2*C - 1, 2 * C, 2*C + 1, 3*C + 7}
			setup := func(x *mc.X) *signify.Public {
				_, pub := k.load(x)
				setRand(x, hashStream("c13"))
				return pub
			}
			return append([]mc.Scenario{
				{Streams: true, Name: "short-reads", MaxDev: t.Pick(2, 3), ShardDepth: 3, Bounds: fmt.Sprintf("12 stream lengths around 0..3 chunks; up to %d reads answered with 1 byte, half, all but one byte, nothing, or (the last) together with end-of-file", t.Pick(2, 3)), Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					eof := x.Bool("eof with data")
					piece := []int{0, 9000, 16384}[x.Choose("largest read", 3)]
					msg := bigBytes(uint64(n)+1, n+8)[:n]
					pub := setup(x)
					pos := 0
					src := readerFunc(func(p []byte) (int, error) {
						if pos == n {
							return 0, io.EOF
						}
						if len(p) == 0 {
							return 0, nil
						}
						if piece > 0 && len(p) > piece {
							p = p[:piece]
						}
						if len(p) > n-pos {
							p = p[:n-pos]
						}
						switch x.Dev("read", 5) {
						case 1:
							p = p[:1]
						case 2:
							p = p[:(len(p)+1)/2]
						case 3:
							if len(p) > 1 {
								p = p[:len(p)-1]
							}
						case 4:
							return 0, nil
						}
						copy(p, msg[pos:])
						pos += len(p)
						if eof && pos == n {
							return len(p), io.EOF
						}
						return len(p), nil
					})
					var out bytes.Buffer
					x.Op("seal")
					err := crypto.VerifSeal(pub, src, n, &out)
					judgeSealed(x, k, out.Bytes(), err, msg, true, "short reads")
					x.State(n, eof, piece, out.Len())
				}},
				{Streams: true, Name: "constant-reads", ShardDepth: 2, Bounds: "12 stream lengths x every read limited to 1, 2, 3, 7, 100, 1000, 4096, 8192, 16384, 16385, 16386 bytes x end-of-file with the data or after", Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					piece := []int{1, 2, 3, 7, 100, 1000, 4096, 8192, 16384, 16385, 16386}[x.Choose("piece", 11)]
					eof := x.Bool("eof with data")
					msg := bigBytes(uint64(n)+2, n+8)[:n]
					pub := setup(x)
					var out bytes.Buffer
					x.Op("seal")
					err := crypto.VerifSeal(pub, &failSource{data: msg, piece: piece, at: -1, eof: eof}, n, &out)
					judgeSealed(x, k, out.Bytes(), err, msg, true, fmt.Sprintf("reads of at most %d", piece))
					x.State(n, piece, eof)
				}},
				{Streams: true, Name: "announced", ShardDepth: 3, Bounds: "12 stream lengths x 12 announced lengths and the stream's length +-1 x reads limited to {none, 1000, 16384} x end-of-file with the data or after", Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					a := x.Choose("announced", len(lens)+2)
					ann := 0
					if a < len(lens) {
						ann = lens[a]
					} else if ann = n + 2*(a-len(lens)) - 1; ann < 0 {
						x.Outcome("none")
						return
					}
					piece := []int{0, 1000, 16384}[x.Choose("piece", 3)]
					eof := x.Bool("eof with data")
					msg := bigBytes(uint64(n)+3, n+8)[:n]
					pub := setup(x)
					var out bytes.Buffer
					x.Op("seal %d announced as %d", n, ann)
					err := crypto.VerifSeal(pub, &failSource{data: msg, piece: piece, at: -1, eof: eof}, ann, &out)
					judgeSealed(x, k, out.Bytes(), err, msg, ann == n, fmt.Sprintf("announced as %d", ann))
					x.State(n, ann, piece, eof)
				}},
				{Streams: true, Name: "announced-sweep", ShardDepth: 2, Bounds: fmt.Sprintf("stream lengths 0..%d x announced 0..%d, and both shifted by one chunk", t.Pick(20, 40), t.Pick(20, 40)), Body: func(x *mc.X) {
					m := t.Pick(21, 41)
					n, ann := x.Choose("len", m), x.Choose("announced", m)
					if s := x.Choose("shift", 3); s > 0 {
						n, ann = n+C-m/2, ann+C-m/2
						if s == 2 {
							n += C
						}
					}
					msg := bigBytes(uint64(n)+4, n+8)[:n]
					pub := setup(x)
					var out bytes.Buffer
					x.Op("seal %d announced as %d", n, ann)
					err := crypto.VerifSeal(pub, bytes.NewReader(msg), ann, &out)
					judgeSealed(x, k, out.Bytes(), err, msg, ann == n, fmt.Sprintf("announced as %d", ann))
					x.State(n, ann)
				}},
				{Streams: true, Name: "seal-read-errors", ShardDepth: 3, Bounds: "12 stream lengths x reads limited to {none, 5000, 16384, 700} x failure at every read call (through the one that would report end-of-file), with or instead of its data, from then on (also as io.ErrUnexpectedEOF) or, without data, once x announced length right, one less or one chunk less", Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					piece := []int{0, 5000, 16384, 700}[x.Choose("piece", 4)]
					ann := n - []int{0, 1, C}[x.Choose("announced", 3)]
					if ann < 0 {
						x.Outcome("none")
						return
					}
					msg := bigBytes(uint64(n)+5, n+8)[:n]
					pub := setup(x)
					dry := &failSource{data: msg, piece: piece, at: -1}
					crypto.VerifSeal(pub, dry, ann, io.Discard)
					if dry.call == 0 {
						x.Outcome("no read")
						return
					}
					s := &failSource{data: msg, piece: piece, at: x.Choose("fail at", dry.call), err: errSource}
					s.with = x.Bool("with data")
					switch x.Choose("kind", 3) {
					case 1:
						s.once = !s.with
					case 2:
						s.err = io.ErrUnexpectedEOF
					}
					var out bytes.Buffer
					x.Op("seal")
					err := crypto.VerifSeal(pub, s, ann, &out)
					x.Check(s.hit > 0, "error-unseen", "the source of %d bytes was not read up to its end (read %d never made)", n, s.at+1)
					x.Check(err != nil, "read-error-lost", "read %d of a stream of %d bytes failed (with data: %v), but encryption reports success", s.at+1, n, s.with)
					x.State(n, piece, ann, s.at, s.with, s.once)
				}},
				{Streams: true, Name: "write-errors", ShardDepth: 3, Bounds: "12 message lengths, seal and open: failure of every write of the destination (nothing, half or all of it accepted; once or from then on)", Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					msg := bigBytes(uint64(n)+6, n+8)[:n]
					priv, pub := k.load(x)
					setRand(x, hashStream("c13"))
					op := x.Choose("op", 2)
					run := func(w io.Writer) error {
						if op == 0 {
							return crypto.VerifSeal(pub, bytes.NewReader(msg), n, w)
						}
						var e [32]byte
						e[3] = 9
						return crypto.VerifOpen(priv, bytes.NewReader(ref.SealRaw(k.boxPub(), &e, msg)), w)
					}
					dry := &rawSink{at: -1}
					run(dry)
					if dry.call == 0 {
						x.Check(op == 1 && n == 0, "no-write", "nothing was written")
						x.Outcome("no write")
						return
					}
					s := &rawSink{at: x.Choose("fail at", dry.call), part: x.Choose("accepted", 3), once: x.Bool("once")}
					x.Op("run")
					err := run(s)
					x.Check(err != nil, "write-error-lost", "write %d of %d failed while %s %d bytes, but success is reported", s.at+1, dry.call, []string{"encrypting", "decrypting"}[op], n)
					x.State(n, op, s.at, s.part, s.once)
				}},
				{Streams: true, Name: "open-read-errors", ShardDepth: 2, Bounds: "decoder and decryption over a source failing at every character of the text of 0, 1, 2, 100 bytes and around every chunk boundary of 1, 2 and 3 chunks (first and last 200 characters of the text, 24 characters around each), with or without data", Body: func(x *mc.X) {
					ns := []int{0, 1, 2, 100, C, 2*C + 5, 3 * C}
					n := ns[x.Choose("len", len(ns))]
					with := x.Bool("with data")
					msg := bigBytes(uint64(n)+7, n+8)[:n]
					var e [32]byte
					e[3] = 9
					text := []byte(ref.Lines(ref.SealRaw(k.boxPub(), &e, msg), 72))
					pts := []int{}
					last := -1
					for i := 0; i < len(text); i++ {
						near := i < 200 || i >= len(text)-200
						for c := 1; c*C <= n; c++ {
							b := (72 + c*(C+16)) / 3 * 4
							b += b / 72
							near = near || i > b-12 && i < b+12
						}
						if near && i != last {
							pts = append(pts, i)
							last = i
						}
					}
					priv, _ := k.load(x)
					for _, at := range pts {
						s := &oddSource{data: text, failAt: at, with: with, err: errSource}
						var out bytes.Buffer
						x.Op("open")
						err := crypto.VerifOpen(priv, psb64.NewDecoder(s), &out)
						// the trailing newline is not needed to have everything
						if err == nil && bytes.Equal(out.Bytes(), msg) && at >= len(bytes.TrimRight(text, "\n")) {
							continue
						}
						x.Check(err != nil, "read-error-lost", "the source failed at character %d of %d: decryption of %d bytes reports %v", at, len(text), n, err)
						x.Check(isPrefix(out.Bytes(), msg), "wrong-data", "source failed at %d: %s", at, diffAt(out.Bytes(), msg))
						x.State(n, with, at)
					}
				}},
				{Name: "fifo", ShardDepth: 3, Bounds: "Seal and Open reading their input from a FIFO that delivers 12 lengths in 1..3 pieces", Body: func(x *mc.X) {
					n := lens[x.Choose("len", len(lens))]
					op := x.Choose("op", 2)
					cut := x.Choose("pieces", 3)
					msg := bigBytes(uint64(n)+8, n+8)[:n]
					k.put(x.Path("k"))
					setRand(x, hashStream("c13"))
					feed := msg
					if op == 1 {
						var e [32]byte
						e[3] = 9
						feed = ref.EncFile("untrusted comment: fifo", ref.SealRaw(k.boxPub(), &e, msg))
					}
					parts := [][]byte{feed}
					if cut >= 1 && len(feed) > 1 {
						parts = [][]byte{feed[:len(feed)/2], feed[len(feed)/2:]}
					}
					if cut == 2 && len(feed) > 3 {
						parts = [][]byte{feed[:1], feed[1 : len(feed)-1], feed[len(feed)-1:]}
					}
					feedFIFO(x, x.Path("in"), parts)
					if op == 0 {
						x.Op("Seal(fifo)")
						err := crypto.Seal(x.Path("k.pub"), x.Path("in"), x.Path("out"))
						if err == nil {
							raw, perr := ref.ParseEnc(read(x, x.Path("out")))
							x.Check(perr == nil, "lost", "Seal of a FIFO with %d bytes succeeded, output unreadable: %v", n, perr)
							judgeSealed(x, k, raw, nil, msg, false, "FIFO")
						}
						x.Outcome("seal success=%v", err == nil)
					} else {
						x.Op("Open(fifo)")
						err := crypto.Open(x.Path("k.sec"), x.Path("in"), x.Path("out"))
						if err == nil {
							got := read(x, x.Path("out"))
							x.Check(bytes.Equal(got, msg), "lost", "Open of a FIFO succeeded with: %s", diffAt(got, msg))
						}
						x.Outcome("open success=%v", err == nil)
					}
					x.State(n, op, cut)
				}},
			}, append(c13Kinds(t), c13Ifaces(t)...)...)
		},
	})
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }
