package main

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// reportPeak writes the peak resident memory of this process.
func reportPeak(path string) {
	b, err := os.ReadFile("/proc/self/status")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmHWM:") {
			os.WriteFile(path, []byte(l[6:]), 0644)
		}
	}
}

const memSlack = 8 << 20 // how much memory may grow with the message
const creep = 192 << 10  // how much it may be more behind the first 8 MiB than in them
const lagSlack = 1 << 20 // how much input may be taken in before its output is given

// meter watches how far the input is ahead of the output, and the live memory.
type meter struct {
	base    uint64
	worst   uint64
	early   uint64 // the most up to 8 MiB of input
	late    uint64 // the most behind that
	in, out int64
	lag     int64
	next    int64
	ratio   float64 // output bytes per input byte
}

func live() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func (m *meter) tick() {
	if l := m.in - int64(float64(m.out)/m.ratio); l > m.lag {
		m.lag = l
	}
	if m.in >= m.next {
		m.next = m.in + 1<<20
		h := live()
		if h > m.worst {
			m.worst = h
		}
		if m.in <= 8<<20 {
			if h > m.early {
				m.early = h
			}
		} else if h > m.late {
			m.late = h
		}
	}
}

type meterReader struct {
	r io.Reader
	m *meter
}

func (r meterReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.m.in += int64(n)
	r.m.tick()
	return n, err
}

type meterWriter struct {
	w io.Writer
	m *meter
}

func (w meterWriter) Write(p []byte) (int, error) {
	n, err := w.w.Write(p)
	w.m.out += int64(n)
	w.m.tick()
	return n, err
}

func init() {
	mc.Register(mc.Property{
		ID: "C28", Level: "model_checking",
		Rule:        "state: distinct (operation, message length); transition: one read or write of the stream at which memory and lag are looked at; trace: one encryption or decryption",
		Assumptions: []string{"live heap after a forced collection, looked at for every MiB of input, and peak resident memory of the process stand for memory use", "lengths between and beyond the enumerated ones behave like them"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			k := fixKey("c28", "")
			top := t.Pick(26, 31)
			ftop := t.Pick(23, 26)
			return []mc.Scenario{
				{Streams: true, Name: "streams", Hang: 800e9, Bounds: fmt.Sprintf("streams of 2^k bytes for k=20..%d, encrypted and decrypted, with and without the coder (with it to 2^%d): live memory grows by at most 8 MiB, after the first 8 MiB by at most 192 KiB, and input is at most 1 MiB ahead of output", top, top-3), Body: func(x *mc.X) {
					kk := top - x.Choose("size", top-19)
					n := int64(1) << uint(kk)
					open := x.Bool("decrypt")
					coder := x.Bool("coder")
					if coder && kk > top-3 {
						return
					}
					setRand(x, hashStream("c28"))
					priv, pub := k.load(x)
					m := &meter{ratio: 1, base: live()}
					m.worst = m.base
					var err error
					s := &sink{g: newGen(5, n), bad: -1}
					what := fmt.Sprintf("streaming %d bytes (decrypt %v, coder %v)", n, open, coder)
					x.Op("%s", what)
					if !open {
						count := &countWriter{}
						w := io.Writer(meterWriter{count, m})
						if coder {
							m.ratio = 4.0 / 3
							enc := psb64.NewEncoder(w)
							err = crypto.VerifSeal(pub, meterReader{newGen(5, n), m}, int(n), enc)
							if err == nil {
								err = enc.Close()
							}
						} else {
							err = crypto.VerifSeal(pub, meterReader{newGen(5, n), m}, int(n), w)
						}
						x.Check(count.n >= n, "no-output", "%s: %d bytes of output", what, count.n)
					} else {
						pr, pw := io.Pipe()
						go func() {
							var e [32]byte
							e[4] = 4
							w := io.Writer(pw)
							if coder {
								w = &lineWriter{w: pw}
							}
							err := sealTo(w, k.boxPub(), &e, newGen(5, n), n)
							if lw, ok := w.(*lineWriter); ok && err == nil {
								err = lw.end()
							}
							pw.CloseWithError(err) // nil: end of file
						}()
						in := io.Reader(meterReader{pr, m})
						if coder {
							m.ratio = 3.0 / 4
							in = psb64.NewDecoder(in)
						} else {
							in = fullReader{in}
						}
						err = crypto.VerifOpen(priv, in, meterWriter{s, m})
						pr.CloseWithError(io.ErrClosedPipe)
						x.Check(err != nil || s.bad < 0 && s.pos == n, "wrong-plaintext", "%s: %d bytes, first difference at %d", what, s.pos, s.bad)
					}
					x.Check(err == nil, "refused", "%s: %v", what, err)
					x.Check(m.worst <= m.base+memSlack, "memory", "%s: live memory grew by %d bytes", what, m.worst-m.base)
					x.Check(m.late <= m.early+creep, "creep", "%s: live memory grew by %d bytes behind the first 8 MiB", what, m.late-m.early)
					x.Check(m.lag <= lagSlack, "lag", "%s: %d bytes of input were taken in before their output was given", what, m.lag)
					x.Logf("live memory grew by %d, behind 8 MiB %d to %d, lag %d", m.worst-m.base, m.early, m.late, m.lag)
					x.Ops(int(n >> 14))
					x.State(int(n), open, coder)
					x.Outcome("2^%d decrypt %v coder %v", kk, open, coder)
				}},
				{Name: "files", Hang: 800e9, Bounds: fmt.Sprintf("files of 2^k bytes for k=21..%d encrypted and decrypted in a process of their own: peak resident memory at most 8 MiB above that for 1 MiB", ftop), Body: func(x *mc.X) {
					kk := ftop - x.Choose("size", ftop-20)
					open := x.Bool("decrypt")
					h, err := os.Executable()
					if err != nil {
						panic(fmt.Sprintf("harness: %v", err))
					}
					k.put(x.Path("k"))
					peak := func(n int64) int {
						if open {
							f, err := os.Create(x.Path("e"))
							if err != nil {
								panic(err)
							}
							f.WriteString("untrusted comment: e\n")
							var e [32]byte
							e[4] = 4
							lw := &lineWriter{w: f}
							if err := sealTo(lw, k.boxPub(), &e, newGen(5, n), n); err != nil {
								panic(err)
							}
							lw.end()
							f.Close()
						} else {
							os.Remove(x.Path("m"))
							sparse(x, x.Path("m"), n).Close()
						}
						argv := []string{h, "op", "seal", x.Path("k.pub"), x.Path("m"), x.Path("out")}
						if open {
							argv = []string{h, "op", "open", x.Path("k.sec"), x.Path("e"), x.Path("out"), ""}
						}
						r := plainRun(x, &spec{argv: argv, env: []string{"VERIF_PEAK=" + x.Path("peak"), "GOGC=20"}, dir: x.Dir(), umask: -1})
						x.Check(r.exit == 0, "refused", "%d bytes: %s", n, r.stderr)
						var kb int
						fmt.Sscan(string(read(x, x.Path("peak"))), &kb)
						if kb == 0 {
							panic("harness: no peak memory")
						}
						os.Remove(x.Path("out"))
						return kb << 10
					}
					small, big := peak(1<<20), peak(1<<uint(kk))
					x.Check(big <= small+memSlack, "memory", "a file of 2^%d bytes (decrypt %v) takes a peak of %d bytes, one of 1 MiB %d", kk, open, big, small)
					x.Logf("peak %d, for 1 MiB %d", big, small)
					x.State(kk, open)
					x.Outcome("2^%d decrypt %v", kk, open)
				}},
			}
		},
	})
}

type countWriter struct{ n int64 }

func (c *countWriter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

// sealTo writes the encrypted stream of n bytes of r, made by the reference.
func sealTo(w io.Writer, u, epriv *[32]byte, r io.Reader, n int64) error {
	sh := ref.Shared(epriv, u)
	chunks := (n + ref.Chunk - 1) / ref.Chunk
	if _, err := w.Write(ref.Header(uint64(chunks), boxPubOf(epriv), sh)); err != nil {
		return err
	}
	buf := make([]byte, ref.Chunk)
	for i := int64(0); i < chunks; i++ {
		c := buf
		if left := n - i*ref.Chunk; left < int64(len(c)) {
			c = c[:left]
		}
		if _, err := io.ReadFull(r, c); err != nil {
			return err
		}
		if _, err := w.Write(ref.Box(sh, uint64(i), c)); err != nil {
			return err
		}
	}
	return nil
}

// lineWriter is the reference's base64 in lines, in pieces of whole lines.
type lineWriter struct {
	w    io.Writer
	rest []byte
}

func (l *lineWriter) Write(p []byte) (int, error) {
	l.rest = append(l.rest, p...)
	n := len(l.rest) / 54 * 54
	_, err := io.WriteString(l.w, ref.Lines(l.rest[:n], 72))
	l.rest = append([]byte(nil), l.rest[n:]...)
	return len(p), err
}

func (l *lineWriter) end() error {
	_, err := io.WriteString(l.w, ref.Lines(l.rest, 72))
	return err
}
