package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

// Sources and destinations that can do more than Read and Write. Whatever more they offer works as
// its documentation says and fails where Read or Write would.

var errIface = errors.New("the source or destination fails")

// srcCore is a stream of which something may have been read before.
type srcCore struct {
	data []byte // everything, with what was read before
	pos  int
	pre  int
	fail int // position at which reading fails, -1 never
	hit  int
}

func (c *srcCore) end() int {
	if c.fail >= 0 {
		return c.fail
	}
	return len(c.data)
}

func (c *srcCore) stop() error {
	if c.fail >= 0 {
		c.hit++
		return errIface
	}
	return io.EOF
}

func (c *srcCore) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= c.end() {
		return 0, c.stop()
	}
	n := copy(p, c.data[c.pos:c.end()])
	c.pos += n
	return n, nil
}

type srcByte struct{ c *srcCore }

func (s srcByte) ReadByte() (byte, error) {
	if s.c.pos >= s.c.end() {
		return 0, s.c.stop()
	}
	s.c.pos++
	return s.c.data[s.c.pos-1], nil
}

func (s srcByte) ReadRune() (rune, int, error) {
	b, err := s.ReadByte()
	if err != nil {
		return 0, 0, err
	}
	return rune(b), 1, nil // only for text
}

type srcUnread struct{ c *srcCore }

func (s srcUnread) UnreadByte() error {
	if s.c.pos == s.c.pre {
		return errors.New("nothing to unread")
	}
	s.c.pos--
	return nil
}

type srcTo struct{ c *srcCore }

func (s srcTo) WriteTo(w io.Writer) (int64, error) {
	var done int64
	for s.c.pos < s.c.end() {
		e := s.c.end()
		if e > s.c.pos+1000 {
			e = s.c.pos + 1000
		}
		n, err := w.Write(s.c.data[s.c.pos:e])
		s.c.pos += n
		done += int64(n)
		if err != nil {
			return done, err
		}
	}
	if err := s.c.stop(); err != io.EOF {
		return done, err
	}
	return done, nil
}

type srcSeek struct{ c *srcCore }

func (s srcSeek) Seek(off int64, whence int) (int64, error) {
	p := off
	switch whence {
	case io.SeekCurrent:
		p += int64(s.c.pos)
	case io.SeekEnd:
		p += int64(len(s.c.data))
	}
	if p < 0 {
		return 0, errors.New("before the start")
	}
	s.c.pos = int(p)
	return p, nil
}

type srcAt struct{ c *srcCore }

func (s srcAt) ReadAt(p []byte, off int64) (int, error) {
	e := s.c.end()
	if off >= int64(e) {
		return 0, s.c.stop()
	}
	n := copy(p, s.c.data[off:e])
	if n < len(p) {
		return n, s.c.stop()
	}
	return n, nil
}

type srcLen struct{ c *srcCore }

func (s srcLen) Len() int {
	if s.c.pos > len(s.c.data) {
		return 0
	}
	return len(s.c.data) - s.c.pos
}

type srcSize struct{ c *srcCore }

func (s srcSize) Size() int64 { return int64(len(s.c.data)) }

type srcClose struct{ c *srcCore }

func (s srcClose) Close() error { return nil }

type srcPeek struct{ b *bufio.Reader }

func (s srcPeek) Read(p []byte) (int, error)        { return s.b.Read(p) }
func (s srcPeek) Peek(n int) ([]byte, error)        { return s.b.Peek(n) }
func (s srcPeek) Buffered() int                     { return s.b.Buffered() }
func (s srcPeek) ReadBytes(d byte) ([]byte, error)  { return s.b.ReadBytes(d) }
func (s srcPeek) ReadString(d byte) (string, error) { return s.b.ReadString(d) }

type sourceKind struct {
	name  string
	fails bool // can fail half-way
	tail  bool // hides what follows
	make  func(x *mc.X, c *srcCore) io.Reader
}

type lenner interface{ Len() int }
type sizer interface{ Size() int64 }

var sourceKinds = []sourceKind{
	{"Read", true, false, func(x *mc.X, c *srcCore) io.Reader { return c }},
	{"ReadByte", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.ByteReader
		}{c, srcByte{c}}
	}},
	{"ReadByte, UnreadByte", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			srcByte
			srcUnread
		}{c, srcByte{c}, srcUnread{c}}
	}},
	{"WriteTo", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.WriterTo
		}{c, srcTo{c}}
	}},
	{"Seek", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.Seeker
		}{c, srcSeek{c}}
	}},
	{"ReadAt", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.ReaderAt
		}{c, srcAt{c}}
	}},
	{"Seek, ReadAt, Size", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.Seeker
			io.ReaderAt
			sizer
		}{c, srcSeek{c}, srcAt{c}, srcSize{c}}
	}},
	{"Len", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			lenner
		}{c, srcLen{c}}
	}},
	{"Size", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			sizer
		}{c, srcSize{c}}
	}},
	{"Close", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			io.Closer
		}{c, srcClose{c}}
	}},
	{"all of them", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return struct {
			io.Reader
			srcByte
			srcUnread
			io.WriterTo
			io.Seeker
			io.ReaderAt
			lenner
			sizer
			io.Closer
		}{c, srcByte{c}, srcUnread{c}, srcTo{c}, srcSeek{c}, srcAt{c}, srcLen{c}, srcSize{c}, srcClose{c}}
	}},
	{"Peek, Buffered", true, false, func(x *mc.X, c *srcCore) io.Reader { return srcPeek{bufio.NewReaderSize(c, 16)} }},
	{"bufio.Reader of 16 bytes", true, false, func(x *mc.X, c *srcCore) io.Reader { return bufio.NewReaderSize(c, 16) }},
	{"bufio.Reader of 64 bytes, full", true, false, func(x *mc.X, c *srcCore) io.Reader {
		b := bufio.NewReaderSize(c, 64)
		b.Peek(64)
		return b
	}},
	{"bufio.Reader", true, false, func(x *mc.X, c *srcCore) io.Reader { return bufio.NewReader(c) }},
	{"bufio.ReadWriter", true, false, func(x *mc.X, c *srcCore) io.Reader {
		return bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(io.Discard))
	}},
	{"io.LimitedReader", true, true, func(x *mc.X, c *srcCore) io.Reader {
		n := int64(len(c.data) - c.pos)
		if c.fail < 0 {
			c.data = append(c.data[:len(c.data):len(c.data)], "!tail!"...)
		}
		return &io.LimitedReader{R: c, N: n}
	}},
	{"io.SectionReader", true, true, func(x *mc.X, c *srcCore) io.Reader {
		n := int64(len(c.data) - c.pos)
		if c.fail < 0 {
			c.data = append(c.data[:len(c.data):len(c.data)], "!tail!"...)
		}
		return io.NewSectionReader(srcAt{c}, int64(c.pos), n)
	}},
	{"io.SectionReader, read before", true, true, func(x *mc.X, c *srcCore) io.Reader {
		n := int64(len(c.data))
		if c.fail < 0 {
			c.data = append(c.data[:len(c.data):len(c.data)], "!tail!"...)
		}
		r := io.NewSectionReader(srcAt{c}, 0, n)
		r.Seek(int64(c.pos), io.SeekStart)
		return r
	}},
	{"io.TeeReader", true, false, func(x *mc.X, c *srcCore) io.Reader { return io.TeeReader(c, io.Discard) }},
	{"io.MultiReader", true, false, func(x *mc.X, c *srcCore) io.Reader {
		h := c.pos + (c.end()-c.pos)/2
		first := bytes.NewReader(c.data[c.pos:h])
		c.pos = h
		return io.MultiReader(strings.NewReader(""), first, c)
	}},
	{"bytes.Reader", false, false, func(x *mc.X, c *srcCore) io.Reader {
		r := bytes.NewReader(c.data)
		io.ReadFull(r, make([]byte, c.pos))
		return r
	}},
	{"bytes.Buffer", false, false, func(x *mc.X, c *srcCore) io.Reader {
		r := bytes.NewBuffer(append([]byte(nil), c.data...))
		io.ReadFull(r, make([]byte, c.pos))
		return r
	}},
	{"strings.Reader", false, false, func(x *mc.X, c *srcCore) io.Reader {
		r := strings.NewReader(string(c.data))
		io.ReadFull(r, make([]byte, c.pos))
		return r
	}},
	{"os.File", false, false, func(x *mc.X, c *srcCore) io.Reader {
		write(x.Path("source"), c.data)
		f, err := os.Open(x.Path("source"))
		if err != nil {
			panic(err)
		}
		x.Cleanup(func() { f.Close() })
		f.Seek(int64(c.pos), io.SeekStart)
		return f
	}},
}

// newSource gives a source of the kind that holds data (and was read from before), failing after
// at of its bytes unless that is negative.
func newSource(x *mc.X, k sourceKind, data []byte, pre, at int) (io.Reader, *srcCore) {
	all := append([]byte(strings.Repeat("!", pre)), data...)
	c := &srcCore{data: all, pos: pre, pre: pre, fail: -1}
	if at >= 0 {
		c.fail = pre + at
	}
	return k.make(x, c), c
}

// dstCore is a destination that holds something already, written to behind it.
type dstCore struct {
	buf     []byte
	pos     int
	call    int
	at      int // call that fails, -1 none
	once    bool
	hit     int
	flushed bool
}

const dstHead = "what was there"

func (c *dstCore) put(p []byte, off int) (int, error) {
	n := c.call
	c.call++
	if n == c.at || c.hit > 0 && !c.once {
		c.hit++
		return 0, errIface
	}
	for len(c.buf) < off+len(p) {
		c.buf = append(c.buf, make([]byte, off+len(p)-len(c.buf))...)
	}
	return copy(c.buf[off:], p), nil
}

func (c *dstCore) Write(p []byte) (int, error) {
	n, err := c.put(p, c.pos)
	c.pos += n
	return n, err
}

type dstByte struct{ c *dstCore }

func (d dstByte) WriteByte(b byte) error { _, err := d.c.Write([]byte{b}); return err }

type dstString struct{ c *dstCore }

func (d dstString) WriteString(s string) (int, error) { return d.c.Write([]byte(s)) }

type dstFrom struct{ c *dstCore }

func (d dstFrom) ReadFrom(r io.Reader) (int64, error) {
	var done int64
	b := make([]byte, 700)
	for {
		n, err := r.Read(b)
		if n > 0 {
			m, werr := d.c.Write(b[:n])
			done += int64(m)
			if werr != nil {
				return done, werr
			}
		}
		if err == io.EOF {
			return done, nil
		} else if err != nil {
			return done, err
		}
	}
}

type dstSeek struct{ c *dstCore }

func (d dstSeek) Seek(off int64, whence int) (int64, error) {
	p := off
	switch whence {
	case io.SeekCurrent:
		p += int64(d.c.pos)
	case io.SeekEnd:
		p += int64(len(d.c.buf))
	}
	if p < 0 {
		return 0, errors.New("before the start")
	}
	d.c.pos = int(p)
	return p, nil
}

type dstAt struct{ c *dstCore }

func (d dstAt) WriteAt(p []byte, off int64) (int, error) { return d.c.put(p, int(off)) }

type dstFlush struct{ c *dstCore }

func (d dstFlush) Flush() error { return d.fail() }
func (d dstFlush) Sync() error  { return d.fail() }
func (d dstFlush) fail() error {
	if d.c.hit > 0 && !d.c.once {
		return errIface
	}
	return nil
}

type dstClose struct{ c *dstCore }

func (d dstClose) Close() error { return nil }

type flusher interface {
	Flush() error
	Sync() error
}

type sinkKind struct {
	name     string
	buffered bool // an error shows later
	fails    bool
	make     func(x *mc.X, c *dstCore) (w io.Writer, finish func() ([]byte, error))
}

func plainSink(f func(c *dstCore) io.Writer) func(*mc.X, *dstCore) (io.Writer, func() ([]byte, error)) {
	return func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		return f(c), func() ([]byte, error) { return c.buf, nil }
	}
}

var sinkKinds = []sinkKind{
	{"Write", false, true, plainSink(func(c *dstCore) io.Writer { return c })},
	{"WriteByte", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.ByteWriter
		}{c, dstByte{c}}
	})},
	{"WriteString", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.StringWriter
		}{c, dstString{c}}
	})},
	{"ReadFrom", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.ReaderFrom
		}{c, dstFrom{c}}
	})},
	{"Seek, WriteAt", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.Seeker
			io.WriterAt
		}{c, dstSeek{c}, dstAt{c}}
	})},
	{"Flush, Sync", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			flusher
		}{c, dstFlush{c}}
	})},
	{"Close", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.Closer
		}{c, dstClose{c}}
	})},
	{"all of them", false, true, plainSink(func(c *dstCore) io.Writer {
		return struct {
			io.Writer
			io.ByteWriter
			io.StringWriter
			io.ReaderFrom
			io.Seeker
			io.WriterAt
			flusher
			io.Closer
		}{c, dstByte{c}, dstString{c}, dstFrom{c}, dstSeek{c}, dstAt{c}, dstFlush{c}, dstClose{c}}
	})},
	{"bufio.Writer of 16 bytes", true, true, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		b := bufio.NewWriterSize(c, 16)
		return b, func() ([]byte, error) { err := b.Flush(); return c.buf, err }
	}},
	{"bufio.ReadWriter", true, true, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		b := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("other")), bufio.NewWriter(c))
		return b, func() ([]byte, error) { err := b.Flush(); return c.buf, err }
	}},
	{"io.MultiWriter", false, true, plainSink(func(c *dstCore) io.Writer { return io.MultiWriter(io.Discard, c) })},
	{"bytes.Buffer", false, false, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		b := bytes.NewBufferString(dstHead)
		return b, func() ([]byte, error) { return b.Bytes(), nil }
	}},
	{"strings.Builder", false, false, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		var b strings.Builder
		b.WriteString(dstHead)
		return &b, func() ([]byte, error) { return []byte(b.String()), nil }
	}},
	{"os.File", false, false, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		f, err := os.Create(x.Path("sink"))
		if err != nil {
			panic(err)
		}
		f.WriteString(dstHead)
		return f, func() ([]byte, error) { f.Close(); return read(x, x.Path("sink")), nil }
	}},
	{"io.PipeWriter", false, false, func(x *mc.X, c *dstCore) (io.Writer, func() ([]byte, error)) {
		r, w := io.Pipe()
		done := make(chan []byte, 1)
		go func() { b, _ := io.ReadAll(r); done <- append([]byte(dstHead), b...) }()
		return w, func() ([]byte, error) { w.Close(); return <-done, nil }
	}},
}

func newDst(x *mc.X, k sinkKind, at int, once bool) (io.Writer, *dstCore, func() ([]byte, error)) {
	c := &dstCore{buf: []byte(dstHead), pos: len(dstHead), at: at, once: once}
	w, f := k.make(x, c)
	return w, c, f
}

func c11Ifaces(t mc.Tier) mc.Scenario {
	max := t.Pick(120, 220)
	return mc.Scenario{Name: "destinations", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of destinations that offer more than Write (WriteByte, WriteString, ReadFrom, Seek, WriteAt, Flush, Close, all; those of the standard library), with something in them, lengths 0..%d in one write, single bytes and sevens, no failure or one at each call, once or from then on", len(sinkKinds), max), Body: func(x *mc.X) {
		k := sinkKinds[x.Choose("kind", len(sinkKinds))]
		piece := []int{0, 1, 7}[x.Choose("pieces", 3)]
		for n := 0; n <= max; n++ {
			data := bigBytes(uint64(n)+78, n+8)[:n]
			want := append([]byte(dstHead), wrap64(data, 72, true)...)
			for at := -1; ; at++ {
				hit := 0
				for _, once := range []bool{true, false} {
					dst, c, finish := newDst(x, k, at, once)
					w := psb64.NewEncoder(dst)
					seen := false
					put := func(f func() error) {
						was := c.hit
						err := f()
						x.Ops(1)
						seen = seen || err != nil
						x.Check(k.buffered || c.hit == was || err != nil, "swallowed", "%s: the destination failed (call %d) during a write or close of %d bytes, and no error was returned", k.name, at, n)
						x.Check(c.hit > 0 || err == nil, "refused", "%s: %v without a failure of the destination", k.name, err)
					}
					rest := data
					for len(rest) > 0 && c.hit == 0 {
						p := rest
						if piece > 0 && len(p) > piece {
							p = p[:piece]
						}
						put(func() error {
							m, err := w.Write(p)
							x.Check(err != nil || m == len(p), "count", "%s: a write of %d bytes reports %d", k.name, len(p), m)
							return err
						})
						rest = rest[len(p):]
					}
					if !seen {
						put(w.Close)
					}
					got, err := finish()
					x.Check(c.hit == 0 || seen || err != nil, "swallowed", "%s: the destination failed (call %d) and nothing reports it", k.name, at)
					if c.hit == 0 {
						wrong := !bytes.Equal(got, want)
						if wrong && n == 0 || wrong && n%54 == 0 {
							// an empty line at the end may be there or not
							wrong = !bytes.Equal(bytes.TrimRight(got, "\n"), bytes.TrimRight(want, "\n"))
						}
						x.Check(!wrong, "wrong-output", "%s, %d bytes in pieces of %d: %s", k.name, n, piece, diffAt(got, want))
					}
					hit += c.hit
					x.State(k.name, piece, n, at, once)
					if !k.fails || at < 0 {
						break
					}
				}
				if !k.fails || at >= 0 && hit == 0 || n > 8 && n%9 != 0 && at >= 0 {
					break
				}
			}
		}
	}}
}

func c12Ifaces(t mc.Tier) mc.Scenario {
	lens := []int{0, 1, 2, 3, 4, 6, 53, 54, 55, 100, 108, 162, 300}
	return mc.Scenario{Name: "sources", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of sources that offer more than Read (ReadByte, UnreadByte, WriteTo, Seek, ReadAt, Len, Size, Close, Peek, all; those of the standard library), unread or after something was read from them, with more behind their end where they hide it, x %d lengths x lines of 72 and 5 characters and none x buffers of 1, 3, 4, 54, 131 and 4096 bytes, whole or failing at every character", len(sourceKinds), len(lens)), Body: func(x *mc.X) {
		k := sourceKinds[x.Choose("kind", len(sourceKinds))]
		n := lens[x.Choose("n", len(lens))]
		pre := []int{0, 5}[x.Choose("before", 2)]
		data := bigBytes(uint64(n)+42, n+8)[:n]
		for _, width := range []int{72, 5, 0} {
			text := wrap64(data, width, true)
			for _, size := range []int{1, 3, 4, 54, 131, 4096} {
				src, _ := newSource(x, k, text, pre, -1)
				x.Op("decode")
				expect(x, psb64.NewDecoder(src), fixedSize(size), data, k.name)
				x.State(k.name, n, pre, width, size)
				for at := 0; k.fails && at < len(text); at++ {
					src, _ := newSource(x, k, text, pre, at)
					got, err := drain(x, psb64.NewDecoder(src), fixedSize(size), data)
					x.Check(err != nil && err != io.EOF, "source-error", "%s failed at character %d of %d: Read returned %v after %d bytes", k.name, at, len(text), err, len(got))
					x.Check(isPrefix(got, data), "wrong-data", "%s failed at %d: decoded data is no prefix: %s", k.name, at, diffAt(got, data))
				}
			}
		}
	}}
}

func c13Ifaces(t mc.Tier) []mc.Scenario {
	k := fixKey("c13", "")
	C := ref.Chunk
	lens := []int{0, 1, 100, C - 1, C, C + 1, 2 * C, 2*C + 50}
	return []mc.Scenario{
		{Streams: true, Name: "sources", ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of sources that offer more than Read, unread or after something was read from them, with more behind their end where they hide it, x %d lengths: encryption with the length announced right, one too small, one too large, 0 and the double, and failing at 9 places; decryption of them, whole and failing at places throughout", len(sourceKinds), len(lens)), Body: func(x *mc.X) {
			kind := sourceKinds[x.Choose("kind", len(sourceKinds))]
			n := lens[x.Choose("len", len(lens))]
			pre := []int{0, 5}[x.Choose("before", 2)]
			msg := bigBytes(uint64(n)+17, n+8)[:n]
			priv, pub := k.load(x)
			setRand(x, hashStream("c13 ifaces"))
			for _, ann := range []int{n, n - 1, n + 1, 0, 2 * n} {
				if ann < 0 {
					continue
				}
				src, _ := newSource(x, kind, msg, pre, -1)
				var out bytes.Buffer
				x.Op("seal")
				err := crypto.VerifSeal(pub, src, ann, &out)
				judgeSealed(x, k, out.Bytes(), err, msg, ann == n, fmt.Sprintf("%s (%d bytes read before) announced with %d bytes", kind.name, pre, ann))
				x.State(kind.name, n, pre, ann)
			}
			if !kind.fails {
				return
			}
			for _, at := range []int{0, 1, n / 2, n - 1, n, C - 1, C, C + 1, 2 * C} {
				if at < 0 || at > n || kind.tail && at == n {
					continue
				}
				src, c := newSource(x, kind, msg, pre, at)
				var out bytes.Buffer
				x.Op("seal")
				err := crypto.VerifSeal(pub, src, n, &out)
				x.Check(c.hit > 0 || err != nil, "error-unseen", "%s with %d bytes was not read up to where it fails (%d)", kind.name, n, at)
				x.Check(err != nil, "read-error-lost", "%s failed after %d of %d bytes, but encryption reports success", kind.name, at, n)
			}
			var eph [32]byte
			eph[3] = 9
			text := []byte(ref.Lines(ref.SealRaw(k.boxPub(), &eph, msg), 72))
			src, _ := newSource(x, kind, text, pre, -1)
			var out bytes.Buffer
			x.Op("open")
			err := crypto.VerifOpen(priv, psb64.NewDecoder(src), &out)
			x.Check(err == nil && bytes.Equal(out.Bytes(), msg), "lost", "decryption from %s: %v, %s", kind.name, err, diffAt(out.Bytes(), msg))
			end := len(bytes.TrimRight(text, "\n"))
			for at := 0; at < end; at++ {
				if at > 3 && at < end-6 && at%(1+end/14) != 0 {
					continue
				}
				src, _ := newSource(x, kind, text, pre, at)
				var out bytes.Buffer
				x.Op("open")
				err := crypto.VerifOpen(priv, psb64.NewDecoder(src), &out)
				x.Check(err != nil, "read-error-lost", "%s failed at character %d of %d, but decryption reports success", kind.name, at, len(text))
				x.Check(isPrefix(out.Bytes(), msg), "wrong-data", "%s failed at %d: %s", kind.name, at, diffAt(out.Bytes(), msg))
			}
		}},
		{Streams: true, Name: "destinations", ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of destinations that offer more than Write, with something in them, x %d lengths: encryption and decryption, whole and failing at each call, once or from then on", len(sinkKinds), len(lens)), Body: func(x *mc.X) {
			kind := sinkKinds[x.Choose("kind", len(sinkKinds))]
			n := lens[x.Choose("len", len(lens))]
			open := x.Bool("decrypt")
			msg := bigBytes(uint64(n)+18, n+8)[:n]
			priv, pub := k.load(x)
			setRand(x, hashStream("c13 ifaces"))
			var eph [32]byte
			eph[3] = 9
			sealed := ref.SealRaw(k.boxPub(), &eph, msg)
			for at := -1; ; at++ {
				hit := 0
				for _, once := range []bool{true, false} {
					w, c, finish := newDst(x, kind, at, once)
					var err error
					if open {
						x.Op("open")
						err = crypto.VerifOpen(priv, fullReader{bytes.NewReader(sealed)}, w)
					} else {
						x.Op("seal")
						err = crypto.VerifSeal(pub, bytes.NewReader(msg), n, w)
					}
					got, ferr := finish()
					hit += c.hit
					if c.hit > 0 {
						x.Check(err != nil || kind.buffered && ferr != nil, "write-error-lost", "%s failed at call %d, but success is reported (decrypt %v)", kind.name, at, open)
					} else {
						x.Check(bytes.HasPrefix(got, []byte(dstHead)), "wrong-data", "%s: what was there is gone", kind.name)
						got = got[len(dstHead):]
						if open {
							x.Check(err == nil && bytes.Equal(got, msg), "lost", "decryption to %s: %v, %s", kind.name, err, diffAt(got, msg))
						} else {
							judgeSealed(x, k, got, err, msg, true, "to "+kind.name)
						}
					}
					x.State(kind.name, n, open, at, once)
					if !kind.fails || at < 0 {
						break
					}
				}
				if !kind.fails || at >= 0 && hit == 0 {
					break
				}
			}
		}},
	}
}
