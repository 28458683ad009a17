package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/signify/zverif/mc"
)

var errSource = errors.New("source failed")

// wrap64 encodes data with a newline every width characters (0: none).
func wrap64(data []byte, width int, final bool) []byte {
	std := base64.StdEncoding.EncodeToString(data)
	var b bytes.Buffer
	for i := range std {
		if width > 0 && i > 0 && i%width == 0 {
			b.WriteByte('\n')
		}
		b.WriteByte(std[i])
	}
	if final {
		b.WriteByte('\n')
	}
	return b.Bytes()
}

// oddSource is a reader whose behaviour is decided call by call.
type oddSource struct {
	data []byte
	pos  int
	// act decides: 0 full, 1 one byte, 2 empty read, 3 data together with the end
	act    func(last bool) int
	failAt int // position at which the source fails; -1 never
	with   bool
	err    error
}

func (s *oddSource) Read(p []byte) (int, error) {
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, s.err
	}
	end := len(s.data)
	if s.failAt >= 0 {
		end = s.failAt
	}
	if s.pos >= end {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	a := 0
	if s.act != nil {
		a = s.act(s.pos+len(p) >= end)
	}
	if a == 2 {
		return 0, nil
	}
	if a == 1 {
		p = p[:1]
	}
	n := copy(p, s.data[s.pos:end])
	s.pos += n
	if s.pos == end {
		if s.failAt >= 0 && s.with {
			return n, s.err
		}
		if a == 3 && s.failAt < 0 {
			return n, io.EOF
		}
	}
	return n, nil
}

// drain reads until an error with buffer sizes given by size; it checks each result.
func drain(x *mc.X, r io.Reader, size func(i int) int, want []byte) ([]byte, error) {
	var got []byte
	idle := 0
	for i := 0; ; i++ {
		n := size(i)
		back := make([]byte, n+24)
		for j := range back {
			back[j] = 0xa5
		}
		k, err := r.Read(back[:n])
		x.Ops(1)
		x.Check(k >= 0 && k <= n, "overrun", "Read with %d bytes of room reports %d", n, k)
		for j := n; j < len(back); j++ {
			x.Check(back[j] == 0xa5, "overrun", "Read with %d bytes of room wrote beyond them", n)
		}
		got = append(got, back[:k]...)
		if err != nil {
			return got, err
		}
		if len(got) > len(want)+1024 {
			x.Fail("wrong-data", "reads returned %d bytes of %d", len(got), len(want))
		}
		if k == 0 {
			idle++
			x.Check(idle < 2000, "no-progress", "reads make no progress after %d of %d bytes", len(got), len(want))
		} else {
			idle = 0
		}
	}
}

// expect drains a well-formed source.
func expect(x *mc.X, r io.Reader, size func(i int) int, want []byte, how string) {
	got, err := drain(x, r, size, want)
	x.Check(err == io.EOF, "reader-error", "%s: well-formed input of %d bytes ended in %v after %d bytes", how, len(want), err, len(got))
	x.Check(bytes.Equal(got, want), "wrong-data", "%s: decoded data: %s", how, diffAt(got, want))
	b := make([]byte, 5)
	k, err := r.Read(b)
	x.Check(k == 0 && err == io.EOF, "reader-error", "%s: after end-of-file Read returns %d, %v", how, k, err)
}

func fixedSize(n int) func(int) int { return func(int) int { return n } }

func init() {
	mc.Register(mc.Property{
		ID: "C12", Level: "model_checking",
		Rule:        "state: distinct (data length, line shape, buffer sizes, source behaviour); transition: one Read; trace: one drain of a source compared with encoding/base64",
		Assumptions: []string{"encoding/base64 is correct", "carriage returns, and padding before the end, are left open"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			widths := []int{72, 0, 1, 2, 3, 4, 5, 7, 64, 71, 73, 76}
			lens := func() []int {
				l := []int{}
				for n := 0; n <= t.Pick(60, 220); n++ {
					l = append(l, n)
				}
				return append(l, 71, 72, 73, 107, 108, 109, 110, 161, 162, 163, 216, 217)
			}()
			sizes := []int{0, 1, 2, 3, 4, 7, 54, 72}
			return append([]mc.Scenario{
				{Name: "buffers", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("%d data lengths x 12 line widths x final newline or none x every constant buffer size 1..130 and 16401", len(lens)), Body: func(x *mc.X) {
					n := lens[x.Choose("n", len(lens))]
					w := widths[x.Choose("width", len(widths))]
					final := !x.Bool("no final newline")
					data := bigBytes(uint64(n), n+8)[:n]
					text := wrap64(data, w, final)
					for k := 1; k <= 131; k++ {
						size := k
						if k == 131 {
							size = 16401
						}
						expect(x, psb64.NewDecoder(bytes.NewReader(text)), fixedSize(size), data, fmt.Sprintf("lines of %d, buffers of %d", w, size))
						x.State(n, w, final, k)
					}
				}},
				{Name: "powers", Hang: 60e9, ShardDepth: 2, Bounds: fmt.Sprintf("data of 2^k-1, 2^k, 2^k+1 and 3*2^k bytes for k=6..%d x lines of 72, 76 or unbroken x buffers of 2^j-1, 2^j, 2^j+1, 3*2^j-1, 3*2^j and 3*2^j+1 bytes for j=4..%d", t.Pick(17, 20), t.Pick(18, 21)), Body: func(x *mc.X) {
					k := uint(t.Pick(17, 20) - x.Choose("k", t.Pick(12, 15)))
					n := []int{1<<k - 1, 1 << k, 1<<k + 1, 3 << k}[x.Choose("d", 4)]
					w := []int{72, 76, 0}[x.Choose("width", 3)]
					j := uint(x.Choose("j", t.Pick(15, 18)) + 4)
					if j < k-7 && j < 8 {
						x.Outcome("small buffers for much data left out")
						return
					}
					data := bigBytes(uint64(n)+900, n)
					text := wrap64(data, w, true)
					for _, size := range []int{1<<j - 1, 1 << j, 1<<j + 1, 3<<j - 1, 3 << j, 3<<j + 1} {
						expect(x, psb64.NewDecoder(bytes.NewReader(text)), fixedSize(size), data, fmt.Sprintf("lines of %d, buffers of %d", w, size))
						x.State(n, w, size)
					}
				}},
				{Name: "large-buffers", Hang: 60e9, ShardDepth: 1, Bounds: fmt.Sprintf("data of 1, 100 and 2^%d+5 bytes in lines of 72, 76 or unbroken x buffers of 2^j, 3*2^j, 5*2^j and one byte more or less, j=17..%d, and of 10^5, 3*10^5, 10^6 and 3*10^6", t.Pick(21, 23), t.Pick(22, 24)), Body: func(x *mc.X) {
					var sizes []int
					for j := 17; j <= t.Pick(22, 24); j++ {
						for _, f := range []int{1, 3, 5} {
							sizes = append(sizes, f<<uint(j)-1, f<<uint(j), f<<uint(j)+1)
						}
					}
					sizes = append(sizes, 100000, 300000, 1000000, 3000000)
					size := sizes[x.Choose("size", len(sizes))]
					n := []int{1, 100, 1<<uint(t.Pick(21, 23)) + 5}[x.Choose("data", 3)]
					w := []int{72, 76, 0}[x.Choose("width", 3)]
					data := bigBytes(uint64(n)+900, n+8)[:n]
					expect(x, psb64.NewDecoder(bytes.NewReader(wrap64(data, w, true))), fixedSize(size), data, fmt.Sprintf("lines of %d, buffers of %d", w, size))
					x.State(n, w, size)
				}},
				{Name: "sequences", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("every sequence of %d buffer sizes from {0,1,2,3,4,7,54,72}, repeated until the end, x 17 data lengths x 3 line widths", t.Pick(4, 5)), Body: func(x *mc.X) {
					n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 53, 54, 55, 56, 108, 109, 163}[x.Choose("n", 17)]
					w := []int{72, 5, 0}[x.Choose("width", 3)]
					seq := make([]int, t.Pick(4, 5))
					zero := true
					for i := range seq {
						seq[i] = sizes[x.Choose("size", len(sizes))]
						zero = zero && seq[i] == 0
					}
					if zero {
						x.Outcome("all empty")
						return
					}
					data := bigBytes(uint64(n)+100, n+8)[:n]
					expect(x, psb64.NewDecoder(bytes.NewReader(wrap64(data, w, true))), func(i int) int { return seq[i%len(seq)] }, data, fmt.Sprintf("lines of %d, buffers %v", w, seq))
					x.State(n, w, fmt.Sprint(seq))
				}},
				{Name: "newlines", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("0..%d bytes with 0, 1 or 2 newlines at every position of their base64 (all 2^k patterns, and all doubled), buffers of 1..7 and 72", t.Pick(6, 9)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(7, 10))
					data := bigBytes(uint64(n)+200, n+8)[:n]
					std := base64.StdEncoding.EncodeToString(data)
					mask := x.Choose("mask", 1<<uint(len(std)+1))
					for double := 1; double <= 2; double++ {
						var text []byte
						for i := 0; i <= len(std); i++ {
							if mask>>uint(i)&1 == 1 {
								text = append(text, "\n\n"[:double]...)
							}
							if i < len(std) {
								text = append(text, std[i])
							}
						}
						for _, size := range []int{1, 2, 3, 4, 5, 6, 7, 72} {
							expect(x, psb64.NewDecoder(bytes.NewReader(text)), fixedSize(size), data, fmt.Sprintf("text %q, buffers of %d", text, size))
						}
						x.State(text)
					}
				}},
				{Name: "gaps", Hang: 60e9, ShardDepth: 2, Bounds: fmt.Sprintf("2^k-1, 2^k and 2^k+1 newlines in succession, k=0..%d, before, after, between and inside the groups of 0, 3, 54 and 55 bytes, once or twice, x 7 buffer sizes, source in one or in pieces", t.Pick(20, 24)), Body: func(x *mc.X) {
					top := t.Pick(20, 24)
					g := x.Choose("gap", 3*(top+1))
					gap := bytes.Repeat([]byte("\n"), 1<<uint(top-g/3)+g%3-1)
					n := []int{0, 3, 54, 55}[x.Choose("n", 4)]
					data := bigBytes(uint64(n), n+8)[:n]
					text := wrap64(data, 0, false)
					places := []int{0, len(text)}
					for _, p := range []int{1, 2, 3, 4, 36, len(text) - 4, len(text) - 2, len(text) - 1} {
						if p > 0 && p < len(text) {
							places = append(places, p)
						}
					}
					at := places[x.Choose("at", len(places))]
					in := append(append(append([]byte{}, text[:at]...), gap...), text[at:]...)
					if x.Bool("twice") {
						in = append(append([]byte{}, gap...), in...)
					}
					for _, k := range []int{1, 2, 3, 54, 72, 4096, 16401} {
						var r io.Reader = bytes.NewReader(in)
						if k%2 == 0 {
							r = &oddSource{data: in, failAt: -1, act: func(last bool) int { return 3 }}
						}
						expect(x, psb64.NewDecoder(r), fixedSize(k), data, fmt.Sprintf("%d newlines at %d of %d bytes, buffers of %d", len(gap), at, n, k))
					}
					x.State(len(gap), n, at)
				}},
				{Name: "several", Hang: 20e9, ShardDepth: 3, Bounds: fmt.Sprintf("every history of up to %d operations on two decoders at a time {open on one of three texts or a failing source, read with room for 1 or 54 bytes, close (again)}, abandoned or closed in any state; then those still open and a new one read to the end", t.Pick(6, 7)), Body: func(x *mc.X) {
					texts := [][]byte{bigBytes(91, 7)[:5], bigBytes(92, 72)[:60], bigBytes(93, 120)[:113]}
					type one struct {
						r      io.ReadCloser
						data   []byte
						bad    bool // failing source
						closed bool
						pos    int
					}
					var slot [2]*one
					hist := ""
					take := func(o *one, k int) {
						b := make([]byte, k)
						n, err := o.r.Read(b)
						x.Ops(1)
						x.Check(n >= 0 && o.pos+n <= len(o.data) && bytes.Equal(b[:n], o.data[o.pos:o.pos+n]), "wrong-data", "%s: after %d bytes Read returns %q of %q", hist, o.pos, b[:n], o.data)
						o.pos += n
						if o.bad {
							x.Check(err != io.EOF, "reader-error", "%s: failing source ended as if complete", hist)
							return
						}
						x.Check(err == nil || err == io.EOF && o.pos == len(o.data), "reader-error", "%s: after %d of %d bytes: %v", hist, o.pos, len(o.data), err)
						x.Check(err != nil || n > 0, "no-progress", "%s: Read returned nothing", hist)
					}
					for i := 0; i < t.Pick(6, 7); i++ {
						c := x.Choose("op", 15)
						if c == 14 {
							break
						}
						s, c := c%2, c/2
						o := slot[s]
						switch {
						case c < 4:
							hist += fmt.Sprintf("open %d on text %d; ", s, c)
							o = &one{data: texts[c%3], bad: c == 3}
							src := &oddSource{data: wrap64(o.data, 72, true), failAt: -1, err: errSource}
							if o.bad {
								o.data = o.data[:3]
								src.failAt = 4
							}
							o.r = psb64.NewDecoder(src)
							slot[s] = o
						case o == nil:
							return
						case c < 6:
							if o.closed || o.bad && o.pos == len(o.data) {
								return
							}
							hist += fmt.Sprintf("read %d from %d; ", c, s)
							take(o, []int{1, 54}[c-4])
						default:
							hist += fmt.Sprintf("close %d; ", s)
							o.closed = true
							o.r.Close()
						}
					}
					x.State(hist)
					for s := range slot {
						if o := slot[s]; o != nil && !o.closed {
							got, err := drain(x, o.r, fixedSize(3), o.data)
							x.Check(bytes.Equal(got, o.data[o.pos:]) || o.bad && len(got) == 0, "wrong-data", "%s: the rest of decoder %d: %s", hist, s, diffAt(got, o.data[o.pos:]))
							x.Check((err == io.EOF) == !o.bad, "reader-error", "%s: decoder %d ends in %v", hist, s, err)
						}
					}
					for i := 0; i < 2; i++ {
						expect(x, psb64.NewDecoder(bytes.NewReader(wrap64(texts[i], 72, true))), fixedSize(7), texts[i], hist+"a new decoder")
					}
				}},
				{Name: "source", Hang: 20e9, ShardDepth: 3, MaxDev: t.Pick(2, 3), Bounds: fmt.Sprintf("source answering up to %d chosen reads with one byte, nothing, or data together with end-of-file; 12 data lengths x 3 line shapes x buffers of 1, 2, 5, 54, 72", t.Pick(2, 3)), Body: func(x *mc.X) {
					n := []int{0, 1, 2, 3, 4, 5, 7, 27, 53, 54, 55, 60}[x.Choose("n", 12)]
					w := []int{72, 3, 0}[x.Choose("width", 3)]
					size := []int{1, 2, 5, 54, 72}[x.Choose("buffer", 5)]
					data := bigBytes(uint64(n)+300, n+8)[:n]
					s := &oddSource{data: wrap64(data, w, w != 0), failAt: -1}
					s.act = func(last bool) int {
						k := 3
						if last {
							k = 4
						}
						return x.Dev("read", k)
					}
					expect(x, psb64.NewDecoder(s), fixedSize(size), data, "odd source")
					x.State(n, w, size, s.pos)
				}},
				{Name: "source-always", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("source always answering with one byte, data with end-of-file, or an empty read before every (every other) byte; %d data lengths x 12 line widths x 8 buffer sizes", len(lens)), Body: func(x *mc.X) {
					n := lens[x.Choose("n", len(lens))]
					w := widths[x.Choose("width", len(widths))]
					kind := x.Choose("kind", 4)
					data := bigBytes(uint64(n)+300, n+8)[:n]
					for _, size := range []int{1, 2, 3, 4, 7, 54, 72, 131} {
						s := &oddSource{data: wrap64(data, w, w != 1), failAt: -1}
						i := 0
						s.act = func(bool) int {
							i++
							switch kind {
							case 0:
								return 1
							case 1:
								return 3
							case 2:
								return 2 - 2*(i%2) + i%2
							}
							return []int{2, 3, 1}[i%3]
						}
						expect(x, psb64.NewDecoder(s), fixedSize(size), data, "odd source")
						x.State(n, w, kind, size)
					}
				}},
				{Name: "source-errors", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("source failing at every position (error alone or with the last data; ordinary error or io.ErrUnexpectedEOF) of the text of 0..%d bytes x 3 line shapes x 8 buffer sizes", t.Pick(60, 160)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(61, 161))
					w := []int{72, 3, 0}[x.Choose("width", 3)]
					data := bigBytes(uint64(n)+400, n+8)[:n]
					text := wrap64(data, w, true)
					for at := 0; at <= len(text); at++ {
						for kind := 0; kind < 4; kind++ {
							e := errSource
							if kind&1 == 1 {
								e = io.ErrUnexpectedEOF
							}
							for _, size := range []int{1, 2, 3, 4, 7, 54, 72, 131} {
								s := &oddSource{data: text, failAt: at, with: kind&2 != 0, err: e}
								got, err := drain(x, psb64.NewDecoder(s), fixedSize(size), data)
								x.Check(errors.Is(err, e), "source-error", "source failed at character %d of %d with %v: Read returned %v after %d bytes", at, len(text), e, err, len(got))
								x.Check(isPrefix(got, data), "wrong-data", "source failed at %d: decoded data is no prefix: %s", at, diffAt(got, data))
							}
						}
						x.State(n, w, at)
					}
				}},
				{Name: "truncated", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("texts of 0..%d bytes cut at every character x 4 line shapes x 9 buffer sizes", t.Pick(120, 230)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(121, 231))
					w := []int{72, 3, 4, 0}[x.Choose("width", 4)]
					data := bigBytes(uint64(n)+500, n+8)[:n]
					text := wrap64(data, w, true)
					for at := 0; at < len(text); at++ {
						chars := 0
						for _, c := range text[:at] {
							if c != '\n' {
								chars++
							}
						}
						for _, size := range []int{1, 2, 3, 4, 5, 7, 54, 72, 131} {
							r := psb64.NewDecoder(bytes.NewReader(text[:at]))
							if chars%4 == 0 {
								want := data
								if chars/4*3 < len(want) {
									want = want[:chars/4*3]
								}
								expect(x, r, fixedSize(size), want, fmt.Sprintf("cut at %d", at))
								continue
							}
							got, err := drain(x, r, fixedSize(size), data)
							x.Check(err != io.EOF, "clean-eof", "text of %d bytes cut at character %d inside a group reads as complete with buffers of %d (%d bytes)", n, at, size, len(got))
							x.Check(isPrefix(got, data), "wrong-data", "cut at %d: %s", at, diffAt(got, data))
						}
						x.State(n, w, at)
					}
				}},
				{Name: "padding", Hang: 20e9, ShardDepth: 2, Bounds: "after 0, 1, 17, 18 or 19 whole groups, every string of up to 8 characters over {Q, =} that does not consist of valid groups of four, with or without newlines around its characters, buffers of 1..7, 54, 72, 131", Body: func(x *mc.X) {
					pre := []int{0, 1, 17, 18, 19}[x.Choose("before", 5)]
					n := 1 + x.Choose("length", 8)
					m := x.Choose("string", 1<<uint(n))
					tail := make([]byte, n)
					for i := range tail {
						tail[i] = "Q="[m>>uint(i)&1]
					}
					valid := n%4 == 0
					for i := 0; i < n && valid; i += 4 {
						_, err := base64.StdEncoding.DecodeString(string(tail[i : i+4]))
						valid = err == nil
					}
					if valid {
						x.Outcome("valid groups")
						return
					}
					data := bigBytes(uint64(pre)+700, 3*pre+8)[:3*pre]
					text := append(bytes.TrimRight(wrap64(data, 72, false), "\n"), tail...)
					for shape := 0; shape < 3; shape++ {
						t := text
						if shape > 0 {
							t = append(append([]byte(nil), text[:len(text)-n]...), bytes.Join(bytes.Split(tail, nil), []byte("\n"))...)
							t = append(t, "\n\n"[:shape]...)
						}
						for _, size := range []int{1, 2, 3, 4, 5, 6, 7, 54, 72, 131} {
							_, err := drain(x, psb64.NewDecoder(bytes.NewReader(t)), fixedSize(size), data)
							x.Check(err != io.EOF, "clean-eof", "malformed text %q reads as complete with buffers of %d", t, size)
						}
					}
					x.State(pre, tail)
				}},
				{Name: "invalid", Hang: 20e9, ShardDepth: 2, Bounds: "every character of the text of 0..60, 72 and 120 bytes replaced by (and every gap filled with) each of the 189 byte values outside base64 and line breaks, buffers of 1, 3, 4, 54, 72, 131", Body: func(x *mc.X) {
					n := x.Choose("n", 63)
					if n > 60 {
						n = []int{72, 120}[n-61]
					}
					v := byte(x.Choose("value", 256))
					if v == '\n' || v == '\r' || v == '=' || bytes.IndexByte([]byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"), v) >= 0 {
						x.Outcome("base64")
						return
					}
					data := bigBytes(uint64(n)+600, n+8)[:n]
					text := wrap64(data, 72, true)
					for insert := 0; insert < 2; insert++ {
						for at := 0; at < len(text)+insert; at++ {
							if insert == 0 && text[at] == '\n' {
								continue
							}
							bad := append([]byte(nil), text[:at]...)
							bad = append(bad, v)
							bad = append(bad, text[at+1-insert:]...)
							for _, size := range []int{1, 3, 4, 54, 72, 131} {
								_, err := drain(x, psb64.NewDecoder(bytes.NewReader(bad)), fixedSize(size), data)
								x.Check(err != io.EOF, "clean-eof", "text of %d bytes with character %#x at %d reads as complete with buffers of %d", n, v, at, size)
							}
						}
						x.State(n, int(v), insert)
					}
				}},
			}, c12Kinds(t), c12Ifaces(t))
		},
	})
}
