package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/signify/zverif/mc"
)

var errSink = errors.New("sink failed")

// flakySink fails at a chosen call or after a chosen number of bytes.
type flakySink struct {
	bytes.Buffer
	calls    int
	failCall int // -1 never
	budget   int // -1 unlimited
	sticky   bool
	failed   int // number of failures so far
}

func newSink() *flakySink { return &flakySink{failCall: -1, budget: -1} }

func (s *flakySink) Write(p []byte) (int, error) {
	c := s.calls
	s.calls++
	if s.failed > 0 && s.sticky {
		s.failed++
		return 0, errSink
	}
	if c == s.failCall {
		s.failed++
		n := len(p) / 2
		s.Buffer.Write(p[:n])
		return n, errSink
	}
	if s.budget >= 0 && s.Len()+len(p) > s.budget && s.failed == 0 {
		n := s.budget - s.Len()
		s.Buffer.Write(p[:n])
		s.failed++
		return n, errSink
	}
	return s.Buffer.Write(p)
}

// checkEncoded compares encoder output with standard base64 in lines of 72.
func checkEncoded(x *mc.X, out string, data []byte, how string) {
	std := base64.StdEncoding.EncodeToString(data)
	var want strings.Builder
	for i := 0; i < len(std); i += 72 {
		e := i + 72
		if e > len(std) {
			e = len(std)
		}
		want.WriteString(std[i:e])
		want.WriteByte('\n')
	}
	w := want.String()
	if out == w || out == w+"\n" && len(std)%72 == 0 {
		return
	}
	x.Fail("encoding", "%s: encoding of %d bytes: %s (want %s)", how, len(data), short([]byte(out)), short([]byte(w)))
}

// encode writes the parts and checks every result.
func encodeParts(x *mc.X, parts [][]byte) string {
	var out bytes.Buffer
	e := psb64.NewEncoder(&out)
	for _, p := range parts {
		keep := append([]byte(nil), p...)
		mine := append(make([]byte, 0, len(p)+8), p...)
		n, err := e.Write(mine)
		x.Ops(1)
		x.Check(err == nil, "write-error", "Write of %d bytes to a working writer: %v", len(p), err)
		x.Check(n == len(p), "count", "Write of %d bytes reports %d", len(p), n)
		x.Check(bytes.Equal(mine, keep), "modified", "Write changed the caller's bytes")
		for i := range mine { // the encoder must not keep the slice
			mine[i] ^= 0x5a
		}
	}
	err := e.Close()
	x.Check(err == nil, "close-error", "Close: %v", err)
	return out.String()
}

func init() {
	mc.Register(mc.Property{
		ID: "C11", Level: "model_checking",
		Rule:        "state: distinct (split pattern length class, output); transition: one Write or Close; trace: one write pattern whose output is compared with encoding/base64",
		Assumptions: []string{"encoding/base64 is correct", "a trailing blank line after a full last line still is an output ending in a newline"},
		Scenarios: func(t mc.Tier) []mc.Scenario {
			return append([]mc.Scenario{
				{Name: "compositions", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("after a first write of 0, 1, 2 and 50..57 and 104..109 bytes, every composition of 0..%d further bytes into writes, optionally each followed by an empty write", t.Pick(9, 13)), Body: func(x *mc.X) {
					pre := []int{0, 1, 2, 50, 51, 52, 53, 54, 55, 56, 57, 104, 105, 106, 107, 108, 109}[x.Choose("prefix", 17)]
					n := x.Choose("n", t.Pick(10, 14))
					mask := 0
					if n > 1 {
						mask = x.Choose("split", 1<<uint(n-1))
					}
					empties := x.Bool("empty writes")
					data := bigBytes(uint64(pre*31+n+1), pre+n+8)[:pre+n]
					parts := [][]byte{}
					if pre > 0 {
						parts = append(parts, data[:pre])
					}
					from := pre
					for i := 0; i < n; i++ {
						if i == n-1 || mask>>uint(i)&1 == 1 {
							parts = append(parts, data[from:pre+i+1])
							from = pre + i + 1
							if empties {
								parts = append(parts, nil)
							}
						}
					}
					checkEncoded(x, encodeParts(x, parts), data, fmt.Sprintf("first %d bytes, then %d split %b", pre, n, mask))
					x.State(pre, n, mask, empties)
				}},
				{Name: "three-writes", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("every split of 0..%d bytes into three writes (empty ones included)", t.Pick(240, 330)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(241, 331))
					i := x.Choose("i", n+1)
					data := bigBytes(uint64(n), n+8)[:n]
					for j := i; j <= n; j++ {
						checkEncoded(x, encodeParts(x, [][]byte{data[:i], data[i:j], data[j:]}), data, fmt.Sprintf("writes of %d, %d and %d bytes", i, j-i, n-j))
						x.State(n, i, j)
					}
				}},
				{Name: "two-writes", Hang: 20e9, ShardDepth: 1, Bounds: fmt.Sprintf("a write of every length 0..%d, then one of 0, 1, 2, 3, 52..56, 107..109, 162 or 1000 bytes, then 54", t.Pick(2200, 9000)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(2201, 9001))
					data := bigBytes(uint64(n)+11, n+1100)
					for _, b := range []int{0, 1, 2, 3, 52, 53, 54, 55, 56, 107, 108, 109, 162, 1000} {
						checkEncoded(x, encodeParts(x, [][]byte{data[:n], data[n : n+b], data[n+b : n+b+54]}), data[:n+b+54], fmt.Sprintf("writes of %d, %d and 54 bytes", n, b))
						x.State(n, b)
					}
				}},
				{Name: "constant-writes", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("lengths 0..%d and 16385+-3, 32770 written in pieces of every constant size 1..130", t.Pick(300, 1200)), Body: func(x *mc.X) {
					top := t.Pick(300, 1200)
					n := x.Choose("n", top+9)
					if n > top {
						n = []int{16382, 16383, 16384, 16385, 16386, 16387, 16388, 32770}[n-top-1]
					}
					data := bigBytes(uint64(n)+7, n+8)[:n]
					step := 1
					if n > top {
						step = 16
					}
					for k := 1; k <= 130; k += step {
						var parts [][]byte
						for i := 0; i < n; i += k {
							e := i + k
							if e > n {
								e = n
							}
							parts = append(parts, data[i:e])
						}
						checkEncoded(x, encodeParts(x, parts), data, fmt.Sprintf("pieces of %d", k))
						x.State(n, k)
					}
				}},
				{Name: "powers", Hang: 60e9, ShardDepth: 2, Bounds: fmt.Sprintf("a write of 0, 1 or 40 bytes, then one of 2^k+d, then one of 2^j+d bytes, d=-1..1, k, j=6..%d, then one byte", t.Pick(18, 21)), Body: func(x *mc.X) {
					top := t.Pick(13, 16)
					k, j := uint(top-1-x.Choose("k", top)+6), uint(x.Choose("j", top)+6)
					pre := []int{0, 1, 40}[x.Choose("before", 3)]
					a, b := 1<<k+x.Choose("d", 3)-1, 1<<j+x.Choose("e", 3)-1
					data := bigBytes(uint64(a+7*b), pre+a+b+1)
					checkEncoded(x, encodeParts(x, [][]byte{data[:pre], data[pre : pre+a], data[pre+a : pre+a+b], data[pre+a+b:]}), data, fmt.Sprintf("writes of %d, %d, %d and 1 bytes", pre, a, b))
					x.State(pre, a, b)
				}},
				{Name: "several", Hang: 20e9, ShardDepth: 3, Bounds: fmt.Sprintf("every history of up to %d operations on two encoders at a time {open on a good, a failing or a once failing writer, write 1 or 53 bytes, close (again)}, abandoned or closed in any state; then those still open are completed and a new one is used", t.Pick(6, 7)), Body: func(x *mc.X) {
					type one struct {
						w      io.WriteCloser
						out    *flakySink
						data   []byte
						closed int
					}
					var slot [2]*one
					hist := ""
					data := bigBytes(94, 400)
					put := func(o *one, k int) {
						p := cp(data[len(o.data) : len(o.data)+k])
						was := o.out.failed
						n, err := o.w.Write(p)
						x.Ops(1)
						for i := range p {
							p[i] ^= 0x5a
						}
						o.data = data[:len(o.data)+k]
						if o.out.failed == 0 {
							x.Check(n == k && err == nil, "count", "%s: Write of %d bytes: %d, %v", hist, k, n, err)
						} else if o.out.failed > was {
							x.Check(err != nil, "hidden-error", "%s: the writer failed, Write reports nothing", hist)
						}
					}
					finish := func(o *one) {
						was := o.out.failed
						err := o.w.Close()
						x.Ops(1)
						if o.out.failed > was {
							x.Check(err != nil, "hidden-error", "%s: the writer failed, Close reports nothing", hist)
						}
						if o.out.failed == 0 {
							x.Check(err == nil, "close-error", "%s: Close: %v", hist, err)
							checkEncoded(x, o.out.String(), o.data, hist)
						}
					}
					for i := 0; i < t.Pick(6, 7); i++ {
						c := x.Choose("op", 13)
						if c == 12 {
							break
						}
						s, c := c%2, c/2
						o := slot[s]
						switch {
						case c < 3:
							hist += fmt.Sprintf("open %d on writer %d; ", s, c)
							o = &one{out: newSink()}
							if c > 0 {
								o.out.failCall, o.out.sticky = 0, c == 1
							}
							o.w = psb64.NewEncoder(o.out)
							slot[s] = o
						case o == nil:
							return
						case c < 5:
							if o.closed > 0 {
								return
							}
							hist += fmt.Sprintf("write %d to %d; ", []int{1, 53}[c-3], s)
							put(o, []int{1, 53}[c-3])
						default:
							hist += fmt.Sprintf("close %d; ", s)
							if o.closed == 0 {
								finish(o)
							} else {
								o.w.Close()
							}
							o.closed++
						}
					}
					x.State(hist)
					for s := range slot {
						if o := slot[s]; o != nil && o.closed == 0 {
							put(o, 4)
							finish(o)
						}
					}
					for _, n := range []int{2, 56} {
						checkEncoded(x, encodeParts(x, [][]byte{data[:n]}), data[:n], hist+"a new encoder")
					}
				}},
				{Name: "groups", Bounds: "all 2^24 three-byte groups, all 2^16 two-byte and 2^8 one-byte tails", Body: func(x *mc.X) {
					a := x.Choose("first byte", 256)
					data := make([]byte, 0, 3*65536)
					for b := 0; b < 65536; b++ {
						data = append(data, byte(a), byte(b>>8), byte(b))
					}
					checkEncoded(x, encodeParts(x, [][]byte{data}), data, fmt.Sprintf("all groups starting with %d", a))
					for b := 0; b < 256; b++ {
						d := []byte{byte(a), byte(b)}
						checkEncoded(x, encodeParts(x, [][]byte{d}), d, "tail")
					}
					d := []byte{byte(a)}
					checkEncoded(x, encodeParts(x, [][]byte{d}), d, "tail")
					x.State(a)
				}},
				{Name: "errors", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("lengths 0..%d x {one write, two halves, single bytes, sevens} x underlying failure at every call or after every byte count, once or from then on", t.Pick(120, 240)), Body: func(x *mc.X) {
					n := x.Choose("n", t.Pick(121, 241))
					how := x.Choose("writes", 4)
					data := bigBytes(uint64(n)+3, n+8)[:n]
					size := []int{n, (n + 1) / 2, 1, 7}[how]
					var parts [][]byte
					for i := 0; i < n; i += size {
						e := i + size
						if e > n {
							e = n
						}
						parts = append(parts, data[i:e])
					}
					dry := newSink()
					e := psb64.NewEncoder(dry)
					for _, p := range parts {
						e.Write(p)
					}
					e.Close()
					at := x.Choose("fail at", dry.calls+dry.Len())
					s := newSink()
					s.sticky = x.Bool("persistent")
					what := ""
					if at < dry.calls {
						s.failCall = at
						what = fmt.Sprintf("call %d", at+1)
					} else {
						s.budget = at - dry.calls
						what = fmt.Sprintf("byte %d", s.budget)
					}
					e = psb64.NewEncoder(s)
					reported := 0
					for i := 0; i <= len(parts); i++ {
						before := s.failed
						var err error
						op := "Close"
						if i < len(parts) {
							var k int
							op = fmt.Sprintf("Write %d", i+1)
							k, err = e.Write(parts[i])
							x.Check(k >= 0 && k <= len(parts[i]), "count", "%s of %d bytes reports %d", op, len(parts[i]), k)
							x.Check(err != nil || k == len(parts[i]), "count", "%s of %d bytes reports %d without an error", op, len(parts[i]), k)
						} else {
							err = e.Close()
						}
						x.Ops(1)
						if s.failed > before {
							x.Check(errors.Is(err, errSink), "swallowed", "%d bytes, %s: the underlying writer failed at %s, result %v", n, op, what, err)
							reported++
						} else if reported == 0 {
							x.Check(err == nil, "write-error", "%s failed without cause: %v", op, err)
						}
						if reported > 0 && !s.sticky {
							break
						}
					}
					x.Check(reported > 0, "swallowed", "%d bytes: failure at %s was never reported", n, what)
					x.State(n, how, at, s.sticky)
				}},
			}, c11Kinds(t), c11Ifaces(t))
		},
	})
}
