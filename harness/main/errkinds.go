package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	psb64 "github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify/zverif/mc"
	"github.com/kisom/psignify/signify/zverif/ref"
)

type flagError struct {
	timeout, temporary bool
	text               string
}

func (e *flagError) Error() string   { return e.text }
func (e *flagError) Timeout() bool   { return e.timeout }
func (e *flagError) Temporary() bool { return e.temporary }

type emptyError struct{}

func (emptyError) Error() string { return "" }

// errorKinds are errors that a reader or writer can fail with and that a program could take for
// something harmless. None of them is the end-of-file of the reader contract.
func errorKinds() []error {
	l := []error{
		errors.New("failed"), errors.New(""), emptyError{}, newlineError, errors.New("EOF"), errors.New("unexpected EOF"), errors.New("EAGAIN"),
		io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, bufio.ErrBufferFull, bufio.ErrTooLong, bufio.ErrFinalToken,
		os.ErrClosed, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrDeadlineExceeded, os.ErrNoDeadline, os.ErrProcessDone, net.ErrClosed,
		context.Canceled, context.DeadlineExceeded, errors.ErrUnsupported, bytes.ErrTooLarge,
		&flagError{true, true, "timeout"}, &flagError{true, false, "timeout"}, &flagError{false, true, "temporary"},
		fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), fmt.Errorf("wrapped: %w", io.ErrClosedPipe), errors.Join(io.EOF), errors.Join(errors.New("failed"), io.EOF),
		&os.PathError{Op: "read", Path: "m", Err: io.EOF}, &os.PathError{Op: "read", Path: "m", Err: io.ErrUnexpectedEOF}, &net.OpError{Op: "read", Net: "tcp", Err: io.EOF},
		&os.PathError{Op: "read", Path: "m", Err: os.ErrClosed}, &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET},
		base64.CorruptInputError(0), base64.CorruptInputError(4), flate.CorruptInputError(0), &net.OpError{Op: "read", Net: "tcp", Err: &flagError{true, true, "i/o timeout"}},
	}
	for _, e := range errnos {
		l = append(l, e, &os.PathError{Op: "read", Path: "m", Err: e})
	}
	l = append(l, syscall.EINTR, &os.PathError{Op: "write", Path: "m", Err: syscall.EINTR})
	return l
}

var newlineError = &flagError{text: "\n"}

// kindSink fails at one write, once or from then on.
type kindSink struct {
	bytes.Buffer
	call, at, hit int
	once          bool
	err           error
}

func (s *kindSink) Write(p []byte) (int, error) {
	c := s.call
	s.call++
	if c == s.at || s.hit > 0 && !s.once {
		s.hit++
		return 0, s.err
	}
	return s.Buffer.Write(p)
}

func c11Kinds(t mc.Tier) mc.Scenario {
	kinds := append(errorKinds(), io.EOF, io.ErrUnexpectedEOF)
	max := t.Pick(60, 170)
	return mc.Scenario{Name: "error-kinds", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of errors (timeouts, interruptions, closed pipes, wrapped ends of file, every errno of a list ...) returned by every call of the underlying writer, once or from then on, lengths 0..%d in one write and in single bytes", len(kinds), max), Body: func(x *mc.X) {
		e := kinds[x.Choose("error", len(kinds))]
		single := x.Bool("single bytes")
		for n := 0; n <= max; n++ {
			data := bigBytes(uint64(n)+77, n+8)[:n]
			for at := 0; ; at++ {
				hit := 0
				for _, once := range []bool{true, false} {
					s := &kindSink{at: at, once: once, err: e}
					w := psb64.NewEncoder(s)
					var errs []error
					put := func(p []byte) {
						was := s.hit
						_, err := w.Write(p)
						x.Ops(1)
						x.Check(s.hit == was || errors.Is(err, e), "swallowed", "a write of %d bytes met the error %q of the underlying writer and returned %v", len(p), e, err)
						errs = append(errs, err)
					}
					if single {
						for i := range data {
							put(data[i : i+1])
							if s.hit > 0 {
								break
							}
						}
					} else if n > 0 {
						put(data)
					}
					if s.hit == 0 {
						err := w.Close()
						x.Ops(1)
						x.Check(s.hit == 0 || errors.Is(err, e), "swallowed", "closing met the error %q of the underlying writer and returned %v", e, err)
					}
					hit += s.hit
				}
				if hit == 0 {
					break
				}
				x.State(e, single, n, at)
			}
		}
	}}
}

func c12Kinds(t mc.Tier) mc.Scenario {
	kinds := append(errorKinds(), io.ErrUnexpectedEOF)
	lens := []int{0, 1, 2, 3, 4, 54, 100}
	return mc.Scenario{Name: "error-kinds", Hang: 20e9, ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of errors (timeouts, interruptions, closed pipes, wrapped ends of file, every errno of a list ...) from the source at every character of the text of 0, 1, 2, 3, 4, 54 and 100 bytes, alone or with the last data, buffers of 1, 3, 4, 54, 131 bytes; and from a closed io.Pipe", len(kinds)), Body: func(x *mc.X) {
		i := x.Choose("error", len(kinds)+1)
		n := lens[x.Choose("n", len(lens))]
		data := bigBytes(uint64(n)+41, n+8)[:n]
		text := wrap64(data, 72, true)
		for at := 0; at <= len(text); at++ {
			for _, size := range []int{1, 3, 4, 54, 131} {
				if i == len(kinds) {
					r, w := io.Pipe()
					go func(at int) {
						w.Write(text[:at])
						r.Close()
					}(at)
					got, err := drain(x, psb64.NewDecoder(r), fixedSize(size), data)
					x.Check(err == io.ErrClosedPipe, "source-error", "the pipe was closed after %d of %d characters: Read returned %v after %d bytes", at, len(text), err, len(got))
					continue
				}
				for _, with := range []bool{false, true} {
					s := &oddSource{data: text, failAt: at, with: with, err: kinds[i]}
					got, err := drain(x, psb64.NewDecoder(s), fixedSize(size), data)
					x.Check(errors.Is(err, kinds[i]) && err != io.EOF, "source-error", "source failed at character %d of %d with %q (%T): Read returned %v after %d bytes", at, len(text), kinds[i], kinds[i], err, len(got))
					x.Check(isPrefix(got, data), "wrong-data", "source failed at %d: decoded data is no prefix: %s", at, diffAt(got, data))
				}
			}
		}
		x.State(i, n)
	}}
}

func c13Kinds(t mc.Tier) []mc.Scenario {
	kinds := append(errorKinds(), io.ErrUnexpectedEOF)
	k := fixKey("c13", "")
	C := ref.Chunk
	lens := []int{0, 1, 100, C, C + 1, 2*C + 50}
	return []mc.Scenario{
		{Streams: true, Name: "read-error-kinds", ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of errors (timeouts, interruptions, closed pipes, wrapped ends of file, every errno of a list ...) x 6 stream lengths x reads limited to {none, 5000}: encryption with the source failing at every read, with or instead of its data, once or from then on; decryption with the source failing at characters throughout the text", len(kinds)), Body: func(x *mc.X) {
			e := kinds[x.Choose("error", len(kinds))]
			n := lens[x.Choose("len", len(lens))]
			piece := []int{0, 5000}[x.Choose("piece", 2)]
			msg := bigBytes(uint64(n)+15, n+8)[:n]
			priv, pub := k.load(x)
			setRand(x, hashStream("c13 kinds"))
			dry := &failSource{data: msg, piece: piece, at: -1}
			crypto.VerifSeal(pub, dry, n, io.Discard)
			for at := 0; at < dry.call; at++ {
				for mode := 0; mode < 3; mode++ {
					if mode == 2 && e == io.ErrUnexpectedEOF {
						continue
					}
					s := &failSource{data: msg, piece: piece, at: at, err: e, with: mode == 1, once: mode == 2}
					var out bytes.Buffer
					x.Op("seal")
					err := crypto.VerifSeal(pub, s, n, &out)
					x.Check(s.hit > 0, "error-unseen", "the source of %d bytes was not read up to its end (read %d never made)", n, at+1)
					x.Check(err != nil, "read-error-lost", "read %d of a stream of %d bytes failed with %q (%T), but encryption reports success", at+1, n, e, e)
				}
			}
			if piece == 0 {
				var eph [32]byte
				eph[3] = 9
				text := []byte(ref.Lines(ref.SealRaw(k.boxPub(), &eph, msg), 72))
				end := len(bytes.TrimRight(text, "\n"))
				for at := 0; at < end; at++ {
					if at > 150 && at < end-60 && at%(1+end/12) != 0 {
						continue
					}
					for _, with := range []bool{false, true} {
						s := &oddSource{data: text, failAt: at, with: with, err: e}
						var out bytes.Buffer
						x.Op("open")
						err := crypto.VerifOpen(priv, psb64.NewDecoder(s), &out)
						x.Check(err != nil, "read-error-lost", "the source failed at character %d of %d with %q (%T), but decryption reports success", at, len(text), e, e)
						x.Check(isPrefix(out.Bytes(), msg), "wrong-data", "source failed at %d: %s", at, diffAt(out.Bytes(), msg))
					}
				}
			}
			x.State(e, n, piece)
		}},
		{Streams: true, Name: "write-error-kinds", ShardDepth: 2, Bounds: fmt.Sprintf("%d kinds of errors x 6 message lengths: encryption and decryption with the destination failing at every write, once or from then on", len(kinds)+1), Body: func(x *mc.X) {
			all := append(append([]error{}, kinds...), io.EOF)
			e := all[x.Choose("error", len(all))]
			n := lens[x.Choose("len", len(lens))]
			msg := bigBytes(uint64(n)+16, n+8)[:n]
			priv, pub := k.load(x)
			setRand(x, hashStream("c13 kinds"))
			var eph [32]byte
			eph[3] = 9
			sealed := ref.SealRaw(k.boxPub(), &eph, msg)
			for op := 0; op < 2; op++ {
				for _, once := range []bool{false, true} {
					for at := 0; ; at++ {
						s := &kindSink{at: at, once: once, err: e}
						x.Op("%s", []string{"seal", "open"}[op])
						var err error
						if op == 0 {
							err = crypto.VerifSeal(pub, bytes.NewReader(msg), n, s)
						} else {
							err = crypto.VerifOpen(priv, bytes.NewReader(sealed), s)
						}
						if s.hit == 0 {
							break
						}
						x.Check(err != nil, "write-error-lost", "write %d failed with %q (%T) while %s %d bytes, but success is reported", at+1, e, e, []string{"encrypting", "decrypting"}[op], n)
					}
				}
			}
			x.State(e, n)
		}},
	}
}

// c01Lengths: names as long as the file system takes them.
func longName(n int, ext string) string {
	s := strings.Repeat("long name ", n/10+1)
	return s[:n-len(ext)] + ext
}
