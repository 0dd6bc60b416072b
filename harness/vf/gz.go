package zzvf

import (
	"errors"
	"io"
)

// Ideal gzip: the compressed form is a 4-byte header, an 8-byte trailer and the
// content in between; the reader checks them, may deliver the content in pieces
// of any size, and reports damage as an error either at the start or at the end,
// like compress/gzip.

type GzipWriter struct {
	w      io.Writer
	buf    []byte
	closed bool
	Level  int
}

type GzipReader struct {
	data  []byte
	pos   int
	err   error
	End   bool
	reads int
}

var (
	ErrGzipHeader   = errors.New("gzip: invalid header")
	ErrGzipChecksum = errors.New("gzip: invalid checksum")
)

const (
	gzHead = 4
	gzTail = 8
)

func gzSum(b []byte) byte {
	s := byte(0x55)
	for _, x := range b {
		s = s<<1 | s>>7
		s ^= x
	}
	return s
}

func NewGzipWriter(w io.Writer) *GzipWriter { return &GzipWriter{w: w} }
func NewGzipWriterLevel(w io.Writer, level int) (*GzipWriter, error) {
	return &GzipWriter{w: w, Level: level}, nil
}
func (g *GzipWriter) Reset(w io.Writer) { *g = GzipWriter{w: w} }
func (g *GzipWriter) Write(b []byte) (int, error) {
	if g.closed {
		return 0, errors.New("gzip: write to closed writer")
	}
	g.buf = append(g.buf, b...)
	return len(b), nil
}
func (g *GzipWriter) Flush() error { return nil }
func (g *GzipWriter) Close() error {
	if g.closed {
		return nil
	}
	g.closed = true
	_, err := g.w.Write(Gzipped(g.buf))
	return err
}

// Gzipped is the ideal compressed form of b
func Gzipped(b []byte) []byte {
	n := len(b)
	out := []byte{0x1f, 0x8b, 8, 0}
	out = append(out, b...)
	return append(out, gzSum(b), 0, 0, 0, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
}

func NewGzipReader(r io.Reader) (*GzipReader, error) {
	g := &GzipReader{}
	if err := g.Reset(r); err != nil {
		return nil, err
	}
	return g, nil
}

func (g *GzipReader) Multistream(bool) {}

func (g *GzipReader) Reset(r io.Reader) error {
	*g = GzipReader{}
	var all []byte
	var tmp [64]byte
	for {
		n, err := r.Read(tmp[:])
		all = append(all, tmp[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}
	if len(all) == 0 {
		return io.EOF
	}
	if len(all) < gzHead {
		return io.ErrUnexpectedEOF
	}
	if all[0] != 0x1f || all[1] != 0x8b || all[2] != 8 {
		return ErrGzipHeader
	}
	all = all[gzHead:]
	if len(all) < gzTail {
		g.data = nil
		g.err = io.ErrUnexpectedEOF
		return nil
	}
	body := all[:len(all)-gzTail]
	tail := all[len(all)-gzTail:]
	g.data = body
	n := len(body)
	if EqBytes(tail, []byte{gzSum(body), 0, 0, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}) {
		g.err = io.EOF
	} else {
		g.err = ErrGzipChecksum
	}
	return nil
}

func (g *GzipReader) Read(b []byte) (int, error) {
	if g.pos >= len(g.data) {
		return 0, g.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	max := len(g.data) - g.pos
	if max > len(b) {
		max = len(b)
	}
	// short reads are tried only at the beginning of the data
	n := max
	if g.reads++; g.reads <= 2 {
		n = 1 + Choose(min3(max))
		if n == 3 {
			n = max
		}
	}
	copy(b[:n], g.data[g.pos:])
	g.pos += n
	// the end may come with the last data or after it
	if g.pos == len(g.data) && Choose(2) == 1 {
		return n, g.err
	}
	return n, nil
}

func min3(n int) int {
	if n > 3 {
		return 3
	}
	return n
}

func (g *GzipReader) Close() error { return nil }
