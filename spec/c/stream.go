package c

import (
	"errors"
	"fmt"
	"io"

	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3"
)

// Stream is the input of a stream parser: the bytes In, delivered in pieces of
// any size, and then an error.
type Stream struct {
	In    []byte
	Err   error
	Chunk int
	Lines Lines
	off   int
}

// Lines is told the lines of a stream as they are read.
type Lines interface {
	Line(lo, hi int)        // in[lo:hi] ends with the delimiter
	Rest(lo int, err error) // there is no further delimiter in in[lo:]
}

// NewStream returns a stream. The size of its pieces only matters when it is
// really read.
func NewStream(in []byte, err error, chunk int, l Lines) io.Reader {
	return &Stream{In: in, Err: err, Chunk: chunk, Lines: l}
}

// Read is for the real bufio.Reader: the proof has the contracts below.
func (s *Stream) Read(p []byte) (int, error) {
	if s.off == len(s.In) {
		return 0, s.Err
	}
	n := len(p)
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	n = copy(p[:n], s.In[s.off:])
	s.off += n
	if s.off == len(s.In) && s.Chunk%2 == 1 {
		return n, s.Err // with the last bytes
	}
	return n, nil
}

// Reader stands for a bufio.Reader on a Stream (contract of package bufio).
type Reader struct {
	In     []byte
	Err    error
	Pos    int
	Size   int
	Un     bool
	Peeked []byte
	Lines  Lines
}

// NewReaderSize is the contract of bufio.NewReaderSize.
func NewReaderSize(rd io.Reader, size int) *Reader {
	s := rd.(*Stream)
	if size < 16 {
		size = 16
	}
	return &Reader{In: s.In, Err: s.Err, Size: size, Lines: s.Lines}
}

// NewReader is the contract of bufio.NewReader.
func NewReader(rd io.Reader) *Reader { return NewReaderSize(rd, 4096) }

// stale tells that what Peek returned is no longer valid.
func (r *Reader) stale() {
	if r.Peeked != nil {
		gv.Havoc(r.Peeked)
		r.Peeked = nil
	}
}

// ReadByte is the contract of (*bufio.Reader).ReadByte.
func (r *Reader) ReadByte() (byte, error) {
	r.stale()
	if r.Pos == len(r.In) {
		return 0, r.Err
	}
	b := r.In[r.Pos]
	r.Pos++
	r.Un = true
	return b, nil
}

// ReadBytes is the contract of (*bufio.Reader).ReadBytes.
func (r *Reader) ReadBytes(delim byte) ([]byte, error) {
	r.stale()
	r.Un = false
	lo := r.Pos
	if gv.Known(r.In) {
		for n := lo; n < len(r.In); n++ {
			if r.In[n] == delim {
				r.Pos = n + 1
				return append([]byte(nil), r.In[lo:n+1]...), nil
			}
		}
		r.Pos = len(r.In)
		return append([]byte(nil), r.In[lo:]...), r.Err
	}
	if gv.Bool("delimiter") {
		n := gv.Int("delimiter at", 0, 1<<60)
		gv.Assume(n >= lo)
		gv.Assume(n < len(r.In))
		gv.Assume(r.In[n] == delim)
		gv.AssumeAbsent(r.In, lo, n, delim)
		r.Pos = n + 1
		if r.Lines != nil {
			r.Lines.Line(lo, n+1)
		}
		return append([]byte(nil), r.In[lo:n+1]...), nil
	}
	gv.AssumeAbsent(r.In, lo, len(r.In), delim)
	r.Pos = len(r.In)
	if r.Lines != nil {
		r.Lines.Rest(lo, r.Err)
	}
	return append([]byte(nil), r.In[lo:]...), r.Err
}

// UnreadByte is the contract of (*bufio.Reader).UnreadByte.
func (r *Reader) UnreadByte() error {
	if !r.Un {
		return errors.New("bufio: invalid use of UnreadByte")
	}
	r.Pos--
	r.Un = false
	return nil
}

// Peek is the contract of (*bufio.Reader).Peek.
func (r *Reader) Peek(n int) ([]byte, error) {
	r.stale()
	r.Un = false
	if n < 0 {
		return nil, errors.New("bufio: negative count")
	}
	rest := len(r.In) - r.Pos
	var err error
	if n > r.Size {
		n = r.Size
		if rest < n {
			n = rest
		}
		err = errors.New("bufio: buffer full")
	} else if rest < n {
		n = rest
		err = r.Err
	}
	b := append([]byte(nil), r.In[r.Pos:r.Pos+n]...)
	r.Peeked = b
	return b, err
}

// Discard is the contract of (*bufio.Reader).Discard.
func (r *Reader) Discard(n int) (int, error) {
	if n < 0 {
		return 0, errors.New("bufio: negative count")
	}
	if n == 0 {
		return 0, nil
	}
	r.Un = false
	rest := len(r.In) - r.Pos
	if rest < n {
		r.stale()
		r.Pos = len(r.In)
		return rest, r.Err
	}
	r.Pos += n
	return n, nil
}

// Buffer has the layout of a bytes.Buffer which is only written to.
type Buffer struct {
	B    []byte
	Off  int
	Last int8
}

// WriteByte is the contract of (*bytes.Buffer).WriteByte.
func (b *Buffer) WriteByte(x byte) error {
	b.B = append(b.B, x)
	return nil
}

// Write is the contract of (*bytes.Buffer).Write.
func (b *Buffer) Write(x []byte) (int, error) {
	b.B = append(b.B, x...)
	return len(x), nil
}

// WriteString is the contract of (*bytes.Buffer).WriteString.
func (b *Buffer) WriteString(x string) (int, error) {
	b.B = append(b.B, x...)
	return len(x), nil
}

// String is the contract of (*bytes.Buffer).String.
func (b *Buffer) String() string { return string(b.B) }

// Bytes is the contract of (*bytes.Buffer).Bytes.
func (b *Buffer) Bytes() []byte { return b.B }

// Len is the contract of (*bytes.Buffer).Len.
func (b *Buffer) Len() int { return len(b.B) }

// Grow is the contract of (*bytes.Buffer).Grow, which changes no text.
func (b *Buffer) Grow(n int) { gv.Requires("buffer.grow.requires", n >= 0) }

// Reset is the contract of (*bytes.Buffer).Reset.
func (b *Buffer) Reset() { b.B = b.B[:0] }

// Builder has the layout of a strings.Builder.
type Builder struct {
	Addr *Builder
	B    []byte
}

// WriteByte is the contract of (*strings.Builder).WriteByte.
func (b *Builder) WriteByte(x byte) error {
	b.B = append(b.B, x)
	return nil
}

// Write is the contract of (*strings.Builder).Write.
func (b *Builder) Write(x []byte) (int, error) {
	b.B = append(b.B, x...)
	return len(x), nil
}

// WriteString is the contract of (*strings.Builder).WriteString.
func (b *Builder) WriteString(x string) (int, error) {
	b.B = append(b.B, x...)
	return len(x), nil
}

// String is the contract of (*strings.Builder).String.
func (b *Builder) String() string { return string(b.B) }

// Len is the contract of (*strings.Builder).Len.
func (b *Builder) Len() int { return len(b.B) }

// Grow is the contract of (*strings.Builder).Grow, which changes no text.
func (b *Builder) Grow(n int) { gv.Requires("builder.grow.requires", n >= 0) }

// Reset is the contract of (*strings.Builder).Reset.
func (b *Builder) Reset() { b.B = nil }

// Fprintf is the contract of fmt.Fprintf.
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

// WriteString is the contract of io.WriteString.
func WriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

// ParseUint is the contract of strconv.ParseUint: a function.
func ParseUint(s string, base int, bits int) (uint64, error) {
	v := gv.UFInt("strconv.ParseUint", s, base, bits)
	gv.Assume(v >= 0)
	if !gv.Wanted(1) || gv.UFBool("strconv.ParseUint.ok", s, base, bits) {
		return uint64(v), nil
	}
	return uint64(v), errors.New(gv.UFStr("strconv.ParseUint.error", s, base, bits))
}

// Msg stands for a message of the RFC5424 parser.
type Msg struct {
	syslog.Message
	Best bool
	In   string
}

// Parse is the contract of the RFC5424 parser within the stream parsers
// (C02, C06, C08): a function of its mode and its input, which gives a message
// or an error.
func Parse(m syslog.Machine, in []byte) (syslog.Message, error) {
	if m.(syslog.BestEfforter).HasBestEffort() {
		return parse(true, string(in))
	}
	return parse(false, string(in))
}

func parse(best bool, key string) (syslog.Message, error) {
	if gv.UFBool("rfc5424.accepts", best, key) {
		return &Msg{Best: best, In: key}, nil
	}
	err := errors.New(gv.UFStr("rfc5424.error", best, key))
	if best && gv.UFBool("rfc5424.partial", best, key) {
		return &Msg{Best: best, In: key}, err
	}
	return nil, err
}
