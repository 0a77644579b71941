// Package rs drives the server over TCP and models what it should do.
package rs

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/fw"
)

// Reply is one RESP value.
type Reply struct {
	Kind byte // '+', '-', ':', '$', '*'
	Str  string
	Int  int64
	Null bool
	Arr  []Reply
}

func (r Reply) String() string {
	switch r.Kind {
	case '+', '-':
		return string(r.Kind) + fw.Short(r.Str)
	case ':':
		return ":" + strconv.FormatInt(r.Int, 10)
	case '$':
		if r.Null {
			return "null"
		}
		return fw.Short(r.Str)
	case '*':
		if r.Null {
			return "null-array"
		}
		var p []string
		for i, e := range r.Arr {
			if i == 12 {
				p = append(p, fmt.Sprintf("... %d items", len(r.Arr)))
				break
			}
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?"
}

func (r Reply) IsErr() bool { return r.Kind == '-' }
func (r Reply) IsOK() bool  { return r.Kind == '+' && r.Str == "OK" }

// Equal compares replies exactly (array order included).
func (r Reply) Equal(o Reply) bool {
	if r.Kind != o.Kind || r.Null != o.Null || r.Str != o.Str || r.Int != o.Int || len(r.Arr) != len(o.Arr) {
		return false
	}
	for i := range r.Arr {
		if !r.Arr[i].Equal(o.Arr[i]) {
			return false
		}
	}
	return true
}

// ErrProto means the bytes received are not RESP.
var ErrProto = errors.New("malformed RESP")

func proto(format string, a ...any) error {
	return fmt.Errorf("%w: %s", ErrProto, fmt.Sprintf(format, a...))
}

func readLine(br *bufio.Reader) (string, error) {
	var sb strings.Builder
	for {
		b, err := br.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if b == '\n' {
			return "", proto("LF without CR after %q", sb.String())
		}
		if b == '\r' {
			b2, err := br.ReadByte()
			if err != nil {
				return sb.String(), err
			}
			if b2 != '\n' {
				return "", proto("CR without LF after %q", sb.String())
			}
			return sb.String(), nil
		}
		sb.WriteByte(b)
		if sb.Len() > 1<<27 {
			return "", proto("line too long")
		}
	}
}

// ReadReply reads one value strictly.
func ReadReply(br *bufio.Reader) (Reply, error) {
	line, err := readLine(br)
	if err != nil {
		return Reply{}, err
	}
	if line == "" {
		return Reply{}, proto("empty line")
	}
	k, rest := line[0], line[1:]
	num := func() (int64, error) {
		n, err := strconv.ParseInt(rest, 10, 64)
		if err != nil || strings.HasPrefix(rest, "+") {
			return 0, proto("bad number in %q", line)
		}
		return n, nil
	}
	switch k {
	case '+', '-':
		return Reply{Kind: k, Str: rest}, nil
	case ':':
		n, err := num()
		return Reply{Kind: k, Int: n}, err
	case '$':
		n, err := num()
		if err != nil {
			return Reply{}, err
		}
		if n == -1 {
			return Reply{Kind: k, Null: true}, nil
		}
		if n < 0 || n > 1<<30 {
			return Reply{}, proto("bad bulk length %d", n)
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(br, buf); err != nil {
			return Reply{}, err
		}
		if buf[n] != '\r' || buf[n+1] != '\n' {
			return Reply{}, proto("bulk string of length %d not followed by CRLF", n)
		}
		return Reply{Kind: k, Str: string(buf[:n])}, nil
	case '*':
		n, err := num()
		if err != nil {
			return Reply{}, err
		}
		if n == -1 {
			return Reply{Kind: k, Null: true}, nil
		}
		if n < 0 || n > 1<<26 {
			return Reply{}, proto("bad array length %d", n)
		}
		r := Reply{Kind: k}
		for i := int64(0); i < n; i++ {
			e, err := ReadReply(br)
			if err != nil {
				return Reply{}, err
			}
			r.Arr = append(r.Arr, e)
		}
		return r, nil
	}
	return Reply{}, proto("unknown type in %q", line)
}

// Encode writes a request as an array of bulk strings.
func Encode(args []string) string {
	var sb strings.Builder
	sb.WriteString("*" + strconv.Itoa(len(args)) + "\r\n")
	for _, a := range args {
		sb.WriteString("$" + strconv.Itoa(len(a)) + "\r\n")
		sb.WriteString(a)
		sb.WriteString("\r\n")
	}
	return sb.String()
}

// Form in which a request is sent.
type Form struct {
	Kind  string   // array, line, bulk
	First string   `json:",omitempty"` // first byte of a line
	Noise []string `json:",omitempty"` // empty requests before it
}

// EncodeAs writes the request in the form, or as an array if it has no such form, and names the form.
func EncodeAs(args []string, f Form) (string, string) {
	noise := strings.Join(f.Noise, "")
	switch f.Kind {
	case "line":
		s := strings.Join(args, " ")
		ok := len(s) < 60000 && len(f.First) == 1 && !strings.ContainsAny(f.First, "*$\r\n")
		for _, a := range args {
			ok = ok && !strings.ContainsAny(a, " ") && !strings.Contains(a, "\r\n")
		}
		// an argument that ends with CR followed by a space is no line end
		if ok && !strings.Contains(f.First+s, "\r\n") {
			return noise + f.First + s + "\r\n", "line"
		}
	case "bulk":
		if len(args) == 1 && args[0] != "" {
			return noise + "$" + strconv.Itoa(len(args[0])) + "\r\n" + args[0] + "\r\n", "bulk string"
		}
	}
	return noise + Encode(args), "array"
}

// Conn is a client connection.
type Conn struct {
	C  net.Conn
	BR *bufio.Reader
}

// ReplyTimeout bounds the wait for one reply. It is generous: exceeding it is a soft violation.
var ReplyTimeout = 15 * time.Second

func Dial(addr string) (*Conn, error) {
	c, err := net.DialTimeout("tcp4", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &Conn{C: c, BR: bufio.NewReaderSize(quickAck{c.(*net.TCPConn)}, 64<<10)}, nil
}

// quickAck acknowledges data at once: the server writes every reply on its own and would be held back by delayed ACKs.
type quickAck struct{ c *net.TCPConn }

func (q quickAck) Read(b []byte) (int, error) {
	if rc, err := q.c.SyscallConn(); err == nil {
		_ = rc.Control(func(fd uintptr) {
			_ = syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, syscall.TCP_QUICKACK, 1)
		})
	}
	return q.c.Read(b)
}

func (c *Conn) Close() { _ = c.C.Close() }

// Reset closes the connection with RST.
func (c *Conn) Reset() {
	if t, ok := c.C.(*net.TCPConn); ok {
		_ = t.SetLinger(0)
	}
	_ = c.C.Close()
}

func (c *Conn) Write(s string) error {
	_ = c.C.SetWriteDeadline(time.Now().Add(ReplyTimeout))
	_, err := io.WriteString(c.C, s)
	return err
}

func (c *Conn) Send(args ...string) error { return c.Write(Encode(args)) }

func (c *Conn) Recv() (Reply, error) {
	_ = c.C.SetReadDeadline(time.Now().Add(ReplyTimeout))
	return ReadReply(c.BR)
}

func (c *Conn) Do(args ...string) (Reply, error) {
	if err := c.Send(args...); err != nil {
		return Reply{}, err
	}
	return c.Recv()
}

// Classify turns an error of a connection into a violation of the property: the caller expected a reply.
func Classify(srv *Server, what string, err error) error {
	if err == nil {
		return nil
	}
	var v *fw.Violation
	if errors.As(err, &v) {
		return err
	}
	if errors.Is(err, ErrProto) {
		return fw.Viol("%s: %v", what, err)
	}
	if srv != nil {
		if dead, why := srv.Dead(300 * time.Millisecond); dead {
			if strings.Contains(why, "killed by the kernel or the sandbox") {
				return fw.Infra("%s: %s", what, why)
			}
			return fw.Viol("%s: the server process ended: %s", what, why)
		}
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return fw.Late("%s: no reply within %v", what, ReplyTimeout)
	}
	return fw.Late("%s: connection failed: %v", what, err)
}

// WrapConn reads replies from r, which delivers the bytes received on c, at most chunk bytes at a time.
func WrapConn(c net.Conn, r io.Reader, chunk int) *Conn {
	return &Conn{C: c, BR: bufio.NewReaderSize(chunked{r, chunk}, 4096)}
}

type chunked struct {
	r io.Reader
	n int
}

func (c chunked) Read(b []byte) (int, error) {
	if c.n > 0 && len(b) > c.n {
		b = b[:c.n]
	}
	return c.r.Read(b)
}

// CloseWrite closes the sending direction.
func (c *Conn) CloseWrite() {
	if t, ok := c.C.(*net.TCPConn); ok {
		_ = t.CloseWrite()
	}
}
