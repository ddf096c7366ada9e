// Package fake holds the stand-ins for a server: an in-memory net.Conn whose stream,
// splitting and faults are drawn, and generators of server streams.
package fake

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"
)

// ErrStarved is returned by a Read beyond the bytes the server has sent: a real
// connection would block there for ever.
var ErrStarved = errors.New("fake: read blocks for ever, the server has answered everything")

// Spinning is the panic value used to stop code that keeps reading a finished stream.
const Spinning = "fake: the finished stream is being read over and over"

// Call is one call made on the connection.
type Call struct {
	What string    // deadline, rdeadline, wdeadline, write, read, close
	Time time.Time // the deadline given; of a read or write, the one in force
	Data []byte
	N    int
	Err  error
}

func (c Call) String() string {
	switch c.What {
	case "write":
		return fmt.Sprintf("Write(%d bytes)=%v", len(c.Data), c.Err)
	case "read":
		return fmt.Sprintf("Read=%d,%v", c.N, c.Err)
	case "close":
		return "Close"
	}
	return fmt.Sprintf("%s(%v)=%v", c.What, c.Time, c.Err)
}

// Conn is a net.Conn for one goroutine.
type Conn struct {
	In      []byte        // what the server has sent and was not read yet
	Chunk   func(int) int // how many of the available (first argument) bytes the next Read gives
	End     error         // error at the end of In; nil: ErrStarved
	EndWith bool          // give End along with the last bytes
	Starved bool          // a Read went beyond In
	ends    int

	DeadlineErr error
	DeadlineOK  int       // calls that succeed before DeadlineErr
	rd, wd      time.Time // the deadlines in force
	WriteErr    error
	WriteN      int // bytes accepted before WriteErr
	WriteOK     int // calls that succeed before WriteErr

	Log    []Call
	Closed int
}

// Read gives the next bytes.
func (c *Conn) Read(b []byte) (n int, err error) {
	defer func() { c.Log = append(c.Log, Call{What: "read", Time: c.rd, N: n, Err: err}) }()
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.In) == 0 {
		c.ends++
		if c.ends > 200 {
			panic(Spinning)
		}
		if c.End == nil {
			c.Starved = true
			return 0, ErrStarved
		}
		return 0, c.End
	}
	n = len(c.In)
	if n > len(b) {
		n = len(b)
	}
	if c.Chunk != nil {
		if k := c.Chunk(n); k >= 1 && k < n {
			n = k
		}
	}
	copy(b, c.In[:n])
	c.In = c.In[n:]
	if len(c.In) == 0 && c.End != nil && c.EndWith {
		return n, c.End
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	call := Call{What: "write", Time: c.wd, Data: append([]byte(nil), b...), N: len(b), Err: c.WriteErr}
	if c.WriteErr != nil && c.WriteOK > 0 {
		c.WriteOK--
		call.Err = nil
	} else if c.WriteErr != nil {
		call.N = c.WriteN
		if call.N > len(b) {
			call.N = len(b)
		}
	}
	c.Log = append(c.Log, call)
	return call.N, call.Err
}

// Close counts.
func (c *Conn) Close() error {
	c.Closed++
	c.Log = append(c.Log, Call{What: "close"})
	return nil
}

func (c *Conn) set(what string, t time.Time) error {
	err := c.DeadlineErr
	if err != nil && c.DeadlineOK > 0 {
		c.DeadlineOK--
		err = nil
	}
	c.Log = append(c.Log, Call{What: what, Time: t, Err: err})
	if err == nil {
		if what != "wdeadline" {
			c.rd = t
		}
		if what != "rdeadline" {
			c.wd = t
		}
	}
	return err
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.set("deadline", t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.set("rdeadline", t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.set("wdeadline", t) }
func (c *Conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *Conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }

// Writes lists what was written, one element per Write.
func (c *Conn) Writes() [][]byte {
	var r [][]byte
	for _, l := range c.Log {
		if l.What == "write" {
			r = append(r, l.Data)
		}
	}
	return r
}

// Fails are the ways a stream can end.
var Fails = []error{io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}, net.ErrClosed}
