package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fail(format, args...)
	}
}

// rec is a Sender that keeps what it is given.
type rec struct {
	b []byte
	n int
}

func (r *rec) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	r.b = append([]byte(nil), b...)
	r.n++
	return nil, nil
}

// unit gives the bytes, and the error, of a unit of work.
func unit(x *xtorm.XPipe, f func(x *xtorm.XPipe)) ([]byte, error) {
	r := new(rec)
	f(x)
	_, err := x.Send(context.Background(), r)
	return r.b, err
}

type frame struct {
	typ  mysqlx.ClientMessages_Type
	body []byte
}

// frames splits a unit.
func frames(b []byte) []frame {
	var r []frame
	for len(b) > 0 {
		check(len(b) >= 5, "short frame")
		n := int(binary.LittleEndian.Uint32(b))
		check(n >= 1 && 4+n <= len(b), "frame of %d bytes, %d left", n, len(b)-4)
		r = append(r, frame{mysqlx.ClientMessages_Type(b[4]), b[5 : 4+n]})
		b = b[4+n:]
	}
	return r
}

func must(m proto.Message, b []byte) {
	if err := proto.Unmarshal(b, m); err != nil {
		fail("decoding %T: %s", m, err)
	}
}

func stmt(f frame) *mysqlx_sql.StmtExecute {
	check(f.typ == mysqlx.ClientMessages_SQL_STMT_EXECUTE, "not a statement: %v", f.typ)
	m := new(mysqlx_sql.StmtExecute)
	must(m, f.body)
	return m
}

func insert(f frame) *mysqlx_crud.Insert {
	check(f.typ == mysqlx.ClientMessages_CRUD_INSERT, "not an insert: %v", f.typ)
	m := new(mysqlx_crud.Insert)
	must(m, f.body)
	return m
}

func update(f frame) *mysqlx_crud.Update {
	check(f.typ == mysqlx.ClientMessages_CRUD_UPDATE, "not an update: %v", f.typ)
	m := new(mysqlx_crud.Update)
	must(m, f.body)
	return m
}

func del(f frame) *mysqlx_crud.Delete {
	check(f.typ == mysqlx.ClientMessages_CRUD_DELETE, "not a delete: %v", f.typ)
	m := new(mysqlx_crud.Delete)
	must(m, f.body)
	return m
}

// conn is a net.Conn whose answers are scripted, at most chunk bytes per Read.
type conn struct {
	in       *bytes.Reader
	chunk    int
	out      bytes.Buffer
	writes   int
	deadline []time.Time
	closed   int
}

func newConn(chunk int, in ...[]byte) *conn {
	return &conn{in: bytes.NewReader(bytes.Join(in, nil)), chunk: chunk}
}

func (c *conn) Read(b []byte) (int, error) {
	if c.chunk > 0 && len(b) > c.chunk {
		b = b[:c.chunk]
	}
	return c.in.Read(b)
}
func (c *conn) Write(b []byte) (int, error)        { c.writes++; return c.out.Write(b) }
func (c *conn) Close() error                       { c.closed++; return nil }
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return nil }
func (c *conn) SetDeadline(t time.Time) error      { c.deadline = append(c.deadline, t); return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return c.SetDeadline(t) }

// msg frames a server message.
func msg(t mysqlx.ServerMessages_Type, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	binary.LittleEndian.PutUint32(b, uint32(1+len(body)))
	b[4] = byte(t)
	return append(b, body...)
}

func pb(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		fail("marshal: %s", err)
	}
	return b
}

func serverError(sev mysqlx.Error_Severity, code uint32, text string) []byte {
	return msg(mysqlx.ServerMessages_ERROR, pb(&mysqlx.Error{Severity: &sev, Code: proto.Uint32(code), SqlState: proto.String("HY000"), Msg: proto.String(text)}))
}

// within fails unless f ends in time.
func within(d time.Duration, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s did not end", what)
	}
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

var (
	_ = io.EOF
	_ = within
	_ = panics
	_ = serverError
	_ = insert
	_ = update
	_ = del
	_ = stmt
	_ = newConn
)
