From 0cdbd7d1ad7a6f3bafa3490e6d0a83df373fe7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 01/15] fix: report errors returned by builder callbacks

Errors returned by the functions given to Tx, ExpectFailOnError, InsertF and
UpdateF were dropped, so the unit of work was sent (and committed) anyway.
---
 builder.go |  5 ++++-
 crud.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..fa00bf5 100644
--- a/builder.go
+++ b/builder.go
@@ -36,9 +36,12 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	err := f(&child)
 	b.buf = child.buf
 	b.err = child.err
+	if b.err == nil {
+		b.err = err
+	}
 	b.disabled = false
 }
 
diff --git a/crud.go b/crud.go
index cf730fb..050923a 100644
--- a/crud.go
+++ b/crud.go
@@ -31,8 +31,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	err := f(i)
 	b.buf, b.err = i.buf, i.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
@@ -59,8 +62,11 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	err := f(&u)
 	b.buf, b.err = u.buf, u.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
-- 
2.43.0


From bf36140296c7db8fdd20b436d97a90748f27cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:14 +0000
Subject: [PATCH 02/15] fix: do not patch a message length after an encoder
 failed

A value or criteria encoder may return a nil buffer together with its error;
InsertF, UpdateF and Delete then panicked instead of reporting the error.
---
 crud.go          | 8 ++++++--
 xproto/xproto.go | 8 +++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crud.go b/crud.go
index 050923a..34b713a 100644
--- a/crud.go
+++ b/crud.go
@@ -36,7 +36,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
 
@@ -67,6 +69,8 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..e028ca6 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -54,8 +54,6 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 		tagCollectionName   = 1
 		tagCollectionSchema = 2
 	)
-	var err error
-
 	s := len(p)
 
 	n := len(name)
@@ -69,8 +67,12 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	i += putUvarint(b[i:], uint64(n))
 	copy(b[i:], name)
 	if criteria != nil {
+		var err error
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From f555ee11b3d74f1a35f88590ade35ade24c2a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:40 +0000
Subject: [PATCH 03/15] fix: encode variable expressions with long names

The length of the Expr was written as a single byte, producing a malformed
message for names of 124 bytes or more.
---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..9cf36dc 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n // Expr size
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From f49b93a1cef746e025ccd1fba4985936d82a215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:40 +0000
Subject: [PATCH 04/15] fix: name of the REGEXP operator

Regexp() sent the operator "rexgexp", which the server does not know.
---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From df320a52e28eea9194d3db759b09903ca7a575e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 05/15] fix: keep the fraction of a second, and the magnitude,
 of durations

AppendDuration silently dropped everything below a second (unlike time.Time
values, which keep nanoseconds), and misformatted the minimum duration.
---
 xproto/scalar.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..7c09513 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,18 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // unsigned, so correct for the minimum duration too
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	p = append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	if f := u % uint64(time.Second); f != 0 {
+		n := len(p)
+		p = strconv.AppendUint(p, uint64(time.Second)+f, 10) // leading 1 keeps the leading zeros
+		p[n] = '.'
+	}
+	return p
 }
-- 
2.43.0


From c12545bb930269f8006c4a06051aa81b642a2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:43 +0000
Subject: [PATCH 06/15] fix: Delete refers to a table

As Insert and Update do, set the data model to TABLE: left unset it defaults
to DOCUMENT, which makes the criteria refer to a document collection.
---
 xproto/xproto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xproto/xproto.go b/xproto/xproto.go
index e028ca6..a9af7e5 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 
 	"github.com/renthraysk/xtorm/protobuf/mysqlx"
+	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
 	"github.com/renthraysk/xtorm/slice"
 )
 
@@ -58,14 +59,17 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 
 	n := len(name)
 	n1 := 1 + sizeVarint(uint(n)) + n // mysqlx.Collection
-	p, b := slice.ForAppend(p, 4+1+1+sizeVarint(uint(n1))+n1)
+	p, b := slice.ForAppend(p, 4+1+3+sizeVarint(uint(n1))+n1)
 	i := 6 + putUvarint(b[6:], uint64(n1))
 	b[4] = byte(mysqlx.ClientMessages_CRUD_DELETE)
 	b[5] = tagDeleteCollection<<3 | wireBytes
 	b[i] = tagCollectionName<<3 | wireBytes
 	i++
 	i += putUvarint(b[i:], uint64(n))
-	copy(b[i:], name)
+	i += copy(b[i:], name)
+	b[i] = tagDeleteDataModel<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_crud.DataModel_TABLE)
 	if criteria != nil {
 		var err error
 		p, err = criteria(p, tagDeleteCriteria)
-- 
2.43.0


From 2e5ae6665b9e4027d34da72c9aea414961c90804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 07/15] fix: Decimal.String with fewer digits than the scale

0.05 (one digit, scale two) was formatted as 5, and -0.05 as .-5
---
 types/decimal.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 5e07855..e6e386c 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -94,12 +94,20 @@ func (d Decimal) String() string {
 
 	// Scale
 	if s := int(d[0]); s > 0 {
-		// @TODO error?
-		if i := len(b) - s; i >= 0 {
+		sign := 0
+		if len(b) > 0 && b[0] == '-' {
+			sign = 1
+		}
+		// Fewer digits than the scale, leading zeros are implied
+		for len(b)-sign < s {
 			b = append(b, 0)
-			copy(b[i+1:], b[i:])
-			b[i] = '.'
+			copy(b[sign+1:], b[sign:])
+			b[sign] = '0'
 		}
+		i := len(b) - s
+		b = append(b, 0)
+		copy(b[i+1:], b[i:])
+		b[i] = '.'
 	}
 	return string(b)
 }
-- 
2.43.0


From 0edc5a6ec454207b9f22a24594b966777a1c019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 08/15] fix: builders kept after their callback must not write
 to the buffer

A child Builder, Insert or Update used after the function it was given to
returned overwrote whatever the unit of work had appended since.
---
 builder.go | 1 +
 crud.go    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/builder.go b/builder.go
index fa00bf5..1d5d58b 100644
--- a/builder.go
+++ b/builder.go
@@ -37,6 +37,7 @@ func (b *Builder) call(f func(b *Builder) error) {
 	}
 	b.disabled = true
 	err := f(&child)
+	child.disabled = true // no longer owns the buffer
 	b.buf = child.buf
 	b.err = child.err
 	if b.err == nil {
diff --git a/crud.go b/crud.go
index 34b713a..590b82e 100644
--- a/crud.go
+++ b/crud.go
@@ -33,6 +33,7 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	b.disabled = true
 	err := f(i)
 	b.buf, b.err = i.buf, i.err
+	i.buf = nil // i no longer owns the buffer
 	if b.err == nil {
 		b.err = err
 	}
@@ -66,6 +67,7 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	b.disabled = true
 	err := f(&u)
 	b.buf, b.err = u.buf, u.err
+	u.buf = nil // u no longer owns the buffer
 	if b.err == nil {
 		b.err = err
 	}
-- 
2.43.0


From 90c3cbc0ae989266feea7921bf50e9aac8f0e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:08 +0000
Subject: [PATCH 09/15] fix: nil pointers to types that encode themselves are
 NULL

Passing a nil *String (or any other nil pointer to a type implementing
AppendAny or AppendExpr with value receivers) panicked.
---
 xproto/any.go  | 8 +++++++-
 xproto/expr.go | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..391f9fb 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -343,6 +343,8 @@ type AppendAny interface {
 	AppendAny(p []byte, tag uint8) ([]byte, error)
 }
 
+var appendAnyType = reflect.TypeOf((*AppendAny)(nil)).Elem()
+
 func appendAny(p []byte, tag uint8, value interface{}) ([]byte, error) {
 	if value == nil {
 		return appendAnyNull(p, tag), nil
@@ -391,11 +393,15 @@ typeSwitch:
 		return appendAnyDuration(p, tag, v), nil
 
 	default:
+		rv := reflect.ValueOf(value)
 		if ae, ok := v.(AppendAny); ok {
+			// As database/sql does, a nil pointer to a type with a value receiver is NULL
+			if rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(appendAnyType) {
+				return appendAnyNull(p, tag), nil
+			}
 			return ae.AppendAny(p, tag)
 		}
 
-		rv := reflect.ValueOf(value)
 		switch rv.Kind() {
 		case reflect.Ptr:
 			if rv.IsNil() {
diff --git a/xproto/expr.go b/xproto/expr.go
index 9cf36dc..af512ec 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/bits"
+	"reflect"
 	"time"
 
 	"github.com/renthraysk/xtorm/collation"
@@ -261,6 +262,8 @@ type AppendExpr interface {
 
 type AppendExprFunc func([]byte, uint8) ([]byte, error)
 
+var appendExprType = reflect.TypeOf((*AppendExpr)(nil)).Elem()
+
 func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 	if v == nil {
 		return appendExprNull(p, tag), nil
@@ -304,6 +307,10 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
+			// As database/sql does, a nil pointer to a type with a value receiver is NULL
+			if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(appendExprType) {
+				return appendExprNull(p, tag), nil
+			}
 			return ae.AppendExpr(p, tag)
 		}
 	}
-- 
2.43.0


From f0e82869c6fff68ce899823ba4316de81d03e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:10 +0000
Subject: [PATCH 10/15] fix: report a nil expression used as an operand or
 value

InsertRow returns a nil expression on failure; encoding it panicked.
---
 xproto/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xproto/expr.go b/xproto/expr.go
index af512ec..e3dc064 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -2,6 +2,7 @@ package xproto
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 	"math/bits"
@@ -304,6 +305,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 	case time.Duration:
 		return appendExprDuration(p, tag, vv), nil
 	case AppendExprFunc:
+		if vv == nil {
+			return p, errors.New("nil expression")
+		}
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
-- 
2.43.0


From a305a4b7d760550c516e94f28f93e6f4330c50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 11/15] fix: close the connection, and report why, when TLS
 cannot be enabled

The socket leaked when sending the capability failed, and a server refusing
the capability was ignored and greeted with a TLS handshake.
---
 netx/connector/connector.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..e58a69a 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,11 +67,16 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
-		// @TODO response test
-		if _, err := conn.Send(ctx, b); err != nil {
-			return nil, err
+		r, err := conn.WriteOne(ctx, b)
+		if err == nil {
+			err, _ = r.(error) // server refused to enable TLS
+		}
+		if err != nil {
+			conn.Close()
+			return nil, fmt.Errorf("failed to enable TLS: %w", err)
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
 		if err := tlsConn.Handshake(); err != nil {
-- 
2.43.0


From 6c9b5897c908ee40cde96cf1e4f0927e7c02de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:48 +0000
Subject: [PATCH 12/15] fix: pool may be closed at any time, and more than once

Close closed the channel of idle connections: closing twice, or while a Send
was in flight, panicked, and connections put back afterwards leaked.
---
 netx/pool/fifoch/fifoch.go | 49 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..7d9ddb5 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -11,7 +11,8 @@ import (
 // First In, First Out connection pool implemented with a channel.
 
 type poolCh struct {
-	mu        sync.Mutex
+	mu        sync.Mutex // guards closed, and adding connections to ch
+	closed    bool
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -24,17 +25,17 @@ func New(connector netx.Connector, size int) *poolCh {
 	}
 }
 
+// Close closes the idle connections, those in use are closed as soon as they are released.
+// Any further Send() fails with pool.ErrPoolClosed.
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	p.mu.Lock()
+	p.closed = true
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
+		case conn := <-p.ch:
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
@@ -44,25 +45,38 @@ func (p *poolCh) Close(ctx context.Context) error {
 	}
 }
 
-func (p *poolCh) getCh() chan netx.Conn {
+func (p *poolCh) isClosed() bool {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	return p.ch
+	return p.closed
+}
+
+// put returns conn to the pool, reporting false if pool is full or closed.
+func (p *poolCh) put(conn netx.Conn) bool {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.closed {
+		return false
+	}
+	select {
+	case p.ch <- conn:
+		return true
+	default:
+		return false
+	}
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
 		conn netx.Conn
-		ok   bool
 		err  error
 	)
-	ch := p.getCh()
+	if p.isClosed() {
+		return nil, pool.ErrPoolClosed
+	}
 	select {
-	case conn, ok = <-ch:
-		if !ok {
-			return nil, pool.ErrPoolClosed
-		}
+	case conn = <-p.ch:
 
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -79,10 +93,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
+	if !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0


From 1c330598d7ccd6ec4260d6132a51911d869b2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:49 +0000
Subject: [PATCH 13/15] fix: do not pool connections whose unit of work failed

A unit of work that fails before its COMMIT leaves the transaction open. Reusing
the connection, the next START TRANSACTION implicitly committed the partial work.
---
 netx/pool/fifoch/fifoch.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 7d9ddb5..ec52ed9 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -66,6 +66,16 @@ func (p *poolCh) put(conn netx.Conn) bool {
 	}
 }
 
+// failed reports whether any of the responses is an error.
+func failed(r []netx.Response) bool {
+	for _, rr := range r {
+		if _, ok := rr.(error); ok {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
@@ -93,7 +103,9 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	if !p.put(conn) {
+	// A failed unit of work can leave a transaction (or expectation block) open, which the
+	// next user of the connection would implicitly commit, so do not reuse the connection.
+	if failed(r) || !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0


From 6faeb5963fab255fc2c9c58934614a6febbe0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:41 +0000
Subject: [PATCH 14/15] fix: a pointer to a nil interface is NULL

---
 xproto/any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xproto/any.go b/xproto/any.go
index 391f9fb..b02563a 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -346,10 +346,10 @@ type AppendAny interface {
 var appendAnyType = reflect.TypeOf((*AppendAny)(nil)).Elem()
 
 func appendAny(p []byte, tag uint8, value interface{}) ([]byte, error) {
+typeSwitch:
 	if value == nil {
 		return appendAnyNull(p, tag), nil
 	}
-typeSwitch:
 	switch v := value.(type) {
 	case int:
 		if bits.UintSize == 32 {
-- 
2.43.0


From 1706ce2fb387dfb6b12dea330d9f39e6d6f6da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:46 +0000
Subject: [PATCH 15/15] fix: a callback that recovers from the panic of a
 nested one fails the unit

The nested block's messages are incomplete (a transaction without its
COMMIT, an expectation block that is never closed), yet the unit was sent.
---
 builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 1d5d58b..f01e087 100644
--- a/builder.go
+++ b/builder.go
@@ -37,6 +37,10 @@ func (b *Builder) call(f func(b *Builder) error) {
 	}
 	b.disabled = true
 	err := f(&child)
+	if child.disabled && child.err == nil {
+		// f recovered from a panic of a nested callback, whose messages are incomplete.
+		child.err = errors.New("nested callback panicked")
+	}
 	child.disabled = true // no longer owns the buffer
 	b.buf = child.buf
 	b.err = child.err
-- 
2.43.0

