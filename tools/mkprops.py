#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: this file)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

NOROOT="The root package's tests need a live MySQL server, so none of the tests that run here reaches this code."
prop("C01","A unit of work reaches the server as exactly the requested operations, in order",
 "Whatever sequence of builder calls a program makes, including arbitrarily nested transactions and expectation blocks, the bytes handed to the sender are a concatenation of correctly framed X Protocol client messages that correspond one to one, in call order, to the requested operations. A transaction is its isolation statement (if one was asked for), its START TRANSACTION (WITH CONSISTENT SNAPSHOT for snapshot isolation), its body, then COMMIT; an expectation block is an Open with the requested context and the no-error expectation, its body, then a Close. Statement texts and prepared-statement ids arrive unchanged, and within a unit each InsertRow captures LAST_INSERT_ID() into a variable of its own, to which the expression it returns refers.",
 ["programs","inputs"],"Every program over StmtExecute, Prepare, Execute, Deallocate, Insert, InsertF, InsertRow, Update, UpdateF, Delete, Tx (every isolation level) and ExpectFailOnError (both contexts), of any length and nesting, any names, ids, texts and sizes, and any number of Sends between Resets.",
 NOROOT+" The xproto tests encode one message at a time with a handful of short arguments: no sequence, no nesting, no transaction structure.",
 ["builder.go","crud.go","xpipe.go","xproto/xproto.go","xproto/prepare.go","xproto/insert.go","xproto/update.go","xproto/expect.go"],
 [("Builder operations append one framed message each","builder.go"),("Tx / ExpectFailOnError bracket the child builder's messages","builder.go: Tx, ExpectFailOnError, call"),("frame length patched after the body","builder.go, crud.go, xproto/*.go")],
 ["bytes given to netx.Sender.Send"],[("buffer","the unit built so far","builder.go: Builder")])
prop("C02","Statement arguments arrive with exactly the value supplied",
 "Every supported argument of a parameterised statement or prepared-statement execution is received by the server as one argument, in position, with the same type class and exactly the same value: all integer widths and signs, floats bit for bit, booleans, strings of any length and content with their collation, byte strings with their content type (XML, JSON, geometry), times and durations. Nil, nil pointers and nil byte slices arrive as NULL, non-nil pointers (of any depth) as the value pointed to, and an empty string or empty byte slice as an empty value, not NULL.",
 ["inputs"],"All argument lists of any length over every supported Go type, pointer depth and wrapper, all values and all lengths (in particular those at which the length of any enclosing field needs one more byte).",
 "The existing literal tests try a few short constants per type; nested length prefixes change shape at lengths near 128, 16384 and 2097152, and integers at every multiple of seven bits, which samples do not reach.",
 ["xproto/any.go","xproto/xproto.go","xproto/prepare.go","xproto/protobuf.go","xproto/scalar.go","expr.go"],
 [("type switch to scalar encoders","xproto/any.go: appendAny"),("precomputed nested lengths","xproto/any.go: AppendAnyBytes, AppendAnyString"),("variable length integers built from shifted bytes","xproto/any.go: appendAnyUint64 etc.")],
 ["decoded Mysqlx.Datatypes.Any values of StmtExecute and Prepare.Execute messages"])
prop("C03","Rows, assignments and criteria arrive exactly as supplied",
 "Every Insert, InsertF, InsertRow, Update, UpdateF and Delete is received as a message on the named table (not a document collection) carrying exactly the given columns in order, exactly the given rows with their values in order, exactly the given column assignments (each a SET, in call order when given one by one), and exactly the given criteria: no criteria when none is given, never fewer restrictions than asked for. Literal values of every supported type arrive with the same type class and exactly the same value, NULL for nil.",
 ["inputs"],"All tables, columns, rows, assignments and criteria, any number and any size, all values of every supported Go type and wrapper.",
 "The existing tests try single small rows; row, column and criteria lengths are nested up to five deep and each prefix changes size independently with the data.",
 ["xproto/insert.go","xproto/update.go","xproto/xproto.go","xproto/expr.go","builder.go","crud.go","expr.go"],
 [("row length back-patched after encoding its fields","xproto/insert.go: AppendInsertRow"),("assignment header inserted before its encoded value","xproto/update.go: AppendUpdateSet"),("criteria encoded in place","xproto/xproto.go: Delete, xproto/update.go: Update")],
 ["decoded Mysqlx.Crud Insert/Update/Delete messages"])
prop("C04","Expressions denote the documented operator applied to the operands in order",
 "Each expression constructor is received as the operator or function it documents, with the given operands in the given order: columns by name, unary, binary and ternary operators, IN and NOT IN over any list, date arithmetic with its unit, functions, defaults, and the variable returned for an inserted row. Expressions compose: any tree of any depth, width and operand size is received as the same tree, and reusing an expression in several places yields the same subtree each time.",
 ["inputs"],"All expression trees over every exported constructor and every literal type, any depth, fan-out and operand sizes, used as criteria, row values, assignments and operands, encoded any number of times.",
 "Two existing tests encode one small operator and one function; the constructors themselves are not reached by any test that runs, and headers are inserted after their operands have been encoded, so their size depends on the whole subtree.",
 ["expr.go","xproto/expr.go","slice/slice.go"],
 [("operands encoded first, header inserted before them","xproto/expr.go: AppendExprOperator, AppendExprFunctionCall; slice/slice.go: Insert"),("constructor to operator-name mapping","expr.go")],
 ["decoded Mysqlx.Expr.Expr trees"])
prop("C05","A unit that cannot be encoded is never sent, and the first error is reported",
 "If any part of a unit of work fails - a value or expression of unsupported type anywhere in it, a custom encoder's error, a row of the wrong length given to Insert, an unknown isolation level, or an error returned by a callback - then Send transmits nothing and returns an error that is (or wraps) the first failure, whatever is called on the builder afterwards, and no builder call panics because of it. After Reset the builder behaves exactly as a new one.",
 ["programs","inputs"],"All programs with one or more failures of every kind at every position and nesting depth, followed by any further calls, Sends and Resets.",
 NOROOT+" No test encodes an unsupported value inside a larger unit.",
 ["builder.go","crud.go","xpipe.go","xproto/any.go","xproto/expr.go","xproto/insert.go","xproto/update.go","xproto/xproto.go"],
 [("sticky first error, every operation is a no-op after it","builder.go: err"),("errors of callbacks and children propagate outwards","builder.go: call; crud.go"),("Send refuses","builder.go: send")],
 ["calls made to netx.Sender.Send and the error returned by XPipe.Send"],[("err","first failure of the unit","builder.go: Builder.err")])
prop("C06","Encoding never depends on buffer capacity, earlier content or reuse",
 "The same calls produce the same bytes whatever the initial buffer capacity, whatever the unit already contains and however often the builder was used and Reset before; each encoder only appends, leaving every byte already in the buffer as it was. The arguments passed in (byte slices, strings, rows, maps) are never modified, and later changes to them by the caller, once the call has returned, do not change the unit.",
 ["inputs","histories"],"All operations and values, all initial capacities, all prior contents and leftover bytes beyond the length of the buffer, all histories of Reset and reuse.",
 "The existing tests encode into a nil buffer once: no spare capacity, no prior content, no stale bytes, which is where in-place growth and insertion can go wrong.",
 ["slice/slice.go","xproto/*.go","builder.go","xpipe.go"],
 [("ForAppend / Insert grow or reuse the buffer","slice/slice.go"),("Reset truncates and keeps the capacity","builder.go: reset")],
 ["bytes given to netx.Sender.Send; result and backing array of each exported append function"])
prop("C07","A builder used out of scope can never alter the unit of work",
 "While a callback of a transaction, expectation block, InsertF or UpdateF runs, any use of an enclosing builder (including Send and Reset) panics instead of interleaving messages. A builder, insert or update handle kept after its callback has returned never changes the unit of work, whether it panics or does nothing.",
 ["programs"],"All programs that additionally use any enclosing or finished handle at any point, with any operation, at any nesting depth.",
 NOROOT+" Misuse depends on the order of calls through several handles that share one buffer.",
 ["builder.go","crud.go","xpipe.go"],
 [("enclosing builder disabled while its callback runs","builder.go: call, crud.go"),("finished handles lose the buffer","builder.go: call, crud.go")],
 ["panics of the builder calls; bytes given to netx.Sender.Send"],[("disabled","handle may not be used","builder.go: Builder.disabled")])
prop("C08","Every message is paired with its own server response",
 "For a unit of n messages, Send consumes exactly the server messages that answer them and returns n responses in order: an error response (with the server's code, SQL state, severity and message) for each message the server refused, a nil response for each one it accepted. Notices, result-set metadata, rows and other intermediate messages of any number and size never count as an answer, however the network splits the stream, and consecutive Sends on one connection stay in step.",
 ["histories","inputs"],"All response histories: any interleaving of intermediate and terminal messages, any sizes (below, at and above the read buffer), any split of the byte stream into reads, any number of Sends.",
 "No test that runs touches the connection; misattribution needs particular sizes relative to the read buffer or particular message orders.",
 ["netx/connection/connection.go","netx/connection/errors.go"],
 [("read until a terminal message per client message","netx/connection/connection.go: Read, ReadResponsesToSlice"),("peek within the buffer or read in full when larger","netx/connection/connection.go: Read")],
 ["responses and error returned by Send; bytes left unread on the transport"])
prop("C09","A broken or fatal response stream gives an error, never success or a crash",
 "If the server's stream ends, fails or turns malformed at any point before every message of a unit has been answered, or a fatal error (or any error answering a session reset or authentication) arrives, Send returns a non-nil error; it never reports success for an unanswered message, never panics and never loops forever on a finished stream. Responses received before the failure are still returned in order.",
 ["fault_sequences","inputs"],"All valid response streams cut at every byte offset, with a read error at every offset, with invalid lengths or corrupt error payloads; arbitrary byte streams.",
 "Needs a fault at a particular byte of a particular history; no test that runs uses a connection at all.",
 ["netx/connection/connection.go"],
 [("short reads and unmarshal failures return errors","netx/connection/connection.go: Read"),("fatal errors end the unit","netx/connection/connection.go: Read, MySqlXError.IsFatal")],
 ["responses and error returned by Send"])
prop("C10","One write per unit, under the caller's deadline",
 "Each Send performs exactly one write carrying exactly the unit's bytes, so a unit costs one round trip. Before any read or write of a Send the transport's deadline is set to the context's deadline, or cleared when the context has none, so a deadline never leaks into a later unit; failures to set the deadline or to write surface as errors that wrap the cause, and nothing is then read.",
 ["histories","fault_sequences"],"All sequences of Sends over contexts with and without deadlines, all unit sizes, with faults injected into deadline, write and read calls.",
 "Observable only at the transport, over a sequence of Sends with different contexts; no test that runs has a connection.",
 ["netx/connection/connection.go","xpipe.go","builder.go"],
 [("SetDeadline then a single Write then reads","netx/connection/connection.go: Send, WriteOne")],
 ["calls made on the net.Conn"])
prop("C11","Authentication proofs verify for every credential and challenge",
 "For every database, user name, password and server challenge, the client's authentication messages name the mechanism and carry the database, the user and a proof that a server knowing the account accepts: for MYSQL41 and SHA256_MEMORY the proof verifies against the stored double hash for that challenge (and only for that challenge and password), for PLAIN it is the password itself. An empty MYSQL41 password sends no proof.",
 ["inputs"],"All databases, users and passwords (any length and bytes except NUL), all challenges, all scratch buffer capacities and contents.",
 "No test covers the mechanisms; the scramble is computed in place in a shared scratch buffer whose layout depends on the lengths of the credentials.",
 ["netx/connector/authentication/mysql41/mysql41.go","netx/connector/authentication/sha256/sha256.go","netx/connector/authentication/plain/plain.go","xproto/authentication.go","slice/slice.go","netx/connection/connection.go"],
 [("hash chain xor","mysql41.go, sha256.go: Continue"),("scratch allocation ahead of the message","slice/slice.go: Allocate, xproto/authentication.go")],
 ["AuthenticateStart/AuthenticateContinue messages, verified as the server does"])
prop("C12","The password never travels in clear over an insecure transport",
 "Unless the application itself selects the PLAIN mechanism, no byte stream the connector writes to an unencrypted TCP connection contains the password in clear, whatever the server answers. With a TLS configuration, nothing but the request to enable TLS is written before the handshake has succeeded, and a server that refuses TLS or fails verification receives no credentials. The PLAIN retry is made only over TLS or a unix socket, and only after access was denied.",
 ["configurations","histories","fault_sequences"],"All transports (TCP, TCP+TLS, unix socket), mechanisms, credentials and server behaviours: accept, deny with any code, refuse TLS, bad certificate, hang up at any step.",
 "Depends on the server's behaviour at each step and the transport; no test that runs connects to anything.",
 ["netx/connector/connector.go","netx/connection/connection.go","netx/connection/errs/codes.go"],
 [("PLAIN fallback guarded by access denied and a secure transport","netx/connector/connector.go: New"),("TLS enabled before authenticating","netx/connector/connector.go: New"),("IsSecure","netx/connection/connection.go")],
 ["every byte the client writes, as seen by the server"])
prop("C13","Connecting gives an authenticated connection or an error, leaking nothing",
 "The connector returns a connection only after the server has accepted authentication, and that connection can be used for a unit of work at once; in every other case it returns a non-nil error, no connection, and the socket it dialled is closed. This holds at every step the server can fail: refused capability, failed handshake, denied or unexpected authentication answers, disconnection. When access is denied over a secure transport (TLS or a unix socket), authentication is tried once more with PLAIN, and its acceptance gives the connection.",
 ["fault_sequences","configurations"],"All transports and mechanisms, and every server behaviour and failure point during connection establishment.",
 "Needs a server failing at a chosen step; no test that runs connects to anything.",
 ["netx/connector/connector.go","netx/connection/connection.go"],
 [("every error path closes the connection","netx/connector/connector.go: New"),("authentication exchange","netx/connection/connection.go: Authenticate")],
 ["result of Connector.New and the server's end of the socket"])
prop("C14","A pooled connection serves one unit at a time, and none is lost",
 "In every interleaving of concurrent Sends, each unit runs on exactly one connection obtained from the connector, no connection serves two units at once or is used after it was closed, idle connections are reused before new ones are made (in the order they became idle), and never more than the pool's size are kept idle. Every connection is at all times in use, idle or closed, and the caller receives exactly the responses and error of its own unit.",
 ["schedules","histories"],"All interleavings of Sends that succeed, fail, or cannot connect, with live and cancelled contexts, for every pool size.",
 "No test covers the pool; violations need particular interleavings of concurrent Sends.",
 ["netx/pool/fifoch/fifoch.go"],
 [("channel of idle connections","netx/pool/fifoch/fifoch.go: Send"),("connections that do not fit are closed","netx/pool/fifoch/fifoch.go: Send")],
 ["calls made on the Connector and on each Conn"],[("ch","idle connections","netx/pool/fifoch/fifoch.go: poolCh")])
prop("C15","A pool can be closed at any time and then stays closed",
 "Close may be called at any time, any number of times and concurrently with Sends, without panicking or blocking for ever; once it has returned without error, every connection that was idle has been closed, every connection in use is closed when its Send returns, and any Send that starts later fails with ErrPoolClosed without connecting. Sends in flight at the time complete normally.",
 ["schedules","histories"],"All interleavings of Sends and Closes with live and cancelled contexts, for every pool size.",
 "No test covers the pool; violations need Close to fall at a particular point of a concurrent Send.",
 ["netx/pool/fifoch/fifoch.go","netx/pool/pool.go"],
 [("closed flag checked when taking and putting back connections","netx/pool/fifoch/fifoch.go")],
 ["calls made on each Conn; errors returned by Send and Close"])
prop("C16","A connection whose unit failed is closed and never reused",
 "When a unit of work sent through the pool fails - the transport or the server reports an error for the unit or for any one of its messages - its connection is closed exactly then and never serves another unit, while a connection whose unit succeeded completely is kept. The failing unit's responses and error reach the caller unchanged.",
 ["histories","fault_sequences"],"All histories of units that succeed or fail at any message, with transport, fatal and ordinary server errors at any position among the responses.",
 "No test covers the pool; the consequence (another unit committing a stranger's half-done transaction) shows only across two units on one connection.",
 ["netx/pool/fifoch/fifoch.go","netx/connection/connection.go"],
 [("failed units close their connection instead of returning it","netx/pool/fifoch/fifoch.go: Send")],
 ["calls made on each Conn"])
prop("C17","A failed transaction leaves nothing behind: all of its effects or none",
 "A transaction sent through a pool, inside the no-error expectation block that ends its unit of work (the documented structure), takes effect entirely or not at all, whatever statement fails, wherever the transport breaks, and whatever units run on the pool before or after it. When Send returns no error, or the commit's answer was received before the failure, it took effect exactly if the commit's response is not an error; when Send fails before that it may or may not have taken effect, but never in part.",
 ["histories","fault_sequences"],"All histories of units through builder, connection and pool against a model server, failing any statement, cutting the transport before or after any message.",
 "Spans builder, connection and pool over several units and a stateful server; the tests that could show it need MySQL, and none injects a failure.",
 ["builder.go","netx/connection/connection.go","netx/pool/fifoch/fifoch.go"],
 [("expectation block around the transaction","builder.go: ExpectFailOnError, Tx"),("response attribution","netx/connection/connection.go"),("failed connections are discarded","netx/pool/fifoch/fifoch.go")],
 ["durable state of a model server and the results of Send"])
prop("C18","Dates, times and durations keep their exact value",
 "Every time.Time (years 0 to 9999) arrives as the calendar date and clock time it shows in its own location, to the nanosecond, and every time.Duration as a signed hours:minutes:seconds value equal to it exactly, including fractions of a second, negative values and the extremes, in statement arguments and in expressions alike.",
 ["inputs"],"All times (years 0 to 9999, any zone) and all int64 durations, as arguments, pointers, row values and operands.",
 "The existing tests use a few whole-second durations and the current time.",
 ["xproto/scalar.go","xproto/any.go","xproto/expr.go"],
 [("AppendDuration","xproto/scalar.go"),("formatted time with patched lengths","xproto/any.go: appendAnyTime, xproto/expr.go: appendExprTime")],
 ["octets of the decoded values"])
prop("C19","Decimal values decode to the exact number",
 "For every well-formed server DECIMAL (scale byte, packed decimal digits, sign), its textual form and its decomposition both denote exactly the encoded number, sign and scale included, for any digit count a MySQL DECIMAL can have. The 256-bit helper's multiply-add and big-endian output agree with exact integer arithmetic, carry included.",
 ["inputs"],"All digit strings of 1 to 65 digits, all scales, both signs and all sign nibbles, odd and even digit counts; all 256-bit values and 64-bit operands.",
 "No test covers the package.",
 ["types/decimal.go"],
 [("BCD loop","types/decimal.go: Decompose, String"),("multi-word multiply-add","types/decimal.go: MulAdd")],
 ["results of String, Decompose, MulAdd, AppendBytes"])
prop("C20","Collation identifiers, names and binary flag agree with the server's",
 "Each exported collation constant has the server's numeric id, prints as the server's name for that id, no two ids share a name, and only the binary collation reports itself binary; any other number prints as an unknown collation showing that number. A string value given with a collation arrives with exactly that id.",
 ["inputs"],"All numbers as collations; all exported constants.",
 "No test covers the table, which is several hundred hand-cut substrings.",
 ["collation/collation.go","expr.go","xproto/any.go","xproto/expr.go"],
 [("table of substrings","collation/collation.go")],["String, IsBinary, decoded string values"])
prop("C21","Session, expectation, capability and authentication messages encode exactly",
 "Session resets (closing or keeping the session open), expectation blocks with any context and any list of conditions, capability requests, authentication messages, placeholders and variables are encoded as exactly one well-framed message or field holding exactly the given values, for names and data of any length.",
 ["inputs"],"All conditions lists, field names, capability names, mechanism names, authentication data, placeholder positions and variable names of any length.",
 "Only session reset is tested; lengths are hand-encoded into fixed-size prefixes.",
 ["xproto/xproto.go","xproto/expect.go","xproto/authentication.go","xproto/expr.go"],
 [("hand-encoded lengths","xproto/expect.go, xproto/protobuf.go, xproto/expr.go")],["decoded messages"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
