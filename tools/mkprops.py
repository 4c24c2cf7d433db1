#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code so that the long lines stay reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ENC1="encoding/encoding_v1/encoderV1.go"; ENC2="encoding/encoding_v2/encoderV2.go"
DEC1="encoding/encoding_v1/decoderV1.go"; DEC2="encoding/encoding_v2/decoderV2.go"
CONN="connection/connection.go"; TX="connection/transaction.go"; RES="connection/result.go"
RP="routing/pool.go"; RH="routing/routing_handler.go"; DP="driver_pool.go"; CF="connection_pool_factory.go"; CL="client.go"

p("C01","Every supported value is encoded faithfully",
"Encoding any value built from nil, booleans, integers, floats, strings, lists, string-keyed maps, graph entities, points and protocol messages produces bytes that an independent PackStream reader decodes to exactly that value, with both encoder generations and through both the streaming and the one-shot interface. A value that PackStream cannot represent (an unsupported type, at any nesting depth, or an integer above the signed 64-bit maximum) is refused with an error and is never silently altered.",
["inputs"],"all integers around every width boundary, all strings/lists/maps/structures of every size around every size-class boundary, all nestings up to a depth, both encoders",
"tests encode a handful of fixed values and compare against bytes produced by the same encoder; no independent decoder and no size-class boundaries for nested values",
[ENC1,ENC2,"structures/graph/node.go","structures/graph/path.go","structures/types/point.go","structures/messages/run.go"],
[("encode","%s, %s: encode, encodeInt, encodeString, encodeSlice, encodeMap, encodeStructure"%(ENC1,ENC2))],
["return value and bytes of the public Marshal functions and of encoders writing to an io.Writer"])

p("C02","Every valid PackStream encoding of a value is decoded to that value",
"Decoding accepts every legal encoding of a value a Bolt server may send - every integer width, every size class for strings, lists, maps and structures, including non-minimal ones - and yields exactly that value, including nodes, relationships, paths, points and the response messages. Every data value the driver encodes, it decodes back to an equal value.",
["inputs"],"all values up to a bound, in every legal encoding form, with both decoder generations",
"there is one decoder test per generation, of a single value",
[DEC1,DEC2,"encoding/util.go"],[("decode","%s, %s: decode, decodeSlice, decodeMap, decodeStruct"%(DEC1,DEC2))],
["return value of the public Unmarshal functions and of decoders reading from an io.Reader"])

p("C03","Message chunking is transparent",
"A message of any size is written, for every chunk size setting, as a sequence of non-empty chunks whose concatenated payload is exactly the message, followed by one end marker, and nothing else. A reader recovers the same messages, one per decode, in order and without consuming bytes of the next message, however the sender split them into chunks (leading keep-alive/no-op end markers excepted) and however the transport splits the bytes into reads.",
["inputs","configurations"],"all message sizes around chunk-size multiples and the 16-bit limit, all chunk sizes in a set of boundary values, all ways to split small messages into chunks and reads",
"tests use messages far smaller than one chunk, read from an in-memory buffer",
[ENC1,ENC2,DEC1,DEC2],[("chunk writer","%s: Write, flush"%ENC2),("chunk reader","%s: read, readData"%DEC2)],
["bytes given to the io.Writer; values decoded from an io.Reader with arbitrary read segmentation"])

p("C04","Malformed or truncated input is an error, never a crash or a wrong value",
"Decoding any byte sequence terminates with a value or an error: it never panics, never loops, and never allocates memory out of proportion to the bytes actually received. A proper prefix of a valid message, or a message whose declared sizes exceed its content or whose structures have the wrong number or types of fields, is always an error and never yields a shortened or invented value.",
["inputs"],"all short byte strings over the marker alphabet, every prefix and every single-byte corruption of a set of valid messages, all field-type confusions of the known structures",
"no test feeds the decoder invalid bytes",
[DEC1,DEC2,"encoding/util.go"],[("decode","%s, %s: decode*, readData"%(DEC1,DEC2)),("slice converters","encoding/util.go")],
["return value / panic / memory use of the public Unmarshal functions"])

p("C05","Temporal and spatial values keep their meaning across the wire",
"In protocol versions 2 and later a date, local time, local date-time, date-time with an offset, elapsed-time duration or point that the driver sends denotes, by the Bolt definition of that structure, the same value the caller supplied, and one the driver receives denotes the value the server sent: same instant, same offset, same wall clock, same elapsed time (durations without calendar months), same coordinates and reference system. This includes negative values, sub-second parts, dates centuries away from 1970, zones with daylight-saving transitions, and sending a received value back.",
["inputs"],"all combinations of boundary instants x offsets x nanoseconds, dates over several millennia, instants around every kind of zone transition",
"no reliable test covers temporal values (they need a live server)",
[ENC2,DEC2,"structures/types/point.go"],[("temporal encode","%s: encodeDate..encodeDuration"%ENC2),("temporal decode","%s: decodeDate..decodeDuration, decodePoint2D/3D"%DEC2)],
["bytes of Marshal decoded by an independent reader; Go values returned by Unmarshal"])

p("C06","Arguments are only read, and results belong to the caller",
"The driver only reads the values it is given: encoding a value or sending it as a parameter, whether that succeeds, is refused or fails while writing, changes nothing reachable from it, not even the spare room of its slices, and keeps no reference to it, so that the caller may change it afterwards and give it to several calls, connections and goroutines at once. What the driver returns - bytes, decoded values, rows, summaries, failures - belongs to the caller: its parts share no memory with each other, with the bytes or parameters it came from or with any other result, so that neither changing it nor any later call changes anything else.",
["inputs","histories","schedules"],"all value trees within bounds encoded and decoded, all sequences of calls with parameters changed in between, several goroutines with the same values under the race detector",
"tests compare values once and never look at them again",
[ENC1,ENC2,DEC1,DEC2,CONN],
[("encoding","%s, %s: Encode, Marshal"%(ENC1,ENC2)),("decoding","%s, %s: Decode, Unmarshal"%(DEC1,DEC2)),("rows and summaries","%s: Query, consumeAll"%CONN)],["the values given, before and after; memory shared between values returned; later results after earlier ones were overwritten"])

p("C10","A connection is handed out only after handshake and authentication succeed",
"Opening a connection returns a usable connection only if the server chose one of the offered protocol versions and then accepted the credentials; the version reported is the one the server chose. Under every other server behaviour - refusal, unknown version, authentication failure, unexpected reply, garbage, disconnect or silence at any point - it returns an error and no connection, does not hang beyond the timeout, and leaves no socket open.",
["fault_sequences","inputs"],"every server reply at each step of the dialogue x every point of disconnection/silence x every read segmentation of the replies",
"the tests that open connections need a live server and only see it succeed",
[CONN,"protocol/util.go"],[("open","%s: CreateBoltConn, initialize, handshake, sendInit"%CONN)],
["return values of opening a connection, sockets open at the server"])

p("C11","Requests conform to the negotiated protocol version",
"Every byte the client sends forms a legal conversation of the negotiated Bolt version: only requests (with the fields and metadata keys) defined by that version, sent only in server states that allow them, with the query text, parameters, credentials, target database and read/write access mode the caller asked for. Asking for a named database on a version without multi-database support is refused before anything is sent, and the request builders exposed to users produce what their inputs say (realm, transaction timeout, transaction metadata, access mode, discard/pull amounts).",
["histories","inputs"],"all sequences of client calls up to a depth x all versions x failures injected at any request; all combinations of builder inputs",
"tests only check which protocol object a version maps to",
[CONN,TX,"protocol/protocol_v1/bolt.go","protocol/protocol_v2/bolt.go","protocol/protocol_v3/bolt.go","protocol/protocol_v4/bolt.go","structures/messages/builder.go","structures/messages/init.go","structures/messages/discard.go"],
[("requests","connection package and protocol_v1..v4")],["request stream as seen by an independent server state machine"])

p("C12","Each call returns exactly its own results",
"A successful query returns exactly the records and the summary the server produced for that query, all of them, in order, whatever was done on the connection before and however the response bytes are split in transit, and what a call returned is not changed by later calls. No call ever returns, in whole or part, a response that belongs to another request.",
["histories","fault_sequences"],"all sequences of calls up to a depth (queries, failing queries, transactions) with distinct results per query, all versions, all result sizes in a set, response segmentations, faults followed by further calls",
"needs every history and every point of failure; tests need a live server and run one query",
[CONN,TX],[("runQuery/consume","%s: runQuery, consume, reset"%CONN)],["rows and metadata returned vs. unique tokens the server issued for that request"])

p("C13","A server failure is reported as such and the connection stays usable",
"When the server rejects a request, that call - and no other - returns an error from which the server's failure message with its full metadata can be obtained as documented; it is never reported as success or as a transport error. Afterwards the same connection works normally for new queries and transactions, if the server accepted the recovery; if it did not, the connection is closed and refuses further use.",
["fault_sequences","histories"],"a failure at any request of any history (at start of or after some records of a result), with any recovery outcome, in all versions",
"no test makes the server fail a request",
[CONN,TX,"errors/errors.go","structures/messages/responses.go"],[("failure handling","%s: consume, reset"%CONN)],["error values returned; results of subsequent calls; server-side state"])

p("C14","Explicit transactions are atomic",
"Work done through a transaction becomes durable exactly when its commit reports success, as a whole or not at all (if the reply to the commit is lost in transit, the error leaves open which); work of a transaction that was rolled back, failed, abandoned by closing its connection, or never finished is not durable. After a transaction has ended in any way - including by a failed statement - it reports itself closed, using it again is an error that executes nothing, and a new transaction can be started on a healthy connection.",
["histories","fault_sequences"],"all sequences of begin/exec/query/commit/rollback/close and plain queries up to a depth x all versions x a failure or disconnect at any request",
"no reliable test uses a transaction",
[CONN,TX],[("transaction","%s"%TX),("begin","%s: BeginWithDatabase"%CONN)],["effects the model server made durable vs. what the API reported"],
[("transaction","open transaction of the connection","%s: Connection.transaction"%CONN)])

p("C15","A broken transport is reported as a bad connection and poisons the connection",
"If the connection to the server is lost, reset or times out, or the server's bytes cannot be understood, during a call, that call returns an error - for transport loss and timeouts one whose innermost error is the standard bad-connection error - and never a partial result presented as complete. From then on the connection reports itself not open and every further query or transaction call on it fails without exchanging any more data.",
["fault_sequences"],"every byte position at which the stream ends, is reset, stalls or is corrupted, in every kind of call, in all versions",
"no test injects transport faults",
[CONN,TX],[("I/O wrapper","%s: readWrite"%CONN),("liveness test","%s: ValidateOpen"%CONN)],["errors returned, connection liveness report, bytes seen by the server afterwards"])

p("C16","Closing a connection always releases it",
"Closing a connection, in every state it can be in - idle, in a transaction, after server failures, after the peer vanished or stopped responding - terminates within the timeout, closes the socket exactly once, and says goodbye first on versions that define it if the stream is still healthy. A second close reports that it is already closed, and after closing, the connection reports itself not open and every other call fails.",
["histories","fault_sequences"],"all call histories up to a depth followed by close, with any fault before or during close, all versions",
"tests only close healthy connections to a live server",
[CONN],[("close","%s: Close"%CONN)],["socket state at the server, error values"])

p("C17","Concurrent calls on one connection do not interfere",
"Queries issued concurrently from several goroutines on one connection are executed one after the other: each goroutine receives exactly its own result or its own failure, the request stream stays legal, and there is no deadlock or data race.",
["schedules"],"all interleavings up to a preemption bound of 2-3 goroutines issuing queries, some failing, on one connection",
"scheduling is not controllable in the tests, none of which shares a connection",
[CONN],[("serialisation","%s: mutex in runQuery"%CONN)],["per-goroutine results; request stream; race detector"])

p("C18","No call outlives its timeout",
"With a timeout configured, every network operation of every call gives up after that long without progress: a server that accepts the TCP connection (plain or TLS), or any request, and then stays silent makes the pending call fail within a small multiple of the timeout rather than block for ever. A server that keeps making progress within the timeout never causes a timeout error, and the timeout in force is always the most recently configured one.",
["fault_sequences","configurations"],"silence at every step of connection set-up and of every call x timeouts; delays just below and above the timeout",
"tests never use a silent server",
[CONN],[("deadlines","%s: readWrite.Read/Write, createConnection"%CONN)],["virtual time at which each call returns"])

p("C19","Summary accessors are total and truthful",
"For every summary a server may send, the counters and metadata accessors return the value that the summary contains together with true, or report absence with false; they never panic and never report a value of another counter.",
["inputs"],"all combinations of present/absent/ill-typed statistics maps and counter entries",
"no test reads a summary with counters absent",
[RES,"structures/messages/responses.go"],[("accessors",RES)],["accessor results after a query answered with the enumerated summary"])

p("C20","Client configuration reaches the connections",
"Every connection opened through a client, or directly by a connection string, goes to the configured host and port, authenticates with exactly the configured user name and password, and uses the configured timeout (one minute if none is given), whether these were given as options or in a connection string, and whatever characters they contain. Routing is enabled exactly when asked for by option or by URL scheme, unpooled drivers refuse it, and contradictory or incomplete configurations are rejected with an error.",
["configurations","inputs"],"all combinations of options over boundary values incl. credentials with reserved URL characters, for driver, pool and routed pool",
"tests check a few accepted option combinations without opening a connection",
[CL,"opt.go","driver.go","driver_pool.go","driver_routing_pool.go",CONN],[("configuration","%s: NewClient, newConnectionFromConnectionString"%CL)],["address dialled, credentials received by the server, virtual time of timeouts"])

p("C21","TLS is used whenever configured, and verified unless disabled",
"When TLS is configured, by option or connection string, every connection of the client - direct, pooled and routed - is encrypted from its first byte, credentials never travel in clear text, the server certificate is verified against the configured authorities and host name unless verification was explicitly disabled, and a configured client certificate is presented. If the TLS session cannot be established, opening fails; without TLS configured, none is attempted.",
["configurations","fault_sequences"],"all combinations of TLS options x server certificate good/untrusted/wrong host/plaintext server x kind of driver",
"no test uses TLS",
[CL,"driver_routing_pool.go",RP,CONN],[("TLS","%s: createConnection, tlsConfig; %s: getTlsPortion"%(CONN,CL))],["first bytes seen by the server, TLS handshake outcome"])

p("C22","Connections do not influence each other",
"What is done on one connection, or with one encoder, decoder or credential map, never affects another. In every order and interleaving, from one goroutine or from several, each connection sends exactly the requests it would send if it were the only one - with its own credentials, settings and chunk sizes -, receives exactly its own results and failures, and times out, breaks and closes alone. Different connections, encoders and decoders can be used at the same time without data races.",
["schedules","histories"],"all interleavings of the call sequences of two or three connections of any versions, at call level and, at the same time from several goroutines, at the level of socket operations",
"tests use one connection at a time; shared buffers or caches only show when two connections are in use, at particular moments",
[CONN,TX,ENC1,ENC2,DEC1,DEC2,"structures/messages/init.go","protocol/util.go"],
[("connection state","%s: Connection"%CONN),("codec state","%s, %s: EncoderV1/V2, DecoderV1/V2"%(ENC1,DEC1)),("protocol choice","protocol/util.go: GetProtocol")],
["results, errors and durations of every call; bytes and decoded requests received by the servers; sockets"])

p("C23","A call that the driver refuses has no effect",
"A call that the driver itself refuses - parameters that cannot be transported, however deep the offending value lies and however much could be encoded before it, a named database where the protocol or the transaction does not allow it, a begin within a transaction, any use of an ended transaction or a closed connection - returns an error, no result and no rows, and has no other effect: nothing of it reaches the server, no time passes, the connection and its transaction stay exactly as they were, and every call around it behaves, and is sent, as if it had not been made.",
["histories"],"all placements of refused calls within all call sequences, on all protocol versions",
"tests check that some calls return errors, not that what follows is the same as without them",
[CONN,TX,ENC1,ENC2],
[("refusing","%s: sendMessage, runQuery, Begin; %s: Exec, Query"%(CONN,TX)),("encoding","%s: Encode"%ENC2)],["errors and results of the refused calls; requests, chunks, replies and database with and without them"])

p("C30","The pool lends each connection exclusively and within its bound",
"Under every interleaving of borrowing, returning and closing, the plain connection pool never lends one connection to two borrowers at the same time, never has more than the configured number of server connections open, never lends a closed connection or one with an unfinished transaction or unread responses, and is free of data races.",
["schedules"],"all interleavings up to a preemption bound of 2-3 goroutines borrowing, using and returning connections, with pool sizes 1 and 2",
"the stress test needs a live server and sees only a few schedules",
[DP,CF],[("pool","%s: open, reclaim, close"%DP)],["connections lent, sockets open at the server, race detector"])

p("C31","The pool keeps its capacity and hands over clean connections through failures",
"Whatever failed in between - a dead connection returned or found idle, a transaction left open, connection attempts failing for a while - once the server is reachable the pool again lends up to its full number of distinct working connections at once. A borrower never receives a connection that is known dead, that the server had visibly ended before the borrow, that has unread messages of the server waiting, or that is still inside an earlier borrower's transaction; uncommitted work left on a returned connection is rolled back or discarded, and connections the pool drops are closed. A connection returned in order, with nothing left open, is kept for later borrows and not closed.",
["fault_sequences","histories"],"all histories up to a depth of borrow/use/return/kill/outage/recover steps for pool sizes 1 and 2",
"needs fault injection and exact accounting over histories",
[DP,CF,CONN],[("factory",CF),("pool",DP)],["number of connections that can be borrowed at the end, durable effects, sockets open"])

p("C32","Borrowing and closing the pool terminate",
"A borrow that has to wait is served as soon as a connection is returned or discarded and capacity allows it, under every schedule; no wake-up is lost. Closing the pool always completes, closes all idle connections, makes waiting and later borrows fail, and connections returned afterwards are closed too, so that when the last one is back no socket remains open.",
["schedules"],"all interleavings up to a preemption bound of borrowers, returners and a closer, pool sizes 1 and 2, incl. failing connection attempts",
"liveness over schedules cannot be sampled by a test",
[DP,CF],[("pool","%s: open, close, reclaim"%DP)],["threads blocked when nothing can run; sockets open at the end"])

p("C33","Nothing of the driver keeps running after the end",
"Once its connections are closed or returned and its pools closed or stopped, or after opening a connection or starting a pool has failed, no goroutine that the driver started stays alive, no socket stays open and nothing connects any more - whatever failed, died or was in progress at that moment, and whoever did what at the same time.",
["histories","schedules","fault_sequences"],"all histories, faults and interleavings of closing connections, plain and routed pools, and of failing to open or start them",
"tests end with the process; leaks show only in programs that run long",
[CONN,DP,RP],
[("refreshing","routing/pool.go: Start, Stop"),("pool","%s: Close"%DP)],["goroutines alive, sockets open and connection attempts long after the end"])

p("C40","Routing follows the current cluster roles",
"Write connections are opened only to servers that the latest successfully fetched cluster overview lists as leader (since version 4: of the system database), read connections only to followers or read replicas; after a refresh that demotes or drops a server no further connection to it is lent in the old role, and new servers are used for further connections. The roles are asked for periodically, also after a failed attempt. An overview that cannot be fetched or understood leaves the last known roles in force, never crashes the pool or widens the roles.",
["histories","inputs"],"all sequences up to a depth of cluster overviews (roles moved, servers added/removed, failures, malformed rows) interleaved with borrows and returns, for the row formats of all versions",
"routing tests need a live cluster and see a single overview",
[RP,RH],[("routing table","%s: refreshClusterInfo, parseRow*"%RH),("refresh","%s: refreshConnections, prune"%RP)],["address and role of each lent connection vs. the overview the model cluster served"])

p("C41","The routed pool is safe for concurrent use",
"Under every interleaving of read borrows, write borrows, returns, periodic refreshes and shutdown, the routed pool never lends one connection to two borrowers at once, never loses or duplicates one, never crashes or deadlocks, and is free of data races.",
["schedules"],"all interleavings up to a preemption bound of 2-3 goroutines plus the refresh goroutine",
"tests cannot control schedules; a single run rarely exposes a race",
[RP,"routing/queue.go","routing/util.go"],[("locking","%s: mutex"%RP)],["connections lent, panics, deadlocks, race detector"])

p("C42","Shutting down the routed pool releases everything",
"Stopping the routed pool closes all its idle connections, makes later borrows fail, and ends its periodic refresh: no new connection is opened after the stop has returned, except that a refresh already in progress may finish. Connections still lent out are closed when they are returned, after which no socket is left open; a failed start reports an error and leaves nothing open either. A stopped pool can be started again, a running one can not.",
["schedules","fault_sequences"],"stop at every point of a history and of a refresh cycle, start failing at any step",
"needs control over time, schedules and faults",
[RP,"driver_routing_pool.go"],[("stop","%s: Stop, Start, refreshHandler"%RP)],["sockets open, dial events after stop"])

p("C43","The routed pool keeps its capacity and hands over clean connections",
"Whatever failed in between - dead connections returned or found idle, transactions left open, servers replaced, refreshes failing, the pool stopped and started again - once servers of the role are reachable the routed pool again lends its configured number of working connections for that role, and a borrow fails only when capacity is exhausted or no server of that role is reachable. The configured number is half of the pool's size for each role, an odd one going to writing; no more are lent at once, and no more sockets are open than the pool's size, besides the one with which the pool asks for the roles. A borrower never receives a connection that is known dead, that the server had visibly ended before the borrow, that has unread messages of the server waiting, or that is still inside an earlier borrower's transaction, and dropped connections are closed. A connection returned in order, with nothing left open, to a running pool in whose last known roles its server still serves is kept for later borrows and not closed.",
["fault_sequences","histories"],"all histories up to a depth of borrow/return/kill/outage/refresh steps",
"needs fault injection over histories",
[RP],[("borrow/return","%s: internalBorrow, Reclaim, removeConn"%RP)],["number of connections that can be borrowed, sockets open, durable effects"])

p("C50","Wrapped errors keep their cause",
"For every chain of wrapped errors, of any length, the innermost cause is the original error value itself, each level's inner error is the one it was wrapped around, and the text contains the message of every level. This holds for errors created by the library and by others, and formatting arguments containing verbs are harmless.",
["inputs"],"all chains up to a depth over library errors, foreign errors and failure messages",
"no test wraps errors more than once",
["errors/errors.go"],[("wrapping","errors/errors.go: Wrap, InnerMost, Inner, Error")],["results of Inner, InnerMost and Error"])

p("C51","The driver prints nothing unless logging is enabled",
"With logging at its default, no operation writes anything to standard output or standard error, whatever values are sent or received and whatever goes wrong. With logging enabled at a level, only messages of that level or a more severe one are written, and only to that level's configured logger. What operations return, send and receive does not depend on the level.",
["inputs","histories"],"all operations and value kinds of the other checks with both streams captured; all levels x all log functions",
"no test captures the output streams",
["log/log.go",DEC2],[("levels","log/log.go")],["bytes written to stdout/stderr and to the loggers"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
