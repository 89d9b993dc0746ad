#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})

CODEC = ["messages/v1x/cpreq/json_encode.go", "messages/v1x/cpresp/json_encode.go", "messages/v1x/csreq/json_encode.go", "messages/v1x/csresp/json_encode.go"]
MSGS = ["messages/v1x/cpreq/messages.go", "messages/v1x/cpresp/messages.go", "messages/v1x/csreq/messages.go", "messages/v1x/csresp/messages.go"]

p("C01", "JSON messages carry each field under its OCPP 1.6 schema name",
  "For every OCPP 1.6 message type and nested type, and every value of it, the JSON the library writes uses only the property names of the published schema, each once and carrying the value of the field declared for that property, and the JSON it reads stores each such property into that same field. Date-time fields are written as RFC 3339 text, and no schema property is left without a field.",
  ["inputs"], "all messages types, all field values, both directions (encode and decode)",
  "No existing test encodes or decodes a JSON payload with fields; the only JSON messages exchanged in tests are the empty Heartbeat and GetConfiguration. There are about 500 field bindings in hand-maintained encoders and decoders.",
  CODEC + MSGS, [("MarshalJSON/UnmarshalJSON of each message", "messages/v1x/*/json_encode.go"), ("json struct tags", "messages/v1x/*/messages.go"), ("published schemas", "ws/json/*.json")],
  observe=["bytes produced by json.Marshal of a message", "struct after json.Unmarshal of a payload"])

p("C02", "Encoding a message gives one well-formed, complete JSON object or an error",
  "For every value of every message type, including values with unset optional fields, encoding it to JSON either returns an error or yields exactly one syntactically valid JSON object that contains every property the OCPP 1.6 schema requires; a property is left out only if it is optional and its field is unset. Encoding never panics.",
  ["inputs"], "all message values, in particular every combination of set and unset optional fields",
  "The encoders build JSON text by hand, so validity depends on which optional fields are set (2^n combinations per type); tests encode two types with no fields.",
  CODEC, [("hand-written encoders with comma bookkeeping", "messages/v1x/*/json_encode.go")], observe=["json.Marshal(message)"])

p("C03", "Decoding a JSON payload rejects missing, unknown and mistyped properties",
  "For every JSON payload, decoding it into a request or response succeeds only if every property required by the OCPP 1.6 schema of that message was present, no property outside the schema was present at the top level of the message, and every property was decoded into its field without error, from a value of the JSON type the schema gives it. In all other cases decoding returns an error and never reports success with partially filled fields.",
  ["inputs"], "all JSON payloads offered to any message type",
  "Tests never decode an invalid payload, and the set of payloads is unbounded.",
  CODEC, [("per-property received flags and default branch of the property switch", "messages/v1x/*/json_encode.go UnmarshalJSON")], observe=["error returned by json.Unmarshal into a message"])

p("C04", "Unset optional fields are not sent as values the schema forbids",
  "For every message whose optional fields are left unset, the encoded JSON leaves an optional property out rather than sending a value its OCPP 1.6 schema forbids, such as null for an array or object, or an empty string for an enumerated property.",
  ["inputs"], "all message values with unset optional fields",
  "No test validates an encoded message against its schema.",
  CODEC, [("omission of unset optional fields in the encoders", "messages/v1x/*/json_encode.go")], observe=["json.Marshal(message) compared with ws/json/*.json"])

p("C05", "Action names, request types and response types correspond one to one",
  "Every OCPP request type reports exactly the action name of its OCPP operation, a received action name is decoded as the request type that reports that name, and the response belonging to a request is the response type of the same operation and of the matching direction, in every place the library makes that choice. Every OCPP 1.6 operation except DataTransfer (which both sides may send) is recognised when received; an unrecognised action name yields no request at all. Each request and response object made this way is a new one that no other message shares.",
  ["inputs"], "all action names and all request types",
  "Tests exchange two of the 28 operations; a crossed or missing entry for any other one goes unnoticed.",
  ["messages/req/actions.go", "messages/res/actions.go"] + MSGS,
  [("action name table", "messages/req/actions.go FromActionName"), ("response table", "messages/res/actions.go FromActionName"), ("Action and GetResponse methods", "messages/v1x/*/messages.go")],
  observe=["dynamic type produced for an action name", "Action() and GetResponse() of each request"])

p("C06", "SOAP body elements and message types correspond one to one",
  "Each OCPP 1.5 request and response element defined by the central-system and charge-point service descriptions is decoded into a new value of the message type of that operation and direction, and each such message type is written under exactly that element name and namespace. A body element that is not an OCPP message or a Fault, or that cannot be decoded as its message, makes decoding fail.",
  ["inputs"], "all SOAP bodies; all OCPP 1.5 operations in both directions",
  "Tests decode two of about 50 body elements and encode none.",
  ["soap/marshal.go"] + MSGS, [("element switch", "soap/marshal.go UnmarshalXML"), ("XMLName tags", "messages/v1x/*/messages.go"), ("service descriptions", "soap/wsdl")],
  observe=["soap.Unmarshal", "xml.Marshal of a message"])

p("C07", "SOAP message fields use the element names the service description requires",
  "For every OCPP 1.5 message type, each field of the message is written to and read from XML under the element or attribute name the OCPP 1.5 service description gives it, and every element of the description has a field. An element the description requires is written also when its value is zero, unless its field is a pointer that is not set, and no field is silently renamed or dropped by a malformed declaration.",
  ["inputs"], "all values of all OCPP 1.5 messages",
  "Tests decode two messages and check a handful of fields; nothing is encoded.",
  MSGS, [("xml struct tags", "messages/v1x/*/messages.go"), ("service descriptions", "soap/wsdl")], observe=["xml.Marshal / soap.Unmarshal of a message"])

p("C08", "No bytes received from a peer can crash the process",
  "Whatever text frame arrives on a WebSocket connection and whatever HTTP body or SOAP envelope arrives as a request or as a reply, handling it ends in a message, a reply or an error. It never indexes past the end of what was received, dereferences something that was absent, asserts a type that was not checked, or calls panic.",
  ["inputs"], "all received frames, envelopes and payloads, on both sides",
  "The input space is unbounded; the one malformed frame in the tests is not valid JSON and fails before any of the interesting code.",
  ["ws/conn.go", "ws/message.go", "soap/server.go", "soap/client.go", "soap/marshal.go", "messages/req/actions.go"],
  [("length and type checks on decoded frames", "ws/conn.go UnmarshalMessage"), ("nil checks on envelope parts", "soap/server.go Handle, soap/client.go Call"), ("unknown actions", "ws/conn.go callToRequest, callResultToResponse")],
  observe=["process survival for any frame sent to ReadMessage, Handle or Call"])

p("C09", "Every received CALL is answered exactly once, with its own message id",
  "For every well-formed CALL frame received on a connection that stays open, the library sends exactly one CALLRESULT or CALLERROR and it carries the message id of that CALL: also when the action is unknown, the payload is invalid, the action belongs to the other direction, the handler fails, or the response of the handler is missing or cannot be encoded.",
  ["inputs", "histories", "fault_sequences"], "all CALL frames, all handler outcomes, both sides",
  "Tests only send supported requests whose handlers succeed with encodable responses.",
  ["ws/conn.go", "ws/message.go", "cs/cs.go", "cp/json.go"],
  [("CALLERROR on undecodable calls", "ws/conn.go ReadMessage"), ("request loops", "cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection"), ("SendResponse", "ws/conn.go")],
  observe=["frames written on the connection after a CALL"])

p("C10", "A reply is delivered to exactly the request that carries its message id",
  "Each outgoing request gets a fresh unique message id, is registered as waiting under that id before it is written, and returns only a reply carrying that id, decoded as the response of that request's operation. A reply whose id belongs to no waiting request is discarded without affecting any other request.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent requests and replies, all reply ids",
  "Tests have at most one outstanding request per connection.",
  ["ws/conn.go"], [("pending-call tables", "ws/conn.go sentMessages, responsesOf"), ("uuid message ids", "ws/conn.go SendRequest"), ("lookup by id", "ws/conn.go ReadMessage, callResultToResponse")],
  state=[("sentMessages/responsesOf", "outgoing calls waiting for a reply, by message id", "ws/conn.go Conn")],
  observe=["return value of Send for concurrent requests"])

p("C11", "Sending a request always ends, and leaves nothing behind",
  "Every send of a request over WebSocket returns: with the peer's response, with the peer's error, or with an error when the request cannot be encoded or written, when the connection is closed while waiting, or when the request timeout passes. Whichever way it ends, nothing about that request stays registered on the connection.",
  ["schedules", "fault_sequences"], "all ways a request can end: reply, error reply, write failure, close, timeout",
  "The timeout is a minute and no test lets a request fail after it was sent, so neither the failing exits nor their cleanup are ever executed.",
  ["ws/conn.go", "internal/request_timeout.go"], [("select with timeout in SendRequest", "ws/conn.go"), ("removal from the pending tables", "ws/conn.go SendRequest")],
  state=[("sentMessages/responsesOf", "outgoing calls waiting for a reply", "ws/conn.go Conn")], observe=["Send returning", "size of the pending tables after Send returned"])

p("C12", "Receiving never gets stuck, whatever replies arrive or whoever stopped listening",
  "A late, duplicate or unexpected reply never blocks the reading of later messages, and handing a received request or a read result to its consumer never waits for a consumer that can no longer come because the connection was closed or the consumer moved on. Handling a message therefore never leaves a goroutine blocked for ever, and a message that cannot be understood ends neither the connection nor the session, and while a session waits for requests its connection is being read.",
  ["schedules", "histories"], "all orders of replies, timeouts, duplicates and connection closes",
  "Needs a reply that arrives after its request timed out, a duplicated reply, or a close at one particular moment; tests produce none of them and do not count goroutines.",
  ["ws/conn.go", "cp/json.go", "cs/cs.go"], [("delivery of replies to waiting requests", "ws/conn.go ReadMessage"), ("delivery of requests", "ws/conn.go ReadMessage"), ("asynchronous reads", "ws/conn.go ReadMessageAsync")],
  observe=["progress of ReadMessage", "number of goroutines"])

p("C13", "Frames written to one connection never interleave",
  "For every interleaving of concurrent sends and replies on a connection, the library performs at most one write on the underlying WebSocket at a time, and each OCPP message is written as one whole text frame.",
  ["schedules"], "all interleavings of SendRequest, SendResponse, error replies and WriteJSON on one connection",
  "Data races on the writer need simultaneous sends; tests send one message at a time.",
  ["ws/conn.go"], [("send mutex", "ws/conn.go sendMessage, WriteJSON")], state=[("sendMux", "held around every write", "ws/conn.go Conn")],
  observe=["gorilla/websocket write calls"])

p("C14", "State shared between goroutines is only touched under its lock",
  "Every piece of mutable state that the central system, the charge point or a connection shares between goroutines (connection registries, listeners, pending requests, the current connection, package variables) is read and written only while the lock that protects it is held, so no interleaving of connects, disconnects, sends, replies and API calls is a data race or a concurrent map access.",
  ["schedules"], "all interleavings of the API calls, connection handlers and readers",
  "Races show up only under particular interleavings; the existing test suite itself notes an unresolved race and is run on one CPU because of it.",
  ["cs/cs.go", "ws/conn.go", "cp/cp.go", "cp/json.go"], [("connMux", "cs/cs.go"), ("mutexes of Conn", "ws/conn.go"), ("mutex of chargePoint", "cp/cp.go")],
  state=[("conns, connChans, connsConnected, connsCount, listeners", "central system registry", "cs/cs.go"), ("sentMessages, responsesOf", "pending calls", "ws/conn.go"), ("conn, connectedChan, CentralSystem", "current connection of a charge point", "cp/cp.go")],
  observe=["memory accesses"])

p("C15", "Locks are always released and never held across something that can wait",
  "Every path that takes a lock releases it exactly once before it ends, no path takes a lock it already holds, and locks are never taken in opposite orders. While a lock on shared state is held the library does not call a handler or listener, do network input, or wait on a channel, nor write to a peer under a lock that taking in a reply needs, so a slow handler, listener or peer cannot freeze other connections or the replies on its own.",
  ["schedules", "fault_sequences"], "all paths through the code that takes a lock, including error exits",
  "A missed release or a wait under a lock only hangs on the particular error path or interleaving.",
  ["cs/cs.go", "ws/conn.go", "cp/cp.go", "cp/json.go"], [("Lock/Unlock pairs", "cs/cs.go, ws/conn.go, cp/*.go")], observe=["lock and unlock calls on every path"])

p("C16", "Each charge point session is announced once, ended once and always cleaned up",
  "For every WebSocket session the central system accepts, it registers the connection before announcing it, announces the connect exactly once with the charge point's identity, and whichever way the session ends it closes the socket, removes the session from its records and announces the disconnect exactly once, in that order. A connection attempt that fails its handshake is neither registered nor announced.",
  ["histories", "fault_sequences"], "all ways a session can start and end",
  "Tests end sessions in one way (client closes the socket) and cannot observe missing cleanup.",
  ["cs/cs.go"], [("handleWebsocket registration and deferred cleanup", "cs/cs.go")], state=[("conns, connsCount", "open sessions by identity", "cs/cs.go")],
  observe=["listener invocations", "GetServiceOf", "socket state"])

p("C17", "A charge point with an open connection stays reachable through an open one",
  "When a charge point opens a new connection before its previous one has ended, requests to it go over the newest one, the end of any one of its connections never makes it unreachable while another is still open, and after its last connection has ended it is no longer reachable. The registry never keeps handing out a connection that has been closed and cleaned up.",
  ["histories"], "all sequences of connects and disconnects under one identity",
  "One test tries one order (older connection ends first); the other orders and longer histories are not tried.",
  ["cs/cs.go"], [("connection counting in handleWebsocket", "cs/cs.go")], state=[("conns, connsCount", "newest connection and number of open ones", "cs/cs.go")],
  observe=["GetServiceOf after each history"])

p("C18", "Connect and disconnect waiters are woken exactly when they should be",
  "A channel obtained to wait for a charge point's connect becomes readable if and only if that charge point is or becomes connected, and one obtained after the loss of its connection was noticed stays unreadable until it connects again; a channel obtained to wait for its disconnect becomes readable when that connection closes, or at once if there is none. No sequence of connects, disconnects and reconnects, on either side, closes a channel twice or leaves a waiter of an established connection asleep.",
  ["histories", "schedules"], "all sequences of connects, disconnects, double connects and waits, on both sides",
  "Tests walk a few sequences; closing twice or forgetting to re-arm shows only in others.",
  ["cs/cs.go", "cp/json.go", "cp/cp.go", "ws/conn.go"], [("connChans/connsConnected", "cs/cs.go"), ("connectedChan", "cp/json.go"), ("context of the connection", "ws/conn.go Close, WaitClose")],
  state=[("connChans", "closed while connected", "cs/cs.go"), ("connectedChan", "closed while connected", "cp/cp.go")], observe=["WaitConnect, WaitDisconnect channels"])

p("C19", "The handler gets the peer's request and its outcome is what the peer receives",
  "On every transport the user's handler is called once per received request of its own direction, with that request, with the identity of the charge point that sent it and, on the central system, with the HTTP request it came in on; requests of the other direction never reach it. What it returns is what is sent back: its error if it returned one, otherwise its response.",
  ["inputs", "histories"], "all requests, both transports, both sides, all handler outcomes",
  "Tests use two request types over one transport and do not check the metadata.",
  ["cs/cs.go", "cp/json.go", "cp/soap.go", "soap/server.go", "ws/conn.go", "ws/message.go"],
  [("handler dispatch", "cs/cs.go handleWebsocket, handleSoap; cp/json.go; cp/soap.go"), ("response construction", "ws/message.go unmarshalResponse; soap/marshal.go Marshal")],
  observe=["handler arguments", "frames or envelopes sent back"])

p("C20", "Services and charge points are built for the requested version, or refused",
  "Asking the central system for a charge point's service yields a SOAP service for that URL and identity under OCPP 1.5, a service over that charge point's registered connection under OCPP 1.6, and otherwise an error; exactly one of service and error is returned. Creating a charge point likewise yields a charge point connected with the given identity, URL and version over the requested transport, or an error, never one that cannot send; over SOAP it and the central system listen on the given port.",
  ["configurations"], "all combinations of version, transport, identity, URL and connection state",
  "Tests use one version and one transport and only the error of an unknown charge point.",
  ["cs/cs.go", "cp/cp.go", "cp/json.go", "ws/conn.go"], [("GetServiceOf", "cs/cs.go"), ("New", "cp/cp.go"), ("Dial", "ws/conn.go")], observe=["results of GetServiceOf and New"])

p("C21", "A charge point that loses its connection reconnects as the same charge point",
  "Whenever the connection of a JSON charge point is lost and it was not cancelled, it dials the same central system again with the same identity and protocol version, waiting between failed attempts, until it succeeds; from then on sending, receiving and waiting all use the new connection and connect waiters are woken.",
  ["histories", "fault_sequences"], "all sequences of connection losses and failed or successful redials",
  "Tests reconnect against a server that is always up; failed attempts never happen.",
  ["cp/json.go", "cp/cp.go"], [("handleWebsocketConnection retry loop", "cp/json.go"), ("getNewWebsocketConnection", "cp/json.go")], state=[("conn, CentralSystem, connectedChan", "current connection", "cp/cp.go")],
  observe=["dials made after a loss", "Send and WaitDisconnect after reconnect"])

p("C22", "Cancelling a charge point's context stops it completely, at any moment",
  "Once the context of a charge point is cancelled, in whatever state it is, including while it is waiting to reconnect, it closes its WebSocket connection or stops its SOAP server, its background goroutines make no further connection attempts, and they end.",
  ["schedules", "fault_sequences"], "cancellation at every point of the life of a charge point, on both transports",
  "Tests cancel only while connected, only over WebSocket, and do not look at goroutines or listeners.",
  ["cp/json.go", "cp/soap.go", "cp/cp.go"], [("select on ctx.Done", "cp/json.go handleWebsocketConnection, cp/soap.go handleSoap")], observe=["open sockets and goroutines after cancel"])

p("C23", "Every SOAP request gets one envelope: the response, or a Fault with the error",
  "For every HTTP request handled as SOAP, the server writes exactly one envelope whose body holds the handler's response if there was no error and otherwise a Fault carrying the error text in the place the library's own client reads it from, never both and never neither; this includes requests that cannot be decoded. The request handled is the one the whole body of the HTTP request holds, and the response headers describe the bytes actually sent.",
  ["inputs", "fault_sequences"], "all request bodies and all handler outcomes",
  "No test runs the SOAP server.",
  ["soap/server.go", "soap/marshal.go", "soap/models.go"], [("Handle", "soap/server.go"), ("Marshal", "soap/marshal.go"), ("fault models", "soap/models.go")], observe=["HTTP response of the SOAP endpoint"])

p("C24", "A SOAP call is addressed correctly, bounded, and yields the reply or an error",
  "Every SOAP call posts one envelope to the configured URL, holding the request, its action, the URL, a fresh message id and the configured charge point identity and sender address, and gives up after a bounded time. It returns success only if the reply was a response of the expected type, which it then hands to the caller in an object no other call uses; transport failures, undecodable replies, Faults, empty replies and replies of another type are all errors, a response of the expected type is not, and the connection's resources are released on every exit. All of this holds for the first call of a client and for later ones, whatever came of the earlier calls.",
  ["inputs", "fault_sequences"], "all requests, configurations and replies",
  "No test performs a SOAP call.",
  ["soap/client.go", "internal/service/soap.go", "cs/cs.go", "cp/cp.go"], [("Call", "soap/client.go"), ("SOAP service", "internal/service/soap.go")], observe=["HTTP request sent", "result of Send"])

p("C25", "A typed send returns a response of the right direction or an error",
  "On every transport and on both sides, a typed send of a request returns either a response of the direction that answers such requests together with no error, or no response together with an error that says what went wrong. It never returns neither and never returns both.",
  ["inputs"], "all requests and all replies, four service kinds",
  "Tests use one service kind and the success path.",
  ["internal/service/cp.go", "internal/service/cs.go", "internal/service/json.go", "internal/service/soap.go", "ws/conn.go"],
  [("type assertions in Send", "internal/service/cp.go, cs.go"), ("result of SendRequest", "ws/conn.go")], observe=["results of Send"])

p("C26", "OCPP-J frames are written and read with the same layout and message type ids",
  "CALL, CALLRESULT and CALLERROR frames are written as JSON arrays with the type ids 2, 3 and 4 and the element order of OCPP-J 1.6, and frames with these type ids are read from those same positions into the same parts; a frame with any other type id or a part of the wrong kind is rejected. An undecodable call is answered NotSupported when its action is unknown and FormationViolation when its payload is invalid, and a failing handler's error text is sent as InternalError; the error codes are those OCPP-J 1.6 names.",
  ["inputs"], "all frames of the three kinds, written and read",
  "Tests only pass frames between the two halves of this library, so a change made consistently on both sides is invisible to them.",
  ["ws/conn.go", "ws/message.go"], [("MarshalJSON of the three messages", "ws/message.go"), ("UnmarshalMessage", "ws/conn.go"), ("error codes", "ws/conn.go callToRequest")], observe=["bytes on the wire"])

p("C27", "Log output shows errors verbatim and logging never disturbs the library",
  "Text that comes from a peer, a handler or an error is only ever passed to a logger as data, never as a format, so it appears verbatim in the log; without a configured logger the library logs nothing and does not fail, with one each line goes to the logger of its kind.",
  ["inputs"], "all logged texts, including ones containing formatting directives",
  "Tests do not install a logger.",
  ["internal/log/log.go", "cs/cs.go", "cp/json.go", "soap/server.go"], [("Debug and Error", "internal/log/log.go")], observe=["lines passed to Logger.Printf"])

p("C28", "Both sides of a WebSocket connection name the OCPP version they speak",
  "A charge point dialling the central system offers exactly the WebSocket subprotocol of its configured OCPP version (ocpp1.5 or ocpp1.6) and dials the central system's URL followed by its identity; the central system answers with the subprotocol of a version it supports, which is OCPP 1.6, and takes the charge point's identity from the requested path.",
  ["configurations", "inputs"], "all versions, identities and URLs",
  "Tests connect the library's client to the library's server, where a wrong name on both sides still connects.",
  ["ws/conn.go", "cs/cs.go", "cp/json.go"], [("ocppVersionToProtocol", "ws/conn.go"), ("Dial and Handshake", "ws/conn.go"), ("identity from path", "cs/cs.go handleWebsocket")], observe=["upgrade request and response headers", "ChargePointID seen by handlers and listeners"])

p("C29", "Requests of one connection are handled one at a time, in the order received",
  "On each WebSocket connection at most one reader is active, received requests are handed over in the order they were read, and the user's handler for a request has returned and its reply has been sent before the handler is called for the next one. Different connections do not wait for each other.",
  ["schedules", "histories"], "all sequences of requests on any number of connections",
  "Tests send single requests; reordering or overlap needs bursts and slow handlers.",
  ["cs/cs.go", "cp/json.go", "ws/conn.go"], [("request loop", "cs/cs.go handleWebsocket, cp/json.go"), ("unbuffered hand-over", "ws/conn.go ReadMessage")], observe=["handler invocations"])

p("C30", "Numbers keep their exact value from sender to handler",
  "Every number in a request or response, of whatever magnitude, that the sender's field can hold reaches the other side's handler or caller with exactly that value, over JSON and over SOAP; on the way through generic JSON values, encoders and decoders it is never rounded, narrowed or cut off.",
  ["inputs"], "all values of the about 50 numeric fields of all messages, both directions",
  "Tests send no numeric fields, and the values that get lost (integers above 2^53, fractions) are not the ones a test samples.",
  CODEC + ["ws/conn.go", "ws/message.go"], [("payloads pass through a generic JSON map", "ws/message.go UnmarshalRequest, ws/conn.go UnmarshalMessage, callToRequest, callResultToResponse"), ("numeric fields of the encoders and decoders", "messages/v1x/*/json_encode.go")], observe=["field values seen by handlers"])

# --- properties this family cannot decide here ---
p("C31", "A charge point is connected again within seconds of the central system's return",
  "Whenever the central system becomes reachable again, a JSON charge point is connected to it within about one retry interval, regardless of how long it was away.",
  ["schedules", "fault_sequences"], "all outage lengths and timings",
  "Tests never take the central system down.",
  ["cp/json.go"], [("retry interval", "cp/json.go")], observe=["time from listening to connect announcement"])
p("C32", "No accepted request is lost across a reconnect",
  "A request that one side has sent and the other side has read is either answered or reported as failed to its sender, across any number of connection losses and at any crash point.",
  ["crash_points", "histories"], "all points at which a connection or process can fail",
  "Needs failures at particular points.",
  ["ws/conn.go", "cs/cs.go", "cp/json.go"], [("per-connection request channels", "ws/conn.go")], observe=["requests seen by handlers versus results of Send"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
