From 5e0aad16a1dec67e434069b48b4799e89bc02be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/31] fix: reject short frames and unknown message types
 instead of panicking

UnmarshalMessage indexed the decoded frame without checking its length and
returned a nil message without an error for an unknown message type, which
ReadMessage then dereferenced.
---
 ws/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..ea48afc 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -119,6 +119,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 3 {
+		return nil, errors.New("message has too few fields")
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -135,6 +138,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 			return nil, fmt.Errorf("third field is not action: %w", err)
 		}
 		action := Action(actionStr)
+		if len(frame) < 4 {
+			return nil, errors.New("call message has too few fields")
+		}
 		payload, ok := frame[3].(map[string]interface{})
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not payload: %w", err)
@@ -151,6 +157,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
 		}
+		if len(frame) < 5 {
+			return nil, errors.New("call error message has too few fields")
+		}
 		description, ok := frame[3].(string)
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not error description: %w", err)
@@ -161,7 +170,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From 8e93155f529f0a9d4e6e2a7c200a76ebbc676aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 02/31] fix: deliver each reply once, without races and without
 blocking the reader

The tables of pending calls were written by SendRequest and read by
ReadMessage without synchronisation, entries stayed in them when the send
failed or timed out, and a late or duplicate reply then blocked ReadMessage
for ever on a channel nobody receives from.
---
 ws/conn.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index ea48afc..91b957e 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	cancelCtx context.CancelFunc
 	*websocket.Conn
 	sendMux      sync.Mutex
+	callsMux     sync.Mutex // protects sentMessages and responsesOf
 	sentMessages map[MessageID]*CallMessage
 	requests     chan struct {
 		messages.Request
@@ -196,8 +197,11 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
+	var call *CallMessage
+	var responseCh chan CallResponse
 	if msg.Type() == CallResult || msg.Type() == CallError {
-		_, ok := c.sentMessages[msg.ID()]
+		var ok bool
+		call, responseCh, ok = c.takeCall(msg.ID())
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -218,13 +222,13 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		resp, wserr = c.callResultToResponse(call, m)
+		responseCh <- CallResponse{
 			response: resp,
 			err:      wserr,
 		}
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		responseCh <- CallResponse{
 			response: nil,
 			err:      m,
 		}
@@ -248,12 +252,19 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
-	id := result.ID()
+// takeCall ends the wait for the answer to a sent call: only the
+// first answer finds the call, and it has a place in the channel
+func (c *Conn) takeCall(id MessageID) (*CallMessage, chan CallResponse, bool) {
+	c.callsMux.Lock()
+	defer c.callsMux.Unlock()
 	call, ok := c.sentMessages[id]
-	if !ok {
-		return nil, GenericError
-	}
+	responseCh := c.responsesOf[id]
+	delete(c.sentMessages, id)
+	delete(c.responsesOf, id)
+	return call, responseCh, ok
+}
+
+func (c *Conn) callResultToResponse(call *CallMessage, result *CallResultMessage) (messages.Response, ErrorCode) {
 	if call == nil {
 		return nil, NotSupported
 	}
@@ -301,16 +312,18 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	responseCh := make(chan CallResponse, 1)
+	c.callsMux.Lock()
 	c.sentMessages[id] = msg
-	c.responsesOf[id] = make(chan CallResponse)
+	c.responsesOf[id] = responseCh
+	c.callsMux.Unlock()
+	defer c.takeCall(id)
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-responseCh:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
-- 
2.43.0


From b17919a5b02160f48709d57556cae6f433bc97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 03/31] fix: decode a reply as the response of the request that
 was sent

callResultToResponse looked the action up by name, which finds nothing for
DataTransfer, and called GetResponse on the nil result: the reply to any
DataTransfer crashed the process.
---
 ws/conn.go    | 5 +++--
 ws/message.go | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 91b957e..0652028 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -146,7 +146,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		if !ok {
 			return nil, fmt.Errorf("fourth field is not payload: %w", err)
 		}
-		return &CallMessage{id, action, payload}, nil
+		return NewCallMessage(id, action, payload), nil
 	case CallResult:
 		payload, ok := frame[2].(map[string]interface{})
 		if !ok {
@@ -268,7 +268,7 @@ func (c *Conn) callResultToResponse(call *CallMessage, result *CallResultMessage
 	if call == nil {
 		return nil, NotSupported
 	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+	resp := call.request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -312,6 +312,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	msg.request = request
 	responseCh := make(chan CallResponse, 1)
 	c.callsMux.Lock()
 	c.sentMessages[id] = msg
diff --git a/ws/message.go b/ws/message.go
index 05f53d2..d35acf9 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -26,6 +26,9 @@ type CallMessage struct {
 	id MessageID
 	Action
 	Payload map[string]interface{}
+
+	// request the message was made from, on the sending side
+	request messages.Request
 }
 
 func NewCallMessage(id MessageID, action Action, payload map[string]interface{}) *CallMessage {
-- 
2.43.0


From 57ec1aa7febf638d839c6a2472609c759db518ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 04/31] fix: let the reading goroutine end when its result is
 not received

When a request is handed over, the loops receive the request instead of the
read's result, and the goroutine stayed blocked sending it: one goroutine
leaked for every request handled.
---
 ws/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 0652028..e7d9985 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -175,7 +175,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
-- 
2.43.0


From b59915c367601de0a135582e4b98a96e236ecba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/31] fix: stop handing over a received request when the
 connection is closed

After the connection was closed nobody receives from the requests channel
any more, and ReadMessage stayed blocked sending to it.
---
 ws/conn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index e7d9985..2034ba3 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -216,10 +216,13 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.WaitClose():
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(call, m)
-- 
2.43.0


From 17ef7db5b5d020a14c4519719472744813e2130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 06/31] fix: end a request with an error when its connection is
 closed

Send kept waiting for the whole request timeout although no reply could come.
---
 ws/conn.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 2034ba3..c3822c3 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -326,13 +326,21 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
+	var callResponse CallResponse
 	select {
-	case callResponse := <-responseCh:
-		if callResponse.err != Nil {
-			return nil, callResponse.err
+	case callResponse = <-responseCh:
+	case <-c.WaitClose():
+		select {
+		case callResponse = <-responseCh:
+			// it arrived before the connection was closed
+		default:
+			return nil, errors.New("connection closed while waiting for the response")
 		}
-		return callResponse.response, nil
 	case <-time.After(internal.DefaultRequestTimeout):
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
+	if callResponse.err != Nil {
+		return nil, callResponse.err
+	}
+	return callResponse.response, nil
 }
-- 
2.43.0


From 1c0b438336b48f7924467f412a08cb10c3776e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 07/31] fix: answer a request whose response is missing or
 cannot be encoded

When the handler's response could not be marshalled nothing was sent, and
when there was none a null payload was sent, which the peer rejects: its
request then waited for the whole timeout.
---
 ws/conn.go    | 9 ++++++++-
 ws/message.go | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index c3822c3..ea15361 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -283,8 +283,15 @@ func (c *Conn) callResultToResponse(call *CallMessage, result *CallResultMessage
 	return resp, Nil
 }
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
-	return c.sendMessage(unmarshalResponse(id, response, err))
+	msg := unmarshalResponse(id, response, err)
+	if _, err := json.Marshal(msg); err != nil {
+		// the peer gets an answer also when the response can't be sent
+		log.Error("on marshalling response: %w", err)
+		msg = NewCallErrorMessage(id, InternalError, err.Error())
+	}
+	return c.sendMessage(msg)
 }
+
 func (c *Conn) sendMessage(msg Message) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
diff --git a/ws/message.go b/ws/message.go
index d35acf9..aeb3db7 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -138,6 +138,9 @@ func unmarshalResponse(id MessageID, resp messages.Response, err error) Message
 	if err != nil {
 		return NewCallErrorMessage(id, InternalError, err.Error())
 	}
+	if resp == nil {
+		return NewCallErrorMessage(id, InternalError, "no response to the request")
+	}
 	return NewCallResult(id, resp)
 }
 
-- 
2.43.0


From b812059e7bca87ab4cc38cd3c238d171430e3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 08/31] fix: bound the time a send waits for a peer that
 stopped reading

Without a write deadline the write blocks for ever, and with it every other
sender on the connection and the loop that reads from it.
---
 ws/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index ea15361..23de851 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -96,6 +96,7 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 func (c *Conn) WriteJSON(data interface{}) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
+	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
 	return c.Conn.WriteJSON(data)
 }
 
@@ -301,6 +302,7 @@ func (c *Conn) sendMessage(msg Message) error {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
 	log.Debug("Sending message [raw]: %v", string(bts))
+	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
 		return fmt.Errorf("on sending message: %w", err)
-- 
2.43.0


From 3bb56957543d7e599e353d6d37a0dd41659810ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 09/31] fix: refuse requests of the other direction instead of
 ignoring them

The central system left them unanswered, the charge point passed a nil
request to its handler.
---
 cp/json.go | 5 +++++
 cs/cs.go   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..ad4515e 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -55,6 +55,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..134280a 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -142,6 +142,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
-- 
2.43.0


From 3da0f6663662cf360ef9b56aec0d163156a75be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 10/31] fix: read the central system's connections and
 listeners under the lock

Logging the map of connections and counting it for the status page iterated
over it while other connections modified it, which ends the process with
"concurrent map iteration and map write"; the listeners were read while the
setters replaced them.
---
 cs/cs.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 134280a..8a4be82 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -80,7 +80,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				csys.connectedStations(),
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +93,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-	log.Debug("Current WS connections map: %v", csys.conns)
+	log.Debug("Current number of WS connections: %d", csys.connectedStations())
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
@@ -115,16 +115,17 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		close(csys.connChans[cpID])
 	}
 	csys.connsConnected[cpID] = true
+	connListener := csys.connListener
 	csys.connMux.Unlock()
 
 	log.Debug("Connected with %s", cpID)
-	go csys.connListener(cpID)
+	go connListener(cpID)
 
 	defer func() {
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
-		go csys.disconnListener(cpID)
 		csys.connMux.Lock()
+		go csys.disconnListener(cpID)
 		csys.connsCount[cpID]--
 		// if the same CP connected more times before we do the
 		// connection cleanup, don't remove the connection reference
@@ -169,6 +170,12 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	}
 }
 
+func (csys *centralSystem) connectedStations() int {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	return len(csys.conns)
+}
+
 func (csys *centralSystem) handleSoap(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
 	log.Debug("New SOAP request")
 	err := soap.Handle(w, r, func(request messages.Request, cpID string) (messages.Response, error) {
@@ -207,10 +214,14 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 }
 
 func (csys *centralSystem) SetChargePointConnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.connListener = f
 }
 
 func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.disconnListener = f
 }
 
-- 
2.43.0


From 032ac32dc586d9751d8ce735397d9dae8f04fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 11/31] fix: announce a disconnect after the connection was
 unregistered

The listener could run before the cleanup, and find the charge point it was
told about still registered with its closed connection.
---
 cs/cs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cs/cs.go b/cs/cs.go
index 8a4be82..ceb72a0 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -125,7 +125,6 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
 		csys.connMux.Lock()
-		go csys.disconnListener(cpID)
 		csys.connsCount[cpID]--
 		// if the same CP connected more times before we do the
 		// connection cleanup, don't remove the connection reference
@@ -134,7 +133,9 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			csys.connChans[cpID] = make(chan struct{})
 			csys.connsConnected[cpID] = false
 		}
+		disconnListener := csys.disconnListener
 		csys.connMux.Unlock()
+		go disconnListener(cpID)
 	}()
 
 	for {
-- 
2.43.0


From c1de7990bc19c8d45d2a43da164089c81ccdce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 12/31] fix: keep a charge point reachable while any of its
 connections is open

When the newest of several connections of a charge point ended first, the
closed connection stayed registered until the last one ended: requests to
the charge point failed although an older connection was still open.
---
 cs/cs.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index ceb72a0..74e263b 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -49,9 +49,10 @@ type CentralSystem interface {
 type centralSystem struct {
 	conns map[string]*ws.Conn
 	// used to symbolize if the connection is connected
-	connChans       map[string]chan struct{}
-	connsConnected  map[string]bool
-	connsCount      map[string]int
+	connChans      map[string]chan struct{}
+	connsConnected map[string]bool
+	// all the open connections of each CP, oldest first
+	openConns       map[string][]*ws.Conn
 	connMux         sync.Mutex
 	connListener    ChargePointConnectionListener
 	disconnListener ChargePointConnectionListener
@@ -61,7 +62,7 @@ func New() CentralSystem {
 	return &centralSystem{
 		conns:           make(map[string]*ws.Conn, 0),
 		connChans:       make(map[string]chan struct{}, 0),
-		connsCount:      make(map[string]int, 0),
+		openConns:       make(map[string][]*ws.Conn, 0),
 		connsConnected:  make(map[string]bool, 0),
 		connListener:    func(cpID string) {},
 		disconnListener: func(cpID string) {},
@@ -107,7 +108,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 
 	csys.connMux.Lock()
 	csys.conns[cpID] = conn
-	csys.connsCount[cpID]++
+	csys.openConns[cpID] = append(csys.openConns[cpID], conn)
 	if csys.connChans[cpID] == nil {
 		csys.connChans[cpID] = make(chan struct{})
 	}
@@ -125,10 +126,19 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
 		csys.connMux.Lock()
-		csys.connsCount[cpID]--
+		var stillOpen []*ws.Conn
+		for _, other := range csys.openConns[cpID] {
+			if other != conn {
+				stillOpen = append(stillOpen, other)
+			}
+		}
 		// if the same CP connected more times before we do the
-		// connection cleanup, don't remove the connection reference
-		if csys.connsCount[cpID] == 0 {
+		// connection cleanup, refer to its newest open connection
+		if len(stillOpen) > 0 {
+			csys.openConns[cpID] = stillOpen
+			csys.conns[cpID] = stillOpen[len(stillOpen)-1]
+		} else {
+			delete(csys.openConns, cpID)
 			delete(csys.conns, cpID)
 			csys.connChans[cpID] = make(chan struct{})
 			csys.connsConnected[cpID] = false
-- 
2.43.0


From 650a581f356d15851bebdd38be4e921ef269ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 13/31] fix: log error texts as data, not as format strings

An error text from a peer or handler that contains a formatting directive
was garbled in the log.
---
 cp/json.go          | 6 +++---
 cs/cs.go            | 6 +++---
 internal/log/log.go | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index ad4515e..64b2dfd 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -54,17 +54,17 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 		case req := <-cp.conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
-				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				log.Error("%s", csreq.ErrorNotCentralSystemRequest.Error())
 				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%s", err.Error())
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%s", err.Error())
 			}
 		}
 	}
diff --git a/cs/cs.go b/cs/cs.go
index 74e263b..4d621db 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -153,10 +153,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
-				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				log.Error("%s", cpreq.ErrorNotChargePointRequest.Error())
 				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%s", err.Error())
 				}
 				continue
 			}
@@ -166,7 +166,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			})
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%s", err.Error())
 			}
 		case <-conn.WaitClose():
 			return
diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..9125b4f 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -19,5 +19,5 @@ func Debug(format string, v ...interface{}) {
 	debugLog.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	errorLog.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
-- 
2.43.0


From d95e2bbd086698dc807d3d8367702f02b73658f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 14/31] fix: synchronise access to a charge point's current
 connection

The connection, its service and the connect channel were replaced by the
reconnecting goroutine while Send, Connection, WaitConnect and
WaitDisconnect read them.
---
 cp/cp.go   | 18 ++++++++++++++++--
 cp/json.go | 23 ++++++++++++++++-------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..03e918e 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,9 +4,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/voltbras/go-ocpp"
 	"github.com/voltbras/go-ocpp/internal/service"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 	"github.com/voltbras/go-ocpp/soap"
@@ -32,9 +35,12 @@ type chargePoint struct {
 	centralSystemURL string
 	version          ocpp.Version
 	transport        ocpp.Transport
-	conn             *ws.Conn
 	ctx              context.Context
-	connectedChan    chan struct{}
+	// connMux protects the current connection: conn, connectedChan
+	// and the service that sends over it
+	connMux       sync.Mutex
+	conn          *ws.Conn
+	connectedChan chan struct{}
 }
 
 // Run the charge point on the given port
@@ -68,3 +74,11 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 func (cp *chargePoint) Identity() string {
 	return cp.identity
 }
+
+// Send the request to the central system, over the current connection
+func (cp *chargePoint) Send(req cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
+	cp.connMux.Lock()
+	centralSystem := cp.CentralSystem
+	cp.connMux.Unlock()
+	return centralSystem.Send(req)
+}
diff --git a/cp/json.go b/cp/json.go
index 64b2dfd..8d0594f 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -14,6 +14,8 @@ const (
 )
 
 func (cp *chargePoint) Connection() *ws.Conn {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.conn
 }
 
@@ -23,6 +25,8 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 	if err != nil {
 		return err
 	}
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
@@ -32,13 +36,16 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
 	for {
+		conn := cp.Connection()
 		select {
 		case <-cp.ctx.Done():
-			cp.conn.Close()
+			conn.Close()
 			return
-		case <-cp.conn.WaitClose():
+		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
+			cp.connMux.Lock()
 			cp.connectedChan = make(chan struct{})
+			cp.connMux.Unlock()
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
@@ -49,20 +56,20 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 					break
 				}
 			}
-		case <-cp.conn.ReadMessageAsync():
+		case <-conn.ReadMessageAsync():
 			continue
-		case req := <-cp.conn.Requests():
+		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error("%s", csreq.ErrorNotCentralSystemRequest.Error())
-				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				err := conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
 				if err != nil {
 					log.Error("%s", err.Error())
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
-			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
+			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
 				log.Error("%s", err.Error())
 			}
@@ -71,9 +78,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 }
 
 func (cp *chargePoint) WaitConnect() <-chan struct{} {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.connectedChan
 }
 
 func (cp *chargePoint) WaitDisconnect() <-chan struct{} {
-	return cp.conn.WaitClose()
+	return cp.Connection().WaitClose()
 }
-- 
2.43.0


From 7d4e5f275f2de63a2aec119db20c81fd571dd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 15/31] fix: stop reconnecting when the charge point's context
 is cancelled

---
 cp/json.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cp/json.go b/cp/json.go
index 8d0594f..88fb7d5 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -48,10 +48,16 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cp.connMux.Unlock()
 			// try to connect until it is established
 			for {
+				if cp.ctx.Err() != nil {
+					return
+				}
 				err := cp.getNewWebsocketConnection()
 				if err != nil {
 					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
+					select {
+					case <-cp.ctx.Done():
+					case <-time.After(websocketConnectionRetryInterval):
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From c523af364d68f24b08a0bbc0cabac75370c44352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 16/31] fix: stop the charge point's SOAP server when its
 context is cancelled

The server kept listening and serving requests, and its goroutine could never
end.
---
 cp/soap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..b68f2ef 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,13 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		return server.Close()
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From a5026c65d5f1a640b4efdb6f84aa33a2ec544779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 17/31] fix: refuse to create a charge point with an unknown
 transport

New returned a charge point without a service, whose Send panics.
---
 cp/cp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cp/cp.go b/cp/cp.go
index 03e918e..879fe08 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -54,6 +54,9 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 		ctx:              ctx,
 		connectedChan:    make(chan struct{}),
 	}
+	if transport != ocpp.JSON && transport != ocpp.SOAP {
+		return nil, fmt.Errorf("unknown transport: %s", transport)
+	}
 	if transport == ocpp.JSON {
 		err := cp.getNewWebsocketConnection()
 		if err != nil {
-- 
2.43.0


From 72666a7a09c0e5917a35c058d5321f2ec44c69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 18/31] fix: handle SOAP requests without a Header instead of
 panicking

---
 soap/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soap/server.go b/soap/server.go
index c0fba7a..a8d1b5d 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -30,6 +30,9 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		return errors.New("received message is not a request")
 	}
 
+	if reqEnv.Header == nil {
+		reqEnv.Header = &receivedHeader{}
+	}
 	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
-- 
2.43.0


From 8585720ac7f5300235d4cff6e7e305ed9a086538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 19/31] fix: report an empty or unexpected SOAP reply as an
 error instead of panicking

---
 soap/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..11b80fa 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -111,9 +111,13 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		return fault
 	}
 
+	if respEnvelope.Body.Content == nil {
+		return errors.New("response has no content")
+	}
+
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
 	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+		return errors.New("incompatible types: " + respVal.Type().String() + " " + contentVal.Type().String())
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
-- 
2.43.0


From a28ea1bc8012160965aa1b519b74b21569a18fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 20/31] fix: send the text of a SOAP Fault where clients read
 it

The server wrote it to <reason>, while SOAP 1.2 and this library's own client
expect it in <Reason><Text>: every fault reached the caller with an empty
text.
---
 soap/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soap/models.go b/soap/models.go
index c1be438..fae5c4f 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -87,7 +87,7 @@ type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
 	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
+	Reason string `xml:"S:Reason>S:Text,omitempty"`
 	String string `xml:"faultstring,omitempty"`
 	Actor  string `xml:"faultactor,omitempty"`
 	Detail string `xml:"detail,omitempty"`
-- 
2.43.0


From 5882d72294103571ced6302ad1e2de9a068ca815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 21/31] fix: do not declare the plain SOAP response as
 compressed

The body was never deflated, so a client that honours the header can't read
it.
---
 soap/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index a8d1b5d..18f0455 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -46,7 +46,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0


From 7bb3aba90894eb8647d03a6019bcbabb11766c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 22/31] fix: answer every SOAP request with either the response
 or a Fault

Requests that could not be decoded, or were not requests, got an empty 200
reply, a handler returning nothing got an empty Body, and one returning both
a response and an error got both in the Body.
---
 soap/marshal.go |  3 ++-
 soap/server.go  | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..7f8717b 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -23,8 +23,9 @@ func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
 		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/server.go b/soap/server.go
index 18f0455..7f684e9 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -22,12 +22,16 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	reqEnv, err := Unmarshal(rawReq)
 
 	if err != nil {
-		return fmt.Errorf("couldn't decode request %w", err)
+		err = fmt.Errorf("couldn't decode request %w", err)
+		respond(w, nil, err)
+		return err
 	}
 
 	req, ok := reqEnv.Body.Content.(messages.Request)
 	if !ok {
-		return errors.New("received message is not a request")
+		err = errors.New("received message is not a request")
+		respond(w, nil, err)
+		return err
 	}
 
 	if reqEnv.Header == nil {
@@ -36,10 +40,22 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
+	} else if resp == nil {
+		err = errors.New("no response to the request")
 	}
+	return respond(w, resp, err)
+}
+
+// respond with the response, or with a Fault if there was an error
+func respond(w http.ResponseWriter, resp messages.Response, err error) error {
 	rawResp, err := Marshal(resp, err, "http://www.w3.org/2003/05/soap-envelope")
 	if err != nil {
-		return fmt.Errorf("couldn't encode response: %w", err)
+		err = fmt.Errorf("couldn't encode response: %w", err)
+		log.Error("%w", err)
+		rawResp, err = Marshal(nil, err, "http://www.w3.org/2003/05/soap-envelope")
+		if err != nil {
+			return err
+		}
 	}
 
 	log.Debug("Sending response with %d bytes", len(rawResp))
-- 
2.43.0


From 111f12ecee68380c55a4dad946be9723fef166ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 23/31] fix: give data and idTagInfo of two responses their XML
 element names

The struct tags were malformed, so OCPP 1.5 wrote the fields as <Data> and
<IdTagInfo> and ignored the elements the service description names.
---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From 09337ca3651f2bcbf1269dabed61b24402dbbe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 24/31] fix: encode an IdTagInfo without expiry date instead of
 panicking

---
 messages/v1x/csreq/json_encode.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..2603dbe 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -823,16 +823,15 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
 	if comma {
 		buf.WriteString(",")
-- 
2.43.0


From 7ae7982b6a9ff210aaa66f986a29bd0604d9738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 25/31] fix: decode expiryDate and parentIdTag of local list
 entries

They are written by the encoder and were dropped without an error by the
decoder.
---
 messages/v1x/csreq/json_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 2603dbe..4b360f1 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -871,6 +871,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From 4b07f42b73acfb0fe918f1cd3a1f6dc782994592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 26/31] fix: check required and unknown properties of remote
 start and stop requests

Unlike all other messages they were decoded by the default rules, which
accept a payload with none of the required properties.
---
 messages/v1x/csreq/json_encode.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 4b360f1..fb7c5b7 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -954,6 +954,64 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
+
 func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
-- 
2.43.0


From 3a5857dc7a77edd7c1e4b87213ad76d5514c4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 27/31] fix: always write the XML elements OCPP 1.5 requires

A required element with a zero value, such as meterStart 0 or connectorId 0,
was left out of the message.
---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..25023d9 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From 89cd4fc0cc05ded628eb01dccb4609ccefe23014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 28/31] fix: name the local list element as the OCPP 1.5
 service description does

---
 messages/v1x/csreq/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..e375e82 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -183,7 +183,7 @@ type SendLocalList struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From b68b8cdc70b8474651980df74c624d6c7570f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 29/31] fix: leave unset optional fields out of the JSON
 instead of sending null or an empty enumeration

---
 messages/v1x/cpreq/json_encode.go  | 160 ++++++++++++++++-------------
 messages/v1x/cpresp/json_encode.go |  20 ++--
 messages/v1x/csreq/json_encode.go  | 120 ++++++++++++----------
 messages/v1x/csresp/json_encode.go |  60 ++++++-----
 4 files changed, 198 insertions(+), 162 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 38bd439..8bf348d 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -590,71 +590,83 @@ func (m *SampledValue) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "context" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"context\": ")
-	if tmp, err := json.Marshal(m.Context); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Context != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"context\": ")
+		if tmp, err := json.Marshal(m.Context); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "format" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"format\": ")
-	if tmp, err := json.Marshal(m.Format); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Format != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"format\": ")
+		if tmp, err := json.Marshal(m.Format); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "location" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"location\": ")
-	if tmp, err := json.Marshal(m.Location); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Location != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"location\": ")
+		if tmp, err := json.Marshal(m.Location); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "measurand" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"measurand\": ")
-	if tmp, err := json.Marshal(m.Measurand); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Measurand != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"measurand\": ")
+		if tmp, err := json.Marshal(m.Measurand); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "phase" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"phase\": ")
-	if tmp, err := json.Marshal(m.Phase); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Phase != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"phase\": ")
+		if tmp, err := json.Marshal(m.Phase); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unit\": ")
-	if tmp, err := json.Marshal(m.Unit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Unit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unit\": ")
+		if tmp, err := json.Marshal(m.Unit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Value" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "value" field
@@ -1035,16 +1047,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reason" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reason\": ")
-	if tmp, err := json.Marshal(m.Reason); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Reason != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reason\": ")
+		if tmp, err := json.Marshal(m.Reason); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -1059,16 +1073,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionData" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionData\": ")
-	if tmp, err := json.Marshal(m.TransactionData); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionData != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionData\": ")
+		if tmp, err := json.Marshal(m.TransactionData); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "TransactionId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "transactionId" field
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index eb776b1..46b4a6f 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -501,16 +501,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index fb7c5b7..369d6f8 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -257,16 +257,18 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -421,16 +423,18 @@ func (m *ClearChargingProfile) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingProfilePurpose" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingProfilePurpose\": ")
-	if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingProfilePurpose != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingProfilePurpose\": ")
+		if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
 	if comma {
 		buf.WriteString(",")
@@ -584,16 +588,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingRateUnit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingRateUnit\": ")
-	if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingRateUnit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingRateUnit\": ")
+		if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ConnectorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "connectorId" field
@@ -911,16 +917,18 @@ func (m *LocalAuthorizationListItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1210,16 +1218,18 @@ func (m *SendLocalList) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "localAuthorizationList" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"localAuthorizationList\": ")
-	if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.LocalAuthorizationList != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"localAuthorizationList\": ")
+		if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "UpdateType" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "updateType" field
@@ -1594,16 +1604,18 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 36bc65b..aa47674 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -596,16 +596,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingSchedule" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingSchedule\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingSchedule != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingSchedule\": ")
+		if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
 	if comma {
 		buf.WriteString(",")
@@ -684,27 +686,31 @@ func (m *GetConfiguration) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "configurationKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"configurationKey\": ")
-	if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConfigurationKey != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"configurationKey\": ")
+		if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unknownKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unknownKey\": ")
-	if tmp, err := json.Marshal(m.UnknownKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.UnknownKey != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unknownKey\": ")
+		if tmp, err := json.Marshal(m.UnknownKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
-- 
2.43.0


From 1e7b60a53badf01901430d67df92ea2b1d25eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 30/31] fix: name unknown properties verbatim in the error of
 the JSON decoders

The property name a peer sent was used as part of a format string, so a
name with a percent sign was shown (logged and answered) distorted.
---
 messages/v1x/cpreq/json_encode.go  | 20 ++++++++--------
 messages/v1x/cpresp/json_encode.go | 20 ++++++++--------
 messages/v1x/csreq/json_encode.go  | 38 +++++++++++++++---------------
 messages/v1x/csresp/json_encode.go | 38 +++++++++++++++---------------
 4 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 8bf348d..35b1162 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -46,7 +46,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			}
 			idTagReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if idTag (a required property) was received
@@ -218,7 +218,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if chargePointModel (a required property) was received
@@ -300,7 +300,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			}
 			vendorIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if vendorId (a required property) was received
@@ -348,7 +348,7 @@ func (m *DiagnosticsStatusNotification) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -396,7 +396,7 @@ func (m *FirmwareStatusNotification) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -424,7 +424,7 @@ func (m *Heartbeat) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -571,7 +571,7 @@ func (m *MeterValues) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -843,7 +843,7 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			}
 			timestampReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -1000,7 +1000,7 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -1143,7 +1143,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			}
 			transactionIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if meterStop (a required property) was received
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index 46b4a6f..b90de6f 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -48,7 +48,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			}
 			idTagInfoReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if idTagInfo (a required property) was received
@@ -134,7 +134,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if currentTime (a required property) was received
@@ -205,7 +205,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -233,7 +233,7 @@ func (m *DiagnosticsStatusNotification) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -257,7 +257,7 @@ func (m *FirmwareStatusNotification) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -301,7 +301,7 @@ func (m *Heartbeat) UnmarshalJSON(b []byte) error {
 			}
 			currentTimeReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if currentTime (a required property) was received
@@ -393,7 +393,7 @@ func (m *MeterValues) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -458,7 +458,7 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			}
 			transactionIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if idTagInfo (a required property) was received
@@ -490,7 +490,7 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -532,7 +532,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 369d6f8..1c4d765 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -46,7 +46,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			}
 			reservationIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if reservationId (a required property) was received
@@ -113,7 +113,7 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			}
 			typeReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -184,7 +184,7 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			}
 			valueReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if key (a required property) was received
@@ -412,7 +412,7 @@ func (m *ClearCache) UnmarshalJSON(b []byte) error {
 	for k := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -499,7 +499,7 @@ func (m *ClearChargingProfile) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -573,7 +573,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			}
 			vendorIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if vendorId (a required property) was received
@@ -657,7 +657,7 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			}
 			durationReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -692,7 +692,7 @@ func (m *GetConfiguration) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -790,7 +790,7 @@ func (m *GetDiagnostics) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if location (a required property) was received
@@ -818,7 +818,7 @@ func (m *GetLocalListVersion) UnmarshalJSON(b []byte) error {
 	for k := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -985,7 +985,7 @@ func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
 			}
 			idTagReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if idTag (a required property) was received
@@ -1010,7 +1010,7 @@ func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
 			}
 			transactionIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if transactionId (a required property) was received
@@ -1130,7 +1130,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			}
 			reservationIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -1190,7 +1190,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			}
 			typeReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if type (a required property) was received
@@ -1274,7 +1274,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			}
 			updateTypeReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if listVersion (a required property) was received
@@ -1341,7 +1341,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			}
 			requestedMessageReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if requestedMessage (a required property) was received
@@ -1806,7 +1806,7 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			}
 			csChargingProfilesReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -1858,7 +1858,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			}
 			connectorIdReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if connectorId (a required property) was received
@@ -1955,7 +1955,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if location (a required property) was received
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index aa47674..95af846 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -46,7 +46,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -94,7 +94,7 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -142,7 +142,7 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -386,7 +386,7 @@ func (m *ClearCache) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -434,7 +434,7 @@ func (m *ClearChargingProfile) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -581,7 +581,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -671,7 +671,7 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -734,7 +734,7 @@ func (m *GetConfiguration) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -774,7 +774,7 @@ func (m *GetDiagnostics) UnmarshalJSON(b []byte) error {
 				return err
 			}
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
@@ -818,7 +818,7 @@ func (m *GetLocalListVersion) UnmarshalJSON(b []byte) error {
 			}
 			listVersionReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if listVersion (a required property) was received
@@ -866,7 +866,7 @@ func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -914,7 +914,7 @@ func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -962,7 +962,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1010,7 +1010,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1058,7 +1058,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1106,7 +1106,7 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1154,7 +1154,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1202,7 +1202,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			}
 			statusReceived = true
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	// check if status (a required property) was received
@@ -1230,7 +1230,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 	for k, _ := range jsonMap {
 		switch k {
 		default:
-			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+			return fmt.Errorf("additional property not allowed: \"%s\"", k)
 		}
 	}
 	return nil
-- 
2.43.0


From ac2014d4310fe5fe994f733965e1e6a2f34e849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 31/31] fix: keep the numbers of messages as they are written

Messages pass through generic JSON values on their way to and from the
wire; as float64 these don't hold every integer, so a meter value or
transaction id above 2^53 reached the other side changed or not at all.
---
 ws/conn.go    |  8 ++++++--
 ws/message.go | 19 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 23de851..912a054 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -117,17 +117,21 @@ var (
 
 func UnmarshalMessage(msg []byte) (Message, error) {
 	var frame []interface{}
-	err := json.Unmarshal(msg, &frame)
+	err := unmarshalGeneric(msg, &frame)
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
 	if len(frame) < 3 {
 		return nil, errors.New("message has too few fields")
 	}
-	msgType, ok := frame[0].(float64)
+	number, ok := frame[0].(json.Number)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
 	}
+	msgType, err := number.Float64()
+	if err != nil {
+		return nil, fmt.Errorf("first field is not a message type: %w", err)
+	}
 	idStr, ok := frame[1].(string)
 	if !ok {
 		return nil, fmt.Errorf("second field is not a message ID: %w", err)
diff --git a/ws/message.go b/ws/message.go
index aeb3db7..81635a7 100644
--- a/ws/message.go
+++ b/ws/message.go
@@ -1,8 +1,11 @@
 package ws
 
 import (
+	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 
 	"github.com/voltbras/go-ocpp/messages"
 )
@@ -144,13 +147,27 @@ func unmarshalResponse(id MessageID, resp messages.Response, err error) Message
 	return NewCallResult(id, resp)
 }
 
+// unmarshalGeneric keeps the numbers as they are written: a float64 can't
+// hold every integer
+func unmarshalGeneric(data []byte, v interface{}) error {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	if _, err := dec.Token(); err != io.EOF {
+		return errors.New("invalid data after top-level value")
+	}
+	return nil
+}
+
 func UnmarshalRequest(id MessageID, req messages.Request) (*CallMessage, error) {
 	var inInterface map[string]interface{}
 	inrec, err := json.Marshal(req)
 	if err != nil {
 		return nil, err
 	}
-	err = json.Unmarshal(inrec, &inInterface)
+	err = unmarshalGeneric(inrec, &inInterface)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

