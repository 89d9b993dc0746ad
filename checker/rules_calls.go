package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rules about outgoing requests, their replies, and waiting.

func init() {
	rules["C10"] = rule{runC10, "SendRequest is interpreted on an open connection whose tables others change under the locks: a fresh unique id is registered in the tables before the frame with that id is written, and only a value received from the channel registered under it is returned. The reader is interpreted for every CALLRESULT and CALLERROR frame: only entries under the id of the frame are looked up and removed, a found one gets the reply exactly once, decoded into the response of the request found with it, and nothing is sent otherwise."}
	rules["C11"] = rule{runC11, "Every path of SendRequest is enumerated: each blocking wait has the reply, the end of the connection and a timer as alternatives, each frame is written under a deadline, paths without a reply return an error, and every table entry made on a path is deleted again before the path ends. Closing and a failed read are shown to end the context that is waited on."}
	rules["C12"] = rule{runC12, "For every goroutine, handler and method of the library, each channel operation that can block is classified on each path: it has the end of the connection, a context or a timer as alternative, or it sends into a buffer that is shown to have a free place (made for it, or the only entry under an id, removed from the table under the same lock). Frames are only written under a deadline."}
}

// reach: everything reachable from the value
func (st *State) reach(from ...*V) map[*V]bool {
	seen := map[*V]bool{}
	var work []*V
	push := func(v *V) {
		if v != nil && !seen[v] {
			v.walk(seen, func(y *V) {
				work = append(work, y)
			})
		}
	}
	for _, f := range from {
		push(f)
	}
	by := map[*V][]*V{}
	for l, v := range st.mem {
		by[l.base] = append(by[l.base], v)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range by[b] {
			push(v)
		}
		if o := st.objs[b]; o != nil {
			for _, e := range o.entries {
				if e.present {
					push(e.v)
				}
			}
		}
	}
	return seen
}

// isTimer: the channel becomes ready after a bounded time
func isTimer(st *State, ch *V) bool {
	if ch.k == VAlloc && ch.op == "timer" {
		d := st.mem[Loc{ch, "$d"}]
		return d == nil || bounded(st, d)
	}
	if ch.k == VAlloc && ch.op == "done" {
		for c, o := range st.objs {
			if o.kind == "ctx" && o.cap == ch {
				if _, ok := st.mem[Loc{c, "$timeout"}]; ok {
					return true
				}
			}
		}
	}
	return false
}

// bounded: a duration of at most an hour
func bounded(st *State, d *V) bool {
	if c := st.constOf(d); c != nil {
		d = c
	}
	if d.k == VConst && d.c.Kind() == constant.Int {
		i, ok := constant.Int64Val(d.c)
		return ok && i <= 3600*1e9
	}
	return false
}

// endsWait: what ends a wait on the channel whatever the peer does; "" if nothing
func (C *Checker) endsWait(st *State, ch *V) string {
	switch {
	case ch == nil || ch == vNil:
		return ""
	case isTimer(st, ch):
		return "timer"
	case ch.k == VApp && ch.op == "nn:done":
		x := unwrap(ch.args[0])
		if x.mentions(func(y *V) bool { return y.k == VApp && y.op == "nn:background" }) {
			return ""
		}
		return "context"
	case ch.k == VAlloc && ch.op == "done":
		// of a connection: ended by Close
		if C.connOf(st, ch) != nil {
			return "connection"
		}
		for _, o := range st.objs {
			if o.kind == "ctx" && o.cap == ch && len(o.entries) == 1 {
				p := unwrap(o.entries[0].v)
				if d := ctxDone(st, p); d != ch {
					return C.endsWait(st, d)
				}
			}
		}
	}
	return ""
}

// connOf: the connection whose context has this Done channel
func (C *Checker) connOf(st *State, done *V) *V {
	ct := C.connType()
	for c, o := range st.objs {
		if o.kind != "ctx" || o.cap != done {
			continue
		}
		for l, v := range st.mem {
			if l.base.k == VAlloc && l.base.t != nil && ct != nil && types.Identical(l.base.t, ct) && v != nil && unwrap(v) == c {
				return l.base
			}
		}
	}
	return nil
}

// ---- deadlines of writes

// watchDeadline follows one path; it tells whether a message write is bounded
func watchDeadline(m *tmon, st *State, e *Event) (write, ok bool) {
	if e.Kind != "call" {
		return false, false
	}
	switch {
	case e.Name == wsPkg+"SetWriteDeadline" && len(e.Args) == 2:
		t := e.Args[1]
		m.n["deadline"] = 0
		if t.k == VApp && t.op == "(time.Time).Add" && t.args[0].k == VSym && t.args[0].op == "now" && bounded(st, t.args[1]) {
			m.n["deadline"] = 1
			m.v["deadline of"] = e.Args[0]
		}
	case isMessageWrite(e.Name):
		return true, m.n["deadline"] == 1 && m.v["deadline of"] == e.Args[0]
	}
	return false, false
}

// ---- taking an entry from a table for good

// watchTaken follows lookups and removals under one lock
func watchTaken(m *tmon, st *State, e *Event) {
	switch e.Kind {
	case "mapget":
		if e.Block && len(st.heldNow()) > 0 && st.isShared(e.Recv) {
			if n := fieldHolding(st, e.Recv); n != "" {
				m.v["got "+n] = mkTuple(e.Recv, e.Args[0], e.Val)
			}
		}
	case "mapdel":
		for k, v := range m.v {
			if strings.HasPrefix(k, "got ") && v.args[0] == e.Recv && v.args[1] == e.Args[0] {
				m.v["taken "+k[4:]] = v.args[2]
				delete(m.n, "given "+k[4:])
			}
		}
	case "unlock":
		for k := range m.v {
			if strings.HasPrefix(k, "got ") {
				delete(m.v, k)
			}
		}
	case "send", "selsend":
		if f := takenChan(m, e.Chan); f != "" {
			m.n["given "+f]++
		}
	}
}

// takenChan: the table the channel was taken from
func takenChan(m *tmon, ch *V) string {
	for k, v := range m.v {
		if !strings.HasPrefix(k, "taken ") || v == nil {
			continue
		}
		for x := ch; ; x = x.args[0] {
			if x == v {
				return k[6:]
			}
			if x.k != VApp || x.op != "ld" {
				break
			}
		}
	}
	return ""
}

// tableCaps: the smallest buffer of the channels put into the tables
func (C *Checker) tableCaps(R *Report) map[string]int64 {
	if C.caps != nil {
		return C.caps
	}
	caps := map[string]int64{}
	C.caps = caps
	for _, r := range C.rootSet(R).roots {
		if r.kind == "decoder" || r.kind == "soap" {
			continue
		}
		E := C.newRun(C.openCfg(R))
		E.Cfg.OnGo = C.sessionGo
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if e.Kind != "mapset" || !st.isShared(e.Recv) {
				return
			}
			n := fieldHolding(st, e.Recv)
			if n == "" {
				return
			}
			for v := range st.reach(e.Val) {
				o := st.objs[v]
				if o == nil || o.kind != "chan" || v.op != "chan" {
					continue
				}
				c := int64(0)
				if o.cap.isInt() {
					c = o.cap.int()
				}
				if old, ok := caps[n]; !ok || c < old {
					caps[n] = c
				}
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
	}
	return caps
}

// hasRoom: the send finds a free place in the buffer
func (C *Checker) hasRoom(R *Report, m *tmon, st *State, ch *V) (bool, string) {
	if f := takenChan(m, ch); f != "" {
		n, ok := C.tableCaps(R)[f]
		if !ok || n < 1 {
			return false, "a channel from the table " + f + " that may have no buffer"
		}
		if int64(m.n["given "+f]) >= n {
			return false, "a channel from the table " + f + " that got a value already"
		}
		return true, ""
	}
	o := st.obj(ch)
	if o != nil && o.kind == "chan" && ch.k == VAlloc && o.cap != nil && o.cap.isInt() {
		if int64(o.sent) < o.cap.int() {
			return true, ""
		}
		if o.cap.int() == 0 {
			return false, "an unbuffered channel"
		}
		return false, "a channel whose buffer may be full"
	}
	return false, fmt.Sprintf("the channel %v", ch)
}

// ---- C10

type pathIn struct{ table, path string }

func runC10(C *Checker, R *Report) {
	read := C.connMethod(R, "ReadMessage")
	send := C.connMethod(R, "SendRequest")
	if read == nil || send == nil {
		return
	}
	for _, how := range []string{"Handshake", "Dial"} {
		cs := C.connStates(R, how)
		if len(cs) == 0 {
			continue
		}
		need := map[pathIn]bool{}
		C.c10read(R, cs[0], read, shapeResult, need)
		C.c10read(R, cs[0], read, shapeError, need)
		C.c10send(R, cs[0], send, need)
	}
	R.need(R.counts["replies_delivered"] > 0, "a path that delivers a reply")
	R.need(R.counts["requests_written"] > 0, "a path that writes a request")
}

func (C *Checker) c10read(R *Report, cs connSt, read *ssa.Function, sh frameShape, need map[pathIn]bool) {
	elem := C.reqElem(R)
	caps := C.tableCaps(R)
	respT := C.P.Type("messages", "Response")
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = C.sessionGo
	key := "ws.ReadMessage"
	mon := newMon(func(m *tmon, st *State, e *Event) {
		assumeFrame(m, st, e, sh)
		if src := frameSource(m, st); src != nil {
			st.violate("C10", key, fmt.Sprintf("what is decoded is %v, not the message that was received", src), posOf(e.Instr))
			st.done = true
		}
		if st.done {
			return
		}
		id := m.v["part1"]
		watchTaken(m, st, e)
		deliver := func(ch, val *V, t types.Type) {
			if isReqChan(elem, t) {
				st.violate("C10", key, "a reply is handed over as a request", posOf(e.Instr))
				return
			}
			R.count("replies_delivered", 1)
			hit := ""
			for k, h := range m.v {
				if strings.HasPrefix(k, "hit ") && ch.mentions(func(x *V) bool { return x == h }) {
					hit = k[4:]
				}
			}
			if hit == "" {
				st.violate("C10", key, fmt.Sprintf("a reply is sent to %v, which was not found under its message id", ch), posOf(e.Instr))
			}
			m.n["sent"]++
			if m.n["sent"] > 1 {
				st.violate("C10", key, "a reply is delivered more than once", posOf(e.Instr))
			}
			C.c10value(R, m, st, e, val, t, respT, sh, need)
		}
		switch e.Kind {
		case "mapget":
			if id == nil || !st.isShared(e.Recv) {
				return
			}
			if !sameContent(st, e.Args[0], id) {
				m.n["foreign"] = 1
				return
			}
			n := fieldHolding(st, e.Recv)
			if e.Block {
				m.v["hit "+n] = e.Val
			} else {
				m.n["miss"] = 1
			}
		case "mapdel", "mapset":
			if st.isShared(e.Recv) && (id == nil || !sameContent(st, e.Args[0], id)) {
				st.violate("C10", key, fmt.Sprintf("handling a reply changes the table entry of %v, not that of its own id", e.Args[0]), posOf(e.Instr))
			} else if st.isShared(e.Recv) && e.Kind == "mapset" {
				st.violate("C10", key, "handling a reply registers something", posOf(e.Instr))
			}
		case "send":
			deliver(e.Chan, e.Val, e.Instr.(*ssa.Send).Chan.Type())
		case "select":
			for i, c := range e.Cases {
				if !c.Send {
					continue
				}
				if e.Chosen == -1 {
					if f := takenChan(m, c.Ch); f != "" && caps[f] > int64(m.n["given "+f]) {
						st.done = true // there is room, the default is not taken
						return
					}
				}
				if e.Chosen == i {
					deliver(c.Ch, c.Val, e.Instr.(*ssa.Select).States[i].Chan.Type())
				}
			}
		case "close":
			if !isDone(e.Chan) {
				st.violate("C10", key, "handling a reply closes a channel", posOf(e.Instr))
			}
		case "call":
			if isMessageWrite(e.Name) {
				st.violate("C10", key, "a reply is answered with a frame", posOf(e.Instr))
			}
			if e.Name == "encoding/json.Marshal" && len(e.Res) == 2 && e.Res[0] == vNil {
				m.n["encode failed"] = 1
			}
		case "end":
			R.count("reply_paths", 1)
			if e.Recv != nil || m.n["reads"] == 0 || m.v["frame"] == nil {
				return
			}
			hits := 0
			for k := range m.v {
				if strings.HasPrefix(k, "hit ") {
					hits++
				}
			}
			if m.n["miss"] == 0 && m.n["sent"] == 0 && !closedNow(st, cs.conn) {
				if hits > 0 {
					st.violate("C10", key, "a reply whose request is waiting is not delivered", e.fnPos())
				} else {
					st.violate("C10", key, "a reply is dropped without looking for the request that waits for it", e.fnPos())
				}
			}
			if m.n["miss"] > 0 && m.n["sent"] > 0 {
				st.violate("C10", key, "a reply is delivered although no request waits under its id in every table", e.fnPos())
			}
		case "decode":
			if m.v["part2"] == nil || len(e.Args) < 2 {
				return
			}
			if e.Block {
				m.n["decode failed"] = 1
				return
			}
			if e.Val.mentions(func(x *V) bool { return x == m.v["part2"] }) {
				m.v["decoded"] = e.Args[1]
			}
		}
	})
	C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
	R.take(E)
}

// c10value looks at what is delivered
func (C *Checker) c10value(R *Report, m *tmon, st *State, e *Event, val *V, t types.Type, respT types.Type, sh frameShape, need map[pathIn]bool) {
	key := "ws.ReadMessage"
	var resp, errv *V
	ct, _ := t.Underlying().(*types.Chan)
	if ct == nil {
		return
	}
	et := ct.Elem()
	if p, ok := et.Underlying().(*types.Pointer); ok {
		et = p.Elem()
		val = st.load(val.loc(), et)
	}
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		switch {
		case types.Identical(s.Field(i).Type(), respT):
			resp = structField(val, i)
		case isErrorType(s.Field(i).Type()):
			errv = structField(val, i)
		}
	}
	if resp == nil || errv == nil {
		st.violate("C10", key, "what is delivered has no response and error that can be told apart", posOf(e.Instr))
		return
	}
	if sh.kind == 4 {
		ok := false
		for v := range st.reach(errv) {
			if v == m.v["part2"] || v == m.v["part3"] {
				ok = true
			}
		}
		if !ok {
			st.violate("C10", key, fmt.Sprintf("a CALLERROR is delivered as %v, not as the peer's error", errv), posOf(e.Instr))
		}
		return
	}
	dec := m.v["decoded"]
	if tr, k := st.truth(mkEq(resp, vNil)); !(k && tr) && C.noErr != nil {
		C.noErr[errv] = true
	}
	if tr, k := st.truth(mkEq(resp, vNil)); k && tr {
		if t2, k2 := st.truth(mkEq(errv, vNil)); k2 && t2 || noError(C, errv) {
			st.violate("C10", key, "a CALLRESULT is delivered as neither response nor error", posOf(e.Instr))
		}
		switch {
		case dec != nil:
			st.violate("C10", key, "a CALLRESULT that was decoded is delivered as an error", posOf(e.Instr))
		case m.n["decode failed"] == 0 && m.n["encode failed"] == 0 && !nilHit(m, st):
			st.violate("C10", key, "a CALLRESULT is delivered as an error although decoding its payload was not tried", posOf(e.Instr))
		}
		return
	}
	if dec == nil || unwrap(dec) != unwrap(resp) && dec != resp {
		st.violate("C10", key, fmt.Sprintf("the response delivered is %v, into which the payload of the reply was not decoded", resp), posOf(e.Instr))
		return
	}
	if t2, k2 := st.truth(mkEq(errv, vNil)); !(k2 && t2) && !noError(C, errv) {
		st.violate("C10", key, "a decoded response is delivered together with an error", posOf(e.Instr))
	}
	// the response of the request that was found
	x := resp
	if !(x.k == VApp && x.op == "nn:GetResponse") {
		st.violate("C10", key, fmt.Sprintf("the reply is decoded into %v, not into the response of the request found under its id", x), posOf(e.Instr))
		return
	}
	rq := x.args[0]
	path := ""
	for rq.k == VApp && (rq.op == "ld" || strings.HasPrefix(rq.op, "fld") && len(rq.args) == 1) {
		hop := "." + strings.TrimPrefix(rq.op, "fld")
		if rq.op == "ld" {
			hop = "*" + rq.args[1].str()
		}
		path = hop + "|" + path
		rq = rq.args[0]
	}
	for k, h := range m.v {
		if strings.HasPrefix(k, "hit ") && h == rq {
			need[pathIn{k[4:], path}] = true
			return
		}
	}
	st.violate("C10", key, fmt.Sprintf("the reply is decoded as the response of %v, which was not found under its id", x.args[0]), posOf(e.Instr))
}

// nilHit: the path found something missing in what waits for the reply
func nilHit(m *tmon, st *State) bool {
	for k, h := range m.v {
		if !strings.HasPrefix(k, "hit ") {
			continue
		}
		if h == vNil {
			return true
		}
		for f, v := range st.facts {
			if v != vTrue || f.k != VApp || f.op != "==" || len(f.args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				if f.args[i] == vNil && f.args[1-i].mentions(func(x *V) bool { return x == h }) {
					return true
				}
			}
		}
	}
	return false
}

// noError: the value that says there is no error
func noError(C *Checker, v *V) bool {
	if v == vNil {
		return true
	}
	if v.k == VIface && v.args[0].isStr() && v.args[0].str() == "" {
		return true
	}
	return false
}

func (C *Checker) c10send(R *Report, cs connSt, send *ssa.Function, need map[pathIn]bool) {
	key := "ws.SendRequest"
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = C.sessionGo
	args := methodArgs(cs.conn, send)
	request := args[1]
	mon := newMon(func(m *tmon, st *State, e *Event) {
		watchRegs(m, st, e)
		switch e.Kind {
		case "call":
			if len(e.Res) > 0 && e.Res[0] != nil && e.Res[0].k == VSym && strings.HasPrefix(e.Res[0].op, "nn:uniq") {
				m.v["uniq"] = e.Res[0]
			}
			if !isMessageWrite(e.Name) {
				return
			}
			R.count("requests_written", 1)
			fr := writtenFrame(st, e)
			if fr == nil || fr.kind != 2 || len(fr.parts) != 4 {
				st.violate("C10", key, "what is written for a request is not a CALL frame", posOf(e.Instr))
				return
			}
			if m.n["written"] > 0 {
				st.violate("C10", key, "more than one frame is written for a request", posOf(e.Instr))
			}
			m.n["written"] = 1
			id := fr.parts[1]
			m.v["id"] = id
			if u := m.v["uniq"]; u == nil || !injective(id, u) {
				st.violate("C10", key, fmt.Sprintf("the request is sent with message id %v, which is not freshly made for it", id), posOf(e.Instr))
			}
			regs := 0
			for _, r := range m.regs() {
				if sameContent(st, r.args[1], id) {
					regs++
				}
			}
			if regs == 0 {
				st.violate("C10", key, "the request is written before it is registered as waiting under its message id", posOf(e.Instr))
			}
			for w := range need {
				r := m.v["reg "+w.table]
				if r == nil {
					st.violate("C10", key, "the request is written before it is registered in "+w.table, posOf(e.Instr))
					continue
				}
				v := r.args[2]
				if w.path != "" {
					v = st.loadPath(v, w.path)
				}
				if v != request {
					st.violate("C10", key, fmt.Sprintf("%v is registered as the request the reply belongs to, not the request that is sent", v), posOf(e.Instr))
				}
			}
		case "select":
			if e.Block && m.n["written"] > 0 && m.v["reply"] == nil {
				awaited := false
				for _, c := range e.Cases {
					awaited = awaited || !c.Send && C.endsWait(st, c.Ch) == ""
				}
				if !awaited {
					st.violate("C10", key, "the request is written and its reply not waited for", posOf(e.Instr))
				}
			}
		case "recv", "selrecv":
			if C.endsWait(st, e.Chan) != "" {
				if e.Kind == "recv" && m.n["written"] > 0 && m.v["reply"] == nil {
					st.violate("C10", key, "the request is written and its reply not waited for", posOf(e.Instr))
				}
				return
			}
			m.v["reply"] = e.Val
			ok := false
			for _, r := range m.regs() {
				if m.v["id"] != nil && sameContent(st, r.args[1], m.v["id"]) && st.reach(r.args[2])[e.Chan] {
					ok = true
				}
			}
			if !ok {
				st.violate("C10", key, fmt.Sprintf("the reply is awaited on %v, which is not registered under the id of the request", e.Chan), posOf(e.Instr))
			}
		case "end":
			if e.Recv != nil || len(e.Res) != 2 {
				return
			}
			R.count("send_paths", 1)
			if w := C.replyOutcome(st, m.v["reply"], e.Res, nil); w != "" {
				st.violate("C10", key, w, e.fnPos())
			}
			if tr, k := st.truth(mkEq(e.Res[0], vNil)); k && tr {
				return
			}
			rep := m.v["reply"]
			if rep == nil || !e.Res[0].mentions(func(x *V) bool { return x == rep }) {
				st.violate("C10", key, fmt.Sprintf("%v is returned, which is not the reply that was received", e.Res[0]), e.fnPos())
			}
		}
	})
	C.runAll(E, cs.st.then(E, mon, mkFunc(send), args))
	R.take(E)
}

// replyOutcome: the reply that was delivered to a send is what it returns. A
// reply holds a response or an error; which one is what the path found out.
// "" when it is, else what is wrong.
func (C *Checker) replyOutcome(st *State, reply *V, res []*V, want types.Type) string {
	if reply == nil || reply.t == nil || len(res) != 2 {
		return ""
	}
	t, val := reply.t, reply
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if !isRef(val) {
			val = nil
		} else {
			val = st.load(val.loc(), t)
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || val == nil {
		return ""
	}
	respT := C.P.Type("messages", "Response")
	var resp, errv *V
	for i := 0; i < s.NumFields(); i++ {
		switch {
		case types.Identical(s.Field(i).Type(), respT):
			resp = structField(val, i)
		case isErrorType(s.Field(i).Type()):
			errv = structField(val, i)
		}
	}
	if resp == nil || errv == nil {
		return ""
	}
	// which value of the error means that there is none
	none := C.noErrorForms()
	fine, failed, apart := none[errv], false, 0
	for f := range none {
		t, k := st.truth(mkEq(errv, f))
		fine = fine || k && t
		if k && !t {
			apart++
		}
	}
	failed = apart == len(none)
	if t, k := st.truth(mkEq(errv, vNil)); k && t && !none[vNil] {
		return "" // never delivered
	}
	if t, k := st.truth(mkEq(resp, vNil)); k {
		if fine && t || failed && !t {
			return "" // neither or both, which is never delivered (C10)
		}
		fine, failed = !t, t
	}
	wrong := false // of a direction the caller cannot be given
	for f, v := range st.facts {
		if f.k == VApp && v == vFalse && (f.op == "implements" || f.op == "istype") && len(f.args) == 1 && f.args[0] == resp {
			wrong = true
		}
	}
	is := func(x, y *V) bool {
		return x == y || unwrap(x) == y || x.mentions(func(z *V) bool { return z == y })
	}
	noErr, known := st.truth(mkEq(res[1], vNil))
	switch {
	case fine && wrong:
		return ""
	case failed:
		if known && noErr {
			return "the peer's error is received and no error is returned"
		}
		if !is(st.deepTerm(res[1], 4), errv) {
			return fmt.Sprintf("the peer's error is received and %v is returned as error", res[1])
		}
	case fine:
		if !is(res[0], resp) || !known || !noErr {
			return fmt.Sprintf("a response is received, and %v and the error %v are returned", res[0], res[1])
		}
	case res[0] == resp && res[1] == errv:
	default:
		return fmt.Sprintf("a reply is received, and %v and the error %v are returned without regard to what it is", res[0], res[1])
	}
	return ""
}

// noErrorForms: what is delivered as error along with a response
func (C *Checker) noErrorForms() map[*V]bool {
	if C.noErr != nil {
		return C.noErr
	}
	C.noErr = map[*V]bool{}
	R := &Report{C: C, ID: "C10", seen: map[string]bool{}, counts: map[string]int{}, start: time.Now()}
	read := C.connMethod(R, "ReadMessage")
	if cs := C.connStates(R, "Handshake"); read != nil && len(cs) > 0 {
		C.c10read(R, cs[0], read, shapeResult, map[pathIn]bool{})
	}
	return C.noErr
}

// loadPath follows a path of loads and field selections; nil when it is not
// known what is there
func (st *State) loadPath(v *V, path string) *V {
	for _, hop := range strings.Split(path, "|") {
		switch {
		case v == nil || hop == "":
		case hop[0] == '*':
			l := v.loc()
			l.path += hop[1:]
			v = st.get(l)
		default:
			i, _ := strconv.Atoi(hop[1:])
			v = structField(v, i)
		}
	}
	return v
}

// injective: different u give different x
func injective(x, u *V) bool {
	switch {
	case x == u:
		return true
	case x.k == VApp && (x.op == "nn:uniq-str" || x.op == "dyn" || x.op == "fmt" || x.op == "rtype"):
		return injective(x.args[0], u)
	case x.k == VApp && x.op == "cat":
		n := 0
		for _, a := range x.args {
			if injective(a, u) {
				n++
			} else if a.k != VConst {
				return false
			}
		}
		return n == 1
	case x.k == VIface:
		return injective(x.args[0], u)
	}
	return false
}

// watchRegs keeps the table entries made on the path
func watchRegs(m *tmon, st *State, e *Event) {
	switch e.Kind {
	case "mapset":
		if st.isShared(e.Recv) {
			n := fieldHolding(st, e.Recv)
			m.v["reg "+n] = mkTuple(e.Recv, e.Args[0], e.Val)
		}
	case "mapdel", "mapget":
		if e.Kind == "mapget" && e.Block {
			return
		}
		// removed, or found to be gone already
		for k, r := range m.v {
			if strings.HasPrefix(k, "reg ") && r.args[0] == e.Recv && sameContent(st, r.args[1], e.Args[0]) {
				delete(m.v, k)
			}
		}
	}
}

func (m *tmon) regs() []*V {
	var out []*V
	for k, v := range m.v {
		if strings.HasPrefix(k, "reg ") {
			out = append(out, v)
		}
	}
	return out
}

// ---- C11

func runC11(C *Checker, R *Report) {
	send := C.connMethod(R, "SendRequest")
	if send == nil {
		return
	}
	for _, how := range []string{"Handshake", "Dial"} {
		cs := C.connStates(R, how)
		if len(cs) == 0 {
			continue
		}
		C.c11send(R, cs[0], send)
		C.closeEnds(R, cs[0])
	}
	R.need(R.counts["waits"] > 0, "a wait for the reply")
	R.need(R.counts["registrations"] > 0, "a table of waiting requests")
}

func (C *Checker) c11send(R *Report, cs connSt, send *ssa.Function) {
	key := "ws.SendRequest"
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = C.sessionGo
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if e.Kind == "mapset" {
			R.count("registrations", 1)
		}
		watchRegs(m, st, e)
		if w, ok := watchDeadline(m, st, e); w {
			R.count("writes", 1)
			if !ok {
				st.violate("C11", key, "the request is written without a deadline, so a peer that does not read can block the send for ever", posOf(e.Instr))
			}
		}
		switch e.Kind {
		case "select":
			if !e.Block {
				return
			}
			R.count("waits", 1)
			if w := m.v["written"]; w != nil {
				if ok, known := st.truth(mkEq(w, vNil)); !known || !ok {
					st.violate("C11", key, "the send waits for the reply to a request that may not have been written", posOf(e.Instr))
				}
			}
			var timer *V
			conn := false
			for _, c := range e.Cases {
				switch {
				case c.Send:
				case isTimer(st, c.Ch):
					timer = c.Ch
				case C.connOf(st, c.Ch) == cs.conn:
					conn = true
				}
			}
			if timer == nil {
				st.violate("C11", key, "the wait for the reply has no timeout", posOf(e.Instr))
			} else if old := m.v["timer"]; old != nil && old != timer {
				st.violate("C11", key, "the timeout of the request starts again, so the wait is not bounded", posOf(e.Instr))
			}
			if timer != nil {
				m.v["timer"] = timer
			}
			if !conn {
				st.violate("C11", key, "the wait for the reply does not end when the connection is closed", posOf(e.Instr))
			}
			if e.Chosen == -2 {
				st.violate("C11", key, "the send waits for ever", posOf(e.Instr))
			}
		case "recv":
			if C.endsWait(st, e.Chan) != "timer" {
				st.violate("C11", key, fmt.Sprintf("the send waits for %v only, so it may never end", e.Chan), posOf(e.Instr))
			}
		case "send":
			if ok, what := C.hasRoom(R, m, st, e.Chan); !ok {
				st.violate("C11", key, "the send waits for a receiver of "+what, posOf(e.Instr))
			}
			st.sentOn(e.Chan)
		case "selrecv":
			if C.endsWait(st, e.Chan) == "" {
				m.n["replied"] = 1
				m.v["reply"] = e.Val
			}
		case "call":
			if (e.Name == wsPkg+"WriteMessage" || e.Name == wsPkg+"WriteJSON") && !st.inSpawned() {
				m.v["written"] = e.Res[len(e.Res)-1]
			}
			if strings.HasPrefix(e.Name, "(*sync.WaitGroup).Wait") || strings.HasPrefix(e.Name, "(*sync.Cond).Wait") {
				st.violate("C11", key, "the send waits on "+e.Name, posOf(e.Instr))
			}
		case "end":
			R.count("paths", 1)
			for _, r := range m.regs() {
				n := fieldHolding(st, r.args[0])
				st.violate("C11", key, fmt.Sprintf("the entry made in %s is left there when the send ends", n), e.fnPos())
			}
			if e.Recv != nil || len(e.Res) != 2 {
				return
			}
			if w := C.replyOutcome(st, m.v["reply"], e.Res, nil); w != "" {
				st.violate("C11", key, w, e.fnPos())
			}
			if m.n["replied"] == 0 {
				if tr, k := st.truth(mkEq(e.Res[1], vNil)); !k || tr {
					st.violate("C11", key, "the send ends without a reply and without an error", e.fnPos())
				}
			}
		}
	})
	C.runAll(E, cs.st.then(E, mon, mkFunc(send), methodArgs(cs.conn, send)))
	R.take(E)
}

func (st *State) sentOn(ch *V) {
	if o := st.obj(ch); o != nil && o.kind == "chan" {
		n := *o
		if n.sent < 4 {
			n.sent++
		}
		st.objs[ch] = &n
	}
}

// closeEnds: Close and a failed read end the context of the connection, and
// WaitClose gives its channel
func (C *Checker) closeEnds(R *Report, cs connSt) {
	wait, cl, read := C.connMethod(R, "WaitClose"), C.connMethod(R, "Close"), C.connMethod(R, "ReadMessage")
	if wait == nil || cl == nil || read == nil {
		return
	}
	var done *V
	E := C.newRun(&Cfg{})
	for _, r := range C.runAll(E, cs.st.then(E, nil, mkFunc(wait), []*V{cs.conn})) {
		if len(r.res) == 1 {
			done = r.res[0]
		}
	}
	if !R.need(done != nil && isDone(done), "the channel that tells that the connection is closed") {
		return
	}
	if C.connOf(cs.st, done) != cs.conn {
		R.add("ws.WaitClose", "the channel of WaitClose does not belong to the connection", wait.Pos(), nil)
	}
	E = C.newRun(&Cfg{})
	n := 0
	for _, r := range C.runAll(E, cs.st.then(E, nil, mkFunc(cl), []*V{cs.conn})) {
		n++
		if !r.st.chanClosed(done) {
			R.add("ws.Close", "closing a connection does not end the waits for it on every path", cl.Pos(), r.st.traceList())
		}
	}
	R.take(E)
	R.count("close_paths", n)
	E = C.newRun(&Cfg{})
	mon := newMon(func(m *tmon, st *State, e *Event) {
		switch e.Kind {
		case "call":
			if isSockRead(e.Name) {
				st.assume(mkEq(e.Res[len(e.Res)-1], vNil), false)
				m.n["read"]++
			}
		case "end":
			if m.n["read"] == 0 || e.Recv != nil {
				return
			}
			R.count("failed_read_paths", 1)
			if !st.chanClosed(done) {
				st.violate(R.ID, "ws.ReadMessage", "a failed read does not close the connection, so whoever waits for it goes on waiting", e.fnPos())
			}
			if len(e.Res) == 1 {
				if tr, k := st.truth(mkEq(e.Res[0], vNil)); !k || tr {
					st.violate(R.ID, "ws.ReadMessage", "a failed read is not reported as an error", e.fnPos())
				}
			}
		}
	})
	C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
	R.take(E)
}

// ---- C12

// c12goesOn: a message that could be read but not understood ends neither the
// connection nor the session
func (C *Checker) c12goesOn(R *Report) {
	for _, how := range []string{"Handshake", "Dial"} {
		for _, cs := range C.connStates(R, how) {
			read := C.connMethod(R, "ReadMessage")
			if read == nil {
				return
			}
			E := C.newRun(&Cfg{})
			mon := newMon(func(m *tmon, st *State, e *Event) {
				switch {
				case e.Kind == "call" && isSockRead(e.Name):
					st.assume(mkEq(e.Res[len(e.Res)-1], vNil), true)
					m.n["read"] = 1
				case e.Kind == "call" && isMessageWrite(e.Name):
					m.n["wrote"] = 1
				case e.Kind == "call" && e.Name == wsPkg+"Close" && m.n["read"] > 0 && m.n["wrote"] == 0:
					st.violate("C12", C.short(e.Fn), "a message that was read ends the connection in "+C.short(e.Fn), posOf(e.Instr))
				}
			})
			C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
			R.take(E)
			R.count("read_messages", 1)
			break
		}
	}
	C.c12reader(R)
	// is the session told of such a message?
	told := false
	for _, r := range C.rootSet(R).roots {
		f, _ := calleeOf(r.fn)
		if r.kind != "go" || f == nil || !C.P.reaches(f, isSockRead) {
			continue
		}
		E := C.newRun(C.openCfg(R))
		mon := newMon(func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "call":
				if isSockRead(e.Name) {
					m.v["err"] = e.Res[len(e.Res)-1]
				}
			case "send", "selsend":
				if m.v["err"] == nil || e.Val == nil {
					return
				}
				var ct types.Type
				switch x := e.Instr.(type) {
				case *ssa.Send:
					ct = x.X.Type()
				case *ssa.Select:
					for _, c := range x.States {
						if c.Send != nil && st.val(st.top(), c.Chan) == e.Chan {
							ct = c.Send.Type()
						}
					}
				}
				if ct == nil || !isErrorType(ct) {
					return
				}
				ok, known := st.truth(mkEq(m.v["err"], vNil))
				none, kn := st.truth(mkEq(e.Val, vNil))
				if !known || !ok || !kn || none {
					return
				}
				for f, v := range st.facts {
					if v == vTrue && f.k == VApp && f.op != "==" && f.mentions(func(x *V) bool { return x == e.Val }) {
						return // known to be a certain error
					}
				}
				told = true
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
	}
	if !told {
		return
	}
	R.count("sessions_told", 1)
	et := C.P.SSA.ImportedPackage("errors")
	if !R.need(et != nil && et.Type("errorString") != nil, "errors.errorString") {
		return
	}
	for _, s := range C.allSessions(R) {
		s := s
		if f, _ := calleeOf(s.fn); f == nil || !C.P.reaches(f, isSockRead) {
			continue
		}
		lib := mkAlloc("an error of the library", et.Type("errorString").Type())
		bad := mkIface(types.NewPointer(et.Type("errorString").Type()), lib)
		elem := C.reqElem(R)
		E := C.newRun(&Cfg{
			OnGo: C.sessionGo,
			OnRecv: func(st *State, ch *V, t types.Type) *V {
				if elem != nil && types.Identical(t, elem) {
					return C.newRequest(st, elem)
				}
				if isErrorType(t) {
					return bad
				}
				return nil
			},
		})
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if st.inSpawned() {
				return
			}
			end := ""
			switch e.Kind {
			case "recv", "selrecv":
				delete(m.n, "bad")
				if e.Val == bad {
					m.n["bad"] = 1
					R.count("messages_not_understood", 1)
				}
			case "select", "ctxerr":
				delete(m.n, "bad") // it looks what else there is
			case "call":
				if e.Name == wsPkg+"Close" {
					end = "closes the connection"
				}
			case "end":
				end = "ends"
			}
			if end == "" || m.n["bad"] == 0 {
				return
			}
			for f, v := range st.facts {
				if v == vTrue && f.mentions(func(x *V) bool { return x == lib }) {
					return // known to be a certain error
				}
			}
			st.violate("C12", s.name, s.name+" "+end+" when a message was read that cannot be understood", e.fnPos())
		})
		C.runAll(E, s.st.then(E, mon, s.fn, s.args))
		R.take(E)
	}
}

func runC12(C *Checker, R *Report) {
	rs := C.rootSet(R)
	C.c12goesOn(R)
	for _, how := range []string{"Handshake", "Dial"} {
		for _, cs := range C.connStates(R, how) {
			C.closeEnds(R, cs)
			break
		}
	}
	for _, r := range rs.roots {
		if r.kind == "decoder" {
			continue
		}
		R.count("entry_points", 1)
		R.sample(r.name)
		E := C.newRun(C.openCfg(R))
		name := r.name
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if w, ok := watchDeadline(m, st, e); w {
				R.count("writes", 1)
				if !ok {
					st.violate("C12", C.short(e.Fn), "a frame is written without a deadline, so a peer that does not read blocks it for ever (from "+name+")", posOf(e.Instr))
				}
			}
			switch e.Kind {
			case "select":
				if !e.Block {
					return
				}
				R.count("waits", 1)
				var sends []SelCase
				for _, c := range e.Cases {
					if C.endsWait(st, c.Ch) != "" {
						return
					}
					if c.Send {
						sends = append(sends, c)
					}
				}
				for _, c := range sends {
					if ok, _ := C.hasRoom(R, m, st, c.Ch); ok {
						return
					}
				}
				st.violate("C12", C.short(e.Fn), "a wait has no alternative that is sure to come: neither the end of the connection nor a timer (from "+name+")", posOf(e.Instr))
			case "send":
				R.count("sends", 1)
				if ok, what := C.hasRoom(R, m, st, e.Chan); !ok {
					st.violate("C12", C.short(e.Fn), fmt.Sprintf("a send may wait for ever for a receiver of %s (from %s)", what, name), posOf(e.Instr))
				}
				st.sentOn(e.Chan)
			case "selsend":
				st.sentOn(e.Chan)
			case "recv":
				R.count("waits", 1)
				if C.endsWait(st, e.Chan) == "" && !st.chanClosed(e.Chan) {
					st.violate("C12", C.short(e.Fn), fmt.Sprintf("a receive from %v may wait for ever (from %s)", e.Chan, name), posOf(e.Instr))
				}
			case "go":
				// a goroutine that sends into a channel takes a place in its buffer
				f, _ := calleeOf(e.Recv)
				if f == nil || !C.sends(f, map[*ssa.Function]bool{}) {
					return
				}
				for v := range st.reach(append([]*V{e.Recv}, e.Args...)...) {
					o := st.objs[v]
					if o == nil || o.kind != "chan" || v.op != "chan" || st.oldChan(v) {
						continue
					}
					if o.cap.isInt() && o.cap.int() > 0 {
						if int64(o.sent) >= o.cap.int() {
							st.violate("C12", C.short(e.Fn), "more goroutines send into a channel than its buffer holds (from "+name+")", posOf(e.Instr))
						}
						st.sentOn(v)
					}
				}
			case "maypanic":
				if e.Name == "send on closed channel" {
					st.violate("C12", C.short(e.Fn), "a value is sent on a channel that is closed (from "+name+")", posOf(e.Instr))
				}
			case "call":
				if e.Name == "(*sync.WaitGroup).Wait" || e.Name == "(*sync.Cond).Wait" {
					st.violate("C12", C.short(e.Fn), "a wait on "+e.Name+" may never end (from "+name+")", posOf(e.Instr))
				}
			}
			watchTaken(m, st, e)
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
		R.take(E)
	}
	R.need(R.counts["sends"] > 0 || R.counts["waits"] > 0, "a channel operation")
	R.need(R.counts["writes"] > 0, "a frame that is written")
}

// oldChan: the channel is held by a shared object, not only by the function
func (st *State) oldChan(ch *V) bool {
	for l, v := range st.mem {
		if v == ch && l.base.k == VAlloc && l.path != "" && st.isPub(l.base) {
			return true
		}
	}
	return false
}

// sends: the function sends on a channel itself
func (C *Checker) sends(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || fn.Pkg != nil && !C.P.inRepo(fn.Pkg.Pkg) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case ssa.CallInstruction:
				if _, isGo := in.(*ssa.Go); !isGo && C.sends(x.Common().StaticCallee(), seen) {
					return true
				}
			}
		}
	}
	return false
}

// c12reader: a session waits for the requests of its connection only while
// something reads them
func (C *Checker) c12reader(R *Report) {
	elem := C.reqElem(R)
	loops := C.readerGoroutines(R)
	for _, s := range C.sessions(R) {
		E := C.sessionRun(R, s, func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "call":
				if strings.HasPrefix(e.Name, "(*github.com/gorilla/websocket.Dialer).Dial") || strings.HasSuffix(e.Name, ".Upgrade") {
					m.n["readers"] = 0
					delete(m.v, "reader")
				}
			case "go":
				f, _ := calleeOf(e.Recv)
				if f != nil && C.P.reaches(f, isSockRead) {
					m.n["readers"] = 1
					if loops[f] {
						m.n["readers"] = 2
					}
					m.v["reader"] = mkTuple(append([]*V{e.Recv}, e.Args...)...)
				}
			case "request":
				if m.n["readers"] == 0 {
					st.violate("C12", s.name, s.name+" waits for requests of a connection that nobody reads any more", posOf(e.Instr))
					st.done = true
				}
				if m.n["readers"] == 1 {
					m.n["readers"] = 0
				}
			case "recv", "selrecv":
				if r := m.v["reader"]; r != nil && m.n["readers"] == 1 && holdsChan(st, r, e.Chan) {
					m.n["readers"] = 0
				}
			case "select":
				sel, ok := e.Instr.(*ssa.Select)
				if !ok || !e.Block {
					return
				}
				for _, c := range sel.States {
					if c.Dir == types.RecvOnly && isReqChan(elem, c.Chan.Type()) {
						R.count("waits_for_requests", 1)
						if m.n["readers"] == 0 {
							st.violate("C12", s.name, s.name+" waits for requests of a connection that nobody reads any more", posOf(e.Instr))
							st.done = true
						}
						return
					}
				}
			}
		})
		R.take(E)
	}
}
