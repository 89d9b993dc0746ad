package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Rules about the sessions: the loops that take received requests, call the
// user's handler and answer.

func init() {
	rules["C09"] = rule{runC09, "The frame reader is interpreted for every well-formed CALL on an open connection: each path must end with exactly one error answer carrying the id of the call, or with exactly one hand-over of the request with that id. The session loops of both sides are interpreted to a fixpoint: between two received requests exactly one CALLRESULT or CALLERROR with the id of the first is written. The encoder of the answer is followed, also where it fails."}
	rules["C19"] = rule{runC19, "In the session loops of both sides, the SOAP handlers and the reader, abstractly interpreted to a fixpoint, the user's handler is called once per request of its own direction and never otherwise, with the value that was handed over, the identity taken from the request and the HTTP request; and the term that is written back must be the handler's result, or its error if it returned one."}
	rules["C29"] = rule{runC29, "A typestate of the session loops, interpreted to a fixpoint: no reader is started while one may still be reading, the handler and the answer run in the session's own goroutine, and the answer is written before the next request is taken; the reader hands a request over in the goroutine that read it, at most one per read."}
}

type session struct {
	name string
	side string // cs or cp
	st   *State
	fn   *V
	args []*V
}

// sessions: what runs a connection on either side
func (C *Checker) sessions(R *Report) []session {
	if C.sess != nil {
		return C.sess
	}
	// HTTP handlers the central system installs
	for _, c := range C.csNew(R) {
		m := C.P.Method(c.csys.t, "Run")
		if !R.need(m != nil && m.Blocks != nil, "Run of the central system") {
			continue
		}
		E := C.newRun(&Cfg{})
		seen := map[string]bool{}
		mon := newMon(func(mm *tmon, st *State, e *Event) {
			var vs []*V
			switch e.Kind {
			case "call":
				vs = e.Args
			case "store":
				vs = []*V{e.Val}
			}
			for _, v := range vs {
				if fn, pre := C.httpHandler(v); fn != nil {
					f, _ := calleeOf(fn)
					if seen[f.String()] {
						continue
					}
					seen[f.String()] = true
					s := st.clone()
					s.mon = nil
					C.sess = append(C.sess, session{"HTTP handler " + C.fnName(fn), "cs", s, fn, append(append([]*V(nil), pre...), httpArgs()...)})
				}
			}
		})
		C.runAll(E, c.st.then(E, mon, mkFunc(m), methodArgs(c.csys.args[0], m)))
		R.take(E)
		R.need(len(seen) > 0, "the HTTP handler of the central system")
	}
	if f := C.P.Func("cp", "New"); R.need(f != nil, "cp.New") {
		E := C.newRun(&Cfg{RecordSpawns: true})
		C.runAll(E, start(E, nil, mkFunc(f), params(f)))
		for _, sp := range E.Spawns {
			s := sp.st.clone()
			s.mon = nil
			C.sess = append(C.sess, session{"goroutine " + C.fnName(sp.fn), "cp", s, sp.fn, sp.args})
		}
		R.need(len(E.Spawns) > 0, "the goroutine of a charge point")
	}
	return C.sess
}

// allSessions: the sessions, and those of the central system again in what an
// earlier request left behind
func (C *Checker) allSessions(R *Report) []session {
	if C.sessAll == nil {
		ss := C.sessions(R)
		C.sessAll = append([]session(nil), ss...)
		for _, s := range ss {
			if s.side != "cs" {
				continue
			}
			for _, st := range C.afterEarlier(R, s.st, s.fn, s.args, 2) {
				C.sessAll = append(C.sessAll, session{s.name + " after an earlier request", s.side, st, s.fn, s.args})
			}
		}
	}
	R.count("later_sessions", len(C.sessAll)-len(C.sess))
	return C.sessAll
}

// afterEarlier: what an earlier request to the same handler leaves behind:
// one that is over, and one whose connection is still open
func (C *Checker) afterEarlier(R *Report, st *State, fn *V, as []*V, max int) []*State {
	var out []*State
	elem := C.reqElem(R)
	args := append([]*V(nil), as...)
	for i, a := range args {
		switch a {
		case httpW:
			args[i] = httpW2
		case httpR:
			args[i] = httpR2
		}
	}
	E := C.newRun(&Cfg{
		OnGo: C.sessionGo,
		OnRecv: func(st *State, ch *V, t types.Type) *V {
			if elem != nil && types.Identical(t, elem) {
				return C.newRequest(st, elem)
			}
			return nil
		},
	})
	seen := map[string]bool{}
	n := map[string]int{}
	keep := func(kind string, st *State) {
		x := st.clone()
		x.mon = nil
		x.threads = nil
		k := x.key()
		if seen[k] || n[kind] >= max {
			return
		}
		seen[k] = true
		n[kind]++
		out = append(out, x)
	}
	mon := newMon(func(m *tmon, st *State, e *Event) {
		switch e.Kind {
		case "call":
			if isUpgrade(e.Name) && !st.inSpawned() {
				st.assume(mkEq(e.Res[1], vNil), true)
				m.n["up"] = 1
			}
		case "select", "recv":
			if e.Block && m.n["up"] == 1 && !st.inSpawned() {
				m.n["up"] = 2
				keep("open", st)
			}
		}
	})
	from := st.clone()
	from.publish(fn)
	from.note["handler"] = mkTuple(append([]*V{fn}, as...)...)
	for _, r := range C.runAll(E, from.then(E, mon, fn, args)) {
		keep("over", r.st)
	}
	R.take(E)
	return out
}

// waits: the function can block on a channel
func (P *Prog) waits(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || fn.Pkg != nil && !P.inRepo(fn.Pkg.Pkg) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				if _, isGo := in.(*ssa.Go); !isGo && P.waits(x.Common().StaticCallee(), seen) {
					return true
				}
			}
		}
	}
	return false
}

// sessionGo: short goroutines are followed in place, readers and those that wait are not
func (C *Checker) sessionGo(st *State, fn *V, args []*V, in ssa.Instruction) int {
	f, _ := calleeOf(fn)
	if f == nil {
		return 0 // a listener of the user
	}
	if C.P.reaches(f, isSockRead) || C.P.waits(f, map[*ssa.Function]bool{}) {
		return 0
	}
	return 1
}

// newRequest makes a received request
func (C *Checker) newRequest(st *State, elem types.Type) *V {
	t := elem
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return mkSym("nn:received", elem)
	}
	var vs []*V
	for i := 0; i < s.NumFields(); i++ {
		l := "part"
		if nilable(s.Field(i).Type()) {
			l = "nn:request"
		}
		vs = append(vs, mkSym(l, s.Field(i).Type()))
	}
	if !ptr {
		return mkStruct(t, vs)
	}
	a := mkAlloc("received", t)
	st.store(Loc{a, ""}, t, mkStruct(t, vs))
	return a
}

// inSpawned: the current function runs in a goroutine that was followed in place
func (st *State) inSpawned() bool {
	for _, f := range st.th().frames {
		if f.spawned || f.hookID == "go" {
			return true
		}
	}
	return false
}

// sessionRun interprets a session with a monitor; requests are delivered as
// fresh values and "handler" tells about calls of the user's handler
func (C *Checker) sessionRun(R *Report, s session, h func(m *tmon, st *State, e *Event)) *Explorer {
	elem := C.reqElem(R)
	E := C.newRun(&Cfg{
		OnGo: C.sessionGo,
		OnRecv: func(st *State, ch *V, t types.Type) *V {
			if elem != nil && types.Identical(t, elem) {
				return C.newRequest(st, elem)
			}
			return nil
		},
	})
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if (e.Kind == "recv" || e.Kind == "selrecv") && e.Val != nil && elem != nil {
			var ct types.Type
			switch x := e.Instr.(type) {
			case *ssa.UnOp:
				ct = x.X.Type()
			case *ssa.Select:
				for _, c := range x.States {
					if st.val(st.top(), c.Chan) == e.Chan {
						ct = c.Chan.Type()
					}
				}
			}
			if ct != nil && isReqChan(elem, ct) {
				req, id := C.reqParts(st, elem, e.Val)
				if req == nil || id == nil {
					st.violate(R.ID, s.name, "the parts of a received request are not known", posOf(e.Instr))
					return
				}
				h(m, st, &Event{Kind: "request", Val: req, Recv: id, Instr: e.Instr, Fn: e.Instr.Parent(), Chan: e.Chan})
				m.v["req"], m.v["id"] = req, id
				m.n["requests"] = 1
				return
			}
		}
		if e.Kind == "user" && isHandlerSig(C, e) {
			h(m, st, &Event{Kind: "handler", Recv: e.Recv, Args: e.Args, Res: e.Res, Instr: e.Instr, Fn: e.Instr.Parent()})
			return
		}
		if e.Kind == "call" && isMessageWrite(e.Name) {
			if fr := writtenFrame(st, e); fr == nil || fr.kind == 3 || fr.kind == 4 {
				ne := *e
				ne.Kind = "answer"
				h(m, st, &ne)
				return
			}
		}
		h(m, st, e)
	})
	C.runAll(E, s.st.then(E, mon, s.fn, s.args))
	return E
}

// isHandlerSig: the user function takes a request and gives a response and an error
func isHandlerSig(C *Checker, e *Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	sig := ci.Common().Signature()
	return handlerParam(C, sig) != nil
}

func handlerParam(C *Checker, sig *types.Signature) types.Type {
	if sig.Results().Len() != 2 || sig.Params().Len() < 1 || !isErrorType(sig.Results().At(1).Type()) {
		return nil
	}
	for _, n := range [][2]string{{"messages/v1x/cpreq", "ChargePointRequest"}, {"messages/v1x/csreq", "CentralSystemRequest"}} {
		if t := C.P.Type(n[0], n[1]); t != nil && types.Identical(sig.Params().At(0).Type(), t) {
			return t
		}
	}
	return nil
}

// ---- C09

func runC09(C *Checker, R *Report) {
	read := C.connMethod(R, "ReadMessage")
	elem := C.reqElem(R)
	if read != nil && elem != nil {
		for _, how := range []string{"Handshake", "Dial"} {
			cs := C.connStates(R, how)
			if len(cs) > 0 {
				C.c09read(R, cs[0], read, elem)
			}
		}
	}
	sides := map[string]int{}
	for _, s := range C.allSessions(R) {
		got := 0
		E := C.sessionRun(R, s, func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "request":
				got++
				R.count("requests_followed", 1)
				if m.n["pending"] > 0 {
					st.violate("C09", s.name, "the next request is taken although the previous one was not answered", posOf(e.Instr))
				}
				m.n["pending"] = 1
			case "answer":
				if m.n["requests"] == 0 {
					return
				}
				R.count("answers_checked", 1)
				fr := writtenFrame(st, e)
				if fr == nil {
					st.violate("C09", s.name, "what is written for a request is not a frame of known layout: "+showArgs(e), posOf(e.Instr))
					m.n["pending"] = 0
					return
				}
				if len(fr.parts) < 2 || !sameContent(st, fr.parts[1], m.v["id"]) {
					st.violate("C09", s.name, fmt.Sprintf("the answer carries %v, not the message id of the request", fr.parts[1]), posOf(e.Instr))
				} else if m.n["pending"] == 0 {
					st.violate("C09", s.name, "a request is answered more than once", posOf(e.Instr))
				} else if fr.kind == 3 && len(fr.raw) > 2 {
					if none, known := st.truth(mkEq(fr.raw[2], vNil)); !known || none {
						st.violate("C09", s.name, "the answer may be a CALLRESULT without payload", posOf(e.Instr))
					}
				}
				m.n["pending"] = 0
			case "end":
				if m.n["pending"] > 0 && e.Recv == nil {
					st.violate("C09", s.name, "the session ends without an answer to the request it took", posOf(e.Instr))
				}
			}
		})
		R.take(E)
		if got > 0 {
			sides[s.side]++
			R.sample("session loop: " + s.name)
		}
	}
	R.need(sides["cs"] > 0, "a loop of the central system that takes requests of a connection")
	R.need(sides["cp"] > 0, "a loop of the charge point that takes requests of a connection")
}

func showArgs(e *Event) string {
	var s []string
	for _, a := range e.Args {
		s = append(s, a.show(6))
	}
	return strings.Join(s, ", ")
}

func (C *Checker) c09read(R *Report, cs connSt, read *ssa.Function, elem types.Type) {
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = C.sessionGo
	key := "ws.ReadMessage"
	mon := newMon(func(m *tmon, st *State, e *Event) {
		assumeFrame(m, st, e, shapeCall)
		if src := frameSource(m, st); src != nil {
			st.violate("C09", key, fmt.Sprintf("what is decoded is %v, not the message that was received", src), posOf(e.Instr))
			st.done = true
		}
		if st.done {
			return
		}
		id := m.v["part1"]
		hand := func(ch *V, t types.Type, val *V) {
			if !isReqChan(elem, t) {
				return
			}
			req, rid := C.reqParts(st, elem, val)
			R.count("hand_overs", 1)
			if req == nil || rid == nil || id == nil || !sameContent(st, rid, id) {
				st.violate("C09", key, fmt.Sprintf("a request is handed over with id %v, not with the id of its call", rid), posOf(e.Instr))
			}
			m.n["done"]++
		}
		switch e.Kind {
		case "send":
			hand(e.Chan, e.Instr.(*ssa.Send).Chan.Type(), e.Val)
		case "select":
			if e.Chosen >= 0 && e.Cases[e.Chosen].Send {
				hand(e.Cases[e.Chosen].Ch, e.Instr.(*ssa.Select).States[e.Chosen].Chan.Type(), e.Cases[e.Chosen].Val)
			}
		case "call":
			if !isMessageWrite(e.Name) {
				return
			}
			fr := writtenFrame(st, e)
			R.count("answers_checked", 1)
			switch {
			case fr == nil:
				st.violate("C09", key, "what is written for a call is not a frame of known layout", posOf(e.Instr))
			case fr.kind != 3 && fr.kind != 4:
				return
			case id == nil || !sameContent(st, fr.parts[1], id):
				st.violate("C09", key, fmt.Sprintf("the answer carries %v, not the message id of the call", fr.parts[1]), posOf(e.Instr))
			}
			m.n["done"]++
		case "end":
			R.count("reader_paths", 1)
			switch {
			case m.n["reads"] == 0:
			case e.Recv != nil: // C08
			case m.n["done"] > 1:
				st.violate("C09", key, "a received call is answered or handed over more than once", e.fnPos())
			case m.n["done"] == 0 && !closedNow(st, cs.conn):
				st.violate("C09", key, "a received call is neither answered nor handed over although the connection is open", e.fnPos())
			}
		}
	})
	st := cs.st.then(E, mon, mkFunc(read), []*V{cs.conn})
	C.runAll(E, st)
	R.take(E)
	R.need(R.counts["hand_overs"] > 0, "a path that hands a received request over")
}

// closedNow: the path found the connection closed
func closedNow(st *State, conn *V) bool {
	for ch, o := range st.objs {
		if isDone(ch) && o.closed {
			return true
		}
	}
	return false
}

func (e *Event) fnPos() token.Pos {
	if e.Instr != nil {
		return posOf(e.Instr)
	}
	return token.NoPos
}

// ---- C19

func runC19(C *Checker, R *Report) {
	C.c19paths(R)
	sides := map[string]int{}
	for _, s := range C.allSessions(R) {
		got := 0
		E := C.sessionRun(R, s, func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "request":
				m.n["called"] = 0
				delete(m.v, "resp")
				delete(m.v, "err")
			case "handler":
				R.count("handler_calls", 1)
				got++
				if m.n["requests"] == 0 {
					return // SOAP
				}
				m.n["called"]++
				if m.n["called"] > 1 {
					st.violate("C19", s.name, "the handler is called more than once for a request", posOf(e.Instr))
				}
				C.c19call(s, st, e, m.v["req"])
				m.v["resp"], m.v["err"] = e.Res[0], e.Res[1]
			case "answer":
				if m.n["requests"] == 0 || m.v["req"] == nil {
					return
				}
				R.count("outcomes_checked", 1)
				own, known := handlerImplements(C, st, m.v["req"], s.side)
				fr := writtenFrame(st, e)
				if fr == nil {
					return // C09
				}
				if m.n["called"] == 0 {
					if known && own {
						st.violate("C19", s.name, "a request of the handler's own direction is answered without calling the handler", posOf(e.Instr))
					} else if fr.kind != 4 {
						st.violate("C19", s.name, "a request is answered with a result although the handler was not called", posOf(e.Instr))
					}
					return
				}
				C.c19outcome(R, s.name, st, fr, m.v["resp"], m.v["err"], posOf(e.Instr))
			}
		})
		R.take(E)
		if got > 0 {
			sides[s.side]++
		}
	}
	R.need(sides["cs"] > 0, "a call of the central system's handler")
	R.need(sides["cp"] > 0, "a call of the charge point's handler")
	C.c19handover(R)
	C.c19soap(R)
}

func sideType(C *Checker, side string) types.Type {
	if side == "cs" {
		return C.P.Type("messages/v1x/cpreq", "ChargePointRequest")
	}
	return C.P.Type("messages/v1x/csreq", "CentralSystemRequest")
}

// handlerImplements: is the request of the direction this side handles
func handlerImplements(C *Checker, st *State, req *V, side string) (own, known bool) {
	t := sideType(C, side)
	if t == nil {
		return false, false
	}
	return st.truth(mkAppT("implements", t, req))
}

// isIdentity: the term is the requested path without its leading slash
func isIdentity(v *V) bool {
	path := func(x *V) bool {
		if x.k != VApp || x.op != "ld" || extField("net/url", "URL", x.args[1].str()) != "Path" {
			return false
		}
		u := x.args[0]
		return u.k == VApp && u.op == "ld" && u.args[0] == httpR && extField("net/http", "Request", u.args[1].str()) == "URL"
	}
	if v == nil || v.k != VApp {
		return false
	}
	switch {
	case v.op == "strings.TrimPrefix" && path(v.args[0]) && v.args[1].isStr() && v.args[1].str() == "/":
		return true
	case v.op == "subslice" && len(v.args) == 2 && path(v.args[0]) && v.args[1].isInt() && v.args[1].int() == 1:
		return true
	}
	return false
}

func (C *Checker) c19call(s session, st *State, e *Event, req *V) {
	C.loadExt()
	if len(e.Args) == 0 || !(e.Args[0] == req || unwrap(e.Args[0]) == req) {
		st.violate("C19", s.name, fmt.Sprintf("the handler is given %v, not the request that was received", e.Args[0]), posOf(e.Instr))
	}
	own, known := handlerImplements(C, st, req, s.side)
	if !known || !own {
		st.violate("C19", s.name, "the handler is called with a request that was not found to be of its direction", posOf(e.Instr))
	}
	c19metadata(s.name, s.side, st, e, isIdentity, "the identity in the requested path")
}

// c19metadata: what the central system's handler is told about the sender
func c19metadata(name, side string, st *State, e *Event, isID func(*V) bool, what string) {
	if side == "cp" || len(e.Args) < 2 {
		return
	}
	id := func(v *V) {
		if !isID(v) {
			st.violate("C19", name, fmt.Sprintf("the handler is told that %v sent the request, which is not %s", v, what), posOf(e.Instr))
		}
	}
	md := e.Instr.(ssa.CallInstruction).Common().Signature().Params().At(1).Type()
	str, ok := md.Underlying().(*types.Struct)
	if !ok {
		id(e.Args[1]) // soap.Handle
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		v := structField(e.Args[1], i)
		switch {
		case str.Field(i).Type().String() == "*net/http.Request":
			if v != httpR {
				st.violate("C19", name, fmt.Sprintf("the handler is given %v, not the HTTP request the message came in on", v), posOf(e.Instr))
			}
		case str.Field(i).Name() == "ChargePointID":
			id(v)
		}
	}
}

// c19outcome: the written frame is what the handler returned
func (C *Checker) c19outcome(R *Report, name string, st *State, fr *frame, resp, err *V, pos token.Pos) {
	if resp == nil || err == nil {
		return
	}
	noErr, known := st.truth(mkEq(err, vNil))
	switch fr.kind {
	case 3:
		if !known || !noErr {
			st.violate("C19", name, "a result is sent although the handler may have returned an error", pos)
		} else if len(fr.parts) < 3 || !sameContent(st, fr.parts[2], resp) {
			st.violate("C19", name, fmt.Sprintf("%v is sent, not the response the handler returned", fr.parts[2]), pos)
		}
	case 4:
		switch {
		case known && !noErr:
			if len(fr.parts) < 4 || !sameContent(st, fr.parts[3], errText(err)) {
				st.violate("C19", name, fmt.Sprintf("the error %v is sent, not the text of the handler's error", fr.parts[3]), pos)
			}
		case known && noErr:
			isNil, k := st.truth(mkEq(resp, vNil))
			bad := false
			for a, b := range st.facts {
				if a.k == VApp && a.op == "jsonfails" && b == vTrue && a.mentions(func(x *V) bool { return x == resp }) {
					bad = true
				}
			}
			if !(k && isNil) && !bad {
				st.violate("C19", name, "an error is sent although the handler returned a response that can be encoded", pos)
			}
		default:
			st.violate("C19", name, "an error is sent without looking at the error of the handler", pos)
		}
	}
}

// c19handover: what the reader hands over was decoded from the payload of
// the call, as the request of the call's action
func (C *Checker) c19handover(R *Report) {
	read := C.connMethod(R, "ReadMessage")
	elem := C.reqElem(R)
	if read == nil || elem == nil {
		return
	}
	cs := C.connStates(R, "Handshake")
	if len(cs) == 0 {
		return
	}
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = C.sessionGo
	mon := newMon(func(m *tmon, st *State, e *Event) {
		assumeFrame(m, st, e, shapeCall)
		if st.done {
			return
		}
		var val *V
		switch e.Kind {
		case "send":
			if isReqChan(elem, e.Instr.(*ssa.Send).Chan.Type()) {
				val = e.Val
			}
		case "select":
			if e.Chosen >= 0 && e.Cases[e.Chosen].Send && isReqChan(elem, e.Instr.(*ssa.Select).States[e.Chosen].Chan.Type()) {
				val = e.Cases[e.Chosen].Val
			}
		}
		if val == nil {
			return
		}
		R.count("hand_overs", 1)
		req, _ := C.reqParts(st, elem, val)
		if req == nil {
			return
		}
		if req.k != VIface {
			st.violate("C19", "ws.ReadMessage", fmt.Sprintf("the request handed over is %v, whose type is not known", req), posOf(e.Instr))
			return
		}
		content := st.load(req.args[0].loc(), pointee(req.t))
		ok := m.v["part3"] != nil && decodedFrom(content, m.v["part3"])
		if !ok {
			st.violate("C19", "ws.ReadMessage", fmt.Sprintf("the request handed over holds %v, not what was decoded from the payload of the call", content), posOf(e.Instr))
			return
		}
		// the action of the request is the action of the call
		act := m.v["part2"]
		found := false
		for a, b := range st.facts {
			if a.k == VApp && a.op == "==" && b == vTrue && (a.args[0] == act || a.args[1] == act) {
				found = true
				k := a.args[1]
				if k == act {
					k = a.args[0]
				}
				if want := C.actionOf(req.t); want != nil && k.isStr() && k != want {
					st.violate("C19", "ws.ReadMessage", fmt.Sprintf("a call of %v is handed over as %s", k, shortType(req.t)), posOf(e.Instr))
				}
			}
		}
		_ = found
	})
	C.runAll(E, cs[0].st.then(E, mon, mkFunc(read), []*V{cs[0].conn}))
	R.take(E)
}

// decodedFrom: the value is what one decoding of something with the part gave
func decodedFrom(v, part *V) bool {
	if v == nil || part == nil {
		return false
	}
	if v.k == VStruct {
		var from *V
		for i, x := range v.args {
			if x.k == VStruct && len(x.args) == 0 {
				continue
			}
			if x.k != VApp || x.op != "fld"+itoa(i) || from != nil && x.args[0] != from {
				return false
			}
			from = x.args[0]
		}
		v = from
	}
	return v != nil && v.k == VApp && v.op == "dec" && v.mentions(func(x *V) bool { return x == part })
}

// actionOf: the constant the request type reports as its action
func (C *Checker) actionOf(t types.Type) *V {
	m := C.P.Method(t, "Action")
	if m == nil || m.Blocks == nil {
		return nil
	}
	E := C.newRun(&Cfg{})
	for _, r := range C.runAll(E, start(E, nil, mkFunc(m), []*V{mkSym("nn:recv", t)})) {
		if len(r.res) == 1 && r.res[0].isStr() {
			return r.res[0]
		}
	}
	return nil
}

// ---- C29

func runC29(C *Checker, R *Report) {
	loops := C.readerGoroutines(R)
	sides := map[string]int{}
	for _, s := range C.sessions(R) {
		got := 0
		E := C.sessionRun(R, s, func(m *tmon, st *State, e *Event) {
			C.c29others(s, st, e)
			switch e.Kind {
			case "call":
				switch {
				case strings.HasPrefix(e.Name, "(*github.com/gorilla/websocket.Dialer).Dial") || strings.HasSuffix(e.Name, ".Upgrade"):
					m.n["readers"] = 0
					m.v["reader"] = nil
					delete(m.v, "reader")
				case isSockRead(e.Name):
					R.count("reads_in_session", 1)
					if m.n["readers"] > 0 {
						st.violate("C29", s.name, "the session reads from the connection while another reader may still be reading", posOf(e.Instr))
					}
				}
			case "go":
				f, _ := calleeOf(e.Recv)
				if f == nil || !C.P.reaches(f, isSockRead) {
					return
				}
				R.count("reader_starts", 1)
				if m.n["readers"] > 0 {
					st.violate("C29", s.name, "a second reader is started while one may still be reading", posOf(e.Instr))
				}
				m.n["readers"] = 1
				m.v["reader"] = mkTuple(append([]*V{e.Recv}, e.Args...)...)
				m.n["loop"] = 0
				if loops[f] {
					m.n["loop"] = 1
				}
			case "recv", "selrecv":
				// the end of the reader
				if r := m.v["reader"]; r != nil && holdsChan(st, r, e.Chan) {
					m.n["readers"] = 0
				}
			case "request":
				got++
				if m.n["loop"] == 0 {
					m.n["readers"] = 0 // a reader ends after the hand-over
				}
				if m.n["pending"] > 0 {
					st.violate("C29", s.name, "the next request is taken before the previous one was answered", posOf(e.Instr))
				}
				if st.inSpawned() {
					st.violate("C29", s.name, "requests are taken in more than one goroutine of the session", posOf(e.Instr))
				}
				m.n["pending"] = 1
			case "handler":
				if m.n["requests"] == 0 {
					return
				}
				R.count("handler_calls", 1)
				for _, h := range st.heldNow() {
					if s.side == "cs" && !s.owns(st, h.l.base) {
						st.violate("C29", s.name, "the handler is called while "+C.locName(h.l)+" is held, which other connections may wait for", posOf(e.Instr))
					}
				}
				if st.inSpawned() {
					st.violate("C29", s.name, "the handler is called in a goroutine of its own", posOf(e.Instr))
				}
			case "answer":
				if m.n["requests"] == 0 {
					return
				}
				R.count("answers", 1)
				if st.inSpawned() {
					st.violate("C29", s.name, "the answer is sent in a goroutine of its own", posOf(e.Instr))
				}
				m.n["pending"] = 0
			}
		})
		R.take(E)
		if got > 0 {
			sides[s.side]++
		}
	}
	R.need(sides["cs"] > 0, "a loop of the central system that takes requests of a connection")
	R.need(sides["cp"] > 0, "a loop of the charge point that takes requests of a connection")
	R.need(R.counts["reader_starts"] > 0 || R.counts["reads_in_session"] > 0, "a reader of the connection")
	// the reader hands over in its own goroutine
	read := C.connMethod(R, "ReadMessage")
	elem := C.reqElem(R)
	cs := C.connStates(R, "Handshake")
	if read == nil || elem == nil || len(cs) == 0 {
		return
	}
	E := C.newRun(C.openCfg(R))
	E.Cfg.OnGo = func(st *State, fn *V, args []*V, in ssa.Instruction) int { return 1 }
	mon := newMon(func(m *tmon, st *State, e *Event) {
		assumeFrame(m, st, e, shapeCall)
		if st.done {
			return
		}
		is := false
		switch e.Kind {
		case "call":
			if isSockRead(e.Name) {
				m.n["handed"] = 0
				if st.inSpawned() {
					st.violate("C29", "ws.ReadMessage", "the connection is read in a goroutine the reader starts", posOf(e.Instr))
				}
			}
		case "send":
			is = isReqChan(elem, e.Instr.(*ssa.Send).Chan.Type())
		case "select":
			is = e.Chosen >= 0 && e.Cases[e.Chosen].Send && isReqChan(elem, e.Instr.(*ssa.Select).States[e.Chosen].Chan.Type())
		}
		if is {
			R.count("hand_overs", 1)
			m.n["handed"]++
			if m.n["handed"] > 1 {
				st.violate("C29", "ws.ReadMessage", "a request is handed over more than once", posOf(e.Instr))
			}
			if st.inSpawned() {
				st.violate("C29", "ws.ReadMessage", "a request is handed over in a goroutine of its own, so later requests can overtake it", posOf(e.Instr))
			}
		}
	})
	C.runAll(E, cs[0].st.then(E, mon, mkFunc(read), []*V{cs[0].conn}))
	R.take(E)
}

// owns: the session itself made the object
func (s session) owns(st *State, v *V) bool {
	for v.k == VPtr {
		v = v.args[0]
	}
	return v.k == VAlloc && !st.E.basePub[v] && !s.st.isPub(v) && s.st.objs[v] == nil
}

// c29others: a session of the central system does not wait for other ones
func (C *Checker) c29others(s session, st *State, e *Event) {
	if s.side != "cs" || st.inSpawned() {
		return
	}
	viol := func(msg string) { st.violate("C29", s.name, s.name+" "+msg, posOf(e.Instr)) }
	switch {
	case e.Kind == "answer" || e.Kind == "call" && isSockRead(e.Name):
		for _, h := range st.heldNow() {
			if !s.owns(st, h.l.base) {
				viol("uses the connection while " + C.locName(h.l) + " is held, which other connections may wait for")
			}
		}
	case e.Kind == "call" && (e.Name == "(*sync.WaitGroup).Wait" || e.Name == "(*sync.Cond).Wait"):
		if len(e.Args) > 0 && !s.owns(st, e.Args[0]) {
			viol("waits for something that other connections share")
		}
	case e.Kind == "send" || e.Kind == "recv" || e.Kind == "select" && e.Block:
		foreign, progress := false, false
		for _, c := range waitCases(e) {
			if c.Ch == nil || isDone(c.Ch) || isTimer(st, c.Ch) || st.chanClosed(c.Ch) {
				continue
			}
			if s.owns(st, c.Ch) || c.Ch.k == VAlloc && !st.isPub(c.Ch) {
				progress = true
			} else {
				foreign = true
			}
		}
		if foreign && !progress {
			viol("waits on a channel that other connections share")
		}
	}
}

// readerGoroutines: which goroutine functions read again after a hand-over
func (C *Checker) readerGoroutines(R *Report) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	elem := C.reqElem(R)
	for _, r := range C.rootSet(R).roots {
		f, _ := calleeOf(r.fn)
		if r.kind != "go" || f == nil || !C.P.reaches(f, isSockRead) {
			continue
		}
		E := C.newRun(C.openCfg(R))
		mon := newMon(func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "call":
				if isSockRead(e.Name) && m.n["handed"] > 0 {
					out[f] = true
				}
			case "send":
				if isReqChan(elem, e.Instr.(*ssa.Send).Chan.Type()) {
					m.n["handed"] = 1
				}
			case "select":
				if e.Chosen >= 0 && e.Cases[e.Chosen].Send && isReqChan(elem, e.Instr.(*ssa.Select).States[e.Chosen].Chan.Type()) {
					m.n["handed"] = 1
				}
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
		R.count("reader_goroutines", 1)
	}
	return out
}

// holdsChan: the goroutine was given the channel
func holdsChan(st *State, g *V, ch *V) bool {
	if ch == nil || isDone(ch) {
		return false
	}
	return g.mentions(func(x *V) bool {
		if x == ch {
			return true
		}
		if x.k == VAlloc {
			if v, ok := st.mem[Loc{x, ""}]; ok && v == ch {
				return true
			}
		}
		return false
	})
}

// c19paths: an HTTP server that tells requests apart by their path handles
// every path, as the identity of a charge point can be any
func (C *Checker) c19paths(R *Report) {
	type reg struct {
		pos token.Pos
		fn  *ssa.Function
		pat string
	}
	regs := map[*types.Package][]reg{}
	all := map[*types.Package]bool{}
	for fn := range ssautil.AllFunctions(C.P.SSA) {
		if fn.Blocks == nil || !C.P.ownFunc(fn) || fn.Package() == nil {
			continue
		}
		for _, c := range callsIn(fn) {
			com := c.Common()
			f := com.StaticCallee()
			if f == nil {
				continue
			}
			i := 0
			switch f.String() {
			case "net/http.HandleFunc", "net/http.Handle":
			case "(*net/http.ServeMux).HandleFunc", "(*net/http.ServeMux).Handle":
				i = 1
			default:
				continue
			}
			p := fn.Package().Pkg
			k, ok := com.Args[i].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				all[p] = true // cannot tell
				continue
			}
			pat := constant.StringVal(k.Value)
			R.count("paths_registered", 1)
			if pat == "/" || strings.HasPrefix(pat, "/{") && strings.HasSuffix(pat, "...}") && strings.Count(pat, "/") == 1 {
				all[p] = true
				continue
			}
			regs[p] = append(regs[p], reg{c.Pos(), fn, pat})
		}
	}
	for p, rs := range regs {
		if !all[p] {
			for _, r := range rs {
				R.add(C.short(r.fn), "requests are only handled if their path fits "+strconv.Quote(r.pat), r.pos, nil)
			}
		}
	}
}
