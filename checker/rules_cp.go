package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the charge point.

func init() {
	rules["C21"] = rule{runC21, "The goroutine that cp.New starts for a JSON charge point is abstractly interpreted to a fixpoint over every sequence of losses and failed or successful dials. A typestate monitor checks that every wait of a connected charge point has the end of its connection as alternative, that after it a dial with the same URL and subprotocol as that of cp.New follows, that between failed dials a bounded timer runs, that the goroutine ends only when its context was cancelled, and that after a successful dial Connection, WaitConnect, WaitDisconnect, Send, the reader and the next wait all use the new connection."}
	rules["C22"] = rule{runC22, "Every goroutine that cp.New starts is interpreted to a fixpoint with cancellation possible at every wait: each wait has the context or a timer as alternative, the context is checked between the last wait and each dial, a cancellation that was noticed ends the goroutine, and it does not end before the socket is closed; the HTTP server of a SOAP charge point and the goroutine that waits for the cancellation are interleaved, and that goroutine must close the same server or outlive it."}
}

// cpWorld is a charge point made by cp.New, for one version and transport
type cpWorld struct {
	version   string
	transport string
	f         *ssa.Function
	id, url   *V
	ctx       *V // the context, without its interface
	port      *V
	ends      []endRec // New returned
	spawns    []cpSpawn
}

type cpSpawn struct {
	sp   Spawn
	sock *V
	dial []*V // URL and subprotocols of the dial of New
}

// cpWorlds runs cp.New for every version and transport
func (C *Checker) cpWorlds(R *Report) []cpWorld {
	if C.cpw != nil {
		return C.cpw
	}
	C.loadExt()
	f := C.P.Func("cp", "New")
	if !R.need(f != nil, "cp.New") {
		return nil
	}
	for _, v := range []string{"V15", "V16"} {
		for _, t := range []string{"JSON", "SOAP"} {
			w := cpWorld{version: v, transport: t, f: f}
			args, ok := C.cpArgs(R, &w)
			if !ok {
				return nil
			}
			E := C.newRun(&Cfg{RecordSpawns: true})
			w.ends = C.runAll(E, start(E, newMon(C.watchDial), mkFunc(f), args))
			R.take(E)
			for _, sp := range E.Spawns {
				m := sp.st.mon.(*tmon)
				x := cpSpawn{sp: sp, sock: m.v["sock"]}
				if d := m.v["dial"]; d != nil {
					x.dial = d.args
				}
				w.spawns = append(w.spawns, x)
			}
			C.cpw = append(C.cpw, w)
		}
	}
	return C.cpw
}

func (C *Checker) cpArgs(R *Report, w *cpWorld) ([]*V, bool) {
	args := params(w.f)
	n := 0
	vc := C.versionConst(w.version)
	tc := C.versionConst(w.transport)
	if !R.need(vc != nil && tc != nil, "ocpp."+w.version+" and ocpp."+w.transport) {
		return nil, false
	}
	for i, p := range w.f.Params {
		switch {
		case types.Identical(p.Type(), C.P.Type("", "Version")):
			args[i] = vc
		case types.Identical(p.Type(), C.P.Type("", "Transport")):
			args[i] = tc
		case p.Type().String() == "string":
			if n == 0 {
				w.id = args[i]
			} else if n == 1 {
				w.url = args[i]
			}
			n++
		case p.Type().String() == "context.Context":
			w.ctx = args[i]
		case p.Type().String() == "*string":
			args[i] = mkSym("param "+p.Name(), p.Type())
			w.port = args[i]
		}
	}
	return args, R.need(w.id != nil && w.url != nil && w.ctx != nil, "context, identity and URL among the parameters of cp.New")
}

func isDial(name string) bool {
	return strings.HasPrefix(name, "(*github.com/gorilla/websocket.Dialer).Dial")
}

// dialOf: URL and subprotocols of a dial
func dialOf(m *tmon, st *State, e *Event) (url *V, ps []*V, ctx *V) {
	as := e.Args[1:]
	if strings.HasSuffix(e.Name, "Context") {
		ctx = unwrap(as[0])
		as = as[1:]
	}
	if sp := fieldByName(st, e.Args[0], "github.com/gorilla/websocket", "Dialer", "Subprotocols"); sp != nil {
		if es, ok := st.sliceElems(sp); ok {
			ps = es
		}
	}
	if len(ps) == 0 {
		ps = headerProtocols(m, st, as[1])
	}
	return as[0], ps, ctx
}

func (C *Checker) watchDial(m *tmon, st *State, e *Event) {
	watchHeader(m, st, e)
	if e.Kind == "call" && isDial(e.Name) {
		u, ps, _ := dialOf(m, st, e)
		m.v["sock"] = e.Res[0]
		m.v["err"] = e.Res[len(e.Res)-1]
		m.v["dial"] = mkTuple(append([]*V{u}, ps...)...)
	}
}

// cpOf: the charge point a goroutine works for
func (C *Checker) cpOf(w *cpWorld, s *cpSpawn) *V {
	r := s.sp.st.reach(append([]*V{s.sp.fn}, s.sp.args...)...)
	for _, e := range w.ends {
		if e.panicked == nil && len(e.res) == 2 && e.res[0].k == VAlloc && r[e.res[0]] {
			return e.res[0]
		}
	}
	return nil
}

// userDone: the channel is ready once the context is cancelled
func (C *Checker) userDone(st *State, ctx, ch *V) bool {
	for n := 0; ch != nil && n < 6; n++ {
		if ch == mkApp("nn:done", ctx) {
			return true
		}
		var up *V
		for _, o := range st.objs {
			if o.kind == "ctx" && o.cap == ch && len(o.entries) == 1 {
				up = ctxDone(st, unwrap(o.entries[0].v))
			}
		}
		if up == ch {
			return false
		}
		ch = up
	}
	return false
}

// cancelSeen: the goroutine knows that the context was cancelled
func (C *Checker) cancelSeen(st *State, ctx *V) bool {
	if st.chanClosed(mkApp("nn:done", ctx)) {
		return true
	}
	for c, o := range st.objs {
		if o.kind == "ctx" && st.chanClosed(o.cap) && C.userDone(st, ctx, o.cap) {
			_ = c
			return true
		}
	}
	return false
}

// down: every connection that holds the socket is closed
func (C *Checker) down(st *State, sock *V) bool {
	cs := C.connWith(st, sock)
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !C.connDown(st, c) {
			return false
		}
	}
	return true
}

// connDown: the context of the connection has ended
func (C *Checker) connDown(st *State, conn *V) bool {
	for c, o := range st.objs {
		if o.kind != "ctx" {
			continue
		}
		for l, v := range st.mem {
			if l.base == conn && v != nil && unwrap(v) == c && st.chanClosed(o.cap) {
				return true
			}
		}
	}
	return false
}

func waitCases(e *Event) []SelCase {
	switch e.Kind {
	case "select":
		return e.Cases
	case "recv":
		return []SelCase{{Ch: e.Chan}}
	case "send":
		return []SelCase{{Ch: e.Chan, Send: true}}
	}
	return nil
}

// chosenTimer: a wait that went on because time has passed
func chosenTimer(st *State, e *Event) bool {
	switch e.Kind {
	case "call":
		return e.Name == "time.Sleep" && len(e.Args) == 1 && bounded(st, e.Args[0])
	case "recv":
		return isTimer(st, e.Chan)
	case "select":
		return e.Chosen >= 0 && !e.Cases[e.Chosen].Send && isTimer(st, e.Cases[e.Chosen].Ch)
	}
	return false
}

// cpRun interprets a goroutine of a charge point
func (C *Checker) cpRun(R *Report, s *cpSpawn, h func(m *tmon, st *State, e *Event)) *Explorer {
	elem := C.reqElem(R)
	E := C.newRun(&Cfg{OnGo: C.sessionGo, OnRecv: func(st *State, ch *V, t types.Type) *V {
		if elem != nil && types.Identical(t, elem) {
			return C.newRequest(st, elem)
		}
		return nil
	}})
	mon := newMon(h)
	if s.sock != nil {
		mon.v["sock"] = s.sock
	}
	st := s.sp.st.clone()
	C.runAll(E, st.then(E, mon, s.sp.fn, s.sp.args))
	return E
}

// ---- C21

func runC21(C *Checker, R *Report) {
	for _, w := range C.cpWorlds(R) {
		w := w
		if w.transport != "JSON" {
			continue
		}
		found := false
		for _, s := range w.spawns {
			s := s
			cp := C.cpOf(&w, &s)
			if cp == nil || s.sock == nil || !C.dials(s.sp.fn) {
				continue
			}
			found = true
			C.c21run(R, &w, &s, cp)
		}
		R.need(found, "the goroutine of a JSON charge point that dials again")
	}
	R.need(R.counts["dials"] > 0, "a dial after a loss")
	R.need(R.counts["waits_connected"] > 0, "a wait of a connected charge point")
	R.need(R.counts["waits_for_retry"] > 0, "a wait between failed dials")
}

func (C *Checker) dials(fn *V) bool {
	f, _ := calleeOf(fn)
	return f != nil && C.P.reaches(f, isDial)
}

func (C *Checker) c21run(R *Report, w *cpWorld, s *cpSpawn, cp *V) {
	viol := func(st *State, e *Event, msg string) {
		fn := "the goroutine of the charge point"
		if e.Fn != nil {
			fn = C.short(e.Fn)
		}
		st.violate("C21", fn, msg, e.fnPos())
	}
	elem := C.reqElem(R)
	E := C.cpRun(R, s, func(m *tmon, st *State, e *Event) {
		watchHeader(m, st, e)
		if st.inSpawned() {
			return
		}
		sock := m.v["sock"]
		failed := false // the last dial
		if err := m.v["err"]; err != nil {
			ok, known := st.truth(mkEq(err, vNil))
			failed = known && !ok
			if !known {
				failed = true
			}
		}
		lost := failed || C.down(st, sock)
		switch e.Kind {
		case "go":
			if f, _ := calleeOf(e.Recv); f != nil && C.P.reaches(f, isSockRead) {
				r := st.reach(append([]*V{e.Recv}, e.Args...)...)
				for _, c := range C.connWith(st, sock) {
					if r[c] {
						m.n["reader"] = 1
					}
				}
			}
		case "call":
			if isSockRead(e.Name) && e.Args[0] == sock {
				m.n["reader"] = 1
			}
			if chosenTimer(st, e) {
				m.n["waited"] = 1
				R.count("waits_for_retry", 1)
			}
			if !isDial(e.Name) {
				return
			}
			R.count("dials", 1)
			u, ps, _ := dialOf(m, st, e)
			if len(s.dial) == 0 || u != s.dial[0] {
				viol(st, e, fmt.Sprintf("a charge point that lost its connection dials %v, not the URL of its first connection", u))
			} else if constStrs(st, ps) != constStrs(st, s.dial[1:]) {
				viol(st, e, fmt.Sprintf("a charge point that lost its connection offers [%s], not [%s]", constStrs(st, ps), constStrs(st, s.dial[1:])))
			}
			if !lost {
				viol(st, e, "a charge point dials again although its connection is still open")
			}
			if failed && m.n["waited"] == 0 {
				viol(st, e, "a charge point dials again at once after a failed attempt")
			}
			m.n["waited"] = 0
			m.n["reader"] = 0
			m.n["asked"] = 0
			m.v["sock"] = e.Res[0]
			m.v["err"] = e.Res[len(e.Res)-1]
		case "select", "recv", "send":
			if !e.Block {
				return
			}
			if chosenTimer(st, e) {
				m.n["waited"] = 1
			}
			cs := waitCases(e)
			if lost {
				R.count("waits_for_retry", 1)
				ok := false
				for _, c := range cs {
					ok = ok || !c.Send && isTimer(st, c.Ch)
					ok = ok || !c.Send && st.chanClosed(c.Ch) && !C.userDone(st, w.ctx, c.Ch)
				}
				if !ok && !C.cancelSeen(st, w.ctx) {
					viol(st, e, "a charge point without connection waits for something other than the time to dial again")
				}
				return
			}
			R.count("waits_connected", 1)
			ends, takes := false, false
			for i, c := range cs {
				if d := C.connOf(st, c.Ch); d != nil && !c.Send {
					for _, x := range C.connWith(st, sock) {
						ends = ends || x == d
					}
				}
				if x, ok := e.Instr.(*ssa.Select); ok && isReqChan(elem, x.States[i].Chan.Type()) {
					for _, y := range C.connWith(st, sock) {
						takes = takes || st.reach(y)[c.Ch]
					}
				}
				if isTimer(st, c.Ch) {
					ends = true
				}
			}
			if !ends {
				viol(st, e, "a connected charge point waits without the end of its connection as an alternative")
			}
			if m.v["err"] == nil || m.n["asked"] > 0 {
				return
			}
			m.n["asked"] = 1
			if e.Kind == "select" && !takes {
				viol(st, e, "after reconnecting, a charge point does not wait for the requests of its new connection")
			}
			if m.n["reader"] == 0 {
				viol(st, e, "after reconnecting, a charge point does not read from its new connection")
			}
			C.c21uses(R, w, st, cp, sock, viol, e)
		case "end":
			if e.Recv != nil {
				return // a panic of the user's handler ends the process
			}
			R.count("ends", 1)
			if !C.cancelSeen(st, w.ctx) {
				if lost {
					viol(st, e, "a charge point that was not cancelled gives up connecting")
				} else {
					viol(st, e, "the goroutine of a connected charge point ends although it was not cancelled")
				}
			}
		}
	})
	R.take(E)
}

// c21uses: everything uses the connection with the socket
func (C *Checker) c21uses(R *Report, w *cpWorld, st *State, cp, sock *V, viol func(*State, *Event, string), e *Event) {
	t := w.f.Signature.Results().At(0).Type()
	is := func(v *V) bool {
		for _, c := range C.connWith(st, sock) {
			if c == v {
				return true
			}
		}
		return false
	}
	get := func(n string) *ssa.Function {
		m := C.P.Method(t, n)
		if !R.need(m != nil && m.Blocks != nil, "method "+n+" of a charge point") {
			return nil
		}
		return m
	}
	free := len(st.heldNow()) == 0
	if !free {
		return // C15
	}
	if m := get("Connection"); m != nil {
		for _, r := range C.ask(st, m, []*V{cp}) {
			R.count("questions", 1)
			if r.panicked == nil && (len(r.res) != 1 || !is(r.res[0])) {
				viol(st, e, "after reconnecting, Connection does not give the new connection")
			}
		}
	}
	if m := get("WaitConnect"); m != nil {
		for _, r := range C.ask(st, m, []*V{cp}) {
			R.count("questions", 1)
			if r.panicked == nil && len(r.res) == 1 && !r.st.chanClosed(r.res[0]) {
				viol(st, e, "after reconnecting, the waiters for the connect are not woken")
			}
		}
	}
	if m := get("WaitDisconnect"); m != nil {
		for _, r := range C.ask(st, m, []*V{cp}) {
			R.count("questions", 1)
			if r.panicked == nil && len(r.res) == 1 && (r.st.chanClosed(r.res[0]) || !is(C.connOf(r.st, r.res[0])) && !C.closesWith(R, r.st, sock, r.res[0])) {
				viol(st, e, "after reconnecting, WaitDisconnect does not wait for the end of the new connection")
			}
		}
	}
	if m := get("Send"); m != nil {
		wrote, other := C.sendsOn(st, m, methodArgs(cp, m), sock)
		R.count("questions", 1)
		if other {
			viol(st, e, "after reconnecting, Send does not use the new connection")
		} else if !wrote {
			viol(st, e, "after reconnecting, Send sends nothing")
		}
	}
}

// closesWith: the channel is closed by closing the connection
func (C *Checker) closesWith(R *Report, st *State, sock, ch *V) bool {
	cl := C.connMethod(R, "Close")
	if cl == nil {
		return false
	}
	ok := false
	for _, c := range C.connWith(st, sock) {
		for _, q := range C.ask(st, cl, []*V{c}) {
			if !q.st.chanClosed(ch) {
				return false
			}
			ok = true
		}
	}
	return ok
}

// sendsOn: which sockets a send writes to
func (C *Checker) sendsOn(st *State, send *ssa.Function, args []*V, sock *V) (wrote, other bool) {
	E := C.newRun(&Cfg{OnGo: C.sessionGo})
	C.runs = C.runs[:len(C.runs)-1]
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if e.Kind == "call" && isMessageWrite(e.Name) {
			if e.Args[0] == sock {
				wrote = true
			} else {
				other = true
			}
		}
	})
	C.runAll(E, st.then(E, mon, mkFunc(send), args))
	for _, l := range E.Limits {
		st.E.limit(l)
	}
	return
}

// ---- C18, the side of the charge point

func (C *Checker) c18cp(R *Report) {
	for _, w := range C.cpWorlds(R) {
		w := w
		if w.transport != "JSON" {
			continue
		}
		t := w.f.Signature.Results().At(0).Type()
		waitC, waitD := C.P.Method(t, "WaitConnect"), C.P.Method(t, "WaitDisconnect")
		if !R.need(waitC != nil && waitD != nil, "WaitConnect and WaitDisconnect of a charge point") {
			return
		}
		for _, s := range w.spawns {
			s := s
			cp := C.cpOf(&w, &s)
			if cp == nil || s.sock == nil || !C.dials(s.sp.fn) {
				continue
			}
			viol := func(st *State, fn *ssa.Function, msg string) {
				st.violate("C18", C.short(fn), msg, fn.Pos())
			}
			look := func(m *tmon, st *State, lost bool, sock *V) {
				if len(st.heldNow()) > 0 {
					return
				}
				R.count("questions_cp", 1)
				for _, r := range C.ask(st, waitC, []*V{cp}) {
					if r.panicked != nil || len(r.res) != 1 {
						continue
					}
					cl := r.st.chanClosed(r.res[0])
					switch {
					case lost && cl:
						viol(st, waitC, "after the loss of the connection of a charge point was noticed, WaitConnect gives a channel that is readable")
					case !lost && !cl:
						viol(st, waitC, "WaitConnect of a connected charge point gives a channel that is not readable")
					}
					if lost {
						if m.v["wc"] == nil {
							m.v["wc"] = r.res[0]
						}
						m.v["wc last"] = r.res[0]
					}
				}
				for _, k := range []string{"wc", "wc last"} {
					wc := m.v[k]
					if wc == nil {
						continue
					}
					if lost && st.chanClosed(wc) {
						viol(st, waitC, "a channel obtained from WaitConnect after the loss of the connection is readable before the charge point has connected")
					}
					if !lost {
						if !st.chanClosed(wc) {
							viol(st, waitC, "a channel obtained from WaitConnect stays unreadable although the charge point has connected since")
						}
						delete(m.v, k)
					}
				}
				for _, r := range C.ask(st, waitD, []*V{cp}) {
					if r.panicked != nil || len(r.res) != 1 {
						continue
					}
					cl := r.st.chanClosed(r.res[0])
					switch {
					case lost && !cl:
						viol(st, waitD, "WaitDisconnect of a charge point without connection gives a channel that is not readable")
					case !lost && cl:
						viol(st, waitD, "WaitDisconnect of a connected charge point gives a channel that is readable")
					case !lost && !C.closesWith(R, r.st, sock, r.res[0]):
						viol(st, waitD, "the channel obtained from WaitDisconnect stays unreadable when the connection closes")
					}
				}
			}
			E := C.cpRun(R, &s, func(m *tmon, st *State, e *Event) {
				if e.Kind == "maypanic" && strings.HasPrefix(e.Name, "close of") {
					st.violate("C18", C.short(e.Fn), e.Name+" can happen in "+C.short(e.Fn), posOf(e.Instr))
					st.done = true
					return
				}
				if st.inSpawned() {
					return
				}
				sock := m.v["sock"]
				failed := false
				if err := m.v["err"]; err != nil {
					ok, known := st.truth(mkEq(err, vNil))
					failed = !known || !ok
				}
				switch e.Kind {
				case "call":
					if isDial(e.Name) {
						if C.down(st, sock) || failed {
							// the dial may take its time
							look(m, st, true, sock)
						}
						m.v["sock"] = e.Res[0]
						m.v["err"] = e.Res[len(e.Res)-1]
					} else if e.Name == "time.Sleep" && failed {
						look(m, st, true, sock)
					}
				case "select", "recv", "send":
					if !e.Block {
						return
					}
					if failed {
						look(m, st, true, sock)
						return
					}
					if C.down(st, sock) {
						return // about to notice
					}
					look(m, st, false, sock)
				}
			})
			R.take(E)
		}
		for _, e := range w.ends {
			if e.panicked != nil || len(e.res) != 2 || e.res[0].k != VAlloc || !e.st.assume(mkEq(e.res[1], vNil), true) {
				continue
			}
			for _, r := range C.ask(e.st, waitC, []*V{e.res[0]}) {
				if r.panicked == nil && len(r.res) == 1 && !r.st.chanClosed(r.res[0]) {
					e.st.E = C.newRun(&Cfg{})
					viol := fmt.Sprintf("the channel obtained from WaitConnect of a new charge point of version %s is not readable", w.version)
					R.add(C.short(waitC), viol, waitC.Pos(), nil)
				}
			}
		}
	}
	R.need(R.counts["questions_cp"] > 0, "a wait of a charge point")
}

// ---- C22

func runC22(C *Checker, R *Report) {
	for _, w := range C.cpWorlds(R) {
		w := w
		for _, s := range w.spawns {
			s := s
			R.count("goroutines", 1)
			if w.transport == "JSON" {
				C.c22json(R, &w, &s)
			} else {
				C.c22soap(R, &w, &s)
			}
		}
		R.need(len(w.spawns) > 0, "a goroutine of a charge point")
	}
	R.need(R.counts["dials"] > 0, "a dial after a loss")
	R.need(R.counts["servers"] > 0, "the server of a SOAP charge point")
	R.need(R.counts["cancelled_ends"] > 0, "an end after cancellation")
}

// watchCancel follows what a goroutine knows about the cancellation
func (C *Checker) watchCancel(R *Report, w *cpWorld, noticed, ended map[ssa.Instruction]bool, viol func(*State, *Event, string)) func(m *tmon, st *State, e *Event) {
	return func(m *tmon, st *State, e *Event) {
		notice := func(in ssa.Instruction) {
			k := "seen " + itoa(C.instrID(in))
			noticed[in] = true
			if m.n[k] == 0 {
				m.n[k] = 1
			}
		}
		switch e.Kind {
		case "ctxerr":
			if !C.userDone(st, w.ctx, ctxDone(st, unwrap(e.Recv))) {
				return
			}
			R.count("checks", 1)
			if e.Val == vTrue {
				notice(e.Instr)
			} else {
				m.n["fresh"] = 1
			}
		case "select", "recv", "send":
			cs := waitCases(e)
			if !e.Block {
				for i, c := range cs {
					if !c.Send && C.userDone(st, w.ctx, c.Ch) {
						R.count("checks", 1)
						if e.Chosen == i {
							notice(e.Instr)
						} else if e.Chosen == -1 {
							m.n["fresh"] = 1
						}
					}
				}
				return
			}
			R.count("waits", 1)
			m.n["fresh"] = 0
			ok := false
			for i, c := range cs {
				if !c.Send && C.userDone(st, w.ctx, c.Ch) {
					ok = true
					if e.Kind == "recv" || e.Chosen == i {
						if m.n["seen "+itoa(C.instrID(e.Instr))] > 0 {
							viol(st, e, "a goroutine of a charge point that noticed the cancellation goes on")
							st.done = true
							return
						}
						notice(e.Instr)
					}
				}
				if !c.Send && (isTimer(st, c.Ch) || st.chanClosed(c.Ch)) {
					ok = true
				}
				if c.Send {
					if o := st.obj(c.Ch); o != nil && o.cap != nil && o.cap.isInt() && o.cap.int() > 0 {
						ok = true // C12
					}
				}
			}
			if !ok {
				viol(st, e, "a goroutine of a charge point waits without the cancellation of its context as an alternative")
			}
		case "call":
			switch {
			case e.Name == "time.Sleep":
				m.n["fresh"] = 0
			case isDial(e.Name):
				m.n["fresh"] = 0
			case isSockRead(e.Name):
				m.n["fresh"] = 0
			}
		case "user":
			m.n["fresh"] = 0
		case "end":
			if e.Recv == nil {
				for in := range noticed {
					if m.n["seen "+itoa(C.instrID(in))] > 0 {
						ended[in] = true
					}
				}
			}
		}
	}
}

func (C *Checker) instrID(in ssa.Instruction) int {
	if C.instrs == nil {
		C.instrs = map[ssa.Instruction]int{}
	}
	if _, ok := C.instrs[in]; !ok {
		C.instrs[in] = len(C.instrs) + 1
	}
	return C.instrs[in]
}

func (C *Checker) c22json(R *Report, w *cpWorld, s *cpSpawn) {
	if s.sock == nil {
		return
	}
	viol := func(st *State, e *Event, msg string) {
		fn := "the goroutine of the charge point"
		if e.Fn != nil {
			fn = C.short(e.Fn)
		}
		st.violate("C22", fn, msg, e.fnPos())
	}
	noticed, ended := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	wc := C.watchCancel(R, w, noticed, ended, viol)
	E := C.cpRun(R, s, func(m *tmon, st *State, e *Event) {
		if st.inSpawned() {
			return
		}
		if e.Kind == "call" && isDial(e.Name) {
			R.count("dials", 1)
			_, _, ctx := dialOf(m, st, e)
			bound := ctx != nil && C.userDone(st, w.ctx, ctxDone(st, ctx))
			switch {
			case bound:
			case C.cancelSeen(st, w.ctx):
				viol(st, e, "a charge point dials although its context is cancelled")
			case m.n["fresh"] == 0:
				viol(st, e, "a charge point dials without checking whether its context was cancelled since it last waited")
			}
			m.v["sock"] = e.Res[0]
			m.v["err"] = e.Res[len(e.Res)-1]
			m.n["sockclosed"] = 0
		}
		wc(m, st, e)
		if e.Kind == "call" && e.Name == wsPkg+"Close" && e.Args[0] == m.v["sock"] {
			m.n["sockclosed"] = 1
		}
		if e.Kind != "end" || e.Recv != nil {
			return
		}
		if !C.cancelSeen(st, w.ctx) {
			return // C21
		}
		R.count("cancelled_ends", 1)
		if err := m.v["err"]; err != nil {
			if ok, known := st.truth(mkEq(err, vNil)); known && !ok {
				return
			}
		}
		if m.n["sockclosed"] == 0 && !C.down(st, m.v["sock"]) {
			viol(st, e, "the goroutine of a charge point ends on cancellation without closing the connection")
		}
	})
	for in := range noticed {
		if !ended[in] {
			R.add(C.short(in.Parent()), "noticing the cancellation in "+C.short(in.Parent())+" does not end the goroutine of the charge point", posOf(in), nil)
		}
	}
	R.take(E)
}

func isServe(name string) bool {
	switch name {
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).Serve", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).ServeTLS":
		return true
	}
	return false
}

func isServeAny(name string) bool {
	switch name {
	case "net/http.ListenAndServe", "net/http.Serve", "net/http.ListenAndServeTLS", "net/http.ServeTLS":
		return true
	}
	return isServe(name)
}

// c22soap interleaves the goroutines of a SOAP charge point
func (C *Checker) c22soap(R *Report, w *cpWorld, s *cpSpawn) {
	f, _ := calleeOf(s.sp.fn)
	if f == nil || !C.P.reaches(f, isServeAny) {
		return
	}
	viol := func(st *State, e *Event, msg string) {
		fn := "the goroutine of the charge point"
		if e.Fn != nil {
			fn = C.short(e.Fn)
		}
		st.violate("C22", fn, msg, e.fnPos())
	}
	noticed, ended := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	wc := C.watchCancel(R, w, noticed, ended, viol)
	E := C.newRun(&Cfg{Interleave: true, OnGo: func(st *State, fn *V, args []*V, in ssa.Instruction) int {
		if len(st.threads) > 4 {
			return 0
		}
		return 2
	}})
	mon := newMon(func(m *tmon, st *State, e *Event) {
		// nothing comes out of a channel made here that was not put in
		switch e.Kind {
		case "makechan":
			m.n["made "+itoa(e.Chan.id)] = 1
		case "send", "selsend", "close":
			delete(m.n, "made "+itoa(e.Chan.id))
		case "recv", "selrecv":
			if m.n["made "+itoa(e.Chan.id)] > 0 {
				st.done = true
				return
			}
		}
		i := itoa(st.cur)
		sub := &tmon{v: map[string]*V{}, n: map[string]int{}}
		// what is known about the cancellation is each goroutine's own
		for k, n := range m.n {
			if strings.HasPrefix(k, i+" ") {
				sub.n[k[len(i)+1:]] = n
			}
		}
		wc(sub, st, e)
		for k, n := range sub.n {
			m.n[i+" "+k] = n
		}
		switch e.Kind {
		case "call":
			switch {
			case isServe(e.Name):
				R.count("servers", 1)
				m.v["server"] = e.Args[0]
				others := len(st.threads) > 4
				for j, t := range st.threads {
					others = others || j != st.cur && !t.ended
				}
				if m.n["stopped"] == 0 && !others {
					viol(st, e, "the server of a SOAP charge point runs while no other goroutine waits for the cancellation")
				}
				m.n["served"] = 1 // it has returned when others see this
			case isServeAny(e.Name):
				R.count("servers", 1)
				viol(st, e, "the HTTP server of a SOAP charge point cannot be stopped")
			case e.Name == "(*net/http.Server).Close" || e.Name == "(*net/http.Server).Shutdown":
				m.n["stopped"] = 1
				m.v["stopped"] = e.Args[0]
				if m.v["server"] != nil && m.v["server"] != e.Args[0] {
					viol(st, e, "another HTTP server than the one of the charge point is stopped")
				}
			}
		case "end":
			if e.Recv != nil {
				return
			}
			seen := false
			for k, n := range m.n {
				seen = seen || strings.HasPrefix(k, i+" seen ") && n > 0
			}
			if seen {
				R.count("cancelled_ends", 1)
				if m.n["stopped"] == 0 && m.n["served"] == 0 {
					viol(st, e, "the goroutine of a SOAP charge point ends on cancellation without stopping its server")
				}
			}
		}
	})
	// when everything has settled, the server must not be running unwatched
	E.Cfg.OnStable = func(st *State) {
		m := st.mon.(*tmon)
		if m.n["stopped"] > 0 || m.n["served"] > 0 {
			return
		}
		watcher, running := false, false
		for i, t := range st.threads {
			if t.ended {
				continue
			}
			for _, fr := range t.frames {
				running = running || C.P.reaches(fr.fn, isServeAny)
			}
			fr := t.frames[len(t.frames)-1]
			if fr.pc == 0 && fr.block.Index == 0 && len(t.frames) == 1 {
				// not started yet, or still serving
				watcher = watcher || i == 0 || !C.P.reaches(fr.fn, isServeAny)
				continue
			}
			switch x := fr.block.Instrs[fr.pc].(type) {
			case *ssa.Select:
				for _, c := range x.States {
					if c.Dir == types.RecvOnly && C.userDone(st, w.ctx, st.val(fr, c.Chan)) {
						watcher = true
					}
				}
			case *ssa.UnOp:
				if C.userDone(st, w.ctx, st.val(fr, x.X)) {
					watcher = true
				}
			default:
				watcher = true
			}
		}
		R.count("settled", 1)
		if running && !watcher {
			st.violate("C22", C.short(f), "the server of a SOAP charge point may be running while nothing waits for the cancellation any more", f.Pos())
		}
	}
	st := s.sp.st.clone()
	C.runAll(E, st.then(E, mon, s.sp.fn, s.sp.args))
	for in := range noticed {
		if !ended[in] {
			R.add(C.short(in.Parent()), "noticing the cancellation in "+C.short(in.Parent())+" does not end the goroutine of the charge point", posOf(in), nil)
		}
	}
	R.take(E)
}
