package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the registry of the central system.

func init() {
	rules["C16"] = rule{runC16, "The handler of a WebSocket connection is interpreted on every path, including failing handshakes and panicking handlers, from a fresh central system and from one that has a session already. A typestate monitor checks that the connection is reachable from the central system when the connect listener is started, that both listeners are started exactly once with the identity in the requested path, that the socket is closed and the connection unreachable before the disconnect listener is started, that every wait has the end of the connection as alternative, and that nothing is waited for after it."}
	rules["C17"] = rule{runC17, "Exhaustive interleaving, at every lock and wait, of up to three abstractly interpreted sessions of one charge point, and of sessions of two charge points, to a fixpoint; at every state without a held lock GetServiceOf is interpreted on that state and must give the newest open connection, and an error after the last one ended."}
	rules["C18"] = rule{runC18, "The same interleavings, with a goroutine that asks for the waiters at any moment: at every settled state WaitConnect, WaitDisconnect and the channels obtained before are checked against which connections are open; no channel is closed twice. The goroutine of the charge point is interpreted with the same questions at every wait."}
	rules["C28"] = rule{runC28, "The arguments of the dial and of the upgrade are computed as terms on every path of cp.New, the reconnecting goroutine and the HTTP handler: the URL must be the central system's followed by / and the identity, the offered subprotocol that of the version, the answered one that of OCPP 1.6, and the identity of a session the requested path."}
}

// csWorld is a central system with listeners set, and its HTTP handler
type csWorld struct {
	st      *State
	csys    *V
	typ     types.Type
	fn      *V
	pre     []*V
	on, off *V
}

var httpW2 = mkSym("nn:ResponseWriter", nil)
var httpR2 = mkSym("nn:http.Request", nil)

func (C *Checker) csWorlds(R *Report) []csWorld {
	if C.csw != nil {
		return C.csw
	}
	C.loadExt()
	for _, c := range C.csNew(R) {
		w := csWorld{csys: c.csys.args[0], typ: c.csys.t}
		sts := []*State{c.st}
		for i, n := range []string{"SetChargePointConnectionListener", "SetChargePointDisconnectionListener"} {
			m := C.P.Method(c.csys.t, n)
			if !R.need(m != nil && m.Blocks != nil && len(m.Params) == 2, n+" of the central system") {
				return nil
			}
			l := param([]string{"connect listener", "disconnect listener"}[i], m.Params[1].Type())
			if i == 0 {
				w.on = l
			} else {
				w.off = l
			}
			var next []*State
			for _, s := range sts {
				E := C.newRun(&Cfg{})
				for _, r := range C.runAll(E, s.then(E, nil, mkFunc(m), []*V{w.csys, l})) {
					if r.panicked == nil {
						next = append(next, r.st)
					}
				}
			}
			sts = next
		}
		run := C.P.Method(c.csys.t, "Run")
		if !R.need(run != nil && run.Blocks != nil, "Run of the central system") {
			return nil
		}
		for _, s := range sts {
			seen := map[string]bool{}
			mon := newMon(func(mm *tmon, st *State, e *Event) {
				var vs []*V
				switch e.Kind {
				case "call":
					vs = e.Args
				case "store":
					vs = []*V{e.Val}
				}
				for _, v := range vs {
					fn, pre := C.httpHandler(v)
					if fn == nil {
						continue
					}
					f, _ := calleeOf(fn)
					if seen[f.String()] {
						continue
					}
					seen[f.String()] = true
					x := w
					x.st = st.clone()
					x.st.mon = nil
					x.st.publish(fn)
					x.st.note["handler"] = fn
					x.fn, x.pre = fn, pre
					C.csw = append(C.csw, x)
				}
			})
			E := C.newRun(&Cfg{})
			C.runAll(E, s.then(E, mon, mkFunc(run), methodArgs(w.csys, run)))
			R.take(E)
		}
	}
	R.need(len(C.csw) > 0, "the HTTP handler of the central system")
	return C.csw
}

func (w *csWorld) args(second bool) []*V {
	a := httpArgs()
	if second {
		a = []*V{httpW2, httpR2}
	}
	return append(append([]*V(nil), w.pre...), a...)
}

// identityOf: the term is the requested path of r without its leading slash
func identityOf(v, r *V) bool {
	if r == httpR {
		return isIdentity(v)
	}
	for _, x := range pathTerms(r) {
		if v == x {
			return true
		}
	}
	return false
}

func pathTerms(r *V) []*V {
	fi := func(pkg, typ, f string) string {
		for i := 0; i < 40; i++ {
			if extField(pkg, typ, fieldPath(i)) == f {
				return fieldPath(i)
			}
		}
		return "?"
	}
	u := mkApp("ld", r, mkStr(fi("net/http", "Request", "URL")))
	p := mkApp("ld", u, mkStr(fi("net/url", "URL", "Path")))
	return []*V{mkApp("strings.TrimPrefix", p, mkStr("/")), mkApp("subslice", p, mkInt(1))}
}

func isUpgrade(name string) bool { return name == "(*github.com/gorilla/websocket.Upgrader).Upgrade" }

// connWith: the connection objects that hold the socket
func (C *Checker) connWith(st *State, sock *V) []*V {
	var out []*V
	if sock == nil {
		return nil
	}
	for _, l := range st.holders(sock) {
		if t := baseType(l.base); t != nil && types.Identical(t, C.connType()) {
			out = append(out, l.base)
		}
	}
	return out
}

// reachesConn: the connection is reachable from v
func (C *Checker) reachesConn(st *State, v, sock *V) bool {
	r := st.reach(v)
	for _, c := range C.connWith(st, sock) {
		if r[c] {
			return true
		}
	}
	return false
}

// ---- C16

func runC16(C *Checker, R *Report) {
	for _, w := range C.csWorlds(R) {
		w := w
		var established []*State
		C.c16run(R, &w, w.st, false, &established)
		R.need(len(established) > 0, "a wait of an established session")
		// with a session that is there already
		seen := map[string]bool{}
		n := 0
		for _, s := range established {
			k := s.key()
			if seen[k] || n >= 6 {
				continue
			}
			seen[k] = true
			n++
			C.c16run(R, &w, s, true, nil)
		}
		R.count("earlier_states", n)
	}
	// the end of a socket is noticed by whoever reads it
	for _, cs := range C.connStates(R, "Handshake") {
		C.closeEnds(R, cs)
		break
	}
	R.need(R.counts["sessions_ended"] > 0, "an end of a session")
	R.need(R.counts["failed_handshakes"] > 0, "a failed handshake")
}

func (C *Checker) c16run(R *Report, w *csWorld, st0 *State, second bool, established *[]*State) {
	r := httpR
	if second {
		r = httpR2
	}
	E := C.newRun(&Cfg{OnGo: C.sessionGo, UserPanics: true})
	elem := C.reqElem(R)
	E.Cfg.OnRecv = func(st *State, ch *V, t types.Type) *V {
		if elem != nil && types.Identical(t, elem) {
			return C.newRequest(st, elem)
		}
		return nil
	}
	viol := func(st *State, e *Event, msg string) {
		fn := "the session"
		if e.Fn != nil {
			fn = C.short(e.Fn)
		}
		st.violate("C16", fn, msg, e.fnPos())
	}
	mon := newMon(func(m *tmon, st *State, e *Event) {
		sock := m.v["sock"]
		announce := func(fn *V, args []*V) {
			what, k := "connect", "on"
			if fn == w.off {
				what, k = "disconnect", "off"
			}
			R.count("announcements", 1)
			if sock == nil {
				viol(st, e, "a "+what+" is announced without a WebSocket handshake")
				return
			}
			if ok, known := st.truth(mkEq(m.v["err"], vNil)); !known || !ok {
				viol(st, e, "a "+what+" is announced although the handshake may have failed")
				return
			}
			if len(args) != 1 || !identityOf(args[0], r) {
				viol(st, e, fmt.Sprintf("a %s is announced with %v, not with the identity in the requested path", what, args))
			}
			m.n[k]++
			if m.n[k] > 1 {
				m.n[k] = 2
				viol(st, e, "a "+what+" is announced more than once for one session")
				return
			}
			in := C.reachesConn(st, w.csys, sock)
			if k == "on" {
				if !in {
					viol(st, e, "the connect is announced before the connection is registered")
				}
				return
			}
			if m.n["on"] == 0 {
				viol(st, e, "a disconnect is announced for a session whose connect was not")
			}
			if m.n["closed"] == 0 {
				viol(st, e, "the disconnect is announced before the socket is closed")
			}
			if in {
				viol(st, e, "the disconnect is announced while the connection is still registered")
			}
		}
		switch e.Kind {
		case "call":
			switch {
			case isUpgrade(e.Name):
				if sock != nil {
					viol(st, e, "a second handshake in one request")
				}
				m.v["sock"], m.v["err"] = e.Res[0], e.Res[1]
			case e.Name == wsPkg+"Close" && len(e.Args) > 0 && e.Args[0] == sock:
				m.n["closed"] = 1
			}
		case "go":
			if e.Recv == w.on || e.Recv == w.off {
				announce(e.Recv, e.Args)
			}
		case "user":
			if e.Name == "go" {
				return
			}
			if e.Block && st.inSpawned() {
				st.done = true // ends the process, not the session
				return
			}
			if e.Recv == w.on || e.Recv == w.off {
				if e.Block {
					return
				}
				announce(e.Recv, e.Args)
			}
		case "select", "recv", "send":
			if sock == nil || !e.Block || st.inSpawned() {
				return
			}
			R.count("waits", 1)
			if m.n["lost"] > 0 {
				viol(st, e, "the session goes on waiting although it noticed that its connection ended")
				st.done = true
				return
			}
			cs := e.Cases
			if e.Kind == "recv" {
				cs = []SelCase{{Ch: e.Chan}}
			}
			ok := false
			for i, c := range cs {
				own := false
				if d := C.connOf(st, c.Ch); d != nil {
					for _, x := range C.connWith(st, sock) {
						own = own || x == d
					}
				}
				if own && !c.Send {
					ok = true
					if e.Kind == "recv" || e.Chosen == i {
						m.n["lost"] = 1
					}
				}
				if isTimer(st, c.Ch) {
					ok = true
				}
			}
			if !ok {
				viol(st, e, "the session waits without the end of its connection as an alternative")
			}
			if established != nil && m.n["on"] == 1 && e.Kind == "select" && m.n["noted"] == 0 {
				m.n["noted"] = 1
				s := st.clone()
				s.mon = nil
				s.threads = nil
				s.note["c20sock"] = sock
				*established = append(*established, s)
			}
		case "end":
			if sock == nil || st.done {
				return
			}
			noErr, known := st.truth(mkEq(m.v["err"], vNil))
			if known && !noErr {
				R.count("failed_handshakes", 1)
				for _, c := range C.connWith(st, sock) {
					if st.reach(w.csys)[c] {
						viol(st, e, "a connection whose handshake failed is registered")
					}
				}
				return
			}
			R.count("sessions_ended", 1)
			how := ""
			if e.Recv != nil {
				how = " after a panic of the handler"
			}
			if m.n["on"] == 0 {
				viol(st, e, "a session ends"+how+" without its connect having been announced")
			}
			if m.n["closed"] == 0 {
				viol(st, e, "a session ends"+how+" without closing its socket")
			}
			if C.reachesConn(st, w.csys, sock) {
				viol(st, e, "a session ends"+how+" and its connection stays registered")
			}
			if m.n["off"] == 0 && m.n["on"] > 0 {
				viol(st, e, "a session ends"+how+" without its disconnect being announced")
			}
		}
	})
	C.runAll(E, st0.then(E, mon, w.fn, w.args(second)))
	R.take(E)
}

// ---- C17 and C18

// sess describes one session of an interleaving
type sessInfo struct {
	thread  int
	sock    *V
	order   int
	state   int // see below
	cleaned bool
}

const (
	sNot = iota // not started or refused
	sLimbo
	sOpen
	sEnded
)

func runC17(C *Checker, R *Report) {
	for _, w := range C.csWorlds(R) {
		w := w
		C.interleave(R, &w, []bool{false, false, false}, false)
		C.interleave(R, &w, []bool{false, true}, false)
		for _, x := range C.withOthers(R, &w) {
			C.interleave(R, &x, []bool{false}, false)
			R.count("worlds_with_others", 1)
		}
		// whoever asked before
		if f := C.P.Method(w.typ, "GetServiceOf"); f != nil {
			C.interleave(R, &w, []bool{false, false}, false, f)
		}
		if C.Thorough {
			C.interleave(R, &w, []bool{false, false, true}, false)
		}
	}
	R.need(R.counts["states_with_open"] > 0, "a state with an open connection")
}

func runC18(C *Checker, R *Report) {
	for _, w := range C.csWorlds(R) {
		w := w
		// while others are connected, or were
		for _, x := range C.withOthers(R, &w) {
			C.interleave(R, &x, []bool{false}, true)
			C.interleave(R, &x, []bool{false, false}, C.Thorough)
			R.count("worlds_with_others", 1)
		}
		if C.Thorough {
			C.interleave(R, &w, []bool{false, false, false}, true)
			C.interleave(R, &w, []bool{false, false, true}, true)
		} else {
			C.interleave(R, &w, []bool{false, false, false}, false)
			C.interleave(R, &w, []bool{false, false}, true)
		}
		C.interleave(R, &w, []bool{false, true}, true)
		// whoever else asks does not disturb who waits
		for _, n := range []string{"WaitConnect", "WaitDisconnect", "GetServiceOf"} {
			if f := C.P.Method(w.typ, n); f != nil {
				C.interleave(R, &w, []bool{false}, true, f)
				if C.Thorough {
					C.interleave(R, &w, []bool{false, false}, true, f)
				}
			}
		}
	}
	R.need(R.counts["states_with_open"] > 0, "a state with an open connection")
	C.c18cp(R)
}

// withOthers: the central system after a request of another charge point
func (C *Checker) withOthers(R *Report, w *csWorld) []csWorld {
	ids := map[bool]*V{false: C.idTerm(R, w, false), true: C.idTerm(R, w, true)}
	if ids[false] == nil || ids[true] == nil {
		return nil
	}
	base := w.st.clone()
	base.note["ids"] = mkTuple(append(append(pathTerms(httpR), pathTerms(httpR2)...), ids[false], ids[true])...)
	for _, a := range append(pathTerms(httpR), ids[false]) {
		for _, b := range append(pathTerms(httpR2), ids[true]) {
			base.assume(mkEq(a, b), false)
		}
	}
	var out []csWorld
	for _, st := range C.afterEarlier(R, base, w.fn, w.args(false), 2) {
		x := *w
		x.st = st
		if C.idTerm(R, &x, false) != ids[false] || C.idTerm(R, &x, true) != ids[true] {
			continue // not a WebSocket
		}
		out = append(out, x)
	}
	return out
}

// ids: the identity terms the handler computes, for both requests
func (C *Checker) idTerm(R *Report, w *csWorld, second bool) *V {
	var id *V
	E := C.newRun(&Cfg{OnGo: C.sessionGo})
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if (e.Kind == "go" || e.Kind == "user") && e.Recv == w.on && len(e.Args) == 1 {
			id = e.Args[0]
			st.done = true
		}
	})
	C.runAll(E, w.st.then(E, mon, w.fn, w.args(second)))
	return id
}

func (C *Checker) interleave(R *Report, w *csWorld, second []bool, waiters bool, others ...*ssa.Function) {
	prop := R.ID
	ids := map[bool]*V{false: C.idTerm(R, w, false), true: C.idTerm(R, w, true)}
	if !R.need(ids[false] != nil && ids[true] != nil, "the identity of a session") {
		return
	}
	get := C.P.Method(w.typ, "GetServiceOf")
	waitC, waitD := C.P.Method(w.typ, "WaitConnect"), C.P.Method(w.typ, "WaitDisconnect")
	if !R.need(get != nil && len(get.Params) == 4, "GetServiceOf") || !R.need(waitC != nil && waitD != nil, "WaitConnect and WaitDisconnect") {
		return
	}
	closeM := C.connMethod(R, "Close")
	v16 := C.versionConst("V16")
	if !R.need(v16 != nil, "ocpp.V16") {
		return
	}
	E := C.newRun(&Cfg{OnGo: C.sessionGo, Interleave: true})
	elem := C.reqElem(R)
	E.Cfg.OnRecv = func(st *State, ch *V, t types.Type) *V {
		if elem != nil && types.Identical(t, elem) {
			return C.newRequest(st, elem)
		}
		return nil
	}
	// answering and logging do not touch the registry
	E.Cfg.OnCall = func(st *State, name string, recv *V, args []*V, in ssa.Instruction, com *ssa.CallCommon) (bool, []*V) {
		f := com.StaticCallee()
		if f == nil || f.Signature.Recv() == nil {
			return false, nil
		}
		if !types.Identical(f.Signature.Recv().Type(), types.NewPointer(C.connType())) {
			return false, nil
		}
		switch f.Name() {
		case "SendResponse", "SendRequest":
			return true, st.freshResults("sent", f.Signature, true)
		}
		return false, nil
	}
	nSess := len(second)
	mon := newMon(func(m *tmon, st *State, e *Event) {
		i := itoa(st.cur)
		switch e.Kind {
		case "call":
			if isUpgrade(e.Name) && !st.inSpawned() {
				m.v["sock"+i] = e.Res[0]
				m.v["err"+i] = e.Res[1]
				// refused ones leave no trace (C16)
				st.assume(mkEq(e.Res[1], vNil), true)
			}
		case "unlock":
			// the order of registration
			for k := 0; k < nSess; k++ {
				s := m.v["sock"+itoa(k)]
				if s != nil && m.n["order"+itoa(k)] == 0 && C.reachesConn(st, w.csys, s) {
					n := 0
					for q := 0; q < nSess; q++ {
						if x := m.n["order"+itoa(q)]; x > n {
							n = x
						}
					}
					m.n["order"+itoa(k)] = n + 1
				}
			}
		case "maypanic":
			if prop == "C18" && strings.HasPrefix(e.Name, "close of") {
				st.violate(prop, C.short(e.Fn), e.Name+" can happen in "+C.short(e.Fn), posOf(e.Instr))
				st.done = true
			}
		case "end":
			if st.cur == nSess && len(e.Res) == 1 {
				m.v["wc"] = e.Res[0]
				m.n["wc new"] = 1
			}
		}
	})
	viol := func(st *State, fn *ssa.Function, msg string) {
		st.violate(prop, C.short(fn), msg, fn.Pos())
	}
	look := func(st *State) (infos []sessInfo, free bool) {
		m := st.mon.(*tmon)
		free = true
		for i := 0; i < nSess; i++ {
			t := st.threads[i]
			if len(t.held) > 0 {
				free = false
			}
			s := sessInfo{thread: i, sock: m.v["sock"+itoa(i)], order: m.n["order"+itoa(i)]}
			failed := false
			if s.sock != nil {
				tr, k := st.truth(mkEq(m.v["err"+itoa(i)], vNil))
				failed = k && !tr
			}
			switch {
			case s.sock == nil:
				s.state = sNot
			case t.ended && failed:
				s.state = sNot
			case t.ended:
				s.state = sEnded
			default:
				s.state = sLimbo
				if C.atSelect(st, t, s.sock) {
					s.state = sOpen
				}
			}
			infos = append(infos, s)
		}
		for _, t := range st.threads[nSess:] {
			if len(t.held) > 0 {
				free = false
			}
		}
		return
	}
	seenQ := map[string]bool{}
	E.Cfg.OnStable = func(st *State) {
		all, free := look(st)
		if !free {
			return
		}
		m := st.mon.(*tmon)
		for _, sec := range []bool{false, true} {
			var infos []sessInfo
			for i, s := range all {
				if second[i] == sec {
					infos = append(infos, s)
				}
			}
			if len(infos) == 0 && sec {
				continue
			}
			id := ids[sec]
			settled := true
			var open []sessInfo
			for _, s := range infos {
				settled = settled && s.state != sLimbo
				if s.state == sOpen {
					open = append(open, s)
				}
			}
			sort.Slice(open, func(i, j int) bool { return open[i].order < open[j].order })
			if len(open) > 0 {
				R.count("states_with_open", 1)
			}
			if prop == "C17" {
				R.count("questions", 1)
				C.askService(R, w, st, get, id, v16, infos, open, settled, viol)
				continue
			}
			R.count("questions", 1)
			// what was obtained before
			if wc := m.v["wc"]; wc != nil && !sec {
				if len(open) > 0 {
					m.n["wc live"] = 1
				} else if m.n["wc new"] == 1 && m.n["wc live"] == 0 && settled {
					// obtained while there was no connection
					m.n["wc idle"] = 1
				}
				if m.n["wc live"] == 1 && !st.chanClosed(wc) {
					viol(st, waitC, "a channel obtained from WaitConnect stays unreadable although the charge point has connected since")
				}
				if settled && len(open) == 0 && m.n["wc live"] == 0 && m.n["wc idle"] == 1 && m.n["wc reg"] == C.regs(m, nSess) && st.chanClosed(wc) {
					viol(st, waitC, "a channel obtained from WaitConnect is readable although the charge point has not connected since")
				}
				if m.n["wc new"] == 1 {
					m.n["wc new"] = 0
					m.n["wc reg"] = C.regs(m, nSess)
				}
			}
			if !settled {
				continue
			}
			k := fmt.Sprint(sec, st.key())
			if seenQ[k] {
				continue
			}
			seenQ[k] = true
			for _, r := range C.ask(st, waitC, []*V{w.csys, id}) {
				if len(r.res) != 1 {
					continue
				}
				if cl := r.st.chanClosed(r.res[0]); cl != (len(open) > 0) {
					if cl {
						viol(st, waitC, "WaitConnect gives a readable channel although the charge point has no connection")
					} else {
						viol(st, waitC, "WaitConnect gives a channel that is not readable although the charge point is connected")
					}
				}
			}
			for _, r := range C.ask(st, waitD, []*V{w.csys, id}) {
				if len(r.res) != 1 {
					continue
				}
				cl := r.st.chanClosed(r.res[0])
				switch {
				case len(open) == 0 && !cl:
					viol(st, waitD, "WaitDisconnect gives a channel that is not readable although the charge point has no connection")
				case len(open) > 0 && cl:
					viol(st, waitD, "WaitDisconnect gives a readable channel although the charge point is connected")
				case len(open) > 0 && closeM != nil:
					for _, c := range C.connWith(r.st, open[len(open)-1].sock) {
						for _, q := range C.ask(r.st, closeM, []*V{c}) {
							if !q.st.chanClosed(r.res[0]) {
								viol(st, waitD, "the channel obtained from WaitDisconnect stays unreadable when the connection closes")
							}
						}
					}
				}
			}
		}
	}
	s0 := w.st.clone()
	s0.E = E
	s0.threads = nil
	s0.mon = mon
	s0.note["ids"] = mkTuple(append(append(pathTerms(httpR), pathTerms(httpR2)...), ids[false], ids[true])...)
	for _, q := range []*V{httpR, httpR2} {
		s0.facts[mkApp("github.com/gorilla/websocket.IsWebSocketUpgrade", q)] = vTrue
	}
	// two charge points: different identities
	if second[len(second)-1] {
		for _, a := range append(pathTerms(httpR), ids[false]) {
			for _, b := range append(pathTerms(httpR2), ids[true]) {
				s0.assume(mkEq(a, b), false)
			}
		}
	}
	for i := range second {
		s0.spawnThread(fmt.Sprintf("session %d", i+1), w.fn, w.args(second[i])).group = fmt.Sprint(second[i])
	}
	if waiters {
		s0.spawnThread("waiter", mkFunc(waitC), []*V{w.csys, ids[false]})
	}
	for _, f := range others {
		args := []*V{w.csys, ids[false]}
		if f == get {
			args = append(args, v16, param("url", types.Typ[types.String]))
		}
		s0.spawnThread(f.Name(), mkFunc(f), args)
	}
	s0.cur = 0
	// every goroutine may be the first to run
	for i := range s0.threads {
		if !s0.runnable(i) {
			continue
		}
		s := s0.clone()
		s.cur = i
		E.Explore(s)
	}
	R.take(E)
	R.count("interleaved_states", E.States)
}

// regs: how many sessions have been registered
func (C *Checker) regs(m *tmon, n int) int {
	k := 0
	for i := 0; i < n; i++ {
		if m.n["order"+itoa(i)] > 0 {
			k++
		}
	}
	return k
}

// ask interprets a call on a copy of the state, on its own
func (C *Checker) ask(st *State, f *ssa.Function, args []*V) []endRec {
	E := C.newRun(&Cfg{OnGo: C.sessionGo})
	C.runs = C.runs[:len(C.runs)-1]
	rs := C.runAll(E, st.then(E, nil, mkFunc(f), args))
	for _, l := range E.Limits {
		st.E.limit(l)
	}
	return rs
}

func (C *Checker) askService(R *Report, w *csWorld, st *State, get *ssa.Function, id, v16 *V, infos, open []sessInfo, settled bool, viol func(*State, *ssa.Function, string)) {
	for _, r := range C.ask(st, get, []*V{w.csys, id, v16, param("url", types.Typ[types.String])}) {
		if r.panicked != nil || len(r.res) != 2 {
			continue
		}
		noErr, known := r.st.truth(mkEq(r.res[1], vNil))
		if !known {
			continue // C20
		}
		if !noErr {
			if len(open) > 0 {
				viol(st, get, "a charge point with an open connection is not reachable")
			}
			continue
		}
		got := r.st.reach(r.res[0])
		n := 0
		for _, s := range infos {
			has := false
			for _, c := range C.connWith(r.st, s.sock) {
				has = has || got[c]
			}
			if !has {
				continue
			}
			n++
			switch {
			case s.state == sEnded:
				viol(st, get, "the service given for a charge point goes over a connection that was closed and cleaned up")
			case settled && len(open) > 0 && s.thread != open[len(open)-1].thread:
				viol(st, get, "the service given for a charge point does not go over its newest open connection")
			}
		}
		if settled && n == 0 {
			if len(open) == 0 {
				viol(st, get, "a service is given for a charge point that has no open connection")
			} else {
				viol(st, get, "the service given for a charge point does not go over its connection")
			}
		}
	}
}

// atSelect: the goroutine waits for what its connection brings
func (C *Checker) atSelect(st *State, t *Thread, sock *V) bool {
	f := t.frames[len(t.frames)-1]
	x, ok := f.block.Instrs[f.pc].(*ssa.Select)
	if !ok || !x.Blocking {
		return false
	}
	conns := C.connWith(st, sock)
	for _, s := range x.States {
		ch := st.val(f, s.Chan)
		if st.chanClosed(ch) {
			return false // about to notice
		}
	}
	for _, s := range x.States {
		if d := C.connOf(st, st.val(f, s.Chan)); d != nil {
			for _, c := range conns {
				if c == d {
					return true
				}
			}
		}
	}
	return false
}

// versionConst: a constant of package ocpp
func (C *Checker) versionConst(name string) *V {
	pk := C.P.TypPkgs[""]
	if pk == nil {
		return nil
	}
	c, ok := pk.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return nil
	}
	return mkStr(constant.StringVal(c.Val()))
}

// ---- C28

// wsProtocol: the subprotocol names OCPP 1.6J registers
var wsProtocol = map[string]string{"V15": "ocpp1.5", "V16": "ocpp1.6"}

const protoHeader = "Sec-Websocket-Protocol"

// watchHeader follows what is put into HTTP headers
func watchHeader(m *tmon, st *State, e *Event) {
	if e.Kind != "call" || e.Name != "(net/http.Header).Add" && e.Name != "(net/http.Header).Set" || len(e.Args) != 3 {
		return
	}
	if _, ok := e.Instr.(*ssa.Go); ok || st.inSpawned() {
		return // it may be too late
	}
	k := st.constOf(e.Args[1])
	if k == nil || !k.isStr() || !strings.EqualFold(k.str(), protoHeader) {
		if k == nil {
			m.n["unknown header"] = 1
		}
		return
	}
	var vs []*V
	if o := m.v["protocols"]; o != nil && e.Name == "(net/http.Header).Add" {
		vs = append(vs, o.args[1:]...)
	}
	if len(vs) > 4 {
		return
	}
	m.v["protocols"] = mkTuple(append(append([]*V{e.Args[0]}, vs...), e.Args[2])...)
}

// headerProtocols: the subprotocols named in a header
func headerProtocols(m *tmon, st *State, h *V) []*V {
	if o := m.v["protocols"]; o != nil && o.args[0] == h {
		return o.args[1:]
	}
	if o := st.objs[h]; o != nil {
		for _, x := range o.entries {
			if x.present && x.k.isStr() && x.k.str() == protoHeader && x.v != nil {
				if es, ok := st.sliceElems(x.v); ok {
					return es
				}
			}
		}
	}
	return nil
}

// fieldByName reads a field of an external struct
func fieldByName(st *State, p *V, pkg, typ, field string) *V {
	pk := extPkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			l := p.loc()
			return st.load(Loc{l.base, l.path + fieldPath(i)}, s.Field(i).Type())
		}
	}
	return nil
}

func constStrs(st *State, vs []*V) string {
	var out []string
	for _, v := range vs {
		if c := st.constOf(v); c != nil && c.isStr() {
			out = append(out, c.str())
		} else {
			out = append(out, "?"+v.String())
		}
	}
	return strings.Join(out, ",")
}

func runC28(C *Checker, R *Report) {
	C.loadExt()
	const gw = "github.com/gorilla/websocket"
	// the charge point
	f := C.P.Func("cp", "New")
	if R.need(f != nil, "cp.New") {
		for _, v := range []string{"V15", "V16"} {
			vc := C.versionConst(v)
			if !R.need(vc != nil, "ocpp."+v) {
				continue
			}
			var id, url *V
			args := params(f)
			n := 0
			for i, p := range f.Params {
				switch {
				case types.Identical(p.Type(), C.P.Type("", "Version")):
					args[i] = vc
				case p.Type().String() == "string" && n == 0:
					id, n = args[i], 1
				case p.Type().String() == "string" && n == 1:
					url, n = args[i], 2
				}
			}
			if !R.need(id != nil && url != nil, "identity and URL among the parameters of cp.New") {
				return
			}
			want := mkCat(url, mkStr("/"), id)
			h := func(m *tmon, st *State, e *Event) {
				watchHeader(m, st, e)
				if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*"+gw+".Dialer).Dial") {
					return
				}
				R.count("dials", 1)
				as := e.Args[1:]
				if strings.HasSuffix(e.Name, "Context") {
					as = as[1:]
				}
				if as[0] != want {
					st.violate("C28", C.short(e.Fn), fmt.Sprintf("%v is dialled, not the URL of the central system followed by / and the identity", as[0]), posOf(e.Instr))
				}
				var ps []*V
				if sp := fieldByName(st, e.Args[0], gw, "Dialer", "Subprotocols"); sp != nil {
					if es, ok := st.sliceElems(sp); ok {
						ps = es
					}
				}
				if len(ps) == 0 {
					ps = headerProtocols(m, st, as[1])
				}
				if g := constStrs(st, ps); g != wsProtocol[v] {
					st.violate("C28", C.short(e.Fn), fmt.Sprintf("a charge point of version %s offers the subprotocols [%s], not %s", v, g, wsProtocol[v]), posOf(e.Instr))
				}
			}
			E := C.newRun(&Cfg{RecordSpawns: true})
			C.runAll(E, start(E, newMon(h), mkFunc(f), args))
			R.take(E)
			for _, sp := range E.Spawns {
				E2 := C.newRun(&Cfg{OnGo: C.sessionGo})
				s := sp.st.clone()
				C.runAll(E2, s.then(E2, newMon(h), sp.fn, sp.args))
				R.take(E2)
			}
		}
		R.need(R.counts["dials"] >= 4, "the dials of a charge point")
	}
	// the central system
	var worlds []csWorld
	for _, w := range C.csWorlds(R) {
		worlds = append(worlds, w)
		for _, st := range C.afterEarlier(R, w.st, w.fn, w.args(false), 2) {
			x := w
			x.st = st
			worlds = append(worlds, x)
		}
	}
	for _, w := range worlds {
		w := w
		E := C.newRun(&Cfg{OnGo: C.sessionGo})
		mon := newMon(func(m *tmon, st *State, e *Event) {
			watchHeader(m, st, e)
			switch e.Kind {
			case "call":
				if !isUpgrade(e.Name) {
					return
				}
				R.count("upgrades", 1)
				if e.Args[2] != httpR {
					st.violate("C28", C.short(e.Fn), "another request than the received one is upgraded", posOf(e.Instr))
				}
				var ps []*V
				if sp := fieldByName(st, e.Args[0], gw, "Upgrader", "Subprotocols"); sp != nil && sp != vNil {
					if es, ok := st.sliceElems(sp); ok {
						ps = es
					} else {
						ps = []*V{sp}
					}
				}
				if len(ps) == 0 {
					ps = headerProtocols(m, st, e.Args[3])
					if len(ps) > 1 {
						ps = ps[:1] // the first one is answered
					}
				}
				if g := constStrs(st, ps); g != "ocpp1.6" {
					st.violate("C28", C.short(e.Fn), fmt.Sprintf("the central system answers with the subprotocols [%s], not ocpp1.6", g), posOf(e.Instr))
				}
			case "go", "user":
				if e.Recv != w.on && e.Recv != w.off {
					return
				}
				R.count("identities", 1)
				if len(e.Args) != 1 || !isIdentity(e.Args[0]) {
					st.violate("C28", C.short(e.Fn), fmt.Sprintf("a session is known as %v, not as the identity in the requested path", e.Args), posOf(e.Instr))
				}
			}
		})
		C.runAll(E, w.st.then(E, mon, w.fn, w.args(false)))
		R.take(E)
	}
	R.need(R.counts["upgrades"] > 0, "the upgrade of the central system")
	R.need(R.counts["identities"] > 0, "an identity of a session")
}

var _ = token.NoPos
