package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typed sends and the services and charge points that offer them.

func init() {
	rules["C25"] = rule{runC25, "Send of the four service kinds and of the charge point is abstractly interpreted on every path from request to result, with unknown outcome of encoding, transport, waiting and decoding and with every reply. On each path the facts must decide that exactly one of response and error is nil, a response must be known to be of the direction that answers the request, and an error must have a text and contain one of the failures the path found."}
	rules["C20"] = rule{runC20, "GetServiceOf is abstractly interpreted for OCPP 1.5, 1.6 and any other version on a fresh central system and in every state in which a session is established, cp.New for every version and transport and for an unknown transport. On each path exactly one of result and error must be nil; Send of each result is interpreted from the state the path ended in, and must post an envelope with the identity to the URL (SOAP) or write on exactly the socket of the session or of the dial (JSON)."}
}

// implementsErr: values of the type are errors
func implementsErr(t types.Type) bool {
	if t == nil {
		return false
	}
	et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, et)
}

// termType: static type of a term that selects from another
func termType(v *V) types.Type {
	if v.t != nil {
		return v.t
	}
	if v.k != VApp || len(v.args) == 0 {
		return nil
	}
	if _, t, doc := recvPath(v); doc != nil {
		return t
	}
	if strings.HasPrefix(v.op, "fld") && len(v.args) == 1 {
		i := 0
		fmt.Sscanf(v.op[3:], "%d", &i)
		if t := termType(v.args[0]); t != nil {
			if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// failures: the errors the path found since the start
func failures(st *State, before map[*V]bool) []*V {
	var out []*V
	for f, v := range st.facts {
		if f.k != VApp || before[f] {
			continue
		}
		switch {
		case f.op == "==" && v == vFalse:
			for i := 0; i < 2; i++ {
				if x := f.args[i]; f.args[1-i] == vNil && implementsErr(termType(x)) {
					out = append(out, x)
				}
			}
		case f.op == "decfails" && v == vTrue:
			out = append(out, mkApp("nn:decerror", f.args[0]))
		case f.op == "jsonfails" && v == vTrue:
			out = append(out, mkApp("nn:jsonerror", f.args[0]))
		case f.op == "xmlfails" && v == vTrue:
			out = append(out, mkApp("nn:xmlerror", f.args[0]))
		}
	}
	return out
}

func runC25(C *Checker, R *Report) {
	kinds := map[string]bool{}
	for _, r := range C.rootSet(R).roots {
		f, _ := calleeOf(r.fn)
		if f == nil || r.kind != "service" && !(r.kind == "cpmethod" && f.Name() == "Send") {
			continue
		}
		if !R.need(f.Signature.Results().Len() == 2 && f.Signature.Params().Len() >= 1, "response and error as results of "+r.name) {
			continue
		}
		want := C.answerType(f.Signature.Params().At(f.Signature.Params().Len() - 1).Type())
		if !R.need(want != nil, "the direction of the requests of "+r.name) {
			continue
		}
		before := map[*V]bool{}
		for x := range r.st.facts {
			before[x] = true
		}
		r := r
		E := C.newRun(C.openCfg(R))
		E.Cfg.OnGo = C.sessionGo
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if (e.Kind == "recv" || e.Kind == "selrecv") && !st.inSpawned() && C.endsWait(st, e.Chan) == "" {
				m.v["reply"] = e.Val
			}
			if e.Kind == "ret" && !st.inSpawned() && len(e.Res) > 0 && len(st.th().frames) > 1 {
				if t := e.Fn.Signature.Results(); isErrorType(t.At(t.Len() - 1).Type()) {
					last := e.Res[len(e.Res)-1]
					if ok, known := st.truth(mkEq(last, vNil)); known && !ok {
						m.v["failed"], m.v["failed text"] = last, C.textOf(R, st, last)
					}
				}
			}
			if e.Kind != "end" || st.inSpawned() {
				return
			}
			R.count("sends_ended", 1)
			viol := func(msg string) { st.violate("C25", r.name, msg, e.fnPos()) }
			if e.Recv != nil {
				viol("a send ends with a panic")
				return
			}
			if w := C.replyOutcome(st, m.v["reply"], e.Res, want); w != "" {
				viol(w)
			}
			resp, err := e.Res[0], e.Res[1]
			noResp, k1 := st.truth(mkEq(resp, vNil))
			noErr, k2 := st.truth(mkEq(err, vNil))
			switch {
			case !k2 && delegated(st, resp, err):
				// what another Send returned, for which this is shown as well
				R.count("delegations", 1)
				kinds[r.name] = true
			case !k2:
				viol("a send returns " + err.show(4) + " as error, which may be nil, with " + resp.show(4) + " as response")
			case noErr && !k1:
				viol("a send returns no error and " + resp.show(4) + " as response, which may be nil")
			case noErr && noResp:
				viol("a send returns neither response nor error")
			case !noErr && !(k1 && noResp):
				viol("a send returns the response " + resp.show(4) + " and the error " + err.show(4))
			case noErr:
				R.count("responses", 1)
				kinds[r.name] = true
				if resp.k == VIface {
					if none, k := st.truth(mkEq(resp.args[0], vNil)); k && none && nilable(resp.t) {
						viol("a send returns a nil " + shortType(resp.t) + " as response")
					}
					if !types.Implements(resp.t, want.Underlying().(*types.Interface)) {
						viol("a send returns a " + shortType(resp.t) + ", which is not of the direction that answers the request")
					}
					return
				}
				if ok, known := st.truth(mkAppT("implements", want, resp)); !(known && ok) && !types.Identical(f.Signature.Results().At(0).Type(), want) {
					viol("a send returns a response that was not found to be of the direction that answers the request")
				}
			default:
				R.count("errors", 1)
				if err.k == VIface {
					if none, k := st.truth(mkEq(err.args[0], vNil)); k && none && nilable(err.t) {
						viol("a send returns a nil " + shortType(err.t) + " as error")
						return
					}
				}
				if t := C.textOf(R, st, err); t != nil && t.isStr() && strings.TrimSpace(t.str()) == "" {
					viol("a send returns an error without text")
					return
				}
				if x := m.v["failed"]; x != nil && !st.deepTerm(err, 4).mentions(func(y *V) bool { return y == x || y == unwrap(x) }) {
					if t := C.textOf(R, st, err); m.v["failed text"] == nil || t == nil || !C.tells(R, st, t, x) {
						viol("a send fails with " + x.show(4) + " and returns " + err.show(4) + ", which does not say so")
						return
					}
				}
				fs := failures(st, before)
				if len(fs) == 0 {
					return
				}
				R.count("causes_checked", 1)
				d := st.deepTerm(err, 4)
				told := false
				for _, x := range fs {
					x := x
					told = told || d.mentions(func(y *V) bool { return y == x })
				}
				if !told {
					viol("a send fails with " + fs[0].show(4) + " and returns " + err.show(4) + ", which does not say so")
				}
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
		R.take(E)
	}
	R.need(len(kinds) >= 5, "a send that succeeds for each kind of service and for the charge point")
	R.need(R.counts["errors"] > 0, "a send that fails")
}

// delegated: both results come from one call of an interface method, which
// gives exactly one of them
func delegated(st *State, resp, err *V) bool {
	for _, v := range st.corr[err] {
		if v == resp {
			return true
		}
	}
	return false
}

// answerType: the responses to the requests of a direction
func (C *Checker) answerType(req types.Type) types.Type {
	switch {
	case types.Identical(req, sideType(C, "cs")):
		return C.P.Type("messages/v1x/cpresp", "ChargePointResponse")
	case types.Identical(req, sideType(C, "cp")):
		return C.P.Type("messages/v1x/csresp", "CentralSystemResponse")
	}
	return nil
}

// ---- C20

// probe is what sending through a service does
type probe struct {
	socks   map[*V]bool
	posts   int
	wrong   string // what is wrong with what is posted
	panics  string
	unknown bool
}

// probeSend interprets Send of a service or charge point from the state
func (C *Checker) probeSend(R *Report, st *State, v *V, t types.Type, url, id *V, idPath []xmlName) *probe {
	p := &probe{socks: map[*V]bool{}}
	if v.k == VIface {
		v, t = v.args[0], v.t
	}
	m := C.P.ownMethod(t, "Send")
	if m == nil || m.Blocks == nil {
		p.unknown = true
		return p
	}
	args := methodArgs(v, m)
	c := &soapCall{url: url, req: args[len(args)-1]}
	E := C.newRun(&Cfg{OnGo: C.sessionGo})
	C.runs = C.runs[:len(C.runs)-1]
	mon := newMon(func(m *tmon, st *State, e *Event) {
		switch e.Kind {
		case "call":
			if isMessageWrite(e.Name) {
				p.socks[e.Args[0]] = true
			}
			C.watchPost(m, st, e, func(string) {})
			if isHTTPSend(e.Name) {
				p.posts++
				if w := C.posted(st, m, c, id); w != "" {
					p.wrong = w
				}
			}
		case "maypanic":
			if e.Block {
				p.panics = e.Name
			}
		case "end":
			if e.Recv != nil && !st.inSpawned() {
				p.panics = "panic"
			}
		}
	})
	C.runAll(E, st.then(E, mon, mkFunc(m), args))
	for _, l := range E.Limits {
		st.E.limit(l)
	}
	return p
}

// posted: what is wrong with what is posted, as to URL and identity
func (C *Checker) posted(st *State, m *tmon, c *soapCall, id *V) string {
	if m.v["to"] != c.url {
		return "posts to " + m.v["to"].show(4) + ", not to the given URL"
	}
	sent := m.v["sent"]
	if sent == nil {
		return "posts something unknown"
	}
	om := &tmon{v: map[string]*V{"out": mkTuple(sent)}}
	if sent.k == VApp && sent.op == "cat" {
		om.v["out"] = mkTuple(sent.args...)
	}
	doc, what := envelopeOf(om)
	if what != "" {
		return "posts something that is not one envelope"
	}
	parts, _, _, what := bodyParts(doc)
	if what != "" {
		return "posts something else than an envelope"
	}
	for _, p := range parts {
		if !p.attr && localPath(p.path) == "Envelope>Header>chargeBoxIdentity" {
			if p.v != id {
				return "posts an envelope with the identity " + p.v.show(4) + ", not with the given one"
			}
			return ""
		}
	}
	return "posts an envelope without identity"
}

// oneOf: exactly one of result and error; made: the result is given
func oneOf(st *State, res, err *V, viol func(string)) (made, ok bool) {
	noRes, k1 := st.truth(mkEq(res, vNil))
	if res.k == VIface && nilable(res.t) {
		if none, k := st.truth(mkEq(res.args[0], vNil)); k && none {
			viol("a nil " + shortType(res.t) + " is given as result")
			return false, false
		}
	}
	noErr, k2 := st.truth(mkEq(err, vNil))
	switch {
	case !k2:
		viol("the error returned is " + err.show(4) + ", which may be nil")
	case noErr && !(k1 && !noRes):
		viol("neither result nor error is returned")
	case !noErr && !(k1 && noRes):
		viol("an error is returned together with a result")
	default:
		return noErr, true
	}
	return false, false
}

func runC20(C *Checker, R *Report) {
	C.loadExt()
	C.c20service(R)
	C.c20new(R)
	C.c20port(R)
}

func (C *Checker) c20service(R *Report) {
	v15, v16 := C.versionConst("V15"), C.versionConst("V16")
	if !R.need(v15 != nil && v16 != nil, "ocpp.V15 and ocpp.V16") {
		return
	}
	for _, w := range C.csWorlds(R) {
		w := w
		get := C.P.Method(w.typ, "GetServiceOf")
		if !R.need(get != nil && get.Blocks != nil && len(get.Params) == 4, "GetServiceOf") {
			return
		}
		id := C.idTerm(R, &w, false)
		if !R.need(id != nil, "the identity of a session") {
			return
		}
		type at struct {
			st   *State
			sock *V
		}
		states := []at{{w.st, nil}}
		var established []*State
		C.c16run(R, &w, w.st, false, &established)
		seen := map[string]bool{}
		for _, s := range established {
			if k := s.key(); !seen[k] && len(states) < 7 {
				seen[k] = true
				sk := s.note["c20sock"]
				if !R.need(sk != nil, "the socket of an established session") {
					continue
				}
				states = append(states, at{s, sk})
			}
		}
		R.need(len(states) > 1, "a state with an established session")
		// in what an earlier question left behind
		for _, s := range states[:2] {
			for _, v := range []*V{v15, v16} {
				args := []*V{w.csys}
				for _, p := range get.Params[1:] {
					if types.Identical(p.Type(), C.P.Type("", "Version")) {
						args = append(args, v)
					} else {
						args = append(args, param("earlier "+p.Name(), p.Type()))
					}
				}
				E := C.newRun(&Cfg{OnGo: C.sessionGo})
				n := 0
				for _, r := range C.runAll(E, s.st.then(E, nil, mkFunc(get), args)) {
					x := r.st.clone()
					x.mon, x.threads = nil, nil
					if k := x.key(); r.panicked != nil || seen[k] || n >= 2 {
						continue
					} else {
						seen[k] = true
					}
					n++
					R.count("states_after_a_question", 1)
					states = append(states, at{x, s.sock})
				}
				R.take(E)
			}
		}
		url := param("url", types.Typ[types.String])
		other := param("cpID", types.Typ[types.String])
		for _, s := range states {
			s := s
			for _, q := range []string{"1.5", "1.6", "another version"} {
				for _, cpID := range []*V{other, id} {
					if cpID == id && s.sock == nil && q != "1.6" {
						continue
					}
					st := s.st.clone()
					vt := C.P.Type("", "Version")
					v := param("version", vt)
					switch q {
					case "1.5":
						v = v15
					case "1.6":
						v = v16
					default:
						st.facts[mkEq(v, v15)] = vFalse
						st.facts[mkEq(v, v16)] = vFalse
					}
					C.c20ask(R, &w, st, get, q, v, cpID, id, url, s.sock)
				}
			}
		}
	}
	R.need(R.counts["soap_services"] > 0, "a SOAP service given for OCPP 1.5")
	R.need(R.counts["json_services"] > 0, "a service given for an established session")
	R.need(R.counts["refused"] > 0, "a service that is refused")
}

func (C *Checker) c20ask(R *Report, w *csWorld, st *State, get *ssa.Function, q string, v, cpID, id, url, sock *V) {
	name := C.short(get)
	viol := func(st *State, msg string) {
		R.add(name, msg+" (OCPP "+q+")", get.Pos(), st.traceList())
	}
	args := []*V{w.csys}
	n := 0
	for _, p := range get.Params[1:] {
		switch {
		case types.Identical(p.Type(), C.P.Type("", "Version")):
			args = append(args, v)
		case n == 0:
			args = append(args, cpID)
			n++
		default:
			args = append(args, url)
			n++
		}
	}
	st.note["asked"] = mkTuple(cpID, id, url) // what is decided about them matters after the functions that decided it
	E := C.newRun(&Cfg{OnGo: C.sessionGo})
	rs := C.runAll(E, st.then(E, newMon(func(m *tmon, st *State, e *Event) {}), mkFunc(get), args))
	R.take(E)
	for _, r := range rs {
		R.count("services_asked", 1)
		if r.panicked != nil || len(r.res) != 2 {
			viol(r.st, "asking for a service panics")
			continue
		}
		made, ok := oneOf(r.st, r.res[0], r.res[1], func(msg string) { viol(r.st, msg) })
		if !ok {
			continue
		}
		same, known := r.st.truth(mkEq(cpID, id))
		switch {
		case !made:
			R.count("refused", 1)
			if q == "1.5" {
				noURL, k := r.st.truth(mkEq(url, mkStr("")))
				noID, k2 := r.st.truth(mkEq(cpID, mkStr("")))
				if !(k && noURL) && !(k2 && noID) {
					viol(r.st, "a SOAP service is refused")
				}
			}
			if q == "1.6" && sock != nil && known && same {
				viol(r.st, "the service of a connected charge point is refused")
			}
		case q == "another version":
			viol(r.st, "a service is given for an unknown version")
		case q == "1.6" && sock == nil:
			viol(r.st, "a service is given for a charge point that is not connected")
		case q == "1.6" && !(known && same):
			viol(r.st, "a service is given for a charge point with another identity than the connected one")
		default:
			p := C.probeSend(R, r.st, r.res[0], get.Signature.Results().At(0).Type(), url, cpID, nil)
			switch {
			case p.unknown:
				viol(r.st, "the service given has no Send of the library")
			case p.panics != "":
				viol(r.st, "Send of the service given panics: "+p.panics)
			case q == "1.5":
				R.count("soap_services", 1)
				if p.posts == 0 || len(p.socks) > 0 {
					viol(r.st, "the service given for OCPP 1.5 does not send over SOAP")
				} else if p.wrong != "" {
					viol(r.st, "the service given "+p.wrong)
				}
			default:
				R.count("json_services", 1)
				if p.posts > 0 || len(p.socks) != 1 || !p.socks[sock] {
					viol(r.st, "the service given does not send over the connection of the charge point")
				}
			}
		}
	}
}

func (C *Checker) c20new(R *Report) {
	for _, w := range C.cpWorlds(R) {
		w := w
		C.c20made(R, &w, w.ends)
	}
	for _, v := range []string{"V15", "V16"} {
		R.need(R.counts["made_JSON_"+v] > 0, "a JSON charge point of version "+v)
		R.need(R.counts["made_SOAP_"+v] > 0, "a SOAP charge point of version "+v)
	}
	// without a port to listen on
	for _, v := range []string{"V15", "V16"} {
		for _, tr := range []string{"JSON", "SOAP"} {
			w := cpWorld{version: v, transport: tr, f: C.P.Func("cp", "New")}
			if w.f == nil {
				return
			}
			args, ok := C.cpArgs(R, &w)
			if !ok {
				return
			}
			for i := range args {
				if args[i] == w.port && w.port != nil {
					args[i] = vNil
				}
			}
			E := C.newRun(&Cfg{OnGo: C.sessionGo})
			for _, r := range C.runAll(E, start(E, newMon(C.watchDial), mkFunc(w.f), args)) {
				R.count("creations_without_port", 1)
				viol := func(msg string) {
					R.add(C.short(w.f), msg+" ("+tr+" without a port, "+v+")", w.f.Pos(), r.st.traceList())
				}
				if r.panicked != nil || len(r.res) != 2 {
					viol("creating a charge point panics")
				} else if made, ok := oneOf(r.st, r.res[0], r.res[1], viol); ok && made && tr == "SOAP" && w.port != nil {
					viol("a charge point is created that cannot be reached")
				}
			}
			R.take(E)
		}
	}
	// any other transport
	for _, v := range []string{"V15", "V16"} {
		ws := C.cpWorlds(R)
		if len(ws) == 0 {
			return
		}
		w := cpWorld{version: v, transport: "JSON", f: ws[0].f}
		args, ok := C.cpArgs(R, &w)
		if !ok {
			return
		}
		tt := C.P.Type("", "Transport")
		E := C.newRun(&Cfg{OnGo: C.sessionGo})
		bad := ""
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if e.Kind == "go" || e.Kind == "call" && isDial(e.Name) {
				bad = e.Kind
			}
		})
		st := start(E, mon, mkFunc(w.f), args)
		var tr *V
		for i, p := range w.f.Params {
			if types.Identical(p.Type(), tt) {
				tr = param(p.Name(), tt)
				args[i] = tr
			}
		}
		st = start(E, mon, mkFunc(w.f), args)
		for _, t := range []string{"JSON", "SOAP"} {
			st.facts[mkEq(tr, C.versionConst(t))] = vFalse
		}
		for _, r := range C.runAll(E, st) {
			R.count("unknown_transports", 1)
			viol := func(msg string) {
				R.add(C.short(w.f), msg+" (unknown transport)", w.f.Pos(), r.st.traceList())
			}
			if r.panicked != nil || len(r.res) != 2 {
				viol("creating a charge point panics")
				continue
			}
			if made, ok := oneOf(r.st, r.res[0], r.res[1], viol); ok && made {
				viol("a charge point is created")
			} else if bad != "" {
				viol("a charge point is refused after something was started for it: " + bad)
			}
		}
		R.take(E)
	}
	R.need(R.counts["unknown_transports"] > 0, "a charge point with an unknown transport")
}

// c20made: what cp.New returns
func (C *Checker) c20made(R *Report, w *cpWorld, ends []endRec) {
	t := w.f.Signature.Results().At(0).Type()
	idm := C.P.ownMethod(t, "Identity")
	if !R.need(idm != nil && idm.Blocks != nil, "Identity of a charge point") {
		return
	}
	for _, r := range ends {
		r := r
		R.count("creations", 1)
		viol := func(msg string) {
			R.add(C.short(w.f), msg+" ("+w.transport+", "+w.version+")", w.f.Pos(), r.st.traceList())
		}
		if r.panicked != nil || len(r.res) != 2 {
			viol("creating a charge point panics")
			continue
		}
		made, ok := oneOf(r.st, r.res[0], r.res[1], viol)
		if !ok {
			continue
		}
		m, _ := r.st.mon.(*tmon)
		if !made {
			R.count("creations_refused", 1)
			continue
		}
		R.count("made_"+w.transport+"_"+w.version, 1)
		p := C.probeSend(R, r.st, r.res[0], t, w.url, w.id, nil)
		switch {
		case p.unknown:
			viol("the charge point has no Send of the library")
		case p.panics != "":
			viol("Send of the charge point panics: " + p.panics)
		case w.transport == "SOAP":
			if p.posts == 0 || len(p.socks) > 0 {
				viol("the charge point does not send over SOAP")
			} else if p.wrong != "" {
				viol("the charge point " + p.wrong)
			}
		default:
			sock := m.v["sock"]
			if sock == nil {
				viol("a charge point is created without a connection")
				continue
			}
			if no, k := r.st.truth(mkEq(m.v["err"], vNil)); !k || !no {
				viol("a charge point is created although the dial may have failed")
			}
			if p.posts > 0 || len(p.socks) != 1 || !p.socks[sock] {
				viol("the charge point does not send over the connection it dialled")
			}
		}
		for _, a := range C.ask(r.st, idm, []*V{r.res[0]}) {
			if a.panicked != nil || len(a.res) != 1 || a.res[0] != w.id {
				viol("Identity of the charge point is not the given one")
			}
		}
	}
}

// c20port: the HTTP servers listen where they were told to, and a SOAP charge
// point is created while its server runs, not when it has ended
func (C *Checker) c20port(R *Report) {
	listens := func(key string, port *V, m *tmon, st *State, e *Event) {
		var addr *V
		switch e.Name {
		case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
			addr = fieldByName(st, e.Args[0], "net/http", "Server", "Addr")
		case "net/http.ListenAndServe", "net/http.ListenAndServeTLS":
			addr = e.Args[0]
		case "net.Listen":
			addr = e.Args[1]
		case "(*net.ListenConfig).Listen":
			addr = e.Args[3]
		default:
			return
		}
		R.count("listeners", 1)
		if addr == nil || !st.deepTerm(addr, 4).mentions(func(x *V) bool { return x == port }) {
			st.violate("C20", key, "the server listens on "+addr.show(4)+", not on the given port", e.fnPos())
		}
	}
	for _, w := range C.cpWorlds(R) {
		w := w
		if w.transport != "SOAP" || w.port == nil {
			continue
		}
		key := C.short(w.f)
		now := w
		args, ok := C.cpArgs(R, &now)
		if !ok {
			return
		}
		n := R.counts["listeners"]
		E := C.newRun(&Cfg{OnGo: C.sessionGo})
		mon := newMon(func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "call":
				listens(key, now.port, m, st, e)
				if isServeAny(e.Name) && !st.inSpawned() {
					m.n["served"] = 1
				}
			case "recv", "selrecv":
				if !st.inSpawned() && C.endsWait(st, e.Chan) == "context" {
					m.n["ended"] = 1
				}
			case "end":
				if e.Recv != nil || len(e.Res) != 2 || m.n["served"]+m.n["ended"] == 0 {
					return
				}
				if tr, known := st.truth(mkEq(e.Res[0], vNil)); !known || !tr {
					st.violate("C20", key, "a charge point is only created when its server has ended ("+w.version+")", e.fnPos())
				}
			}
		})
		C.runAll(E, start(E, mon, mkFunc(w.f), args))
		R.take(E)
		for _, s := range w.spawns {
			s := s
			E := C.cpRun(R, &s, func(m *tmon, st *State, e *Event) {
				if e.Kind == "call" {
					listens(key, w.port, m, st, e)
				}
			})
			R.take(E)
		}
		R.need(R.counts["listeners"] > n, "the listener of a SOAP charge point of version "+w.version)
	}
	n := R.counts["listeners"]
	for _, r := range C.rootSet(R).roots {
		f, _ := calleeOf(r.fn)
		if r.kind != "csmethod" || f == nil || f.Name() != "Run" || len(r.args) < 2 {
			continue
		}
		r := r
		E := C.newRun(&Cfg{OnGo: C.sessionGo})
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if e.Kind == "call" {
				listens(C.short(f), r.args[1], m, st, e)
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
		R.take(E)
	}
	R.need(R.counts["listeners"] > n, "the listener of a central system")
}
