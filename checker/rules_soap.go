package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about SOAP: the server, the client and the services built on them.

func init() {
	rules["C23"] = rule{runC23, "Every way into SOAP handling (soap.Handle, the HTTP handlers of central system under the SOAP transport and of the charge point) is abstractly interpreted with an unknown request, handler and encoder outcome. On each path the terms written to the response are collected: there must be exactly one encoded envelope, preceded by nothing but an XML declaration, whose body holds the handler's response where its error is known to be nil and otherwise a Fault whose text is at the element path at which the client's own error reads it; headers that say something about the bytes (type, length, encoding) and the status must fit them."}
	rules["C24"] = rule{runC24, "Client.Call of a client made by soap.NewClient and the Send of both SOAP services are abstractly interpreted on every path with unknown outcome of the transport, the decoder and reflection. A typestate monitor collects the request that is posted (method, URL, term of the envelope, client time limit) and the release of the response; paths that may return success must have found the reply decoded, without Fault, with content of the expected type, and must have copied that content to the caller's response."}
}

// ---- terms of encoded and decoded XML

type xmlName struct{ ns, name string }

// xmlTag: element name of a struct field as encoding/xml sees it
func xmlTag(s *types.Struct, i int) (path []xmlName, flags string, skip bool) {
	f := s.Field(i)
	if f.Name() == "XMLName" {
		return nil, "", true
	}
	tag := reflect.StructTag(s.Tag(i)).Get("xml")
	if tag == "-" {
		return nil, "", true
	}
	flags = ""
	if k := strings.IndexByte(tag, ','); k >= 0 {
		tag, flags = tag[:k], tag[k:]
	}
	ns := ""
	if k := strings.LastIndexByte(tag, ' '); k >= 0 {
		ns, tag = tag[:k], tag[k+1:]
	}
	if tag == "" {
		if n := rootName(f.Type()); n.name != "" && !isIfaceType(f.Type()) {
			return []xmlName{n}, flags, false
		}
		return []xmlName{{"", f.Name()}}, flags, false
	}
	for _, p := range strings.Split(tag, ">") {
		if p != "" {
			path = append(path, xmlName{ns, p})
		}
	}
	return path, flags, false
}

func isIfaceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// rootName: name of the element a struct type declares with XMLName
func rootName(t types.Type) xmlName {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return xmlName{}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "XMLName" {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("xml")
		if k := strings.IndexByte(tag, ','); k >= 0 {
			tag = tag[:k]
		}
		if k := strings.LastIndexByte(tag, ' '); k >= 0 {
			return xmlName{tag[:k], tag[k+1:]}
		}
		return xmlName{"", tag}
	}
	return xmlName{}
}

// xmlPart is a value inside an encoded document
type xmlPart struct {
	path []xmlName
	attr bool
	v    *V
	t    types.Type
}

// local name without prefix
func (n xmlName) local() string {
	return n.name[strings.LastIndexByte(n.name, ':')+1:]
}

func localPath(p []xmlName) string {
	var s []string
	for _, n := range p {
		s = append(s, n.local())
	}
	return strings.Join(s, ">")
}

// xmlParts lists the leaves of the document a term is encoded to
func xmlParts(v *V) (parts []xmlPart, ok bool) {
	if v.k != VIface {
		return nil, false
	}
	t := v.t
	x := v.args[0]
	if p, isP := t.Underlying().(*types.Pointer); isP {
		t = p.Elem()
		if x.k != VApp || x.op != "&" {
			return nil, false
		}
		x = x.args[0]
	}
	if x.k != VStruct {
		return nil, false
	}
	n := rootName(t)
	if n.name == "" {
		if nt, isN := types.Unalias(t).(*types.Named); isN {
			n.name = nt.Obj().Name()
		}
	}
	var walk func(x *V, t types.Type, path []xmlName)
	walk = func(x *V, t types.Type, path []xmlName) {
		if p, isP := t.Underlying().(*types.Pointer); isP && x.k == VApp && x.op == "&" {
			x, t = x.args[0], p.Elem()
		}
		s, isS := t.Underlying().(*types.Struct)
		if !isS || x.k == VNil {
			parts = append(parts, xmlPart{path: path, v: x, t: t})
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			fp, flags, skip := xmlTag(s, i)
			if skip {
				continue
			}
			np := append(append([]xmlName(nil), path...), fp...)
			if strings.Contains(flags, ",attr") {
				parts = append(parts, xmlPart{path: np, attr: true, v: structField(x, i), t: s.Field(i).Type()})
				continue
			}
			if strings.Contains(flags, ",chardata") || strings.Contains(flags, ",innerxml") || strings.Contains(flags, ",cdata") || strings.Contains(flags, ",comment") {
				np = path
			}
			if _, isS := s.Field(i).Type().Underlying().(*types.Struct); isS && x.k != VStruct {
				parts = append(parts, xmlPart{path: np, v: structField(x, i), t: s.Field(i).Type()})
				continue
			}
			walk(structField(x, i), s.Field(i).Type(), np)
		}
	}
	walk(x, t, []xmlName{n})
	return parts, true
}

// recvPath: where in the decoded document a value comes from
func recvPath(v *V) (path []xmlName, t types.Type, doc *V) {
	v = unwrap(v)
	for v.k == VApp && v.op == "dyn" {
		v = v.args[0]
	}
	if v.k != VApp {
		return nil, nil, nil
	}
	field := func(path []xmlName, t types.Type, i int) ([]xmlName, types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || i >= s.NumFields() {
			return nil, nil
		}
		fp, _, skip := xmlTag(s, i)
		if skip {
			return nil, nil
		}
		return append(append([]xmlName(nil), path...), fp...), s.Field(i).Type()
	}
	switch {
	case v.op == "xmldec" && v.t != nil:
		n := rootName(v.t)
		if n.name == "" {
			if nt, ok := types.Unalias(v.t).(*types.Named); ok {
				n.name = nt.Obj().Name()
			}
		}
		return []xmlName{n}, v.t, v
	case strings.HasPrefix(v.op, "fld") && len(v.args) == 1:
		i := 0
		fmt.Sscanf(v.op[3:], "%d", &i)
		p, t, doc := recvPath(v.args[0])
		if doc == nil {
			return nil, nil, nil
		}
		p, t = field(p, t, i)
		if t == nil {
			return nil, nil, nil
		}
		return p, t, doc
	case v.op == "ld" && len(v.args) == 2 && v.args[1].isStr():
		p, t, doc := recvPath(v.args[0])
		if doc == nil {
			return nil, nil, nil
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil, nil
		}
		t = pt.Elem()
		for _, s := range strings.Split(v.args[1].str(), ".") {
			if s == "" {
				continue
			}
			i := 0
			if n, err := fmt.Sscanf(s, "%d", &i); n != 1 || err != nil {
				return nil, nil, nil
			}
			if p, t = field(p, t, i); t == nil {
				return nil, nil, nil
			}
		}
		return p, t, doc
	}
	return nil, nil, nil
}

// nsFits: what is declared for a received element fits what is sent
func nsFits(sent []xmlPart, s, r []xmlName) string {
	for i := range r {
		if i >= len(s) || r[i].ns == "" {
			continue
		}
		ns := s[i].ns
		if k := strings.IndexByte(s[i].name, ':'); k > 0 {
			for _, p := range sent {
				if p.attr && p.path[len(p.path)-1].name == "xmlns:"+s[i].name[:k] && p.v.isStr() {
					ns = p.v.str()
				}
			}
		}
		if ns != r[i].ns {
			return fmt.Sprintf("%s is sent in namespace %q and read in %q", s[i].local(), ns, r[i].ns)
		}
	}
	return ""
}

// plainXML: the document holds nothing but text, so encoding it cannot fail
func plainXML(t *V) bool {
	parts, ok := xmlParts(t)
	if !ok {
		return false
	}
	for _, p := range parts {
		switch u := p.t.Underlying().(type) {
		case *types.Basic:
		case *types.Interface, *types.Pointer:
			_ = u
			if p.v != vNil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// prefixes: every prefix used for elements is declared by an attribute of the
// element or one around it, with a constant
func undeclaredPrefix(parts []xmlPart) string {
	for _, p := range parts {
		if p.attr || p.v == vNil {
			continue
		}
		for i, n := range p.path {
			k := strings.IndexByte(n.name, ':')
			if k <= 0 {
				continue
			}
			ok := false
			for _, a := range parts {
				if !a.attr || a.path[len(a.path)-1].name != "xmlns:"+n.name[:k] || len(a.path)-1 > i+1 {
					continue
				}
				in := true
				for j := 0; j < len(a.path)-1; j++ {
					in = in && a.path[j] == p.path[j]
				}
				ok = ok || in && a.v.isStr() && a.v.str() != ""
			}
			if !ok {
				return n.name
			}
		}
	}
	return ""
}

// ---- the server

type soapServer struct {
	name string
	st   *State
	fn   *V
	args []*V
	side string // cs, cp; "" for soap.Handle itself
}

// soapServers: the ways into SOAP handling
func (C *Checker) soapServers(R *Report) []soapServer {
	C.loadExt()
	var out []soapServer
	soapT := C.versionConst("SOAP")
	tt := C.P.Type("", "Transport")
	if !R.need(soapT != nil && tt != nil, "ocpp.SOAP") {
		return nil
	}
	sides := map[string]bool{}
	for _, r := range C.rootSet(R).roots {
		if r.kind != "http" && !(r.kind == "soap" && strings.HasSuffix(r.name, ".Handle")) {
			continue
		}
		s := soapServer{name: r.name, st: r.st.clone(), fn: r.fn, args: r.args}
		if r.kind == "http" {
			s.side = "cp"
			// a request handled as SOAP: a POST that asks for no upgrade
			q := r.args[len(r.args)-1]
			ok := s.st.assume(mkEq(fieldByName(s.st, q, "net/http", "Request", "Method"), mkStr("POST")), true)
			s.st.facts[mkApp("github.com/gorilla/websocket.IsWebSocketUpgrade", q)] = vFalse
			hd := fieldByName(s.st, q, "net/http", "Request", "Header")
			for _, n := range []string{"Upgrade", "Connection", "Sec-Websocket-Key", "Sec-Websocket-Version", "Sec-Websocket-Protocol", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol"} {
				s.st.facts[mkApp("(net/http.Header).Get", hd, mkStr(n))] = mkStr("")
			}
			vs := s.st.reach(append([]*V{r.fn}, r.args...)...)
			for v := range vs {
				if v.k == VSym && v.t != nil && types.Identical(v.t, tt) {
					ok = ok && s.st.assume(mkEq(v, soapT), true)
				}
			}
			if !ok {
				continue // only used for other transports
			}
			if s.st.note["cs"] != nil {
				s.side = "cs"
			}
			sides[s.side] = true
		} else {
			sides["soap"] = true
		}
		out = append(out, s)
	}
	n := len(out)
	for _, s := range out[:n] {
		for _, st := range C.afterEarlier(R, s.st, s.fn, s.args, 3) {
			x := s
			x.st = st
			x.name += " after an earlier request"
			out = append(out, x)
		}
	}
	R.count("later_servers", len(out)-n)
	R.need(sides["cs"], "the HTTP handler of a SOAP central system")
	R.need(sides["cp"], "the HTTP handler of a SOAP charge point")
	R.need(sides["soap"], "soap.Handle")
	return out
}

const respHeader = "net/http.ResponseWriter.Header"

// soapRun interprets a SOAP server; the monitor gets "handler", "end" and the
// rest, and finds the parts written in m.v["out"]
func (C *Checker) soapRun(R *Report, s soapServer, h func(m *tmon, st *State, e *Event)) {
	body := fieldByName(s.st, C.soapReq(&s), "net/http", "Request", "Body")
	E := C.newRun(&Cfg{OnGo: func(st *State, fn *V, args []*V, in ssa.Instruction) int { return 1 }})
	put := func(m *tmon, st *State, v *V) {
		if st.inSpawned() {
			m.n["late"] = 1 // until its end is waited for
		}
		var vs []*V
		if m.v["out"] != nil {
			vs = m.v["out"].args
		}
		if len(vs) > 6 {
			return
		}
		if v.k == VApp && v.op == "cat" {
			vs = append(vs[:len(vs):len(vs)], v.args...)
		} else {
			vs = append(vs[:len(vs):len(vs)], v)
		}
		m.v["out"] = mkTuple(vs...)
	}
	header := func(m *tmon, k, v *V) {
		if k.isStr() {
			m.v["header "+strings.ToLower(k.str())] = v
		} else {
			m.v["header ?"] = v
		}
	}
	mon := newMon(func(m *tmon, st *State, e *Event) {
		switch e.Kind {
		case "user":
			ci, ok := e.Instr.(ssa.CallInstruction)
			if ok && (isHandlerSig(C, e) || s.side == "" && ci.Common().Signature().Results().Len() == 2) {
				m.n["called"]++
				h(m, st, &Event{Kind: "handler", Recv: e.Recv, Args: e.Args, Res: e.Res, Instr: e.Instr, Fn: e.Instr.Parent()})
				m.v["resp"], m.v["err"] = e.Res[0], e.Res[1]
				return
			}
		case "decode":
			if e.Val.k == VApp && e.Val.op == "xmldec" {
				m.v["doc"] = e.Val
				m.n["decoded"] = 1
				if e.Block {
					m.n["decoded"] = 2
				}
			}
		case "mapset":
			if e.Recv != nil && e.Recv.k == VSym && e.Recv.op == respHeader {
				v := e.Args[1]
				if es, ok := st.sliceElems(v); ok && len(es) > 0 {
					v = es[0]
				}
				header(m, e.Args[0], v)
			}
		case "recv", "selrecv":
			if !st.inSpawned() {
				delete(m.n, "late")
			}
		case "write":
			if unwrap(e.Recv) == httpW {
				put(m, st, e.Args[0])
			}
		case "call":
			if readsAll(e) && m.n["closed"] > 0 && unwrap(e.Args[0]) == unwrap(body) {
				st.violate(R.ID, s.name, "the body of the HTTP request is read after it was closed", posOf(e.Instr))
			}
			switch e.Name {
			case "(net/http.ResponseWriter).Write", "(io.Writer).Write":
				if unwrap(e.Recv) == httpW {
					put(m, st, st.bytesTerm(e.Args[1]))
				}
			case "(net/http.ResponseWriter).WriteHeader":
				if m.v["status"] == nil && m.v["out"] == nil {
					m.v["status"] = e.Args[1]
				}
			case "(*sync.WaitGroup).Wait":
				if !st.inSpawned() {
					delete(m.n, "late")
				}
			case "(io.ReadCloser).Close", "(io.Closer).Close":
				if unwrap(e.Args[0]) == unwrap(body) {
					m.n["closed"] = 1
				}
			case "(net/http.Header).Set", "(net/http.Header).Add":
				if a := e.Args[0]; a.k == VSym && a.op == respHeader && m.v["out"] == nil && m.v["status"] == nil {
					header(m, e.Args[1], e.Args[2])
				}
			case "(*github.com/gorilla/websocket.Upgrader).Upgrade":
				st.done = true // not SOAP
				return
			case "(net/http.ResponseWriter).Header", "(net/http.Flusher).Flush", "io.Copy", "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo":
			default:
				for _, a := range e.Args {
					if unwrap(a) == httpW && !strings.HasPrefix(e.Name, "encoding/xml.") && !strings.HasPrefix(e.Name, "fmt.F") && e.Name != "io.WriteString" {
						put(m, st, mkApp("written by "+e.Name))
					}
				}
			}
		}
		h(m, st, e)
	})
	C.runAll(E, s.st.then(E, mon, s.fn, s.args))
	R.take(E)
}

// readsAll: a call that reads its first argument to the end
func readsAll(e *Event) bool {
	switch e.Name {
	case "io/ioutil.ReadAll", "io.ReadAll", "encoding/xml.NewDecoder", "io.LimitReader", "bufio.NewReader", "(*bytes.Buffer).ReadFrom":
		return len(e.Args) > 0
	}
	return false
}

func resBody(st *State, m *tmon) *V {
	if m.v["res"] == nil {
		return nil
	}
	return fieldByName(st, m.v["res"], "net/http", "Response", "Body")
}

// envelopeOf: the one document among the written parts
func envelopeOf(m *tmon) (doc *V, what string) {
	out := m.v["out"]
	if out == nil {
		return nil, "a request is not answered with an envelope"
	}
	for _, p := range out.args {
		switch {
		case p.k == VApp && p.op == "nn:xml":
			if doc != nil {
				return nil, "a request is answered with more than one envelope"
			}
			doc = p.args[0]
		case p.isStr() && (strings.TrimSpace(p.str()) == "" || doc == nil && strings.HasPrefix(p.str(), "<?xml") && strings.HasSuffix(strings.TrimSpace(p.str()), "?>")):
		default:
			return nil, "something else than an envelope is written: " + p.show(4)
		}
	}
	if doc == nil {
		return nil, "a request is not answered with an envelope"
	}
	return doc, ""
}

// bodyParts: content and Fault of a sent envelope
func bodyParts(doc *V) (parts, content, fault []xmlPart, what string) {
	parts, ok := xmlParts(doc)
	if !ok || len(parts) == 0 {
		return nil, nil, nil, "what is written is not an envelope of known layout: " + doc.show(4)
	}
	if n := parts[0].path[0].local(); n != "Envelope" {
		return nil, nil, nil, "the document that is written is called " + n + ", not Envelope"
	}
	for _, p := range parts {
		if p.attr || len(p.path) < 2 || p.path[1].local() != "Body" || p.v == vNil {
			continue
		}
		if len(p.path) > 2 && p.path[2].local() == "Fault" {
			fault = append(fault, p)
		} else {
			content = append(content, p)
		}
	}
	return parts, content, fault, ""
}

// faultAlt: one way in which the client makes the text of its error from the
// elements of a Fault: what the text consists of, and which elements it found
// empty or not
type faultAlt struct {
	text        [][]xmlName
	empty, full map[string]bool
}

// faultAlts: what the client's error says of a received Fault
func (C *Checker) faultAlts(R *Report) []faultAlt {
	var out []faultAlt
	seen := map[string]bool{}
	for _, c := range C.soapCalls(R)[:1] {
		E := C.newRun(&Cfg{})
		for _, r := range C.runAll(E, c.st.then(E, nil, c.fn, c.args)) {
			if r.panicked != nil || len(r.res) == 0 {
				continue
			}
			err := r.res[len(r.res)-1]
			if err.k != VIface && !(err.k == VApp && err.op == "nn:error") {
				continue
			}
			for _, t := range C.textsOf(r.st, err, 2) {
				a := faultAlt{empty: map[string]bool{}, full: map[string]bool{}}
				inFault := func(x *V) ([]xmlName, bool) {
					p, t, doc := recvPath(x)
					return p, doc != nil && len(p) >= 4 && p[1].local() == "Body" && p[2].local() == "Fault" && !isStructType(t)
				}
				ps := []*V{t.txt}
				if t.txt.k == VApp && t.txt.op == "cat" {
					ps = t.txt.args
				}
				for _, x := range ps {
					if p, ok := inFault(x); ok {
						a.text = append(a.text, p)
					}
				}
				told := len(a.text) > 0
				for f := range t.st.facts {
					f.mentions(func(x *V) bool {
						p, ok := inFault(x)
						if !ok {
							return false
						}
						told = true
						if tr, known := t.st.truth(mkEq(x, mkStr(""))); known {
							if tr {
								a.empty[localPath(p)] = true
							} else {
								a.full[localPath(p)] = true
							}
						}
						return true
					})
				}
				if !told && C.faultErr(t.st, err) {
					told = true // a text that is the same for every Fault
				}
				if k := fmt.Sprint(a); told && !seen[k] {
					seen[k] = true
					out = append(out, a)
				}
			}
		}
	}
	return out
}

// faultErr: the error is the received Fault itself
func (C *Checker) faultErr(st *State, err *V) bool {
	p, _, doc := recvPath(err)
	return doc != nil && len(p) == 3 && p[1].local() == "Body" && p[2].local() == "Fault"
}

// read: the texts the client makes of the elements of a Fault that was sent
func (a *faultAlt) read(parts []xmlPart) (out []xmlPart, from [][]xmlName, ok bool) {
	at := func(path string) *xmlPart {
		for i, p := range parts {
			if !p.attr && localPath(p.path) == path && !(p.v.isStr() && p.v.str() == "") {
				return &parts[i]
			}
		}
		return nil
	}
	for p := range a.empty {
		if at(p) != nil {
			return nil, nil, false
		}
	}
	for p := range a.full {
		if at(p) == nil {
			return nil, nil, false
		}
	}
	for _, p := range a.text {
		if x := at(localPath(p)); x != nil {
			out = append(out, *x)
			from = append(from, p)
		}
	}
	return out, from, true
}

type errSays struct {
	st  *State
	txt *V
}

// textsOf: what the Error method of an error can give, with the texts of the
// errors it wraps
func (C *Checker) textsOf(st *State, err *V, depth int) []errSays {
	expand := func(st *State, txt *V) []errSays {
		ps := []*V{txt}
		if txt.k == VApp && txt.op == "cat" {
			ps = txt.args
		}
		for i, p := range ps {
			if depth == 0 || !(p.k == VApp && p.op == "textof" && p.args[0].k == VIface) {
				continue
			}
			var out []errSays
			for _, x := range C.textsOf(st, p.args[0], depth-1) {
				qs := append(append(append([]*V(nil), ps[:i]...), x.txt), ps[i+1:]...)
				out = append(out, errSays{x.st, mkCat(qs...)})
			}
			return out
		}
		return []errSays{{st, txt}}
	}
	if err.k == VApp && err.op == "nn:error" && len(err.args) == 2 {
		return expand(st, err.args[1])
	}
	if err.k != VIface {
		return []errSays{{st, mkApp("textof", err)}}
	}
	m := C.P.ownMethod(err.t, "Error")
	if m == nil || m.Blocks == nil {
		return []errSays{{st, mkApp("textof", err)}}
	}
	var out []errSays
	for _, r := range C.ask(st, m, []*V{err.args[0]}) {
		if r.panicked == nil && len(r.res) == 1 {
			out = append(out, expand(r.st, r.res[0])...)
		}
	}
	return out
}

// textOf: what the Error method of an error gives, if that is one text
func (C *Checker) textOf(R *Report, st *State, err *V) *V {
	ts := C.textsOf(st, err, 0)
	if len(ts) != 1 {
		return nil
	}
	return ts[0].txt
}

func runC23(C *Checker, R *Report) {
	alts := C.faultAlts(R)
	if !R.need(len(alts) > 0, "the element from which the client takes the text of a Fault") {
		return
	}
	for _, a := range alts {
		for _, p := range a.text {
			R.sample("a Fault is read from " + localPath(p))
		}
	}
	for _, s := range C.soapServers(R) {
		s := s
		C.soapRun(R, s, func(m *tmon, st *State, e *Event) {
			if e.Kind != "end" || e.Recv != nil {
				return
			}
			R.count("requests_answered", 1)
			viol := func(msg string) {
				st.violate("C23", s.name, msg, e.fnPos())
			}
			if m.n["late"] > 0 {
				viol("the answer is written by a goroutine whose end the server does not wait for")
				return
			}
			doc, what := envelopeOf(m)
			if what != "" {
				viol(what)
				return
			}
			parts, content, fault, what := bodyParts(doc)
			if what != "" {
				viol(what)
				return
			}
			if p := undeclaredPrefix(parts); p != "" {
				viol("the prefix of " + p + " is not declared in the envelope")
			}
			C.c23headers(m, st, viol)
			if d := m.v["doc"]; d != nil {
				body := mkApp("content", unwrap(fieldByName(newState(st.E), C.soapReq(&s), "net/http", "Request", "Body")))
				if !d.mentions(func(x *V) bool { return x == body }) || !wholeText(st, d.args[0], body) {
					viol("what is decoded is " + d.args[0].show(4) + ", not the whole body of the HTTP request")
				}
			}
			failed := true // an error must be told
			var why *V
			if m.n["called"] > 0 {
				tr, known := st.truth(mkEq(m.v["err"], vNil))
				none, kn := st.truth(mkEq(m.v["resp"], vNil))
				switch {
				case known && !tr:
					why = m.v["err"]
				case known && tr && kn && none:
				case known && tr && !kn && len(content) > 0:
					viol("an envelope with neither response nor Fault is sent if the handler returns neither response nor error")
					return
				case known && tr:
					failed = false
				case !known && len(content) > 0:
					viol("a response is sent although the handler may have returned an error")
					return
				}
			}
			switch {
			case len(content) > 0 && len(fault) > 0:
				viol("the envelope has both content and a Fault")
			case len(content) == 0 && len(fault) == 0:
				viol("the envelope has neither content nor a Fault")
			case failed && len(content) > 0:
				viol("content is sent for a request that failed: " + content[0].v.show(4))
			case len(content) > 1:
				viol("the body has more than one element")
			case len(content) == 1:
				R.count("responses", 1)
				if !sameContent(st, content[0].v, m.v["resp"]) {
					viol("the body holds " + content[0].v.show(4) + ", not the response of the handler")
				}
			default:
				R.count("faults", 1)
				if !failed && !C.unencodable(m, st) {
					viol("a Fault is sent although the handler succeeded")
				}
				n := 0
				for i := range alts {
					ps, from, ok := alts[i].read(fault)
					if !ok {
						continue
					}
					n++
					var vs []*V
					for k, p := range ps {
						vs = append(vs, p.v)
						if w := nsFits(parts, p.path, from[k]); w != "" {
							viol("the text of a Fault cannot be read: " + w)
						}
					}
					txt := mkCat(vs...)
					switch {
					case len(vs) == 0 && len(alts[i].text) == 0:
						viol("the client's error of a Fault does not have the text it was sent")
					case len(vs) == 0:
						viol("the Fault has no text at " + localPath(alts[i].text[0]) + ", where the client reads it")
					case why != nil && !C.tells(R, st, txt, why):
						viol("the Fault says " + txt.show(4) + ", which does not contain the error of the handler")
					case why == nil && m.n["decoded"] == 2 && !txt.mentions(func(x *V) bool { return x.k == VApp && strings.HasPrefix(x.op, "nn:decerror") }):
						viol("the Fault for a request that cannot be decoded says " + txt.show(4) + ", which does not contain the error")
					}
				}
				if n == 0 {
					viol("the client does not find the text of the Fault")
				}
			}
		})
	}
	R.need(R.counts["responses"] > 0, "a response sent over SOAP")
	R.need(R.counts["faults"] > 0, "a Fault sent over SOAP")
}

// tells: the text contains the text of the error
func (C *Checker) tells(R *Report, st *State, txt, err *V) bool {
	want := C.textOf(R, st, err)
	if want == nil {
		return false
	}
	whole := txt == want
	ps := []*V{txt}
	if txt.k == VApp && txt.op == "cat" {
		ps = txt.args
	}
	for _, p := range ps {
		whole = whole || p == want || p == mkApp("textof", err)
	}
	return whole
}

// unencodable: the path found that the response cannot be encoded
func (C *Checker) unencodable(m *tmon, st *State) bool {
	for f, v := range st.facts {
		if f.k == VApp && f.op == "xmlfails" && v == vTrue && f.args[0].mentions(func(x *V) bool { return x == m.v["resp"] }) {
			return true
		}
	}
	return false
}

// soapReq: the HTTP request a SOAP server is given
func (C *Checker) soapReq(s *soapServer) *V {
	for _, a := range s.args {
		if a.t != nil && a.t.String() == "*net/http.Request" {
			return a
		}
	}
	return httpR
}

func (C *Checker) c23headers(m *tmon, st *State, viol func(string)) {
	if h := m.v["header ?"]; h != nil {
		viol("a header of unknown name is set")
	}
	if h := m.v["header content-encoding"]; h != nil && !(h.isStr() && h.str() == "identity") {
		viol("the header Content-Encoding says " + h.show(3) + ", the envelope is written as it is")
	}
	if h := m.v["header transfer-encoding"]; h != nil && !(h.isStr() && (h.str() == "identity" || h.str() == "chunked")) {
		viol("the header Transfer-Encoding says " + h.show(3) + ", the envelope is written as it is")
	}
	if h := m.v["header content-type"]; h != nil {
		ok := h.isStr()
		if ok {
			s := strings.ToLower(h.str())
			ok = strings.Contains(s, "xml")
			if k := strings.Index(s, "charset="); k >= 0 {
				ok = ok && strings.HasPrefix(strings.Trim(s[k+8:], `" `), "utf-8")
			}
		}
		if !ok {
			viol("the header Content-Type says " + h.show(3) + ", an XML document in UTF-8 is written")
		}
	}
	if h := m.v["header content-length"]; h != nil {
		n := mkLen(mkCat(m.v["out"].args...))
		ok := h.k == VApp && h.args != nil && h.mentions(func(x *V) bool { return x == n })
		for x := h; ok && x != n; {
			if x.k != VApp || len(x.args) == 0 || x.op == "+" || x.op == "-" || x.op == "*" || x.op == "/" {
				ok = false
				break
			}
			x = x.args[0]
		}
		if !ok {
			viol("the header Content-Length says " + h.show(3) + ", which is not known to be the length of what is written")
		}
	}
	if s := m.v["status"]; s != nil {
		c := st.constOf(s)
		if c == nil || !c.isInt() {
			viol("the status of the answer is not known")
		} else if n := c.int(); n < 200 || n == 204 || n == 304 {
			viol(fmt.Sprintf("the status %d allows no body", n))
		}
	}
}

// ---- C19 over SOAP

// c19soap: the handler is called with what the envelope holds, and its outcome
// is what the envelope sent back holds
func (C *Checker) c19soap(R *Report) {
	sides := map[string]int{}
	for _, s := range C.soapServers(R) {
		s := s
		// isMsg: the term is the message in the body of the received envelope
		isMsg := func(m *tmon, v *V) bool {
			p, t, doc := recvPath(v)
			return doc != nil && doc == m.v["doc"] && len(p) == 3 && localPath(p[:2]) == "Envelope>Body" && isIfaceType(t)
		}
		C.soapRun(R, s, func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "handler":
				R.count("soap_handler_calls", 1)
				sides[s.side]++
				if m.n["called"] > 1 {
					st.violate("C19", s.name, "the handler is called more than once for a request", posOf(e.Instr))
				}
				if m.n["decoded"] != 1 {
					st.violate("C19", s.name, "the handler is called although the envelope was not decoded", posOf(e.Instr))
					return
				}
				if len(e.Args) == 0 || !isMsg(m, e.Args[0]) {
					st.violate("C19", s.name, fmt.Sprintf("the handler is given %v, not the message in the body of the envelope", e.Args[0]), posOf(e.Instr))
				}
				if s.side != "" && len(e.Args) > 0 {
					if own, known := handlerImplements(C, st, c19term(e.Args[0]), s.side); !known || !own {
						st.violate("C19", s.name, "the handler is called with a request that was not found to be of its direction", posOf(e.Instr))
					}
				}
				c19metadata(s.name, s.side, st, e, func(v *V) bool {
					p, _, doc := recvPath(v)
					if doc != nil && doc == m.v["doc"] && localPath(p) == "Envelope>Header>chargeBoxIdentity" {
						return true
					}
					return v.isStr() && v.str() == "" && noHeader(m, st)
				}, "the chargeBoxIdentity of the envelope")
			case "end":
				if e.Recv != nil {
					return // C08
				}
				R.count("soap_outcomes_checked", 1)
				if m.n["called"] == 0 {
					for f, v := range st.facts {
						if s.side != "" && v == vTrue && f.k == VApp && f.op == "implements" && len(f.args) == 1 && isMsg(m, f.args[0]) {
							if own, known := handlerImplements(C, st, f.args[0], s.side); known && own && m.n["decoded"] == 1 {
								st.violate("C19", s.name, "a request of the handler's own direction is answered without calling the handler", e.fnPos())
								return
							}
						}
					}
				}
				doc, what := envelopeOf(m)
				if what != "" {
					return // C23
				}
				_, content, fault, what := bodyParts(doc)
				if what != "" || len(content) > 1 {
					return // C23
				}
				if m.n["called"] == 0 {
					if len(content) > 0 {
						st.violate("C19", s.name, "a request is answered with a response although the handler was not called", e.fnPos())
					}
					return
				}
				noErr, known := st.truth(mkEq(m.v["err"], vNil))
				switch {
				case len(content) > 0 && !(known && noErr):
					st.violate("C19", s.name, "a response is sent although the handler may have returned an error", e.fnPos())
				case len(content) > 0 && !sameContent(st, content[0].v, m.v["resp"]):
					st.violate("C19", s.name, fmt.Sprintf("%s is sent, not the response the handler returned", content[0].v.show(4)), e.fnPos())
				case len(content) == 0 && known && noErr:
					if none, k := st.truth(mkEq(m.v["resp"], vNil)); !(k && none) && !C.unencodable(m, st) {
						st.violate("C19", s.name, "a Fault is sent although the handler returned a response that can be encoded", e.fnPos())
					}
				case len(content) == 0 && known && !noErr:
					ok := false
					for _, p := range fault {
						ok = ok || C.tells(R, st, p.v, m.v["err"])
					}
					if !ok {
						st.violate("C19", s.name, "the Fault does not hold the text of the handler's error", e.fnPos())
					}
				case len(content) == 0 && !known:
					st.violate("C19", s.name, "a Fault is sent without looking at the error of the handler", e.fnPos())
				}
			}
		})
	}
	R.need(sides["cs"] > 0, "a call of the central system's handler over SOAP")
	R.need(sides["cp"] > 0, "a call of the charge point's handler over SOAP")
}

// c19term: the interface term under conversions to other interfaces
func c19term(v *V) *V {
	for v.k == VApp && v.op == "dyn" {
		v = v.args[0]
	}
	return v
}

// noHeader: the path found that the received envelope has no header
func noHeader(m *tmon, st *State) bool {
	for f, v := range st.facts {
		if v != vTrue || f.k != VApp || f.op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if p, _, doc := recvPath(f.args[i]); f.args[1-i] == vNil && doc != nil && doc == m.v["doc"] && localPath(p) == "Envelope>Header" {
				return true
			}
		}
	}
	return false
}

// ---- the client

type soapCall struct {
	name     string
	st       *State
	fn       *V
	args     []*V
	url      *V
	req      *V
	action   *V // nil: that of the request
	response *V // nil: made by the request
	options  *V
	id       *V // the identity in the options, when they were given
	from     *V // the sender's address in the options, when they were given
	service  bool
	n0       int // what was made before the call has lower numbers
}

// laterCalls: the same calls again in what earlier ones, successful and
// failed, left behind
func (C *Checker) laterCalls(R *Report, cs []soapCall) []soapCall {
	var out []soapCall
	for _, c := range cs {
		seen := map[string]bool{}
		n := map[bool]int{}
		f, _ := calleeOf(c.fn)
		args := methodArgs(c.args[0], f)
		E := C.newRun(&Cfg{})
		for _, r := range C.runAll(E, c.st.then(E, nil, c.fn, args)) {
			if r.panicked != nil || len(r.res) == 0 {
				continue
			}
			tr, known := r.st.truth(mkEq(r.res[len(r.res)-1], vNil))
			failed := known && !tr
			x := r.st.clone()
			x.mon, x.threads = nil, nil
			k := x.key()
			if seen[k] || n[failed] >= 4 {
				continue
			}
			seen[k] = true
			n[failed]++
			l := c
			l.st = x
			l.name += " after an earlier call"
			l.args = methodArgs(c.args[0], f)
			if c.service {
				l.req = l.args[1]
			} else {
				l.action, l.req, l.response, l.options = l.args[1], l.args[2], l.args[3], l.args[4]
				l.id, l.from = C.optField(x, l.options, "ChargeBoxIdentity"), C.optField(x, l.options, "From", "Address")
			}
			out = append(out, l)
		}
		R.take(E)
	}
	R.count("later_calls", len(out))
	return out
}

// soapCalls: Client.Call of a new client, and Send of the SOAP services
func (C *Checker) soapCalls(R *Report) []soapCall {
	C.loadExt()
	var out []soapCall
	if f := C.P.Func("soap", "NewClient"); R.need(f != nil && len(f.Params) == 1, "soap.NewClient") {
		E := C.newRun(&Cfg{})
		as := params(f)
		for _, r := range C.runAll(E, start(E, nil, mkFunc(f), as)) {
			if r.panicked != nil || len(r.res) != 1 {
				continue
			}
			m := C.P.Method(f.Signature.Results().At(0).Type(), "Call")
			if !R.need(m != nil && m.Blocks != nil && len(m.Params) == 5, "Call of a SOAP client") {
				continue
			}
			s := r.st.clone()
			s.note["client"] = r.res[0]
			args := methodArgs(r.res[0], m)
			args[4] = mkSym("param options", m.Params[4].Type()) // may be nil
			s.note["options"] = args[4]
			out = append(out, soapCall{name: "soap.Client.Call", st: s, fn: mkFunc(m), args: args, url: as[0], action: args[1], req: args[2], response: args[3], options: args[4], id: C.optField(s, args[4], "ChargeBoxIdentity"), from: C.optField(s, args[4], "From", "Address")})
		}
	}
	for _, cn := range []string{"NewCentralSystemSOAP", "NewChargePointSOAP"} {
		f := C.P.Func("internal/service", cn)
		if !R.need(f != nil && len(f.Params) == 2, "service."+cn) {
			continue
		}
		E := C.newRun(&Cfg{})
		as := params(f)
		for _, r := range C.runAll(E, start(E, nil, mkFunc(f), as)) {
			if r.panicked != nil || len(r.res) != 1 || r.res[0].k != VIface {
				continue
			}
			m := C.P.ownMethod(r.res[0].t, "Send")
			if !R.need(m != nil && m.Blocks != nil, "Send of the service made by "+cn) {
				continue
			}
			s := r.st.clone()
			s.note["service"] = r.res[0]
			args := methodArgs(r.res[0].args[0], m)
			o := newState(E)
			out = append(out, soapCall{name: cn + " Send", st: s, fn: mkFunc(m), args: args, url: as[0], req: args[1], options: as[1], id: C.optField(o, as[1], "ChargeBoxIdentity"), from: C.optField(o, as[1], "From", "Address"), service: true})
		}
	}
	R.need(len(out) >= 3, "a SOAP client and two SOAP services")
	return out
}

// optField: a value in the options of a call
func (C *Checker) optField(st *State, o *V, names ...string) *V {
	nt := C.P.Type("soap", "CallOptions")
	if nt == nil {
		return nil
	}
	l := o.loc()
	var t types.Type = nt
next:
	for _, n := range names {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				l, t = Loc{l.base, l.path + fieldPath(i)}, s.Field(i).Type()
				continue next
			}
		}
		return nil
	}
	return st.load(l, t)
}

// isPost: the call sends an HTTP request
func isHTTPSend(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Post", "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).PostForm",
		"net/http.Post", "net/http.Get", "net/http.Head", "net/http.PostForm", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		return true
	}
	return false
}

// watchPost follows the making and sending of HTTP requests
func (C *Checker) watchPost(m *tmon, st *State, e *Event, viol func(string)) {
	if e.Kind != "call" {
		return
	}
	switch e.Name {
	case "net/http.NewRequest", "net/http.NewRequestWithContext":
		as := e.Args
		if strings.HasSuffix(e.Name, "Context") {
			m.v["ctx"] = as[0]
			as = as[1:]
		} else {
			delete(m.v, "ctx")
		}
		m.v["hreq"], m.v["method"], m.v["to"], m.v["reader"] = e.Res[0], as[0], as[1], as[2]
		return
	case "(*net/http.Request).WithContext":
		if e.Args[0] == m.v["hreq"] {
			m.v["hreq"], m.v["ctx"] = e.Res[0], e.Args[1]
		}
		return
	}
	if !isHTTPSend(e.Name) {
		return
	}
	m.n["posts"]++
	if m.n["posts"] > 1 {
		m.n["posts"] = 2
		viol("a call sends more than one HTTP request")
		return
	}
	var client *V
	switch e.Name {
	case "(*net/http.Client).Do":
		client = e.Args[0]
		if e.Args[1] != m.v["hreq"] || m.v["hreq"] == nil {
			viol("the HTTP request that is sent is not the one that was made")
			return
		}
	case "(*net/http.Client).Post":
		client = e.Args[0]
		m.v["method"], m.v["to"], m.v["reader"] = mkStr("POST"), e.Args[1], e.Args[3]
	case "net/http.Post":
		viol("the HTTP request has no time limit")
		m.v["method"], m.v["to"], m.v["reader"] = mkStr("POST"), e.Args[0], e.Args[2]
	default:
		viol(e.Name + " does not post an envelope")
		return
	}
	m.v["res"], m.v["reserr"] = e.Res[0], e.Res[1]
	m.v["sent"] = st.readerContent(m.v["reader"], e.Instr)
	if client != nil {
		// a bounded time for the whole exchange
		limit := false
		if d := fieldByName(st, client, "net/http", "Client", "Timeout"); d != nil {
			c := st.constOf(d)
			limit = bounded(st, d) && c != nil && c.int() > 0
		}
		if ctx := m.v["ctx"]; ctx != nil {
			if d := st.get(Loc{unwrap(ctx).loc().base, "$timeout"}); d != nil {
				limit = limit || bounded(st, d) && st.constOf(d) != nil && st.constOf(d).int() > 0 || d.k == VApp && d.op == "(time.Time).Add" && bounded(st, d.args[1])
			}
		}
		if !limit {
			viol("the HTTP request has no time limit")
		}
		C.watchPool(m, st, client)
	}
}

// watchPool: a transport of its own keeps its connection unless told otherwise
func (C *Checker) watchPool(m *tmon, st *State, client *V) {
	tr := fieldByName(st, client, "net/http", "Client", "Transport")
	if tr == nil {
		return
	}
	tr = unwrap(tr)
	if tr.k != VAlloc || st.isPub(tr) {
		return
	}
	m.v["pool"] = tr
	if hreq := m.v["hreq"]; hreq != nil {
		if c := fieldByName(st, hreq, "net/http", "Request", "Close"); c != nil && st.constOf(c) == vTrue {
			m.n["noreuse"] = 1
		}
	}
	if c := fieldByName(st, tr, "net/http", "Transport", "DisableKeepAlives"); c != nil && st.constOf(c) == vTrue {
		m.n["noreuse"] = 1
	}
	if c := fieldByName(st, tr, "net/http", "Transport", "IdleConnTimeout"); c != nil && st.constOf(c) != nil && st.constOf(c).isInt() && st.constOf(c).int() > 0 {
		m.n["noreuse"] = 1
	}
}

// typeEqual: the path found two values to be of one type
func typeEqual(st *State, a, b *V) bool {
	rv := func(v *V) *V { return rtypeOf(mkApp("reflect.ValueOf", v)) }
	tr, k := st.truth(mkEq(rv(a), rv(b)))
	return k && tr
}

func runC24(C *Checker, R *Report) {
	idPath := C.serverPaths(R)
	calls := C.soapCalls(R)
	for _, c := range append(calls[:len(calls):len(calls)], C.laterCalls(R, calls)...) {
		c := c
		R.sample("SOAP call: " + c.name)
		E := C.newRun(&Cfg{})
		c.n0 = nSyms
		mon := newMon(func(m *tmon, st *State, e *Event) {
			viol := func(msg string) { st.violate("C24", c.name, msg, e.fnPos()) }
			posts := m.n["posts"]
			C.watchPost(m, st, e, viol)
			if posts == 0 && m.n["posts"] == 1 {
				R.count("posts", 1)
				C.c24sent(R, &c, m, st, idPath, viol)
			}
			switch e.Kind {
			case "maypanic":
				if e.Name == "nil" && e.Val == c.options && !c.service {
					viol("a call without options panics")
				}
			case "decode":
				if e.Val.k == VApp && e.Val.op == "xmldec" {
					m.v["doc"] = e.Val
					m.n["decoded"] = 1
					if e.Block {
						m.n["decoded"] = 2
					}
				}
			case "call":
				if body := resBody(st, m); body != nil && readsAll(e) && unwrap(e.Args[0]) == unwrap(body) && m.n["closed"] > 0 {
					viol("the body of the HTTP response is read after it was closed")
				}
				switch {
				case e.Name == "(github.com/google/uuid.UUID).String" || strings.HasPrefix(e.Name, "github.com/google/uuid.New"):
					for _, r := range e.Res {
						if r.mentions(func(x *V) bool { return x.k == VSym && x.op == "nn:uniq-uuid" }) {
							m.n["uuid"] = 1
						}
					}
				case strings.HasSuffix(e.Name, "Closer).Close") && m.v["res"] != nil:
					if b := fieldByName(st, m.v["res"], "net/http", "Response", "Body"); b != nil && unwrap(e.Args[0]) == unwrap(b) {
						m.n["closed"] = 1
					}
				case strings.HasSuffix(e.Name, "CloseIdleConnections"):
					m.n["noreuse"] = 1
				case e.Name == "(reflect.Value).Set":
					a, b := e.Args[0], e.Args[1]
					for a.k == VApp && b.k == VApp && a.op == "(reflect.Value).Elem" && b.op == a.op {
						a, b = a.args[0], b.args[0]
					}
					if a.k == VApp && a.op == "reflect.ValueOf" && b.k == VApp && b.op == a.op {
						m.v["into"], m.v["from"] = a.args[0], b.args[0]
					}
				}
			case "end":
				C.c24end(R, &c, m, st, e, viol)
			}
		})
		C.runAll(E, c.st.then(E, mon, c.fn, c.args))
		R.take(E)
	}
	R.need(R.counts["posts"] > 0, "an HTTP request the SOAP client posts")
	R.need(R.counts["successes"] > 0, "a SOAP call that succeeds")
}

// serverPaths: the element from which the server takes the identity
func (C *Checker) serverPaths(R *Report) []xmlName {
	var id []xmlName
	for _, s := range C.soapServers(R) {
		if s.side != "" {
			continue
		}
		C.soapRun(R, s, func(m *tmon, st *State, e *Event) {
			if e.Kind == "handler" && len(e.Args) > 1 {
				if p, _, doc := recvPath(e.Args[1]); doc != nil {
					id = p
				}
			}
		})
	}
	R.need(id != nil, "the element from which the server takes the identity")
	return id
}

func (C *Checker) c24sent(R *Report, c *soapCall, m *tmon, st *State, idPath []xmlName, viol func(string)) {
	if x := m.v["method"]; x == nil || !x.isStr() || x.str() != "POST" {
		viol("the HTTP request is not a POST")
	}
	if m.v["to"] != c.url {
		viol("the HTTP request goes to " + m.v["to"].show(4) + ", not to the configured URL")
	}
	om := &tmon{v: map[string]*V{}}
	sent := m.v["sent"]
	if sent == nil {
		viol("what is posted is not known")
		return
	}
	if sent.k == VApp && sent.op == "cat" {
		om.v["out"] = mkTuple(sent.args...)
	} else {
		om.v["out"] = mkTuple(sent)
	}
	doc, what := envelopeOf(om)
	if what != "" {
		viol("what is posted is not one envelope: " + sent.show(4))
		return
	}
	parts, content, fault, what := bodyParts(doc)
	if what != "" {
		viol(what)
		return
	}
	if p := undeclaredPrefix(parts); p != "" {
		viol("the prefix of " + p + " is not declared in the envelope")
	}
	switch {
	case len(fault) > 0:
		viol("a Fault is posted")
	case len(content) != 1 || !sameContent(st, content[0].v, c.req):
		viol("the body of the envelope does not hold the request")
	}
	at := func(path string) *xmlPart {
		for i, p := range parts {
			if !p.attr && localPath(p.path) == path {
				return &parts[i]
			}
		}
		return nil
	}
	check := func(name string, ok func(v *V) bool, want string) {
		p := at("Envelope>Header>" + name)
		if p == nil {
			viol("the envelope that is posted has no " + name + " in its header")
			return
		}
		if !ok(p.v) {
			viol("the header of the envelope has " + p.v.show(5) + " as " + name + ", not " + want)
		}
	}
	action := c.action
	if action == nil {
		action = mkApp(".Action", c.req)
	}
	check("To", func(v *V) bool { return v == c.url }, "the configured URL")
	check("Action", func(v *V) bool {
		return v == mkCat(mkStr("/"), action) || v.k == VApp && v.op == "cat" && len(v.args) == 2 && v.args[0].isStr() && v.args[0].str() == "/" && C.isAction(v.args[1], c)
	}, "the action of the request")
	check("MessageID", func(v *V) bool {
		return m.n["uuid"] == 1 && v.k == VApp && v.op == "cat" && len(v.args) == 2 && v.args[0].isStr() && v.args[0].str() == "uuid:" && v.args[1].k == VApp && v.args[1].op == "nn:uniq-str"
	}, "a fresh message id")
	id, from := c.id, c.from
	none, known := st.truth(mkEq(c.options, vNil))
	noFrom := known && none
	if from != nil && !noFrom {
		x, k := st.truth(mkEq(from, mkStr("")))
		noFrom = k && x
	}
	if from != nil && (!noFrom || at("Envelope>Header>From>Address") != nil) {
		check("From>Address", func(v *V) bool {
			return v == from || known && none && v.isStr() && v.str() == ""
		}, "the configured address of the sender")
	}
	check("chargeBoxIdentity", func(v *V) bool {
		return v == id && id != nil || known && none && v.isStr() && v.str() == ""
	}, "the configured identity")
	if p := at("Envelope>Header>chargeBoxIdentity"); p != nil && idPath != nil {
		if localPath(idPath) != localPath(p.path) {
			viol("the identity is sent as " + localPath(p.path) + ", the server reads it from " + localPath(idPath))
		} else if w := nsFits(parts, p.path, idPath); w != "" {
			viol("the server does not find the identity: " + w)
		}
	}
}

// isAction: the action of the request of this call
func (C *Checker) isAction(v *V, c *soapCall) bool {
	if c.action != nil {
		return v == c.action
	}
	return v.k == VApp && strings.HasSuffix(v.op, "Action") && len(v.args) > 0 && unwrap(v.args[0]) == c.req
}

func (C *Checker) c24end(R *Report, c *soapCall, m *tmon, st *State, e *Event, viol func(string)) {
	if e.Recv != nil || len(e.Res) == 0 {
		return
	}
	R.count("calls_ended", 1)
	if m.v["res"] != nil {
		ok, known := st.truth(mkEq(m.v["reserr"], vNil))
		if (ok || !known) && m.n["closed"] == 0 {
			viol("a call ends without closing the body of the HTTP response")
		}
		if m.v["pool"] != nil && m.n["noreuse"] == 0 && !st.reach(c.args[0])[m.v["pool"]] {
			viol("a call leaves an idle connection behind in a transport of its own")
		}
	}
	err := e.Res[len(e.Res)-1]
	if tr, known := st.truth(mkEq(err, vNil)); known && !tr {
		R.count("failures", 1)
		if into := m.v["into"]; into != nil && m.v["from"] != nil && typeEqual(st, unwrap(into), m.v["from"]) {
			other := false
			for f, v := range st.facts {
				if v == vFalse && f.k == VApp && (f.op == "implements" || f.op == "istype") && f.mentions(func(x *V) bool { return x == unwrap(into) }) {
					other = true // a response, but not of this direction
				}
				if v == vFalse && f.k == VApp && f.op == "==" && f.args[1] == vNil {
					if p, _, d := recvPath(f.args[0]); d != nil && len(p) == 3 && p[2].local() == "Fault" {
						other = true // there is a Fault beside it
					}
				}
			}
			if !other {
				viol("a call fails although it got the response to its request")
			}
		}
		return
	}
	R.count("successes", 1)
	if m.n["posts"] == 0 {
		viol("a call succeeds without posting anything")
		return
	}
	if tr, known := st.truth(mkEq(m.v["reserr"], vNil)); !known || !tr {
		viol("a call succeeds although the HTTP request may have failed")
		return
	}
	body := fieldByName(st, m.v["res"], "net/http", "Response", "Body")
	doc := m.v["doc"]
	if doc == nil || m.n["decoded"] != 1 || body == nil || !doc.mentions(func(x *V) bool { return x == unwrap(body) }) {
		viol("a call succeeds although the reply was not decoded")
		return
	}
	from := m.v["from"]
	resp := c.response
	if c.service {
		resp = unwrap(e.Res[0])
		for resp.k == VApp && resp.op == "dyn" {
			resp = resp.args[0]
		}
	}
	if from == nil && c.service {
		// the content itself may be handed out
		if p, _, d := recvPath(resp); d == doc && len(p) >= 2 && p[1].local() == "Body" {
			from = resp
			var exp *V
			for f, v := range st.facts {
				if v == vTrue && f.k == VApp && f.op == "==" && f.args[0].k == VApp && f.args[0].op == "nn:rtype" {
					for i := range f.args {
						a, b := f.args[i].args[0], f.args[1-i].args[0]
						if a.args[0] == resp && b.args[0].k == VApp && strings.Contains(b.args[0].op, "GetResponse") && b.args[0].args[0] == c.req {
							exp = b.args[0]
						}
					}
				}
			}
			if exp == nil {
				viol("a call succeeds although the reply may be of another type than the response to its request")
			}
			m.v["into"] = resp
		}
	}
	if from == nil || m.v["into"] == nil {
		viol("a call succeeds without handing the reply to the caller")
		return
	}
	p, t, d := recvPath(from)
	if d != doc || len(p) < 2 || p[1].local() != "Body" || !isIfaceType(t) {
		viol("a call hands out " + from.show(4) + ", not the message in the body of the reply")
		return
	}
	into := unwrap(m.v["into"])
	if into != unwrap(resp) {
		viol("a call copies the reply to " + into.show(4) + ", not to the caller's response")
		return
	}
	if c.service && into != from && !(into.k == VApp && strings.Contains(into.op, "GetResponse") && unwrap(into.args[0]) == c.req) {
		viol("a service expects " + into.show(4) + ", not the response to its request")
	}
	if c.service && into.k == VApp && len(into.args) == 2 && (into.args[1].n <= c.n0 || st.reach(c.args[0])[into.args[1]]) {
		viol("a call hands the reply out in an object that other calls use too")
	}
	if into != from && !typeEqual(st, into, from) {
		viol("a call succeeds although the reply may be of another type than expected")
	}
	// nor a Fault
	ok := false
	for f, v := range st.facts {
		if f.k == VApp && f.op == "==" && v == vTrue && f.args[1] == vNil || v == vNil {
			x := f
			if f.op == "==" {
				x = f.args[0]
			}
			if p, _, d := recvPath(x); d == doc && len(p) == 3 && p[1].local() == "Body" && p[2].local() == "Fault" {
				ok = true
			}
		}
	}
	if !ok {
		viol("a call succeeds although the reply may be a Fault")
	}
}

var _ = token.NoPos

func isStructType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
