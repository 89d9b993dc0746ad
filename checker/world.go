package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared parts of the rules about connections: a typestate monitor, ways to
// get hold of connections through the exported API, and the shape of frames.

// tmon is a monitor whose state is named values and counters
type tmon struct {
	v map[string]*V
	n map[string]int
	h func(m *tmon, st *State, e *Event)
}

func newMon(h func(m *tmon, st *State, e *Event)) *tmon {
	return &tmon{v: map[string]*V{}, n: map[string]int{}, h: h}
}

func (m *tmon) Clone() Monitor {
	n := &tmon{v: make(map[string]*V, len(m.v)), n: make(map[string]int, len(m.n)), h: m.h}
	for k, v := range m.v {
		n.v[k] = v
	}
	for k, v := range m.n {
		n.n[k] = v
	}
	return n
}

func (m *tmon) Event(st *State, e *Event) { m.h(m, st, e) }

func (m *tmon) Key(c *canon) {
	var ks []string
	for k := range m.v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.str(k)
		c.val(m.v[k])
	}
	ks = ks[:0]
	for k := range m.n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if m.n[k] != 0 {
			c.str(k)
			c.int(m.n[k])
		}
	}
}

const wsPkg = "(*github.com/gorilla/websocket.Conn)."

// methods of the socket that count as writing to it
func isSockWrite(name string) bool {
	if !strings.HasPrefix(name, wsPkg) {
		return false
	}
	switch name[len(wsPkg):] {
	case "WriteMessage", "WriteJSON", "NextWriter", "WritePreparedMessage", "SetWriteDeadline", "EnableWriteCompression", "SetCompressionLevel":
		return true
	}
	return false
}

// a whole or part of a message is handed to the socket
func isMessageWrite(name string) bool {
	switch name {
	case wsPkg + "WriteMessage", wsPkg + "WriteJSON", wsPkg + "NextWriter", wsPkg + "WritePreparedMessage":
		return true
	}
	return false
}

func isSockRead(name string) bool {
	switch name {
	case wsPkg + "ReadMessage", wsPkg + "NextReader", wsPkg + "ReadJSON":
		return true
	}
	return false
}

// connSt: a state in which a connection was made through the exported API
type connSt struct {
	st   *State
	conn *V
	sock *V
}

// connStates makes connections with the given exported function of package ws
func (C *Checker) connStates(R *Report, how string) []connSt {
	f := C.P.Func("ws", how)
	if !R.need(f != nil, "ws."+how) {
		return nil
	}
	var out []connSt
	E := C.newRun(&Cfg{})
	var sock *V
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if e.Kind == "call" && (e.Name == "(*github.com/gorilla/websocket.Upgrader).Upgrade" || strings.HasPrefix(e.Name, "(*github.com/gorilla/websocket.Dialer).Dial")) {
			m.v["sock"] = e.Res[0]
		}
	})
	_ = sock
	for _, r := range C.runAll(E, start(E, mon, mkFunc(f), params(f))) {
		if r.panicked != nil || len(r.res) != 2 {
			continue
		}
		if !r.st.assume(mkEq(r.res[1], vNil), true) || r.res[0].k != VAlloc {
			continue
		}
		s := r.st.mon.(*tmon).v["sock"]
		if s == nil {
			continue
		}
		r.st.assume(mkEq(s, vNil), false)
		r.st.mon = nil
		r.st.publish(r.res[0])
		r.st.note["conn"] = r.res[0]
		r.st.note["sock"] = s
		out = append(out, connSt{r.st, r.res[0], s})
	}
	R.need(len(out) > 0, "a connection made by ws."+how)
	return out
}

func (C *Checker) connType() types.Type { return C.P.Type("ws", "Conn") }

func (C *Checker) connMethod(R *Report, name string) *ssa.Function {
	t := C.connType()
	if !R.need(t != nil, "ws.Conn") {
		return nil
	}
	m := C.P.Method(t, name)
	if !R.need(m != nil && m.Blocks != nil, "method "+name+" of ws.Conn") {
		return nil
	}
	return m
}

// reqElem: the type of what is handed over from the reader to the session
func (C *Checker) reqElem(R *Report) types.Type {
	m := C.connMethod(R, "Requests")
	if m == nil {
		return nil
	}
	rs := m.Signature.Results()
	if rs.Len() == 1 {
		if c, ok := rs.At(0).Type().Underlying().(*types.Chan); ok {
			return c.Elem()
		}
	}
	R.need(false, "the channel of received requests")
	return nil
}

// isReqChan: the channel carries received requests
func isReqChan(elem, t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && elem != nil && types.Identical(c.Elem(), elem)
}

// reqParts finds the request and its message id in a handed over value
func (C *Checker) reqParts(st *State, elem types.Type, v *V) (req, id *V) {
	rt, it := C.P.Type("messages", "Request"), C.P.Type("ws", "MessageID")
	t := elem
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = st.load(v.loc(), t)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		switch {
		case types.Identical(s.Field(i).Type(), rt):
			req = structField(v, i)
		case types.Identical(s.Field(i).Type(), it):
			id = structField(v, i)
		}
	}
	return
}

// ---- frames

// frame is a written OCPP-J message
type frame struct {
	kind  int64
	parts []*V // without their interface wrapping
	raw   []*V
}

func unwrap(v *V) *V {
	if v != nil && v.k == VIface {
		return v.args[0]
	}
	return v
}

// parseFrame reads the term of the bytes of one message; nil if it is not a
// JSON array of known length whose first element is a known number
func parseFrame(st *State, data *V) *frame {
	d := st.bytesTerm(data)
	if d.k != VApp || d.op != "nn:json" {
		return nil
	}
	a := d.args[0]
	if a.k != VApp || a.op != "jsonarr" || len(a.args) < 2 {
		return nil
	}
	t := unwrap(a.args[0])
	if c := st.constOf(t); c != nil {
		t = c
	}
	if !t.isInt() {
		return nil
	}
	f := &frame{kind: t.int()}
	for _, x := range a.args {
		f.raw = append(f.raw, x)
		f.parts = append(f.parts, unwrap(x))
	}
	return f
}

// the written message of a socket write, nil if there is none
func writtenFrame(st *State, e *Event) *frame {
	if len(e.Args) < 2 {
		return nil
	}
	switch e.Name {
	case wsPkg + "WriteMessage":
		return parseFrame(st, e.Args[len(e.Args)-1])
	}
	return nil
}

// ---- what a peer sends

const (
	pNum = iota
	pStr
	pObj
	pAny
)

type frameShape struct {
	kind  int64
	parts []int // kinds of the parts after the type
}

var (
	shapeCall   = frameShape{2, []int{pStr, pStr, pObj}}
	shapeResult = frameShape{3, []int{pStr, pObj}}
	shapeError  = frameShape{4, []int{pStr, pStr, pStr, pObj}}
)

// wholeText: src is the text of peer, white space aside; a term that is not
// understood is taken for it
func wholeText(st *State, src, peer *V) bool {
	if src == peer || src.k != VApp {
		return true
	}
	only := func(v *V, set string) bool {
		c := st.constOf(v)
		return c == nil || !c.isStr() || strings.Trim(c.str(), set) == ""
	}
	fn := src.op
	for _, p := range []string{"bytes.", "strings."} {
		fn = strings.TrimPrefix(fn, p)
	}
	if fn == src.op {
		if fn == "subslice" && len(src.args) == 3 {
			if c := st.constOf(src.args[2]); c != nil && c.isInt() {
				return false // cut to a fixed length
			}
			return wholeText(st, src.args[0], peer)
		}
		return true
	}
	if len(src.args) == 0 || !src.args[0].mentions(func(x *V) bool { return x == peer }) {
		return false
	}
	switch fn {
	case "Replace", "ReplaceAll":
		// a space may be part of a string, a line break may not
		if src.args[1] != src.args[2] && (!only(src.args[1], "\r\n\t") || !only(src.args[2], " \r\n\t")) {
			return false
		}
	case "Trim", "TrimLeft", "TrimRight":
		if !only(src.args[1], " \r\n\t\x00\ufeff") {
			return false
		}
	case "TrimPrefix", "TrimSuffix":
		if !only(src.args[1], " \r\n\t\x00\ufeff") {
			return false
		}
	case "ToLower", "ToUpper", "ToTitle", "Title":
		return false
	}
	return wholeText(st, src.args[0], peer)
}

// frameSource: what the frame is decoded from, where it is not the received
// text (white space aside)
func frameSource(m *tmon, st *State) *V {
	src, peer := m.v["src"], m.v["peer"]
	if src == nil || peer == nil {
		return nil
	}
	if wholeText(st, src, peer) {
		return nil
	}
	return src
}

// assumeFrame restricts the paths to frames of the given shape. It is given
// every event; parts are named by their position.
func assumeFrame(m *tmon, st *State, e *Event, sh frameShape) {
	switch e.Kind {
	case "call":
		if isSockRead(e.Name) && len(e.Res) > 0 {
			if e.Name == wsPkg+"ReadMessage" {
				m.v["peer"] = e.Res[1]
				st.assume(mkEq(e.Res[2], vNil), true)
			} else if e.Name == wsPkg+"NextReader" {
				m.v["peer"] = e.Res[1]
				st.assume(mkEq(e.Res[2], vNil), true)
			}
			m.n["reads"]++
		}
	case "decode":
		peer := m.v["peer"]
		if peer == nil || e.Type == nil || e.Val.k != VApp || e.Val.op != "dec" {
			return
		}
		sl, ok := e.Type.Underlying().(*types.Slice)
		if ok && m.v["frame"] == nil && e.Val.args[0].mentions(func(x *V) bool { return x == peer }) {
			if e.Block {
				st.done = true // not a JSON array
				return
			}
			m.v["frame"] = e.Val
			m.v["src"] = e.Val.args[0]
			st.assume(mkApp("jsonmore", e.Val.args[0]), false)
			n := int64(len(sh.parts) + 1)
			st.iv[mkLen(e.Val)] = ival{n, n, true, true}
			if _, isI := sl.Elem().Underlying().(*types.Interface); isI {
				for i := -1; i < len(sh.parts); i++ {
					el := mkApp("ld", mkApp("elems", e.Val), mkStr("["+itoa(i+1)+"]"))
					switch {
					case i < 0:
						if nt := st.E.P.jsonNumber(); strings.HasSuffix(e.Name, useNumber) && nt != nil {
							n := mkAppT("dyn", nt, el)
							st.facts[mkAppT("istype", nt, el)] = vTrue
							st.assume(mkEq(mkApp("numval", n), mkInt(sh.kind)), true)
							st.assume(mkEq(n, mkStr(itoa(int(sh.kind)))), true)
							for _, f := range []string{"Float64", "Int64"} {
								st.assume(mkApp("numfails", n, mkStr("(encoding/json.Number)."+f)), false)
							}
							m.v["part0"] = n
							break
						}
						st.facts[mkAppT("istype", types.Typ[types.Float64], el)] = vTrue
						st.assume(mkEq(mkAppT("dyn", types.Typ[types.Float64], el), mkInt(sh.kind)), true)
						m.v["part0"] = mkAppT("dyn", types.Typ[types.Float64], el)
					case sh.parts[i] == pStr:
						st.facts[mkAppT("istype", types.Typ[types.String], el)] = vTrue
						m.v["part"+itoa(i+1)] = mkAppT("dyn", types.Typ[types.String], el)
					case sh.parts[i] == pObj:
						st.facts[mkAppT("istype", jsonMapType, el)] = vTrue
						m.v["part"+itoa(i+1)] = mkAppT("dyn", jsonMapType, el)
					}
					st.nonnil(el)
				}
			}
			return
		}
		if fr := m.v["frame"]; ok && fr != nil && e.Val != fr && e.Val.args[0] == fr.args[0] {
			// the same frame decoded once more
			if e.Block {
				st.done = true
				return
			}
			st.iv[mkLen(e.Val)] = st.interval(mkLen(fr))
			return
		}
		// the parts are decoded one by one
		if fr := m.v["frame"]; fr != nil {
			d := e.Val.args[0]
			for i := 0; i <= len(sh.parts); i++ {
				if d != mkApp("ld", mkApp("elems", fr), mkStr("["+itoa(i)+"]")) {
					continue
				}
				want := pNum
				if i > 0 {
					want = sh.parts[i-1]
				}
				if e.Block && decodable(want, e.Type) {
					st.done = true // a part of that kind can be decoded
					return
				}
				if !e.Block {
					m.v["part"+itoa(i)] = e.Val
					if i == 0 {
						st.assume(mkEq(e.Val, mkInt(sh.kind)), true)
					}
				}
			}
		}
	}
}

func decodable(kind int, t types.Type) bool {
	if t.String() == "encoding/json.Number" {
		return kind == pNum
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kind == pNum && u.Info()&types.IsNumeric != 0 || kind == pStr && u.Info()&types.IsString != 0
	case *types.Map:
		return kind == pObj
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Slice:
		return types.TypeString(t, nil) == "encoding/json.RawMessage"
	}
	return false
}

// jsonNumber: the type of numbers that are kept as written
func (P *Prog) jsonNumber() types.Type {
	pk := P.SSA.ImportedPackage("encoding/json")
	if pk == nil || pk.Type("Number") == nil {
		return nil
	}
	return pk.Type("Number").Type()
}

var jsonMapType = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))

func itoa(i int) string { return mkInt(int64(i)).c.String() }

// reaches: the function or what it calls directly can call one of the names
func (P *Prog) reaches(fn *ssa.Function, is func(string) bool) bool {
	return P.reachesX(fn, is, map[*ssa.Function]bool{})
}

func (P *Prog) reachesX(fn *ssa.Function, is func(string) bool, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	if is(fn.String()) {
		return true
	}
	if fn.Pkg != nil && !P.inRepo(fn.Pkg.Pkg) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && P.reachesX(g, is, seen) {
					return true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok && P.reachesX(mc.Fn.(*ssa.Function), is, seen) {
				return true
			}
		}
	}
	return false
}
