package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26 and the other rules about one connection.

func init() {
	rules["C26"] = rule{runC26, "The constructors and encoders of the frames are abstractly interpreted and the written array terms compared with the OCPP-J layout; the frame decoder is interpreted on unknown bytes, every accepting path must have established the type id and the kind of each part, and re-encoding its result must give the parts back in their positions; the error codes of undecodable calls and of failing handlers are read off the frames written on those paths."}
}

// layout of the frames: what each exported constructor is given, by position
func runC26(C *Checker, R *Report) {
	type ctor struct {
		name  string
		kind  int64
		nargs int
	}
	for _, c := range []ctor{{"NewCallMessage", 2, 3}, {"NewCallResult", 3, 2}, {"NewCallErrorMessage", 4, 3}} {
		f := C.P.Func("ws", c.name)
		if !R.need(f != nil && len(f.Params) == c.nargs, "ws."+c.name) {
			continue
		}
		E := C.newRun(&Cfg{})
		var ps []*V
		for _, p := range f.Params {
			ps = append(ps, mkSym("param "+p.Name(), p.Type()))
		}
		s0 := start(E, nil, mkFunc(f), ps)
		s0.note["args"] = mkTuple(ps...)
		for _, r := range C.runAll(E, s0) {
			if r.panicked != nil || len(r.res) != 1 {
				R.add("ws."+c.name, "the constructor can panic", f.Pos(), r.st.traceList())
				continue
			}
			v := r.res[0]
			if v.k != VIface {
				v = mkIface(f.Signature.Results().At(0).Type(), v)
			}
			C.encodeFrame(r.st, v, func(st *State, fr *frame) {
				R.count("written_layouts", 1)
				want := len(ps) + 1
				if c.kind == 4 {
					want = 5
				}
				switch {
				case fr == nil:
					R.add("ws."+c.name, "what is written for "+c.name+" is not a frame of known layout", f.Pos(), st.traceList())
				case fr.kind != c.kind:
					R.add("ws."+c.name, fmt.Sprintf("%s is written with type id %d, OCPP-J has %d", c.name, fr.kind, c.kind), f.Pos(), st.traceList())
				case len(fr.parts) != want:
					R.add("ws."+c.name, fmt.Sprintf("%s is written with %d elements, OCPP-J has %d", c.name, len(fr.parts), want), f.Pos(), st.traceList())
				default:
					for i, p := range ps {
						R.count("written_positions", 1)
						if !sameContent(st, fr.parts[i+1], p) {
							R.add("ws."+c.name, fmt.Sprintf("position %d of the frame of %s holds %v, not its argument %s", i+1, c.name, fr.parts[i+1], f.Params[i].Name()), f.Pos(), st.traceList())
						}
					}
					if c.kind == 4 && !isJSONObject(st, fr.raw[4]) {
						R.add("ws."+c.name, fmt.Sprintf("the details of a CALLERROR are written as %v, not as an object", fr.raw[4]), f.Pos(), st.traceList())
					}
				}
			}, func(st *State) {
				// the encoder may fail only for content that cannot be encoded
			})
			R.take(E)
		}
	}
	runC26read(C, R)
	runC26codes(C, R)
}

// encodeFrame interprets json.Marshal of the message in the state
func (C *Checker) encodeFrame(st *State, msg *V, ok func(st *State, fr *frame), failed func(st *State)) {
	E := C.newRun(&Cfg{})
	m := C.P.ownMethod(msg.t, "MarshalJSON")
	if m == nil || m.Blocks == nil {
		ok(st, nil)
		return
	}
	for _, r := range C.runAll(E, st.then(E, nil, mkFunc(m), []*V{msg.args[0]})) {
		if r.panicked != nil || len(r.res) != 2 {
			ok(r.st, nil)
			continue
		}
		if t, k := r.st.truth(mkEq(r.res[1], vNil)); k && !t {
			failed(r.st)
			continue
		}
		ok(r.st, parseFrame(r.st, r.res[0]))
	}
	for _, l := range E.Limits {
		st.E.limit(l)
	}
}

// sameContent: the written element is the value, whatever type it is written as
func sameContent(st *State, a, b *V) bool {
	if a == b || unwrap(a) == b || a == unwrap(b) {
		return true
	}
	// a value whose dynamic type was established
	for x := a; x.k == VApp && x.op == "dyn"; {
		x = x.args[0]
		if x == b {
			return true
		}
	}
	for x := b; x.k == VApp && x.op == "dyn"; {
		x = x.args[0]
		if x == a {
			return true
		}
	}
	ca, cb := st.constOf(a), st.constOf(b)
	return ca != nil && ca == cb
}

// isJSONObject: the term is written as an object
func isJSONObject(st *State, v *V) bool {
	switch {
	case v.k == VApp && (v.op == "jsonobj" || v.op == "jsonemptymap" || v.op == "jsonmap"):
		return true
	case v.k == VIface:
		if _, ok := v.t.Underlying().(*types.Map); ok {
			return v.args[0] != vNil
		}
	}
	return false
}

func runC26read(C *Checker, R *Report) {
	f := C.P.Func("ws", "UnmarshalMessage")
	if !R.need(f != nil, "ws.UnmarshalMessage") {
		return
	}
	E := C.newRun(&Cfg{})
	msg := mkSym("param msg", types.NewSlice(types.Typ[types.Byte]))
	mon := newMon(func(m *tmon, st *State, e *Event) {
		if e.Kind == "decode" && e.Type != nil && m.v["frame"] == nil && !e.Block {
			m.v["frame"] = e.Val
		}
	})
	accepted := map[int64]int{}
	rs := C.runAll(E, start(E, mon, mkFunc(f), []*V{msg}))
	R.take(E)
	for _, r := range rs {
		if r.panicked != nil || len(r.res) != 2 {
			continue // C08
		}
		st := r.st
		isErr, known := st.truth(mkEq(r.res[1], vNil))
		if known && !isErr {
			R.count("rejecting_paths", 1)
			continue
		}
		fr := st.mon.(*tmon).v["frame"]
		if fr == nil || r.res[0].k != VIface {
			R.add("ws.UnmarshalMessage", fmt.Sprintf("a path accepts bytes without decoding them: %v", r.res[0]), f.Pos(), st.traceList())
			continue
		}
		C.encodeFrame(st, r.res[0], func(st *State, w *frame) {
			R.count("accepting_paths", 1)
			if w == nil {
				R.add("ws.UnmarshalMessage", fmt.Sprintf("an accepted frame is turned into %v, which is not written back as a frame of known layout", r.res[0]), f.Pos(), st.traceList())
				return
			}
			accepted[w.kind]++
			want := map[int64]frameShape{2: shapeCall, 3: shapeResult, 4: shapeError}[w.kind]
			if want.parts == nil || len(w.parts) != len(want.parts)+1 {
				R.add("ws.UnmarshalMessage", fmt.Sprintf("a frame becomes a message of type %d with %d elements", w.kind, len(w.parts)), f.Pos(), st.traceList())
				return
			}
			iv := st.interval(mkLen(fr))
			if !iv.hasLo || iv.lo < int64(len(want.parts)+1) {
				R.add("ws.UnmarshalMessage", fmt.Sprintf("a frame with %d elements is accepted as type %d", iv.lo, w.kind), f.Pos(), st.traceList())
			}
			el := func(i int) *V { return mkApp("ld", mkApp("elems", fr), mkStr("["+itoa(i)+"]")) }
			if !partIs(st, el(0), pNum) || !partEquals(st, el(0), w.kind) {
				R.add("ws.UnmarshalMessage", fmt.Sprintf("a frame becomes a message of type %d although its first element was not found to be the number %d", w.kind, w.kind), f.Pos(), st.traceList())
			}
			for i, k := range want.parts {
				R.count("read_positions", 1)
				if !partIs(st, el(i+1), k) {
					R.add("ws.UnmarshalMessage", fmt.Sprintf("a frame of type %d is accepted although the kind of element %d was not established", w.kind, i+1), f.Pos(), st.traceList())
				}
				got := w.parts[i+1]
				if got.k == VApp && got.op == "jsonmap" {
					got = got.args[0]
				}
				if !contentOf(got, el(i+1)) {
					R.add("ws.UnmarshalMessage", fmt.Sprintf("element %d of a frame of type %d is not kept as that part of the message: it is %v", i+1, w.kind, got), f.Pos(), st.traceList())
				}
			}
		}, func(st *State) {})
	}
	R.take(E)
	for _, k := range []int64{2, 3, 4} {
		if accepted[k] == 0 {
			R.add("ws.UnmarshalMessage", fmt.Sprintf("no frame of type %d is accepted", k), f.Pos(), nil)
		}
	}
	// every frame of the right layout is accepted
	for _, sh := range []frameShape{shapeCall, shapeResult, shapeError} {
		E := C.newRun(&Cfg{})
		mon := newMon(func(m *tmon, st *State, e *Event) { assumeFrame(m, st, e, sh) })
		mon.v["peer"] = msg
		for _, r := range C.runAll(E, start(E, mon, mkFunc(f), []*V{msg})) {
			R.count("well_formed_paths", 1)
			if r.panicked != nil || len(r.res) != 2 {
				continue
			}
			if t, k := r.st.truth(mkEq(r.res[1], vNil)); k && !t {
				R.add("ws.UnmarshalMessage", fmt.Sprintf("a well-formed frame of type %d is rejected", sh.kind), f.Pos(), r.st.traceList())
			}
		}
		R.take(E)
	}
}

// partIs: the path established the kind of the element
func partIs(st *State, el *V, kind int) bool {
	for a, b := range st.facts {
		if a.k != VApp {
			continue
		}
		switch {
		case b == vTrue && a.op == "istype" && a.args[0] == el:
			if decodable(kind, a.t) {
				if _, isI := a.t.Underlying().(*types.Interface); !isI {
					return true
				}
			}
		case b == vFalse && a.op == "decfails" && a.args[0].k == VApp && a.args[0].op == "dec" && a.args[0].args[0] == el:
			if decodable(kind, a.args[0].t) {
				if _, isI := a.args[0].t.Underlying().(*types.Interface); !isI {
					return true
				}
			}
		}
	}
	return false
}

// partEquals: the path compared the number in the element with k
func partEquals(st *State, el *V, k int64) bool {
	for a, b := range st.facts {
		if b.isInt() && b.int() == k && a.k == VApp && a.mentions(func(x *V) bool { return x == el }) && !a.mentions(func(x *V) bool { return x.k == VApp && x.op == "trunc" }) {
			return true
		}
	}
	return false
}

// contentOf: v is the element seen as its dynamic type, or decoded from it
func contentOf(v, el *V) bool {
	for v.k == VApp && (v.op == "dyn" || v.op == "dec") {
		v = v.args[0]
		if v == el {
			return true
		}
	}
	return v == el
}

// runC26codes: the error codes
// the error codes of OCPP-J 1.6, table 7
var errorCodes = map[string]bool{"NotImplemented": true, "NotSupported": true, "InternalError": true, "ProtocolError": true, "SecurityError": true, "FormationViolation": true, "PropertyConstraintViolation": true, "OccurenceConstraintViolation": true, "TypeConstraintViolation": true, "GenericError": true}

func runC26codes(C *Checker, R *Report) {
	if pk, t := C.P.TypPkgs["ws"], C.P.Type("ws", "ErrorCode"); R.need(pk != nil && t != nil, "ws.ErrorCode") {
		for _, n := range pk.Scope().Names() {
			c, ok := pk.Scope().Lookup(n).(*types.Const)
			if !ok || !types.Identical(c.Type(), t) || c.Val().Kind() != constant.String {
				continue
			}
			R.count("error_codes", 1)
			if v := constant.StringVal(c.Val()); v != "" && !errorCodes[v] {
				R.add("ws."+n, fmt.Sprintf("%q is not an error code of OCPP-J 1.6", v), c.Pos(), nil)
			}
		}
	}
	read := C.connMethod(R, "ReadMessage")
	resp := C.connMethod(R, "SendResponse")
	if read == nil || resp == nil {
		return
	}
	for _, cs := range C.connStates(R, "Handshake")[:1] {
		// an undecodable call
		E := C.newRun(&Cfg{OpenWorld: true})
		mon := newMon(func(m *tmon, st *State, e *Event) {
			assumeFrame(m, st, e, shapeCall)
			switch e.Kind {
			case "decode":
				// the payload decoded as a request
				if e.Type != nil && isMessageType(C, e.Type) {
					m.n["tried"]++
					if e.Block {
						m.n["bad"]++
					}
				}
			case "call":
				fr := writtenFrame(st, e)
				if fr == nil {
					if isMessageWrite(e.Name) {
						st.violate("C26", "ws.ReadMessage", "what is written in answer to a call is not a frame of known layout", posOf(e.Instr))
					}
					return
				}
				want := "NotSupported"
				if m.n["tried"] > 0 {
					want = "FormationViolation"
				}
				if fr.kind != 4 || len(fr.parts) != 5 {
					return // C09
				}
				R.count("error_answers", 1)
				if c := st.constOf(fr.parts[2]); c == nil || !c.isStr() || c.str() != want {
					st.violate("C26", "ws.ReadMessage", fmt.Sprintf("an undecodable call is answered with error code %v, not %s", fr.parts[2], want), posOf(e.Instr))
				}
			}
		})
		C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
		R.take(E)
		// a failing handler
		E = C.newRun(&Cfg{OpenWorld: true})
		errv := mkSym("nn:param err", errorIface)
		mon = newMon(func(m *tmon, st *State, e *Event) {
			fr := writtenFrame(st, e)
			if fr == nil {
				return
			}
			R.count("handler_error_answers", 1)
			ok := fr.kind == 4 && len(fr.parts) == 5
			if ok {
				c := st.constOf(fr.parts[2])
				ok = c != nil && c.isStr() && c.str() == "InternalError" && sameContent(st, fr.parts[3], errText(errv))
			}
			if !ok {
				st.violate("C26", "ws.SendResponse", fmt.Sprintf("a failing handler is answered with %v, not with an InternalError carrying the text of its error", fr.parts), posOf(e.Instr))
			}
		})
		args := []*V{cs.conn}
		for _, p := range resp.Params[1:] {
			switch {
			case isErrorType(p.Type()):
				args = append(args, errv)
			default:
				args = append(args, mkSym("param "+p.Name(), p.Type()))
			}
		}
		C.runAll(E, cs.st.then(E, mon, mkFunc(resp), args))
		R.take(E)
	}
}

// isMessageType: a request or response type of the library
func isMessageType(C *Checker, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && C.P.inRepo(n.Obj().Pkg()) && strings.HasPrefix(C.P.rel(n.Obj().Pkg()), "messages/v1x/")
}

var _ = token.NoPos
var _ *ssa.Function
