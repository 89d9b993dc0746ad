package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Numbers keep their value.

func init() {
	rules["C30"] = rule{runC30, "Abstract interpretation of the reading and sending operations of a connection with a taint on generic JSON decodes: a value that was decoded into an interface without UseNumber holds its numbers as float64, and neither the decode of a payload into a request or response nor a written frame may be made from it. All JSON encoders and decoders are interpreted: a numeric field is written from its own value, by an encoding that is exact for its type, and read by a decode into a type that holds the same numbers. Numeric types must have no text methods of their own."}
}

// generic: values decoded into the type hold numbers as float64
func genericJSON(t types.Type, depth int) bool {
	if t == nil || depth > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Slice:
		return genericJSON(u.Elem(), depth+1)
	case *types.Array:
		return genericJSON(u.Elem(), depth+1)
	case *types.Map:
		return genericJSON(u.Elem(), depth+1)
	case *types.Pointer:
		return genericJSON(u.Elem(), depth+1)
	}
	return false
}

func runC30(C *Checker, R *Report) {
	C.c30conn(R)
	// the codecs
	seenT := map[types.Type]bool{}
	for _, p := range C.jsonPairs(R) {
		st, ok := p.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fields := jsonFields(st)
		byIdx := map[int]jfield{}
		numeric := false
		for _, f := range fields {
			byIdx[f.idx] = f
			t := deref(f.t)
			for {
				s, ok := t.Underlying().(*types.Slice)
				if !ok {
					break
				}
				t = deref(s.Elem())
			}
			b, ok := t.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsNumeric == 0 {
				continue
			}
			numeric = true
			R.count("numeric_fields", 1)
			if n, ok := types.Unalias(t).(*types.Named); ok && !seenT[t] {
				seenT[t] = true
				for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalXML", "UnmarshalXML", "MarshalXMLAttr", "UnmarshalXMLAttr"} {
					if hasMethod(types.NewPointer(t), m) {
						R.add(p.name+"."+f.name, "numbers of type "+n.Obj().Name()+" are encoded by a method of their own ("+m+")", n.Obj().Pos(), nil)
					}
				}
			}
		}
		if !numeric {
			continue
		}
		paths, f, obj := C.encode(R, p)
		for _, pa := range paths {
			if isErr, known := retErr(pa.r); known && isErr || pa.r.panicked != nil {
				continue
			}
			n, err := parseJSONTerm(pa.r.res[0])
			if err != nil || n.kind != "obj" {
				continue // C02
			}
			for _, pr := range n.props {
				if pr.val.kind != "hole" {
					continue
				}
				i, ok := fieldOf(pr.val.hole, obj)
				if !ok {
					continue // C01
				}
				jf := byIdx[i]
				if jf.t == nil {
					continue
				}
				ft, ok := deref(jf.t).Underlying().(*types.Basic)
				if !ok || ft.Info()&types.IsNumeric == 0 {
					continue
				}
				R.count("numbers_written", 1)
				if why := exactNumber(pr.val.hole, obj, ft); why != "" {
					R.add(p.name+"."+pr.name, "the number in property "+pr.name+" is "+why, f.Pos(), pa.r.st.traceList())
				}
			}
		}
		if d := isOwnPtr(C, p.t, "UnmarshalJSON"); d != nil {
			C.decode(R, p, d, "C30")
		}
	}
	R.need(R.counts["numbers_written"] > 0, "numbers that are written")
	R.need(R.counts["numbers_read"] > 0, "numbers that are read")
}

// exactNumber: the text of the number has its value; what is wrong otherwise
func exactNumber(h, obj *V, ft *types.Basic) string {
	if h.k == VApp && h.op == "ownjson" {
		h = h.args[0]
	}
	if h.k == VIface {
		b, ok := deref(h.t).Underlying().(*types.Basic)
		if !ok {
			return ""
		}
		if !plainLoad(h.args[0], obj) {
			return "not written as the field has it: " + h.show(4)
		}
		if !holdsNumbers(b, ft) {
			return "written as " + shortType(h.t) + ", which does not hold every number of its field"
		}
		return ""
	}
	if h.k != VApp {
		return ""
	}
	isFloat := ft.Info()&types.IsFloat != 0
	field := func(v *V) bool {
		if v.k == VIface {
			v = v.args[0]
		}
		return plainLoad(v, obj)
	}
	switch {
	case h.op == "strconv.Itoa" || h.op == "strconv.FormatInt" || h.op == "strconv.FormatUint":
		if isFloat || !field(h.args[0]) || len(h.args) > 1 && !(h.args[1].isInt() && h.args[1].int() == 10) {
			return "not written exactly: " + h.show(4)
		}
	case h.op == "strconv.FormatFloat":
		if !field(h.args[0]) || len(h.args) < 4 || !h.args[2].isInt() || h.args[2].int() != -1 || !h.args[3].isInt() || h.args[3].int() != 64 {
			return "not written exactly: " + h.show(4)
		}
	case strings.HasPrefix(h.op, "fmt%"):
		verb := strings.TrimPrefix(h.op, "fmt%")
		if !field(h.args[0]) || !(verb == "v" || verb == "d" && !isFloat || verb == "g" && isFloat) {
			return "not written exactly: " + h.show(4)
		}
	case h.op == "nn:json" && len(h.args) == 1:
		return exactNumber(h.args[0], obj, ft)
	default:
		if !plainLoad(h, obj) {
			return "not written exactly: " + h.show(4)
		}
	}
	return ""
}

// c30conn: no float64 on the way between the wire and the message
func (C *Checker) c30conn(R *Report) {
	read := C.connMethod(R, "ReadMessage")
	send := C.connMethod(R, "SendRequest")
	answer := C.connMethod(R, "SendResponse")
	if read == nil || send == nil || answer == nil {
		return
	}
	lossy := func(m *tmon, v *V) bool {
		for i := 0; i < m.n["lossy"]; i++ {
			l := m.v["lossy"+itoa(i)]
			if v == l || v.mentions(func(x *V) bool { return x == l }) {
				return true
			}
		}
		return false
	}
	watch := func(m *tmon, st *State, e *Event, key string) {
		switch {
		case e.Kind == "decode":
			if isMessageTarget(C, e) {
				R.count("payloads_decoded", 1)
				if lossy(m, e.Val.args[0]) {
					st.violate("C30", key, "a payload is decoded from values that hold its numbers as float64", posOf(e.Instr))
				}
				return
			}
			if !e.Block && genericJSON(e.Type, 0) && !strings.HasSuffix(e.Name, useNumber) && m.n["lossy"] < 4 {
				m.v["lossy"+itoa(m.n["lossy"])] = e.Val
				m.n["lossy"]++
			}
		case e.Kind == "call" && isMessageWrite(e.Name):
			R.count("messages_written", 1)
			what := e.Args
			if fr := writtenFrame(st, e); fr != nil {
				at := map[int64]int{2: 3, 3: 2}[fr.kind]
				if at == 0 || at >= len(fr.raw) {
					return // no payload
				}
				what = []*V{fr.raw[at]}
			}
			for _, a := range what {
				if a != nil && lossy(m, st.deepTerm(a, 6)) {
					st.violate("C30", key, "a message is written from values that hold its numbers as float64", posOf(e.Instr))
				}
			}
		}
	}
	for _, cs := range append(C.connStates(R, "Handshake"), C.connStates(R, "Dial")...) {
		for _, sh := range []frameShape{shapeCall, shapeResult} {
			E := C.newRun(&Cfg{OpenWorld: true})
			mon := newMon(func(m *tmon, st *State, e *Event) {
				assumeFrame(m, st, e, sh)
				if !st.done {
					watch(m, st, e, fmt.Sprintf("ws.ReadMessage type %d", sh.kind))
					// what follows is not about the payload
					st.done = st.done || e.Kind == "decode" && isMessageTarget(C, e)
				}
			})
			C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
			R.take(E)
		}
		E := C.newRun(&Cfg{OpenWorld: true})
		mon := newMon(func(m *tmon, st *State, e *Event) { watch(m, st, e, "ws.SendRequest") })
		args := []*V{cs.conn}
		for _, p := range send.Params[1:] {
			args = append(args, mkSym("nn:param "+p.Name(), p.Type()))
		}
		C.runAll(E, cs.st.then(E, mon, mkFunc(send), args))
		R.take(E)
		E = C.newRun(&Cfg{OpenWorld: true})
		mon = newMon(func(m *tmon, st *State, e *Event) { watch(m, st, e, "ws.SendResponse") })
		args = []*V{cs.conn}
		for _, p := range answer.Params[1:] {
			if isErrorType(p.Type()) {
				args = append(args, vNil)
			} else {
				args = append(args, mkSym("nn:param "+p.Name(), p.Type()))
			}
		}
		C.runAll(E, cs.st.then(E, mon, mkFunc(answer), args))
		R.take(E)
	}
	R.need(R.counts["payloads_decoded"] > 0, "the decoding of payloads")
	R.need(R.counts["messages_written"] > 0, "the writing of messages")
}

// isMessageTarget: what is decoded into is a request or response
func isMessageTarget(C *Checker, e *Event) bool {
	if e.Type != nil {
		return isMessageType(C, e.Type)
	}
	if len(e.Args) < 2 {
		return false
	}
	t := e.Args[1]
	return t.k == VSym || t.k == VApp
}
