package main

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05-C07: the tables that relate names and types.

func init() {
	rules["C05"] = rule{runC05, "Action and GetResponse of every request type and both functions that map an action name to a message type are abstractly interpreted on an unknown name, splitting on every comparison; the name/type pairs of all paths are compared with the list of OCPP operations."}
	rules["C06"] = rule{runC06, "The body decoder (every type of package soap with an UnmarshalXML method) is abstractly interpreted on an unknown token stream; each decoded element name/type pair is compared with the elements of the OCPP 1.5 service descriptions, paths that pass over an element without decoding it must fail, and the XMLName declaration of each message type must be the same element and namespace."}
	rules["C07"] = rule{runC07, "The XML field declarations of every OCPP 1.5 message type are compared, type by type through the nesting, with the complex types of the service descriptions: names, attributes, required elements, multiplicity and well-formedness of the tags."}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// resultType: the pointed-to message type a path returns
func resultType(v *V) (types.Type, bool) {
	if v.k != VIface {
		return nil, false
	}
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		return v.t, true
	}
	return p.Elem(), true
}

// nameFact: the constant a term is known to equal on this path
func nameFact(st *State, v *V) (string, bool) {
	if c := st.constOf(v); c != nil && c.isStr() {
		return c.str(), true
	}
	return "", false
}

// sharedObj: the object a result points to is not one made for this result
// alone: it existed before (was made before the n0-th symbol), or others find
// it too
func sharedObj(st *State, v *V, n0 int) bool {
	v = unwrap(v)
	if v.k == VIface {
		if _, ptr := v.t.Underlying().(*types.Pointer); !ptr {
			return false
		}
		v = v.args[0]
	}
	if v.k != VAlloc {
		return true
	}
	if s, ok := v.t.Underlying().(*types.Struct); v.t != nil && ok && s.NumFields() == 0 {
		return false
	}
	return v.n <= n0 || st.isPub(v)
}

func runC05(C *Checker, R *Report) {
	type reqT struct {
		rel, op string
	}
	action := map[string]string{} // type -> action
	check := func(rel, respRel, op string, marker, respMarker types.Type) {
		t := C.P.Type(rel, op)
		if !R.need(t != nil, rel+"."+op) {
			return
		}
		key := shortType(t)
		R.count("request_types", 1)
		if marker != nil && !types.Implements(types.NewPointer(t), marker.Underlying().(*types.Interface)) {
			R.add(key, "the request type is not a request of its direction", t.(*types.Named).Obj().Pos(), nil)
		}
		obj := mkSym("nn:param m", types.NewPointer(t))
		n0 := 0
		call := func(name string) []endRec {
			m := C.P.Method(t, name)
			if m == nil || m.Blocks == nil {
				R.add(key, "no method "+name, t.(*types.Named).Obj().Pos(), nil)
				return nil
			}
			arg := obj
			if _, ptr := m.Signature.Recv().Type().Underlying().(*types.Pointer); !ptr {
				arg = mkApp("ld", obj, mkStr(""))
			}
			E := C.newRun(&Cfg{})
			n0 = nSyms
			s0 := start(E, nil, mkFunc(m), []*V{arg})
			s0.note["message"] = obj
			rs := C.runAll(E, s0)
			R.take(E)
			return rs
		}
		for _, r := range call("Action") {
			R.count("action_paths", 1)
			if r.panicked != nil || len(r.res) != 1 {
				R.add(key+".Action", "Action can panic", t.(*types.Named).Obj().Pos(), r.st.traceList())
				continue
			}
			s, ok := nameFact(r.st, r.res[0])
			if !ok || s != op {
				R.add(key+".Action", fmt.Sprintf("Action returns %v, the OCPP operation is %q", r.res[0], op), C.P.Method(t, "Action").Pos(), r.st.traceList())
				continue
			}
			action[types.TypeString(t, nil)] = s
		}
		want := C.P.Type(respRel, op)
		R.need(want != nil, respRel+"."+op)
		for _, r := range call("GetResponse") {
			R.count("response_paths", 1)
			var got types.Type
			if len(r.res) == 1 {
				got, _ = resultType(r.res[0])
			}
			if r.panicked != nil || got == nil || want == nil || !types.Identical(got, want) {
				R.add(key+".GetResponse", fmt.Sprintf("the response of %s is %v, not %v", op, got, want), C.P.Method(t, "GetResponse").Pos(), r.st.traceList())
			} else if sharedObj(r.st, r.res[0], n0) {
				R.add(key+".GetResponse", fmt.Sprintf("GetResponse of %s yields an object that other messages share", op), C.P.Method(t, "GetResponse").Pos(), r.st.traceList())
			}
		}
		if want != nil && respMarker != nil {
			R.count("response_types", 1)
			if !types.Implements(types.NewPointer(want), respMarker.Underlying().(*types.Interface)) {
				R.add(shortType(want), "the response type is not a response of its direction", want.(*types.Named).Obj().Pos(), nil)
			}
		}
	}
	cpM, csM := C.P.Type("messages/v1x/cpreq", "ChargePointRequest"), C.P.Type("messages/v1x/csreq", "CentralSystemRequest")
	cpR, csR := C.P.Type("messages/v1x/cpresp", "ChargePointResponse"), C.P.Type("messages/v1x/csresp", "CentralSystemResponse")
	R.need(cpM != nil && csM != nil && cpR != nil && csR != nil, "direction interfaces")
	for _, op := range cpOps {
		check("messages/v1x/cpreq", "messages/v1x/cpresp", op, cpM, cpR)
	}
	for _, op := range csOps {
		check("messages/v1x/csreq", "messages/v1x/csresp", op, csM, csR)
	}
	// the two directions are disjoint
	cross := func(rel string, ops []string, other types.Type) {
		for _, op := range ops {
			t := C.P.Type(rel, op)
			if t != nil && other != nil && types.Implements(types.NewPointer(t), other.Underlying().(*types.Interface)) {
				R.add(shortType(t), "the type also counts as one of the other direction", t.(*types.Named).Obj().Pos(), nil)
			}
			R.count("direction_obligations", 1)
		}
	}
	cross("messages/v1x/cpreq", cpOps, csM)
	cross("messages/v1x/csreq", csOps, cpM)
	cross("messages/v1x/cpresp", cpOps, csR)
	cross("messages/v1x/csresp", csOps, cpR)

	// received action names
	table := func(rel string, resp bool) {
		f := C.P.Func(rel, "FromActionName")
		if f == nil {
			if !resp {
				R.need(false, rel+".FromActionName")
			}
			return
		}
		E := C.newRun(&Cfg{})
		arg := mkSym("param action", types.Typ[types.String])
		n0 := nSyms
		s0 := start(E, nil, mkFunc(f), []*V{arg})
		s0.note["action"] = arg
		rs := C.runAll(E, s0)
		R.take(E)
		seen := map[string]bool{}
		for _, r := range rs {
			R.count("table_paths", 1)
			if r.panicked != nil || len(r.res) != 1 {
				R.add(rel, "the table can panic", f.Pos(), r.st.traceList())
				continue
			}
			name, known := nameFact(r.st, arg)
			t, isT := resultType(r.res[0])
			isNil := r.res[0] == vNil
			switch {
			case !known && !isNil:
				R.add(rel, fmt.Sprintf("an unrecognised action name yields %v", r.res[0]), f.Pos(), r.st.traceList())
			case !known:
			case isNil:
			case !isT:
				R.add(rel+"."+name, "action "+name+" yields a value of unknown type", f.Pos(), r.st.traceList())
			default:
				seen[name] = true
				if sharedObj(r.st, r.res[0], n0) {
					R.add(rel+"."+name, "action "+name+" yields an object that other messages share", f.Pos(), r.st.traceList())
				}
				op := name
				okT := false
				rels := []string{"messages/v1x/cpreq", "messages/v1x/csreq"}
				if resp {
					rels = []string{"messages/v1x/cpresp", "messages/v1x/csresp"}
				}
				for i, ops := range [][]string{cpOps, csOps} {
					w := C.P.Type(rels[i], op)
					if contains(ops, op) && w != nil && types.Identical(w, t) {
						okT = true
					}
				}
				if !okT {
					R.add(rel+"."+name, fmt.Sprintf("action %q yields %v", name, t), f.Pos(), r.st.traceList())
				}
				if !resp && action[types.TypeString(t, nil)] != name {
					R.add(rel+"."+name, fmt.Sprintf("action %q yields %v, which reports action %q", name, t, action[types.TypeString(t, nil)]), f.Pos(), r.st.traceList())
				}
			}
		}
		for _, ops := range [][]string{cpOps, csOps} {
			for _, op := range ops {
				R.count("operations", 1)
				if op != "DataTransfer" && !seen[op] {
					R.add(rel+"."+op, "action "+op+" is not recognised", f.Pos(), nil)
				}
			}
		}
		var ns []string
		for n := range seen {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		R.sample(rel + ": " + strings.Join(ns, " "))
	}
	table("messages/req", false)
	table("messages/res", true)
}

// ---- service descriptions

type wsdlDoc struct {
	XMLName xml.Name    `xml:"definitions"`
	Schema  []xsdSchema `xml:"types>schema"`
}
type xsdSchema struct {
	TargetNS string       `xml:"targetNamespace,attr"`
	Complex  []xsdComplex `xml:"complexType"`
	Elements []xsdElement `xml:"element"`
}
type xsdComplex struct {
	Name  string       `xml:"name,attr"`
	Elems []xsdElement `xml:"sequence>element"`
	Attrs []xsdAttr    `xml:"attribute"`
	Ext   *struct {
		Attrs []xsdAttr `xml:"attribute"`
	} `xml:"simpleContent>extension"`
}
type xsdElement struct {
	Name    string      `xml:"name,attr"`
	Type    string      `xml:"type,attr"`
	Min     string      `xml:"minOccurs,attr"`
	Max     string      `xml:"maxOccurs,attr"`
	Complex *xsdComplex `xml:"complexType"`
}
type xsdAttr struct {
	Name string `xml:"name,attr"`
	Use  string `xml:"use,attr"`
}

type service struct {
	cs       bool // service of the central system
	ns       string
	complex  map[string]*xsdComplex
	elements map[string]string // element -> complex type
	order    []string
}

func (C *Checker) services() []*service {
	var out []*service
	for _, f := range []string{"ocpp_centralsystemservice_1.5_final.wsdl", "ocpp_chargepointservice_1.5_final.wsdl"} {
		b, err := os.ReadFile(C.specFile("wsdl", f))
		if err != nil {
			panic(err)
		}
		var d wsdlDoc
		if err := xml.Unmarshal(b, &d); err != nil {
			panic(err)
		}
		s := &service{cs: strings.Contains(f, "central"), complex: map[string]*xsdComplex{}, elements: map[string]string{}}
		for _, sc := range d.Schema {
			s.ns = sc.TargetNS
			for i := range sc.Complex {
				s.complex[sc.Complex[i].Name] = &sc.Complex[i]
			}
			for _, e := range sc.Elements {
				if strings.HasSuffix(e.Name, "Request") || strings.HasSuffix(e.Name, "Response") {
					s.elements[e.Name] = localName(e.Type)
					s.order = append(s.order, e.Name)
				}
			}
		}
		sort.Strings(s.order)
		out = append(out, s)
	}
	return out
}

func localName(q string) string {
	if i := strings.IndexByte(q, ':'); i >= 0 {
		return q[i+1:]
	}
	return q
}

// messageType: the Go type of a service element
func (C *Checker) messageType(s *service, elem string) types.Type {
	op, rel := "", ""
	switch {
	case strings.HasSuffix(elem, "Request"):
		op, rel = strings.TrimSuffix(elem, "Request"), "req"
	case strings.HasSuffix(elem, "Response"):
		op, rel = strings.TrimSuffix(elem, "Response"), "resp"
	}
	op = strings.ToUpper(op[:1]) + op[1:]
	if s.cs {
		rel = "cp" + rel
	} else {
		rel = "cs" + rel
	}
	return C.P.Type("messages/v1x/"+rel, op)
}

// ---- C06

type bodyMon struct {
	R     *Report
	obj   *V
	tok   *V // the last token
	tokOK bool
	done  bool // the token was decoded
	last  *V   // message decoded last
	lastN string
	undec string                           // the element that could not be decoded
	pairs map[string]map[string]types.Type // element -> decoded types
	fault map[string]bool
	key   string
	n0    int
}

func (m *bodyMon) Clone() Monitor { n := *m; return &n }
func (m *bodyMon) Key(c *canon) {
	c.val(m.obj)
	c.val(m.tok)
	c.val(m.last)
	c.str(m.lastN)
	c.str(m.undec)
	if m.done {
		c.str("D")
	}
}

func (m *bodyMon) isStart(st *State) bool {
	if m.tok == nil {
		return false
	}
	for a, b := range st.facts {
		if b == vTrue && a.k == VApp && a.op == "istype" && a.args[0] == m.tok && shortType(a.t) == "xml.StartElement" {
			return true
		}
	}
	return false
}

// ownEnd: the last token is known to be the end of the body itself
func (m *bodyMon) ownEnd(st *State) bool {
	if m.tok == nil {
		return false
	}
	for a, b := range st.facts {
		if b == vTrue && a.k == VApp && a.op == "==" && a.mentions(func(x *V) bool { return x == m.tok }) {
			for _, x := range a.args {
				if x.k == VApp && x.op == "(encoding/xml.StartElement).End" {
					return true
				}
			}
		}
	}
	return false
}

func (m *bodyMon) passed(st *State, in ssa.Instruction) {
	if m.tok != nil && !m.done && m.isStart(st) {
		st.violate("C06", m.key, "a body element that is neither a message nor a Fault is passed over without an error", posOf(in))
	}
	if m.last != nil {
		kept := false
		for l, v := range st.mem {
			if l.base == m.obj && v.mentions(func(x *V) bool { return x == m.last }) {
				kept = true
			}
		}
		if !kept {
			st.violate("C06", m.key+":"+m.lastN, "the decoded element "+m.lastN+" is not kept as the content of the body", posOf(in))
		}
	}
}

func (m *bodyMon) Event(st *State, e *Event) {
	switch e.Kind {
	case "call":
		if e.Name == "(*encoding/xml.Decoder).Token" || e.Name == "(*encoding/xml.Decoder).RawToken" {
			if m.undec != "" {
				st.violate("C06", m.key+":"+m.undec, "decoding goes on after "+m.undec+" could not be decoded", posOf(e.Instr))
				st.done = true
				return
			}
			if m.ownEnd(st) {
				st.violate("C06", m.key, "decoding goes on after the end of the body", posOf(e.Instr))
				st.done = true
				return
			}
			m.passed(st, e.Instr)
			m.tok, m.done, m.last = e.Res[0], false, nil
			for l := range st.mem {
				if l.base == m.obj {
					delete(st.mem, l) // judged; what the body holds matters no more
				}
			}
		}
	case "decode":
		if e.Name != "(*encoding/xml.Decoder).DecodeElement" {
			return
		}
		m.done = true
		var name string
		var known bool
		if len(e.Args) > 0 {
			// the start element handed to the decoder
			if c, ok := e.Instr.(ssa.CallInstruction); ok {
				f := st.top()
				p := st.val(f, c.Common().Args[len(c.Common().Args)-1])
				if p != vNil {
					sv := st.load(p.loc(), pointee(c.Common().Args[len(c.Common().Args)-1].Type()))
					name, known = nameFact(st, structField(structField(sv, 0), 1))
				}
			}
		}
		t := e.Type
		if !known {
			st.violate("C06", m.key, fmt.Sprintf("an element whose name was not checked is decoded as %v", t), posOf(e.Instr))
			return
		}
		if t == nil {
			st.violate("C06", m.key+":"+name, "element "+name+" is decoded into a value of unknown type", posOf(e.Instr))
			return
		}
		if m.pairs[name] == nil {
			m.pairs[name] = map[string]types.Type{}
		}
		m.pairs[name][types.TypeString(t, nil)] = t
		if sharedObj(st, e.Loc.base, m.n0) {
			st.violate("C06", m.key+":"+name, "element "+name+" is decoded into an object that other messages share", posOf(e.Instr))
		}
		if e.Block {
			m.undec = name
		} else {
			m.last, m.lastN = e.Loc.base, name
		}
	case "end":
		if len(e.Res) == 1 {
			if t, ok := st.truth(mkEq(e.Res[0], vNil)); ok && !t {
				return
			}
			if m.undec != "" {
				st.violate("C06", m.key+":"+m.undec, "decoding succeeds although "+m.undec+" could not be decoded", e.fnPos())
				return
			}
			m.passed(st, nil)
		}
	case "maypanic":
		if e.Block {
			st.violate("C06", m.key, "decoding a body can panic", posOf(e.Instr))
		}
	}
}

func runC06(C *Checker, R *Report) {
	pkg := C.P.TypPkgs["soap"]
	if !R.need(pkg != nil, "package soap") {
		return
	}
	svcs := C.services()
	found := false
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		f := C.P.ownMethod(types.NewPointer(tn.Type()), "UnmarshalXML")
		if f == nil || f.Blocks == nil || strings.Contains(f.Synthetic, "wrapper") {
			continue
		}
		E := C.newRun(&Cfg{})
		obj := mkAlloc("param b", tn.Type()) // its own: what it holds is not thereby shared
		mon := &bodyMon{R: R, obj: obj, pairs: map[string]map[string]types.Type{}, key: "soap." + n, n0: nSyms}
		ps := []*V{obj, mkSym("nn:param d", f.Signature.Params().At(0).Type()), mkSym("param start", f.Signature.Params().At(1).Type())}
		C.runAll(E, start(E, mon, mkFunc(f), ps))
		R.take(E)
		if len(mon.pairs) < 3 {
			continue // not the body decoder
		}
		found = true
		want := map[string][]types.Type{}
		for _, s := range svcs {
			for _, el := range s.order {
				if t := C.messageType(s, el); t != nil {
					want[el] = append(want[el], t)
				} else {
					R.add("soap."+el, "no message type for element "+el, f.Pos(), nil)
				}
			}
		}
		var names []string
		for el := range want {
			names = append(names, el)
		}
		for el := range mon.pairs {
			if want[el] == nil {
				names = append(names, el)
			}
		}
		sort.Strings(names)
		for _, el := range names {
			R.count("elements", 1)
			got := mon.pairs[el]
			if want[el] == nil {
				if el == "Fault" {
					continue
				}
				for _, t := range got {
					if !C.plausibleElement(el, t) {
						R.add("soap."+el, fmt.Sprintf("element %s, which the service descriptions do not have, is decoded as %v", el, t), f.Pos(), nil)
					}
				}
				continue
			}
			for _, w := range want[el] {
				R.count("element_type_pairs", 1)
				if _, ok := got[types.TypeString(w, nil)]; !ok {
					R.add("soap."+el+"."+shortType(w), fmt.Sprintf("element %s is not decoded as %s", el, shortType(w)), f.Pos(), nil)
				}
			}
			for k, t := range got {
				ok := false
				for _, w := range want[el] {
					if types.TypeString(w, nil) == k {
						ok = true
					}
				}
				if !ok {
					R.add("soap."+el, fmt.Sprintf("element %s is decoded as %s", el, shortType(t)), f.Pos(), nil)
				}
			}
		}
		if mon.pairs["Fault"] == nil {
			R.add("soap.Fault", "a Fault is not decoded", f.Pos(), nil)
		}
		R.sample(fmt.Sprintf("%s decodes %d element names", n, len(mon.pairs)))
	}
	R.need(found, "the decoder of SOAP bodies")
	// how each type is written
	for _, s := range svcs {
		for _, el := range s.order {
			t := C.messageType(s, el)
			if t == nil {
				continue
			}
			R.count("written_elements", 1)
			pos := t.(*types.Named).Obj().Pos()
			if hasMethod(types.NewPointer(t), "MarshalXML") || hasMethod(types.NewPointer(t), "UnmarshalXML") {
				R.add(shortType(t), "the type has its own XML form, which the analysis cannot follow", pos, nil)
				continue
			}
			st := t.Underlying().(*types.Struct)
			ok := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "XMLName" {
					tag := reflect.StructTag(st.Tag(i)).Get("xml")
					name := strings.SplitN(tag, ",", 2)[0]
					if name == s.ns+" "+el {
						ok = true
					} else {
						R.add(shortType(t)+".XMLName", fmt.Sprintf("the type is written as %q, the service description has %q", name, s.ns+" "+el), pos, nil)
						ok = true
					}
				}
			}
			if !ok {
				R.add(shortType(t)+".XMLName", "the type does not declare its element name", pos, nil)
			}
		}
	}
}

func (C *Checker) plausibleElement(el string, t types.Type) bool {
	for _, d := range msgDirs {
		for _, op := range d.ops {
			suf := "Request"
			if d.resp {
				suf = "Response"
			}
			w := C.P.Type(d.rel, op)
			if w != nil && types.Identical(w, t) && el == strings.ToLower(op[:1])+op[1:]+suf {
				return true
			}
		}
	}
	return false
}

// ---- C07

type xfield struct {
	name  string
	path  []string
	attr  bool
	omit  bool
	chars bool
	goF   string
	t     types.Type
	idx   int
}

// wellFormedTag: the conventional form `key:"value" key:"value"`
func wellFormedTag(tag string) bool {
	for tag != "" {
		tag = strings.TrimLeft(tag, " ")
		if tag == "" {
			return true
		}
		i := 0
		for i < len(tag) && tag[i] > ' ' && tag[i] != ':' && tag[i] != '"' && tag[i] != 0x7f {
			i++
		}
		if i == 0 || i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			return false
		}
		tag = tag[i+1:]
		q, err := strconv.QuotedPrefix(tag)
		if err != nil {
			return false
		}
		tag = tag[len(q):]
		if tag != "" && tag[0] != ' ' {
			return false
		}
	}
	return true
}

func runC07(C *Checker, R *Report) {
	type job struct {
		t    types.Type
		x    *xsdComplex
		name string
		top  bool
	}
	seen := map[string]bool{}
	for _, s := range C.services() {
		var work []job
		for _, el := range s.order {
			t := C.messageType(s, el)
			if t == nil {
				R.add("soap."+el, "no message type for element "+el, 0, nil)
				continue
			}
			x := s.complex[s.elements[el]]
			if x == nil {
				x = &xsdComplex{}
			}
			work = append(work, job{t, x, shortType(t), true})
		}
		for len(work) > 0 {
			j := work[0]
			work = work[1:]
			k := j.name + "|" + j.x.Name + fmt.Sprint(len(j.x.Elems))
			if seen[k] {
				continue
			}
			seen[k] = true
			R.count("types", 1)
			st, ok := j.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			pos := j.t.(*types.Named).Obj().Pos()
			if hasMethod(types.NewPointer(j.t), "MarshalXML") || hasMethod(types.NewPointer(j.t), "UnmarshalXML") || hasMethod(types.NewPointer(j.t), "MarshalText") {
				R.add(j.name, "the type has its own XML form, which the analysis cannot follow", pos, nil)
				continue
			}
			var fs []xfield
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				raw := st.Tag(i)
				R.count("fields", 1)
				if !wellFormedTag(raw) {
					R.add(j.name+"."+f.Name(), "malformed field declaration: "+raw, f.Pos(), nil)
				}
				if f.Name() == "XMLName" || !f.Exported() {
					continue
				}
				tag, has := reflect.StructTag(raw).Lookup("xml")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				xf := xfield{name: parts[0], goF: f.Name(), t: f.Type(), idx: i}
				if i := strings.LastIndexByte(xf.name, ' '); i >= 0 {
					xf.name = xf.name[i+1:]
				}
				if !has || xf.name == "" {
					xf.name = f.Name()
				}
				for _, o := range parts[1:] {
					switch o {
					case "attr":
						xf.attr = true
					case "omitempty":
						xf.omit = true
					case "chardata":
						xf.chars = true
						xf.name = ""
					}
				}
				xf.path = strings.Split(xf.name, ">")
				fs = append(fs, xf)
			}
			want := map[string]bool{}
			for _, e := range j.x.Elems {
				want[e.Name] = true
			}
			attrs := append([]xsdAttr(nil), j.x.Attrs...)
			if j.x.Ext != nil {
				attrs = append(attrs, j.x.Ext.Attrs...)
			}
			for _, a := range attrs {
				want[a.Name] = true
			}
			// a field that is declared for what another field is named for
			for _, f := range fs {
				for _, g := range fs {
					if f.idx != g.idx && f.name != "" && strings.EqualFold(f.name, g.goF) && !strings.EqualFold(f.name, f.goF) && want[f.name] {
						R.add(j.name+"."+f.goF, "field "+f.goF+" is declared as "+f.name+", which field "+g.goF+" is named for", st.Field(f.idx).Pos(), nil)
					}
				}
			}
			find := func(name string, attr bool) []xfield {
				var l []xfield
				for _, f := range fs {
					if len(f.path) > 0 && f.path[0] == name && f.attr == attr && !f.chars {
						l = append(l, f)
					}
				}
				return l
			}
			if j.x.Ext != nil {
				n := 0
				for _, f := range fs {
					if f.chars {
						n++
					}
				}
				if n != 1 {
					R.add(j.name, "the text of the element has no field", pos, nil)
				}
			}
			for _, a := range attrs {
				R.count("attributes", 1)
				if n := len(find(a.Name, true)); n != 1 {
					R.add(j.name+"."+a.Name, fmt.Sprintf("attribute %s has %d fields", a.Name, n), pos, nil)
				}
			}
			for _, e := range j.x.Elems {
				R.count("elements", 1)
				l := find(e.Name, false)
				if len(l) != 1 {
					R.add(j.name+"."+e.Name, fmt.Sprintf("element %s of the service description has %d fields", e.Name, len(l)), pos, nil)
					continue
				}
				f := l[0]
				fpos := st.Field(f.idx).Pos()
				many := e.Max == "unbounded" || e.Max != "" && e.Max != "1" && e.Max != "0"
				et := f.t
				if sl, ok := et.Underlying().(*types.Slice); ok {
					if b, isB := sl.Elem().Underlying().(*types.Basic); !isB || b.Kind() != types.Byte {
						et = sl.Elem()
						if !many && len(f.path) == 1 {
							R.add(j.name+"."+f.goF, "element "+e.Name+" occurs at most once, its field is a list", fpos, nil)
						}
					}
				} else if many {
					R.add(j.name+"."+f.goF, "element "+e.Name+" may occur often, its field holds one", fpos, nil)
				}
				et = deref(et)
				if (e.Min == "" || e.Min != "0") && f.omit && !many && omittable(f.t) {
					R.add(j.name+"."+f.goF, "required element "+e.Name+" is left out when its field is zero", fpos, nil)
				}
				x := e.Complex
				if x == nil {
					x = s.complex[localName(e.Type)]
				}
				path := f.path[1:]
				for len(path) > 0 && x != nil {
					var nx *xsdComplex
					for _, c := range x.Elems {
						if c.Name == path[0] {
							nx = c.Complex
							if nx == nil {
								nx = s.complex[localName(c.Type)]
							}
							R.count("elements", 1)
						}
					}
					if nx == nil {
						R.add(j.name+"."+f.goF, "the service description has no element "+f.name, fpos, nil)
					}
					x, path = nx, path[1:]
				}
				isStruct := false
				if _, ok := et.Underlying().(*types.Struct); ok && shortType(et) != "time.Time" {
					isStruct = true
				}
				switch {
				case x != nil && isStruct:
					work = append(work, job{et, x, shortType(et), false})
				case x != nil:
					R.add(j.name+"."+f.goF, "element "+e.Name+" has a structure, its field does not", fpos, nil)
				case isStruct:
					R.add(j.name+"."+f.goF, "element "+e.Name+" has no structure, its field does", fpos, nil)
				case localName(e.Type) == "dateTime" && shortType(et) != "time.Time":
					R.add(j.name+"."+f.goF, "element "+e.Name+" is a time, its field is not", fpos, nil)
				}
			}
			// two fields for one name hide each other
			names := map[string]string{}
			for _, f := range fs {
				k := f.name + fmt.Sprint(f.attr, f.chars)
				if o, dup := names[k]; dup {
					R.add(j.name+"."+f.goF, "fields "+o+" and "+f.goF+" have the same XML name", st.Field(f.idx).Pos(), nil)
				}
				names[k] = f.goF
			}
		}
	}
}

// omittable: omitempty has an effect on this type
func omittable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Pointer, *types.Interface:
		return false // written whatever its value, or not written as it points to nothing
	}
	return true
}
