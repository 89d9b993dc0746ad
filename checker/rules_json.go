package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01-C04: the JSON form of the messages against the OCPP 1.6 schemas.

var cpOps = []string{"Authorize", "BootNotification", "DataTransfer", "DiagnosticsStatusNotification", "FirmwareStatusNotification", "Heartbeat", "MeterValues", "StartTransaction", "StatusNotification", "StopTransaction"}
var csOps = []string{"CancelReservation", "ChangeAvailability", "ChangeConfiguration", "ClearCache", "ClearChargingProfile", "DataTransfer", "GetCompositeSchedule", "GetConfiguration", "GetDiagnostics", "GetLocalListVersion", "RemoteStartTransaction", "RemoteStopTransaction", "ReserveNow", "Reset", "SendLocalList", "SetChargingProfile", "TriggerMessage", "UnlockConnector", "UpdateFirmware"}

type schema struct {
	Type       string
	Format     string
	Properties map[string]*schema
	Items      *schema
	Required   []string
	Enum       []any
	Additional any `json:"additionalProperties"`
}

func (s *schema) required(p string) bool {
	for _, r := range s.Required {
		if r == p {
			return true
		}
	}
	return false
}

func (C *Checker) schema(name string) *schema {
	b, err := os.ReadFile(C.specFile("json", name+".json"))
	if err != nil {
		panic(err)
	}
	s := &schema{}
	if err := json.Unmarshal(b, s); err != nil {
		panic(err)
	}
	return s
}

// a Go type that stands for a schema object
type jsonPair struct {
	t    types.Type // named struct type
	s    *schema
	name string
	top  bool
	via  string
}

type jfield struct {
	idx  int
	name string
	prop string
	t    types.Type
	omit bool
	str  bool
}

var msgDirs = []struct {
	rel  string
	ops  []string
	resp bool
}{
	{"messages/v1x/cpreq", cpOps, false},
	{"messages/v1x/cpresp", cpOps, true},
	{"messages/v1x/csreq", csOps, false},
	{"messages/v1x/csresp", csOps, true},
}

func (C *Checker) jsonPairs(R *Report) []jsonPair {
	var work, out []jsonPair
	for _, d := range msgDirs {
		for _, op := range d.ops {
			t := C.P.Type(d.rel, op)
			if !R.need(t != nil, "type "+d.rel+"."+op) {
				continue
			}
			n := op
			if d.resp {
				n += "Response"
			}
			work = append(work, jsonPair{t: t, s: C.schema(n), name: shortType(t), top: true})
		}
	}
	seen := map[string]bool{}
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		b, _ := json.Marshal(p.s)
		k := p.name + string(b)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, p)
		st, ok := p.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, f := range jsonFields(st) {
			fs := p.s.Properties[f.prop]
			if fs == nil {
				continue
			}
			et := f.t
			for fs != nil && fs.Type == "array" {
				u, ok := deref(et).Underlying().(*types.Slice)
				if !ok {
					break
				}
				et = u.Elem()
				fs = fs.Items
			}
			et = deref(et)
			if fs != nil && fs.Type == "object" {
				if _, ok := et.Underlying().(*types.Struct); ok {
					work = append(work, jsonPair{t: et, s: fs, name: shortType(et), via: p.name + "." + f.name})
				}
			}
		}
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func jsonFields(st *types.Struct) []jfield {
	var fs []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
		parts := strings.Split(tag, ",")
		if parts[0] == "-" && len(parts) == 1 {
			continue
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{idx: i, name: f.Name(), prop: parts[0], t: f.Type()}
		if !has || parts[0] == "" {
			jf.prop = f.Name()
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		fs = append(fs, jf)
	}
	return fs
}

// ---- the text an encoder builds, parsed as JSON with holes

type jnode struct {
	kind  string // obj, arr, hole, lit
	props []jprop
	elems []*jnode
	hole  *V
	lit   string
}
type jprop struct {
	name string
	val  *jnode
}

type jlex struct {
	parts []*V
	i, j  int // part, offset in a constant part
}

func (l *jlex) ws() {
	for l.i < len(l.parts) && l.parts[l.i].isStr() {
		s := l.parts[l.i].str()
		for l.j < len(s) && strings.IndexByte(" \t\r\n", s[l.j]) >= 0 {
			l.j++
		}
		if l.j < len(s) {
			return
		}
		l.i++
		l.j = 0
	}
}

func (l *jlex) peek() byte {
	l.ws()
	if l.i >= len(l.parts) {
		return 0
	}
	if !l.parts[l.i].isStr() {
		return 1
	}
	return l.parts[l.i].str()[l.j]
}

func (l *jlex) eat(c byte) bool {
	if l.peek() == c {
		l.j++
		return true
	}
	return false
}

func (l *jlex) strLit() (string, bool) {
	if l.peek() != '"' {
		return "", false
	}
	s := l.parts[l.i].str()
	for k := l.j + 1; k < len(s); k++ {
		if s[k] == '\\' {
			k++
			continue
		}
		if s[k] == '"' {
			var out string
			if json.Unmarshal([]byte(s[l.j:k+1]), &out) != nil {
				return "", false
			}
			l.j = k + 1
			return out, true
		}
	}
	return "", false
}

func (l *jlex) value() (*jnode, error) {
	switch c := l.peek(); {
	case c == 0:
		return nil, fmt.Errorf("text ends where a value is expected")
	case c == 1:
		v := l.parts[l.i]
		if v.k != VApp || v.op != "nn:json" {
			if isNumberText(v) {
				l.i++
				l.j = 0
				return &jnode{kind: "hole", hole: v}, nil
			}
			return nil, fmt.Errorf("value %v is not written by a JSON encoder", v)
		}
		l.i++
		l.j = 0
		return termNode(v.args[0]), nil
	case c == '{':
		l.j++
		n := &jnode{kind: "obj"}
		if l.eat('}') {
			return n, nil
		}
		for {
			var name string
			if l.peek() == 1 {
				v := l.parts[l.i]
				if v.k == VApp && v.op == "nn:json" && v.args[0].k == VIface && v.args[0].args[0].isStr() {
					name = v.args[0].args[0].str()
					l.i++
					l.j = 0
				} else {
					return nil, fmt.Errorf("property name is not a constant: %v", v)
				}
			} else {
				s, ok := l.strLit()
				if !ok {
					return nil, fmt.Errorf("property name expected")
				}
				name = s
			}
			if !l.eat(':') {
				return nil, fmt.Errorf("':' expected after %q", name)
			}
			v, err := l.value()
			if err != nil {
				return nil, fmt.Errorf("property %q: %w", name, err)
			}
			n.props = append(n.props, jprop{name, v})
			if l.eat(',') {
				continue
			}
			if l.eat('}') {
				return n, nil
			}
			return nil, fmt.Errorf("',' or '}' expected after property %q", name)
		}
	case c == '[':
		l.j++
		n := &jnode{kind: "arr"}
		if l.eat(']') {
			return n, nil
		}
		for {
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			n.elems = append(n.elems, v)
			if l.eat(',') {
				continue
			}
			if l.eat(']') {
				return n, nil
			}
			return nil, fmt.Errorf("',' or ']' expected in array")
		}
	case c == '"':
		s := l.parts[l.i].str()
		from := l.j
		// a formatted time has nothing in it that must be escaped
		if l.j+1 == len(s) && l.i+2 < len(l.parts) {
			v, end := l.parts[l.i+1], l.parts[l.i+2]
			if v.k == VApp && v.op == "(time.Time).Format" && len(v.args) == 2 && v.args[1].isStr() && !strings.ContainsAny(v.args[1].str(), "\"\\<>&") && end.isStr() && strings.HasPrefix(end.str(), "\"") {
				l.i += 2
				l.j = 1
				return &jnode{kind: "hole", hole: mkIface(types.Typ[types.String], v)}, nil
			}
		}
		if _, ok := l.strLit(); ok {
			return &jnode{kind: "lit", lit: s[from:l.j]}, nil
		}
		return nil, fmt.Errorf("string value is put together from parts without JSON encoding")
	default:
		s := l.parts[l.i].str()
		k := l.j
		for k < len(s) && (s[k] >= 'a' && s[k] <= 'z' || s[k] >= '0' && s[k] <= '9' || s[k] == '.' || s[k] == '-' || s[k] == '+' || s[k] == 'E') {
			k++
		}
		t := s[l.j:k]
		if !json.Valid([]byte(t)) {
			return nil, fmt.Errorf("%q is not a JSON value", s[l.j:])
		}
		l.j = k
		return &jnode{kind: "lit", lit: t}, nil
	}
}

// isNumberText: the text of a number or a boolean
func isNumberText(v *V) bool {
	if v.k != VApp {
		return false
	}
	switch v.op {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "strconv.FormatFloat":
		return true
	}
	if strings.HasPrefix(v.op, "fmt%") && len(v.args) == 1 && v.args[0].k == VIface && !hasMethod(v.args[0].t, "String") && !hasMethod(v.args[0].t, "Error") {
		b, ok := v.args[0].t.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		verb := strings.TrimPrefix(v.op, "fmt%")
		flags, verb := verb[:len(verb)-1], verb[len(verb)-1:]
		if strings.Trim(flags, "0123456789.") != "" || strings.HasPrefix(flags, "0") {
			return false
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			return verb == "d" || verb == "v"
		case b.Info()&types.IsFloat != 0:
			return strings.Contains("vgfeGFE", verb)
		case b.Info()&types.IsBoolean != 0:
			return verb == "v" || verb == "t"
		}
	}
	return false
}

// badNumber: the text of a number that JSON may not have; "" if there is none
func badNumber(n *jnode) string {
	if h := n.hole; h != nil && h.k == VApp {
		float := h.op == "strconv.FormatFloat"
		if strings.HasPrefix(h.op, "fmt%") && len(h.args) == 1 && h.args[0].k == VIface {
			if b, ok := h.args[0].t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				float = true
			}
		}
		if float {
			return "the text of a float, which is NaN or Inf for some values: " + h.show(4)
		}
		if (h.op == "strconv.FormatInt" || h.op == "strconv.FormatUint") && len(h.args) > 1 && !(h.args[1].isInt() && h.args[1].int() == 10) {
			return "a number that is not decimal: " + h.show(4)
		}
	}
	for _, p := range n.props {
		if w := badNumber(p.val); w != "" {
			return w
		}
	}
	for _, e := range n.elems {
		if w := badNumber(e); w != "" {
			return w
		}
	}
	return ""
}

func termNode(t *V) *jnode {
	if t.k == VApp && t.op == "jsonemptymap" {
		return &jnode{kind: "obj"}
	}
	if t.k == VApp && t.op == "jsonobj" {
		n := &jnode{kind: "obj"}
		for i := 0; i+1 < len(t.args); i += 2 {
			n.props = append(n.props, jprop{t.args[i].str(), termNode(t.args[i+1])})
		}
		return n
	}
	return &jnode{kind: "hole", hole: t}
}

func parseJSONTerm(v *V) (*jnode, error) {
	l := &jlex{}
	if v.k == VApp && v.op == "cat" {
		l.parts = v.args
	} else {
		l.parts = []*V{v}
	}
	n, err := l.value()
	if err != nil {
		return nil, err
	}
	l.ws()
	if l.i < len(l.parts) {
		return nil, fmt.Errorf("text after the end of the object")
	}
	return n, nil
}

var rfc3339 = regexp.MustCompile(`^2006-01-02T15:04:05([.,][09]+)?Z07:00$`)

// fieldOf: which field of the object m a written value comes from
func fieldOf(v, m *V) (int, bool) {
	idx := -1
	ok := true
	v.walk(map[*V]bool{}, func(x *V) {
		if x.k == VApp && x.op == "ld" && x.args[0] == m {
			p := strings.Split(strings.TrimPrefix(x.args[1].str(), "."), ".")[0]
			p = strings.Split(p, "[")[0]
			n, err := strconv.Atoi(p)
			if err != nil || idx >= 0 && idx != n {
				ok = false
			}
			idx = n
		}
	})
	return idx, ok && idx >= 0
}

// isPlainLoad: the value is the field itself (or what it points to)
func plainLoad(v, m *V) bool {
	for v.k == VApp && v.op == "ld" {
		if v.args[0] == m {
			return true
		}
		if v.args[1].str() != "" {
			return false
		}
		v = v.args[0]
	}
	return false
}

type encPath struct {
	r    endRec
	node *jnode
	obj  *V
}

func isOwnPtr(C *Checker, t types.Type, m string) *ssa.Function {
	f := C.P.ownMethod(types.NewPointer(t), m)
	if f == nil || f.Blocks == nil {
		return nil
	}
	return f
}

type encMon struct {
	R    *Report
	C    *Checker
	pair jsonPair
	obj  *V
}

func (m *encMon) Clone() Monitor { return m }
func (m *encMon) Key(c *canon)   { c.val(m.obj) }
func (m *encMon) Event(st *State, e *Event) {
	switch e.Kind {
	case "maypanic":
		if e.Val == m.obj {
			return
		}
		st.violate("C02", m.pair.name, "encoding can panic ("+e.Name+"): "+e.Val.String(), posOf(e.Instr))
	case "panic":
		st.violate("C02", m.pair.name, "encoding panics", posOf(e.Instr))
	case "bufuse":
		b := e.Recv
		own := b.k == VAlloc && !st.isPub(b) || b.k == VPtr && len(b.args) > 0 && b.args[0].k == VAlloc && !st.isPub(b.args[0])
		if !own && e.Block && len(st.heldNow()) == 0 {
			st.violate("C02", m.pair.name, "the encoding is put together in a buffer that another encoding may use at the same time", posOf(e.Instr))
		}
	}
}

// paths of the encoder of a type; nil if the type has no encoder of its own
func (C *Checker) encode(R *Report, p jsonPair) ([]encPath, *ssa.Function, *V) {
	f := isOwnPtr(C, p.t, "MarshalJSON")
	if f == nil {
		return nil, nil, nil
	}
	E := C.newRun(&Cfg{})
	obj := mkSym("nn:param m", types.NewPointer(p.t))
	mon := &encMon{R: R, C: C, pair: p, obj: obj}
	arg := obj
	if _, ptr := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ptr {
		arg = mkApp("ld", obj, mkStr(""))
	}
	rs := C.runAll(E, start(E, mon, mkFunc(f), []*V{arg}))
	if R.ID == "C02" {
		R.take(E)
	} else {
		for _, l := range E.Limits {
			R.add("limit:"+p.name, l, f.Pos(), nil)
		}
	}
	var out []encPath
	for _, r := range rs {
		out = append(out, encPath{r: r, obj: obj})
	}
	return out, f, obj
}

func retErr(r endRec) (isErr, known bool) {
	if len(r.res) == 0 {
		return false, false
	}
	e := r.res[len(r.res)-1]
	if t, ok := r.st.truth(mkEq(e, vNil)); ok {
		return !t, true
	}
	return false, false
}

func init() {
	rules["C01"] = rule{runC01, "For every message type and nested type of the OCPP 1.6 schemas, all paths of its JSON encoder and decoder are abstractly interpreted; the text the encoder builds is parsed as JSON with holes and every property is compared with the field that is declared for it, and every property the decoder reads is compared with the field it ends up in; types without own methods are judged by their struct tags."}
	rules["C02"] = rule{runC02, "All paths of every JSON encoder are abstractly interpreted; on each path that returns no error the text must parse as one complete JSON object with every required property of the schema, an omitted property must be optional and its field known to be unset on that path, and no instruction may panic."}
	rules["C03"] = rule{runC03, "All paths of every JSON decoder are abstractly interpreted with a monitor over the properties of the payload: a path that returns no error must have received every required property, stored every received property and accepted none outside the schema, and no failed decoding may be swallowed."}
	rules["C04"] = rule{runC04, "On every path of every JSON encoder that writes an optional property, the facts of the path must exclude that the written value is null or an empty enumerated string."}
}

func runC01(C *Checker, R *Report) {
	for _, p := range C.jsonPairs(R) {
		st := p.t.Underlying().(*types.Struct)
		fields := jsonFields(st)
		byProp := map[string]jfield{}
		for _, f := range fields {
			if _, dup := byProp[f.prop]; dup {
				R.add(p.name+"."+f.prop, "two fields are declared for property "+f.prop, st.Field(f.idx).Pos(), nil)
			}
			byProp[f.prop] = f
			// the Go name of a field says which property it is meant for
			for _, g := range fields {
				if g.idx != f.idx && strings.EqualFold(f.name, g.prop) && !strings.EqualFold(f.name, f.prop) {
					R.add(p.name+"."+f.name, "field "+f.name+" is declared for property "+f.prop+", property "+g.prop+" for field "+g.name, st.Field(f.idx).Pos(), nil)
				}
			}
		}
		var props []string
		for n := range p.s.Properties {
			props = append(props, n)
		}
		sort.Strings(props)
		for _, n := range props {
			R.count("schema_properties", 1)
			if _, ok := byProp[n]; !ok {
				R.add(p.name+"."+n, "schema property "+n+" has no field", st.Field(0).Pos(), nil)
			}
		}
		// encoder
		paths, f, obj := C.encode(R, p)
		if f == nil {
			for _, f := range fields {
				R.count("tag_bindings", 1)
				if p.s.Properties[f.prop] == nil {
					R.add(p.name+"."+f.prop, "field "+f.name+" is written as "+f.prop+", which the schema does not have", st.Field(f.idx).Pos(), nil)
				}
				if s := p.s.Properties[f.prop]; s != nil && s.Format == "date-time" && shortType(deref(f.t)) != "time.Time" {
					R.add(p.name+"."+f.prop, "date-time field "+f.name+" is not a time", st.Field(f.idx).Pos(), nil)
				}
			}
		}
		for _, pa := range paths {
			if isErr, known := retErr(pa.r); known && isErr || pa.r.panicked != nil {
				continue
			}
			R.count("encoder_paths", 1)
			n, err := parseJSONTerm(pa.r.res[0])
			if err != nil || n.kind != "obj" {
				continue // C02 reports it
			}
			C.checkBinding(R, p, st, byProp, n, obj, f)
		}
		if f != nil {
			R.sample(fmt.Sprintf("%s encoder: %d paths", p.name, len(paths)))
		}
		// decoder
		if d := isOwnPtr(C, p.t, "UnmarshalJSON"); d != nil {
			C.decode(R, p, d, "C01")
		} else if f != nil {
			R.count("default_decoders", 1)
		}
	}
}

func (C *Checker) checkBinding(R *Report, p jsonPair, st *types.Struct, byProp map[string]jfield, n *jnode, obj *V, f *ssa.Function) {
	seen := map[string]bool{}
	for _, pr := range n.props {
		R.count("property_writes_checked", 1)
		key := p.name + "." + pr.name
		if seen[pr.name] {
			R.add(key, "property "+pr.name+" is written twice", f.Pos(), nil)
		}
		seen[pr.name] = true
		s := p.s.Properties[pr.name]
		if s == nil {
			R.add(key, "property "+pr.name+" is written, which the schema does not have", f.Pos(), nil)
			continue
		}
		jf, ok := byProp[pr.name]
		if !ok {
			continue
		}
		switch pr.val.kind {
		case "lit":
			if pr.val.lit != "null" {
				R.add(key, "property "+pr.name+" is written as the constant "+pr.val.lit, f.Pos(), nil)
			}
			continue
		case "obj":
			// nested object written in place: its values must come from this field
			for _, q := range pr.val.props {
				if q.val.kind == "hole" {
					if i, ok := fieldOf(q.val.hole, obj); !ok || i != jf.idx {
						R.add(key, "property "+pr.name+" does not carry the value of field "+jf.name, f.Pos(), nil)
					}
				}
			}
			continue
		case "arr":
			continue
		}
		h := pr.val.hole
		i, ok := fieldOf(h, obj)
		if !ok {
			// the list of elements may be a copy; the elements must come from the field
			R.add(key, "property "+pr.name+" does not carry the value of one field: "+h.String(), f.Pos(), nil)
			continue
		}
		if i != jf.idx {
			R.add(key, "property "+pr.name+" carries the value of field "+st.Field(i).Name()+", not "+jf.name, f.Pos(), nil)
			continue
		}
		if h.k == VIface || h.k == VApp && h.op == "ownjson" {
			in := h
			if h.k == VApp {
				in = h.args[0]
			}
			val := in.args[0]
			if s.Format == "date-time" {
				if !dateTime(in, obj) {
					R.add(key, "date-time property "+pr.name+" is not written as RFC 3339: "+h.String(), f.Pos(), nil)
				}
				continue
			}
			if !plainLoad(val, obj) && !plainListCopy(val, obj) {
				R.add(key, "property "+pr.name+" does not carry the value of field "+jf.name+" unchanged: "+h.String(), f.Pos(), nil)
			}
		}
	}
}

func plainListCopy(v, m *V) bool { return false }

func dateTime(in, obj *V) bool {
	t := shortType(in.t)
	v := in.args[0]
	if t == "time.Time" || t == "*time.Time" {
		return plainLoad(stripUTC(v), obj)
	}
	if v.k == VApp && v.op == "(time.Time).Format" && len(v.args) == 2 && v.args[1].isStr() {
		return rfc3339.MatchString(v.args[1].str()) && plainLoad(stripUTC(v.args[0]), obj)
	}
	return false
}

func stripUTC(v *V) *V {
	for v.k == VApp && (v.op == "(time.Time).UTC") {
		v = v.args[0]
	}
	return v
}

// unset: the facts of the path say that the field has its zero value
func unset(st *State, obj *V, f jfield) bool {
	v := mkApp("ld", obj, mkStr(fieldPath(f.idx)))
	z := zero(f.t)
	if t, ok := st.truth(mkEq(v, z)); ok && t {
		return true
	}
	switch f.t.Underlying().(type) {
	case *types.Slice, *types.Map:
		if t, ok := st.truth(mkEq(mkLen(v), mkInt(0))); ok && t {
			return true
		}
		iv := st.interval(mkLen(v))
		return iv.hasHi && iv.hi <= 0
	case *types.Basic:
		if t, ok := st.truth(mkEq(mkLen(v), mkInt(0))); ok && t {
			return true
		}
		iv := st.interval(mkLen(v))
		if iv.hasHi && iv.hi <= 0 {
			return true
		}
		iv = st.interval(v)
		if iv.hasHi && iv.hi <= 0 && iv.hasLo && iv.lo >= 0 {
			return true
		}
	case *types.Struct:
		if t, ok := st.truth(mkApp("(time.Time).IsZero", v)); ok && t {
			return true
		}
	}
	return false
}

func runC02(C *Checker, R *Report) {
	for _, p := range C.jsonPairs(R) {
		st := p.t.Underlying().(*types.Struct)
		fields := map[string]jfield{}
		for _, f := range jsonFields(st) {
			fields[f.prop] = f
		}
		paths, f, obj := C.encode(R, p)
		if f == nil {
			for _, r := range p.s.Required {
				R.count("required_properties", 1)
				jf, ok := fields[r]
				if !ok || jf.omit {
					R.add(p.name+"."+r, "required property "+r+" can be left out", st.Field(0).Pos(), nil)
				}
			}
			continue
		}
		R.count("encoders", 1)
		ok := 0
		for _, pa := range paths {
			if pa.r.panicked != nil {
				continue
			}
			isErr, known := retErr(pa.r)
			if known && isErr {
				R.count("error_paths", 1)
				continue
			}
			ok++
			R.count("success_paths", 1)
			n, err := parseJSONTerm(pa.r.res[0])
			if err != nil {
				R.add(p.name, "the encoder can write malformed JSON: "+err.Error(), f.Pos(), pa.r.st.traceList())
				continue
			}
			if n.kind != "obj" {
				R.add(p.name, "the encoder does not write an object", f.Pos(), pa.r.st.traceList())
				continue
			}
			if w := badNumber(n); w != "" {
				R.add(p.name, "the encoder can write malformed JSON: "+w, f.Pos(), pa.r.st.traceList())
			}
			have := map[string]bool{}
			for _, q := range n.props {
				if have[q.name] {
					R.add(p.name+"."+q.name, "property "+q.name+" is written twice", f.Pos(), pa.r.st.traceList())
				}
				have[q.name] = true
			}
			for name := range p.s.Properties {
				R.count("property_obligations", 1)
				if have[name] {
					continue
				}
				if p.s.required(name) {
					R.add(p.name+"."+name, "required property "+name+" is left out", f.Pos(), pa.r.st.traceList())
					continue
				}
				jf, found := fields[name]
				if found && !unset(pa.r.st, obj, jf) {
					R.add(p.name+"."+name, "property "+name+" is left out although its field "+jf.name+" may be set", f.Pos(), pa.r.st.traceList())
				}
			}
		}
		if ok == 0 {
			R.add(p.name, "the encoder never succeeds", f.Pos(), nil)
		}
	}
}

func runC04(C *Checker, R *Report) {
	for _, p := range C.jsonPairs(R) {
		st := p.t.Underlying().(*types.Struct)
		fields := map[string]jfield{}
		for _, f := range jsonFields(st) {
			fields[f.prop] = f
		}
		paths, f, obj := C.encode(R, p)
		if f == nil {
			for n, s := range p.s.Properties {
				jf, ok := fields[n]
				if !ok || p.s.required(n) {
					continue
				}
				R.count("optional_properties", 1)
				if !jf.omit && badZero(jf.t, s) != "" {
					R.add(p.name+"."+jf.name, "optional property "+n+" is sent as "+badZero(jf.t, s)+" when unset", st.Field(jf.idx).Pos(), nil)
				}
			}
			continue
		}
		for _, pa := range paths {
			if isErr, known := retErr(pa.r); known && isErr || pa.r.panicked != nil {
				continue
			}
			n, err := parseJSONTerm(pa.r.res[0])
			if err != nil || n.kind != "obj" {
				continue
			}
			for _, q := range n.props {
				s := p.s.Properties[q.name]
				if s == nil || p.s.required(q.name) {
					continue
				}
				R.count("optional_property_writes", 1)
				if q.val.kind == "lit" && (q.val.lit == "null" || q.val.lit == `""` && len(s.Enum) > 0) {
					R.add(p.name+"."+fields[q.name].name, "optional property "+q.name+" is sent as "+q.val.lit, f.Pos(), pa.r.st.traceList())
					continue
				}
				if q.val.kind != "hole" {
					continue
				}
				h := q.val.hole
				if h.k == VApp && h.op == "ownjson" {
					h = h.args[0]
				}
				if h == vNil {
					R.add(p.name+"."+fields[q.name].name, "optional property "+q.name+" is sent as null", f.Pos(), pa.r.st.traceList())
					continue
				}
				if h.k != VIface {
					continue
				}
				bad := badZero(h.t, s)
				if bad == "" {
					continue
				}
				v := h.args[0]
				set := false
				zv := vNil
				if bad == `""` {
					zv = mkStr("")
				}
				if t, ok := pa.r.st.truth(mkEq(v, zv)); ok && !t {
					set = true
				}
				if t, ok := pa.r.st.truth(mkEq(mkLen(v), mkInt(0))); ok && !t {
					set = true
				}
				if iv := pa.r.st.interval(mkLen(v)); iv.hasLo && iv.lo > 0 {
					set = true
				}
				if !set {
					nm := q.name
					if jf, ok := fields[q.name]; ok {
						nm = jf.name
					}
					R.add(p.name+"."+nm, "optional property "+q.name+" is sent as "+bad+" when unset", f.Pos(), pa.r.st.traceList())
				}
			}
		}
		_ = obj
	}
}

// badZero: what the zero value of t is sent as, if the schema forbids it
func badZero(t types.Type, s *schema) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		_ = u
		return "null"
	case *types.Basic:
		if u.Info()&types.IsString != 0 && len(s.Enum) > 0 {
			for _, e := range s.Enum {
				if e == "" {
					return ""
				}
			}
			return `""`
		}
	}
	return ""
}

// ---- decoders

// decMon follows the properties of the payload through a decoder. What was
// received is kept for the required properties only: the decoder itself has to
// remember those, so that this adds nothing to the number of its states.
type decMon struct {
	rule     string
	pair     jsonPair
	obj      *V
	d        *ssa.Function
	fields   map[string]jfield
	st       *types.Struct
	got      map[string]bool // required properties that were received
	odd      map[string]bool // received, but not stored where they were handled
	cur      *V              // key of the property that is being handled
	mapv     *V              // the decoded payload
	failed   bool
	extra    bool // a property outside the schema was passed over
	ranged   bool
	R        *Report
	accepted map[string]bool // shared by all paths
}

func (m *decMon) Clone() Monitor {
	n := *m
	n.got = map[string]bool{}
	for k := range m.got {
		n.got[k] = true
	}
	n.odd = map[string]bool{}
	for k := range m.odd {
		n.odd[k] = true
	}
	return &n
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *decMon) Key(c *canon) {
	c.str(strings.Join(keysOf(m.got), ","))
	c.str(strings.Join(keysOf(m.odd), ","))
	c.val(m.obj)
	c.val(m.cur)
	c.val(m.mapv)
	if m.failed {
		c.str("F")
	}
	if m.ranged {
		c.str("R")
	}
	if m.extra {
		c.str("X")
	}
}

func (m *decMon) Event(st *State, e *Event) {
	switch e.Kind {
	case "decode":
		if e.Block {
			m.failed = true
		}
		if e.Type != nil {
			if _, ok := e.Type.Underlying().(*types.Map); ok && m.mapv == nil {
				m.mapv = e.Val
			}
		}
	case "call":
		for _, r := range e.Res {
			if r != nil && r.k == VApp && r.op == "nn:parseerror" {
				m.failed = true
			}
		}
	case "maprange":
		if m.isPayload(e.Recv) {
			m.finishKey(st)
			m.ranged = true
		}
	case "maypanic":
		if e.Val != m.obj && e.Block {
			st.violate(m.rule, m.pair.name, "decoding can panic ("+e.Name+")", posOf(e.Instr))
		}
	case "nextkey":
		if m.isPayload(e.Recv) {
			m.cur = e.Val
		}
	case "end":
		if len(e.Res) > 0 {
			if t, ok := st.truth(mkEq(e.Res[len(e.Res)-1], vNil)); ok && !t {
				return
			}
		}
		m.finishKey(st)
	}
}

func (m *decMon) isPayload(v *V) bool {
	return m.mapv != nil && (v == m.mapv)
}

// where the value of a received property went: the fields of the message that hold it
func (m *decMon) where(st *State, k *V) []int {
	c := st.constOf(k)
	holds := func(v *V) bool {
		return v.mentions(func(x *V) bool {
			return x.k == VApp && x.op == "mapval" && len(x.args) == 2 && (x.args[1] == k || c != nil && st.constOf(x.args[1]) == c)
		})
	}
	var reach func(v *V, d int) bool
	reach = func(v *V, d int) bool {
		if holds(v) {
			return true
		}
		if d == 0 {
			return false
		}
		hit := false
		v.walk(map[*V]bool{}, func(x *V) {
			if x.k != VAlloc || hit {
				return
			}
			for l, y := range st.mem {
				if l.base == x && reach(y, d-1) {
					hit = true
				}
			}
		})
		return hit
	}
	set := map[int]bool{}
	for l, v := range st.mem {
		if l.base != m.obj || !reach(v, 3) {
			continue
		}
		p := strings.Split(strings.TrimPrefix(l.path, "."), ".")[0]
		n, err := strconv.Atoi(strings.Split(p, "[")[0])
		if err != nil {
			n = -2
		}
		set[n] = true
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func (m *decMon) fieldName(i int) string {
	if i < 0 || i >= m.st.NumFields() {
		return "the whole message"
	}
	return m.st.Field(i).Name()
}

func (m *decMon) stored(st *State, name string, at []int) {
	m.accepted[name] = true
	if m.rule == "C03" {
		m.typed(st, name)
	}
	if m.rule == "C01" || m.rule == "C30" {
		m.unchanged(st, name)
	}
	if m.rule != "C01" {
		return
	}
	m.R.count("property_reads_checked", 1)
	jf, ok := m.fields[name]
	for _, i := range at {
		if !ok || jf.idx != i {
			st.violate(m.rule, m.pair.name+"."+name, "property "+name+" is stored into field "+m.fieldName(i), m.d.Pos())
		}
	}
}

// typed: what is accepted for a property has the type the schema gives it
func (m *decMon) typed(st *State, name string) {
	jf, ok := m.fields[name]
	if !ok {
		return
	}
	v := st.mem[Loc{m.obj, "." + itoa(jf.idx)}]
	if v == nil {
		return
	}
	var decs []*V
	look := func(v *V) {
		v.walk(map[*V]bool{}, func(x *V) {
			if x.k == VApp && x.op == "dec" && x.t != nil {
				decs = append(decs, x)
			}
		})
	}
	look(v)
	v.walk(map[*V]bool{}, func(x *V) {
		if x.k == VAlloc {
			if y := st.mem[Loc{x, ""}]; y != nil {
				look(y)
			}
		}
	})
	for _, d := range decs {
		if !d.mentions(func(x *V) bool { return x.k == VApp && x.op == "mapval" }) {
			continue
		}
		b, ok := deref(d.t).Underlying().(*types.Basic)
		if !ok || st.constrained(d) {
			continue
		}
		m.R.count("property_types", 1)
		bad := false
		switch m.pair.s.Properties[name].Type {
		case "integer":
			bad = b.Info()&types.IsFloat != 0 || b.Info()&types.IsBoolean != 0
		case "number":
			bad = b.Info()&types.IsBoolean != 0
		case "boolean":
			bad = b.Info()&types.IsBoolean == 0
		case "string":
			bad = b.Info()&types.IsNumeric != 0 || b.Info()&types.IsBoolean != 0
		}
		if bad {
			st.violate(m.rule, m.pair.name+"."+name, "property "+name+" is accepted as any "+shortType(deref(d.t))+", which the schema does not allow", m.d.Pos())
		}
	}
}

// constrained: the path has looked at the value
func (st *State) constrained(v *V) bool {
	for f := range st.facts {
		if !(f.k == VApp && f.op == "decfails") && f.mentions(func(x *V) bool { return x == v }) {
			return true
		}
	}
	return false
}

// unchanged: a simple value that was received is stored as it was decoded
func (m *decMon) unchanged(st *State, name string) {
	jf, ok := m.fields[name]
	if !ok {
		return
	}
	ft, ok := deref(jf.t).Underlying().(*types.Basic)
	if !ok || m.rule == "C30" && ft.Info()&types.IsNumeric == 0 {
		return
	}
	v := st.mem[Loc{m.obj, "." + itoa(jf.idx)}]
	if v == nil {
		return
	}
	if ft.Info()&types.IsNumeric != 0 {
		m.R.count("numbers_read", 1)
	}
	viol := func(msg string) {
		st.violate(m.rule, m.pair.name+"."+name, "property "+name+" is "+msg, m.d.Pos())
	}
	number := false
	for {
		switch {
		case v.k == VIface:
			v = v.args[0]
			continue
		case v.k == VAlloc && st.mem[Loc{v, ""}] != nil:
			v = st.mem[Loc{v, ""}]
			continue
		case v.k == VApp && v.op == "dyn" && len(v.args) == 1:
			v = v.args[0]
			continue
		case v.k == VApp && v.op == "ld" && len(v.args) == 2 && v.args[1].isStr() && v.args[1].str() == "":
			v = v.args[0]
			continue
		case v.k == VApp && v.op == "numval":
			v, number = v.args[0], true
			continue
		}
		break
	}
	if v.k != VApp {
		return
	}
	if v.op != "dec" {
		if v.mentions(func(x *V) bool { return x.k == VApp && x.op == "mapval" }) {
			viol("not stored as it was received: " + v.show(4))
		}
		return
	}
	if ft.Info()&types.IsNumeric == 0 || v.t == nil {
		return
	}
	t := deref(v.t)
	if number && t.String() == "encoding/json.Number" {
		return
	}
	if b, ok := t.Underlying().(*types.Basic); !ok || !holdsNumbers(b, ft) || !holdsNumbers(ft, b) {
		viol("decoded as " + shortType(t) + " and stored as " + shortType(deref(jf.t)) + ", which do not hold the same numbers")
	}
}

// holdsNumbers: every number of type b has the same value as a number of type a
func holdsNumbers(a, b *types.Basic) bool {
	type rng struct {
		float    bool
		unsigned bool
		bits     int
	}
	of := func(t *types.Basic) rng {
		var sz = map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
			types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64, types.Float32: 24, types.Float64: 53}
		return rng{t.Info()&types.IsFloat != 0, t.Info()&types.IsUnsigned != 0, sz[t.Kind()]}
	}
	x, y := of(a), of(b)
	if x.bits == 0 || y.bits == 0 {
		return false
	}
	switch {
	case x.float && y.float:
		return x.bits >= y.bits
	case y.float:
		return false
	case x.float:
		return x.bits >= y.bits
	case x.unsigned == y.unsigned:
		return x.bits >= y.bits
	case x.unsigned:
		return false
	}
	return x.bits > y.bits
}

// finishKey: the handling of one received property is over
func (m *decMon) finishKey(st *State) {
	if m.cur == nil {
		return
	}
	k := m.cur
	m.cur = nil
	if m.failed {
		return
	}
	c := st.constOf(k)
	if c == nil || !c.isStr() || m.pair.s.Properties[c.str()] == nil {
		m.extra = true
		if c != nil && c.isStr() {
			m.odd[c.str()] = true
		}
		return
	}
	name := c.str()
	if m.pair.s.required(name) {
		m.got[name] = true
	}
	at := m.where(st, k)
	if len(at) == 0 {
		m.odd[name] = true
		return
	}
	m.stored(st, name, at)
	// the binding has been judged; what the field holds matters no more
	for l := range st.mem {
		if l.base == m.obj {
			delete(st.mem, l)
		}
	}
}

// inPayload: what the path knows about the presence of a property
func (m *decMon) inPayload(st *State, name string) (bool, bool) {
	if m.mapv == nil {
		return false, false
	}
	in, known := false, false
	for f, v := range st.facts {
		if f.k == VApp && f.op == "inmap" && len(f.args) == 2 {
			if c := st.constOf(f.args[1]); c != nil && c.isStr() && c.str() == name {
				in, known = v == vTrue, true
			}
		}
	}
	return in, known
}

func (C *Checker) decode(R *Report, p jsonPair, d *ssa.Function, rule string) {
	st := p.t.Underlying().(*types.Struct)
	fields := map[string]jfield{}
	for _, f := range jsonFields(st) {
		fields[f.prop] = f
	}
	E := C.newRun(&Cfg{})
	obj := mkSym("nn:param m", types.NewPointer(p.t))
	mon := &decMon{rule: rule, pair: p, obj: obj, d: d, fields: fields, st: st, got: map[string]bool{}, odd: map[string]bool{}, R: R, accepted: map[string]bool{}}
	rs := C.runAll(E, start(E, mon, mkFunc(d), []*V{obj, mkSym("param b", nil)}))
	R.take(E)
	R.count("decoders", 1)
	if rule == "C30" {
		return
	}
	okPaths := 0
	for _, r := range rs {
		if r.panicked != nil {
			continue
		}
		isErr, known := retErr(r)
		m := r.st.mon.(*decMon)
		if known && isErr {
			R.count("rejecting_paths", 1)
			continue
		}
		okPaths++
		R.count("accepting_paths", 1)
		if m.mapv == nil {
			R.add(p.name, "the payload is not decoded as a set of properties", d.Pos(), r.st.traceList())
			continue
		}
		if m.failed {
			if rule == "C03" {
				R.add(p.name, "decoding reports success although decoding a property failed", d.Pos(), r.st.traceList())
			}
			continue
		}
		// properties that were looked up one by one
		var names []string
		for n := range p.s.Properties {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			in, known := m.inPayload(r.st, n)
			if !known || !in || m.ranged && !m.odd[n] {
				continue
			}
			at := m.where(r.st, mkStr(n))
			if len(at) == 0 {
				m.odd[n] = true
				continue
			}
			delete(m.odd, n)
			m.stored(r.st, n, at)
			m.got[n] = true
		}
		for _, n := range keysOf(m.odd) {
			if in, known := m.inPayload(r.st, n); known && !in {
				continue // not a path of any payload
			}
			if rule != "C03" {
				continue
			}
			if p.s.Properties[n] == nil {
				R.add(p.name+"."+n, "decoding accepts property "+n+", which the schema does not have", d.Pos(), r.st.traceList())
			} else {
				R.add(p.name+"."+n, "property "+n+" is accepted but not stored", d.Pos(), r.st.traceList())
			}
		}
		if rule != "C03" {
			continue
		}
		for _, req := range p.s.Required {
			R.count("required_obligations", 1)
			in, known := m.inPayload(r.st, req)
			if !m.got[req] && !(known && in) {
				R.add(p.name+"."+req, "decoding succeeds without the required property "+req, d.Pos(), r.st.traceList())
			}
		}
		if m.extra && p.top {
			R.add(p.name, "decoding accepts a property outside the schema", d.Pos(), r.st.traceList())
		}
		if !m.ranged && p.top {
			R.add(p.name, "decoding does not look for properties outside the schema", d.Pos(), r.st.traceList())
		}
	}
	if okPaths == 0 {
		R.add(p.name, "decoding never succeeds", d.Pos(), nil)
	}
	// every schema property must be accepted by some path
	for n := range p.s.Properties {
		if !mon.accepted[n] && okPaths > 0 {
			R.add(p.name+"."+n, "a payload with the schema property "+n+" is never accepted", d.Pos(), nil)
		}
	}
}

func runC03(C *Checker, R *Report) {
	for _, p := range C.jsonPairs(R) {
		d := isOwnPtr(C, p.t, "UnmarshalJSON")
		if d == nil {
			if p.top {
				R.add(p.name, "the message has no decoder of its own: missing and unknown properties are accepted", p.t.(*types.Named).Obj().Pos(), nil)
			} else if len(p.s.Required) > 0 {
				R.add(p.name, "the type has no decoder of its own: missing properties are accepted", p.t.(*types.Named).Obj().Pos(), nil)
			}
			continue
		}
		C.decode(R, p, d, "C03")
		R.sample(p.name)
	}
}
