package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The places where the library is entered: exported functions and methods,
// the HTTP handlers it installs and the goroutines it starts, each with a
// state in which that can happen. They are found through the exported API
// and by following go statements, not by name.
type root struct {
	name string
	st   *State
	fn   *V
	args []*V
	kind string // connmethod, csmethod, cpmethod, http, go, callback, soap, decoder, service
	on   *V     // the published object it is about
	sock *V
	in   ssa.Instruction // where a goroutine is started
}

func (C *Checker) fnName(fn *V) string {
	f, _ := calleeOf(fn)
	if f == nil {
		return fn.String()
	}
	return C.short(f)
}

// short name of a function: package, receiver and name
func (C *Checker) short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	n := f.RelString(nil)
	if f.Pkg != nil {
		n = f.RelString(f.Pkg.Pkg)
		if r := C.P.rel(f.Pkg.Pkg); r != "" {
			n = r + "." + n
		}
	}
	return n
}

// ownMethods: methods declared in the repository, of the type or the pointer to it
func (C *Checker) ownMethods(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	if _, ok := t.(*types.Pointer); !ok {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			t = types.NewPointer(t)
		}
	}
	ms := C.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() || !C.P.inRepo(o.Pkg()) {
			continue
		}
		if m := C.P.SSA.MethodValue(ms.At(i)); m != nil && m.Blocks != nil {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func methodArgs(recv *V, m *ssa.Function) []*V {
	args := []*V{recv}
	for _, p := range m.Params[1:] {
		args = append(args, param(p.Name(), p.Type()))
	}
	return args
}

// httpHandler: the value can be called with an HTTP request
func (C *Checker) httpHandler(v *V) (fn *V, pre []*V) {
	if v == nil {
		return nil, nil
	}
	isSig := func(s *types.Signature) bool {
		return s.Params().Len() == 2 && s.Results().Len() == 0 &&
			s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
	}
	switch v.k {
	case VFunc, VClosure:
		f, _ := calleeOf(v)
		if f != nil && f.Signature.Recv() == nil && isSig(f.Signature) {
			return v, nil
		}
	case VIface:
		if f, _ := C.httpHandler(v.args[0]); f != nil {
			return f, nil
		}
		if m := C.P.ownMethod(v.t, "ServeHTTP"); m != nil && m.Blocks != nil {
			return mkFunc(m), []*V{v.args[0]}
		}
	}
	return nil, nil
}

func httpArgs() []*V {
	return []*V{httpW, httpR}
}

var httpW = mkSym("nn:ResponseWriter", nil)
var httpR = mkSym("nn:http.Request", nil)

// rootSet is everything found, with facts about shared fields
type rootSet struct {
	roots    []root
	maybeNil map[string]bool            // fields and maps into which something nil may be put
	typeSet  map[string]bool            // fields that are set in published objects
	elemSet  map[string]map[string]bool // by map: fields set in the objects put there
	regions  []map[string]*V            // what is changed together, by map
	emptyMap map[string]bool            // maps that are empty when others get to see them
	together map[string]string          // maps that always have the same keys
	tangled  map[string]bool            // maps changed in too many ways to tell
	csStates []csSt
	cpStates []cpSt
}

type csSt struct {
	st   *State
	csys *V // the interface value New returns
}

type cpSt struct {
	st *State
	cp *V // pointer
	t  types.Type
}

func (C *Checker) rootSet(R *Report) *rootSet {
	if C.rs != nil {
		return C.rs
	}
	rs := &rootSet{maybeNil: map[string]bool{}, typeSet: map[string]bool{}, elemSet: map[string]map[string]bool{}, emptyMap: map[string]bool{}, tangled: map[string]bool{}}
	C.rs = rs
	seenGo := map[ssa.Instruction]bool{}
	seenH := map[string]bool{}
	var todo []root
	add := func(r root) { todo = append(todo, r) }
	handler := func(st *State, v *V, on *V) {
		if fn, pre := C.httpHandler(v); fn != nil {
			k := fn.String() + fmt.Sprint(pre)
			if f, _ := calleeOf(fn); f != nil {
				k = f.String()
			}
			if seenH[k] {
				return
			}
			seenH[k] = true
			s := st.clone()
			s.mon = nil
			add(root{name: "HTTP handler " + C.fnName(fn), st: s, fn: fn, args: append(append([]*V(nil), pre...), httpArgs()...), kind: "http", on: on})
		}
	}
	// functions given to others to call later
	callback := func(st *State, e *Event, v *V, on *V) {
		if v == nil || v.k != VFunc && v.k != VClosure || e.Instr == nil {
			return
		}
		f, _ := calleeOf(v)
		if f == nil || f.Blocks == nil || !C.P.ownFunc(f) || calledAtOnce(e.Name) {
			return
		}
		if h, _ := C.httpHandler(v); h != nil {
			return
		}
		if seenGo[e.Instr] {
			return
		}
		seenGo[e.Instr] = true
		s := st.clone()
		s.mon = nil
		s.publish(v)
		// by then others have what the object it is given to belongs to
		for _, a := range e.Args {
			if a.k == VSym || a.k == VApp || a.k == VAlloc {
				for _, l := range s.holders(a) {
					if l.base.k == VAlloc {
						s.publish(l.base)
					}
				}
			}
		}
		args := params(f)
		if v.k == VFunc && f.Signature.Recv() != nil {
			return
		}
		add(root{name: "callback " + C.fnName(v), st: s, fn: v, args: args, kind: "callback", on: on, in: e.Instr})
	}
	spawns := func(E *Explorer, on, sock *V) {
		for _, sp := range E.Spawns {
			if seenGo[sp.in] {
				continue
			}
			seenGo[sp.in] = true
			s := sp.st.clone()
			s.mon = nil
			add(root{name: "goroutine " + C.fnName(sp.fn), st: s, fn: sp.fn, args: sp.args, kind: "go", on: on, sock: sock, in: sp.in})
		}
	}
	watch := func(on *V) func(m *tmon, st *State, e *Event) {
		return func(m *tmon, st *State, e *Event) {
			rs.watchRegion(m, st, e)
			switch e.Kind {
			case "call":
				for _, a := range e.Args {
					handler(st, a, on)
					callback(st, e, a, on)
				}
			case "store":
				handler(st, e.Val, on)
				if nilable(e.Type) {
					if s, ok := e.Instr.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && e.Loc.base != nil && st.isShared(e.Loc.base) {
							n := fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
							if !st.knownSet(e.Val) {
								rs.maybeNil[n] = true
								rs.maybeNil["later "+n] = true
							}
						}
					}
				}
			case "mapset":
				if n := fieldHolding(st, e.Recv); n != "" {
					if !st.knownSet(e.Val) {
						rs.maybeNil["map "+n] = true
					}
					rs.recordElem(st, n, e.Val)
				}
			case "publish":
				rs.recordPub(C, st, e.Recv)
			}
		}
	}
	// connections
	for _, how := range []string{"Handshake", "Dial"} {
		cs := C.connStates(R, how)
		if len(cs) == 0 {
			continue
		}
		c := cs[0]
		for y := range c.st.pub {
			rs.recordPub(C, c.st, y)
		}
		for _, m := range C.ownMethods(C.connType()) {
			add(root{name: "ws.Conn." + m.Name(), st: c.st, fn: mkFunc(m), args: methodArgs(c.conn, m), kind: "connmethod", on: c.conn, sock: c.sock})
		}
		if how == "Handshake" {
			for _, cn := range []string{"NewCentralSystemJSON", "NewChargePointJSON"} {
				if f := C.P.Func("internal/service", cn); f != nil && len(f.Params) == 1 {
					for _, r := range C.runAll(C.newRun(&Cfg{}), c.st.then(c.st.E, nil, mkFunc(f), []*V{c.conn})) {
						C.serviceRoots(add, cn, r, c.conn, c.sock)
					}
				}
			}
		}
	}
	for _, cn := range []string{"NewCentralSystemSOAP", "NewChargePointSOAP"} {
		if f := C.P.Func("internal/service", cn); f != nil {
			E := C.newRun(&Cfg{})
			for _, r := range C.runAll(E, start(E, nil, mkFunc(f), params(f))) {
				C.serviceRoots(add, cn, r, nil, nil)
			}
		}
	}
	// the central system
	for _, c := range C.csNew(R) {
		rs.csStates = append(rs.csStates, c)
		for y := range c.st.pub {
			rs.recordPub(C, c.st, y)
		}
		for _, m := range C.ownMethods(c.csys.t) {
			add(root{name: "cs." + m.Name(), st: c.st, fn: mkFunc(m), args: methodArgs(c.csys.args[0], m), kind: "csmethod", on: c.csys.args[0]})
		}
	}
	// the charge point
	if f := C.P.Func("cp", "New"); R.need(f != nil, "cp.New") {
		E := C.newRun(&Cfg{RecordSpawns: true})
		for _, r := range C.runAll(E, start(E, newMon(watch(nil)), mkFunc(f), params(f))) {
			if r.panicked != nil || len(r.res) != 2 || !r.st.assume(mkEq(r.res[1], vNil), true) || r.res[0].k != VAlloc {
				continue
			}
			s := r.st.clone()
			s.mon = nil
			s.publish(r.res[0])
			s.note["cp"] = r.res[0]
			for y := range s.pub {
				rs.recordPub(C, s, y)
			}
			rs.cpStates = append(rs.cpStates, cpSt{s, r.res[0], f.Signature.Results().At(0).Type()})
		}
		R.need(len(rs.cpStates) > 0, "a charge point made by cp.New")
		spawns(E, nil, nil)
		for i, c := range rs.cpStates {
			for _, m := range C.ownMethods(c.t) {
				add(root{name: fmt.Sprintf("cp.%s (%d)", m.Name(), i), st: c.st, fn: mkFunc(m), args: methodArgs(c.cp, m), kind: "cpmethod", on: c.cp})
			}
		}
	}
	// SOAP
	for _, n := range []string{"Handle", "Unmarshal"} {
		if f := C.P.Func("soap", n); R.need(f != nil, "soap."+n) {
			E := C.newRun(&Cfg{})
			s := newState(E)
			as := params(f)
			if n == "Handle" && len(as) == 3 {
				as[0], as[1] = httpW, httpR
			}
			add(root{name: "soap." + n, st: s, fn: mkFunc(f), args: as, kind: "soap"})
		}
	}
	// own decoders
	for _, fn := range C.P.AllFuncs() {
		switch fn.Name() {
		case "UnmarshalJSON", "UnmarshalXML", "UnmarshalXMLAttr", "UnmarshalText":
			if fn.Signature.Recv() == nil || fn.Synthetic != "" || len(fn.Params) < 2 {
				continue
			}
			pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			a := mkAlloc("receiver", pt.Elem())
			E := C.newRun(&Cfg{})
			add(root{name: C.short(fn), st: newState(E), fn: mkFunc(fn), args: methodArgs(a, fn), kind: "decoder"})
		}
	}
	// follow goroutines and handlers
	for len(todo) > 0 {
		r := todo[0]
		todo = todo[1:]
		rs.roots = append(rs.roots, r)
		if r.kind == "decoder" {
			continue
		}
		E := C.newRun(&Cfg{OpenWorld: true, RecordSpawns: true})
		C.runAll(E, r.st.then(E, newMon(watch(r.on)), r.fn, r.args))
		R.take(E)
		spawns(E, r.on, r.sock)
		if len(rs.roots) > 400 {
			R.need(false, "an end of the goroutines the library starts")
			break
		}
	}
	rs.pairUp()
	return rs
}

// watchRegion collects the changes to maps between two lock operations
func (rs *rootSet) watchRegion(m *tmon, st *State, e *Event) {
	switch e.Kind {
	case "mapset", "mapdel":
		if !st.isShared(e.Recv) {
			return
		}
		n := fieldHolding(st, e.Recv)
		if n == "" {
			return
		}
		var old []*V
		if o := m.v["ops "+n]; o != nil {
			old = append(old, o.args...)
		}
		if len(old) >= 2 {
			rs.tangled[n] = true
			return
		}
		m.v["ops "+n] = mkTuple(append(old, mkTuple(e.Args[0], mkBool(e.Kind == "mapset")))...)
	case "lock", "rlock", "unlock", "end":
		var reg map[string]*V
		for k, v := range m.v {
			if len(k) > 4 && k[:4] == "ops " {
				if reg == nil {
					reg = map[string]*V{}
				}
				reg[k[4:]] = v
				delete(m.v, k)
			}
		}
		if reg != nil {
			rs.regions = append(rs.regions, reg)
		}
	}
}

// pairUp finds the maps that always have the same keys
func (rs *rootSet) pairUp() {
	rs.together = map[string]string{}
	var ns []string
	for n, ok := range rs.emptyMap {
		if ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for i, a := range ns {
		for _, b := range ns[:i] {
			if rs.together[b] != "" || ownerOf(a) != ownerOf(b) {
				continue
			}
			same, used := !rs.tangled[a] && !rs.tangled[b], false
			for _, r := range rs.regions {
				if r[a] != r[b] {
					same = false
				}
				used = used || r[a] != nil
			}
			if same && used {
				rs.together[a] = b
				break
			}
		}
	}
}

func ownerOf(field string) string {
	for i := len(field) - 1; i >= 0; i-- {
		if field[i] == '.' {
			return field[:i]
		}
	}
	return ""
}

// fieldLoc: the field of an object that holds the value
func fieldLoc(st *State, v *V, name string) *Loc {
	for l, x := range st.mem {
		if x == v && l.base.k == VAlloc && l.base.t != nil && l.path != "" && pathName(l.base.t, l.path) == name {
			l := l
			return &l
		}
	}
	return nil
}

// ownFunc: written in the repository, or a method value of what is
func (P *Prog) ownFunc(f *ssa.Function) bool {
	if o := f.Object(); o != nil {
		return P.inRepo(o.Pkg())
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Object(); o != nil {
		return P.inRepo(o.Pkg())
	}
	return f.Pkg != nil && P.inRepo(f.Pkg.Pkg)
}

// calledAtOnce: the function calls what it is given before it returns
func calledAtOnce(name string) bool {
	for _, p := range []string{"sort.", "slices.", "maps.", "strings.", "bytes.", "(*sync.", "sync.", "iter."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (C *Checker) serviceRoots(add func(root), cn string, r endRec, conn, sock *V) {
	if r.panicked != nil || len(r.res) == 0 || r.res[0].k != VIface {
		return
	}
	s := r.st.clone()
	s.mon = nil
	s.publish(r.res[0])
	s.note["service"] = r.res[0]
	m := C.P.ownMethod(r.res[0].t, "Send")
	if m == nil || m.Blocks == nil {
		return
	}
	add(root{name: cn + " Send", st: s, fn: mkFunc(m), args: methodArgs(r.res[0].args[0], m), kind: "service", on: conn, sock: sock})
}

// csNew makes central systems with the exported constructor
func (C *Checker) csNew(R *Report) []csSt {
	f := C.P.Func("cs", "New")
	if !R.need(f != nil, "cs.New") {
		return nil
	}
	var out []csSt
	E := C.newRun(&Cfg{})
	for _, r := range C.runAll(E, start(E, nil, mkFunc(f), params(f))) {
		if r.panicked != nil || len(r.res) != 1 || r.res[0].k != VIface {
			continue
		}
		s := r.st
		s.publish(r.res[0])
		s.note["cs"] = r.res[0]
		out = append(out, csSt{s, r.res[0]})
	}
	R.need(len(out) > 0, "a central system made by cs.New")
	return out
}

// fieldOf: the field of a shared object that holds the value, "" if none
func fieldHolding(st *State, v *V) string {
	best := ""
	for l, x := range st.mem {
		if x != v || l.base.k != VAlloc || l.base.t == nil || l.path == "" {
			continue
		}
		if n := pathName(l.base.t, l.path); n != "" && (best == "" || n < best) {
			best = n
		}
	}
	return best
}

// pathName names the field a path such as .3 or .3.1 leads to
func pathName(t types.Type, path string) string {
	name := ""
	for path != "" {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || path[0] != '.' {
			return name
		}
		i, n := 0, 1
		for n < len(path) && path[n] >= '0' && path[n] <= '9' {
			i = i*10 + int(path[n]-'0')
			n++
		}
		if n == 1 || i >= s.NumFields() {
			return name
		}
		name = fieldName(t, i)
		t = s.Field(i).Type()
		path = path[n:]
	}
	return name
}

// openCfg: a configuration for roots in the open world, with what is known
// about fields that are never nil
func (C *Checker) openCfg(R *Report) *Cfg {
	rs := C.rootSet(R)
	return &Cfg{OpenWorld: true,
		FieldNonNil: func(st *State, b *V, t types.Type, i int, old *V) bool {
			n := fieldName(t, i)
			if rs.maybeNil["later "+n] {
				return false
			}
			tr, k := st.truth(mkEq(old, vNil))
			return isRef(old) || k && !tr
		},
		OnMapVal: func(st *State, m, v *V, t types.Type) {
			n := fieldHolding(st, m)
			if n == "" || rs.maybeNil["map "+n] {
				return
			}
			if mt, ok := t.Underlying().(*types.Map); ok && nilable(mt.Elem()) {
				st.nonnil(v)
			}
			mt, _ := t.Underlying().(*types.Map)
			for f, ok := range rs.elemSet[n] {
				if ok && mt != nil && !rs.maybeNil["later "+pathName(pointee(mt.Elem()), f)] {
					st.nonnil(mkApp("ld", v, mkStr(f)))
				}
			}
		},
		MapRep: func(st *State, m *V) *V {
			n := fieldHolding(st, m)
			to := rs.together[n]
			if to == "" {
				return nil
			}
			l := fieldLoc(st, m, n)
			for i := 0; l != nil && i < l.base.t.Underlying().(*types.Struct).NumFields(); i++ {
				if fieldName(l.base.t, i) == to {
					other := st.mem[Loc{l.base, fieldPath(i)}]
					if o := st.objs[other]; o != nil {
						return o.rest
					}
				}
			}
			return nil
		},
		TypeNonNil: func(f string) bool { return rs.typeSet[f] && !rs.maybeNil[f] },
	}
}

// recordPub notes which fields of an object are set when others get to see it
func (rs *rootSet) recordPub(C *Checker, st *State, y *V) {
	if y.k != VAlloc || y.t == nil {
		return
	}
	n, ok := types.Unalias(y.t).(*types.Named)
	if !ok || !C.P.inRepo(n.Obj().Pkg()) {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if !nilable(s.Field(i).Type()) {
			continue
		}
		f := fieldName(n, i)
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			o := st.objs[st.load(Loc{y, fieldPath(i)}, s.Field(i).Type())]
			empty := o != nil && o.rest == nil && len(o.entries) == 0 && !st.E.P.mutable[f]
			if old, seen := rs.emptyMap[f]; seen {
				empty = empty && old
			}
			rs.emptyMap[f] = empty
		}
		if st.knownSet(st.load(Loc{y, fieldPath(i)}, s.Field(i).Type())) {
			rs.typeSet[f] = true
		} else {
			rs.maybeNil[f] = true
		}
	}
}

// knownSet: the value is certainly not nil
func (st *State) knownSet(v *V) bool {
	tr, k := st.truth(mkEq(v, vNil))
	return isRef(v) || k && !tr
}

// recordElem notes which fields of an object are set when it is put into a shared map
func (rs *rootSet) recordElem(st *State, field string, v *V) {
	if v.k != VAlloc || v.t == nil {
		if rs.elemSet[field] != nil || v.k != VAlloc {
			for f := range rs.elemSet[field] {
				rs.elemSet[field][f] = false
			}
		}
		return
	}
	s, ok := v.t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	if rs.elemSet[field] == nil {
		rs.elemSet[field] = map[string]bool{}
	}
	for i := 0; i < s.NumFields(); i++ {
		if !nilable(s.Field(i).Type()) {
			continue
		}
		f := fieldPath(i)
		ok := st.knownSet(st.load(Loc{v, f}, s.Field(i).Type()))
		if old, seen := rs.elemSet[field][f]; seen {
			ok = ok && old
		}
		rs.elemSet[field][f] = ok
	}
}
