package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about locks: who writes to a socket (C13), who touches shared state
// (C14), and what happens while a lock is held (C15).

func init() {
	rules["C13"] = rule{runC13, "Every entry point and goroutine of the library is interpreted with shared state changing under every lock; at each call that writes to a WebSocket the set of exclusively held locks is computed, relative to the connection that owns the socket; the intersection over all these calls must contain a lock. Each write must be one WriteMessage of type text whose data is one whole encoded message."}
	rules["C14"] = rule{runC14, "Lockset analysis: every entry point and goroutine of the library is interpreted; each load, store and map operation on a field of an object that others can see is recorded with the locks held, relative to the object. For every field that is written anywhere, the intersection of the locksets must contain a lock, held exclusively at the writes."}
	rules["C15"] = rule{runC15, "Lock typestate over every path of every entry point and goroutine, including paths on which user functions panic: no lock is taken twice or released unheld, none is held at the end, the order graph of locks has no cycle, and no user function, network input, channel wait or sleep happens while one is held; frames are only written under locks of the same connection."}
}

type entryPoint struct {
	name string
	root
	run func(E *Explorer, mon Monitor) *State
}

// entries: the roots, and the constructors
func (C *Checker) entries(R *Report) []entryPoint {
	var out []entryPoint
	for _, r := range C.rootSet(R).roots {
		if r.kind == "decoder" {
			continue
		}
		r := r
		out = append(out, entryPoint{r.name, r, func(E *Explorer, mon Monitor) *State { return r.st.then(E, mon, r.fn, r.args) }})
	}
	for _, n := range [][2]string{{"cs", "New"}, {"cp", "New"}, {"ws", "Dial"}, {"ws", "Handshake"}} {
		if f := C.P.Func(n[0], n[1]); f != nil {
			f := f
			out = append(out, entryPoint{n[0] + "." + n[1], root{name: n[0] + "." + n[1], kind: "new", fn: mkFunc(f)}, func(E *Explorer, mon Monitor) *State { return start(E, mon, mkFunc(f), params(f)) }})
		}
	}
	return append(out, C.codecs()...)
}

// codecs: encoders and decoders that use a package variable; they run for all
// connections at once
func (C *Checker) codecs() []entryPoint {
	var out []entryPoint
	for _, f := range C.P.AllFuncs() {
		switch f.Name() {
		case "MarshalJSON", "UnmarshalJSON", "MarshalXML", "UnmarshalXML", "MarshalText", "UnmarshalText":
		default:
			continue
		}
		if f.Signature.Recv() == nil || f.Synthetic != "" || !C.P.touchesVar(f, map[*ssa.Function]bool{}) {
			continue
		}
		f, n := f, C.short(f)
		out = append(out, entryPoint{n, root{name: n, kind: "codec", fn: mkFunc(f)}, func(E *Explorer, mon Monitor) *State { return start(E, mon, mkFunc(f), params(f)) }})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// touchesVar: the function, or one it calls, uses a package variable of the
// library that is no error
func (P *Prog) touchesVar(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || fn.Pkg != nil && !P.inRepo(fn.Pkg.Pkg) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				switch x := (*o).(type) {
				case *ssa.Global:
					if x.Pkg != nil && P.inRepo(x.Pkg.Pkg) && !isErrorType(deref(x.Type())) {
						return true
					}
				case *ssa.Function:
					if P.touchesVar(x, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// givenOut: the value is returned as it is
func givenOut(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface:
			if givenOut(x.(ssa.Value), seen) {
				return true
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, l := range *a.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && givenOut(u, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// holders: the locations that hold the value
func (st *State) holders(v *V) []Loc {
	var ls []Loc
	for l, x := range st.mem {
		if x == v && l.path != keptIn {
			ls = append(ls, l)
		}
	}
	for l, x := range st.E.base {
		if x == v && l.path != keptIn && st.mem[l] == nil {
			ls = append(ls, l)
		}
	}
	if v.k == VApp && v.op == "ld" && len(v.args) == 2 && v.args[1].isStr() {
		ls = append(ls, Loc{v.args[0], v.args[1].str()})
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].path != ls[j].path {
			return ls[i].path < ls[j].path
		}
		return ls[i].base.String() < ls[j].base.String()
	})
	return ls
}

func baseType(b *V) types.Type {
	if b.t == nil {
		return nil
	}
	if b.k == VAlloc {
		return b.t
	}
	return pointee(b.t)
}

// locName names a location: the field of its type, or the package variable
func (C *Checker) locName(l Loc) string {
	if l.base.k == VGlobal {
		return "variable " + l.base.g.String()
	}
	t := baseType(l.base)
	if t == nil {
		return ""
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !C.P.inRepo(n.Obj().Pkg()) {
		return ""
	}
	if s := pathName(t, l.path); s != "" {
		return s
	}
	return shortType(t)
}

// lockNames names the held locks as seen from an object: the lock of the
// object itself, of one it points to or is pointed to by, or a global one
func (C *Checker) lockNames(st *State, h HeldLock, of *V) []string {
	var out []string
	l := h.l
	if l.base.k == VGlobal {
		out = append(out, "global "+C.locName(l))
	}
	if l.base == of {
		out = append(out, "own "+C.locName(l))
	}
	if of != nil {
		for _, k := range st.holders(mkPtr(l.base, l.path)) {
			if k.base == of {
				out = append(out, "through "+C.locName(k))
			}
		}
		for _, k := range st.holders(of) {
			if k.base == l.base && l.base != of {
				out = append(out, "owner's "+C.locName(l))
			}
		}
		// an object in a map is used under the lock of what has the map
		if m := st.keeper(of); m != nil {
			for _, k := range st.holders(m) {
				if k.base == l.base && l.base != of {
					out = append(out, "owner's "+C.locName(l))
				}
			}
		}
	}
	return out
}

// keeper: the map an object is known to be in
func (st *State) keeper(of *V) *V {
	if of.k == VApp && of.op == "mapval" && of.args[0].k == VApp && of.args[0].op == "mapcontent" {
		return of.args[0].args[0]
	}
	return st.mem[Loc{of, keptIn}]
}

// lockset: the names of the locks held, with whether exclusively
func (C *Checker) lockset(st *State, of *V) map[string]bool {
	out := map[string]bool{}
	for _, h := range st.heldNow() {
		for _, n := range C.lockNames(st, h, of) {
			if !h.read {
				out[n] = true
			} else if !out[n] {
				out[n] = false
			}
		}
	}
	return out
}

// ---- C13

func runC13(C *Checker, R *Report) {
	type site struct {
		set map[string]bool
		in  ssa.Instruction
		fn  string
		tr  []string
	}
	var sites []site
	seen := map[string]bool{}
	for _, r := range C.entries(R) {
		name := r.name
		E := C.newRun(C.openCfg(R))
		mon := newMon(func(m *tmon, st *State, e *Event) {
			if e.Kind != "call" {
				return
			}
			if e.Name == "(*github.com/gorilla/websocket.Upgrader).Upgrade" || strings.HasPrefix(e.Name, "(*github.com/gorilla/websocket.Dialer).Dial") {
				m.v["made"] = e.Res[0]
				return
			}
			if !isSockWrite(e.Name) || len(e.Args) == 0 {
				return
			}
			sock := e.Args[0]
			// the connection the socket belongs to
			var conns []*V
			fresh := false
			for _, l := range st.holders(sock) {
				if t := baseType(l.base); t != nil && types.Identical(t, C.connType()) {
					conns = append(conns, l.base)
					fresh = fresh || l.base.k == VAlloc && !st.isPub(l.base)
				}
			}
			if fresh || len(conns) == 0 && sock == m.v["made"] {
				return // nobody else has it yet
			}
			R.count("socket_operations", 1)
			set := map[string]bool{}
			for _, c := range conns {
				for n, x := range C.lockset(st, c) {
					if x {
						set[n] = true
					}
				}
			}
			k := fmt.Sprint(e.Instr.Pos(), set)
			if !seen[k] {
				seen[k] = true
				sites = append(sites, site{set, e.Instr, C.short(e.Fn), st.traceList()})
				R.sample(fmt.Sprintf("%s in %s under %v", shortName(e.Name), C.short(e.Fn), keys(set)))
			}
			if len(set) == 0 {
				st.violate("C13", C.short(e.Fn), fmt.Sprintf("%s is called in %s without a lock of that connection (from %s)", shortName(e.Name), C.short(e.Fn), name), posOf(e.Instr))
			}
			if !isMessageWrite(e.Name) {
				return
			}
			switch e.Name {
			case wsPkg + "WriteMessage":
				if len(e.Args) != 3 {
					return
				}
				if c := st.constOf(e.Args[1]); c == nil || !c.isInt() || c.int() != 1 {
					st.violate("C13", C.short(e.Fn), fmt.Sprintf("a message is written as a WebSocket message of type %v, not as text", e.Args[1]), posOf(e.Instr))
				}
				if d := st.bytesTerm(e.Args[2]); d.k != VApp || d.op != "nn:json" {
					st.violate("C13", C.short(e.Fn), fmt.Sprintf("what is written as one frame is not one whole encoded message: %v", d), posOf(e.Instr))
				}
			case wsPkg + "WriteJSON":
			default:
				st.violate("C13", C.short(e.Fn), "a message is written with "+shortName(e.Name)+", in parts or of another kind", posOf(e.Instr))
			}
		})
		C.runAll(E, r.run(E, mon))
		R.take(E)
		R.count("entry_points", 1)
	}
	R.need(len(sites) > 0, "a write to a socket")
	if len(sites) == 0 {
		return
	}
	common := map[string]bool{}
	for n := range sites[0].set {
		common[n] = true
	}
	for _, s := range sites[1:] {
		for n := range common {
			if !s.set[n] {
				delete(common, n)
			}
		}
		if len(common) == 0 && len(s.set) > 0 {
			R.add(s.fn, fmt.Sprintf("the socket is written under %v in %s and under %v in %s: no common lock", keys(sites[0].set), sites[0].fn, keys(s.set), s.fn), s.in.Pos(), s.tr)
			return
		}
	}
	R.sample("common lock: " + strings.Join(keys(common), ", "))
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- C14

type access struct {
	write bool
	set   map[string]bool
	in    ssa.Instruction
	fn    string
	from  string
	tr    []string
	alone bool // by the one goroutine that owns the object
	all   bool // of what belongs to no object: a package variable
}

func runC14(C *Checker, R *Report) {
	acc := map[string][]access{}
	seen := map[string]bool{}
	wrote := map[string]bool{}
	inside := map[string]bool{} // functions run as part of something else
	guarded := func(pkg *types.Package) bool {
		if pkg == nil || !C.P.inRepo(pkg) {
			return false
		}
		switch p := C.P.rel(pkg); {
		case p == "cs" || p == "cp" || p == "ws" || p == "soap" || strings.HasPrefix(p, "internal/service"):
			return true
		}
		return false
	}
	pkgOf := func(l Loc) *types.Package {
		if l.base.k == VGlobal {
			return l.base.g.Pkg.Pkg
		}
		if n, ok := types.Unalias(baseType(l.base)).(*types.Named); ok {
			return n.Obj().Pkg()
		}
		return nil
	}
	ents := C.entries(R)
	// package variables of the messages, and what they lead to, serve all
	// connections at once
	shared := func(st *State, l Loc) bool {
		pkg := pkgOf(l)
		if guarded(pkg) {
			return true
		}
		return pkg != nil && C.P.inRepo(pkg) && strings.HasPrefix(C.P.rel(pkg), "messages") && (l.base.k == VGlobal || st.E.basePub[l.base])
	}
	// methods of connections that the library itself runs are seen there,
	// with the goroutines that really run them
	sort.SliceStable(ents, func(i, j int) bool { return ents[i].kind != "connmethod" && ents[j].kind == "connmethod" })
	for _, r := range ents {
		f, _ := calleeOf(r.fn)
		if r.kind == "connmethod" && f != nil && inside[f.String()] {
			continue
		}
		name := r.name
		E := C.newRun(C.openCfg(R))
		record := func(m *tmon, st *State, e *Event, l Loc, what string, write bool) {
			if !st.isShared(l.base) {
				return
			}
			if r.kind == "codec" {
				// what it was given is its caller's
				b := l.base
				for len(b.args) > 0 && (b.k == VPtr || b.k == VApp && b.op == "ld") {
					b = b.args[0]
				}
				if b.k != VGlobal && !st.E.basePub[b] {
					return
				}
			}
			set := C.lockset(st, l.base)
			for k, v := range st.mem {
				// what a sync.Once did is over before its Do returns
				if strings.HasSuffix(k.path, ".once") && v == vTrue {
					n := mkPtr(k.base, k.path).String()
					set["once "+n] = st.note[onceNote+n] != nil
				}
			}
			a := access{write: write, set: set, in: e.Instr, fn: C.short(e.Fn), from: name, tr: st.traceList()}
			// an object made by this very goroutine, or one that only one goroutine runs for
			if l.base.k == VAlloc && r.kind != "new" {
				if r.st == nil || !r.st.isPub(l.base) {
					a.alone = true
				}
			}
			a.all = l.base.k == VGlobal || st.E.basePub[l.base]
			k := fmt.Sprint(what, write, e.Instr.Pos(), set, name)
			if write {
				wrote[what] = true
			}
			R.count("accesses", 1)
			if !seen[k] {
				seen[k] = true
				acc[what] = append(acc[what], a)
			}
		}
		mon := newMon(func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "enter":
				inside[e.Name] = true
			case "load", "store":
				if e.Loc.base == nil || !shared(st, e.Loc) || isSync(e.Type) {
					return
				}
				if n := C.locName(e.Loc); n != "" {
					record(m, st, e, e.Loc, n, e.Kind == "store")
				}
			case "mapget", "mapset", "mapdel", "maprange":
				done := false
				for _, l := range st.holders(e.Recv) {
					n := ""
					if shared(st, l) {
						n = C.locName(l)
					}
					if n != "" && !done && st.isShared(l.base) {
						record(m, st, e, l, "content of "+n, e.Kind == "mapset" || e.Kind == "mapdel")
						done = true
					}
				}
				if !done && e.Recv.k == VAlloc && st.isPub(e.Recv) && (e.Kind == "mapset" || e.Kind == "mapdel") && len(st.heldNow()) == 0 && !inMessages(C, e.Fn) {
					st.violate("C14", C.short(e.Fn), fmt.Sprintf("a map that others can see is changed without a lock: %v (from %s)", e.Recv, name), posOf(e.Instr))
				}
			case "bufuse":
				ls := st.holders(e.Recv)
				if e.Recv.k == VPtr || e.Recv.k == VGlobal {
					ls = []Loc{e.Recv.loc()}
				}
				for _, l := range ls {
					n := ""
					if shared(st, l) {
						n = C.locName(l)
					}
					if n == "" || !st.isShared(l.base) {
						continue
					}
					R.count("buffer_uses", 1)
					record(m, st, e, l, "content of "+n, e.Block)
					if c, ok := e.Instr.(*ssa.Call); ok && !e.Block && givenOut(c, map[ssa.Value]bool{}) {
						st.violate("C14", C.short(e.Fn), C.short(e.Fn)+" gives out the content of "+n+", which others change", posOf(e.Instr))
					}
					break
				}
			}
		})
		C.runAll(E, r.run(E, mon))
		R.take(E)
		R.count("entry_points", 1)
	}
	C.c14captured(R)
	var names []string
	for n := range acc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		as := acc[n]
		R.count("fields", 1)
		if !wrote[n] {
			continue
		}
		R.count("written_fields", 1)
		if C.confined(as) {
			R.sample(n + ": used by one goroutine only")
			continue
		}
		common := map[string]bool{}
		for i, a := range as {
			for l := range a.set {
				if i == 0 {
					common[l] = true
				}
			}
			for l := range common {
				if _, ok := a.set[l]; !ok {
					delete(common, l)
				}
			}
		}
		if len(common) > 0 {
			ok := false
			for l := range common {
				excl := true
				for _, a := range as {
					if a.write && !a.set[l] {
						excl = false
					}
				}
				ok = ok || excl
			}
			if ok {
				R.sample(n + " under " + strings.Join(keys(common), ", "))
				continue
			}
			for _, a := range as {
				if a.write {
					R.add(a.fn, fmt.Sprintf("%s is written in %s under a lock held for reading only", n, a.fn), a.in.Pos(), a.tr)
				}
			}
			continue
		}
		// name the accesses outside the lock that most of them hold
		votes := map[string]int{}
		for _, a := range as {
			for l := range a.set {
				votes[l]++
			}
		}
		best := ""
		for _, l := range keys(boolKeys(votes)) {
			if best == "" || votes[l] > votes[best] {
				best = l
			}
		}
		for _, a := range as {
			if _, ok := a.set[best]; ok && best != "" {
				continue
			}
			how := "read"
			if a.write {
				how = "written"
			}
			lock := "any lock"
			if best != "" {
				lock = best
			}
			R.add(a.fn, fmt.Sprintf("%s is %s in %s without %s, while other goroutines use it (from %s)", n, how, a.fn, lock, a.from), a.in.Pos(), a.tr)
		}
	}
	R.need(R.counts["written_fields"] > 0, "a shared field that is written")
}

func boolKeys(m map[string]int) map[string]bool {
	n := map[string]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

// confined: all accesses are by one goroutine of which there is one per object
func (C *Checker) confined(as []access) bool {
	if len(as) == 0 {
		return true
	}
	from := as[0].from
	for _, a := range as {
		if a.from != from || a.all || !a.alone && !C.singleRoot(from) {
			return false
		}
	}
	return true
}

// singleRoot: a goroutine that is started once per object: by the
// constructor of a charge point, or the one reader of a connection (C29)
func (C *Checker) singleRoot(name string) bool {
	for _, r := range C.rs.roots {
		if r.name != name || r.kind != "go" {
			continue
		}
		f, _ := calleeOf(r.fn)
		if f == nil {
			return false
		}
		if C.P.reaches(f, isSockRead) {
			return true
		}
		for p := f; p != nil; p = p.Parent() {
			if p.RelString(nil) == C.P.Func("cp", "New").RelString(nil) {
				return true
			}
		}
		return C.startedOnlyBy(f, C.P.Func("cp", "New"))
	}
	return false
}

// startedOnlyBy: every go statement that starts f is in what the constructor runs
func (C *Checker) startedOnlyBy(f, by *ssa.Function) bool {
	if by == nil {
		return false
	}
	n := 0
	for _, g := range C.P.AllFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				if _, isGo := in.(*ssa.Go); !isGo {
					return false
				}
				n++
				if !C.P.reaches(by, func(s string) bool { return s == g.String() }) {
					return false
				}
				if inLoop(b) {
					return false
				}
			}
		}
	}
	return n == 1
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

func inMessages(C *Checker, fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && strings.HasPrefix(C.P.rel(fn.Pkg.Pkg), "messages")
}

// isSync: a lock or another type that is safe by itself
func isSync(t types.Type) bool {
	if t == nil {
		return false
	}
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// ---- C15

// waitsForNet: external calls that wait for a peer or for time
func waitsForNet(name string) string {
	switch {
	case isSockRead(name):
		return "a frame is read from the peer"
	case strings.HasPrefix(name, "(*github.com/gorilla/websocket.Dialer).Dial"):
		return "a connection is dialled"
	case strings.HasSuffix(name, "websocket.Upgrader).Upgrade"):
		return "a connection is upgraded"
	case strings.HasPrefix(name, "(*net/http.Client)."), name == "net/http.Get", name == "net/http.Post", name == "net/http.PostForm", name == "net/http.Head":
		return "an HTTP request is made"
	case strings.HasPrefix(name, "net/http.ListenAndServe"), strings.HasPrefix(name, "(*net/http.Server).ListenAndServe"), strings.HasPrefix(name, "(*net/http.Server).Serve"), name == "(*net/http.Server).Shutdown":
		return "an HTTP server runs"
	case name == "time.Sleep":
		return "the goroutine sleeps"
	case name == "(*sync.WaitGroup).Wait", name == "(*sync.Cond).Wait":
		return "the goroutine waits"
	case strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "(*net.Dialer).Dial"):
		return "a connection is dialled"
	case name == "io.ReadAll", name == "io/ioutil.ReadAll", name == "net/http/httputil.DumpRequest", name == "net/http/httputil.DumpResponse":
		return "a body is read from the peer"
	case name == "(net/http.ResponseWriter).Write":
		return "a response is written to the peer"
	}
	return ""
}

func runC15(C *Checker, R *Report) {
	type edge struct{ from, to string }
	type where struct {
		in  ssa.Instruction
		fn  string
		tr  []string
		st2 bool
	}
	edges := map[edge]where{}
	writeLocks := map[string]bool{} // locks under which sockets are written
	var nested []struct {           // locks taken while one of another object is held
		outer, inner string
		w            where
	}
	writtenIn := map[string]where{}
	seen := map[string]bool{}
	lockName := func(l Loc) string {
		if n := C.locName(l); n != "" {
			return n
		}
		for v := l.base; v.k == VApp && len(v.args) > 0; v = v.args[0] {
			if v.op == "ld" && v.args[1].isStr() {
				return "lock in " + v.args[1].str()
			}
		}
		return "lock " + l.base.op + l.path
	}
	for _, r := range C.entries(R) {
		name := r.name
		cfg := C.openCfg(R)
		cfg.UserPanics = true
		E := C.newRun(cfg)
		R.count("entry_points", 1)
		mon := newMon(func(m *tmon, st *State, e *Event) {
			held := st.heldNow()
			bad := func(what string) {
				h := held[len(held)-1]
				st.violate("C15", C.short(e.Fn), fmt.Sprintf("%s in %s while %s is held (from %s)", what, C.short(e.Fn), lockName(h.l), name), posOf(e.Instr))
			}
			switch e.Kind {
			case "relock":
				st.violate("C15", C.short(e.Fn), fmt.Sprintf("%s takes %s, which it holds already (from %s)", C.short(e.Fn), lockName(e.Loc), name), posOf(e.Instr))
			case "badunlock":
				st.violate("C15", C.short(e.Fn), fmt.Sprintf("%s releases %s, which is not held (from %s)", C.short(e.Fn), lockName(e.Loc), name), posOf(e.Instr))
			case "lock", "rlock":
				R.count("lock_operations", 1)
				for _, h := range held {
					if h.l == e.Loc {
						continue
					}
					w := where{in: e.Instr, fn: C.short(e.Fn)}
					k := edge{lockName(h.l), lockName(e.Loc)}
					if _, ok := edges[k]; !ok {
						w.tr = st.traceList()
						edges[k] = w
					}
					if h.l.base != e.Loc.base {
						if k := fmt.Sprint("n", k, e.Instr.Pos()); !seen[k] {
							seen[k] = true
							w.tr = st.traceList()
							nested = append(nested, struct {
								outer, inner string
								w            where
							}{lockName(h.l), lockName(e.Loc), w})
						}
					}
				}
			case "end":
				R.count("paths", 1)
				for _, h := range held {
					how := ""
					if e.Recv != nil {
						how = " after a panic"
					}
					st.violate("C15", C.short(h.instr.Parent()), fmt.Sprintf("a path of %s ends%s without releasing %s, taken in %s", name, how, lockName(h.l), C.short(h.instr.Parent())), posOf(h.instr))
				}
			}
			if len(held) == 0 {
				return
			}
			switch e.Kind {
			case "user":
				if e.Name != "go" {
					bad("a function of the user is called")
				}
			case "recv":
				if !st.chanClosed(e.Chan) {
					bad("a receive")
				}
			case "send":
				if ok, _ := C.hasRoom(R, m, st, e.Chan); !ok {
					bad("a send that can wait")
				}
				st.sentOn(e.Chan)
			case "selsend":
				st.sentOn(e.Chan)
			case "select":
				if e.Block {
					ok := false
					for _, c := range e.Cases {
						if c.Send {
							r, _ := C.hasRoom(R, m, st, c.Ch)
							ok = ok || r
						}
					}
					if !ok {
						bad("a select that can wait")
					}
				}
			case "call":
				if w := waitsForNet(e.Name); w != "" {
					bad(w)
				} else if ci, ok := e.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					if w := C.callWaits(ci.Common(), map[*ssa.Function]bool{}); w != "" {
						bad(shortName(e.Name) + " is called, which can wait (" + w + "),")
					}
				}
				if isMessageWrite(e.Name) && len(e.Args) > 0 {
					for _, h := range held {
						own := false
						for _, l := range st.holders(e.Args[0]) {
							if l.base == h.l.base {
								own = true
							}
							for _, k := range st.holders(mkPtr(h.l.base, h.l.path)) {
								own = own || k.base == l.base
							}
						}
						if !own {
							st.violate("C15", C.short(e.Fn), fmt.Sprintf("a frame is written to a peer while %s, which is not of that connection, is held (from %s)", lockName(h.l), name), posOf(e.Instr))
						}
						n := lockName(h.l)
						if _, ok := writtenIn[n]; !ok {
							writtenIn[n] = where{in: e.Instr, fn: C.short(e.Fn), tr: st.traceList()}
						}
						writeLocks[n] = true
					}
				}
			}
			watchTaken(m, st, e)
		})
		C.runAll(E, r.run(E, mon))
		R.take(E)
	}
	// taking in a reply does not need a lock under which something is
	// written: a peer that does not read could stop what it sends
	read := C.connMethod(R, "ReadMessage")
	for _, cs := range C.connStates(R, "Dial") {
		if read == nil {
			break
		}
		for _, sh := range []frameShape{shapeResult, shapeError} {
			sh := sh
			E := C.newRun(C.openCfg(R))
			E.Cfg.OnGo = C.sessionGo
			mon := newMon(func(m *tmon, st *State, e *Event) {
				assumeFrame(m, st, e, sh)
				if st.done || e.Kind != "lock" && e.Kind != "rlock" {
					return
				}
				R.count("reply_locks", 1)
				if w, ok := writtenIn[lockName(e.Loc)]; ok {
					st.violate("C15", w.fn, fmt.Sprintf("%s writes to a peer while it holds %s, which taking in a reply needs", w.fn, lockName(e.Loc)), posOf(w.in))
				}
			})
			C.runAll(E, cs.st.then(E, mon, mkFunc(read), []*V{cs.conn}))
			R.take(E)
		}
		break
	}
	for _, n := range nested {
		if writeLocks[n.inner] {
			R.add(n.w.fn, fmt.Sprintf("%s takes %s, under which frames are written, while it holds %s of another object: a slow peer blocks the others", n.w.fn, n.inner, n.outer), posOf(n.w.in), n.w.tr)
		}
	}
	// cycles
	succ := map[string][]string{}
	var es []edge
	for e := range edges {
		succ[e.from] = append(succ[e.from], e.to)
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from+es[i].to < es[j].from+es[j].to })
	for _, e := range es {
		R.count("order_edges", 1)
		R.sample(e.from + " before " + e.to)
		seen := map[string]bool{}
		work := []string{e.to}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if x == e.from {
				w := edges[e]
				R.add(w.fn, fmt.Sprintf("%s is taken while %s is held in %s, and elsewhere in the opposite order", e.to, e.from, w.fn), posOf(w.in), w.tr)
				break
			}
			if !seen[x] {
				seen[x] = true
				work = append(work, succ[x]...)
			}
		}
	}
	R.need(R.counts["lock_operations"] > 0, "a lock")
}

var _ = token.NoPos

// implementations of an interface method in the repository
func (C *Checker) implementations(com *ssa.CallCommon) []*ssa.Function {
	it, ok := com.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range C.P.AllFuncs() {
		if f.Name() != com.Method.Name() || f.Signature.Recv() == nil || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		t := f.Signature.Recv().Type()
		if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
			out = append(out, f)
		}
	}
	return out
}

// mayWait: something in the function, or in what it calls, can wait; the
// text says what
func (C *Checker) mayWait(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if f == nil || seen[f] || f.Blocks == nil {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return "a send in " + C.short(f)
			case *ssa.Select:
				if x.Blocking {
					return "a select in " + C.short(f)
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "a receive in " + C.short(f)
				}
			case *ssa.Call:
				if w := C.callWaits(&x.Call, seen); w != "" {
					return w
				}
			case *ssa.Defer:
				if w := C.callWaits(&x.Call, seen); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func (C *Checker) callWaits(c *ssa.CallCommon, seen map[*ssa.Function]bool) string {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil && C.P.inRepo(c.Method.Pkg()) {
			for _, g := range C.implementations(c) {
				if w := C.mayWait(g, seen); w != "" {
					return w
				}
			}
		}
		return waitsForNet(c.Method.FullName())
	}
	g := c.StaticCallee()
	if g == nil {
		return ""
	}
	if w := waitsForNet(g.String()); w != "" {
		return w
	}
	if isMessageWrite(g.String()) {
		return "a frame is written"
	}
	if g.Pkg != nil && C.P.inRepo(g.Pkg.Pkg) {
		return C.mayWait(g, seen)
	}
	return ""
}
