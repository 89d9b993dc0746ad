package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Event is what a property monitor sees of the analysed code.
type Event struct {
	Kind   string // call, user, lock, unlock, rlock, runlock, load, store, mapget, mapset, mapdel, send, recv, select, close, go, panic, maypanic, ret, end, makechan
	Name   string
	Recv   *V
	Args   []*V
	Res    []*V
	Loc    Loc
	Type   types.Type
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Chan   *V
	Val    *V
	Cases  []SelCase
	Chosen int
	Block  bool
}

type SelCase struct {
	Send bool
	Ch   *V
	Val  *V
	Pos  token.Pos
}

type Monitor interface {
	Clone() Monitor
	Event(st *State, ev *Event)
	Key(c *canon)
}

type Cfg struct {
	// OnCall may take over a call: it returns handled and the results
	OnCall func(st *State, name string, recv *V, args []*V, in ssa.Instruction, com *ssa.CallCommon) (bool, []*V)
	// OnGo: 0 only the event, 1 run in place as part of this exploration, 2 a goroutine of the model
	OnGo func(st *State, fn *V, args []*V, in ssa.Instruction) int
	// OnRecv gives the value received
	OnRecv func(st *State, ch *V, t types.Type) *V
	// UserPanics: functions supplied by the user may also panic
	UserPanics bool
	// OpenWorld: shared fields may change whenever a lock is taken
	OpenWorld bool
	// OnEnd is called when a goroutine of the model ends
	OnEnd func(st *State, t *Thread, res []*V)
	// Switch: other goroutines of the model may run before this instruction
	Interleave bool
	// NoInline: functions of the repository to treat as opaque
	NoInline func(fn *ssa.Function) bool
	// EnvCancel: contexts that come from outside may be cancelled at any time
	EnvCancel bool
	// DecodeOpaque: json decoding into values of types with own decoders stays opaque
	MaxStates int
	// OnBlock is called at the entry of every block with several predecessors
	OnStable     func(st *State)
	RecordSpawns bool
	// FieldNonNil: the shared field is not nil whatever others do
	FieldNonNil func(st *State, b *V, t types.Type, i int, old *V) bool
	// OnMapVal adds what is known about a value found in a shared map
	OnMapVal func(st *State, m, v *V, t types.Type)
	// MapRep: the unknown content that decides which keys are present, for
	// maps that are always changed together
	MapRep func(st *State, m *V) *V
	// TypeNonNil: the field is never nil in an object others can see
	TypeNonNil func(field string) bool
	NoDedup    bool
	Init       bool
}

type Viol struct {
	Rule  string
	Key   string // construct, for the known findings
	Msg   string
	Pos   token.Pos
	Trace []string
}

type Explorer struct {
	P         *Prog
	Cfg       *Cfg
	seen      map[string]bool
	work      []*State
	Viols     map[string]*Viol
	order     []string
	base      map[Loc]*V
	baseObjs  map[*V]*Obj
	basePub   map[*V]bool
	Steps     int
	States    int
	Merged    int
	Funcs     map[*ssa.Function]bool
	fnIDs     map[*ssa.Function]int
	Limits    []string
	Spawns    []Spawn
	spawnSeen map[string]bool
	MaybeNil  bool
}

type Spawn struct {
	st   *State
	fn   *V
	args []*V
	in   ssa.Instruction
}

func newExplorer(P *Prog, cfg *Cfg) *Explorer {
	E := &Explorer{P: P, Cfg: cfg, seen: map[string]bool{}, Viols: map[string]*Viol{}, Funcs: map[*ssa.Function]bool{}, fnIDs: map[*ssa.Function]int{}, spawnSeen: map[string]bool{}}
	if cfg.MaxStates == 0 {
		cfg.MaxStates = 400000
	}
	return E
}

func (E *Explorer) fnID(f *ssa.Function) int {
	if x, ok := E.fnIDs[f]; ok {
		return x
	}
	E.fnIDs[f] = len(E.fnIDs) + 1
	return E.fnIDs[f]
}

// zeroGlobal: package variables of the repository start as zero; those that
// are assigned later are unknown unless this is the initialisation
func (E *Explorer) zeroGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !E.P.inRepo(g.Pkg.Pkg) {
		return false
	}
	return E.Cfg.Init || !E.P.mutable["global "+g.String()]
}

func (st *State) note1(s string) { st.trace = &Trace{st.trace, s} }

func (st *State) traceList() []string {
	var r []string
	for t := st.trace; t != nil; t = t.up {
		r = append(r, t.text)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	if len(r) > 60 {
		r = r[len(r)-60:]
	}
	return r
}

// Report a violation found on this path.
func (st *State) violate(rule, key, msg string, pos token.Pos) {
	st.pend = append(st.pend, &Viol{Rule: rule, Key: key, Msg: msg, Pos: pos, Trace: st.traceList()})
}

func (E *Explorer) flush(st *State) {
	for _, v := range st.pend {
		k := v.Rule + "|" + v.Key + "|" + v.Msg
		if E.Viols[k] == nil {
			E.Viols[k] = v
			E.order = append(E.order, k)
		}
	}
	st.pend = nil
}

func (E *Explorer) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := E.P.SSA.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, E.P.Dir+"/") + ":" + strconv.Itoa(q.Line)
}

func (E *Explorer) limit(s string) {
	for _, l := range E.Limits {
		if l == s {
			return
		}
	}
	E.Limits = append(E.Limits, s)
}

var verbose = os.Getenv("CHECK_DEBUG") != ""

// Explore from the given states to a fixpoint.
func (E *Explorer) Explore(sts ...*State) {
	E.work = append(E.work, sts...)
	for len(E.work) > 0 {
		st := E.work[len(E.work)-1]
		E.work = E.work[:len(E.work)-1]
		st.E = E
		E.States++
		if E.States > E.Cfg.MaxStates {
			E.limit("state limit reached")
			E.work = nil
			return
		}
		E.run(st)
	}
}

func (E *Explorer) run(st *State) {
	for !st.done {
		if E.step(st) {
			return
		}
		if E.Steps%20000 == 0 && E.exhausted() {
			E.work = nil
			return
		}
	}
}

// checkStart: when the decision of the current property began
var checkStart = time.Now()

// exhausted: the analysis of this code takes too much time or memory
func (E *Explorer) exhausted() bool {
	if time.Since(checkStart) > 780*time.Second {
		E.limit("it takes too long")
		return true
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 9<<30 {
		E.limit("it takes too much memory")
		return true
	}
	return false
}

// step executes one instruction; true: this state is finished (ended, merged
// with an earlier one, or split into successors)
func (E *Explorer) step(st *State) bool {
	E.Steps++
	th := st.th()
	if th.ended {
		return E.threadEnded(st)
	}
	f := th.frames[len(th.frames)-1]
	in := f.block.Instrs[f.pc]
	if E.Cfg.Interleave && !st.granted && st.switchPoint(in) {
		return E.schedule(st, in)
	}
	var pre *State
	if mayFork(in) || th.panicking != nil {
		pre = st.clone()
	}
	req := E.try(st, func() { st.exec(in) })
	if req == nil {
		st.granted = false
		st.choices, st.cpos = nil, 0
		E.flush(st)
		if st.done {
			return true
		}
		if st.th().ended {
			return E.threadEnded(st)
		}
		f = st.th().frames[len(st.th().frames)-1]
		if f.pc == 0 && len(f.block.Preds) > 1 {
			if dbgBlocks != nil {
				dbgBlocks[fmt.Sprint(f.fn.Name(), f.block.Index)]++
				if E.States%500 == 0 {
					fmt.Fprintln(os.Stderr, E.States, E.Merged, len(E.work), dbgBlocks, len(st.mem), len(st.objs), len(st.facts), len(st.iv), len(st.corr), len(st.pub))
					for a, b := range st.facts {
						fmt.Fprintln(os.Stderr, a, b)
					}
				}
			}
			if f.info.heads[f.block.Index] {
				st.widen()
			}
			if !E.Cfg.NoDedup {
				k := st.key()
				if E.seen[k] {
					E.Merged++
					return true
				}
				E.seen[k] = true
			}
			if E.Cfg.OnStable != nil {
				E.Cfg.OnStable(st)
				E.flush(st)
			}
		}
		return false
	}
	if pre == nil {
		panic(fmt.Sprintf("fork at unprepared instruction %T %s in %s", in, in, f.fn))
	}
	E.split(st, pre, req, in)
	return true
}

func (E *Explorer) split(st, pre *State, req interface{}, in ssa.Instruction) {
	switch r := req.(type) {
	case forkBool:
		for _, b := range []bool{false, true} {
			n := pre.clone()
			n.choices = append([]int(nil), pre.choices...)
			if n.assume(r.c, b) {
				if in != nil {
					if _, ok := in.(*ssa.If); ok {
						n.markFork(in.(*ssa.If))
					}
				}
				n.note1(fmt.Sprintf("%s: %v is %v", E.pos(posOf(in)), r.c, b))
				E.work = append(E.work, n)
			}
		}
	case forkN:
		for i := r.n - 1; i >= 0; i-- {
			n := pre.clone()
			n.choices = append(append([]int(nil), pre.choices...), i)
			n.note1(fmt.Sprintf("%s: alternative %d of %d", E.pos(posOf(in)), i+1, r.n))
			E.work = append(E.work, n)
		}
	}
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if i, ok := in.(*ssa.If); ok {
		if i.Cond.Pos().IsValid() {
			return i.Cond.Pos()
		}
	}
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	at := -1
	for i, x := range b.Instrs {
		if x == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	for i := at; i < len(b.Instrs) && i >= 0; i++ {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

func (E *Explorer) try(st *State, f func()) (req interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkBool, forkN:
				req = r
			default:
				if os.Getenv("CHECK_DEBUG") != "" {
					for _, t := range st.traceList() {
						fmt.Fprintln(os.Stderr, t)
					}
					th := st.th()
					for _, f := range th.frames {
						fmt.Fprintln(os.Stderr, f.fn, f.block.Index, f.pc)
					}
				}
				panic(r)
			}
		}
	}()
	f()
	return nil
}

func mayFork(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.If, *ssa.Lookup, *ssa.TypeAssert, *ssa.Select, *ssa.Next, *ssa.MapUpdate, *ssa.Send, *ssa.RunDefers, *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Return, *ssa.Panic, *ssa.Go, *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		return true
	case *ssa.BinOp:
		return false
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil && c.Blocks != nil && !isModelled(c.String()) {
			return true
		}
		return true
	}
	return false
}

// ---- frames

func (st *State) val(f *Frame, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		return mkConst(x.Value)
	case *ssa.Function:
		return mkFunc(x)
	case *ssa.Global:
		return mkGlobal(x)
	case *ssa.Builtin:
		return mkApp("builtin " + x.Name())
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, f.fn))
	}
	r := f.regs[i]
	if r == nil {
		panic(fmt.Sprintf("register %s of %v not set", v.Name(), f.fn))
	}
	return r
}

func (st *State) set(f *Frame, v ssa.Value, x *V) { f.regs[f.info.idx[v]] = x }

func (st *State) push(fn *ssa.Function, args, bind []*V, call ssa.Instruction, onRet func(*State, []*V) []*V, hook string) *Frame {
	th := st.th()
	if len(th.frames) > 60 {
		st.E.limit("call depth at " + fn.String())
		st.done = true
		return nil
	}
	fi := st.E.P.info(fn)
	nf := &Frame{owner: st, fn: fn, info: fi, regs: make([]*V, fi.n), block: fn.Blocks[0], call: call, onRet: onRet, hookID: hook, visits: map[int]int{}, forked: map[int]bool{}}
	st.E.Funcs[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			nf.regs[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			nf.regs[fi.idx[p]] = bind[i]
		}
	}
	th.frames = append(th.frames, nf)
	return nf
}

// start a new model goroutine that calls fn
func (st *State) spawnThread(name string, fn *V, args []*V) *Thread {
	t := &Thread{name: name, id: len(st.threads)}
	st.threads = append(st.threads, t)
	old := st.cur
	st.cur = len(st.threads) - 1
	f, bind := calleeOf(fn)
	st.push(f, args, bind, nil, nil, "root")
	st.cur = old
	return t
}

func calleeOf(fn *V) (*ssa.Function, []*V) {
	switch fn.k {
	case VFunc:
		return fn.fn, nil
	case VClosure:
		return fn.fn, fn.args
	}
	return nil, nil
}

func (st *State) jump(f *Frame, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == f.block {
			pi = i
			break
		}
	}
	var nv []*V
	var ph []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		nv = append(nv, st.val(f, p.Edges[pi]))
	}
	for i, p := range ph {
		st.set(f, p, nv[i])
	}
	f.prev, f.block, f.pc = f.block, to, len(ph)
	if len(ph) > 0 {
		f.pc = 0
	}
	if f.info.heads[to.Index] {
		f.visits[to.Index]++
	}
}

// markFork remembers that the exit of a counting loop is not decided
func (st *State) markFork(in *ssa.If) {
	f := st.top()
	b := in.Block()
	for h := range f.info.heads {
		hb := f.fn.Blocks[h]
		if !hb.Dominates(b) {
			continue
		}
		if dependsOnPhi(in.Cond, hb, 4) {
			f.forked[h] = true
		}
	}
}

// markNext remembers that a loop over a map or string ends at an unknown point
func (st *State) markNext(x *ssa.Next) {
	f := st.top()
	best := -1
	for h := range f.info.heads {
		hb := f.fn.Blocks[h]
		if hb.Dominates(x.Block()) && (best < 0 || f.fn.Blocks[best].Dominates(hb)) {
			best = h
		}
	}
	if best >= 0 {
		f.forked[best] = true
	}
}

// uncounted: no exit of the loop depends on what it counts
func (fi *fnInfo) uncounted(fn *ssa.Function, h int) bool {
	if c, ok := fi.counted[h]; ok {
		return !c
	}
	hb := fn.Blocks[h]
	c := false
	for _, b := range fn.Blocks {
		if !hb.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				c = true
			case *ssa.If:
				c = c || dependsOnPhi(x.Cond, hb, 6)
			}
		}
	}
	fi.counted[h] = c
	return !c
}

func dependsOnPhi(v ssa.Value, h *ssa.BasicBlock, d int) bool {
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == h
	case *ssa.BinOp:
		return dependsOnPhi(x.X, h, d-1) || dependsOnPhi(x.Y, h, d-1)
	case *ssa.UnOp:
		return dependsOnPhi(x.X, h, d-1)
	case *ssa.Convert:
		return dependsOnPhi(x.X, h, d-1)
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
			return dependsOnPhi(x.Call.Args[0], h, d-1)
		}
	}
	return false
}

func (st *State) widen() {
	f := st.top()
	h := f.block.Index
	n := f.visits[h]
	open := f.forked[h] || f.info.uncounted(f.fn, h)
	if n == 1 && open {
		snap := map[int]map[Loc]*V{}
		for k, v := range f.snap {
			snap[k] = v
		}
		snap[h] = map[Loc]*V{}
		for l, v := range st.mem {
			if l.base.k == VAlloc && v != nil && (v.isInt() || v.isStr() || v == vNil || v.k == VApp || v.k == VSlice) {
				snap[h][l] = v
			}
		}
		for m, o := range st.objs {
			if o.kind == "map" {
				snap[h][Loc{m, mapSize}] = mkInt(int64(len(o.entries)))
			}
		}
		f.snap = snap
	}
	if n >= 2 && open {
		st.widenCells(f, h)
	}
	if n < 4 || (!open && n < 400) {
		return
	}
	if !open {
		st.E.limit(fmt.Sprintf("loop of %s cut off", f.fn))
	}
	for i, in := range f.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		w := false
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			w = u.Info()&(types.IsNumeric|types.IsString) != 0
		case *types.Slice:
			w = true
		}
		if !w {
			continue
		}
		wv := mkAppT("widen", p.Type(), mkInt(int64(st.E.fnID(f.fn))), mkInt(int64(h)), mkInt(int64(i)), mkInt(int64(len(st.th().frames))), mkInt(int64(st.cur)))
		cur := st.interval(f.regs[f.info.idx[p]])
		for k := range st.facts {
			if k.mentions(func(x *V) bool { return x == wv }) {
				delete(st.facts, k)
			}
		}
		for k := range st.iv {
			if k.mentions(func(x *V) bool { return x == wv }) {
				delete(st.iv, k)
			}
		}
		for k := range st.mem {
			if strings.Contains(k.path, "[#") {
				delete(st.mem, k)
			}
		}
		if bs, ok := p.Type().Underlying().(*types.Basic); ok && bs.Info()&types.IsInteger != 0 {
			// counters that start at a constant and only go up
			if cur.hasLo && monotone(p) {
				st.iv[wv] = ival{lo: minStart(p), hasLo: true}
			}
		}
		st.set(f, p, wv)
	}
}

// widenCells: counters and texts in memory that grow with every round of the
// loop have any value from now on
func (st *State) widenCells(f *Frame, h int) {
	forget := func(wv *V) {
		has := func(x *V) bool { return x == wv }
		for k := range st.facts {
			if k.mentions(has) {
				delete(st.facts, k)
			}
		}
		for k := range st.iv {
			if k.mentions(has) {
				delete(st.iv, k)
			}
		}
	}
	for l, old := range f.snap[h] {
		if st.isPub(l.base) && (l.path == mapSize || st.E.Cfg.Interleave) {
			continue // others change it, and not in every round
		}
		if l.path == mapSize {
			o := st.objs[l.base]
			if o == nil || o.kind != "map" || len(o.entries) <= int(old.int()) && !(o.rest != nil && o.rest.k == VApp && len(o.rest.args) == 3) || len(o.entries) == 0 {
				continue
			}
			n := *o
			n.entries = nil
			n.rest = mkApp("mapcontent", l.base, mkInt(int64(st.E.fnID(f.fn))), mkInt(int64(h)))
			forget(n.rest)
			st.objs[l.base] = &n
			continue
		}
		cur := st.mem[l]
		if cur == nil || cur == old {
			continue
		}
		wv := mkApp("widencell", l.base, mkStr(l.path), mkInt(int64(st.E.fnID(f.fn))), mkInt(int64(h)))
		if cur == wv {
			continue
		}
		switch {
		case cur.isInt() && old.isInt():
		case sliceSize(cur) >= sliceSize(old)+2 && sliceSize(old) >= 0:
		case cur.k == VApp && isGrowing(cur.op) && cur.mentions(func(x *V) bool { return x == wv || x == old && !old.isInt() }):
		default:
			continue
		}
		forget(wv)
		st.mem[l] = wv
	}
}

// mapSize stands for the number of entries of a map
const mapSize = "#entries"

// isGrowing: an operation that makes a number or text from another one
func isGrowing(op string) bool {
	switch op {
	case "+", "-", "cat", "*", "|", "append":
		return true
	}
	return false
}

func sliceSize(v *V) int {
	switch {
	case v == vNil:
		return 0
	case v.k == VSlice:
		return v.hi - v.lo
	}
	return -1
}

func monotone(p *ssa.Phi) bool { return monotoneFrom(p, p, 3) }

// monotoneFrom: q is p, or p and something more
func monotoneFrom(q, p *ssa.Phi, d int) bool {
	if d == 0 {
		return false
	}
	for _, e := range q.Edges {
		if e == ssa.Value(p) {
			continue
		}
		switch x := e.(type) {
		case *ssa.Const:
			if q != p {
				return false
			}
		case *ssa.Phi:
			if !monotoneFrom(x, p, d-1) {
				return false
			}
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != ssa.Value(p) || !ok || c.Value == nil || constant.Sign(c.Value) < 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func minStart(p *ssa.Phi) int64 {
	m := int64(1 << 40)
	for _, e := range p.Edges {
		if c, ok := e.(*ssa.Const); ok {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && i < m {
				m = i
			}
		}
	}
	return m
}

func (st *State) ev(e *Event) {
	if e.Instr != nil && e.Fn == nil {
		e.Fn = e.Instr.Parent()
	}
	if st.mon != nil {
		st.mon.Event(st, e)
	}
}

// ---- interleaving of model goroutines

func (st *State) switchPoint(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Select:
		return true
	case *ssa.Send:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			switch c.String() {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				return true
			}
		}
	}
	return false
}

// runnable: the next instruction of the goroutine can be executed
func (st *State) runnable(i int) bool {
	t := st.threads[i]
	if t.ended {
		return false
	}
	f := t.frames[len(t.frames)-1]
	if t.group != "" {
		for _, o := range st.threads[:i] {
			if o.group == t.group && !o.ended && len(o.frames) == 1 && o.frames[0].pc == 0 && o.frames[0].block.Index == 0 {
				return false
			}
		}
	}
	in := f.block.Instrs[f.pc]
	if x, ok := in.(*ssa.Call); ok {
		if c := x.Call.StaticCallee(); c != nil && (strings.HasSuffix(c.String(), "Mutex).Lock") || strings.HasSuffix(c.String(), "Mutex).RLock")) && strings.HasPrefix(c.String(), "(*sync.") {
			l := st.val(f, x.Call.Args[0]).loc()
			for j, o := range st.threads {
				if j == i {
					continue
				}
				for _, h := range o.held {
					if h.l == l {
						return false
					}
				}
			}
		}
	}
	return true
}

func (E *Explorer) schedule(st *State, in ssa.Instruction) bool {
	k := st.key()
	if E.seen[k] {
		E.Merged++
		return true
	}
	E.seen[k] = true
	if E.Cfg.OnStable != nil {
		E.Cfg.OnStable(st)
		E.flush(st)
		if st.done {
			return true
		}
	}
	any := false
	for i := range st.threads {
		if !st.runnable(i) {
			continue
		}
		n := st.clone()
		n.cur = i
		n.granted = true
		if i != st.cur {
			n.note1("switch to " + st.threads[i].name)
		}
		any = true
		E.work = append(E.work, n)
	}
	if !any {
		st.violate("deadlock", "deadlock", "every goroutine waits for a lock", posOf(in))
		E.flush(st)
	}
	return true
}

func (E *Explorer) threadEnded(st *State) bool {
	any := false
	k := st.key()
	if E.seen[k] {
		E.Merged++
		return true
	}
	E.seen[k] = true
	if E.Cfg.Interleave && E.Cfg.OnStable != nil {
		E.Cfg.OnStable(st)
		E.flush(st)
		if st.done {
			return true
		}
	}
	for i := range st.threads {
		if i == st.cur || !st.runnable(i) {
			continue
		}
		n := st.clone()
		n.cur = i
		n.granted = true
		n.note1("switch to " + st.threads[i].name)
		any = true
		E.work = append(E.work, n)
	}
	_ = any
	return true
}

// ---- instructions

func (st *State) exec(in ssa.Instruction) {
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		a := mkAlloc(allocLabel(x), x.Type().Underlying().(*types.Pointer).Elem())
		st.set(f, x, a)
	case *ssa.BinOp:
		st.set(f, x, st.binop(x.Op, st.val(f, x.X), st.val(f, x.Y), x.X.Type()))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			st.recv(f, x)
			return
		}
		st.set(f, x, st.unop(f, x))
	case *ssa.ChangeInterface:
		st.set(f, x, st.val(f, x.X))
	case *ssa.ChangeType:
		st.set(f, x, st.val(f, x.X))
	case *ssa.Convert:
		st.set(f, x, st.convert(st.val(f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		st.set(f, x, st.val(f, x.X))
	case *ssa.MakeInterface:
		st.set(f, x, mkIface(x.X.Type(), st.val(f, x.X)))
	case *ssa.MakeClosure:
		var b []*V
		for _, y := range x.Bindings {
			b = append(b, st.val(f, y))
		}
		st.set(f, x, mkClosure(x.Fn.(*ssa.Function), b))
	case *ssa.MakeChan:
		c := mkAlloc("chan", x.Type())
		st.objs[c] = &Obj{kind: "chan", cap: st.val(f, x.Size), et: x.Type()}
		st.set(f, x, c)
		st.ev(&Event{Kind: "makechan", Chan: c, Val: st.val(f, x.Size), Type: x.Type(), Instr: in})
	case *ssa.MakeMap:
		c := mkAlloc("map", x.Type())
		st.objs[c] = &Obj{kind: "map", et: x.Type()}
		st.set(f, x, c)
	case *ssa.MakeSlice:
		n := st.val(f, x.Len)
		if n.isInt() && n.int() < 1000 {
			c := mkAlloc("slice", x.Type().Underlying().(*types.Slice).Elem())
			st.set(f, x, mkSlice(c, 0, int(n.int())))
		} else {
			st.set(f, x, mkAppT("nn:makeslice", x.Type(), n, mkAlloc("slice", x.Type())))
		}
	case *ssa.FieldAddr:
		p := st.val(f, x.X)
		st.derefCheck(p, in)
		l := p.loc()
		st.set(f, x, mkPtr(l.base, l.path+fieldPath(x.Field)))
	case *ssa.Field:
		st.set(f, x, structField(st.val(f, x.X), x.Field))
	case *ssa.IndexAddr:
		st.set(f, x, st.indexAddr(st.val(f, x.X), st.val(f, x.Index), x.X.Type(), in))
	case *ssa.Index:
		st.set(f, x, st.index(st.val(f, x.X), st.val(f, x.Index), x.X.Type(), in))
	case *ssa.Lookup:
		st.lookup(f, x)
	case *ssa.MapUpdate:
		m, k, v := st.val(f, x.Map), st.val(f, x.Key), st.val(f, x.Value)
		st.mapSet(m, k, v, in)
	case *ssa.Slice:
		st.set(f, x, st.slice(f, x))
	case *ssa.SliceToArrayPointer:
		st.set(f, x, st.val(f, x.X))
	case *ssa.Extract:
		t := st.val(f, x.Tuple)
		if t.k == VTuple {
			st.set(f, x, t.args[x.Index])
		} else {
			st.set(f, x, mkApp("res"+strconv.Itoa(x.Index), t))
		}
	case *ssa.Store:
		p := st.val(f, x.Addr)
		st.derefCheck(p, in)
		v := st.val(f, x.Val)
		l := p.loc()
		st.ev(&Event{Kind: "store", Loc: l, Val: v, Type: x.Val.Type(), Instr: in})
		if st.isShared(l.base) {
			st.publish(v)
		}
		st.store(l, x.Val.Type(), v)
	case *ssa.TypeAssert:
		st.typeAssert(f, x)
	case *ssa.Range:
		v := st.val(f, x.X)
		it := mkAlloc("iter", nil)
		st.objs[it] = &Obj{kind: "iter", cap: v, rest: mkInt(0)}
		st.set(f, x, it)
	case *ssa.Next:
		st.next(f, x)
	case *ssa.Jump:
		st.jump(f, f.block.Succs[0])
		return
	case *ssa.If:
		if st.is(st.val(f, x.Cond)) {
			st.jump(f, f.block.Succs[0])
		} else {
			st.jump(f, f.block.Succs[1])
		}
		return
	case *ssa.Return:
		var res []*V
		for _, r := range x.Results {
			res = append(res, st.val(f, r))
		}
		st.ret(res, in)
		return
	case *ssa.Panic:
		v := st.val(f, x.X)
		st.ev(&Event{Kind: "panic", Val: v, Instr: in})
		st.startPanic(v, in)
		return
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			break
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		st.call(d.com, d.fn, d.args, in, nil, func(st *State, res []*V) []*V { return nil }, "defer")
		return
	case *ssa.Defer:
		fn, args := st.callTarget(f, &x.Call)
		// of those a loop defers the last ones are kept
		n := 0
		for i := len(f.defers) - 1; i >= 0; i-- {
			if f.defers[i].in == in {
				if n++; n >= 2 {
					f.defers = append(append([]deferred(nil), f.defers[:i]...), f.defers[i+1:]...)
				}
			}
		}
		f.defers = append(f.defers, deferred{fn, args, &x.Call, in})
	case *ssa.Go:
		fn, args := st.callTarget(f, &x.Call)
		st.goStmt(fn, args, &x.Call, in)
		return
	case *ssa.Send:
		st.send(f, x)
		return
	case *ssa.Select:
		st.sel(f, x)
		return
	case *ssa.Call:
		fn, args := st.callTarget(f, &x.Call)
		st.call(&x.Call, fn, args, in, x, nil, "")
		return
	default:
		panic(fmt.Sprintf("instruction %T not supported", in))
	}
	f.pc++
}

func allocLabel(x *ssa.Alloc) string {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if x.Comment != "" && x.Comment != "complit" && x.Comment != "new" && x.Comment != "varargs" && x.Comment != "slicelit" {
		return x.Comment
	}
	return shortTypeName(t)
}

func shortTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "obj"
}

func (st *State) derefCheck(p *V, in ssa.Instruction) {
	if isRef(p) {
		return
	}
	if p == vNil {
		st.ev(&Event{Kind: "maypanic", Name: "nil", Val: p, Instr: in, Block: true})
		return
	}
	if t, ok := st.truth(mkEq(p, vNil)); ok && !t {
		return
	} else if ok && t {
		st.ev(&Event{Kind: "maypanic", Name: "nil", Val: p, Instr: in, Block: true})
		return
	}
	st.ev(&Event{Kind: "maypanic", Name: "nil", Val: p, Instr: in})
}

func (st *State) isShared(base *V) bool {
	switch base.k {
	case VAlloc:
		return st.isPub(base)
	case VGlobal:
		return true
	}
	return true
}

// isPub: other goroutines can find the object
func (st *State) isPub(v *V) bool { return st.pub[v] || st.E.basePub[v] }

// publish: the objects reachable from v can now be seen by other goroutines
func (st *State) publish(v *V) {
	seen := map[*V]bool{}
	var work []*V
	push := func(x *V) {
		x.walk(seen, func(y *V) {
			if y.k == VAlloc && !st.isPub(y) {
				st.pub[y] = true
				st.ev(&Event{Kind: "publish", Recv: y})
				work = append(work, y)
			}
		})
	}
	push(v)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for l, x := range st.mem {
			if l.base == b {
				push(x)
			}
		}
		if o := st.objs[b]; o != nil {
			for _, e := range o.entries {
				push(e.k)
				if e.v != nil {
					push(e.v)
				}
			}
		}
	}
}

func (st *State) binop(op token.Token, a, b *V, t types.Type) *V {
	if a.k == VConst && b.k == VConst {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.c.Kind() == b.c.Kind() || (a.c.Kind() != constant.String && a.c.Kind() != constant.Bool && b.c.Kind() != constant.String && b.c.Kind() != constant.Bool) {
				return mkBool(constant.Compare(a.c, op, b.c))
			}
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(b.c); ok && s < 64 {
				return mkConst(constant.Shift(a.c, op, uint(s)))
			}
		case token.QUO, token.REM:
			if b.isInt() && b.int() != 0 {
				if bs, ok := t.Underlying().(*types.Basic); ok && bs.Info()&types.IsInteger != 0 {
					o := op
					if op == token.QUO {
						o = token.QUO_ASSIGN
					}
					return mkConst(constant.BinaryOp(a.c, o, b.c))
				}
				return mkConst(constant.BinaryOp(a.c, op, b.c))
			}
		default:
			if a.c.Kind() == constant.Bool {
				break
			}
			return mkConst(constant.BinaryOp(a.c, op, b.c))
		}
	}
	isString := false
	if bs, ok := t.Underlying().(*types.Basic); ok {
		isString = bs.Info()&types.IsString != 0
		if (op == token.QUO || op == token.REM) && bs.Info()&types.IsInteger != 0 {
			if tr, k := st.truth(mkEq(b, mkInt(0))); !(k && !tr) {
				iv := st.interval(b)
				if !(iv.hasLo && iv.lo > 0 || iv.hasHi && iv.hi < 0) {
					st.ev(&Event{Kind: "maypanic", Name: "division by zero", Val: b, Args: []*V{a, b}, Fn: st.top().fn, Instr: st.top().block.Instrs[st.top().pc]})
				}
			}
		}
	}
	switch op {
	case token.EQL:
		return st.eqT(a, b)
	case token.NEQ:
		return not(st.eqT(a, b))
	case token.LSS:
		return mkApp("<", a, b)
	case token.GTR:
		return mkApp("<", b, a)
	case token.LEQ:
		return not(mkApp("<", b, a))
	case token.GEQ:
		return not(mkApp("<", a, b))
	case token.ADD:
		if isString {
			return mkCat(a, b)
		}
		if a.k == VConst {
			a, b = b, a
		}
		if b.isInt() && b.int() == 0 {
			return a
		}
		if b.isInt() && a.k == VApp && a.op == "+" && a.args[1].isInt() {
			return mkApp("+", a.args[0], mkInt(a.args[1].int()+b.int()))
		}
		return mkApp("+", a, b)
	case token.AND:
		if a == vTrue {
			return b
		}
		if b == vTrue {
			return a
		}
	}
	return mkApp(op.String(), a, b)
}

// comparison with the empty string or of a length with zero in one form
func (st *State) eqT(a, b *V) *V { return mkEq(a, b) }

func (st *State) unop(f *Frame, x *ssa.UnOp) *V {
	a := st.val(f, x.X)
	switch x.Op {
	case token.MUL:
		st.derefCheck(a, x)
		l := a.loc()
		v := st.load(l, x.Type())
		if v.k == VApp && v.op == "ld" && st.E.Cfg.TypeNonNil != nil && nilable(x.Type()) {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && st.E.Cfg.TypeNonNil(fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)) {
				st.nonnil(v)
			}
		}
		st.ev(&Event{Kind: "load", Loc: l, Val: v, Type: x.Type(), Instr: x})
		return v
	case token.NOT:
		return not(a)
	case token.SUB:
		if a.k == VConst {
			return mkConst(constant.UnaryOp(token.SUB, a.c, 0))
		}
		return mkApp("neg", a)
	}
	if a.k == VConst && x.Op == token.XOR {
		return mkConst(constant.UnaryOp(token.XOR, a.c, 0))
	}
	return mkApp(x.Op.String(), a)
}

func (st *State) convert(v *V, from, to types.Type) *V {
	fu, tu := from.Underlying(), to.Underlying()
	tb, tok := tu.(*types.Basic)
	fb, fok := fu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
			if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
				if v.isInt() {
					return v
				}
				return mkAppT("trunc", to, v)
			}
			return v
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsString != 0:
			if v.isInt() {
				return mkStr(string(rune(v.int())))
			}
			return mkApp("runestr", v)
		}
		return v
	}
	if tok && tb.Info()&types.IsString != 0 {
		return st.bytesTerm(v)
	}
	return v // string <-> []byte and the like carry the same content
}

// bytesTerm: a byte slice whose elements are known becomes a string constant
func (st *State) bytesTerm(v *V) *V {
	if v.k == VSlice {
		var b []byte
		for i := v.lo; i < v.hi; i++ {
			e := st.load(Loc{v.args[0], "[" + strconv.Itoa(i) + "]"}, types.Typ[types.Byte])
			if !e.isInt() {
				return v
			}
			b = append(b, byte(e.int()))
		}
		return mkStr(string(b))
	}
	if v == vNil {
		return mkStr("")
	}
	return v
}

func (st *State) indexAddr(p, i *V, t types.Type, in ssa.Instruction) *V {
	if c := st.constOf(i); c != nil {
		i = c
	}
	if _, ok := t.Underlying().(*types.Pointer); ok { // pointer to array
		l := p.loc()
		return mkPtr(l.base, l.path+elemPath(i))
	}
	if p.k == VSlice {
		if i.isInt() {
			n := int(i.int())
			if n < 0 || p.lo+n >= p.hi {
				st.ev(&Event{Kind: "maypanic", Name: "index", Val: p, Args: []*V{p, i}, Instr: in, Block: true})
				return mkPtr(p.args[0], "[oob]")
			}
			return mkPtr(p.args[0], "["+strconv.Itoa(p.lo+n)+"]")
		}
		st.boundCheck(p, i, mkInt(int64(p.hi-p.lo)), in)
		l := p.args[0].loc()
		return mkPtr(l.base, l.path+elemPath(i))
	}
	st.boundCheck(p, i, mkLen(p), in)
	for p.k == VApp && p.op == "subslice" && p.args[1].isInt() && i.isInt() {
		i = mkInt(i.int() + p.args[1].int())
		p = p.args[0]
	}
	return mkPtr(mkApp("elems", p), elemPath(i))
}

func mkLen(p *V) *V {
	if p.isStr() {
		return mkInt(int64(len(p.str())))
	}
	if p.k == VSlice {
		return mkInt(int64(p.hi - p.lo))
	}
	if p == vNil {
		return mkInt(0)
	}
	if p.k == VApp && p.op == "subslice" && p.args[1].isInt() {
		if len(p.args) == 2 {
			return mkApp("+", mkLen(p.args[0]), mkInt(-p.args[1].int()))
		}
		if p.args[2].isInt() {
			return mkInt(p.args[2].int() - p.args[1].int())
		}
	}
	return mkApp("len", p)
}

func (st *State) boundCheck(p, i, n *V, in ssa.Instruction) {
	ok := false
	if t, k := st.truth(mkCmpLess(i, n)); k && t {
		lo := st.interval(i)
		ok = lo.hasLo && lo.lo >= 0
	}
	if !ok {
		st.ev(&Event{Kind: "maypanic", Name: "index", Val: p, Args: []*V{p, i}, Instr: in})
	}
}

func mkCmpLess(a, b *V) *V {
	if a.isInt() && b.isInt() {
		return mkBool(a.int() < b.int())
	}
	return mkApp("<", a, b)
}

func (st *State) index(p, i *V, t types.Type, in ssa.Instruction) *V {
	if p.isStr() && i.isInt() && int(i.int()) < len(p.str()) && i.int() >= 0 {
		return mkInt(int64(p.str()[i.int()]))
	}
	if p.k == VStruct && i.isInt() && int(i.int()) < len(p.args) {
		return p.args[i.int()]
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		st.boundCheck(p, i, mkLen(p), in)
	}
	return mkApp("elem", p, i)
}

func (st *State) slice(f *Frame, x *ssa.Slice) *V {
	p := st.val(f, x.X)
	var lo, hi *V = mkInt(0), nil
	if x.Low != nil {
		lo = st.val(f, x.Low)
	}
	if x.High != nil {
		hi = st.val(f, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := int(pt.Elem().Underlying().(*types.Array).Len())
		h := n
		if hi != nil {
			if !hi.isInt() {
				return mkApp("subslice", p, lo, hi)
			}
			h = int(hi.int())
		}
		if !lo.isInt() {
			return mkApp("subslice", p, lo)
		}
		return mkSlice(p, int(lo.int()), h)
	}
	if p.k == VSlice && lo.isInt() && (hi == nil || hi.isInt()) {
		h := p.hi
		if hi != nil {
			h = p.lo + int(hi.int())
		}
		l := p.lo + int(lo.int())
		if l > h {
			st.ev(&Event{Kind: "maypanic", Name: "slice", Val: p, Args: []*V{p, lo}, Instr: x, Block: true})
			l = h
		}
		return mkSlice(p.args[0], l, h)
	}
	if p.isStr() && lo.isInt() && (hi == nil || hi.isInt()) {
		s := p.str()
		h := int64(len(s))
		if hi != nil {
			h = hi.int()
		}
		if lo.int() >= 0 && lo.int() <= h && h <= int64(len(s)) {
			return mkStr(s[lo.int():h])
		}
	}
	if hi == nil {
		if lo.isInt() && lo.int() == 0 {
			return p
		}
		if !lo.isInt() || lo.int() > 0 {
			if t, k := st.truth(mkApp("<", mkLen(p), lo)); !(k && !t) {
				st.ev(&Event{Kind: "maypanic", Name: "slice", Val: p, Args: []*V{p, lo}, Instr: x})
			}
		}
		return mkApp("subslice", p, lo)
	}
	if t, k := st.truth(mkApp("<", mkLen(p), hi)); !(k && !t) {
		st.ev(&Event{Kind: "maypanic", Name: "slice", Val: p, Args: []*V{p, hi}, Instr: x})
	}
	if lo.isInt() && lo.int() == 0 {
		lo = mkInt(0)
	}
	return mkApp("subslice", p, lo, hi)
}

// ---- maps

// mapObj gives the object behind a map value; content of maps from elsewhere is unknown
func (st *State) mapObj(m *V) *Obj {
	if o := st.obj(m); o != nil {
		return o
	}
	return &Obj{kind: "map", rest: mkApp("mapcontent", m)}
}

// find looks the key up, splitting on unknown equality; present, value
func (st *State) mapFind(m, k *V) (bool, *V, int) {
	if m == vNil {
		return false, nil, -1
	}
	o := st.mapObj(m)
	for i := len(o.entries) - 1; i >= 0; i-- {
		e := o.entries[i]
		if st.is(mkEq(e.k, k)) {
			return e.present, e.v, i
		}
	}
	if o.rest == nil {
		return false, nil, -1
	}
	if strings.HasPrefix(k.op, "nn:uniq") {
		return false, nil, -1
	}
	rep := o.rest
	if st.E.Cfg.MapRep != nil {
		if r := st.E.Cfg.MapRep(st, m); r != nil {
			rep = r
		}
	}
	if st.is(mkApp("inmap", rep, k)) {
		v := mkApp("mapval", o.rest, k)
		if st.E.Cfg.OnMapVal != nil {
			st.E.Cfg.OnMapVal(st, m, v, o.et)
		}
		return true, v, -2
	}
	return false, nil, -2
}

// keptIn: the pseudo field of an object that says in which map it was put
const keptIn = "$keptin"

func (st *State) lookup(f *Frame, x *ssa.Lookup) {
	m, k := st.val(f, x.X), st.val(f, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		st.set(f, x, st.index(m, k, x.X.Type(), x))
		return
	}
	ok, v, _ := st.mapFind(m, k)
	if !ok {
		v = zero(mt.Elem())
	}
	st.ev(&Event{Kind: "mapget", Recv: m, Args: []*V{k}, Val: v, Type: x.X.Type(), Instr: x, Block: ok})
	if x.CommaOk {
		v = mkTuple(v, mkBool(ok))
	}
	st.set(f, x, v)
}

func (st *State) mapSet(m, k, v *V, in ssa.Instruction) {
	if t, ok := st.truth(mkEq(m, vNil)); m == vNil || ok && t {
		st.ev(&Event{Kind: "maypanic", Name: "nilmap", Val: m, Instr: in, Block: true})
		return
	}
	_, _, i := st.mapFind(m, k)
	st.ev(&Event{Kind: "mapset", Recv: m, Args: []*V{k}, Val: v, Instr: in})
	o := *st.mapObj(m)
	es := append([]entry(nil), o.entries...)
	if i >= 0 {
		es[i] = entry{k, v, true}
	} else {
		es = append(es, entry{k, v, true})
	}
	o.entries = es
	if o.rest != nil && len(es) > 2 {
		// forget what was changed earlier
		o.entries = es[len(es)-1:]
		o.rest = mkApp("mapcontent", m, mkSym("content", nil))
	}
	st.objs[m] = &o
	if v.k == VAlloc && v.t != nil {
		if _, ok := v.t.Underlying().(*types.Struct); ok {
			st.mem[Loc{v, keptIn}] = m
		}
	}
	if st.isShared(m) {
		st.publish(v)
	}
}

func (st *State) mapDelete(m, k *V, in ssa.Instruction) {
	if m == vNil {
		return
	}
	_, _, i := st.mapFind(m, k)
	st.ev(&Event{Kind: "mapdel", Recv: m, Args: []*V{k}, Instr: in})
	o := *st.mapObj(m)
	es := append([]entry(nil), o.entries...)
	if o.rest == nil {
		if i >= 0 {
			es = append(es[:i], es[i+1:]...)
		}
	} else if i >= 0 {
		es[i] = entry{k, nil, false}
	} else {
		es = append(es, entry{k, nil, false})
	}
	o.entries = es
	if o.rest != nil && len(es) > 2 {
		// forget what was changed earlier
		o.entries = es[len(es)-1:]
		o.rest = mkApp("mapcontent", m, mkSym("content", nil))
	}
	st.objs[m] = &o
}

func (st *State) next(f *Frame, x *ssa.Next) {
	it := st.val(f, x.Iter)
	o := *st.objs[it]
	m := o.cap
	if x.IsString {
		st.markNext(x)
		if st.choose(2) == 0 {
			st.set(f, x, mkTuple(vFalse, mkInt(0), mkInt(0)))
			return
		}
		st.set(f, x, mkTuple(vTrue, mkSym("stridx", nil), mkSym("rune", nil)))
		return
	}
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if m == vNil {
		st.set(f, x, mkTuple(vFalse, zero(mt.Key()), zero(mt.Elem())))
		return
	}
	mo := st.mapObj(m)
	st.ev(&Event{Kind: "maprange", Recv: m, Type: x.Iter.(*ssa.Range).X.Type(), Instr: x})
	n := int(o.rest.int())
	for n < len(mo.entries) && !mo.entries[n].present {
		n++
	}
	if n < len(mo.entries) {
		e := mo.entries[n]
		o.rest = mkInt(int64(n + 1))
		st.objs[it] = &o
		st.set(f, x, mkTuple(vTrue, e.k, e.v))
		st.ev(&Event{Kind: "nextkey", Recv: m, Val: e.k, Instr: x})
		return
	}
	if mo.rest == nil {
		st.set(f, x, mkTuple(vFalse, zero(mt.Key()), zero(mt.Elem())))
		return
	}
	st.markNext(x)
	if st.choose(2) == 0 {
		st.set(f, x, mkTuple(vFalse, zero(mt.Key()), zero(mt.Elem())))
		return
	}
	k := mkSym("mapkey", mt.Key())
	st.ev(&Event{Kind: "nextkey", Recv: m, Val: k, Instr: x})
	v := mkApp("mapval", mo.rest, k)
	if st.E.Cfg.OnMapVal != nil {
		st.E.Cfg.OnMapVal(st, m, v, mt)
	}
	st.set(f, x, mkTuple(vTrue, k, v))
}

// ---- types

func (st *State) typeAssert(f *Frame, x *ssa.TypeAssert) {
	v := st.val(f, x.X)
	if i, is := x.AssertedType.Underlying().(*types.Interface); is && !x.CommaOk && v.k != VIface && types.Implements(x.X.Type(), i) {
		// a method value: only nil has no method
		if v == vNil || st.facts[v] == vNil {
			st.ev(&Event{Kind: "maypanic", Name: "nil", Val: v, Instr: x, Block: true})
			st.startPanic(mkSym("nn:runtime error", nil), x)
			return
		}
		st.derefCheck(v, x)
		st.nonnil(v)
		st.set(f, x, v)
		return
	}
	ok, res := st.dynIs(v, x.AssertedType)
	if !ok {
		if !x.CommaOk {
			st.ev(&Event{Kind: "maypanic", Name: "typeassert", Val: v, Instr: x, Block: true})
			st.startPanic(mkSym("nn:runtime error", nil), x)
			return
		}
		st.set(f, x, mkTuple(zero(x.AssertedType), vFalse))
		f.pc++
		f.pc--
		return
	}
	if x.CommaOk {
		res = mkTuple(res, vTrue)
	}
	st.set(f, x, res)
}

// dynIs: is the dynamic type of interface value v (assignable to) t
func (st *State) dynIs(v *V, t types.Type) (bool, *V) {
	if v == vNil || st.facts[v] == vNil {
		return false, nil
	}
	iface, toIface := t.Underlying().(*types.Interface)
	if v.k == VIface {
		if toIface {
			return types.Implements(v.t, iface), v
		}
		if types.Identical(v.t, t) {
			return true, v.args[0]
		}
		return false, nil
	}
	if toIface {
		if iface.NumMethods() == 0 {
			if st.is(mkEq(v, vNil)) {
				return false, nil
			}
			return true, v
		}
		if !st.is(mkAppT("implements", t, v)) {
			return false, nil
		}
		st.nonnil(v)
		return true, v
	}
	// a value has one dynamic type
	for a, b := range st.facts {
		if b == vTrue && a.k == VApp && a.op == "istype" && a.args[0] == v && !types.Identical(a.t, t) {
			return false, nil
		}
		if b == vFalse && a.k == VApp && a.op == "implements" && a.args[0] == v {
			if i, ok := a.t.Underlying().(*types.Interface); ok && types.Implements(t, i) {
				return false, nil
			}
		}
		if b == vTrue && a.k == VApp && a.op == "implements" && a.args[0] == v {
			if i, ok := a.t.Underlying().(*types.Interface); ok && !types.Implements(t, i) {
				return false, nil
			}
		}
	}
	if !st.is(mkAppT("istype", t, v)) {
		return false, nil
	}
	st.nonnil(v)
	return true, mkAppT("dyn", t, v)
}

// ---- channels

func (st *State) chanClosed(ch *V) bool {
	o := st.obj(ch)
	return o != nil && o.closed
}

func (st *State) setClosed(ch *V) {
	var o Obj
	if p := st.obj(ch); p != nil {
		o = *p
	} else {
		o = Obj{kind: "chan", cap: mkApp("chancap", ch)}
	}
	o.closed = true
	o.maybeClosed = false
	st.objs[ch] = &o
}

func (st *State) recvVal(ch *V, t types.Type) *V {
	if st.E.Cfg.OnRecv != nil {
		if v := st.E.Cfg.OnRecv(st, ch, t); v != nil {
			return v
		}
	}
	return mkSym("recv", t)
}

// receiving from the Done channel of a context means that it was cancelled
func (st *State) received(ch *V) {
	if isDone(ch) {
		st.setClosed(ch)
	}
}

func isDone(ch *V) bool {
	return ch.k == VApp && ch.op == "nn:done" || ch.k == VAlloc && ch.op == "done"
}

func (st *State) recv(f *Frame, x *ssa.UnOp) {
	ch := st.val(f, x.X)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	var v *V
	ok := vTrue
	switch {
	case st.chanClosed(ch):
		v, ok = zero(et), vFalse
	default:
		n := 1
		if x.CommaOk && !isDone(ch) {
			n = 2
		}
		if st.choose(n) == 1 {
			v, ok = zero(et), vFalse
		} else {
			v = st.recvVal(ch, et)
		}
	}
	st.ev(&Event{Kind: "recv", Chan: ch, Val: v, Instr: x, Block: true})
	st.received(ch)
	if x.CommaOk {
		v = mkTuple(v, ok)
	}
	f = st.top()
	st.set(f, x, v)
	f.pc++
}

func (st *State) send(f *Frame, x *ssa.Send) {
	ch := st.val(f, x.Chan)
	v := st.val(f, x.X)
	if st.chanClosed(ch) {
		st.ev(&Event{Kind: "maypanic", Name: "send on closed channel", Val: ch, Instr: x, Block: true})
	}
	st.ev(&Event{Kind: "send", Chan: ch, Val: v, Instr: x, Block: true})
	st.publish(v)
	f = st.top()
	f.pc++
}

func (st *State) sel(f *Frame, x *ssa.Select) {
	var cs []SelCase
	for _, s := range x.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Ch: st.val(f, s.Chan), Pos: s.Pos}
		if c.Send {
			c.Val = st.val(f, s.Send)
		}
		cs = append(cs, c)
	}
	var alts []int
	for i, c := range cs {
		if c.Ch == vNil || st.facts[c.Ch] == vNil {
			continue // never ready
		}
		alts = append(alts, i)
	}
	if !x.Blocking {
		// the default case, unless some channel is known to be ready
		ready := false
		for _, c := range cs {
			if !c.Send && st.chanClosed(c.Ch) {
				ready = true
			}
		}
		if !ready {
			alts = append(alts, -1)
		}
	}
	if len(alts) == 0 {
		st.ev(&Event{Kind: "select", Cases: cs, Chosen: -2, Instr: x, Block: x.Blocking})
		st.endThread(nil) // blocks for ever
		return
	}
	ch := alts[st.choose(len(alts))]
	st.ev(&Event{Kind: "select", Cases: cs, Chosen: ch, Instr: x, Block: x.Blocking})
	// result: index, recvOk, received values
	res := []*V{mkInt(int64(ch)), vFalse}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i != ch {
			res = append(res, zero(et))
			continue
		}
		if st.chanClosed(cs[i].Ch) {
			res = append(res, zero(et))
			continue
		}
		v := st.recvVal(cs[i].Ch, et)
		st.received(cs[i].Ch)
		res[1] = vTrue
		res = append(res, v)
		st.ev(&Event{Kind: "selrecv", Chan: cs[i].Ch, Val: v, Instr: x})
	}
	if ch >= 0 && cs[ch].Send {
		if st.chanClosed(cs[ch].Ch) {
			st.ev(&Event{Kind: "maypanic", Name: "send on closed channel", Val: cs[ch].Ch, Instr: x, Block: true})
		}
		st.publish(cs[ch].Val)
		st.ev(&Event{Kind: "selsend", Chan: cs[ch].Ch, Val: cs[ch].Val, Instr: x})
	}
	f = st.top()
	st.set(f, x, mkTuple(res...))
	f.pc++
}

// closeChan: "" or what it panics with
func (st *State) closeChan(ch *V, in ssa.Instruction) string {
	o := st.obj(ch)
	st.ev(&Event{Kind: "close", Chan: ch, Instr: in})
	if ch == vNil || st.facts[ch] == vNil {
		st.ev(&Event{Kind: "maypanic", Name: "close of nil channel", Val: ch, Instr: in, Block: true})
		return "close of nil channel"
	}
	if o != nil && o.closed {
		st.ev(&Event{Kind: "maypanic", Name: "close of closed channel", Val: ch, Instr: in, Block: true})
		return "close of closed channel"
	} else if o == nil || o.maybeClosed {
		st.ev(&Event{Kind: "maypanic", Name: "close of closed channel", Val: ch, Instr: in})
	}
	st.setClosed(ch)
	return ""
}

// ---- calls, returns, panics

func (st *State) callTarget(f *Frame, c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	fn := st.val(f, c.Value)
	for _, a := range c.Args {
		args = append(args, st.val(f, a))
	}
	return fn, args
}

func (st *State) ret(res []*V, in ssa.Instruction) {
	th := st.th()
	f := th.frames[len(th.frames)-1]
	st.ev(&Event{Kind: "ret", Name: f.fn.String(), Res: res, Instr: in, Fn: f.fn})
	th.frames = th.frames[:len(th.frames)-1]
	if f.onRet != nil {
		res = f.onRet(st, res)
		if st.done {
			return
		}
	}
	if len(th.frames) == 0 {
		st.endThread(res)
		return
	}
	if f.fromPanic {
		if th.panicking != nil {
			st.unwind(in)
			return
		}
		// recovered: the function that deferred f returns
		st.recovered(in)
		return
	}
	st.finishCall(f.call, res)
}

func (st *State) finishCall(call ssa.Instruction, res []*V) {
	g := st.top()
	if v, ok := call.(*ssa.Call); ok {
		var r *V
		switch sig := v.Call.Signature(); {
		case sig.Results().Len() == 1 && len(res) == 1:
			r = res[0]
		default:
			r = mkTuple(res...)
		}
		st.set(g, v, r)
		g.pc++
		return
	}
	if _, ok := call.(*ssa.RunDefers); ok {
		return // stays on the instruction until no defers are left
	}
	g.pc++
}

func (st *State) endThread(res []*V) {
	th := st.th()
	st.ev(&Event{Kind: "end", Name: th.name, Res: res, Recv: th.panicking})
	th.frames = nil
	th.ended = true
	if st.E.Cfg.OnEnd != nil {
		st.E.Cfg.OnEnd(st, th, res)
	}
}

func (st *State) startPanic(v *V, in ssa.Instruction) {
	th := st.th()
	th.panicking = v
	st.unwind(in)
}

// unwind runs the deferred calls of the panicking goroutine
func (st *State) unwind(in ssa.Instruction) {
	th := st.th()
	for len(th.frames) > 0 {
		f := st.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			st.callDeferPanic(d, in)
			return
		}
		th.frames = th.frames[:len(th.frames)-1]
		if f.fromPanic {
			continue
		}
		if f.spawned && len(th.frames) > 0 {
			// a goroutine run in place: its panic does not unwind the spawner
		}
	}
	st.endThread(nil)
}

func (st *State) callDeferPanic(d deferred, in ssa.Instruction) {
	n := len(st.th().frames)
	st.call(d.com, d.fn, d.args, in, nil, func(st *State, res []*V) []*V { return nil }, "deferpanic")
	th := st.th()
	if st.done || th.ended {
		return
	}
	if len(th.frames) > n {
		st.top().fromPanic = true
		return
	}
	// handled without a frame
	st.unwind(in)
}

func (st *State) recovered(in ssa.Instruction) {
	f := st.top()
	if f.fn.Recover != nil {
		f.prev, f.block, f.pc = f.block, f.fn.Recover, 0
		return
	}
	var res []*V
	rs := f.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, zero(rs.At(i).Type()))
	}
	st.ret(res, in)
}

func (st *State) goStmt(fn *V, args []*V, com *ssa.CallCommon, in ssa.Instruction) {
	st.publish(fn)
	for _, a := range args {
		st.publish(a)
	}
	st.ev(&Event{Kind: "go", Recv: fn, Args: args, Instr: in})
	mode := 0
	if st.E.Cfg.OnGo != nil {
		mode = st.E.Cfg.OnGo(st, fn, args, in)
	}
	callee, bind := calleeOf(fn)
	if com.IsInvoke() {
		callee = nil
	}
	if st.E.Cfg.RecordSpawns && callee != nil && callee.Blocks != nil && mode == 0 {
		st.E.recordSpawn(st, fn, args, in)
	}
	if mode != 1 && callee == nil && !com.IsInvoke() && (fn == vNil || fn.k == VSym) {
		st.derefCheck(fn, in) // a goroutine of a nil function ends the program
	}
	f := st.top()
	switch mode {
	case 1:
		f.pc++
		nf := &Frame{}
		_ = nf
		f.pc--
		st.call(com, fn, args, in, nil, func(st *State, res []*V) []*V { return nil }, "go")
		if len(st.th().frames) > 0 {
			t := st.top()
			if t.hookID == "go" {
				t.spawned = true
				return
			}
		}
		return
	case 2:
		if callee != nil && callee.Blocks != nil {
			t := &Thread{name: callee.Name(), id: len(st.threads)}
			st.threads = append(st.threads, t)
			old := st.cur
			st.cur = len(st.threads) - 1
			st.push(callee, args, bind, nil, nil, "root")
			st.cur = old
		}
	}
	f = st.top()
	f.pc++
}

func (E *Explorer) recordSpawn(st *State, fn *V, args []*V, in ssa.Instruction) {
	k := fmt.Sprintf("%p", in)
	if E.spawnSeen[k] {
		return
	}
	E.spawnSeen[k] = true
	E.Spawns = append(E.Spawns, Spawn{st.clone(), fn, args, in})
}

var dbgBlocks map[string]int

func init() {
	if os.Getenv("CHECK_BLOCKS") != "" {
		dbgBlocks = map[string]int{}
	}
}
