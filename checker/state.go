package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract state: memory, facts about unknown values, the call stacks of
// the modelled goroutines and the state of the property monitor.
type State struct {
	E       *Explorer
	mem     map[Loc]*V
	objs    map[*V]*Obj
	facts   map[*V]*V
	iv      map[*V]ival
	corr    map[*V][]*V
	threads []*Thread
	cur     int
	mon     Monitor
	pub     map[*V]bool
	choices []int
	cpos    int
	nchoice int
	pend    []*Viol
	trace   *Trace
	granted bool
	done    bool
	note    map[string]*V // scratch of the rules; part of the state key
}

type ival struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type Trace struct {
	up   *Trace
	text string
}

type Obj struct {
	kind        string // map, chan, ctx
	entries     []entry
	rest        *V // nil: everything else is absent; otherwise unknown content
	cap         *V
	closed      bool
	maybeClosed bool
	et          types.Type
	sent        int // values put into the buffer, as far as a rule counts them
}

type entry struct {
	k, v    *V
	present bool
}

type Thread struct {
	name      string
	frames    []*Frame
	held      []HeldLock
	panicking *V
	ended     bool
	id        int
	group     string // goroutines that run the same: they are started in order
}

type HeldLock struct {
	l     Loc
	read  bool
	instr ssa.Instruction
}

type Frame struct {
	owner     *State
	fn        *ssa.Function
	info      *fnInfo
	regs      []*V
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferred
	call      ssa.Instruction // instruction of the caller that is waiting
	onRet     func(st *State, res []*V) []*V
	hookID    string
	spawned   bool // runs as a goroutine of its own
	fromPanic bool
	heldBase  int
	visits    map[int]int
	forked    map[int]bool
	snap      map[int]map[Loc]*V // memory when a loop was first widened; not changed
}

type deferred struct {
	fn   *V
	args []*V
	com  *ssa.CallCommon
	in   ssa.Instruction
}

type fnInfo struct {
	idx    map[ssa.Value]int
	n      int
	liveIn []map[int]bool
	heads  map[int]bool
	// whether the exits of the loop depend on a counter
	counted map[int]bool
	cache   map[[2]int][]int
}

func (P *Prog) info(fn *ssa.Function) *fnInfo {
	if x := P.nodes[fn]; x != nil {
		return x
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, cache: map[[2]int][]int{}, heads: map[int]bool{}, counted: map[int]bool{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveIn = make([]map[int]bool, len(fn.Blocks))
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := fi.liveAt(b, -1)
			for x := range live {
				if !fi.liveIn[b.Index][x] {
					fi.liveIn[b.Index][x] = true
					ch = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				fi.heads[b.Index] = true
			}
		}
	}
	P.nodes[fn] = fi
	return fi
}

// registers live just before the instruction after pc
func (fi *fnInfo) liveAt(b *ssa.BasicBlock, pc int) map[int]bool {
	live := map[int]bool{}
	for _, s := range b.Succs {
		for x := range fi.liveIn[s.Index] {
			live[x] = true
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if i, ok := fi.idx[ph.Edges[pi]]; ok {
				live[i] = true
			}
		}
	}
	var ops [16]*ssa.Value
	for i := len(b.Instrs) - 1; i > pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(live, fi.idx[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, o := range in.Operands(ops[:0]) {
			if o != nil && *o != nil {
				if i, ok := fi.idx[*o]; ok {
					live[i] = true
				}
			}
		}
	}
	return live
}

func (fi *fnInfo) liveList(b *ssa.BasicBlock, pc int) []int {
	k := [2]int{b.Index, pc}
	if l, ok := fi.cache[k]; ok {
		return l
	}
	var l []int
	for x := range fi.liveAt(b, pc) {
		l = append(l, x)
	}
	sort.Ints(l)
	fi.cache[k] = l
	return l
}

func newState(E *Explorer) *State {
	return &State{E: E, mem: map[Loc]*V{}, objs: map[*V]*Obj{}, facts: map[*V]*V{}, iv: map[*V]ival{}, corr: map[*V][]*V{}, pub: map[*V]bool{}, note: map[string]*V{}}
}

func (st *State) clone() *State {
	n := &State{E: st.E, cur: st.cur, trace: st.trace, granted: st.granted, done: st.done}
	n.mem = make(map[Loc]*V, len(st.mem)+8)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.objs = make(map[*V]*Obj, len(st.objs)+2)
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.facts = make(map[*V]*V, len(st.facts)+4)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.iv = make(map[*V]ival, len(st.iv))
	for k, v := range st.iv {
		n.iv[k] = v
	}
	n.corr = make(map[*V][]*V, len(st.corr))
	for k, v := range st.corr {
		n.corr[k] = v
	}
	n.pub = make(map[*V]bool, len(st.pub))
	for k, v := range st.pub {
		n.pub[k] = v
	}
	n.note = make(map[string]*V, len(st.note))
	for k, v := range st.note {
		n.note[k] = v
	}
	for _, t := range st.threads {
		nt := *t
		nt.frames = append([]*Frame(nil), t.frames...)
		for _, f := range t.frames {
			f.owner = nil // shared now: whoever writes it copies it first
		}
		nt.held = append([]HeldLock(nil), t.held...)
		n.threads = append(n.threads, &nt)
	}
	if st.mon != nil {
		n.mon = st.mon.Clone()
	}
	return n
}

func (st *State) th() *Thread { return st.threads[st.cur] }

func (st *State) top() *Frame {
	t := st.th()
	return st.own(t, len(t.frames)-1)
}

func (st *State) own(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.owner != st {
		nf := *f
		nf.owner = st
		nf.regs = append([]*V(nil), f.regs...)
		nf.defers = append([]deferred(nil), f.defers...)
		nf.visits = map[int]int{}
		for k, v := range f.visits {
			nf.visits[k] = v
		}
		nf.forked = map[int]bool{}
		for k, v := range f.forked {
			nf.forked[k] = v
		}
		t.frames[i] = &nf
		return &nf
	}
	return f
}

// ---- facts

type forkBool struct{ c *V }
type forkN struct{ n int }

func not(c *V) *V {
	if c == vTrue {
		return vFalse
	}
	if c == vFalse {
		return vTrue
	}
	if c.k == VApp && c.op == "!" {
		return c.args[0]
	}
	return mkApp("!", c)
}

func isRef(v *V) bool {
	switch v.k {
	case VAlloc, VFunc, VClosure, VIface, VPtr, VGlobal:
		return true
	case VSlice:
		return true
	case VSym:
		return strings.HasPrefix(v.op, "nn:")
	case VApp:
		return strings.HasPrefix(v.op, "nn:")
	}
	return false
}

// eqTerm gives a constant when equality is decided by the shape of the terms
func eqTerm(a, b *V) *V {
	if a == b {
		return vTrue
	}
	if a.k == VConst && b.k == VConst {
		if a.c.Kind() == b.c.Kind() {
			return mkBool(constant.Compare(a.c, token.EQL, b.c))
		}
		return vFalse
	}
	if a.k == VNil {
		a, b = b, a
	}
	if b.k == VNil {
		if isRef(a) {
			return vFalse
		}
		if a.k == VConst {
			return vFalse
		}
		return mkApp("==", a, b)
	}
	if a.k == VIface && b.k == VIface {
		if !types.Identical(a.t, b.t) {
			return vFalse
		}
		return eqTerm(a.args[0], b.args[0])
	}
	if a.k == VStruct && b.k == VStruct && len(a.args) == len(b.args) {
		var res *V = vTrue
		for i := range a.args {
			e := eqTerm(a.args[i], b.args[i])
			if e == vFalse {
				return vFalse
			}
			if e != vTrue {
				if res != vTrue {
					return mkApp("==", a, b)
				}
				res = e
			}
		}
		return res
	}
	objLike := func(v *V) bool {
		return v.k == VAlloc || v.k == VFunc || v.k == VClosure || v.k == VGlobal || v.k == VPtr
	}
	if objLike(a) && objLike(b) {
		return vFalse
	}
	// an object allocated here differs from every value that existed before
	if a.k == VAlloc && (b.k == VSym && b.n < a.n) || b.k == VAlloc && (a.k == VSym && a.n < b.n) {
		return vFalse
	}
	if a.k == VIface && objLike(a.args[0]) && b.k == VSym && a.args[0].k == VAlloc && b.n < a.args[0].n {
		return vFalse
	}
	if strings.HasPrefix(a.op, "nn:uniq") || strings.HasPrefix(b.op, "nn:uniq") {
		return vFalse
	}
	if a.k == VConst || (b.k != VConst && a.id > b.id) {
		a, b = b, a
	}
	return mkApp("==", a, b)
}

func (st *State) constOf(v *V) *V {
	if v.k == VConst || v.k == VNil {
		return v
	}
	if c := st.facts[v]; c != nil {
		return c
	}
	return nil
}

// truth of a condition under the facts of this state
func (st *State) truth(c *V) (bool, bool) {
	switch {
	case c == vTrue:
		return true, true
	case c == vFalse:
		return false, true
	}
	if f := st.facts[c]; f != nil {
		return f == vTrue, true
	}
	if c.k != VApp {
		return false, false
	}
	switch c.op {
	case "!":
		b, ok := st.truth(c.args[0])
		return !b, ok
	case "==":
		a, b := c.args[0], c.args[1]
		ca, cb := st.constOf(a), st.constOf(b)
		if ca != nil && cb != nil {
			if ca == cb {
				return true, true
			}
			if r := eqTerm(ca, cb); r == vTrue || r == vFalse {
				return r == vTrue, true
			}
		}
		if (ca != nil && ca != a) || (cb != nil && cb != b) {
			na, nb := a, b
			if ca != nil {
				na = ca
			}
			if cb != nil {
				nb = cb
			}
			r := eqTerm(na, nb)
			if r == vTrue || r == vFalse {
				return r == vTrue, true
			}
			if f := st.facts[r]; f != nil {
				return f == vTrue, true
			}
		}
		if b.k == VConst && b.c.Kind() == constant.Int {
			iv := st.interval(a)
			if iv.hasLo && iv.lo > b.int() || iv.hasHi && iv.hi < b.int() {
				return false, true
			}
		}
	case "<":
		a, b := st.interval(c.args[0]), st.interval(c.args[1])
		if a.hasHi && b.hasLo && a.hi < b.lo {
			return true, true
		}
		if a.hasLo && b.hasHi && a.lo >= b.hi {
			return false, true
		}
		xa, na := plusConst(c.args[0])
		xb, nb := plusConst(c.args[1])
		if xa == xb {
			return na < nb, true
		}
		// xa+na < xb+nb, from what is known of sums of xa and xb
		for f, v := range st.facts {
			if f.k != VApp || f.op != "<" {
				continue
			}
			fa, ma := plusConst(f.args[0])
			fb, mb := plusConst(f.args[1])
			switch {
			case fa == xa && fb == xb && v == vTrue && na-nb <= ma-mb:
				return true, true // xa-xb < mb-ma <= nb-na
			case fa == xa && fb == xb && v == vFalse && na-nb >= ma-mb:
				return false, true
			case fa == xb && fb == xa && v == vTrue && nb-na <= ma-mb+1:
				return false, true // xb-xa <= mb-ma-1 <= na-nb
			case fa == xb && fb == xa && v == vFalse && nb-na > ma-mb:
				return true, true // xb-xa >= mb-ma > na-nb
			}
		}
	case "&&":
		a, ok := st.truth(c.args[0])
		if ok && !a {
			return false, true
		}
		b, ok2 := st.truth(c.args[1])
		if ok2 && !b {
			return false, true
		}
		if ok && ok2 {
			return true, true
		}
	}
	return false, false
}

// plusConst splits a term into a base and a constant
func plusConst(v *V) (*V, int64) {
	if v.k == VApp && (v.op == "+" || v.op == "-") && len(v.args) == 2 && v.args[1].isInt() {
		n := v.args[1].int()
		if v.op == "-" {
			n = -n
		}
		b, m := plusConst(v.args[0])
		return b, n + m
	}
	return v, 0
}

func (st *State) interval(v *V) ival {
	if v.isInt() {
		return ival{v.int(), v.int(), true, true}
	}
	if c := st.constOf(v); c != nil && c.isInt() {
		return ival{c.int(), c.int(), true, true}
	}
	r := st.iv[v]
	if v.k == VApp && (v.op == "len" || v.op == "cap") && (!r.hasLo || r.lo < 0) {
		r.hasLo, r.lo = true, 0
	}
	if v.k == VApp && v.op == "len" && v.args[0].k == VApp && v.args[0].op == "cat" {
		n := int64(0)
		for _, p := range v.args[0].args {
			if p.isStr() {
				n += int64(len(p.str()))
			}
		}
		if n > r.lo {
			r.lo = n
		}
	}
	if v.k == VApp && (v.op == "+" || v.op == "-") && len(v.args) == 2 {
		a, b := st.interval(v.args[0]), st.interval(v.args[1])
		if v.op == "-" {
			b = ival{-b.hi, -b.lo, b.hasHi, b.hasLo}
		}
		if a.hasLo && b.hasLo && (!r.hasLo || a.lo+b.lo > r.lo) {
			r.hasLo, r.lo = true, a.lo+b.lo
		}
		if a.hasHi && b.hasHi && (!r.hasHi || a.hi+b.hi < r.hi) {
			r.hasHi, r.hi = true, a.hi+b.hi
		}
	}
	return r
}

// assume adds a fact; false if it contradicts what is known
func (st *State) assume(c *V, val bool) bool {
	if t, ok := st.truth(c); ok {
		return t == val
	}
	if c.k == VApp {
		switch c.op {
		case "!":
			return st.assume(c.args[0], !val)
		case "==":
			a, b := c.args[0], c.args[1]
			if val {
				if b.k == VConst || b.k == VNil {
					st.facts[a] = b
				} else if cb := st.constOf(b); cb != nil {
					st.facts[a] = cb
				} else if ca := st.constOf(a); ca != nil {
					st.facts[b] = ca
				}
			} else if b.isInt() {
				iv := st.interval(a)
				if iv.hasLo && iv.lo == b.int() {
					iv.lo++
					st.iv[a] = iv
				}
				if iv.hasHi && iv.hi == b.int() {
					iv.hi--
					st.iv[a] = iv
				}
			}
			st.facts[c] = mkBool(val)
			if b == vNil {
				// a nil error says that the other results are there
				for _, r := range st.corr[a] {
					if val {
						if !st.assume(mkEq(r, vNil), false) {
							return false
						}
					}
				}
			}
			return true
		case "<":
			a, b := c.args[0], c.args[1]
			ia, ib := st.interval(a), st.interval(b)
			if val {
				if ib.hasHi && (!ia.hasHi || ib.hi-1 < ia.hi) {
					ia.hasHi, ia.hi = true, ib.hi-1
					st.iv[a] = ia
				}
				if ia.hasLo && (!ib.hasLo || ia.lo+1 > ib.lo) {
					ib.hasLo, ib.lo = true, ia.lo+1
					st.iv[b] = ib
				}
			} else {
				if ib.hasLo && (!ia.hasLo || ib.lo > ia.lo) {
					ia.hasLo, ia.lo = true, ib.lo
					st.iv[a] = ia
				}
				if ia.hasHi && (!ib.hasHi || ia.hi < ib.hi) {
					ib.hasHi, ib.hi = true, ia.hi
					st.iv[b] = ib
				}
			}
		}
	}
	st.facts[c] = mkBool(val)
	return true
}

func mkEq(a, b *V) *V { return eqTerm(a, b) }

// is decides a condition, splitting the state if the facts do not
func (st *State) is(c *V) bool {
	if t, ok := st.truth(c); ok {
		return t
	}
	panic(forkBool{c})
}

// choose picks one of n alternatives; every one is explored
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.cpos < len(st.choices) {
		c := st.choices[st.cpos]
		st.cpos++
		return c
	}
	panic(forkN{n})
}

func (st *State) nonnil(v *V) {
	if v.k == VSym || v.k == VApp {
		st.assume(mkEq(v, vNil), false)
	}
}

func (st *State) isNil(v *V) bool { return st.is(mkEq(v, vNil)) }

// ---- memory

func fieldPath(i int) string { return "." + strconv.Itoa(i) }
func elemPath(i *V) string {
	if i.isInt() {
		return "[" + strconv.FormatInt(i.int(), 10) + "]"
	}
	return "[#" + strconv.Itoa(i.id) + "]"
}

func zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
		return vNil
	case *types.Struct:
		vs := make([]*V, u.NumFields())
		for i := range vs {
			vs[i] = zero(u.Field(i).Type())
		}
		return mkStruct(t, vs)
	case *types.Array:
		if u.Len() > 64 {
			return mkAppT("zeroarray", t)
		}
		vs := make([]*V, u.Len())
		for i := range vs {
			vs[i] = zero(u.Elem())
		}
		return mkStruct(t, vs)
	}
	return vNil
}

func (st *State) get(l Loc) *V {
	if v, ok := st.mem[l]; ok {
		return v
	}
	if st.E.base != nil {
		if v, ok := st.E.base[l]; ok {
			return v
		}
	}
	return nil
}

func (st *State) load(l Loc, t types.Type) *V {
	if v := st.get(l); v != nil {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vs := make([]*V, u.NumFields())
		for i := range vs {
			vs[i] = st.load(Loc{l.base, l.path + fieldPath(i)}, u.Field(i).Type())
		}
		return mkStruct(t, vs)
	case *types.Array:
		if u.Len() <= 64 {
			vs := make([]*V, u.Len())
			for i := range vs {
				vs[i] = st.load(Loc{l.base, l.path + "[" + strconv.Itoa(i) + "]"}, u.Elem())
			}
			return mkStruct(t, vs)
		}
	}
	// part of something stored as a whole?
	if i := strings.LastIndexAny(l.path, ".["); i >= 0 {
		for j := i; j >= 0; j = strings.LastIndexAny(l.path[:j], ".[") {
			if v := st.get(Loc{l.base, l.path[:j]}); v != nil {
				return projPath(v, l.path[j:])
			}
		}
	}
	if l.base.k == VAlloc || l.base.k == VGlobal && st.E.zeroGlobal(l.base.g) {
		if !strings.Contains(l.path, "[#") {
			return zero(t)
		}
		return mkApp("elem", l.base, mkStr(l.path))
	}
	// initial content of an object that existed before
	if strings.Contains(l.path, "[") {
		return initPath(l.base, l.path)
	}
	return mkApp("ld", l.base, mkStr(l.path))
}

func initPath(base *V, path string) *V {
	return mkApp("ld", base, mkStr(path))
}

// projection of a value along a path such as .1.2 or [3]
func projPath(v *V, path string) *V {
	for path != "" {
		if path[0] == '.' {
			j := strings.IndexAny(path[1:], ".[")
			f := path[1:]
			if j >= 0 {
				f, path = path[1:1+j], path[1+j:]
			} else {
				path = ""
			}
			n, _ := strconv.Atoi(f)
			v = structField(v, n)
			continue
		}
		j := strings.Index(path, "]")
		x := path[1:j]
		path = path[j+1:]
		if n, err := strconv.Atoi(x); err == nil {
			if v.k == VStruct && n < len(v.args) {
				v = v.args[n]
			} else {
				v = mkApp("elem", v, mkInt(int64(n)))
			}
		} else {
			v = mkApp("elem", v, mkStr(x))
		}
	}
	return v
}

func (st *State) clear(l Loc) {
	for k := range st.mem {
		if k.base == l.base && len(k.path) > len(l.path) && strings.HasPrefix(k.path, l.path) {
			if c := k.path[len(l.path)]; c == '.' || c == '[' {
				delete(st.mem, k)
			}
		}
	}
}

func (st *State) store(l Loc, t types.Type, v *V) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			st.store(Loc{l.base, l.path + fieldPath(i)}, u.Field(i).Type(), structField(v, i))
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := 0; i < int(u.Len()); i++ {
				var e *V
				if v.k == VStruct {
					e = v.args[i]
				} else {
					e = mkApp("elem", v, mkInt(int64(i)))
				}
				st.store(Loc{l.base, l.path + "[" + strconv.Itoa(i) + "]"}, u.Elem(), e)
			}
			return
		}
	}
	st.mem[l] = v
}

func (st *State) obj(v *V) *Obj {
	if o := st.objs[v]; o != nil {
		return o
	}
	if st.E.baseObjs != nil {
		return st.E.baseObjs[v]
	}
	return nil
}

// ---- state key: equal for states that differ only in names of objects and
// symbols and in what can no longer be reached

type canon struct {
	st    *State
	num   map[*V]int
	sb    []byte
	queue []*V
	depth int
}

func (c *canon) str(s string) { c.sb = append(c.sb, s...) }
func (c *canon) int(i int)    { c.sb = strconv.AppendInt(c.sb, int64(i), 10); c.sb = append(c.sb, ' ') }

func (c *canon) val(v *V) {
	if v == nil {
		c.str("_ ")
		return
	}
	switch v.k {
	case VConst, VNil, VFunc, VGlobal:
		c.str("k")
		c.int(v.id)
		if v.k == VGlobal {
			c.visit(v)
		}
		return
	}
	if n, ok := c.num[v]; ok {
		c.str("#")
		c.int(n)
		return
	}
	switch v.k {
	case VSym, VAlloc:
		n := len(c.num)
		c.num[v] = n
		c.str("n")
		c.int(n)
		c.str(v.op)
		c.str(" ")
		c.queue = append(c.queue, v)
		return
	}
	c.sb = append(c.sb, 'a'+byte(v.k))
	c.str(v.op)
	if v.fn != nil {
		c.int(c.st.E.fnID(v.fn))
	}
	c.int(typeID(v.t))
	if v.k == VSlice {
		c.int(v.lo)
		c.int(v.hi)
	}
	c.str("(")
	for _, a := range v.args {
		c.val(a)
	}
	c.str(")")
	n := len(c.num)
	c.num[v] = n
	if v.k == VApp {
		c.queue = append(c.queue, v)
	}
}

func (c *canon) visit(v *V) {
	if _, ok := c.num[v]; !ok {
		c.num[v] = len(c.num)
		c.queue = append(c.queue, v)
	}
}

// known tells whether all symbols of the term have been reached
func (c *canon) known(v *V) bool {
	switch v.k {
	case VConst, VNil, VFunc, VGlobal:
		return true
	case VSym, VAlloc:
		_, ok := c.num[v]
		return ok
	}
	if _, ok := c.num[v]; ok {
		return true
	}
	for _, a := range v.args {
		if !c.known(a) {
			return false
		}
	}
	return true
}

func (st *State) key() string {
	c := &canon{st: st, num: map[*V]int{}}
	c.int(st.cur)
	if st.granted {
		c.str("G")
	}
	for _, t := range st.threads {
		c.str("T")
		if t.ended {
			c.str("e")
			continue
		}
		c.val(t.panicking)
		for i, f := range t.frames {
			c.int(st.E.fnID(f.fn))
			c.int(f.block.Index)
			c.int(f.pc)
			c.str(f.hookID)
			if f.spawned {
				c.str("s")
			}
			for _, d := range f.defers {
				c.str("D")
				c.val(d.fn)
				for _, a := range d.args {
					c.val(a)
				}
			}
			pc := f.pc
			if i == len(t.frames)-1 {
				pc = f.pc - 1
			}
			if f.pc == 0 { // the phis have been evaluated by the jump
				for n, in := range f.block.Instrs {
					if _, ok := in.(*ssa.Phi); !ok {
						break
					}
					if n > pc {
						pc = n
					}
				}
			}
			for _, r := range f.info.liveList(f.block, pc) {
				c.int(r)
				c.val(f.regs[r])
			}
		}
		for _, h := range t.held {
			c.str("H")
			c.val(h.l.base)
			c.str(h.l.path)
		}
	}
	if st.mon != nil {
		st.mon.Key(c)
	}
	var ns []string
	for k := range st.note {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		c.str(k)
		c.val(st.note[k])
	}
	// globals that were written are always reachable
	var gl []*V
	for l := range st.mem {
		if l.base.k == VGlobal {
			gl = append(gl, l.base)
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].id < gl[j].id })
	for _, g := range gl {
		c.visit(g)
	}
	by := map[*V][]Loc{}
	for l := range st.mem {
		by[l.base] = append(by[l.base], l)
	}
	done := map[*V]bool{}
	for {
		for len(c.queue) > 0 {
			v := c.queue[0]
			c.queue = c.queue[1:]
			c.object(v, by, done)
		}
		// content of objects that are only named by a term
		var more []*V
		for b := range by {
			if !done[b] && c.known(b) {
				more = append(more, b)
			}
		}
		for b := range st.objs {
			if !done[b] && c.known(b) {
				more = append(more, b)
			}
		}
		if len(more) == 0 {
			break
		}
		sort.Slice(more, func(i, j int) bool { return c.term(more[i]) < c.term(more[j]) })
		for _, b := range more {
			if !done[b] {
				c.object(b, by, done)
			}
		}
	}
	// facts
	var fs []string
	for a, b := range st.facts {
		if c.known(a) && c.known(b) {
			fs = append(fs, c.term(a)+"="+c.term(b))
		} else {
			delete(st.facts, a) // about nothing that is still there
		}
	}
	for a, b := range st.iv {
		if c.known(a) {
			s := c.term(a) + "in"
			if b.hasLo {
				s += strconv.FormatInt(b.lo, 10)
			}
			s += ".."
			if b.hasHi {
				s += strconv.FormatInt(b.hi, 10)
			}
			fs = append(fs, s)
		} else {
			delete(st.iv, a)
		}
	}
	// what nothing refers to any more
	for b, ls := range by {
		if !done[b] && b.k != VGlobal && !c.known(b) {
			for _, l := range ls {
				delete(st.mem, l)
			}
		}
	}
	for b := range st.objs {
		if !done[b] && b.k != VGlobal && !c.known(b) {
			delete(st.objs, b)
		}
	}
	for b := range st.corr {
		if !c.known(b) {
			delete(st.corr, b)
		}
	}
	for b := range st.pub {
		if !c.known(b) {
			delete(st.pub, b)
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		c.str(f)
		c.str("\n")
	}
	h := fnv.New128a()
	h.Write(c.sb)
	return string(h.Sum(nil))
}

func (c *canon) object(v *V, by map[*V][]Loc, done map[*V]bool) {
	if done[v] {
		return
	}
	done[v] = true
	if c.st.pub[v] {
		c.str("P")
	}
	ls := by[v]
	if len(ls) > 0 {
		sort.Slice(ls, func(i, j int) bool { return ls[i].path < ls[j].path })
		c.str("M")
		if n, ok := c.num[v]; ok {
			c.int(n)
		} else {
			c.str(c.term(v))
		}
		for _, l := range ls {
			c.str(l.path)
			c.str("=")
			c.val(c.st.mem[l])
		}
	}
	if o := c.st.objs[v]; o != nil {
		c.str("O")
		if n, ok := c.num[v]; ok {
			c.int(n)
		} else {
			c.str(c.term(v))
		}
		c.str(o.kind)
		for _, e := range o.entries {
			c.val(e.k)
			c.val(e.v)
			if e.present {
				c.str("+")
			}
		}
		c.val(o.rest)
		c.val(o.cap)
		if o.closed {
			c.str("c")
		}
		if o.maybeClosed {
			c.str("m")
		}
		if o.sent > 0 {
			c.str("s")
			c.int(o.sent)
		}
	}
}

// term prints a term whose symbols are all numbered
func (c *canon) term(v *V) string {
	if v == nil {
		return "_"
	}
	switch v.k {
	case VConst, VNil, VFunc, VGlobal:
		return "k" + strconv.Itoa(v.id)
	case VSym, VAlloc:
		return "#" + strconv.Itoa(c.num[v])
	}
	if n, ok := c.num[v]; ok && v.k != VApp {
		return "#" + strconv.Itoa(n)
	}
	var sb strings.Builder
	sb.WriteString(v.op)
	if v.t != nil {
		sb.WriteString(strconv.Itoa(typeID(v.t)))
	}
	sb.WriteString("(")
	for i, a := range v.args {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(c.term(a))
	}
	sb.WriteString(")")
	return sb.String()
}
