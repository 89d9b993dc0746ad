package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// evaluated package initialisation: global tables and error values
type baseState struct {
	mem    map[Loc]*V
	objs   map[*V]*Obj
	pub    map[*V]bool // what package variables lead to
	limits []string
}

func (P *Prog) evalInit() *baseState {
	b := &baseState{mem: map[Loc]*V{}, objs: map[*V]*Obj{}}
	var paths []string
	for p := range P.ByPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		pk := P.ByPath[p]
		if P.isExample(pk.Pkg) {
			continue
		}
		fn := pk.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		var end *State
		cfg := &Cfg{NoDedup: true, Init: true, NoInline: func(f *ssa.Function) bool { return f != nil && f.Name() == "init" && f.Synthetic != "" && f.Pkg != pk }}
		E := newExplorer(P, cfg)
		cfg.OnEnd = func(st *State, t *Thread, res []*V) {
			if end == nil {
				end = st
			} else {
				E.limit("package initialisation of " + p + " is not decided")
			}
		}
		E.base, E.baseObjs = b.mem, b.objs
		st := newState(E)
		st.threads = nil
		st.spawnThread("init", mkFunc(fn), nil)
		E.Explore(st)
		b.limits = append(b.limits, E.Limits...)
		if end != nil {
			for l, v := range end.mem {
				b.mem[l] = v
			}
			for o, v := range end.objs {
				b.objs[o] = v
			}
		}
	}
	end := newState(nil)
	end.E = &Explorer{P: P, Cfg: &Cfg{}}
	end.mem, end.objs = b.mem, b.objs
	for l, v := range b.mem {
		if l.base.k == VGlobal {
			end.publish(v)
		}
	}
	b.pub = end.pub
	return b
}

// newRun prepares an exploration on top of the initialised globals
func (C *Checker) newRun(cfg *Cfg) *Explorer {
	E := newExplorer(C.P, cfg)
	E.base = map[Loc]*V{}
	for l, v := range C.base.mem {
		if l.base.k == VGlobal && C.P.mutable["global "+l.base.g.String()] && !C.keepGlobals {
			continue
		}
		E.base[l] = v
	}
	E.baseObjs, E.basePub = C.base.objs, C.base.pub
	for _, g := range C.mutableGlobals() {
		if C.keepGlobals {
			break
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		if nilable(t) {
			E.base[Loc{mkGlobal(g), ""}] = C.globalSym(g)
		}
	}
	C.runs = append(C.runs, E)
	return E
}

func (C *Checker) mutableGlobals() []*ssa.Global {
	if C.mutG != nil {
		return C.mutG
	}
	for _, pk := range C.P.ByPath {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && C.P.mutable["global "+g.String()] {
				C.mutG = append(C.mutG, g)
			}
		}
	}
	sort.Slice(C.mutG, func(i, j int) bool { return C.mutG[i].String() < C.mutG[j].String() })
	return C.mutG
}

func (C *Checker) globalSym(g *ssa.Global) *V {
	if C.gsyms == nil {
		C.gsyms = map[*ssa.Global]*V{}
	}
	if C.gsyms[g] == nil {
		C.gsyms[g] = mkSym("nn:global "+g.Name(), g.Type().Underlying().(*types.Pointer).Elem())
	}
	return C.gsyms[g]
}

// param makes a value for a parameter the caller supplies
func param(name string, t types.Type) *V {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return mkSym("nn:param "+name, t)
	}
	return mkSym("param "+name, t)
}

func params(fn *ssa.Function) []*V {
	var vs []*V
	for _, p := range fn.Params {
		vs = append(vs, param(p.Name(), p.Type()))
	}
	return vs
}

// start makes a state whose one goroutine calls fn
func start(E *Explorer, mon Monitor, fn *V, args []*V) *State {
	st := newState(E)
	st.mon = mon
	st.spawnThread("main", fn, args)
	return st
}

// next makes a state that continues with another call on the memory of st
func (st *State) then(E *Explorer, mon Monitor, fn *V, args []*V) *State {
	n := st.clone()
	n.E = E
	n.threads = nil
	n.cur = 0
	n.done = false
	n.pend = nil
	n.choices, n.cpos = nil, 0
	n.granted = false
	n.mon = mon
	n.spawnThread("main", fn, args)
	return n
}

type endRec struct {
	st       *State
	res      []*V
	panicked *V
}

// runAll explores and collects the final states of the first goroutine
func (C *Checker) runAll(E *Explorer, sts ...*State) []endRec {
	var out []endRec
	old := E.Cfg.OnEnd
	E.Cfg.OnEnd = func(st *State, t *Thread, res []*V) {
		out = append(out, endRec{st.clone(), res, t.panicking})
		if old != nil {
			old(st, t, res)
		}
	}
	E.Explore(sts...)
	E.Cfg.OnEnd = old
	return out
}
