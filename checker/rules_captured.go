package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Local variables that a goroutine shares with the function that starts it.

type cellUse struct {
	in    ssa.Instruction
	write bool
}

// cellUses: loads and stores of a variable in the function, and in the
// functions it makes and does not start; known is false if the address of the
// variable goes elsewhere
func cellUses(v ssa.Value, d int) (out []cellUse, known bool) {
	if v.Referrers() == nil || d == 0 {
		return nil, false
	}
	known = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			out = append(out, cellUse{x, false})
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				for _, u := range *x.Referrers() {
					if m, ok := u.(*ssa.MapUpdate); ok {
						out = append(out, cellUse{m, true})
					}
				}
			}
		case *ssa.Store:
			if x.Addr != v {
				return nil, false
			}
			out = append(out, cellUse{x, true})
		case *ssa.FieldAddr, *ssa.IndexAddr:
			o, k := cellUses(x.(ssa.Value), d-1)
			if !k {
				return nil, false
			}
			out = append(out, o...)
		case *ssa.MakeClosure, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, known
}

// boundTo: the free variable of the closure that is the variable
func boundTo(mc *ssa.MakeClosure, v ssa.Value) *ssa.FreeVar {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b == v && i < len(f.FreeVars) {
			return f.FreeVars[i]
		}
	}
	return nil
}

// reachesInstr: b may run after a
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

func isTimerChan(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			return g.String() == "time.After" || g.String() == "time.Tick"
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type()).String()
			return t == "time.Timer" || t == "time.Ticker"
		}
	}
	return false
}

// mayOrder: the instruction may make another goroutine's steps come before
// (wait) or after (signal) what it is next to
func (C *Checker) mayOrder(in ssa.Instruction, wait bool, seen map[*ssa.Function]bool) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return wait && x.Op == token.ARROW && !isTimerChan(x.X)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly && !wait || s.Dir == types.RecvOnly && wait && !isTimerChan(s.Chan) {
				return true
			}
		}
	case *ssa.Send:
		return !wait
	case *ssa.RunDefers, *ssa.MakeClosure:
		return false
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		com := x.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			return b.Name() == "close" && !wait
		}
		g := com.StaticCallee()
		if g == nil {
			// a function that is not known; methods of contexts, messages,
			// loggers and errors order nothing
			return !com.IsInvoke() || com.Method.Name() == "Wait"
		}
		switch n := g.String(); {
		case strings.HasPrefix(n, "(*sync.WaitGroup)."):
			return strings.HasSuffix(n, "Wait") == wait
		case strings.HasPrefix(n, "(*sync.Once)."), strings.HasPrefix(n, "(*sync.Cond)."), strings.HasPrefix(n, "sync/atomic."), strings.HasPrefix(n, "(*sync/atomic."):
			return true
		}
		if g.Blocks == nil || !C.P.ownFunc(g) || seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, y := range b.Instrs {
				if C.mayOrder(y, wait, seen) {
					return true
				}
			}
		}
	}
	return false
}

// waitsBefore: something that may wait for the other goroutine always comes
// before the instruction
func (C *Checker) waitsBefore(in ssa.Instruction, after ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if !C.mayOrder(x, true, map[*ssa.Function]bool{}) || !dominatesInstr(x, in) || after != nil && !reachesInstr(after, x) {
				continue
			}
			sel, ok := x.(*ssa.Select)
			if !ok || !C.timerCase(sel, in) {
				return true
			}
		}
	}
	return false
}

// timerCase: the instruction is in the case of a select that waits for time
func (C *Checker) timerCase(sel *ssa.Select, in ssa.Instruction) bool {
	for _, r := range *sel.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, u := range *ex.Referrers() {
			cmp, ok := u.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				continue
			}
			k, ok := cmp.Y.(*ssa.Const)
			if !ok {
				continue
			}
			i := int(k.Int64())
			if i >= len(sel.States) || sel.States[i].Dir != types.RecvOnly || !isTimerChan(sel.States[i].Chan) {
				continue
			}
			for _, v := range *cmp.Referrers() {
				if f, ok := v.(*ssa.If); ok && f.Block().Succs[0].Dominates(in.Block()) && len(f.Block().Succs[0].Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (C *Checker) signalsAfter(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if C.mayOrder(x, false, map[*ssa.Function]bool{}) {
				if _, ok := x.(*ssa.Defer); ok || reachesInstr(in, x) {
					return true
				}
			}
		}
	}
	return false
}

// lockedAt: a lock is taken before the instruction and not released in between
func lockedAt(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || !isLockCall(c, "Lock", "RLock") || !dominatesInstr(x, in) {
				continue
			}
			released := false
			for _, d := range in.Parent().Blocks {
				for _, y := range d.Instrs {
					if u, ok := y.(*ssa.Call); ok && isLockCall(u, "Unlock", "RUnlock") && dominatesInstr(x, y) && reachesInstr(y, in) && dominatesInstr(y, in) {
						released = true
					}
				}
			}
			if !released {
				return true
			}
		}
	}
	return false
}

func isLockCall(c *ssa.Call, names ...string) bool {
	n := ""
	if c.Call.IsInvoke() {
		n = c.Call.Method.Name()
	} else if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*sync.") {
		n = g.Name()
	}
	for _, x := range names {
		if x == n {
			return true
		}
	}
	return false
}

// started: the instructions that start the closure as a goroutine
func started(mc *ssa.MakeClosure) []ssa.Instruction {
	var out []ssa.Instruction
	if mc.Referrers() == nil {
		return nil
	}
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.Go:
			if x.Call.Value == ssa.Value(mc) {
				out = append(out, x)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.String() == "time.AfterFunc" {
				out = append(out, x)
			}
		}
	}
	return out
}

// c14captured: a variable that a goroutine has in common with the function
// that started it, or with others started there, is ordered or locked
func (C *Checker) c14captured(R *Report) {
	for _, f := range C.P.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap {
					C.capturedCell(R, f, a)
				}
			}
		}
	}
}

func (C *Checker) capturedCell(R *Report, f *ssa.Function, a *ssa.Alloc) {
	if a.Referrers() == nil {
		return
	}
	type run struct {
		at   ssa.Instruction
		uses []cellUse
	}
	var runs []run
	own, known := cellUses(a, 4)
	if !known {
		return
	}
	for _, r := range *a.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		fv := boundTo(mc, a)
		if fv == nil {
			return
		}
		us, known := cellUses(fv, 4)
		if !known {
			return
		}
		ss := started(mc)
		for _, s := range ss {
			runs = append(runs, run{s, us})
		}
		if len(ss) == 0 {
			// called, or deferred, by the function itself
			for _, u := range us {
				own = append(own, cellUse{mc, u.write})
			}
		}
	}
	if len(runs) == 0 {
		return
	}
	R.count("captured_variables", 1)
	name := a.Comment
	report := func(x, y cellUse) {
		R.add(C.short(f), fmt.Sprintf("the variable %s is used in %s and in %s by goroutines that run at the same time, without a lock", name, C.short(x.in.Parent()), C.short(y.in.Parent())), x.in.Pos(), nil)
	}
	for _, g := range runs {
		for _, x := range g.uses {
			for _, y := range own {
				if !x.write && !y.write || !reachesInstr(g.at, y.in) {
					continue
				}
				// each round of a loop may have a variable of its own
				if reachesInstr(y.in, a) && !reachableWithout(g.at, y.in, a.Block()) {
					continue
				}
				if lockedAt(x.in) && lockedAt(y.in) {
					continue
				}
				if C.signalsAfter(x.in) && C.waitsBefore(y.in, g.at) || C.signalsAfter(y.in) && C.waitsBefore(x.in, nil) {
					continue
				}
				report(x, y)
				return
			}
			// the same goroutine again
			if x.write && !lockedAt(x.in) && reachableWithout(g.at, g.at, a.Block()) && !C.waitsBefore(g.at, g.at) {
				report(x, x)
				return
			}
		}
	}
}

// reachableWithout: b may run after a without the block in between
func reachableWithout(a, b ssa.Instruction, without *ssa.BasicBlock) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{without: true}
	todo := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if seen[x] {
			continue
		}
		if x == b.Block() {
			return true
		}
		seen[x] = true
		todo = append(todo, x.Succs...)
	}
	return false
}
