package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions the repository calls but does not define.

// pure functions: the result is a term over the arguments
var pureFuncs = map[string]string{
	"strings.TrimPrefix": "", "strings.TrimSuffix": "", "strings.TrimSpace": "", "strings.Trim": "", "strings.TrimLeft": "", "strings.TrimRight": "",
	"strings.ToLower": "", "strings.ToUpper": "", "strings.Title": "", "strings.Replace": "", "strings.ReplaceAll": "", "strings.Contains": "",
	"strings.HasPrefix": "", "strings.HasSuffix": "", "strings.Index": "", "strings.LastIndex": "", "strings.EqualFold": "", "strings.Split": "", "strings.Repeat": "", "strings.Fields": "",
	"bytes.TrimSpace": "", "bytes.Replace": "", "bytes.ReplaceAll": "", "bytes.Equal": "", "bytes.TrimPrefix": "", "bytes.HasPrefix": "", "bytes.Contains": "", "bytes.Map": "",
	"strconv.Itoa": "", "strconv.Quote": "", "strconv.FormatInt": "", "strconv.FormatFloat": "", "strconv.FormatBool": "",
	"net/url.PathEscape": "", "net/url.QueryEscape": "",
	"(time.Time).Format": "", "(time.Time).UTC": "", "(time.Time).IsZero": "", "(time.Time).Equal": "", "(time.Time).Unix": "", "(time.Time).Before": "", "(time.Time).After": "", "(time.Time).Sub": "", "(time.Duration).Seconds": "", "(time.Duration).String": "",
	"(time.Time).Add": "", "(time.Time).String": "", "(*time.Time).String": "",
	"(net/http.Header).Get":                               "x",
	"github.com/gorilla/websocket.IsUnexpectedCloseError": "", "github.com/gorilla/websocket.IsCloseError": "", "github.com/gorilla/websocket.IsWebSocketUpgrade": "",
	"errors.Is": "", "errors.Unwrap": "",
	"(encoding/xml.StartElement).End": "", "(encoding/xml.EndElement).End": "",
	"unicode.IsSpace": "", "path.Base": "", "path.Join": "", "(*net/url.URL).String": "", "(*net/url.URL).EscapedPath": "",
	"net/http.StatusText": "",
}

// functions whose non-error results exist when the error is nil
func isModelled(name string) bool { return false }

var foldStr = map[string]func(a []string) *V{
	"strings.ToLower":    func(a []string) *V { return mkStr(strings.ToLower(a[0])) },
	"strings.ToUpper":    func(a []string) *V { return mkStr(strings.ToUpper(a[0])) },
	"strings.Title":      func(a []string) *V { return mkStr(strings.Title(a[0])) },
	"strings.TrimPrefix": func(a []string) *V { return mkStr(strings.TrimPrefix(a[0], a[1])) },
	"strings.TrimSuffix": func(a []string) *V { return mkStr(strings.TrimSuffix(a[0], a[1])) },
	"strings.TrimSpace":  func(a []string) *V { return mkStr(strings.TrimSpace(a[0])) },
	"strings.TrimLeft":   func(a []string) *V { return mkStr(strings.TrimLeft(a[0], a[1])) },
	"strings.TrimRight":  func(a []string) *V { return mkStr(strings.TrimRight(a[0], a[1])) },
	"strings.Trim":       func(a []string) *V { return mkStr(strings.Trim(a[0], a[1])) },
	"strings.ReplaceAll": func(a []string) *V { return mkStr(strings.ReplaceAll(a[0], a[1], a[2])) },
	"strings.Contains":   func(a []string) *V { return mkBool(strings.Contains(a[0], a[1])) },
	"strings.HasPrefix":  func(a []string) *V { return mkBool(strings.HasPrefix(a[0], a[1])) },
	"strings.HasSuffix":  func(a []string) *V { return mkBool(strings.HasSuffix(a[0], a[1])) },
	"strings.EqualFold":  func(a []string) *V { return mkBool(strings.EqualFold(a[0], a[1])) },
	"strings.Index":      func(a []string) *V { return mkInt(int64(strings.Index(a[0], a[1]))) },
	"strconv.Quote":      func(a []string) *V { return mkStr(strconv.Quote(a[0])) },
}

func (st *State) pure(name string, args []*V) *V {
	as := make([]*V, len(args))
	allStr := len(args) > 0
	var ss []string
	for i, a := range args {
		if a.k == VSlice {
			a = st.snapshot(a)
		}
		if c := st.constOf(a); c != nil {
			a = c
		}
		as[i] = a
		if a.isStr() {
			ss = append(ss, a.str())
		} else {
			allStr = false
		}
	}
	if f := foldStr[name]; f != nil && allStr {
		return f(ss)
	}
	if strings.HasPrefix(name, "github.com/gorilla/websocket.Is") && strings.HasSuffix(name, "CloseError") && len(as) > 0 {
		if as[0] == vNil || as[0].k == VIface && !strings.HasSuffix(as[0].t.String(), "websocket.CloseError") {
			return vFalse
		}
	}
	if name == "strconv.Itoa" && as[0].isInt() {
		return mkStr(strconv.FormatInt(as[0].int(), 10))
	}
	return mkApp(name, as...)
}

// snapshot: a slice as a value (its current elements), for use in terms
func (st *State) snapshot(v *V) *V {
	if v.k != VSlice {
		return v
	}
	if b := st.bytesTerm(v); b.isStr() && v.args[0].t != nil {
		if at, ok := v.args[0].t.Underlying().(*types.Basic); ok && at.Kind() == types.Byte {
			return b
		}
		if at, ok := v.args[0].t.Underlying().(*types.Array); ok {
			if bt, ok := at.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
				return b
			}
		}
	}
	var es []*V
	et := elemType(v)
	for i := v.lo; i < v.hi; i++ {
		es = append(es, st.load(Loc{v.args[0], "[" + strconv.Itoa(i) + "]"}, et))
	}
	return mk(V{k: VApp, op: "list", args: es})
}

func elemType(v *V) types.Type {
	t := v.args[0].t
	if t == nil {
		return types.NewInterfaceType(nil, nil)
	}
	if a, ok := t.Underlying().(*types.Array); ok && v.args[0].k == VAlloc {
		return a.Elem()
	}
	return t
}

func (st *State) sliceElems(v *V) ([]*V, bool) {
	if v == vNil {
		return nil, true
	}
	if v.k == VApp && v.op == "list" {
		return v.args, true
	}
	if v.k != VSlice {
		return nil, false
	}
	return st.snapshotList(v), true
}

func (st *State) snapshotList(v *V) []*V {
	var es []*V
	et := elemType(v)
	for i := v.lo; i < v.hi; i++ {
		es = append(es, st.load(Loc{v.args[0], "[" + strconv.Itoa(i) + "]"}, et))
	}
	return es
}

func (st *State) newSlice(et types.Type, es []*V) *V {
	a := mkAlloc("slice", et)
	for i, e := range es {
		st.store(Loc{a, "[" + strconv.Itoa(i) + "]"}, et, e)
	}
	return mkSlice(a, 0, len(es))
}

// call executes a call; res results go to the waiting instruction
func (st *State) call(com *ssa.CallCommon, fn *V, args []*V, in ssa.Instruction, dst *ssa.Call, onRet func(*State, []*V) []*V, hook string) {
	st.callX(com, fn, args, in, onRet, hook)
}

func (st *State) finishNoFrame(in ssa.Instruction, res []*V, onRet func(*State, []*V) []*V, hook string) {
	if onRet != nil {
		res = onRet(st, res)
	}
	if hook == "deferpanic" {
		return
	}
	st.finishCall(in, res)
}

func (st *State) callX(com *ssa.CallCommon, fn *V, args []*V, in ssa.Instruction, onRet func(*State, []*V) []*V, hook string) {
	E := st.E
	finish := func(res []*V) { st.finishNoFrame(in, res, onRet, hook) }
	enter := func(f *ssa.Function, a, b []*V) {
		st.ev(&Event{Kind: "enter", Name: f.String(), Args: a, Instr: in, Fn: in.Parent()})
		nf := st.push(f, a, b, in, onRet, hook)
		if nf != nil {
			nf.heldBase = -1
			if hook == "go" {
				nf.heldBase = len(st.th().held)
			}
		}
	}
	if com.IsInvoke() {
		recv := fn
		m := com.Method
		if c := st.facts[recv]; c == vNil {
			recv = vNil
		}
		if recv == vNil {
			st.ev(&Event{Kind: "maypanic", Name: "nil", Val: recv, Instr: in, Block: true})
			st.startPanic(mkSym("nn:runtime error", nil), in)
			return
		}
		if recv.k == VIface && recv.t == ctxType {
			st.externInvoke(m, com, recv.args[0], args, in, finish)
			return
		}
		if recv.k == VIface {
			f := E.P.SSA.LookupMethod(recv.t, m.Pkg(), m.Name())
			if f != nil && f.Blocks != nil && !(E.Cfg.NoInline != nil && E.Cfg.NoInline(f)) {
				if E.Cfg.OnCall != nil {
					if h, res := E.Cfg.OnCall(st, f.String(), recv.args[0], args, in, com); h {
						finish(res)
						return
					}
				}
				enter(f, append([]*V{recv.args[0]}, args...), nil)
				return
			}
			name := m.FullName()
			if f != nil {
				name = f.String()
			}
			st.extern(name, com, recv.args[0], append([]*V{recv.args[0]}, args...), in, finish)
			return
		}
		st.derefCheck(recv, in)
		st.nonnil(recv)
		st.externInvoke(m, com, recv, args, in, finish)
		return
	}
	if fn.k == VApp && strings.HasPrefix(fn.op, "builtin ") {
		if res, ok := st.builtin(fn.op[8:], com, args, in, hook); ok {
			finish([]*V{res})
		}
		return
	}
	if fn.k == VApp && fn.op == "nn:cancel" {
		st.ev(&Event{Kind: "call", Name: "context.CancelFunc", Recv: fn, Args: args, Instr: in})
		st.cancelCtx(fn.args[0], in)
		finish(nil)
		return
	}
	callee, bind := calleeOf(fn)
	if callee == nil {
		if fn == vNil || st.facts[fn] == vNil {
			st.ev(&Event{Kind: "maypanic", Name: "nil", Val: fn, Instr: in, Block: true})
			st.startPanic(mkSym("nn:runtime error", nil), in)
			return
		}
		st.derefCheck(fn, in)
		if E.Cfg.OnCall != nil {
			if h, res := E.Cfg.OnCall(st, "$func", fn, args, in, com); h {
				finish(res)
				return
			}
		}
		if E.Cfg.UserPanics && hook != "go" {
			if st.choose(2) == 1 {
				st.ev(&Event{Kind: "user", Recv: fn, Args: args, Instr: in, Name: hook, Block: true})
				st.startPanic(mkSym("nn:userpanic", nil), in)
				return
			}
		}
		res := st.freshResults("user", com.Signature(), false)
		st.ev(&Event{Kind: "user", Recv: fn, Args: args, Instr: in, Res: res, Name: hook})
		for _, a := range args {
			st.publish(a)
		}
		finish(res)
		return
	}
	name := callee.String()
	if E.Cfg.OnCall != nil {
		var recv *V
		if callee.Signature.Recv() != nil && len(args) > 0 {
			recv = args[0]
		}
		if h, res := E.Cfg.OnCall(st, name, recv, args, in, com); h {
			finish(res)
			return
		}
	}
	if callee.Blocks != nil && !(E.Cfg.NoInline != nil && E.Cfg.NoInline(callee)) {
		enter(callee, args, bind)
		return
	}
	var recv *V
	if callee.Signature.Recv() != nil && len(args) > 0 {
		recv = args[0]
	}
	st.extern(name, com, recv, args, in, finish)
}

func (st *State) freshResults(label string, sig *types.Signature, pairs bool) []*V {
	var res []*V
	rs := sig.Results()
	var errV *V
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		v := mkSym(label, t)
		if isErrorType(t) {
			errV = v
		}
		res = append(res, v)
	}
	if errV != nil && pairs {
		var cs []*V
		for i := 0; i < rs.Len(); i++ {
			if res[i] != errV && nilable(rs.At(i).Type()) {
				cs = append(cs, res[i])
			}
		}
		st.corr[errV] = cs
	}
	if errV == nil && pairs && rs.Len() >= 1 {
		for i := 0; i < rs.Len(); i++ {
			if nilable(rs.At(i).Type()) {
				st.facts[mkApp("==", res[i], vNil)] = vFalse
			}
		}
	}
	return res
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

var errorIface = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorIface) }

// ---- builtins

func (st *State) builtin(name string, com *ssa.CallCommon, args []*V, in ssa.Instruction, hook string) (*V, bool) {
	switch name {
	case "len":
		a := args[0]
		if a.k == VSlice || a.isStr() || a == vNil {
			return mkLen(a), true
		}
		if c := st.facts[a]; c == vNil {
			return mkInt(0), true
		}
		if o := st.obj(a); o != nil && o.kind == "map" {
			st.ev(&Event{Kind: "maprange", Recv: a, Type: com.Args[0].Type(), Instr: in})
			if o.rest == nil {
				return mkInt(int64(len(o.entries))), true
			}
			return mkSym("len", nil), true
		}
		if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
			st.ev(&Event{Kind: "maprange", Recv: a, Type: com.Args[0].Type(), Instr: in})
			if !isPureTerm(a) {
				return mkSym("len", nil), true
			}
		}
		if _, ok := com.Args[0].Type().Underlying().(*types.Chan); ok {
			v := mkSym("chanlen", nil)
			st.iv[v] = ival{lo: 0, hasLo: true}
			return v, true
		}
		return mkLen(a), true
	case "cap":
		if o := st.obj(args[0]); o != nil && o.kind == "chan" && o.cap != nil {
			return o.cap, true
		}
		return mkApp("cap", args[0]), true
	case "append":
		a, b := args[0], args[1]
		var et types.Type
		if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
			return mkCat(st.bytesTerm(a), st.bytesTerm(b)), true
		}
		if c := st.facts[a]; c == vNil {
			a = vNil
		}
		ae, ok1 := st.sliceElems(a)
		be, ok2 := st.sliceElems(b)
		if ok1 && ok2 && len(ae)+len(be) < 200 {
			return st.newSlice(et, append(append([]*V(nil), ae...), be...)), true
		}
		return mkApp("append", st.snapshot(a), st.snapshot(b)), true
	case "copy":
		return mkSym("copied", nil), true
	case "delete":
		st.mapDelete(args[0], args[1], in)
		return vNil, true
	case "close":
		if why := st.closeChan(args[0], in); why != "" {
			st.startPanic(mkIface(types.Typ[types.String], mkStr(why)), in)
			return nil, false
		}
		return vNil, true
	case "panic":
		st.startPanic(args[0], in)
		return nil, false
	case "recover":
		th := st.th()
		f := st.top()
		if th.panicking != nil && f.fromPanic {
			v := th.panicking
			th.panicking = nil
			return v, true
		}
		return vNil, true
	case "print", "println":
		return vNil, true
	case "ssa:wrapnilchk":
		return args[0], true
	case "min", "max":
		return mkApp(name, args...), true
	case "clear":
		if o := st.obj(args[0]); o != nil {
			st.ev(&Event{Kind: "mapdel", Recv: args[0], Instr: in})
			n := *o
			n.entries, n.rest = nil, nil
			st.objs[args[0]] = &n
		}
		return vNil, true
	}
	return mkSym("builtin "+name, nil), true
}

func isPureTerm(v *V) bool {
	return v.k == VApp && (v.op == "dec" || v.op == "dyn" || v.op == "mapval")
}

// ---- contexts

func ctxDone(st *State, ctx *V) *V {
	if o := st.obj(ctx); o != nil && o.kind == "ctx" {
		return o.cap
	}
	return mkApp("nn:done", ctx)
}

func (st *State) cancelCtx(ctx *V, in ssa.Instruction) {
	d := ctxDone(st, ctx)
	if !st.chanClosed(d) {
		st.setClosed(d)
		st.ev(&Event{Kind: "cancel", Recv: ctx, Chan: d, Instr: in})
	}
	for c, o := range st.objs {
		if o.kind == "ctx" && len(o.entries) == 1 && o.entries[0].v == ctx {
			_ = c
			st.cancelCtx(c, in)
		}
	}
}

func (st *State) newCtx(parent *V) (*V, *V) {
	c := mkAlloc("ctx", nil)
	d := mkAlloc("done", nil)
	st.objs[d] = &Obj{kind: "chan", cap: mkInt(0)}
	st.objs[c] = &Obj{kind: "ctx", cap: d, entries: []entry{{v: parent, k: parent}}}
	if st.chanClosed(ctxDone(st, parent)) {
		st.setClosed(d)
	}
	return mkIface(ctxType, c), mkApp("nn:cancel", c)
}

var ctxType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "context", nil), types.NewStruct(nil, nil), nil))

// ---- locks

func (st *State) heldNow() []HeldLock {
	th := st.th()
	from := 0
	for _, f := range th.frames {
		if f.spawned || f.hookID == "go" {
			if f.heldBase > from {
				from = f.heldBase
			}
		}
	}
	if from > len(th.held) {
		from = len(th.held)
	}
	return th.held[from:]
}

func (st *State) lock(p *V, read bool, in ssa.Instruction) {
	l := p.loc()
	for _, h := range st.heldNow() {
		if h.l == l && !(read && h.read) {
			st.ev(&Event{Kind: "relock", Loc: l, Instr: in})
			st.done = true // it waits for itself for ever
			return
		}
	}
	k := "lock"
	if read {
		k = "rlock"
	}
	st.ev(&Event{Kind: k, Loc: l, Instr: in})
	th := st.th()
	th.held = append(th.held, HeldLock{l, read, in})
	if st.E.Cfg.OpenWorld {
		st.havocShared(l)
	}
}

func (st *State) unlock(p *V, read bool, in ssa.Instruction) {
	l := p.loc()
	th := st.th()
	for i := len(th.held) - 1; i >= 0; i-- {
		if th.held[i].l == l && th.held[i].read == read {
			st.ev(&Event{Kind: "unlock", Loc: l, Instr: in})
			th.held = append(append([]HeldLock(nil), th.held[:i]...), th.held[i+1:]...)
			return
		}
	}
	st.ev(&Event{Kind: "badunlock", Loc: l, Instr: in})
}

// havocShared: other goroutines may have changed the mutable fields of the
// object that holds the lock
func (st *State) havocShared(l Loc) {
	b := l.base
	if b.k == VAlloc && !st.isPub(b) {
		return
	}
	st.havocObject(b)
}

func (st *State) havocObject(b *V) {
	t := b.t
	if t == nil {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		l := Loc{b, fieldPath(i)}
		ft := s.Field(i).Type()
		if st.E.P.mutable[fieldName(t, i)] {
			v := mkSym("shared", ft)
			if nilable(ft) && st.E.Cfg.FieldNonNil != nil && st.E.Cfg.FieldNonNil(st, b, t, i, st.load(l, ft)) {
				st.facts[mkApp("==", v, vNil)] = vFalse
			}
			st.store(l, ft, v)
			continue
		}
		if _, ok := ft.Underlying().(*types.Map); ok {
			m := st.load(l, ft)
			st.objs[m] = &Obj{kind: "map", rest: mkApp("mapcontent", m, mkSym("content", nil)), et: ft}
		}
	}
}

// ---- external functions

func (st *State) text(v *V) *V { // text of an error or string value
	if v == vNil {
		return mkStr("<nil>")
	}
	return v
}

func (st *State) sprintf(format *V, args *V) *V {
	es, ok := st.sliceElems(args)
	if !format.isStr() || !ok {
		return mkApp("sprintf", format, st.snapshot(args))
	}
	var parts []*V
	s := format.str()
	n := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			parts = append(parts, mkStr(s[i:]))
			break
		}
		parts = append(parts, mkStr(s[i:i+j]))
		i += j + 1
		k := i
		for k < len(s) && strings.IndexByte("+-# 0123456789.[]", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			break
		}
		verb := s[k]
		flags := s[i:k]
		i = k + 1
		if verb == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if n >= len(es) {
			parts = append(parts, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := es[n]
		n++
		parts = append(parts, st.fmtArg(flags, verb, a))
	}
	if n < len(es) {
		parts = append(parts, mkApp("fmt-extra", es[n:]...))
	}
	return mkCat(parts...)
}

func (st *State) fmtArg(flags string, verb byte, a *V) *V {
	if flags == "" && (verb == 's' || verb == 'v') && a.k == VIface {
		if b, ok := a.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasMethod(a.t, "Error") && !hasMethod(a.t, "String") {
			return a.args[0]
		}
		if sl, ok := a.t.Underlying().(*types.Slice); ok && verb == 's' && types.Identical(sl.Elem(), types.Typ[types.Byte]) && !hasMethod(a.t, "Error") && !hasMethod(a.t, "String") {
			return st.bytesTerm(a.args[0])
		}
		if b, ok := a.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && a.args[0].isInt() && verb == 'v' {
			return mkStr(strconv.FormatInt(a.args[0].int(), 10))
		}
	}
	if flags == "" && verb == 'd' && a.k == VIface && a.args[0].isInt() {
		return mkStr(strconv.FormatInt(a.args[0].int(), 10))
	}
	if flags == "" && verb == 'q' && a.k == VIface && a.args[0].isStr() {
		return mkStr(strconv.Quote(a.args[0].str()))
	}
	if a.k == VSym || a.k == VApp || (a.k == VIface && hasMethod(a.t, "Error")) {
		if verb == 's' || verb == 'v' || verb == 'w' {
			return errText(a)
		}
	}
	return mkApp("fmt%"+flags+string(verb), a)
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// rtypeOf: the reflect.Type of a reflect.Value, without the value if its
// type is known
func rtypeOf(v *V) *V {
	if v.k == VApp && v.op == "reflect.ValueOf" && v.args[0].k == VIface {
		v = mkApp("reflect.ValueOf", mkIface(v.args[0].t, vNil))
	}
	return mkApp("nn:rtype", v)
}

// rtypeGo: the type a reflect.Type is known to stand for
func rtypeGo(v *V) types.Type {
	v = unwrap(v)
	if v.k == VApp && v.op == "nn:rtype" && v.args[0].k == VApp && v.args[0].op == "reflect.ValueOf" && v.args[0].args[0].k == VIface {
		return v.args[0].args[0].t
	}
	return nil
}

func (st *State) externInvoke(m *types.Func, com *ssa.CallCommon, recv *V, args []*V, in ssa.Instruction, finish func([]*V)) {
	name := m.FullName()
	if st.E.Cfg.OnCall != nil {
		if h, res := st.E.Cfg.OnCall(st, name, recv, args, in, com); h {
			finish(res)
			return
		}
	}
	switch m.Name() {
	case "Error":
		if len(args) == 0 {
			finish([]*V{errText(recv)})
			return
		}
	case "Done":
		if strings.HasPrefix(name, "(context.Context)") {
			finish([]*V{ctxDone(st, recv)})
			return
		}
	case "Err":
		if strings.HasPrefix(name, "(context.Context)") {
			st.ctxErr(recv, in, finish)
			return
		}
	case "Elem":
		if t := rtypeGo(recv); t != nil && name == "(reflect.Type).Elem" {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				finish([]*V{rtypeOf(mkApp("reflect.ValueOf", mkIface(p.Elem(), vNil)))})
				return
			}
		}
	case "Action", "Type", "ID", "Len", "String":
		if len(args) == 0 {
			finish([]*V{mkApp("."+m.Name(), recv)})
			return
		}
	case "GetResponse":
		// every request makes a new response
		r := mkSym("nn:response", nil)
		st.note["respof"] = nil
		delete(st.note, "respof")
		r = mkApp("nn:GetResponse", recv, mkSym("new", nil))
		finish([]*V{r})
		return
	}
	if m.Pkg() != nil && st.E.P.inRepo(m.Pkg()) {
		st.ev(&Event{Kind: "call", Name: name, Recv: recv, Args: args, Instr: in})
		res := st.freshResults("invoke", com.Signature(), true)
		finish(res)
		return
	}
	st.extern(name, com, recv, append([]*V{recv}, args...), in, finish)
}

func errText(e *V) *V {
	if e.k == VApp && e.op == "nn:error" {
		return e.args[1]
	}
	return mkApp("textof", e)
}

func (st *State) ctxErr(ctx *V, in ssa.Instruction, finish func([]*V)) {
	if ctx.k == VIface {
		ctx = ctx.args[0]
	}
	d := ctxDone(st, ctx)
	if st.chanClosed(d) {
		st.ev(&Event{Kind: "ctxerr", Recv: ctx, Val: vTrue, Instr: in})
		finish([]*V{mkSym("nn:ctxerr", nil)})
		return
	}
	if st.choose(2) == 1 {
		st.setClosed(d)
		st.ev(&Event{Kind: "ctxerr", Recv: ctx, Val: vTrue, Instr: in})
		finish([]*V{mkSym("nn:ctxerr", nil)})
		return
	}
	st.ev(&Event{Kind: "ctxerr", Recv: ctx, Val: vFalse, Instr: in})
	finish([]*V{vNil})
}

func mkError(text *V) *V {
	return mkApp("nn:error", mkAlloc("error", nil), text)
}

// jsonTerm describes what encoding/json writes for a value
func (st *State) jsonTerm(v *V) *V {
	if v.k == VIface {
		if es, ok := st.sliceElems(v.args[0]); ok && v.args[0].k == VSlice {
			var js []*V
			for _, e := range es {
				js = append(js, st.jsonTerm(e))
			}
			return mkAppT("jsonarr", v.t, js...)
		}
		inner := v.args[0]
		if o := st.obj(inner); o != nil && o.kind == "map" && o.rest == nil {
			if len(o.entries) == 0 {
				return mkApp("jsonemptymap")
			}
			known := true
			es := append([]entry(nil), o.entries...)
			for _, e := range es {
				known = known && e.present && st.constOf(e.k) != nil && st.constOf(e.k).isStr()
			}
			if known {
				sort.Slice(es, func(i, j int) bool { return st.constOf(es[i].k).str() < st.constOf(es[j].k).str() })
				var args []*V
				for _, e := range es {
					val := e.v
					if mt, ok := v.t.Underlying().(*types.Map); ok {
						if _, i := mt.Elem().Underlying().(*types.Interface); !i {
							val = mkIface(mt.Elem(), val)
						}
					}
					args = append(args, st.constOf(e.k), st.jsonTerm(val))
				}
				return mkApp("jsonobj", args...)
			}
		}
		if t := st.jsonStruct(v); t != nil {
			return t
		}
		if o := st.obj(inner); o != nil && o.kind == "map" {
			return mkAppT("jsonmap", v.t, inner)
		}
		return v
	}
	return v
}

// jsonStruct describes what is written for a struct that was put together
// locally or is converted to a local type, field by field
func (st *State) jsonStruct(v *V) *V {
	t, inner := v.t, v.args[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if inner == vNil || inner.k == VApp {
			return nil
		}
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || st.E.P.ownMethod(types.NewPointer(t), "MarshalJSON") != nil || hasMethod(t, "MarshalJSON") || hasMethod(t, "MarshalText") {
		return nil
	}
	local := true
	if n, ok := t.(*types.Named); ok {
		local = n.Obj().Parent() != nil && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope()
	}
	if !local && inner.k != VAlloc && inner.k != VStruct {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			return nil
		}
	}
	var args []*V
	for _, f := range jsonFields(s) {
		var fv *V
		if v.t != t {
			fv = st.load(Loc{inner, fieldPath(f.idx)}, f.t)
		} else {
			fv = structField(inner, f.idx)
		}
		if f.omit && st.jsonEmpty(fv, f.t) {
			continue
		}
		if _, i := f.t.Underlying().(*types.Interface); !i {
			fv = mkIface(f.t, fv)
		}
		args = append(args, mkStr(f.prop), st.jsonTerm(fv))
	}
	return mkApp("jsonobj", args...)
}

// jsonEmpty: omitempty leaves the field out
func (st *State) jsonEmpty(v *V, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return st.is(mkEq(mkLen(v), mkInt(0)))
	case *types.Pointer, *types.Interface, *types.Basic:
		_ = u
		return st.is(mkEq(v, zero(t)))
	}
	return false
}

// jsonCannotFail: encoding this term never gives an error
func jsonCannotFail(t *V) bool {
	switch t.k {
	case VConst, VNil:
		return true
	case VIface:
		if b, ok := t.t.Underlying().(*types.Basic); ok && !hasMethod(t.t, "MarshalJSON") && !hasMethod(t.t, "MarshalText") {
			if b.Info()&types.IsFloat != 0 {
				return t.args[0].k == VConst
			}
			return b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
		}
		return jsonDecoded(t.args[0])
	case VApp:
		if t.op == "jsonarr" || t.op == "jsonobj" {
			for _, a := range t.args {
				if !jsonCannotFail(a) {
					return false
				}
			}
			return true
		}
		return t.op == "jsonemptymap" || jsonDecoded(t)
	}
	return false
}

// values that came out of a json decoder can be encoded again
func jsonDecoded(v *V) bool {
	return v.k == VApp && (v.op == "dec" || (v.op == "dyn" || v.op == "elem" || v.op == "mapval" || v.op == "jsonmap" || v.op == "mapcontent" || v.op == "ld" || v.op == "elems") && len(v.args) > 0 && jsonDecoded(v.args[0]))
}

func (st *State) jsonMarshal(v *V, in ssa.Instruction, post func(*State, []*V) []*V, finish0 func([]*V)) {
	finish := func(res []*V) {
		if post != nil {
			res = post(st, res)
		}
		finish0(res)
	}
	// a type of the repository with its own encoder: the encoder decides
	if v.k == VIface {
		if f := st.E.P.ownMethod(v.t, "MarshalJSON"); f != nil && f.Blocks != nil {
			ptrNil := false
			if _, ok := v.t.Underlying().(*types.Pointer); ok {
				if v.args[0] == vNil {
					ptrNil = true
				} else if !isRef(v.args[0]) && st.isNil(v.args[0]) {
					ptrNil = true
				}
			}
			if ptrNil {
				finish([]*V{mkStr("null"), vNil})
				return
			}
			if v.args[0].k == VAlloc {
				st.ev(&Event{Kind: "enter", Name: f.String(), Instr: in})
				st.push(f, []*V{v.args[0]}, nil, in, func(st *State, res []*V) []*V {
					st.ev(&Event{Kind: "marshal", Recv: v, Res: res, Instr: in})
					if post != nil {
						res = post(st, res)
					}
					return res
				}, "MarshalJSON")
				return
			}
		}
	}
	t := st.jsonTerm(v)
	if v.k == VIface {
		if f := st.E.P.ownMethod(v.t, "MarshalJSON"); f != nil {
			t = mkApp("ownjson", v)
		}
	}
	var res []*V
	if jsonCannotFail(t) || !st.is(mkApp("jsonfails", t)) {
		res = []*V{mkApp("nn:json", t), vNil}
	} else {
		res = []*V{vNil, mkApp("nn:jsonerror", t)}
	}
	st.ev(&Event{Kind: "call", Name: "encoding/json.Marshal", Args: []*V{v}, Res: res, Instr: in})
	finish(res)
}

// ownMethod: the method if the type (not an embedded one) of this repository declares it
func (P *Prog) ownMethod(t types.Type, name string) *ssa.Function {
	ms := P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Name() == name && P.inRepo(o.Pkg()) {
			return P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// decodeInto: an external decoder fills the target from data
// useNumber marks the decode events of decoders that keep numbers as written
const useNumber = "+UseNumber"

func (st *State) decodeInto(how string, data, target *V, in ssa.Instruction, name string, finish func([]*V)) {
	p := target
	var t types.Type
	if target.k == VIface {
		p = target.args[0]
		t = pointee(target.t)
	}
	dt := st.bytesTerm(data)
	if dt.k == VApp && dt.op == "nn:json" && dt.args[0].k == VIface && how == "dec" {
		dt = dt.args[0].args[0] // decoding what was just encoded
		dt = mkApp("rejson", dt)
	}
	var term *V
	if t != nil {
		term = mkAppT(how, t, dt)
	} else {
		term = mkApp(how, dt, p)
	}
	var failed bool
	if dt.k == VSym { // the next part of a stream
		failed = st.choose(2) == 1
	} else {
		failed = st.is(mkApp("decfails", term, mkStr(name)))
	}
	l := p.loc()
	var errv *V = vNil
	if failed {
		errv = mkApp("nn:decerror", term)
	}
	st.ev(&Event{Kind: "decode", Name: name, Args: []*V{data, target}, Val: term, Loc: l, Type: t, Instr: in, Block: failed, Res: []*V{errv}})
	if t != nil {
		st.clear(l)
		val := term
		if failed {
			val = mkApp("partial", term)
		}
		st.store(l, t, val)
		st.ev(&Event{Kind: "store", Name: "decode", Loc: l, Val: val, Type: t, Instr: in})
	} else {
		v := mkApp("decoded", p)
		_ = v
	}
	finish([]*V{errv})
}

// onceNote marks the function of a sync.Once while it runs
const onceNote = "in once "

func (st *State) extern(name string, com *ssa.CallCommon, recv *V, args []*V, in ssa.Instruction, finish func([]*V)) {
	event := func(res []*V) {
		st.ev(&Event{Kind: "call", Name: name, Recv: recv, Args: args, Res: res, Instr: in})
	}
	done := func(res ...*V) {
		event(res)
		finish(res)
	}
	if _, ok := pureFuncs[name]; ok {
		if strings.HasPrefix(name, "(") && recv != nil && name == "(net/http.Header).Get" {
			done(mkApp(name, args...))
			return
		}
		done(st.pure(name, args))
		return
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.derefCheck(args[0], in)
		st.lock(args[0], false, in)
		finish(nil)
		return
	case "(*sync.RWMutex).RLock":
		st.lock(args[0], true, in)
		finish(nil)
		return
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st.unlock(args[0], false, in)
		finish(nil)
		return
	case "(*sync.RWMutex).RUnlock":
		st.unlock(args[0], true, in)
		finish(nil)
		return
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		if st.choose(2) == 0 {
			finish([]*V{vFalse})
			return
		}
		st.lock(args[0], false, in)
		finish([]*V{vTrue})
		return
	case "(*sync.Once).Do":
		l := args[0].loc()
		k := Loc{l.base, l.path + ".once"}
		first := st.load(k, types.Typ[types.Bool])
		f, b := calleeOf(args[1])
		if l.base.k == VGlobal && f != nil && len(b) == 0 {
			// whoever was first, what it made of the package's variables is
			// what is there now
			first = vFalse
			if st.mem[k] == vTrue {
				first = vTrue
			}
		} else if l.base.k != VAlloc || st.isPub(l.base) && st.E.Cfg.OpenWorld {
			if st.choose(2) == 1 {
				finish(nil)
				return
			}
			first = vFalse
		}
		if first == vTrue {
			finish(nil)
			return
		}
		st.mem[k] = vTrue
		if f != nil && f.Blocks != nil {
			n := onceNote + mkPtr(k.base, k.path).String()
			st.note[n] = vTrue
			st.push(f, nil, b, in, func(st *State, res []*V) []*V { delete(st.note, n); return nil }, "once")
			return
		}
		st.ev(&Event{Kind: "user", Recv: args[1], Instr: in})
		finish(nil)
		return
	case "errors.New":
		done(mkError(args[0]))
		return
	case "fmt.Errorf":
		done(mkError(st.sprintf(args[0], args[1])))
		return
	case "fmt.Sprintf":
		done(st.sprintf(args[0], args[1]))
		return
	case "fmt.Sprint", "fmt.Sprintln":
		es, ok := st.sliceElems(args[0])
		if ok && len(es) == 1 && name == "fmt.Sprint" {
			done(st.fmtArg("", 'v', es[0]))
			return
		}
		done(mkApp(name, st.snapshot(args[0])))
		return
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w := args[0]
		var s *V
		switch name {
		case "fmt.Fprintf":
			s = st.sprintf(args[1], args[2])
		case "io.WriteString":
			s = args[1]
		default:
			if es, ok := st.sliceElems(args[1]); ok && len(es) == 1 && name == "fmt.Fprint" {
				s = st.fmtArg("", 'v', es[0])
			} else {
				s = mkApp(name, st.snapshot(args[1]))
			}
		}
		if w.k == VIface {
			if b := bufferLoc(w.args[0], w.t); b != nil {
				st.bufAppend(*b, s)
				done(mkLen(s), vNil)
				return
			}
		}
		event(nil)
		st.ev(&Event{Kind: "write", Name: name, Recv: w, Args: []*V{s}, Instr: in})
		done(mkSym("n", nil), mkSym("ioerr", nil))
		return
	case "strings.Join":
		es, ok := st.sliceElems(args[0])
		if ok {
			var ps []*V
			for i, e := range es {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, e)
			}
			done(mkCat(ps...))
			return
		}
		done(mkApp(name, st.snapshot(args[0]), args[1]))
		return
	case "bytes.NewBuffer", "bytes.NewBufferString":
		b := mkAlloc("Buffer", nil)
		st.mem[Loc{b, "$buf"}] = st.bytesTerm(args[0])
		done(b)
		return
	case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo", "io.Copy":
		dst, src := args[1], args[0]
		if name == "io.Copy" {
			dst, src = args[0], args[1]
		}
		d := st.readerContent(src, in)
		if l := (Loc{unwrap(src), "$buf"}); st.get(l) != nil {
			st.mem[l] = mkStr("")
		}
		if dst.k == VIface {
			if b := bufferLoc(dst.args[0], dst.t); b != nil {
				st.bufUse(dst.args[0], true, in)
				st.bufAppend(*b, d)
				done(mkLen(d), vNil)
				return
			}
		}
		event(nil)
		st.ev(&Event{Kind: "write", Name: name, Recv: dst, Args: []*V{d}, Instr: in})
		finish([]*V{mkSym("n", nil), mkSym("ioerr", nil)})
		return
	case "(*bytes.Buffer).ReadFrom":
		st.bufUse(args[0], true, in)
		d := st.readerContent(args[1], in)
		if l := (Loc{unwrap(args[1]), "$buf"}); st.get(l) != nil {
			st.mem[l] = mkStr("")
		}
		st.bufAppend(args[0].loc(), d)
		done(mkLen(d), mkSym("ioerr", nil))
		return
	case "bytes.NewReader", "strings.NewReader":
		b := mkAlloc("Reader", nil)
		st.mem[Loc{b, "$buf"}] = st.bytesTerm(args[0])
		done(b)
		return
	case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		st.bufUse(args[0], true, in)
		s := st.bytesTerm(args[1])
		st.bufAppend(args[0].loc(), s)
		st.ev(&Event{Kind: "bufwrite", Recv: args[0], Val: s, Instr: in})
		done(mkLen(s), vNil)
		return
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		st.bufUse(args[0], true, in)
		c := args[1]
		var s *V
		if c.isInt() {
			s = mkStr(string(rune(c.int())))
		} else {
			s = mkApp("runestr", c)
		}
		st.bufAppend(args[0].loc(), s)
		if strings.HasSuffix(name, "Rune") {
			done(mkInt(1), vNil)
		} else {
			done(vNil)
		}
		return
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		st.bufUse(args[0], false, in)
		done(st.bufGet(args[0].loc()))
		return
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		st.bufUse(args[0], false, in)
		done(mkLen(st.bufGet(args[0].loc())))
		return
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		st.bufUse(args[0], true, in)
		l := args[0].loc()
		st.mem[Loc{l.base, l.path + "$buf"}] = mkStr("")
		done()
		return
	case "(*bytes.Buffer).Truncate":
		st.bufUse(args[0], true, in)
		l := args[0].loc()
		c := st.bufGet(l)
		if args[1].isInt() && args[1].int() == 0 {
			st.mem[Loc{l.base, l.path + "$buf"}] = mkStr("")
			done()
			return
		}
		// Truncate(Len()-1) of something ending in a constant
		if args[1].k == VApp && args[1].op == "+" || args[1].isInt() || args[1].k == VApp && args[1].op == "-" {
			if t := truncOne(c, args[1]); t != nil {
				st.mem[Loc{l.base, l.path + "$buf"}] = t
				done()
				return
			}
		}
		st.mem[Loc{l.base, l.path + "$buf"}] = mkApp("truncated", c, args[1])
		done()
		return
	case "bytes.Join":
		es, ok := st.sliceElems(args[0])
		if ok {
			var ps []*V
			for i, e := range es {
				if i > 0 {
					ps = append(ps, st.bytesTerm(args[1]))
				}
				ps = append(ps, st.bytesTerm(e))
			}
			done(mkCat(ps...))
			return
		}
		done(mkApp(name, st.snapshot(args[0]), args[1]))
		return
	case "time.Parse":
		t := mkApp("time.Parse", args...)
		if st.is(mkApp("parsefails", t)) {
			done(mkApp("partial", t), mkApp("nn:parseerror", t))
			return
		}
		done(t, vNil)
		return
	case "strings.Cut":
		done(mkApp("cut.before", args...), mkApp("cut.after", args...), mkApp("cut.found", args...))
		return
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		st.jsonMarshal(args[0], in, nil, finish)
		return
	case wsPkg + "WriteJSON":
		// the encoding is written as one text message; if there is none, an empty one is
		st.jsonMarshal(args[1], in, func(st *State, res []*V) []*V {
			err := mkSym("writeerr", errorIface)
			if tr, k := st.truth(mkEq(res[1], vNil)); k && tr {
				st.ev(&Event{Kind: "call", Name: wsPkg + "WriteMessage", Recv: recv, Args: []*V{args[0], mkInt(1), res[0]}, Res: []*V{err}, Instr: in})
				return []*V{err}
			}
			st.ev(&Event{Kind: "call", Name: name, Recv: recv, Args: args, Res: []*V{res[1]}, Instr: in})
			return []*V{res[1]}
		}, finish)
		return
	case "encoding/json.Unmarshal":
		st.decodeInto("dec", args[0], args[1], in, name, finish)
		return
	case "encoding/xml.Unmarshal":
		st.decodeInto("xmldec", args[0], args[1], in, name, finish)
		return
	case "(*encoding/xml.Decoder).DecodeElement":
		st.decodeInto("xmldec", mkSym("element", nil), args[1], in, name, finish)
		return
	case "(*encoding/xml.Decoder).Decode":
		st.decodeInto("xmldec", mkSym("document", nil), args[1], in, name, finish)
		return
	case "(*encoding/json.Decoder).Decode":
		d := args[0].loc().base
		src := st.load(Loc{d, "$src"}, types.NewInterfaceType(nil, nil))
		data := st.readerContent(src, in)
		if d.k != VAlloc || st.get(Loc{d, "$used"}) != nil {
			data = mkSym("document", nil) // the next value of the stream
		}
		st.mem[Loc{d, "$used"}] = vTrue
		if d.k == VAlloc && st.get(Loc{d, "$num"}) != nil {
			name += useNumber
		}
		st.decodeInto("dec", data, args[1], in, name, finish)
		return
	case "(*encoding/json.Decoder).UseNumber":
		st.derefCheck(args[0], in)
		st.mem[Loc{args[0].loc().base, "$num"}] = vTrue
		done()
		return
	case "(*encoding/xml.Decoder).Token", "(*encoding/xml.Decoder).RawToken":
		if st.choose(2) == 0 {
			tok := mkSym("token", com.Signature().Results().At(0).Type())
			st.nonnil(tok)
			done(tok, vNil)
			return
		}
		err := mkSym("tokenerr", nil)
		st.nonnil(err)
		done(vNil, err)
		return
	case "(*encoding/json.Decoder).Token":
		// after a value was decoded: the end, or more
		d := args[0].loc().base
		src := st.load(Loc{d, "$src"}, types.NewInterfaceType(nil, nil))
		if d.k == VAlloc && st.get(Loc{d, "$used"}) != nil {
			if eof := st.E.P.extGlobal("io", "EOF"); eof != nil {
				end := st.load(Loc{eof, ""}, errorIface)
				st.nonnil(end)
				more := mkApp("jsonmore", st.readerContent(src, in))
				if !st.is(more) {
					done(vNil, end)
					return
				}
				if st.choose(2) == 0 {
					done(mkApp("jsontoken", more), vNil)
					return
				}
				err := mkApp("nn:tokenerror", more)
				st.assume(mkEq(err, end), false)
				done(mkApp("jsontoken", more), err)
				return
			}
		}
		res := st.freshResults("Token", com.Signature(), false)
		done(res...)
		return
	case "(*encoding/json.Decoder).More":
		d := args[0].loc().base
		src := st.load(Loc{d, "$src"}, types.NewInterfaceType(nil, nil))
		if d.k == VAlloc && st.get(Loc{d, "$used"}) != nil {
			more := mkApp("jsonmore", st.readerContent(src, in))
			if !st.is(more) {
				done(vFalse)
				return
			}
		}
		done(mkSym("more", types.Typ[types.Bool]))
		return
	case "(encoding/json.Number).Float64", "(encoding/json.Number).Int64":
		if st.is(mkApp("numfails", args[0], mkStr(name))) {
			done(mkInt(0), mkApp("nn:numerror", args[0]))
			return
		}
		done(mkApp("numval", args[0]), vNil)
		return
	case "(encoding/json.Number).String":
		done(args[0])
		return
	case "encoding/json.NewDecoder", "encoding/xml.NewDecoder":
		d := mkAlloc("Decoder", nil)
		st.mem[Loc{d, "$src"}] = args[0]
		done(d)
		return
	case "encoding/json.Valid":
		done(mkApp("jsonvalid", st.bytesTerm(args[0])))
		return
	case "encoding/xml.Marshal", "encoding/xml.MarshalIndent":
		t := st.deepTerm(args[0], 6)
		var res []*V
		if plainXML(t) || !st.is(mkApp("xmlfails", t)) {
			res = []*V{mkApp("nn:xml", t), vNil}
		} else {
			res = []*V{vNil, mkApp("nn:xmlerror", t)}
		}
		st.ev(&Event{Kind: "call", Name: "encoding/xml.Marshal", Args: args, Res: res, Instr: in, Val: t})
		finish(res)
		return
	case "encoding/xml.NewEncoder", "encoding/json.NewEncoder":
		d := mkAlloc("Encoder", nil)
		st.mem[Loc{d, "$dst"}] = args[0]
		done(d)
		return
	case "(*encoding/xml.Encoder).Encode":
		t := st.deepTerm(args[1], 6)
		dst := st.load(Loc{args[0].loc().base, "$dst"}, types.NewInterfaceType(nil, nil))
		if !plainXML(t) && st.is(mkApp("xmlfails", t)) {
			if dst.k != VIface || bufferLoc(dst.args[0], dst.t) == nil {
				st.ev(&Event{Kind: "write", Name: name, Recv: dst, Args: []*V{mkApp("partialxml", t)}, Instr: in})
			} else {
				st.bufUse(dst.args[0], true, in)
				st.bufAppend(*bufferLoc(dst.args[0], dst.t), mkApp("partialxml", t))
			}
			done(mkApp("nn:xmlerror", t))
			return
		}
		if dst.k == VIface {
			if b := bufferLoc(dst.args[0], dst.t); b != nil {
				st.bufUse(dst.args[0], true, in)
				st.bufAppend(*b, mkApp("nn:xml", t))
			} else {
				st.ev(&Event{Kind: "write", Name: name, Recv: dst, Args: []*V{mkApp("nn:xml", t)}, Instr: in})
			}
		} else {
			st.ev(&Event{Kind: "write", Name: name, Recv: dst, Args: []*V{mkApp("nn:xml", t)}, Instr: in})
		}
		done(vNil)
		return
	case "(*encoding/xml.Encoder).Flush", "(*encoding/xml.Encoder).Close":
		dst := st.load(Loc{args[0].loc().base, "$dst"}, types.NewInterfaceType(nil, nil))
		if dst.k == VIface && bufferLoc(dst.args[0], dst.t) != nil {
			done(vNil) // writing to memory does not fail
			return
		}
		done(mkSym("flusherr", nil))
		return
	case "context.Background", "context.TODO":
		done(mkIface(ctxType, mkApp("nn:background")))
		return
	case "context.WithCancel":
		p := args[0]
		if p.k == VIface {
			p = p.args[0]
		}
		c, cancel := st.newCtx(p)
		done(c, cancel)
		return
	case "context.WithTimeout", "context.WithDeadline":
		p := args[0]
		if p.k == VIface {
			p = p.args[0]
		}
		c, cancel := st.newCtx(p)
		st.mem[Loc{c.args[0], "$timeout"}] = args[1]
		done(c, cancel)
		return
	case "time.After", "time.Tick":
		c := mkAlloc("timer", nil)
		st.objs[c] = &Obj{kind: "chan", cap: mkInt(1)}
		st.mem[Loc{c, "$d"}] = args[0]
		done(c)
		return
	case "time.NewTimer", "time.NewTicker":
		t := mkAlloc("Timer", nil)
		if rt, ok := com.Signature().Results().At(0).Type().(*types.Pointer); ok {
			t = mkAlloc("Timer", rt.Elem())
		}
		c := mkAlloc("timer", nil)
		st.objs[c] = &Obj{kind: "chan", cap: mkInt(1)}
		st.mem[Loc{c, "$d"}] = args[0]
		st.mem[Loc{t, ".0"}] = c
		st.mem[Loc{t, ".1"}] = mkInt(0)
		done(t)
		return
	case "(*time.Timer).Stop", "(*time.Timer).Reset", "(*time.Ticker).Stop":
		if com.Signature().Results().Len() > 0 {
			done(mkSym("stopped", nil))
		} else {
			done()
		}
		return
	case "time.Now":
		done(mkSym("now", nil))
		return
	case "time.AfterFunc":
		event(nil)
		st.publish(args[1])
		done(mkSym("nn:timer", nil))
		return
	case "github.com/google/uuid.New":
		done(mkSym("nn:uniq-uuid", nil))
		return
	case "github.com/google/uuid.NewRandom", "github.com/google/uuid.NewUUID":
		e := mkSym("uuiderr", nil)
		done(mkSym("nn:uniq-uuid", nil), e)
		return
	case "(github.com/google/uuid.UUID).String":
		done(mkApp("nn:uniq-str", args[0]))
		return
	case "github.com/google/uuid.NewString":
		done(mkApp("nn:uniq-str", mkSym("nn:uniq-uuid", nil)))
		return
	case "reflect.TypeOf", "reflect.ValueOf":
		if name == "reflect.TypeOf" {
			done(rtypeOf(mkApp("reflect.ValueOf", args[0])))
			return
		}
		done(mkApp(name, args[0]))
		return
	case "(reflect.Value).Type":
		if a := args[0]; a.k == VApp && a.op == "reflect.ValueOf" {
			if tr, k := st.truth(mkEq(a.args[0], vNil)); !isRef(a.args[0]) && !(k && !tr) {
				st.ev(&Event{Kind: "maypanic", Name: "reflect", Val: a.args[0], Instr: in})
			}
		}
		done(rtypeOf(args[0]))
		return
	case "reflect.New":
		if t := rtypeGo(args[0]); t != nil {
			done(mkApp("reflect.ValueOf", mkIface(types.NewPointer(t), mkAlloc(shortTypeName(t), t))))
			return
		}
		done(mkApp(name, args[0]))
		return
	case "reflect.PtrTo", "reflect.PointerTo":
		if t := rtypeGo(args[0]); t != nil {
			done(rtypeOf(mkApp("reflect.ValueOf", mkIface(types.NewPointer(t), vNil))))
			return
		}
		done(mkApp("nn:"+name, args[0]))
		return
	case "(reflect.Value).Set":
		a, b := args[0], args[1]
		const el = "(reflect.Value).Elem"
		for a.k == VApp && a.op == el && b.k == VApp && b.op == el {
			a, b = a.args[0], b.args[0]
		}
		if tr, k := st.truth(mkEq(rtypeOf(a), rtypeOf(b))); a == b || !(k && tr) {
			st.ev(&Event{Kind: "maypanic", Name: "reflect", Val: a, Instr: in})
		}
		done()
		return
	case "(reflect.Value).Call", "(reflect.Value).Index", "(reflect.Value).Field", "(reflect.Value).FieldByName", "(reflect.Value).Convert", "(reflect.Value).MethodByName":
		st.ev(&Event{Kind: "maypanic", Name: "reflect", Val: args[0], Instr: in})
	case "(reflect.Value).Elem", "(reflect.Value).IsNil", "(reflect.Value).IsValid", "(reflect.Value).Interface", "(reflect.Value).Kind", "(reflect.Value).CanSet", "(reflect.Value).NumField":
		if a := args[0]; name == "(reflect.Value).Interface" && a.k == VApp && a.op == "reflect.ValueOf" {
			done(a.args[0])
			return
		}
		done(mkApp(name, args...))
		return
	case "io/ioutil.ReadAll", "io.ReadAll":
		d := st.readerContent(args[0], in)
		if l := (Loc{unwrap(args[0]), "$buf"}); st.get(l) != nil {
			st.mem[l] = mkStr("")
			done(d, vNil)
			return
		}
		e := mkSym("readerr", errorIface)
		done(d, e)
		return
	case "errors.As":
		done(mkBool(st.choose(2) == 1))
		return
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		st.atomic(name, com, args, in, done)
		return
	}
	// anything else: unknown results; what it is given may be shared
	for _, a := range args {
		if a.k == VClosure || a.k == VFunc {
			st.publish(a)
		}
	}
	res := st.freshResults(shortName(name), com.Signature(), true)
	event(res)
	finish(res)
}

func (st *State) atomic(name string, com *ssa.CallCommon, args []*V, in ssa.Instruction, done func(...*V)) {
	l := args[0].loc()
	k := Loc{l.base, l.path + "$atomic"}
	op := name[strings.LastIndex(name, ".")+1:]
	cur := st.get(k)
	if cur == nil || st.isShared(l.base) {
		if l.base.k == VAlloc && cur == nil && !st.isPub(l.base) {
			cur = mkInt(0)
			if strings.Contains(name, "Bool") {
				cur = vFalse
			}
			if strings.Contains(name, "Pointer") || strings.Contains(name, "Value") {
				cur = vNil
			}
		} else if !st.E.Cfg.Interleave {
			cur = mkSym("atomic", nil)
		} else if cur == nil {
			cur = mkInt(0)
			if strings.Contains(name, "Bool") {
				cur = vFalse
			}
		}
	}
	switch {
	case strings.HasPrefix(op, "Load"):
		st.mem[k] = cur
		done(cur)
	case strings.HasPrefix(op, "Store"):
		st.mem[k] = args[1]
		done()
	case strings.HasPrefix(op, "Swap"):
		st.mem[k] = args[1]
		done(cur)
	case strings.HasPrefix(op, "CompareAndSwap"):
		if st.is(mkEq(cur, args[1])) {
			st.mem[k] = args[2]
			done(vTrue)
		} else {
			st.mem[k] = cur
			done(vFalse)
		}
	case strings.HasPrefix(op, "Add"):
		v := mkApp("+", cur, args[1])
		if cur.isInt() && args[1].isInt() {
			v = mkInt(cur.int() + args[1].int())
		}
		st.mem[k] = v
		done(v)
	default:
		done(st.freshResults("atomic", com.Signature(), false)...)
	}
}

func shortName(n string) string {
	n = strings.NewReplacer("github.com/gorilla/", "", "(*", "", ")", "", "(", "").Replace(n)
	return n
}

// what can be read from a reader
func (st *State) readerContent(r *V, in ssa.Instruction) *V {
	v := r
	if v.k == VIface {
		v = v.args[0]
	}
	if c := st.get(Loc{v, "$buf"}); c != nil {
		return c
	}
	return mkApp("content", v)
}

func bufferLoc(v *V, t types.Type) *Loc {
	s := t.String()
	if s == "*bytes.Buffer" || s == "*strings.Builder" {
		l := v.loc()
		return &l
	}
	return nil
}

func (st *State) bufGet(l Loc) *V {
	if v := st.get(Loc{l.base, l.path + "$buf"}); v != nil {
		return v
	}
	if l.base.k == VAlloc {
		return mkStr("")
	}
	return mkApp("bufcontent", l.base, mkStr(l.path))
}

// bufUse tells about the use of a buffer
func (st *State) bufUse(b *V, write bool, in ssa.Instruction) {
	st.ev(&Event{Kind: "bufuse", Recv: b, Block: write, Instr: in, Fn: st.top().fn})
}

func (st *State) bufAppend(l Loc, s *V) {
	st.mem[Loc{l.base, l.path + "$buf"}] = mkCat(st.bufGet(l), s)
}

// truncOne: content cut to its length minus a constant
func truncOne(c, n *V) *V {
	var cut int64
	switch {
	case n.isInt() && c.isStr():
		if n.int() <= int64(len(c.str())) {
			return mkStr(c.str()[:n.int()])
		}
		return nil
	case n.k == VApp && n.op == "+" && n.args[1].isInt() && n.args[0] == mkLen(c):
		cut = -n.args[1].int()
	case n.k == VApp && n.op == "-" && n.args[1].isInt() && n.args[0] == mkLen(c):
		cut = n.args[1].int()
	default:
		return nil
	}
	if c.k == VApp && c.op == "cat" {
		last := c.args[len(c.args)-1]
		if last.isStr() && int64(len(last.str())) >= cut && cut >= 0 {
			s := last.str()
			return mkCat(append(append([]*V(nil), c.args[:len(c.args)-1]...), mkStr(s[:int64(len(s))-cut]))...)
		}
	}
	return nil
}

// deepTerm describes a value with the content of the objects it points to
func (st *State) deepTerm(v *V, d int) *V {
	if d == 0 {
		return v
	}
	switch v.k {
	case VIface:
		return mkIface(v.t, st.deepTermT(v.args[0], v.t, d))
	}
	return v
}

func (st *State) deepTermT(v *V, t types.Type, d int) *V {
	if d == 0 {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.k == VAlloc || v.k == VPtr {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && !(v.k == VAlloc && v.t != nil && isExternalStruct(st.E.P, u.Elem())) {
				l := v.loc()
				return mkApp("&", st.deepTermT(st.load(l, u.Elem()), u.Elem(), d-1))
			}
		}
	case *types.Struct:
		if v.k == VStruct {
			vs := make([]*V, len(v.args))
			for i := range vs {
				vs[i] = st.deepTermT(v.args[i], u.Field(i).Type(), d-1)
			}
			return mkStruct(t, vs)
		}
	case *types.Interface:
		return st.deepTerm(v, d-1)
	case *types.Slice:
		if v.k == VSlice {
			return st.snapshot(v)
		}
	}
	return v
}

func isExternalStruct(P *Prog, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && !P.inRepo(n.Obj().Pkg())
}

var _ = constant.MakeBool
var _ = fmt.Sprint
