package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Formats and logging.

func init() {
	rules["C27"] = rule{runC27, "Format taint over the SSA form: at every call in the library of a function that formats (fmt, the loggers, and every function of the library that hands a parameter on as a format) the origins of the format are followed through phis, concatenations, parameters, closures, globals and results; only constants may reach it. The verbs of each constant format are compared with the arguments of the call. The logging functions are then abstractly interpreted without and with installed loggers: no panic and no output without, exactly one line with the text verbatim with."}
}

// fmtSink is a function that takes a format
type fmtSink struct {
	format   int // index of the format among the parameters
	args     int // index of the variadic parameter, -1 if there is none
	wraps    bool
	toLogger bool
}

type origin struct {
	consts map[string]bool
	params map[int]bool
	glued  bool // a parameter is only a part of the format
	bad    string
}

func (o *origin) join(p origin) {
	for k := range p.consts {
		o.consts[k] = true
	}
	for k := range p.params {
		o.params[k] = true
	}
	o.glued = o.glued || p.glued
	if o.bad == "" {
		o.bad = p.bad
	}
}

func newOrigin() origin { return origin{consts: map[string]bool{}, params: map[int]bool{}} }

type fmtFlow struct {
	C     *Checker
	funcs []*ssa.Function
	sinks map[*ssa.Function]*fmtSink
	// where things are stored
	globals map[*ssa.Global][]ssa.Value
	fields  map[string][]ssa.Value
	maps    map[string][]ssa.Value
	closure map[*ssa.Function][]*ssa.MakeClosure
}

func isFormatSig(sig *types.Signature) bool {
	ps := sig.Params()
	if !sig.Variadic() || ps.Len() < 2 {
		return false
	}
	if b, ok := ps.At(ps.Len() - 2).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	sl, ok := ps.At(ps.Len() - 1).Type().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := sl.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// sinkOf: the format and arguments of a call that formats
func (F *fmtFlow) sinkOf(c ssa.CallInstruction) (s *fmtSink, format, args ssa.Value) {
	com := c.Common()
	as := com.Args
	if com.IsInvoke() {
		sig := com.Method.Type().(*types.Signature)
		if !isFormatSig(sig) {
			return nil, nil, nil
		}
		n := sig.Params().Len()
		return &fmtSink{format: n - 2, args: n - 1, toLogger: true}, as[n-2], as[n-1]
	}
	f := com.StaticCallee()
	if f == nil {
		if _, ok := com.Value.(*ssa.Builtin); ok || !isFormatSig(com.Signature()) {
			return nil, nil, nil
		}
		n := com.Signature().Params().Len()
		return &fmtSink{format: n - 2, args: n - 1, wraps: true}, as[n-2], as[n-1]
	}
	if s := F.sinks[f]; s != nil {
		if s.args >= 0 {
			args = as[s.args]
		}
		return s, as[s.format], args
	}
	if f.Pkg != nil && F.C.P.inRepo(f.Pkg.Pkg) {
		return nil, nil, nil
	}
	o, ok := f.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != "fmt" && o.Pkg().Path() != "log" && o.Pkg().Path() != "log/slog" && o.Pkg().Path() != "github.com/stretchr/testify/assert" || !strings.HasSuffix(o.Name(), "f") || !isFormatSig(com.Signature()) {
		return nil, nil, nil
	}
	n := len(as)
	return &fmtSink{format: n - 2, args: n - 1, wraps: o.Name() == "Errorf", toLogger: o.Pkg().Path() == "log"}, as[n-2], as[n-1]
}

func (F *fmtFlow) origin(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool, depth int) origin {
	o := newOrigin()
	if seen[v] {
		return o
	}
	if depth > 12 {
		o.bad = "comes from too far away"
		return o
	}
	seen[v] = true
	defer delete(seen, v)
	all := func(vs []ssa.Value) origin {
		for _, x := range vs {
			p := F.origin(x, x.Parent(), seen, depth+1)
			if x.Parent() != fn && x.Parent() != nil && len(p.params) > 0 {
				p.bad = "a parameter of " + F.C.short(x.Parent())
				p.params = nil
			}
			o.join(p)
		}
		return o
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			o.consts[constant.StringVal(x.Value)] = true
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				o.params[i] = true
			}
		}
	case *ssa.Phi:
		return all(x.Edges)
	case *ssa.BinOp:
		a, b := F.origin(x.X, fn, seen, depth+1), F.origin(x.Y, fn, seen, depth+1)
		if x.Op != token.ADD || a.bad != "" || b.bad != "" {
			o.bad = a.bad + b.bad
			return o
		}
		for s := range a.consts {
			for t := range b.consts {
				if len(o.consts) < 50 {
					o.consts[s+t] = true
				}
			}
		}
		for _, p := range []origin{a, b} {
			for i := range p.params {
				o.params[i] = true
				o.glued = true
			}
		}
	case *ssa.Convert:
		return all([]ssa.Value{x.X})
	case *ssa.ChangeType:
		return all([]ssa.Value{x.X})
	case *ssa.FreeVar:
		i := -1
		for j, fv := range x.Parent().FreeVars {
			if fv == x {
				i = j
			}
		}
		for _, mc := range F.closure[x.Parent()] {
			all([]ssa.Value{mc.Bindings[i]})
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			o.bad = "computed"
			return o
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if !F.C.P.inRepo(a.Pkg.Pkg) || len(F.globals[a]) == 0 {
				o.bad = "the global " + a.Name()
				return o
			}
			return all(F.globals[a])
		case *ssa.FieldAddr:
			n := fieldName(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
			if len(F.fields[n]) == 0 {
				o.bad = "the field " + n
				return o
			}
			return all(F.fields[n])
		case *ssa.Alloc, *ssa.FreeVar:
			vs, ok := F.stores(a.(ssa.Value), 0)
			if !ok {
				o.bad = "a variable"
				return o
			}
			return all(vs)
		}
		o.bad = "read from memory"
	case *ssa.Lookup:
		if vs := F.maps[types.TypeString(x.X.Type(), nil)]; len(vs) > 0 {
			all(vs)
			o.consts[""] = true
			return o
		}
		o.bad = "taken from a map"
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return F.results(c, x.Index, fn, seen, depth)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return F.origin(l, fn, seen, depth+1)
		}
		o.bad = "computed"
	case *ssa.Call:
		return F.results(x, 0, fn, seen, depth)
	default:
		o.bad = "computed"
	}
	return o
}

// results: what a function of the library can return
func (F *fmtFlow) results(c *ssa.Call, i int, fn *ssa.Function, seen map[ssa.Value]bool, depth int) origin {
	o := newOrigin()
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !F.C.P.inRepo(pkgOf(f)) {
		o.bad = "the result of " + c.Call.String()
		return o
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		p := F.origin(r.Results[i], f, seen, depth+1)
		o.bad = o.bad + p.bad
		for s := range p.consts {
			o.consts[s] = true
		}
		for n := range p.params {
			q := F.origin(c.Call.Args[n], fn, seen, depth+1)
			q.glued = q.glued || p.glued
			if p.glued {
				q.consts = map[string]bool{}
			}
			o.join(q)
		}
	}
	return o
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// stores: everything that is stored in a local variable
func (F *fmtFlow) stores(a ssa.Value, depth int) (vs []ssa.Value, ok bool) {
	if depth > 4 {
		return nil, false
	}
	if fv, isF := a.(*ssa.FreeVar); isF {
		i := 0
		for j, x := range fv.Parent().FreeVars {
			if x == fv {
				i = j
			}
		}
		for _, mc := range F.closure[fv.Parent()] {
			ws, k := F.stores(mc.Bindings[i], depth+1)
			if !k {
				return nil, false
			}
			vs = append(vs, ws...)
		}
		return vs, len(vs) > 0
	}
	al, isA := a.(*ssa.Alloc)
	if !isA {
		return nil, false
	}
	var use func(x ssa.Value) bool
	use = func(x ssa.Value) bool {
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != x {
					return false
				}
				vs = append(vs, r.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for j, b := range r.Bindings {
					if b == x && !use(f.FreeVars[j]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !use(al) {
		return nil, false
	}
	return vs, len(vs) > 0
}

func (C *Checker) newFmtFlow() *fmtFlow {
	F := &fmtFlow{C: C, sinks: map[*ssa.Function]*fmtSink{}, globals: map[*ssa.Global][]ssa.Value{}, fields: map[string][]ssa.Value{}, maps: map[string][]ssa.Value{}, closure: map[*ssa.Function][]*ssa.MakeClosure{}}
	for fn := range ssautil.AllFunctions(C.P.SSA) {
		pk := pkgOf(fn)
		for p := fn.Parent(); pk == nil && p != nil; p = p.Parent() {
			pk = pkgOf(p)
		}
		if fn.Blocks == nil || !C.P.inRepo(pk) || C.P.isExample(pk) {
			continue
		}
		F.funcs = append(F.funcs, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.Global:
						F.globals[a] = append(F.globals[a], x.Val)
					case *ssa.FieldAddr:
						n := fieldName(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
						F.fields[n] = append(F.fields[n], x.Val)
					}
				case *ssa.MapUpdate:
					n := types.TypeString(x.Map.Type(), nil)
					F.maps[n] = append(F.maps[n], x.Value)
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					F.closure[f] = append(F.closure[f], x)
				}
			}
		}
	}
	sort.Slice(F.funcs, func(i, j int) bool { return F.funcs[i].String() < F.funcs[j].String() })
	// functions that hand a parameter on as a format
	for changed := true; changed; {
		changed = false
		for _, fn := range F.funcs {
			for _, c := range callsIn(fn) {
				s, format, _ := F.sinkOf(c)
				if s == nil || format == nil {
					continue
				}
				o := F.origin(format, fn, map[ssa.Value]bool{}, 0)
				for i := range o.params {
					n := F.sinks[fn]
					if n == nil {
						n = &fmtSink{format: i, args: -1, wraps: s.wraps, toLogger: s.toLogger}
						if fn.Signature.Variadic() && i < len(fn.Params)-1 {
							n.args = len(fn.Params) - 1
						}
						F.sinks[fn] = n
						changed = true
						continue
					}
					if w, l := n.wraps && s.wraps, n.toLogger || s.toLogger; w != n.wraps || l != n.toLogger {
						n.wraps, n.toLogger = w, l
						changed = true
					}
				}
			}
		}
	}
	return F
}

func callsIn(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// fmtArgs: static types of the arguments of a formatting call
func fmtArgs(v ssa.Value) ([]types.Type, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]types.Type, arr.Len())
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
					t := st.Val.Type()
					if mi, ok := st.Val.(*ssa.MakeInterface); ok {
						t = mi.X.Type()
					}
					if ci, ok := st.Val.(*ssa.ChangeInterface); ok {
						t = ci.X.Type()
					}
					out[k.Int64()] = t
				}
			}
		}
		return out, true
	}
	return nil, false
}

// uses: the value is made from the parameter
func dependsOn(v ssa.Value, p *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && dependsOn(*o, p, seen) {
			return true
		}
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if dependsOn(r.Val, p, seen) {
					return true
				}
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && dependsOn(st.Val, p, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// verbsFit: what is wrong with a constant format for these arguments
func verbsFit(format string, args []types.Type, wraps bool) string {
	n := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			i++
			continue
		}
		k := i + 1
		star, prec, index := false, false, false
		for k < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[k]) >= 0 {
			star = star || format[k] == '*'
			prec = prec || format[k] == '.'
			index = index || format[k] == '['
			k++
		}
		if index {
			return ""
		}
		if k >= len(format) {
			return "ends in an incomplete verb"
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		if verb == '%' {
			continue
		}
		if star {
			n += strings.Count(spec, "*")
		}
		if n >= len(args) {
			return "has a verb " + spec + " without an argument"
		}
		t := args[n]
		n++
		if t == nil {
			continue
		}
		if w := verbFits(spec, verb, prec, t, wraps); w != "" {
			return w
		}
	}
	if n < len(args) {
		return "has no verb for " + strconv.Itoa(len(args)-n) + " of the arguments"
	}
	return ""
}

func verbFits(spec string, verb byte, prec bool, t types.Type, wraps bool) string {
	bad := func() string { return "shows a value of type " + shortType(t) + " with " + spec }
	if verb == 'T' || verb == 'p' {
		return ""
	}
	isErr := implementsErr(t)
	if verb == 'w' {
		if !wraps {
			return "uses %w where errors are not wrapped"
		}
		if !isErr && !isIfaceType(t) {
			return bad()
		}
		return ""
	}
	if isErr || hasMethod(t, "String") {
		if verb != 's' && verb != 'v' && !(verb == 'q' && !isErr) || prec || strings.Contains(spec, "#") {
			return bad()
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if strings.IndexByte("svqxX", verb) < 0 || prec {
				return bad()
			}
		case u.Info()&types.IsBoolean != 0:
			if verb != 't' && verb != 'v' {
				return bad()
			}
		case u.Info()&types.IsInteger != 0:
			if strings.IndexByte("vdbcoOxXUq", verb) < 0 {
				return bad()
			}
		case u.Info()&types.IsFloat != 0:
			if strings.IndexByte("veEfFgGbxX", verb) < 0 {
				return bad()
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			if strings.IndexByte("sqxX", verb) < 0 || prec {
				return bad()
			}
		}
	case *types.Signature, *types.Chan:
		if verb != 'v' {
			return bad()
		}
	}
	return ""
}

func runC27(C *Checker, R *Report) {
	C.loadExt()
	F := C.newFmtFlow()
	R.count("functions_analysed", len(F.funcs))
	for _, fn := range F.funcs {
		for _, c := range callsIn(fn) {
			C.c27output(R, fn, c)
			s, format, args := F.sinkOf(c)
			if s == nil || format == nil {
				continue
			}
			R.count("format_calls", 1)
			if s.toLogger {
				R.count("log_calls", 1)
			}
			viol := func(msg string) { R.add(C.short(fn), msg, c.Pos(), nil) }
			o := F.origin(format, fn, map[ssa.Value]bool{}, 0)
			if o.bad != "" {
				viol("text that is not constant is used as a format: " + o.bad)
				continue
			}
			for i := range o.params {
				me := F.sinks[fn]
				if me == nil || me.format != i {
					viol("more than one parameter is used as a format")
					continue
				}
				if me.args >= 0 && args != nil && !dependsOn(args, fn.Params[me.args], map[ssa.Value]bool{}) {
					viol("the arguments of the format are dropped")
				}
				R.count("formats_handed_on", 1)
			}
			if o.glued {
				continue
			}
			ts, ok := fmtArgs(args)
			if !ok {
				continue
			}
			for k := range o.consts {
				R.count("formats_checked", 1)
				if w := verbsFit(k, ts, s.wraps); w != "" {
					viol("the format " + strconv.Quote(k) + " " + w)
				}
			}
		}
	}
	// a function that formats its text and is used as a value
	for _, fn := range F.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || F.sinks[g] == nil || isFormatSig(g.Signature) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == g {
						continue
					}
					R.add(C.short(fn), "a function that uses its text as a format is used as a value: "+C.short(g), in.Pos(), nil)
				}
			}
		}
	}
	R.need(R.counts["log_calls"] > 0, "a call of a logger")
	C.c27loggers(R, F)
}

// c27output: the library writes to no log of its own
func (C *Checker) c27output(R *Report, fn *ssa.Function, c ssa.CallInstruction) {
	com := c.Common()
	viol := func(what string) {
		R.add(C.short(fn), "the library writes output of its own, without a configured logger: "+what, c.Pos(), nil)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "print" || b.Name() == "println" {
			viol(b.Name())
		}
		return
	}
	std := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.UnOp:
				g, ok := x.X.(*ssa.Global)
				return ok && x.Op == token.MUL && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
			}
			return false
		}
	}
	f := com.StaticCallee()
	for _, a := range com.Args {
		if std(a) {
			viol(com.String())
			return
		}
	}
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return
	}
	switch f.Object().Pkg().Path() {
	case "fmt":
		if strings.HasPrefix(f.Name(), "Print") {
			viol("fmt." + f.Name())
		}
	case "log":
		if f.Signature.Recv() == nil && f.Name() != "New" && !strings.HasPrefix(f.Name(), "Set") && f.Name() != "Flags" && f.Name() != "Prefix" {
			viol("log." + f.Name())
		}
		if f.Name() == "New" && len(com.Args) > 0 {
			discard := false
			v := com.Args[0]
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "Discard" {
					discard = true
				}
			}
			if mi, ok := v.(*ssa.MakeInterface); ok && strings.Contains(strings.ToLower(mi.X.Type().String()), "discard") {
				discard = true
			}
			if !discard {
				viol("a logger made by log.New")
			}
		}
	}
}

// reachesLogger: fn calls a logger, itself or through what it calls
func (C *Checker) reachesLogger(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, c := range callsIn(fn) {
		com := c.Common()
		if com.IsInvoke() {
			if isFormatSig(com.Method.Type().(*types.Signature)) {
				return true
			}
			continue
		}
		g := com.StaticCallee()
		if g == nil {
			continue
		}
		if g.Pkg != nil && C.P.inRepo(g.Pkg.Pkg) {
			if C.reachesLogger(g, seen) {
				return true
			}
		} else if g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == "log" && isFormatSig(g.Signature) {
			return true
		}
	}
	for _, a := range fn.AnonFuncs {
		if C.reachesLogger(a, seen) {
			return true
		}
	}
	return false
}

// containsText: the text has the prefix and then the value in it, as they are
func containsText(txt *V, prefix string, v *V) bool {
	if txt.k != VApp || txt.op != "cat" {
		return false
	}
	for i := 1; i < len(txt.args); i++ {
		if p := txt.args[i-1]; txt.args[i] == v && p.isStr() && strings.HasSuffix(p.str(), prefix) {
			return true
		}
	}
	return false
}

// c27loggers: the logging functions without and with a logger
func (C *Checker) c27loggers(R *Report, F *fmtFlow) {
	setE, setD := C.P.Func("", "SetErrorLogger"), C.P.Func("", "SetDebugLogger")
	if !R.need(setE != nil && setD != nil && len(setE.Params) == 1 && len(setD.Params) == 1, "SetErrorLogger and SetDebugLogger") {
		return
	}
	lt := setE.Params[0].Type()
	logE, logD := mkSym("nn:error logger", lt), mkSym("nn:debug logger", lt)
	isLog := func(e *Event) bool {
		return e.Kind == "call" && e.Recv != nil && (unwrap(e.Recv) == logE || unwrap(e.Recv) == logD)
	}
	called := map[*ssa.Function]bool{}
	for _, fn := range F.funcs {
		for _, c := range callsIn(fn) {
			if g := c.Common().StaticCallee(); g != nil && g != fn {
				called[g] = true
			}
		}
	}
	n := 0
	for _, fn := range F.funcs {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || len(fn.FreeVars) > 0 || !isFormatSig(fn.Signature) || len(fn.Params) != 2 {
			continue
		}
		// also one that does nothing with the line it is called with
		if !C.reachesLogger(fn, map[*ssa.Function]bool{}) && !(fn.Signature.Results().Len() == 0 && called[fn]) {
			continue
		}
		s := F.sinks[fn]
		n++
		fn := fn
		for _, with := range []bool{false, true} {
			with := with
			// without: the package variables are as the program starts
			keep := C.keepGlobals
			C.keepGlobals = !with
			E := C.newRun(&Cfg{OnGo: C.sessionGo, Init: !with})
			C.keepGlobals = keep
			var sts []*State
			s0 := start(E, nil, mkFunc(setE), []*V{logE})
			if with {
				for _, r := range C.runAll(E, s0) {
					for _, q := range C.runAll(E, r.st.then(E, nil, mkFunc(setD), []*V{logD})) {
						sts = append(sts, q.st)
					}
				}
			} else {
				s0.threads = nil
				sts = []*State{s0}
			}
			for _, st := range sts {
				err := mkSym("nn:err", errorIface)
				format := "probe %s"
				if s != nil && s.wraps {
					format = "probe %w"
				}
				mon := newMon(func(m *tmon, st *State, e *Event) {
					viol := func(msg string) { st.violate("C27", C.short(fn), msg, fn.Pos()) }
					switch e.Kind {
					case "maypanic", "panic":
						viol("logging may panic: " + e.Name)
					case "call":
						if isLog(e) {
							R.count("lines_logged", 1)
							m.n["lines"]++
							if m.n["lines"] > 2 {
								m.n["lines"] = 2
							}
							if want := map[string]*V{"Error": logE, "Debug": logD}[fn.Name()]; want != nil && unwrap(e.Recv) != want {
								viol("what is logged goes to the wrong logger")
							}
							if len(e.Args) < 2 {
								return
							}
							as := e.Args
							if as[0] == e.Recv {
								as = as[1:]
							}
							txt := st.sprintf(as[0], as[1])
							if want := mkCat(mkStr("probe "), mkApp("textof", err)); !containsText(txt, "probe ", mkApp("textof", err)) {
								viol("the line logged is " + txt.show(5) + ", not " + want.show(5))
							}
							return
						}
						if !with && (strings.HasPrefix(e.Name, "os.") || strings.HasPrefix(e.Name, "(*os.File)") || strings.HasPrefix(e.Name, "log.") || strings.HasPrefix(e.Name, "fmt.P") || strings.HasPrefix(e.Name, "fmt.Fp")) {
							viol("without a logger something is written: " + e.Name)
						}
					case "end":
						R.count("logging_paths", 1)
						if e.Recv != nil {
							viol("logging panics")
						} else if with && m.n["lines"] != 1 {
							viol(fmt.Sprintf("what is logged gives %d lines", m.n["lines"]))
						}
					}
				})
				u := st.clone()
				args := []*V{mkStr(format), u.newSlice(types.NewInterfaceType(nil, nil), []*V{err})}
				C.runAll(E, u.then(E, mon, mkFunc(fn), args))
			}
			R.take(E)
		}
	}
	R.count("logging_functions", n)
	R.need(n > 0, "the functions that log")
	R.need(R.counts["lines_logged"] > 0, "a line that is logged")
}
