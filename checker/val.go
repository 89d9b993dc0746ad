package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Abstract values. A value is a hash-consed term, so equal terms are one
// pointer. Unknown values are symbols or terms over them (value numbers);
// memory objects are named by their allocation.
type VK uint8

const (
	VConst VK = iota
	VNil
	VSym
	VApp
	VAlloc
	VPtr
	VFunc
	VClosure
	VIface
	VTuple
	VStruct
	VSlice
	VGlobal
)

type V struct {
	k     VK
	id    int
	c     constant.Value
	t     types.Type
	op    string
	args  []*V
	fn    *ssa.Function
	n     int
	lo    int
	hi    int
	depth int
	g     *ssa.Global
}

var (
	internTab = map[string]*V{}
	typeIDs   typeutil.Map
	nTypes    int
	nSyms     int
	vNil      *V
	vTrue     *V
	vFalse    *V
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	t = types.Unalias(t)
	if x := typeIDs.At(t); x != nil {
		return x.(int)
	}
	nTypes++
	typeIDs.Set(t, nTypes)
	return nTypes
}

func mk(v V) *V {
	var sb strings.Builder
	sb.WriteByte(byte('a' + v.k))
	switch v.k {
	case VConst:
		sb.WriteString(v.c.Kind().String())
		sb.WriteByte(':')
		sb.WriteString(v.c.ExactString())
	case VSym, VAlloc:
		sb.WriteString(strconv.Itoa(v.n))
	case VFunc:
		fmt.Fprintf(&sb, "%p", v.fn)
	case VGlobal:
		fmt.Fprintf(&sb, "%p", v.g)
	default:
		sb.WriteString(v.op)
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(typeID(v.t)))
		sb.WriteByte('|')
		if v.fn != nil {
			fmt.Fprintf(&sb, "%p", v.fn)
		}
		if v.k == VSlice {
			sb.WriteString(strconv.Itoa(v.lo))
			sb.WriteByte(':')
			sb.WriteString(strconv.Itoa(v.hi))
		}
		for _, a := range v.args {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	key := sb.String()
	if x := internTab[key]; x != nil {
		return x
	}
	nv := v
	nv.id = len(internTab) + 1
	for _, a := range nv.args {
		if a.depth >= nv.depth {
			nv.depth = a.depth + 1
		}
	}
	internTab[key] = &nv
	return &nv
}

func init() {
	typeIDs.SetHasher(typeutil.MakeHasher())
	vNil = mk(V{k: VNil})
	vTrue = mkConst(constant.MakeBool(true))
	vFalse = mkConst(constant.MakeBool(false))
}

func mkConst(c constant.Value) *V {
	if c.Kind() == constant.Float || c.Kind() == constant.Int {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			c = i
		}
	}
	return mk(V{k: VConst, c: c})
}
func mkStr(s string) *V { return mkConst(constant.MakeString(s)) }
func mkInt(i int64) *V  { return mkConst(constant.MakeInt64(i)) }
func mkBool(b bool) *V {
	if b {
		return vTrue
	}
	return vFalse
}

// fresh symbol: label says where it came from
func mkSym(label string, t types.Type) *V {
	nSyms++
	return mk(V{k: VSym, n: nSyms, op: label, t: t})
}
func mkAlloc(label string, t types.Type) *V {
	nSyms++
	return mk(V{k: VAlloc, n: nSyms, op: label, t: t})
}

const maxDepth = 60

func mkApp(op string, args ...*V) *V {
	v := mk(V{k: VApp, op: op, args: args})
	if v.depth > maxDepth {
		return mk(V{k: VApp, op: "deep"})
	}
	return v
}
func mkAppT(op string, t types.Type, args ...*V) *V {
	v := mk(V{k: VApp, op: op, t: t, args: args})
	if v.depth > maxDepth {
		return mk(V{k: VApp, op: "deep"})
	}
	return v
}
func mkFunc(f *ssa.Function) *V { return mk(V{k: VFunc, fn: f}) }
func mkClosure(f *ssa.Function, b []*V) *V {
	return mk(V{k: VClosure, fn: f, args: b})
}
func mkIface(t types.Type, v *V) *V { return mk(V{k: VIface, t: types.Unalias(t), args: []*V{v}}) }
func mkTuple(vs ...*V) *V           { return mk(V{k: VTuple, args: vs}) }

// a struct (or array) value; the fields of one opaque value give back that value
func mkStruct(t types.Type, vs []*V) *V {
	if len(vs) > 0 {
		ok := true
		var of *V
		for i, v := range vs {
			if v.k == VApp && v.op == "fld"+strconv.Itoa(i) && (of == nil || of == v.args[0]) {
				of = v.args[0]
				continue
			}
			ok = false
			break
		}
		if ok {
			return of
		}
		if l := ldWhole(vs); l != nil {
			return l
		}
	}
	return mk(V{k: VStruct, t: t, args: vs})
}

// the fields of one struct in initial memory give back the load of that struct
func ldWhole(vs []*V) *V {
	var base *V
	prefix := ""
	for i, v := range vs {
		suf := "." + strconv.Itoa(i)
		if v.k != VApp || v.op != "ld" || !strings.HasSuffix(v.args[1].str(), suf) {
			return nil
		}
		p := strings.TrimSuffix(v.args[1].str(), suf)
		if i > 0 && (v.args[0] != base || p != prefix) {
			return nil
		}
		base, prefix = v.args[0], p
	}
	return mkApp("ld", base, mkStr(prefix))
}

func structField(v *V, i int) *V {
	if v.k == VStruct && i < len(v.args) {
		return v.args[i]
	}
	if v.k == VApp && v.op == "ld" {
		return mkApp("ld", v.args[0], mkStr(v.args[1].str()+"."+strconv.Itoa(i)))
	}
	return mkApp("fld"+strconv.Itoa(i), v)
}

func mkSlice(base *V, lo, hi int) *V { return mk(V{k: VSlice, args: []*V{base}, lo: lo, hi: hi}) }
func mkGlobal(g *ssa.Global) *V      { return mk(V{k: VGlobal, g: g}) }

func mkPtr(base *V, path string) *V {
	if path == "" {
		return base
	}
	return mk(V{k: VPtr, op: path, args: []*V{base}})
}

// split a pointer value into the object it points into and the path inside it
func (v *V) loc() Loc {
	if v.k == VPtr {
		return Loc{v.args[0], v.op}
	}
	return Loc{v, ""}
}

type Loc struct {
	base *V
	path string
}

func (v *V) isStr() bool { return v.k == VConst && v.c.Kind() == constant.String }
func (v *V) str() string { return constant.StringVal(v.c) }
func (v *V) isInt() bool { return v.k == VConst && v.c.Kind() == constant.Int }
func (v *V) int() int64 {
	i, _ := constant.Int64Val(v.c)
	return i
}
func (v *V) isBool() bool { return v.k == VConst && v.c.Kind() == constant.Bool }

// string concatenation in normal form
func mkCat(parts ...*V) *V {
	var fl []*V
	for _, p := range parts {
		if p.k == VApp && p.op == "cat" {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*V
	for _, p := range fl {
		if p.isStr() {
			if p.str() == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = mkStr(out[n-1].str() + p.str())
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	if len(out) > 300 {
		return mk(V{k: VApp, op: "deep"})
	}
	return mkApp("cat", out...)
}

// leaves calls f for every symbol and allocation in the term
func (v *V) walk(seen map[*V]bool, f func(*V)) {
	if seen[v] {
		return
	}
	seen[v] = true
	f(v)
	for _, a := range v.args {
		a.walk(seen, f)
	}
}

func (v *V) mentions(p func(*V) bool) bool {
	found := false
	v.walk(map[*V]bool{}, func(x *V) {
		if p(x) {
			found = true
		}
	})
	return found
}

func (v *V) String() string { return v.show(4) }

func (v *V) show(d int) string {
	if v == nil {
		return "?"
	}
	if d == 0 {
		return "…"
	}
	list := func() string {
		var s []string
		for i, a := range v.args {
			if i > 12 {
				s = append(s, "…")
				break
			}
			s = append(s, a.show(d-1))
		}
		return strings.Join(s, ",")
	}
	switch v.k {
	case VConst:
		return v.c.String()
	case VNil:
		return "nil"
	case VSym:
		return fmt.Sprintf("%s#%d", v.op, v.n)
	case VAlloc:
		return fmt.Sprintf("&%s#%d", v.op, v.n)
	case VApp:
		if v.t != nil {
			return v.op + "[" + shortType(v.t) + "](" + list() + ")"
		}
		return v.op + "(" + list() + ")"
	case VPtr:
		return v.args[0].show(d-1) + v.op
	case VFunc:
		return v.fn.Name()
	case VClosure:
		return "closure " + v.fn.Name() + "{" + list() + "}"
	case VIface:
		return shortType(v.t) + ":" + v.args[0].show(d-1)
	case VTuple:
		return "(" + list() + ")"
	case VStruct:
		return "{" + list() + "}"
	case VSlice:
		return fmt.Sprintf("%s[%d:%d]", v.args[0].show(d-1), v.lo, v.hi)
	case VGlobal:
		return v.g.Name()
	}
	return "?"
}
