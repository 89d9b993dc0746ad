package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C08"] = rule{runC08, "Everything that handles bytes of a peer (the reader of a connection, the HTTP handlers, the goroutines of central system and charge point, the SOAP server and client, every decoder) is abstractly interpreted on unknown input, with shared state changing under every lock; every index, slice, dereference, type assertion, map write, division and reflective access on every path needs its precondition established on that path, and no path reaches an explicit panic."}
}

// trustedField: what net/http guarantees about the requests and responses it hands out
func trustedField(v *V) bool {
	if v.k != VApp || v.op != "ld" {
		return false
	}
	b := v.args[0]
	switch {
	case b == httpR || b.k == VSym && b.t != nil && b.t.String() == "*net/http.Request":
		n := extField("net/http", "Request", v.args[1].str())
		return n == "URL" || n == "Body" || n == "Header"
	case b.k == VSym && b.t != nil && b.t.String() == "*net/http.Response":
		n := extField("net/http", "Response", v.args[1].str())
		return n == "Body" || n == "Header" || n == "Request"
	}
	return false
}

var extPkgs = map[string]*types.Package{}

func (C *Checker) loadExt() {
	var add func(p *types.Package)
	add = func(p *types.Package) {
		for _, i := range p.Imports() {
			if extPkgs[i.Path()] == nil {
				extPkgs[i.Path()] = i
				add(i)
			}
		}
	}
	for _, p := range C.P.Pkgs {
		add(p.Types)
	}
}

// extField names field .i of an external struct
func extField(pkg, typ, path string) string {
	p := extPkgs[pkg]
	if p == nil {
		return ""
	}
	o := p.Scope().Lookup(typ)
	if o == nil {
		return ""
	}
	n := pathName(o.Type(), path)
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// recovers: a panic here is caught by a deferred function
func (st *State) recovers() bool {
	for _, f := range st.th().frames {
		for _, d := range f.defers {
			if fn, _ := calleeOf(d.fn); fn != nil {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func runC08(C *Checker, R *Report) {
	C.loadExt()
	rs := C.rootSet(R)
	sites := map[token.Pos]bool{}
	spawned := map[ssa.Instruction]Spawn{}
	for _, r := range rs.roots {
		switch r.kind {
		case "csmethod", "cpmethod":
			continue
		case "connmethod":
			if !strings.Contains(r.name, "ReadMessage") && !strings.HasSuffix(r.name, ".SendRequest") && !strings.HasSuffix(r.name, ".SendResponse") {
				continue
			}
		}
		R.count("entry_points", 1)
		R.sample(r.name)
		cfg := C.openCfg(R)
		cfg.RecordSpawns = true
		if sp, ok := spawned[r.in]; ok && r.in != nil {
			// with what is known of shared fields where it is started
			r.st, r.fn, r.args = sp.st, sp.fn, sp.args
			r.st.mon = nil
		}
		// goroutines of the charge point are the only ones to change its connection
		E := C.newRun(cfg)
		mon := newMon(func(m *tmon, st *State, e *Event) {
			switch e.Kind {
			case "maypanic":
				if st.recovers() {
					return
				}
				switch e.Name {
				case "nil":
					if !e.Block && (trustedField(e.Val) || userValue(e.Val)) {
						return
					}
				case "close of closed channel", "send on closed channel", "close of nil channel":
					return // C18, C12
				}
				what := map[string]string{
					"nil": "a value that may be absent is used", "index": "an index may be past the end", "slice": "a slice bound may be past the end",
					"typeassert": "a type is asserted that was not checked", "nilmap": "a nil map is written", "division by zero": "a divisor may be zero",
					"reflect": "reflection on a value that may be absent or of another type",
				}[e.Name]
				if what == "" {
					what = e.Name
				}
				st.violate("C08", C.short(e.Fn), fmt.Sprintf("%s in %s: %v (from %s)", what, C.short(e.Fn), e.Val, r.name), posOf(e.Instr))
			case "panic":
				if !st.recovers() {
					st.violate("C08", C.short(e.Fn), fmt.Sprintf("panic is called in %s (from %s)", C.short(e.Fn), r.name), posOf(e.Instr))
				}
			case "load", "store", "call", "mapget", "mapset", "decode":
				if e.Instr != nil {
					sites[e.Instr.Pos()] = true
				}
			}
		})
		C.runAll(E, r.st.then(E, mon, r.fn, r.args))
		R.take(E)
		for _, sp := range E.Spawns {
			if _, ok := spawned[sp.in]; !ok {
				spawned[sp.in] = sp
			}
		}
	}
	R.count("operations_checked", len(sites))
}

// userValue: it comes from what the user of the library supplies
func userValue(v *V) bool {
	return v.k == VSym && strings.HasPrefix(v.op, "nn:param ")
}
