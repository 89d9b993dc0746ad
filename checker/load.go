package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program and its SSA form, built from the
// current source of the analysed repository.
type Prog struct {
	Dir     string
	Module  string
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*ssa.Package // path relative to the module ("" is the root package)
	TypPkgs map[string]*types.Package
	nodes   map[*ssa.Function]*fnInfo
	mutable map[string]bool // "Type.field" stored to outside construction
	lits    map[*ssa.Function]bool
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}, TypPkgs: map[string]*types.Package{}, nodes: map[*ssa.Function]*fnInfo{}}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			P.Module = p.Module.Path
			break
		}
	}
	if P.Module == "" {
		return nil, fmt.Errorf("no main module in %s", dir)
	}
	for i, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, P.Module), "/")
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.ByPath[rel] = spkgs[i]
		P.TypPkgs[rel] = p.Types
	}
	P.scanMutable()
	return P, nil
}

func (P *Prog) inRepo(pk *types.Package) bool {
	return pk != nil && (pk.Path() == P.Module || strings.HasPrefix(pk.Path(), P.Module+"/"))
}

func (P *Prog) rel(pk *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), P.Module), "/")
}

// Func finds an exported package-level function; nil if it is not there.
// extGlobal: a package variable of another module or the standard library
func (P *Prog) extGlobal(path, name string) *V {
	pk := P.SSA.ImportedPackage(path)
	if pk == nil || pk.Var(name) == nil {
		return nil
	}
	return mkGlobal(pk.Var(name))
}

func (P *Prog) Func(rel, name string) *ssa.Function {
	p := P.ByPath[rel]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (P *Prog) Type(rel, name string) types.Type {
	p := P.TypPkgs[rel]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// Method finds a method of the type or of the pointer to it, also if it is
// promoted or synthesised.
func (P *Prog) Method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := P.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.SSA.MethodValue(ms.At(i))
			}
		}
		if _, ok := t.(*types.Pointer); ok {
			break
		}
	}
	return nil
}

// AllFuncs lists every function with a body in the repository's library
// packages (not the example programs), in a stable order.
func (P *Prog) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(P.SSA) {
		if fn.Blocks == nil || fn.Pkg == nil || !P.inRepo(fn.Pkg.Pkg) || P.isExample(fn.Pkg.Pkg) {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (P *Prog) isExample(p *types.Package) bool {
	return strings.HasPrefix(P.rel(p), "example") || p.Name() == "main"
}

// structs that are being constructed: a store through an Alloc of the same
// function is part of construction, every other store makes the field mutable
func (P *Prog) scanMutable() {
	P.mutable = map[string]bool{}
	for _, fn := range P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					root, name := fieldRoot(a)
					if _, isAlloc := root.(*ssa.Alloc); !isAlloc {
						for _, n := range name {
							P.mutable[n] = true
						}
					}
				case *ssa.Global:
					if fn.Name() != "init" || fn.Synthetic == "" {
						P.mutable["global "+a.String()] = true
					}
				default:
					// a store through a pointer to the whole struct
					if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok {
						if _, isAlloc := st.Addr.(*ssa.Alloc); isAlloc {
							continue
						}
						if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
							for i := 0; i < s.NumFields(); i++ {
								P.mutable[fieldName(pt.Elem(), i)] = true
							}
						}
					}
				}
			}
		}
	}
}

func fieldRoot(a *ssa.FieldAddr) (ssa.Value, []string) {
	var names []string
	var v ssa.Value = a
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v, names
		}
		names = append(names, fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field))
		v = fa.X
	}
}

func fieldName(t types.Type, i int) string {
	s := t.Underlying().(*types.Struct)
	return shortType(t) + "." + s.Field(i).Name()
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
