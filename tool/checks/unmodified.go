package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
)

func init() {
	All["C28"] = Check{unmodified, pegWhat + "Decided: along derivations covering every alternative, option and repetition of every rule, each node of each tree is an object of its own, not reachable from another place, another tree or a package-level variable. gen.Package is interpreted abstractly on schema shapes: every object that existed before the call (the trees and the package-level variables) must hold the same afterwards. Effect analysis over packages gen, tv, inspect and intervals: no store through a node that the function did not make itself, and none to a package-level variable."}
}

func unmodified(r *Report) {
	r.Rule("unmodified", "a build leaves trees and package-level variables as they were", 300)
	r.Rule("stores", "a store outside the parser is to no tree and no package-level variable", 200)
	v := pegSetup(r)
	if v != nil {
		v.derive(r, func(kind, msg string) bool { return kind == "shared" || kind == "undecided" })
	}
	fams := append(append(append([][]string(nil), buildFamilies...), unresolvable...), handledFamilies(r.Tier == "thorough")...)
	fams = append(fams, orderFamilies...)
	overShapes(r, fams, func(q *Report, p *load.Program, texts []string) {
		b := newBuildRun(q, p, texts)
		b.fewDraws()
		defer func() { q.Absorb(b.e) }()
		pos := b.genFn("Package").Pos()
		for _, o := range b.build(nil) {
			if o.Kind != "return" {
				q.Bad("undecided", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
				continue
			}
			q.Ok("unmodified")
			if ids := o.St.Changed(b.base); len(ids) > 0 {
				q.Bad("unmodified", b.name, pos, "gen.Package changes what existed before it was called: %s", o.St.Show(o.St.Load(ai.Ptr{Obj: ids[0]})))
			}
		}
	})
	for _, n := range []string{"gen", "tv", "inspect", "internal/intervals", "fault"} {
		pk := r.P.Pkgs[load.Module+"/"+n]
		if pk == nil {
			continue
		}
		for _, fn := range packageFuncs(r.P, pk) {
			if fn.Name() == "init" && fn.Parent() == nil {
				continue
			}
			storeSites(r, fn)
		}
	}
}

// storeSites applies the effect rule to one function.
func storeSites(r *Report, fn *ssa.Function) {
	where := short(fn.String())
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var addr ssa.Value
			switch in := in.(type) {
			case *ssa.Store:
				addr = in.Addr
			case *ssa.MapUpdate:
				addr = in.Map
			default:
				continue
			}
			r.Ok("stores")
			if g := globalRoot(addr, 0); g != nil {
				r.Bad("stores", where+" writes "+g.Name(), in.Pos(), "%s writes to package-level variable %s", fn.Name(), g.Name())
			}
			if t := nodeStored(addr, 0); t != "" {
				r.Bad("stores", where+" modifies "+t, in.Pos(), "%s modifies a node of type %s that it did not make", fn.Name(), t)
			}
		}
	}
}

// nodeStored names the node type an address belongs to, unless the node was
// made by the function itself.
func nodeStored(v ssa.Value, depth int) string {
	if depth > 20 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if n := nodeType(x.X.Type()); n != "" && !fresh(x.X, 0) {
			return n
		}
		return nodeStored(x.X, depth+1)
	case *ssa.IndexAddr:
		if n := nodeStored(x.X, depth+1); n != "" {
			return n
		}
	case *ssa.Slice:
		return nodeStored(x.X, depth+1)
	case *ssa.UnOp:
		return nodeStored(x.X, depth+1)
	case *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.FreeVar, *ssa.TypeAssert, *ssa.Lookup:
		// *p = x with p a node that came from elsewhere
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			if n := nodeType(p); n != "" {
				return n
			}
		}
	}
	return ""
}

func nodeType(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != load.Module+"/ast" {
		return ""
	}
	return "ast." + n.Obj().Name()
}

// fresh reports whether a value is an object made in the same function.
func fresh(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return fresh(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fresh(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}
