package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"unicode"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/schema"
)

func init() {
	All["C16"] = Check{nameResolution, "The resolver is interpreted abstractly on sequences of declarations with arbitrary names (any two may be equal or not) and arbitrary constant values, added one by one and as files, and queried with an arbitrary name; every class of outcomes is compared with a reference symbol table."}
}

// decl is a declaration of the reference symbol table.
type decl struct {
	kind   byte // d definition, e extern, c context, k constant
	name   ai.Str
	node   ai.Val
	val    dom.Lin
	before bool // from before the file being added
}

func ns(kind byte) byte {
	if kind == 'e' {
		return 'd'
	}
	return kind
}

// res drives the resolver.
type res struct {
	*insp
	b  *schema.Builder
	rv ai.Val
	at string
}

// find continues with the index of the declaration with a name, or -1.
func find(st *ai.State, cur []decl, kind byte, name ai.Str, k func(st *ai.State, n int)) {
	var rec func(st *ai.State, n int)
	rec = func(st *ai.State, n int) {
		for n < len(cur) && ns(cur[n].kind) != ns(kind) {
			n++
		}
		if n == len(cur) {
			k(st, -1)
			return
		}
		split(st, st.EqStr(cur[n].name, name), func(st *ai.State, eq bool) {
			if eq {
				k(st, n)
			} else {
				rec(st, n+1)
			}
		})
	}
	rec(st, 0)
}

// expect is the reference effect of adding d: whether an error is due ("must",
// "no", "any") and the table afterwards.
func expect(st *ai.State, cur []decl, d decl, k func(st *ai.State, err string, next []decl)) {
	find(st, cur, d.kind, d.name, func(st *ai.State, n int) {
		with := func(n int) []decl {
			out := append([]decl(nil), cur...)
			if n < 0 {
				return append(out, d)
			}
			out[n] = d
			return out
		}
		switch {
		case n < 0:
			k(st, "no", with(-1))
		case d.kind == 'k':
			split(st, &ai.Cond{Op: "eq", L: cur[n].val.Sub(d.val)}, func(st *ai.State, same bool) {
				if same {
					k(st, "no", cur)
				} else {
					k(st, "must", cur)
				}
			})
		case d.kind == 'c':
			k(st, "must", cur)
		case cur[n].kind == 'd' && d.kind == 'd':
			k(st, "must", cur)
		case cur[n].kind == 'd': // extern after the definition
			k(st, "any", cur)
		default: // an extern declaration is superseded
			k(st, "no", with(n))
		}
	})
}

func (x *res) bad(rule string, fn string, st *ai.State, f string, a ...any) {
	x.r.Bad(rule, x.at, x.method("Resolver", fn).Pos(), "%s: %s when %s", fn, fmt.Sprintf(f, a...), facts(st))
}

// one makes declaration number n of the given kind.
func (x *res) one(st *ai.State, kind byte, n int) decl {
	b := &schema.Builder{St: st, Ast: x.ast, Name: ai.Name}
	d := decl{kind: kind, name: ai.FreeName(fmt.Sprintf("name%d", n+1))}
	if unicode.IsUpper(rune(kind)) { // one of many, all named differently
		kind = byte(unicode.ToLower(rune(kind)))
		d = decl{kind: kind, name: ai.Lit(fmt.Sprintf("known%d", n+1))}
	}
	switch kind {
	case 'd':
		d.node = b.Node("Struct", map[string]ai.Val{"Name": d.name, "Members": st.NewSlice([]ai.Val{})})
	case 'e':
		d.node = b.Node("Struct", map[string]ai.Val{"Name": d.name})
	case 'c':
		d.node = b.Node("Context", map[string]ai.Val{"Name": d.name})
	case 'k':
		d.val = x.int64(fmt.Sprintf("value%d", n+1))
		d.node = b.Node("Constant", map[string]ai.Val{"Name": d.name, "Value": ai.Int{L: d.val, K: types.Int64}})
	}
	return d
}

func (i *insp) int64(name string) dom.Lin {
	return dom.Var(i.e.Tab.Sym(name, new(big.Int).Neg(pow2(63)), new(big.Int).SetInt64(1<<63-1)))
}

func (x *res) empty(k func(st *ai.State)) {
	x.do(x.at, x.e.NewState(), x.fn("NewResolverEmpty"), nil, func(st *ai.State, ret []ai.Val) {
		x.rv = ret[0]
		k(st)
	})
}

// steps adds declarations one by one.
func (x *res) steps(kinds string, setter bool) {
	x.empty(func(st *ai.State) {
		var rec func(st *ai.State, cur []decl, n int)
		var last decl
		rec = func(st *ai.State, cur []decl, n int) {
			x.query(st, cur, n)
			if n == len(kinds) {
				return
			}
			st = st.Detached()
			var d decl
			if kinds[n] == '=' { // the very same node again
				d = last
			} else {
				d = x.one(st, kinds[n], n)
				last = d
			}
			fn, args := "AddStruct", []ai.Val{x.rv, d.node}
			switch d.kind {
			case 'c':
				fn = "AddContext"
			case 'k':
				fn = "AddConstant"
				if setter {
					fn, args = "SetConstant", []ai.Val{x.rv, d.name, ai.Int{L: d.val, K: types.Int64}}
				}
			}
			expect(st, cur, d, func(st *ai.State, due string, next []decl) {
				x.do(x.at, st, x.method("Resolver", fn), args, func(st *ai.State, ret []ai.Val) {
					x.r.Ok("conflict")
					if failed := !ai.IsNil(ret[0]); failed && due == "no" {
						x.bad("conflict", fn, st, "a declaration that conflicts with nothing is refused")
					} else if !failed && due == "must" {
						x.bad("conflict", fn, st, "a conflicting declaration is accepted")
					}
					rec(st, next, n+1)
				})
			})
		}
		rec(st, nil, 0)
	})
}

// query looks up an arbitrary name in every table.
func (x *res) query(st *ai.State, cur []decl, n int) {
	kinds := map[byte]bool{}
	for _, d := range cur {
		kinds[ns(d.kind)] = true
	}
	if len(cur) == 0 {
		kinds = map[byte]bool{'d': true, 'c': true, 'k': true}
	}
	q := ai.FreeName(fmt.Sprintf("query%d", n))
	for _, kind := range []byte{'d', 'c', 'k'} {
		if !kinds[kind] {
			continue
		}
		find(st, cur, kind, q, func(st *ai.State, n int) {
			var d *decl
			if n >= 0 {
				d = &cur[n]
			}
			x.lookup(st, kind, q, d)
		})
	}
	x.structs(st, cur)
}

func (x *res) lookup(st *ai.State, kind byte, q ai.Str, d *decl) {
	pair := func(fn string) {
		x.do(x.at, st, x.method("Resolver", fn), []ai.Val{x.rv, q}, func(st *ai.State, ret []ai.Val) {
			x.r.Ok("resolve")
			switch {
			case d == nil:
				if !isBool(st, ret[1], false) {
					x.bad("resolve", fn, st, "a name that is not declared is found")
				}
			case !isBool(st, ret[1], true):
				x.bad("resolve", fn, st, "a declared name is not found")
			case kind == 'k':
				if v, ok := ret[0].(ai.Int); !ok || !st.Store.EntailsEQ(v.L.Sub(d.val)) {
					x.bad("resolve", fn, st, "the constant resolves to %s instead of %s", st.Show(ret[0]), x.e.Tab.Format(d.val))
				}
			case st.EqVal(ret[0], d.node) != true:
				x.bad("resolve", fn, st, "the name resolves to another declaration")
			}
		})
	}
	switch kind {
	case 'd':
		pair("Struct")
		fn := "StructNonExtern"
		x.do(x.at, st, x.method("Resolver", fn), []ai.Val{x.rv, q}, func(st *ai.State, ret []ai.Val) {
			x.r.Ok("resolve")
			failed := !ai.IsNil(ret[1])
			defined := d != nil && d.kind == 'd'
			switch {
			case defined && failed:
				x.bad("resolve", fn, st, "a defined struct is not found")
			case !defined && !failed:
				x.bad("unresolved", fn, st, "a struct that is not defined is reported as found")
			case defined && st.EqVal(ret[0], d.node) != true:
				x.bad("resolve", fn, st, "the name resolves to another declaration")
			}
		})
	case 'c':
		pair("Context")
	case 'k':
		pair("Constant")
		n := st.Detached()
		b := &schema.Builder{St: n, Ast: x.ast, Name: func(string) ai.Str { return q }}
		ref := b.Integer(schema.Integer{Const: "q"})
		x.integer(n, ref, d)
		// the same reference inside lists
		lit := func(v int64) schema.Integer { return schema.Integer{Val: big.NewInt(v)} }
		use := schema.Integer{Const: "q"}
		big := lit(1<<63 - 1)
		if d == nil {
			for _, l := range [][]schema.Range{{{Lo: use}}, {{Lo: use, Hi: &big}}, {{Lo: lit(0), Hi: &use}}, {{Lo: lit(3)}, {Lo: use}}} {
				n := st.Detached()
				b := &schema.Builder{St: n, Ast: x.ast, Name: func(string) ai.Str { return q }}
				lv := b.List(l)
				x.do(x.at, n, x.method("Resolver", "Intervals"), []ai.Val{x.rv, lv}, func(st *ai.State, ret []ai.Val) {
					x.r.Ok("unresolved")
					if ai.IsNil(ret[1]) {
						x.bad("unresolved", "Intervals", st, "an undefined constant in a list is not reported")
					}
				})
			}
		}
	}
}

func (x *res) integer(st *ai.State, ref ai.Val, d *decl) {
	fn := "Integer"
	x.do(x.at, st, x.method("Resolver", fn), []ai.Val{x.rv, ref}, func(st *ai.State, ret []ai.Val) {
		x.r.Ok("unresolved")
		failed := !ai.IsNil(ret[1])
		switch {
		case d == nil && !failed:
			x.bad("unresolved", fn, st, "an undefined constant resolves to %s", st.Show(ret[0]))
		case d != nil && failed:
			x.bad("resolve", fn, st, "a defined constant is reported as undefined")
		case d != nil:
			if v, ok := ret[0].(ai.Int); !ok || !st.Store.EntailsEQ(v.L.Sub(d.val)) {
				x.bad("resolve", fn, st, "the constant resolves to %s instead of %s", st.Show(ret[0]), x.e.Tab.Format(d.val))
			}
		}
	})
}

// structs compares the list of all structs.
func (x *res) structs(st *ai.State, cur []decl) {
	fn := lookupMethod(x.p.SSA, types.NewPointer(x.typ("Resolver")), x.pkg.Types, "Structs")
	if fn == nil {
		return
	}
	x.do(x.at, st, fn, []ai.Val{x.rv}, func(st *ai.State, ret []ai.Val) {
		x.r.Ok("resolve")
		var el []ai.Val
		if !ai.IsNil(ret[0]) {
			el, _ = st.Elems(ret[0])
		}
		n := 0
		for _, d := range cur {
			if ns(d.kind) != 'd' {
				continue
			}
			n++
			hit := 0
			for _, v := range el {
				if st.EqVal(v, d.node) == true {
					hit++
				}
			}
			if hit != 1 {
				x.bad("resolve", "Structs", st, "a declared struct appears %d times in the list of structs", hit)
			}
		}
		if len(el) != n {
			x.bad("resolve", "Structs", st, "%d structs are listed, %d declared", len(el), n)
		}
	})
}

// files adds whole files; decls of a file are given as kinds.
func (x *res) files(kinds []string, all bool) {
	st := x.e.NewState()
	n := 0
	var fds [][]decl
	var nodes []ai.Val
	for i, ks := range kinds {
		if ks == "=" { // the very same file again
			nodes, fds = append(nodes, nodes[i-1]), append(fds, fds[i-1])
			continue
		}
		var ds []decl
		list := map[byte][]ai.Val{}
		for _, k := range []byte(ks) {
			d := x.one(st, k, n)
			n++
			ds = append(ds, d)
			list[ns(d.kind)] = append(list[ns(d.kind)], d.node)
		}
		fs := map[string]ai.Val{}
		for k, f := range map[byte]string{'d': "Structs", 'c': "Contexts", 'k': "Constants"} {
			if list[k] != nil {
				fs[f] = st.NewSlice(list[k])
			}
		}
		b := &schema.Builder{St: st, Ast: x.ast, Name: ai.Name}
		nodes = append(nodes, b.Node("File", fs))
		fds = append(fds, ds)
	}
	// fileRef is the reference effect of adding a file
	fileRef := func(st *ai.State, cur []decl, ds []decl, k func(st *ai.State, due string, next []decl)) {
		var dup func(st *ai.State, i, j int, k func(st *ai.State, d bool))
		dup = func(st *ai.State, i, j int, k func(st *ai.State, d bool)) {
			if i == len(ds) {
				k(st, false)
				return
			}
			if j == i {
				dup(st, i+1, 0, k)
				return
			}
			if ns(ds[i].kind) != ns(ds[j].kind) {
				dup(st, i, j+1, k)
				return
			}
			split(st, st.EqStr(ds[i].name, ds[j].name), func(st *ai.State, eq bool) {
				if eq {
					k(st, true)
				} else {
					dup(st, i, j+1, k)
				}
			})
		}
		dup(st, 0, 0, func(st *ai.State, d bool) {
			if d {
				k(st, "must", cur)
				return
			}
			var rec func(st *ai.State, tab []decl, n int, due string)
			rec = func(st *ai.State, tab []decl, n int, due string) {
				if n == len(ds) {
					if due == "must" {
						tab = cur
					}
					k(st, due, tab)
					return
				}
				expect(st, tab, ds[n], func(st *ai.State, e string, next []decl) {
					w := due
					if e == "must" || (e == "any" && w == "no") {
						w = e
					}
					rec(st, next, n+1, w)
				})
			}
			rec(st, cur, 0, "no")
		})
	}
	var table func(st *ai.State, cur []decl, n int, due string, k func(st *ai.State, due string, cur []decl))
	table = func(st *ai.State, cur []decl, n int, due string, k func(st *ai.State, due string, cur []decl)) {
		if n == len(fds) || due != "no" {
			k(st, due, cur)
			return
		}
		fileRef(st, cur, fds[n], func(st *ai.State, d string, next []decl) { table(st, next, n+1, d, k) })
	}
	if all {
		fv := st.NewSlice(nodes)
		table(st, nil, 0, "no", func(st *ai.State, due string, cur []decl) {
			x.do(x.at, st, x.fn("NewResolverFiles"), []ai.Val{fv}, func(st *ai.State, ret []ai.Val) {
				x.r.Ok("conflict")
				failed := !ai.IsNil(ret[1])
				if failed && due == "no" {
					x.r.Bad("conflict", x.at, x.fn("NewResolverFiles").Pos(), "files without conflicts are refused when %s", facts(st))
				} else if !failed && due == "must" {
					x.r.Bad("conflict", x.at, x.fn("NewResolverFiles").Pos(), "conflicting files are accepted when %s", facts(st))
				}
				if !failed && due == "no" {
					x.rv = ret[0]
					x.query(st, cur, 0)
				}
			})
		})
		return
	}
	x.do(x.at, st, x.fn("NewResolverEmpty"), nil, func(st *ai.State, ret []ai.Val) {
		x.rv = ret[0]
		var rec func(st *ai.State, cur []decl, n int)
		rec = func(st *ai.State, cur []decl, n int) {
			if n == len(fds) {
				x.query(st, cur, n)
				return
			}
			fileRef(st, cur, fds[n], func(st *ai.State, due string, next []decl) {
				x.do(x.at, st, x.method("Resolver", "AddFile"), []ai.Val{x.rv, nodes[n]}, func(st *ai.State, ret []ai.Val) {
					x.r.Ok("conflict")
					failed := !ai.IsNil(ret[0])
					if failed && due == "no" {
						x.bad("conflict", "AddFile", st, "a file that conflicts with nothing is refused")
					} else if !failed && due == "must" {
						x.bad("conflict", "AddFile", st, "a conflicting file is accepted")
					}
					if !failed && due != "must" {
						rec(st, next, n+1)
						return
					}
					// what was declared before stays in force
					for c := range cur {
						d := cur[c]
						if d.kind == 'e' {
							continue // may have been superseded
						}
						x.r.Ok("kept")
						x.lookup(st, ns(d.kind), d.name, &d)
					}
				})
			})
		}
		rec(st, nil, 0)
	})
}

// tag resolves references to fields.
func (x *res) intType(scope string) {
	st := x.e.NewState()
	b := &schema.Builder{St: st, Ast: x.ast, Name: ai.FreeName}
	ft := []schema.Type{&schema.Int{Size: 8}, &schema.Int{Size: 32}, schema.NulTerm{}, &schema.StructRef{Name: "other"}}
	mk := func(prefix string) (fs []*schema.Field, ns []ai.Str) {
		for n, t := range ft {
			name := fmt.Sprintf("%s%d", prefix, n+1)
			fs = append(fs, &schema.Field{Name: name, Type: t})
			ns = append(ns, ai.FreeName(name))
		}
		return
	}
	lf, ln := mk("local")
	cf, cn := mk("ctx")
	s := &schema.Struct{Name: "s"}
	inner := &schema.Field{Name: "inner", Type: ft[0]}
	s.Members = append(s.Members, &schema.Union{Name: "u", Tag: &schema.Ref{Name: "local1"}, Cases: []*schema.Case{{Default: true, Members: []schema.Member{inner}}}})
	for _, f := range lf {
		s.Members = append(s.Members, f)
	}
	s.Members = append(s.Members, schema.EOS{})
	file := b.File(&schema.File{Ctxs: []*schema.Ctx{{Name: "scope1", Fields: cf}, {Name: "scope2", Fields: lf[:1]}, {Name: "scope3"}}, Structs: []*schema.Struct{s}})
	sp, _ := st.Elems(x.field(st, file, "File", "Structs"))
	fields := func(list ai.Val, typ string) []ai.Val {
		el, _ := st.Elems(x.field(st, list, typ, "Members"))
		return el
	}
	ctxs, _ := st.Elems(x.field(st, file, "File", "Contexts"))
	ref := &schema.Ref{Name: "q", Scope: scope}
	rp := b.Length(ref).(ai.Iface).V
	// pairwise distinct field names within each list
	distinct(st, ln, func(st *ai.State) {
		distinct(st, cn, func(st *ai.State) {
			fs := st.NewSlice([]ai.Val{file})
			x.do(x.at, st, x.fn("NewResolverFiles"), []ai.Val{fs}, func(st *ai.State, ret []ai.Val) {
				if !ai.IsNil(ret[1]) {
					return // contexts of the same name
				}
				rv := ret[0]
				pick := func(st *ai.State, names []ai.Str, nodes []ai.Val) {
					var rec func(st *ai.State, n int)
					rec = func(st *ai.State, n int) {
						if n == len(names) {
							split(st, st.EqStr(ai.FreeName("inner"), ai.FreeName("q")), func(st *ai.State, eq bool) {
								if !eq || scope != "" { // members of unions may or may not be found
									x.tag(st, rv, rp, sp[0], nil)
								}
							})
							return
						}
						split(st, st.EqStr(names[n], ai.FreeName("q")), func(st *ai.State, eq bool) {
							if !eq {
								rec(st, n+1)
								return
							}
							var want ai.Val
							if _, isInt := ft[n].(*schema.Int); isInt {
								want = x.field(st, nodes[n], "Field", "Type").(ai.Iface).V
							}
							x.tag(st, rv, rp, sp[0], want)
						})
					}
					rec(st, 0)
				}
				if scope == "" {
					pick(st, ln, fields(sp[0], "Struct")[1:])
					return
				}
				find(st, []decl{{kind: 'c', name: ai.FreeName("scope1")}, {kind: 'c', name: ai.FreeName("scope2")}, {kind: 'c', name: ai.FreeName("scope3")}}, 'c', ai.FreeName(scope), func(st *ai.State, n int) {
					switch n {
					case -1:
						x.tag(st, rv, rp, sp[0], nil)
					case 0:
						pick(st, cn, fields(ctxs[0], "Context"))
					case 2:
						pick(st, nil, nil)
					default:
						pick(st, ln[:1], fields(ctxs[1], "Context"))
					}
				})
			})
		})
	})
}

func (x *res) tag(st *ai.State, rv, ref, local, want ai.Val) {
	x.do(x.at, st, x.method("Resolver", "IntType"), []ai.Val{rv, ref, local}, func(st *ai.State, ret []ai.Val) {
		x.r.Ok("field")
		failed := !ai.IsNil(ret[1])
		switch {
		case want == nil && !failed:
			x.bad("field", "IntType", st, "a reference that names no integer field resolves to %s", st.Show(ret[0]))
		case want != nil && failed:
			x.bad("field", "IntType", st, "a reference to an integer field is not resolved")
		case want != nil && st.EqVal(ret[0], want) != true:
			x.bad("field", "IntType", st, "a reference resolves to another field")
		}
	})
}

// distinct continues where all names differ.
func distinct(st *ai.State, ns []ai.Str, k func(st *ai.State)) {
	var rec func(st *ai.State, i, j int)
	rec = func(st *ai.State, i, j int) {
		switch {
		case i == len(ns):
			k(st)
		case j == i:
			rec(st, i+1, 0)
		default:
			split(st, st.EqStr(ns[i], ns[j]), func(st *ai.State, eq bool) {
				if !eq {
					rec(st, i, j+1)
				}
			})
		}
	}
	rec(st, 0, 0)
}

func nameResolution(r *Report) {
	r.Rule("conflict", "a declaration is refused exactly when it conflicts with an earlier one", 100)
	r.Rule("resolve", "a name resolves to the declaration with exactly that name, in every table", 1000)
	r.Rule("unresolved", "references to undeclared names are errors", 100)
	r.Rule("kept", "after a refused declaration the earlier ones stay in force", 20)
	r.Rule("field", "a field reference resolves to the integer field of that name, or is an error", 12)
	type job struct {
		name string
		run  func(x *res)
	}
	var jobs []job
	add := func(name string, f func(x *res)) { jobs = append(jobs, job{name, f}) }
	seqs := []string{""}
	for n := 0; n < len(seqs) && len(seqs[n]) < 3; n++ {
		seqs = append(seqs, seqs[n]+"d", seqs[n]+"e")
	}
	if r.Tier == "thorough" {
		seqs = append(seqs, "dede", "eede", "ddee")
	}
	for _, s := range append(seqs, "c", "cc", "ccc", "dc", "cd", "dck", "kcd", "cek", "d=", "e=", "c=", "k=", "ed=", "cd=", "DDDDDDDDDDDDDDDDDDd", "CCCCCCCCCCCCCCCCCCc", "KKKKKKKKKKKKKKKKKKk", "EEEEEEEEEEd") {
		s := s
		add("declarations "+s, func(x *res) { x.steps(s, false) })
	}
	for _, s := range []string{"k", "kk", "kkk"} {
		s := s
		add("constants "+s, func(x *res) { x.steps(s, false) })
		add("set constants "+s, func(x *res) { x.steps(s, true) })
	}
	for _, fs := range []string{"d", "dd", "de", "ed", "ee", "cc", "kk", "dck", "d d", "d e", "e d", "e e", "e e d", "e d d", "e d e", "dd d", "de e", "c c", "k k", "k k k", "cc c", "kk k", "dk dk", "dc dc", "ed e", "dck d", "d dd", "k kk", "c cc", "d c k", "d =", "c =", "k =", "e =", "dck =", "D D D D D D D D d", "DDDDDDDDDDDDDDDDDDd CKd", "CCCCCCCCCCCCCCCCCCc", "KKKKKKKKKKKKKKKKKKk"} {
		l := strings.Fields(fs)
		add("added files "+fs, func(x *res) { x.files(l, false) })
		add("files "+fs, func(x *res) { x.files(l, true) })
	}
	add("local reference", func(x *res) { x.intType("") })
	add("context reference", func(x *res) { x.intType("scopeq") })
	rs := make([]*Report, len(jobs))
	parallel(r.P, len(jobs), func(p *load.Program, n int) {
		q := NewReport(r.Prop, r.Tier, p)
		rs[n] = q
		try(q, jobs[n].name, func() {
			x := &res{insp: newInsp(q, p), at: jobs[n].name}
			defer func() { q.Absorb(x.e) }()
			jobs[n].run(x)
		})
	})
	for _, q := range rs {
		r.merge(q)
	}
	r.Extra["schema_shapes"] = len(jobs)
	for _, j := range jobs[10:20] {
		r.Sample("%s", j.name)
	}
}
