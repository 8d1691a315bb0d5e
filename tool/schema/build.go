package schema

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/tool/ai"
	"verif/tool/dom"
)

// Builder translates schemas to abstract values of the repository's ast types.
type Builder struct {
	St   *ai.State
	Ast  *types.Package
	Name func(string) ai.Str
	// Nodes counts the tree nodes built.
	Nodes int
	// Kinds, if set, collects the types of nodes built.
	Kinds map[string]bool
}

// Missing is panicked when the ast package lacks an expected type or field.
type Missing string

func (b *Builder) named(n string) types.Type {
	o := b.Ast.Scope().Lookup(n)
	if o == nil {
		panic(Missing("ast." + n))
	}
	return o.Type()
}

// Node allocates a node of ast type n with the given fields.
func (b *Builder) Node(n string, fields map[string]ai.Val) ai.Ptr {
	t := b.named(n)
	p := b.St.NewTyped(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(Missing("ast." + n + " is not a struct"))
	}
	used := 0
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			b.St.StoreTo(ai.Ptr{Obj: p.Obj, Path: []int{i}}, v)
			used++
		}
	}
	if used != len(fields) {
		panic(Missing(fmt.Sprintf("fields of ast.%s", n)))
	}
	b.Nodes++
	if b.Kinds != nil {
		b.Kinds[n] = true
	}
	return p
}

func (b *Builder) iface(n string, fields map[string]ai.Val) ai.Val {
	return ai.Iface{T: types.NewPointer(b.named(n)), V: b.Node(n, fields)}
}

func (b *Builder) slice(vs []ai.Val) ai.Val {
	if vs == nil {
		return ai.NilV{}
	}
	return b.St.NewSlice(vs)
}

// File builds a *ast.File.
func (b *Builder) File(f *File) ai.Val {
	var cs, xs, ss []ai.Val
	for _, c := range f.Consts {
		cs = append(cs, b.Node("Constant", map[string]ai.Val{"Name": b.Name(c.Name), "Value": literal(c.Val, c.Sym)}))
	}
	for _, c := range f.Ctxs {
		var ms []ai.Val
		for _, m := range c.Fields {
			ms = append(ms, b.field(m))
		}
		xs = append(xs, b.Node("Context", map[string]ai.Val{"Name": b.Name(c.Name), "Members": b.slice(ms)}))
	}
	for _, s := range f.Structs {
		ss = append(ss, b.Struct(s))
	}
	fs := map[string]ai.Val{"Constants": b.slice(cs), "Contexts": b.slice(xs), "Structs": b.slice(ss)}
	if f.Pragmas != nil {
		var ps []ai.Val
		for _, g := range f.Pragmas {
			var os []ai.Val
			for _, o := range g.Options {
				os = append(os, b.Name(o))
			}
			ps = append(ps, b.Node("Pragma", map[string]ai.Val{"Type": b.Name(g.Type), "Options": b.slice(os)}))
		}
		fs["Pragmas"] = b.slice(ps)
	}
	return b.Node("File", fs)
}

// Struct builds a *ast.Struct.
func (b *Builder) Struct(s *Struct) ai.Val {
	var cx []ai.Val
	for _, c := range s.Ctx {
		cx = append(cx, b.Name(c))
	}
	fs := map[string]ai.Val{"Name": b.Name(s.Name), "Contexts": b.slice(cx)}
	if !s.Extern {
		ms := []ai.Val{}
		for _, m := range s.Members {
			ms = append(ms, b.Member(m))
		}
		fs["Members"] = b.slice(ms)
	}
	return b.Node("Struct", fs)
}

func (b *Builder) field(m *Field) ai.Ptr {
	return b.Node("Field", map[string]ai.Val{"Name": b.Name(m.Name), "Type": b.Type(m.Type)})
}

// Member builds an ast.Member.
func (b *Builder) Member(m Member) ai.Val {
	switch m := m.(type) {
	case *Field:
		return ai.Iface{T: types.NewPointer(b.named("Field")), V: b.field(m)}
	case *Union:
		return ai.Iface{T: types.NewPointer(b.named("UnionMember")), V: b.Union(m)}
	case EOS:
		return b.iface("EOS", nil)
	case Fail:
		return b.iface("Fail", nil)
	case Ignore:
		return b.iface("Ignore", nil)
	}
	panic("member")
}

// Union builds a *ast.UnionMember.
func (b *Builder) Union(m *Union) ai.Ptr {
	var cs []ai.Val
	for _, c := range m.Cases {
		ms := []ai.Val{}
		for _, x := range c.Members {
			ms = append(ms, b.Member(x))
		}
		fs := map[string]ai.Val{"Members": b.slice(ms)}
		if !c.Default {
			fs["Case"] = b.List(c.List)
		}
		cs = append(cs, b.Node("UnionCase", fs))
	}
	fs := map[string]ai.Val{"Name": b.Name(m.Name), "Tag": b.ref(m.Tag), "Cases": b.slice(cs)}
	if m.Len != nil {
		fs["Length"] = b.Length(m.Len)
	}
	return b.Node("UnionMember", fs)
}

// List builds a *ast.IntegerList.
func (b *Builder) List(l []Range) ai.Val {
	var rs []ai.Val
	for _, r := range l {
		fs := map[string]ai.Val{"Low": b.Integer(r.Lo)}
		if r.Hi != nil {
			fs["High"] = b.Integer(*r.Hi)
		}
		rs = append(rs, b.Node("IntegerRange", fs))
	}
	return b.Node("IntegerList", map[string]ai.Val{"Ranges": b.slice(rs)})
}

// Integer builds an ast.Integer.
func (b *Builder) Integer(i Integer) ai.Val {
	if i.Const != "" {
		return b.iface("IntegerConstRef", map[string]ai.Val{"Name": b.Name(i.Const)})
	}
	return b.iface("IntegerLiteral", map[string]ai.Val{"Value": literal(i.Val, i.Sym)})
}

func (b *Builder) ref(r *Ref) ai.Ptr {
	fs := map[string]ai.Val{"Name": b.Name(r.Name)}
	if r.Scope != "" {
		fs["Scope"] = b.Name(r.Scope)
	}
	return b.Node("IDRef", fs)
}

// Length builds an ast.LengthConstraint.
func (b *Builder) Length(l Length) ai.Val {
	switch l := l.(type) {
	case nil:
		return ai.NilV{}
	case *Ref:
		return ai.Iface{T: types.NewPointer(b.named("IDRef")), V: b.ref(l)}
	case *Leftover:
		return b.iface("Leftover", map[string]ai.Val{"Num": b.Integer(l.Num)})
	}
	panic("length")
}

// Type builds an ast.Type.
func (b *Builder) Type(t Type) ai.Val {
	switch t := t.(type) {
	case *Int:
		fs := map[string]ai.Val{"Size": ai.IK(int64(t.Size), types.Uint)}
		if t.In != nil {
			fs["Constraint"] = b.List(t.In)
		}
		return b.iface("IntType", fs)
	case *StructRef:
		return b.iface("StructRef", map[string]ai.Val{"Name": b.Name(t.Name)})
	case Ptr:
		return b.iface("Ptr", nil)
	case NulTerm:
		return b.iface("NulTermString", nil)
	case Char:
		return b.iface("CharType", nil)
	case *Fixed:
		return b.iface("FixedArrayMember", map[string]ai.Val{"Base": b.Type(t.Base), "Size": b.Integer(t.Size)})
	case *Var:
		fs := map[string]ai.Val{"Base": b.Type(t.Base)}
		if t.Len != nil {
			fs["Constraint"] = b.Length(t.Len)
		}
		return b.iface("VarArrayMember", fs)
	}
	panic("type")
}

func literal(v *big.Int, sym *dom.Lin) ai.Val {
	if sym != nil {
		return ai.Int{L: *sym, K: types.Int64}
	}
	return ai.Int{L: dom.ConstBig(v), K: types.Int64}
}
