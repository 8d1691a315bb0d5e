package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/peg"
)

// entryCall is one attempt at parsing made by an entry point.
type entryCall struct {
	data  string
	val   ai.Val
	clean bool
}

// content is the data behind a reader or file.
func (v *pegVerifier) content(key string) ai.View {
	if v.contents == nil {
		v.contents = map[string]ai.View{}
	}
	w, ok := v.contents[key]
	if !ok {
		w = inputView(v.e, key)
		v.contents[key] = w
	}
	return w
}

func (v *pegVerifier) entryModels() {
	e := v.e
	name := func(st *ai.State, x ai.Val) string {
		if s, ok := x.(ai.Str); ok {
			return st.Resolve(s).String()
		}
		return "?"
	}
	fail := func(st *ai.State, what string) *ai.State {
		if st.Data["failed"] == nil {
			st.Data["failed"] = what
		}
		return st
	}
	open := func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
		n := name(st, a[0])
		bad := fail(st.Clone(), n)
		p := st.New(&ai.StructV{F: []ai.Val{ai.Lit(n)}})
		st.Data[fmt.Sprint("src", p.Obj)] = n
		return []ai.Res{{St: st, V: ai.Tuple{p, ai.NilV{}}}, {St: bad, V: ai.Tuple{ai.NilV{}, e.NewError(bad, ai.Lit("open "+n))}}}
	}
	e.Intr["os.Open"] = open
	e.Intr["(*os.File).Close"] = func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
		bad := st.Clone()
		n := "?"
		if p, ok := a[0].(ai.Ptr); ok {
			n, _ = st.Data[fmt.Sprint("src", p.Obj)].(string)
		}
		bad.Data["closefail"] = n
		return []ai.Res{{St: st, V: ai.NilV{}}, {St: bad, V: e.NewError(bad, ai.Lit("close "+n))}}
	}
	readAll := func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
		i, _ := a[0].(ai.Iface)
		key := ""
		switch p := i.V.(type) {
		case ai.Ptr:
			key, _ = st.Data[fmt.Sprint("src", p.Obj)].(string)
		case ai.Opaque:
			key = p.Name
		}
		if key == "" {
			return []ai.Res{{St: st, Stop: "reading from an unknown source"}}
		}
		ok := st.Clone()
		out := []ai.Res{{St: ok, V: ai.Tuple{v.content(key), ai.NilV{}}}}
		if strings.HasPrefix(key, "text:") {
			return out
		}
		bad := fail(st.Clone(), key)
		return append(out, ai.Res{St: bad, V: ai.Tuple{v.content(key + " (part)"), e.NewError(bad, ai.Lit("read "+key))}})
	}
	e.Intr["io.ReadAll"] = readAll
	e.Intr["io/ioutil.ReadAll"] = readAll
	readFile := func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
		n := name(st, a[0])
		bad := fail(st.Clone(), n)
		return []ai.Res{{St: st, V: ai.Tuple{v.content(n), ai.NilV{}}}, {St: bad, V: ai.Tuple{ai.NilV{}, e.NewError(bad, ai.Lit("open "+n))}}}
	}
	e.Intr["os.ReadFile"] = readFile
	e.Intr["io/ioutil.ReadFile"] = readFile
	textReader := func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
		p := st.New(&ai.StructV{})
		key := ""
		switch s := a[0].(type) {
		case ai.Str:
			key = s.String()
		case ai.Text:
			key = s.S.String()
		}
		st.Data[fmt.Sprint("src", p.Obj)] = "text:" + key
		return ai.One(st, p)
	}
	for _, n := range []string{"strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer"} {
		e.Intr[n] = textReader
	}
}

// entryOracle stands for parsing the whole text.
func (v *pegVerifier) entryOracle(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	p, ok := a[0].(ai.Ptr)
	if !ok {
		return []ai.Res{{St: st, Stop: "parseExpr without a parser"}}
	}
	v.p = p
	bad := func(s *ai.State, kind, msg string) { s.Emit("entry:"+kind, c.Pos, ai.Lit(msg)) }
	var data dom.Lin
	key := ""
	switch d := v.get(st, "data").(type) {
	case ai.View:
		key = d.Base.Name
		data = d.Len
		if !d.Off.Equal(dom.Const(0)) || !d.Len.Equal(v.content(key).Len) {
			bad(st, "data", "only a part of the input is parsed")
		}
	case ai.Text:
		key = "text:" + d.S.String()
		data = v.content(key).Len
	default:
		return []ai.Res{{St: st, Stop: "the parser's input is unknown"}}
	}
	// the first expression, in the initial state
	i, _ := a[1].(ai.Iface)
	x, ok := i.V.(ai.Ptr)
	if !ok || len(v.t.g.Rules) == 0 || v.t.rules[v.t.g.Rules[0].Name].ptr.Obj != x.Obj {
		bad(st, "start", "parsing does not begin with the first rule of the grammar")
	}
	pt := v.pt(st)
	if !st.Store.EntailsEQ(v.offset(pt)) {
		bad(st, "start", "parsing does not begin at the start of the input")
	}
	rn, w := lin(pt[v.ptIndex("rn")]), lin(pt[v.ptIndex("w")])
	if st.Store.EntailsEQ(data) {
		if !st.Store.EntailsEQ(w) || !st.Store.EntailsEQ(rn.AddC(-runeError)) {
			bad(st, "start", "the first character is not read")
		}
	} else {
		r0, w0 := v.runeAt(v.content(key), dom.Const(0))
		if !st.Store.EntailsEQ(w.Sub(w0)) || !st.Store.EntailsEQ(rn.Sub(r0)) {
			bad(st, "start", "the first character is not read")
		}
		if st.Store.EntailsEQ(rn.AddC(-runeError)) && st.Store.EntailsEQ(w.AddC(-1)) && v.nerrs(st) < 1 {
			bad(st, "encoding", "an invalid character is not reported")
		}
	}
	if m, ok := v.cur(st, "state").(ai.MapRef); !ok {
		bad(st, "start", "the state store is missing")
	} else if ks, _ := st.MapEntries(m); len(ks) > 0 {
		bad(st, "start", "the state store is not empty")
	}
	if fs, ok := v.frames(st); !ok || len(fs) == 0 {
		bad(st, "start", "there is no label frame")
	} else if ks, _ := st.MapEntries(fs[len(fs)-1]); len(ks) > 0 {
		bad(st, "start", "the first label frame is not empty")
	}
	for f, want := range map[string]ai.Val{"memoize": false, "debug": false, "allowInvalidUTF8": false} {
		if k := fieldIndex(v.ps, f); k >= 0 && v.get(st, f) != want {
			bad(st, "option", "the option "+f+" is on")
		}
	}
	if k := fieldIndex(v.ps, "maxExprCnt"); k >= 0 {
		if n, ok := v.get(st, "maxExprCnt").(ai.Int); !ok || !st.Store.Entails(n.L.Sub(dom.ConstBig(new(big.Int).Lsh(big.NewInt(1), 62)))) {
			bad(st, "option", "the size of an input is limited")
		}
	}
	var out []ai.Res
	report := func(s *ai.State) {
		if es, ok := v.get(s, "errs").(ai.Ptr); ok {
			old, _ := s.Elems(s.Load(es))
			s.StoreTo(es, s.NewSlice(append(append([]ai.Val(nil), old...), v.e.NewError(s, ai.Lit("reported for "+key)))))
		}
	}
	finish := func(s *ai.State, ok bool, val ai.Val, res ai.Res) {
		clean := ok && v.nerrs(s) == 0
		calls, _ := s.Data["calls"].([]entryCall)
		s.Data["calls"] = append(calls[:len(calls):len(calls)], entryCall{key, val, clean})
		if !clean && s.Data["failed"] == nil {
			s.Data["failed"] = key
		}
		res.St = s
		if res.Panic == "" && res.PanicV == nil {
			res.V = ai.Tuple{val, ok}
		}
		out = append(out, res)
	}
	ast := v.t.p.Pkgs[load.Module+"/ast"].Types.Scope().Lookup("File").Type()
	for _, rep := range []bool{false, true} {
		if rep && st.Data["many"] != nil {
			return out
		}
		s := st.Clone()
		tree := ai.Iface{T: types.NewPointer(ast), V: s.NewTyped(ast)}
		if rep {
			report(s)
		}
		finish(s, true, tree, ai.Res{})
		s = st.Clone()
		if rep {
			report(s)
		}
		finish(s, false, ai.NilV{}, ai.Res{})
	}
	s := st.Clone()
	finish(s, false, nil, ai.Res{PanicV: v.e.NewError(s, ai.Lit("panicking"))})
	s = st.Clone()
	finish(s, false, nil, ai.Res{PanicV: ai.Iface{T: types.Typ[types.String], V: ai.Lit("panicking")}})
	return out
}

// entry analyses an exported entry point of package parse.
func (v *pegVerifier) entry(fn *ssa.Function, name string, names []string) (cnt int, out []mismatch) {
	add := func(kind string, pos token.Pos, f string, a ...any) {
		out = append(out, mismatch{kind: kind, path: "parse." + fn.Name(), msg: fmt.Sprintf(f, a...), pos: pos})
	}
	st := v.e.NewState()
	st.Data["root"] = true
	st.Data["entry"] = true
	var args []ai.Val
	keys := names
	switch fn.Name() {
	case "File":
		args = []ai.Val{ai.Lit(names[0])}
	case "Files":
		var l []ai.Val
		for _, n := range names {
			l = append(l, ai.Lit(n))
			if len(names) > 3 { // only whether each is accepted matters
				st.Data["many"] = true
				_, w := v.runeAt(v.content(n), dom.Const(0))
				st.Store = st.Store.GE(v.content(n).Len.AddC(-1)).GE(w.AddC(-2))
			}
		}
		args = []ai.Val{st.NewSlice(l)}
		if len(l) == 0 {
			args = []ai.Val{ai.NilV{}}
		}
	case "Reader":
		keys = []string{"the reader"}
		args = []ai.Val{ai.Lit("name"), ai.Iface{T: types.NewPointer(types.NewStruct(nil, nil)), V: ai.Opaque{Name: "the reader"}}}
	case "String":
		keys = []string{"text:source"}
		args = []ai.Val{ai.Lit("source")}
	}
	for _, o := range v.e.Call(st, fn, args...) {
		cnt++
		switch o.Kind {
		case "return":
		case "panic":
			add("panic", o.Pos, "panics: %s", o.Msg)
			continue
		default:
			add("undecided", o.Pos, "%s: %s", o.Kind, o.Msg)
			continue
		}
		s := o.St
		for _, ev := range s.EventList() {
			if strings.HasPrefix(ev.Kind, "entry:") {
				add(strings.TrimPrefix(ev.Kind, "entry:"), ev.Pos, "%s", ev.Args[0].(ai.Str).String())
			}
			if ev.Kind == "output" {
				add("output", ev.Pos, "parsing writes output")
			}
		}
		if len(o.Ret) != 2 {
			add("undecided", fn.Pos(), "does not return a tree and an error")
			continue
		}
		calls, _ := s.Data["calls"].([]entryCall)
		failed, _ := s.Data["failed"].(string)
		closeFail, _ := s.Data["closefail"].(string)
		treeNil, errNil := ai.IsNil(o.Ret[0]), ai.IsNil(o.Ret[1])
		switch {
		case failed == "" && closeFail != "" && !errNil:
			if !treeNil {
				add("result", fn.Pos(), "returns both a tree and an error when closing fails")
			}
			continue
		case failed == "" && !errNil:
			add("result", fn.Pos(), "returns an error although parsing succeeds")
			continue
		case failed != "" && errNil:
			add("result", fn.Pos(), "returns no error although reading or parsing %s fails", failed)
			continue
		case failed != "":
			if !treeNil {
				add("result", fn.Pos(), "returns a tree and an error")
			}
			if fn.Name() == "Files" {
				txt := s.Show(o.Ret[1])
				if closeFail == "" {
					if !strings.Contains(txt, failed) {
						add("first", fn.Pos(), "the error reported is not the one of the first failing file")
					}
				}
			}
			continue
		}
		// success: the trees, in order
		var got []ai.Val
		if fn.Name() == "Files" {
			if l, ok := s.Elems(o.Ret[0]); ok {
				got = l
			} else if len(names) > 0 || !treeNil {
				add("result", fn.Pos(), "the list of trees is not known")
				continue
			}
		} else {
			got = []ai.Val{o.Ret[0]}
		}
		if len(got) != len(keys) {
			add("result", fn.Pos(), "%d trees for %d files", len(got), len(keys))
			continue
		}
		for i, g := range got {
			gp, ok := g.(ai.Ptr)
			if !ok {
				add("result", fn.Pos(), "returns neither a tree nor an error")
				continue
			}
			found := false
			for _, c := range calls {
				if unIface(c.val).(ai.Ptr).Obj == gp.Obj {
					found = c.data == keys[i]
				}
			}
			if !found {
				add("order", fn.Pos(), "tree %d is not the tree of %s", i, keys[i])
			}
		}
	}
	return
}

// checkEntries decides the behaviour of all entry points.
func (v *pegVerifier) checkEntries() (cnt int, out []mismatch) {
	pk := v.t.p.Pkgs[load.Module+"/parse"]
	if pk == nil {
		return 0, []mismatch{{kind: "undecided", path: "parse", msg: "package parse not found"}}
	}
	run := func(name string, names ...string) {
		fn := pk.SSA.Func(name)
		if fn == nil {
			out = append(out, mismatch{kind: "undecided", path: "parse." + name, msg: "function not found"})
			return
		}
		c, ms := v.entry(fn, name, names)
		cnt += c
		out = append(out, ms...)
	}
	run("File", "first.trunnel")
	run("Reader")
	run("String")
	run("Files")
	run("Files", "first.trunnel")
	run("Files", "first.trunnel", "second.trunnel")
	run("Files", "first.trunnel", "second.trunnel", "third.trunnel")
	run("Files", "first.trunnel", "second.trunnel", "third.trunnel", "fourth.trunnel", "fifth.trunnel")
	return
}

var _ = peg.Seq
