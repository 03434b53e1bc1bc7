// govdump writes the SSA form of the package in the given directory as JSON:
// the extraction step of gov. Nothing is dropped: every function of the package
// (methods, generic bodies, closures, package initialiser) is written with every
// instruction; instructions the verifier does not understand are written by name.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	fset  *token.FileSet
	tids  = map[string]int{}
	tlist []M
	pkg   *ssa.Package
)

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := q.Filename
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			f = f[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func qual(p *types.Package) string {
	if pkg != nil && p == pkg.Pkg {
		return ""
	}
	return p.Path()
}

// ty interns a type. Instances of generic types are identified with their origin.
func ty(t types.Type) int {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if o := n.Origin(); o.Obj().Pkg() != nil && pkg != nil && o.Obj().Pkg() == pkg.Pkg {
			t = o
		}
	}
	key := types.TypeString(t, qual)
	if tp, ok := t.(*types.TypeParam); ok {
		key = fmt.Sprintf("tparam:%s", tp.Obj().Name())
	}
	if id, ok := tids[key]; ok {
		return id
	}
	id := len(tlist)
	tids[key] = id
	m := M{"s": key}
	tlist = append(tlist, m)
	switch t := t.(type) {
	case *types.Named:
		m["k"] = "named"
		m["name"] = key
		if t.TypeParams() != nil && t.TypeArgs() == nil || t.Origin() == t {
			m["name"] = t.Obj().Name()
			if t.Obj().Pkg() != nil && t.Obj().Pkg() != pkg.Pkg {
				m["name"] = t.Obj().Pkg().Path() + "." + t.Obj().Name()
			}
		}
		m["u"] = ty(t.Underlying())
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = ty(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = ty(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = ty(t.Elem())
		m["n"] = t.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = ty(t.Key())
		m["e"] = ty(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = ty(t.Elem())
	case *types.Signature:
		m["k"] = "func"
		m["sig"] = sig(t)
	case *types.Interface:
		m["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Tuple:
		m["k"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, ty(t.At(i).Type()))
		}
		m["es"] = es
	case *types.TypeParam:
		m["k"] = "tparam"
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": ty(f.Type()), "emb": f.Embedded()})
		}
		m["f"] = fs
	default:
		m["k"] = "other"
	}
	return id
}

func sig(s *types.Signature) M {
	ps, rs := []int{}, []int{}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, ty(s.Params().At(i).Type()))
	}
	rn := []string{}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, ty(s.Results().At(i).Type()))
		rn = append(rn, s.Results().At(i).Name())
	}
	return M{"params": ps, "results": rs, "rnames": rn, "variadic": s.Variadic()}
}

func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + f.Name()[len(f.Parent().Name()):]
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			star, t = "*", p.Elem()
		}
		name := "?"
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name()
			if n.Obj().Pkg() != nil && n.Obj().Pkg() != pkg.Pkg {
				name = n.Obj().Pkg().Path() + "." + name
			}
		}
		return "(" + star + name + ")." + f.Name()
	}
	if f.Pkg != nil && f.Pkg != pkg {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg() != pkg.Pkg {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.Name()
}

func constVal(c *ssa.Const) any {
	if c.Value == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value)
	case constant.Int:
		return M{"int": c.Value.ExactString()}
	default:
		return M{"num": c.Value.ExactString()}
	}
}

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return M{"k": "const", "t": ty(v.Type()), "v": constVal(v), "nil": v.Value == nil}
	case *ssa.Function:
		return M{"k": "func", "f": fnKey(v), "t": ty(v.Type()), "local": v.Pkg == pkg || (v.Origin() != nil && v.Origin().Pkg == pkg) || (v.Parent() != nil)}
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != pkg {
			n = v.Pkg.Pkg.Path() + "." + n
		}
		return M{"k": "global", "n": n, "t": ty(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	}
	return M{"k": "reg", "n": v.Name(), "t": ty(v.Type())}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon, m M) {
	m["args"] = vals(c.Args)
	m["sig"] = sig(c.Signature())
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
}

func instr(i ssa.Instruction) M {
	m := M{"p": pos(i.Pos())}
	if v, ok := i.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = ty(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = i.Heap
		m["c"] = i.Comment
	case *ssa.BinOp:
		m["op"], m["o"], m["x"], m["y"] = "binop", i.Op.String(), val(i.X), val(i.Y)
	case *ssa.UnOp:
		m["op"], m["o"], m["x"], m["ok"] = "unop", i.Op.String(), val(i.X), i.CommaOk
	case *ssa.Call:
		m["op"] = "call"
		call(&i.Call, m)
	case *ssa.Go:
		m["op"] = "go"
		call(&i.Call, m)
	case *ssa.Defer:
		m["op"] = "defer"
		call(&i.Call, m)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.ChangeInterface:
		m["op"], m["x"] = "changeiface", val(i.X)
	case *ssa.ChangeType:
		m["op"], m["x"] = "changetype", val(i.X)
	case *ssa.Convert:
		m["op"], m["x"] = "convert", val(i.X)
	case *ssa.MultiConvert:
		m["op"], m["x"] = "convert", val(i.X)
	case *ssa.MakeInterface:
		m["op"], m["x"] = "makeiface", val(i.X)
	case *ssa.Extract:
		m["op"], m["x"], m["i"] = "extract", val(i.Tuple), i.Index
	case *ssa.Field:
		m["op"], m["x"], m["i"] = "field", val(i.X), i.Field
	case *ssa.FieldAddr:
		m["op"], m["x"], m["i"] = "fieldaddr", val(i.X), i.Field
	case *ssa.Index:
		m["op"], m["x"], m["y"] = "index", val(i.X), val(i.Index)
	case *ssa.IndexAddr:
		m["op"], m["x"], m["y"] = "indexaddr", val(i.X), val(i.Index)
	case *ssa.Lookup:
		m["op"], m["x"], m["y"], m["ok"] = "lookup", val(i.X), val(i.Index), i.CommaOk
	case *ssa.MakeChan:
		m["op"], m["x"] = "makechan", val(i.Size)
	case *ssa.MakeClosure:
		m["op"], m["fn"], m["b"] = "makeclosure", fnKey(i.Fn.(*ssa.Function)), vals(i.Bindings)
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeSlice:
		m["op"], m["x"], m["y"] = "makeslice", val(i.Len), val(i.Cap)
	case *ssa.MapUpdate:
		m["op"], m["m"], m["x"], m["y"] = "mapupdate", val(i.Map), val(i.Key), val(i.Value)
	case *ssa.Next:
		m["op"], m["x"], m["str"] = "next", val(i.Iter), i.IsString
	case *ssa.Range:
		m["op"], m["x"] = "range", val(i.X)
	case *ssa.Phi:
		m["op"], m["e"], m["c"] = "phi", vals(i.Edges), i.Comment
	case *ssa.Select:
		m["op"], m["blocking"] = "select", i.Blocking
		var ss []M
		for _, s := range i.States {
			d := "recv"
			if s.Dir == types.SendOnly {
				d = "send"
			}
			ss = append(ss, M{"dir": d, "ch": val(s.Chan), "v": val(s.Send), "p": pos(s.Pos)})
		}
		m["states"] = ss
	case *ssa.Send:
		m["op"], m["ch"], m["x"] = "send", val(i.Chan), val(i.X)
	case *ssa.Slice:
		m["op"], m["x"], m["lo"], m["hi"], m["max"] = "slice", val(i.X), val(i.Low), val(i.High), val(i.Max)
	case *ssa.SliceToArrayPointer:
		m["op"], m["x"] = "slicetoarrayptr", val(i.X)
	case *ssa.Store:
		m["op"], m["a"], m["x"] = "store", val(i.Addr), val(i.Val)
	case *ssa.TypeAssert:
		m["op"], m["x"], m["at"], m["ok"] = "typeassert", val(i.X), ty(i.AssertedType), i.CommaOk
	case *ssa.If:
		m["op"], m["x"] = "if", val(i.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Panic:
		m["op"], m["x"] = "panic", val(i.X)
	case *ssa.Return:
		m["op"], m["xs"] = "return", vals(i.Results)
	case *ssa.DebugRef:
		m["op"] = "debugref"
	default:
		m["op"] = fmt.Sprintf("unsupported:%T", i)
	}
	return m
}

var std = [][2]string{{"io", "ReadAll"}}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
		packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
		packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(ps) > 0 {
		os.Exit(2)
	}
	fset = ps[0].Fset
	prog, pkgs := ssautil.AllPackages(ps, ssa.BuilderMode(0))
	pkg = pkgs[0]
	pkg.Build()

	fns := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || fns[f] {
			return
		}
		fns[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, mem := range pkg.Members {
		switch mem := mem.(type) {
		case *ssa.Function:
			add(mem)
		case *ssa.Type:
			if n, ok := types.Unalias(mem.Type()).(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	// functions of the standard library that are verified from their source too
	for _, x := range std {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == x[0] {
				p.Build()
				add(p.Func(x[1]))
			}
		}
	}
	out := M{}
	fl := M{}
	// helpers of generic receivers etc. are reached through their origins
	for f := range fns {
		if f.Synthetic != "" && f.Name() != "init" && f.Parent() == nil {
			continue
		}
		fm := M{"name": fnKey(f), "pos": pos(f.Pos()), "sig": sig(f.Signature), "exported": f.Object() != nil && f.Object().Exported(), "synthetic": f.Synthetic}
		params, fv := []M{}, []M{}
		for _, p := range f.Params {
			params = append(params, M{"n": p.Name(), "t": ty(p.Type())})
		}
		for _, p := range f.FreeVars {
			fv = append(fv, M{"n": p.Name(), "t": ty(p.Type())})
		}
		fm["params"], fm["freevars"] = params, fv
		var blocks []M
		for _, b := range f.Blocks {
			bm := M{"i": b.Index, "c": b.Comment}
			succ, pred := []int{}, []int{}
			for _, s := range b.Succs {
				succ = append(succ, s.Index)
			}
			for _, s := range b.Preds {
				pred = append(pred, s.Index)
			}
			bm["succ"], bm["pred"] = succ, pred
			var is []M
			for _, i := range b.Instrs {
				is = append(is, instr(i))
			}
			bm["instrs"] = is
			blocks = append(blocks, bm)
		}
		fm["blocks"] = blocks
		if f.Recover != nil {
			fm["recover"] = f.Recover.Index
		}
		fl[fnKey(f)] = fm
	}
	out["funcs"] = fl
	// methods of every named type, for interface dispatch
	var named []M
	names := pkg.Pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok {
			continue
		}
		ms := M{}
		for i := 0; i < nt.NumMethods(); i++ {
			ms[nt.Method(i).Name()] = fnKey(prog.FuncValue(nt.Method(i)))
		}
		named = append(named, M{"n": n, "t": ty(nt), "methods": ms})
	}
	out["named"] = named
	var globals []M
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			globals = append(globals, M{"n": g.Name(), "t": ty(g.Type())})
		}
	}
	out["globals"] = globals
	out["types"] = tlist
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(os.Args[2], b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
