// gvcextract loads /repo's current source and writes the typed SSA of the
// requested packages as JSON: types, globals, functions, method tables.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type M map[string]interface{}

var (
	typeMap  typeutil.Map
	typeList []M
	prog     *ssa.Program
	fset     *token.FileSet
	funcs    = map[*ssa.Function]string{}
	queue    []*ssa.Function
	nameUsed = map[string]int{}
	outFuncs = M{}
	want     = map[*types.Package]bool{}
	globals  = M{}
	methods  = map[string]map[string]string{}
)

const mod = "github.com/aceld/zinx/"

func short(s string) string { return strings.ReplaceAll(s, mod, "") }

func tid(t types.Type) int {
	t = types.Unalias(t)
	if v := typeMap.At(t); v != nil {
		return v.(int)
	}
	id := len(typeList)
	typeMap.Set(t, id)
	m := M{"id": id, "str": short(types.TypeString(t, nil))}
	typeList = append(typeList, m)
	switch u := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		m["under"] = tid(u.Underlying())
		if u.Obj().Pkg() != nil {
			m["pkg"] = short(u.Obj().Pkg().Path())
		}
		m["name"] = u.Obj().Name()
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = u.Name()
		m["info"] = int(u.Info())
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = tid(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = tid(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = tid(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = tid(u.Key())
		m["elem"] = tid(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = tid(u.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, M{"name": u.Field(i).Name(), "type": tid(u.Field(i).Type()), "emb": u.Field(i).Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "interface"
		ms := []string{}
		sg := M{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
			sg[u.Method(i).Name()] = tid(u.Method(i).Type())
		}
		m["methods"] = ms
		m["msigs"] = sg
	case *types.Signature:
		m["kind"] = "func"
		ps, rs := []int{}, []int{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, tid(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, tid(u.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = u.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		rs := []int{}
		for i := 0; i < u.Len(); i++ {
			rs = append(rs, tid(u.At(i).Type()))
		}
		m["elems"] = rs
	default:
		m["kind"] = "other"
	}
	return id
}

// fname gives a function a stable readable name and queues its body.
func fname(f *ssa.Function) string {
	if n, ok := funcs[f]; ok {
		return n
	}
	n := short(f.String())
	if k := nameUsed[n]; k > 0 {
		nameUsed[n] = k + 1
		n = fmt.Sprintf("%s!%d", n, k)
	} else {
		nameUsed[n] = 1
	}
	funcs[f] = n
	queue = append(queue, f)
	return n
}

func val(v ssa.Value) M {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "t": tid(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.String:
				m["v"] = constant.StringVal(x.Value)
				m["vk"] = "string"
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
				m["vk"] = "bool"
			case constant.Int:
				m["v"] = x.Value.ExactString()
				m["vk"] = "int"
			case constant.Float:
				m["v"] = x.Value.ExactString()
				m["vk"] = "float"
			default:
				m["v"] = x.Value.ExactString()
				m["vk"] = "other"
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "global", "n": short(x.Pkg.Pkg.Path()) + "." + x.Name(), "t": tid(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x), "t": tid(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "param", "n": x.Name(), "t": tid(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "free", "n": x.Name(), "t": tid(x.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["mode"] = "invoke"
		m["recv"] = val(c.Value)
		m["method"] = c.Method.Name()
		m["itype"] = tid(c.Value.Type())
		m["sig"] = tid(c.Method.Type())
	} else {
		m["mode"] = "call"
		m["fn"] = val(c.Value)
		m["sig"] = tid(c.Value.Type())
	}
	return m
}

func instr(in ssa.Instruction) M {
	m := M{}
	p := fset.Position(in.Pos())
	if p.IsValid() {
		m["line"] = p.Line
	}
	if v, ok := in.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["t"] = tid(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["comment"] = x.Comment
	case *ssa.BinOp:
		m["op"], m["tok"], m["x"], m["y"] = "BinOp", x.Op.String(), val(x.X), val(x.Y)
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["op"] = "Go"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = call(&x.Call)
	case *ssa.ChangeInterface:
		m["op"], m["x"] = "ChangeInterface", val(x.X)
	case *ssa.ChangeType:
		m["op"], m["x"] = "ChangeType", val(x.X)
	case *ssa.Convert:
		m["op"], m["x"] = "Convert", val(x.X)
	case *ssa.MultiConvert:
		m["op"], m["x"] = "Convert", val(x.X)
	case *ssa.Extract:
		m["op"], m["x"], m["i"] = "Extract", val(x.Tuple), x.Index
	case *ssa.Field:
		m["op"], m["x"], m["i"] = "Field", val(x.X), x.Field
	case *ssa.FieldAddr:
		m["op"], m["x"], m["i"] = "FieldAddr", val(x.X), x.Field
	case *ssa.If:
		m["op"], m["x"] = "If", val(x.Cond)
	case *ssa.Index:
		m["op"], m["x"], m["y"] = "Index", val(x.X), val(x.Index)
	case *ssa.IndexAddr:
		m["op"], m["x"], m["y"] = "IndexAddr", val(x.X), val(x.Index)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Lookup:
		m["op"], m["x"], m["y"], m["ok"] = "Lookup", val(x.X), val(x.Index), x.CommaOk
	case *ssa.MakeChan:
		m["op"], m["x"] = "MakeChan", val(x.Size)
	case *ssa.MakeClosure:
		m["op"], m["fn"], m["args"] = "MakeClosure", val(x.Fn), vals(x.Bindings)
	case *ssa.MakeInterface:
		m["op"], m["x"] = "MakeInterface", val(x.X)
		dumpMethods(x.X.Type())
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"], m["x"], m["y"] = "MakeSlice", val(x.Len), val(x.Cap)
	case *ssa.MapUpdate:
		m["op"], m["x"], m["y"], m["z"] = "MapUpdate", val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Next:
		m["op"], m["x"], m["str"] = "Next", val(x.Iter), x.IsString
	case *ssa.Panic:
		m["op"], m["x"] = "Panic", val(x.X)
	case *ssa.Phi:
		m["op"], m["args"], m["comment"] = "Phi", vals(x.Edges), x.Comment
	case *ssa.Range:
		m["op"], m["x"] = "Range", val(x.X)
	case *ssa.Return:
		m["op"], m["args"] = "Return", vals(x.Results)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Select:
		m["op"] = "Select"
		m["blocking"] = x.Blocking
		st := []M{}
		for _, s := range x.States {
			st = append(st, M{"dir": int(s.Dir), "ch": val(s.Chan), "v": val(s.Send)})
		}
		m["states"] = st
	case *ssa.Send:
		m["op"], m["x"], m["y"] = "Send", val(x.Chan), val(x.X)
	case *ssa.Slice:
		m["op"], m["x"], m["lo"], m["hi"], m["max"] = "Slice", val(x.X), val(x.Low), val(x.High), val(x.Max)
	case *ssa.SliceToArrayPointer:
		m["op"], m["x"] = "SliceToArrayPointer", val(x.X)
	case *ssa.Store:
		m["op"], m["x"], m["y"] = "Store", val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		m["op"], m["x"], m["at"], m["ok"] = "TypeAssert", val(x.X), tid(x.AssertedType), x.CommaOk
	case *ssa.UnOp:
		m["op"], m["tok"], m["x"], m["ok"] = "UnOp", x.Op.String(), val(x.X), x.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func dumpMethods(t types.Type) {
	key := fmt.Sprint(tid(t))
	if _, ok := methods[key]; ok {
		return
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return
	}
	tab := map[string]string{}
	methods[key] = tab
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := prog.MethodValue(ms.At(i))
		if f != nil {
			tab[ms.At(i).Obj().Name()] = fname(f)
		}
	}
}

func wantBody(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	p := f.Pkg
	if p == nil {
		// wrappers, bound methods, thunks, instantiations
		if f.Object() != nil && f.Object().Pkg() != nil {
			return want[f.Object().Pkg()]
		}
		return f.Synthetic != ""
	}
	return want[p.Pkg]
}

func dumpFunc(f *ssa.Function) {
	m := M{"name": funcs[f], "sig": tid(f.Signature)}
	if f.Pkg != nil {
		m["pkg"] = short(f.Pkg.Pkg.Path())
	}
	if f.Synthetic != "" {
		m["synthetic"] = f.Synthetic
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	p := fset.Position(f.Pos())
	if p.IsValid() {
		m["file"], m["line"] = strings.TrimPrefix(p.Filename, "/repo/"), p.Line
	}
	ps := []M{}
	for _, x := range f.Params {
		ps = append(ps, M{"n": x.Name(), "t": tid(x.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, x := range f.FreeVars {
		fv = append(fv, M{"n": x.Name(), "t": tid(x.Type())})
	}
	m["free"] = fv
	rn := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	m["resnames"] = rn
	if wantBody(f) {
		bs := []M{}
		for _, b := range f.Blocks {
			is := []M{}
			for _, in := range b.Instrs {
				if im := instr(in); im != nil {
					is = append(is, im)
				}
			}
			su, pr := []int{}, []int{}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bs = append(bs, M{"i": b.Index, "in": is, "succs": su, "preds": pr, "c": b.Comment})
		}
		m["blocks"] = bs
		if f.Recover != nil {
			m["recover"] = f.Recover.Index
		}
	}
	outFuncs[funcs[f]] = m
}

func main() {
	// usage: gvcextract OUT repoDir pkg,pkg,... [stdpkg,stdpkg]
	out, dir := os.Args[1], os.Args[2]
	var pats []string
	for _, p := range strings.Split(os.Args[3], ",") {
		pats = append(pats, "./"+p)
	}
	if len(os.Args) > 4 && os.Args[4] != "" {
		pats = append(pats, strings.Split(os.Args[4], ",")...)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps,
		Dir: dir,
	}
	cfg.Mode = packages.LoadSyntax
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, ssa.BuilderMode(0)|ssa.InstantiateGenerics)
	fset = prog.Fset
	for _, sp := range spkgs {
		if sp != nil {
			want[sp.Pkg] = true
		}
	}
	prog.Build()
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := sp.Members[n].(type) {
			case *ssa.Function:
				if x.TypeParams().Len() == 0 {
					fname(x)
				}
			case *ssa.Global:
				globals[short(sp.Pkg.Path())+"."+n] = M{"t": tid(x.Type().(*types.Pointer).Elem())}
			case *ssa.Type:
				t := x.Type()
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				tid(t)
				dumpMethods(t)
				dumpMethods(types.NewPointer(t))
			}
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		dumpFunc(f)
		for _, a := range f.AnonFuncs {
			if wantBody(a) {
				fname(a)
			}
		}
	}
	res := M{"types": typeList, "funcs": outFuncs, "globals": globals, "methods": methods}
	fh, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	if err := json.NewEncoder(fh).Encode(res); err != nil {
		panic(err)
	}
}
